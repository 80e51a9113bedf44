"""The tokenizer: C16 and C17."""
import itertools, json, random, re, string
import vlib

ERR = ["error", "fatal", "failure", "failed", "warning", "err", "fail", "warn", "denied", "assert", "assertion", "exception", "traceback"]
DAYS = ["sunday", "monday", "tuesday", "wednesday", "thursday", "friday", "saturday"]
MONTHS = ["january", "february", "march", "april", "may", "june", "july", "august", "september", "october", "november", "december"]
DATES = DAYS + MONTHS
SHORT = sorted({d[:3] for d in DATES})
RESERVED = re.compile(r"tmp|^(tap|tx|req|auth|aaaa|gaaaa|hash|sha|md|http|https|ftp|ssh|refs|repos)", re.I)
IDKEY = re.compile(r"id|key|ref|region|token|secret|password", re.I)
HEXA = re.compile(r"^[0-9a-fxz]*$", re.I)
IDS = ["id", "key", "ref", "region", "token", "secret", "password"]


# how volatile fields start: with other letters after, these are ordinary words
LOOKALIKE = ["repos", "http", "https", "ftp", "ssh", "hash", "sha", "req", "auth"]


def plain(rng, n):
    """an ordinary word of n letters"""
    if n > 4 and rng.random() < .08:
        p = rng.choice([x for x in LOOKALIKE if len(x) < n])
        w = p + "".join(rng.choice("bghjlmnoqvwy") for _ in range(n - len(p)))
        return cased(rng, w)
    while True:
        w = "".join(rng.choice(string.ascii_lowercase) for _ in range(n))
        if RESERVED.search(w) or IDKEY.search(w) or HEXA.match(w) or w in ERR or w in DATES or w in SHORT:
            continue
        if n == 2 and w in ("md", "tx") or w.startswith("u"):
            continue
        return cased(rng, w)


def cased(rng, w):
    return rng.choice([w, w, w.capitalize(), w.upper()])


def idkey(rng, n):
    k = rng.choice([x for x in IDS if len(x) <= n])
    while True:
        r = "".join(rng.choice("ghjlmnoqsvw") for _ in range(n - len(k)))
        at = rng.randrange(len(r) + 1)
        w = r[:at] + k + r[at:]
        if not RESERVED.search(w) and not HEXA.match(w):
            return cased(rng, w)


def digits(rng, n):
    return "".join(rng.choice("0123456789") for _ in range(n))


def hexa(rng, n):
    return "".join(rng.choice("0123456789abcdef") for _ in range(n))


def alnum(rng, n, extra=""):
    while True:
        w = "".join(rng.choice(string.ascii_letters + string.digits + extra) for _ in range(n))
        if not RESERVED.search(w) and not HEXA.match(w) and not (n > 4 and w[0] in "uU"):
            return w


def name(rng, lo, hi):
    return "".join(rng.choice("ghjklmnpqrsvwyz") for _ in range(rng.randint(lo, hi)))


def url(rng, n):
    u = rng.choice(["http", "https", "ftp", "ssh", "HTTP", "Https"]) + "://"
    u += rng.choice([name(rng, 3, 6) + ".org", name(rng, 4, 7), "10.%d.0.%d" % (rng.randrange(256), rng.randrange(256)), "[fd00::%x]" % rng.randrange(1, 65536)])
    u += rng.choice(["", "", ":%d" % rng.randrange(1, 65536)])
    while len(u) + 7 < n:
        u += "/" + rng.choice([name(rng, 1, 5), digits(rng, 3), hexa(rng, 5)])
    if rng.random() < .3 and len(u) + 6 < n:
        u += "?%s=%s" % (name(rng, 1, 2), digits(rng, 2))
    return u if u[-1] != "]" else u + "/"


def odd(rng, n):
    while True:
        w = alnum(rng, 1) + "".join(rng.choice(string.ascii_letters + string.digits + "<>{}%$,*!^@:&") for _ in range(n - 2)) + rng.choice(string.ascii_letters)
        if re.search(r"[<>{}%$,*]", w[1:-1]) and not re.match(r"tap|tx|u['\"]|(sha|md|hash)\d*:", w, re.I) and "tmp" not in w:
            return w


def atom(a, rng):
    k, n = a["k"], a["n"]
    if a["sep"]:
        return a["sep"]
    if k in ("word", "small"):
        return plain(rng, n)
    if k == "idkey":
        return idkey(rng, n)
    if k == "err":
        return cased(rng, rng.choice([e for e in ERR if len(e) == n]))
    if k == "date":
        return cased(rng, rng.choice([d for d in DATES + SHORT if len(d) == n and not (a["i"] and d == "friday")]))  # friday reads as a key of an id
    if k == "num":
        return digits(rng, n)
    if k == "hex":
        if n > 3 and rng.random() < .1:
            return "0x" + hexa(rng, n - 2)
        h = hexa(rng, n - 2) + rng.choice("abcdef") if n > 1 else ""
        return digits(rng, 1) + h
    if k == "hexl":
        h = rng.choice("abcdef") + hexa(rng, n - 1)
        return h if rng.random() < .7 else h.upper()
    if k == "wnum":
        return plain(rng, 4) + digits(rng, n - 4) if n > 4 else alnum(rng, n)
    if k in ("T", "Z"):
        return k
    if k == "url":
        return url(rng, n)
    if k == "tmp":
        while True:
            w = rng.choice(["/tmp/", "/var/tmp/", "/tmp.", "/home/tmp/"])
            w += alnum(rng, max(2, n - len(w)), "_")
            if not RESERVED.search(w[4:].replace("tmp", "", 1)):
                return w
    if k == "tmpname":
        return "tmp" + alnum(rng, n - 3, "_")
    if k == "cookie":
        w = rng.choice(["req-", "AUTH_", "tap", "txa", "txz"])
        return (w + hexa(rng, max(1, n - len(w) - 3)) + "-" + hexa(rng, 2)) if w != "AUTH_" else w + hexa(rng, n - 5)
    if k == "fernet":
        return rng.choice(["gAAAAA", "AAAAB3Nz", "AAAAE2"]) + alnum(rng, n - 8)
    if k == "b64":
        return alnum(rng, n // 2) + alnum(rng, n - n // 2, "+/")
    if k == "b64p":
        while True:
            w = alnum(rng, n - 2, rng.choice(["", "+/", "-_", "-_"]))
            if w[0].isalnum():
                return w + "=="
    if k == "csrf":
        return rng.choice(["", "."]) + alnum(rng, n, rng.choice(["", "_-", "+/", "-", "_-"]))
    if k == "secret":
        return rng.choice([alnum, plain, lambda r, m: plain(r, m - 2) + digits(r, 2)])(rng, n)
    if k == "ref":
        w = rng.choice(["refs/", "repos/"])
        return w + "/".join([name(rng, 1, 1)] + [x for x in re.findall(".{1,7}", alnum(rng, max(1, n - len(w) - 2)))])[:n - len(w)]
    if k == "odd":
        return odd(rng, n)
    if k == "hashp":
        w = rng.choice(["sha256:", "md5:", "SHA1:", "hash:", "sha512:"]) if n != 71 else "sha256:"
        return w + hexa(rng, n - len(w))
    raise ValueError(k)


VOLATILE = ("num", "hex", "hexl", "date", "cookie", "fernet", "url", "tmp", "tmpname", "ref", "b64", "b64p", "odd", "hashp", "T", "Z", "csrf", "secret")


def instance(w, rng, env):
    """the text of a word; the atoms that are not volatile come from env"""
    res = []
    for j, a in enumerate(w):
        if a["sep"] or a["k"] in VOLATILE and not (a["i"] and a["i"] in env.get("kept", ())):
            res.append(atom(a, rng))
        elif a["k"] == "wnum" and a["n"] > 4:
            p = env.setdefault(("p", a["i"]), plain(rng, 4))
            res.append(p + digits(rng, a["n"] - 4))
        elif a["k"] == "wnum":
            res.append(atom(a, rng))
        else:
            res.append(env.setdefault((a["i"], a["k"], a["n"]), None) or env.__setitem__((a["i"], a["k"], a["n"]), atom(a, rng)) or env[(a["i"], a["k"], a["n"])])
    return "".join(res)


def run(ctx, groups, name="tokens"):
    """groups: lists of lines; one list of tokens for each"""
    cases, at = [], []
    cur, n = [], 0
    for g in groups:
        cur.append(g)
        n += len(g)
        if n >= 300:
            cases.append({"lines": [l for x in cur for l in x]})
            at.append(cur)
            cur, n = [], 0
    if cur:
        cases.append({"lines": [l for x in cur for l in x]})
        at.append(cur)
    res = []
    for c, gs, r in zip(cases, at, ctx.harness("tokens", cases, name=name, timeout=ctx.pick(600, 3000))):
        if "out" not in r:
            ctx.violation("tokens:end", "the tokenizer ends with %s" % json.dumps(r)[:200], c, r)
            res += [None] * len(gs)
            continue
        for i in r["differ"]:
            ctx.violation("tokens:state", "the tokens of a line depend on the lines before it", {"line": c["lines"][i]}, r["out"][i])
        i = 0
        for g in gs:
            out = r["out"][i:i + len(g)]
            i += len(g)
            bad = [j for j, o in enumerate(out) if not isinstance(o, str)]
            for j in bad:
                ctx.violation("tokens:panic", "the tokenizer panics", {"line": g[j]}, out[j])
            res.append(None if bad else out)
    return res


def place(word, rng, pos, ws):
    ws = list(ws)
    ws.insert(pos, word)
    return " ".join(ws)


CFG = 'SPECIFICATION Spec\nCONSTANTS Fam = "%s" Variant = "%s"\nINVARIANTS %s\n'


def families(ctx, inv, variants):
    fams = ["short", "chains", "threeshort", "closers"] + (["three"] if ctx.thorough else [])
    for f in fams:
        ctx.tlc("TokenGen", CFG % (f, "fixed", inv), label="Tokens-" + f, timeout=1500)
    for f, v in variants:
        ctx.tlc("TokenGen", CFG % (f, v, inv), label=v, ok=(12,))
    cs = []
    for f in fams:
        out = ctx.path(f + ".nd")
        ctx.tlc("TokenGen", 'SPECIFICATION GenSpec\nCONSTANTS Fam = "%s" Variant = "fixed"\n' % f, env={"OUT": out}, workers=1, label="gen-" + f, timeout=1500)
        cs += vlib.read_nd(out)
    return cs


def context(rng):
    return [plain(rng, rng.randint(4, 9)) for _ in range(2)]


def c16(ctx):
    cs = families(ctx, "InvVolatile", [])
    ctx.tlc("TokenFields", 'SPECIFICATION Spec\nCONSTANTS Variant = "fixed"\nINVARIANT InvSame\n')
    ctx.tlc("TokenFields", 'SPECIFICATION Spec\nCONSTANTS Variant = "uid-digits"\nINVARIANT InvSame\n', label="uid-digits", ok=(12,))
    out = ctx.path("fields.nd")
    ctx.tlc("TokenFields", 'SPECIFICATION GenSpec\nCONSTANTS Variant = "fixed"\n', env={"OUT": out}, workers=1, label="gen-fields")
    fields = vlib.read_nd(out)
    rng = random.Random(ctx.seed)
    groups, info = [], []
    # the fields, in their contexts, at each place of a line
    for f in fields:
        for pos in range(3):
            env, ws = {}, context(rng)
            insts = []
            for w in (f["words"] if len(f["words"]) < 12 else rng.sample(f["words"], ctx.pick(12, min(60, len(f["words"]))))):
                for _ in range(ctx.pick(2, 12) if len(f["words"]) > 3 else ctx.pick(6, 40)):
                    insts.append(place(instance(w, rng, env), rng, pos, ws))
            groups.append(insts)
            info.append("the field %s (%s)" % (f["field"], f["ctx"]))
    nf = len(groups)
    # the words with volatile atoms of other values and sizes
    by = {}
    for c in cs:
        vol = [a for a in c["w"] if not a["sep"] and a["k"] in ("num", "hex", "date", "wnum")]
        if vol:
            key = json.dumps([[(a["k"], a["sep"], a["i"], 0 if a["k"] in ("num", "hex", "wnum", "date") else a["n"]) for a in c["w"]], c["out"]])
            by.setdefault(key, []).append(c)
    for key, g in by.items():
        env, ws, pos = {"kept": set(i for c in g for i in c["kept"])}, context(rng), rng.randrange(3)
        # a hexadecimal or a date shown in a token is not volatile
        if any(a["i"] in env["kept"] and a["k"] in ("hex", "date") and len({c["w"][j]["n"] for c in g}) > 1 for c in g for j, a in enumerate(c["w"])):
            g = g[:1]
        insts = [place(instance(c["w"], rng, env), rng, pos, ws) for c in (g if len(g) < 8 else rng.sample(g, 8)) for _ in range(3 if len(g) == 1 else 2)]
        groups.append(insts)
        info.append("the word %s" % "".join(a["sep"] or a["k"] for a in g[0]["w"]))
    # lines of several fields
    simple = [f for f in fields if f["ctx"] in ("plain", "comma", "quote", "eq", "bracket")]
    for _ in range(ctx.pick(1500, 20000)):
        fs = [rng.choice(simple) for _ in range(rng.randint(2, 4))]
        ws = [plain(rng, rng.randint(4, 9)) for _ in range(rng.randint(1, 3))]
        order = [("f", f, rng.choice(f["words"]), {}) for f in fs] + [("w", w, None, None) for w in ws]
        rng.shuffle(order)
        groups.append([" ".join(instance(rng.choice(o[1]["words"]), rng, o[3]) if o[0] == "f" else o[1] for o in order) for _ in range(4)])
        info.append("a line of fields")
    # spaces, quotes and punctuation
    ns = len(groups)
    for _ in range(ctx.pick(3000, 40000)):
        n = rng.randint(1, 5)
        ws = []
        for _ in range(n):
            if rng.random() < .4:
                f = rng.choice([f for f in simple if f["ctx"] in ("plain", "eq") and f["field"] != "pidcolon"])
                ws.append(instance(rng.choice(f["words"]), rng, {}))
            else:
                ws.append(plain(rng, rng.randint(4, 9)) if rng.random() < .8 else cased(rng, rng.choice(ERR)))
        groups.append([" ".join(ws)] + [dress(ws, rng) for _ in range(4)])
        info.append("spaces, quotes and punctuation")
    # the noise lines, and the lines of one word, within spaces
    for _ in range(ctx.pick(60, 600)):
        for l in ("++ echo %s" % plain(rng, 7), "^%s %s 3 6 377" % (rng.choice("+*-"), name(rng, 5, 9)), "%s>%s sending key" % (hexa(rng, 3), digits(rng, 2)),
                  "|" + plain(rng, 17)[:17] + "|", "* %s: %s.org" % (name(rng, 3, 6), name(rng, 3, 6)), plain(rng, 8), "%s=%s" % (plain(rng, 5), plain(rng, 6))):
            groups.append([l] + [rng.choice([" ", "\t", "   ", ""]) + l + rng.choice(["", " ", "\n", "\r\n", "\t "]) for _ in range(4)])
            info.append("noise within spaces")
    for g, o, what in zip(groups, run(ctx, groups), info):
        if o is None:
            continue
        ctx.traces += len(g)
        for l, t in zip(g, o):
            if t != o[0]:
                ctx.violation("tokens:volatile", "%s: %r gives %r, %r gives %r" % (what, g[0], o[0], l, t), {"lines": [g[0], l]}, [o[0], t])
                break
    ctx.sample({"field": fields[0]["field"], "lines": groups[0][:3]})
    ctx.sample({"what": info[nf], "lines": groups[nf][:3]})
    ctx.sample({"what": "spaces and quotes", "lines": groups[ns][:3]})


WRAPS = ["%s", "'%s'", '"%s"', "(%s)", "[%s]", "{%s}", "<%s>", "%s,", "%s;", "('%s')", "[\"%s\",", "{'%s'}", "'%s',", "%s)", "(%s", "<<%s>>", "%s;;", "\"%s", "%s]"]


def dress(ws, rng):
    spaces = [" ", "  ", "\t", " \t ", "     ", " \\r", "\\n ", "\t\\r\\n"]
    l = rng.choice(["", " ", "\t", "    "])
    for j, w in enumerate(ws):
        l += (rng.choice(spaces) if j else "") + (rng.choice(WRAPS) % w if rng.random() < .7 else w)
    return l + rng.choice(["", " ", "\n", "\r\n", "\t\n", "  "])


def c17(ctx):
    cs = families(ctx, "InvKeeps", [("chains", "dash-first"), ("chains", "drop-left"), ("chains", "drop-key"), ("chains", "small-4"), ("chains", "big-24")])
    rng = random.Random(ctx.seed)
    for f in ("http", "mirror", "tools", "chrony", "echo"):
        ctx.tlc("TokenNoise", 'SPECIFICATION Spec\nCONSTANTS Fam = "%s" Variant = "fixed"\nINVARIANTS InvKept InvPrefix InvStart InvWord\n' % f, label="Noise-" + f)
    for f, v in (("chrony", "anywhere"), ("tools", "loose")):
        ctx.tlc("TokenNoise", 'SPECIFICATION Spec\nCONSTANTS Fam = "%s" Variant = "%s"\nINVARIANTS InvKept InvPrefix InvStart InvWord\n' % (f, v), label=v, ok=(12,))
    # the words of the specification: what is kept, and its replacement
    groups, info = [], []
    for c in cs:
        word = [a for a in c["w"] if a["k"] in ("word", "idkey", "err", "wnum") and a["i"] in c["kept"]]
        ws, pos = context(rng), rng.randrange(3)
        env = {}
        l1 = place(instance(c["w"], rng, env), rng, pos, ws)
        shown = [env[(a["i"], a["k"], a["n"])] if a["k"] != "wnum" else env[("p", a["i"])] for a in word]
        lines, other = [l1], []
        for a in word:
            k = (a["i"], a["k"], a["n"]) if a["k"] != "wnum" else ("p", a["i"])
            e2 = dict(env)
            while True:
                e2[k] = atom(a, rng) if a["k"] != "wnum" else plain(rng, 4)
                if e2[k].lower() != env[k].lower():
                    break
            # the rest of the word is the same text
            lines.append(l1.replace(env[k], e2[k]))
        groups.append(lines)
        info.append((c, ws, word, shown, env))
    for g, o, (c, ws, word, shown, env) in zip(groups, run(ctx, groups), info):
        if o is None:
            continue
        ctx.traces += len(g)
        what = "".join(a["sep"] or a["k"] for a in c["w"])
        miss = [w for w in shown + ws if w not in o[0]]
        if miss:
            ctx.violation("tokens:kept", "%r gives %r: %s is lost" % (g[0], o[0], miss[0]), {"line": g[0], "word": what}, o[0])
            continue
        for j, l in enumerate(g[1:]):
            if o[j + 1] == o[0]:
                ctx.violation("tokens:same", "%r and %r both give %r" % (g[0], l, o[0]), {"lines": [g[0], l]}, o)
                break
        for a, s in zip(word, shown):
            if a["k"] == "err" and a["i"] in c["err"] and o[0].count(s) < 5:
                ctx.violation("tokens:error", "%r gives %r: %s is not amplified" % (g[0], o[0], s), {"line": g[0]}, o[0])
    ctx.sample({"line": groups[5][0], "kept": info[5][3]})
    errors(ctx, rng)
    common(ctx, rng)
    noise(ctx, rng)
    total(ctx, rng)


def errors(ctx, rng):
    """every error word, in every case and place; the look-alikes are ordinary words"""
    groups, info = [], []
    for e in ERR + ["non-zero"]:
        for w in (e, e.capitalize(), e.upper()):
            for wrap in ("%s", "'%s'", "(%s)", "[%s]", "%s,", "%s:", "zorglub=%s", "zorglub:%s", "\"%s\":", "<%s>", "%s;"):
                for pos in range(3):
                    ws = context(rng)
                    groups.append([place(wrap % w, rng, pos, ws), place(wrap % "zyqum", rng, pos, ws)])
                    info.append((w, ws))
    for g, o, (w, ws) in zip(groups, run(ctx, groups, "errors"), info):
        if o is None:
            continue
        ctx.traces += 1
        if o[0].count(w) < 5:
            ctx.violation("tokens:error", "%r gives %r: %s is not amplified" % (g[0], o[0], w), {"line": g[0]}, o[0])
        elif o[1].count("zyqum") != 1:
            ctx.violation("tokens:error", "%r gives %r: an ordinary word is amplified" % (g[1], o[1]), {"line": g[1]}, o[1])
        elif [x for x in ws if x not in o[0]]:
            ctx.violation("tokens:kept", "%r gives %r: a word is lost" % (g[0], o[0]), {"line": g[0]}, o[0])


COMMON = """user name host path file status code node session request response server client service process thread worker task module class method
function package version command option argument value type state mode level result reason message action event event_type phase stage step job build branch change project pipeline
tenant queue executor nodeset label playbook role play inventory source target branch_name commit author email owner group pass passwd login auth authentication authorization certificate
address interface network subnet port protocol socket route gateway bridge device driver disk volume mount partition memory swap cache buffer page cpu kernel image container pod namespace
cluster deployment replica config configuration settings profile policy rule filter zone domain hostname username database table column query transaction schema index backup restore
time timeout duration delay retry attempt count size length limit offset total number date timestamp start started stop stopped finish finished end begin created deleted updated changed
running pending active inactive enabled disabled success successful succeeded complete completed passed skipped ignored aborted cancelled canceled rejected refused rescued unreachable
unable cannot missing found existing unexpected expected unknown undefined null none true false default custom local remote public private global internal external upstream
downstream debug info notice critical alert emergency verbose trace panic crash killed died signal segfault core dump stack frame line column return exit
connection connected disconnected connect bind listen accept send sent receive received read write open close opened closed load loaded save saved
http https ssh ftp sftp rsync docker podman git ansible python ruby node java systemd kernel selinux apache nginx rabbitmq mysql postgres redis
summary percent rate average minimum maximum mirror download upload artifact package install installed remove removed upgrade upgraded
the and with from this that into over under before after during while because since until""".split()


def common(ctx, rng):
    """common words of logs are ordinary words: kept alone, as a key and as a value, and the value of such a key is kept"""
    words = [w for w in dict.fromkeys(COMMON) if len(w) > 3 and not IDKEY.search(w) and not HEXA.match(w) and w not in ERR and w not in DATES + SHORT]
    groups, info = [], []
    for w0 in words:
        for w in (w0, w0.capitalize(), w0.upper()):
            if w.startswith(("AUTH_", "tap", "tx")):
                continue
            ws, pos = context(rng), rng.randrange(3)
            v, v2 = "zorglub", "zyqum"
            for f, what in (("%s", [w]), ("%s=" + v, [v]), ("%s:" + v, [w, v]), (v + "=%s", [w, v]), ("my_%s=" + v, [v]), ("%s_" + v2 + "=" + v, [v]),
                            ("'%s': '" + v + "',", [w, v]), ("\"%s\": \"" + v + "\"", [w, v]), ("%s-" + v, [w, v]), (v + "/%s/" + v2, [w, v, v2]), ("[%s]", [w]), ("%s(" + v + ")", [w, v])):
                t = f % w
                if max(map(len, t.split())) > 24 or t.startswith("AUTH_"):  # C17 does not speak of longer groups
                    continue
                groups.append([place(t, rng, pos, ws)])
                info.append((what, ws))
    for g, o, (what, ws) in zip(groups, run(ctx, groups, "common"), info):
        if o is None:
            continue
        ctx.traces += 1
        miss = [x for x in what + ws if x not in o[0]]
        if miss:
            ctx.violation("tokens:kept", "%r gives %r: %s is lost" % (g[0], o[0], miss[0]), {"line": g[0]}, o[0])
        elif "%A" in o[0]:
            ctx.violation("tokens:error", "%r gives %r: an ordinary word is amplified" % (g[0], o[0]), {"line": g[0]}, o[0])


def noise(ctx, rng):
    """the lines that are ignored, and those that are not"""
    groups, info = [], []
    for f in ("http", "mirror", "tools", "chrony", "echo"):
        out = ctx.path("noise-%s.nd" % f)
        ctx.tlc("TokenNoise", 'SPECIFICATION GenSpec\nCONSTANTS Fam = "%s" Variant = "fixed"\n' % f, env={"OUT": out}, workers=1, label="gen-noise-" + f)
        x = vlib.read_nd(out)
        for c in x if ctx.thorough else rng.sample(x, min(len(x), 15000)):
            groups.append([" ".join(c["l"])])
            info.append(c["f"])
    # key's randomart
    for q in ("", "'", '"', " \"", "',", "  "):
        for n in range(15, 20):
            for e in ("", ",", "'", " "):
                groups.append([q + "|" + "".join(rng.choice(" .=+oO*B") for _ in range(n - 1)) + " |" + e])
                info.append(n == 17)
    # ordinary words, and one word
    for _ in range(ctx.pick(3000, 30000)):
        ws = [plain(rng, rng.randint(4, 12)) for _ in range(rng.randint(1, 6))]
        groups.append([rng.choice(["", " "]) + rng.choice([" ", "  ", "\t"]).join(ws) + rng.choice(["", "\n", " "])])
        info.append(len(ws) == 1)
    for g, o, want in zip(groups, run(ctx, groups, "noise"), info):
        if o is None:
            continue
        ctx.traces += 1
        if (o[0] == "%GL_FILTER") != want:
            ctx.violation("tokens:filter", "%r gives %r, wanted %s" % (g[0], o[0], "ignored" if want else "kept"), {"line": g[0]}, o[0])
    ctx.sample({"noise": [g[0] for g, w in zip(groups, info) if w][100:104]})


def total(ctx, rng):
    """the tokenizer returns for every line"""
    groups = []
    classes = list("a0 -/=:|[(@.%_'\",+*\\u") + ["é", "\u2028", "ß", "中", "\U0001f600", "\t", "\r", "\x00", "İ", "ſ", "K"]
    for n in (1, 2, 3):
        for t in itertools.product(classes, repeat=n):
            groups.append(["".join(t), "zorglub zyqum" + "".join(t), "".join(t) + " zorglub", "zo=" + "".join(t) + " zorglub"])
    for _ in range(ctx.pick(3000, 60000)):
        groups.append(["".join(rng.choice(classes) for _ in range(rng.choice([4, 6, 10, 30, 100]))) for _ in range(4)])
    # long lines: every repetition of one to three characters up to the limit of a line
    cl = "a0 -/=:|[(@.%_,+\\é"
    for n in (1, 2, 3):
        ts = list(itertools.product(cl, repeat=n))
        for t in ts if n < 3 or ctx.thorough else rng.sample(ts, 600):
            s = "".join(t)
            groups.append([("zorglub " + s * 6000)[:6000]])
    words = ["zorglub", "zyqum"]
    for g, o in zip(groups, run(ctx, groups, "total")):
        if o is None:
            continue
        ctx.traces += len(g)
    ctx.sample({"arbitrary": groups[-1][0][:40]})

"""Compressed logs: C20."""
import copy, json, random, zlib
import vlib, report
from text import line

READ = 'SPECIFICATION Spec\nCONSTANTS Variant = "%s" MaxMembers = %d MaxBlocks = %d\n%s\n'


def member(blocks, level=6, name=None):
    """The bytes of a member and the offsets of its symbols: the header, each block, the trailer.  Each block ends with a flush."""
    flags = 8 if name else 0
    out = bytearray(b"\x1f\x8b\x08" + bytes([flags]) + b"\0\0\0\0\0\xff" + ((name.encode() + b"\0") if name else b""))
    offs = [0]
    c = zlib.compressobj(level, zlib.DEFLATED, -15)
    crc, n = 0, 0
    for i, b in enumerate(blocks):
        offs.append(len(out))
        out += c.compress(b) + (c.flush(zlib.Z_FULL_FLUSH) if i + 1 < len(blocks) else c.flush(zlib.Z_FINISH))
        crc, n = zlib.crc32(b, crc), n + len(b)
    offs.append(len(out))
    out += crc.to_bytes(4, "little") + n.to_bytes(4, "little")
    return bytes(out), offs


def stream(members, rng):
    out, offs = b"", []
    for m in members:
        b, o = member(m, rng.choice([0, 1, 6, 9]), rng.choice([None, None, "some-name.log"]))
        offs += [len(out) + x for x in o]
        out += b
    return out, offs + [len(out)]


WORDS = ["alpha", "pâté", "日本語", "ßtraße", "request", "(done)", "x=1,y={2}", "\U0001f600"]


def text(i, rng):
    k = rng.random()
    t = i + " " + " ".join(rng.choice(WORDS) for _ in range(rng.choice([1, 3, 8])))
    if k < .15:
        t += " " + "".join(rng.choice("abcdefghijklmnopqrstuvwxyz") for _ in range(rng.choice([60, 700])))
    return t


def cat(pieces, txt):
    return "".join("\n" if x == "n" else txt[x] for x in pieces).encode()


def is_pref(a, b):
    return len(a) <= len(b) and b[:len(a)] == a


def reading(ctx):
    """every damage of the generated files"""
    rng = random.Random(ctx.seed)
    ms = ctx.tlc_gen("GzGen", "CONSTANTS MaxMembers = 2 MaxBlocks = 2", ctx.path("gz.nd"), xss="64m")
    more = ctx.tlc_gen("GzGen", "CONSTANTS MaxMembers = 1 MaxBlocks = 4", ctx.path("gz4.nd"), label="GzGen4")
    ms += rng.sample(more, ctx.pick(150, len(more)))
    if ctx.thorough:
        more = ctx.tlc_gen("GzGen", "CONSTANTS MaxMembers = 3 MaxBlocks = 2", ctx.path("gz3.nd"), label="GzGen3", timeout=2000)
        ms += rng.sample(more, min(len(more), 4000))
    cases, metas = [], []
    for m in ms:
        txt = {}
        for bs in m["members"]:
            for b in bs:
                for x in b:
                    if x != "n":
                        txt[x] = text(x, rng)
        raw, offs = stream([[cat(b, txt) for b in bs] for bs in m["members"]], rng)
        plain = b"".join(cat(b, txt) for bs in m["members"] for b in bs)
        dmg, want = [{}], [("whole", m["whole"])]
        # every truncation point, or some of a long one
        pts = range(len(raw))
        if len(raw) > 400:
            pts = sorted(set(range(0, 40)) | set(range(len(raw) - 40, len(raw))) | set(offs[:-1]) | {o + d for o in offs for d in (-1, 1) if 0 < o + d < len(raw)} | set(rng.sample(pts, 100)))
        for p in pts:
            k = max(i for i, o in enumerate(offs[:-1]) if o <= p)
            dmg.append({"cut": p})
            want.append(("cut", m["cut"][k] if offs[k] == p else m["inside"][k]))
        kinds = []
        for bs in m["members"]:
            kinds += ["h"] + ["b"] * len(bs) + ["t"]
        for k, o in enumerate(offs[:-1]):
            if kinds[k] == "h":
                for d in (0, 1, 2):
                    dmg.append({"flip": o + d, "mask": rng.randrange(1, 256)})
                    want.append(("bad", m["bad"][k]))
            elif kinds[k] == "t":
                for d in range(8):
                    dmg.append({"flip": o + d, "mask": 1 << rng.randrange(8)})
                    want.append(("bad", m["bad"][k]))
            else:
                for _ in range(3):  # some bits of a block mean nothing
                    dmg.append({"flip": rng.randrange(o, offs[k + 1]), "mask": 1 << rng.randrange(8)})
                    want.append(("bits", m["whole"]))
        # anything else at the end is damage
        dmg += [{"add": "1f"}, {"add": "1f8b"}, {"add": b"more text\n".hex()}, {"add": "1f8b0800"}]
        want += [("garbage", m["garbage"])] * 4
        cases.append({"name": rng.choice(["f.log.gz", "f.gz", "x.txt.gz"]), "hex": raw.hex(), "damage": dmg})
        metas.append((m, txt, want))
        if plain:
            cases.append({"name": "f.log.gz", "hex": plain.hex(), "damage": [{}]})
            metas.append((m, txt, [("text", m["text"])]))
            cases.append({"name": "f.log", "hex": plain.hex(), "damage": [{}]})
            metas.append((m, txt, [("whole", m["whole"])]))
    rs = ctx.harness("gz", cases, timeout=ctx.pick(300, 3000))
    for c, (m, txt, want), r in zip(cases, metas, rs):
        full = lambda ls: ["".join(txt[x] for x in l) for l in ls]
        whole = full(m["whole"]["lo"])
        # the number of a line: one more than the newlines before it
        nums, n = {}, 1
        for bs in m["members"]:
            for b in bs:
                for x in b:
                    if x == "n":
                        n += 1
                    else:
                        nums[x] = n
        for d, (k, w), o in zip(c["damage"], want, r.get("out", [])):
            ctx.traces += 1
            small = dict(c, damage=[d])
            if "panic" in o:
                ctx.violation("gz:panic", "the reader panics: %s" % o["panic"], small, o)
                continue
            got = [l for _, l in o["lines"]]
            if k == "bits":
                if "error" not in o and got != whole:
                    ctx.violation("gz:bits", "a damaged file is taken as complete with other lines", small, o, w)
                continue
            if ("error" in o) != (w["end"] == "error"):
                ctx.violation("gz:end", "%s: reading ends with %s instead of %s" % (k, o.get("error", "no error"), w["end"]), small, o, w)
            elif not is_pref(full(w["lo"]), got) or not is_pref(got, full(w["hi"])):
                ctx.violation("gz:lines", "%s: the lines are not those that could be decoded" % k, small, o, w)
            elif [n for n, _ in o["lines"]] != [nums[l[0]] for l in w["hi"]][:len(got)]:
                ctx.violation("gz:numbers", "%s: wrong line numbers" % k, small, o, w)
        if "out" not in r:
            ctx.violation("gz:crash", "reading ends with %s" % r, c, r)
    ctx.sample({"case": cases[1], "observed": rs[1]["out"][:2] if "out" in rs[1] else rs[1]})


def squash(x):
    """a report without the names of the compressed files"""
    x = copy.deepcopy(x)
    for k in ("run_ns", "created"):
        x.pop(k, None)
    for l in x["logs"]:
        l.pop("rel")    # of a single file, it names the scratch directory
    s = json.dumps(x)
    return json.loads(s.replace(".gz", ""))


def worlds(ctx):
    """the account of a tree is the same when some of its files are compressed"""
    rng = random.Random(ctx.seed + 5)
    ws = report.worlds(ctx, slots=3)
    ws = rng.sample([w for w in ws[:-18] if w["target"]], ctx.pick(500, 1500)) + ws[-18:]
    cases = []
    for i, w in enumerate(ws):
        c = report.world(w, i)
        mode = i % 4    # baselines, targets, both, some
        for f in c["files"]:
            if f.get("kind") == "dir":
                continue
            base = f["path"].startswith("base")
            gz = {0: base, 1: not base, 2: True, 3: rng.random() < .5}[mode]
            name = f["path"][:-3] if f["path"].endswith(".gz") else f["path"]
            f["path"] = name + (".gz" if gz else "")
            f["gz"] = gz
            f["level"] = rng.choice([0, 1, 6, 9])
            if f["end"] in ("trunc", "utf8"):
                f["end"] = rng.choice(["trunc", "utf8"]) if gz else "utf8"
        cases.append(c)
    rs = ctx.harness("pipeline", cases, timeout=ctx.pick(300, 2000))
    idx, recs, reps = [], [], []
    for i, (w, c, r) in enumerate(zip(ws, cases, rs)):
        ctx.traces += 1
        if "report" not in r:
            ctx.violation("gz:report", "the report fails: %s" % r, c, r)
            continue
        # the names as the world has them
        real = {("target/" + report.NAMES[(f["group"], f["variant"])]).removesuffix(".gz"): "target/" + report.NAMES[(f["group"], f["variant"])] for f in w["target"]}
        rbase = {report.NAMES[(f["group"], f["variant"])].removesuffix(".gz"): report.NAMES[(f["group"], f["variant"])] for f in w["base"]}
        nm = lambda p: real.get(p.removesuffix(".gz"), p)
        bs = lambda p: p.split("/", 1)[0] + "/" + rbase.get(p.split("/", 1)[1].removesuffix(".gz"), p)
        rep = r["report"]
        for l in rep["logs"]:
            l["path"] = nm(l["path"])
        rep["index_errors"] = [[nm(p) for p in g] for g in rep["index_errors"]]
        rep["read_errors"] = [[nm(p), e] for p, e in rep["read_errors"]]
        for x in rep["indexes"]:
            x["paths"] = [bs(p) for p in x["paths"]]
        rec = report.record(w, [nm(p) for p in r["order"]], True)
        if rec is None:
            ctx.violation("gz:sources", "the sources are %s" % r["order"], c, r)
            continue
        idx.append(i)
        recs.append(rec)
    for i, e in zip(idx, report.expected(ctx, recs)):
        for aspect, what in report.judge(ws[i], e, rs[i]["report"]):
            ctx.violation("gz:report", "compressed: " + what, cases[i], rs[i]["report"], e)


def rich(rng, kind, n):
    """the text of a log: blank, long, escaped, unicode, CRLF or json lines, with or without a final newline"""
    if kind == "json":
        objs = [{"stdout": " ".join(rng.choice(["task", "changed", "skipped", "failed", "reached", "wuggg", "zyppp"]) for _ in range(rng.randrange(2, 9))),
                 "cmd": "a\\nb, {c}", "n": rng.randrange(100), "nested": {"k": ["one word", "more words here"]}} for _ in range(n)]
        return json.dumps(objs, indent=rng.choice([None, 2]))
    ls = []
    for i in range(n):
        x = rng.random()
        t = " ".join(rng.choice(["network", "service", "started", "failed", "reached", "timeout", "zaggg", "wuggg", "日本語", "pâté"]) for _ in range(rng.randrange(2, 8)))
        if x < .1:
            t = ""
        elif x < .15:
            t = t * 400
        elif x < .25:
            t += "\\n" + t[::-1] + " escaped"
        elif x < .3:
            t += "\r"
        ls.append(t)
    return "\n".join(ls) + rng.choice(["", "\n", "\n\n"])


def rich_reports(ctx):
    """the report on a plain baseline and target, and on their compressed copies"""
    rng = random.Random(ctx.seed + 9)
    groups, cases = [], []
    for i in range(ctx.pick(250, 3000)):
        kind = rng.choice(["log", "log", "json"])
        name = {"log": "service.log", "json": "events.json"}[kind]
        n = rng.choice([1, 3, 20, 200, 1200])
        b = rich(rng, kind, n)
        t = rich(rng, kind, rng.choice([1, 5, 60, 700]))
        g = []
        for gb, gt in ((0, 0), (1, 0), (0, 1), (1, 1)):
            fs = []
            for d, x, gz in (("base", b, gb), ("target", t, gt)):
                # the file is a list of lines
                body = x.split("\n")
                if body[-1] == "":
                    fs.append({"path": "%s/dir/%s" % (d, name + (".gz" if gz else "")), "lines": body[:-1], "gz": bool(gz), "level": rng.choice([1, 6, 9]), "end": "eof"})
                else:
                    fs.append({"path": "%s/dir/%s" % (d, name + (".gz" if gz else "")), "lines": body, "gz": bool(gz), "end": "nonl"})
            # a directory or the file itself
            if i % 3 == 0:
                g.append({"files": fs, "base": [fs[0]["path"]], "target": fs[1]["path"]})
            else:
                g.append({"files": fs, "base": ["base"], "target": "target"})
        groups.append(range(len(cases), len(cases) + 4))
        cases += g
    rs = ctx.harness("pipeline", cases, timeout=ctx.pick(400, 3000), name="rich")
    seen = 0
    for g in groups:
        ref = rs[g[0]]
        ctx.traces += 4
        if "report" not in ref:
            ctx.violation("gz:plain", "the report on the plain files fails: %s" % ref, cases[g[0]], ref)
            continue
        seen += ref["report"]["anomalies"] > 0
        for k in g[1:]:
            if "report" not in rs[k]:
                ctx.violation("gz:report", "the report on the compressed files fails: %s" % rs[k], cases[k], rs[k])
                continue
            a, b = squash(ref["report"]), squash(rs[k]["report"])
            if a != b:
                what = [x for x in a if a[x] != b[x]]
                ctx.violation("gz:same", "the report on the compressed files has other %s" % what, cases[k], b, a)
    if seen < len(groups) // 3:
        raise vlib.ToolError("the rich reports have no anomalies")


def c20(ctx):
    ctx.tlc("GzRead", READ % ("fixed", 2, ctx.pick(2, 3), "INVARIANTS Correct Transparent NeverInvented"), timeout=2000)
    ctx.tlc("GzRead", READ % ("fixed", 2, 2, "PROPERTY Terminates"), label="GzRead-ends")
    for v in ("first-member", "eof-on-cut", "text-fallback", "no-checksum", "drop-lines", "partial-line"):
        ctx.tlc("GzRead", READ % (v, 2, 2, "INVARIANTS Correct"), label=v, ok=(12,))
    reading(ctx)
    worlds(ctx)
    rich_reports(ctx)

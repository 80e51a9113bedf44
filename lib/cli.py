"""The command line: C19, C22, C23."""
import concurrent.futures, json, os, pty, random, re, select, shutil, subprocess, tempfile, time
import hashlib
import vlib, report, render
from text import line, ended

NOBODY = 65534


class Box:
    """A scratch directory with a copy of the command line, which runs as an unprivileged user."""
    def __init__(self, ctx):
        self.ctx = ctx
        self.root = tempfile.mkdtemp(prefix="vcli-", dir="/tmp")
        os.chmod(self.root, 0o755)
        self.bin = os.path.join(self.root, "logreduce")
        shutil.copy(vlib.CLI, self.bin)
        os.chmod(self.bin, 0o755)
        self.dir("home")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.root, ignore_errors=True)

    def path(self, *p):
        return os.path.join(self.root, *p)

    def dir(self, *p):
        d = self.path(*p)
        os.makedirs(d, exist_ok=True)
        os.chown(d, NOBODY, NOBODY)
        return d

    def trees(self, worlds):
        """create trees: [(name, files)]"""
        self.ctx.harness("tree", [{"root": self.path(n), "files": fs} for n, fs in worlds], name="trees")

    def env(self, extra=None):
        e = {"PATH": "/usr/bin:/bin", "HOME": self.path("home"), "XDG_CACHE_HOME": self.path("home", "cache"), "RUST_BACKTRACE": "0", "LANG": "C.UTF-8"}
        e.update(extra or {})
        return e

    def run(self, args, cwd=None, env=None, timeout=60):
        try:
            r = subprocess.run([self.bin] + args, cwd=cwd or self.path("home"), env=self.env(env), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               timeout=timeout, user=NOBODY, group=NOBODY, extra_groups=[])
            return {"rc": r.returncode, "out": r.stdout.decode(errors="replace"), "err": r.stderr.decode(errors="replace")}
        except subprocess.TimeoutExpired:
            return {"rc": "hang", "out": "", "err": ""}

    def run_pty(self, args, cwd=None, timeout=60):
        m, s = pty.openpty()
        p = subprocess.Popen([self.bin] + args, cwd=cwd or self.path("home"), env=self.env(), stdin=subprocess.DEVNULL, stdout=s, stderr=subprocess.PIPE, user=NOBODY, group=NOBODY, extra_groups=[])
        os.close(s)
        buf, end = b"", time.time() + timeout
        while time.time() < end:
            if select.select([m], [], [], .2)[0]:
                try:
                    x = os.read(m, 65536)
                except OSError:
                    break
                if not x:
                    break
                buf += x
            elif p.poll() is not None:
                break
        os.close(m)
        err = b""
        try:
            err = p.communicate(timeout=10)[1]
        except subprocess.TimeoutExpired:
            p.kill()
            return {"rc": "hang", "out": "", "err": ""}
        txt = buf.decode(errors="replace").replace("\r\n", "\n")
        return {"rc": p.returncode, "out": txt, "err": err.decode(errors="replace")}

    def map(self, f, xs):
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            return list(ex.map(f, xs))


def clean(r):
    """an error that is told: no panic, no signal, no hang"""
    if r["rc"] == "hang":
        return "does not end"
    if r["rc"] < 0 or r["rc"] == 101 or "panicked" in r["err"]:
        return "panics: exit %s, %s" % (r["rc"], r["err"][-200:].strip())
    return None


def refused(r):
    """the run ends with an error and a message"""
    why = clean(r)
    if why:
        return why
    if r["rc"] == 0:
        return "succeeds: %r" % r["out"][-200:]
    if not r["err"].strip():
        return "fails without a message"
    return None


ROW = re.compile(r"^(?P<d>\d+ )? *(?P<no>\d+) \| (?P<text>(?P<src>\d+)\.(?P<at>\d+) .*)$")
MSG = re.compile(r"^(?P<k> -> No baselines for|Could not read) local: /?(?P<name>.*)$")
# the messages of the logger, with a time and a level
LOG = re.compile(r"^(\x1b\[[0-9;]*m)?\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d\S* .*(ERROR|WARN|INFO)")


def parse(out, names):
    """the output as rows: (source, kind, number, position, distance), or a complaint"""
    rows = []
    for l in out.split("\n"):
        if not l.strip() or LOG.match(l):
            continue
        if l == "--":
            rows.append((0, "sep", 0, 0, None))
            continue
        m = ROW.match(l)
        if m:
            rows.append((int(m["src"]), "hit" if m["d"] else "ctx", int(m["no"]), int(m["at"]), int(m["d"]) if m["d"] else None, m["text"]))
            continue
        m = MSG.match(l)
        if m:
            if m["k"].startswith("Could"):
                n = [x for x in names if m["name"].startswith(x + ": ") and len(m["name"]) > len(x) + 3]
                k = "error"
            else:
                n = [x for x in names if m["name"] == x]
                k = "noindex"
            if len(n) != 1:
                return "an unknown source in %r" % l
            rows.append((names[n[0]], k, 0, 0, None))
            continue
        return "an unexpected line %r" % l
    return rows


def by_source(rows):
    """the rows of each source; a separator belongs to the source around it"""
    res, order = {}, []
    for i, r in enumerate(rows):
        s = r[0] or (rows[i - 1][0] if i else 0)
        if r[1] == "sep" and (i + 1 == len(rows) or rows[i + 1][0] != s):
            return None, "a separator at the end of the lines of a source"
        if not order or order[-1] != s:
            if s in order:
                return None, "the lines of the source %d are not together" % s
            order.append(s)
        res.setdefault(s, []).append(r)
    return res, None


def compare(w, exp, rows):
    got, why = by_source(rows)
    if why:
        return why
    name = {f["id"]: report.NAMES[(f["group"], f["variant"])] for f in w["target"]}
    lines = {f["id"]: f["lines"] for f in w["target"] if "lines" in f}
    for r in rows:
        if lines and r[1] in ("hit", "ctx") and not (0 < r[3] <= len(lines.get(r[0], ())) and r[5] == ended(lines[r[0]][r[3] - 1], "%d.%d" % (r[0], r[3]), r[3] - 1)):
            return "%r is not the text of a line" % r[5]
    for s in exp["srcs"]:
        want = []
        for r in s["rows"]:
            if r["kind"] == "sep":
                want.append(("sep", 0, 0))
                continue
            a = s["out"][r["text"][0] - 1]
            at = {"b": lambda: a["before"][r["text"][2] - 1], "f": lambda: a["after"][r["text"][2] - 1], "a": lambda: a["line"]}[r["text"][1]]()
            want.append((r["kind"], r["no"], at))
        if s["status"] in ("error", "noindex"):
            want.append((s["status"], 0, 0))
        g = [r[1:4] for r in got.pop(s["id"], [])]
        if g != want:
            return "%s: the output is %s instead of %s" % (name[s["id"]], g, want)
    if got:
        return "unexpected sources %s" % sorted(got)
    return None


def rec(w, shared):
    return {"base": [{"group": f["group"], "lines": f["lines"]} for f in w["base"]],
            "target": [{k: f[k] for k in ("id", "group", "lines", "end")} for f in w["target"]], "shared": shared}


def expected(ctx, recs, label):
    tr, out = ctx.path(label + ".nd"), ctx.path(label + "-exp.nd")
    vlib.write_nd(tr, recs)
    ctx.tlc("LiveTrace", "SPECIFICATION Spec\nCONSTANTS Ctx = 3\n", workers=1, env={"TRACE": tr, "OUT": out}, label=label)
    return vlib.read_nd(out)


LIVE = 'SPECIFICATION Spec\nCONSTANTS Ctx = 3 NSlots = %d Variant = "%s"\n%s\n'


def c19(ctx):
    ctx.tlc("Live", LIVE % (2, "fixed", "INVARIANTS Correct Growing"))
    ctx.tlc("Live", LIVE % (2, "fixed", "PROPERTY Terminates"), label="Live-ends")
    if ctx.thorough:
        ctx.tlc("Live", LIVE % (3, "fixed", "INVARIANTS Correct Growing"), label="Live-3", timeout=3000)
    for v in ("sep-leak", "abort", "drop-tail", "shared"):
        ctx.tlc("Live", LIVE % (2, v, "INVARIANTS Correct Growing"), label=v, ok=(12,))
    rng = random.Random(ctx.seed)
    ws = report.worlds(ctx)
    n = ctx.pick(1200, 6000)
    wide = ws[-29:]
    ws = rng.sample(ws[:-29], min(n, len(ws) - 29)) + wide
    with Box(ctx) as box:
        live(ctx, box, ws, rng)
        terminal(ctx, box, rng.sample(ws, ctx.pick(60, 600)) + wide)
        pages(ctx, box, rng.sample(ws, ctx.pick(250, 2500)) + wide)
        invalid(ctx, box)
        special(ctx, box)


def make(box, ws, tag):
    cases = [report.world(w, i) for i, w in enumerate(ws)]
    box.trees([("%s%d" % (tag, i), c["files"]) for i, c in enumerate(cases)])
    return cases


def live(ctx, box, ws, rng):
    cases = make(box, ws, "w")
    exps = expected(ctx, [rec(w, False) for w in ws], "live")
    # the distances are those of the report
    dist = ctx.harness("pipeline", cases, timeout=900)

    def one(i):
        c = cases[i]
        return [box.run(["diff"] + c["base"] + [c["target"]], cwd=box.path("w%d" % i)) for _ in range(2)]
    for i, (w, c, e, d, (r, again)) in enumerate(zip(ws, cases, exps, dist, box.map(one, range(len(ws))))):
        ctx.traces += 1
        names = {report.NAMES[(f["group"], f["variant"])]: f["id"] for f in w["target"]}
        why = clean(r) or clean(again)
        if why:
            ctx.violation("cli:end", "the command line %s" % why, c, r)
            continue
        if not w["target"]:
            why = refused(r)
            if why:
                ctx.violation("cli:empty", "a target without source: the command line %s" % why, c, r)
            continue
        if r["rc"] != 0:
            ctx.violation("cli:exit", "the command line fails: %s" % r["err"][-300:], c, r)
            continue
        rows, rows2 = parse(r["out"], names), parse(again["out"], names)
        if isinstance(rows, str):
            ctx.violation("cli:output", rows, c, r)
            continue
        why = compare(w, e, rows)
        if why:
            ctx.violation("cli:output", why, c, r, e)
            continue
        if by_source(rows)[0] != (by_source(rows2)[0] if not isinstance(rows2, str) else None):
            ctx.violation("cli:again", "the output is not the same the second time", c, [r, again])
        ds = {}
        for l in d.get("report", {}).get("logs", []):
            for a in l["out"]:
                ds[a["line"].split(" ")[0]] = a["dist"] / 1000
        for s, k, no, at, x in [r[:5] for r in rows]:
            t = "%d.%d" % (s, at)
            if k == "hit" and t in ds and abs(ds[t] * 99 - x) > 1:
                ctx.violation("cli:distance", "the distance %s is shown as %d" % (ds[t], x), c, r)
    ctx.sample({"case": cases[0], "output": r["out"][:400]})


ANSI = re.compile(r"\x1b\[[0-9;?]*[a-zA-Z]")


def terminal(ctx, box, ws):
    """on a terminal, the progress is shown on a line that is overwritten"""
    ws = [w for w in ws if w["target"]]
    cases = make(box, ws, "t")
    exps = expected(ctx, [rec(w, False) for w in ws], "terminal")

    def one(i):
        return box.run_pty(["diff"] + cases[i]["base"] + [cases[i]["target"]], cwd=box.path("t%d" % i))
    for w, c, e, r in zip(ws, cases, exps, box.map(one, range(len(ws)))):
        ctx.traces += 1
        names = {report.NAMES[(f["group"], f["variant"])]: f["id"] for f in w["target"]}
        if clean(r) or r["rc"] != 0:
            ctx.violation("cli:terminal", "on a terminal, the command line %s" % (clean(r) or "fails"), c, r)
            continue
        # the progress: what a carriage return overwrites, and the lines that start with one
        ls = []
        for l in r["out"].split("\n"):
            if "\r" in l:
                x = ANSI.sub("", l.rsplit("\r", 1)[1])
                ls.append(x if ROW.match(x) or MSG.match(x) else "")
                m = re.search(r"( -> No baselines for|Could not read) local: .*$", x)
                if m and not ls[-1]:
                    ls[-1] = m.group(0)
            else:
                ls.append(ANSI.sub("", l))
        rows = parse("\n".join(ls), names)
        why = rows if isinstance(rows, str) else compare(w, e, rows)
        if why:
            ctx.violation("cli:terminal", "on a terminal: " + why, c, r, e)
        elif not re.search(r"Reduced from %d to %d\b" % (sum(1 for _ in ()) or total(e, "lines"), total(e, "anomalies")), ANSI.sub("", r["out"])):
            ctx.violation("cli:terminal", "on a terminal: the totals are not %s" % e["totals"], c, r, e)


def total(e, k):
    return e["totals"][k]


def pages(ctx, box, ws):
    """the report option writes the page of the report"""
    ws = [w for w in ws if w["target"]]
    cases = make(box, ws, "p")
    for i in range(len(ws)):
        box.dir("out%d" % i)

    def one(i):
        c = cases[i]
        r = box.run(["--report", box.path("out%d" % i, "r.html"), "diff"] + c["base"] + [c["target"]], cwd=box.path("p%d" % i))
        try:
            r["html"] = open(box.path("out%d" % i, "r.html")).read()
        except OSError:
            r["html"] = None
        return r
    res = box.map(one, range(len(ws)))
    # the order of the sources of the page
    idx, recs = [], []
    for i, (w, c, r) in enumerate(zip(ws, cases, res)):
        ctx.traces += 1
        if clean(r) or r["rc"] != 0 or r["html"] is None:
            ctx.violation("cli:page", "the report option: the command line %s" % (clean(r) or "fails"), c, r)
            continue
        t = render.Tree(r["html"])
        if t.bad:
            ctx.violation("cli:page", "the page is broken: " + t.bad, c, r)
            continue
        name = {report.NAMES[(f["group"], f["variant"])]: f for f in w["target"]}
        items = render.find(t.root, render.has("list-group-item"))
        order = [render.text(render.find(x, render.has("list-group-item-heading"))[0]).strip().lstrip("/") for x in items]
        if [x for x in order if x not in name] or len(set(order)) != len(order):
            ctx.violation("cli:page", "the sources of the page are %s" % order, c, r)
            continue
        got = {}
        for o, x in zip(order, items):
            g = render.find(x, render.has("loglines"))
            got[name[o]["id"]] = render.rows(g[0]) if len(g) == 1 else "no lines"
        r["got"], r["cells"] = got, [render.text(n) for n in render.find(t.root, lambda n: n[0] == "td")]
        # within a group, the first source shows a line: its order is the one of the page, the others have nothing to show
        rest = [f for f in w["target"] if report.NAMES[(f["group"], f["variant"])] not in order]
        idx.append(i)
        recs.append([rec(dict(w, target=[name[o] for o in order] + rest), True), rec(dict(w, target=rest + [name[o] for o in order]), True)])
    exps = expected(ctx, [x for p in recs for x in p], "pages")
    for k, i in enumerate(idx):
        whys = []
        for e in exps[2 * k:2 * k + 2]:
            whys.append(page(ws[i], e, res[i]))
        if all(whys):
            # another order of the sources without anomalies may explain it
            if any(f["end"] == "fail" for f in ws[i]["target"]) and len({f["group"] for f in ws[i]["target"]}) < len(ws[i]["target"]) and not whys[0].startswith("!"):
                import itertools
                perms = [list(p) for p in itertools.permutations(ws[i]["target"])][:24]
                if any(page(ws[i], e, res[i]) is None for e in expected(ctx, [rec(dict(ws[i], target=p), True) for p in perms], "perm")):
                    continue
            ctx.violation("cli:page", whys[0], cases[i], res[i], exps[2 * k])


def page(w, e, r):
    got = dict(r["got"])
    for s in e["srcs"]:
        want = []
        for x in s["rows"]:
            if x["kind"] == "sep":
                want.append(("sep",))
                continue
            a = s["out"][x["text"][0] - 1]
            at = {"b": lambda: a["before"][x["text"][2] - 1], "f": lambda: a["after"][x["text"][2] - 1], "a": lambda: a["line"]}[x["text"][1]]()
            want.append((x["kind"] == "hit", x["no"], "%d.%d" % (s["id"], at)))
        g = got.pop(s["id"], [])
        if isinstance(g, str):
            return g
        g = [x if x == ("sep",) else (x[0] is not None, x[1], x[2].split(" ")[0]) for x in g]
        if g != want:
            return "the page shows %s instead of %s for the source %d" % (g, want, s["id"])
    if got:
        return "unexpected sources %s" % sorted(got)
    if not any(re.search(r"from %d to %d\b" % (e["totals"]["lines"], e["totals"]["anomalies"]), x) for x in r["cells"]):
        return "the totals of the page are not %s: %s" % (e["totals"], r["cells"])
    return None


def invalid(ctx, box):
    """what is invalid is refused with a message"""
    d = box.dir("inv")
    ok = os.path.join(d, "ok.log")
    with open(ok, "w") as f:
        f.write("1 zuggg zoggg zyggg\n")
    os.makedirs(os.path.join(d, "empty"))
    os.makedirs(os.path.join(d, "locked"))
    os.chmod(os.path.join(d, "locked"), 0)
    bad = ["missing", "missing/dir", "", "empty", "\x01", "a\nb", "file:missing", "/", "/dev/null/x", "locked", "locked/x", "é" * 200, "x" * 300]
    urls = ["http://", "https://", "http:// /", "http://[", "http://localhost:99999/", "http://localhost:1/", "https://127.0.0.1:1/x/", "http://127.0.0.1:1/zuul/build/" + "0" * 32, "http://\x7f/"]
    runs = []
    for b in bad:
        if b != "/":
            runs.append(["diff", "ok.log", b])
            runs.append(["path", b])
            runs.append(["--model", "m", "train", b])
        runs.append(["diff", b if b != "/" else "missing", "ok.log"])
        runs.append(["diff", "ok.log", b if b != "/" else "missing", "ok.log"])
        runs.append(["url", b])
    for u in urls:
        runs += [["diff", "ok.log", u], ["diff", u, "ok.log"], ["url", u], ["--report", "r.html", "url", u], ["--model", "m2", "train", u]]
    runs += [[], ["diff"], ["nothing"], ["train", "ok.log"], ["train"], ["--model", "m3", "train"], ["test"], ["test", "missing"], ["--nothing", "diff", "ok.log", "ok.log"],
             ["--report", "missing/r.html", "diff", "ok.log", "ok.log"], ["--model", "missing/m", "diff", "ok.log", "ok.log"], ["--model", "ok.log", "path", "ok.log"], ["--report", ".", "diff", "ok.log", "ok.log"]]
    rs = box.map(lambda a: box.run(a, cwd=d), runs)
    for a, r in zip(runs, rs):
        ctx.traces += 1
        why = refused(r)
        if why:
            ctx.violation("cli:invalid", "logreduce %s: the command line %s" % (json.dumps(a), why), {"args": a}, r)
    ctx.sample({"args": runs[0], "exit": rs[0]["rc"], "message": rs[0]["err"][:200]})


def special(ctx, box):
    """the ways to name the inputs"""
    d = box.dir("names")
    txt = "".join("%d.%d zuggg zoggg zyggg\n" % (1, i + 1) for i in range(4))
    odd = "1.1 zuggg zoggg zyggg\n1.2 wuggg woggg wyggg\n1.3 zuggg zoggg zyggg\n"
    names = ["httpd.log", "http", "https.log", "http:.log", "a b.log", "é.log", "sub/x.log", "x.log.1", "x"]
    os.makedirs(os.path.join(d, "good", "sub"))
    os.makedirs(os.path.join(d, "bad", "sub"))
    for n in names:
        open(os.path.join(d, "good", n), "w").write(txt)
        open(os.path.join(d, "bad", n), "w").write(odd)
    runs = []
    for n in names:
        for how in ("rel", "abs", "cwd", "dot"):
            g, b = {"rel": ("good/" + n, "bad/" + n), "abs": (d + "/good/" + n, d + "/bad/" + n), "cwd": (d + "/good/" + n, n), "dot": (d + "/good/../good/" + n, "./" + n)}[how]
            runs.append((["diff", g, b], d if how in ("rel", "abs") else d + "/bad", 1))
    # several baselines, a directory with a trailing slash
    runs.append((["diff", "good", "good/", "bad"], d, len(names)))
    runs.append((["diff", "good/", "bad/"], d, len(names)))
    runs += [(["diff", "bad", "good"], d, 0), (["diff", "good", "bad", "bad"], d, 0)]
    for (a, cwd, n), r in zip(runs, box.map(lambda x: box.run(x[0], cwd=x[1]), runs)):
        ctx.traces += 1
        hits = [l for l in r["out"].split("\n") if re.match(r"^\d+ 2 \| 1.2 wuggg", l)]
        if clean(r) or r["rc"] != 0 or len(hits) != n:
            ctx.violation("cli:names", "logreduce %s: the command line %s" % (" ".join(a), clean(r) or "shows %d anomalies instead of %d: %s" % (len(hits), n, r["out"] + r["err"])), {"args": a}, r)


    # the lines are shown as they are
    known = ["1.%d zuggg zoggg zyggg%s" % (i + 1, e) for i, e in enumerate(["", "  ", "\t", ""])]
    for i, ls in enumerate([known[:1] + ["   ", "  1.3 wuggg woggg wyggg  ", "\t", "   \t"] + known[1:], ["  ", "\t\t"] + known + [" 7 wuggg <b>woggg</b> &amp; wyggg "],
                            known + ["\x0b", "{wuggg} {} {0} %s woggg", " ", "--", "5 | wuggg", ""]]):
        open(os.path.join(d, "g%d" % i), "w").write("\n".join(known + [" "] + ["--"]) + "\n")
        open(os.path.join(d, "b%d" % i), "w").write("\n".join(ls) + "\n")
        r = box.run(["diff", "g%d" % i, "b%d" % i], cwd=d)
        ctx.traces += 1
        got = [(int(m[1]), m[2]) for m in (re.match(r"^(?:\d+ )? *(\d+) \| (.*)$", l, re.S) for l in r["out"].split("\n")) if m]
        at = next(j for j, l in enumerate(ls) if "wuggg" in l)
        want = [(j + 1, ls[j]) for j in range(max(0, at - 3), len(ls)) if j <= at + 3]
        if clean(r) or got[:len(want)] != want[:len(got)] or len(got) < len([x for x in want if x[1]]):
            ctx.violation("cli:lines", "the lines %r are shown as %r" % (want, got), {"lines": ls}, r)


# ------------------------------------------------------------------ C22: the datasets
DS = 'SPECIFICATION Spec\nCONSTANTS Variant = "%s" MaxSets = %d\n%s\n'


def dataset(d, rng):
    """the files of a dataset"""
    def txt(e):
        t = line(e["class"], "")[1:]
        return {"dot": rng.choice(["%s.", "%s,", "'%s'", "%s:", "%s!", "(%s)", "%s;", "*%s", "- %s", "%s..."]) % t,
                "full": t, "word": t.split(" ")[rng.randrange(3)], "padded": "  \t%s \n " % t, "empty": rng.choice(["", "  ", "\n"]), "upper": t.upper(),
                "more": line(e["class"], "%d" % d["fail"].index(e["class"]) if e["class"] in d["fail"] else "") + " more"}[e["form"]]
    st = d["state"]
    inf = json.dumps({"anomalies": [dict({"line": txt(e)}, **({"comment": "why"} if rng.random() < .2 else {})) for e in d["inf"]]})
    good = [line(c, "%d" % (100 + i)) for i, c in enumerate(sorted(d["good"]))]
    fail = [line(c, "%d" % i) for i, c in enumerate(d["fail"])]
    g, f = rng.choice(["a.good", "log.txt.good", "b.good"]), rng.choice(["a.fail", "log.txt.fail"])
    files = [{"path": "inf.yaml", "lines": [inf]}, {"path": g, "lines": good, "end": rng.choice(["eof", "nonl"]) if good else "eof"}, {"path": f, "lines": fail}, {"path": "README", "lines": ["x"]}]
    if st == "no-dir":
        return None
    if st == "empty-dir":
        return [{"path": ".", "kind": "dir"}]
    if st == "no-inf":
        files.pop(0)
    elif st == "no-good":
        files.pop(1)
    elif st == "no-fail":
        files.pop(2)
    elif st == "bad-yaml":
        files[0]["lines"] = [inf, "}{: ["]
    elif st == "no-list":
        files[0]["lines"] = [rng.choice(["{}", "anomalies: 3", "", "[]", "other: []"])]
    elif st == "bad-item":
        files[0]["lines"] = [rng.choice(["anomalies: [{}]", "anomalies: [{\"text\": \"x\"}]", "anomalies: [\"x\"]"])]
    elif st.endswith("-dir"):
        k = {"inf": 0, "good": 1, "fail": 2}[st[:-4]]
        files[k] = {"path": files[k]["path"], "kind": "dir"}
    elif st.endswith("-open"):
        files[{"good": 1, "fail": 2}[st[:-5]]]["end"] = "open"
    elif st == "fail-utf8":
        files[2]["end"] = "utf8"
    return files


def c22(ctx):
    ctx.tlc("DatasetRun", DS % ("fixed", 2, "INVARIANTS Correct"))
    ctx.tlc("DatasetRun", DS % ("fixed", 1, "PROPERTY Terminates"), label="DatasetRun-ends")
    for v in ("zip-only", "at-least", "any-order", "no-text", "skip-missing"):
        ctx.tlc("DatasetRun", DS % (v, 1, "INVARIANTS Correct"), label=v, ok=(12,))
    ctx.tlc("DatasetRun", DS % ("last-result", 2, "INVARIANTS Correct"), label="last-result", ok=(12,))
    rng = random.Random(ctx.seed)
    fams = {f: ctx.tlc_gen("DatasetGen", 'CONSTANTS Fam = "%s"' % f, ctx.path("ds-%s.nd" % f), label="DatasetGen-" + f) for f in ("single", "broken", "many", "big", "long")}
    good = [c["sets"][0] for c in fams["single"] if c["pass"] and all(e["form"] == "full" for e in c["sets"][0]["inf"])]
    few = [c for c in fams["single"] if not c["sets"][0]["fail"] and len(c["sets"][0]["inf"]) == 0]
    # only the punctuation of one text differs
    few += [c for c in fams["single"] if any(e["form"] == "dot" for e in c["sets"][0]["inf"])
            and c["sets"][0]["inf"] and {**c["sets"][0], "inf": [dict(e, form="full") for e in c["sets"][0]["inf"]]} in good] * ctx.pick(4, 20)
    cs = few + rng.sample(fams["single"], ctx.pick(900, len(fams["single"]))) + fams["big"] + fams["long"] + fams["broken"] * ctx.pick(2, 10) + rng.sample(fams["many"], ctx.pick(120, len(fams["many"])))
    with Box(ctx) as box:
        trees, args = [], []
        for i, c in enumerate(cs):
            args.append([])
            for j, d in enumerate(c["sets"]):
                n = "d%d/%s-%d" % (i, rng.choice(["set", "dir.x", "data"]), j)
                fs = dataset(d, rng)
                if fs is not None:
                    trees.append((n, fs))
                args[-1].append(n if i % 2 else box.path(n))
        box.trees(trees)
        for i, (c, a, r) in enumerate(zip(cs, args, box.map(lambda a: box.run(["test"] + a, cwd=box.root), args))):
            ctx.traces += 1
            case = {"args": a, "sets": c["sets"], "files": [t for t in trees if t[0] in " ".join(a)]}
            why = clean(r)
            if not why and c["pass"] and r["rc"] != 0:
                why = "fails: %s" % r["err"][-300:]
            if not why and not c["pass"]:
                why = refused(r)
            if why:
                ctx.violation("dataset", "the evaluation %s" % why, case, r, c["pass"])
        ctx.sample({"case": case, "output": r})


# ------------------------------------------------------------------ C23: the model file
LIFE = 'SPECIFICATION Spec\nCONSTANTS Variant = "%s" Depth = %d\n%s\n'
KNOWN = {1: [1, 2], 2: [1, 3], 3: [2, 3, 4]}
TARGET = {1: [1, 2, 3, 9], 2: [4, 8, 3, 1]}


def put(path, classes, tag):
    if classes is None:
        if os.path.exists(path):
            os.unlink(path)
        return
    with open(path, "w") as f:
        for i, c in enumerate(classes):
            f.write(line(c, "%s.%d" % (tag, i + 1)) + "\n")
    os.chmod(path, 0o644)


def state(path):
    """what identifies a file that was not written"""
    try:
        st = os.stat(path)
        return (st.st_ino, st.st_mtime_ns, st.st_size, hashlib.sha256(open(path, "rb").read()).hexdigest())
    except FileNotFoundError:
        return None


def history(box, name, ops, seed):
    """run a history in a directory of its own; returns what each step gave"""
    rng = random.Random(seed)
    d = box.dir(name)
    box.dir(name, "base"), box.dir(name, "work")
    mf, base, tgt = box.path(name, "the.model"), box.path(name, "base/app.log"), box.path(name, "work/app.log")
    rel = rng.random() < .5
    n = (lambda p: os.path.relpath(p, d)) if rel else (lambda p: p)
    put(base, KNOWN[1], "7"), put(tgt + ".0", KNOWN[3], "8"), put(tgt, TARGET[1], "1")
    res = []
    for op in ops:
        before, r = state(mf), {"rc": 0, "out": "", "err": ""}
        if op in ("train", "diff", "path"):
            a = {"train": ["train", n(base)], "diff": ["diff", n(base), n(tgt)], "path": ["path", n(tgt)]}[op]
            o = ["--model", n(mf)]
            rep = []
            if op != "train" and rng.random() < .15:
                rep = ["--report", box.path(name, "work", "r.html")]
            r = box.run(o + rep + a, cwd=d)
            r["page"] = bool(rep)
        elif op == "plain-diff":
            r = box.run(["diff", n(base), n(tgt)], cwd=d)
        elif op == "plain-path":
            r = box.run(["path", n(tgt)], cwd=d)
        elif op.startswith("base"):
            put(base, KNOWN.get(int(op[4])), "7")
        elif op.startswith("old"):
            put(tgt + ".0", KNOWN.get(int(op[3])), "8")
        elif op.startswith("target"):
            put(tgt, TARGET.get(int(op[6])), "1")
        elif op == "rm":
            if before:
                os.unlink(mf)
        elif op == "junk":
            with open(mf, "wb") as f:
                f.write(rng.choice([b"", b"some text\n", bytes(rng.randrange(256) for _ in range(200)), __import__("gzip").compress(b"hello world"), __import__("gzip").compress(b""),
                                    __import__("gzip").compress(bytes(4000))]))
            os.chown(mf, NOBODY, NOBODY)
        elif op == "cut":
            if before and before[2]:
                os.truncate(mf, rng.randrange(before[2]))
        hits = [int(m["at"]) for m in (ROW.match(l) for l in r["out"].split("\n")) if m and m["d"]]
        after = state(mf)
        res.append({"op": op, "run": r, "hits": hits, "same": before == after, "there": after is not None})
    shutil.rmtree(d, ignore_errors=True)
    return res


def c23(ctx):
    ctx.tlc("ModelLife", LIFE % ("fixed", ctx.pick(5, 7), "INVARIANTS NoSilentWrite\nPROPERTIES Correct NeverReplaced"))
    for v in ("overwrite", "retrain", "save-always", "no-save", "junk-retrain", "save-first"):
        ctx.tlc("ModelLife", LIFE % (v, 4, "INVARIANTS NoSilentWrite\nPROPERTIES Correct NeverReplaced"), label=v, ok=(12, 13))
    rng = random.Random(ctx.seed)
    ops = ["train", "diff", "path", "plain-diff", "plain-path", "base1", "base2", "base0", "old3", "old2", "old0", "target1", "target2", "target0", "rm", "junk", "cut"]
    short = ctx.tlc_gen("ModelTrace", "CONSTANTS Fam = 3", ctx.path("short.nd"), label="ModelTrace-3")
    hs = [h for h in short if any(o in ("train", "diff", "path") for o in h["ops"])]
    hs = rng.sample(hs, ctx.pick(900, len(hs)))
    # long ones: mostly commands, and events that matter
    long = []
    for _ in range(ctx.pick(250, 3000)):
        long.append([rng.choice(ops[:5]) if rng.random() < .55 else rng.choice(ops) for _ in range(rng.choice([6, 10, 14]))])
    vlib.write_nd(ctx.path("long.in"), long)
    ctx.tlc("ModelTrace", "SPECIFICATION Spec\nCONSTANTS Fam = 0\n", workers=1, env={"TRACE": ctx.path("long.in"), "OUT": ctx.path("long.nd")}, label="ModelTrace-long")
    hs += vlib.read_nd(ctx.path("long.nd"))
    with Box(ctx) as box:
        rs = box.map(lambda i: history(box, "h%d" % i, hs[i]["ops"], ctx.seed * 100000 + i), range(len(hs)))
        for h, r in zip(hs, rs):
            ctx.traces += 1
            target = 1
            for k, (e, o) in enumerate(zip(h["steps"], r)):
                if o["op"].startswith("target"):
                    target = int(o["op"][6])
                why = clean(o["run"])
                if not why and o["op"] in ops[:5]:
                    if e["ok"] and o["run"]["rc"] != 0:
                        why = "fails: %s" % o["run"]["err"][-200:]
                    elif not e["ok"]:
                        why = refused(o["run"])
                    elif not o["run"].get("page"):
                        got = [TARGET[target][i - 1] for i in o["hits"]] if o["op"] != "train" else []
                        if got != e["shown"]:
                            why = "shows %s instead of %s" % (got, e["shown"])
                    if not why and not e["written"] and not o["same"]:
                        why = "writes the model file"
                    if not why and e["written"] and o["same"]:
                        why = "does not write the model file"
                    if not why and o["there"] != (e["file"] != "none"):
                        why = "leaves the model file %s" % ("there" if o["there"] else "missing")
                if why:
                    ctx.violation("model:" + o["op"], "after %s, %s: the command line %s" % (h["ops"][:k], o["op"], why), {"ops": h["ops"], "step": k}, o, e)
                    break
        ctx.sample({"history": hs[-1]["ops"], "observed": rs[-1][-1]})
        places(ctx, box)


def places(ctx, box):
    """model files that can't be written or read"""
    d = box.dir("pl")
    for x in ("base", "work", "adir", "closed"):
        box.dir("pl", x)
    put(box.path("pl/base/app.log"), KNOWN[1], "7"), put(box.path("pl/work/app.log"), TARGET[1], "1"), put(box.path("pl/work/app.log.0"), KNOWN[3], "8")
    os.chmod(box.path("pl/closed"), 0o555)
    os.chown(box.path("pl/closed"), 0, 0)
    open(box.path("pl/unreadable"), "w").close()
    os.chmod(box.path("pl/unreadable"), 0)
    os.symlink("nowhere/x", box.path("pl/dangling"))
    cs = []
    for m in ("adir", "closed/m", "missing/m", "unreadable", "dangling", "/dev/null/m", ""):
        for a in (["train", "base/app.log"], ["diff", "base/app.log", "work/app.log"], ["path", "work/app.log"]):
            cs.append((["--model", m] + a, True))
    cs += [(["train", "base/app.log"], True), (["--model", "new1", "train", "nothing"], True), (["--model", "new2", "diff", "nothing", "work/app.log"], True),
           (["--model", "new3", "diff", "base/app.log", "nothing"], True), (["--model", "new4", "train"], True), (["--model", "new5", "path", "nothing"], True),
           (["--model", "new6", "train", "base/app.log", "nothing"], True), (["--model", "new7", "train", "adir"], True)]
    for a, _ in cs:
        ctx.traces += 1
        r = box.run(a, cwd=d)
        why = refused(r)
        left = [x for x in os.listdir(d) if x.startswith("new")]
        if not why and left:
            why = "leaves the model file %s" % left
        if why:
            ctx.violation("model:place", "logreduce %s: the command line %s" % (" ".join(a), why), {"args": a}, r)
        for x in left:
            os.unlink(os.path.join(d, x))

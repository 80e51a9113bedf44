"""The report: C10, the cross-source part of C05, C09."""
import json, random
import vlib
from text import ended, line

NAMES = {("g1", 1): "alpha/one.log", ("g1", 2): "alpha/one.log.1", ("g1", 3): "alpha/one.log.2.gz",
         ("g2", 1): "beta/two.txt", ("g2", 2): "beta/0a1b2c3/two.txt.3", ("g3", 1): "gamma/three.log.gz", ("g3", 2): "gamma/three.log-4",
         ("g4", 1): "delta/four.log"}
for i in range(4, 200):
    NAMES["g1", i] = "alpha/one.log.%d" % (i + 3)
GROUP = {"g1": "alpha/one.log", "g2": "beta/two.txt", "g3": "gamma/three.log", "g4": "delta/four.log"}


def place(f, sid, root):
    """A file of the model as a file of the disk.  The lines are tagged by source and position."""
    name = NAMES[(f["group"], f["variant"])]
    gz = name.endswith(".gz")
    end = {"eof": "eof", "fail": "trunc" if gz else "utf8", "open": "open"}[f["end"]]
    return {"path": root + "/" + name, "gz": gz, "end": end, "lines": [ended(c, "%d.%d" % (sid, j + 1), j) for j, c in enumerate(f["lines"])]}


def world(w, i):
    """The tree of a world; the baselines are in one or two directories."""
    files, names = [], []
    two = i % 2 == 1
    for j, f in enumerate(w["base"]):
        root = "base%d" % (j % 2 if two else 0)
        if root not in names:
            names.append(root)
        files.append(place(f, 100 + j, root))
    for f in w["target"]:
        files.append(place(f, f["id"], "target"))
    if not w["target"]:
        files.append({"path": "target", "kind": "dir"})
    return {"files": files, "base": names, "target": "target"}


def worlds(ctx, slots=None):
    ws = []
    for f in ("small", "wide", "crowd", "huge"):
        ws += ctx.tlc_gen("ReportGen", 'CONSTANTS Ctx = 3 Fam = "%s" Slots = %d' % (f, slots or 4),
                          ctx.path("gen-%s.nd" % f), label="ReportGen-" + f)
    return ws


def expected(ctx, recs, label="ReportTrace"):
    """Ask TLC for the account of each record."""
    tr, out = ctx.path(label + ".nd"), ctx.path(label + "-exp.nd")
    vlib.write_nd(tr, recs)
    ctx.tlc("ReportTrace", "SPECIFICATION Spec\nCONSTANTS Ctx = 3\n", workers=1, env={"TRACE": tr, "OUT": out}, label=label)
    return vlib.read_nd(out)


def record(w, order, shared):
    """The world with its sources in the observed order."""
    by = {"target/" + NAMES[(f["group"], f["variant"])]: f for f in w["target"]}
    if sorted(by) != sorted(order):
        return None
    return {"base": [{"group": f["group"], "lines": f["lines"]} for f in w["base"]],
            "target": [{k: by[p][k] for k in ("id", "group", "lines", "end")} for p in order], "shared": shared}


def tagged(texts, f):
    """The positions of the lines in their source, or the text when it is not one of its lines."""
    res = []
    for t in texts:
        tag = t.split(" ")[0]
        a, _, b = tag.partition(".")
        b = int(b) if a == str(f["id"]) and b.isdigit() else 0
        res.append(b if 0 < b <= len(f["lines"]) and t == ended(f["lines"][b - 1], tag, b - 1) else t)
    return res


def judge(w, exp, rep):
    """Compare a report with its account; returns (aspect, what) pairs."""
    files = {f["id"]: f for f in w["target"]}
    path = {f["id"]: "target/" + NAMES[(f["group"], f["variant"])] for f in w["target"]}
    srcs = {s["id"]: s for s in exp["srcs"]}
    bad = []
    logs = {}
    for l in rep["logs"]:
        if l["path"] in logs:
            bad.append(("account", "%s is listed twice" % l["path"]))
        logs[l["path"]] = l
    got_noindex = sorted(p for g in rep["index_errors"] for p in g)
    want_noindex = sorted(path[i] for i, s in srcs.items() if s["status"] == "noindex")
    if got_noindex != want_noindex:
        bad.append(("index", "sources without index %s instead of %s" % (got_noindex, want_noindex)))
    got_err = sorted(p for p, e in rep["read_errors"])
    want_err = sorted(path[i] for i, s in srcs.items() if s["status"] == "error")
    if got_err != want_err:
        bad.append(("account", "sources with a read error %s instead of %s" % (got_err, want_err)))
    if any(not e for p, e in rep["read_errors"]):
        bad.append(("account", "an error without message"))
    used = {}
    for i, s in srcs.items():
        l = logs.pop(path[i], None)
        out = [] if l is None else l["out"]
        lines = tagged([a["line"] for a in out], files[i])
        want = [a["line"] for a in s["out"]]
        if lines != want:
            bad.append(("lines", "%s: lines %s are reported instead of %s" % (path[i], lines, want)))
        elif [(tagged(a["before"], files[i]), tagged(a["after"], files[i]), a["no"]) for a in out] != [(a["before"], a["after"], a["no"]) for a in s["out"]]:
            bad.append(("context", "%s: wrong contexts or numbers" % path[i]))
        if l is not None:
            if l["count"] != s["count"]:
                bad.append(("account", "%s: %d lines instead of %d" % (path[i], l["count"], s["count"])))
            if l["index"] != GROUP[s["group"]]:
                bad.append(("index", "%s: index %s" % (path[i], l["index"])))
            if not out:
                bad.append(("account", "%s is listed without anomaly" % path[i]))
        if s["out"]:
            used[GROUP[s["group"]]] = s["index"][0]
    if logs:
        bad.append(("account", "unexpected sources %s" % list(logs)))
    base = {}
    for j, f in enumerate(w["base"]):
        base.setdefault(f["group"], []).append(NAMES[(f["group"], f["variant"])])
    got_ix = {x["name"]: sorted(p.split("/", 1)[1] for p in x["paths"]) for x in rep["indexes"]}
    want_ix = {n: sorted(base[g]) for n, g in used.items()}
    if got_ix != want_ix:
        bad.append(("index", "indexes %s instead of %s" % (got_ix, want_ix)))
    if (rep["lines"], rep["anomalies"]) != (exp["totals"]["lines"], exp["totals"]["anomalies"]):
        bad.append(("account", "totals %s instead of %s" % ((rep["lines"], rep["anomalies"]), exp["totals"])))
    return bad


def run(ctx, aspects, save=False, quick=2500, thorough=100000):
    ws = worlds(ctx)
    n = ctx.pick(quick, thorough)
    if len(ws) > n:  # the wide ones are last
        ws = random.Random(ctx.seed).sample(ws[:-29], n) + ws[-29:]
    cases = [dict(world(w, i), save=save) for i, w in enumerate(ws)]
    rs = ctx.harness("pipeline", cases, timeout=ctx.pick(400, 2000))
    idx, recs = [], []
    for i, (w, c, r) in enumerate(zip(ws, cases, rs)):
        for k in ("crash", "hang", "panic"):
            if r.get(k):
                ctx.violation("report:" + k, "the report ends with a %s: %s" % (k, r[k]), c, r)
        if "error" in r:
            ctx.traces += 1
            if w["target"]:
                ctx.violation("report:error", "the report fails: %s" % r["error"], c, r)
        elif "report" in r:
            if not w["target"]:
                ctx.violation("report:empty", "a target without source is not an error", c, r)
                continue
            rec = record(w, r["order"], True)
            if rec is None:
                ctx.violation("report:sources", "the sources are %s" % r["order"], c, r)
                continue
            idx.append(i)
            recs.append(rec)
    exps = expected(ctx, recs)
    for i, e in zip(idx, exps):
        ctx.traces += 1
        for aspect, what in judge(ws[i], e, rs[i]["report"]):
            if aspect in aspects:
                ctx.violation("report:%s" % aspect, what, cases[i], rs[i]["report"], e)
    ctx.sample({"case": cases[len(cases) // 3], "observed": rs[len(cases) // 3]})
    return ws, cases, rs


MODES = 'SPECIFICATION %s\nCONSTANTS Variant = "%s" Elems = {1, 2} MaxBase = %d\n%s\n'


def modes(ctx, missing):
    """each source of an index is read in its own way (json documents or lines)"""
    ctx.tlc("Modes", MODES % ("Spec", "fixed", ctx.pick(3, 4), "INVARIANT Exact"), label="Modes")
    ctx.tlc("Modes", MODES % ("Spec", "first", 2, "INVARIANT Exact"), label="Modes-first", ok=(12,))
    out = ctx.path("modes.nd")
    ctx.tlc("Modes", MODES % ("GenSpec", "fixed", 1, ""), env={"OUT": out}, workers=1, label="Modes-gen")
    cs = vlib.read_nd(out)
    name = {"json": "omega/events.json", "jsongz": "omega/events.json.gz", "rot": "omega/events.json.1"}

    def element(e):
        return line(e, "x")[2:]

    def put(root, f):
        return {"path": root + "/" + name[f["kind"]], "gz": f["kind"] == "jsongz", "lines": [json.dumps([element(e) for e in f["elems"]])]}
    cases = [{"files": [put("base%d" % i, f) for i, f in enumerate(c["base"])] + [put("target", c["target"])],
              "base": ["base%d" % i for i in range(len(c["base"]))], "target": "target"} for c in cs]
    for c, x, r in zip(cs, cases, ctx.harness("pipeline", cases, name="modes", timeout=ctx.pick(200, 800))):
        ctx.traces += 1
        if "report" not in r:
            ctx.violation("modes:end", "the report ends with %s" % json.dumps(r)[:300], x, r)
            continue
        doc = c["target"]["kind"] == "rot"
        want = [x["files"][-1]["lines"][0] if doc else '"%s"' % element(c["target"]["elems"][i - 1]) for i in c["out"]]
        got = [a["line"].strip() for l in r["report"]["logs"] for a in l["out"]]
        lost = [l for l in want if l not in got]
        more = [l for l in got if l not in want]
        if missing and (lost or (not more and got != want)):
            ctx.violation("modes:missing", "the lines %s are reported instead of %s" % (got, want), x, r, c)
        if not missing and more:
            ctx.violation("modes:known", "the lines %s are reported but they are in the baselines" % more, x, r, c)
    ctx.sample({"case": cs[7], "reported": want})


LOOP = 'SPECIFICATION Spec\nCONSTANTS Ctx = 3 NSlots = %d Variant = "%s"\n%s\n'


def c10(ctx):
    ctx.tlc("ReportLoop", LOOP % (ctx.pick(2, 3), "fixed", "INVARIANTS Accounts Partition"), label="ReportLoop")
    ctx.tlc("ReportLoop", LOOP % (2, "fixed", "PROPERTY Terminates"), label="ReportLoop-live")
    for v in ("legacy-abort", "legacy-drop"):
        ctx.tlc("ReportLoop", LOOP % (2, v, "INVARIANTS Accounts"), label=v, ok=(12,))
    run(ctx, {"account", "index", "lines"})


"""Saving and loading: C09."""
import json, os, random, shutil, tempfile
import vlib, report
from text import line

CFG = 'SPECIFICATION Spec\nCONSTANTS Objects = {"m0", "m1"} Blocks = 3 MaxOps = %d Variant = "%s"\n%s\nCHECK_DEADLOCK FALSE\n'
STYLES = ["", " \u00e9\u20ac\U0001D11E", " \"<&>'", " \u0001\u001b[0m"]


def files():
    res = []
    for b, known in (("base0", [1, 2, 3]), ("base1", [1, 4])):
        for g in ("alpha/one.log", "beta/two.log.gz", "c/three.log"):
            res.append({"path": "%s/%s" % (b, g), "gz": g.endswith("gz"), "lines": [line(c, str(i)) + STYLES[c % 4] for i, c in enumerate(known * 3)]})
    for k, g in enumerate(("alpha/one.log", "alpha/one.log.1", "beta/two.log", "d/four.log")):
        res.append({"path": "target/" + g, "lines": [line(c, "%d.%d" % (k, i)) + STYLES[c % 4] for i, c in enumerate([1, 9, 4, 2, 8 + k, 3, 1, 1, 7])],
                    "end": "utf8" if k == 1 else "eof"})
    return res


def histories(ctx, n):
    out = ctx.path("hists.nd")
    ctx.tlc("StoreGen", CFG % (n, "fixed", "INVARIANTS SaveHonest LoadHonest Dump"), env={"OUT": out}, workers=1, label="StoreGen-%d" % n)
    hs = vlib.read_nd(out)
    os.unlink(out)
    return hs


def concrete(h, sizes, rng):
    """The positions of a history as bytes."""
    res, obj = [], 0
    for op in h:
        x = {"op": op["op"], "o": 0}
        if op["op"] in ("save", "truncate"):
            obj = x["o"] = {"m0": 0, "m1": 1}.get(op["obj"], obj)
            if op["at"] == 0:
                x["bytes"] = 0
            elif op["at"] == 1:
                x["bytes"] = rng.randint(1, max(1, sizes[obj] - 40))
            elif op["at"] == 2:
                x["bytes"] = -rng.randint(1, 20)
        if op["op"] == "junk":
            x["junk"] = rng.randint(0, 8)
            x["bytes"] = rng.randint(0, sizes[0] - 1)
        res.append(x)
    return res


def c09(ctx):
    n = ctx.pick(4, 5)
    for v, inv in (("legacy-finish", "SaveHonest"), ("no-check", "LoadHonest")):
        ctx.tlc("Store", CFG % (3, v, "INVARIANT " + inv), label=v, ok=(12,))
    hs = [h for k in range(2, n + 1) for h in histories(ctx, k)]
    rng = random.Random(ctx.seed)
    if not ctx.thorough and len(hs) > 900:
        hs = rng.sample(hs, 900)
    fs = files()
    base = {"files": fs, "bases": ["base0", "base1"]}
    jobs = []
    for kind in ("model", "report"):
        r = ctx.harness("store", [dict(base, kind=kind, hists=[])], name="store-size")[0]
        if "sizes" not in r:
            ctx.violation("store:setup", "training, reporting or saving fails", base, r)
            return
        sizes = r["sizes"]
        cs = [(h, concrete(h, sizes, rng)) for h in hs]
        # every truncation point
        pts = set(range(sizes[0])) if ctx.thorough else set(range(0, 80)) | set(range(sizes[0] - 80, sizes[0])) | set(rng.sample(range(sizes[0]), 200))
        tr = [{"op": "save", "obj": "m0", "at": 3, "res": "ok"}, {"op": "truncate", "obj": "m0", "at": 1, "res": "ok"},
              {"op": "load", "obj": "none", "at": 0, "res": "error"}]
        cs += [(tr, [{"op": "save", "o": 0}, {"op": "truncate", "o": 0, "bytes": b}, {"op": "load", "o": 0}]) for b in sorted(pts)]
        wr = [{"op": "save", "obj": "m0", "at": 1, "res": "error"}, {"op": "load", "obj": "none", "at": 0, "res": "error"}]
        cs += [(wr, [{"op": "save", "o": 0, "bytes": b}, {"op": "load", "o": 0}]) for b in sorted(pts)]
        jobs.append((kind, cs))
    for kind, cs in jobs:
        chunk = 100
        cases = [dict(base, kind=kind, hists=[c for _, c in cs[i:i + chunk]]) for i in range(0, len(cs), chunk)]
        rs = ctx.harness("store", cases, timeout=ctx.pick(400, 2000), name="store-" + kind)
        for k, r in enumerate(rs):
            if "hists" not in r:
                ctx.violation("store:end", "saving or loading ends with %s" % json.dumps(r)[:300], cases[k], r)
                continue
            for (h, c), obs in zip(cs[k * chunk:(k + 1) * chunk], r["hists"]):
                ctx.traces += 1
                why = judge(h, c, obs)
                if why:
                    ctx.violation("store:%s" % kind, "%s: %s" % (kind, why), {"kind": kind, "ops": c}, obs, h)
    # many indexes, and large ones: what is saved is what is loaded
    many = [{"path": "base0/dir%s/log%s.txt" % ("abcdefghij"[i // 26] * 3, "abcdefghijklmnopqrstuvwxyz"[i % 26] * 2), "lines": [line(c, str(c)) for c in range(i, i + 3)]} for i in range(150)]
    many += [{"path": "base0/big/%s.log" % n, "lines": [line(c, str(c)) for c in range(k, k + 3000)]} for n, k in (("one", 0), ("two", 20000), ("three", 1500))]
    many += [{"path": "base0/wide/all.log", "lines": [" ".join(line(c + k * 211, "w") for k in range(6)) for c in range(ctx.pick(20000, 80000))]}]
    many += [dict(f, path=f["path"].replace("base0", "target"), lines=f["lines"][:40] + [line(70000 + i * 7 % 1000, "x")]) for i, f in enumerate(many)]
    many += [dict(f, path=f["path"].replace("base0", "base1"), lines=f["lines"][1:2]) for f in many[:70]]
    h = [{"op": "save", "obj": "m0", "at": 3, "res": "ok"}, {"op": "load", "obj": "none", "at": 0, "res": "m0"}]
    h1 = [{"op": "save", "obj": "m1", "at": 3, "res": "ok"}, {"op": "load", "obj": "none", "at": 0, "res": "m1"}]
    cs = [(h, [{"op": "save", "o": 0}, {"op": "load", "o": 0}]), (h + h1, [{"op": "save", "o": 0}, {"op": "load", "o": 0}, {"op": "save", "o": 1}, {"op": "load", "o": 1}]),
          ([dict(h[0], res="error"), dict(h[1], res="error")], [{"op": "save", "o": 0, "bytes": 5000}, {"op": "load", "o": 0}])]
    for kind in ("model", "report"):
        case = {"files": many, "bases": ["base0", "base1"], "kind": kind, "hists": [c for _, c in cs]}
        r = ctx.harness("store", [case], timeout=ctx.pick(200, 600), name="store-many-" + kind)[0]
        if "hists" not in r:
            ctx.violation("store:end", "saving or loading ends with %s" % json.dumps(r)[:300], {"kind": kind, "many": len(many)}, r)
            continue
        for (h, c), obs in zip(cs, r["hists"]):
            ctx.traces += 1
            why = judge(h, c, obs)
            if why:
                ctx.violation("store:many", "%s of %d sources: %s" % (kind, len(many), why), {"kind": kind, "ops": c}, obs, h)
    ctx.sample({"history": jobs[0][1][10][0], "ops": jobs[0][1][10][1]})
    two_processes(ctx)


def judge(h, c, obs):
    flipped = False
    for op, x, o in zip(h, c, obs):
        if str(o).startswith("panic"):
            return "a %s panics: %s" % (op["op"], o)
        if op["op"] == "save" and (o == "ok") != (op["res"] == "ok"):
            return "a save %s: %s" % ("fails" if o != "ok" else "that could not write everything succeeds", o)
        if op["op"] != "load":
            # a corrupt byte may be one that carries no information
            flipped = op["op"] == "junk" and x["junk"] == 6
        elif op["res"] == "error":
            if not str(o).startswith("error") and not (flipped and o == 0):
                return "a load gives %s instead of an error" % o
        elif o != {"m0": 0, "m1": 1}[op["res"]]:
            return "a load gives %s instead of %s" % (o, op["res"])
    return None


def two_processes(ctx):
    ws = report.worlds(ctx)
    ws = [w for w in ws if w["target"] and not any(f["end"] == "open" for f in w["target"])]
    ws = random.Random(ctx.seed).sample(ws, ctx.pick(60, 600))
    top = tempfile.mkdtemp(prefix="vh-store-")
    try:
        cases = []
        for i, w in enumerate(ws):
            c = report.world(w, i)
            for f in c["files"]:
                f["lines"] = [l + STYLES[i % 4] for l in f.get("lines", [])]
            cases.append(dict(c, dir=os.path.join(top, str(i)), phase="save"))
        a = ctx.harness("store-phase", cases, name="save")
        b = ctx.harness("store-phase", [dict(c, phase="load") for c in cases], name="load")
        for c, x, y in zip(cases, a, b):
            ctx.traces += 1
            for k in ("report", "whole"):
                if k not in x or k not in y:
                    ctx.violation("store:process", "saving or loading fails", c, [x, y])
                    break
                if x[k] != y[k]:
                    ctx.violation("store:process", "the %s differs once loaded by another process" % ("report of the model" if k == "report" else "report"), c, y[k], x[k])
    finally:
        shutil.rmtree(top, ignore_errors=True)

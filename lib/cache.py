"""The cache: C14."""
import json, os, random
import vlib

CFG = ('SPECIFICATION Spec\nCONSTANTS NKeys = %d NDirs = %d Writers = {%s} Readers = {%s} Blocks = 2 MaxOps = %d Variant = "%s"\n%s\n')
INV = "INVARIANTS Exact Stable DirExact"

H = "http://host/logs/"
# three keys (base, url) and two directories that are different but look alike
KEYS = [
    ([[H, H + "a"], [H, H + "a/"], [H, H + "a?x"]], [H, H + "a"]),
    ([[H, H + "job"], [H + "b/", H + "job"], [H, H + "Job"]], [H + "job", H + "b/"]),
    ([[H + "x", H + "y"], [H + "y", H + "x"], [H + "x", H + "x"]], [H + "x", H + "y"]),
    ([["http://host/", "http://host/a%20b"], ["https://host/", "http://host/a%20b"], ["http://host:81/", "http://host/a%20b"]], ["http://host/", "https://host/"]),
    ([[H, H + "f#1"], [H, H + "f#2"], [H, H + "f"]], [H + "f", H + "f#1"]),
    ([[H, H + "é" * 300], [H, H + "é" * 299], [H, H + "é" * 301]], [H + "é" * 300, H + "é" * 299]),
]


def same(obs, want):
    """what a read of the cache gave, and what the specification wants: 0 for a miss, 100 + c when a miss is fine too"""
    if want == 0:
        return obs == "miss"
    if want >= 100 and obs == "miss":
        return True
    return isinstance(obs, list) and (want % 100) in obs


def judge(c, r):
    for k in ("ended", "hang", "panic"):
        if k in r:
            return "the history ends with %s" % json.dumps(r)[:200]
    failed = set()
    for op, o in zip(c["ops"], r["ops"]):
        n, w = op["op"], op["who"]
        bad = None
        if n in ("add", "drop", "dirdrop", "diradd", "open"):
            bad = o != "ok"
        elif n == "dirfull":
            bad = o == "ok"
        elif n == "fail":
            failed.add(w)
            bad = o == "no error"
        elif n == "interrupt":
            bad = False
        elif n in ("end", "abandon", "full"):
            bad = n == "end" and w not in failed and o != "exact"
            failed.discard(w)
        elif n == "step":
            bad = w not in failed and o != ["Ok(0)", "Ok(())"]
        elif n == "other":
            bad = o.get("ops") != ["ok", "exact"]
        elif n == "crash":
            bad = "ended" not in o
        elif n in ("get", "rest", "dirget"):
            bad = not same(o, op["want"])
        elif n.startswith("headset"):
            bad = o != n[8:]
        if bad:
            return "%s of %s gives %s, wanted %s" % (n, op["k"], json.dumps(o)[:120], op["want"])
    f = c["final"]
    for k, (o, want) in enumerate(zip(r["keys"], f["keys"])):
        if not same(o, want):
            return "at the end the url %s gives %s instead of %s" % (c["keys"][k], json.dumps(o)[:120], want)
    for k, (o, want) in enumerate(zip(r["dirs"], f["dirs"])):
        if not same(o, want):
            return "at the end the listing of %s gives %s instead of %s" % (c["dirs"][k], json.dumps(o)[:120], want)
    if r["heads"] != f["heads"]:
        return "the availability is %s instead of %s" % (r["heads"], f["heads"])
    return None


def c14(ctx):
    ctx.tlc("Cache", CFG % (2, 1, "1, 2", "1", ctx.pick(6, 8), "fixed", INV + "\nVIEW View"), label="Cache", timeout=3000)
    for v, inv in (("visible", "Exact"), ("in-place", "Stable"), ("shared-pending", "Exact"), ("publish-failed", "Exact"),
                   ("crash-visible", "Exact"), ("dir-in-place", "DirExact"), ("drop-all", "Exact")):
        ctx.tlc("Cache", CFG % (2, 1, "1, 2", "1", 6, v, "INVARIANT " + inv + "\nVIEW View"), label=v, ok=(12,))
    rng = random.Random(ctx.seed)
    hs = []

    def gen(label, keys, dirs, ws, rs, n, simulate, limit):
        out = ctx.path(label + ".nd")
        ctx.tlc("CacheGen", CFG % (keys, dirs, ws, rs, n, "fixed", INV + " Dump"), env={"OUT": out}, workers=1, label=label, simulate=simulate, timeout=3000)
        x = vlib.read_nd(out)
        os.unlink(out)
        hs.extend(rng.sample(x, limit) if len(x) > limit else x)
    # every short history of one url, then longer ones of several
    gen("CacheGen-all", 1, 0, "1", "1", ctx.pick(4, 5), None, ctx.pick(2000, 20000))
    gen("CacheGen-two", 1, 1, "1, 2", "1", 7, (ctx.pick(800, 8000), 8), 10**6)
    gen("CacheGen-sim", 3, 2, "1, 2", "1, 2", 12, (ctx.pick(700, 8000), 13), 10**6)
    gen("CacheGen-long", 3, 2, "1, 2, 3", "1, 2", 30, (ctx.pick(150, 2000), 31), 10**6)
    cs = []
    for i, h in enumerate(hs):
        keys, dirs = KEYS[rng.randrange(len(KEYS))]
        nk, nd = len(h["final"]["keys"]), len(h["final"]["dirs"])
        ks = rng.sample(keys, nk)
        cs.append(dict(h, keys=ks, dirs=rng.sample(dirs, nd), salt=rng.randrange(12), n=i))
    rs = ctx.harness("cache", cs, timeout=ctx.pick(600, 3000))
    for c, r in zip(cs, rs):
        ctx.traces += 1
        why = judge(c, r)
        if why:
            ctx.violation("cache:history", why, c, r)
    ctx.sample({"history": cs[-1]["ops"], "observed": rs[-1]})
    fetches(ctx, rng)


# (path, length of the base path, 0 for none)
URLS = [[["/a/x", 0], ["/a/x", 3], ["/a/x/", 0]], [["/l/job.txt", 3], ["/l/job.txt?v=1", 3], ["/L/job.txt", 3]],
        [["/a/b/c.log", 3], ["/a/b/c.log", 5], ["/a/c.log", 3]]]
DIRS = [["/dir/", "/dir/a/"], ["/dir-b/", "/a/dir-b/"]]


def fetches(ctx, rng):
    hs = []
    for label, n, sim in (("Fetch-all", 2, None), ("Fetch-sim", 6, (ctx.pick(250, 3000), 7)), ("Fetch-long", 12, (ctx.pick(60, 1500), 13))):
        out = ctx.path(label + ".nd")
        ctx.tlc("Fetch", "SPECIFICATION Spec\nCONSTANTS NUrls = %d NDirs = %d MaxOps = %d\nINVARIANTS Sound Frugal Dump\n" % (
            (1, 1, n) if not sim else (3, 2, n)), env={"OUT": out}, workers=1, label=label, simulate=sim)
        hs += vlib.read_nd(out)
    cs = [dict(h, urls=rng.sample(URLS[i % 3], 3), dirs=rng.sample(DIRS[i % 2], 2), salt=rng.randrange(12)) for i, h in enumerate(hs)]
    rs = ctx.harness("fetch", cs, timeout=ctx.pick(600, 3000))
    for c, r in zip(cs, rs):
        ctx.traces += 1
        why = judge_fetch(c, r)
        if why:
            ctx.violation("cache:fetch", why, c, r)
    ctx.sample({"fetches": cs[-1]["ops"], "observed": rs[-1]})


def judge_fetch(c, r):
    if "ops" not in r:
        return "the history ends with %s" % json.dumps(r)[:200]
    for i, (op, o) in enumerate(zip(c["ops"], r["ops"])):
        if op["op"] == "restart":
            continue
        what = "operation %d, %s of %s answered %s with%s the cache" % (i + 1, op["op"], (c["urls"] if op["op"] == "fetch" else c["dirs"])[op["u"] - 1], op["how"], "" if c["use"] else "out")
        g = o["got"]
        if "panic" in g:
            return what + " panics: %s" % g["panic"]
        if o["req"] != op["req"]:
            return what + ": %d requests so far instead of %d" % (o["req"], op["req"])
        if op["res"] == 0:
            # a part of a cut answer may be read without an error
            if not g["error"] and not (op["op"] == "fetch" and op["how"] == "cut" and not op["full"]):
                return what + ": no error"
        elif g["error"]:
            return what + ": error %s" % g["error"]
        elif op["op"] == "fetch" and op["res"] not in g["ids"]:
            return what + ": %d bytes that are not the response %d but %s" % (g["data"], op["res"], g["ids"])
        elif op["op"] == "list" and sorted(g["files"]) != sorted(["file-%d" % op["res"], "file.log"]):
            return what + ": lists %s instead of the answer %d" % (g["files"], op["res"])
    return None

"""The python module: C24."""
import json, os, random, shutil
import vlib

CFG = 'SPECIFICATION Spec\nCONSTANTS MaxOps = %d Variant = "%s"\nINVARIANTS %s\n'
DIR = os.path.join(vlib.VERIF, "pyharness")
TARGET = os.path.join(DIR, "target")
MOD = os.path.join(TARGET, "module")


def build():
    cmd = ["cargo", "build", "--offline", "--manifest-path", os.path.join(DIR, "Cargo.toml"), "--target-dir", TARGET]
    r = vlib.sh(cmd, timeout=800, env=vlib.cargo_env())
    if r.returncode != 0:
        raise vlib.ToolError("build failed: %s\n%s" % (" ".join(cmd), r.stderr[-4000:]))
    os.makedirs(MOD, exist_ok=True)
    shutil.copy(os.path.join(TARGET, "debug", "liblogreduce_binding.so"), os.path.join(MOD, "logreduce_rust.so"))


def drive(ctx, cases, name):
    """One process for all the cases; one that ends the process is a crash, the others go on."""
    res, todo, crashes = [], list(cases), 0
    while todo:
        i, o = ctx.path(name + ".in"), ctx.path(name + ".out")
        vlib.write_nd(i, todo)
        if os.path.exists(o):
            os.unlink(o)
        r = vlib.sh(["python3", os.path.join(vlib.VERIF, "lib", "pydriver.py"), MOD, i, o], timeout=600,
                    env={"RUST_BACKTRACE": "0", "PYTHONDONTWRITEBYTECODE": "1"})
        got = vlib.read_nd(o) if os.path.exists(o) else []
        res += got
        if r.returncode == 0 and len(got) == len(todo):
            break
        if r.returncode > 0 and not got:
            raise vlib.ToolError("pydriver: " + r.stderr[-2000:])
        res.append({"crash": "rc=%d %s" % (r.returncode, r.stderr[-300:])})
        todo = todo[len(got) + 1:]
        crashes += 1
        if crashes > 10:
            res += [{"skipped": True}] * len(todo)
            break
    return res


def c24(ctx):
    build()
    n = ctx.pick(5, 6)
    for v in ("confused", "shared", "lenient"):
        ctx.tlc("Bindings", CFG % (5, v, "Own"), label="Bindings-" + v, ok=(12,))
    rng = random.Random(ctx.seed)
    hs = []
    for k in range(2, n + 1):
        out = ctx.path("hists.nd")
        if k <= 4:
            ctx.tlc("BindingsGen", CFG % (k, "fixed", "Own Dump"), env={"OUT": out}, workers=1, label="BindingsGen-%d" % k)
        elif k == 5:
            ctx.tlc("Bindings", CFG % (k, "fixed", "Own"), label="Bindings-5")
        if k > 4:
            ctx.tlc("BindingsGen", CFG % (2 * k, "fixed", "Own Dump"), env={"OUT": out}, workers=1, simulate=(ctx.pick(6000, 100000), 2 * k), label="BindingsGen-sim-%d" % k)
        hs += vlib.read_nd(out)
        os.unlink(out)
    cs = [{"kind": "hist", "hist": h, "style": rng.randint(0, 1000)} for h in hs]
    rs = drive(ctx, cs, "hists")
    for c, r in zip(cs, rs):
        if isinstance(r, dict):
            if "crash" in r:
                ctx.violation("py:crash", "a history of calls ends the interpreter: %s" % r["crash"], c)
            continue
        ctx.traces += 1
        for x, o in zip(c["hist"], r):
            why = None
            if o["st"] != x["res"]["st"]:
                why = "%s gives %s instead of %s" % (x["op"], o, x["res"])
            elif len(o["d"]) != len(x["res"]["d"]) or any(abs(a - b) > 2 for a, b in zip(o["d"], x["res"]["d"])):
                why = "%s gives the distances %s instead of %s" % (x["op"], o["d"], x["res"]["d"])
            elif o.get("panic") and x["op"] != "loadcut":
                why = "%s is not refused but panics: %s" % (x["op"], o["what"])
            if why:
                ctx.violation("py:hist", why, c, r)
                break
    ctx.sample({"history": cs[len(cs) // 2], "observed": rs[len(cs) // 2]})
    # process: the tokens of the tokenizer
    lines = ["", " ", "word", "the first line", "GET / HTTP/1.1 200", "Error: can't open 10.0.0.1 at 2022-01-02", "\u00e9\u20ac \u4e2d\u6587 abcde", "a=b c:d \\n e",
             "\x00 nul inside", "tab\tand  spaces ", "failed " * 50, "x" * 5000 + " yyyy",
             "two lines\nof words", "with\r\nreturns here", "\nfirst", "last\n", "\x0bvertical \u2028 separator", " padded line ", "UPPER Case"]
    lines += [" ".join(rng.choice(["token=abc", "systemd[42]:", "/tmp/xyz", "foo-bar-baz", "req-1234", "Traceback", "2f3a", "https://a/b", "'quoted'", "(main):"]) for _ in range(rng.randint(1, 8))) for _ in range(200)]
    got = drive(ctx, [{"kind": "process", "lines": lines}], "process")[0]
    want = ctx.harness("tokens", [{"lines": lines}], name="py-tokens")[0].get("out", [])
    if isinstance(got, dict):
        ctx.violation("py:process-crash", "process ends the interpreter", lines, got)
    else:
        for l, g, w in zip(lines, got, want):
            ctx.traces += 1
            if g != w:
                ctx.violation("py:process", "process gives %r instead of %r" % (g, w), l)
    # generate: the recorded answers against GenTrace
    sizes = [0, 1, 2, 3, 50, 3, ctx.pick(400, 2000), 1, 200] + [rng.randint(1, 300) for _ in range(5)]
    got = drive(ctx, [{"kind": "generate", "sizes": sizes}], "generate")[0]
    if isinstance(got, dict):
        ctx.violation("py:generate-crash", "generate ends the interpreter", sizes, got)
        return
    # many lines: only their number
    sizes2 = [5000, ctx.pick(120000, 1200000)]
    n2 = drive(ctx, [{"kind": "count", "sizes": sizes2}], "count")[0]
    if n2 != sizes2:
        ctx.violation("py:generate", "generate gives %s lines instead of %s" % (n2, sizes2), sizes2, n2)
    words = {}
    def rec(w):
        return {"w": words.setdefault(w, len(words)), "len": len(w), "ok": w.isascii() and w.isalnum()}
    tr = [{"n": n, "lines": [[rec(w) for w in l.split(" ")] for l in (g.split("\n") if g else [])]} for n, g in zip(sizes, got)]
    p = ctx.path("gen.nd")
    vlib.write_nd(p, tr)
    rc, txt = ctx.tlc("GenTrace", "SPECIFICATION Spec\n", workers=1, env={"TRACE": p})
    ctx.traces += len(tr)
    for l in txt.splitlines():
        if l.startswith('<<"REJECT"'):
            k = int(l[2:-2].split(",")[1]) - 1
            ctx.violation("py:generate", "generate(%d) is not the beginning of the sequence of lines" % sizes[k], sizes, got[k][:2000])

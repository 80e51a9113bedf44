"""The distances: C08."""
import json, math
import vlib

STYLES = 8  # of index.rs


def c08(ctx):
    for v, ok in (("fixed", (0,)), ("last-chunk", (12,))):
        n = ctx.pick((3, 3), (3, 4))
        ctx.tlc("IndexSearch", 'SPECIFICATION Spec\nCONSTANTS Words = {1, 2, 3%s} MaxBase = %d Variant = "%s"\nINVARIANTS Exact Bounds Monotone\n'
                % (", 4" if ctx.thorough and v == "fixed" else "", 3, v), ok=ok, label="IndexSearch-" + v)
    cs = []
    for f in ("small", "other", "wide", "large"):
        new = ctx.tlc_gen("IndexGen", 'CONSTANTS Fam = "%s" NWords = %d NBase = %d' % ((f,) + ctx.pick((3, 3), (4, 3))),
                          ctx.path("gen-%s.nd" % f), label="IndexGen-" + f)
        # the texts of the words: all of them for the special cases, one after the other for the many
        for i, c in enumerate(new):
            for st in ([(i + 3 * k) % STYLES for k in range(3)] if f == "other" and len(c["base"]) < 8 else [i % STYLES if f not in ("wide", "large") else (i % 2) * 4 if f == "wide" else 0]):
                cs.append(dict(c, style=st))
    rs = ctx.harness("index", cs, timeout=ctx.pick(300, 1500))
    for c, r in zip(cs, rs):
        for k in ("crash", "hang", "panic"):
            if r.get(k):
                ctx.violation("index:" + k, "the search ends with a %s: %s" % (k, r[k]), c, r)
        for i, o in enumerate(r.get("targets", [])):
            ctx.traces += r["methods"]
            e = c["exp"][i]
            why, slack = None, c.get("slack", 2)
            if "frac" in c:
                # the definition gives the square of the similarity, the floats of the code have about six digits
                num, den = c["frac"][i]
                e, slack = 1000 - 1000 * math.sqrt(num / den), 0.02
            if "bad" in o:
                why = o["bad"]
            elif o["lo"] < e - slack:
                why = "distance %.3f instead of %.3f by %s" % (o["lo"], e, o["lo_by"])
            elif o["hi"] > e + slack:
                why = "distance %.3f instead of %.3f by %s" % (o["hi"], e, o["hi_by"])
            elif o["lo"] < -0.1 or o["hi"] > 1000.1:
                why = "distance %.4f or %.4f out of the bounds" % (o["lo"], o["hi"])
            if why:
                ctx.violation("index:%s" % json.dumps(c["base"])[:100], why, {"base": c["base"], "target": c["targets"][i], "style": c["style"]}, o, e)
    ctx.sample({"case": cs[len(cs) // 2], "observed": rs[len(cs) // 2]})
    n = ctx.pick(400, 3000)
    out = ctx.path("fuzz.nd")
    r = vlib.sh([vlib.VH, "index-fuzz", "-", out, str(n)], timeout=900, env={"VERIF_SEED": str(ctx.seed)})
    if r.returncode != 0:
        ctx.violation("index:fuzz-crash", "the search crashes", {"fuzz": n}, r.stderr[-500:])
    recs = vlib.read_nd(out)
    rc, txt = ctx.tlc("IndexTrace", "SPECIFICATION Spec\n", workers=1, env={"TRACE": out})
    ctx.traces += len(recs)
    for l in txt.splitlines():
        if l.startswith('<<"REJECT"'):
            x = recs[int(l[2:-2].split(",")[1]) - 1]
            ctx.violation("index:fuzz", "the recorded distances are not those of the definition", x)

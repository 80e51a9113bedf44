"""The line reader: C01, C02, C03."""
import json, random
from difflib import SequenceMatcher
import vlib, detect

CFG = """SPECIFICATION Spec
CONSTANTS Alphabet = {%s} MaxInput = %d Chunk = %d Max = %d Json = %s Variant = "%s"
%s
"""


def model(ctx, what):
    """Model-check the buffered iterator against the definition of the lines."""
    inv = {"texts": "INVARIANT LinesExact", "numbers": "INVARIANT NumbersExact",
           "failures": "INVARIANTS FailureExact BufferBounded"}[what]
    plain, js = '"x", "b", "n", "N"', '"x", "b", "n", "N", "c", "q"'
    n, m = ctx.pick((6, 5), (8, 6))
    ctx.tlc("LineIter", CFG % (plain, n, 3, 2, "FALSE", "fixed", inv), label="LineIter-plain")
    ctx.tlc("LineIter", CFG % (js, m, 3, 2, "TRUE", "fixed", inv), label="LineIter-json")
    if ctx.thorough:
        ctx.tlc("LineIter", CFG % (plain, 7, 2, 3, "FALSE", "fixed", inv), label="LineIter-32")
        ctx.tlc("LineIter", CFG % (plain, 7, 4, 1, "FALSE", "fixed", inv), label="LineIter-41")
    if what == "failures":
        # liveness on a smaller model: reading ends
        ctx.tlc("LineIter", CFG % (plain, 4, 2, 2, "FALSE", "fixed", "PROPERTY Terminates"), label="LineIter-live")
    # the specification must tell the defective designs apart
    legacy = {"texts": "legacy-limit", "numbers": "legacy-backslash", "failures": "legacy-backslash"}[what]
    rc, out = ctx.tlc("LineIter", CFG % (plain, 5, 3, 2, "FALSE", legacy, inv), label="LineIter-legacy", ok=(12,))


def cases(ctx):
    fams = ["small", "limit"] + ["pair", "count"]
    res = []
    for f in fams:
        cfg = 'CONSTANTS SmallLen = %d JsonLen = %d Depth = %d Fam = "%s"' % (ctx.pick((7, 5, 3), (9, 6, 5)) + (f,))
        res += ctx.tlc_gen("LineGen", cfg, ctx.path("gen-%s.nd" % f), label="LineGen-" + f)
    # what the bytes of the texts are does not matter
    rng = random.Random(ctx.seed)
    for c in res:
        c["pal"] = rng.randrange(9)
    return res


def bad_end(r):
    """What is wrong with the end of an execution, if anything."""
    if r.get("panic"):
        return "panic: %s" % r["panic"]
    if r.get("endless"):
        return "does not terminate"
    return None


def judge_texts(exp, r):
    if bad_end(r):
        return bad_end(r)
    a, b = [x["txt"] for x in exp], [x["txt"] for x in r["out"]]
    if a != b:
        return "the lines are not those of the file"
    return None


def judge_numbers(exp, r):
    """Compare the numbers of the lines that are in both, so that a lost line does not count."""
    if bad_end(r):
        return bad_end(r)
    a, b = [json.dumps(x["txt"]) for x in exp], [json.dumps(x["txt"]) for x in r["out"]]
    if a == b:
        pairs = zip(exp, r["out"])
    elif len(set(a)) == len(a) and len(set(b)) == len(b):
        ia = {t: x for t, x in zip(a, exp)}
        pairs = [(ia[t], y) for t, y in zip(b, r["out"]) if t in ia]
    else:
        return None  # the texts repeat and differ: C01 judges
    for x, y in pairs:
        if x["no"] != y["no"]:
            return "line number %s instead of %s" % (y["no"], x["no"])
    return None


def replay(ctx, judge, which):
    cs = cases(ctx)
    rs = ctx.harness("lines", cs, timeout=ctx.pick(300, 1500))
    for c, r in zip(cs, rs):
        for k in ("crash", "hang", "panic"):
            if k in r:
                ctx.violation("lines:%s" % k, "reading ends with a %s" % k, c, r)
        if "full" not in r:
            continue
        ctx.traces += r["runs"] // 2
        for kind, exp in which:
            for o in r[kind]:
                why = judge(c[exp], o["res"])
                if why is None and kind == "full" and o["res"]["err"]:
                    why = "unexpected error"
                if why is None and kind == "failing" and not o["res"]["err"]:
                    why = "the failure is not reported"
                if why:
                    ctx.violation("lines:%s" % json.dumps(c["runs"]), why,
                                  {"runs": c["runs"], "pal": c["pal"], "json": c["json"], "sched": o["sched"], "reader": kind}, o["res"], c[exp])
    ctx.sample({"case": cs[len(cs) // 2], "observed": rs[len(rs) // 2]})
    ctx.sample({"case": cs[-1], "observed": rs[-1]})


def trace(ctx, what):
    """Random executions recorded from the implementation, validated by TLC."""
    n = ctx.pick(600, 6000)
    out = ctx.path("fuzz.nd")
    r = vlib.sh([vlib.VH, "lines-fuzz", "-", out, str(n)], timeout=900, env={"VERIF_SEED": str(ctx.seed)})
    recs = vlib.read_nd(out) if vlib.os.path.exists(out) else []
    if r.returncode != 0:
        ctx.violation("lines:fuzz-crash", "reading ends with a crash", {"fuzz": n, "done": len(recs)}, r.stderr[-500:])
    keep = []
    for x in recs:
        if x["panic"] or x["endless"]:
            ctx.violation("lines:fuzz", bad_end(x), {k: x[k] for k in ("runs", "json", "fail", "sched")}, x["out"])
        elif what == "failures":
            if bool(x["err"]) != x["fail"]:
                ctx.violation("lines:fuzz", "the failure is not reported" if x["fail"] else "unexpected error",
                              {k: x[k] for k in ("runs", "json", "fail", "sched")}, x["out"])
            elif x["fail"]:
                keep.append(x)
        else:
            keep.append(x)
    tr = ctx.path("trace.nd")
    # positions are strings in JSON numbers: only what the specification talks about is kept
    vlib.write_nd(tr, [{k: x[k] for k in ("runs", "json", "fail", "out")} for x in keep])
    rc, txt = ctx.tlc("LineTrace", "SPECIFICATION Spec\nPOSTCONDITION Accepted\n", workers=1,
                      env={"TRACE": tr, "WHAT": {"texts": "texts", "numbers": "both", "failures": "texts"}[what]})
    ctx.traces += len(keep)
    for l in txt.splitlines():
        if l.startswith('<<"REJECT"'):
            i = int(l.split(",")[1])
            x = keep[i - 1]
            if what == "numbers":
                exp = parse_reject(l)
                if exp is None or [y["txt"] for y in exp] != [y["txt"] for y in x["out"]]:
                    continue  # the texts differ: C01 judges
            ctx.violation("lines:fuzz", "the recorded execution is not a behaviour of the specification",
                          {k: x[k] for k in ("runs", "json", "fail", "sched")}, x["out"], l)


def parse_reject(l):
    import re
    try:
        body = l[l.index(",", l.index(",") + 1) + 1:].rsplit(">>", 1)[0].strip()
        s = body.replace("<<", "[").replace(">>", "]").replace("|->", ":")
        s = re.sub(r"\[no :", '{"no" :', s).replace(", txt :", ', "txt" :')
        # close the records: each record is {"no": n, "txt": [[..]..]}
        s = re.sub(r"(\]\])\]", r"\1}", s)
        return json.loads(s)
    except ValueError:
        return None


def c01(ctx):
    model(ctx, "texts")
    replay(ctx, judge_texts, [("full", "exp")])
    trace(ctx, "texts")


def c02(ctx):
    model(ctx, "numbers")
    replay(ctx, judge_numbers, [("full", "exp"), ("failing", "expf")])
    trace(ctx, "numbers")


def c03(ctx):
    model(ctx, "failures")
    replay(ctx, judge_texts, [("failing", "expf")])
    trace(ctx, "failures")
    detect.replay(ctx, ["fail"], detect.failures)
    big = ctx.tlc_gen("LineBig", "CONSTANTS Scale = %d" % ctx.pick(300, 3000), ctx.path("big.nd"))
    rs = ctx.harness("lines-big", big, timeout=300)
    for c, r in zip(big, rs):
        ctx.traces += 1
        why = None
        for k in ("crash", "hang", "panic"):
            if r.get(k):
                why = "reading ends with a %s: %s" % (k, r[k])
        if not why and "count" in r:
            if r["errs"]:
                why = "unexpected error"
            elif r["peak"] > 4 << 20:
                why = "the reader keeps %d bytes" % r["peak"]
            elif (r["count"], r["bytes"]) != (c["count"], c["bytes"]):
                why = "%d lines, %d bytes instead of %d, %d" % (r["count"], r["bytes"], c["count"], c["bytes"])
            elif c["count"] and r["last"] != c["last"][0]:
                why = "wrong last line"
        if why:
            ctx.violation("lines:big:%s" % json.dumps(c["pattern"]), why, c, r)
    ctx.sample({"big": big[0], "observed": rs[0]})

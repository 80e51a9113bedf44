"""The inspection: C04 to C07, and the failures of C03."""
import json
import vlib

CFG = """SPECIFICATION %s
CONSTANTS Known = {k1, k2} Novel = {a1, a2, a3} MaxLen = %d Chunk = %d BufLimit = %d Ctx = %d Variant = "%s"
%s
"""


def model(ctx, invs, legacy):
    def run(n, chunk, buf, c, variant="fixed", props=None, **kw):
        ctx.tlc("ChunkedDetector", CFG % ("Spec", n, chunk, buf, c, variant, props or ("INVARIANTS " + " ".join(invs))), **kw)
    n = ctx.pick(8, 10)
    run(n, 2, 3, 2, label="Chunked-2-3-2")
    run(n - 1, 3, 5, 3, label="Chunked-3-5-3")
    if ctx.thorough:
        run(9, 1, 2, 1, label="Chunked-1-2-1")
        run(9, 2, 5, 1, label="Chunked-2-5-1")
        run(7, 2, 3, 2, props="PROPERTY Terminates", label="Chunked-live")
    for v in legacy:
        run(8, 2, 3, 2, variant=v, ok=(12,), label=v)


def cases(ctx, fams):
    res = []
    for f in fams:
        for c in ctx.tlc_gen("DetectGen", 'CONSTANTS Fam = "%s" Len1 = %d Len2 = %d' % ((f,) + ctx.pick((5, 3), (6, 5))),
                             ctx.path("gen-%s.nd" % f), label="DetectGen-" + f):
            c["fam"] = f
            res.append(c)
    return res


def ends(ctx, c, r):
    """Crashes, panics and endless iterations; True when there is something to judge."""
    for k in ("crash", "hang", "panic"):
        if r.get(k):
            ctx.violation("detect:%s" % k, "the inspection ends with a %s: %s" % (k, r[k]), c, r)
            return False
    if "srcs" not in r:
        return False
    for s in r["srcs"]:
        if s["panic"] or s["endless"]:
            ctx.violation("detect:panic", "the inspection ends with a panic: %s" % s["panic"] if s["panic"] else "the inspection does not end", c, s)
            return False
    return True


def soundness(exp, obs, c):
    """Only lines that are novel, with their own text, number and distance."""
    ids = {x["line"]: x for x in exp}
    for x in obs["out"]:
        if isinstance(x["line"], str):
            return "the reported text is not a line: %s" % x["line"]
        if x["line"] not in ids:
            # a later line of a novel class is not a matter of soundness
            if kind_of(c, obs["i"], x["line"]) in ("a", "A", "f", "L") and not after_marker(c, obs["i"], x["line"]):
                continue
            if after_marker(c, obs["i"], x["line"]):
                continue  # C07
            return "line %s is reported but it is in the baselines" % x["line"]
        if x["no"] != ids[x["line"]]["no"]:
            return "line number %s instead of %s" % (x["no"], ids[x["line"]]["no"])
        if not 300 < x["dist"] <= 1000.001 or abs(x["dist"] - x["own"]) > 2:
            return "distance %.1f, that of the line is %.1f" % (x["dist"], x["own"])
    return None


def flat(c, i):
    k = (id(c), i)
    if flat.key != k:
        res, stop = [], None
        for it in c["srcs"][i]:
            if it[0] == "z":
                continue
            if it[0] == "m" and stop is None:
                stop = len(res) + 1
            res += [it[0]] * it[2]
        flat.key, flat.val = k, (res, stop)
    return flat.val


flat.key = None


def kind_of(c, i, coord):
    return flat(c, i)[0][coord - 1]


def after_marker(c, i, coord):
    stop = flat(c, i)[1]
    return stop is not None and coord >= stop


def completeness(exp, obs, c):
    want = [x["line"] for x in exp]
    got = [x["line"] for x in obs["out"] if not isinstance(x["line"], str) and not after_marker(c, obs["i"], x["line"])
           and kind_of(c, obs["i"], x["line"]) in ("a", "A", "f", "L")]
    if want == got:
        return None
    for w in want:
        if w not in got:
            return "the novel line %d is not reported" % w
    if len(set(got)) != len(got):
        return "a line is reported twice"
    if sorted(got) == sorted(want):
        return "the anomalies are not in the order of the file"
    return "lines %s are reported again" % [g for g in got if g not in want][:5]


def contexts(exp, obs, c):
    """Judged when the anomalies are the expected ones (C04 and C05 judge them)."""
    if [x["line"] for x in exp] != [x["line"] for x in obs["out"]]:
        return None
    for e, x in zip(exp, obs["out"]):
        for k in ("before", "after"):
            if e[k] != x[k]:
                return "the %s context of line %d is %s instead of %s" % (k, e["line"], x[k], e[k])
    return None


def marker(exp, obs, c):
    stop = flat(c, obs["i"])[1]
    if stop is None:
        if c.get("fam") == "marker":
            return soundness(exp, obs, c) or completeness(exp, obs, c)
        return None
    for x in obs["out"]:
        for l in [x["line"]] + x["before"] + x["after"]:
            if isinstance(l, str) or l >= stop:
                return "line %s is shown, after the marker at %d" % (l, stop)
    if [(x["line"], x["before"], x["after"]) for x in exp] != [(x["line"], x["before"], x["after"]) for x in obs["out"]]:
        return "what is before the marker is not reported as if the file ended there"
    return None


def failures(exp, obs, c):
    want = [(x["line"], x["before"], x["after"]) for x in exp]
    got = [(x["line"], x["before"], x["after"]) for x in obs["out"]]
    if want != got:
        return "the anomalies before the failure are %s instead of %s" % (got[:5], want[:5])
    if not obs["err"]:
        return "the failure is not reported"
    return None


def replay(ctx, fams, judge, keep=lambda c: True):
    cs = [c for c in cases(ctx, fams) if keep(c)]
    rs = ctx.harness("detect", cs, timeout=ctx.pick(300, 1500))
    for c, r in zip(cs, rs):
        if not ends(ctx, c, r):
            continue
        for i, s in enumerate(r["srcs"]):
            s["i"] = i
            ctx.traces += 1
            why = judge(c["exp"][i], s, c)
            if not why and judge is not failures and c["end"] == "eof" and s["err"]:
                why = "unexpected error %s" % s["err"]
            if why:
                ctx.violation("detect:%s" % json.dumps(c["srcs"])[:200], why, c, s, c["exp"][i])
                break
    ctx.sample({"case": cs[len(cs) // 2], "observed": rs[len(rs) // 2]})
    return cs, rs


def trace(ctx, judge):
    n = ctx.pick(150, 1500)
    out = ctx.path("fuzz.nd")
    r = vlib.sh([vlib.VH, "detect-fuzz", "-", out, str(n)], timeout=900, env={"VERIF_SEED": str(ctx.seed)})
    recs = vlib.read_nd(out) if vlib.os.path.exists(out) else []
    if r.returncode != 0:
        ctx.violation("detect:fuzz-crash", "the inspection crashes", {"fuzz": n, "done": len(recs)}, r.stderr[-500:])
    recs = [x for x in recs if ends(ctx, {"srcs": x["srcs"]}, {"srcs": x["obs"], "panic": x["panic"]})]
    keys = ("line", "no", "before", "after")
    tr = ctx.path("trace.nd")
    # a line that is no line of the source is 0 in the trace (TLC does not compare strings with numbers)
    num = lambda v: [num(y) for y in v] if isinstance(v, list) else 0 if isinstance(v, str) else v
    vlib.write_nd(tr, [{"srcs": x["srcs"], "out": [[{k: num(a[k]) for k in keys} for a in s["out"]] for s in x["obs"]]} for x in recs])
    rc, txt = ctx.tlc("DetectTrace", "SPECIFICATION Spec\n", workers=1, env={"TRACE": tr})
    ctx.traces += len(recs)
    for l in txt.splitlines():
        if l.startswith('<<"REJECT"'):
            _, i, e = l[2:-2].split(",", 2)
            x, exp = recs[int(i) - 1], json.loads(json.loads(e))
            c = {"srcs": x["srcs"], "end": "eof"}
            for j, s in enumerate(x["obs"]):
                s["i"] = j
                why = judge(exp[j], s, c)
                if why:
                    ctx.violation("detect:fuzz", why, c, s, exp[j])
                    break


def c04(ctx):
    model(ctx, ["AnomaliesExact"], [])
    replay(ctx, ["small", "edge", "dup", "bases", "long"], soundness)
    trace(ctx, soundness)
    import report
    report.modes(ctx, False)


def c05(ctx):
    model(ctx, ["AnomaliesExact"], ["legacy-stop"])
    replay(ctx, ["small", "edge", "dup", "bases", "long"], completeness)
    trace(ctx, completeness)
    # across the sources of an index, in a report
    import report
    report.run(ctx, {"lines"}, quick=1200)
    report.modes(ctx, True)


def c06(ctx):
    model(ctx, ["ContextsExact", "NoLineTwice", "Contiguous"], ["legacy-overlap", "legacy-eof"])
    replay(ctx, ["small", "edge", "dup", "bases", "long"], contexts)
    trace(ctx, contexts)


def c07(ctx):
    model(ctx, ["StopsForGood", "AnomaliesExact"], ["legacy-stop"])
    replay(ctx, ["small", "edge", "marker"], marker,
           keep=lambda c: c["fam"] == "marker" or any(it[0] == "m" for s in c["srcs"] for it in s))
    trace(ctx, marker)

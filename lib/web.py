"""The crawler: C13."""
import json, random
import vlib

CFG = 'SPECIFICATION Spec\nCONSTANTS NDirs = %d NFiles = %d NWorkers = %d Variant = "%s" Ups = {%s}\n%s\n'
INV = "INVARIANTS Once RequestedOnce Only Exact"


def judge(c, r, form):
    for k in ("panic", "hang", "endless"):
        if r.get(k):
            return "%s: the crawl ends with a %s: %s" % (form, k, r[k])
    twice = sorted({p for p in r["requests"] if r["requests"].count(p) > 1})
    if twice:
        return "%s: %s requested more than once" % (form, twice)
    extra = sorted(set(r["requests"]) - set(c["dirs"]))
    if extra:
        return "%s: %s requested, it is not a directory below the root" % (form, extra)
    if form == "list" and c["errors"]:
        return None if r["errors"] else "list: the failing pages are not reported"
    if len(r["errors"]) != c["errors"]:
        return "%s: %d errors instead of %d: %s" % (form, len(r["errors"]), c["errors"], r["errors"][:3])
    if sorted(r["files"]) != sorted(c["files"]):
        a, b = set(r["files"]), set(c["files"])
        return "%s: missing %s, unexpected %s, %d files instead of %d" % (form, sorted(b - a)[:5], sorted(a - b)[:5], len(r["files"]), len(b))
    return None


def c13(ctx):
    ctx.tlc("Crawler", CFG % (3, ctx.pick(1, 2), 2, "fixed", "1", INV), label="Crawler")
    ctx.tlc("Crawler", CFG % (2, 1, 3, "fixed", "1, 2", INV), label="Crawler-3")
    ctx.tlc("Crawler", CFG % (2, 1, 2, "fixed", "1", "PROPERTY Ends"), label="Crawler-live")
    if ctx.thorough:
        ctx.tlc("Crawler", CFG % (4, 1, 2, "fixed", "", INV), label="Crawler-4", timeout=3000)
    for v in ("legacy-visited", "legacy-end", "check-then-add"):
        ctx.tlc("Crawler", CFG % (3, 1, 2, v, "", INV), label=v, ok=(12,))
    cs = []
    for f in ("small", "wide", "deep", "names", "moved", "same"):
        x = ctx.tlc_gen("CrawlGen", 'CONSTANT Fam = "%s"' % f, ctx.path(f + ".nd"), label="CrawlGen-" + f)
        n = ctx.pick({"small": 260, "wide": 140}.get(f, 1000), 10000)
        cs += random.Random(ctx.seed).sample(x, n) if len(x) > n else x
    rs = ctx.harness("crawl", cs, timeout=ctx.pick(600, 3000))
    late = 0
    for c, r in zip(cs, rs):
        if "walk" not in r:
            ctx.violation("crawl:crash", "the crawl ends with %s" % json.dumps(r)[:200], c, r)
            continue
        for form in ("walk", "list"):
            ctx.traces += 1
            late += r[form].get("late", 0)
            why = judge(c, r[form], form)
            if why:
                ctx.violation("crawl:%s" % form, why, c, r[form])
    ctx.extra["answers not in the planned order"] = late
    ctx.sample({"case": cs[5], "observed": rs[5]})

"""Zuul: C15 and C21."""
import datetime, json, random, re
import vlib

UID = "%032x"
MC = 'SPECIFICATION Spec\nCONSTANTS Pool <- Small MaxLen = %d Variant = "%s"\nINVARIANT Correct\n'


# the answers for logs that are not available
GONE = ["no", "404", "403", "410", "401", "400", "429", "500", "502", "503"]


def today():
    return datetime.datetime.now(datetime.timezone.utc).date()


def target():
    return {"uuid": UID % 1, "job_name": "tox-py38", "result": "FAILURE", "start_time": "2022-01-01T00:00:00", "end_time": "2022-01-01T01:00:00", "duration": 42,
            "voting": True, "log_url": "http://@/logs/self/", "ref_url": "http://@/r/1000", "artifacts": [], "project": "zuul/zuul", "branch": "master",
            "pipeline": "check", "change": 1000, "patchset": "1", "ref": "refs/changes/00/1000/1", "event_id": "e"}


def build(b, i, day, rng):
    end = (datetime.datetime.combine(day, datetime.time()) - datetime.timedelta(days=b["age"])).replace(hour=rng.randrange(24), minute=rng.randrange(60), second=rng.randrange(60))
    t = target()
    start = end - datetime.timedelta(days=rng.choice([0, 0, 1, 40, 700]), seconds=rng.randrange(10**5))
    r = dict(t, uuid=t["uuid"] if b["self"] else UID % (i + 2), job_name=t["job_name"] if b["job"] else "tox-py38-other", result="SUCCESS" if b["ok"] else "FAILURE",
             project=t["project"] if b["project"] else "zuul/nodepool", branch=t["branch"] if b["branch"] else "stable",
             pipeline=b["pipeline"], voting=b["voting"], end_time=end.isoformat(), start_time=start.isoformat(),
             change={"same": 1000, "other": 2000 + i, "none": None}[b["change"]],
             log_url="http://@/logs/%d/" % (i + 1) if b["log"] else None, ref_url="http://@/r/%d" % i if b["ref"] else None)
    return r


def round_of(builds, day, rng):
    return {"page": "http://@/zuul/build/" + UID % 1, "build_path": "/zuul/api/build/" + UID % 1, "build": target(), "builds_path": "/zuul/api/builds",
            "builds": [build(b, i, day, rng) for i, b in enumerate(builds)],
            "heads": {"/logs/%d/" % (i + 1): rng.choice(GONE) if b["head"] == "no" else b["head"] for i, b in enumerate(builds)}, "discover": True}


def found(c, o):
    """the position of the build that was found, 0 for an error; or a complaint"""
    if "panic" in o:
        return "panics: %s" % o["panic"]
    if "content" not in o:
        return "the build itself can't be read: %s" % o.get("error")
    if "found_error" in o:
        return 0
    if len(o["found"]) != 1 or "Zuul" not in o["found"][0]:
        return "%d baselines" % len(o["found"])
    z = o["found"][0]["Zuul"]
    m = re.match(r"http://@/logs/(\d+)/", z["log_url"])
    if not m:
        return "its log url is %s" % z["log_url"]
    i = int(m.group(1))
    why = fields(z, c["builds"][i - 1], "http://@/zuul/api/")
    return why or i


def fields(z, b, api):
    """the build that is made is the one of the reply"""
    for k in ("uuid", "job_name", "project", "branch", "result", "pipeline", "log_url", "ref_url", "change"):
        if z[k] != b[k]:
            return "its %s is %r instead of %r" % (k, z[k], b[k])
    if z["end_time"].rstrip("Z") != b["end_time"]:
        return "its end_time is %s instead of %s" % (z["end_time"], b["end_time"])
    if z["api"] != api:
        return "its api is %s instead of %s" % (z["api"], api)
    return None


def c15(ctx):
    ctx.tlc("ZuulMC", MC % (ctx.pick(2, 3), "fixed"), label="Zuul", timeout=3000)
    for v in ("ascending", "first-only", "unsorted", "keep-self", "no-ref"):
        ctx.tlc("ZuulMC", MC % (2, v), label=v, ok=(12,))
    rng = random.Random(ctx.seed)
    cs = []
    for f, n in (("singles", 10**6), ("pairs", ctx.pick(1200, 10**6)), ("triples", 10**6), ("long", 10**6)):
        out = ctx.path(f + ".nd")
        ctx.tlc("ZuulGen", 'SPECIFICATION GenSpec\nCONSTANTS Pool = {} MaxLen = 0 Variant = "fixed" Fam = "%s"\n' % f, env={"OUT": out}, workers=1, label="ZuulGen-" + f)
        x = vlib.read_nd(out)
        x = rng.sample(x, n) if len(x) > n else x
        if f == "pairs":
            x = [c if rng.random() < .5 else {"builds": c["builds"][::-1], "best": [3 - i for i in c["best"]]} for c in x]
        cs += x
    for attempt in range(5):
        day = today()
        cases = [{"rounds": [round_of(c["builds"], day, rng)]} for c in cs]
        rnd = random_lists(ctx, day, rng)
        hist = histories(ctx, cs, day, rng)
        rs = ctx.harness("zuul", cases, timeout=ctx.pick(600, 3000))
        rr = ctx.harness("zuul", [{"rounds": [r]} for _, r in rnd], timeout=ctx.pick(600, 3000), name="zuul-random")
        hr = ctx.harness("zuul", [h[0] for h in hist], timeout=ctx.pick(600, 3000), name="zuul-hist")
        if day == today():
            break
    for c, k, r in zip(cs, cases, rs):
        ctx.traces += 1
        if "rounds" not in r:
            ctx.violation("zuul:end", "the discovery ends with %s" % json.dumps(r)[:200], k, r)
            continue
        got = found(k["rounds"][0], r["rounds"][0])
        want = c["best"] or [0]
        if got not in want:
            ctx.violation("zuul:best", "the baseline is %s, wanted one of %s" % (got, want), k, r, want)
    ctx.sample({"builds": cs[300]["builds"], "best": cs[300]["best"]})
    # the random ones are judged by TLC
    recs, at = [], []
    for (bs, k), r in zip(rnd, rr):
        ctx.traces += 1
        got = found(k, r["rounds"][0]) if "rounds" in r else "ends with %s" % json.dumps(r)[:200]
        if isinstance(got, str):
            ctx.violation("zuul:random", "the baseline of a random list: " + got, k, r)
        else:
            recs.append({"builds": bs, "got": got})
            at.append((k, r))
    vlib.write_nd(ctx.path("trace.nd"), recs)
    rc, txt = ctx.tlc("ZuulTrace", 'SPECIFICATION TSpec\nCONSTANTS Pool = {} MaxLen = 0 Variant = "fixed"\n', env={"TRACE": ctx.path("trace.nd")}, workers=1)
    if "%d distinct states" % (len(recs) + 1) not in txt.replace(",", ""):
        raise vlib.ToolError("the trace was not fully checked")
    for m in re.finditer(r'<<"REJECT", (\d+), (.*?)>>', txt):
        k, r = at[int(m.group(1)) - 1]
        ctx.violation("zuul:random", "the baseline of a random list is %d, wanted one of %s" % (recs[int(m.group(1)) - 1]["got"], m.group(2)), k, r)
    # the histories: faults, and the cache
    for (k, wants), r in zip(hist, hr):
        ctx.traces += 1
        if "rounds" not in r:
            ctx.violation("zuul:end", "the discovery ends with %s" % json.dumps(r)[:200], k, r)
            continue
        first = None
        for n, (o, want) in enumerate(zip(r["rounds"], wants)):
            if want == "build-error":
                if "error" not in o or "panic" in o:
                    ctx.violation("zuul:fault", "round %d: a failing api gives no error for the build" % (n + 1), k, r)
                continue
            got = found(k["rounds"][want[1]], o)
            if got not in want[0] or (len(want) > 2 and first is not None and got != first):
                ctx.violation("zuul:history", "round %d: the baseline is %s, wanted one of %s" % (n + 1, got, want[0]), k, r, wants)
                break
            first = got
    ctx.sample({"history": [{x: y for x, y in q.items() if x.endswith("how")} for q in hist[0][0]["rounds"]], "wanted": hist[0][1]})


def random_lists(ctx, day, rng):
    res = []
    for _ in range(ctx.pick(300, 4000)):
        bs = []
        gone = rng.choice([["yes", "yes", "no", "error"], ["yes"] + ["no"] * 12 + ["error"] * 3])
        for _ in range(rng.choice([1, 2, 3, 5, 8, 20, 30])):
            bs.append({"self": rng.random() < .1, "job": rng.random() < .9, "ok": rng.random() < .8, "project": rng.random() < .6, "branch": rng.random() < .6,
                       "change": rng.choice(["same", "other", "other", "other", "none"]), "pipeline": rng.choice(["check", "gate", "periodic", "post", "periodic-weekly"]),
                       "voting": rng.random() < .5, "age": rng.choice([0, 0, 1, 2, 9, 10, 11, 49, 50, 51, 100, 365, 3000, -1, -60, -900]), "log": rng.random() < .85, "ref": rng.random() < .85,
                       "head": rng.choice(gone)})
        res.append((bs, round_of(bs, day, rng)))
    return res


def histories(ctx, cs, day, rng):
    """Several rounds: a failing api, then a working one; with the cache the first good answer is kept."""
    res = []
    pool = [c for c in cs if len(c["builds"]) < 4 and not any(b["head"] == "error" for b in c["builds"])]
    faults = ["404", "500", "drop", "cut", "html", "object"]
    for n in range(ctx.pick(150, 1500)):
        c, d = rng.sample(pool, 2)
        a, b = round_of(c["builds"], day, rng), round_of(d["builds"], day, rng)
        use = n % 2 == 0
        if n % 3 == 0:      # the list fails
            f = rng.choice(faults)
            bad = dict(a, list_how="ok" if f in ("html", "object") else f)
            if f in ("html", "object"):
                bad["list_text"] = {"html": "<html>502</html>", "object": json.dumps({"builds": a["builds"]})}[f]
            rounds, wants = [bad, b], [([0], 0), (d["best"] or [0], 1)]
        elif n % 3 == 1:    # the build fails
            f = rng.choice(faults)
            bad = dict(a, build_how="ok" if f in ("html", "object") else f)
            if f in ("html", "object"):
                bad["build_text"] = {"html": "<html>502</html>", "object": json.dumps({"uuid": UID % 1})}[f]
            rounds, wants = [bad, b], ["build-error", (d["best"] or [0], 1)]
        else:               # nothing fails: the cache keeps the first one, logs of the same url included
            rounds = [a, b]
            wants = [(c["best"] or [0], 0), (c["best"] or [0], 0, "same") if use else (d["best"] or [0], 1)]
            if use:
                # the second round must not depend on the server
                rounds = [a, dict(a, list_how="500", build_how="500", heads={})]
        res.append(({"rounds": rounds, "use": use, "own": True}, wants))
    return res


# ------------------------------------------------------------------------ C21
VALUES = {"text": lambda f: "some-" + f, "odd": lambda f: "\u00e9 \"%s\" \\ \U0001D11E/<x>" % f, "date": lambda f: "2021-10-13T12:58:42", "leap": lambda f: "2024-02-29T23:59:59",
          "int": lambda f: 82, "float": lambda f: 82.0, "zero": lambda f: 0, "true": lambda f: True, "false": lambda f: False, "url": lambda f: "http://@/%s/1/" % f,
          "none": lambda f: [], "some": lambda f: [{"name": "x", "url": "http://@/a.html", "metadata": {"type": "z"}}], "big": lambda f: 2**53,
          "null": lambda f: None, "list": lambda f: [], "number": lambda f: 12, "words": lambda f: "not that", "month13": lambda f: "2021-13-13T12:58:42",
          "negative": lambda f: -4, "fraction": lambda f: 1.5, "badart": lambda f: [{"name": "x", "url": "nope"}],
          "blank": lambda f: "", "minus": lambda f: -4.5, "half": lambda f: 41.75, "more": lambda f: "2021-10-13T12:58:42 or so", "day": lambda f: "2021-10-13"}


def obj(b):
    res = {"node_name": None, "held": False, "extra": {"a": [1]}}
    for f, v in b.items():
        if v == "number" and f == "voting":
            res[f] = 1
        elif v != "missing":
            res[f] = VALUES[v](f)
    if b.get("uuid") == "text":
        res["uuid"] = UID % 77
    return res


def elem(e):
    return {"build": lambda: obj(e["build"]), "null": lambda: None, "number": lambda: 4, "string": lambda: "build", "emptylist": lambda: [], "emptyobject": lambda: {}}[e["kind"]]()


def broken(value, br, what):
    t = json.dumps(value)
    return {"none": t, "cut": t[:len(t) * 2 // 3], "trailing": t + " ]", "html": "<html>502</html>", "empty": "",
            "object": json.dumps({"x": value}), "nullbody": "null"}[br]


def expect(b):
    """the fields of a decoded build"""
    o = obj(b)
    o["duration"] = max(0, int(o["duration"]))
    return {k: o.get(k) for k in ("uuid", "job_name", "result", "start_time", "end_time", "duration", "voting", "log_url", "ref_url", "project", "branch", "pipeline",
                                  "change", "patchset", "ref", "event_id")} | {"artifacts": [{"name": a["name"], "url": a["url"]} for a in o["artifacts"]]}


def c21(ctx):
    cs = ctx.tlc_gen("ZuulDecode", "", ctx.path("decode.nd"))
    ks = []
    for c in cs:
        v = [elem(e) for e in c["elems"]]
        ks.append({"what": c["what"], "text": broken(v if c["what"] == "list" else v[0], c["break"], c["what"]).replace("http://@", "http://host:81")})
    rs = ctx.harness("zuul-decode", ks)
    for c, k, r in zip(cs, ks, rs):
        ctx.traces += 1
        if "panic" in r or not ("ok" in r or "error" in r):
            ctx.violation("zuul:decode", "decoding ends with %s" % json.dumps(r)[:200], k, r)
        elif ("ok" in r) != c["ok"]:
            ctx.violation("zuul:decode", "decoding gives %s" % ("an error: %s" % r["error"] if c["ok"] else "no error"), k, r)
        elif c["ok"]:
            got = [json.loads(json.dumps(x).replace("http://host:81", "http://@")) for x in r["ok"]]
            want = [expect(c["elems"][i - 1]["build"]) for i in c["kept"]]
            if got != want:
                ctx.violation("zuul:decode", "the decoded builds are not those of the reply: %d instead of %d" % (len(got), len(want)), k, got, want)
    # a read failure is an error, never a shorter list
    fs = [dict(k, text=k["text"][:n], fail=True) for k in ks[:40] for n in (0, 1, len(k["text"]) // 2, len(k["text"]))]
    for k, r in zip(fs, ctx.harness("zuul-decode", fs, name="decode-fail")):
        ctx.traces += 1
        if "error" not in r:
            ctx.violation("zuul:decode", "a failing read gives %s" % json.dumps(r)[:100], k, r)
    # the same replies, through the api
    rng = random.Random(ctx.seed)
    http = []
    for c in cs:
        if c["what"] == "one":
            http.append((c, {"rounds": [{"page": "http://@/t/ten/build/" + UID % 1, "build_path": "/api/tenant/ten/build/" + UID % 1,
                                         "build_text": broken(elem(c["elems"][0]), c["break"], "one")}]}))
        else:
            t = dict(target(), job_name="some-job_name")
            http.append((c, {"rounds": [{"page": "http://@/t/ten/build/" + UID % 1, "build_path": "/api/tenant/ten/build/" + UID % 1, "build": t, "discover": True,
                                         "builds_path": "/api/tenant/ten/builds", "list_text": broken([elem(e) for e in c["elems"]], c["break"], "list"), "heads": {"/log_url/1/": "yes"}}]}))
    rs = ctx.harness("zuul", [k for _, k in http], timeout=ctx.pick(600, 3000))
    for (c, k), r in zip(http, rs):
        ctx.traces += 1
        o = r["rounds"][0] if "rounds" in r else {"panic": json.dumps(r)[:200]}
        if "panic" in o:
            ctx.violation("zuul:reply", "a reply of the api ends with %s" % o["panic"], k, r)
        elif c["what"] == "one":
            if ("content" in o) != c["complete"]:
                ctx.violation("zuul:reply", "a build %s is %s" % (("that is complete" if c["complete"] else "that is not complete"), o.get("error", "taken")), k, r)
            elif c["complete"]:
                why = fields(o["content"]["Zuul"], obj(c["elems"][0]["build"]), "http://@/api/tenant/ten/")
                if why:
                    ctx.violation("zuul:reply", "the build is not the one of the reply: " + why, k, r)
        else:
            good = [i for i in c["kept"] if all(obj(c["elems"][i - 1]["build"]).get(f) is not None for f in ("log_url", "ref_url", "change"))]
            if ("found" in o) != bool(good and c["ok"]):
                ctx.violation("zuul:reply", "the usable builds of a list are %s" % ("lost: " + o.get("found_error", "") if good else "made up"), k, r)
            elif "found" in o and o["found"][0]["Zuul"]["uuid"] not in [obj(c["elems"][i - 1]["build"])["uuid"] for i in good]:
                ctx.violation("zuul:reply", "the baseline is not a build of the list", k, r)
    # the urls
    us = ctx.tlc_gen("ZuulUrl", "", ctx.path("urls.nd"))
    if len(us) > ctx.pick(2500, 10**6):
        us = rng.sample(us, 2500)
    ks = [{"rounds": [{"page": "http://@/" + "/".join(u["segs"]) + u["tail"], "build": target(), "any": True}]} for u in us]
    rs = ctx.harness("zuul", ks, timeout=ctx.pick(600, 3000), name="zuul-url")
    for u, k, r in zip(us, ks, rs):
        ctx.traces += 1
        o = r["rounds"][0] if "rounds" in r else {"panic": json.dumps(r)[:200], "requests": []}
        want = ["GET /" + "/".join(u["request"])] if u["request"] else []
        page = k["rounds"][0]["page"]
        if "panic" in o:
            ctx.violation("zuul:url", "%s ends with %s" % (page, o["panic"]), k, r)
        elif o["requests"] != want:
            ctx.violation("zuul:url", "%s requests %s instead of %s" % (page, o["requests"], want), k, r)
        elif u["request"]:
            api = "http://@/" + "/".join(u["request"][:-2]) + "/"
            why = "error: %s" % o["error"] if "error" in o else fields(o["content"]["Zuul"], target(), api)
            if why:
                ctx.violation("zuul:url", "%s: %s" % (page, why), k, r)
        elif "error" in o or "Zuul" in o["content"]:
            ctx.violation("zuul:url", "%s gives %s" % (page, json.dumps(o)[:100]), k, r)
    ctx.sample(us[0])

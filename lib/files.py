"""Names and source discovery: C11, C12."""
import json
import vlib, report


def c11(ctx):
    items = ctx.tlc_gen("IndexName", 'CONSTANT Fam = "all"', ctx.path("names.nd"))
    # every way to write a path: as given to from_path
    rs = ctx.harness("name", items)
    by_id, by_name = {}, {}
    for it, r in zip(items, rs):
        ctx.traces += 1
        if "name" not in r:
            ctx.violation("name:panic", "the name of %s: %s" % (it["path"], r), it, r)
            continue
        k = json.dumps(it["id"])
        by_id.setdefault(k, {}).setdefault(r["name"], it["path"])
        by_name.setdefault(r["name"], {}).setdefault(k, it["path"])
    for k, names in by_id.items():
        if len(names) > 1:
            ctx.violation("name:split:%s" % k, "the same log has several index names: %s" % names, names)
    for n, ids in by_name.items():
        if len(ids) > 1:
            ctx.violation("name:merge:%s" % n, "different logs have the index name %s: %s" % (n, ids), ids)
    ctx.sample({"item": items[100], "observed": rs[100]})
    # the groups of a tree: every source once, in the group of its name
    paths = sorted({it["path"].strip("/"): it for it in items}.items())
    trees = []
    for i in range(0, len(paths), 40):
        fs, prev = [], set()
        for p, it in paths[i:i + 40]:
            if not any(q.startswith(p + "/") or p.startswith(q + "/") for q in prev):
                prev.add(p)
                fs.append((p, it))
        trees.append(fs)
    cases = [{"files": [{"path": "root/" + p, "lines": ["x y"]} for p, _ in fs]} for fs in trees]
    obs = ctx.harness("discover", cases, name="groups")
    for fs, c, r in zip(trees, cases, obs):
        ctx.traces += 1
        if "groups" not in r:
            ctx.violation("name:groups", "the sources can't be grouped: %s" % r, c, r)
            continue
        got = sorted(p for g in r["groups"] for p in g["paths"])
        if got != sorted("root/" + p for p, _ in fs):
            ctx.violation("name:groups", "the groups are not a partition of the sources", c, r)
            continue
        ids = {"root/" + p: json.dumps(it["id"]) for p, it in fs}
        for g in r["groups"]:
            if len({ids[p] for p in g["paths"]}) != 1:
                ctx.violation("name:groups", "the group %s mixes %s" % (g["name"], g["paths"]), c, r)
        if len(r["groups"]) != len(set(ids.values())):
            ctx.violation("name:groups", "%d groups for %d logs" % (len(r["groups"]), len(set(ids.values()))), c, r)
    # the index used by a source
    ctx.tlc("ReportLoop", report.LOOP % (2, "fixed", "INVARIANTS Accounts Matched"), label="ReportLoop")
    report.run(ctx, {"index", "lines"}, quick=1500)


WALK = 'SPECIFICATION Spec\nCONSTANTS N = %d Variant = "%s"\n%s\n'


def relative(ctx, f):
    """inputs relative to the current directory, whose name may look like an url"""
    fs = [f(p) for p in ("http:a.log", "https:", "http:/b.log", "httpd:/c/d.log", "file:x.log", "root http/x.log", "www.example.com", "plain.log",
                         "root/a.log", "root/d/b.log", "-a.log", "-d/x.log", "~/x.log", "%41/%42.log", "a b/\u00e9.log")]
    cases = [(i, "file", [i]) for i in ("http:a.log", "https:", "http:/b.log", "file:x.log", "www.example.com", "plain.log", "./plain.log", "root/a.log", "root/../plain.log", "-a.log", "%41/%42.log")]
    cases += [("httpd://c/d.log", "file", None), ("http:", "dir", ["http:/b.log"]), ("httpd:/c", "dir", ["httpd:/c/d.log"]), ("root http", "dir", ["root http/x.log"]),
              ("root", "dir", ["root/a.log", "root/d/b.log"]), ("./root", "dir", ["./root/a.log", "./root/d/b.log"]), ("root/", "dir", ["root/a.log", "root/d/b.log"]),
              ("root/d/..", "dir", ["root/d/../a.log", "root/d/../d/b.log"]), ("-d", "dir", ["-d/x.log"]), ("~", "dir", ["~/x.log"]), ("%41", "dir", ["%41/%42.log"]), ("a b", "dir", ["a b/\u00e9.log"]),
              (".", "dir", None), ("http:none.log", "input_error", None), ("none", "input_error", None), ("plain.log/x", "input_error", None), ("plain.log/", "input_error", None),
              ("ftp://127.0.0.1:9/a.log", "input_error", None), ("file:///dev/null/x", "input_error", None)]
    for (i, kind, want), r in zip(cases, ctx.harness("discover-one", [{"files": fs, "input": i, "relative": True} for i, _, _ in cases], name="relative")):
        ctx.traces += 1
        got = "input_error" if "input_error" in r else r.get("kind", json.dumps(r)[:100])
        if got != kind:
            ctx.violation("discover:relative:" + i, "the input %r is taken as %s instead of %s" % (i, got, kind), {"input": i}, r)
        elif want is not None and sorted(r.get("sources", [])) != want:
            ctx.violation("discover:relative:" + i, "the sources of %r are %s" % (i, r.get("sources")), {"input": i}, r, want)
        elif i == "." and len(r.get("sources", [])) != len(fs):
            ctx.violation("discover:relative:" + i, "the sources of %r are %s" % (i, r.get("sources")), {"input": i}, r, [x["path"] for x in fs])


def c12(ctx):
    ctx.tlc("Walk", WALK % (ctx.pick(5, 6), "fixed", "INVARIANTS Once Exact Only Ends"), label="Walk")
    for v, inv in (("follow", "Once"), ("follow", "Ends"), ("list-links", "Only")):
        ctx.tlc("Walk", WALK % (4, v, "INVARIANTS " + inv), label="Walk-%s-%s" % (v, inv), ok=(12,))
    cs = []
    for f in ("names", "mixed", "deep"):
        cs += ctx.tlc_gen("DiscoverGen", 'CONSTANT Fam = "%s"' % f, ctx.path(f + ".nd"), label="DiscoverGen-" + f)

    # what is in a file, or that it can't be read, does not matter
    inside = [{"lines": ["x y"]}, {"lines": []}, {"lines": ["x y"], "end": "nonl"}, {"lines": ["x y"], "end": "open"}, {"lines": ["\x00\x01"]}]

    def files(k, c):
        return [{"path": "root", "kind": "dir"}] + [
            dict(e, path="root/" + e["path"], to="root/" + e["to"] if "to" in e else None, **(inside[(k + i) % 5] if e["kind"] == "file" else {}))
            for i, e in enumerate(c["entries"])]
    rs = ctx.harness("discover", [{"files": files(k, c)} for k, c in enumerate(cs)])
    for c, r in zip(cs, rs):
        ctx.traces += 1
        want = sorted("root/" + p for p in c["sources"])
        why = None
        if r.get("panic") or r.get("crash") or r.get("hang") or "kind" not in r:
            why = "the listing ends with %s" % json.dumps(r)[:200]
        elif r["kind"] != "dir":
            why = "a directory is taken as %s" % r["kind"]
        elif want and "sources" not in r:
            why = "the listing fails: %s" % r["error"]
        elif not want and "sources" in r:
            why = "an empty listing is not an error: %s" % r["sources"]
        elif want and sorted(r["sources"]) != want:
            a, b = set(r["sources"]), set(want)
            why = "missing %s, unexpected %s, %d listed" % (sorted(b - a), sorted(a - b), len(r["sources"]))
        elif want and sorted(r["relative"]) != sorted(p[len("root"):] for p in r["sources"]):
            why = "the relative names are %s" % r["relative"]
        if why:
            ctx.violation("discover:%s" % json.dumps(sorted(e["path"] for e in c["entries"]))[:150], why, c, r, want)
    ctx.sample({"case": cs[len(cs) // 2], "observed": rs[len(cs) // 2]})
    # unreadable directories, and the kinds of inputs
    f = lambda p, **k: dict({"path": p, "lines": ["x y"]}, **k)
    base = [f("root/a.log"), f("root/d/b.log"), f("plain.log"), {"path": "pipe", "kind": "fifo"}, {"path": "link.log", "kind": "link", "to": "plain.log"},
            {"path": "dlink", "kind": "link", "to": "root"}, {"path": "broken", "kind": "link", "to": "nowhere"}, f("httpd.log"), f("file.yaml")]
    inputs = [({"input": "plain.log"}, "file"), ({"input": "httpd.log"}, "file"), ({"input": "pipe"}, "input_error"), ({"input": "nothing"}, "input_error"),
              ({"input": "broken"}, "input_error"), ({"input": ""}, "input_error"), ({"input": "root"}, "dir"), ({"input": "link.log"}, "file"), ({"input": "dlink"}, "dir"),
              ({"input": "http://127.0.0.1:9/logs/"}, "dir-url"), ({"input": "http://127.0.0.1:9/a.log"}, "file-url"), ({"input": "https://127.0.0.1:9/x/"}, "dir-url"),
              ({"input": "http://"}, "input_error"), ({"input": "http:///"}, "input_error"), ({"input": "https://[bad"}, "input_error")]
    cases = [dict(x, files=base) for x, _ in inputs]
    locked = [[f("root/a.log"), {"path": "root/locked", "kind": "dir", "end": "open"}],
              [f("root/a.log"), f("root/d/b.log"), {"path": "root/d/e/locked", "kind": "dir", "end": "open"}],
              [{"path": "root", "kind": "dir", "end": "open"}]]
    cases += [{"files": x} for x in locked]
    obs = ctx.harness("discover", cases, name="inputs")
    for (x, want), r in zip(inputs, obs):
        ctx.traces += 1
        got = "input_error" if "input_error" in r else r.get("kind", json.dumps(r)[:100])
        if got != want:
            ctx.violation("discover:input:%s" % x["input"], "the input %r is taken as %s instead of %s" % (x["input"], got, want), x, r)
        elif x["input"] in ("root", "dlink") and sorted(r.get("sources", [])) != [x["input"] + "/a.log", x["input"] + "/d/b.log"]:
            ctx.violation("discover:input:%s" % x["input"], "the sources of a directory are %s" % r.get("sources"), x, r)
        elif want == "file" and r.get("sources") != [x["input"]]:
            ctx.violation("discover:input:%s" % x["input"], "the sources of a file are %s" % r.get("sources"), x, r)
    relative(ctx, f)
    for x, r in zip(locked, obs[len(inputs):]):
        ctx.traces += 1
        if "error" not in r and "input_error" not in r:
            ctx.violation("discover:locked", "an unreadable directory is not an error", x, r)

"""The reports on remote logs: C25."""
import concurrent.futures, http.server, json, random, re, socketserver, threading, zlib
import vlib, cli, render, zuul
from text import line

NAME = {1: "alpha/one.log", 2: "beta/one.log", 3: "gamma/one.log"}
BASE = {11: "alpha/one.log", 12: "beta/one.log"}
DIR = {"g1": "alpha", "g2": "beta", "g3": "gamma"}
BAD = [400, 401, 403, 404, 410, 429, 500, 502, 503, "reset"]
UID = zuul.UID % 1
PLAIN = ["inventory.yaml", "facts.html", "job-output.json.gz"]


def body(classes, sid, ver):
    """the bytes of a content, and where it is cut"""
    ls = [line(c, "%d.%d" % (sid, j + 1)).encode() + b"\n" for j, c in enumerate(classes)]
    h = len(ls) // 2
    if ver == 3:
        ls = ls[:h] + [b"bad \xff\xfe bytes\n"] + ls[h:]
    if ver == 4:
        ls = ls[:h] + [b"  TASK [log-classify : Generate ara report]\n"] + ls[h:]
    return b"".join(ls[:h]), b"".join(ls[h:])


class Site:
    """one history: its server state and what it received"""
    def __init__(self, h, rng, root):
        self.w, self.rng, self.root = h["world"], rng, root
        self.slash = rng.choice(["/", "/", ""])
        self.moved = rng.choice([None, None, "blob/"])
        self.redirect = rng.choice([301, 302, 303, 307, 308])
        self.enc = rng.choice(["plain", "chunked", "gzip"])
        self.pages = [rng.random() < .3 for _ in h["ops"]]
        # two runs at the same time
        self.pairs = [op["cached"] and rng.random() < .3 for op in h["ops"]]
        self.pair, self.came = False, {}
        self.lock = threading.Lock()
        self.srv, self.reqs = None, []

    def start(self, i, srv):
        self.srv, self.reqs, self.pair, self.came = srv, [], self.pairs[i], {}

    def meet(self, path):
        """when there are two runs, the answers wait for both requests, for some time"""
        if self.pair:
            with self.lock:
                e = self.came.setdefault(path, threading.Event())
                self.came[path, 1] = self.came.get((path, 1), 0) + 1
                if self.came[path, 1] == 2:
                    e.set()
            e.wait(.2)

    def answer(self, method, path):
        """(status, headers, first part, second part): the second part is None for a cut"""
        def log(x):
            with self.lock:
                self.reqs.append(x)
        s, rng = self.srv, self.rng
        bad = rng.choice(BAD)
        error = lambda: ("reset",) if bad == "reset" else (bad, {}, b"", b"an error page\n")
        page = lambda links, up: (200, {"Content-Type": "text/html"}, b"", ("<html><a href=\"?C=N;O=D\">Name</a><a href=\"%s\">Parent Directory</a>%s</html>" % (
            up, "".join('<tr><td><a href="%s">%s</a></td></tr>\n' % (x, x) for x in links))).encode())
        ok = lambda x: (200, {"Content-Type": "application/json"}, b"", json.dumps(x).encode())
        junk = lambda x: (200, {}, b"", rng.choice([b"", b"oops", b"{}", b"7", json.dumps(x).encode()[:-1], b"null"]))
        if path.startswith("blob/"):
            path, hide = path[5:], True
        else:
            hide = False
        if path.startswith("api/"):
            t = dict(zuul.target(), ref_url="http://localhost/r", log_url=self.root + "logs" + self.slash)
            b = dict(zuul.target(), ref_url="http://localhost/r", uuid=zuul.UID % 2, result="SUCCESS", change=7, log_url=self.root + "base" + self.slash)
            f, x = ("api", t) if path == "api/build/" + UID else ("builds", [t, b]) if path.startswith("api/builds?") else (None, None)
            log(f or "%s %s" % (method, path))
            return {"ok": lambda: ok(x), "bad": error, "junk": lambda: junk(x)}.get(s.get(f, "bad"))()
        if path in ("logs", "base"):
            return (self.redirect, {"Location": self.root + path + "/"}, b"", b"")
        which, _, rest = path.partition("/")
        files = {}
        if which == "logs":
            for i, (t, a) in enumerate(zip(self.w["target"], s["files"])):
                if a["ver"]:
                    files[NAME[t["id"]]] = (t, a, t["lines"][1 if a["ver"] == 2 else 0], "t%d" % t["id"])
            gone = {NAME[t["id"]]: "t%d" % t["id"] for t in self.w["target"]}
            root, sub, tag = s["root"], s["sub"], "tD"
        elif which == "base":
            for b, how in zip(self.w["base"], s["base"]):
                files[BASE[b["id"]]] = (b, {"ver": 1, "how": how}, b["lines"], "b%d" % b["id"])
            gone, root, sub, tag = {}, s["broot"], "ok", "bD"
        else:
            log("%s %s" % (method, path))
            return (404, {}, b"", b"")
        if rest == "":
            if method == "HEAD":
                log("head" if which == "base" else "HEAD " + path)
                if s["head"] == "cut":
                    return ("reset",)
                return (200, {}, b"", b"") if s["head"] == "ok" else (rng.choice([400, 401, 403, 404, 410, 500, 503]), {}, b"", b"")
            log(tag)
            links = sorted({f.split("/")[0] + "/" for f in files} | ({"zuul-info/"} if which == "logs" else set()))
            return page(links, "/") if root == "ok" else error()
        if rest.endswith("/"):
            log("%s/%s" % (tag, rest[:-1]) if method == "GET" else "HEAD " + path)
            if sub != "ok" and rest in ("alpha/", "beta/", "gamma/", "zuul-info/") and rest == self.fail_dir(files):
                return error()
            if rest == "zuul-info/" and which == "logs":
                return page(PLAIN, "../")
            return page([f.split("/")[1] for f in files if f.startswith(rest)], "../")
        if not hide:
            log(gone.get(rest) or (files[rest][3] if rest in files else "%s %s" % (method, path)))
        if method == "GET" and self.moved and rest in files and not hide:
            return (self.redirect, {"Location": self.root + self.moved + path}, b"", b"")
        if rest not in files:
            return (404, {}, b"", b"not found\n")
        f, a, classes, _ = files[rest]
        if a["how"] == "bad":
            return error()
        x, y = body(classes, f["id"], a["ver"])
        if a["how"] == "early":
            return (200, {"Content-Type": "text/plain", "X-Size": "99"}, b"", None)
        if a["how"] == "cut":
            if a["ver"] != 3 and rng.random() < .5:
                x += y[:3]
            return (200, {"Content-Type": "text/plain", "X-Size": str(len(x + y))}, x, None)
        return (200, {"Content-Type": "text/plain"}, x, y)

    def fail_dir(self, files):
        return sorted([f.split("/")[0] + "/" for f in files] + ["zuul-info/"])[0]


def server(sites):
    class H(http.server.BaseHTTPRequestHandler):
        protocol_version = "HTTP/1.1"
        disable_nagle_algorithm = True

        def log_message(self, *a):
            pass

        def serve(self):
            _, n, path = self.path.split("/", 2)
            site = sites[n]
            a = site.answer(self.command, path)
            site.meet(self.command + path)
            if a[0] == "reset":
                self.close_connection = True
                return
            st, hd, x, y = a
            enc = site.enc if hd.pop("Content-Type", "").startswith("text/plain") else "plain"
            size = int(hd.pop("X-Size", 0)) + 7
            if y is None and x and enc == "gzip":
                # the decoder of the http library loses what it did not give yet when the connection ends
                enc = "plain"
            if enc == "gzip":
                z = zlib.compressobj(6, zlib.DEFLATED, 31)
                x = z.compress(x) + z.flush(zlib.Z_SYNC_FLUSH)
                y = None if y is None else z.compress(y) + z.flush()
                hd["Content-Encoding"] = "gzip"
            if enc == "chunked":
                hd["Transfer-Encoding"] = "chunked"
            else:
                hd["Content-Length"] = str(len(x + y) if y is not None else len(x) + size)
            self.send_response(st)
            for k, v in hd.items():
                self.send_header(k, v)
            self.end_headers()
            if self.command == "HEAD":
                return
            for part in (x, y):
                if part:
                    self.wfile.write(b"%x\r\n%s\r\n" % (len(part), part) if enc == "chunked" else part)
            self.wfile.flush()
            if y is None:
                self.close_connection = True
            elif enc == "chunked":
                self.wfile.write(b"0\r\n\r\n")

        do_GET = do_HEAD = serve

    class S(socketserver.ThreadingMixIn, http.server.HTTPServer):
        daemon_threads = True
        request_queue_size = 256

        def handle_error(self, *a):
            pass
    s = S(("127.0.0.1", 0), H)
    threading.Thread(target=s.serve_forever, daemon=True).start()
    return s


def history(box, site, h, n):
    """run the operations; the requests and the output of each"""
    res = []
    for i, op in enumerate(h["ops"]):
        site.start(i, op["srv"])
        env = {"XDG_CACHE_HOME": box.path("cache", str(n))}
        if op["cached"]:
            env["LOGREDUCE_CACHE"] = "1"
        url = site.root + "logs/"
        args = {"dir": ["diff", box.path("b%d" % len(h["world"]["base"]), "base"), url], "both": ["diff", site.root + "base/", url],
                "file": ["diff", box.path("b%d" % len(h["world"]["base"]), "base"), url + NAME[1]], "build": ["url", site.root + "build/" + UID]}[op["kind"]]
        pages = [box.path("cache", "%d-%d-%d.html" % (n, i, k)) if site.pages[i] else None for k in range(1 + site.pairs[i])]

        def go(page):
            return box.run((["--report", page] if page else []) + args, env=env)
        if len(pages) == 1:
            rs = [go(pages[0])]
        else:
            with concurrent.futures.ThreadPoolExecutor(2) as ex:
                rs = list(ex.map(go, pages))
        for r, page in zip(rs, pages):
            if page:
                r["page"] = open(page).read() if vlib.os.path.exists(page) else ""
            else:
                r["page"] = None
        res.append({"reqs": list(site.reqs), "runs": rs})
    return res


CFG = 'SPECIFICATION Spec\nCONSTANTS NFiles = %d NRuns = %d Procs = {%s} Variant = "%s"\n%s\n'
INV = "INVARIANTS Exact Complete"


def c25(ctx):
    ctx.tlc("RemoteRun", CFG % (1, 3, "1", "fixed", INV), label="RemoteRun-1")
    ctx.tlc("RemoteRun", CFG % (2, 2, "1", "fixed", INV), label="RemoteRun-2")
    ctx.tlc("RemoteRun", CFG % (1, 3, "1, 2", "fixed", INV), label="RemoteRun-pair")
    ctx.tlc("RemoteRun", CFG % (1, 2, "1, 2", "fixed", "PROPERTY Ends"), label="RemoteRun-ends")
    if ctx.thorough:
        ctx.tlc("RemoteRun", CFG % (2, 2, "1, 2", "fixed", INV), label="RemoteRun-pair-2", timeout=3000)
        ctx.tlc("RemoteRun", CFG % (2, 3, "1", "fixed", INV), label="RemoteRun-3", timeout=3000)
    for v in ("store-early", "store-cut", "ignore-cache", "skip-error", "abort", "one-name", "reuse-pending", "shared-pending", "exists-error"):
        ctx.tlc("RemoteRun", CFG % (2, 2, "1, 2" if v in ("shared-pending", "exists-error") else "1", v, INV), label=v, ok=(12,))
    rng = random.Random(ctx.seed)
    hs = []
    for f in ("file", "alone", "fault", "head", "mix"):
        x = ctx.tlc_gen("RemoteGen", 'CONSTANTS Ctx = 3 Fam = "%s"' % f, ctx.path(f + ".nd"), label="RemoteGen-" + f)
        hs += rng.sample(x, min(len(x), ctx.pick(140, 1500)))
    sites = {}
    with cli.Box(ctx) as box:
        srv = server(sites)
        try:
            for i, h in enumerate(hs):
                sites["h%d" % i] = Site(h, random.Random(rng.random()), "http://127.0.0.1:%d/h%d/" % (srv.server_address[1], i))
            box.dir("cache")
            for h in hs:
                b = h["world"]["base"]
                if not vlib.os.path.exists(box.path("b%d" % len(b))):
                    box.trees([("b%d" % len(b), [{"path": "base/" + BASE[x["id"]], "end": "eof", "gz": False, "lines": [line(c, "%d.%d" % (x["id"], j + 1)) for j, c in enumerate(x["lines"])]} for x in b])])
            runs = box.map(lambda i: history(box, sites["h%d" % i], hs[i], i), range(len(hs)))
        finally:
            srv.shutdown()
            srv.server_close()
    exps = expected(ctx, hs, runs)
    for i, (h, rs, e) in enumerate(zip(hs, runs, exps)):
        why = None
        for n, (op, r) in enumerate(zip(h["ops"], rs)):
            if n >= len(e["ops"]):
                break
            ctx.traces += 1
            site = sites["h%d" % i]
            why = asked(r["reqs"], e["ops"][n], len(r["runs"]))
            for o in r["runs"]:
                why = why or judge(op["kind"] == "file" and site.root + "logs/" + NAME[1], o, e["ops"][n])
            if why:
                ctx.violation("remote:" + op["kind"], "run %d of a history on %s, %s: %s" % (n + 1, op["kind"], ("two runs, " if len(r["runs"]) > 1 else "") + ("cached" if op["cached"] else "not cached"), why),
                              {"history": h, "slash": site.slash, "moved": site.moved, "encoding": site.enc}, rs, e)
                break
    ctx.sample({"history": hs[0]["ops"], "requests": [r["reqs"] for r in runs[0]]})
    ctx.extra["refused runs"] = sum(o["refused"] for e in exps for o in e["ops"])
    ctx.extra["requests"] = sum(len(r["reqs"]) for rs in runs for r in rs)
    ctx.extra["runs in pairs"] = sum(len(r["runs"]) == 2 for rs in runs for r in rs)


def expected(ctx, hs, runs):
    recs = [{"world": h["world"], "ops": [dict(op, reqs=sorted(set(r["reqs"]))) for op, r in zip(h["ops"], rs)]} for h, rs in zip(hs, runs)]
    tr, out = ctx.path("trace.nd"), ctx.path("trace-exp.nd")
    vlib.write_nd(tr, recs)
    ctx.tlc("RemoteTrace", "SPECIFICATION Spec\nCONSTANTS Ctx = 3\n", workers=1, env={"TRACE": tr, "OUT": out})
    return vlib.read_nd(out)


def asked(reqs, e, n):
    twice = sorted({x for x in reqs if reqs.count(x) > n})
    if twice:
        return "%s are requested more than once" % twice
    if not e["possible"]:
        return "the requests are %s instead of %s%s" % (sorted(reqs), sorted(e["must"]), " and maybe %s" % sorted(e["may"]) if e["may"] else "")
    return None


def judge(alone, r, e):
    why = cli.clean(r)
    if why:
        return "the command line " + why
    if e["refused"]:
        why = cli.refused(r)
        return why and "the target or the baselines are not readable, and the command line " + why
    if r["rc"] != 0:
        return "the command line fails: %s" % r["err"][-300:]
    names = {alone: 1} if alone else {NAME[i]: i for i in NAME}
    if r["page"] is not None:
        return page(names, r, e)
    out = re.sub(r"^( -> No baselines for|Could not read) remote: ", r"\1 local: ", r["out"], flags=re.M)
    rows = cli.parse(out, names)
    if isinstance(rows, str):
        return rows
    return cli.compare({"target": [{"id": i, "group": g, "variant": v} for i, g, v in ((1, "g1", 1), (2, "g2", 1), (3, "g3", 2))]}, e, rows)


def page(names, r, e):
    t = render.Tree(r["page"])
    if t.bad or not r["page"]:
        return "the page is broken: %s" % (t.bad or "empty")
    got = {}
    for x in render.find(t.root, render.has("list-group-item")):
        n = render.text(render.find(x, render.has("list-group-item-heading"))[0]).strip()
        if n not in names or names[n] in got:
            return "the page shows %r" % n
        g = render.find(x, render.has("loglines"))
        got[names[n]] = render.rows(g[0]) if len(g) == 1 else "no lines"
    r = {"got": got, "cells": [render.text(n) for n in render.find(t.root, lambda n: n[0] == "td")]}
    # the markers may be counted as lines
    whys = [cli.page(None, dict(e, totals=dict(e["totals"], lines=e["totals"]["lines"] + k)), r) for k in range(e["marks"] + 1)]
    return whys[0] if all(whys) else None

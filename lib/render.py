"""The page of a report: C18."""
import html.parser, json, math, random, re
import vlib

VOID = {"meta", "link", "img", "hr", "br", "input"}


class Tree(html.parser.HTMLParser):
    """The nodes of the page: (tag, attributes, children), the texts are strings."""
    def __init__(self, text):
        super().__init__(convert_charrefs=True)
        self.root = ("", {}, [])
        self.stack = [self.root]
        self.bad = None
        self.feed(text)
        self.close()
        if len(self.stack) != 1:
            self.bad = self.bad or "%s is not closed" % self.stack[-1][0]

    def handle_starttag(self, tag, attrs):
        n = (tag, dict(attrs), [])
        if len(dict(attrs)) != len(attrs):
            self.bad = "%s has an attribute twice" % tag
        self.stack[-1][2].append(n)
        if tag not in VOID:
            self.stack.append(n)

    def handle_startendtag(self, tag, attrs):
        self.bad = "an unexpected %s" % tag

    def handle_endtag(self, tag):
        if self.stack[-1][0] != tag:
            self.bad = "%s closes %s" % (tag, self.stack[-1][0])
        else:
            self.stack.pop()

    def handle_data(self, d):
        self.stack[-1][2].append(d)

    def handle_comment(self, d):
        self.bad = "a comment"

    def handle_pi(self, d):
        self.bad = "a processing instruction"

    def unknown_decl(self, d):
        self.bad = "a declaration"


def nodes(n):
    return [c for c in n[2] if not isinstance(c, str)]


def text(n):
    return "".join(c if isinstance(c, str) else text(c) for c in n[2])


def find(n, pred):
    res = []
    for c in nodes(n):
        if pred(c):
            res.append(c)
        else:
            res += find(c, pred)
    return res


def has(cls):
    return lambda n: cls in (n[1].get("class") or "").split()


def skeleton(n):
    """the structure: tags and attributes, without the texts, the targets of the links and the colors"""
    return [n[0], sorted((k, v if k not in ("href", "style") else "") for k, v in n[1].items()), [skeleton(c) for c in nodes(n)]]


def shows(got, want):
    """the text is shown as is, within the indentation of the page"""
    got = got[1:] if got.startswith("\n") else got
    return got.startswith(want) and not got[len(want):].strip(" \n")


ROW = re.compile(r"^\n?( *(?:(?P<dist>\d+) )? *(?P<no>\d+) \| )(?P<text>.*)$", re.S)


def rows(loglines):
    res = []
    for n in nodes(loglines):
        if n[0] == "hr":
            res.append(("sep",))
        elif n[0] == "pre" and not nodes(n):
            m = ROW.match(text(n))
            if not m:
                return "a line reads %r" % text(n)[:80]
            res.append((m["dist"], int(m["no"]), m["text"]))
        else:
            return "an unexpected %s in the lines" % n[0]
    return res


def wanted(l, rs):
    """the rows of a source: numbers from the specification, texts from the case"""
    res = []
    for r in rs:
        if r["kind"] == "sep":
            res.append(("sep",))
            continue
        a = l["as"][r["text"][0] - 1]
        t = {"b": lambda: a["before"][r["text"][2] - 1], "f": lambda: a["after"][r["text"][2] - 1], "a": lambda: a["line"]}[r["text"][1]]()
        res.append((a["dist"] if r["kind"] == "hit" else None, r["no"], t))
    return res


def judge(c, want, page):
    t = Tree(page)
    if t.bad:
        return "the page is broken: " + t.bad
    items = find(t.root, has("list-group-item"))
    if len(items) != len(c["logs"]):
        return "%d sources instead of %d" % (len(items), len(c["logs"]))
    for it, l, rs in zip(items, c["logs"], want):
        rel = l["source"]["path"][l["source"]["base"]:]
        h = find(it, has("list-group-item-heading"))
        if len(h) != 1 or not shows(text(h[0]), rel):
            return "the source %r is named %r" % (rel, [text(x) for x in h])
        s = find(it, lambda n: n[0] == "strong")
        if len(s) != 1 or text(s[0]).strip() != str(len(l["as"])):
            return "%s: the count is %r instead of %d" % (rel, [text(x) for x in s], len(l["as"]))
        links = [n[1].get("href") for n in find(it, lambda n: n[0] == "a")]
        if l["source"]["path"] not in links:
            return "%s: no link to the source, but %r" % (rel, links)
        if not any(shows(text(n), l["index"]) for n in find(it, lambda n: n[0] == "a")):
            return "%s: the model %r is not shown" % (rel, l["index"])
        g = find(it, has("loglines"))
        if len(g) != 1:
            return "%s: no lines" % rel
        got = rows(g[0])
        if isinstance(got, str):
            return rel + ": " + got
        w = wanted(l, rs)
        if len(got) != len(w):
            return "%s: %d rows instead of %d" % (rel, len(got), len(w))
        for x, y in zip(got, w):
            if (x == ("sep",)) != (y == ("sep",)):
                return "%s: %r instead of %r" % (rel, x, y)
            if y == ("sep",):
                continue
            if x[1] != y[1]:
                return "%s: the line %r is numbered %d instead of %d" % (rel, y[2], x[1], y[1])
            if not shows(x[2], y[2]):
                return "%s: the line %r is shown as %r" % (rel, y[2], x[2])
            if (x[0] is None) != (y[0] is None):
                return "%s: the line %r has %s distance" % (rel, y[2], "no" if x[0] is None else "a")
            if y[0] is not None and not isinstance(y[0], str) and 0 <= y[0] <= 1 and abs(int(x[0]) - y[0] * 99) > 1:
                return "%s: the distance %s is shown as %s" % (rel, y[0], x[0])
    cells = [text(n) for n in find(t.root, lambda n: n[0] == "td")]
    if not any(re.search(r"from %d to %d\b" % (c["lines"], c["anomalies"]), x) for x in cells):
        return "the totals %d, %d are not in %r" % (c["lines"], c["anomalies"], cells)
    rel = c["target"]["path"][c["target"]["base"]:]
    if not any(rel in x for x in cells):
        return "the target is not shown in %r" % cells
    titles = [text(n) for n in find(t.root, lambda n: n[0] == "title")]
    if len(titles) != 1 or rel not in titles[0]:
        return "the title of the page is %r" % titles
    for b in c["baselines"]:
        if not any(b["path"][b["base"]:] in x for x in cells):
            return "the baseline %r is not shown in %r" % (b["path"], cells)
    return None


ODD = ["<", ">", "&", "\"", "'", "&lt;", "&amp;", "&amp;lt;", "&#39;", "&#x3c;", "&quot;", "</pre>", "<pre>", "</div>", "<script>alert(1)</script>", "</script>", "<!--", "-->",
       "<![CDATA[", "]]>", "<?x", "<a href='x'>", "\" onclick=\"x", "' onclick='x", "a", "b", " ", "  ", "1 | ", "é", "中", "\u2028", "\U0001f600", "\u200b", "\ufeff", "\u00a0", "\u202e", "\u00ad", "e\u0301", "\x01", "\r", "\x0c", "\x1b[31m", "\x7f", "=", "/", "\\", "%", "{}", "%s", ";", "\t"]


def odd(rng):
    return "".join(rng.choice(ODD) for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 9])))


def plain(rng):
    return "".join(rng.choice("ghjkmnpq") for _ in range(6))


def case(lists, rng, txt, names):
    logs = []
    for i, x in enumerate(lists):
        root = "/t%s/" % names(rng)
        logs.append({"index": "ix%d%s" % (i, names(rng)), "samples": [{"base": 0, "path": "/b%d%s" % (j, names(rng))} for j in range(rng.randrange(5))] if rng.random() < .8 else None,
                     "source": {"base": len(root.encode()), "path": root + "s%d%s" % (i, names(rng))},
                     "as": [{"no": a["no"], "before": [txt(rng) for _ in range(a["before"])], "after": [txt(rng) for _ in range(a["after"])], "line": txt(rng),
                             "dist": rng.choice([0, .2, .5, .75, 1, rng.random()])} for a in x["as"]]})
    return {"target": {"base": 0, "path": "/target" + names(rng) + rng.choice(["", "", "/x", "</title>", "</title><b>", "&amp;"])}, "baselines": [{"base": 0, "path": "/base%d%s" % (i, names(rng))} for i in range(rng.randrange(4))],
            "logs": logs, "lines": rng.choice([0, 1, 7, 1000, 10**9]), "anomalies": rng.choice([0, 1, 7, 1000]), "created": rng.randrange(2 * 10**9), "run_ms": rng.randrange(10**7)}


def fix(c):
    """the base is a number of bytes, the names here are compared as characters"""
    for l in c["logs"]:
        s = l["source"]
        s["base_bytes"] = s["base"]
    return c


def neutral(c):
    """the same report with plain texts"""
    def same(s):
        return "x"
    d = json.loads(json.dumps(c))
    for l in d["logs"]:
        l["source"] = {"base": 0, "path": "x"}
        for s in l["samples"] or []:
            s.update(base=0, path="x")
        for a in l["as"]:
            a["before"], a["after"], a["line"] = ["x"] * len(a["before"]), ["x"] * len(a["after"]), "x"
    d["target"] = {"base": 0, "path": "x"}
    for b in d["baselines"]:
        b.update(base=0, path="x")
    return d


CFG = 'SPECIFICATION %s\nCONSTANTS Variant = "%s" MaxText = %d\n%s\n'
INV = "INVARIANTS InvPage InvRows"


def lists(ctx):
    """the lists of anomalies of the specification and their rows"""
    out = ctx.path("rows.nd")
    ctx.tlc("RenderGen", CFG % ("GenSpec", "fixed", 0, ""), env={"OUT": out}, workers=1, label="RenderGen")
    return vlib.read_nd(out)


def c18(ctx):
    ctx.tlc("RenderGen", CFG % ("Spec", "fixed", ctx.pick(4, 5), INV), label="Render")
    for v in ("sep-always", "sep-pos", "no-amp", "no-quote", "no-lt", "twice"):
        ctx.tlc("RenderGen", CFG % ("Spec", v, 1 if v.startswith("sep") else 4, INV), label=v, ok=(12,))
    ls = lists(ctx)
    rng = random.Random(ctx.seed)
    many = [x for x in ls if len(x["as"]) > 100]
    far = [x for x in ls if x["as"] and x["as"][0]["no"] >= 10000]
    ls = [x for x in ls if len(x["as"]) <= 100 and x not in far]
    rng.shuffle(ls)
    ls = far + ls
    cases, want = [], []
    n = ctx.pick(12000, len(ls))
    at = 0
    while at < n:
        k = rng.choice([1, 2, 5, 20])
        part = ls[at:at + k]
        at += k
        txt, names = rng.choice([(odd, odd), (odd, lambda r: ""), (plain, odd), (plain, plain)])
        names_ = (lambda r, f=names: f(r).replace("/", ""))
        cases.append(case(part, rng, txt, names_))
        want.append([x["rows"] for x in part])
    # many anomalies, and many sources
    for x in many:
        cases.append(case([x, ls[0]], rng, odd, lambda r: ""))
        want.append([x["rows"], ls[0]["rows"]])
    for k in (60, 300, 1200):
        cases.append(case(ls[:k], rng, plain, odd))
        want.append([x["rows"] for x in ls[:k]])
    # no source at all, and long texts
    cases.append(case([], rng, odd, odd))
    want.append([])
    for size in (5000, 100000):
        for t in ("<", "&", "a", "é", "'", "\""):
            cases.append(case([ls[1]], rng, lambda r: t * size, lambda r: ""))
            want.append([ls[1]["rows"]])
    rs = ctx.harness("render", cases)
    ns = ctx.harness("render", [neutral(c) for c in cases], name="neutral")
    for c, w, r, nr in zip(cases, want, rs, ns):
        ctx.traces += 1
        if "html" not in r or "html" not in nr:
            ctx.violation("render:end", "the rendering ends with %s" % json.dumps(r if "html" not in r else nr)[:200], c, r)
            continue
        c2 = json.loads(json.dumps(c))
        for l in c2["logs"]:
            s = l["source"]
            s["base"] = len(s["path"].encode()[:s["base"]].decode())
        why = judge(c2, w, r["html"])
        if why:
            ctx.violation("render:page", why, c, r["html"][-3000:])
        elif skeleton(Tree(r["html"]).root) != skeleton(Tree(nr["html"]).root):
            ctx.violation("render:structure", "the structure of the page depends on the texts", c, r["html"][-3000:])
    ctx.sample({"case": cases[0], "rows": want[0]})
    # the rendering never fails: any position, distance and total
    wild = []
    for _ in range(ctx.pick(2000, 30000)):
        c = case([{"as": [{"no": rng.choice([0, 1, 2, 5, 10**6, 2**40]), "before": rng.randrange(6), "after": rng.randrange(6)} for _ in range(rng.randrange(4))]} for _ in range(rng.randrange(3))], rng, odd, odd)
        for l in c["logs"]:
            l["source"]["base"] = rng.choice([l["source"]["base"], 0, 10000, 1])
            for a in l["as"]:
                a["dist"] = rng.choice(["nan", "inf", "-inf", -1, 2, 1e9, 0, 1, 1e-30])
        c["lines"], c["anomalies"] = rng.choice([0, 1, 2**40]), rng.choice([0, 1, 2**40])
        wild.append(c)
    for c, r in zip(wild, ctx.harness("render", wild, name="wild")):
        ctx.traces += 1
        if "html" not in r:
            ctx.violation("render:end", "the rendering ends with %s" % json.dumps(r)[:200], c, r)
            continue
        t = Tree(r["html"])
        if t.bad:
            ctx.violation("render:wild", "the page is broken: " + t.bad, c, r["html"][-3000:])
            continue
        # every line is shown, in order
        shown = [m for n in find(t.root, lambda n: n[0] == "pre") for m in [ROW.match(text(n))]]
        lines = [x for l in c["logs"] for a in l["as"] for x in a["before"] + [a["line"]] + a["after"]]
        if None in shown or len(shown) != len(lines) or not all(shows(m["text"], x) for m, x in zip(shown, lines)):
            ctx.violation("render:wild", "a line is lost", c, r["html"][-3000:])

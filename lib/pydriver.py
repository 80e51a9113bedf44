"""Run histories of calls of the python module: pydriver.py DIR IN OUT (in a process of its own)."""
import _datetime, json, signal, sys
sys.path.insert(0, sys.argv[1])
import logreduce_rust as lr

BASES = [[], [[1, 2, 3], [4]], [[1], [2, 5], [1, 2, 3, 4]]]
TARGETS = [[1, 2, 3], [4], [5, 6], [2, 5, 7], [8]]


def text(ws, style):
    return " ".join("word%s" % "abcdefghij"[w] * 2 for w in (ws if style % 2 else ws[::-1]))


def base(b, style):
    return [text(l, style) for l in BASES[b - 1]]


def run(hist, style):
    handles, blobs, res = {}, [], []
    for n, x in enumerate(hist):
        op = x["op"]
        try:
            d = []
            if op == "vec":
                handles[x["h"]] = lr.index(base(x["a"], style))
            elif op == "mat":
                handles[x["h"]] = lr.index_mat(base(x["a"], style))
            elif op == "foreign":
                handles[x["h"]] = _datetime.datetime_CAPI
            elif op == "search_vec":
                d = [lr.search(handles[x["h"]], text(t, style + 1)) for t in TARGETS]
            elif op == "search_mat":
                d = lr.search_mat(handles[x["h"]], [text(t, style + 1) for t in TARGETS])
            elif op == "save":
                b = lr.save_mat(handles[x["h"]])
                # not kept when it is not expected, as in the specification
                blobs.append(b) if x["res"]["st"] == "ok" else None
            elif op == "load":
                b = blobs[x["a"] - 1]
                handles[x["h"]] = lr.load_mat(bytes(b) if style % 2 else list(b))
            elif op == "loadcut":
                b = bytes(blobs[x["a"] - 1])
                lr.load_mat(b[:[0, 1, 7, 8, len(b) // 2, len(b) - 9, len(b) - 1][(style + n) % 7]])
            elif op == "drop":
                del handles[x["h"]]
            res.append({"st": "ok", "d": [round(float(v) * 1000, 3) for v in d]})
        except Exception as e:
            res.append({"st": "error", "what": "%s: %s" % (type(e).__name__, e), "d": []})
        except BaseException as e:  # a panic
            res.append({"st": "error", "panic": True, "what": "%s: %s" % (type(e).__name__, e), "d": []})
    return res


def generated(n):
    ls = lr.generate(n).split("\n") if n else lr.generate(n)
    return ls


def main():
    with open(sys.argv[2]) as f, open(sys.argv[3], "w") as out:
        for l in f:
            c = json.loads(l)
            signal.alarm(30)  # a call that does not return ends the process
            if c["kind"] == "hist":
                r = run(c["hist"], c["style"])
            elif c["kind"] == "process":
                r = [lr.process(x) for x in c["lines"]]
            elif c["kind"] == "count":
                r = [len(lr.generate(n).split("\n")) for n in c["sizes"]]
            else:
                r = [lr.generate(n) for n in c["sizes"]]
            out.write(json.dumps(r) + "\n")
            out.flush()


main()

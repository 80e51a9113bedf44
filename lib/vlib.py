"""Shared machinery of the checks: build the harness from /repo, run TLC, run the
harness, collect the violations, write the evidence."""
import json, os, re, shutil, subprocess, sys, time, resource

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
WORKROOT = os.path.join(VERIF, "work")
TARGET = os.path.join(VERIF, "harness", "target")
VH = os.path.join(TARGET, "debug", "vh")
CLI = os.path.join(TARGET, "debug", "logreduce")


class ToolError(Exception):
    """An error of the machinery itself: exit 2, it decides nothing."""


def sh(cmd, timeout=600, env=None, cwd=None, **kw):
    e = dict(os.environ)
    if env:
        e.update(env)
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                          env=e, cwd=cwd, text=True, errors="replace", **kw)


def cargo_env():
    return {"CARGO_NET_OFFLINE": "true", "RUSTFLAGS": "-Awarnings", "CARGO_TERM_COLOR": "never"}


def build():
    """Build the harness and the command line from the current tree of /repo."""
    cmd = ["cargo", "build", "--offline", "--manifest-path", os.path.join(VERIF, "harness", "Cargo.toml"),
           "--target-dir", TARGET]
    r = sh(cmd, timeout=1500, env=cargo_env())
    if r.returncode != 0:
        raise ToolError("build failed: %s\n%s" % (" ".join(cmd), r.stderr[-4000:]))


class Ctx:
    def __init__(self, pid, tier, seed, level="model_checking"):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.t0 = time.time()
        self.work = os.path.join(WORKROOT, pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.traces = 0
        self.samples, self.assumptions, self.extra = [], [], {}
        self.violations = []
        self.known = load_known(pid)
        self.known_hit = []
        self.notes = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def path(self, name):
        return os.path.join(self.work, name)

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers="auto", timeout=800, simulate=None, deadlock=False, ok=(0,), xss=None, label=None):
        """Run TLC on spec/<module>.tla with the given configuration text."""
        name = label or module
        cfgp = self.path(name + ".cfg")
        with open(cfgp, "w") as f:
            f.write(cfg)
        meta = self.path("meta-" + name)
        cmd = ["java", "-XX:+UseParallelGC", "-Xss" + (xss or "64m"), "-Xmx12g",
               "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar:" + ":".join(jars()),
               "tlc2.TLC", "-config", cfgp, "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers)]
        if not deadlock:
            cmd.append("-deadlock")
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate[0], "-depth", str(simulate[1]), "-seed", str(self.seed)]
        cmd.append(module + ".tla")
        t = time.time()
        try:
            r = sh(cmd, timeout=timeout, env=env, cwd=SPEC)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timeout on " + module)
        shutil.rmtree(meta, ignore_errors=True)
        out = r.stdout
        with open(self.path(name + ".tlc.out"), "w") as f:
            f.write(out + r.stderr)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", "")) or \
            re.findall(r"(\d+) states generated (\d+) distinct states found", out.replace(",", ""))
        if m:
            self.transitions += int(m[-1][0])
            self.states += int(m[-1][1])
        if r.returncode not in ok:
            raise ToolError("TLC failed on %s (exit %d), see %s\n%s" % (module, r.returncode, self.path(name + ".tlc.out"), tail(out)))
        self.notes.setdefault("tlc", []).append("%s %.1fs %s" % (name, time.time() - t, m[-1] if m else ""))
        return r.returncode, out

    def tlc_gen(self, module, consts, out, **kw):
        """Constant-level generation: the module writes the cases to the file named by env OUT."""
        cfg = "SPECIFICATION Spec\n" + consts
        self.tlc(module, cfg, env={"OUT": out}, workers=1, **kw)
        return read_nd(out)

    # ------------------------------------------------------------ harness
    def harness(self, cmd, cases, timeout=600, env=None, args=(), name=None, stack=None):
        """Run the harness on the cases; returns one result per case.  A case which ends the
        process (abort, stack overflow, out of memory) gives {"crash": ...}, one that does not
        finish gives {"hang": ...}; the other cases are run again without it."""
        name = name or cmd
        results = [None] * len(cases)
        todo = list(range(len(cases)))
        crashes = 0
        while todo:
            inp, outp = self.path(name + ".in"), self.path(name + ".out")
            with open(inp, "w") as f:
                for i in todo:
                    f.write(json.dumps(cases[i]) + "\n")
            if os.path.exists(outp):
                os.unlink(outp)
            e = {"RUST_BACKTRACE": "0", "VERIF_SEED": str(self.seed)}
            e.update(env or {})
            status, rc, err = "ok", 0, ""
            try:
                r = sh([VH, cmd, inp, outp] + list(args), timeout=timeout, env=e)
                rc, err = r.returncode, r.stderr
                if rc != 0:
                    status = "crash"
            except subprocess.TimeoutExpired:
                status = "hang"
            res = read_nd(outp) if os.path.exists(outp) else []
            for i, x in zip(todo, res):
                results[i] = x
            done = len(res)
            if status == "ok":
                if done != len(todo):
                    raise ToolError("harness %s: %d results for %d cases\n%s" % (cmd, done, len(todo), err[-2000:]))
                break
            if rc == 3 or done >= len(todo):
                raise ToolError("harness %s failed: %s" % (cmd, err[-2000:]))
            results[todo[done]] = {status: "rc=%s %s" % (rc, err[-300:])}
            todo = todo[done + 1:]
            crashes += 1
            if crashes > 20:
                for i in todo:
                    results[i] = {"skipped": True}
                break
        return results

    # --------------------------------------------------------- violations
    def violation(self, key, what, case, observed=None, expected=None):
        for k in self.known:
            if k in key:
                if k not in self.known_hit:
                    self.known_hit.append(k)
                return
        if len(self.violations) >= 20:
            self.violations.append(None)
            return
        rep = os.path.join(VERIF, "work", "replay")
        os.makedirs(rep, exist_ok=True)
        path = os.path.join(rep, "%s-%d.json" % (self.pid, len(self.violations)))
        with open(path, "w") as f:
            json.dump({"property": self.pid, "what": what, "key": key, "case": case, "expected": expected,
                       "observed": observed, "seed": self.seed, "tier": self.tier}, f, indent=1, default=str)
        self.violations.append((what, path))

    def sample(self, x, n=3):
        if len(self.samples) < n:
            s = json.dumps(x, default=str)
            self.samples.append(x if len(s) < 1500 else s[:1500])

    def finish(self):
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": dict({"states": self.states, "transitions": self.transitions,
                                "traces_validated_against_impl": self.traces, "samples": self.samples}, **self.extra),
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k in self.known_hit:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        for v in self.violations:
            if v:
                print("  %s" % v[0])
        for n in self.notes.get("tlc", []):
            print("  tlc: " + n)
        print("%s %s: %d model states, %d transitions, %d implementation runs judged, %.1fs" % (
            self.pid, self.tier, self.states, self.transitions, self.traces, time.time() - self.t0))
        if self.violations:
            v = [x for x in self.violations if x]
            print("VIOLATION property=%s replay=%s" % (self.pid, v[0][1]))
            return 1
        if self.traces == 0:
            print("no implementation run was judged", file=sys.stderr)
            return 2
        return 0


_jars = None


def jars():
    global _jars
    if _jars is None:
        d = "/opt/veriftools/tla"
        _jars = [os.path.join(d, x) for x in sorted(os.listdir(d)) if x.endswith(".jar")]
    return _jars


def load_known(pid):
    """Open findings only: a `fixed:` line suppresses nothing."""
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+)", l)
            if m and m.group(1) == pid:
                res.append(m.group(2))
    return res


def tail(s, n=3000):
    return s[-n:]


def read_nd(path):
    res = []
    with open(path) as f:
        for l in f:
            l = l.strip()
            if l:
                try:
                    res.append(json.loads(l))
                except ValueError:
                    break  # a line cut by a crash
    return res


def write_nd(path, xs):
    with open(path, "w") as f:
        for x in xs:
            f.write(json.dumps(x) + "\n")


def tlastr(x):
    """A Python value as a TLA+ expression."""
    if isinstance(x, bool):
        return "TRUE" if x else "FALSE"
    if isinstance(x, int):
        return str(x)
    if isinstance(x, str):
        return json.dumps(x)
    if isinstance(x, (list, tuple)):
        return "<<" + ", ".join(tlastr(y) for y in x) + ">>"
    if isinstance(x, (set, frozenset)):
        return "{" + ", ".join(tlastr(y) for y in sorted(x)) + "}"
    if isinstance(x, dict):
        return "[" + ", ".join("%s |-> %s" % (k, tlastr(v)) for k, v in x.items()) + "]"
    raise ValueError(x)

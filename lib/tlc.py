"""Running TLC: exhaustive checks, labelled transition systems, trace validation."""
import json, os, re, shutil, subprocess, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(Exception):
    """the specification itself failed (an error of the check, not of the code)"""


class Result:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        m = re.findall(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m[-1]) if m else 0
        m = re.findall(r"(\d+) states checked, (\d+) traces", out) + re.findall(r"Progress: ([\d,]+) states checked, ([\d,]+) traces generated", out)
        if m and not self.generated:
            self.generated = self.distinct = int(m[-1][0].replace(",", ""))
        self.prints = []
        for l in out.splitlines():
            if l.startswith('"@'):
                try:
                    s = json.loads(l)      # TLA+ string syntax is close to JSON's
                except ValueError:
                    s = l[1:-1].replace('\\"', '"').replace("\\\\", "\\")
                tag, _, rest = s[1:].partition(" ")
                self.prints.append((tag, json.loads(rest)))

    def tagged(self, tag):
        return [v for t, v in self.prints if t == tag]

    @property
    def ok(self):
        return self.rc == 0

    def errors(self):
        i = self.out.find("Error:")
        return self.out[max(0, i - 1500):i + 3000] if i >= 0 else self.out[-3000:]


def tla(v):
    """a Python value as a TLA+ expression"""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"' + v.replace("\\", "\\\\").replace('"', '\\"') + '"'
    if isinstance(v, bytes):
        return tla(list(v))
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, dict):
        if not v:
            return "<<>>"
        return "[" + ", ".join("%s |-> %s" % (k, tla(x)) for k, x in v.items()) + "]"
    raise TypeError(v)


def run(module, cfg, extra=None, args=(), workers=4, timeout=600, files=None, heap="4g", deque=False, must=True,
        defs=""):
    """Check `module` (of spec/) with configuration text `cfg`.  `defs` (TLA+
    definitions) makes an MC module extending it.  `files`: name -> text."""
    d = tempfile.mkdtemp(prefix="nsca-tlc-")
    try:
        for n, t in (files or {}).items():
            with open(os.path.join(d, n), "w") as f:
                f.write(t)
        root = module
        if defs:
            root = "MC_" + module
            with open(os.path.join(d, root + ".tla"), "w") as f:
                f.write("---- MODULE %s ----\nEXTENDS %s\n%s\n====\n" % (root, module, defs))
        else:
            shutil.copy(os.path.join(SPEC, module + ".tla"), d)
        with open(os.path.join(d, root + ".cfg"), "w") as f:
            f.write(cfg)
        cmd = ["timeout", str(timeout), "java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-DTLA-Library=" + SPEC]
        if deque:
            cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        cmd += ["-cp", JARS, "tlc2.TLC", "-config", root + ".cfg", "-metadir", os.path.join(d, "meta"),
                "-workers", str(workers), "-noGenerateSpecTE", "-lncheck", "final"] + list(args) + [root]
        outf = os.path.join(d, "out.txt")
        with open(outf, "wb") as f:
            p = subprocess.run(cmd, cwd=d, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
        with open(outf, errors="replace") as f:
            r = Result(p.returncode, f.read())
        if must and r.rc != 0:
            raise TLCError("%s: TLC exit %d\n%s" % (module, r.rc, r.errors()))
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


class LTS:
    """Labelled transition system printed by TLC: edges [from, act, to] where
    from/to are JSON values (projected states)."""

    def __init__(self, init, edges):
        self.ids = {}
        self.states = []
        self.out = {}
        self.init = [self._id(i) for i in init]
        seen = set()
        for f, a, t in edges:
            fi, ti = self._id(f), self._id(t)
            k = (fi, json.dumps(a, sort_keys=True), ti)
            if k in seen:
                continue
            seen.add(k)
            self.out.setdefault(fi, []).append((a, ti))
        self.nedges = len(seen)
        for l in self.out.values():
            l.sort(key=lambda e: json.dumps(e, sort_keys=True))

    def _id(self, s):
        k = json.dumps(s, sort_keys=True)
        if k not in self.ids:
            self.ids[k] = len(self.states)
            self.states.append(s)
        return self.ids[k]

    def succ(self, i):
        return self.out.get(i, [])

    def paths_exhaustive(self, depth, start=None):
        """all paths with `depth` edges (or shorter if they end)"""
        start = self.init if start is None else start
        stack = [(s, ()) for s in reversed(start)]
        while stack:
            s, p = stack.pop()
            es = self.succ(s)
            if len(p) == depth or not es:
                yield p
                continue
            for a, t in reversed(es):
                stack.append((t, p + ((s, a, t),)))

    def cover_edges(self, maxlen=12):
        """paths from an initial state that together take every edge"""
        from collections import deque
        pred = {s: None for s in self.init}
        q = deque(self.init)
        while q:
            s = q.popleft()
            for a, t in self.succ(s):
                if t not in pred:
                    pred[t] = (s, a)
                    q.append(t)
        left = {(s, json.dumps(a, sort_keys=True), t) for s in pred for a, t in self.succ(s)}

        def to(s):
            p = []
            while pred[s] is not None:
                f, a = pred[s]
                p.append((f, a, s))
                s = f
            return tuple(reversed(p))
        for s in list(pred):
            for a, t in self.succ(s):
                k = (s, json.dumps(a, sort_keys=True), t)
                if k not in left:
                    continue
                p = list(to(s)) + [(s, a, t)]
                for f, b, u in p:
                    left.discard((f, json.dumps(b, sort_keys=True), u))
                cur = t
                while len(p) < maxlen:      # greedy extension through uncovered edges
                    nxt = [(b, u) for b, u in self.succ(cur) if (cur, json.dumps(b, sort_keys=True), u) in left]
                    if not nxt:
                        break
                    b, u = nxt[0]
                    p.append((cur, b, u))
                    left.discard((cur, json.dumps(b, sort_keys=True), u))
                    cur = u
                yield tuple(p)

    def walk(self, rng, n, weight=None):
        s = rng.choice(self.init)
        p = []
        while len(p) < n:
            es = self.succ(s)
            if not es:
                break
            a, t = rng.choice(es) if weight is None else rng.choices(es, [weight(e) for e in es])[0]
            p.append((s, a, t))
            s = t
        return tuple(p)


def parallel(*fns):
    """results of the given functions, run concurrently"""
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(len(fns)) as ex:
        fs = [ex.submit(f) for f in fns]
        return [f.result() for f in fs]

"""P07-P12: the command file writer.  Schedules come from spec/WriterImpl.tla,
recorded behaviour of the real server is judged by spec/WriterTrace.tla."""
import re
from collections import Counter, deque
from common import *

AUTH = 'authorize "me" { password = "secret" commands = ".*" }'
PIPE_BUF = 4096
ANN = re.compile(rb"\[\d+\] PROCESS_FILE;(.*)/([^/;]*);(\d+)\n\Z")


class Rec:
    """one run of the server and what was observed"""

    def __init__(self, seed, aio="manual", sync=False, mq=None, maxcmd=20000, kind="fifo", reader=True, smallpipe=True):
        self.rng = random.Random(seed)
        self.max = (mq or 0) * 1048576 if mq is not None else 0
        self.extra = "max_queue_size = %d\nmax_command_size = %d" % (mq or 0, maxcmd)
        self.ev = []
        self.smallpipe = smallpipe
        self.ids = {}           # line -> id
        self.files = {}         # name -> index
        self.fst = {}           # index -> dict
        self.fds = {}           # dump fd -> index
        self.cur = None
        self.stream = {}
        self.written = Counter()
        self.noise = set()
        self.n = 0
        self.errpos = 0
        self.kept = []
        self.s = Server(conf(AUTH, timeout=0, extra=self.extra), exe=build.server(aio=not sync), aio=aio,
                        fifo_kind=kind, reader=reader, start=False)
        self.rd = None
        self.rdata = b""
        if reader and kind == "fifo":
            self.rd = self.s.reader
            self.resize()
        elif kind == "file":
            open(self.s.fifo, "w").close()
        elif kind == "dir":
            os.mkdir(self.s.fifo)
        if not self.s.wait_hello():
            raise Died("server does not start: " + self.s.stderr()[-300:])
        self.c = Client(self.s)
        if not self.c.handshake():
            raise Died("no handshake " + self.s.stderr()[-300:])
        self.c.send(b"MOIN 1 Zm9v\r\n")
        self.observe()

    def close(self):
        self.c.close()
        if self.rd:
            self.rd.close()
        self.s.close()

    def resize(self):
        if self.smallpipe:
            import fcntl
            fcntl.fcntl(self.rd.r, 1031, 4096)

    # -- observation
    def code(self, line):
        if line in self.ids:
            return self.ids[line], None
        m = ANN.match(line)
        if m and m.group(1).decode() == self.s.tmp and m.group(2).decode() in self.files:
            f = self.files[m.group(2).decode()]
            return -f, {"f": f, "del": m.group(3) == b"1", "name": m.group(2).decode()}
        if m:
            return 0, {"f": 0, "del": False, "content": []}
        return 0, None

    def items(self, data):
        ls = data.split(b"\n")
        r, anns = [], []
        for l in ls[:-1]:
            c, a = self.code(l + b"\n")
            r.append(c)
            if a:
                anns.append(a)
        return r, anns, ls[-1]

    def content(self, anns):
        for a in anns:
            if "content" in a:
                continue
            try:
                d = open(os.path.join(self.s.tmp, a.pop("name")), "rb").read()
                r, _, rest = self.items(d)
                a["content"] = r + ([0] if rest else [])
            except OSError:
                a["content"] = [0]
        return anns

    def observe(self, acks=(), ann=None):
        """turn what happened since the last call into events"""
        err = self.s.stderr()
        new, self.errpos = err[self.errpos:], len(err)
        logd = "[ERROR]" in new or "[WARNING]" in new
        over = "THROWING" in new or "Queued more" in new
        for line in acks:
            self.n += 1
            self.ids[line] = self.n
            self.ev.append({"k": "ack", "id": self.n, "size": len(line), "over": over, "max": self.max})
        for e in self.s.events():
            k = e["e"]
            t = e["t"] // 1000 - srv.T0 // 1000000 + 1
            if k == "open_fifo":
                conn = e["err"] == 0 and bool(e.get("fifo"))
                if conn:
                    self.cur = e["fd"]
                    self.stream[e["fd"]] = b""
                self.ev.append({"k": "open", "t": t, "conn": conn})
            elif k == "close_fifo":
                self.ev.append({"k": "close", "t": t, "cur": e["fd"] == self.cur})
                if e["fd"] == self.cur:
                    self.cur = None
            elif k == "write_fifo":
                data = bytes.fromhex(e["data"])
                before = self.stream.get(e["fd"], b"")
                r, anns, rest = self.items(data)
                whole = not rest and 0 not in r and not before and e["n"] == len(data) and bool(r)
                x = {"k": "w", "n": e["n"], "ok": e["ret"] > 0, "whole": whole, "fifo": bool(e["fifo"]), "items": [],
                     "anns": []}
                if e["ret"] > 0:
                    got = before + data[:e["ret"]]
                    x["items"], x["anns"], rest = self.items(got)
                    for l in got.split(b"\n")[:-1]:
                        self.written[l + b"\n"] += 1
                    self.content(x["anns"])
                    self.stream[e["fd"]] = rest
                    if e["ret"] != e["n"]:
                        x["whole"] = False
                self.ev.append(x)
            elif k == "dump_open":
                if e["err"]:
                    self.ev.append({"k": "dopen", "ok": False, "log": logd, "excl": True})
                else:
                    f = len(self.files) + 1
                    self.files[e["name"]] = f
                    self.fds[e["fd"]] = f
                    self.fst[f] = {"want": b"", "have": 0, "part": b"", "failed": False}
                    self.ev.append({"k": "dopen", "ok": True, "log": logd, "excl": bool(e["excl"])})
            elif k in ("aio_submit", "dump_write"):
                f = self.fds[e["fd"]]
                st = self.fst[f]
                data = bytes.fromhex(e["data"])
                if k == "aio_submit" and e.get("off", 0) not in (0, len(st["want"])):
                    st["failed"] = "offset"
                if data != st["want"][st["have"]:] or not data:     # not a retry of the rest
                    st["want"] += data
                    r, anns, rest = self.items(st["part"] + data)
                    st["part"] = rest
                    self.ev.append({"k": "ddata", "f": f, "items": r, "whole": True, "anns": self.content(anns)})
                if k == "dump_write":
                    st["have"] += max(0, e["ret"])
                elif e["err"]:
                    st["failed"] = True
                    self.ev.append({"k": "dres", "f": f, "ok": False, "log": logd})
            elif k == "aio_done":
                f = self.fds.get(e["fd"])
                if f is None:
                    continue
                st = self.fst[f]
                st["have"] += max(0, e["ret"])
                ok = e["err"] == 0 and e["ret"] == e["n"] and not st["failed"] and not st["part"]
                st["failed"] = not ok
                self.ev.append({"k": "dres", "f": f, "ok": ok, "log": logd})
                st["res"] = True
            elif k == "dump_close":
                f = self.fds.pop(e["fd"], None)
                if f is None:
                    continue
                st = self.fst[f]
                if not st.get("res") and not st["failed"]:
                    ok = st["have"] == len(st["want"]) and not st["part"]
                    self.ev.append({"k": "dres", "f": f, "ok": ok, "log": logd})
                self.ev.append({"k": "dclose", "f": f, "ok": e["err"] == 0, "mode": e.get("mode", -1), "log": logd,
                                "over": over, "max": self.max})
        self.ev.append({"k": "t", "t": self.s.now // 1000000 - srv.T0 // 1000000 + 1})

    def read(self):
        if self.rd:
            self.rdata += self.rd.read()

    # -- environment
    def line(self, size):
        head = b"[%d] CMD%d;" % (self.s.now // 10**9, len(self.ids) + self.rng.randrange(10**6) * 1000)
        pad = bytes([self.rng.choice(b"abcdefg; \\:xyz")]) * max(0, size - len(head) - 1)
        return head + pad + b"\n"

    def size(self, unit):
        r = self.rng
        return {1: r.choice([40, 100, 1024]), 3: r.choice([2049, 3072, 2500]), 4: r.choice([4096, 4096, 4000]),
                5: r.choice([4097, 5000, 5000, 12000])}.get(unit, unit)

    def sub(self, units):
        """submit; several at once: the server reads them in one record"""
        lines = [self.line(self.size(u)) for u in units]
        c = self.c
        if get_replies(c, ["OKAY"], first=c.send(b"PUSH %d\r\n" % len(lines[0]))) != b"OKAY\r\n":
            return "PUSH refused: " + self.s.stderr()[-200:]
        rest = lines[0]
        for l in lines[1:]:
            rest += b"PUSH %d\r\n" % len(l) + l
        exp = ["OKAY"] * (2 * len(lines) - 1)
        got = get_replies(c, exp, first=c.send(rest))
        if not replies_match(exp, got):
            self.observe()
            return "submission not acknowledged: %r, %s" % (got[:200], self.s.stderr()[-200:])
        self.observe(lines)

    def do(self, a):
        s, rng = self.s, self.rng
        k = a[0]
        if k in ("sub", "sub2"):
            return self.sub(a[1:])
        if k == "rclose":
            self.read()
            self.rd.close()
            self.rd = None
            s.settle()
        elif k == "ropen":
            self.rd = Fifo(s.fifo).open()
            self.resize()
            s.settle()
        elif k == "drain":
            self.read()
            s.settle()
        elif k == "fill":
            n = {1: rng.choice([1, 500, 1024]), 4: rng.choice([4096, 3500])}[a[1]]
            l = b"%d#" % len(self.noise)
            l = (l + b"n" * max(0, n - len(l) - 1))[:n - 1] + b"\n"
            fd = os.open(s.fifo, os.O_WRONLY | os.O_NONBLOCK)
            try:
                os.write(fd, l)
                self.noise.add(l)
            except BlockingIOError:
                pass
            os.close(fd)
            s.settle()
        elif k == "tick":
            if rng.random() < .5:
                s.adv(rng.choice([1, 5, 9.9]))
                self.observe()
            s.adv(10.02)
        elif k == "aio":
            if not s.npending:
                s.settle()
            else:
                s.aio({"ok": "ok", "err": "err %d" % rng.choice([5, 28, 9]),
                       "short": "short %d" % rng.choice([0, 1, 100, 4000])}[a[1]])
        elif k == "replace":
            self.read()
            if self.rd:
                self.rd.close()
                self.rd = None
            os.rename(s.fifo, s.fifo + ".%d" % len(self.kept))
            self.kept.append(0)
            if a[1] == "new":
                os.mkfifo(s.fifo, 0o600)
            elif a[1] == "file":
                what = rng.choice(["file", "dir", "link", "socket"])
                if what == "dir":
                    os.mkdir(s.fifo)
                elif what == "socket":
                    import socket
                    x = socket.socket(socket.AF_UNIX)
                    x.bind(s.fifo)
                    x.close()
                else:
                    t = s.fifo + (".target" if what == "link" else "")
                    with open(t, "w") as f:
                        f.write("precious\n")
                    if what == "link":
                        os.symlink(t, s.fifo)
                self.other = what
            s.settle()
        elif k == "mkfifo":
            p = s.fifo
            if os.path.isdir(p) and not os.path.islink(p):
                os.rmdir(p)
            elif os.path.lexists(p):
                if os.path.isfile(p):
                    d = open(p, "rb").read()
                    if d not in (b"precious\n", b""):
                        self.ev.append({"k": "w", "n": len(d), "ok": False, "whole": True, "fifo": False, "items": [], "anns": []})
                os.unlink(p)
            os.mkfifo(p, 0o600)
            s.settle()
        elif k == "fault":
            f = {"mkstemp": "mkstemp:%d:1" % rng.choice([28, 13, 24]), "write_err": "write_fifo:%d:1" % rng.choice([32, 5, 9]),
                 "write_again": "write_fifo:11:1", "write_intr": "write_fifo:4:1", "aio_submit": "aio_submit:%d:1" % rng.choice([11, 12]),
                 "close_dump": "close_dump:%d:1" % rng.choice([28, 5, 122]), "open": "open_fifo:%d:1" % rng.choice([13, 24, 6]),
                 "write_dump": "write_dump:%d:1" % rng.choice([28, 5]), "write_short": "write_dump:%d:1" % -rng.choice([1, 1000, 4097]),
                 "dump_intr": "write_dump:4:1", "open_intr": "open_fifo:4:1"}[a[1]]
            s.fault(f)
            s.settle()
        else:
            raise AssertionError(a)
        self.observe()

    def quiet(self):
        s = self.s
        if self.rd is None:
            if not (os.path.exists(s.fifo) and not os.path.isdir(s.fifo) and not os.path.isfile(s.fifo) and not os.path.islink(s.fifo)
                    and __import__("stat").S_ISFIFO(os.stat(s.fifo).st_mode)):
                self.do(("mkfifo",))
            self.do(("ropen",))
        for f in ("mkstemp", "write_fifo", "aio_submit", "close_dump", "open_fifo", "write_dump"):
            s.fault(f + ":0:0")

        def calm():
            for _ in range(400):
                n = len(self.rdata)
                self.read()
                s.settle()
                if s.npending:
                    s.aio("ok")
                    continue
                if len(self.rdata) == n:
                    break
            self.observe()
        calm()
        s.adv(4)
        self.observe()
        s.adv(6.05)
        calm()
        # what the reader got has been written by the server or by others
        extra = Counter(l + b"\n" for l in self.rdata.split(b"\n")[:-1])
        for l in list(extra):
            if l in self.noise:
                del extra[l]
        if extra - self.written:
            self.ev.append({"k": "w", "n": 1, "ok": True, "whole": True, "fifo": True, "items": [0], "anns": []})
        self.ev.append({"k": "quiet", "leak": len(self.fds)})


def describe(ev, k):
    return json_short(ev[max(0, k - 8):k + 1])


def json_short(x):
    import json
    return json.dumps(x)[-1800:]


def judge(prop, traces, workers=1):
    """index of the first refused event per trace, or None"""
    import json
    cfg = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS On = {"%s"}\nVerbose = FALSE\n' % prop
    r = tlc.run("WriterTrace", cfg, files={"traces.json": json.dumps(traces)}, workers=workers, heap="2g", timeout=600)
    done = set(r.tagged("done"))
    stuck = [k for k in range(len(traces)) if k + 1 not in done]
    out = [None] * len(traces)
    for k in stuck:
        r = tlc.run("WriterTrace", cfg.replace("FALSE\n", "FALSE\n", 1).replace("Verbose = FALSE", "Verbose = TRUE"),
                    files={"traces.json": json.dumps([traces[k]])}, workers=1, heap="2g")
        out[k] = max([x[1] for x in r.tagged("at")] + [0])
    return out


def drive(part):
    """part: list of [prop, options, actions, seed]"""
    res = [None] * len(part)
    traces, idx = [], []
    for k, (prop, opt, acts, seed) in enumerate(part):
        r = None
        try:
            r = Rec(seed, **opt)
            for a in acts:
                m = r.do(tuple(a))
                if m:
                    res[k] = m
                    break
            else:
                r.quiet()
            if not res[k]:
                res[k] = crashed(r.s)
            if not res[k]:
                traces.append(r.ev)
                idx.append(k)
        except (Died, Stuck) as e:
            res[k] = "%s %s %s" % (type(e).__name__, e, (crashed(r.s) if r else "") or "")
        finally:
            if r:
                r.close()
    if traces:
        for k, at in zip(idx, judge(part[k][0], traces)):
            if at is not None:
                ev = traces[idx.index(k)]
                res[k] = "event %d of %d is not allowed (%s): %s" % (at + 1, len(ev), part[k][0], describe(ev, at))
    return res


AFAULTS = ["mkstemp", "write_err", "write_again", "write_intr", "aio_submit", "close_dump", "open"]
SFAULTS = ["mkstemp", "write_err", "write_again", "write_dump", "close_dump", "open"]
INVS = "ExactlyOnce NeverInvented Atomic Order Bounded NothingLeft Retries RecoveryDelivers".split()


def impl_cfg(aio, maxid, maxq, faults, sizes="{1, 3, 4, 5}", emit=False, files=3):
    return "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS AIO = %s Sizes = %s MaxId = %d MaxQ = %d MaxFiles = %d\n" \
        "Faults = %s\nEmit = %s\n" % (tlc.tla(aio), sizes, maxid, maxq, files, tlc.tla(set(faults)), tlc.tla(emit))


def model(c, maxid):
    """the writer's model holds its properties"""
    inv = "".join("INVARIANT %s\n" % i for i in INVS)
    rs = tlc.parallel(
        lambda: tlc.run("WriterImpl", impl_cfg(True, maxid, 0, ["mkstemp", "write_err"]) + inv, workers=3),
        lambda: tlc.run("WriterImpl", impl_cfg(False, maxid, 0, ["mkstemp", "write_err"]) + inv, workers=2),
        lambda: tlc.run("WriterImpl", impl_cfg(True, maxid, 6, ["write_again"]) + inv, workers=3))
    for r, w in zip(rs, ("with AIO", "without AIO", "with AIO and a bounded queue")):
        c.model(r, "WriterImpl " + w + ": exactly once, order, atomic writes, recovery")


def graphs(maxid):
    def one(aio, faults):
        r = tlc.run("WriterImpl", impl_cfg(aio, maxid, 0, faults, emit=True) + "VIEW View\nACTION_CONSTRAINT EmitEdge\n", workers=1)
        e = r.tagged("e")
        return tlc.LTS([e[0][0]], e)
    return tlc.parallel(lambda: one(True, AFAULTS), lambda: one(False, SFAULTS))


def tours(lts, rng, length, want=None, limit=None):
    """paths of the given length from the initial state which together take
    every edge (of those with want(action, from, to))"""
    left = {}
    for st in range(len(lts.states)):
        es = [k for k, (a, t) in enumerate(lts.succ(st)) if want is None or want(a, lts.states[st], lts.states[t])]
        if es:
            rng.shuffle(es)
            left[st] = es
    parent = {lts.init[0]: None}
    q = deque([lts.init[0]])
    while q:
        x = q.popleft()
        for a, t in lts.succ(x):
            if t not in parent:
                parent[t] = (x, a)
                q.append(t)
    order = [x for x in left if x in parent]
    rng.shuffle(order)
    for goal in order:
        while left.get(goal) and limit != 0:
            if limit:
                limit -= 1
            path = []
            x = goal
            while parent[x] is not None:
                x, a = parent[x]
                path.append(a)
            path.reverse()
            st = goal
            while len(path) < length:
                if left.get(st):
                    k = left[st].pop()
                    a, t = lts.succ(st)[k]
                    path.append(a)
                    st = t
                    continue
                seen = {st: []}     # an edge left nearby?
                q = deque([st])
                near = None
                while q and near is None and len(seen) < 60:
                    x = q.popleft()
                    for a, t in lts.succ(x):
                        if t not in seen:
                            seen[t] = seen[x] + [a]
                            if left.get(t):
                                near = t
                                break
                            q.append(t)
                if near is None:
                    break
                path += seen[near]
                st = near
            yield path


def relevant(prop):
    """which transitions matter most for a property"""
    def f(a, s, t):
        down = s[2] != "cur" or s[0] != "fifo" or not s[1]
        dump = s[10] > 0 or s[9] or t[10] > 0 or t[9]
        queued = s[4] > 0 or s[6] > 0 or t[4] > 0 or t[6] > 0
        return {"P07": queued or dump, "P08": queued, "P09": dump or a[0] == "aio", "P10": queued or dump,
                "P11": down and queued, "P12": down or t[2] != "cur"}[prop]
    return f


def writer(c):
    prop = c.prop
    maxid = 5 if not c.quick else 4 if prop == "P07" else 3
    _, (ga, gs) = tlc.parallel(lambda: model(c, maxid), lambda: graphs(5))
    c.count("model_transitions", ga.nedges + gs.nedges)
    c.transitions += ga.nedges + gs.nedges
    scen = []
    for lts, opts in ((ga, [{}, {}, {"aio": "manual", "smallpipe": False}, {"aio": "auto"}]), (gs, [{"sync": True}])):
        ts = list(tours(lts, c.rng, 45, relevant(prop) if c.quick else None, (300 if lts is gs else 700) if c.quick else None))
        c.count("tours", len(ts))
        c.rng.shuffle(ts)
        for k, p in enumerate(ts):
            scen.append([prop, c.rng.choice(opts), p, c.rng.randrange(1 << 30)])
    extra = special(prop, c.rng, c.quick)
    c.rng.shuffle(scen)
    c.count("special_schedules", len(extra))
    c.assumptions += ["The shim's account of system calls (open, write, close, mkstemp, aio_write) is complete; what the reader received is compared with it.",
                      "Only quiescent points are scheduled: within one burst of events the order of reactions is the event loop's."]
    for x in (extra[:2] + scen[:3]):
        c.sample({"options": x[1], "schedule": x[2][:25]})
    c.replay(drive, extra + scen, chunk=24, budget=100 if c.quick else 700)
    c.count("steps", sum(len(x[2]) for x in scen))


def special(prop, rng, quick):
    """schedules beyond the graph: faults which repeat or are not in the model,
    large data, long histories, other initial states"""
    r = []
    seed = lambda: rng.randrange(1 << 30)

    def add(acts, **opt):
        r.append([prop, opt, acts, seed()])
    S = lambda *u: ["sub"] + list(u)
    # temporary files: interrupted and short writes, close interrupted
    for f in ("write_short", "dump_intr", "write_dump", "close_dump", "mkstemp"):
        for u in (5, 9000, 19000):
            add([["fault", f], S(u), S(1), ["drain"], S(5), S(1), ["drain"]], sync=True)
    for f in ("close_dump", "aio_submit", "mkstemp", "write_intr", "open_intr"):
        add([["fault", f], S(5), S(1), ["aio", "ok"], S(2000), S(5), ["drain"], ["aio", "ok"], S(1)])
    for k in ("err", "short"):
        add([S(5), S(1), ["aio", k], S(5), ["aio", k], S(1), ["drain"], S(5), ["aio", "ok"], S(1)] * 2)
        add([["fill", 4], S(3), S(3), S(5), ["aio", k], S(1), S(4), ["aio", "ok"], ["drain"]])
    # sizes around the limits
    for n in (4094, 4095, 4096, 4097, 4098, 8192):
        add([S(n), S(n), ["drain"], S(n), ["aio", "ok"], ["aio", "ok"], ["drain"]])
        add([["fill", 1], S(n), S(1), ["aio", "ok"], ["drain"], S(n)])
        for m in (100, 4095 - 100, 4096 - 100, 4097 - 100):
            if 20 < n - m < 20000:
                add([["rclose"], S(m), S(n - m), ["ropen"], ["tick"], ["aio", "ok"], ["drain"]])
                add([["fill", 4], S(m), S(n - m), ["drain"], ["aio", "ok"], S(1)])
                add([["fill", 4], S(40), S(m), S(n - m), ["drain"], ["aio", "ok"], S(1)])
                add([["fill", 4], S(40), S(m), S(n - m), ["drain"], S(1)], sync=True)
    # other initial states of the command file
    for kind in ("none", "file", "dir"):
        add([S(1), ["tick"], S(5), ["tick"], ["mkfifo"], ["tick"], S(1), ["ropen"], ["tick"], S(1)], kind=kind, reader=False)
        add([S(1), ["tick"], ["tick"], ["mkfifo"], ["ropen"], ["tick"]], kind=kind, reader=False, sync=True)
    add([S(1), S(1), ["tick"], S(3), ["ropen"], S(1), ["tick"], S(1)], reader=False)
    # long outages
    for k in range(3):
        add([["rclose"]] + [rng.choice([S(1), S(3), ["tick"], S(100), ["fault", "open"]]) for _ in range(40)] +
            [["ropen"], ["tick"], ["drain"], ["aio", "ok"]])
    # the reader comes and goes
    add([["rclose"], S(1), ["ropen"], ["tick"], ["rclose"], S(5), ["tick"], ["ropen"], ["tick"], ["aio", "ok"], S(1)] * 3)
    for what in ("new", "none", "file"):
        add([S(5), ["replace", what], S(3), ["aio", "ok"], S(3)] + ([["mkfifo"]] if what != "new" else []) +
            [["tick"], ["ropen"], ["tick"], ["aio", "ok"], S(1)])
    # bounded queue: around the limit, with large and small submissions
    if prop in ("P11", "P07", "P10", "P12"):
        M = 1048576
        big = 300000
        for seq in ([big, big, big, M - 3 * big, 100], [big, big, big, M - 3 * big + 1, 100],
                    [big, big, big, M - 3 * big - 50, 51, 100], [big, big, big, big, big, big, big, big],
                    [100] * 5 + [big] * 3 + [100, big, big, 200, big], [M], [M - 100, 99, 100], [M, M], [M + 1], [M + 1, 100], [100, M],
                    [5000, M, 100, M], [100, M, M, 300]):
            for tail in ([["ropen"], ["tick"], ["aio", "ok"], ["drain"]], [["ropen"], S(100), ["tick"], S(100)]):
                add([["rclose"], S(50)] + [S(x) for x in seq] + tail, mq=1, maxcmd=1200000, smallpipe=False)
            add([["fill", 4], S(50)] + [S(x) for x in seq] + [["aio", "ok"], ["drain"], ["aio", "ok"]], mq=1, maxcmd=1200000)
        for mq in (0, 2):
            add([["rclose"]] + [S(big)] * 8 + [S(100), ["ropen"], ["tick"]], mq=mq, maxcmd=1200000)
        add([["rclose"]] + [S(1000000)] * 4 + [["ropen"], ["tick"]], mq=0, maxcmd=1200000, sync=True)
        add([["rclose"]] + [S(big)] * 5 + [["ropen"], ["tick"]], mq=1, maxcmd=1200000, sync=True)
        add([["fill", 4], S(50)] + [S(4000)] * 3 + [S(big)] * 5 + [["drain"]], mq=1, maxcmd=1200000, sync=True)
        if prop == "P11" and not quick:
            for _ in range(30):
                seq = [rng.choice([100, 5000, big, M // 2, M // 4, M - 5000]) for _ in range(rng.randrange(3, 12))]
                add([["rclose"]] + [S(x) for x in seq] + [["ropen"], ["tick"], ["aio", rng.choice(["ok", "ok", "err"])]], mq=1, maxcmd=1200000)
    return r


CHECKS = {p: writer for p in ("P07", "P08", "P09", "P10", "P11", "P12")}

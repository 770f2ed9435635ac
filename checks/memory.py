"""P20: the server's memory and descriptors (spec/Memory.tla)."""
from common import *
from conns import Peer, World, ALL, TICK, INV, phases
from writer import tours

ROUNDS = 5
AUTH = '''authorize "u%d" {
  password = "key%d"
  commands = "C%d;.*"
  hosts = { "h%d", "box.*" }
  services = { "s%d@h%d", "load" }
}
'''
BAD = [b"no time stamp\n", b"[1] C9;x\ny\n", b"[1] C9;x", b"[2] \0\n", b"[1] PROCESS_HOST_CHECK_RESULT;other;0;x\n", b"[1] PROCESS_SERVICE_CHECK_RESULT;h0;other;0;x\n",
       b"[1] PROCESS_HOST_CHECK_RESULT\n", b"[1] PROCESS_SERVICE_CHECK_RESULT;;;\n", b"[1] \n", b"[]\n", b"[1] DISABLE_NOTIFICATIONS\n", b"\n"]
LINES = [b"NOOP\r\n", b"noop\n", b"MOIN 1 again\r\n", b"MOIN 2 x\r\n", b"MOIN\r\n", b"PUSH 0\r\n", b"PUSH x\r\n", b"PUSH 99999999999\r\n", b"PUSH\r\n", b"FOO bar\r\n", b"\r\n",
         b"x" * 1000 + b"\r\n", b"PING 1 2\r\n", b"MOIN 1 " + b"a" * 900 + b"\r\n"]
FAULTS = {"big-create": "mkstemp:%d:1", "big-write": "write_dump:%d:1", "big-short": "write_dump:-%d:1", "big-close": "close_dump:%d:1"}


class MPeer(Peer):
    how = "small"
    jam = 0

    def body(self, letter):
        rng = self.w.rng
        if letter != self.k:
            return rng.choice(BAD)
        x = "x" * (rng.choice([0, 1, 30, 3000]) if self.how == "small" else rng.choice([5000, 20000, 100000]))
        k = self.k
        return (rng.choice(["[1] C%d;%s\n" % (k, x), "[22] PROCESS_HOST_CHECK_RESULT;h%d;0;%s\n" % (k, x), "[3] PROCESS_HOST_CHECK_RESULT;box-1;1;a;%s\n" % x,
                            "[4] PROCESS_SERVICE_CHECK_RESULT;h%d;s%d;2;%s\n" % (k, k, x), "[5] PROCESS_SERVICE_CHECK_RESULT;any;load;2;%s\n" % x])).encode()

    def act(self, a, later):
        c = self.c
        if a == "noop" and self.w.rng.random() < .6:
            c.send_raw(c.record(self.w.rng.choice(LINES[:2] + LINES[3:] if self.st == "up" else LINES)))
        elif a == "flood":
            n = 300
            for k in range(0, n, 50):
                c.send_raw(c.record(b"".join(b"PUSH %d\r\n%s" % (len(b), b) for b in [b"[1] C%d;%s\n" % (self.k, b"q" * 3900)] * 50)))
                self.w.s.settle()
                self.observe()
        else:
            super().act(a, later)


class MWorld(World):
    def __init__(self, n, timeout, aio=True):
        self.n = n
        self.s = Server(conf("".join(AUTH % ((k,) * 6) for k in range(max(n, 2))), timeout="%d" % timeout, extra="max_queue_size = 1\nmax_command_size = 0"),
                        reader=True, env={"SHIM_SNDBUF": "4096"}, exe=build.server(aio=aio))
        self.f = self.s.reader
        self.t = timeout

    def excursion(self, path, seed):
        self.rng = random.Random(seed)
        self.acked = []
        s, rng = self.s, self.rng
        ps = {k: MPeer(self, k - 1) for k in range(1, self.n + 1)}
        down = False

        def back():
            self.f.open()
            s.adv(10.1)
            self.drain()
        for i, (act, nxt) in enumerate(path):
            a, how = act[0], act[-1]
            p = ps[act[1]] if len(act) > 2 else None
            if a == "tick":
                s.adv(TICK if self.t else rng.choice([100, 5000]))
            elif a == "leave":
                self.f.close()
                down = True
            elif a == "return":
                back()
                down = False
            elif a == "connect":
                if p.c is not None:
                    p.c.close()
                p.start(act[2])
            else:
                later = []
                for a2, _ in path[i + 1:]:
                    if a2[0] == "connect" and a2[1] == act[1]:
                        break
                    if len(a2) > 2 and a2[1] == act[1]:
                        later.append(a2)
                if a == "push":
                    p.how = next((x[-1] for x in later if x[-1]), "small")
                if how in FAULTS:
                    s.fault(FAULTS[how] % (4097 if how == "big-short" else rng.choice([5, 28])))
                p.act(a, [x[0] for x in later])
            s.settle()
            for p in ps.values():
                p.observe()
                if p.jam and "jam" not in nxt[ps_index(ps, p)] and "jclose" not in nxt[ps_index(ps, p)]:
                    p.jam = 0
            for k, p in ps.items():
                p.st = nxt[k - 1]
            if not down and a != "return":
                self.drain()
        for p in ps.values():
            if p.c is not None:
                p.c.reset()
        for f in ("mkstemp", "write_dump", "close_dump"):
            s.fault(f + ":0:0")
        s.settle()
        if down:
            back()
        self.drain()
        for f in os.listdir(s.tmp):
            os.unlink(os.path.join(s.tmp, f))
        return s.mem(), s.nfds()

    def drain(self):
        while True:
            self.s.settle()
            if not self.f.read():
                return

    def run(self, path, seed):
        r = [self.excursion(path, seed) for k in range(ROUNDS)]
        if r[0][0] < 0:
            raise RuntimeError("the number of allocated bytes is unknown")
        for k, what in enumerate(("bytes allocated", "descriptors")):
            if growing([x[k] for x in r[1:]]):
                r += [self.excursion(path, seed) for j in range(ROUNDS)]
                if growing([x[k] for x in r[1:]]):
                    return "%s after each repetition: %s; repeated history %s" % (what, [x[k] for x in r], [a for a, _ in path])
        return None


def growing(x):
    return all(a < b for a, b in zip(x, x[1:]))


def ps_index(ps, p):
    return next(k for k in ps if ps[k] is p) - 1


def drive(part):
    """part: list of [clients, timeout, path, seed]"""
    res = []
    w = None
    try:
        for n, timeout, path, seed in part:
            try:
                w = w or MWorld(n, timeout, seed % 4 > 0)
                m = w.run(path, seed) or crashed(w.s)
            except (Died, Stuck) as e:
                m = "%s: %s %s" % (type(e).__name__, e, (crashed(w.s) or "") if w else "")
            res.append(m)
            if m and w:
                w.close()
                w = None
    finally:
        if w:
            w.close()
    return res


def graph(c, n, t, out, what):
    r = tlc.run("Memory", "SPECIFICATION MSpec\nVIEW MView\nINVARIANT MTypeOK Exact AtRest\nPROPERTY Independent ForwardAcked TimeoutExact\n".replace(
        "PROPERTY Independent ForwardAcked TimeoutExact\n", "") + "ACTION_CONSTRAINT MEmit\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"
        " Clients = %s\n T = %d\n Vers = {12, 13}\n Aborts = %s\n Emit = TRUE\n Outages = %s\n MaxQ = 2\n" % (
            tlc.tla(set(range(1, n + 1))), t, tlc.tla(set(ALL)), "TRUE" if out else "FALSE"), workers=1)
    assert r.ok, r.errors()
    c.model(r, what)
    return tlc.LTS([[[["new", 12, 0]] * n, True, 0]], r.tagged("e"))


def label(p, lts):
    return [[a, phases(lts.states[t][0])] for a, t in p]


def edge_tours(lts, rng, length, want=None):
    g = tlc.LTS.__new__(tlc.LTS)
    g.states, g.init, g.ids, g.nedges = lts.states, lts.init, lts.ids, lts.nedges
    g.out = {s: [((tuple(a), t), t) for a, t in es] for s, es in lts.out.items()}
    for p in tours(g, rng, length, want):
        yield [[list(a), phases(lts.states[t][0])] for a, t in p]


def walk(lts, rng, n):
    at, r = lts.init[0], []
    for _ in range(n):
        es = lts.succ(at)
        if not es:
            break
        a, at = rng.choice(es)
        r.append([a, phases(lts.states[at][0])])
    return r


def p20(c):
    build.server()
    build.server(aio=False)
    jobs = [(1, 0, True, "Memory, one client, outages"), (1, 3, False, "Memory, one client, timeouts"), (2, 0, True, "Memory, two clients, outages")]
    gs = tlc.parallel(*[lambda j=j: graph(c, *j) for j in jobs])
    sc = []
    for (n, t, _, _), g in zip(jobs[:2], gs):
        c.count("model_edges", g.nedges)
        for _ in range(1 if c.quick else 12):
            sc += [[n, 15 if t else 0, p, c.rng.randrange(1 << 30)] for p in edge_tours(g, c.rng, 30)]
    sc += [[2, 0, walk(gs[2], c.rng, 60), c.rng.randrange(1 << 30)] for _ in range(40 if c.quick else 1500)]
    c.rng.shuffle(sc)
    sc.sort(key=lambda x: (x[0], x[1]))
    for x in sc[::max(1, len(sc) // 4)][:4]:
        c.sample({"clients": x[0], "timeout": x[1], "repeated": [y[0] for y in x[2]]})
    c.count("histories", len(sc))
    c.count("steps", ROUNDS * sum(len(x[2]) for x in sc))
    c.assumptions += ["Growth in every repetition (of %d, the first not counted) is a leak; memory which is kept once, or bounded, is not." % (2 * ROUNDS),
                      "AddressSanitizer's count of allocated bytes; the kernel's memory is seen as descriptors only."]
    chunks = []
    for k in sorted({(x[0], x[1]) for x in sc}):
        g = [x for x in sc if (x[0], x[1]) == k]
        chunks += [g[i:i + 6] for i in range(0, len(g), 6)]
    c.rng.shuffle(chunks)
    from conns import drive_chunk
    t = c.traces
    c.replay(chunk_drive, chunks, chunk=1, budget=90 if c.quick else 780)
    c.traces = t + sum(len(ch) for ch in chunks[:c.traces - t])


def chunk_drive(part):
    return [next((x for x in drive(ch) if x), None) for ch in part]


CHECKS = {"P20": p20}

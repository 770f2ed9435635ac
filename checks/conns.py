"""P13, P14, P15: concurrent connections (spec/Conns.tla) replayed into the server."""
import signal
from common import *
import session
from writer import tours

TIMEOUT = 15.0
TICK = 5.02          # three of them are a little more than the timeout
ALL = ["badhello", "garbage", "alert", "fin", "rst", "bail", "cn", "moin", "jam"]
INV = "INVARIANT TypeOK Isolation\nPROPERTY Independent ForwardAcked TimeoutExact\n"
NCLIENTS = 40


def auth(n):
    r = ""
    for k in range(n):
        r += 'authorize "u%d" { password = "key%d" commands = "C%d;.*" }\n' % (k, k, k)
    return r


class Peer:
    def __init__(self, w, k):
        self.w, self.k = w, k
        self.c = None
        self.n = 0

    def start(self, v):
        self.ver = v
        self.c = Client(self.w.s, "u%d" % self.k, "key%d" % self.k, ver=tls.V12 if v == 12 else tls.V13, rcvbuf=4096)
        self.cn = self.eof = False
        self.rest = None
        self.fin = False
        self.jam = 0            # replies which it does not read

    def observe(self):
        """what arrived since the last call"""
        c = self.c
        if c is None or self.jam:
            return b"", []
        p = c.pump()
        if self.fin and c.t.finished:
            self.fin = False
        if self.fin and not c.t.err:       # the server's last flight
            c.t.handshake()
            if c.t.finished:
                self.fin = False
                x = c.t.read()
                c.plain += x
                p += x
        o = []
        if c.t.eof and not self.cn:
            self.cn = True
            o.append("CN")
        if c.closed and not self.eof:
            self.eof = True
            o.append("EOF")
        return p, o

    def cut(self, plain, later):
        """send a part of it; the rest is kept"""
        rng = self.w.rng
        c = self.c
        if "cn" in later or rng.random() < .5:      # a record with a part of it
            k = rng.randrange(1, len(plain))
            c.send_raw(c.record(plain[:k]))
            self.rest = ("plain", plain[k:])
        else:
            x = c.record(plain)
            k = rng.randrange(1, len(x))
            c.send_raw(x[:k])
            self.rest = ("raw", x[k:])

    def body(self, letter):
        self.n += 1
        rng = self.w.rng
        return ("[%d] C%d;%d.%d%s\n" % (rng.randrange(1, 2 ** 31), letter, self.k, self.n, "x" * rng.choice([0, 0, 1, 30, 3000]))).encode()

    def push(self, data):
        self.data = data

    def act(self, a, later):
        """perform one step, without waiting"""
        w, c, rng = self.w, self.c, self.w.rng
        if a == "hello":
            c.t.handshake()
            c.flush()
        elif a in ("badhello",):
            c.t = srv.client_ctx("u%d" % self.k, "wrong", tls.V13 if self.ver == 13 else tls.V12).conn() \
                if rng.random() < .5 else srv.client_ctx("nobody", "key%d" % self.k, tls.V13 if self.ver == 13 else tls.V12).conn()
            c.t.handshake()
            c.flush()
        elif a == "hpart":
            c.t.handshake()
            x = c.t.out()
            k = rng.randrange(1, len(x))
            c.send_raw(x[:k])
            self.rest = x[k:]
        elif a == "hrest":
            c.send_raw(self.rest)
        elif a in ("finish", "badfinish"):
            c.t.handshake()
            c.flush()
            self.fin = a == "finish"
        elif a == "moin":
            c.send_raw(c.record(b"MOIN 1 s%d\n" % self.k))
        elif a == "noop":
            c.send_raw(c.record(b"NOOP\r\n"))
        elif a == "lpart":
            self.cut(b"MOIN 1 s%d\r\n" % self.k if self.st == "up" else b"NOOP\r\n", later)
        elif a in ("lrest", "rest"):
            k, x = self.rest
            c.send_raw(x if k == "raw" else c.record(x))
            if a == "rest":
                w.acked.append(self.data)
        elif a == "push":
            own = "own" if self.st != "up" and any(x in later for x in ("own", "half")) else "other"
            for x in later:
                if x in ("own", "other", "half"):
                    own = x
                    break
            self.data = self.body(self.k if own != "other" else (self.k + 1) % max(2, w.n))
            c.send_raw(c.record(b"PUSH %d\r\n" % len(self.data)))
        elif a in ("own", "other"):
            c.send_raw(c.record(self.data))
            if a == "own":
                w.acked.append(self.data)
        elif a == "half":
            self.cut(self.data, later)
        elif a == "ping":
            c.send_raw(c.record(b"PING 1\r\n"))
        elif a == "quit":
            c.send_raw(c.record(b"QUIT\r\n"))
        elif a == "jam":
            n = 4000 + rng.randrange(2000)
            x = b"".join(c.record(b"NOOP\r\n" * k) for k in [1000] * (n // 1000) + [n % 1000])
            try:
                k = 0
                end = time.time() + 30
                while k < len(x) and time.time() < end:
                    try:
                        k += c.s.send(x[k:])
                    except BlockingIOError:
                        w.s.settle()
                w.s.settle()
                have = -1
                while have != c.unread():       # the kernels may still be busy with it
                    have = c.unread()
                    time.sleep(.02)
                    w.s.settle()
            except OSError:
                pass
            self.jam = n
        elif a == "unjam":
            self.jam, self.jammed = 0, self.jam
        elif a == "bail":
            c.send_raw(c.record(b"BAIL cannot go on\r\n"))
        elif a == "cn":
            c.close_notify()
        elif a == "garbage":
            if self.st in ("tcp", "hs"):
                c.send_raw(rng.choice([b"GET / HTTP/1.0\r\n\r\n", b"\x16\x03\x01\x00\x05\x00\x00\x00\x00\x00" * 3, b"\x17\x03\x03\x00\x20" + b"\xee" * 32,
                                       b"\x80\x2e\x01\x00\x02" + b"\0" * 60, b"\xff" * 40]))
            else:       # also completes a record which has been begun
                c.send_raw(rng.choice([b"\x17\x03\x03\x00\x30" + b"\xee" * 48, b"\xff" * 64, b"GET / HTTP/1.0\r\n\r\n"]) + b"\xfe" * 20000)
        elif a == "alert":
            c.send_raw(rng.choice([b"\x15\x03\x03\x00\x02\x01\x00", b"\x15\x03\x03\x00\x02\x02\x28", b"\x15\x03\x01\x00\x02\x01\x00"]))
        elif a == "fin":
            c.fin()
            self.jam, self.jammed = 0, self.jam
        elif a == "rst":
            c.reset()
            c.closed = "reset"
            self.eof = True
            self.jam = 0
        else:
            raise AssertionError(a)


class World:
    def __init__(self, n, timeout):
        self.n = n
        self.s = Server(conf(auth(max(n, 2)), timeout="%d" % timeout), reader=True, env={"SHIM_SNDBUF": "4096"})
        self.f = self.s.reader
        self.t = timeout
        x = Client(self.s, "u0", "key0")
        x.handshake()
        x.send(b"MOIN 1 warm\r\n")
        x.reset()
        self.s.settle()
        self.base = self.s.nfds()

    def close(self):
        self.s.close()
        self.f.close()

    def run(self, path, seed, eager=False):
        """path: list of [act, obs, next phases]; act <<"tick">>, <<"connect", c, v>>, <<a, c>>"""
        self.rng = random.Random(seed)
        self.acked = []
        s = self.s
        ps = {k: Peer(self, k - 1) for k in range(1, self.n + 1)}
        self.f.read()
        hist = []
        try:
            for i, (act, obs, nxt) in enumerate(path):
                act = list(act)
                hist.append(act)
                if act[0] == "tick":
                    if self.t == 0:
                        s.adv(self.rng.choice([100, 5000, 10 ** 6]))
                    else:
                        s.adv(TICK - .16)
                        for k, p in ps.items():
                            g, o = p.observe()
                            if g or o:
                                return "step %d: client %d got %r %s before the timeout; history %s" % (i, k, g[:200], o, hist)
                        s.adv(.16)
                    for k, p in ps.items():
                        if "SOME" in obs[k - 1]:
                            p.jam, p.jammed = 0, p.jam
                elif act[0] == "connect":
                    p = ps[act[1]]
                    if p.c is not None:
                        p.c.close()
                    p.start(act[2])
                    s.settle()
                else:
                    p = ps[act[1]]
                    later = []
                    for a2, _, _ in path[i + 1:]:
                        if a2[0] == "connect" and a2[1] == act[1]:
                            break
                        if a2[0] != "tick" and a2[1] == act[1]:
                            later.append(a2[0])
                    p.act(act[0], later)
                    s.settle()
                m = self.compare(ps, obs)
                if m:
                    return "step %d (%s): %s; history %s" % (i, act, m, hist)
                held = 0
                for k, p in ps.items():
                    p.st = nxt[k - 1]
                    held += p.st not in ("new", "gone")
                n = self.count(self.base + held)
                if n != self.base + held:
                    return "step %d (%s): server has %d descriptors for %d connections, %d without any; history %s" % (
                        i, act, n, held, self.base, hist)
            want = b"".join(self.acked)
            got = self.f.read()
            end = time.time() + .5
            while len(got) < len(want) and time.time() < end:
                s.settle()
                got += self.f.read()
            if got != want:
                e = session.expand(s, got)
                if e != want:
                    return "forwarded %r, acknowledged %r; history %s" % (got[-300:], want[-300:], hist)
            for p in ps.values():
                if p.c is not None:
                    p.c.reset()
                    p.c = None
            s.settle()
            if self.count(self.base) != self.base:
                return "%d descriptors left after all clients went away; history %s" % (s.nfds() - self.base, hist)
        finally:
            for p in ps.values():
                if p.c is not None:
                    p.c.reset()
            if s.alive:
                try:
                    s.settle()
                except (Died, Stuck):
                    pass
        return None

    def count(self, want):
        n = self.s.nfds()
        end = time.time() + .5
        while n != want and time.time() < end:
            time.sleep(.002)
            self.s.settle()
            n = self.s.nfds()
        return n

    def compare(self, ps, obs):
        exp = {k: list(obs[k - 1]) for k in ps}
        got = {k: [b"", []] for k in ps}
        jam = any(x in ("REST", "SOME") for o in exp.values() for x in o)
        end = time.time() + (10 if jam else .5)
        more = 0

        def right(k):
            lines = [x for x in exp[k] if x not in ("CN", "EOF", "REST", "SOME")]
            g = got[k][0]
            if "REST" in exp[k]:
                n = 6 * ps[k].jammed
                if g[:n] != b"OKAY\r\n" * ps[k].jammed:
                    return False
                g = g[n:]
            elif "SOME" in exp[k]:      # the end of the connection comes before they are all there
                return (b"OKAY\r\n" * ps[k].jammed + b"BAIL ").startswith(g[:6 * ps[k].jammed + 5]) and "EOF" in got[k][1]
            return replies_match(lines, g) and got[k][1] == [x for x in exp[k] if x in ("CN", "EOF")]
        while True:
            for k, p in ps.items():
                g, o = p.observe()
                got[k][0] += g
                got[k][1] += o
            if all(right(k) for k in ps):
                return None
            if time.time() > end:
                break
            time.sleep(.002)
            self.s.settle()
        return "; ".join("client %d expected %s got %r %s" % (k, exp[k], got[k][0][-200:], got[k][1]) for k in ps if not right(k))


def drive(part):
    """part: list of [n, timeout, path, seed] or ["special", name, seed]"""
    res = []
    w = None
    cur = None
    try:
        for sc in part:
            try:
                if sc[0] == "special":
                    m = SPECIAL[sc[1]](random.Random(sc[2]))
                    res.append(m)
                    continue
                n, timeout, path, seed = sc
                if w is None or cur != (n, timeout):
                    if w:
                        w.close()
                    w = None
                    w = World(n, timeout)
                    cur = (n, timeout)
                m = w.run(path, seed)
                m = m or crashed(w.s)
            except (Died, Stuck) as e:
                m = "%s: %s %s" % (type(e).__name__, e, (crashed(w.s) or "") if w else "")
            res.append(m)
            if m and w:
                w.close()
                w = None
    finally:
        if w:
            w.close()
    return res


def phases(view):
    return [x[0] for x in view]


def edge_tours(lts, rng, length, want=None, limit=None):
    """[act, obs, next phases] sequences which together take every edge"""
    g = tlc.LTS.__new__(tlc.LTS)
    g.states, g.init, g.ids, g.nedges = lts.states, lts.init, lts.ids, lts.nedges
    g.out = {s: [((json_key(a), t), t) for a, t in es] for s, es in lts.out.items()}
    for p in tours(g, rng, length, want and (lambda a, s, t: want(LABEL[a[0]][0], s, t)), limit):
        yield [[LABEL[a][0], LABEL[a][1], phases(lts.states[t])] for a, t in p]


LABEL = {}


def json_key(a):
    import json
    k = json.dumps(a)
    LABEL[k] = a
    return k


def product(one, rng, n, steps, weight=None):
    """a behaviour of n clients, composed from the behaviours of one"""
    st = [one.init[0]] * n
    path = []
    kind = lambda e: e[0][0][0]
    for _ in range(steps):
        ticks = rng.random() < .08
        if ticks:
            obs = [[] for _ in range(n)]
            any_ = False
            for k in range(n):
                es = [e for e in one.succ(st[k]) if kind(e) == "tick"]
                if es:
                    any_ = True
                    obs[k] = es[0][0][1][0]
                    st[k] = es[0][1]
            if any_:
                path.append([["tick"], obs, [one.states[x][0][0] for x in st]])
            continue
        k = rng.randrange(n)
        es = [e for e in one.succ(st[k]) if kind(e) != "tick"]
        if not es:
            continue
        (act, o), t = rng.choices(es, [weight(kind(e)) for e in es])[0] if weight else rng.choice(es)
        st[k] = t
        obs = [[] for _ in range(n)]
        obs[k] = o[0]
        path.append([[act[0], k + 1] + list(act[2:]), obs, [one.states[x][0][0] for x in st]])
    return path


def graph_of(c, n, t, aborts, what=None):
    cfg = "SPECIFICATION Spec\nVIEW View\n%sACTION_CONSTRAINT EmitEdge\nCHECK_DEADLOCK FALSE\nCONSTANTS\n" % INV + \
        " Clients = %s\n T = %d\n Vers = {12, 13}\n Aborts = %s\n Emit = TRUE\n" % (
            tlc.tla(set(range(1, n + 1))), t, tlc.tla(set(aborts)) if aborts else "{}")
    r = c.model(tlc.run("Conns", cfg, workers=1), what or "Conns, %d clients, timeout %d ticks" % (n, t))
    return tlc.LTS([[["new", 12, 0]] * n], [[f, [a, o], t2] for f, a, o, t2 in r.tagged("e")])


def special_flood(rng):
    """a client which sends requests and never reads does not hold up others"""
    w = World(3, 15)
    try:
        s = w.s
        a, b = Client(s, "u0", "key0", ver=tls.V12), Client(s, "u1", "key1", ver=rng.choice([tls.V12, tls.V13]))
        if not a.handshake() or not b.handshake():
            return "no handshake"
        replies_match(["MOIN 1"], a.send(b"MOIN 1 a\r\n"))
        n = 0
        data = b"".join(a.record(b"NOOP\r\n" * 2000) for _ in range(12))
        a.s.setblocking(False)
        sent = 0
        for _ in range(4000):
            try:
                sent += a.s.send(data[sent:sent + 4096])
            except BlockingIOError:
                s.settle()
                try:
                    sent += a.s.send(data[sent:sent + 4096])
                except BlockingIOError:
                    break
            if sent >= len(data):
                break
            s.settle()
        got = get_replies(b, ["MOIN 1"], first=b.send(b"MOIN 1 b\r\n"))
        if not replies_match(["MOIN 1"], got):
            return "client next to one which does not read got %r" % got
        d = b"[1] C1;x\n"
        got = get_replies(b, ["OKAY"], first=b.send(b"PUSH %d\r\n" % len(d)))
        got2 = get_replies(b, ["OKAY"], first=b.send(d))
        if got != b"OKAY\r\n" or got2 != b"OKAY\r\n":
            return "client next to one which does not read got %r %r" % (got, got2)
        out = b""
        end = time.time() + 20
        while time.time() < end and out.count(b"\n") < 24000 and not a.closed:
            out += a.pump()
            if sent < len(data):
                try:
                    sent += a.s.send(data[sent:sent + 65536])
                except BlockingIOError:
                    pass
            s.settle()
        if out != b"OKAY\r\n" * 24000:
            return "client which read late got %d of 24000 replies, first %r" % (out.count(b"\n"), out[:60])
        return crashed(s)
    finally:
        w.close()


def special_burst(rng):
    """many clients at once, some of which are gone when they are accepted"""
    n = rng.choice([5, 30, NCLIENTS])
    w = World(n, 15)
    try:
        s = w.s
        before = s.nfds()
        os.kill(s.ctlpid, signal.SIGSTOP)
        try:
            cs = [Client(s, "u%d" % k, "key%d" % k) for k in range(n)]
            gone = [k for k in range(n) if rng.random() < .3]
            for k in gone:
                rng.choice([cs[k].reset, cs[k].close])()
        finally:
            os.kill(s.ctlpid, signal.SIGCONT)
        s.settle()
        live = [k for k in range(n) if k not in gone]
        if w.count(before + len(live)) != before + len(live):
            return "%d descriptors for %d connections after %d clients vanished before they were accepted" % (
                s.nfds() - before, len(live), len(gone))
        exp = []
        for k in live:
            if not cs[k].handshake():
                return "handshake of client %d of %d fails (%d vanished before they were accepted)" % (k, n, len(gone))
        rng.shuffle(live)
        ds = {}
        for k in live:
            cs[k].send_raw(cs[k].record(b"MOIN 1 c%d\r\n" % k))
        for k in live:
            ds[k] = b"[1] C%d;%d\n" % (k, k)
            cs[k].send_raw(cs[k].record(b"PUSH %d\r\n" % len(ds[k])))
        s.settle()
        for k in live:
            cs[k].send(ds[k])
            exp.append(ds[k])
        s.settle()
        for k in live:
            g = get_replies(cs[k], ["MOIN 1", "OKAY", "OKAY"], first=b"") if cs[k].plain.count(b"\n") < 3 else b""
            if cs[k].plain != b"MOIN 1\r\nOKAY\r\nOKAY\r\n":
                return "client %d of %d got %r" % (k, n, cs[k].plain)
        got = w.f.read()
        if sorted(got.splitlines(True)) != sorted(exp):
            return "forwarded %r instead of %r" % (got[:300], exp[:10])
        for k in live:
            cs[k].reset()
        s.settle()
        if w.count(before) != before:
            return "%d descriptors left" % (s.nfds() - before)
        return crashed(s)
    finally:
        w.close()


def special_late(rng):
    """pieces of a record, a line or data arriving one by one keep a connection
    open for as long as they come; silence afterwards closes it"""
    w = World(2, 15)
    try:
        s = w.s
        a = Client(s, "u0", "key0", ver=rng.choice([tls.V12, tls.V13]))
        where = rng.choice(["hello", "line", "data"])
        if where != "hello":
            if not a.handshake():
                return "no handshake"
            a.send(b"MOIN 1 a\r\n")
        if where == "data":
            a.send(b"PUSH 40\r\n")
            x = a.record(b"[1] C0;" + b"y" * 32 + b"\n")
        elif where == "line":
            x = a.record(b"NOOP" + b" " * 0 + b"\r\n")
        else:
            a.t.handshake()
            x = a.t.out()
        a.plain = b""
        k = 0
        steps = rng.randrange(3, 12)
        for i in range(steps):
            s.adv(rng.choice([14.4, 14.5, 10, 7, .5]))
            a.pump()
            if a.closed or a.t.eof or b"BAIL" in a.plain:
                return "%s: closed %r %r although bytes kept arriving" % (where, a.closed, a.plain)
            j = k + max(1, (len(x) - 2 - k) // (steps - i + 1))
            j = min(j, len(x) - 1)
            if j <= k:
                break
            a.send_raw(x[k:j])
            s.settle()
            k = j
        else:
            s.adv(14.5)
            a.pump()
            if a.closed or a.t.eof or b"BAIL" in a.plain:
                return "%s: closed %r %r within the timeout" % (where, a.closed, a.plain)
            if rng.random() < .5:
                s.adv(1)
                a.pump()
                if where == "hello":
                    if not a.wait_closed():
                        return "not closed after the timeout in the handshake"
                    end = 0
                else:
                    end = time.time() + .5
                while time.time() < end and not a.t.eof:
                    s.settle()
                    a.pump()
                    time.sleep(.001)
                if where != "hello" and not (a.t.eof and split_replies(a.plain) and reply_is("BAIL", split_replies(a.plain)[-1])):
                    return "%s: after the timeout got %r, close notification %s" % (where, a.plain, a.t.eof)
                if w.f.read():
                    return "data of a timed-out submission was forwarded"
            elif where != "hello":
                a.send_raw(x[k:])
                s.settle()
                get_replies(a, ["OKAY"])
                if a.plain.count(b"OKAY") < 1:
                    return "%s: completed, got %r" % (where, a.plain)
        return crashed(s)
    finally:
        w.close()


SPECIAL = {"flood": special_flood, "burst": special_burst, "late": special_late}


def held(p):
    return p not in ("new", "gone")


def p13(c):
    two, one = tlc.parallel(lambda: graph_of(c, 2, 0, ALL), lambda: graph_of(c, 1, 3, ALL))
    if not c.quick:
        c.model(tlc.run("Conns", "SPECIFICATION Spec\nVIEW View\n%sCHECK_DEADLOCK FALSE\nCONSTANTS\n Clients = {1, 2, 3}\n T = 3\n Vers = {12, 13}\n"
                        " Aborts = %s\n Emit = FALSE\n" % (INV, tlc.tla(set(ALL))), workers=8), "Conns, 3 clients")
    c.count("model_edges", two.nedges)
    sc = [[2, 0, p, c.rng.randrange(1 << 30)] for p in edge_tours(two, c.rng, 60)]
    calm = lambda a: .15 if a in ALL and a != "moin" else 1
    for n, k in ((3, 200), (6, 100), (12, 30), (NCLIENTS, 6)):
        for _ in range(k if c.quick else k * 12):
            sc.append([n, 15, product(one, c.rng, n, 60 + 12 * n, c.rng.choice([calm, None])), c.rng.randrange(1 << 30)])
    sc += [["special", x, c.rng.randrange(1 << 30)] for x in ("flood", "burst") for _ in range(3 if c.quick else 25)]
    finish(c, sc, 70 if c.quick else 800)


def p14(c):
    if c.quick:
        two, one = tlc.parallel(lambda: graph_of(c, 2, 3, ALL), lambda: graph_of(c, 1, 3, ALL))
        zero = graph_of(c, 1, 0, [])
    else:
        two, one, zero = tlc.parallel(lambda: graph_of(c, 2, 3, ALL), lambda: graph_of(c, 1, 3, ALL), lambda: graph_of(c, 1, 0, ALL))
    c.count("model_edges", two.nedges)

    sc = [[1, 15, p, c.rng.randrange(1 << 30)] for p in edge_tours(one, c.rng, 40)]
    sc += [[1, 0, p, c.rng.randrange(1 << 30)] for p in edge_tours(zero, c.rng, 40)]
    sc += [["special", "late", c.rng.randrange(1 << 30)] for _ in range(60 if c.quick else 600)]
    sc += [[2, 15, p, c.rng.randrange(1 << 30)] for p in edge_tours(two, c.rng, 60, (lambda a, s, t: (a[0] == "tick" or a[0] not in ALL) and not any(
        x in ("jam", "jclose") for x in phases(s))) if c.quick else None)]
    for n, k in ((3, 100), (8, 50)):
        for _ in range(k if c.quick else k * 10):
            sc.append([n, 15, product(one, c.rng, n, 100, None), c.rng.randrange(1 << 30)])
    c.assumptions.append("Time is virtual: the server's clock and its waiting are the controller's (shim).")
    finish(c, sc, 80 if c.quick else 800)


def p15(c):
    two, one = tlc.parallel(lambda: graph_of(c, 2, 0, ALL), lambda: graph_of(c, 1, 3, ALL))
    bad = [a for a in ALL if a != "moin"]
    sc = []
    for r in range(6 if c.quick else 60):       # every way of vanishing at every point, cut at different bytes
        sc += [[1, 15, p, c.rng.randrange(1 << 30)] for p in edge_tours(one, c.rng, 30, lambda a, s, t: a[0] in bad)]
    sc += [[2, 0, p, c.rng.randrange(1 << 30)] for p in edge_tours(two, c.rng, 50, lambda a, s, t: a[0] in bad)]
    for n, k in ((3, 30), (8, 10)):
        for _ in range(k if c.quick else k * 10):
            sc.append([n, 15, product(one, c.rng, n, 100, lambda a: 1 if a in bad else .6), c.rng.randrange(1 << 30)])
    sc += [["special", "burst", c.rng.randrange(1 << 30)] for _ in range(8 if c.quick else 60)]
    finish(c, sc, 70 if c.quick else 800)


def finish(c, sc, budget):
    c.rng.shuffle(sc)
    sp = [x for x in sc if x[0] == "special"]
    rest = sorted([x for x in sc if x[0] != "special"], key=lambda x: 0)
    rest.sort(key=lambda x: (x[0], x[1]))
    c.count("schedules", len(sc))
    c.count("steps", sum(len(x[2]) for x in rest))
    for x in rest[::max(1, len(rest) // 4)][:4]:
        c.sample({"clients": x[0], "timeout": x[1], "steps": [y[0] for y in x[2][:25]]})
    # chunks of one kind of server each, in random order
    groups = {}
    for x in rest:
        groups.setdefault((x[0], x[1]), []).append(x)
    chunks = [g[i:i + 12] for g in groups.values() for i in range(0, len(g), 12)] + [[x] for x in sp]
    c.rng.shuffle(chunks)
    c.assumptions.append("A client's step is observed when the server is idle again (shim).")
    t = c.traces
    c.replay(drive_chunk, chunks, chunk=1, budget=budget)
    c.traces = t + sum(len(ch) for ch in chunks[:c.traces - t])


def drive_chunk(part):
    """scenarios which share a server; the first mismatch of each chunk"""
    out = []
    for ch in part:
        r = drive(ch)
        out.append(next((x for x in r if x), None))
    return out


CHECKS = {"P13": p13, "P14": p14, "P15": p15}

"""C01, C03, C06: send_nsca's session with an arbitrary server (spec/Client.tla)."""
import re
from common import *
from fake import Listener, Peer, SendNsca, server_ctx
from lifecycle import paths

INV = "INVARIANT Success Complete LockStep ExitState\nPROPERTY Silent Patience Forever\n"
BIG = 300000
ID = re.compile(rb"^MOIN 1 ([!-~]{2,64})\r\n$")
SEEN = set()


class Bad(Exception):
    pass


def words(rng, n):
    return "".join(rng.choice("abcdefghij klmnop,.;:'") for _ in range(n)).strip() or "x"


class World:
    def __init__(self, init, T, path, seed, T0=None):
        self.rng = rng = random.Random(seed)
        self.st = init
        self.path = path
        self.dark = init[0] == "dark"
        self.ver = tls.V12 if init[1] == 2 else tls.V13
        big = any(a[0] == "record" and a[1] == "big" for a, o, v in path)
        self.l = Listener(backlog=0 if self.dark else 8, rcvbuf=4096 if big else None)
        if self.dark:
            self.l.dark()
        self.timeout = rng.choice([3, 6, 15, 30]) if T else 0
        self.tick = self.timeout / T if T else rng.choice([20, 300, 40000])
        self.T = T
        args = []
        cf = 'identity = "me"\npassword = "secret"\n'
        if self.timeout != 15 or rng.random() < .5:
            if rng.random() < .5:
                args += ["-o", str(self.timeout)]
            else:
                cf += "timeout = %d\n" % self.timeout
        self.s = SendNsca(cf, args, host=self.l.host, port=self.l.port, env={"SHIM_SNDBUF": "4096"} if big else None)
        self.c = None
        self.buf = b""
        self.part = None        # rest of a reply which has been sent in part
        self.hspart = None
        self.nin = 0
        self.expect = []        # records in the order of the input
        self.size = None
        self.ids = []

    # -- messages of the client
    def messages(self):
        """complete messages received so far, as the model names them"""
        r = []
        while self.buf:
            if self.buf.startswith(b"["):
                if self.size is None:
                    raise Bad("data without a PUSH: %r" % self.buf[:100])
                if len(self.buf) < self.size:
                    break
                d, self.buf = self.buf[:self.size], self.buf[self.size:]
                self.size = None
                self.data(d)
                r.append("DATA")
                continue
            i = self.buf.find(b"\n") + 1
            if not i:
                break
            l, self.buf = self.buf[:i], self.buf[i:]
            if not l.endswith(b"\r\n") or len(l) > 1024:
                raise Bad("not a request line: %r" % l[:200])
            if l.startswith(b"MOIN "):
                m = ID.match(l)
                if not m:
                    raise Bad("greeting %r" % l)
                if m[1] in SEEN:
                    raise Bad("identifier %r used before" % m[1])
                SEEN.add(m[1])
                r.append("MOIN")
            elif re.match(rb"^PUSH [1-9][0-9]*\r\n$", l):
                self.size = int(l[5:-2])
                r.append("PUSH")
            elif l == b"QUIT\r\n":
                r.append("QUIT")
            elif l.startswith(b"BAIL ") and len(l) > 7:
                r.append("BAIL")
            else:
                raise Bad("not a request: %r" % l[:200])
        return r

    def data(self, d):
        if not self.expect:
            raise Bad("more submissions than records")
        e = self.expect.pop(0)
        m = re.match(rb"^\[(\d+)\] (.*)\n$", d, re.S)
        if not m or m[2] != e:
            raise Bad("submission %r for %r" % (d[:200], e[:200]))

    def collect(self, exp, ex, gray=False):
        """the messages exp and the state ex must result"""
        got = []
        end = time.time() + 10
        extra = 2
        while True:
            if self.s.alive:
                try:
                    self.s.settle()
                except Died:
                    pass
            if self.c:
                self.buf += self.c.pump()
                got += self.messages()
                if self.c.t.eof and "CLOSE" not in got and not self.closed:
                    got.append("CLOSE")
            if got[:len(exp)] != exp[:len(got)] or len(got) > len(exp):
                break
            if got == exp:
                if extra == 0 or not self.s.alive:
                    break
                extra -= 1
                continue
            if time.time() > end or not self.s.alive and (self.st[9] != "up" or ex != "run" and "CLOSE" not in exp):
                break
            time.sleep(0.001)
        if "CLOSE" in got:
            self.closed = True
        abrupt = self.st[9] != "up" or ex != "run" and "CLOSE" not in exp
        if got != exp and not (abrupt and got == exp[:len(got)]):
            raise Bad("sends %s instead of %s (%r)" % (got, exp, self.buf[:100]))
        if self.buf and ex == "run":
            raise Bad("unfinished message %r" % self.buf[:100])
        if ex == "run":
            if not self.s.alive:
                raise Bad("exits %s : %s" % (self.s.gone(), self.s.stderr()[-300:]))
            return
        st = self.s.gone(0.3 if gray else 10)
        if st is None and gray:     # what happens to unread replies is not specified; it ends with the connection at last
            self.c.close_notify()
            self.c.fin()
            st = self.s.gone()
        if st is None:
            raise Bad("still there")
        if self.s.asan():
            raise Bad(self.s.asan()[:1500])
        if st not in (0, 1) or (ex == "0") != (st == 0) and ex != "any":
            raise Bad("exit status %s instead of %s : %s" % (st, ex, self.s.stderr()[-300:]))
        if st and not self.s.stderr().strip():
            raise Bad("fails without a message")

    # -- actions
    def connected(self):
        if self.c is None:
            sock = self.l.accept()
            if sock is None:
                raise Bad("does not connect")
            self.c = Peer(self.s, sock, server_ctx(self.key, self.ver))
            self.c.take()

    def flight(self):
        if self.hspart is None:
            self.s.settle()
            if not self.c.t.finished and self.started:
                self.c.take(0.5)
            self.started = True
            o = self.c.flight()
            if o is None:
                raise Bad("handshake fails: %s" % self.c.t.err)
        else:
            o, self.hspart = self.hspart, None
        return o

    def finish_hs(self):
        """the client's last flight"""
        end = time.time() + 5
        while not self.c.t.finished and time.time() < end:
            self.c.take(0.05)
            if self.c.t.handshake() == "err":
                raise Bad("handshake: %s" % self.c.t.err)
        o = self.c.t.out()
        if o:
            self.c.send_raw(o)

    def line(self, r):
        rng = self.rng
        st = self.cur
        if r == "ok":
            l = rng.choice(["MOIN 1", "MOIN 1", "moin 1", "Moin 1"] if st == "moin" else ["OKAY", "OKAY", "okay", "Okay"])
        elif r in ("fail", "bail"):
            l = rng.choice([r.upper() + " " + words(rng, rng.choice([1, 20, 200, 900])), r.upper(), r + " x", r.upper() + " %s%n%d %"])
            if rng.random() < .1:
                l = r.upper() + " " + "y" * (1022 - 5)
        elif r == "unexp":
            l = rng.choice(["", "OKAYISH", "OK", "PONG 1", "200 OK", "QUIT", "PUSH 3", "A", "\\", "F", "FAI", "BAI"] +
                           (["OKAY", "NOIM 1", "MO", "1"] if st == "moin" else ["MOIN 1", "MOIN", "O", "KO"]))
        elif r == "version":
            l = rng.choice(["MOIN 2", "MOIN 10", "MOIN 11", "moin 3", "MOIN 999"])
        elif r == "badmoin":
            l = rng.choice(["MOIN", "MOIN x", "MOIN 0", "MOIN -1", "MOIN 1 2", "MOIN 1 Zm9v", "MOIN ", "MOIN v1"])
        else:
            l = "OKAY " + "z" * rng.choice([2100, 4000, 70000]) if rng.random() < .5 else "x" * rng.choice([2100, 20000])
        return (l + rng.choice(["\r\n", "\r\n", "\n"])).encode()

    def step(self, i):
        rng = self.rng
        a, o, v = self.path[i]
        self.cur = self.st[0]
        if self.cur != "dark" and self.c is None and self.st[9] != "rst":
            self.connected()
        if a[0] == "flight":
            o2 = self.flight()
            if o2:
                self.c.send_raw(o2)
            self.s.settle()
            if v[0] != "hs":
                self.finish_hs()
        elif a[0] == "hspart":
            x = self.flight()
            k = rng.randrange(1, len(x))
            self.c.send_raw(x[:k])
            self.hspart = x[k:]
        elif a[0] == "hsfail":
            if a[1] == "alert":
                self.c.send_raw(b"\x15\x03\x03\x00\x02\x02" + bytes([rng.choice([40, 47, 70, 71, 80, 115])]))
            elif a[1] == "garbage":
                self.c.send_raw(rng.choice([b"HTTP/1.1 400 Bad Request\r\n\r\n", b"MOIN 1\r\n", b"\0" * 20000, b"SSH-2.0-OpenSSH\r\n",
                                            bytes(rng.randrange(256) for _ in range(4)) * 6000]))
            else:
                for _ in range(6):
                    r = self.c.t.handshake()
                    x = self.c.t.out()
                    if x:
                        self.c.send_raw(x)
                    try:
                        self.s.settle()
                    except Died:
                        break
                    self.c.take(0.2)
                if self.c.t.finished and self.s.alive:
                    raise Bad("handshake succeeds with a wrong key")
        elif a[0] in ("reply", "twice"):
            if self.part is not None:
                x, self.part = self.part, None
                self.c.send_raw(x)
            else:
                l = self.line("ok" if a[0] == "twice" else a[1])
                if a[0] == "twice":
                    self.cur = "data"
                    l += self.line(a[1])
                if len(l) > 1 and rng.random() < .15:
                    k = rng.randrange(1, len(l))
                    self.c.send_raw(self.c.record(l[:k]) + self.c.record(l[k:]))
                else:
                    self.c.send_raw(self.c.record(l))
        elif a[0] == "part":
            nxt = next((b for b, _, _ in self.path[i + 1:] if b[0] in ("reply", "twice")), ["reply", "ok"])
            l = self.line(nxt[1])
            later = [b[0] for b, _, _ in self.path[i + 1:] if b[0] in ("reply", "twice", "close")]
            if (rng.random() < .3 or len(l) < 3) and later and later[0] != "close":
                x = self.c.record(l)
                k = rng.randrange(1, min(len(x), 1000))
                self.c.send_raw(x[:k])
                self.part = x[k:]
            else:
                k = rng.randrange(1, min(len(l), 1000)) if len(l) > 1 else 1
                x = self.c.record(l[:k])
                self.c.send_raw(x)
                self.part = self.c.record(l[k:]) if l[k:] else b""
        elif a[0] == "drain":
            # half of what is left, or all of it
            want = BIG // 2 if v[10] else None
            end = time.time() + 20
            while time.time() < end:
                self.s.settle()
                self.buf += self.c.pump()
                if len(self.buf) >= (want or self.size):
                    break
            else:
                raise Bad("submission stalls after %d bytes" % len(self.buf))
        elif a[0] == "close":
            if a[1] == "cn":
                self.c.close_notify()
            elif a[1] == "fin":
                self.c.fin()
            elif a[1] == "rst":
                self.c.reset()
                self.c = None
            else:
                self.c.send_raw(bytes(rng.randrange(256) for _ in range(25)) * 1000)
        elif a[0] == "record":
            self.record(a[1])
        elif a[0] == "eof":
            self.s.eof()
        elif a[0] == "tick":
            ex = o["ex"]
            if ex != "run" and self.cur != "bye":
                self.s.adv(self.tick - 0.03)
                if self.cur != "dark" and self.s.gone(0.02) is not None:
                    raise Bad("gives up too early: %s" % self.s.stderr()[-200:])
                try:
                    self.s.adv(0.06)
                    for _ in range(3 if self.st[10] else 0):
                        # the kernels may have moved some more of the data in the meantime
                        if self.s.gone(0.3) is None:
                            self.s.adv(self.timeout)
                except Died:
                    pass
            else:
                try:
                    self.s.adv(self.tick + (0.06 if ex != "run" else 0))
                except Died:
                    if ex == "run":
                        raise Bad("gives up too early: %s" % self.s.stderr()[-200:])
        else:
            raise Exception("action %s" % a)
        if v[10] and a[0] != "drain" and o["ex"] == "run" and not o["out"]:
            try:
                self.s.settle()
            except Died:
                raise Bad("exits %s : %s" % (self.s.gone(), self.s.stderr()[-300:]))
        elif a[0] == "drain" and v[10]:
            pass
        else:
            self.collect(o["out"], o["ex"], o["ex"] != "run" and (v[3] or v[4]))
        self.st = v

    def record(self, kind):
        rng = self.rng
        k = self.nin
        self.nin += 1
        h = "h%d%s" % (k, words(rng, 3).replace(";", ""))
        if kind == "bad":
            t = rng.choice(["nonsense", "one\ttwo", "a;b;c;d"])
        elif rng.random() < .5:
            t = "%s\t%d\t" % (h, rng.randrange(4))
            e = "PROCESS_HOST_CHECK_RESULT;"
        else:
            t = "%s\tsvc\t%d\t" % (h, rng.randrange(4))
            e = "PROCESS_SERVICE_CHECK_RESULT;"
        if kind != "bad":
            e += t.replace("\t", ";")
            x = words(rng, 10) if kind == "rec" else "x" * (BIG - len(e) - 14)
            t, e = t + x, e + x
            self.expect.append(e.encode())
        self.s.put((t + rng.choice(["\n", ""]) + "\x17").encode())

    key = b"secret"
    started = False
    closed = False

    def run(self):
        if self.path and self.path[0][0][0] == "hsfail" and self.path[0][0][1] == "wrongkey" or \
                any(a[0] == "hsfail" and a[1] == "wrongkey" for a, o, v in self.path):
            self.key = self.rng.choice([b"Secret", b"secre", b"secret1", b"x"])
        if not self.s.wait_hello():
            raise Bad("exits %s at once: %s" % (self.s.gone(), self.s.stderr()[-300:]))
        for i in range(len(self.path)):
            try:
                self.step(i)
            except Died:
                raise Bad("exits %s : %s" % (self.s.gone(), self.s.stderr()[-300:]))
            if self.s.alive and self.s.asan():
                raise Bad(self.s.asan()[:1500])

    def close(self):
        if self.c:
            self.c.close()
        self.l.close()
        self.s.close()


def drive(scenarios):
    res = []
    for init, T, p, seed in scenarios:
        w = World(init, T, p, seed)
        try:
            w.run()
            res.append(None)
        except Bad as e:
            res.append({"what": str(e), "at": [a for a, o, v in p], "timeout": w.timeout})
        finally:
            w.close()
    return res


def graph(c, what, T, flights, n, recs, early, dark):
    cfg = "SPECIFICATION Spec\nVIEW View\n%sINVARIANT EmitInit\nACTION_CONSTRAINT EmitEdge\nCHECK_DEADLOCK FALSE\nCONSTANTS\n T = %d\n Flights = %s\n MaxRec = %d\n Recs = %s\n Early = %s\n Dark = %s\n Emit = TRUE\n" % (
        INV, T, tlc.tla(set(flights)), n, tlc.tla(set(recs)), tlc.tla(early), tlc.tla(dark))
    r = c.model(tlc.run("Client", cfg, workers=1), "Client, " + what)
    return T, tlc.LTS(r.tagged("i"), [[f, [a, o], t] for f, a, o, t in r.tagged("e")])


def full(c, T, n, recs):
    """no view: what the invariants speak about is part of the state"""
    cfg = "SPECIFICATION Spec\n%sCHECK_DEADLOCK FALSE\nCONSTANTS\n T = %d\n Flights = {1}\n MaxRec = %d\n Recs = %s\n Early = TRUE\n Dark = TRUE\n Emit = FALSE\n" % (
        INV, T, n, tlc.tla(set(recs)))
    c.model(tlc.run("Client", cfg, workers=4), "Client, all %d records" % n)


def refused(c):
    """no server at all"""
    for k in range(3):
        l = Listener()
        host, port = l.host, l.port
        l.close()
        s = SendNsca('identity = "me"\npassword = "secret"\ntimeout = 5\n', host=host, port=port)
        try:
            s.put(b"h\t0\tok\n")
            s.eof()
            up = s.wait_hello()
            st = s.gone(20) if not up else "hangs"
            if st != 1 or not s.stderr().strip():
                c.violation("no server: exit status %s, %r" % (st, s.stderr()), ["connection refused"])
        finally:
            s.close()


def go(c, graphs, length, quota, budget):
    sc = []
    for (T, lts), n, want in zip(graphs, quota, [None] * len(graphs)):
        k = 0
        for init, p in paths(lts, c.rng, length, want, n):
            sc.append([init, T, p, c.rng.randrange(1 << 30)])
            k += 1
        c.count("model_edges", lts.nedges)
    c.rng.shuffle(sc)
    c.count("steps", sum(len(x[2]) for x in sc))
    for x in sc[:3]:
        c.sample([y[0] for y in x[2]])
    c.assumptions += ["Time is virtual; TLS 1.2 and 1.3; the server's records reach the client in order.",
                      "An end of the server's connection while send_nsca waits for input is noticed with the next request."]
    c.replay(drive, sc, chunk=12, budget=budget)


def c01(c):
    build.client()
    n = 3 if c.quick else 4
    g = tlc.parallel(lambda: graph(c, "replies", 0, [1], 2, ["rec", "bad"], False, False),
                     lambda: graph(c, "unsolicited replies", 0, [1], 2, ["rec"], True, False),
                     lambda: graph(c, "timeouts", 3, [1, 2], 1, ["rec"], False, True),
                     lambda: graph(c, "more records", 0, [1], n, ["rec"], False, False),
                     lambda: full(c, 2, n, ["rec", "bad"]))[:4]
    refused(c)
    go(c, g, 16, [None, None, 300 if c.quick else None, None], 110 if c.quick else 850)


def c03(c):
    build.client()
    n = 2 if c.quick else 4
    g = tlc.parallel(lambda: graph(c, "replies", 0, [1, 2], 2, ["rec"], False, False),
                     lambda: graph(c, "unsolicited replies", 0, [1], n, ["rec"], True, False),
                     lambda: graph(c, "big records", 0, [1], 2, ["rec", "big"], False, False),
                     lambda: full(c, 0, n + 1, ["rec", "bad"]))[:3]
    go(c, g, 20, [None, None, 200 if c.quick else None], 110 if c.quick else 850)


def c06(c):
    build.client()
    n = 1 if c.quick else 2
    g = tlc.parallel(lambda: graph(c, "timeouts", 3, [1, 2], n, ["rec"], False, True),
                     lambda: graph(c, "no timeout", 0, [1, 2], 1, ["rec"], False, True),
                     lambda: graph(c, "big records", 3, [1], 1, ["big"], False, False),
                     lambda: full(c, 3, n + 1, ["rec"]))[:3]
    go(c, g, 14, [None, None, 150 if c.quick else None], 110 if c.quick else 850)


CHECKS = {"C01": c01, "C03": c03, "C06": c06}

"""M01: histories of calls on objects of the Perl and Python modules and an
arbitrary server (spec/Module.tla)."""
import json, re, socket
from common import *
from fake import Listener, Peer, server_ctx
from mod import Mod

INV = "INVARIANT Sound Honest Bounded\nPROPERTY Once Afresh Works Ends\n"


class Bad(Exception):
    pass


class Pipe(Peer):
    """a connection of the module"""

    def __init__(self, sock, ctx):
        super().__init__(None, sock, ctx)
        self.buf = b""
        self.stale = False      # dropped while idle: the module may notice only after it wrote something

    def hear(self):
        d = self.recv_raw()
        self.t.feed(d)
        if self.t.finished:
            self.buf += self.t.read()

    def say(self, data):
        self.send_raw(self.record(data))


def text(rng, n=10):
    return "".join(rng.choice("abcdefghij klmnop,.:'äß") for _ in range(n)).strip() or "x"


class Obj:
    """one object, its server and where in the model they are"""

    def __init__(self, w, i):
        self.w, self.i, self.rng = w, i, w.rng
        self.m, self.lts = w.m, w.lts
        self.st = self.lts.init[0]
        self.l = Listener()
        self.host, self.port = self.l.host, self.l.port
        self.key = b"key%d%d" % (i, self.rng.randrange(10 ** 6))
        self.ident = "me%d" % i
        self.conn = None
        self.old = []
        self.owed = None        # on which connection a late reply may come, and which one
        self.size = None
        self.k = 0
        self.ver = tls.V12 if self.rng.random() < .4 else tls.V13
        self.dark = False
        self.new()

    def state(self):
        return self.lts.states[self.st]

    def new(self):
        r = self.rng
        self.timeout = r.choice([2, 5, 10, 60])
        if self.w.lang == "perl":
            a = self.m.ask("new:%d" % self.i, self.host, self.ident, self.key, port=self.port, node_name="nn", svc_description="ss", timeout=self.timeout)
        else:
            a = self.m.ask("new:%d" % self.i, self.host, self.port, self.ident, self.key)
        if a != ("ok", b""):
            raise Bad("constructor: %s" % (a,))

    def options(self):
        return self.lts.succ(self.st)

    def go(self, a):
        t = [t for b, t in self.options() if b == a]
        assert len(t) == 1, (a, self.state())
        self.w.seen.add((self.st, json.dumps(a)))
        self.st = t[0]
        self.w.log.append([self.i] + a)

    # -- the caller
    def call(self):
        r = self.rng
        self.k += 1
        self.size = None
        self.t0 = self.m.now // 10 ** 9
        out = "out %d.%d %s" % (self.i, self.k, text(r, r.choice([1, 5, 50, 300])))
        rc = r.randrange(4)
        kind = r.choice(["host", "svc", "cmd"] if self.w.lang == "perl" else ["host", "svc"])
        if self.w.lang == "python":
            self.timeout = r.choice([2, 5, 10, 60])
        op = "%s:%d" % (kind, self.i)
        h, s = text(r, 4), text(r, 6)
        if kind == "cmd":
            self.expect = out
            self.m.tell(op, out)
        elif self.w.lang == "perl":
            kw = {}
            if r.random() < .5:
                kw["node_name"] = h
            else:
                h = "nn"
            if kind == "svc" and r.random() < .5:
                kw["svc_description"] = s
            else:
                s = "ss"
            self.m.tell(op, rc, out, **kw)
        else:
            kw = {"timeout": self.timeout} if self.timeout != 5 or r.random() < .5 else {}
            self.m.tell(op, *([h] if kind == "host" else [h, s]) + [rc, out], **kw)
        if kind == "host":
            self.expect = "PROCESS_HOST_CHECK_RESULT;%s;%d;%s" % (h, rc, out)
        elif kind == "svc":
            self.expect = "PROCESS_SERVICE_CHECK_RESULT;%s;%s;%d;%s" % (h, s, rc, out)

    # -- what the module does
    def event(self):
        """the next thing the module does, None if there is none yet"""
        for c in self.old:
            c.hear()
            if c.buf and not c.stale and not re.match(rb"(QUIT\r?\n?|BAIL.*)*$", c.buf):
                raise Bad("sends %r on a connection which it had given up" % c.buf[:100])
        if self.conn:
            self.conn.hear()
            m = self.message()
            if m:
                return m
        if not self.dark:
            s = self.l.waiting()
            if s:
                self.give_up()
                self.conn = Pipe(s, server_ctx(self.key, self.ver))
                self.size = None
                return "connect"
        r = self.m.result()
        if r is None:
            return None
        if r[0] == "ok":
            return "ok"
        if r[0] == "err" and r[1].strip():
            self.error = r[1]
            return "err"
        raise Bad("call results in %s %s" % (r, self.m.asan()[:1500]))

    def message(self):
        b = self.conn.buf
        if self.size is not None and not b.startswith(b"PUSH"):
            if len(b) < self.size or not b:
                return None
            d, self.conn.buf = b[:self.size], b[self.size:]
            self.size = None
            m = re.match(rb"^\[(\d+)\] (.*)\n$", d, re.S)
            if not m or m[2] != self.expect.encode() or not self.t0 <= int(m[1]) <= self.m.now / 1e9:
                raise Bad("submits %r instead of %r" % (d, self.expect))
            return "DATA"
        if b"\n" not in b:
            return None
        if self.state()[0] == "c_broken" and re.match(rb"(QUIT\r?\n?|BAIL.*)*$", b):
            self.conn.buf = b""
            return None
        l, self.conn.buf = b.split(b"\n", 1)
        l = l[:-1] if l.endswith(b"\r") else l
        if re.match(rb"^MOIN 1 [!-~]{2,64}$", l):
            if self.conn.t.c.seen[-1:] != [self.ident.encode()]:
                raise Bad("identity %s" % self.conn.t.c.seen[-1:])
            return "MOIN"
        m = re.match(rb"^PUSH ([1-9]\d*)$", l)
        if m:
            self.size = int(m[1])
            return "PUSH"
        raise Bad("sends %r" % l)

    def give_up(self):
        if self.conn:
            self.conn.hear()
            self.old.append(self.conn)
            self.conn = None

    def impl(self):
        """the module's turn"""
        can = [a[0] for a, t in self.options() if a[0] in ("connect", "MOIN", "PUSH", "DATA", "ok", "err")]
        st = self.state()[0]
        t0 = time.time()
        jumped = t0
        e = None
        while True:
            e = self.event()
            if e:
                break
            if self.conn and self.conn.t.err is None and not self.conn.t.finished and st == "c_moin":
                self.shake()
            n = time.time()
            if st in ("c_broken", "c_stale", "c_push") and n - jumped > .4:
                self.m.jump(self.timeout + 2)
                jumped = n
            if n - t0 > srv.patience():
                raise Bad("does nothing in %s, %s expected" % (self.state(), can))
            time.sleep(0.0003)
        if e not in can:
            raise Bad("%s %s in state %s, allowed: %s" % (e, self.error if e == "err" else "", self.state(), can))
        if e == "err":
            self.give_up()
        self.go([e])

    def shake(self):
        c = self.conn
        if c.t.handshake() == "err":
            o = c.t.out()
            if o:
                c.send_raw(o)
            return False
        o = c.t.out()
        if o:
            c.send_raw(o)
        return True

    def calm(self, t):
        """nothing happens meanwhile"""
        end = time.time() + t
        while time.time() < end:
            e = self.event()
            if e:
                raise Bad("%s %s while it is the server's turn in state %s" % (e, self.error if e == "err" else "", self.state()))
            time.sleep(0.0005)

    error = b""

    # -- the environment
    def env(self, a):
        r = self.rng
        st = self.state()[0]
        k = a[0]
        o = a[1] if len(a) > 1 else None
        if k == "call":
            self.call()
        elif k == "renew":
            if r.random() < .5 or self.dark:
                x = self.m.ask("del:%d" % self.i)
                if x != ("ok", b""):
                    raise Bad("destructor: %s %s" % (x, self.m.asan()[:1000]))
            self.new()
            if self.conn:
                c = self.conn
                if self.state()[1] == "up" and not c.wait_closed(10):
                    raise Bad("connection stays open when the object is destroyed")
                self.give_up()
            for c in self.old:
                c.close()
            self.old = []
            self.owed = None
        elif k == "misuse":
            kind = r.choice(["host", "svc"])
            if self.w.lang == "python":
                x = self.m.ask("%s:%d" % (kind, self.i), *r.choice([[], [1], ["a"]]))
            else:
                self.m.ask("new:8", self.host, "me", "key")         # neither node nor service is known to it
                x = self.m.ask(kind + ":8", 1, "out") if r.random() < .6 else self.m.ask("cmd:8", *r.choice([["[1 X"], ["[x] X"], []]))
                self.m.ask("del:8")
            if x[0] != "err":
                raise Bad("a call without its arguments: %s %s" % (x, self.m.asan()[:1000]))
        elif k == "badnew":
            x = r.choice([["h", self.port, "me"], ["h"], [self.host, self.port, "me", "key", "no-such-cipher"], []] if self.w.lang == "python" else
                         [[self.host, "me"], [], ["h"], "cipher"])
            if x == "cipher":
                self.m.ask("new:9", self.host, "me", "key", ciphers="no-such-cipher")
            else:
                self.m.ask("new:9", *x)
            self.m.ask("del:9")
        elif k == "down":
            self.down()
        elif k == "up":
            self.l = Listener(self.host, self.port)
            self.dark = False
        elif k == "drop":
            self.conn.stale = True
            if o == "bail":
                self.conn.say(b"BAIL Connection timed out\r\n")
            self.leave("close" if o == "bail" else o)
            time.sleep(.001)
        elif k == "slow":
            if r.random() < .2:
                self.calm(.002)
            self.m.jump(self.timeout - r.choice([0, .5, 1]) if self.timeout else 0)
            self.calm(.006)
        elif k == "expire":
            self.calm(.01)
            self.m.jump(self.timeout + 2)
        elif k == "shake":
            if o in ("close", "fin", "reset", "down"):
                if r.random() < .5:
                    self.conn.take(1)
                    self.conn.t.handshake()
                    x = self.conn.t.out()
                    if r.random() < .5 and x:
                        self.conn.send_raw(x[:r.randrange(len(x))])
                self.leave(o)
            elif o == "good":
                self.shake()
            elif o == "badkey":
                self.conn.t = server_ctx(r.choice([b"other", self.key + b"x", self.key[:-1], self.key.upper()]), self.ver).conn()
                end = time.time() + 10
                while not self.conn.t.err and not self.conn.closed and time.time() < end:
                    self.conn.hear()
                    self.shake()
                    time.sleep(0.0003)
                self.leave("fin")
            elif o == "garbage":
                self.conn.send_raw(r.choice([b"HTTP/1.1 400 Bad Request\r\n\r\n", b"MOIN 1\r\n", b"\0" * 2000, b"\x15\x03\x03\x00\x02\x02\x28"]))
                time.sleep(.003)
                self.leave("fin")
        elif k == "reply":
            self.owed = None
            if r.random() < .1:
                self.calm(.002)
            if self.conn.buf:
                raise Bad("goes on with %r without awaiting the reply" % self.conn.buf[:100])
            good = b"MOIN 1" if st == "s_moin" else b"OKAY"
            eol = r.choice([b"\r\n", b"\r\n", b"\n"])
            msg = r.choice(["", "No", "%s%n%d%s%n", text(r, 30), text(r, r.choice([500, 900]))]).encode()[:1000]
            if o == "good":
                x = good + eol
                if r.random() < .3:
                    for i in range(len(x)):
                        self.conn.say(x[i:i + 1])
                elif r.random() < .3:
                    j = r.randrange(1, len(x))
                    self.conn.say(x[:j])
                    self.calm(.002)
                    self.conn.say(x[j:])
                else:
                    self.conn.say(x)
            elif o in ("fail", "bail"):
                self.conn.say(o.upper().encode() + b" " + msg + eol)
            elif o == "unknown":
                self.conn.say(r.choice([b"200 OK", b"OK", b"PONG", b"QUIT", b"A", b"\\", b"OKA", b"FAI", b"okay?", b" OKAY", b"MOI", msg + b"?"]) + eol)
            elif o == "empty":
                self.conn.say(eol)
            elif o == "long":
                self.conn.say(r.choice([b"OKAY ", b"FAIL ", b"x", b"BAIL ", good]) + b"y" * r.choice([1024, 3000, 16000]) + r.choice([b"", eol]))
            elif o == "other":
                self.conn.say((b"OKAY" if st == "s_moin" else b"MOIN 1") + eol)
            elif o == "version":
                self.conn.say(r.choice([b"MOIN 2", b"MOIN 10", b"MOIN 11", b"MOIN", b"MOIN x", b"MOIN 1 2", b"MOIN 0"]) + eol)
            elif o == "silent":
                if r.random() < .3:
                    self.conn.say(good[:r.randrange(1, 4)])
                    good = b""
            else:
                self.leave(o)
            if o not in ("good", "close", "fin", "reset", "down"):
                self.owed = (self.conn, good + eol)
        elif k == "late":
            if self.owed:
                c, x = self.owed
                if r.random() < .3:
                    x = b"OKAY\r\n" * r.choice([1, 1, 2])
                c.say(x)
                self.owed = None
                time.sleep(.002)
        else:
            raise Exception(k)
        self.go(a)

    def down(self):
        self.l.close()
        self.dark = True

    def leave(self, how):
        if how == "close":
            self.conn.t.shutdown()
            self.conn.send_raw(self.conn.t.out())
            if self.rng.random() < .5:
                self.conn.fin()
        elif how in ("fin", "down"):
            self.conn.fin()
        else:
            self.conn.reset()
        if how == "down":
            self.down()
        self.old.append(self.conn)
        self.conn = None

    def close(self):
        for c in self.old + ([self.conn] if self.conn else []):
            c.close()
        self.l.close()


ENV = ("call", "renew", "misuse", "badnew", "down", "up", "drop", "shake", "reply", "slow", "expire", "late")


class World:
    def __init__(self, lts, lang, seed, steps, mod=None):
        self.rng = random.Random("%s %s" % (lang, seed))
        self.lts, self.lang, self.steps = lts, lang, steps
        self.seen = set()
        self.log = []
        self.m = mod or Mod(lang, self.rng.random() < .25)
        self.objs = []

    def run(self):
        r = self.rng
        for i in range(r.choice([1, 1, 2, 3]) if not self.objs else 0):
            self.objs.append(Obj(self, i))
        base = self.m.nfds()
        bias = {}
        luck = r.choice([4, 15, 40, 100])
        while True:
            idle = all(o.state()[0] == "idle" for o in self.objs)
            if idle:
                if self.m.asan():
                    raise Bad(self.m.asan()[:1500])
                if len(self.log) >= self.steps:
                    break
                o = r.choice(self.objs)
            else:
                o = next(o for o in self.objs if o.state()[0] != "idle")
            es = [a for a, t in o.options() if a[0] in ENV]
            turn = len(es) < len(o.options())
            if turn and (not es or r.random() < .8):
                o.impl()
                continue
            ws = []
            for a in es:
                k = json.dumps(a) + o.state()[0]
                if k not in bias:
                    bias[k] = r.random() ** 2 * {"call": 3, "down": .3, "renew": .3, "up": 2, "drop": 2, "late": 3, "slow": .5}.get(a[0], 1) * (luck if "good" in a else 1)
                ws.append(bias[k])
                bias[k] *= .9
            o.env(r.choices(es, ws)[0])
        if self.m.nfds() > base + len(self.objs):
            raise Bad("%d descriptors are open instead of %d" % (self.m.nfds(), base))

    def close(self):
        for o in self.objs:
            o.close()
        self.m.close()


LTSS = {}


# ---- M03: the same, again and again
class Repeat:
    def __init__(self, lts, lang, seed, steps):
        self.lts, self.lang, self.seed, self.steps = lts, lang, seed, steps
        self.keep = seed % 3 == 0           # the same objects, or new ones every time
        self.m = Mod(lang)
        self.w = None

    def once(self):
        w = self.w
        if w is None or not self.keep:
            w = self.w = World(self.lts, self.lang, self.seed, self.steps, mod=self.m)
        w.rng = random.Random("%s %s" % (self.lang, self.seed))
        for o in w.objs:
            o.rng = w.rng
        w.log = []
        w.run()
        for o in w.objs:
            if not self.keep:
                self.m.ask("del:%d" % o.i)
                o.close()
        if not self.keep:
            w.objs = []
        x = self.m.mem(), self.m.nfds()
        if x[0] < 0:
            raise RuntimeError("the number of allocated bytes is unknown")
        return x

    def run(self):
        x = [self.once() for k in range(6)]
        grows = lambda q: all(a < b for a, b in zip(q, q[1:]))
        for k, what in enumerate(("bytes allocated", "descriptors")):
            if grows([y[k] for y in x[2:]]):
                x += [self.once() for j in range(40)]   # OpenSSL remembers up to 16 errors
                if grows([y[k] for y in x[-20:]]):
                    raise Bad("%s after each repetition (%s objects): %s" % (what, "the same" if self.keep else "new", [y[k] for y in x]))

    def close(self):
        for o in self.w.objs if self.w else []:
            o.close()
        self.m.close()


def repeat(scenarios):
    res = []
    for name, lang, seed, steps in scenarios:
        if name not in LTSS:
            x = json.load(open(name))
            LTSS[name] = tlc.LTS(x[0], x[1])
        w = Repeat(LTSS[name], lang, seed, steps)
        try:
            w.run()
            res.append(None)
        except Bad as e:
            res.append({"what": "%s: %s" % (lang, e), "log": w.w.log if w.w else [], "memory": w.m.asan()[:1000]})
        finally:
            w.close()
    return res


def m03(c):
    import shutil
    q = c.quick
    cfg = "SPECIFICATION MSpec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Attempts = 2\n Emit = %s\n"
    c.model(tlc.run("ModuleMem", cfg % "FALSE" + "INVARIANT Exact AtRest Sound Honest\n", workers=4), "ModuleMem: ownership")
    r = c.model(tlc.run("ModuleMem", cfg % "TRUE" + "VIEW View\nINVARIANT EmitInit\nACTION_CONSTRAINT EmitEdge\n", workers=1), "ModuleMem: transitions")
    d = srv.scratch("m03")
    try:
        f = os.path.join(d, "lts")
        json.dump([r.tagged("i"), r.tagged("e")], open(f, "w"))
        c.count("model_edges", len(r.tagged("e")))
        build.perl_module(True), build.python_module(True), build.modshim()
        sc = [[f, ("perl", "python")[i % 2], i + 100000 * c.seed, (6, 15, 30, 60)[i // 2 % 4]] for i in range(240 if q else 4000)]
        for s in sc[:3]:
            c.sample({"language": s[1], "seed": s[2], "steps": s[3]})
        c.replay(repeat, sc, chunk=2, budget=100 if q else 780)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    c.assumptions += ["Growth which persists over more than 40 repetitions is a leak; what is kept once or bounded is not.", "AddressSanitizer's count of allocated bytes, the interpreter's own included."]


def drive(scenarios):
    res = []
    for name, lang, seed, steps in scenarios:
        if name not in LTSS:
            x = json.load(open(name))
            LTSS[name] = tlc.LTS(x[0], x[1])
        w = World(LTSS[name], lang, seed, steps)
        try:
            w.run()
            res.append(None)
        except Bad as e:
            res.append({"what": "%s: %s" % (lang, e), "log": w.log[-25:], "objects": len(w.objs), "memory": w.m.asan()[:1000]})
        finally:
            w.close()
        with open(name + ".%d" % os.getpid(), "a") as f:
            for s, a in w.seen:
                f.write(json.dumps([lang, s, a]) + "\n")
    return res


# ---- the modules and the real server: the same model, whose server is well-behaved
def outcomes(lts, at, fail):
    """what a call in state `at` may result in: {(result, acknowledged): state}"""
    res = {}
    todo = [(t, 0) for a, t in lts.succ(at) if a == ["call"]]
    seen = set(todo)
    while todo:
        x, acked = todo.pop()
        st = lts.states[x][0]
        for a, t in lts.succ(x):
            n = acked
            if a[0] in ("ok", "err"):
                res.setdefault((a[0], acked), t)
                continue
            if a[0] in ("shake", "reply"):
                want = "fail" if fail and st == "s_data" else "good"
                if a[1] != want:
                    continue
                n += st == "s_data" and not fail
            elif a[0] not in ("connect", "MOIN", "PUSH", "DATA"):
                continue
            if (t, n) not in seen:
                seen.add((t, n))
                todo.append((t, n))
    return res


def real(scenarios):
    res = []
    for name, lang, seed, steps in scenarios:
        if name not in LTSS:
            x = json.load(open(name))
            LTSS[name] = tlc.LTS(x[0], x[1])
        lts = LTSS[name]
        r = random.Random("real %s %s" % (lang, seed))
        s = Server('timeout = 20\nauthorize "me" {\n password = "key"\n commands = ".*good.*"\n}\n', reader=True)
        m = Mod(lang, r.random() < .2)
        log = []
        bad = None
        try:
            def new():
                a = m.ask("new", s.host, "me", "key", port=s.port, node_name="n", svc_description="s", timeout=10) if lang == "perl" else \
                    m.ask("new", s.host, s.port, "me", "key")
                assert a == ("ok", b""), a
            new()
            at = lts.init[0]
            for k in range(steps):
                todo = [a for a, t in lts.succ(at) if a[0] in ("call", "renew") or a == ["drop", "bail"]]
                a = r.choices(todo, [{"call": 6, "drop": 3, "renew": 1}[x[0]] for x in todo])[0]
                if a[0] == "renew":
                    new()
                    log.append("renew")
                    at = next(t for b, t in lts.succ(at) if b == a)
                elif a[0] == "drop":
                    s.adv(21)
                    log.append("idle")
                    at = next(t for b, t in lts.succ(at) if b == a)
                else:
                    fail = r.random() < .3
                    t = "%s %d" % ("bad" if fail else "good", k) + "x" * r.choice([0, 0, 900, 1500])
                    may = outcomes(lts, at, fail)
                    kind = r.choice(["host", "svc"])
                    m.tell(kind, *([1, t] if lang == "perl" else ["n", 1, t] if kind == "host" else ["n", "s", 1, t]))
                    t0 = n = time.time()
                    x = None
                    while x is None and time.time() - t0 < srv.patience():
                        s.settle()
                        x = m.result(0.001)
                        if time.time() - n > 1:
                            m.jump(12)
                            n = time.time()
                    s.settle()
                    got = s.reader.read()
                    lines = [l for l in got.split(b"\n") if l]
                    log.append([t[:20], str(x)[:200]])
                    if x is None or x[0] not in ("ok", "err") or any(not l.endswith(t.encode()) for l in lines) or (x[0], len(lines)) not in may:
                        raise Bad("%s: result %s, commands %r; allowed: %s" % (t[:20], x, got[:300], sorted(may)))
                    at = may[(x[0], len(lines))]
                c = crashed(s) or m.asan()[:1000]
                if c:
                    raise Bad(c)
        except Bad as e:
            bad = {"what": "real server, %s: %s" % (lang, e), "log": log[-12:], "server": s.stderr()[-600:]}
        except Died:
            bad = {"what": "the server dies", "log": log[-12:], "server": s.stderr()[-600:]}
        finally:
            m.close()
            s.close()
        res.append(bad)
    return res


def m01(c):
    import shutil, glob
    q = c.quick
    att = 2
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Attempts = %d\n Emit = %s\n"
    c.model(tlc.run("Module", cfg % (att, "FALSE") + INV, workers=4), "Module: invariants, liveness")
    r = c.model(tlc.run("Module", cfg % (att, "TRUE") + "VIEW View\nINVARIANT EmitInit\nACTION_CONSTRAINT EmitEdge\n", workers=1), "Module: transitions")
    d = srv.scratch("m01")
    try:
        f = os.path.join(d, "lts")
        ini, edges = r.tagged("i"), r.tagged("e")
        json.dump([ini, edges], open(f, "w"))
        lts = tlc.LTS(ini, edges)
        build.perl_module(True), build.python_module(True), build.modshim()
        n = 400 if q else 6000
        steps = 60 if q else 120
        sc = [[f, ("perl", "python")[i % 2], i + 100000 * c.seed, steps] for i in range(n)]
        for s in sc[:3]:
            c.sample({"language": s[1], "seed": s[2], "steps": s[3]})
        c.replay(real, [[f, ("perl", "python")[i % 2], i + 100000 * c.seed, 12] for i in range(40 if q else 400)], chunk=2, budget=25 if q else 200)
        c.replay(drive, sc, chunk=2, budget=85 if q else 750)
        seen = set()
        for g in glob.glob(f + ".*"):
            seen |= {tuple(json.loads(l)) for l in open(g)}
        c.count("model_edges", lts.nedges)
        for lang in ("perl", "python"):
            c.count("edges_%s" % lang, len({x for x in seen if x[0] == lang}))
        if os.environ.get("DBG"):
            from collections import Counter
            S = {(x[1], x[2]) for x in seen if x[0] == "python"}
            print(Counter((json.dumps(a)) for i in range(len(lts.states)) for a, t in lts.succ(i) if (i, json.dumps(a)) not in S))
            print(Counter(a for i, a in S))
            print(sorted(set(lts.states[i][0] + str(lts.states[i][1:]) for i in range(len(lts.states))) - set(lts.states[i][0] + str(lts.states[i][1:]) for i, a in S)))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    c.assumptions += ["The clock the modules see is the driver's; their select() calls are cut short.",
                      "How often a module tries again within a call, and whether it reuses connections, is not judged beyond at most two attempts."]



# ---- M02: what is submitted for which arguments (spec/Values.tla)
def chars(rng, n, sep=True):
    a = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789äöüß€_-.,:!?/()=%$#'\"&|<>{}*~ \t"
    return "".join(rng.choice(a) for _ in range(n)).strip() or "x"


class Talk:
    """a server which says yes, and a caller"""

    def __init__(self, lang, seed):
        self.rng = random.Random("%s %s" % (lang, seed))
        self.lang = lang
        self.m = Mod(lang)
        self.l = Listener()
        self.n = 0
        self.conn = None
        self.ident = None

    def new(self, args=("host", "identity", "psk"), ciphers="none"):
        r = self.rng
        if self.conn:
            self.conn.close()
            self.conn = None
        self.ident = chars(r, r.choice([1, 5, 20, 100])).encode()[:120].decode(errors="ignore")
        self.key = r.choice([bytes(r.randrange(33, 127) for _ in range(r.choice([1, 8, 40, 200]))), chars(r, 20).encode()])
        self.timeout = 30
        kw = {"ciphers": "PSK" if ciphers == "good" else "no such cipher"} if ciphers != "none" else {}
        if self.lang == "perl":
            names = ("host", "identity", "psk")
            vals = {"host": self.l.host, "identity": self.ident, "psk": self.key}
            given = [vals[x] for x in names if x in args]
            if len(given) < 3:
                kw = {}         # what follows would be taken for the missing ones
            else:
                kw.update(port=self.l.port, node_name="nn", svc_description="ss", timeout=self.timeout)
        else:
            vals = {"host": self.l.host, "port": self.l.port, "identity": self.ident, "psk": self.key}
            given = [vals[x] for x in ("host", "port", "identity", "psk") if x in args or x == "port" and len(args) > 1]
        return self.m.ask("new", *given, **kw)

    def call(self, op, *a, **kw):
        """result and submissions of a call"""
        r = self.rng
        self.m.tell(op, *a, **kw)
        end = time.time() + srv.patience()
        subs = []
        size = None
        while time.time() < end:
            x = self.m.result(0.0005)
            if x:
                if self.conn:
                    self.conn.hear()
                    if self.conn.buf and not (x[0] == "err" and re.match(rb"QUIT\r?\n$", self.conn.buf)):
                        raise Bad("%r follows the submission" % self.conn.buf[:100])
                    self.conn.buf = b""
                if x[0] == "dead":
                    raise Bad("the interpreter dies: %s %s" % (x[1], self.m.asan()[:1500]))
                return x, subs
            s = self.l.waiting()
            if s:
                if self.conn:
                    self.conn.close()
                self.conn = Pipe(s, server_ctx(self.key, r.choice([tls.V12, tls.V13])))
            c = self.conn
            if not c:
                continue
            c.hear()
            if not c.t.finished or c.t.err:
                if c.t.handshake() == "err":
                    raise Bad("handshake fails: %s" % c.t.err)
                o = c.t.out()
                if o:
                    c.send_raw(o)
                continue
            if size is not None:
                if len(c.buf) >= size:
                    subs.append(c.buf[:size])
                    c.buf = c.buf[size:]
                    size = None
                    if c.buf:
                        raise Bad("submission %r is larger than announced, by %r" % (subs[-1][:100], c.buf[:100]))
                    c.say(b"OKAY\r\n")
                continue
            if b"\n" in c.buf:
                l, c.buf = c.buf.split(b"\n", 1)
                if l.startswith(b"MOIN 1 "):
                    if c.t.c.seen[-1:] != [self.ident.encode()]:
                        raise Bad("identity %r instead of %r" % (c.t.c.seen[-1:], self.ident))
                    c.say(b"MOIN 1\r\n")
                elif re.match(rb"^PUSH [1-9]\d*\r?$", l):
                    size = int(l[5:])
                    c.say(b"OKAY\r\n")
                elif re.match(rb"QUIT\r?$", l):
                    continue
                else:
                    raise Bad("request %r" % l)
        raise Bad("call does not end; announced %s, received %r" % (size, self.conn and self.conn.buf[:100]))

    def make(self, letters, where):
        """a string for the letters, and how to find it again"""
        r = self.rng
        res = []
        for i, x in enumerate(letters):
            if x == "a":
                t = chars(r, r.choice([1, 1, 2, 8, 30]))
                if where != "out":
                    t = t.replace("\t", "x")
                t = t.replace("[", "(")
                if where == "cmd" and t[0] in "0123456789":     # does not lengthen a number
                    t = "q" + t[1:]
            elif x == "L":
                n = r.choice([880, 930, 960, 990, 1000, 1010, 1024, 1100, 2048, 5000, 20000]) + r.randrange(-6, 40)
                t = "y" * n if r.random() < .3 else chars(r, n)
                if where == "cmd":
                    t = "q" + t
            elif x == "1":
                t = str(r.choice([0, 1, 7, 42, 1500000000, 1700000000]))
                if len(letters) > i + 1 and letters[i + 1] in "1H" or i and letters[i - 1] in "1H":
                    t = t[:3]
            elif x == "H":
                t = "9" * r.choice([19, 20, 25, 400])
            else:
                t = {"N": "\n", "B": "\\", "S": ";", "n": "n", "[": "[", "]": "]"}[x]
            res.append(t)
        return res

    def one(self, case, may):
        r = self.rng
        k = case["kind"]
        what = {}
        if k == "new":
            x = self.new(tuple(sorted(case["args"])), case["ciphers"])
            got = "object" if x[0] == "ok" else "exception" if x[0] == "err" and x[1].strip() else str(x)
            if [got] not in may:
                return "constructor with %s, ciphers %s: %s" % (case["args"], case["ciphers"], x)
            self.fresh = x[0] == "ok" and len(case["args"]) == 3
            return self.memory()
        if not self.fresh:
            x = self.new()
            if x[0] != "ok":
                return "constructor: %s" % (x,)
            self.fresh = True
        if k == "incomplete":
            m = case["missing"]
            if self.lang == "perl":
                kw = dict(port=self.l.port, node_name="nn", svc_description="ss")
                kw.pop({"name": "node_name", "svc": "svc_description"}[m])
                self.m.ask("new", self.l.host, "me", b"key", **kw)
                self.fresh = False
                x, subs = self.call("svc", 1, "text")
            else:
                x, subs = self.call("svc", *{"name": [], "svc": ["h"]}[m])
            if x[0] != "err" or subs:
                return "svc_result without %s: %s, submits %s" % (m, x, subs)
            return self.memory()
        now = self.m.now // 10 ** 9
        parts = {}
        if k == "cmd":
            t = self.make(case["text"], "cmd")
            arg = "".join(t)
            if r.random() < .3:
                arg += "\n"
            x, subs = self.call("cmd", arg)
            given = [arg]
            exp = [None if m == ["exception"] else ("[%d] " % now if m[:2] == ["[", "T"] else "").encode() + "".join(t).encode() + b"\n" for m in may]
        else:
            h, s, o = (self.make(case[y], w) for y, w in (("name", "name"), ("svc", "name"), ("out", "out")))
            given = ["".join(h), "".join(s), case["rc"], "".join(o)]
            rc = int(case["rc"])
            if self.lang == "perl":
                kw = {"node_name": given[0]}
                if k == "svc":
                    kw["svc_description"] = given[1]
                x, subs = self.call(k, rc, given[3], **kw)
            else:
                a = [given[0]] + ([given[1]] if k == "svc" else []) + [rc]
                if given[3] or r.random() < .5:
                    a.append(given[3])
                x, subs = self.call(k, *a)
            exp = self.results(case, may, now, h, s, o)
        if x[0] == "err":
            ok = None in exp and not subs and x[1].strip()
        else:
            ok = x == ("ok", b"") and len(subs) == 1 and subs[0] in exp
        if not ok:
            return "%s %s %r : %s, submits %r instead of %r" % (self.lang, k, given, x, subs, exp)
        return self.memory()

    def results(self, case, may, now, h, s, o):
        """the submissions of the model with the letters replaced by what they stand for"""
        res = []
        skip = 6 + len(case["name"]) + 1 + (len(case["svc"]) + 1 if case["svc"] else 0) + 2
        for m in may:
            text = "[%d] PROCESS_%s_CHECK_RESULT;" % (now, m[4])
            text += "".join(h) + ";" + ("".join(s) + ";" if case["svc"] else "") + case["rc"] + ";"
            given = iter([t for x, t in zip(case["out"], o) if x in ("a", "L")])
            for x in m[skip:-1]:
                text += next(given) if x in ("a", "L") else {"B": "\\", "n": "n", "S": ";"}[x]
            res.append((text + "\n").encode())
        return res

    def memory(self):
        a = self.m.asan()
        return a[:1500] if a else None

    fresh = False

    def close(self):
        if self.conn:
            self.conn.close()
        self.l.close()
        self.m.close()


def talk(parts):
    res = []
    for lang, seed, cases in parts:
        t = Talk(lang, seed)
        try:
            bad = None
            for i, (case, may) in enumerate(cases):
                if lang == "python" and case["kind"] == "cmd" or case["kind"] == "new" and case["strict"] != (lang == "python"):
                    continue
                try:
                    bad = t.one(case, may)
                except Bad as e:
                    bad = "%s, %s" % (e, case)
                if bad:
                    break
                if lang == "python" and t.fresh and t.rng.random() < .05:
                    x = t.m.ask("attr", "host")
                    if x != ("ok", t.l.host.encode()):
                        bad = "host attribute %s" % (x,)
                        break
                t.m.jump(t.rng.choice([0, 0, 1, 1000]))
            res.append({"what": "%s: %s" % (lang, bad), "case": cases[i], "history": cases[max(0, i - 3):i]} if bad else None)
        finally:
            t.close()
    return res


def m02(c):
    q = c.quick
    cfg = "SPECIFICATION Spec\nINVARIANT OneLine Faithful Decided EmitCase\nCHECK_DEADLOCK FALSE\nCONSTANTS\n MaxOut = %d\n MaxName = %d\n MaxCmd = %d\n Emit = TRUE\n"
    r = c.model(tlc.run("Values", cfg % ((3, 2, 4) if q else (4, 2, 5)), workers=1), "Values")
    cases = r.tagged("c")
    build.perl_module(True), build.python_module(True), build.modshim()
    c.rng.shuffle(cases)
    c.count("cases", len(cases))
    sc = []
    n = 40
    for i in range(0, len(cases), n):
        for lang in ("perl", "python"):
            sc.append([lang, i, cases[i:i + n]])
    for x in cases[:4]:
        c.sample(x)
    c.rng.shuffle(sc)
    c.replay(talk, sc, chunk=2, budget=75 if q else 700)
    c.assumptions += ["Host names and service descriptions contain neither semicolons nor newlines, commands no newline before their end.",
                      "Whether a trailing newline of the output is dropped or escaped, and whether numbers which are no time are accepted in front of a command, is left open."]


CHECKS = {"M01": m01, "M02": m02, "M03": m03}

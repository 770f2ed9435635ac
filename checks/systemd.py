"""P19: the service manager's view of the server (spec/Systemd.tla), in virtual time."""
import ctypes, signal, socket
from common import *
from lifecycle import paths

INV = "INVARIANT ReadyOnce OneSocket\nPROPERTY Alive\n"
LAUNCH = """import os, sys
for k, f in enumerate(sys.argv[1].split(',')):
    os.dup2(int(f), 3 + k)
os.environ['LISTEN_PID'] = str(os.getpid())
os.environ['LD_PRELOAD'] = os.environ.pop('X_PRELOAD')
os.execv(sys.argv[2], sys.argv[2:])"""
USEC = {"none": None, "zero": "0", "junk": "forever", "short": "200000", "long": "30000000"}
AUTH = 'authorize "me" { password = "secret" commands = ".*" }\n'


class World:
    def __init__(self, seed):
        self.rng = random.Random(seed)
        ctypes.CDLL(None).prctl(36, 1)
        self.s = None
        self.socks = []
        self.clients = []

    def start(self, k, wd, fault, mode, b):
        rng = self.rng
        self.k, self.wd, self.fault = k, wd, fault
        d = self.dir = srv.scratch("sd")
        self.socks = []
        host = srv.my_host()
        for i in range(k):
            x = socket.socket()
            x.bind((host, 0))
            x.listen(20)
            x.setblocking(False)
            self.socks.append(x)
        name = "\0nsca-%d-%d" % (os.getpid(), rng.randrange(1 << 40)) if rng.random() < .3 else d + "/notify"
        self.n = socket.socket(socket.AF_UNIX, socket.SOCK_DGRAM)
        self.n.bind(name)
        self.n.setblocking(False)
        self.n.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 1 << 20)
        env = {"NOTIFY_SOCKET": "@" + name[1:] if name[0] == "\0" else name}
        prefix = []
        if k:
            env.update(LISTEN_FDS=str(k), LD_PRELOAD="", X_PRELOAD=build.shim())
            prefix = ["/usr/bin/python3", "-ISc", LAUNCH, ",".join(str(x.fileno()) for x in self.socks)]
            if not os.path.exists(prefix[0]):
                prefix[0] = sys.executable
        elif rng.random() < .3:      # meant for another process
            env.update(LISTEN_FDS="1", LISTEN_PID="1")
        if USEC[wd] is not None:
            env["WATCHDOG_USEC"] = USEC[wd]
        args = []
        extra = ""
        port = srv.free_port(host)
        self.blocker = None
        if fault == "port":
            self.blocker = socket.socket()
            self.blocker.bind((host, port))
            self.blocker.listen(1)
        if fault == "pidfile":
            args += ["-P", d + "/missing/pid"]
        elif rng.random() < .3:
            args += ["-P", d + "/pid"]
        if not b and rng.random() < .5:
            extra = 'listen = "%s:%d"\n' % (host, port)

        def c(s):
            t = conf(AUTH, timeout=rng.choice([0, 5, 15]), extra=extra)(s)
            if fault == "temp":
                t = t.replace(s.tmp, s.tmp + "/missing")
            elif fault == "conf":
                t += rng.choice(["timeout =", 'authorize "you" { }', "unknown = 1"]) + "\n"
            return t
        self.s = Server(c, dir=d, args=args, env=env, prefix=prefix, host=host, port=port, bind=b, fg=mode == "fg",
                        start=False, reader=True, pass_fds=[x.fileno() for x in self.socks])
        self.s.reader.size = None
        self.evs = []
        self.msgs = []
        self.listening = k > 0
        self.last = None        # virtual time of the last sign of life

    def addr(self):
        class A:
            pass
        a = A()
        a.host, a.port = self.socks[0].getsockname() if self.socks else (self.s.host, self.s.port)
        a.settle = self.s.settle
        return a

    def messages(self):
        """lines of the messages since the last call"""
        r = []
        while True:
            try:
                r += self.n.recv(65536).decode(errors="replace").split("\n")
            except BlockingIOError:
                return r

    def hello(self, bg):
        """True if serving, exit status otherwise"""
        s = self.s
        end = time.time() + 30
        s.ls.settimeout(0.01)
        while time.time() < end:
            try:
                s.ctl, _ = s.ls.accept()
            except socket.timeout:
                st = s.p.poll()
                if st is not None and (not bg or st != 0):
                    return st
                continue
            s.ctl.settimeout(srv.patience())
            s._buf = b""
            s.ctlpid = int(s._line().split()[1])
            s.settle()
            return True
        return "neither serving nor gone"

    def up(self, bg):
        """None if it is up and has said so properly"""
        r = self.hello(bg)
        m = self.messages()
        if r is not True:
            return "start fails (%s) : %s" % (r, self.s.stderr()[-300:])
        if m.count("READY=1") != 1:
            return "messages at the start: %s" % m
        if any(x.startswith("WATCHDOG") and x != "WATCHDOG=1" for x in m):
            return "messages at the start: %s" % m
        ok = self.listening
        for e in self.s.events():
            if e["e"] == "listen" and e["err"] == 0:
                ok = True
            elif e["e"] == "notify" and b"READY=1" in bytes.fromhex(e["data"]) and not ok:
                return "READY=1 before listening"
        if not bg and self.s.ctlpid != self.s.p.pid:
            return "server is in the background"
        self.last = self.s.now
        return None

    def alive(self, want):
        """look at the signs of life since the last call"""
        m = self.messages()
        if any(x not in ("WATCHDOG=1", "") and not x.startswith("STATUS=") for x in m):
            return "unexpected message %s" % m
        ts = [e["t"] * 1000 for e in self.s.events() if e["e"] == "notify" and b"WATCHDOG=1" in bytes.fromhex(e["data"])]
        if len(ts) != m.count("WATCHDOG=1"):
            return "messages lost: %d of %d" % (m.count("WATCHDOG=1"), len(ts))
        if want is False:
            return "WATCHDOG=1 without a watchdog" if ts else None
        half = int(USEC[self.wd]) * 500
        for t in ts + [self.s.now]:
            if t - self.last > half * 1.02 + 2e6:
                return "no WATCHDOG=1 for %.4f s with WATCHDOG_USEC=%s" % ((t - self.last) / 1e9, USEC[self.wd])
            if t != self.s.now or t in ts:
                self.last = t
        return None

    def step(self, view, act, obs, nxt):
        a = act[0]
        rng = self.rng
        if a == "start":
            self.start(*act[1:])
            self.bg = act[4] == "bg" and act[1] == 0
            if obs["res"] == "up":
                m = self.up(self.bg)
                return m or self.bound()
            r = self.hello(False if not self.bg else True)
            m = self.messages()
            if r is True or r == 0:
                return "start does not fail (%s): %s" % (r, self.s.stderr()[-200:])
            if isinstance(r, str) or r < 0 or r > 100:
                return "failing start: %s, %s" % (r, self.s.stderr()[-200:])
            if m:
                return "messages of a failing server: %s" % m
            self.finish()
            return None
        watch = view[2] in ("short", "long")
        if a == "tick":
            self.s.adv(int(USEC[view[2]]) / 2e6 if watch else rng.choice([.5, 7, 40]))
            return self.alive(watch)
        if a == "serve":
            c = Client(self.addr())
            self.s.settle()
            if not c.handshake():
                return "not served"
            data = b"[1] X;%d\n" % rng.randrange(1000)
            got = [c.send(x) for x in (b"MOIN 1 x\r\n", b"PUSH %d\r\n" % len(data), data, b"QUIT\r\n")]
            c.close()
            self.s.settle()
            if got != [b"MOIN 1\r\n", b"OKAY\r\n", b"OKAY\r\n", b"OKAY\r\n"]:
                return "session: %s" % got
            return self.alive(watch)
        if a == "stall":
            self.stall(act[1])
            return self.alive(watch)
        if a == "hup":
            m = self.alive(watch)
            if m:
                return m
            old = self.s.ctl        # its end would mean the end of the server
            self.listening = self.k > 0
            os.kill(self.s.ctlpid, signal.SIGHUP)
            m = self.up(self.bg)
            old.close()
            for c in self.clients:
                c.close()
            self.clients = []
            return "SIGHUP: " + m if m else self.bound()
        if a == "term":
            m = self.alive(watch)
            if m:
                return m
            os.kill(self.s.ctlpid, signal.SIGTERM)
            end = time.time() + 20
            while time.time() < end:
                if self.s.ctlpid == self.s.p.pid:
                    st = self.s.p.poll()
                else:
                    try:
                        p, st = os.waitpid(self.s.ctlpid, os.WNOHANG)
                        st = None if p == 0 else os.waitstatus_to_exitcode(st)
                    except ChildProcessError:       # its parent has not gone yet
                        st = None
                if st is not None:
                    break
                time.sleep(.002)
            else:
                return "no exit on SIGTERM"
            if st != 0:
                return "exit status %s on SIGTERM" % st
            m = self.s.asan()
            self.finish()
            return m or None
        raise AssertionError(act)

    def stall(self, what):
        c = Client(self.addr())
        self.s.settle()
        self.clients.append(c)
        if what == "hs":
            c.t.handshake()
            o = c.t.out()
            c.send_raw(o[:self.rng.randrange(1, len(o))])
            self.s.settle()
            return
        c.handshake()
        c.send(b"MOIN 1 x\r\n")
        if what == "half":
            c.send(b"PUSH 100\r\n")
            c.send(b"[1] half of")
        elif what == "full":
            d = b"[1] " + b"x" * 3900 + b"\n"
            for _ in range(40):
                c.send(b"PUSH %d\r\n" % len(d))
                c.send(d)
        else:
            for _ in range(60 if self.rng.random() < .04 else 3):
                c.send(b"NOOP\r\n" * 1500, settle=False)
                self.s.settle()

    def bound(self):
        """with a socket of its own, the server must not open another one"""
        if self.k != 1:
            return None
        if self.blocker:
            return None
        x = socket.socket()
        try:
            x.settimeout(5)
            x.connect((self.s.host, self.s.port))
            return "-b or listen used despite socket activation"
        except OSError:
            return None
        finally:
            x.close()

    def finish(self):
        for c in self.clients:
            c.close()
        self.clients = []
        if self.s:
            if self.s.reader:
                self.s.reader.close()
            self.s.own = True
            self.s.close()
            pid = getattr(self.s, "ctlpid", None)
            if pid and pid != self.s.p.pid:
                try:
                    os.waitpid(pid, 0)
                except ChildProcessError:
                    pass
            for x in self.socks + [self.n] + ([self.blocker] if self.blocker else []):
                x.close()
        self.s = None


def run(path, seed):
    w = World(seed)
    view = ["off", 0, "none", []]
    hist = []
    try:
        for act, obs, nxt in path:
            hist.append(act)
            m = w.step(view, act, obs, nxt)
            if m:
                return "%s: %s; history %s" % (act, m, hist)
            if w.s and w.s.asan():
                return "%s: %s" % (act, w.s.asan()[:600])
            view = nxt
        return None
    except (Died, Stuck) as e:
        return "server died or is stuck in %s: %s %s; history %s" % (hist[-1], e, w.s.stderr()[-300:] if w.s else "", hist)
    finally:
        w.finish()


def drive(part):
    return [run(p, s) for p, s in part]


def p19(c):
    build.server()
    build.shim()
    cfg = "SPECIFICATION Spec\nVIEW V\n%sACTION_CONSTRAINT EmitEdge\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Loads = {\"hs\", \"half\", \"full\", \"unread\"}\n Emit = TRUE\n" % INV
    r = c.model(tlc.run("Systemd", cfg, workers=1), "Systemd, four kinds of load")
    lts = tlc.LTS([["off", 0, "none", []]], [[f, [a, o], t] for f, a, o, t in r.tagged("e")])
    c.count("model_edges", lts.nedges)
    sc = []
    n = 0
    for k in range(1 if c.quick else 6):
        for init, p in paths(lts, c.rng, 12, None, None if not c.quick else None):
            sc.append([p, c.rng.randrange(1 << 30)])
    c.rng.shuffle(sc)
    c.count("steps", sum(len(p) for p, s in sc))
    for p, s in sc[:3]:
        c.sample([x[0] for x in p])
    c.assumptions += ["Virtual time: the gaps between messages are measured on the clock the server sees.",
                      "The service manager is a datagram socket and inherited descriptors, as sd_notify(3) and sd_listen_fds(3) describe."]
    c.replay(drive, sc, chunk=2, budget=100 if c.quick else 850)


CHECKS = {"P19": p19}

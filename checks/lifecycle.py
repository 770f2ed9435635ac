"""P16: servers sharing PID files (spec/Lifecycle.tla), as real processes in real time."""
import ctypes, select, shutil, signal, socket, subprocess
from common import *
from writer import tours

INV = "INVARIANT One Right\nPROPERTY Undisturbed CleanStop\n"
SLOW = 20.0      # real seconds within which a reaction must come
BROKEN = ['authorize "me" {', 'authorize "me" { }', 'no_such_setting = 1\n', 'max_queue_size = -1\nauthorize "me" { password = "x" }', '',
          'include("/nonexistent/file")\nauthorize "me" { password = "x" }', 'temp_directory = "/nonexistent/tmp"\nauthorize "me" { password = "x" }',
          'authorize "me" { password = "x" commands = "(" }']
STALE = [b"", b"4194300", b"99999999999999999999999999", b"not a number\n", b"1234567 and more text", b"0" * 5000]


def login(host, port, key, timeout):
    """an established session, or None"""
    c = srv.client_ctx("me", key).conn()
    s = socket.socket()
    s.settimeout(timeout)
    try:
        s.connect((host, port))
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        while True:
            r = c.handshake()
            o = c.out()
            if o:
                s.sendall(o)
            if r == "ok":
                break
            if r == "err":
                s.close()
                return None
            d = s.recv(65536)
            if not d:
                s.close()
                return None
            c.feed(d)
        # the server agrees only after our last flight
        c.write(b"MOIN 1 l\r\n")
        s.sendall(c.out())
        got = b""
        while b"\n" not in got:
            d = s.recv(65536)
            if not d:
                s.close()
                return None
            c.feed(d)
            got += c.read()
        if got != b"MOIN 1\r\n":
            s.close()
            return None
        s.setblocking(False)
        return s, c
    except OSError:
        s.close()
        return None


def ended(conn):
    """whether the connection has been closed by the server"""
    s, c = conn
    try:
        return s.recv(65536) == b""
    except BlockingIOError:
        return False
    except OSError:
        return True


class Slot:
    def __init__(self, k, host):
        self.k = k
        self.port = srv.free_port(host)
        self.p = None       # the process which has been started
        self.pid = None     # the process which serves
        self.canary = None
        self.mode = "fg"


class World:
    def __init__(self, n, files, seed, exe=None):
        self.rng = random.Random(seed)
        ctypes.CDLL(None).prctl(36, 1)      # reap daemons
        self.dir = srv.scratch("life")
        self.host = srv.my_host()
        self.exe = exe or build.server()
        self.conf = os.path.join(self.dir, "conf")
        self.fifo = os.path.join(self.dir, "cmd")
        os.mkfifo(self.fifo)
        self.slots = [Slot(k, self.host) for k in range(n)]
        self.of = {k + 1: self.slots[k] for k in range(n)}      # server of the model -> slot
        self.nfiles = files
        self.known = set()      # children which have been accounted for
        self.write_conf(0, True)
        self.errs = os.path.join(self.dir, "stderr")

    def pf(self, p):
        return os.path.join(self.dir, "pid%d" % p)

    def write_conf(self, ver, ok):
        with open(self.conf + ".new", "w") as f:
            if ok:
                f.write('temp_directory = "%s"\nauthorize "me" { password = "key%d" commands = ".*" }\n' % (self.dir, ver))
            else:
                f.write(self.rng.choice(BROKEN))
        os.rename(self.conf + ".new", self.conf)

    def spawn(self, sl, mode, p):
        sl.mode = mode
        sl.canary = None
        sl.pfile = p
        a = [self.exe, "-c", self.conf, "-C", self.fifo, "-b", "%s:%d" % (self.host, sl.port)]
        if mode == "fg":
            a.append("-F")
        if p:
            a += ["-P", self.pf(p)]
        tail = a[1:]
        e = open(self.errs, "ab")
        sl.p = subprocess.Popen(a, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=e, cwd=self.dir,
                                env={"PATH": "/usr/bin:/bin", "ASAN_OPTIONS": "detect_leaks=0:log_path=%s/asan:handle_abort=0" % self.dir},
                                start_new_session=True)
        self.known.add(sl.p.pid)
        sl.pid = sl.p.pid if mode == "fg" else None
        e.close()

    def children(self):
        r = set()
        me = os.getpid()
        for t in os.listdir("/proc/%d/task" % me):
            try:
                with open("/proc/%d/task/%s/children" % (me, t)) as f:
                    r |= {int(x) for x in f.read().split()}
            except OSError:
                pass
        return r

    def state(self, sl):
        """'up' process running, else exit status of the process(es)"""
        if sl.mode == "fg":
            return sl.p.poll()
        if sl.p is not None:
            r = sl.p.poll()
            if r is None:
                return None
            if r != 0:
                return r
            sl.p = None
        if sl.pid is None:      # the daemon must be there: it is made before its parent exits
            new = [c for c in self.children() - self.known if self.cmdline(c, sl)]
            if not new:
                return None
            sl.pid = new[0]
            self.known.add(sl.pid)
        return self.reap(sl)

    def cmdline(self, pid, sl):
        try:
            with open("/proc/%d/cmdline" % pid, "rb") as f:
                return ("%s:%d" % (self.host, sl.port)).encode() in f.read()
        except OSError:
            return False

    def reap(self, sl):
        try:
            p, st = os.waitpid(sl.pid, os.WNOHANG)
        except ChildProcessError:
            return 997
        if p == 0:
            return None
        return os.waitstatus_to_exitcode(st)

    def wait_up(self, sl, ver):
        """None, or what is wrong"""
        end = time.time() + SLOW
        while time.time() < end:
            st = self.state(sl)
            if st is not None:
                return "exits with status %s instead of serving: %s" % (st, self.log())
            if sl.pid:
                c = login(self.host, sl.port, "key%d" % ver, 5)
                if c:
                    sl.canary = c
                    # another process might answer
                    st = self.state(sl)
                    return None if st is None else "exits with status %s" % st
            time.sleep(.003)
        return "does not serve: " + self.log()

    def wait_fail(self, sl):
        end = time.time() + SLOW
        while time.time() < end:
            st = sl.p.poll()
            if st is not None:
                if st == 0:
                    return "start succeeds although it must fail"
                if st < 0:
                    return "start ends with signal %d" % -st
                sl.pid = sl.p = None
                return None
            time.sleep(.002)
        return "start neither fails nor ends"

    def wait_exit(self, sl):
        """exit status of the serving process"""
        end = time.time() + SLOW
        while time.time() < end:
            st = sl.p.poll() if sl.mode == "fg" else self.reap(sl)
            if st is not None:
                self.drop(sl)
                return st
            time.sleep(.002)
        return "none"

    def drop(self, sl):
        if sl.canary:
            sl.canary[0].close()
        sl.canary = None
        sl.p = sl.pid = None

    def log(self):
        try:
            return open(self.errs, errors="replace").read()[-300:]
        except OSError:
            return ""

    def asan(self):
        for n in os.listdir(self.dir):
            if n.startswith("asan."):
                return "memory error: " + open(os.path.join(self.dir, n), errors="replace").read()[:800]

    def content(self, p):
        try:
            with open(self.pf(p), "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None

    def start_files(self, view):
        self.stale = {}
        for i, (x,) in enumerate(view[1]):
            p = i + 1
            if x == "stale":
                self.stale[p] = self.rng.choice(STALE)
                with open(self.pf(p), "wb") as f:
                    f.write(self.stale[p])

    def check(self, view):
        for k, (st, mode, pf, ver) in enumerate(view[0]):
            sl = self.of[k + 1]
            if st == "run":
                if self.state(sl) is not None:
                    return "server %d is gone: %s" % (k + 1, self.log())
                if ended(sl.canary):
                    return "server %d closed a connection" % (k + 1)
        for i, (x,) in enumerate(view[1]):
            c = self.content(i + 1)
            if x == "none":
                if c is not None:
                    return "PID file %d is there (%r) but nobody uses it" % (i + 1, c[:40])
            elif x == "stale":
                if c != self.stale[i + 1]:
                    return "abandoned PID file %d changed from %r to %r" % (i + 1, self.stale[i + 1][:40], c)
            else:
                want = str(self.of[int(x)].pid).encode()
                if c != want:
                    return "PID file %d contains %r instead of %r" % (i + 1, c, want)
        return self.asan()

    def many(self, S, p, m, ver, before=None):
        """start all of S; returns the slots which are up"""
        rng = self.rng
        order = list(S)
        rng.shuffle(order)
        acts = [("spawn", sl) for sl in order]
        if before:
            acts.insert(rng.randrange(len(acts) + 1), ("sig", before))
        gap = rng.choice([0, 0, .002, .01, .03])
        for k, x in acts:
            if k == "spawn":
                self.spawn(x, m, p)
            else:
                x()
            if gap:
                time.sleep(rng.random() * gap)

    def settle_many(self, S, ver):
        """(up, message): wait until each has failed or serves"""
        up, left = [], list(S)
        end = time.time() + SLOW
        while left and time.time() < end:
            for sl in list(left):
                st = self.state(sl)
                if st is not None:
                    left.remove(sl)
                    if st == 0:
                        return up, "a server exits with status 0 without having been stopped"
                    if st < 0:
                        return up, "a server ends with signal %d" % -st
                    self.drop(sl)
                elif sl.pid:
                    c = login(self.host, sl.port, "key%d" % ver, 5)
                    if c:
                        if self.state(sl) is not None:
                            c[0].close()
                            continue
                        sl.canary = c
                        left.remove(sl)
                        up.append(sl)
            time.sleep(.003)
        if left:
            return up, "%d servers neither serve nor fail" % len(left)
        return up, None

    def who(self, sl):
        return next(k for k, v in self.of.items() if v is sl)

    def step(self, view, act, obs, nxt):
        """None, a message, or 'other' (another permitted outcome)"""
        a = act[0]
        cfg = view[2]
        if a in ("edit", "break"):
            self.write_conf(nxt[2][0], nxt[2][1])
            return None
        if a == "start":
            sl = self.of[act[1]]
            self.spawn(sl, act[2], act[3])
            if obs == ["up"]:
                return self.wait_up(sl, cfg[0])
            return self.wait_fail(sl)
        if a == "race":
            S = [self.of[k + 1] for k, x in enumerate(view[0]) if x[0] == "off"]
            self.many(S, act[2], act[1], cfg[0])
            up, m = self.settle_many(S, cfg[0])
            if m:
                return m
            if len(up) != (1 if obs[0] == "one" else 0):
                return "%d of %d servers with one PID file run: %s" % (len(up), len(S), self.log())
            if up:      # all of them are alike
                w = self.who(up[0])
                if w != obs[1]:
                    self.of[w], self.of[obs[1]] = self.of[obs[1]], self.of[w]
            return None
        sl = self.of[act[1]]
        if a == "swap":
            old = sl.pid
            sig = {"TERM": signal.SIGTERM, "HUP": signal.SIGHUP, "KILL": signal.SIGKILL}[act[2]]
            S = [self.of[k + 1] for k, x in enumerate(view[0]) if x[0] == "off"]
            p = view[0][act[1] - 1][2]
            canary = sl.canary
            self.many(S, p, act[3], cfg[0], lambda: os.kill(old, sig))
            if act[2] == "HUP":
                end = time.time() + SLOW
                while not ended(canary) and time.time() < end:
                    time.sleep(.002)
                canary[0].close()
                sl.canary = None
                if sl.mode == "bg":
                    sl.pid = None       # a new daemon may come, or the process fails
                    m, alive = self.rebirth(sl, old)
                    if m:
                        return m
                    R = S + ([sl] if alive else [])
                else:
                    R = S + [sl]
            else:
                st = self.wait_exit(sl)
                if st != (0 if act[2] == "TERM" else -9):
                    return "server ends with status %s on SIG%s" % (st, act[2])
                R = S
            up, m = self.settle_many(R, cfg[0])
            if m:
                return m
            if len(up) > 1 or (act[2] == "HUP" and not up):
                return "%d of %d servers with one PID file run" % (len(up), len(R))
            if not up:
                if obs[0] != "none":
                    return "other"
                if act[2] == "KILL":
                    self.stale[p] = str(old).encode()
                return None
            w = self.who(up[0])
            if obs[0] != "one":
                return "other" if self.content(p) == str(up[0].pid).encode() else "PID file contains %r instead of %d" % (self.content(p), up[0].pid)
            if w != obs[1]:
                if w == act[1] or obs[1] == act[1]:
                    return "other" if self.content(p) == str(up[0].pid).encode() else "PID file contains %r instead of %d" % (self.content(p), up[0].pid)
                self.of[w], self.of[obs[1]] = self.of[obs[1]], self.of[w]
            return None
        if a == "stop":
            sigs = [getattr(signal, "SIG" + x) for x in act[2].split("+")]
            if len(sigs) > 1:       # both arrive at the same moment
                os.kill(sl.pid, signal.SIGSTOP)
            for x in sigs:
                os.kill(sl.pid, x)
            if len(sigs) > 1:
                os.kill(sl.pid, signal.SIGCONT)
            st = self.wait_exit(sl)
            return None if st == 0 else "server ends with status %s on %s: %s" % (st, act[2], self.log())
        if a == "kill":
            p = view[0][act[1] - 1][2]
            if p:
                self.stale[p] = str(sl.pid).encode()
            os.kill(sl.pid, signal.SIGKILL)
            st = self.wait_exit(sl)
            return None if st == -9 else "status %s" % st
        if a == "hup":
            old = sl.pid
            canary = sl.canary
            os.kill(old, signal.SIGHUP)
            if obs == ["fail"]:
                st = self.wait_exit(sl)
                return None if isinstance(st, int) and st > 0 else \
                    "server ends with status %s on SIGHUP with an unusable configuration" % st
            end = time.time() + SLOW
            while not ended(canary):
                if time.time() > end:
                    return "connection survives SIGHUP"
                time.sleep(.002)
            canary[0].close()
            sl.canary = None
            if sl.mode == "bg":
                sl.pid = None
                m, alive = self.rebirth(sl, old)
                if m:
                    return m
                if not alive:
                    return "server fails to restart: " + self.log()
            m = self.wait_up(sl, nxt[0][act[1] - 1][3])
            if m:
                return "after SIGHUP: " + m
            if sl.mode == "fg" and sl.pid != old:
                return "PID changed"
            return None
        raise AssertionError(act)

    def rebirth(self, sl, old):
        """a daemon re-executed itself: its process ends and leaves another
        daemon; (message, whether there is one)"""
        end = time.time() + SLOW
        while time.time() < end:
            p, st = os.waitpid(old, os.WNOHANG)
            if p:
                code = os.waitstatus_to_exitcode(st)
                if code:
                    self.drop(sl)
                    return None, False
                sl.p = None
                self.state(sl)
                end2 = time.time() + SLOW
                while sl.pid is None and time.time() < end2:
                    time.sleep(.002)
                    new = [c for c in self.children() - self.known if self.cmdline(c, sl)]
                    if new:
                        sl.pid = new[0]
                        self.known.add(sl.pid)
                return (None, True) if sl.pid else ("no daemon left after SIGHUP: " + self.log(), False)
            time.sleep(.002)
        return "no restart on SIGHUP", False

    def close(self):
        for c in self.children():
            for sl in self.slots:
                if c == sl.pid or (sl.p is not None and c == sl.p.pid) or self.cmdline(c, sl):
                    try:
                        os.kill(c, signal.SIGKILL)
                        os.waitpid(c, 0)
                    except (ProcessLookupError, ChildProcessError):
                        pass
        for sl in self.slots:
            if sl.canary:
                sl.canary[0].close()
        shutil.rmtree(self.dir, ignore_errors=True)


def run(sc):
    n, files, init, path, seed = sc
    w = World(n, files, seed)
    try:
        w.start_files(init)
        view = init
        hist = []
        for act, obs, nxt in path:
            hist.append(act)
            m = w.step(view, act, obs, nxt)
            if m == "other":
                return w.asan()
            m = m or w.check(nxt)
            if m:
                return "%s: %s; history %s" % (act, m, hist)
            view = nxt
        return None
    finally:
        w.close()


def drive(part):
    return [run(sc) for sc in part]


def paths(lts, rng, length, want=None, limit=None):
    g = tlc.LTS.__new__(tlc.LTS)
    g.states, g.ids, g.nedges = lts.states, lts.ids, lts.nedges
    lab = {}

    def key(a):
        import json
        k = json.dumps(a)
        lab[k] = a
        return k
    g.out = {s: [((key(a), t), t) for a, t in es] for s, es in lts.out.items()}
    for i in lts.init:
        g.init = [i]
        for p in tours(g, rng, length, want and (lambda a, s, t: want(lab[a[0]][0], s, t)), limit):
            yield lts.states[i], [[lab[a][0], lab[a][1], lts.states[t]] for a, t in p]


def graph(c, n, files, emit=True):
    cfg = "SPECIFICATION Spec\nVIEW View\n%sACTION_CONSTRAINT EmitEdge\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Servers = %s\n Files = %s\n Emit = %s\n" % (
        INV, tlc.tla(set(range(1, n + 1))), tlc.tla(set(range(1, files + 1))), tlc.tla(emit))
    r = c.model(tlc.run("Lifecycle", cfg, workers=1 if emit else 6), "Lifecycle, %d servers, %d PID files" % (n, files))
    if not emit:
        return None
    init = []
    for k in range(2 ** files):
        init.append([[["off", "fg", 0, 0]] * n, [["stale" if k >> i & 1 else "none"] for i in range(files)], [0, True]])
    return tlc.LTS(init, [[f, [a, o], t] for f, a, o, t in r.tagged("e")])


def p16(c):
    build.server()
    one, two, three = tlc.parallel(lambda: graph(c, 1, 1), lambda: graph(c, 2, 1), lambda: graph(c, 3, 1))
    c.model(tlc.run("Lifecycle", "SPECIFICATION Spec\nVIEW View\n%sCHECK_DEADLOCK FALSE\nCONSTANTS\n Servers = {1, 2, 3}\n Files = {1, 2}\n Emit = FALSE\n" % INV,
                    workers=8), "Lifecycle, 3 servers, 2 PID files")
    c.count("model_edges", two.nedges)
    sc = []
    for init, p in paths(one, c.rng, 15):
        sc.append([1, 1, init, p, c.rng.randrange(1 << 30)])
    first = len(sc)
    for init, p in paths(two, c.rng, 15, None, 130 if c.quick else None):
        sc.append([2, 1, init, p, c.rng.randrange(1 << 30)])
    race = lambda a, s, t: a[0] in ("race", "swap")
    for init, p in paths(three, c.rng, 14, race, 50 if c.quick else 1500):
        sc.append([3, 1, init, p, c.rng.randrange(1 << 30)])
    c.rng.shuffle(sc)
    c.count("steps", sum(len(x[3]) for x in sc))
    for x in sc[:3]:
        c.sample([y[0] for y in x[3]])
    c.assumptions += ["Real time: a reaction must come within %d s." % SLOW,
                      "Races are real ones: starts and signals within 0 to 30 ms of each other, not every interleaving."]
    c.replay(drive, sc, chunk=1, budget=110 if c.quick else 850)


CHECKS = {"P16": p16}

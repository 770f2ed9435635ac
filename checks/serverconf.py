"""P17: settings of the server (spec/ServerConf.tla): command line, files, directories, defaults."""
import fcntl, json, socket
from common import *

FIFO_DEFAULT = build.LOCALSTATE + "/nagios/rw/nagios.cmd"
USED = ["a.cfg", "b.conf", "it's.cfg", "x.y.cfg", ".h.cfg", "cfg.cfg", "sp ace.conf", "back\\slash.cfg", "${HOME}.cfg", "~user.cfg", "#x.conf", "UPPER.conf"]
UNUSED = ["a.cfg~", "a.cfg.bak", "cfg", "aconf", "a.CFG", "README", "a.conf.txt", "a.cfg.", "acfg", "a.cf", "a.config", "b.confx"]
PLAIN = ["plain", "other.txt", "more.cfg", "it's", "sp ace"]
ERR = ["nosuchsetting = 1", "timeout = -1", "timeout = -0.25", "log_level = -1", "max_command_size = -5", "max_queue_size = -1", "timeout = abc",
       "max_command_size = 12x", "max_queue_size = 1.5", "log_level = high", "timeout = 5 5", 'authorize "z" { password = "x" commands = "(" }',
       'authorize "z" { password = "x" commands = { ".*", "[" } }', 'authorize "z" { password = "x" hosts = "[" }', 'authorize "z" { password = "x" services = "a(" }',
       'authorize "z" { password = "x" services = "a@(" }', 'authorize "z" { password = "x" port = 1 }', 'authorize { password = "x" }',
       'include("%(d)s/missing.cfg")', 'include("%(d)s/missing/")', 'include()', 'include("/dev/null")', '= 5', '}', 'timeout "5"', 'include "%(d)s/x"',
       'authorize "z" "y" { password = "x" }', 'command_file = { "a", "b" }']
LOCK = os.path.join(os.environ.get("VERIF_TMP", "/tmp"), "nsca-verif-5668.lock")
LEVELS = ["FATAL", "ERROR", "WARNING", "NOTICE", "INFO", "DEBUG"]


def unused(port):
    """wait until nobody has the port"""
    end = time.time() + 20
    while time.time() < end:
        x = socket.socket()
        x.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        try:
            x.bind(("", port))
            x.listen(1)
            return True
        except OSError:
            time.sleep(.05)
        finally:
            x.close()
    return False


class World:
    def __init__(self, case, seed):
        self.c = case
        self.rng = random.Random(seed)
        self.d = srv.scratch("conf")
        self.lock = None

    def close(self):
        if self.lock:
            self.lock.close()
        import shutil
        shutil.rmtree(self.d, ignore_errors=True)

    def prepare(self):
        d, rng = self.d, self.rng
        self.host = srv.my_host()
        self.ports = [0, srv.free_port(self.host), srv.free_port(self.host)]
        bare = rng.random() < .06
        self.default_port = bare
        self.v = {
            "listen": {1: self.host if bare else "%s:%d" % (self.host, self.ports[1]), 2: "%s:%d" % (self.host, self.ports[2]),
                       3: rng.choice(["192.0.2.1:%d" % self.ports[1], "%s:no-such-service" % self.host])},
            "command_file": {i: "%s/cmd%d" % (d, i) for i in (1, 2, 3)},
            "pid_file": {1: d + "/pid1", 2: d + "/pid 2", 3: d + "/missing/pid"},
            "log_level": {1: str(rng.choice([0, 1, 2])), 2: "4", 3: "5"},
            "timeout": {1: rng.choice(["7", "7.0", "+7", "0.7e1"]), 2: "2.5", 3: rng.choice(["0", "0.0"])},
            "max_command_size": {1: "100", 2: "5000", 3: "0"},
            "temp_directory": {1: d + "/t1", 2: d + "/t 2/", 3: rng.choice([d + "/missing", d + "/conf.d/a", d + "/cmd1"])},
            "tls_ciphers": {1: "PSK-AES256-CBC-SHA", 2: "PSK-AES128-CBC-SHA", 3: "nonsense"},
        }
        for x in ("t1", "t 2"):
            os.mkdir(d + "/" + x)
        self.fifos = {}
        for i in (1, 2, 3):
            os.mkfifo(self.v["command_file"][i])
            self.fifos[i] = Fifo(self.v["command_file"][i]).open()
        # files and directories
        c = self.c
        self.path = []
        self.real = []
        taken = set()
        for i, n in enumerate(c["node"]):
            if n["kind"] == "none":
                self.path.append(None)
                self.real.append(None)
                continue
            base = d + "/else%d" % i if n["dir"] < 0 else self.path[n["dir"]]
            if n["dir"] < 0:
                os.mkdir(base)
            if n["kind"] == "dir":
                names = ["sub", "s.cfg", "s u b", "it's", "sub.d", ".s"]
            elif n["dir"] < 0:
                names = PLAIN
            else:
                names = USED if n["use"] else UNUSED
            name = rng.choice([x for x in names if base + "/" + x not in taken])
            p = base + "/" + name
            taken.add(p)
            r = p
            if n["link"]:
                os.mkdir(d + "/target%d" % i)
                r = d + "/target%d/" % i + rng.choice(["x", "y.cfg", "z.txt"])
                os.symlink(r, p)
            if n["kind"] == "dir":
                os.mkdir(r)
            self.path.append(p)
            self.real.append(r)
        self.env = {}
        for i, n in enumerate(c["node"]):
            if n["kind"] == "file":
                with open(self.real[i], "w") as f:
                    f.write(self.text(c["body"][i]))

    def q(self, v):
        """a string in one of the documented ways"""
        rng = self.rng
        k = rng.randrange(6)
        if k == 0 and v and all(ch.isalnum() or ch in "/._-:" for ch in v) and "//" not in v:
            return v
        if k == 1:
            return "'" + v.replace("\\", "\\\\").replace("'", "\\'") + "'"
        if k == 2:
            n = "V_%d" % len(self.env)
            self.env[n] = v
            return "${%s}" % n
        if k == 3 and not any(ch in v for ch in "}\\'\"#") and v:
            return "${V_UNSET:-%s}" % v
        return '"' + v.replace("\\", "\\\\").replace('"', '\\"').replace("$", "\\$") + '"'

    def text(self, body):
        rng = self.rng
        out = []
        for s in body:
            k = s[0]
            if k == "set":
                t = s[1] + rng.choice([" = ", "=", "\t=  "]) + self.q(self.v[s[1]][s[2]])
            elif k == "block":
                x = ['commands = ".*"'] + (['password = ' + self.q("own-" + s[1])] if s[2] else [])
                rng.shuffle(x)
                t = "authorize " + rng.choice(['"%s"', "%s", "'%s'"]) % s[1] + rng.choice([" {\n", "{ ", "\n{\n\n"]) + rng.choice(["\n  ", " ", "\n#c\n"]).join(x) + " }"
            elif k == "password":
                t = "password = " + self.q("global")
            elif k == "include":
                t = "include(" + self.q_path(self.path[s[1]]) + ")"
            else:
                t = (ERR[self.c["err"] % len(ERR)] if "err" in self.c else rng.choice(ERR)).replace("%(d)s", self.d)
            out.append(t)
        r = ""
        for t in out:
            r += rng.choice(["", "", "# comment = 1\n", "\n\n", "   ", "\t"]) + t + rng.choice(["\n", "\n", " # comment\n", "\n\n"])
        return r

    def q_path(self, p):
        if self.rng.random() < .5:
            return "'" + p.replace("\\", "\\\\").replace("'", "\\'") + "'"
        return '"' + p.replace("\\", "\\\\").replace('"', '\\"').replace("$", "\\$") + '"'

    def run(self):
        c, rng = self.c, self.rng
        self.prepare()
        flag = {"listen": "-b", "command_file": "-C", "pid_file": "-P", "log_level": "-l"}
        args = []
        for s, v in c["opts"]:
            args += [flag[s], self.v[s][v]] if rng.random() < .7 else [flag[s] + self.v[s][v]]
        conf = self.path[0]
        a = ["-c", conf]
        if rng.random() < .15:
            a = ["-c", "/nonexistent/conf"] + a
        fg = rng.random() < .8
        if c["usage"]:
            k = self.c.get("err", rng.randrange(5)) % 5
            if k == 0:
                args.append("-x")
            elif k == 1:
                args.append("more")
            elif k == 2:
                fg = False
                args.append("-S")
            elif k == 3:
                a += ["-c", self.d + "/missing"]
            else:
                args.append("-b")
        args = a + args if c["usage"] or rng.random() < .5 else args + a
        if fg:
            args.insert(0, "-F")
        res = c["res"]
        eff = res["eff"]
        deflisten = res["ok"] and (eff["listen"] == 0 or (eff["listen"] == 1 and self.default_port))
        if deflisten:       # the default port is there only once
            self.lock = open(LOCK, "w")
            fcntl.flock(self.lock, fcntl.LOCK_EX)
            if not unused(5668):
                return None
        env = dict(self.env)
        cf = FIFO_DEFAULT if res["ok"] and eff["command_file"] == 0 else self.v["command_file"][eff["command_file"]] if res["ok"] else FIFO_DEFAULT
        p = srv.Proc(build.server(), args, self.d, env=env, fifo=cf, tmp=self.d, cwd=self.d)
        self.p = p
        try:
            up = p.wait_hello(30)
            if not res["ok"]:
                if up:
                    return "starts with an unusable configuration"
                st = p.wait(20)
                if st == 0 or st < 0 or st >= 99:
                    return "status %s with an unusable configuration" % st
                if not p.stderr().strip():
                    return "no message"
                return p.asan() or None
            if not up:
                return "does not start: " + p.stderr()[-300:]
            return self.probe(eff, res["ids"], fg) or p.asan() or None
        finally:
            p.kill()
            for f in self.fifos.values():
                f.close()

    def addr(self, host, port):
        class A:
            pass
        a = A()
        a.host, a.port, a.settle = host, port, self.p.settle
        return a

    def probe(self, eff, ids, fg):
        p, rng = self.p, self.rng
        p.settle()
        # listen
        if eff["listen"] == 0:
            at = (rng.choice([self.host, "127.0.0.1"]), 5668)
        elif eff["listen"] == 1 and self.default_port:
            at = (self.host, 5668)
        else:
            at = (self.host, self.ports[eff["listen"]])
        for port in self.ports[1:]:
            if port != at[1]:
                try:
                    socket.create_connection((self.host, port), timeout=5).close()
                    return "listens on port %d as well" % port
                except OSError:
                    pass
        a = self.addr(*at)
        try:
            # identities and passwords
            have = {i: ("own-" + i if own else "global") for i, own in ids}
            for i in ("a", "b", "z"):
                for key in ("own-" + i, "global"):
                    c = Client(a, i, key)
                    p.settle()
                    ok = c.handshake() and c.send(b"MOIN 1 x\r\n") == b"MOIN 1\r\n"
                    if c.t.finished:
                        c.close_notify()
                    c.close()
                    if ok != (have.get(i) == key):
                        return "login as %s with %s: %s" % (i, key, ok)
            me = sorted(have.items())[0]
            # ciphers
            want = {0: (True, True), 1: (True, False), 2: (False, True)}[eff["tls_ciphers"]]
            for name, w in zip(("PSK-AES256-CBC-SHA", "PSK-AES128-CBC-SHA"), want):
                c = Client(a, *me, ver=0x303, ciphers=name + "@SECLEVEL=0")
                p.settle()
                ok = c.handshake() and c.send(b"MOIN 1 x\r\n") == b"MOIN 1\r\n"
                c.close()
                p.settle()
                if ok != w:
                    return "TLS with %s: %s" % (name, ok)
        except ConnectionRefusedError:
            return "does not listen on %s:%d" % at
        # size of commands
        limit = {0: 16384, 1: 100, 2: 5000, 3: 0}[eff["max_command_size"]]
        c = Client(a, *me)
        p.settle()
        c.handshake()
        c.send(b"MOIN 1 x\r\n")
        sizes = [10, 99, 100, 101, 4999, 5000, 5001, 16383, 16384, 16385, 40000]
        big = None
        for n in sizes:
            r = c.send(b"PUSH %d\r\n" % n)
            if limit and n > limit:
                if not r.startswith(b"FAIL "):
                    return "PUSH %d: %s" % (n, r)
                if c.closed or c.wait_closed(.05):
                    c = Client(a, *me)
                    p.settle()
                    c.handshake()
                    c.send(b"MOIN 1 x\r\n")
                continue
            if r != b"OKAY\r\n":
                return "PUSH %d: %s" % (n, r)
            line = b"[1] C" + b"%d" % n
            line += b"x" * (n - len(line) - 1) + b"\n"
            if c.send(line) != b"OKAY\r\n":
                return "submission of %d bytes refused" % n
            if n > 4096:
                big = n
        p.settle()
        evs = p.events()
        # command file
        if eff["command_file"] == 0:
            if not any(e["e"] == "open_fifo" for e in evs):
                return "default command file not used"
            if any(f.read() for f in self.fifos.values()):
                return "wrong command file used"
        else:
            got = {k: f.read() for k, f in self.fifos.items()}
            for k, b in got.items():
                if k != eff["command_file"] and b:
                    return "command file %d used" % k
                if k == eff["command_file"] and b"[1] C10xx\n" not in b:
                    return "command file not used"
            # temporary files
            if big:
                td = {0: "/tmp", 1: self.v["temp_directory"][1], 2: self.v["temp_directory"][2]}[eff["temp_directory"]]
                for l in got[eff["command_file"]].split(b"\n"):
                    if b"PROCESS_FILE;" in l:
                        f = l.split(b";")[1].decode()
                        if td == "/tmp" and os.path.dirname(f) == td and "nsca" in f:
                            os.unlink(f)
                        if os.path.dirname(os.path.normpath(f)) != os.path.normpath(td):
                            return "temporary file %s, not in %s" % (f, td)
                        big = 0
                if big:
                    return "no temporary file"
        # PID file
        for k in (1, 2):
            f = self.v["pid_file"][k]
            if (eff["pid_file"] == k) != os.path.exists(f):
                return "PID file %d: %s" % (k, os.path.exists(f))
            if eff["pid_file"] == k and open(f).read() != str(p.ctlpid):
                return "PID file contains %r" % open(f).read()
        # timeout
        t = {0: 60, 1: 7, 2: 2.5, 3: 0}[eff["timeout"]]
        c.send(b"NOOP\r\n")
        c2 = Client(a, *me)
        p.settle()
        for dt, openp in ([(t - .4, True), (.8, False)] if t else [(1000, True)]):
            p.adv(dt)
            for x in (c, c2):
                x.pump()
                end = time.time() + (0 if openp else 2)
                while not x.closed and b"BAIL" not in x.plain and time.time() < end:
                    time.sleep(.001)
                    x.pump()
                bail = b"BAIL" in x.plain
                if bool(x.closed or bail) == openp:
                    return "connection %s after %.1f s" % ("closed" if x.closed or bail else "open", dt)
        c.close()
        c2.close()
        p.settle()
        # log level
        if fg:
            lv = {0: 3, 1: int(self.v["log_level"][1]), 2: 4, 3: 5}[eff["log_level"]]
            seen = {x for x in LEVELS if "[%s]" % x in p.stderr()}
            want = {x for k, x in enumerate(LEVELS) if k <= lv and x not in ("FATAL", "ERROR")}
            if seen - {"ERROR"} != want:
                return "messages of levels %s at level %d" % (sorted(seen), lv)
        return None


def run(case, seed):
    w = World(case, seed)
    try:
        m = w.run()
        return m and "%s; case %s" % (m, json.dumps(case))
    except (Died, Stuck) as e:
        return "server died or is stuck: %s %s; case %s" % (e, w.p.stderr()[-300:], json.dumps(case))
    finally:
        w.close()


def drive(part):
    return [run(c, s) for c, s in part]


CFG = """SPECIFICATION Spec
INVARIANT OptionsWin Unmentioned Known EmitCase
CHECK_DEADLOCK FALSE
CONSTANTS
 Settings = %s
 Options = %s
 Values = {1, 2, 3}
 Fragile = %s
 Ids = %s
 Errors = %s
 N = %d
 MaxLen = %d
 MaxOpts = %d
 Goals = %s
 Emit = %s
"""
ALL = {"listen", "command_file", "pid_file", "log_level", "timeout", "max_command_size", "temp_directory", "tls_ciphers"}
OPT = {"listen", "command_file", "pid_file", "log_level"}
FRAGILE = {"listen", "pid_file", "temp_directory", "tls_ciphers"}


def key(c):
    """what a case is about, for choosing a varied set"""
    b = [s for x in c["body"] for s in x]
    return json.dumps([c["res"]["ok"], sorted({s[0] for s in b}), c["usage"], c["node"][0]["kind"],
                       sorted((n["kind"], n["dir"] >= 0, n["use"], n["link"]) for n in c["node"][1:]), len(c["opts"])])


def p17(c):
    build.server()
    build.shim()
    t = tlc.tla
    num = 20000 if c.quick else 150000

    def small():
        return tlc.run("ServerConf", CFG % (t({"listen", "timeout"}), t({"listen"}), t({"listen"}), t({"a"}), t({"error"}), 1, 2, 1, t(set(range(1, 5 if c.quick else 6))), "FALSE"), workers=4)

    def sim(n, ml, goals, errs, ids, seed, sets=ALL):
        r = tlc.run("ServerConf", CFG % (t(sets), t(OPT), t(FRAGILE), t(ids), t(errs), n, ml, 6, t(set(goals)), "TRUE"), workers=1,
                    args=["-simulate", "num=%d" % num, "-depth", "30", "-seed", str(seed)])
        return r.tagged("c")
    s1, flat, deep, errs = tlc.parallel(small, lambda: sim(0, 14, range(6, 20), set(), {"a", "b"}, c.seed),
                                        lambda: sim(3, 4, range(6, 16), set(), {"a", "b"}, c.seed + 1),
                                        lambda: sim(2, 5, range(3, 12), {"x"}, {"a", "b"}, c.seed + 2, {"timeout", "log_level", "listen"} | OPT | ALL))
    c.model(s1, "ServerConf, one further node, exhaustive")
    cases = []
    quota = (260, 480, 260) if c.quick else (2000, 5000, 2500)
    for name, xs, q in zip(("one file", "layouts", "errors"), (flat, deep, errs), quota):
        seen, pick, rest = {}, [], []
        for x in xs:
            k = key(x)
            seen[k] = seen.get(k, 0) + 1
            (pick if seen[k] <= 2 else rest).append(x)
        ok = [x for x in pick if x["res"]["ok"]] + [x for x in rest if x["res"]["ok"]]
        no = [x for x in pick if not x["res"]["ok"]]
        c.rng.shuffle(no)
        got = ok[:q * 3 // 4] + no[:q // 4]
        if name == "errors":        # those with a single reason matter most
            got = ok[:q // 8]
            by = {}
            for x in xs:
                if len(x["res"]["why"]) == 1:
                    by.setdefault(x["res"]["why"][0], []).append(x)
            for w, l in sorted(by.items()):
                c.rng.shuffle(l)
                k = (10 if c.quick else 60) * (len(ERR) if w == "x" else 5 if w == "usage" else 3) // 3
                got += [dict(x, err=i) for i, x in enumerate(l[:k])]
                c.count("cases_because_of_" + w.replace(" ", "_"), len(l[:k]))
        c.count("cases_" + name.replace(" ", "_"), len(got))
        cases += got
    few = [x for x in cases if x["res"]["ok"] and x["res"]["eff"]["listen"] == 0][120 if c.quick else 1500:]
    drop = {id(x) for x in few}
    cases = [x for x in cases if id(x) not in drop]
    c.count("cases_usable", sum(x["res"]["ok"] for x in cases))
    c.count("distinct_simulated", len(flat) + len(deep) + len(errs))
    c.rng.shuffle(cases)
    cases.sort(key=lambda x: "err" not in x)        # every kind of error first
    sc = [[x, c.rng.randrange(1 << 30)] for x in cases]
    for x in sc[:3]:
        c.sample(x[0])
    c.assumptions += ["Layouts whose outcome depends on the order in which a directory is read are left out.",
                      "The default of max_queue_size (1 GB) is not reached; its meaning is part of P11."]
    c.replay(drive, sc, chunk=5, budget=120 if c.quick else 850)


CHECKS = {"P17": p17}

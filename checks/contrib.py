"""X01: the helper scripts of contrib/ (spec/Contrib.tla)."""
import json, pwd, re, shutil, signal, socket, subprocess
from common import *
from fake import Listener

SCRIPTS = ["enable_notifications", "disable_notifications", "acknowledge", "downtime", "invoke_check"]
USERS = ["root", "list", "daemon", "systemd-network"]
DATES = ["@1900000000", "2031-02-03 04:05:06", "2031-02-03T04:05:06", "20310203", "1 Jan 2030 12:00", "@2000000001", "tomorrow 08:00", "next monday", "+3hours", "3 days", "today"]
ODD = ["plain", "two words", "it's", 'a "b" c', "$HOME", "`id`", "$(id)", "100%", "%s%n%d", "a;b", "*", "~", "C:\\new\\table", "a\\nb", "\\", "end\\", "\\c gone", "\\0101\\x41",
       "-x", "--", "-n", "Größe", "a  b", "&& id", "a|b>c", "#x", "!x", "\\\\srv\\share", "?", "[a-z]*", "a,b"]
PLUGINS = [("check_disk", "DISK"), ("check_my_http", "HTTP"), ("load", "LOAD"), ("sub/check_x", "X"), ("check-ssh", "CHECK-SSH"), ("check_Mixed", "MIXED")]


def name(rng):
    r = rng.random()
    if r < .3:
        return rng.choice(["www", "Db-1", "box.example.org", "HTTP", "Disk /"])
    return rng.choice([x for x in ODD if ";" not in x])


def value(rng, o):
    if o in "HS":
        return name(rng)
    if o in "se":
        return rng.choice(DATES)
    return rng.choice(ODD)


class Run:
    def __init__(self, case, seed):
        self.c = case
        self.rng = random.Random(seed)
        self.d = srv.scratch("contrib")
        self.bin = os.path.join(self.d, "bin")
        os.mkdir(self.bin)
        for s in SCRIPTS:
            shutil.copy(os.path.join(build.REPO, "contrib", s), self.bin)
            os.chmod(os.path.join(self.bin, s), 0o755)
        os.symlink(build.client(), os.path.join(self.bin, "send_nsca"))
        self.short = self.rng.choice(["Box7", "mail"])
        self.put("hostname", '#!/bin/sh\ncase "$*" in\n-s) echo %s ;;\n"") echo %s ;;\n*) echo >&2 "hostname: $*"; exit 1 ;;\nesac\n' % (
            self.short, self.rng.choice([self.short, self.short + ".Example.org"])))
        self.l = Listener()
        self.ids = []
        self.ctx = tls.Ctx("server", keys=lambda i: self.ids.append(i) or b"secret")
        for v in range(3):
            with open(os.path.join(self.d, "conf%d" % v), "w") as f:
                f.write('identity = "id%d"\npassword = "secret"\n' % v)

    def put(self, name, text):
        p = os.path.join(self.bin, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(text if isinstance(text, bytes) else text.encode())
        os.chmod(p, 0o755)

    def words(self):
        """the command line, and what its values are"""
        rng, c = self.rng, self.c
        self.v = {}
        a = []
        for o, v in c["argv"]:
            if o == "c":
                x = os.path.join(self.d, "conf%d" % v)
            else:
                while (o, v) not in self.v:
                    x = value(rng, o)
                    if (o, 3 - v) not in self.v or self.v[o, 3 - v] != x:
                        self.v[o, v] = x
                x = self.v[o, v]
            a += ["-" + o, x] if rng.random() < .7 else ["-" + o + x]
        if c["stop"] == "help":
            a.append("-h")
        elif c["stop"] == "unknown":
            a.append(rng.choice(["-x", "-Q", "-z"]))
        elif c["stop"] == "noarg":
            a.append(rng.choice(["-c"] + (["-H", "-S"] if c["script"] in ("acknowledge", "downtime", "invoke_check") else [])))
        elif rng.random() < .15:
            a.append("--")
        if c["rest"] == "word":
            a.append(rng.choice(["word", "a b", "now"]))
        elif c["rest"] != "none":
            a += self.plugin()
        return a

    def plugin(self):
        rng, c = self.rng, self.c
        p, self.svc = rng.choice(PLUGINS)
        out = rng.choice([b"OK", b"", b"DISK OK - 10% free|/=5;6;7", b"two\nlines\n\nand more", b"C:\\new\\table \\c \\0101", b"tab\tin it", b"%d %s", "Größe".encode(),
                          b"trailing\n\n", b" lead and trail ", b"\\", b"-n x", b"a" * 5000, b"quote ' \" ` $HOME", b"[1] X"])
        self.out = out.rstrip(b"\n")
        with open(os.path.join(self.d, "out"), "wb") as f:
            f.write(out)
        self.pargs = rng.choice([[], ["-w", "20%"], ["-H", "other", "-S", "x", "-c", "5"], ["a b", "*", "$x"], ["-h"], ["--", "-c"]])
        st = {"more": rng.choice(["4", "127", "255", "126"])}.get(c["rest"], c["rest"])
        if c["rest"] != "missing":
            self.put(p, '#!/bin/sh\nfor i; do printf "%%s\\n" "$i"; done > %s/args\ncat %s/out\necho to stderr >&2\nexit %s\n' % (self.d, self.d, st))
        if rng.random() < .5 or "/" in p:
            p = os.path.join(self.bin, p)
        return [p] + self.pargs

    def serve(self):
        """one connection: the submissions"""
        subs = []
        self.l.s.settimeout(.02)
        end = time.time() + srv.patience()
        while True:
            try:
                s = self.l.s.accept()[0]
                break
            except socket.timeout:
                if self.p.poll() is not None:
                    return subs
                if time.time() > end:
                    raise Stuck("the script neither connects nor ends")
        s.settimeout(srv.patience())
        t = self.ctx.conn()
        buf, size = b"", None
        try:
            while True:
                d = s.recv(65536)
                if not d:
                    break
                t.feed(d)
                if not t.finished:
                    t.handshake()
                buf += t.read() if t.finished else b""
                while t.finished:
                    if size is not None:
                        if len(buf) < size:
                            break
                        subs.append(buf[:size])
                        buf, size = buf[size:], None
                        r = b"OKAY\r\n" if self.c["server"] == "good" else self.rng.choice([b"FAIL No\r\n", b"BAIL No\r\n"])
                        t.write(r)
                        if r[0] == 66:
                            t.shutdown()
                        continue
                    i = buf.find(b"\r\n")
                    if i < 0:
                        break
                    l, buf = buf[:i], buf[i + 2:]
                    if l.startswith(b"PUSH "):
                        size = int(l[5:])
                    t.write(b"MOIN 1\r\n" if l.startswith(b"MOIN") else b"OKAY\r\n")
                    if l == b"QUIT":
                        t.shutdown()
                if t.finished and t.eof:
                    t.shutdown()
                o = t.out()
                if o:
                    s.sendall(o)
                if t.finished and t.eof:
                    break
        except socket.timeout:
            raise Stuck("send_nsca is silent")
        except OSError:
            pass
        finally:
            s.close()
        return subs

    def date(self, text):
        o = subprocess.run(["date", "-d", text, "+%s"], stdout=subprocess.PIPE, env={"TZ": self.tz, "PATH": "/usr/bin:/bin"})
        return int(o.stdout)

    def run(self):
        rng, c = self.rng, self.c
        args = self.words()
        user = rng.choice([u for u in USERS if u in {x.pw_name for x in pwd.getpwall()}])
        self.tz = rng.choice(["UTC", "Europe/Berlin", "EST5EDT"])
        own = ["-H", self.l.host, "-p", str(self.l.port), "-c", os.path.join(self.d, "conf0")]
        env = {"PATH": self.bin + ":/usr/bin:/bin", "HOME": self.d, "USER": user, "LC_ALL": "C", "TZ": self.tz, "SEND_NSCA_ARGS": " ".join(own),
               "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:log_path=%s/asan" % self.d}
        if c["server"] == "down":
            self.l.close()
        t0 = time.time()
        with open(os.path.join(self.d, "err"), "wb") as e:
            self.p = subprocess.Popen([os.path.join(self.bin, c["script"])] + args, env=env, cwd=self.d, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=e,
                                      preexec_fn=lambda: (os.setsid(), srv._libc.prctl(1, 9)))
        tail = "; %s %s" % (c["script"], args)
        try:
            subs = self.serve() if c["server"] != "down" else []
            x = self.p.wait(srv.patience())
        except (Stuck, subprocess.TimeoutExpired) as e:
            return "%s%s" % (e, tail)
        t1 = time.time()
        err = open(os.path.join(self.d, "err"), errors="replace").read()
        tail += ", exit status %d: %s" % (x, err[-300:])
        if (x == 0) != (c["exit"] == "success"):
            return "%s is expected" % c["exit"] + tail
        if x and not err.strip():
            return "fails without a message" + tail
        if len(subs) != len(c["sent"]):
            return "%d submissions instead of %d: %r" % (len(subs), len(c["sent"]), subs[:3]) + tail
        if subs and [i for i in self.ids if i != b"id%d" % c["conf"]]:
            return "identity %r, configuration file %d is expected" % (self.ids, c["conf"]) + tail
        if subs and c["rest"] in ("0", "1", "2", "3"):
            got = open(os.path.join(self.d, "args")).read().split("\n")[:-1]
            if got != self.pargs:
                return "the plugin's arguments were %r" % got + tail
        if subs:
            m = re.fullmatch(rb"\[(\d+)\] ([^\n]*)\n", subs[0])
            if not m or not int(t0) <= int(m[1]) <= int(t1) + 1:
                return "submitted %r" % subs[0][:300] + tail
            got = m[2]
            for f, v in c["sent"][0]:
                w = self.field(f, v, user)
                if isinstance(w, tuple):
                    n = re.match(rb"\d+", got)
                    if not n or not w[0] <= int(n[0]) <= w[1]():
                        return "%r instead of %s (%d..%d), in %r" % (got[:40], f, w[0], w[1](), subs[0][:400]) + tail
                    w = n[0]
                if not got.startswith(w):
                    return "%r instead of %s %r, in %r" % (got[:60], f, w[:60], subs[0][:400]) + tail
                got = got[len(w):]
                if (f, v) != tuple(c["sent"][0][-1]):
                    if not got.startswith(b";"):
                        return "%r follows %s in %r" % (got[:40], f, subs[0][:400]) + tail
                    got = got[1:]
            if got:
                return "%r at the end of %r" % (got[:100], subs[0][:400]) + tail
        a = [f for f in os.listdir(self.d) if f.startswith("asan")]
        return open(os.path.join(self.d, a[0])).read()[:1000] if a else None

    def field(self, f, v, user):
        """the bytes of a field, or the bounds of a time"""
        result = self.c["script"] == "invoke_check"
        esc = lambda x: x.replace(b"\\", b"\\\\").replace(b"\n", b"\\n") if result else x
        if v == -1:
            if f == "author":
                return pwd.getpwnam(user).pw_gecos.encode()
            return esc(self.out) if f == "output" else f.encode()
        if f in "se":
            text = self.v[f, v] if v else {"s": "now", "e": "+2 hours"}[f]
            b = self.date(text)
            return (b - 30 if not text.startswith(("@", "2", "1")) else b, lambda: b + (1 if not text.startswith(("@", "2", "1")) else 0))
        if v:
            return esc(self.v[f, v].encode())
        if f == "H":
            return (self.short.lower() if result else self.short).encode()
        if f == "S":
            return self.svc.encode()
        return ("Submitted by send_nsca@" + self.short).encode()

    def close(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except (OSError, AttributeError):
            pass
        if hasattr(self, "p"):
            self.p.wait()
        self.l.close()
        shutil.rmtree(self.d, ignore_errors=True)


def drive(scenarios):
    res = []
    for case, seed in scenarios:
        r = Run(case, seed)
        try:
            res.append(r.run())
        finally:
            r.close()
    return res


CFG = """SPECIFICATION Spec
CONSTANTS MaxOpts = %d
 Emit = TRUE
INVARIANTS TypeOK Honest FromOptions Complete NoHalf EmitDone
CHECK_DEADLOCK FALSE
"""


def x01(c):
    build.client()
    r = tlc.run("Contrib", CFG % 3, workers=4)
    assert r.ok, r.errors()
    c.model(r, "Contrib, up to three options, exhaustive")
    if not c.quick:
        x = tlc.run("Contrib", (CFG % 5).replace("Emit = TRUE", "Emit = FALSE"), workers=8)
        assert x.ok, x.errors()
        c.model(x, "Contrib, up to five options, exhaustive")
    cases = r.tagged("d")
    c.rng.shuffle(cases)
    seen, pick, rest = {}, [], []
    for x in cases:
        usage = x["exit"] == "failure" and not x["sent"] and x["server"] != "down"
        k = json.dumps([x["script"], x["stop"], x["rest"], x["server"]] + ([] if usage else [sorted({o for o, v in x["argv"]})]))
        seen[k] = seen.get(k, 0) + 1
        (pick if seen[k] <= 1 else rest).append(x)
    c.count("classes", len(pick))
    good = [x for x in rest if x["sent"]]
    pick += good[:500 if c.quick else 6000] + rest[:50 if c.quick else 1000]
    c.rng.shuffle(pick)
    sc = [[x, c.rng.randrange(1 << 30)] for x in pick]
    for x in sc[:4]:
        c.sample(x[0])
    c.assumptions += ["GNU date(1), getent(1) and the shell installed here; hostname(1) is replaced.",
                      "Values without line breaks and, for host and service, without \";\"; paths of configuration files without blanks; not empty."]
    c.replay(drive, sc, chunk=6, budget=150 if c.quick else 780)


CHECKS = {"X01": x01}

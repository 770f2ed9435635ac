"""C02: what send_nsca makes of its input (spec/Translate.tla); C04: how the input arrives (spec/Input.tla)."""
import re
from common import *
from fake import Listener, Peer, SendNsca, server_ctx
from lifecycle import paths

CONF = 'identity = "me"\npassword = "secret"\n'
NUL = b"\0"


class Style:
    """a way of writing the letters down"""

    def __init__(self, rng, mode, n_letter=True, big=.01):
        self.rng, self.mode = rng, mode
        self.big = big
        self.args = []
        self.d, self.s = b"\t", b"\x17"
        if mode == "command":
            self.args.append("-C")
            if rng.random() < .3:       # ignored
                self.args += ["-d", rng.choice([";", " ", "0x20"])]
            if rng.random() < .3:
                self.args += ["-e", rng.choice(["|", "x", "\\n"])]
            self.s = b"\n"
            rng.shuffle(self.args[1:])
        else:
            if rng.random() < .6:
                self.d = rng.choice([b";", b"|", b",", b"n", b" ", b"\x01", b"\x7f", b"0", b"\"", b"%", b"[", b"\x0c", b"a", b"\x1f"])
            if not n_letter and rng.random() < .5:
                self.s = b"\n"
            elif rng.random() < .4:
                self.s = rng.choice([x for x in (b"\x01", NUL, b"n", b"|", b"%", b"\x1e", b"\x04", b"#", b"\x7f", b"\t", b"N", b"\x0b") if x != self.d])
            if self.d != b"\t" or rng.random() < .2:
                self.args += ["-d", self.arg(self.d)]
            if self.s != b"\x17" or rng.random() < .2:
                self.args += ["-e", self.arg(self.s)]
            if len(self.args) == 4 and rng.random() < .5:
                self.args = self.args[2:] + self.args[:2]

    def arg(self, b):
        """a character as an option argument, in one of the documented ways"""
        v = b[0]
        f = ["\\%03o" % v, "\\x%02x" % v, "0x%02x" % v, "0x%X" % v, "0%o" % v, "0%02o" % v]
        c = {7: "\\a", 8: "\\b", 12: "\\f", 10: "\\n", 13: "\\r", 9: "\\t", 11: "\\v"}.get(v)
        if c:
            f += [c] * 3
        if v and v != 10:
            f += [chr(v)] * 3
        if v < 8:
            f += ["\\%o" % v]
        return self.rng.choice(f)

    def text(self, first):
        """ordinary text; first: at the start of a record"""
        rng = self.rng
        n = rng.choice([1, 1, 2, 3, 8, 20])
        if rng.random() < self.big:
            n = rng.choice([1000, 1023, 1024, 2047, 2048, 4096, 16384, 70000, 300000])
        kind = rng.randrange(4)
        pool = [b"abcxyz019 .,:;-_=/!", b"nnnrt0 x", bytes(range(1, 256)), bytes(range(128, 256))][kind]
        if self.mode == "command":
            pool = pool.translate(None, b"\n\\\r\0") or b"x"
        else:
            pool = pool.translate(None, b"\n\\\r\0" + self.d + self.s) or b"x"
        r = bytes(rng.choice(pool) for _ in range(min(n, 3000)))
        r = (r * (n // len(r) + 1))[:n]
        if self.mode == "command" and r[:1] in b"[ \t":
            r = b"P" + r[1:]
        return r

    def letter(self, x, first=False):
        if x == "a":
            return self.text(first)
        return {"D": self.d, "S": self.s, "N": b"\n", "B": b"\\", "[": b"["}.get(x) or self.rng.choice([b" ", b"\t", b"  ", b" \t \t"])


def render(letters, conc, cmd, mode):
    """the text of a command after its timestamp; None for kind "own" """
    kind, toks = cmd
    r = b""
    for t in toks:
        if t == 0:
            r += b";"
        elif mode == "result" and letters[t - 1] == "N":
            r += b"\\n"
        elif mode == "result" and letters[t - 1] == "B":
            r += b"\\\\"
        else:
            r += conc[t - 1]
    return {"host": b"PROCESS_HOST_CHECK_RESULT;", "svc": b"PROCESS_SERVICE_CHECK_RESULT;"}.get(kind, b"") + r


def check_data(kind, want, d, t0, t1):
    """does the submission d consist of the command with the current time?"""
    if kind == "own":
        return d == want + b"\n"
    m = re.match(rb"\[(\d+)\] ", d)
    return bool(m) and t0 <= int(m[1]) <= t1 and d[m.end():] == want + b"\n"


class Serve:
    """a server which acknowledges everything, at once"""

    def __init__(self, args, data, conf=CONF, ctx=None):
        self.ctx = ctx or server_ctx(b"secret")
        self.l = Listener()
        self.l.s.settimeout(20)
        self.f = os.path.join(srv.scratch("in"), "data")
        with open(self.f, "wb") as f:
            f.write(data)
        with open(self.f, "rb") as f:
            self.p = SendNsca(conf, args, host=self.l.host, port=self.l.port, pipe=False, stdin=f, shim=False)
        self.subs = []
        self.quit = False

    def run(self):
        """(exit status, submissions, quit seen); None for no connection"""
        import socket
        self.l.s.settimeout(.02)
        end = time.time() + srv.patience()
        while True:
            try:
                c = self.l.s.accept()[0]
                break
            except socket.timeout:
                if self.p.poll() is not None:
                    return self.p.poll(), None, False
                if time.time() > end:
                    raise Stuck("does not connect")
        t = self.ctx.conn()
        c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        c.settimeout(srv.patience())
        buf = b""
        size = None
        try:
            while True:
                try:
                    d = c.recv(65536)
                except socket.timeout:
                    raise Stuck("send_nsca is silent: %r" % buf[:100])
                if not d:
                    break
                t.feed(d)
                if not t.finished:
                    if t.handshake() == "err" and not t.finished:
                        return self.p.wait(), None, False
                    o = t.out()
                    if o:
                        c.sendall(o)
                    if not t.finished:
                        continue
                buf += t.read()
                o = t.out()
                while True:
                    if size is not None:
                        if len(buf) < size:
                            break
                        self.subs.append(buf[:size])
                        buf, size = buf[size:], None
                        t.write(b"OKAY\r\n")
                        continue
                    i = buf.find(b"\r\n")
                    if i < 0:
                        break
                    l, buf = buf[:i], buf[i + 2:]
                    if re.match(rb"^PUSH [1-9]\d*$", l):
                        size = int(l[5:])
                        if size > 1 << 30:
                            return "PUSH %d" % size, self.subs, False
                    elif l.startswith(b"MOIN 1 "):
                        t.write(b"MOIN 1\r\n")
                        continue
                    elif l == b"QUIT":
                        self.quit = True
                    else:
                        return "request %r" % l, self.subs, False
                    t.write(b"OKAY\r\n")
                    if self.quit:
                        t.shutdown()
                o += t.out()
                if o:
                    c.sendall(o)
        except OSError:
            pass
        finally:
            c.close()
        if buf or size is not None:
            return "incomplete submission %r" % buf[:100], self.subs, self.quit
        return self.p.wait(), self.subs, self.quit

    def close(self):
        self.p.close()
        self.l.close()
        import shutil
        shutil.rmtree(os.path.dirname(self.f), ignore_errors=True)


def one(mode, items, last_sep, seed):
    """one run of send_nsca; items: [string, commands]; all but the last are without error"""
    rng = random.Random(seed)
    has_n = mode == "result" and any("N" in s for s, o in items)
    st = Style(rng, mode, has_n)
    want = []
    data = b""
    for k, (s, o) in enumerate(items):
        conc = [st.letter(x, i == 0 or s[i - 1] in "SN") for i, x in enumerate(s)]
        data += b"".join(conc)
        if k < len(items) - 1 or last_sep:
            data += st.s
        want += [(c[0], None if c[0] == "err" else render(s, conc, c, mode)) for c in o]
    err = bool(want) and want[-1][0] == "err"
    want = [w for w in want if w[0] != "err"]
    v = Serve(st.args, data)
    try:
        t0 = int(time.time())
        x, subs, quit_ = v.run()
        t1 = int(time.time())
        tail = "; options %s, input %r" % (st.args, data[:600])
        if subs is None:
            return "exit status %s without a session: %s" % (x, v.p.stderr()[-300:]) + tail
        for i, (kind, w) in enumerate(want):
            if i >= len(subs):
                break
            if not check_data(kind, w, subs[i], t0, t1):
                return "submission %d is %r instead of %r" % (i, subs[i][:400], w[:400]) + tail
        if len(subs) != len(want):
            return "%d submissions instead of %d: %r" % (len(subs), len(want), subs[-2:]) + tail
        if x != (1 if err else 0) or quit_ == err:
            return "exit status %s, %s QUIT: %s" % (x, "with" if quit_ else "without", v.p.stderr()[-300:]) + tail
        if err and not v.p.stderr().strip():
            return "fails without a message" + tail
        return v.p.asan()[:1500] or None
    except Stuck as e:
        return "%s: %r" % (e, data[:600])
    finally:
        v.close()


def drive(part):
    return [one(*x) for x in part]


# unusable options
BADOPT = [["-d", "\\\\"], ["-d", "\\"], ["-d", "\\n"], ["-d", "0x0a"], ["-d", "\\12"], ["-d", "\n"], ["-d", "\\27"], ["-d", "0x17"], ["-d", "027"], ["-d", "\x17"],
          ["-d", "\\0"], ["-d", "\\x0"], ["-d", "0x00"], ["-d", "00"], ["-d", "ab"], ["-d", "0x80"], ["-d", "0xff"], ["-d", "\\200"], ["-d", "\\xff"], ["-d", "09"],
          ["-d", "0x"], ["-d", "0xg"], ["-d", "\\x"], ["-d", "\\q"], ["-d", "0x1234"], ["-d", "\\x1234"], ["-d", "0177777777777777777777"], ["-d", ""], ["-d", "tab"],
          ["-d", "12"], ["-d", "0x-1"], ["-d", "0-1"], ["-e", ""], ["-e", "ab"], ["-e", "0x80"], ["-e", "\\400"], ["-e", "\\xfg"], ["-e", "0x123"], ["-e", "ETB"],
          ["-e", "\t"], ["-e", "\\t"], ["-e", "0x9"], ["-d", ";", "-e", ";"], ["-e", "|", "-d", "0x7c"], ["-d", "\xc3\xa4"], ["-d", "x" * 5000], ["-e", "0" * 300],
          ["-x"], ["-d"], ["-C", "more"], ["more"]]


def badopt(part):
    res = []
    for a in part:
        l = Listener()
        s = SendNsca(CONF, a, host=l.host, port=l.port, pipe=False, shim=False)
        try:
            x = s.gone(20)
            m = None
            if x is None or x == 0 or x < 0 or x >= 99:
                m = "exit status %s with options %s" % (x, a)
            elif not s.stderr().strip():
                m = "no message with options %s" % a
            elif l.waiting():
                m = "connects with options %s" % a
            res.append(s.asan()[:1500] or m)
        finally:
            s.close()
            l.close()
    return res


def strings(c, mode, n):
    r = c.model(tlc.run("Translate", "SPECIFICATION Spec\nINVARIANT Composes Kept Arity LastOpt EmitString\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Mode = %s\n L = %d\n Emit = TRUE\n" % (
        tlc.tla(mode), n), workers=1), "Translate, mode %s, all strings up to %d letters" % (mode, n))
    return [["".join(s), o] for s, o in r.tagged("s") if not any(x[0] == "open" for x in o)]


def c02(c):
    build.client()
    res, com = tlc.parallel(lambda: strings(c, "result", 7 if c.quick else 8), lambda: strings(c, "command", 6 if c.quick else 7))
    sc = []
    seed = lambda: c.rng.randrange(1 << 30)
    rnd = c.rng.random
    for mode, xs in (("result", res), ("command", com)):
        good = [x for x in xs if not x[1] or x[1][-1][0] != "err"]
        bad = [x for x in xs if x[1] and x[1][-1][0] == "err"]
        c.count("strings_" + mode, len(xs))
        c.rng.shuffle(good)
        if c.quick and mode == "command":
            good = good[:8000]
        # those with a newline, for which the separator cannot be one, and the others
        for part in ([x for x in good if "N" in x[0]], [x for x in good if "N" not in x[0]]):
            for i in range(0, len(part), 40):
                sc.append([mode, part[i:i + 40], rnd() < .5, seed()])
        for x in part[:150 if c.quick else 1500]:       # on their own, with and without the last separator
            sc.append([mode, [x], rnd() < .5, seed()])
        c.rng.shuffle(bad)
        bad.sort(key=lambda x: len(x[1]) < 2)           # those which come after good records first
        some = bad[:500 if c.quick else 5000]
        some += c.rng.sample(bad, min(len(bad), 900 if c.quick else 9000))
        for x in some:
            sc.append([mode, c.rng.sample(good, c.rng.choice([0, 0, 1, 3])) + [x], rnd() < .5, seed()])
    c.count("strings_replayed", sum(len(x[1]) for x in sc))
    c.rng.shuffle(sc)
    for x in sc[:3]:
        c.sample(x[1][:6])
    c.assumptions += ["Lines of blanks only and carriage returns next to line ends are not judged with -C; NUL bytes occur as separators only."]
    c.replay(badopt, BADOPT, chunk=4)
    c.replay(drive, sc, chunk=20, budget=60 if c.quick else 800)


# --- C04

class Piecewise:
    def __init__(self, path, seed):
        self.rng = rng = random.Random(seed)
        self.path = path
        letters = [a[1] for a, o, v in path if a[0] == "feed"]
        self.st = Style(rng, "result", "N" in letters, big=.05)
        self.conc = []
        self.letters = []
        self.l = Listener()
        self.s = SendNsca(CONF, self.st.args + ["-o", "0"], host=self.l.host, port=self.l.port)
        self.c = None
        self.held = b""         # fed in the model, not yet written
        self.buf = b""
        self.size = None
        self.nletters = len(letters)

    def put(self, b, last=False):
        """write all or part of it; what cannot be a separator may come later"""
        self.held += b
        rng = self.rng
        k = len(self.held)
        if self.held and not last and self.held[-1:] != self.st.s and rng.random() < .4:
            k = rng.randrange(0, len(self.held))
            if self.st.s in self.held[k:]:
                k = len(self.held)
        x, self.held = self.held[:k], self.held[k:]
        while x:
            n = len(x) if rng.random() < .7 else rng.randrange(1, len(x) + 1)
            self.s.put(x[:n])
            x = x[n:]
            if x:
                self.settle()

    def settle(self):
        if self.s.alive and self.s.ctl:
            try:
                self.s.settle()
            except Died:
                pass

    def expect(self, obs, done):
        """exactly these messages come"""
        got = []
        end = time.time() + 8
        quiet = 2
        while time.time() < end:
            self.settle()
            if self.c:
                self.buf += self.c.pump()
            while self.buf:
                if self.size is not None:
                    if len(self.buf) < self.size:
                        break
                    got.append(["DATA", self.buf[:self.size]])
                    self.buf, self.size = self.buf[self.size:], None
                    continue
                i = self.buf.find(b"\r\n")
                if i < 0:
                    break
                l, self.buf = self.buf[:i], self.buf[i + 2:]
                m = re.match(rb"^PUSH ([1-9]\d*)$", l)
                if m:
                    got.append(["PUSH"])
                    self.next = int(m[1])
                elif l.startswith(b"MOIN 1 ") or l == b"QUIT":
                    got.append([l[:4].decode()])
                else:
                    return "request %r" % l
            if len(got) >= (1 if obs else 0) and not self.buf:
                if not quiet or not self.s.alive:
                    break
                quiet -= 1
                continue
            time.sleep(.001)
        if [g[0] for g in got] != obs[:1]:
            return "sends %s instead of %s" % ([g[:1] + [x[:80] for x in g[1:]] for g in got], obs[:1])
        if obs and obs[0] == "DATA":
            kind = obs[1][0]
            w = render(self.letters, self.conc, obs[1], "result")
            d = got[0][1]
            now = self.s.now // 10 ** 9
            if not check_data(kind, w, d, self.asked, now):
                return "submission %r instead of %r" % (d[:300], w[:300])
        if self.buf:
            return "unexpected %r" % self.buf[:100]
        return None

    def run(self):
        rng = self.rng
        if not self.s.wait_hello():
            return "does not run: %s" % self.s.stderr()[-300:]
        last = max([i for i, p in enumerate(self.path) if p[0][0] == "feed"] or [-1])
        state = "hs"
        self.asked = srv.T0 // 10 ** 9
        for i, (a, o, v) in enumerate(self.path):
            obs, nxt = o
            if a[0] == "feed":
                first = not self.letters or self.letters[-1] in "SN"
                self.letters.append(a[1])
                self.st.big *= sum(map(len, self.conc)) < 500000        # the pipe takes 1 MB
                self.conc.append(self.st.letter(a[1], first))
                self.put(self.conc[-1])
            elif a[0] == "close":
                self.put(b"", True)
                if rng.random() < .5:
                    self.settle()
                self.s.eof()
            elif a[0] == "shake":
                sock = self.l.accept()
                if sock is None:
                    return "does not connect"
                self.c = Peer(self.s, sock, server_ctx(b"secret"))
                end = time.time() + 10
                while not self.c.t.finished and time.time() < end:
                    self.settle()
                    self.c.take(.3)
                    self.c.t.handshake()
                    x = self.c.t.out()
                    if x:
                        self.c.send_raw(x)
            elif a[0] == "reply":
                if state == "push":
                    self.size = self.next
                self.c.send_raw(self.c.record(b"MOIN 1\r\n" if state == "moin" else b"OKAY\r\n"))
                if state == "quit":
                    self.c.close_notify()
            if nxt == "push" and state != "push":
                self.asked = self.s.now // 10 ** 9
            m = self.expect(obs, None)
            if m:
                return m + "; step %d (%s)" % (i, a)
            state = nxt
            if state in ("over", "failed"):
                x = self.s.gone()
                if x != (0 if state == "over" else 1):
                    return "exit status %s: %s" % (x, self.s.stderr()[-300:])
                return self.s.asan()[:1500] or None
            if not self.s.alive:
                return "exits %s: %s" % (self.s.gone(), self.s.stderr()[-300:])
            if rng.random() < .3:
                try:
                    self.s.adv(rng.choice([.2, 1, 16, 100, 5000]))
                except Died:
                    return "exits %s: %s" % (self.s.gone(), self.s.stderr()[-300:])
        return self.s.asan()[:1500] or None

    def close(self):
        if self.c:
            self.c.close()
        self.l.close()
        self.s.close()


def drive4(part):
    res = []
    for path, seed in part:
        if path == "pieces":
            res.append(pieces(seed))
            continue
        w = Piecewise(path, seed)
        try:
            m = w.run()
            res.append(m and {"what": m, "steps": [a for a, o, v in path], "options": w.st.args})
        except (Died, Stuck) as e:
            res.append("%s %s" % (type(e).__name__, e))
        finally:
            w.close()
    return res


def pieces(seed):
    """many and large records in arbitrary pieces: as if they came at once"""
    rng = random.Random(seed)
    st = Style(rng, "result", False, big=.03)
    want, data = [], b""
    for _ in range(rng.choice([3, 30, 300])):
        k = rng.choice([0, 2, 3, 5])
        f = [st.text(False) for _ in range(k + 1)] if k else []
        data += st.d.join(f) + st.s
        if k:
            h = b"PROCESS_HOST_CHECK_RESULT;" if k == 2 else b"PROCESS_SERVICE_CHECK_RESULT;"
            want.append(h + b";".join(f[:3]) + b"".join(b";" + st.d.join(f[3:]) for _ in range(k > 2)))
    if rng.random() < .5:
        data = data[:-1]
    l = Listener()
    s = SendNsca(CONF, st.args + ["-o", "0"], host=l.host, port=l.port)
    c = None
    try:
        if not s.wait_hello():
            return "does not run"
        buf, size, got, sent, quit_ = b"", None, [], 0, False
        end = time.time() + 60
        closed = False
        while s.alive and time.time() < end:
            if sent < len(data) and rng.random() < .7:
                n = rng.choice([1, 10, 1000, 2048, 4096, 65536, 1 << 20])
                try:
                    sent += os.write(s.p.stdin.fileno(), data[sent:sent + n])
                except (BlockingIOError, BrokenPipeError):
                    pass
            elif sent >= len(data) and not closed:
                s.eof()
                closed = True
            try:
                s.settle()
            except Died:
                pass
            if c is None:
                if rng.random() < .3 or closed:
                    sock = l.accept()
                    c = Peer(s, sock, server_ctx(b"secret"))
                continue
            if not c.t.finished:
                c.take(.02)
                c.t.handshake()
                x = c.t.out()
                if x:
                    c.send_raw(x)
                continue
            buf += c.pump()
            while True:
                if size is not None:
                    if len(buf) < size:
                        break
                    got.append(buf[:size])
                    buf, size = buf[size:], None
                    c.send_raw(c.record(b"OKAY\r\n"))
                    continue
                i = buf.find(b"\r\n")
                if i < 0:
                    break
                x, buf = buf[:i], buf[i + 2:]
                if x.startswith(b"PUSH "):
                    size = int(x[5:])
                elif x == b"QUIT":
                    quit_ = True
                c.send_raw(c.record(b"MOIN 1\r\n" if x.startswith(b"MOIN") else b"OKAY\r\n"))
                if quit_:
                    c.close_notify()
        bare = [re.sub(rb"^\[\d+\] ", b"", x) for x in got]
        if bare != [w + b"\n" for w in want]:
            k = next((i for i, (x, w) in enumerate(zip(bare, want)) if x != w + b"\n"), min(len(bare), len(want)))
            return "submission %d of %d is %r instead of %r; options %s" % (k, len(want), bare[k:k + 1] and bare[k][:200], want[k:k + 1] and want[k][:200], st.args)
        x = s.gone()
        if x != 0 or not quit_:
            return "exit status %s: %s" % (x, s.stderr()[-300:])
        return s.asan()[:1500] or None
    except (Died, Stuck) as e:
        return "%s %s" % (type(e).__name__, e)
    finally:
        if c:
            c.close()
        l.close()
        s.close()


def arrival(c, n, letters):
    r = c.model(tlc.run("Input", "SPECIFICATION Spec\nINVARIANT Whole Partial EndsRight NoWaste\nVIEW View\nACTION_CONSTRAINT EmitEdge\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"
                        " L = %d\n Letters = %s\n Emit = TRUE\n" % (n, tlc.tla(set(letters))), workers=1), "Input, %d letters of %s" % (n, letters))
    return tlc.LTS([[[], 0, False, "hs", []]], [[f, [a[0], a[1:]], t] for f, a, t in r.tagged("e")])


def c04(c):
    build.client()
    big, nl = tlc.parallel(lambda: arrival(c, 7 if c.quick else 8, "aDS"), lambda: arrival(c, 5 if c.quick else 6, "aDSN"))
    sc = []
    for lts, n in ((big, 3500), (nl, 1500)):
        c.count("model_edges", lts.nedges)
        for init, p in paths(lts, c.rng, 24, lambda a, s, t: a[0] != "feed" or s[3] != "hs" or a[1] != "a", n if c.quick else None):
            sc.append([p, c.rng.randrange(1 << 30)])
    c.count("steps", sum(len(x[0]) for x in sc))
    sc += [["pieces", c.rng.randrange(1 << 30)] for _ in range(40 if c.quick else 600)]
    c.rng.shuffle(sc)
    for x in sc[:3]:
        c.sample([y[0] for y in x[0]] if x[0] != "pieces" else x[0])
    c.assumptions += ["Pauses are virtual time; the timeout is 0, as send_nsca's also applies to slow input."]
    c.replay(drive4, sc, chunk=15, budget=60 if c.quick else 800)


CHECKS = {"C02": c02, "C04": c04}

"""C05: send_nsca's configuration file (spec/ClientConf.tla) and where settings come from (spec/Settings.tla)."""
import contextlib, fcntl, socket
from common import *
from fake import Listener, Peer, SendNsca
from serverconf import LOCK, unused
from translate import Serve

PLAIN = bytes(x for x in range(33, 256) if x not in b"\\\"'#=\x7f") + b"\x01\x0b"
HOSTNAME = socket.gethostname().encode()


def plain(rng, n):
    pool = rng.choice([b"abcnrt01xyz", PLAIN, b"-_/:;,.@(){}[]~!$%&*+<>?^`|"])
    return bytes(rng.choice(pool) for _ in range(n))


def render(letters, out, rng):
    """the letters as bytes, one string for each"""
    used = set(out[1] + out[2]) if out[0] == "ok" else set(range(len(letters) + 1))
    r = []
    crlf = rng.random() < .3
    large = rng.randrange(len(letters) + 1) if rng.random() < .3 else -1
    for i, x in enumerate(letters):
        prev = letters[i - 1] if i else ""
        if x == "w":
            n = 1 if prev == "b" or letters[max(i - 2, 0):i] == ["b", "N"] else rng.choice([1, 1, 2, 3]) if i + 1 in used or i != large else rng.choice([250, 500, 509, 510, 511, 512, 1020, 1500, 5000 if prev == "N" else 1100])
            r.append(bytes(rng.choice(b" \t") for _ in range(n)))
        elif x == "a":
            n = rng.choice([1, 1, 2, 3, 8]) if i + 1 in used or i != large else rng.choice([250, 500, 511, 512, 1500, 3000 if prev == "h" else 1000])
            r.append(plain(rng, n))
        elif x == "N":
            r.append(b"\r\n" if prev != "b" and crlf and rng.random() < .9 else b"\n")
        else:
            r.append({"i": b"identity", "p": b"password", "e": b"=", "q": b'"', "s": b"'", "b": b"\\", "h": b"#"}[x])
    return r


def status(x, p):
    """None if this is how a refused configuration ends"""
    if x is None or not isinstance(x, int) or x <= 0 or x >= 99:
        return "exit status %s" % x
    if not p.stderr().strip():
        return "no message"


def text(letters, out, seed):
    rng = random.Random(seed)
    pieces = render(letters, out, rng)
    conf = b"".join(pieces)
    if out[0] == "open":
        exp = [None, None]
    else:
        exp = [v if v is None else b"".join(pieces[n - 1] for n in v) for v in
               (None if v == [0] else v for v in (out[1:] if out[0] == "ok" else [[0], [0]]))]
    ident = HOSTNAME if exp[0] is None else exp[0]
    key = b"change-me" if exp[1] is None else exp[1]
    gray = out[0] == "open" or not ident or not key or len(ident) > 250 or len(key) > 250
    ctx = tls.Ctx("server", keys=lambda i: key or b"x")
    v = Serve([], b"", conf=conf, ctx=ctx)
    try:
        x, subs, quit_ = v.run()
        tail = "; file %r" % conf[:1500]
        a = v.p.asan()
        if a:
            return a[:1500] + tail
        if gray:
            return None if x in (0, 1) else "exit status %s" % x + tail
        if out[0] == "err":
            if subs is not None or ctx.seen:
                return "contacts a server with an unusable configuration" + tail
            m = status(x, v.p)
            return m and m + tail
        if subs is None:
            return "no session (exit status %s, identity %r, expected password %r): %s" % (x, ctx.seen, key, v.p.stderr()[-200:]) + tail
        if ctx.seen[-1:] != [ident]:
            return "identity %r instead of %r" % (ctx.seen[-1:], ident) + tail
        if x != 0:
            return "exit status %s: %s" % (x, v.p.stderr()[-200:]) + tail
    except Stuck as e:
        return "%s; file %r" % (e, conf[:1000])
    finally:
        v.close()


def texts(part):
    return [text(*x) for x in part]


# --- where settings come from

TIMEOUTS = [15, 0, 7, 40]
DELAYS = [0, 0, 3, 100000]
SUITES = ["PSK-AES128-CBC-SHA", "PSK-AES256-CBC-SHA"]
IDS = [None, {0x8c}, {0x8d}]


def written(rng, v):
    """the value in one of the ways the manual allows"""
    v = v if isinstance(v, bytes) else str(v).encode()
    k = rng.randrange(4)
    if k == 0 and v:
        r = b"".join(b"\\" + bytes([x]) if x in b" \t#\"'\\" or rng.random() < .05 else bytes([x]) for x in v)
    elif k == 1:
        r = b"'" + b"".join(b"\\" + bytes([x]) if x in b"'\\" else bytes([x]) for x in v) + b"'"
    else:
        r = b'"' + b"".join(b"\\" + bytes([x]) if x in b'"\\' else bytes([x]) for x in v) + b'"'
    if rng.random() < .1:
        i = rng.randrange(len(r) + 1)
        while r[:i].endswith(b"\\"):
            i -= 1
        r = r[:i] + b"\\\n" + r[i:]
    return r


def hello_suites(b):
    """the cipher suites of a ClientHello, None if it is not complete yet"""
    if len(b) < 5 or len(b) < 5 + int.from_bytes(b[3:5], "big"):
        return None
    i = 5 + 4 + 2 + 32
    i += 1 + b[i]
    n = int.from_bytes(b[i:i + 2], "big")
    return {int.from_bytes(b[j:j + 2], "big") for j in range(i + 2, i + 2 + n, 2)}


def setting(cmd, file, eff, seed):
    rng = random.Random(seed)
    h = srv.my_host()
    hosts = ["127.0.0.1", h, "127.250." + h.split(".", 2)[2]]
    words = lambda: plain(rng, rng.choice([1, 5, 20])) + rng.choice([b"", b" ", b"#", b"\\", b"'", b'"', b"="]) + plain(rng, 3)
    idents = [HOSTNAME, words(), words()]
    keys = [b"change-me", words(), words()]
    stack = contextlib.ExitStack()
    with stack:
        probe = [stack.enter_context(contextlib.closing(Listener(hosts[2]))) for _ in range(2)]
        ports = [5668] + [p.port for p in probe]
        for p in probe:
            p.close()
        if eff["port"] == 0:
            lock = stack.enter_context(open(LOCK, "w"))
            fcntl.flock(lock, fcntl.LOCK_EX)
            if not unused(5668):
                return None
        val = {"server": hosts, "port": ports, "timeout": TIMEOUTS, "delay": DELAYS, "identity": idents, "password": keys,
               "tls_ciphers": [None] + SUITES, "encryption_method": [None, rng.choice([b"1", b"none", b"14", b"mcrypt \\x"])]}
        at = (hosts[eff["server"]], ports[eff["port"]])
        try:
            l = stack.enter_context(contextlib.closing(Listener(*at)))
        except OSError:
            return None         # somebody took the port
        # the order of different names does not matter
        order = {n: rng.random() for n in val}
        mixed = lambda q: q if rng.random() < .3 else [q[i] for i in merge(rng, [n for n, v in q])]
        args = []
        for n, v in mixed(cmd):
            o = {"server": "-H", "port": "-p", "timeout": "-o", "delay": "-D"}[n]
            a = str(val[n][v])
            args += [o + a] if rng.random() < .4 else [o, a]
        lines = []
        for n, v in mixed(file):
            lines.append(b"%s%s%s=%s%s%s\n" % (rng.choice([b"", b" "]), n.encode(), rng.choice([b"", b" ", b"\t "]), rng.choice([b"", b" "]), written(rng, val[n][v]),
                                               rng.choice([b"", b" ", b" # x", b"#"])))
            if rng.random() < .1:
                lines.append(rng.choice([b"\n", b"# server = x\n", b"  \n", b"#\n"]))
        conf = b"".join(lines)
        if rng.random() < .2:
            conf = conf[:-1]
        tail = "; options %s, file %r" % (args, conf)
        s = SendNsca(conf, args, pipe=False)
        stack.callback(s.close)
        key = keys[eff["password"]]
        try:
            if not s.wait_hello():
                return "exits %s: %s" % (s.poll(), s.stderr()[-300:]) + tail
            sock = l.accept(srv.patience() / 2)
            if sock is None:
                return "does not connect to %s:%d" % at + tail
            slept = [e["ns"] / 1e9 for e in s.events() if e["e"] == "sleep"]
            d = DELAYS[eff["delay"]]
            if slept if d == 0 else len(slept) != 1 or not (slept[0] <= 3 + 1e-6 if d == 3 else 3 < slept[0] <= d + 1):
                return "sleeps %s, the delay is %s" % (slept, d) + tail
            end = time.time() + srv.patience()
            suites = None
            while suites is None:
                if time.time() > end:
                    return "no ClientHello" + tail
                s.settle()
                suites = hello_suites(sock.recv(65536, socket.MSG_PEEK))
            psk = {x for x in suites if x >> 8 != 0x13 and x != 0xff}
            want = IDS[eff["tls_ciphers"]]
            if psk != want if want else not {0x8c, 0x8d} <= psk <= {0x8a, 0x8b, 0x8c, 0x8d}:
                return "offers the cipher suites %s" % [hex(x) for x in psk] + tail
            ctx = tls.Ctx("server", keys=lambda i: key)
            c = Peer(s, sock, ctx)
            stack.callback(c.close)
            while not c.t.finished:
                if time.time() > end or c.t.err or c.closed:
                    return "no session with password %r (identity %r): %s" % (key, ctx.seen, c.t.err) + tail
                c.take(.3)
                c.t.handshake()
                x = c.t.out()
                if x:
                    c.send_raw(x)
                s.settle()
            if ctx.seen[-1:] != [idents[eff["identity"]]]:
                return "identity %r" % ctx.seen + tail
            t = TIMEOUTS[eff["timeout"]]
            if t:
                s.adv(t - .5)
                if s.gone(.01) is not None:
                    return "gives up before the timeout of %s seconds" % t + tail
                try:
                    s.adv(1)
                except Died:
                    pass
                if s.gone(srv.patience()) != 1:
                    return "exit status %s after the timeout of %s seconds" % (s.poll(), t) + tail
            else:
                s.adv(rng.choice([20, 100, 100000]))
                if s.gone(.01) is not None:
                    return "gives up although there is no timeout" + tail
            return s.asan()[:1500] or None
        except (Died, Stuck) as e:
            return "%s %s" % (type(e).__name__, e) + tail


def merge(rng, names):
    """a random order of the indices which keeps that of equal names"""
    q = {}
    for i, n in enumerate(names):
        q.setdefault(n, []).append(i)
    pick = list(names)
    rng.shuffle(pick)
    return [q[n].pop(0) for n in pick]


def settings(part):
    return [setting(*x) for x in part]


# --- configurations which cannot be used

BAD = [b"timeout = five\n", b"timeout = 5s\n", b'timeout = ""\n', b"timeout = '7 '\n", b"timeout = 7 7\n", b"delay = 1.5\n", b"delay = soon\n", b'delay = "-"\n', b"delay = 0x\n",
       b"timeout = 09\n", b"colour = red\n", b"Identity = x\n", b"identit = x\n", b"identityy = x\n", b"server\n", b"server localhost\n", b"server : x\n", b"server =\n",
       b"server = # x\n", b"server = \n", b"= x\n", b"server = a b\n", b"server = 'a' b\n", b"server = 'a'b\n", b'server = "a""b"\n', b"server = a = b\n", b"password = x y\n",
       b"\"server\" = x\n", b"server == x y\n", b"tls_ciphers = NONSENSE-CIPHER\n", b"{\n", b"timeout = 5\nport\n", b"port\\\n", b"x" * 100000 + b"\n", b"x" * 100000, b"server = " + b"\\\n" * 2000,
       b"timeout = 5 \\\n 6\n"]
BADFILES = ["missing", "directory"]


def refused(part):
    res = []
    for x in part:
        d = srv.scratch("cc")
        l = Listener()
        if isinstance(x, bytes):
            s = SendNsca(x, host=l.host, port=l.port, dir=d, pipe=False, shim=False)
        else:
            f = os.path.join(d, "conf.d")
            if x == "directory":
                os.mkdir(f)
            s = SendNsca(None, host=l.host, port=l.port, dir=d, conffile=f, pipe=False, shim=False)
        try:
            m = status(s.gone(srv.patience()), s)
            if not m and l.waiting():
                m = "connects"
            res.append(s.asan()[:1500] or m and "%s with the file %r" % (m, x))
        finally:
            s.close()
            l.close()
            import shutil
            shutil.rmtree(d, ignore_errors=True)
    return res


def c05(c):
    build.client()
    cfg = lambda inv, n, strict: "SPECIFICATION Spec\nINVARIANT %s EmitText\nCHECK_DEADLOCK FALSE\nCONSTANTS\n L = %d\n Strict = %s\n Emit = TRUE\n" % (inv, n, tlc.tla(strict))
    n = 5 if c.quick else 6
    seed = str(c.rng.randrange(1 << 30))
    short, long_, few, many = tlc.parallel(
        lambda: tlc.run("ClientConf", cfg("Splice Neutral Values LastWins", n, False), workers=1 if c.quick else 4, timeout=800),
        lambda: [tlc.run("ClientConf", cfg("Values", k, True), workers=1, args=["-simulate", "num=%d" % (500 if c.quick else 5000), "-depth", str(k + 1), "-seed", seed]) for k in (12, 30)],
        lambda: tlc.run("Settings", "SPECIFICATION Spec\nINVARIANT CmdWins FileOnly Defaults EmitSet\nCHECK_DEADLOCK FALSE\nCONSTANTS\n L = %d\n Emit = TRUE\n" % (3 if c.quick else 4), workers=1),
        lambda: tlc.run("Settings", "SPECIFICATION Spec\nINVARIANT CmdWins FileOnly Defaults EmitSet\nCHECK_DEADLOCK FALSE\nCONSTANTS\n L = 12\n Emit = TRUE\n", workers=1,
                        args=["-simulate", "num=%d" % (200 if c.quick else 2000), "-depth", "13", "-seed", seed]))
    c.model(short, "ClientConf, all files up to %d letters" % n)
    for r in long_:
        c.model(r, "ClientConf, random longer files")
    c.model(few, "Settings, up to %d settings" % (3 if c.quick else 4))
    c.model(many, "Settings, random longer ones")
    rng = c.rng
    seed = lambda: rng.randrange(1 << 30)
    sh = short.tagged("s")
    ok = [x for x in sh if x[1][0] == "ok" and x[1][1:] != [[0], [0]]]
    err = [x for x in sh if x[1][0] == "err"]
    rest = [x for x in sh if x[1][0] == "ok" and x[1][1:] == [[0], [0]]]
    q = 1 if c.quick else 20
    pick = lambda xs, k: rng.sample(xs, min(len(xs), k * q))
    sc = pick(ok, 1200) + pick(err, 900) + pick(rest, 150) + pick([x for x in sh if x[1][0] == "open"], 150)
    for r in long_:
        sc += [x for x in r.tagged("s") if x[1][0] == "ok" and x[1][1:] != [[0], [0]]]
    sc = [x + [seed()] for x in sc]
    rng.shuffle(sc)
    one = few.tagged("s")
    se = pick([x for x in one if x[2]["port"] == 0], 60) + pick([x for x in one if x[2]["port"] != 0], 700)
    big = many.tagged("s")
    se += pick([x for x in big if x[2]["port"] == 0], 40) + pick([x for x in big if x[2]["port"] != 0], 500)
    se = [x + [seed()] for x in se]
    rng.shuffle(se)
    c.count("files", len(sh))
    c.count("files_replayed", len(sc))
    c.count("settings_replayed", len(se))
    for x in sc[:2] + se[:2]:
        c.sample(x[:2])
    c.assumptions += ["Unterminated quotes, quotes inside unquoted values, a backslash before the end of the file or an empty continuation are not judged: the manual does not say what they mean."]
    c.replay(refused, BAD + BADFILES, chunk=4)
    c.replay(settings, se, chunk=20, budget=40 if c.quick else 400)
    c.replay(texts, sc, chunk=30, budget=65 if c.quick else 850)


CHECKS = {"C05": c05}

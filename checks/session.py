"""P04, P06: the protocol state machine (spec/Session.tla) replayed into the server."""
from common import *

AUTH = 'authorize "me" { password = "secret" commands = "A.*" }'


def num(n):
    return {"neg": n < 0, "d": [int(x) for x in str(abs(n))]}


def model(c, limit, sizes, texts=(), versions=(), lens=(), core=False, maxdata=70000, what=""):
    T = tlc.tla
    defs = "\n".join("c_%s == %s" % (k, v) for k, v in {
        "Limit": T([int(x) for x in str(limit)]), "Sizes": "{%s}" % ", ".join(T(num(n)) for n in sizes),
        "Texts": T(set(texts)), "Versions": "{%s}" % ", ".join(T(num(n)) for n in versions), "LineLens": T(set(lens)),
        "MinGood": T([6]), "MaxData": T([int(x) for x in str(maxdata)]), "Core": T(core)}.items())
    names = ["Limit", "Sizes", "Texts", "Versions", "LineLens", "MinGood", "MaxData", "Core"]
    cfg = "SPECIFICATION Spec\nINVARIANT TypeOK Bounded\nPROPERTY OneReply Forward\nCHECK_DEADLOCK FALSE\nCONSTANTS\n" + \
        "\n".join("  %s <- c_%s" % (n, n) for n in names)
    r = c.model(tlc.run("Session", cfg, defs=defs, workers=1), what or "Session, limit %s" % limit)
    return tlc.LTS([{"ph": "pre", "need": ""}], r.tagged("E"))


def data_bytes(kind, n, rng):
    fill = bytes(rng.choice(b"ABC ;xyz\\[]\t") for _ in range(min(n, 64)))
    def body(k):
        return (fill * (k // max(1, len(fill)) + 1))[:k] if k > 0 else b""
    if kind == "good":
        if n == 6:
            return b"[1] A\n"
        return b"[1] A" + body(n - 6) + b"\n"
    if kind == "unauthorized":
        if n < 6:
            return b"[1] A\n"[-n:] if n > 1 else b"\n"
        return b"[1] B" + body(n - 6) + b"\n"
    if n < 6:
        return b"x" * n
    return b"[1] A" + body(n - 5)[:n - 5]


def send_pieces(c, data, rng):
    """send data in one TLS record or in several, at once or one by one"""
    how = rng.random()
    if how < .5 or len(data) < 2 or len(data) > 20000:
        return c.send(data)
    top = rng.choice([3, 50, 95, 128, 300]) if len(data) < 1500 else rng.choice([300, 2000, 5000])
    if len(data) / top > 40:
        top = len(data) // 40
    cuts, i = [], 0
    while i < len(data):
        n = rng.randint(1, top) if how < .75 else top
        cuts.append(data[i:i + n])
        i += n
    if rng.random() < .6:
        c.send_raw(b"".join(c.record(x) for x in cuts))
        c.srv.settle()
        return c.pump()
    got = b""
    for x in cuts:
        got += c.send(x)
    return got


def run_path(s, f, path, limit, rng, alt):
    """replay one behaviour on a fresh connection; returns mismatch or None"""
    c = Client(s, ver=rng.choice([tls.V12, tls.V13]))
    trace = []
    try:
        if not c.handshake():
            return "handshake failed"
        accepted = b""
        f.read()
        for i, (st, lab, nxt) in enumerate(path):
            a, exp = lab["a"], lab["reply"]
            op = a["op"]
            if op == "req":
                args = [x["text"] for x in a["args"]]
                data = request_bytes(rng, a["kw"], args)
            elif op == "line":
                eol = rng.choice([b"\r\n", b"\n"])
                data = b"X" * (a["len"] - len(eol)) + eol
            elif op == "data":
                data = data_bytes(a["kind"], int(st["need"]), rng)
                assert len(data) == int(st["need"])
                if a["kind"] == "good":
                    accepted += data
            elif op == "short":
                n = int(st["need"]) - 1
                data = data_bytes("good", n, rng) if n >= 6 else b"x" * n
                data = data[:min(n, 3000)]
                if not data:
                    continue
            elif op == "endless":
                got = b""
                sent = 0
                piece = rng.choice([100, 127, 128, 129, 512, 512, 1000, 3000])
                while sent < 8192 and not got and not c.closed:
                    got += c.send(b"Y" * piece)
                    sent += piece
                data = b""
            trace.append((op, data[:60]))
            if op != "endless":
                got = send_pieces(c, data, rng)
            got = get_replies(c, exp, first=got)
            if not replies_match(exp, got):
                alts = [l["reply"] for l, _ in alt.get(i, []) if l["a"] == a]
                if any(replies_match(e, got) for e in alts):
                    return None
                return "step %d: after %r expected %r got %r; history %r" % (i, data[:200], exp, got[:300], trace)
            if nxt["ph"] == "closed" and op != "short":
                # the server closes cleanly: close_notify, then TCP close once we answered
                end = time.time() + .5
                while not c.t.eof and not c.closed and time.time() < end:
                    c.pump()
                    if not c.t.eof:
                        time.sleep(.002)
                if not c.t.eof:
                    return "step %d: no close_notify after %r" % (i, trace)
                c.close_notify()
                s.settle()
                if not c.wait_closed():
                    return "step %d: connection not closed after %r" % (i, trace)
        s.settle()
        got = f.read()
        end = time.time() + .3
        while not got.startswith(accepted) and time.time() < end:
            s.settle()
            time.sleep(.002)
            got += f.read()
        if got != accepted and not expand(s, got) == accepted:
            return "forwarded %r, but accepted was %r; history %r" % (got[:300], accepted[:300], trace)
    finally:
        c.reset()
        try:
            s.settle()
        except (Died, Stuck):
            pass
    return None


def expand(s, got):
    """content of the command file with PROCESS_FILE commands replaced by the files"""
    import re
    res = b""
    for l in got.splitlines(True):
        m = re.match(rb"\[\d+\] PROCESS_FILE;(.*);1\n$", l)
        if m:
            try:
                res += open(m.group(1), "rb").read()
                os.unlink(m.group(1))
            except OSError:
                return None
        else:
            res += l
    return res


def start(limit, auth=AUTH, extra=""):
    f = None
    s = Server(conf(auth, extra="max_command_size = %s\n%s" % (limit, extra)), start=False, reader=True)
    f = s.reader
    if not s.wait_hello():
        raise Died("server does not start: " + s.stderr()[-300:])
    return s, f


def drive(part):
    """part: list of [limit, path, seed]"""
    res = []
    s = f = None
    cur = None
    try:
        for limit, path, alt, seed in part:
            if s is None or cur != limit:
                if s:
                    s.close()
                    f.close()
                s, f = start(limit)
                cur = limit
            rng = random.Random(seed)
            try:
                m = run_path(s, f, path, limit, rng, alt)
                m = m or crashed(s)
            except (Died, Stuck) as e:
                m = "%s: %s %s" % (type(e).__name__, e, crashed(s) or "")
            res.append(m)
            if m:
                s.close()
                f.close()
                s = None
        if s:
            try:
                s.adv(0.01)
            except (Died, Stuck):
                pass
    finally:
        if s:
            s.close()
            f.close()
    return res


def scenarios(lts, paths, limit, seed):
    for i, p in enumerate(paths):
        if not p:
            continue
        alt = {}
        for k, (st, a, t) in enumerate(p):
            es = [e for e in lts.succ(st) if e[0]["a"] == a["a"]]
            if len(es) > 1:
                alt[k] = es
        yield [limit, [(lts.states[x], a, lts.states[t]) for x, a, t in p], alt, seed * 1000003 + i]


def p04(c):
    lts = model(c, 2048, [6, 9, 0], core=True, what="Session core alphabet")
    full = model(c, 2048, [6, 9, 33, 0, -1, 2048, 2049], ["x", "-", "abc"], [0, -1, 2, 17, 1], [2, 3, 60, 100])
    depth = 4 if c.quick else 5
    sc = list(scenarios(lts, lts.paths_exhaustive(depth), 2048, c.seed))
    if len(sc) > (8000 if c.quick else 90000):
        c.rng.shuffle(sc)
        sc = sc[:8000 if c.quick else 90000]
        c.count("depth%d_sampled" % depth, len(sc))
    sc += scenarios(full, full.cover_edges(8), 2048, c.seed + 1)
    w = lambda e: 0.15 if e[1] in closed else 1.0
    closed = {i for i, st in enumerate(full.states) if st["ph"] == "closed"}
    sc += scenarios(full, [full.walk(c.rng, 40, w) for _ in range(300 if c.quick else 6000)], 2048, c.seed + 2)
    c.count("paths", len(sc))
    c.count("lts_edges", full.nedges + lts.nedges)
    for x in sc[::max(1, len(sc) // 4)][:4]:
        c.sample([(a["a"], a["reply"]) for _, a, _ in x[1]])
    c.assumptions += ["one reply per request is observed at quiescence of the server (shim)"]
    c.replay(drive, sc, budget=400 if c.quick else 780)


def p06(c):
    sc = []
    texts = ["x", "-", "12x3"[:2] + "x"] if False else ["x", "-", "abc"]
    big = [2147483647, 2147483648, 4294967295, 4294967296, 4294967297, 4294967302, 18446744073709551616,
           18446744073709551622, 9223372036854775807, 9223372036854775808, -1, -2147483648, -4294967290,
           -18446744073709551610, 99999999999999999999]
    for limit in ([1, 6, 20, 2048, 5000, 0] if c.quick else [1, 2, 5, 6, 7, 20, 127, 128, 129, 1024, 2048, 4096, 4097, 5000,
                                                              16384, 65536, 0]):
        around = sorted({x for x in (1, 2, 5, 6, 7, limit - 1, limit, limit + 1, limit + 2, limit * 2, limit + 256, limit + 65536,
                                     127, 128, 129, 4095, 4096, 4097, 16383, 16384, 16385, 40000) if x >= 0})
        around += [limit + 2 ** 32, limit + 2 ** 31, limit + 2 ** 64, 2 ** 32 - max(limit, 1)]
        if limit == 0:
            huge = [x for x in big if x < 0 or x > 2 ** 31]
        else:
            huge = big
        lts = model(c, limit, sorted(set(around + huge + [0] if limit else around + huge) - ({2 ** 31 - 1, 2 ** 31, 2**32-1} if limit == 0 else set())),
                    texts, [1, 2], [2, 3, 127, 128, 129, 255, 256, 257, 512, 1000, 1022, 1023, 1024],
                    what="Session, limit %d" % limit)
        # every edge, on its own and followed by more requests of the same session
        paths = list(lts.cover_edges(12))
        rng = random.Random(c.seed * 7 + limit)
        closed = {i for i, st in enumerate(lts.states) if st["ph"] == "closed"}
        w = lambda e: (0.1 if e[1] in closed else 1.0) * (8 if e[0]["a"]["op"] == "data" else 1)
        paths += [lts.walk(rng, 16, w) for _ in range(60 if c.quick else 600)]
        sc += list(scenarios(lts, paths, limit, c.seed + limit))
        c.count("lts_edges", lts.nedges)
    c.count("paths", len(sc))
    for x in sc[::max(1, len(sc) // 4)][:4]:
        c.sample([(a["a"], a["reply"]) for _, a, _ in x[1]])
    c.replay(drive, sc, budget=400 if c.quick else 780)


CHECKS = {"P04": p04, "P06": p06}

"""P05: the byte stream (spec/Framing.tla) cut into TLS records and TCP segments."""
from common import *
from session import expand

AUTH = 'authorize "me" { password = "secret" commands = "A.*" }'


def good(n, fill=b"ABC;de fg\\"):
    body = b"[1] A"
    while len(body) < n - 1:
        body += fill[:n - 1 - len(body)]
    return body + b"\n"


def push(d, eol=b"\r\n"):
    return b"PUSH %d" % len(d) + eol + d


def streams(rng, count):
    M = b"MOIN 1 Zm9v\r\n"
    bad = b"[1] B;x\n"
    r = [
        M + push(good(10)) + b"QUIT\r\n",
        M + b"NOOP\r\n" * 3 + b"QUIT\n",
        b"PING 1\r\n",
        b"hello\r\nPUSH 4\r\n" + M + b"MOIN 1 x\nNOOP\n" + push(good(7), b"\n") + b"BAIL x\n",
        M + push(bad) + push(good(8)) + push(b"NOOP\n\n") + b"NOOP\r\nQUIT\r\n",
        M + push(good(200)) + push(good(129)) + push(good(127)) + push(good(128)) + b"NOOP\r\nQUIT\r\n",
        M + b"PUSH 0\r\nPUSH -1\r\nPUSH\r\nPUSH 16385\r\n" + push(good(6)) + b"QUIT\r\n",
        b"\r\n\n \r\n" + M + b"NOOP\r\n\r\n" + push(b"\r\n\r\n\r\n") + b"NOOP\nQUIT\n",
        M + b"X" * 126 + b"\r\n" + b"Y" * 127 + b"\n" + b"Z" * 200 + b"\r\nNOOP\r\n" + push(good(300)) + b"QUIT\r\n",
        M + push(good(40)) + push(b"QUIT\r\nQUIT\r\n") + push(good(9)),
        M + (push(good(20)) + b"NOOP\r\n") * 4 + b"quit\r\nNOOP\r\nNOOP\r\n",
    ]
    for _ in range(count):
        s = b"" if rng.random() < .2 else M
        for _ in range(rng.randrange(1, 7)):
            s += rng.choice([
                lambda: b"NOOP" + rng.choice([b"\r\n", b"\n"]),
                lambda: push(good(rng.randrange(6, 60)), rng.choice([b"\r\n", b"\n"])),
                lambda: push(good(rng.choice([120, 127, 128, 129, 255, 256, 257]))),
                lambda: push(bytes(rng.choice(b"AB[]1 \r\n") for _ in range(rng.randrange(1, 30)))),
                lambda: bytes(rng.choice(b"ABNOP 1\r") for _ in range(rng.randrange(0, 20))) + b"\n",
                lambda: b"PUSH x\r\n", lambda: M])()
        s += rng.choice([b"QUIT\r\n", b"", b"BAIL\r\n", b"NOOP\r\nQUIT\r\nNOOP\r\n"])
        r.append(s)
    return r


def drive(part):
    """part: list of [stream, [(k, replies, forwarded, closed)], seed, ver]"""
    res = []
    s = None
    try:
        for sc in part:
            if s is None:
                s = Server(conf(AUTH), start=False, reader=True)
                f = s.reader
                if not s.wait_hello():
                    raise Died("server does not start: " + s.stderr()[-300:])
            try:
                m = one(s, f, *sc) or crashed(s)
            except (Died, Stuck) as e:
                m = "%s %s %s" % (type(e).__name__, e, crashed(s) or "")
            res.append(m)
            if m:
                s.close()
                f.close()
                s = None
    finally:
        if s:
            s.close()
            f.close()
    return res


def one(s, f, stream, steps, seed, ver):
    rng = random.Random(seed)
    c = Client(s, ver=ver)
    how = rng.choice(["records", "records", "segments", "coalesced", "mixed", "bytes"])
    delay = rng.random() < .3
    try:
        if not c.handshake():
            return "handshake failed"
        f.read()
        pend = b""           # ciphertext not yet sent
        exp = []
        pos = 0
        hist = []
        want = b""
        for i, (k, reps, fwd, closed) in enumerate(steps):
            for w in fwd:
                e = pos + k - w["behind"]
                want += stream[e - w["len"]:e]
            ct = c.record(stream[pos:pos + k])
            hist.append(k)
            pos += k
            exp = exp + reps
            if how == "coalesced" and rng.random() < .6 and i + 1 < len(steps):
                pend += ct
                continue
            ct, pend = pend + ct, b""
            if how in ("segments", "mixed") and len(ct) > 1:
                n = rng.choice([1, 1, 2, 3, 5]) if how == "mixed" else rng.choice([1, 2])
                cuts = sorted(set(rng.randrange(1, len(ct)) for _ in range(n)))
            elif how == "bytes" and len(ct) < 120:
                cuts = list(range(1, len(ct)))
            else:
                cuts = []
            a = 0
            early = b""
            for b in cuts:
                c.send_raw(ct[a:b])
                s.settle()
                early += c.pump()
                a = b
                if delay and rng.random() < .3:
                    s.adv(rng.choice([.5, 3]))
            if early and how != "coalesced":
                return "reply %r before the record was complete" % early
            c.send_raw(ct[a:])
            s.settle()
            got = get_replies(c, exp, first=early + c.pump())
            if not replies_match(exp, got):
                return "%s: after %d bytes of %r, in chunks %s, expected %r, got %r" % (
                    how, pos, stream, hist[-12:], exp, got[:300])
            exp = []
            if delay and rng.random() < .3:
                s.adv(rng.choice([.5, 3]))
            if closed:
                break
        s.settle()
        out = f.read()
        if out != want and expand(s, out) != want:
            return "%s: chunks %s of %r: forwarded %r" % (how, hist[-12:], stream, out[:400])
    finally:
        c.reset()
        s.settle()
    return None


def p05(c):
    st = streams(c.rng, 16 if c.quick else 200)
    sizes = [1, 3, 20, 127, 128] if c.quick else [1, 2, 3, 7, 20, 64, 127, 128, 129]
    st = [x for x in st if x]
    per = 4 if c.quick else 12
    runs = [st[i:i + per] for i in range(0, len(st), per)]

    def go(group):
        T = tlc.tla
        defs = "c_Streams == %s\nc_Sizes == %s" % (T([list(x) for x in group]), T(set(sizes)))
        cfg = "SPECIFICATION Spec\nINVARIANT CutsDontMatter NothingLost\nCHECK_DEADLOCK FALSE\nCONSTANTS Streams <- c_Streams\nSizes <- c_Sizes\n"
        r = c.model(tlc.run("Framing", cfg, defs=defs, workers=1), "Framing, %d streams" % len(group))
        return r.tagged("E")
    sc = []
    for g in range(0, len(runs), 7):
        for group, edges in zip(runs[g:g + 7], tlc.parallel(*[lambda x=x: go(x) for x in runs[g:g + 7]])):
            lts = tlc.LTS([{"n": i + 1, "pos": 0} for i in range(len(group))], edges)
            c.count("lts_edges", lts.nedges)
            paths = list(lts.cover_edges(400))
            if c.quick and len(paths) > 260:
                paths = c.rng.sample(paths, 140)
            paths += [lts.walk(c.rng, 500) for _ in range(30)]
            for i, st0 in enumerate(lts.init):           # everything at once
                whole = max((e for e in lts.succ(st0)), key=lambda e: e[0]["k"])
                paths += [((st0, whole[0], whole[1]),)] * 3
            for p in paths:
                if p:
                    n = lts.states[p[0][0]]["n"]
                    sc.append([group[n - 1], [(a["k"], a["r"], a["fwd"], a["closed"]) for _, a, _ in p], c.rng.randrange(1 << 40),
                               c.rng.choice([tls.V12, tls.V13])])
    c.rng.shuffle(sc)
    c.count("streams", len(st))
    c.count("cuttings", len(sc))
    for x in sc[:3]:
        c.sample([x[0].decode("latin1"), x[1][:10]])
    c.replay(drive, sc, chunk=20, budget=400 if c.quick else 780)


CHECKS = {"P05": p05}

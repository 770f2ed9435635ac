"""P03: only single, complete, timestamped lines (spec/CommandForm.tla)."""
from common import *
from session import expand

AUTH = 'authorize "me" { password = "secret" commands = ".*" }'


def strings(c, seeds, alphabet, maxlen, edits, what):
    defs = "c_Seeds == {%s}\nc_Alphabet == {%s}" % (", ".join(tlc.tla(s) for s in seeds), ", ".join(map(str, alphabet)))
    cfg = ("SPECIFICATION Spec\nINVARIANT SingleLine Printed\nVIEW View\nCHECK_DEADLOCK FALSE\nCONSTANTS Seeds <- c_Seeds\n"
           "Alphabet <- c_Alphabet\nMaxLen = %d\nEdits = %d\n" % (maxlen, edits))
    r = c.model(tlc.run("CommandForm", cfg, defs=defs, workers=1), what)
    return [(bytes(s), v) for s, v in r.tagged("S")]


def drive(part):
    """part: list of scenarios; a scenario is a list of (bytes, verdict) pushed in one session"""
    res = []
    s = Server(conf(AUTH, extra="max_command_size = 0"), start=False, reader=True)
    f = s.reader
    try:
        if not s.wait_hello():
            raise Died("server does not start: " + s.stderr()[-300:])
        for sc in part:
            m = None
            try:
                m = one(s, f, sc) or crashed(s)
            except (Died, Stuck) as e:
                m = "%s %s %s" % (type(e).__name__, e, crashed(s) or "")
            res.append(m)
            if m:
                s.close(); f.close()
                s = Server(conf(AUTH, extra="max_command_size = 0"), start=False, reader=True)
                f = s.reader
                s.wait_hello()
    finally:
        s.close(); f.close()
    return res


def one(s, f, sc):
    c = Client(s)
    try:
        if not c.handshake():
            return "handshake failed"
        got = get_replies(c, ["MOIN 1"], first=c.send(b"MOIN 1 x1\r\n"))
        if not replies_match(["MOIN 1"], got):
            return "MOIN: %r" % got
        f.read()
        fwd = b""
        for data, v in sc:
            if not data:
                continue
            data, v = bytes(data), v
            got = get_replies(c, ["OKAY"], first=c.send(b"PUSH %d\r\n" % len(data)))
            if not replies_match(["OKAY"], got):
                return "PUSH %d: %r (next data %r)" % (len(data), got, data[:80])
            got = get_replies(c, ["OKAY"] if v == "accept" else ["FAIL"], grace=0.05, first=c.send(data))
            ok, fail = replies_match(["OKAY"], got), replies_match(["FAIL"], got)
            if not (ok or fail):
                return "data %r: reply %r" % (data[:200], got)
            if ok and v == "refuse":
                return "accepted %r, which is not a single complete timestamped line" % data[:300]
            if fail and v == "accept":
                return "refused %r, which is well-formed and authorized" % data[:300]
            if ok:
                fwd += data
            out = f.read()
            if ok:
                s.settle()
                out += f.read()
                x = expand(s, out)
                if x != data:
                    return "forwarded %r for %r" % (x, data[:300])
            elif out:
                return "forwarded %r for refused %r" % (out[:300], data[:300])
    finally:
        c.reset()
        s.settle()
    return None


def p03(c):
    al = [91, 93, 49, 65, 10, 0, 32]
    n = 5 if c.quick else 6
    xs = strings(c, [[]], al, n, 0, "all strings up to length %d over [ ] 1 A NL NUL SP" % n)
    c.exhaustive = True
    long = [list(b"[1700000000] A;b;c\n"), list(b"[1] PROCESS_HOST_CHECK_RESULT;h;0;out put\n")]
    ys = strings(c, long, [10, 0, 13, 91, 93, 32], 0, 1 if c.quick else 2, "edits of realistic commands")
    big = [list(b"[1700000000] " + b"A;bc" * 90 + b"\n")]
    zs = strings(c, big, [10, 0], 0, 1, "edits of a long command")
    all_ = [x for x in xs + ys + zs if x[0]]
    c.count("strings", len(all_))
    for v in ("accept", "either", "refuse"):
        c.count("verdict_" + v, sum(1 for x in all_ if x[1] == v))
    c.rng.shuffle(all_)
    # very long ones: the same verdicts scaled up by padding the command text
    for data, v in list(all_[:400]):
        if v != "either" and data.count(b"A") and data.startswith(b"["):
            k = data.rindex(b"A")
            all_.append((data[:k] + b"A" * c.rng.choice([4096, 5000, 20000]) + data[k:], v if b"A" not in data[:k].split(b"]")[0] else "skip"))
    all_ = [x for x in all_ if x[1] != "skip"]
    sc = [all_[i:i + 60] for i in range(0, len(all_), 60)]
    for d, v in all_[:4]:
        c.sample([d.decode("latin1"), v])
    c.count("pushes", len(all_))
    c.replay(drive, sc, chunk=8, budget=400 if c.quick else 780)


CHECKS = {"P03": p03}

"""P01, P02: authentication and authorization (spec/Auth.tla, spec/Regex.tla)."""
import zlib
from common import *

PH, PS = "PROCESS_HOST_CHECK_RESULT", "PROCESS_SERVICE_CHECK_RESULT"


def chars(s):
    return "Chars(%s)" % tlc.tla(s)


def model(c, configs, identities, keys, commands, part, what, defs="", props=True):
    """configs: TLA+ text of a sequence.  Returns configs by id, connects, verdicts"""
    T = tlc.tla
    d = defs + "\nc_Configs == %s\nc_Identities == %s\nc_Keys == %s\nc_Commands == <<%s>>\n" % (
        configs, identities, T(set(keys)), ", ".join(chars(x) for x in commands))
    cfg = "SPECIFICATION Spec\nINVARIANT OnlyAuthentic NoStrangers %s\nCHECK_DEADLOCK FALSE\nCONSTANTS\n%s\nPart = \"%s\"\n" % (
        "NoEscalation TailIrrelevant" if props else "",
        "\n".join("%s <- c_%s" % (n, n) for n in ("Configs", "Identities", "Keys", "Commands")), part)
    r = c.model(tlc.run("Auth", cfg, defs=d, workers=1, timeout=900), what)
    return {x["id"]: x["conf"] for x in r.tagged("C")}, r.tagged("K"), r.tagged("V")


def quote(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def conf_text(cf):
    def sets(b):
        r = ""
        for k, v in (b.items() if isinstance(b, dict) else ()):
            r += "%s = %s\n" % (k, quote(v) if isinstance(v, str) else quote(v[0]) if len(v) == 1 else "{ %s }" % ", ".join(map(quote, v)))
        return r
    r = sets(cf["glob"])
    for t, b in (cf["blocks"].items() if isinstance(cf["blocks"], dict) else ()):
        r += "authorize %s {\n%s}\n" % (quote(t), sets(b))
    return r


# ---- P02 -------------------------------------------------------------------
def grants(part):
    """part: list of [conf text, [(identity, key, [(command, verdict)])]]"""
    return [grant(x) for x in part]


def grant(x):
    text, clients = x[0], x[1]
    s = Server(conf(text, extra="max_command_size = 0"), start=False, reader=True)
    f = s.reader
    try:
        if not s.wait_hello():
            return "server does not start with\n%s\n%s" % (text, s.stderr()[-300:])
        for ident, key, cmds in clients:
            m = one_client(s, f, ident, key, cmds) or crashed(s)
            if m:
                return "identity %r: %s\nconfiguration:\n%s" % (ident, m, relevant(text, ident))
    except (Died, Stuck) as e:
        return "%s %s %s" % (type(e).__name__, e, crashed(s) or "")
    finally:
        s.close()
        f.close()
    return None


def relevant(text, ident):
    i = text.find('authorize %s {' % quote(ident))
    j = text.find("}\n", i)
    k = text.find('authorize')
    return text[:k] + (text[i:j + 2] if i >= 0 else text[k:])[:3000]


def spread(cmds):
    """one blank behind the time stamp; a refusal has nothing to do with what's there"""
    for cmd, v in cmds:
        yield b" ", cmd, v
        n = zlib.crc32(cmd.encode())
        if v == "refuse" and cmd and not cmd[0].isspace() and (cmd[0] == "X" or n % 4 == 0):
            yield b"" if cmd[0] == "X" else (b"", b"  ", b"\t", b" \t")[n // 4 % 4], cmd, v


def one_client(s, f, ident, key, cmds):
    c = Client(s, identity=ident, key=key)
    try:
        if not c.handshake():
            return "cannot authenticate"
        got = get_replies(c, ["MOIN 1"], first=c.send(b"MOIN 1 x1\r\n"))
        if not replies_match(["MOIN 1"], got):
            return "MOIN: %r" % got
        f.read()
        for sep, cmd, v in spread(cmds):
            data = b"[1700000000]" + sep + cmd.encode() + b"\n"
            got = get_replies(c, ["OKAY"], first=c.send(b"PUSH %d\r\n" % len(data)))
            if not replies_match(["OKAY"], got):
                return "PUSH: %r" % got
            got = get_replies(c, ["OKAY"] if v == "accept" else ["FAIL"], grace=0.05, first=c.send(data))
            ok, fail = replies_match(["OKAY"], got), replies_match(["FAIL"], got)
            if not (ok or fail):
                return "reply %r" % got
            if ok and v == "refuse":
                return "accepted %r, for which it is not authorized" % cmd
            if fail and v == "accept":
                return "refused %r, for which it is authorized" % cmd
            s.settle()
            out = f.read()
            if out != (data if ok else b""):
                return "forwarded %r after %r was %s" % (out[:300], data[:300], "accepted" if ok else "refused")
    finally:
        c.reset()
        s.settle()
    return None


BLOCKDEFS = r'''
Block1(s, p) == [x \in {"password", s} |-> IF x = "password" THEN "secret" ELSE <<p>>]
Leaves == {Lit("a"), Lit("b"), Dot, NotIn({"a"})}
L0 == {Lit("a"), Lit("b"), Dot}
\* one configuration with a block for each pattern
Titles(q) == {"p" \o ToString(k) : k \in DOMAIN q}
Num(q, t) == CHOOSE k \in DOMAIN q : t = "p" \o ToString(k)
Conf(s, q) == [glob |-> <<>>, blocks |-> [t \in Titles(q) |-> Block1(s, q[Num(q, t)])]]


RECURSIVE ChunksOf(_, _)
ChunksOf(q, n) == IF Len(q) <= n THEN <<q>> ELSE <<SubSeq(q, 1, n)>> \o ChunksOf(SubSeq(q, n + 1, Len(q)), n)
ConfsOf(s, S, n) == LET qs == ChunksOf(SetToSeq(S), n) IN [i \in DOMAIN qs |-> Conf(s, qs[i])]
'''


def words(al, ns):
    r = [""]
    out = []
    for n in range(1, max(ns) + 1):
        r = [x + a for x in r for a in al]
        if n in ns:
            out += r
    return out


def strategy_commands(kind):
    if kind == "hosts":
        hs = words("ab", (1, 2, 3)) + ["A", "c", "ac", "a.b", "aaab"]
        cs = ["%s;%s;0;x" % (PH, h) for h in hs]
        cs += ["%s;%s;%s" % (PH, h, o) for h in ("a", "c", "ab") for o in ("2;x;y", "0;;", "0;a;0;x", "0;b;a", "a;x", "1;x|y")]
        cs += ["%s;c;0;%s;0;x" % (PH, h) for h in ("a", "b", "ab")]
        cs += ["%s;%s;s;0;x" % (PS, h) for h in ("a", "b")]
        cs += [PH.lower() + ";a;0;x", "X" + PH + ";a;0;x", PH + ";a", PH + ";;0;a", PH + ";a;0;", PH + ";a;", "a", "ab", PH, "PROCESS_FILE;/tmp/a;1",
               "X;y\\nX;" + PH + ";a;0;x", "b;" + PH + ";a;0;x", PH + " ;a;0;x", PH + "a;0;x"]
        return cs
    if kind == "services":
        cs = ["%s;%s;%s;0;x" % (PS, h, v) for h in ("a", "b", "ab", "c") for v in words("ab", (1, 2)) + ["aba", "A", "c"]]
        cs += ["%s;%s;%s" % (PS, h, t) for h in ("c", "a") for t in ("b;0;x", "c;a;0;x", "c;0;a;0;x", "c;0;b;a", "a;2;x;b;y", "c;b;a;b;0;x",
                                                                       "a;0;;", "b;0;b|a")]
        cs += ["%s;%s;0;x" % (PH, v) for v in ("a", "b")]
        cs += [PS.lower() + ";a;a;0;x", "X" + PS + ";a;a;0;x", PS + ";a;a", PS + ";;a;0;x", PS + ";a;a;0;", PS + ";a;;0;x", "a", PS,
               "PROCESS_FILE;/tmp/a;1", "b;" + PS + ";a;a;0;x", PS + ";a@b;a;0;x", PS + ";b;a@b;0;x"]
        return cs
    cs = words("ab", (1, 2, 3)) + ["A", "c", "aaaa", "a;b", "a b", "ab;a", "b;a;b", "aX", "Xa", "a\tb", "\\a", "a\\n"]
    cs += [PH + ";a;0;x", PS + ";a;b;0;x", PH + ";b;0;x", PS + ";b;a;0;x", "DISABLE_NOTIFICATIONS", "PROCESS_FILE;/tmp/a;1", PH + ";a"]
    return cs


def p02(c):
    deep = not c.quick
    sc = []
    runs = [
        ("hosts", 'ConfsOf("hosts", Trees(%s, 2) \\cup {Alt(Str("ab"), Str("c")), CatAll(<<Alt(Str("a"), Str("c")), Lit("."), Lit("b")>>), Star(Dot), '
                  'Alt(Alt(Str("b"), Str("c")), Str("a")), Alt(Str("b"), Alt(Str("bb"), Star(Dot)))}, 60)' % ("Leaves" if deep else "L0")),
        ("services", 'ConfsOf("services", {<<x, <<>> >> : x \\in Trees(L0, %d)} \\cup (Trees(L0, 1) \\X {<<y>> : y \\in %s}) \\cup '
                     '{<<CatAll(<<Lit("a"), Lit("@"), Lit("b")>>), <<Lit("b")>> >>, <<Star(Dot), <<Star(Dot)>> >>, <<Star(Dot), <<>> >>}, 60)'
                     % (2, "Trees(L0, 1)" if deep else "L0 \\cup {Alt(Lit(\"a\"), Lit(\"b\")), Star(Dot), Cat(Lit(\"a\"), Lit(\"b\"))}")),
        ("commands", 'ConfsOf("commands", Trees(%s, 2) \\cup {Cat(Str("%s;a;"), Star(Dot)), Alt(Str("DISABLE_NOTIFICATIONS"), Str("ENABLE_NOTIFICATIONS")), '
                     'CatAll(<<Str("%s;"), Plus(NotIn({";"})), Str(";b;"), Plus(Dot), Lit(";"), Plus(Dot)>>), Star(Dot), Cat(Lit("a"), Star(NotIn({";"}))), '
                     'CatAll(<<Lit("\\\\"), Dot>>)}, 60)' % ("Leaves" if deep else "L0", PH, PS)),
    ]
    def single(kind, cfgs):
        cmds = strategy_commands(kind)
        confs, k, v = model(c, cfgs, '{"p" \\o ToString(k) : k \\in 1..60}', ["secret"], cmds, "grant", "Auth: single %s patterns" % kind, defs=BLOCKDEFS)
        return confs, v, cmds
    # global settings, several patterns, fallback block
    t = '''
P(s, x) == IF s = "password" THEN "secret" ELSE IF s = "commands" THEN <<Str("C" \\o x), Str("D" \\o x)>> ELSE IF s = "hosts" THEN <<Str("h" \\o x), Str("g" \\o x)>>
           ELSE << <<Str("s" \\o x), <<>> >>, <<Str("t" \\o x), <<Str("h" \\o x)>> >> >>
Auths == {"commands", "hosts", "services"}
One(q) == IF Len(q) = 2 THEN <<q[2]>> ELSE q
B(S, x) == [s \\in S |-> IF x = "0" /\\ s # "password" THEN One(P(s, x)) ELSE P(s, x)]
Name(S) == "u" \\o (IF "commands" \\in S THEN "c" ELSE "") \\o (IF "hosts" \\in S THEN "h" ELSE "") \\o (IF "services" \\in S THEN "s" ELSE "")
Ts == {Name(S) : S \\in SUBSET Auths}
Own(t) == CHOOSE S \\in SUBSET Auths : Name(S) = t
Cf(g, st) == [glob |-> B(g \\cup {"password"}, "0"),
             blocks |-> [x \\in Ts \\cup (IF st = <<>> THEN {} ELSE {"*"}) |-> IF x = "*" THEN B(st[1], "2") ELSE B(Own(x), "1")]]
'''
    cfgs = "SetToSeq({Cf(p[1], p[2]) : p \\in (SUBSET Auths) \\X ({<<>>} \\cup {<<S>> : S \\in SUBSET Auths})})"
    cmds = ["%s%s" % (x, n) for x in "CD" for n in "012"] + ["%s;%s%s;0;x" % (PH, x, n) for x in "hg" for n in "012"] + \
        ["%s;%s;%s%s;0;x" % (PS, h, x, n) for h in ("h0", "h1", "h2", "z") for x in "st" for n in "012"] + ["E1", PH + ";z;0;x", PS + ";h1;z;0;x"]

    def struct():
        confs, k, v = model(c, cfgs, 'Ts \\cup {"*", "stranger", "U", "uch1"}', ["secret"], cmds, "grant",
                            "Auth: settings, globals and the fallback block", defs=BLOCKDEFS + t)
        return confs, v, cmds
    for x in tlc.parallel(*[lambda r=r: single(*r) for r in runs], struct):
        sc += group(c, *x)
    n = sum(len(x[2]) for s in sc for x in s[1])
    c.count("configurations", len(sc))
    c.count("identities", sum(len(s[1]) for s in sc))
    c.count("submissions", n)
    for verdict in ("accept", "either", "refuse"):
        c.count("verdict_" + verdict, sum(1 for s in sc for x in s[1] for y in x[2] if y[1] == verdict))
    for s in sc[::max(1, len(sc) // 4)][:4]:
        c.sample([relevant(s[0], s[1][0][0])[:300], s[1][0][2][:3]])
    c.replay(grants, sc, chunk=1, budget=400 if c.quick else 780)


def group(c, confs, verdicts, cmds):
    by = {}
    for x in verdicts:
        by.setdefault(x["id"], []).append((x["ident"], "secret", list(zip(cmds, x["v"]))))
    r = []
    for i, cf in confs.items():
        if i in by:
            l = by[i]
            if c.quick:
                l = [(a, b, thin(c.rng, q)) for a, b, q in l]
            # all orders of the blocks in the file are equivalent: shuffle
            ks = list(cf["blocks"].items())
            c.rng.shuffle(ks)
            cf = dict(cf, blocks=dict(ks))
            r.append([conf_text(cf), l])
    return r


def thin(rng, q):
    """all acceptances and a sample of the refusals"""
    acc = [x for x in q if x[1] == "accept"]
    rest = [x for x in q if x[1] != "accept"]
    if len(acc) > 8:
        acc = rng.sample(acc, 8)
    if len(rest) > 14:
        rest = rng.sample(rest, 14)
    q = acc + rest
    rng.shuffle(q)
    return q


# ---- P01 -------------------------------------------------------------------
SECRET = b"[1] SECRET;x\n"


def logins(part):
    return [login(x) for x in part]


def login(x):
    text, usable, clients = x
    s = Server(conf(text), start=False, reader=True)
    f = s.reader
    try:
        up = s.wait_hello()
        if up != usable:
            return "server %s with\n%s" % ("started" if up else "did not start: " + s.stderr()[-300:], text)
        if not up:
            return None if s.poll() not in (None, 0) else "server exited with status 0 on an unusable configuration"
        for cl in clients:
            m = attempt(s, f, *cl) or crashed(s)
            if m:
                return "%r: %s\nconfiguration:\n%s" % (cl, m, text)
    except (Died, Stuck) as e:
        return "%s %s %s" % (type(e).__name__, e, crashed(s) or "")
    finally:
        s.close()
        f.close()
    return None


def attempt(s, f, kind, ident, key, expect, ver):
    """one client that tries to get a session and to submit a command"""
    f.read()
    c = Client(s, identity=ident if kind == "psk" else None, key=key, ver=ver)
    try:
        if kind == "psk":
            if c.handshake() or c.t.finished:
                got = get_replies(c, ["MOIN 1"], grace=.3 if expect else .003, first=c.send(b"MOIN 1 x1\r\n"))
                ok = replies_match(["MOIN 1"], got)
                if ok:
                    got2 = get_replies(c, ["OKAY"], first=c.send(b"PUSH %d\r\n" % len(SECRET)))
                    got2 += get_replies(c, ["OKAY"], first=c.send(SECRET))
                    if expect and not replies_match(["OKAY", "OKAY"], got2):
                        return "submission failed: %r" % got2
            else:
                got = b""
                ok = False
            if not expect and (ok or got or c.plain):
                return "got a session, or at least %r" % (got or c.plain)
            if expect and not ok:
                return "got no session: %r" % got
        else:
            if kind == "adh" or kind == "cert":
                t = tls.Ctx("client", None, None, ver=ver, ciphers="aNULL:@SECLEVEL=0" if kind == "adh" else "ALL:!PSK:@SECLEVEL=0").conn()
                c.t = t
                c.handshake()
                if t.finished:
                    return "handshake without a key succeeded"
                c.t = None
        if not expect:
            # whatever else is sent has no effect either
            for x in (b"MOIN 1 x1\r\n", b"PUSH %d\r\n" % len(SECRET), SECRET, b"PING 1\r\n", b"QUIT\r\n"):
                if c.closed:
                    break
                c.send_raw(x)
                s.settle()
                c.raw += c.recv_raw()
            if any(w in c.raw for w in (b"MOIN 1", b"OKAY", b"FAIL", b"PONG", b"BAIL")):
                return "protocol response %r" % c.raw[-200:]
        s.settle()
        out = f.read()
        if out != (SECRET if expect else b""):
            return "command file received %r" % out[:200]
    finally:
        c.reset()
        s.settle()
    return None


def p01(c):
    long_pw = "x1" * 60
    defs = r'''
Own == [none |-> {}, alice |-> "pwalice", bob |-> "pwbob", star |-> "pwstar"]
\* for each title: 0 no block, 1 a block without a password, 2 one with, 3 one with an empty password
Blk(k, pw) == IF k = 1 THEN [commands |-> <<Star(Dot)>>]
              ELSE [commands |-> <<Star(Dot)>>, password |-> IF k = 2 THEN pw ELSE ""]
Mk(a, b, st, g) ==
  LET sel == [alice |-> a, bob |-> b] @@ ("*" :> st) IN
  [glob |-> IF g THEN [password |-> "pwglobal"] ELSE <<>>,
   blocks |-> [t \in {x \in {"alice", "bob", "*"} : sel[x] > 0} |-> Blk(sel[t], "pw" \o (IF t = "*" THEN "star" ELSE t))]]
Odd == [glob |-> <<>>, blocks |-> ("a b@c.d" :> Blk(2, "s p a c e")) @@ ("**" :> Blk(2, "pw**")) @@ ("al" :> Blk(2, "k")) @@ ("LONG" :> Blk(2, "LPW"))]
'''
    defs = defs.replace("LONG", "i" * 120).replace("LPW", long_pw).replace("Own == [none |-> {}, alice |-> \"pwalice\", bob |-> \"pwbob\", star |-> \"pwstar\"]\n", "")
    bs = "0..3" if not c.quick else "0..2"
    cfgs = 'SetToSeq({Mk(a, b, st, g) : a \\in 0..3, b \\in 0..2, st \\in %s, g \\in BOOLEAN})' % bs
    ids = ["alice", "bob", "carol", "*", "Alice", "alic", "alicex", "BOB"]
    keys = ["pwalice", "pwbob", "pwstar", "pwglobal", "pwalic", "pwalicex", "PWALICE", "x"]
    ids2 = ["a b@c.d", "**", "*", "al", "a", "i" * 120, "i" * 119, "i" * 121]
    keys2 = ["s p a c e", "pw**", "k", long_pw, long_pw[:-1], long_pw[:-1] + "2", long_pw + "x"]
    m1, m2 = tlc.parallel(lambda: model(c, cfgs, tlc.tla(set(ids)), keys, [], "conf", "Auth: identities, passwords, fallbacks", defs=defs, props=False),
                          lambda: model(c, "<<Odd>>", tlc.tla(set(ids2)), keys2, [], "conf", "Auth: unusual identities and passwords", defs=defs, props=False))
    sc = []
    for confs, ks, _ in (m1, m2):
        by = {}
        for x in ks:
            by.setdefault(x["id"], []).append(["psk", x["ident"], x["key"], x["sess"]])
        for i, cf in confs.items():
            cl = []
            for x in by.get(i, []):
                for v in ([tls.V12, tls.V13] ):
                    cl.append(x + [v])
            cl += [["plain", None, None, False, None], ["adh", None, None, False, tls.V12], ["cert", None, None, False, tls.V13],
                   ["cert", None, None, False, None]]
            c.rng.shuffle(cl)
            sc.append([conf_text(cf), cf["usable"], cl if cf["usable"] else []])
    c.count("configurations", len(sc))
    c.count("attempts", sum(len(x[2]) for x in sc))
    c.count("sessions_expected", sum(1 for x in sc for y in x[2] if y[3]))
    for x in sc[::max(1, len(sc) // 3)][:3]:
        c.sample([x[0], x[1], x[2][:3]])
    c.exhaustive = True
    c.replay(logins, sc, chunk=1, budget=400 if c.quick else 780)


CHECKS = {"P01": p01, "P02": p02}

import os, random, sys, time, zlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, srv, tls, tlc
from check import Check
from srv import Server, Client, Fifo, Died, Stuck, conf


def split_replies(b):
    """reply lines, or None if the bytes are not CRLF-terminated single lines"""
    if b == b"":
        return []
    if not b.endswith(b"\r\n"):
        return None
    ls = b[:-2].split(b"\r\n")
    if any(b"\n" in l or b"\r" in l for l in ls):
        return None
    return ls


def reply_is(exp, line):
    e = exp.encode()
    if exp in ("FAIL", "BAIL"):
        return line.startswith(e + b" ") and len(line) > 5
    return line == e


def replies_match(exp, got):
    ls = split_replies(got)
    return ls is not None and len(ls) == len(exp) and all(reply_is(e, l) for e, l in zip(exp, ls))


def get_replies(c, exp, grace=0.3, first=b""):
    """plaintext received; waits a little if less than expected came"""
    got = first + c.pump()
    if replies_match(exp, got):
        return got
    end = time.time() + grace
    while time.time() < end and not c.closed and not replies_match(exp, got):
        time.sleep(0.002)
        got += c.pump()
    return got


def mix_case(rng, kw):
    m = rng.randrange(4)
    if m == 0:
        return kw
    if m == 1:
        return kw.lower()
    if m == 2:
        return kw.capitalize()
    return "".join(ch.lower() if rng.random() < .5 else ch for ch in kw)


def request_bytes(rng, kw, args, fixed=False):
    if fixed:
        return (" ".join([kw] + args) + "\r\n").encode()
    sep = " "
    return (sep.join([mix_case(rng, kw)] + args) + rng.choice(["\r\n", "\n"])).encode()


def scenario_rng(*a):
    return random.Random(zlib.crc32(repr(a).encode()))


def crashed(s):
    """description if the process died or reported a memory error"""
    a = s.asan()
    if a:
        return "memory error: " + a[:800]
    if s.poll() is not None:
        return "server exited with status %s: %s" % (s.poll(), s.stderr()[-300:])
    return None

"""Calls the Python module as told on standard input (see checks/modules.py)."""
import gc, os, sys
import nscang

files = [os.open("/dev/null", os.O_RDONLY) for i in range(int(os.environ.get("MOD_FILES", 0)))]
inp, out = sys.stdin.buffer, sys.stdout.buffer
obj = {}
dec = lambda x: bytes.fromhex(x[1:]).decode("utf-8", "surrogateescape") if x.startswith("h") else int(x[1:])
while True:
    l = inp.readline()
    if not l:
        break
    f = l.split()
    (op, id), args = f[0].decode().split(":"), f[1:]
    kw = {}
    pos = []
    for a in args:
        k, _, v = a.decode().partition("=")
        if k:
            kw[k] = dec(v)
        else:
            pos.append(dec(v))
    try:
        if op == "new":
            obj.pop(id, None)
            obj[id] = nscang.NSCAngNotifyer(*pos, **kw)
            r = b"ok"
        elif op == "host":
            r = b"ok" if obj[id].host_result(*pos, **kw) is None else b"odd"
        elif op == "svc":
            r = b"ok" if obj[id].svc_result(*pos, **kw) is None else b"odd"
        elif op == "attr":
            r = b"ok " + getattr(obj[id], pos[0]).encode("utf-8", "surrogateescape").hex().encode()
        elif op == "nop":
            gc.collect()        # empties the interpreter's free lists, too
            r = b"ok"
        elif op == "del":
            obj.pop(id, None)
            r = b"ok"
    except Exception as e:
        r = b"err " + (str(e) or type(e).__name__).encode("utf-8", "surrogateescape").hex().encode()
    out.write(r + b"\n")
    out.flush()

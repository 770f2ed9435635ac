"""A scripted server and send_nsca (or a module's caller) as its client, under the shim."""
import fcntl, os, shutil, socket, subprocess, time

import build, srv, tls

PIPE = subprocess.PIPE


class Peer(srv.Client):
    """the server's end of a connection; `p` is the client's process"""

    def __init__(self, p, sock, ctx):
        self.srv = p
        self.s = sock
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.s.setblocking(False)
        self.t = ctx.conn()
        self.closed = None
        self.plain = b""
        self.raw = b""
        self.rx = 0

    def take(self, t=5.0, want=lambda b: True):
        """ciphertext from the client, at least something"""
        end = time.time() + t
        while time.time() < end and not self.closed:
            d = self.recv_raw()
            if d:
                self.t.feed(d)
                return True
            time.sleep(0.0005)
        return False

    def flight(self):
        """our next handshake flight (not sent); None if the handshake has failed, b'' if there is nothing to say"""
        r = self.t.handshake()
        o = self.t.out()
        return None if r == "err" and not o else o


class Listener:
    def __init__(self, host=None, port=None, backlog=8, rcvbuf=None):
        self.s = socket.socket()
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        if rcvbuf:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        self.s.bind((host or srv.my_host(), port or 0))
        self.s.listen(backlog)
        self.host, self.port = self.s.getsockname()
        self.fill = []

    def dark(self):
        """make connection attempts remain unanswered"""
        for _ in range(4):
            f = socket.socket()
            f.setblocking(False)
            f.connect_ex((self.host, self.port))
            self.fill.append(f)
            time.sleep(0.005)
        return self

    def accept(self, t=10.0):
        self.s.settimeout(t)
        try:
            return self.s.accept()[0]
        except socket.timeout:
            return None

    def waiting(self):
        self.s.setblocking(False)
        try:
            return self.s.accept()[0]
        except BlockingIOError:
            return None

    def close(self):
        for f in self.fill:
            f.close()
        self.s.close()


class SendNsca(srv.Proc):
    """send_nsca under the shim; with pipe=True its input comes through .put()"""

    def __init__(self, conf, args=(), dir=None, host=None, port=None, pipe=True, stdin=None, env=None, conffile=None, **kw):
        self.own = dir is None
        dir = self.root = dir or srv.scratch("cl")
        self.conffile = conffile or os.path.join(dir, "conf")
        if conf is not None:
            with open(self.conffile, "wb") as f:
                f.write(conf if isinstance(conf, bytes) else conf.encode())
        a = ["-c", self.conffile] if conffile is not False else []
        if host:
            a += ["-H", host]
        if port:
            a += ["-p", str(port)]
        super().__init__(build.client(), a + list(args), dir, stdin=PIPE if pipe else stdin, env=env, **kw)
        if pipe:
            os.set_blocking(self.p.stdin.fileno(), False)
            fcntl.fcntl(self.p.stdin.fileno(), 1031, 1 << 20)       # F_SETPIPE_SZ: input may come before it is wanted

    def put(self, data):
        """write to its standard input, letting it run when the pipe is full"""
        end = time.time() + srv.patience()
        while data:
            if time.time() > end:
                raise srv.Stuck("input is not read")
            try:
                n = os.write(self.p.stdin.fileno(), data)
                data = data[n:]
            except BlockingIOError:
                if self.ctl is None:
                    time.sleep(0.001)
                else:
                    self.settle()
            except BrokenPipeError:
                return False
        return True

    def eof(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass

    def gone(self, t=10.0):
        """exit status once it is gone, None if it is still there"""
        try:
            return self.p.wait(t)
        except subprocess.TimeoutExpired:
            return None

    def close(self):
        self.kill()
        if self.p.stdin:
            try:
                self.p.stdin.close()
            except OSError:
                pass
        if self.own:
            shutil.rmtree(self.root, ignore_errors=True)


_ctx = {}


def server_ctx(key=b"secret", ver=None, ciphers="PSK@SECLEVEL=0"):
    k = (key, ver, ciphers)
    if k not in _ctx:
        _ctx[k] = tls.Ctx("server", keys=lambda i: key, ver=ver, ciphers=ciphers)
    return _ctx[k]

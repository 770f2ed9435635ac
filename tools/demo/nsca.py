"""Helpers of the demonstrations: the built server and client in a scratch
directory, TLS-PSK peers, nothing else."""
import atexit, fcntl, os, resource, shutil, signal, socket, subprocess, sys, tempfile, threading, time
import tls

ROOT = os.getcwd()
SERVER = os.path.join(ROOT, "_build/src/server/nsca-ng")
CLIENT = os.path.join(ROOT, "_build/src/client/send_nsca")
AUTH = 'authorize "me" { password = "secret" commands = ".*" }\n'
tmp = tempfile.mkdtemp(prefix="demo-")
atexit.register(shutil.rmtree, tmp, True)


def fail(why):
    print("BROKEN:", why)
    sys.stdout.flush()
    sys.exit(1)


def check(ok, why):
    if not ok:
        fail(why)


def free_port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p


def until(cond, t=10.0):
    end = time.time() + t
    while time.time() < end:
        if cond():
            return True
        time.sleep(0.02)
    return cond()


class Server:
    def __init__(self, auth=AUTH, extra="", reader=True, args=(), fsize=None, env=None, fifo=True, wait=True, conf=None,
                 prefix=(), fg=True):
        self.dir = tempfile.mkdtemp(dir=tmp)
        self.port = free_port()
        self.fifo = os.path.join(self.dir, "cmd")
        self.tmp = os.path.join(self.dir, "tmp")
        os.mkdir(self.tmp)
        self.r = None
        self.got = b""
        if fifo:
            os.mkfifo(self.fifo)
            if reader:
                self.open()
        self.conf = os.path.join(self.dir, "conf")
        with open(self.conf, "w") as f:
            f.write(conf if conf is not None else 'temp_directory = "%s"\nlog_level = 4\n%s\n%s' % (self.tmp, extra, auth))
        self.err = open(os.path.join(self.dir, "err"), "wb")

        def pre():
            if fsize:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
        self.p = subprocess.Popen(list(prefix) + [SERVER] + (["-F"] if fg else []) + ["-c", self.conf, "-C", self.fifo,
                                  "-b", "127.0.0.1:%d" % self.port] + list(args),
                                  stderr=self.err, stdout=subprocess.DEVNULL, stdin=subprocess.DEVNULL, preexec_fn=pre,
                                  env=dict(os.environ, **(env or {})))
        atexit.register(self.stop)
        if wait and not until(self.up):
            fail("server does not start: " + self.log())

    def up(self):
        try:
            socket.create_connection(("127.0.0.1", self.port), 1).close()
            return True
        except OSError:
            return False

    def log(self):
        return open(os.path.join(self.dir, "err"), errors="replace").read()

    def stop(self):
        if self.p.poll() is None:
            self.p.kill()
            self.p.wait()

    def open(self, size=None):
        self.r = os.open(self.fifo, os.O_RDONLY | os.O_NONBLOCK)
        if size:
            fcntl.fcntl(self.r, 1031, size)

    def close_reader(self):
        os.close(self.r)
        self.r = None

    def read(self, t=0.4):
        """what arrives at the command file until nothing comes for t seconds"""
        end = time.time() + t
        d = b""
        while time.time() < end:
            try:
                x = os.read(self.r, 65536)
            except BlockingIOError:
                x = b""
            if x:
                d += x
                end = time.time() + t
            else:
                time.sleep(0.01)
        self.got += d
        return d

    def nfds(self):
        return len(os.listdir("/proc/%d/fd" % self.p.pid))


class Session:
    """a protocol client"""

    def __init__(self, srv, ident="me", key="secret", moin=True, ver=None):
        port = srv if isinstance(srv, int) else srv.port
        self.s = socket.create_connection(("127.0.0.1", port), 10)
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.t = tls.Ctx("client", ident, key, ver=ver).conn()
        self.buf = b""
        self.ok = self.handshake()
        if moin:
            check(self.ok, "handshake failed")
            r = self.ask("MOIN 1 Zm9v")
            check(r == "MOIN 1", "no greeting: %r" % r)

    def handshake(self):
        self.s.settimeout(10)
        try:
            while True:
                r = self.t.handshake()
                o = self.t.out()
                if o:
                    self.s.sendall(o)
                if r == "ok":
                    return True
                if r != "want":
                    return False
                d = self.s.recv(65536)
                if not d:
                    return False
                self.t.feed(d)
        except OSError:
            return False

    def send(self, data):
        self.t.write(data if isinstance(data, bytes) else data.encode())
        self.s.sendall(self.t.out())

    def line(self, t=3.0):
        """next reply line, None if there is none"""
        end = time.time() + t
        while b"\n" not in self.buf:
            self.s.settimeout(max(0.01, end - time.time()))
            try:
                d = self.s.recv(65536)
            except socket.timeout:
                return None
            except OSError:
                return None
            if not d:
                return None
            self.t.feed(d)
            self.buf += self.t.read()
            if time.time() > end and b"\n" not in self.buf:
                return None
        l, self.buf = self.buf.split(b"\n", 1)
        return l.rstrip(b"\r").decode(errors="replace")

    def ask(self, line, t=3.0):
        self.send(line + "\r\n")
        return self.line(t)

    def push(self, data, t=3.0):
        if isinstance(data, str):
            data = data.encode()
        r = self.ask("PUSH %d" % len(data), t)
        if r != "OKAY":
            return r
        self.send(data)
        return self.line(t)

    def close(self):
        self.s.close()


class FakeServer:
    """a TLS-PSK server; script(conn) runs per connection with conn.line(),
    conn.read(n), conn.send()"""

    def __init__(self, script, keys=None):
        self.l = socket.socket()
        self.l.bind(("127.0.0.1", 0))
        self.l.listen(20)
        self.port = self.l.getsockname()[1]
        self.ctx = tls.Ctx("server", keys=keys or (lambda i: b"secret"))
        self.script = script
        self.errors = []
        threading.Thread(target=self.loop, daemon=True).start()

    def loop(self):
        while True:
            try:
                s, _ = self.l.accept()
            except OSError:
                return
            threading.Thread(target=self.one, args=(s,), daemon=True).start()

    def one(self, s):
        c = FakeConn(s, self.ctx)
        try:
            if c.handshake():
                self.script(c)
        except (EOFError, OSError) as e:
            c.err = e
        finally:
            s.close()


class FakeConn:
    def __init__(self, s, ctx):
        self.s, self.t, self.buf = s, ctx.conn(), b""

    def handshake(self):
        while True:
            r = self.t.handshake()
            o = self.t.out()
            if o:
                self.s.sendall(o)
            if r == "ok":
                return True
            if r != "want":
                return False
            d = self.s.recv(65536)
            if not d:
                return False
            self.t.feed(d)

    def more(self):
        d = self.s.recv(65536)
        if not d:
            raise EOFError()
        self.t.feed(d)
        x = self.t.read()
        self.buf += x
        if not x and self.t.eof:
            raise EOFError()

    def line(self):
        self.buf += self.t.read()
        while b"\n" not in self.buf:
            self.more()
        l, self.buf = self.buf.split(b"\n", 1)
        return l.rstrip(b"\r")

    def read(self, n):
        while len(self.buf) < n:
            self.more()
        d, self.buf = self.buf[:n], self.buf[n:]
        return d

    def send(self, d):
        self.t.write(d)
        self.s.sendall(self.t.out())

    def shutdown(self):
        self.t.shutdown()
        self.s.sendall(self.t.out())


def send_nsca(port, data, args=(), conf='identity = "me"\npassword = "secret"\n', timeout=60, stdin=None):
    f = os.path.join(tempfile.mkdtemp(dir=tmp), "c")
    open(f, "w").write(conf)
    return subprocess.run([CLIENT, "-H", "127.0.0.1", "-p", str(port), "-c", f] + list(args),
                          input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)

"""Processes under test in a controlled environment: virtual time, controlled
AIO, injected faults, logged system calls (shim/shim.c)."""
import array, ctypes, fcntl, json, mmap, os, resource, shutil, signal, socket, struct, subprocess, tempfile, termios, time

import build, tls

SIOCOUTQ = 0x5411
T0 = 1700000000 * 10**9
WAIT = 45.0          # real seconds before a stuck process is an error of the run


_libc = ctypes.CDLL(None)


def strays(dir):
    """orphaned processes that were started for this directory"""
    me = b"%d" % os.getpid()
    r = []
    for n in os.listdir("/proc"):
        if n.isdigit():
            try:
                with open("/proc/%s/stat" % n, "rb") as f:
                    if f.read().rsplit(b")", 1)[1].split()[1] != me:
                        continue
                with open("/proc/%s/cmdline" % n, "rb") as f:
                    if dir.encode() in f.read():
                        r.append(int(n))
            except (OSError, IndexError):
                pass
    return r


class Died(Exception):
    pass


class Stuck(Exception):
    n = 0

    def __init__(self, what):
        Stuck.n += 1
        super().__init__(what)


def patience():
    """one which is stuck is waited for properly, further ones only briefly: what counts is confirmed later"""
    return WAIT if Stuck.n == 0 else 5.0


def scratch(prefix="v"):
    base = os.environ.get("VERIF_TMP", "/tmp")
    return tempfile.mkdtemp(prefix="nsca-%s-" % prefix, dir=base)


_ports = {}


def free_port(host):
    s = socket.socket()
    s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
    s.bind((host, 0))
    p = s.getsockname()[1]
    s.close()
    return p


def my_host():
    p = os.getpid()
    return "127.%d.%d.%d" % (16 + (p >> 16) % 200, (p >> 8) & 255, 1 + (p & 255) % 250)


class Proc:
    """A process running under the shim."""

    def __init__(self, exe, args, dir, env=None, fifo=None, tmp=None, aio="auto", faults=None,
                 priv=False, stdin=subprocess.DEVNULL, stdout=None, cwd=None, argv0=None, shim=True,
                 nofile=1100, t0=T0, pass_fds=(), prefix=()):
        self.dir = dir
        self.alive = True
        self.ctl = None
        self.clockfile = os.path.join(dir, "clock")
        with open(self.clockfile, "wb") as f:
            f.write(struct.pack("q", t0) + b"\0" * 4088)
        self._cf = open(self.clockfile, "r+b")
        self.clk = mmap.mmap(self._cf.fileno(), 4096)
        self.logfile = os.path.join(dir, "events")
        self._logpos = 0
        self.sockpath = os.path.join(dir, "ctl")
        self.ls = socket.socket(socket.AF_UNIX)
        self.ls.bind(self.sockpath)
        self.ls.listen(4)
        e = {"PATH": "/usr/bin:/bin", "HOME": dir, "LC_ALL": "C", "TZ": "UTC",
             "ASAN_OPTIONS": "detect_leaks=0:verify_asan_link_order=0:abort_on_error=0:exitcode=99:"
                             "allocator_may_return_null=1:handle_abort=0:log_path=%s/asan:max_malloc_fill_size=0" % dir}
        if shim:
            e.update(LD_PRELOAD=build.shim(), SHIM_CLOCK=self.clockfile, SHIM_SOCK=self.sockpath,
                     SHIM_LOG=self.logfile, SHIM_AIO=aio)
            if fifo:
                e["SHIM_FIFO"] = fifo
            if tmp:
                e["SHIM_TMP"] = tmp
            if faults:
                e["SHIM_FAULTS"] = faults
            if priv:
                e["SHIM_PRIV"] = "1"
        e.update(env or {})
        self.errfile = os.path.join(dir, "stderr")
        self._err = open(self.errfile, "ab")

        _libc.prctl(36, 1)                          # orphaned daemons become our children

        def pre():
            _libc.prctl(1, signal.SIGKILL)          # do not outlive the check
            resource.setrlimit(resource.RLIMIT_NOFILE, (nofile, nofile))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        self.p = subprocess.Popen(list(prefix) + [exe] + list(args), env=e, stdin=stdin,
                                  stdout=stdout if stdout is not None else subprocess.DEVNULL,
                                  stderr=self._err, cwd=cwd or dir, preexec_fn=pre, close_fds=True,
                                  pass_fds=pass_fds)

    # -- clock
    @property
    def now(self):
        return struct.unpack("q", self.clk[:8])[0]

    def jump(self, ns):
        self.clk[:8] = struct.pack("q", self.now + ns)

    # -- controller
    def wait_hello(self, timeout=None):
        """wait until the process is idle for the first time; False if it exited"""
        end = time.time() + (timeout or patience())
        self.ls.settimeout(0.01)
        while time.time() < end:
            try:
                self.ctl, _ = self.ls.accept()
                self.ctl.settimeout(patience())
                self._buf = b""
                l = self._line()
                self.ctlpid = int(l.split()[1])
                return True
            except socket.timeout:
                if self.p.poll() is not None:
                    # a daemonised child may still connect
                    if self.p.returncode == 0 and set(strays(self.dir)) - {self.p.pid}:
                        continue
                    try:
                        self.ls.settimeout(0.01)
                        self.ctl, _ = self.ls.accept()
                        self.ctl.settimeout(patience())
                        self._buf = b""
                        self.ctlpid = int(self._line().split()[1])
                        return True
                    except socket.timeout:
                        self.alive = False
                        return False
        raise Stuck("process neither idle nor gone")

    def _line(self):
        self.ctl.settimeout(patience())
        while b"\n" not in self._buf:
            try:
                d = self.ctl.recv(4096)
            except socket.timeout:
                raise Stuck("no answer from the process (busy loop?)")
            except ConnectionError:
                d = b""
            if not d:
                self.alive = False
                raise Died()
            self._buf += d
        l, self._buf = self._buf.split(b"\n", 1)
        return l.decode()

    def _cmd(self, c):
        try:
            self.ctl.sendall(c.encode() + b"\n")
        except OSError:
            self.alive = False
            raise Died()

    def settle(self, cmd="idle"):
        """let the process run until it is idle; returns (now, deadline, pending aio)"""
        if self.ctl is None:
            raise Died()
        self._cmd(cmd)
        l = self._line().split()
        self.deadline = int(l[2])
        self.npending = int(l[3])
        return int(l[1]), self.deadline, self.npending

    def mem(self):
        """bytes allocated on the heap (builds with AddressSanitizer)"""
        self._cmd("mem")
        return int(self._line().split()[1])

    def adv(self, seconds):
        return self.settle("adv %d" % round(seconds * 1e9))

    def aio(self, what="ok"):
        return self.settle("aio " + what)

    def fault(self, spec):
        self._cmd("fault " + spec)

    def events(self):
        """new log events since the last call"""
        if not os.path.exists(self.logfile):
            return []
        with open(self.logfile, "rb") as f:
            f.seek(self._logpos)
            d = f.read()
        k = d.rfind(b"\n") + 1
        self._logpos += k
        return [json.loads(x) for x in d[:k].decode(errors="replace").splitlines()]

    def stderr(self):
        with open(self.errfile, "rb") as f:
            return f.read().decode(errors="replace")

    def asan(self):
        r = ""
        for n in os.listdir(self.dir):
            if n.startswith("asan."):
                r += open(os.path.join(self.dir, n), errors="replace").read()
        return r

    def poll(self):
        return self.p.poll()

    def wait(self, timeout=None):
        try:
            return self.p.wait(timeout or patience())
        except subprocess.TimeoutExpired:
            raise Stuck("process did not exit")

    def kill(self):
        for s in (self.ctl, self.ls):
            if s:
                s.close()
        self.ctl = None
        if self.p.poll() is None:
            self.p.kill()
            self.p.wait()
        left = set()
        if getattr(self, "ctlpid", None) and self.ctlpid != self.p.pid:
            left.add(self.ctlpid)
        if left or self.p.returncode == 0:
            left |= set(strays(self.dir)) - {self.p.pid}
        for n in left:
            try:
                os.kill(n, signal.SIGKILL)
            except OSError:
                pass
            try:
                os.waitpid(n, 0)
            except OSError:
                pass
        self.clk.close()
        self._cf.close()
        self._err.close()


class Server(Proc):
    def __init__(self, conf, dir=None, exe=None, fifo_kind="fifo", aio="auto", args=(), faults=None,
                 start=True, own=True, reader=False, host=None, port=None, shim=True, env=None, fg=True, bind=True, cfile=True, **kw):
        self.own = dir is None
        dir = dir or scratch("srv")
        self.root = dir
        self.fifo = os.path.join(dir, "cmd")
        self.tmp = os.path.join(dir, "tmp")
        os.makedirs(self.tmp, exist_ok=True)
        if fifo_kind == "fifo":
            os.mkfifo(self.fifo, 0o600)
        # a reader must be there before the server first opens the file
        self.reader = Fifo(self.fifo).open() if reader and fifo_kind == "fifo" else None
        self.host = host or my_host()
        self.port = port or free_port(self.host)
        self.conffile = os.path.join(dir, "conf")
        if callable(conf):
            conf = conf(self)
        with open(self.conffile, "wb") as f:
            c = conf if isinstance(conf, bytes) else conf.encode()
            f.write(c)
        base = (["-F"] if fg else []) + ["-c", self.conffile] + (["-C", self.fifo] if cfile else []) + \
            (["-b", "%s:%d" % (self.host, self.port)] if bind else [])
        super().__init__(exe or build.server(), base + list(args), dir, fifo=self.fifo, tmp=self.tmp, aio=aio,
                         faults=faults, shim=shim, env=env, **kw)
        if start and not self.wait_hello():
            raise Died("server did not start: " + self.stderr()[-500:])

    def connect(self, **kw):
        return Client(self, **kw)

    def close(self):
        self.kill()
        if self.own:
            shutil.rmtree(self.root, ignore_errors=True)

    def nfds(self):
        """descriptors below the range the shim uses"""
        return sum(1 for n in os.listdir("/proc/%d/fd" % self.ctlpid) if int(n) < 1000)


CONF = """
temp_directory = "%(tmp)s"
log_level = 4
timeout = %(timeout)s
%(extra)s
"""


def conf(auth, timeout=15, extra=""):
    return lambda s: (CONF % {"tmp": s.tmp, "timeout": timeout, "extra": extra}) + auth


_ctx = {}


def client_ctx(identity, key, ver=None, ciphers="PSK@SECLEVEL=0"):
    k = (identity, key, ver, ciphers)
    if k not in _ctx:
        _ctx[k] = tls.Ctx("client", identity, key, ver=ver, ciphers=ciphers)
    return _ctx[k]


class Client:
    """A test client of the server: raw TCP plus TLS-PSK on top."""

    def __init__(self, srv, identity="me", key="secret", ver=None, ciphers="PSK@SECLEVEL=0", rcvbuf=None):
        self.srv = srv
        if rcvbuf:
            self.s = socket.socket()
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
            self.s.settimeout(10)
            self.s.connect((srv.host, srv.port))
        else:
            self.s = socket.create_connection((srv.host, srv.port), timeout=10)
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.s.setblocking(False)
        self.t = client_ctx(identity, key, ver, ciphers).conn() if identity is not None else None
        self.closed = None      # 'eof' or 'reset' once seen
        self.plain = b""
        self.raw = b""
        self.rx = 0             # raw bytes received

    # raw level
    def send_raw(self, data):
        try:
            self.s.setblocking(True)
            self.s.sendall(data)
        except OSError:
            self.closed = self.closed or "reset"
        finally:
            try:
                self.s.setblocking(False)
            except OSError:
                pass
        self.drain_wait()

    def drain_wait(self):
        end = time.time() + 0.06
        b = array.array("i", [0])
        while time.time() < end:
            try:
                fcntl.ioctl(self.s.fileno(), SIOCOUTQ, b)
            except (OSError, ValueError):
                return
            if b[0] == 0:
                return
            time.sleep(0.0002)

    def unread(self):
        """bytes which have arrived but not been read"""
        b = array.array("i", [0])
        try:
            fcntl.ioctl(self.s.fileno(), termios.FIONREAD, b)
        except (OSError, ValueError):
            return 0
        return b[0]

    def recv_raw(self):
        d = b""
        while not self.closed:
            try:
                x = self.s.recv(65536)
            except BlockingIOError:
                break
            except OSError:
                self.closed = "reset"
                break
            if not x:
                self.closed = "eof"
                break
            d += x
        self.rx += len(d)
        return d

    def pump(self):
        """take what the server sent; returns new plaintext"""
        d = self.recv_raw()
        self.raw += d
        if self.t is None:
            self.plain += d
            return d
        self.t.feed(d)
        if not self.t.finished:
            return b""
        p = self.t.read()
        self.plain += p
        return p

    def wait_closed(self, t=1.0):
        end = time.time() + t
        while not self.closed and time.time() < end:
            self.pump()
            if not self.closed:
                time.sleep(0.001)
        return self.closed

    # TLS level
    def flush(self):
        o = self.t.out()
        if o:
            self.send_raw(o)

    def handshake(self):
        """complete handshake; True if established (as seen by the client)"""
        for _ in range(10):
            r = self.t.handshake()
            self.flush()
            self.srv.settle()
            if r == "ok":
                return True
            if r == "err":
                return False
            d = self.recv_raw()
            self.raw += d
            self.t.feed(d)
            if self.closed and not d:
                return False
        return False

    def send(self, data, settle=True):
        self.t.write(data)
        self.flush()
        if settle:
            self.srv.settle()
            return self.pump()

    def record(self, data):
        """ciphertext of one record, not sent"""
        self.t.write(data)
        return self.t.out()

    def ask(self, line):
        """send a line, return the reply lines received"""
        return self.send(line)

    def close_notify(self):
        self.t.shutdown()
        self.flush()

    def fin(self):
        try:
            self.s.shutdown(socket.SHUT_WR)
        except OSError:
            pass

    def close(self):
        self.s.close()

    def reset(self):
        try:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        except OSError:
            pass
        self.s.close()


class Fifo:
    """the monitoring process' end of the command file"""

    def __init__(self, path, size=None):
        self.path = path
        self.size = size
        self.r = None
        self.got = b""

    def open(self):
        if self.r is None:
            self.r = os.open(self.path, os.O_RDONLY | os.O_NONBLOCK | os.O_CLOEXEC)
            if self.size:
                try:
                    fcntl.fcntl(self.r, 1031, self.size)
                except OSError:
                    pass
        return self

    def close(self):
        if self.r is not None:
            os.close(self.r)
            self.r = None

    def read(self, n=1 << 20):
        d = b""
        if self.r is None:
            return d
        while True:
            try:
                x = os.read(self.r, n)
            except BlockingIOError:
                break
            if not x:
                break
            d += x
        self.got += d
        return d

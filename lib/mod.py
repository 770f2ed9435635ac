"""An interpreter with the Perl or Python module in it, told what to call."""
import mmap, os, resource, select, shutil, struct, subprocess, time

import build, srv

HOSTS = os.path.join(build.VERIF, "hosts")
T0 = srv.T0


def enc(v):
    return "i%d" % v if isinstance(v, int) else "h" + (v if isinstance(v, bytes) else v.encode()).hex()


class Mod:
    def __init__(self, lang, many=False):
        """many: so many files are open already that new descriptors are beyond what fits into an fd_set"""
        self.lang = lang
        self.dir = srv.scratch("mod")
        self.clockfile = os.path.join(self.dir, "clock")
        with open(self.clockfile, "wb") as f:
            f.write(struct.pack("q", T0) + b"\0" * 4088)
        self._cf = open(self.clockfile, "r+b")
        self.clk = mmap.mmap(self._cf.fileno(), 4096)
        asan = subprocess.check_output(["gcc", "-print-file-name=libasan.so"]).decode().strip()
        env = {"PATH": "/usr/bin:/bin", "HOME": self.dir, "LC_ALL": "C.UTF-8", "SHIM_CLOCK": self.clockfile,
               "LD_PRELOAD": asan + ":" + build.modshim(), "PYTHONDONTWRITEBYTECODE": "1", "PYTHONMALLOC": "malloc",
               "ASAN_OPTIONS": "detect_leaks=0:verify_asan_link_order=0:exitcode=99:allocator_may_return_null=1:handle_abort=0:log_path=%s/asan" % self.dir}
        hard = resource.getrlimit(resource.RLIMIT_NOFILE)[1]
        many = many and (hard < 0 or hard >= 2000)
        if many:
            env["MOD_FILES"] = "1100"

        def pre():
            srv._libc.prctl(1, 9)
            if many:
                resource.setrlimit(resource.RLIMIT_NOFILE, (2000, hard))
        if lang == "perl":
            cmd = ["/usr/bin/perl", "-I", build.perl_module(True), os.path.join(HOSTS, "mod.pl")]
        else:
            env["PYTHONPATH"] = build.python_module(True)
            cmd = ["/usr/bin/python3", "-S", os.path.join(HOSTS, "mod.py")]
        self.errfile = os.path.join(self.dir, "stderr")
        with open(self.errfile, "ab") as e:
            self.p = subprocess.Popen(cmd, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=e, cwd=self.dir, close_fds=True,
                                      preexec_fn=pre)
        self.buf = b""
        os.set_blocking(self.p.stdout.fileno(), False)

    @property
    def now(self):
        return struct.unpack("q", self.clk[:8])[0]

    def jump(self, sec):
        self.clk[:8] = struct.pack("q", self.now + int(sec * 1e9))

    def tell(self, op, *pos, **kw):
        l = " ".join([op if ":" in op else op + ":0"] + ["=" + enc(v) for v in pos] + ["%s=%s" % (k, enc(v)) for k, v in kw.items()])
        try:
            self.p.stdin.write(l.encode() + b"\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            pass

    def result(self, t=0):
        """("ok", "") or ("err", message); None if there is none yet; ("dead", status)"""
        if b"\n" not in self.buf:
            r, _, _ = select.select([self.p.stdout], [], [], t)
            if r:
                d = self.p.stdout.read()
                if d == b"":
                    return ("dead", self.p.wait())
                self.buf += d or b""
        if b"\n" in self.buf:
            l, self.buf = self.buf.split(b"\n", 1)
            a, _, b = l.partition(b" ")
            return (a.decode(), bytes.fromhex(b.decode()))
        return None

    def ask(self, op, *pos, **kw):
        self.tell(op, *pos, **kw)
        end = time.time() + srv.patience()
        while time.time() < end:
            r = self.result(.2)
            if r:
                return r
        raise srv.Stuck("no answer to %s" % op)

    def mem(self):
        """bytes allocated while it waits for a command"""
        for k in range(2):
            self.ask("nop")
        end = time.time() + srv.patience()
        n, since = -1, 0
        while time.time() < end:        # until it reads
            m, k = struct.unpack("qq", self.clk[8:24])
            if k != n:
                n, since = k, time.time()
            elif time.time() - since > .01 and self.state() == "S":
                return m
            time.sleep(.001)
        raise srv.Stuck("does not wait for a command")

    def state(self):
        return open("/proc/%d/stat" % self.p.pid).read().rsplit(")", 1)[1].split()[0]

    def nfds(self):
        return len(os.listdir("/proc/%d/fd" % self.p.pid))

    def asan(self):
        return "".join(open(os.path.join(self.dir, f), errors="replace").read() for f in sorted(os.listdir(self.dir)) if f.startswith("asan"))

    def stderr(self):
        return open(self.errfile, errors="replace").read()

    def close(self):
        self.p.kill()
        self.p.wait()
        self.p.stdin.close()
        self.p.stdout.close()
        self.clk.close()
        self._cf.close()
        shutil.rmtree(self.dir, ignore_errors=True)

"""Build what the checks run from the sources in /repo's working tree.

Everything goes to $VERIF_OUT/build/<hash of sources and flags>/, nothing is
written to /repo and nothing from an earlier build of /repo is used."""
import concurrent.futures as cf, glob, hashlib, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_OUT", os.path.join(VERIF, "out"))
SYSCONF = "/nonexistent/etc"
LOCALSTATE = "/nonexistent/var"

BASE = ["-std=gnu17", "-O1", "-g", "-w", "-DHAVE_CONFIG_H", "-U_FORTIFY_SOURCE",
        "-fno-omit-frame-pointer",
        '-DSYSCONFDIR="%s"' % SYSCONF, '-DLOCALSTATEDIR="%s"' % LOCALSTATE,
        '-DNSCA_VERSION="1.7"']
INC = ["src/common", "lib", "lib/ev", "lib/pidfile"]
ASAN = ["-fsanitize=address"]
MEM = "__sanitizer_get_current_allocated_bytes"      # for the control command "mem" of the shim
LIBSRC = ["lib/wrappers.c", "lib/progname.c", "lib/ev/ev.c", "lib/pidfile/flopen.c", "lib/pidfile/pidfile.c"]


class BuildError(Exception):
    pass


def _digest(paths, extra):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:20]


def _run(cmd, cwd=None):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))


def _headers():
    r = []
    for d in ("src/common", "src/server", "src/client", "lib", "lib/ev", "lib/pidfile"):
        r += glob.glob(os.path.join(REPO, d, "*.[ch]"))
    return r + glob.glob(os.path.join(VERIF, "build", "config.h"))


def _program(name, subdir, libs, asan, aio):
    src = sorted(glob.glob(os.path.join(REPO, subdir, "*.c"))) + \
        sorted(glob.glob(os.path.join(REPO, "src/common", "*.c"))) + \
        [os.path.join(REPO, s) for s in LIBSRC]
    flags = BASE + (ASAN if asan else []) + ([] if aio else ["-DVERIF_NO_AIO"])
    d = os.path.join(OUT, "build", _digest(_headers(), (flags, name, VERIF, REPO)))
    exe = os.path.join(d, name)
    if os.path.exists(exe):
        return exe
    tmp = "%s.tmp%d.%s" % (d, os.getpid(), name)
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(os.path.join(tmp, "inc"))
    conf = open(os.path.join(VERIF, "build", "config.h")).read()
    if not aio:
        conf += "\n#undef HAVE_POSIX_AIO\n#undef HAVE_AIO_INIT\n"
    open(os.path.join(tmp, "inc", "config.h"), "w").write(conf)
    incs = ["-I" + os.path.join(tmp, "inc")] + ["-I" + os.path.join(REPO, i) for i in INC]

    def cc(s):
        o = os.path.join(tmp, s[len(REPO):].strip("/").replace("/", "_") + ".o")
        _run(["gcc"] + flags + incs + ["-c", "-o", o, s])
        return o
    with cf.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(cc, src))
    _run(["gcc", "-o", os.path.join(tmp, name)] + objs +
         (ASAN + ["-static-libasan", "-Wl,-u," + MEM, "-Wl,--export-dynamic-symbol=" + MEM] if asan else []) + ["-pthread", "-Wl,--start-group"] + libs + ["-Wl,--end-group"])
    for o in objs:
        os.unlink(o)
    try:
        os.rename(tmp, d)
    except OSError:
        if not os.path.exists(exe):
            raise
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


def server(asan=True, aio=True):
    return _program("nsca-ng", "src/server", ["-lconfuse", "-lssl", "-lcrypto", "-lsystemd", "-lm"], asan, aio)


def client(asan=True):
    return _program("send_nsca", "src/client", ["-lssl", "-lcrypto", "-lm"], asan, True)


def _preload(name):
    src = os.path.join(VERIF, "shim", name + ".c")
    d = os.path.join(OUT, "build", _digest([src], name))
    so = os.path.join(d, name + ".so")
    if not os.path.exists(so):
        os.makedirs(d, exist_ok=True)
        t = "%s.%d" % (so, os.getpid())
        _run(["gcc", "-O1", "-g", "-w", "-shared", "-fPIC", "-o", t, src, "-ldl"])
        os.rename(t, so)
    return so


def shim():
    return _preload("shim")


def modshim():
    return _preload("modshim")


def _mirror(sub):
    """copy the tracked/working files of a module directory into a scratch build directory"""
    src = os.path.join(REPO, sub)
    files = []
    for root, dirs, names in os.walk(src):
        dirs[:] = [d for d in dirs if d not in ("blib", "build", "__pycache__")]
        for n in names:
            if n.endswith((".o", ".so", ".bs", ".pyc")) or n in ("Makefile", "Client.c", "MYMETA.json", "MYMETA.yml", "pm_to_blib"):
                continue
            files.append(os.path.join(root, n))
    return src, files


def perl_module(asan=False):
    """returns a directory for perl -I"""
    src, files = _mirror("perl")
    d = os.path.join(OUT, "build", _digest(files, ("perl", asan, VERIF, 2)))
    if os.path.exists(os.path.join(d, "ok")):
        return d
    tmp = "%s.tmp%d" % (d, os.getpid())
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    core = "/usr/lib/x86_64-linux-gnu/perl/5.38/CORE"
    if not os.path.exists(core):
        core = subprocess.check_output(["perl", "-MConfig", "-e", "print \"$Config{archlibexp}/CORE\""]).decode()
    # xsubpp output
    priv = subprocess.check_output(["perl", "-MConfig", "-e", "print $Config{privlibexp}"]).decode()
    with open(os.path.join(tmp, "Client.c"), "wb") as f:
        r = subprocess.run(["xsubpp", "-typemap", os.path.join(priv, "ExtUtils/typemap"),
                            "-typemap", os.path.join(src, "typemap"), os.path.join(src, "Client.xs")],
                           stdout=f, stderr=subprocess.PIPE, cwd=src)
    if r.returncode:
        raise BuildError(r.stderr.decode())
    import re
    pm = open(os.path.join(src, "lib/Net/NSCAng/Client.pm")).read()
    m = re.search(r"VERSION\s*=\s*(?:qv\()?['\"]?(v?[0-9._]+)", pm)
    ver = m.group(1) if m else "0"
    flags = ("-D_REENTRANT -D_GNU_SOURCE -DDEBIAN -fwrapv -fno-strict-aliasing -pipe -w -g -O1 -fPIC "
             "-D_LARGEFILE_SOURCE -D_FILE_OFFSET_BITS=64").split() + \
        ['-DVERSION="%s"' % ver, '-DXS_VERSION="%s"' % ver, "-I" + src, "-I" + core]
    if asan:
        flags += ["-fsanitize=address"]
    _run(["gcc"] + flags + ["-c", "-o", os.path.join(tmp, "Client.o"), os.path.join(tmp, "Client.c")], cwd=src)
    csrc = [f for f in sorted(glob.glob(os.path.join(src, "*.c"))) if os.path.basename(f) != "Client.c"]
    objs = [os.path.join(tmp, "Client.o")]
    for c in csrc:
        o = os.path.join(tmp, os.path.basename(c)[:-2] + "_c.o")
        _run(["gcc"] + flags + ["-c", "-o", o, c], cwd=src)
        objs.append(o)
    auto = os.path.join(tmp, "auto/Net/NSCAng/Client")
    os.makedirs(auto)
    _run(["gcc", "-shared", "-o", os.path.join(auto, "Client.so")] + objs +
         (["-fsanitize=address"] if asan else []) + ["-lssl", "-lcrypto"])
    os.makedirs(os.path.join(tmp, "Net/NSCAng"))
    shutil.copy(os.path.join(src, "lib/Net/NSCAng/Client.pm"), os.path.join(tmp, "Net/NSCAng/Client.pm"))
    open(os.path.join(tmp, "ok"), "w").close()
    try:
        os.rename(tmp, d)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return d


def python_module(asan=False):
    """returns a directory for PYTHONPATH"""
    src, files = _mirror("python")
    d = os.path.join(OUT, "build", _digest(files, ("python", asan, VERIF)))
    if os.path.exists(os.path.join(d, "ok")):
        return d
    tmp = "%s.tmp%d" % (d, os.getpid())
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    inc = subprocess.check_output(["/usr/bin/python3", "-c", "import sysconfig;print(sysconfig.get_path('include'))"]).decode().strip()
    suf = subprocess.check_output(["/usr/bin/python3", "-c", "import sysconfig;print(sysconfig.get_config_var('EXT_SUFFIX'))"]).decode().strip()
    _run(["gcc", "-g", "-O1", "-w", "-fwrapv", "-fPIC", "-shared", "-U_FORTIFY_SOURCE", '-DVERSION="1.1"', "-I" + inc] +
         (["-fsanitize=address"] if asan else []) +
         ["-o", os.path.join(tmp, "nscang" + suf)] + sorted(glob.glob(os.path.join(src, "*.c"))) +
         ["-lpthread", "-lssl", "-lcrypto"], cwd=src)
    open(os.path.join(tmp, "ok"), "w").close()
    try:
        os.rename(tmp, d)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return d


if __name__ == "__main__":
    import time
    for f in (shim, server, lambda: server(aio=False), client, perl_module, python_module,
              lambda: perl_module(True), lambda: python_module(True)):
        t = time.time()
        print(f(), round(time.time() - t, 1))

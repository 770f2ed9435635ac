"""P18: dropping privileges (spec/Privileges.tla); the calls are recorded by
stand-ins, and once more made for real, where the kernel's view is compared."""
import json, pwd, grp, subprocess
from common import *
from lifecycle import login

AUTH = 'authorize "me" { password = "secret" commands = ".*" }\n'
INV = "INVARIANT Good NoRoot Jailed Closed\n"
STEPS = ["getpwnam", "initgroups", "chroot", "chdir", "setgid", "setuid"]


def judge(traces):
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Verdict NoRoot Jailed Closed\nCONSTANTS\n Mode = \"trace\"\n"
    r = tlc.run("Privileges", cfg, files={"traces.json": json.dumps(traces)}, workers=1, heap="1g")
    v = {x[0] - 1: x for x in r.tagged("v")}
    return [v[i][1:] for i in range(len(traces))]


def who(v, n, base):
    return "root" if v == 0 else "keep" if v == -1 else "me" if n and v == base + n else "other"


def convert(evs, user, root):
    """recorded events as events of the specification"""
    r = []
    n = int(user[4:]) if user and user[4:].isdigit() else 0

    def ev(k, a="", b="", c="", ok=True):
        r.append({"k": k, "a": a, "b": b, "c": c, "ok": ok})

    def path(p):
        return "dir" if root and os.path.normpath(p) == os.path.normpath(root) else p if p in ("/", ".") else "other"
    for e in evs:
        k = e["e"]
        ok = not e.get("err")
        if k == "getpwnam":
            ev(k, "me" if e["arg"] == user else "other", ok=ok and bool(n))
        elif k == "initgroups":
            ev(k, "me" if e["arg"] == user else "other", who(e["gid"], n, 60000), ok=ok)
        elif k == "setgroups":
            ev(k, ok=ok)
        elif k in ("chroot", "chdir"):
            ev(k, path(e["arg"]), ok=ok)
        elif k == "setuid":
            ev(k, who(e["arg"], n, 50000), ok=ok)
        elif k == "setgid":
            ev(k, who(e["arg"], n, 60000), ok=ok)
        elif k in ("seteuid", "setegid"):
            ev("setresuid" if k == "seteuid" else "setresgid", "keep", who(e["arg"], n, 50000 if k == "seteuid" else 60000), "keep", ok)
        elif k in ("setresuid", "setresgid"):
            b = 50000 if k == "setresuid" else 60000
            ev(k, who(e["arg"], n, b), who(e["arg2"], n, b), who(e["arg3"], n, b), ok)
        elif k == "create":
            if e["ok"]:
                ev("make", os.path.basename(e["path"]))
        elif k == "dump_open":
            if ok:
                ev("make", "temp")
        elif k in ("bind", "listen"):
            if ok:
                ev("bind")
    return r


def scenario(user, root, fault, fg, pid, sub, seed):
    """(trace, whether it came up, expected to, message)"""
    rng = random.Random(seed)
    d = srv.scratch("priv")
    jail = d + "/" + rng.choice(["jail", "jail", "a b", "deep/er"]) if root else None
    if jail:
        os.makedirs(jail)
    place = rng.choice(["start", "end"])
    lines = []
    if user is not None:
        lines.append('user = "%s"' % user)
    if jail:
        lines.append('chroot = "%s"' % jail)
    rng.shuffle(lines)
    if pid == "conf":
        lines.append('pid_file = "%s/pid"' % d)
    t = "\n".join(lines) + "\n"
    if sub and lines:           # in a file of its own
        with open(d + "/more.conf", "w") as f:
            f.write(t)
        t = 'include("%s/more.conf")\n' % d
    args = ["-P", d + "/pid"] if pid == "opt" else []
    s = Server(lambda s: t + conf(AUTH)(s) if place == "start" else conf(AUTH)(s) + t, dir=d, args=args, faults=fault, fg=fg,
               priv=True, start=False, reader=True)
    s.own = True
    m = None
    try:
        up = s.wait_hello(30)
        if up:
            s.settle()
            c = Client(s)
            s.settle()
            if not (c.handshake() and c.send(b"MOIN 1 x\r\n") == b"MOIN 1\r\n"):
                m = "up, but does not serve"
            c.send(b"PUSH 6\r\n")
            c.send(b"[1] X\n")
            c.close()
            s.settle()
        tr = convert(s.events(), user, jail)
        st = None
        if up:
            tr.append({"k": "serve", "a": "", "b": "", "c": "", "ok": True})
        else:
            st = s.wait(20)
            tr.append({"k": "exit", "a": str(st) if st in (0, 1) else "0" if st == 0 else "1" if 0 < st < 99 else "bad", "b": "", "c": "", "ok": True})
            if not s.stderr().strip():
                m = "no message"
        m = m or s.asan() or None
        return {"cfg": {"user": user is not None, "root": root}, "ev": tr}, m, s.stderr()[-300:]
    finally:
        s.close()


def drive(part):
    res = [None] * len(part)
    trs, idx = [], []
    for i, p in enumerate(part):
        try:
            tr, m, err = scenario(*p)
            if m:
                res[i] = "%s (%s)" % (m, err)
            else:
                trs.append(tr)
                idx.append((i, err))
        except (Died, Stuck) as e:
            res[i] = "server died or is stuck: %s" % e
    if trs:
        for (i, err), (bad, st), tr in zip(idx, judge(trs), trs):
            if bad:
                res[i] = "%s: %s %s" % (bad, [(e["k"], e["a"], e["ok"]) for e in tr["ev"]], err)
    return res


def groups_of(name, gid):
    return {g.gr_gid for g in grp.getgrall() if name in g.gr_mem} | {gid}


def can_switch():
    """whether this sandbox lets a child change its user"""
    try:
        r = subprocess.run([sys.executable, "-ISc", "import os; os.setgroups([]); os.setgid(65534); os.setuid(65534)"],
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        return r.returncode == 0 and os.getuid() == 0
    except OSError:
        return False


def real(p):
    """the kernel's view of a server which has really switched"""
    user, fg, seed = p
    pw = pwd.getpwnam(user)
    d = srv.scratch("real")
    try:
        os.chmod(d, 0o755)
        run_d = d + "/run"
        os.mkdir(run_d)
        os.chown(run_d, pw.pw_uid, pw.pw_gid)
        os.mkfifo(run_d + "/cmd")
        os.chown(run_d + "/cmd", pw.pw_uid, pw.pw_gid)
        host = srv.my_host()
        port = srv.free_port(host)
        with open(d + "/conf", "w") as f:
            f.write('user = "%s"\ntemp_directory = "%s"\n' % (user, run_d) + AUTH)
        os.chmod(d + "/conf", 0o600)        # read before the privileges are dropped
        exe = d + "/nsca-ng"
        os.link(build.server(), exe) if os.stat(build.server()).st_dev == os.stat(d).st_dev else __import__("shutil").copy(build.server(), exe)
        os.chmod(exe, 0o755)
        p = subprocess.Popen([exe, "-c", d + "/conf", "-C", run_d + "/cmd", "-b", "%s:%d" % (host, port), "-P", run_d + "/pid", "-F"],
                             stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=d,
                             env={"PATH": "/usr/bin:/bin", "ASAN_OPTIONS": "detect_leaks=0"}, start_new_session=True,
                             preexec_fn=lambda: os.setgroups([0, 4, 24]))
        try:
            end = time.time() + 20
            c = None
            while time.time() < end and not c and p.poll() is None:
                c = login(host, port, "secret", 5)
                time.sleep(.01)
            if not c:
                p.kill()
                return "not served as %s: %s" % (user, p.stderr.read().decode(errors="replace")[-300:])
            c[0].close()
            st = dict(l.split(":", 1) for l in open("/proc/%d/status" % p.pid).read().splitlines() if ":" in l)
            uid = st["Uid"].split()
            gid = st["Gid"].split()
            gs = {int(x) for x in st["Groups"].split()}
            if uid != [str(pw.pw_uid)] * 4:
                return "user ids %s for %s" % (uid, user)
            if gid != [str(pw.pw_gid)] * 4:
                return "group ids %s for %s" % (gid, user)
            if gs != groups_of(user, pw.pw_gid):
                return "groups %s for %s" % (gs, user)
            if st["CapEff"].strip().strip("0"):
                return "capabilities %s" % st["CapEff"]
            o = os.stat(run_d + "/pid")
            if (o.st_uid, o.st_gid) != (pw.pw_uid, pw.pw_gid):
                return "PID file created by %s" % ((o.st_uid, o.st_gid),)
            return None
        finally:
            p.kill()
            p.wait()
            p.stderr.close()
    finally:
        __import__("shutil").rmtree(d, ignore_errors=True)


def drive_real(part):
    return [real(p) for p in part]


def self_test(c):
    """the specification rejects programs which leave out or swap steps"""
    def ev(k, a="", b=""):
        return {"k": k, "a": a, "b": b, "c": "", "ok": True}
    good = [ev("getpwnam", "me"), ev("initgroups", "me", "me"), ev("chroot", "dir"), ev("chdir", "/"), ev("setgid", "me"), ev("setuid", "me"),
            ev("make", "pid"), ev("bind"), ev("serve")]
    cfg = {"user": True, "root": True}
    trs, want = [{"cfg": cfg, "ev": good}], [True]
    for i in range(6):
        trs.append({"cfg": cfg, "ev": good[:i] + good[i + 1:]})
        want.append(False)
        for j in range(i + 1, 9):
            t = list(good)
            t.insert(j, t.pop(i))
            trs.append({"cfg": cfg, "ev": t})
            # only the order of getpwnam/chroot, groups/user and visibility matters
            names = [x["k"] for x in t]
            pos = {x: names.index(x) for x in names}
            want.append(pos["getpwnam"] < pos["initgroups"] < pos["chroot"] < pos["chdir"] and pos["setuid"] > max(pos[x] for x in STEPS[:5])
                        and pos["make"] > pos["setuid"] or
                        (pos["getpwnam"] < min(pos["initgroups"], pos["setgid"]) and pos["initgroups"] < pos["chroot"] < pos["chdir"]
                         and pos["setuid"] > max(pos["chroot"], pos["setgid"], pos["initgroups"]) and pos["make"] > max(pos["setuid"], pos["chdir"])))
    got = [not bad for bad, st in judge(trs)]
    assert got == want, [(t, g, w) for t, g, w in zip(trs, got, want) if g != w]
    c.count("specification_self_tests", len(trs))


def p18(c):
    build.server()
    build.shim()
    c.model(tlc.run("Privileges", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n%sCONSTANTS\n Mode = \"program\"\n" % INV, workers=2),
            "Privileges, program with failing steps")
    self_test(c)
    sc = []
    for user in (None, "user1", "user7", "nobody-such", "", "user"):
        for root in (False, True):
            fs = [None]
            if user is not None:
                fs += ["getpwnam:5:1", "getpwnam:4:1", "initgroups:1:1", "setgid:1:1", "setuid:1:1", "setuid:11:1"]
            if root:
                fs += ["chroot:1:1", "chroot:2:1", "chdir:13:1"]
            for f in fs:
                for fg in (True, False):
                    for pid in ("none", "opt", "conf"):
                        for sub in (False, True):
                            sc.append([user, root, f, fg, pid, sub, c.rng.randrange(1 << 30)])
    c.rng.shuffle(sc)
    c.count("scenarios", len(sc))
    for x in sc[:3]:
        c.sample(x)
    c.replay(drive, sc, chunk=25, budget=100 if c.quick else 850)
    users = [p.pw_name for p in pwd.getpwall() if p.pw_uid > 0 and p.pw_name != "nobody"][: 4 if c.quick else 12] + ["nobody"]
    if can_switch():
        c.count("real_switches", len(users))
        c.replay(drive_real, [[u, True, c.rng.randrange(1 << 30)] for u in users], chunk=1)
    else:
        c.assumptions.append("This sandbox does not let a process change its user, so only the recorded calls have been judged.")
    c.assumptions += ["The calls are recorded by stand-ins; their effects are those of the specification (Do), which are the kernel's.",
                      "chroot() is never made for real."]


CHECKS = {"P18": p18}

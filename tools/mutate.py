"""mutate.py SEED N [FILE...]: random mutants of /repo's sources, in scratch copies.

A mutant that builds and passes the stable tests is put to the checks its file
maps to until one reports it; survivors are printed with their diff (they are
read by hand: equivalent, unspecified, or a gap)."""
import os, random, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
    "src/client/auth.c": "C05 C01", "src/client/client.c": "C01 C02 C03 C04 C06", "src/client/conf.c": "C05", "src/client/input.c": "C04 C03",
    "src/client/parse.c": "C02", "src/client/send_nsca.c": "C05 C02 C01 C04", "src/common/buffer.c": "P05 C04 P20", "src/common/log.c": "P17",
    "src/common/tls.c": "P04 P05 P06 P13 P14 P15 C01 C03 C06 P19 P17 P20", "src/common/util.c": "C02 C05 P17 P02", "src/server/auth.c": "P01 P02 P03 P17 P20",
    "src/server/conf.c": "P17 P02", "src/server/fifo.c": "P07 P08 P09 P10 P11 P12 P20", "src/server/hash.c": "P01 P02", "src/server/nsca-ng.c": "P16 P17 P18 P19",
    "src/server/server.c": "P04 P06 P03 P13 P14 P15 P20", "perl/client.c": "M01 M02 M03", "perl/Client.xs": "M02 M01 M03", "python/client.c": "M01 M02 M03", "python/nscang.c": "M02 M01 M03",
    "lib/pidfile/pidfile.c": "P16", "lib/pidfile/flopen.c": "P16",
}
OPS = [(r"(?<![-<>=!])<(?![<=])", "<="), (r"(?<![->=])>(?![>=])", ">="), (r"<=", "<"), (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r"&&", "||"),
       (r"\|\|", "&&"), (r" \+ 1\b", ""), (r" - 1\b", ""), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\b0\b", "1"), (r"\b1\b", "2"),
       (r"\b1\b", "0"), (r"\bsize\b", "size + 1"), (r"\+=", "="), (r"\bNULL\b(?=[,)])", None), (r"!(?=[a-z(])", ""), (r"\bcontinue\b", "break")]


def mutants(root, files):
    res = []
    for f in files:
        lines = open(os.path.join(root, f)).read().split("\n")
        comment = False
        depth = 0
        for i, l in enumerate(lines):
            s = l.strip()
            if "/*" in s and "*/" not in s:
                comment = True
            if comment:
                comment = "*/" not in s
                continue
            if not l.startswith("\t") and not f.endswith(".xs") or s.startswith(("#", "/*", "debug(", "info(", "notice(", "*", "//", '"')) or not s:
                continue
            code = re.sub(r'"(\\.|[^"\\])*"|/\*.*?\*/', lambda m: "\0" * len(m[0]), l)
            for pat, new in OPS:
                if new is None:
                    continue
                for m in re.finditer(pat, code):
                    res.append((f, i, l[:m.start()] + new + l[m.end():]))
            if re.match(r"^(\(void\))?[A-Za-z_][\w>.\[\]*-]*(\(.*\)| [-+|]?= .*|\+\+)?;$", s) and not s.startswith(("return", "goto")):
                res.append((f, i, re.match(r"\s*", l)[0] + ";"))
            if s == "break;":
                res.append((f, i, re.match(r"\s*", l)[0] + ";"))
    return res


def sh(cmd, cwd, t=900, env=None):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, env=dict(os.environ, **(env or {})))
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return -1, "timeout"


def tests(w):
    """those of the core's tests which fail (the first one)"""
    b = os.path.join(w, "_build")
    rc, o = sh("make -s check TESTSUITEFLAGS=--list", b + "/tests")
    bad = []
    for n, f, name in re.findall(r"^ *(\d+): ([^ :]*\.at):\d* *(.*?) *$", o, re.M):
        rc, o = sh("timeout -k 5 60 bash ../../tests/testsuite --color=never %s" % n, b + "/tests")
        for e in os.listdir("/proc"):
            try:
                if e.isdigit() and os.readlink("/proc/%s/exe" % e).startswith(b + "/src/server/nsca-ng"):
                    os.kill(int(e), 9)
            except OSError:
                pass
        if not re.search(r"^ *%s: .* (ok|skipped.*) *$" % n, o, re.M):
            bad.append(name)
            if len(bad) > 0:
                break
    return bad


def main():
    seed, n = int(sys.argv[1]), int(sys.argv[2])
    files = sys.argv[3:] or list(CHECKS)
    rng = random.Random(seed)
    ms = mutants("/repo", files)
    per = {}
    for m in ms:
        per.setdefault(m[0], []).append(m)
    print("%d mutants" % len(ms), flush=True)
    rng.shuffle(ms)
    w = "/tmp/mutate-%d" % os.getpid()
    done = 0
    for f, i, new in ms:
        if done >= n:
            break
        shutil.rmtree(w, ignore_errors=True)
        subprocess.run(["cp", "-a", "/repo", w], check=True)
        sh("sed -i 's#/repo#%s#g' _build/tests/atconfig" % w, w)
        p = os.path.join(w, f)
        lines = open(p).read().split("\n")
        old = lines[i]
        lines[i] = new
        open(p, "w").write("\n".join(lines))
        what = "%s:%d: %s  -->  %s" % (f, i + 1, old.strip(), new.strip())
        if f.startswith(("src", "lib")):
            rc, o = sh("make -s -j8 all CFLAGS='-g -O1 -Werror=int-conversion -Werror=incompatible-pointer-types'", w + "/_build")
            if rc:
                continue
            bad = tests(w)
            if bad:
                print("tests: %s [%s]" % (what, bad[0]), flush=True)
                continue
        done += 1
        t = time.time()
        for c in CHECKS[f].split():
            rc, o = sh("python3 checks/run.py %s" % c, V, env={"VERIF_REPO": w, "VERIF_OUT": w + ".out"})
            if rc == 1 and "VIOLATION" in o:
                print("caught by %s: %s (%.0f s)" % (c, what, time.time() - t), flush=True)
                break
            if rc != 0:
                print("NO ANSWER %s: %s\n%s" % (c, what, o[-300:]), flush=True)
        else:
            print("SURVIVED: %s (%.0f s)" % (what, time.time() - t), flush=True)
    shutil.rmtree(w, ignore_errors=True)
    shutil.rmtree(w + ".out", ignore_errors=True)


main()

"""mkseed.py ID PROP <<< python demo; takes the patch from the worktree /tmp/seed
(a git worktree of /repo).  Env: NEEDS, BREAKS."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid, prop = sys.argv[1:3]
d = os.path.join(V, "seeded", sid)
os.makedirs(d, exist_ok=True)
diff = subprocess.check_output(["git", "-C", "/tmp/seed", "diff"])
if diff:
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
new = 0
cur = None
for l in diff.decode().splitlines():            # only lines of the original repository may be changed
    if l.startswith("--- a/"):
        cur = l[6:]
    elif l.startswith("@@"):
        n = int(l.split()[1].split(",")[0][1:])
    elif l.startswith("-") and not l.startswith("---"):
        b = subprocess.check_output(["git", "-C", "/repo", "blame", "-s", "-L", "%d,%d" % (n, n), "HEAD", "--", cur]).decode()
        if not b.startswith("^c08c642"):
            print("NOT ORIGINAL:", b)
        n += 1
        new += 1
    elif l.startswith(" "):
        n += 1
print("%d original lines changed" % new)
for f in ("tls.py", "nsca.py"):
    shutil.copy(os.path.join(V, "tools/demo", f), d)
body = sys.stdin.read()
if body.strip():
    open(os.path.join(d, "demo.py"), "w").write(body)
with open(os.path.join(d, "demo.sh"), "w") as f:
    f.write('#!/bin/sh\n# run with cwd /repo after the build\nexport PYTHONDONTWRITEBYTECODE=1\nexec timeout 280 /usr/bin/python3 "$(dirname "$0")/demo.py"\n')
os.chmod(os.path.join(d, "demo.sh"), 0o755)
if os.environ.get("NEEDS"):
    json.dump({"property": prop, "needs": os.environ["NEEDS"], "what_it_breaks": os.environ["BREAKS"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)

#!/usr/bin/env python3
"""countable.py: which planted changes alter lines of the original repository
(rather than only lines the fix commits added).  Prints those that do not."""
import os, re, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("VERIF_REPO", "/repo")
git = lambda *a: subprocess.run(["git", "-C", R, *a], capture_output=True, text=True, check=True).stdout
base = "26cd010"
fixed = {}
def added(f):
    if f not in fixed:
        fixed[f] = {int(m[1]) for l in git("blame", "-s", f"{base}..HEAD", "--", f).splitlines()
                    if not l.startswith("^") and (m := re.search(r" (\d+)\) ", l))}
    return fixed[f]
for d in sorted(os.listdir(f"{V}/seeded")):
    ok, f = False, ""
    with tempfile.TemporaryDirectory() as t:
        subprocess.run(["cp", "-r", f"{R}/.", t], check=True)
        if subprocess.run(["git", "-C", t, "apply", f"{V}/seeded/{d}/patch.diff"]).returncode:
            print(d, "DOES NOT APPLY"); continue
        text = subprocess.run(["git", "-C", t, "diff", "-U0"], capture_output=True, text=True).stdout
    for part in re.split(r"(?m)^(?=diff --git )", text)[1:]:
        f = re.search(r"^--- a/(.*)$", part, re.M)[1]
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", part, re.M):
            at, n = int(m[1]), int(m[2] or 1)
            old = [x not in added(f) for x in (range(at, at + n) if n else (at, at + 1))]
            ok |= any(old) if n else all(old)
    if not ok:
        print(d, "changes no original line")

#!/usr/bin/env python3
"""mutate.py ID FILE OLD NEW [N]: run the check of ID on a copy of /repo in
which the N-th (default 1st) occurrence of OLD in FILE is replaced by NEW."""
import os, shutil, subprocess, sys, tempfile
pid, f, old, new = sys.argv[1:5]
nth = int(sys.argv[5]) if len(sys.argv) > 5 else 1
d = tempfile.mkdtemp(prefix="mut")
try:
    subprocess.run(["cp", "-a", "/repo/.", d], check=True)
    p = os.path.join(d, f)
    s = open(p).read()
    old, new = old.encode().decode("unicode_escape"), new.encode().decode("unicode_escape")
    parts = s.split(old)
    if len(parts) <= nth:
        sys.exit("NOT FOUND: %d occurrences of %r" % (len(parts) - 1, old))
    s = old.join(parts[:nth]) + new + old.join(parts[nth:])
    open(p, "w").write(s)
    for i in pid.split(","):
        r = subprocess.run([sys.executable, "/verif/check.py", i], env=dict(os.environ, VERIF_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        tail = r.stdout.strip().splitlines()
        verdict = {0: "MISSED", 1: "caught", 2: "ERROR"}.get(r.returncode, "?")
        print("%s %s %s: %r -> %r\n    %s" % (verdict, i, f, old[:60], new[:60], (tail[0][:200] if tail else "") + (" | " + tail[-1][:100] if len(tail) > 1 else "")))
        if r.returncode == 2 or os.environ.get("V"):
            print(r.stdout[-2500:])
finally:
    shutil.rmtree(d)

#!/usr/bin/env python3
"""plant.py DIR FILE OLD NEW [FILE OLD NEW ...]: make a planted change.

Replaces OLD by NEW (each must occur exactly once; @path reads it from a file)
in a copy of /repo, builds it, runs the stable tests' packages, runs DIR/demo.sh
without and with the change, and writes DIR/patch.diff when all is as it should be."""
import os, shutil, subprocess, sys, tempfile
d = os.path.abspath(sys.argv[1])
edits = [sys.argv[i:i + 3] for i in range(2, len(sys.argv), 3)]
E = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOWORK="off")
t = tempfile.mkdtemp(prefix="plant")
def run(cmd, **kw):
    return subprocess.run(cmd, cwd=t, env=E, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
try:
    subprocess.run(["cp", "-a", "/repo/.", t], check=True)
    r = run(["bash", d + "/demo.sh"])
    if r.returncode:
        sys.exit("demo fails on the unchanged tree\n" + r.stdout[-3000:])
    for f, old, new in edits:
        p = os.path.join(t, f)
        s = open(p).read()
        old, new = [open(x[1:]).read() if x.startswith("@") else x for x in (old, new)]
        if s.count(old) != 1:
            sys.exit("%d occurrences of %r in %s" % (s.count(old), old, f))
        open(p, "w").write(s.replace(old, new))
    run(["gofmt", "-l", "."])
    diff = run(["git", "diff"]).stdout
    r = run(["go", "build", "./..."])
    if r.returncode:
        sys.exit("does not build\n" + r.stdout)
    for i in range(2):
        r = run(["bash", d + "/demo.sh"])
        if not r.returncode:
            sys.exit("demo passes with the change\n" + r.stdout[-1500:])
    print(r.stdout.strip()[-700:])
    r = run(["go", "test", "-vet=off", "-count=1"] + sorted({"./" + os.path.dirname(f) for f, _, _ in edits} - {"./chans", "./flow"}))
    if r.returncode:
        print("TESTS: ", [l for l in r.stdout.splitlines() if l.startswith("--- FAIL") or "panic" in l or "build failed" in l][:10])
    open(d + "/patch.diff", "w").write(diff)
    print("written", d)
finally:
    shutil.rmtree(t)

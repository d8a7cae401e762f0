#!/usr/bin/env python3
"""reverted.py [ID]: for each repaired defect, undo its fix commit in a copy of
/repo and run the property's check, which must report the defect again."""
import os, re, shutil, subprocess, sys, tempfile
only = sys.argv[1] if len(sys.argv) > 1 else None
for line in open("/verif/known_findings.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", line)
    if not m or (only and m.group(1) != only):
        continue
    pid, h, what = m.groups()
    d = tempfile.mkdtemp(prefix="rev")
    try:
        subprocess.run(["cp", "-a", "/repo/.", d], check=True)
        r = subprocess.run(["git", "-C", d, "revert", "-n", h], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        how = ""
        if r.returncode:
            subprocess.run(["git", "-C", d, "revert", "--abort"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            subprocess.run(["git", "-C", d, "reset", "-q", "--hard", h + "~1"])
            how = " (tree before the fix)"
        r = subprocess.run([sys.executable, "/verif/check.py", pid], env=dict(os.environ, VERIF_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 2 and not how:
            subprocess.run(["git", "-C", d, "reset", "-q", "--hard", h + "~1"])
            how = " (tree before the fix)"
            r = subprocess.run([sys.executable, "/verif/check.py", pid], env=dict(os.environ, VERIF_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print("%-6s %s %s%s: %s\n     %s" % ({0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR"), pid, h, how, what[:70], r.stdout.strip()[:int(os.environ.get("W","150"))]))
    finally:
        shutil.rmtree(d)

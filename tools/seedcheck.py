#!/usr/bin/env python3
"""seedcheck.py [ID...]: run the checks against the planted changes, each in a
copy of /repo. Every change is tried on its own property's check, and, with
ALL=1, on all checks whose property is anchored in a file it touches."""
import collections, concurrent.futures as cf, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
props = collections.defaultdict(list)
for l in open(V + "/properties.jsonl"):
    d = json.loads(l)
    for f in d["anchors"]["files"]:
        props[f].append(d["id"])
def one(i):
    d = tempfile.mkdtemp(prefix="seed")
    try:
        subprocess.run(["cp", "-a", "/repo/.", d], check=True)
        patch = "%s/seeded/%s/patch.diff" % (V, i)
        subprocess.run(["git", "-C", d, "apply", patch], check=True)
        own = json.load(open("%s/seeded/%s/meta.json" % (V, i)))["property"]
        todo = [own]
        if os.environ.get("ALL"):
            for l in open(patch):
                if l.startswith("+++ b/"):
                    todo += [p for p in props[l[6:].strip()] if p not in todo]
        res = []
        for p in todo:
            c = subprocess.run([sys.executable, V + "/check.py", p], env=dict(os.environ, VERIF_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            res.append((p, c.returncode, c.stdout.strip()[:250] if c.returncode < 2 else c.stdout[-800:]))
        return i, res
    finally:
        shutil.rmtree(d)
with cf.ThreadPoolExecutor(int(os.environ.get("JOBS", "3"))) as ex:
    for i, res in ex.map(one, ids):
        print("%-32s %s" % (i, " ".join("%s=%s" % (p, {0: "quiet", 1: "CAUGHT"}.get(r, "ERROR")) for p, r, _ in res)))
        p, r, t = res[0]
        print("      ", t.replace("\n", "\n       "), flush=True)

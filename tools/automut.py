#!/usr/bin/env python3
"""automut.py OUT [FILE...]: make every small change mutgen knows to the files
(default: all anchored ones), in copies of /repo, and see which checks notice.
Appends one JSON line per change to OUT; changes in OUT already are skipped.
SAMPLE=n takes n of them at random, JOBS=n runs n at a time."""
import collections, concurrent.futures as cf, json, os, random, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = sys.argv[1]
props = collections.defaultdict(list)
for l in open(V + "/properties.jsonl"):
    d = json.loads(l)
    for f in d["anchors"]["files"]:
        props[f].append(d["id"])
files = sys.argv[2:] or sorted(props)
E = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOWORK="off")
tmp = tempfile.mkdtemp(prefix="automut")
tool = tmp + "/mutgen"
subprocess.run(["go", "build", "-o", tool, "./cmd/mutgen"], cwd=V + "/harness", env=E, check=True)
done = set()
if os.path.exists(out):
    for l in open(out):
        d = json.loads(l)
        done.add((d["file"], d["start"], d["end"], d["with"]))
work = []
for f in files:
    for m in json.loads(subprocess.run([tool, "/repo/" + f], stdout=subprocess.PIPE, check=True, text=True).stdout) or []:
        if (f, m["start"], m["end"], m["with"]) not in done:
            work.append((f, m))
if "SAMPLE" in os.environ:
    random.Random(1).shuffle(work)
    del work[int(os.environ["SAMPLE"]):]
print(len(work), "changes")

def one(job):
    f, m = job
    d = tempfile.mkdtemp(prefix="m", dir=tmp)
    try:
        subprocess.run(["cp", "-a", "/repo/.", d], check=True)
        src = open("/repo/" + f, "rb").read()
        open(d + "/" + f, "wb").write(src[:m["start"]] + m["with"].encode() + src[m["end"]:])
        r = dict(m, file=f, was=src[m["start"]:m["end"]].decode(errors="replace")[:300])
        b = subprocess.run(["go", "build", "./..."], cwd=d, env=E, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if b.returncode:
            return dict(r, verdict="does not compile")
        r["verdict"] = "MISSED"
        for p in props[f]:
            c = subprocess.run([sys.executable, V + "/check.py", p], env=dict(os.environ, VERIF_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if c.returncode == 1:
                return dict(r, verdict="caught", by=p, how=c.stdout.strip().splitlines()[0][:200])
            if c.returncode != 0:
                r["verdict"] = "ERROR"
                r["how"] = c.stdout[-1500:]
        return r
    finally:
        shutil.rmtree(d)

n = collections.Counter()
with cf.ThreadPoolExecutor(int(os.environ.get("JOBS", "4"))) as ex, open(out, "a") as o:
    for r in ex.map(one, work):
        n[r["verdict"]] += 1
        o.write(json.dumps(r) + "\n")
        o.flush()
        if r["verdict"] in ("MISSED", "ERROR"):
            print(r["verdict"], r["file"], r["line"], r["kind"], repr(r["was"][:80]), "->", repr(r["with"][:80]), flush=True)
print(dict(n))
shutil.rmtree(tmp)

#!/usr/bin/env python3
"""Builds the workloads of a property against /repo's working tree, with the
race detector and the schedule hooks compiled in, runs them in parallel and
turns what their monitors report into a verdict and an evidence file.

  check.py ID                 run the check (VERIF_SEED, VERIF_TIER)
  check.py ID --replay FILE   run the case of a replay file again
  check.py --setup            warm the build cache
Exit: 0 held, 1 violated (VIOLATION line), 2 no verdict.
"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
PACKAGES = {
    "maps": ["C01", "C02", "C03", "C04", "C05", "C06"],
    "guava": ["C07", "C08", "C09", "C10", "C11", "C12"],
    "waits": ["C13", "C14", "C15", "C16", "C17"],
    "reqs": ["C18", "C19", "C20", "C21", "C22"],
    "chansp": ["C23", "C24", "C25", "C26", "C27", "C28", "C29", "C42"],
    "memory": ["C43"],
    "whole": ["C44", "C45"],
    "pure": ["C30", "C31", "C32", "C33", "C34", "C35", "C36", "C37", "C38", "C39", "C40", "C41"],
}
PKG = {i: p for p, ids in PACKAGES.items() for i in ids}
SHARDS = 8
PROCS = [4, 2, 8, 1, 3, 4, 2, 6]


def env():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOWORK="off",
             GOSUMDB="off", CGO_ENABLED="1", GOTELEMETRY="off")
    e.setdefault("HOME", "/root")
    e.pop("GODEBUG", None)
    return e


def die(msg):
    print("NO VERDICT: " + msg)
    sys.exit(2)


def go(args, what):
    r = subprocess.run(["go"] + args, cwd=HARNESS, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        die("%s failed:\n%s" % (what, r.stdout[-6000:]))


def build(pkg, out):
    shutil.rmtree(out, ignore_errors=True)
    inst = os.path.join(out, "src")
    os.makedirs(inst)
    tool = os.path.join(out, "instrument")
    go(["build", "-race", "-o", tool, "./cmd/instrument"], "building the instrumenter")
    r = subprocess.run([tool, REPO, inst, "/repo"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        die("instrumenting failed:\n" + r.stdout)
    binary = os.path.join(out, "props.test")
    go(["test", "-c", "-race", "-vet=off", "-overlay", os.path.join(inst, "overlay.json"), "-o", binary, "./props/" + pkg],
       "building the workloads")
    return binary, json.load(open(os.path.join(inst, "sites.json")))


def known(pid):
    """Keys of the recorded, unrepaired findings of a property."""
    keys = {}
    for line in open(os.path.join(VERIF, "known_findings.txt")):
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
        if m and m.group(1) == pid:
            keys[m.group(2)] = m.group(3)
    return keys


def verdict_of(rc, out):
    """What one process reported: (kind, record). kind: ok, violation, error."""
    m = re.search(r"^KIT-VIOLATION (.*)$", out, re.M)
    if m:
        try:
            return "violation", json.loads(m.group(1))
        except ValueError:
            return "violation", {"message": m.group(1)[:4000]}
    m = re.search(r"^KIT-ERROR (.*)$", out, re.M)
    if m:
        return "error", {"message": m.group(1)}
    m = re.search(r"^={10,}\nWARNING: DATA RACE\n(.*?)^={10,}$", out, re.M | re.S)
    if m:
        return "violation", {"message": "data race\n" + m.group(1)[:6000]}
    if "WARNING: DATA RACE" in out:
        return "violation", {"message": out[out.index("WARNING: DATA RACE"):][:6000]}
    if "simultaneously alive goroutines is exceeded" in out:
        return "violation", {"message": "goroutines without bound: the race detector gave up at 8128"}
    m = re.search(r"^(panic: |fatal error: )", out, re.M)
    if m and rc:
        text = out[m.start():][:6000]
        if "out of memory" in text[:200] or "failed to create new OS thread" in text[:200]:
            return "error", {"message": text[:500]}
        return "violation", {"message": text}
    if rc:
        return "error", {"message": "exit %d\n%s" % (rc, out[-3000:])}
    return "ok", None


def run(pid, binary, out, tier, seed, keys, shards=SHARDS, extra=None):
    procs = []
    limit = 780 if tier == "quick" else 6 * 3600
    deadline = time.time() + limit
    for k in range(shards):
        e = env()
        work = os.path.join(out, "work%d" % k)
        os.makedirs(work, exist_ok=True)
        e.update(VERIF_PROP=pid, VERIF_SHARD=str(k), VERIF_SHARDS=str(shards), VERIF_SEED=str(seed), VERIF_TIER=tier,
                 VERIF_STATS=os.path.join(out, "stats%d.json" % k), VERIF_KNOWN="\n".join(keys), TMPDIR=work,
                 GOMAXPROCS=str(PROCS[k % len(PROCS)]), GORACE="halt_on_error=1 exitcode=66 history_size=2",
                 GOTRACEBACK="all")
        e.update(extra or {})
        log = open(os.path.join(out, "log%d.txt" % k), "w+")
        p = subprocess.Popen([binary, "-test.run", "^TestProp$", "-test.timeout", "0"], cwd=work, env=e,
                             stdout=log, stderr=subprocess.STDOUT)
        procs.append((k, p, log))
    results, stop = [], False
    live = list(procs)
    while live:
        time.sleep(0.02)
        for item in list(live):
            k, p, log = item
            if p.poll() is None:
                if stop or time.time() > deadline:
                    p.kill()
                    p.wait()
                    live.remove(item)
                    if not stop:
                        results.append((k, "error", {"message": "ran out of the %d s given" % limit}))
                continue
            live.remove(item)
            log.flush()
            log.seek(0)
            text = log.read()
            if os.environ.get("VERIF_TIMING") and k == 0:
                print("".join(l + "\n" for l in text.splitlines() if l.startswith("TIMING")), end="")
            kind, rec = verdict_of(p.returncode, text)
            if rec is not None:
                rec["shard"], rec["log_tail"] = k, text[-2500:]
            results.append((k, kind, rec))
            if kind != "ok":
                stop = True
    return results


def merge(out, sites, anchors):
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "cases_per_part": {}, "observed": {},
           "largest": {}, "inconclusive": {}}
    hashes, seen, hit, found = set(), set(), set(), set()
    parked = yields = 0
    for f in sorted(glob.glob(os.path.join(out, "stats*.json"))):
        s = json.load(open(f))
        cov["rule"] = s["rule"]
        for part, n in s["cases"].items():
            cov["cases_per_part"][part] = cov["cases_per_part"].get(part, 0) + n
            cov["evaluations"] += n
        for name, n in s["events"].items():
            cov["observed"][name] = cov["observed"].get(name, 0) + n
        for name, n in s["max"].items():
            cov["largest"][name] = max(cov["largest"].get(name, 0), n)
        for name, n in s["inconclusive"].items():
            cov["inconclusive"][name] = cov["inconclusive"].get(name, 0) + n
        hashes.update(s["hashes"] or [])
        for part, list_ in (s["samples"] or {}).items():
            if part not in seen:
                seen.add(part)
                cov["samples"] += [{"part": part, "case": x} for x in list_]
        hit.update(s["sites"] or [])
        found.update(s["known"] or [])
        parked += s["parked"]
        yields += s["yields"]
    cov["distinct_nontrivial"] = len(hashes)
    cov["schedule_perturbations"] = {"arrivals_parked": parked, "yields_injected": yields}
    mine = [i for i, x in enumerate(sites) if x.rsplit(":", 1)[0] in anchors]
    cov["statements_of_anchored_files"] = {"total": len(mine), "executed": len([i for i in mine if i in hit]),
                                           "not_executed": [sites[i] for i in mine if i not in hit][:40]}
    return cov, found


def prop(pid):
    for line in open(os.path.join(VERIF, "properties.jsonl")):
        x = json.loads(line)
        if x["id"] == pid:
            return x
    die("unknown property " + pid)


def main():
    if "--setup" in sys.argv:
        for p in PACKAGES:
            out = os.path.join(VERIF, ".build", "setup")
            build(p, out)
            shutil.rmtree(out, ignore_errors=True)
        print("built " + " ".join(PACKAGES))
        return 0
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = os.environ.get("VERIF_SEED", "1")
    if not re.fullmatch(r"-?\d+", seed):
        seed = str(int(hashlib.md5(seed.encode()).hexdigest()[:8], 16))
    keys = known(pid)
    info = prop(pid)
    out = os.path.join(VERIF, ".build", "%s-%d" % (pid, os.getpid()))
    t0 = time.time()
    try:
        binary, sites = build(PKG[pid], out)
        t1 = time.time()
        extra, shards = {}, SHARDS
        if "--replay" in sys.argv:
            rec = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
            seed, tier = str(rec["seed"]), rec.get("tier", "quick")
            if rec.get("part"):
                extra = dict(VERIF_PART=rec["part"], VERIF_CASE=str(rec["case"]), VERIF_REPEAT="2000" if rec.get("stress") else "200",
                             VERIF_SHARDS="1", VERIF_SHARD="0")
        results = run(pid, binary, out, tier, seed, list(keys), shards, extra)
        bad = [r for _, kind, r in results if kind == "violation"]
        err = [r for _, kind, r in results if kind == "error"]
        rc = 0
        cov, found = merge(out, sites, set(info["anchors"]["files"]))
        if bad:
            r = bad[0]
            r.update(property=pid, seed=int(seed), tier=tier)
            r.setdefault("part", "")
            r.setdefault("case", -1)
            name = "%s-%s.json" % (pid, hashlib.sha1(json.dumps([r.get("part"), r.get("case"), r["message"][:200]]).encode()).hexdigest()[:10])
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = os.path.join(VERIF, "replays", name)
            json.dump(r, open(path, "w"), indent=1)
            print(r["message"][:3000])
            print("part=%s case=%s seed=%s" % (r["part"], r["case"], seed))
            print("VIOLATION property=%s replay=%s" % (pid, path))
            rc = 1
        elif err:
            print("NO VERDICT: " + err[0]["message"][:3000])
            rc = 2
        elif "--replay" not in sys.argv:
            inc = sum(cov["inconclusive"].values())
            if cov["evaluations"] == 0 or cov["distinct_nontrivial"] < 5:
                print("NO VERDICT: the workloads observed too little: %s" % json.dumps(cov["cases_per_part"]))
                rc = 2
            elif inc * 4 > cov["evaluations"]:
                print("NO VERDICT: %d of %d cases were inconclusive" % (inc, cov["evaluations"]))
                rc = 2
        if rc == 0:
            for k in sorted(found):
                print("KNOWN-FINDING: property=%s %s" % (pid, keys[k]))
            print("%s held on %d cases, %d distinct (%.1fs build, %.1fs run)" %
                  (pid, cov["evaluations"], cov["distinct_nontrivial"], t1 - t0, time.time() - t1))
        if "--replay" not in sys.argv:
            ev = {"property": pid, "tier": tier, "seed": int(seed), "level": "exploration", "coverage": cov,
                  "assumptions": ["the Go runtime, compiler, race detector and testing/synctest are correct",
                                  "only the schedules and inputs that were run are judged"],
                  "wall_s": round(time.time() - t0, 2), "violations": len(bad)}
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1, ensure_ascii=False)
        return rc
    finally:
        shutil.rmtree(out, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties whose workloads exist."""
import json, os, re, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
import check
built = set()
for pkg in check.PACKAGES:
    d = os.path.join(V, "harness", "props", pkg)
    if os.path.isdir(d):
        for f in os.listdir(d):
            built |= set(re.findall(r'ID:\s+"(C\d+)"', open(os.path.join(d, f)).read()))
TECH = {
 "race": "Go race detector + schedule perturbation",
 "lin": "linearizability checking (porcupine) of recorded concurrent histories, reference-model monitor, Go race detector, schedule perturbation",
 "model": "reference-model monitor over generated inputs, race detector build",
 "time": "online model monitor over timelines in virtual time (testing/synctest), stress under the Go race detector with schedule perturbation",
 "memory": "heap and goroutine monitor over rounds of entries that come and go, virtual time (testing/synctest), race detector build",
 "panics": "model monitor over histories and crowds in which callbacks panic or exit, hang detection, Go race detector, schedule perturbation",
 "builders": "model monitors on several values built by one builder and used side by side, virtual time (testing/synctest), Go race detector, schedule perturbation",
 "flow": "conservation/order/exactly-once monitor over recorded events, virtual time (testing/synctest), Go race detector, schedule perturbation",
}
KIND = dict(C01="lin", C02="lin", C03="race", C04="lin", C05="lin", C06="model", C07="lin", C08="lin", C09="lin", C10="time", C11="flow",
  C12="lin", C13="time", C14="time", C15="time", C16="time", C17="time", C18="time", C19="time", C20="time", C21="lin", C22="time",
  C23="flow", C24="time", C25="flow", C26="flow", C27="flow", C28="flow", C29="flow", C38="flow", C42="flow", C43="memory", C44="builders", C45="panics")
NOTE = "Held on the executions of this run: the cases, interleavings and inputs counted in the evidence file. Nothing is claimed about schedules and inputs that were not run. Trusts the Go toolchain, race detector, testing/synctest and porcupine."
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    x = json.loads(line)
    i = x["id"]
    if i in built:
        t = TECH[KIND.get(i, "model")]
        if i == "C03":
            t = "mutual-exclusion monitors on lock holders, " + t
        checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 check.py " + i,
                           evidence_file="evidence/%s.json" % i, technique="runtime monitoring: " + t, level="exploration", level_note=NOTE))
    else:
        na.append(dict(property=i, reason="the workload and monitor are not built yet"))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
         hooks=dict(guard="none in /repo: statement hooks are planted at build time in copies of /repo's files (go -overlay)",
                    enable="check.py runs harness/cmd/instrument and builds with -race -overlay", source_commits=[]),
         notes="No hook is committed in /repo. known_findings.txt lists findings (known:) and repaired defects (fixed:).")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")

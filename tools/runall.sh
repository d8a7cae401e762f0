#!/bin/bash
# runall.sh [ID...]: run all (or the given) checks one after another; VERIF_REPO and VERIF_SEED as usual
cd "$(dirname "$0")/.." || exit 1
ids="$*"
[ -z "$ids" ] && ids=$(python3 -c 'import json
for l in open("properties.jsonl"): print(json.loads(l)["id"])')
for i in $ids; do
  o=$(python3 check.py "$i" 2>&1); r=$?
  [ $r = 0 ] && echo "$(echo "$o" | tail -1)" || { echo "=== $i exit $r"; echo "$o" | cut -c1-1500; }
done

#!/bin/bash
# tools_catch.sh [ID...]: applies each planted bug to /repo in turn, runs the
# quick check of its property, undoes the change, records it in catch.json.
cd /verif
ids=${@:-$(ls seeded)}
for id in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: no apply"; continue; }
  s=$(date +%s)
  out=$(VERIF_SEED=1 VERIF_TIER=quick python3 -m sim.runner $p --tier quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(($(date +%s)-s))s $(echo "$out" | grep -m1 '^violation' | cut -c1-160)"
  python3 - "$id" "$p" "$rc" <<'P'
import json,os,sys
i,p,rc=sys.argv[1:]
f='catch.json'
d=json.load(open(f)) if os.path.exists(f) else {}
d[i]={'0':'MISSED by '+p,'1':'caught by '+p}.get(rc,'no answer from '+p)
json.dump(d,open(f,'w'),indent=1,sort_keys=True)
P
done

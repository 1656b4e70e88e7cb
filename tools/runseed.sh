#!/bin/bash
# runseed.sh ID...: apply each planted change to /repo, run its property's quick check, undo
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "repo dirty"; exit 2; }
  git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  t0=$SECONDS
  out=$(bash /verif/run.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -- .
  s=$(echo "$out" | grep -A1 -m1 '^VIOLATION' | tail -n 1 | sed 's/^ *scenario //; s/:.*//')
  python3 -c "import json,os,sys
f='/verif/tools/caught.json'; d=json.load(open(f)) if os.path.exists(f) else {}
d[sys.argv[1]]=sys.argv[2]+' scenario '+sys.argv[4] if sys.argv[3]=='1' else 'missed'
json.dump(d,open(f,'w'),indent=1,sort_keys=True)" "$id" "$p" "$rc" "$s"
  echo "$id $p rc=$rc $((SECONDS-t0))s $(echo "$out" | grep -A1 -m1 VIOLATION | tr '\n' ' ' | cut -c1-200)"
done

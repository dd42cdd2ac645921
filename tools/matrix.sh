#!/bin/bash
# matrix.sh [all] [ID ...]: applies each planted bug to /repo, runs its property's quick check (all: every check), undoes it.
cd "$(dirname "$0")/.." || exit 2
all=0; [ "${1:-}" = all ] && { all=1; shift; }
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls seeded))
trap 'git -C /repo checkout -q -- .' EXIT
for id in "${ids[@]}"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  caught=""; space=""
  if [ $all = 1 ]; then props=$(seq -f C%02g 1 27); else props=$p; fi
  for q in $props; do
    out=$(bash check.sh $q quick 2>&1); rc=$?
    if [ $rc = 1 ] && echo "$out" | grep -q "^VIOLATION property=$q "; then caught="$caught $q"; [ $q = $p ] && space=$(sed -n 's/^space //p' "replays/$q-quick.txt"); elif [ $rc != 0 ]; then caught="$caught $q(rc$rc)"; fi
  done
  git -C /repo checkout -q -- .
  if echo "$caught" | grep -qw "$p"; then v=CAUGHT; else v=MISSED; fi
  echo "$v $id $p:$caught ${space:+[$space]}"
done

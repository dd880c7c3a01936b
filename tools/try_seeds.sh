#!/bin/bash
# try_seeds.sh [ID...]: applies each seeded change to /repo, runs its property's quick check, undoes it; prints what each check said.
cd "$(dirname "$0")/.." || exit 2
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
ids=("$@"); [ $# -gt 0 ] || ids=($(ls seeded))
for id in "${ids[@]}"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: DOES NOT APPLY"; continue; }
  s=$SECONDS
  out=$(timeout 900 ./check.sh "$p" quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  n=$(grep -c "^VIOLATION property=$p" <<<"$out")
  if [ $rc = 1 ] && [ "$n" -gt 0 ]; then echo "$id: caught by $p ($n violations, $((SECONDS-s)) s)"; else echo "$id: MISSED by $p (rc $rc, $((SECONDS-s)) s)"; fi
done

#!/bin/bash
# hunt.sh ID... : runs the check of each seeded bug's property against a scratch copy of /repo with the bug applied.
for id in "$@"; do
  d=$(dirname "$(readlink -f "$0")")/../seeded/$id; c=$(mktemp -d /tmp/hunt.XXXX); cp -a /repo/. "$c"
  git -C "$c" apply "$d/patch.diff" || { echo "$id: does not apply"; rm -rf "${c:?}"; continue; }
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  s=$(date +%s); out=$(cd "$(dirname "$(readlink -f "$0")")/.." && VERIF_EVIDENCE_DIR="$c/evidence" VERIF_REPO="$c" VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick python3 run.py "$p" 2>&1); rc=$?
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep VIOLATION | head -1) $(echo "$out" | tail -1 | cut -c1-200)"
  rm -rf "${c:?}"
done

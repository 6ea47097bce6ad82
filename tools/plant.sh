#!/bin/bash
# plant.sh ID : takes the uncommitted change in /tmp/sb (a copy of /repo) as the bug seeded/ID and
# checks that its demonstration passes on /repo and fails on /tmp/sb. -k keeps the change in /tmp/sb.
id=$1; d=$(dirname "$(readlink -f "$0")")/../seeded/$id
[ -f "$d/demo.sh" ] || { echo "no $d/demo.sh"; exit 2; }
git -C /tmp/sb diff > /tmp/plant.diff
[ -s /tmp/plant.diff ] && cp /tmp/plant.diff "$d/patch.diff"
git -C /repo apply --check "$d/patch.diff" || exit 2
t=$(mktemp -d); cp "$d"/* "$t"; rm -f "$t"/*.diff "$t"/meta.json
(cd /repo && timeout 300 bash "$t/demo.sh") > "$t/clean.log" 2>&1; a=$?
(cd /tmp/sb && timeout 300 bash "$t/demo.sh") > "$t/bug.log" 2>&1; b=$?
echo "$id: clean=$a bug=$b"; [ $a -eq 0 ] || tail -5 "$t/clean.log"; [ $b -ne 0 ] || echo "NOT DETECTED BY DEMO"; tail -2 "$t/bug.log"
rm -rf "${t:?}"

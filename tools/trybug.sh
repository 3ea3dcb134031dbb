#!/bin/bash
# trybug.sh ID [PROP...]: applies seeded/ID to /repo, runs the check of its property (or PROP...), undoes the change.
cd "$(dirname "$0")/.."
id=$1; shift
props=${*:-$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")}
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 2; }
git -C /repo apply "$PWD/seeded/$id/patch.diff" || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
for p in $props; do
  s=$(date +%s)
  ./check $p quick > /tmp/trybug.$p.log 2>&1; rc=$?
  echo "$id $p exit $rc $(( $(date +%s) - s )) s: $(grep -m1 -E '^VIOLATION' /tmp/trybug.$p.log)"
done

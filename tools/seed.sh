#!/bin/bash
# Makes and confirms a planted bug in the scratch copy /tmp/sr (never in /repo).
#   seed.sh start             fresh copy of /repo's HEAD in /tmp/sr
#   seed.sh demo ID           runs the demo with the working changes of /tmp/sr
#   seed.sh finish ID         patch.diff from the changes, builds, runs the stable tests, the demo with and without
#   seed.sh recheck ID [notests]  the same from the committed patch.diff
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")/.." && pwd)
sr=/tmp/sr
confirm() {
  id=$1
  cd $sr || exit 1
  go build ./... || { echo "BUILD FAILS"; exit 1; }
  if [ "$2" != notests ]; then
    go test -json -vet=off -count=1 -timeout 10m ./... > /tmp/sr.log.json 2>/dev/null
    python3 /opt/vp/results.py /tmp/sr.out.json gojson:/tmp/sr.log.json
    python3 - <<'PY' || exit 1
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=json.load(open('/tmp/sr.out.json'))
miss=[t for t in b if t not in o['passed']]
print('stable tests failing:',miss)
sys.exit(1 if miss else 0)
PY
  fi
  if timeout 300 bash $here/seeded/$id/demo.sh > /tmp/sr.demo1 2>&1; then echo "DEMO PASSES WITH THE PATCH"; tail -5 /tmp/sr.demo1; exit 1; fi
  grep -E -- "--- FAIL|panic|demo" /tmp/sr.demo1 | head -5
  git checkout -q -- .
  s=$(date +%s)
  if ! timeout 300 bash $here/seeded/$id/demo.sh > /tmp/sr.demo2 2>&1; then echo "DEMO FAILS WITHOUT THE PATCH"; tail -20 /tmp/sr.demo2; exit 1; fi
  echo "$id OK (demo $(( $(date +%s) - s )) s)"
}
case $1 in
start) rm -rf /tmp/sr; cp -a /repo $sr; cd $sr && git checkout -q -- . && git status --short ;;
demo) cd $sr && go build ./... && bash $here/seeded/$2/demo.sh; echo "exit $?" ;;
finish) cd $sr && git diff > $here/seeded/$2/patch.diff && [ -s $here/seeded/$2/patch.diff ] && confirm $2 $3 ;;
recheck) cd $sr && git checkout -q -- . && git apply $here/seeded/$2/patch.diff && confirm $2 $3 ;;
esac

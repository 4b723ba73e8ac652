#!/bin/bash
# tryseed.sh ID...: applies a planted bug to /repo, runs stable tests (if T=1), demo and the property's quick check, undoes it.
for S in "$@"; do
  D=/verif/seeded/$S; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  cd /repo || exit 1
  git diff --quiet || { echo "repo dirty"; exit 1; }
  if [ -z "$NODEMO" ]; then bash $D/demo.sh >/tmp/seed.demo0 2>&1; R0=$?; fi
  git apply $D/patch.diff || { echo "$S: patch fails"; continue; }
  if [ -z "$NODEMO" ]; then bash $D/demo.sh >/tmp/seed.demo1 2>&1; R1=$?; fi
  if [ -n "$T" ]; then bash /opt/vp/build.sh >/tmp/seed.build 2>&1; bash /opt/vp/test.sh /tmp/seed.t.json >/dev/null 2>&1; TR=$(python3 /verif/tools/tests_ok.py /tmp/seed.t.json); fi
  (cd /verif; timeout 900 ./check.sh $P quick >/tmp/seed.check 2>&1); RC=$?
  git checkout -q -- .
  echo "$S: demo clean=$R0 patched=$R1 tests=[$TR] check $P rc=$RC $(grep -c VIOLATION /tmp/seed.check) $(grep -m1 -A1 violations /tmp/seed.check | tail -1 | cut -c1-150)"
done

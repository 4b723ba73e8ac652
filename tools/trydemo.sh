#!/bin/bash
# trydemo.sh ID...: in a scratch copy of /repo (/tmp/rc): demo on the clean tree, patch, build, stable tests, demo.
[ -d /tmp/rc ] || cp -a /repo /tmp/rc
cd /tmp/rc || exit 1
git fetch -q /repo && git checkout -q -f FETCH_HEAD && git clean -qfd
sed 's#/repo#/tmp/rc#g' /opt/vp/build.sh > /tmp/rc.build.sh; sed 's#/repo#/tmp/rc#g' /opt/vp/test.sh > /tmp/rc.test.sh
for S in "$@"; do
  D=/verif/seeded/$S; Q=$(mktemp -d /tmp/dm.XXXX); cp $D/demo.sh $D/*.rs $Q/
  S0=$SECONDS; bash $Q/demo.sh >/tmp/rc.demo0 2>&1; R0=$?; S0=$((SECONDS-S0))
  git apply $D/patch.diff || { echo "$S: patch fails"; continue; }
  bash /tmp/rc.build.sh >/tmp/rc.build 2>&1 || echo "$S: BUILD FAILS"
  bash /tmp/rc.test.sh /tmp/rc.t.json >/dev/null 2>&1; TR=$(python3 /verif/tools/tests_ok.py /tmp/rc.t.json)
  bash $Q/demo.sh >/tmp/rc.demo1 2>&1; R1=$?
  git checkout -q -- . ; git clean -qfd; rm -rf "$Q"
  echo "$S: demo clean=$R0 (${S0}s) patched=$R1 tests=[$TR] $(grep -aE 'panicked|assert' -A1 /tmp/rc.demo1 | head -2 | tr '\n' ' ' | cut -c1-150)"
done

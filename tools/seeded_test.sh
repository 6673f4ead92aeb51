#!/bin/bash
# seeded_test.sh ID...: development aid (no check uses it).  For each planted bug: demo on the clean tree, then build, tests, demo and
# the property's quick check with the patch applied; restores /repo afterwards.
cd "$(dirname "$0")/.." || exit 2
V=$PWD
git -C /repo diff --quiet || { echo "/repo is dirty"; exit 2; }
restore() { git -C /repo checkout -q -- .; }
trap restore EXIT
bash /opt/vp/build.sh >/tmp/st.log 2>&1 || { tail /tmp/st.log; exit 2; }
for id in "$@"; do
  d=$V/seeded/$id
  (cd /repo && bash $d/demo.sh >/tmp/st.demo0 2>&1); c=$?
  [ $c = 0 ] || { echo "$id: demo fails on clean tree ($c)"; tail -3 /tmp/st.demo0; }
done
for id in "$@"; do
  d=$V/seeded/$id
  git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/test.sh /tmp/st.json >/tmp/st.log 2>&1
  t=$(python3 -c "
import json;a=set(json.load(open('/tmp/st.json'))['passed']);b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);print(len(b-a),sorted(b-a)[:3])")
  (cd /repo && timeout 300 bash $d/demo.sh >/tmp/st.demo1 2>&1); c=$?
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  s=$(date +%s)
  if [ -z "$NOCHECK" ]; then VERIF_SEED=1 python3 tools/check.py $p quick >/tmp/st.chk 2>&1; k=$?; else k=skipped; fi
  echo "$id ($p): missing-tests=$t demo=$c check=$k $(( $(date +%s)-s ))s $(grep -a '^VIOLATION' /tmp/st.chk 2>/dev/null| head -1)"
  restore
done
bash /opt/vp/build.sh >/tmp/st.log 2>&1

#!/bin/bash
# seed_check.sh ID...: applies each planted bug to /repo, runs build, tests, demo and the property's quick check, undoes it.
# DEMO=1: only the demo, on both trees; CHECK=1: only the check.
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd /repo || exit 1
  [ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
  git apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
  b=-; t=-; dp=-; du=-; c=-; s=$(date +%s)
  if [ -z "${DEMO:-}${CHECK:-}" ]; then
    b=ok; bash /opt/vp/build.sh >/tmp/seed-build.log 2>&1 || b=FAIL
    t=$( [ $b = ok ] && bash /opt/vp/test.sh /tmp/seed-test.json 2>&1 | tail -1)
  fi
  if [ -z "${CHECK:-}" ]; then timeout 300 bash "$d/demo.sh" >/tmp/seed-demo-$id.log 2>&1; dp=$?; fi
  if [ -z "${DEMO:-}" ]; then
    VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick /verif/run.sh quick "$prop" >/tmp/seed-run-$id.log 2>&1; c=$?
  fi
  e=$(( $(date +%s) - s ))
  git -C /repo checkout -q -- .
  if [ -z "${CHECK:-}" ]; then timeout 300 bash "$d/demo.sh" >/tmp/seed-demo0-$id.log 2>&1; du=$?; fi
  echo "$id prop=$prop build=$b tests=[$t] demo_patched=$dp demo_clean=$du check_exit=$c (${e}s) $(grep -m1 -E '^VIOLATION' /tmp/seed-run-$id.log 2>/dev/null)"
done

#!/bin/bash
# trybugs.sh [id...]: applies each seeded change to /repo, runs its property's quick check, undoes it.
cd /verif
[ $# -gt 0 ] || set -- $(ls seeded)
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  s=$SECONDS
  /opt/venv/bin/python -W ignore run.py "$p" --tier "${TIER:-quick}" > /tmp/trybug.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $((SECONDS-s))s $(grep -c '^VIOLATION' /tmp/trybug.log) violations"
done

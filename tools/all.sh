#!/bin/bash
# run every quick check; print exit status and time
cd "$(dirname "$0")/.."
for p in ${@:-$(seq -f C%02.0f 1 27)}; do
  s=$(date +%s); /opt/venv/bin/python -W ignore run.py $p > /tmp/all_$p.log 2>&1; rc=$?
  echo "$p rc=$rc $(( $(date +%s)-s ))s incomplete=$(grep -c 'complete=False' /tmp/all_$p.log) $(grep -c VIOLATION /tmp/all_$p.log)"
done

#!/bin/bash
# tools/sens.sh [ID...]: development aid. Runs the property's check against a copy of /repo with each planted change
V=$(cd "$(dirname "$0")/.." && pwd); export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick
for d in ${@:-$(ls $V/seeded)}; do
  w=/tmp/sens/$d; mkdir -p /tmp/sens; git clone -q /repo $w && git -C $w apply $V/seeded/$d/patch.diff || { echo "$d DOES NOT APPLY"; continue; }
  p=$(python3 -c "import json,sys; print(json.load(open('$V/seeded/$d/meta.json'))['property'])")
  s=$(date +%s); VM_REPO=$w python3 $V/check.py $p > /tmp/sens/out.$d 2>&1; rc=$?
  echo "$d $p rc=$rc $(( $(date +%s) - s ))s $(grep -m1 VIOLATION /tmp/sens/out.$d | cut -c1-200)"
  find /tmp/sens/$d -delete
done

#!/bin/bash
# seedrun.sh NAME...: run the seeded change's property check against it
for n in "$@"; do
  prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$n/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$n/patch.diff || continue
  s=$(date +%s); out=$(cd /verif && python3 check.py $prop 2>&1); rc=$?
  git -C /repo checkout -- .
  what=$(echo "$out" | grep -m1 -A1 "^VIOLATION" | grep -o 'harness=[^ ]*\|\[VP:[^]]*\]\|\[[^]]*\]' | tr '\n' ' ')
  echo "== $n ($prop) rc=$rc $(( $(date +%s)-s ))s: $what"
  touch /verif/tools/seed_results.txt; sed -i "/^$n /d" /verif/tools/seed_results.txt
  if [ $rc = 1 ]; then echo "$n Caught: ${what//harness=/}" >> /verif/tools/seed_results.txt
  else echo "$n MISSED (rc $rc)" >> /verif/tools/seed_results.txt; echo "$out" | grep -v "^C.*ok " | cut -c1-250 | head -8; fi
  sort -o /verif/tools/seed_results.txt /verif/tools/seed_results.txt
done

#!/bin/bash
# sensall.sh [SEED-ID...]: the property's own check against each planted bug
cd /verif; ids="$@"; [ -n "$ids" ] || ids=$(ls seeded)
for i in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  t0=$(date +%s); o=$(bash tools/sens.sh patch /verif/seeded/$i/patch.diff $p | grep -E "VIOLATION|exit [01]|non-trivial" | head -2 | tr '\n' ' ')
  echo "$i $p: $o ($(( $(date +%s) - t0 )) s)"
done

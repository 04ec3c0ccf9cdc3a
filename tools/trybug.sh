#!/bin/bash
# trybug.sh ID... : applies each planted bug to /repo, runs its property's quick check (or $CHECKS), undoes it
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || continue
  for c in ${CHECKS:-$p}; do s=$(date +%s); ./check.py $c quick > /tmp/try-$id-$c.log 2>&1; echo "$id $c exit $? $(( $(date +%s) - s )) s: $(grep -c ^VIOLATION /tmp/try-$id-$c.log) violations; $(grep -v -e ^VIOLATION -e '^   inputs' /tmp/try-$id-$c.log | head -1 | cut -c1-160)"; done
  git -C /repo checkout -- .
done

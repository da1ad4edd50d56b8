#!/bin/bash
# tryseeds.sh [ID...]: applies each planted bug to /repo, runs its property's check, undoes it
cd /verif/seeded || exit 1
for s in ${@:-*}; do
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s does not apply"; continue; }
  o=$(cd /verif && ./check $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$s $p exit $rc: $(echo "$o" | grep -c 'failed obligation') obligations; $(echo "$o" | grep 'failing input' | head -1 | cut -c1-90); $(echo "$o" | grep VIOLATION | cut -c1-120) $(echo "$o" | grep 'NOT COMPLETE' )"
done

#!/bin/bash
# seeds.sh [ids...]: run each planted bug's own check against it
cd /verif/seeded; for s in ${*:-*}; do
 p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
 [ -f /verif/MANIFEST.json ] && grep -q "\"$p\"" /verif/MANIFEST.json || { echo "$s $p unclaimed"; continue; }
 git -C /repo diff --quiet || { echo dirty; exit 2; }
 git -C /repo apply $PWD/$s/patch.diff || { echo "$s no apply"; continue; }
 t=$(date +%s); out=$(cd /verif; VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 890 ./check.sh $p 2>&1); rc=$?
 git -C /repo checkout -- .
 echo "$s $p rc=$rc $(( $(date +%s) - t ))s $(echo "$out" | grep -m1 VIOLATION)"
done

#!/bin/bash
# catch.sh <id>...: does the quick check of the property catch the planted bug? (scratch copy of /repo, VERIF_REPO)
for id in "$@"; do D=/verif/seeded/$id; W=/tmp/catch-$id; rm -rf /tmp/catch-$id; cp -a /repo $W; (cd $W && git checkout -q -- . && git apply $D/patch.diff) || { echo "$id: no apply"; continue; }
p=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
s=$(date +%s); VERIF_REPO=$W VERIF_SEED=${SEED:-1} python3 /verif/harness/run.py $p quick > /tmp/catch-$id.log 2>&1; rc=$?
echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(grep -v ^VIOL /tmp/catch-$id.log | head -1 | cut -c1-160)"; rm -rf /tmp/catch-$id
done

#!/bin/bash
# seed.sh <id>: confirm the planted bug seeded/<id> in a scratch copy of /repo: demo 0 on clean, build+tests pass with the patch, demo != 0
id=$1; D=/verif/seeded/$id; W=/tmp/seedw-$id
rm -rf /tmp/seedw-$id; cp -a /repo $W; cd $W; git checkout -q -- .
S=/tmp/seedd-$id; rm -rf /tmp/seedd-$id; cp -r $D $S; rm -f $S/patch.diff $S/meta.json
SR=$PWD bash $S/demo.sh > /tmp/seed-$id.clean 2>&1; a=$?
git apply $D/patch.diff || { echo "$id: patch does not apply"; exit 1; }
SR=$PWD bash $S/demo.sh > /tmp/seed-$id.bug 2>&1; b=$?
rm -rf /tmp/seedw-$id /tmp/seedd-$id
echo "$id: demo clean=$a bug=$b $([ $a = 0 ] && [ $b != 0 ] && echo GOOD || echo BAD)"; tail -2 /tmp/seed-$id.bug | cut -c1-200

#!/bin/bash
# newseed.sh <id> <demo.cpp> <property> <needs> <breaks> : takes the diff of /tmp/pw against its HEAD as the patch
id=$1; D=/verif/seeded/$id; mkdir -p $D/h
git -C /tmp/pw diff > $D/patch.diff; cp $2 $D/demo.cpp
cp -r /verif/harness/mirror.py /verif/harness/mirror_rules.py /verif/harness/compat $D/h/
python3 - "$D/meta.json" "$3" "$4" "$5" <<'P'
import sys,json; json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open(sys.argv[1],'w'),indent=1)
P
python3 - "$D/demo.sh" <<'P'
import sys
sys.path.insert(0,'/verif/harness')
s=open('/verif/harness/run.py').read(); i=s.index('ATOM ='); j=s.index('# what UBSan'); ns={}; exec(s[i:j],ns)
open(sys.argv[1],'w').write('''#!/bin/bash
# exit 0: the behaviour is right; cwd = the checkout
D=$(cd "$(dirname "$0")" && pwd); R=${SR:-$PWD}
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
python3 "$D/h/mirror.py" "$R" "$W/m" && cp -r "$D/h/compat/_extern" "$W/m/" || exit 0
clang++-18 %s -g1 -O1 ${DEMO_FLAGS:--DNDEBUG} -I "$D/h/compat/include" -include nntl_compat.h -I "$W/m" "$D/demo.cpp" -o "$W/demo" -lopenblas > "$W/log" 2>&1 || { grep -m4 error "$W/log"; exit 0; }
cd "$W" && timeout 120 "$W/demo"
''' % ' '.join("'%s'" % a for a in ns['BASE']))
P
chmod +x $D/demo.sh

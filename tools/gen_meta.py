#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/meta.py (one entry per property)."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); R = os.path.dirname(H)
sys.path.insert(0, H)
from meta import P, NA
with open(R + '/properties.jsonl', 'w') as f:
    for p in P + NA:
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                         observe_at=p.get('observe', []), hook_needed=None))) + '\n')
        assert len(p['title']) <= 80, p['id']
m = dict(version=1, setup_cmd='clang++-18 --version',
  hooks=dict(guard='NNTL_VERIF', enable='no source hook is needed: the checks mirror /repo/nntl into a scratch build folder (harness/mirror.py) and compile it with harness/compat/ in front of the include path, which stands in for <windows.h> and records or perturbs at that boundary', source_commits=[]),
  checks=[dict(property=p['id'], quick_cmd=f"python3 harness/run.py {p['id']} quick", thorough_cmd=f"python3 harness/run.py {p['id']} thorough",
      evidence_file=f"evidence/{p['id']}.json", technique=p['technique'], level=p.get('level', 'exploration'), level_note=p['note']) for p in P],
  not_applicable=[dict(property=p['id'], reason=p['reason']) for p in NA])
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1)
print(len(P), 'claimed', len(NA), 'n/a')

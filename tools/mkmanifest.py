"""Writes MANIFEST.json from the lemma registry and properties.jsonl."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from engine.check import LEMMAS
from engine.claims import CLAIMS, NOT_APPLICABLE

props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks = []
na = []
for p in props:
    i = p['id']
    if i in CLAIMS:
        t, note = CLAIMS[i]
        checks.append({'property': i, 'quick_cmd': 'python3 -m engine.check ' + i, 'thorough_cmd': 'python3 -m engine.check %s --thorough' % i,
                       'technique': t, 'level': 'other', 'level_note': note, 'evidence_file': 'evidence/%s.json' % i})
    else:
        na.append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'no analysis for this property has been built yet')})
m = {'version': 1, 'setup_cmd': 'python3 -m engine.build tool', 'checks': checks, 'not_applicable': na,
     'notes': 'Static analysis of the LLVM IR of the library; no code of the library is executed. See DESIGN.md.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'claimed', len(na), 'not')

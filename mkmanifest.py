#!/usr/bin/env python3
"""Write MANIFEST.json from the registry (development)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from rules import REGISTRY, NOT_APPLICABLE, NOTES
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl')) if l.strip()]
checks, na = [], []
for p in props:
    i = p['id']
    if i in REGISTRY:
        checks.append({
            'property': i,
            'quick_cmd': 'python3 check.py %s --tier quick' % i,
            'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
            'technique': REGISTRY[i][3] if len(REGISTRY[i]) > 3 else
                'static value-flow equivalence (gated SSA / global value numbering) against a specification',
            'level': 'other',
            'level_note': NOTES.get(i, REGISTRY[i][1]),
        })
    else:
        na.append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'no check built yet')})
m = {'version': 1, 'setup_cmd': 'python3 -c "import sys; sys.dont_write_bytecode = True; import rules, pmlint.world"',
     'checks': checks, 'not_applicable': na}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')

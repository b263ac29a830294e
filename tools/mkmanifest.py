#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl, the registered checks, and the notes below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, 'harness'))
import run
sys.modules['run'] = run
import checks
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from notes import NOTES, NA

props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = {
    'version': 1,
    'setup_cmd': 'clang++ --version >/dev/null && python3 run.py --list >/dev/null',
    'checks': [],
    'not_applicable': [],
}
for p in props:
    if p in checks.CHECKS:
        tech, note = NOTES[p]
        m['checks'].append({
            'property': p,
            'quick_cmd': 'python3 run.py %s' % p,
            'thorough_cmd': 'python3 run.py %s --thorough' % p,
            'technique': tech,
            'level': 'exploration',
            'level_note': note,
        })
    else:
        m['not_applicable'].append({'property': p, 'reason': NA.get(p, 'not built yet')})
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(m['checks']), 'checks;', [x['property'] for x in m['not_applicable']])

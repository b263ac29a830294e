#!/usr/bin/env python3
"""Update the 'fixed' list of known_findings.json: fixed.py PROPERTY COMMIT WHAT"""
import json, os, subprocess, sys
F = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
d = json.load(open(F))
pid, commit = sys.argv[1:3]
what = ' '.join(sys.argv[3:]) or subprocess.check_output(['git', '-C', '/repo', 'log', '-1', '--format=%s', commit], text=True).strip().replace('fix: ', '', 1)
h = subprocess.check_output(['git', '-C', '/repo', 'rev-parse', '--short', commit], text=True).strip()
d['fixed'] = [x for x in d['fixed'] if (' %s ' % h) not in x] + ['fixed: property=%s %s %s' % (pid, h, what)]
json.dump(d, open(F, 'w'), indent=1)
open(F, 'a').write('\n')

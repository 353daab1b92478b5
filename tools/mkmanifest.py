#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
from props import PROPS
m = {'version': 1, 'setup_cmd': 'python3 check.py --build',
     'checks': [{'property': k, 'quick_cmd': 'python3 check.py %s' % k, 'thorough_cmd': 'python3 check.py %s --tier thorough' % k,
                 'evidence_file': 'evidence/%s.json' % k, 'technique': P['technique'], 'level': P['level'],
                 'level_note': (P['note'] + '. ' if P['note'] else '') + 'Not proved: %s. Assumes: %s.' % ('; '.join(P['not_proved']) or 'nothing of the property within the stated ranges', '; '.join(P['assumptions']))}
                for k, P in sorted(PROPS.items())],
     'not_applicable': [],
     'notes': 'No hooks are needed in /repo. Exit 2 means neither proof nor search could run.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)

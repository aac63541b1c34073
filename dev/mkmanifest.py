#!/usr/bin/env python3
"""Regenerates MANIFEST.json from kws/props.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from kws.props import PROPS, NA, TECH
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in PROPS:
        c = PROPS[i]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
                       'technique': c.get('technique', TECH), 'level': 'other', 'level_note': c['note'] if 'note' in c else
                       'Static: ' + c['explanation'] + '. Trusts the library models, the clang front end and exact arithmetic; an obligation '
                       'the analysis cannot decide is printed as UNDECIDED and counted in the evidence, never reported as a violation.'})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
m = {'version': 1, 'setup_cmd': 'python3 setup.py_build' if False else 'python3 -c "from kws import prog; prog.exporter()"',
     'hooks': {'guard': 'KWS_VERIF_HOOKS', 'enable': 'no hooks are used; the checks read the sources as they are', 'source_commits': []},
     'checks': checks, 'not_applicable': na,
     'notes': 'Every check exports the typed syntax tree of /repo with kwsx, summarises the functions it needs and decides them without running them.'}
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one source."""
import json, os, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from plan import PLAN, LEVELS

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note, state=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism], observe_at=observe))
    if state:
        d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append((d, technique, note))


exec(open(os.path.join(VERIF, 'tools', 'props_data.py')).read())

with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
    for d, _, _ in P:
        f.write(json.dumps(d, ensure_ascii=False) + '\n')
checks, na = [], []
for d, tech, note in P:
    if d['id'] in NOT_APPLICABLE:
        na.append(dict(property=d['id'], reason=NOT_APPLICABLE[d['id']]))
    elif d['id'] in PLAN:
        checks.append(dict(property=d['id'], quick_cmd='python3 check.py %s quick' % d['id'],
                           thorough_cmd='python3 check.py %s thorough' % d['id'],
                           technique=tech, level=LEVELS.get(d['id'], 'model_checking'), level_note=note))
    else:
        na.append(dict(property=d['id'], reason='check under construction'))
m = dict(version=1, setup_cmd='python3 setup.py', checks=checks, not_applicable=na,
         notes='Specifications in spec/ (TLA+, TLC); conformance driver in harness/; orchestration in check.py and plan.py.')
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
import importlib.util
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for d, _, _ in P:
        jsonschema.validate(d, s)
    print('valid')
except ImportError:
    print('jsonschema missing; run with python3-vt')
print(len(P), 'properties,', len(checks), 'checks')

#!/usr/bin/env python3
"""Fills the tables of DESIGN.md from properties.jsonl, plan.py and seeded/."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from plan import PLAN
src = open(os.path.join(V, 'tools', 'DESIGN.in')).read()
rows = ['| ID | Property | Decided by (quick) | Thorough |', '|---|---|---|---|']


def st(s):
    if s['kind'] == 'trace':
        return 'trace ' + s['module']
    c = s['cfg'][:-4]
    return ('sim ' if s.get('sim') else 'all ') + c


for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)
    pl = PLAN.get(p['id'])
    q = ', '.join(st(s) for s in pl['quick']) if pl else '-'
    t = ', '.join(dict.fromkeys(st(s) for s in pl['thorough'])) if pl else '-'
    rows.append('| %s | %s | %s | %s |' % (p['id'], p['title'], q, t))
src = src.replace('@TABLE@', '\n'.join(rows) + '\n\n("all": every state within the constants; "sim": seeded random behaviours; "trace": recorded runs judged by TLC)')
rows = ['| Bug | Property (check that catches it) | What it breaks | Needs |', '|---|---|---|---|']
notes = {}
n = os.path.join(V, 'tools', 'missed.json')
if os.path.exists(n):
    notes = json.load(open(n))
for m in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    d = json.load(open(m))
    i = os.path.basename(os.path.dirname(m))
    rows.append('| %s | %s%s | %s | %s |' % (i, d['property'], notes.get(i, ''), d['what_it_breaks'], d['needs']))
src = src.replace('@SEEDED@', '\n'.join(rows))
open(os.path.join(V, 'DESIGN.md'), 'w').write(src)

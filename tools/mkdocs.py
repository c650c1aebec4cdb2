#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (the single list of properties)."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, 'tools'))
from props import PROPS
with open(os.path.join(R, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        d = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'],
                 anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']], hook_needed=None))
        f.write(json.dumps(d) + '\n')
checks, na = [], []
for p in PROPS:
    if p.get('na'): na.append(dict(property=p['id'], reason=p['na']))
    else: checks.append(dict(property=p['id'], quick_cmd='python3 check.py ' + p['id'], thorough_cmd='python3 check.py ' + p['id'], technique=p['technique'], level='other', level_note=p['note']))
m = dict(version=1, setup_cmd='python3 -c "import sys; sys.path.insert(0, \'.\'); import sa.cas, sa.gsa, sa.build"', checks=checks, not_applicable=na,
         notes='All checks are static: they compile /repo\'s current sources to LLVM IR with clang and analyse that IR; nothing of /repo is executed. Properties are listed once, in tools/props.py; tools/mkdocs.py writes properties.jsonl and this file.')
with open(os.path.join(R, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1); f.write('\n')
B, E = '<!-- properties: written by tools/mkdocs.py -->', '<!-- end of properties -->'
D = os.path.join(R, 'DESIGN.md'); t = open(D).read()
if B in t:
    o = []
    for p in PROPS:
        o.append('### %s %s\n' % (p['id'], p['title']))
        if p.get('na'): o.append('Not decided: %s\n' % p['na']); continue
        o.append('*Over* %s. *Anchored in* %s.\n\n*Decided by* %s.\n\n*Why tests cannot*: %s\n\n*Trusts / limits*: %s\n' % (p['quant'].rstrip('.'), ', '.join(dict.fromkeys('`%s`' % w for n, w in p['mech'])), p['technique'].rstrip('.'), p['why'], p['note'].replace('Trusts clang\'s IR, the IR reader and the normal-form rewriting (real-number algebra: floating-point rounding is abstracted away); standard library and GSL calls are uninterpreted or by their documented meaning. ', 'the common assumptions. ').strip()))
    t = t[:t.index(B)] + B + '\n\n' + '\n'.join(o) + '\n' + t[t.index(E):]
    open(D, 'w').write(t)

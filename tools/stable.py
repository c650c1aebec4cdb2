#!/usr/bin/env python3
"""tools/stable.py OUT.json: which of the stable tests did not pass"""
import json, sys
b = json.load(open('/opt/vp/BASELINE.json')); o = json.load(open(sys.argv[1]))
def names(x):
    if isinstance(x, dict):
        for k in ('stable', 'passed', 'pass', 'tests'):
            if k in x: return names(x[k])
        return {k for k, v in x.items() if v in (True, 'pass', 'passed', 'ok')}
    return {t if isinstance(t, str) else t.get('name') for t in x}
print(sorted(names(b) - names(o)))

#!/usr/bin/env python3
"""tools/mut.py FILE... : edit campaigns against scratch copies of the sources.
FILE holds `edits = [(name, [check ids], expect, [(path, old, new), ...]), ...]`, expect = 1 (violation) or 0 (quiet)."""
import os, sys, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DIRS = ['core', 'solvers', 'function_objects', 'function_objects_1d', 'cdream', 'profile_fitting', 'loguru']
def one(job):
    name, ids, expect, eds = job
    tmp = tempfile.mkdtemp(prefix='mut_')
    try:
        for d in DIRS: 
            if os.path.isdir('/repo/' + d): shutil.copytree('/repo/' + d, tmp + '/' + d, ignore=shutil.ignore_patterns('*.o', '*.a'))
        for f in os.listdir('/repo'):
            if f.endswith(('.h', '.cpp')): shutil.copy('/repo/' + f, tmp)
        for p, a, b in eds:
            t = open(tmp + '/' + p).read()
            if t.count(a) < 1: return name, 'EDIT-FAILS %s: %r' % (p, a[:60])
            open(tmp + '/' + p, 'w').write(t.replace(a, b, 1))
        res = []
        for i in ids:
            r = subprocess.run([sys.executable, V + '/check.py', i], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=tmp, VERIF_EVIDENCE=tmp), cwd=V)
            first = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION') or 'rror' in l][:1]
            det = [l for l in r.stdout.split('\n') if 'analysis' in l.lower() or l.startswith(' ')][:2]
            res.append((i, r.returncode, (first + det + [r.stderr[-200:] if r.returncode not in (0, 1) else ''])))
        rc = max(x[1] for x in res) if expect == 0 or any(x[1] > 1 for x in res) else max(x[1] for x in res)
        ok = rc == expect
        return name, ('ok  ' if ok else 'BAD ') + ' '.join('%s=%d' % x[:2] for x in res) + ('' if ok and expect == 0 else ' ' + ' | '.join(str(y)[:110] for x in res for y in x[2] if y))
    finally: shutil.rmtree(tmp, ignore_errors=True)
jobs = []
for f in sys.argv[1:]:
    if not f.startswith('-'): 
        ns = {}; exec(open(f).read(), ns); jobs += ns['edits']
only = [a[2:] for a in sys.argv[1:] if a.startswith('-k')]
if only: jobs = [j for j in jobs if any(o in j[0] for o in only)]
with ThreadPoolExecutor(int(os.environ.get('JOBS', '4'))) as ex:
    bad = 0
    for name, r in ex.map(one, jobs):
        print('%-28s %s' % (name, r)); bad += not r.startswith('ok')
print('%d edits, %d not as expected' % (len(jobs), bad))

"""Common driver of the checks: counting, floors, known findings, evidence, exit status."""
import json, os, sys, time, re, traceback
from .build import AnalysisError, REPO
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class Check:
    def __init__(s, pid, rule, level='other'):
        s.pid, s.rule, s.level = pid, rule, level
        s.t0 = time.time()
        s.viol = []; s.counts = {}; s.samples = []; s.notes = []; s.assume = []; s.units = set()
        s.known = s.load_known()
        s.used_known = set()
        s.obl = 0; s.ok = 0
    def load_known(s):
        out = {}
        p = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
        if os.path.exists(p):
            for ln in open(p):
                m = re.match(r'open: property=(\S+) key=(\S+) (.*)', ln.strip())
                if m and m.group(1) == s.pid: out[m.group(2)] = m.group(3)
        return out
    def count(s, what, n=1): s.counts[what] = s.counts.get(what, 0) + n
    def unit(s, u): s.units.add(u)
    def obligation(s, ok, key, where, msg, sample=None):
        """one decided instance; key identifies the construct (no line numbers)"""
        s.obl += 1
        if ok:
            s.ok += 1
            if sample and len(s.samples) < 12: s.samples.append(sample)
            return True
        s.violation(key, where, msg)
        return False
    def violation(s, key, where, msg):
        key = re.sub(r'\s+', '_', key)
        if any(v[0] == key for v in s.viol): return
        if key in s.known:
            if key not in s.used_known:
                s.used_known.add(key)
                print('KNOWN-FINDING: property=%s %s [%s]' % (s.pid, s.known[key], key))
            return
        s.viol.append((key, where, msg))
    def floor(s, what, n):
        """fewer instances than confirmed by hand: the analysis has lost its anchor"""
        if s.counts.get(what, 0) < n and not s.viol:
            raise AnalysisError('%s: only %d %s found (at least %d expected): the rule has lost its instances' % (s.pid, s.counts.get(what, 0), what, n))
    def finish(s):
        tier = os.environ.get('VERIF_TIER', 'quick')
        ev = {
            'property': s.pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
            'level': s.level,
            'coverage': {
                'explanation': s.rule, 'obligations': s.obl, 'discharged': s.ok, 'counts': s.counts,
                'units_analysed': len(s.units), 'samples': s.samples or ['(none)'],
                'known_findings': sorted(s.used_known), 'violations': [dict(construct=k, where=w, message=m) for k, w, m in s.viol][:50],
            },
            'assumptions': s.assume, 'violations': len(s.viol), 'wall_s': round(time.time() - s.t0, 2)}
        d = os.environ.get('VERIF_EVIDENCE') or os.path.join(ROOT, 'evidence'); os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, s.pid + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
        print('%s: %d obligations, %d discharged; %s; %d source units; %.1fs' % (s.pid, s.obl, s.ok, ', '.join('%s=%d' % kv for kv in sorted(s.counts.items())), len(s.units), time.time() - s.t0))
        for n in s.notes: print('  note:', n)
        if s.viol:
            rp = os.path.join('evidence', s.pid + '.report.txt')
            with open(os.path.join(d, s.pid + '.report.txt'), 'w') as f:
                for k, w, m in s.viol: f.write('%s\n  at %s\n  %s\n' % (k, w, m))
            for k, w, m in s.viol[:30]: print('  %s: [%s] %s' % (w, k, m))
            print('VIOLATION property=%s replay=%s' % (s.pid, rp))
            return 1
        return 0

def loc(fn, inst=None):
    f, l = fn.line(inst) if inst is not None else fn.loc()
    f = f.replace(REPO + '/', '')
    return '%s:%s' % (f, l)

def main(table):
    sys.setrecursionlimit(50000)
    pid = sys.argv[1]
    try:
        rc = table[pid]()
    except AnalysisError as e:
        print('ANALYSIS-ERROR %s: %s' % (pid, e)); return 3
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-ERROR %s' % pid); return 3
    return rc

"""R01-R03: what is reported about a finished fit: statistics, uncertainties, fluxes."""
import re
from fractions import Fraction
from . import build, ir, gsa, cas, trace, strs, outs
from .build import AnalysisError, dm
from .cas import *
from .report import Check, loc
from .trace import *
from .checks_pipe import Rule, unver, same, under, OPAQUE_VOID, MO, atoms_of, paths_of, LD, bootstrap_rule, the_atom
from .checks_setup import prog, no, conj, lt0, ENDS, literal_of

def ptr(n): return leaf(Ptr(n, ZERO))
def vsub(a, b): return vadd(a, vmul(N(-1), b))
RES = ('core/print_results.cpp', 'core/statistics.cpp', 'solvers/solver_results.cpp', 'core/model_object.cpp', 'solvers/mpfit.cpp')
CHI, CASH, MLR = 1, 2, 3
class Case:
    """one function's printed text, case by case"""
    def __init__(s, c, t, where, dest=None):
        s.c, s.t, s.where, s.dest = c, t, where, dest; s.r = Rule(c, t, where); s.outs = outs.outputs(t)
    def words(s, sub, conds=(), allow=None):
        l = outs.said(s.outs, sub, conds, s.dest); ws = []
        for ps, o, pc in l:
            if pc is not TRUE and not (allow and allow(pc)):
                if o.e.loops: continue
                s.r.ob(False, 'condition', o.e, 'whether this is printed depends on %s' % brief(pc, 200)); continue
            ws.append(ps)
        s.where_of = l
        return outs.words(ws)
    def fact(s, ws, key, label, kinds, term, sub, conds=(), times=1):
        s.c.count('printed facts')
        idx = outs.find(ws, *label); at = s.event(label)
        if times == 0: return s.r.ob(not idx, key, at, '"%s" is printed' % ' '.join(label), sample='%s: no "%s"' % (key, ' '.join(label)))
        if not s.r.ob(len(idx) == 1, key, at, '"%s" is printed %d times' % (' '.join(label), len(idx))): return
        w = ws[idx[0]] if idx[0] < len(ws) else ''
        if kinds is None: return s.r.ob(w == term, key, at, '"%s" is followed by %s, not %s' % (' '.join(label), show_(w), term), sample='%s %s' % (' '.join(label), term))
        if isinstance(w, tuple) and not (len(w) == 3 and w[0] == 'v'):
            vs = [x for x in w if isinstance(x, tuple)]; w = vs[0] if len(vs) == 1 else w
        ok = isinstance(w, tuple) and len(w) == 3 and w[0] == 'v' and w[1] in kinds
        if not s.r.ob(ok, key, at, '"%s" is not followed by a value: %s' % (' '.join(label), show_(w))): return
        v = under(unver(subst(leaf(w[2]), sub)), *conds); wv = under(subst(term, sub), *conds)
        s.r.ob(same(v, wv), key, at, '%s shows %s where %s belongs' % (' '.join(label), brief(v, 160), brief(wv, 160)), sample='%s %s' % (' '.join(label), brief(wv, 90)))
    def event(s, label):
        for ps, o, pc in s.where_of:
            if any(isinstance(x, str) and label[0] in x for x in ps): return o.e
        return s.where_of[0][1].e if s.where_of else None
def show_(w): return w if isinstance(w, str) else '<%s>' % brief(leaf(w[2]), 100) if len(w) == 3 and w[0] == 'v' else str(w)[:80]

class Sink:
    """records calls with their arguments"""
    def __init__(s): s.rec = []
    def h(s, name, ret=BOT, outs=None, kinds=''):
        def f(fr, i, args, mem):
            a = [strs.get(fr, mem, x) if k < len(kinds) and kinds[k] == 's' else x for k, x in enumerate(args)]
            ev = [e for e in reversed(fr.m.events) if e.kind == 'call' and e.inst is i][0]
            s.rec.append((name, a, ev, mem)); mem = mem.copy()
            for k, d in (outs or {}).items():
                q = args[k].v; b = int(numval(q.off))
                for o, v in d.items(): mem.d[(q.obj, b + o)] = v
            return ret, mem
        return f
    def of(s, n): return [r for r in s.rec if r[0] == n]
    def live(s, t):
        """only what belongs to the final events, with their final arguments"""
        ids = {id(e) for e in t.events}; seen = set(); out = []
        for n, a, e, m in s.rec:
            if id(e) in ids and id(e) not in seen: seen.add(id(e)); out.append((n, list(e.args) if len(e.args) == len(a) else a, e, m))
        s.rec = out
        return s
def model_hooks(s, **kw):
    H = {}
    def add(k, h): H['virt:' + k] = H[MO + '::' + k] = h
    add('GetNValidPixels', lambda fr, i, a, m: (S('nValid'), m)); add('GetNParams', lambda fr, i, a, m: (S('n:params'), m)); add('GetNImages', lambda fr, i, a, m: (S('nImages'), m))
    def which(fr, i, a, m):
        return ite(vcmp('==', S('whichStat'), N(CHI)), ite(bnot(vcmp('==', a[1], N(0))), S('chi2kind'), S('whichStat')), S('whichStat')), m
    add('WhichFitStatistic', which)
    def stat(fr, i, a, m):
        s.rec.append(('GetFitStatistic', list(a), [e for e in reversed(fr.m.events) if e.kind == 'call' and e.inst is i][0], m))
        return S('stat(params)') if a[1] is ptr('PARAMS') else S('stat of other parameters'), m
    add('GetFitStatistic', stat)
    for k, h in kw.items(): add(k, h)
    return H
def aic(v): return vadd(v, vadd(vmul(N(2), S('nFree')), vdiv(vmul(vmul(N(2), S('nFree')), vadd(S('nFree'), N(1))), vsub(vsub(S('nValid'), S('nFree')), N(1)))))
def bic(v): return vadd(v, vmul(S('nFree'), vfn('log', S('nValid'))))
DOF = vsub(S('nValid'), S('nFree'))

def print_results(c):
    p = prog(*RES); sk = Sink(); H = model_hooks(sk)
    for k in ('PrintParameters',): H[k] = sk.h(k)
    sr, _ = p.fields('SolverResults'); mp, _ = p.fields('mp_result_struct')
    nm = {o: 'sr.' + n for n, o in sr.items()}
    for n, o in mp.items(): nm[sr['mpResult'] + o] = 'mp.' + n
    mem = Mem()
    sr_msg = lambda fr, i, a, m: (BOT, put_(fr, m, a[1], S('message')))
    H['InterpretMpfitResult'] = sr_msg
    t = Trace(p, p.func('PrintResults'), None, args=[ptr('PARAMS'), ptr('MODEL'), S('nFree'), S('fitStatus'), ptr('SR'), bnot(vcmp('==', S('recompute'), N(0)))], hooks=H, virt=p.virt([(lambda o: o == 'MODEL', MO, True)]), names={'SR': nm}, strings=True)
    cs = Case(c, t, 'PrintResults')
    F = lambda n: S('sr.' + n)
    inside = bnot(vcmp('==', vadd(leaf(patom(atom('load', 'SR', ZERO, 'addr'))), N(sr['mpResult'])), N(0)))     # an address inside the results is not null
    good = [inside, bnot(vcmp('==', leaf(patom(atom('load', 'PARAMS', ZERO, 'addr'))), N(0))), bnot(lt0(vsub(S('fitStatus'), N(1))))]
    for stat, name, red in ((CHI, 'CHI-SQUARE', 'Reduced Chi^2 ='), (CASH, 'CASH STATISTIC', None), (MLR, 'POISSON-MLR STATISTIC', 'Reduced Chi^2 equivalent =')):
        for solver in (1, 2, 3, 5):
            for rec in (0, 1):
                sub = {'whichStat': N(stat), 'sr.whichSolver': N(solver), 'recompute': N(rec)}
                ws = cs.words(sub, good)
                lm = solver == 1; key = '%s, solver %d%s' % (name, solver, ', recomputed' if rec else '')
                v = S('mp.bestnorm') if lm else S('stat(params)') if rec else F('bestFitValue')
                label = name.split()
                idx = outs.find(ws, *label, '=')
                if lm and stat != CHI: idx = [i for i in idx if ws[max(0, i - len(label) - 2)] != 'INITIAL']
                report(cs, ws, key, label, v, sub, good, red, dof=lm)
                for st2, n2 in ((CHI, 'CHI-SQUARE'), (CASH, 'CASH'), (MLR, 'POISSON-MLR')):
                    if st2 != stat: cs.fact(ws, key + ': other statistics', [n2], None, None, sub, times=0)
                if lm:
                    cs.fact(ws, key + ': initial value', {CHI: ['INITIAL', 'CHI^2', '='], CASH: ['INITIAL', 'CASH', 'STATISTIC', '='], MLR: ['INITIAL', 'POISSON-MLR', 'STATISTIC', '=']}[stat], 'fgeE', S('mp.orignorm'), sub, good)
                    for w, f in (('NPAR', 'npar'), ('NFREE', 'nfree'), ('NPEGGED', 'npegged'), ('NITER', 'niter'), ('NFEV', 'nfev')): cs.fact(ws, key + ': ' + w, [w, '='], 'di', S('mp.' + f), sub, good)
                else: cs.fact(ws, key + ': NFEV', ['NFEV', '='], 'di', F('nFuncEvals'), sub, good)
    # a failed fit: nothing is reported
    for solver in (2, 3, 5):
        ws = cs.words({'sr.whichSolver': N(solver)}, [lt0(vsub(S('fitStatus'), N(1)))])
        cs.r.ob(not any('=' == w or w == 'AIC' for w in ws), 'failed fit, solver %d' % solver, cs.event(['=']), 'a result is reported after a failed fit', sample='failed fit: no result')
    pp = sk.of('PrintParameters'); r = cs.r
    acc = {True: FALSE, False: FALSE}
    lmc = vcmp('==', F('whichSolver'), N(1))
    for rec in pp:
        a = rec[1]; w = drop_loop_conds(unver(rec[2].pc), rec[2])
        r.ob(any('stdout' in repr(l.obj) for l in leaves(a[0]) if isinstance(l, Ptr)) and a[1] is ptr('MODEL') and a[2] is ptr('PARAMS'), 'parameters', rec[2], 'the parameters printed are not the best-fit parameters of the model', sample='best-fit parameters on the console'); c.count('printed facts')
        for lm in (True, False):
            x = under(w, *(good + [lmc if lm else bnot(lmc)]))
            if x is FALSE: continue
            acc[lm] = bor(acc[lm], x); e = under(unver(a[3]), x, lmc if lm else bnot(lmc))
            if lm: r.ob(errors_from(r, e, rec), 'errors', rec[2], 'the uncertainties printed are not those of the fit: %s' % brief(e, 100), sample='uncertainties of the fit')
            else: r.ob(all(isinstance(l, Ptr) and l.obj == 'null' for l in leaves(e)), 'no errors', rec[2], 'uncertainties are printed that the solver did not compute', sample='no uncertainties'); c.count('printed facts')
    for lm in (True, False): r.ob(acc[lm] is TRUE, 'parameters:always', None, 'the best-fit parameters are not always printed (%s)' % brief(acc[lm], 160), sample='parameters always printed')
def report(cs, ws, key, label, v, sub, good, red, dof=False):
    idx = outs.find(ws, *label, '=')
    sub_ws = ws
    if len(idx) > 1:         # the initial value carries the same words
        cut = [i for i in outs.find(ws, 'INITIAL')]
        sub_ws = [w for j, w in enumerate(ws) if not any(i <= j < i + len(label) + 2 for i in cut)]
    cs.fact(sub_ws, key, label + ['='], 'fgeE', v, sub, good)
    if dof:
        w = outs.find(sub_ws, *label, '='); nxt = sub_ws[w[0] + 1] if w and w[0] + 1 < len(sub_ws) else None
        cs.r.ob(isinstance(nxt, tuple) and len(nxt) == 3 and nxt[1] in 'di' and same(leaf(nxt[2]), DOF) and sub_ws[w[0] + 2:w[0] + 3] == ['DOF'], key + ': degrees of freedom', cs.event(label), 'the number of degrees of freedom shown is %s' % (show_(nxt) if nxt else 'missing'), sample='DOF = valid pixels - free parameters'); cs.c.count('printed facts')
    if red: cs.fact(ws, key + ': reduced', red.split(), 'fgeE', vdiv(v, DOF), sub, good)
    else: cs.fact(ws, key + ': reduced', ['Reduced'], None, None, sub, times=0)
    cs.fact(ws, key + ': AIC', ['AIC', '='], 'fgeE', aic(v), sub, good)
    cs.fact(ws, key + ': BIC', ['BIC', '='], 'fgeE', bic(v), sub, good)
def put_(fr, mem, dst, val):
    mem = mem.copy(); strs.put(fr, mem, dst, val); return mem
def errors_from(r, e, rec):
    """e is an array of n:params values filled element by element from the results' errors"""
    npos = bnot(vcmp('==', S('n:params'), N(0)))
    e = restrict(e, npos.var, npos.hi is TRUE) if isinstance(e, Node) else e
    ls = leaves(e)
    if len(ls) != 1 or not isinstance(ls[0], Ptr): return False
    o = ls[0].obj; end = r.t.events.index(rec[2]); seen = False
    if o == 'null': return False
    for i, ev, q in r.t.stores(lambda x: x == o):
        if i > end or not ev.loops: continue
        k = ev.loops[-1][0]; n = trip(ev.loops[-1][1])
        if q.off is scale(psym(k), Fraction(8)) and n is psym('sr.nParameters') and same(unver(ev.val), leaf(patom(atom('load', '?', scale(psym(k), Fraction(8)))))) : seen = True
        v = unver(ev.val)
        if q.off is scale(psym(k), Fraction(8)) and n is psym('sr.nParameters') and isinstance(v, Leaf) and any(a.kind == 'load' and 'SR' in repr(a.args[0]) and isinstance(a.args[1], Poly) and a.args[1] is scale(psym(k), Fraction(8)) for a in atoms_of_poly(v.v)): seen = True
    return seen
def atoms_of_poly(p): return [a for m, _ in p.terms for a, _ in m] if isinstance(p, Poly) else []

def fit_statistic(c):
    p = prog(*RES); sk = Sink(); H = model_hooks(sk)
    t = Trace(p, p.func('PrintFitStatistic'), None, args=[ptr('PARAMS'), ptr('MODEL'), S('nFree')], hooks=H, virt=p.virt([(lambda o: o == 'MODEL', MO, True)]), strings=True)
    cs = Case(c, t, 'PrintFitStatistic'); v = S('stat(params)')
    for stat, name, red in ((CHI, 'CHI-SQUARE', 'Reduced Chi^2 ='), (CASH, 'CASH STATISTIC', None), (MLR, 'POISSON-MLR STATISTIC', 'Reduced Chi^2 equivalent =')):
        sub = {'whichStat': N(stat)}; ws = cs.words(sub)
        report(cs, ws, name, name.split(), v, sub, [], red, dof=stat == CHI)
        for st2, n2 in ((CHI, 'CHI-SQUARE'), (CASH, 'CASH'), (MLR, 'POISSON-MLR')):
            if st2 != stat: cs.fact(ws, name + ': other statistics', [n2], None, None, sub, times=0)

def vecs(name, n, size): return {(name, 0): leaf(Ptr(name + '[]', ZERO)), (name, 8): leaf(Ptr(name + '[]', scale(psym(n), Fraction(size)))), (name, 16): leaf(Ptr(name + '[]', scale(psym(n), Fraction(size))))}
def printed_loop(r, cs, obj, n, key, dest, before=None, prefix=()):
    """every element of a vector of strings is printed once, in order, to dest"""
    hits = []
    for o in cs.outs:
        if not o.e.loops: continue
        k = o.e.loops[-1][0]
        l = outs.said([o], None, (), dest)
        for ps, _, pc in l:
            vs = [x for x in ps if isinstance(x, tuple)]
            if any(len(x) == 3 and same(leaf(x[2]) if isinstance(x[2], Poly) else x[2], LD(obj, scale(psym(k), Fraction(32)))) for x in vs): hits.append((o, pc, k))
    if not r.ob(len(hits) == 1, key, hits[1][0].e if len(hits) > 1 else None, '%s are printed %d times' % (key, len(hits)), sample='%s: each printed once' % key): return None
    o, pc, k = hits[0]
    r.ob(trip(o.e.loops[-1][1]) is psym(n) and len(o.e.loops) == 1, key + ':all', o.e, 'not all %s are printed' % key, sample='%s: all of them' % key)
    r.ob(pc is TRUE, key + ':always', o.e, '%s are printed only when %s' % (key, brief(pc, 160)))
    r.c.count('printed facts')
    return o

def print_parameters(c):
    p = prog(*RES); sk = Sink()
    H = model_hooks(sk, PrintModelParamsToStrings=sk.h('PrintModelParamsToStrings', N(0), {1: {0: leaf(Ptr('LINES', ZERO)), 8: leaf(Ptr('LINES', scale(psym('n:lines'), Fraction(32)))), 16: leaf(Ptr('LINES', scale(psym('n:lines'), Fraction(32))))}}))
    t = Trace(p, p.func('PrintParameters'), None, args=[ptr('FILE'), ptr('MODEL'), ptr('PARAMS'), ptr('ERRS'), ptr('PREFIX')], hooks=H, virt=p.virt([(lambda o: o == 'MODEL', MO, True)]), strings=True)
    cs = Case(c, t, 'PrintParameters', 'FILE'); r = cs.r
    l = sk.of('PrintModelParamsToStrings')
    if r.ob(len(l) == 1, 'model parameters', None, 'the description of the parameters is made %d times' % len(l)):
        a = l[0][1]; r.ob([x for x in a[:1] + a[2:5]] == [ptr('MODEL'), ptr('PARAMS'), ptr('ERRS'), ptr('PREFIX')], 'model parameters:arguments', l[0][2], 'not the parameters, uncertainties and prefix given are printed', sample='parameters, uncertainties and prefix as given'); c.count('printed facts')
    printed_loop(r, cs, 'LINES', 'n:lines', 'parameter lines', 'FILE')

def save_parameters(c):
    p = prog(*RES); sk = Sink(); H = model_hooks(sk)
    for k in ('PrintParameters',): H[k] = sk.h(k)
    H['GetSolverSummary'] = sk.h('GetSolverSummary', BOT); sumr = H['GetSolverSummary']
    def summary(fr, i, a, m):
        _, m = sumr(fr, i, a, m)
        return BOT, put_(fr, m, a[2], S('algorithm'))
    H['GetSolverSummary'] = summary; H['fopen'] = lambda fr, i, a, m: (sk.rec.append(('fopen', list(a), [e for e in reversed(fr.m.events) if e.kind == 'call' and e.inst is i][0], m)), (leaf(Ptr('FILE', ZERO)), m))[1]
    sr, _ = p.fields('SolverResults'); nm = {o: 'sr.' + n for n, o in sr.items()}
    mem = Mem()
    for k, v in vecs('HEADER', 'n:header', 32).items(): mem.d[k] = v
    mem.d[('NAME', 0)] = S('file name')
    t = Trace(p, p.func('SaveParameters'), None, args=[ptr('PARAMS'), ptr('MODEL'), ptr('NAME'), ptr('HEADER'), S('nFree'), S('solver'), S('fitStatus'), ptr('SR')], hooks=H, virt=p.virt([(lambda o: o == 'MODEL', MO, True)]), names={'SR': nm}, mem=mem, strings=True)
    cs = Case(c, t, 'SaveParameters', 'FILE'); r = cs.r
    opened = bnot(vcmp('==', leaf(patom(atom('load', 'FILE', ZERO, 'addr'))), N(0)))
    l = sk.of('fopen'); fr = outs.Fr(); fr.m = t.m
    if r.ob(len(l) == 1, 'fopen', None, 'the output file is opened %d times' % len(l)):
        a = l[0][1]; r.ob(strs.chars(fr, a[0]) is S('file name') and strs.literal(strs.chars(fr, a[1]).v) in ('w', 'wt'), 'fopen:name', l[0][2], 'the file written is not the one asked for', sample='file name'); c.count('printed facts')
    failed = [under(unver(o.pc), bnot(opened)) for o in cs.outs if outs.dest_is(o.dest, 'FILE', None, ())]
    stops = FALSE
    for e in t.events:
        if e.kind == 'call' and e.name and dm(e.name).split('(')[0] in ENDS: stops = bor(stops, unver(e.pc))
    r.ob(under(stops, bnot(opened)) is TRUE or all(x is FALSE for x in failed), 'file not opened', l[0][2] if l else None, 'writes to a file that could not be opened', sample='file not opened: nothing written')
    v = S('stat(params)')
    for stat, kind, name in ((CHI, 12, 'chi-squared user-supplied errors'), (CHI, 11, 'chi-squared model-based errors'), (CHI, 10, 'chi-squared data-based errors'), (CASH, 0, 'Cash statistic'), (MLR, 0, 'Poisson-MLR statistic')):
        sub = {'whichStat': N(stat), 'chi2kind': N(kind)}; ws = cs.words(sub, [opened])
        idx = outs.find(ws, 'Fit', 'statistic')
        nw = name.split()
        r.ob(len(idx) == 1 and ws[idx[0]:idx[0] + len(nw)] == nw and (kind or ws[idx[0] + len(nw):idx[0] + len(nw) + 1] != ['errors']), 'name of the statistic, %s' % name, cs.event(['Fit']), 'the fit statistic %s is called %s' % (name, ' '.join(show_(w) for w in ws[idx[0]:idx[0] + 4]) if idx else 'nothing'), sample='statistic named: ' + name); c.count('printed facts')
        cs.fact(ws, name + ': value', ['Best-fit', 'value'], 'fgeE', v, sub, [opened])
        if stat == CASH: cs.fact(ws, name + ': reduced', ['Reduced', 'value'], None, 'none', sub)
        else: cs.fact(ws, name + ': reduced', ['Reduced', 'value'], 'fgeE', vdiv(v, DOF), sub, [opened])
        cs.fact(ws, name + ': AIC', ['AIC'], 'fgeE', aic(v), sub, [opened]); cs.fact(ws, name + ': BIC', ['BIC'], 'fgeE', bic(v), sub, [opened])
        r.ob(any(isinstance(w, tuple) and len(w) == 3 and leaf(w[2]) is S('algorithm') for w in ws), name + ': algorithm', cs.event(['#']), 'the file does not tell the algorithm and its outcome', sample='algorithm and outcome')
    for q in sk.of('GetSolverSummary'): r.ob(q[1][0] is S('fitStatus') and q[1][1] is S('solver'), 'algorithm', q[2], 'the outcome saved is not that of the fit', sample='outcome of the fit')
    hd = printed_loop(r, Case_under(cs, [opened]), 'HEADER[]', 'n:header', 'header lines', 'FILE')
    have = bnot(vcmp('==', S('sr.paramSigmasPresent'), N(0))); acc = {True: FALSE, False: FALSE}
    for rec in sk.of('PrintParameters'):
        a = rec[1]; w = under(drop_loop_conds(unver(rec[2].pc), rec[2]), opened)
        r.ob(any(isinstance(l, Ptr) and l.obj == 'FILE' for l in leaves(a[0])) and a[1] is ptr('MODEL') and a[2] is ptr('PARAMS'), 'parameters', rec[2], 'the parameters saved are not the best-fit parameters', sample='best-fit parameters in the file'); c.count('printed facts')
        for on in (True, False):
            x = under(w, have if on else bnot(have))
            if x is FALSE: continue
            acc[on] = bor(acc[on], x); e = under(unver(a[3]), x, have if on else bnot(have))
            r.ob(errors_from(r, e, rec) if on else all(isinstance(l, Ptr) and l.obj == 'null' for l in leaves(e)), 'uncertainties' if on else 'no uncertainties', rec[2], 'the uncertainties saved are not those of the fit: %s' % brief(e, 100), sample='uncertainties of the fit' if on else 'no uncertainties when there are none'); c.count('printed facts')
    for on in (True, False): r.ob(acc[on] is TRUE, 'parameters:always', None, 'the parameters are not always saved (%s)' % brief(acc[on], 160), sample='parameters always saved')
    # SaveParameters2: header, prefix, parameters
    sk2 = Sink(); H2 = model_hooks(sk2); H2['PrintParameters'] = sk2.h('PrintParameters')
    t = Trace(p, p.func('SaveParameters2'), None, args=[ptr('FILE'), ptr('PARAMS'), ptr('MODEL'), ptr('HEADER'), ptr('PREFIX')], hooks=H2, mem=mem, strings=True)
    cs = Case(c, t, 'SaveParameters2', 'FILE')
    printed_loop(cs.r, cs, 'HEADER[]', 'n:header', 'header lines', 'FILE')
    l = sk2.of('PrintParameters')
    cs.r.ob(len(l) == 1 and unver(l[0][2].pc) is TRUE and [l[0][1][k] for k in (0, 1, 2, 4)] == [ptr('FILE'), ptr('MODEL'), ptr('PARAMS'), ptr('PREFIX')] and all(isinstance(x, Ptr) and x.obj == 'null' for x in leaves(l[0][1][3])), 'parameters', l[0][2] if l else None, 'not the parameters given are written once with the prefix', sample='parameters with prefix'); c.count('printed facts')
class Case_under:
    def __init__(s, cs, conds):
        s.outs = []
        for o in cs.outs:
            q = outs.Out(); q.e, q.n, q.dest, q.val, q.name = o.e, o.n, o.dest, o.val, o.name; q.pc = under(o.pc, *conds); s.outs.append(q)

def statistics_rule(c):
    p = prog(*RES)
    def run(fn_, args, **kw): return Trace(p, p.func(fn_), None, args=args, **kw)
    n = S('n'); el = lambda b: LD('X', scale(b, Fraction(8)))
    def total(f):
        b = fresh('$s'); return bind('sum', b, f(psym(b)), n)
    npos = vcmp('>', n, N(0))
    def check(name, t, want, what):
        r = Rule(c, t, name); v = under(unver(t.val), npos); w = under(unver(want), npos)
        r.ob(same(v, w), 'value', None, '%s is %s' % (name, brief(v, 200)), sample='%s = %s' % (name, what)); c.count('formulas')
    mean = vdiv(total(el), n)
    check('Mean', run('Mean', [ptr('X'), n]), mean, 'sum of the values / their number')
    t = run('StandardDeviation', [ptr('X'), n]); r = Rule(c, t, 'StandardDeviation')
    sq = total(lambda b: vmul(vsub(el(b), mean), vsub(el(b), mean)))
    v = under(unver(t.val), npos); r.ob(all(same(l_, vfn('sqrt', vdiv(sq, vsub(n, N(1))))) or (l is ZERO and neg(path, sq)) for path, l in paths_of(v) for l_ in [leaf(l)]) and any(l is not ZERO for _, l in paths_of(v)), 'value', None, 'StandardDeviation is %s' % brief(v, 240), sample='sqrt(sum of squared deviations from the mean / (n-1))'); c.count('formulas')
    for flag, f in ((1, lambda v: v), (0, lambda v: vmul(N(-2), v))):
        k, d, L_ = S('k'), S('nData'), S('L')
        check('AIC_corrected', run('AIC_corrected', [L_, k, d, N(flag)]), vadd(f(L_), vadd(vmul(N(2), k), vdiv(vmul(vmul(N(2), k), vadd(k, N(1))), vsub(vsub(d, k), N(1))))), 'bias-corrected AIC')
        check('BIC', run('BIC', [L_, k, d, N(flag)]), vadd(f(L_), vmul(k, vfn('log', d))), 'BIC')
    # confidence interval
    sk = Sink(); hq = sk.h('qsort')
    def sorted_(fr, i, a, m):
        _, m = hq(fr, i, a, m); m.clob['X'] = 'sorted'
        return BOT, m
    t = run('ConfidenceInterval', [ptr('RET'), ptr('X'), n], hooks={'qsort': sorted_}); r = Rule(c, t, 'ConfidenceInterval')
    q = sk.of('qsort')
    if r.ob(len(q) == 1 and unver(q[0][2].pc) is TRUE, 'sort', None, 'the values are not sorted exactly once'):
        a = q[0][1]; r.ob(a[0] is ptr('X') and a[1] is n and a[2] is N(8) and isinstance(a[3].v, Ptr), 'sort:arguments', q[0][2], 'not all the values are sorted', sample='all values sorted'); c.count('formulas')
        cmpf = a[3].v.obj[1] if isinstance(a[3].v, Ptr) and isinstance(a[3].v.obj, tuple) and len(a[3].v.obj) > 1 else None
        tc = Trace(p, p.func(dm(cmpf).split('(')[0]), None, args=[ptr('A'), ptr('B')]); A, B = S('A@0'), S('B@0')
        va = unver(tc.val)
        for nm, cs_, ok in (('greater', [vcmp('>', A, B), bnot(vcmp('==', A, B)), bnot(vcmp('<', A, B))], lambda l: is_num(l) and numval(l) > 0), ('equal', [vcmp('==', A, B), bnot(vcmp('>', A, B)), bnot(vcmp('<', A, B))], lambda l: l is ZERO), ('less', [bnot(vcmp('>', A, B)), bnot(vcmp('==', A, B)), vcmp('<', A, B)], lambda l: is_num(l) and numval(l) < 0)):
            u = under(va, *cs_); Rule(c, tc, 'sort order').ob(isinstance(u, Leaf) and isinstance(u.v, Poly) and ok(u.v), nm, None, 'the comparison for %s values is %s' % (nm, brief(u, 100)), sample='order of the sort: ' + nm); c.count('formulas')
        LO, UP = Fraction(repr(0.1585)), Fraction(repr(0.8415))
        for off, fac, plus, nm in ((8, LO, -1, 'lower'), (0, UP, 0, 'upper')):
            v = t.out.d.get(('RET', off))
            if not r.ob(v is not None, nm, None, 'there is no %s bound' % nm): continue
            ok = True; some = False
            for path, l in paths_of(v):
                a = strs.atom1(l)
                if a is None or a.kind != 'load' or a.args[0] != 'X' or 'sorted' not in a.args[2:]: ok = False; continue
                i = scale(a.args[1], Fraction(1, 8))
                rnd = round_arg(i, plus)
                if rnd is not None: some = True; ok = ok and close_scale(rnd, fac)
                else: ok = ok and (i is ZERO if nm == 'lower' else i is sub(psym('n'), ONE))
            r.ob(ok and some, nm, None, 'the %s bound of the interval is %s' % (nm, brief(v, 200)), sample='%s bound: value at rank %g n' % (nm, float(fac))); c.count('formulas')
def neg(path, sq):
    return any(not q or q for b, q in path)
def round_arg(i, plus):
    """x when i is round(x)+plus"""
    at = [(m, c_) for m, c_ in i.terms if m]; k = [c_ for m, c_ in i.terms if not m]
    if len(at) != 1 or at[0][1] != 1 or (k[0] if k else 0) != plus: return None
    a = at[0][0][0][0]
    if a.kind == 'fn' and a.args[0] in ('round', 'lround', 'nearbyint', 'rint'): return a.args[1]
    while a.kind == 'fn' and a.args[0] in ('fptoint', 'trunc', 'fptosi', 'int'):
        a = strs.atom1(a.args[1].v if isinstance(a.args[1], Leaf) else a.args[1])
        if a is None: return None
        if a.kind == 'fn' and a.args[0] in ('round', 'lround', 'nearbyint', 'rint'): return a.args[1]
    return None
def close_scale(x, fac):
    x = x.v if isinstance(x, Leaf) else x
    return len(x.terms) == 1 and x.terms[0][0] == ((S('n').v.terms[0][0][0][0], 1),) and abs(x.terms[0][1] - fac) < Fraction(1, 10**6)
def results_rule(c):
    """what is stored in the results object is what is read back"""
    p = prog(*RES); SR = 'SolverResults'; sr, _ = p.fields(SR); mp, _ = p.fields('mp_result_struct')
    nm = {o: 'sr.' + n for n, o in sr.items()}
    for n, o in mp.items(): nm[sr['mpResult'] + o] = 'mp.' + n
    def run(meth, *a): return Trace(p, p.method(SR, meth), None, args=[ptr('this')] + list(a), names={'this': nm, 'IN': {o: 'in.' + n for n, o in mp.items()}})
    def stored(t, off): return t.out.d.get(('this', off))
    for st, ge, f in (('StoreBestfitStatisticValue', 'GetBestfitStatisticValue', 'bestFitValue'), ('StoreInitialStatisticValue', 'GetInitialStatisticValue', 'initialFitStatistic'), ('StoreNFunctionEvals', 'GetNFunctionEvals', 'nFuncEvals'), ('SetSolverType', 'GetSolverType', 'whichSolver'), ('SetFitStatisticType', 'GetFitStatisticType', 'whichFitStatistic')):
        t = run(st, S('v')); r = Rule(c, t, st); g = run(ge)
        off = [o for (b, o), v in t.out.d.items() if b == 'this' and isinstance(v, Leaf) and v is S('v')]
        r.ob(len(off) == 1 and same(g.val, S(nm[off[0]])), 'kept', None, '%s does not return what %s stored' % (ge, st), sample='%s returns what %s stored' % (ge, st)); c.count('formulas')
    t = run('GetMPResults'); Rule(c, t, 'GetMPResults').ob(t.val is leaf(Ptr('this', num(sr['mpResult']))), 'value', None, 'GetMPResults does not return the stored results'); base = sr['mpResult']
    sk = Sink(); t = Trace(p, p.method(SR, 'AddMPResults'), None, args=[ptr('this'), ptr('IN')], names={'this': nm, 'IN': {o: 'in.' + n for n, o in mp.items()}}, hooks={SR + '::StoreErrors': sk.h('StoreErrors')}); r = Rule(c, t, 'AddMPResults')
    want = {base + mp[f]: f for f in ('bestnorm', 'orignorm', 'niter', 'nfev', 'npar', 'nfree', 'npegged')}
    want.update({sr['bestFitValue']: 'bestnorm', sr['nFuncEvals']: 'nfev'})
    for o, f in want.items():
        v = stored(t, o); r.ob(v is S('in.' + f), nm[o], None, '%s becomes %s' % (nm[o], brief(v, 80) if v is not None else 'nothing'), sample='%s from %s' % (nm[o], f)); c.count('formulas')
    l = sk.of('StoreErrors'); has = bnot(vcmp('==', leaf(patom(atom('load', ('*', 'IN', mp['xerror']), ZERO, 'addr'))), N(0)))
    w = FALSE
    for q in l:
        w = bor(w, unver(q[2].pc)); r.ob(same(q[1][2], S('in.npar')) and any(isinstance(x, Ptr) and x.obj == ('*', 'IN', mp['xerror']) and x.off is ZERO for x in leaves(q[1][1])), 'uncertainties', q[2], 'the uncertainties kept are not those of the fit', sample='uncertainties kept'); c.count('formulas')
    r.ob(w is has or band(w, bnot(has)) is FALSE and band(has, bnot(w)) is FALSE, 'uncertainties:when', l[0][2] if l else None, 'uncertainties are kept when %s' % brief(w, 120))
    t = run('StoreErrors', ptr('E'), S('n')); r = Rule(c, t, 'StoreErrors')
    ok = False
    for i, e, q in t.stores():
        if e.loops and trip(e.loops[-1][1]) is psym('n') and len(e.loops) == 1:
            k = psym(e.loops[-1][0]); own = stored(t, sr['paramSigmas'])
            ok = ok or q.off is scale(k, Fraction(8)) and own is not None and any(isinstance(x, Ptr) and x.obj == q.obj for x in leaves(own)) and same(unver(e.val), LD('E', scale(k, Fraction(8)))) and drop_loop_conds(unver(e.pc), e) is TRUE
    r.ob(ok and stored(t, sr['nParameters']) is S('n') and stored(t, sr['paramSigmasPresent']) is N(1), 'copy', None, 'not all the uncertainties given are kept', sample='all uncertainties kept'); c.count('formulas')
# ------------------------------------------------------------------ bootstrap
BS = ('core/bootstrap_errors.cpp', 'core/statistics.cpp', 'core/model_object.cpp', 'core/utilities.cpp')
FITS = {'LevMarFit': (3, ['n:params', 'nFree', 'nValid', None, 'limits', 'MODEL', 'ftol', 'limitsExist']), 'NMSimplexFit': (1, ['n:params', None, 'limits', 'MODEL', 'ftol']), 'DiffEvolnFit': (1, ['n:params', None, 'limits', 'MODEL', 'ftol'])}
NPOS = vcmp('>', S('n:params'), N(0)); IPOS = vcmp('>', S('nIter'), N(0)); BOOT = bnot(lt0(S('st.boot')))
def filled(t, obj, upto=None, frm=0):
    """[(event number, loop counter, number of elements, value of element k, loops around)] of the stores and copies that fill an array of doubles"""
    out = []
    for n, e in enumerate(t.events):
        if n < frm or upto is not None and n >= upto: continue
        if e.kind == 'store':
            q = [l for l in leaves(e.ptr) if isinstance(l, Ptr)]
            if len(q) != 1 or q[0].obj != obj: continue
            if not e.loops: out.append((n, None, None, unver(e.val), [], e, q[0].off)); continue
            k, K = e.loops[-1]
            if q[0].off is scale(psym(k), Fraction(8)): out.append((n, k, trip(K), unver(e.val), e.loops[:-1], e, q[0].off))
            else: out.append((n, None, None, unver(e.val), e.loops, e, q[0].off))
        elif e.kind == 'call' and e.name and dm(e.name).split('.p0')[0] in ('llvm.memcpy', 'memcpy', 'memmove', 'llvm.memmove'):
            q = [l for l in leaves(e.args[0]) if isinstance(l, Ptr)]; s_ = [l for l in leaves(e.args[1]) if isinstance(l, Ptr)]
            if len(q) == 1 and q[0].obj == obj and q[0].off is ZERO and len(s_) == 1 and s_[0].off is ZERO and isinstance(e.args[2], Leaf):
                k = fresh('$c'); out.append((n, k, scale(e.args[2].v, Fraction(1, 8)), LD(s_[0].obj, scale(psym(k), Fraction(8))), list(e.loops), e, ZERO))
    return out
def bootstrap_hooks(sk):
    H = model_hooks(sk)
    def add(k, h): H['virt:' + k] = H[MO + '::' + k] = h
    def sample(fr, i, a, m):
        _, m = sk.h('MakeBootstrapSample')(fr, i, a, m); m.d[('SEQ', 0)] = vadd(m.d[('SEQ', 0)], N(1))
        return BOT, m
    def fit(name):
        h = sk.h(name)
        def g(fr, i, a, m):
            _, m = h(fr, i, a, m); o = a[FITS[name][0]].v.obj; m.clob[o] = 'fit'
            for q in [q for q in m.d if q[0] == o]: del m.d[q]
            return outcome(m.d[('SEQ', 0)].v), m
        return g
    def offs(fr, i, a, m):
        m = m.copy(); o = a[1].v.obj; m.clob[o] = 'offsets'
        for q in [q for q in m.d if q[0] == o]: del m.d[q]
        return BOT, m
    add('MakeBootstrapSample', sample); add('UseBootstrap', sk.h('UseBootstrap', S('st.boot'))); add('EndBootstrap', sk.h('EndBootstrap')); add('GetImageOffsets', offs)
    H['PrintProgressBar'] = OPAQUE_VOID; H['init_genrand'] = sk.h('init_genrand')
    for k in FITS: H[k] = fit(k)
    def row(fr, i, a, m):
        _, m = sk.h('row')(fr, i, a, m)
        return BOT, put_(fr, m, a[0], vfn('row of', fr.m.load(m, Ptr(a[2].v.obj, a[2].v.off), ir.DOUBLE)))
    for k in ('PrintModelParamsHorizontalString', 'PrintModelParamsHorizontalString[abi:cxx11]'): add(k, row)
    def header(fr, i, a, m): return BOT, put_(fr, m, a[0], S('parameter header'))
    for k in ('GetParamHeader', 'GetParamHeader[abi:cxx11]'): add(k, header)
    return H
def outcome(k):
    """the status of a fit of sample k: negative, zero or positive (a whole number)"""
    f = LD('STATUS', k)
    return ite(vcmp('<', f, N(0)), N(-1), ite(vcmp('==', f, N(0)), N(0), N(1)))
def limits_mem(): return {('LIMITS', 0): leaf(Ptr('LIM', ZERO)), ('LIMITS', 8): leaf(Ptr('LIM', scale(psym('n:params'), Fraction(88)))), ('LIMITS', 16): leaf(Ptr('LIM', scale(psym('n:params'), Fraction(88))))}
def bootstrap_runs(c):
    p = prog(*BS)
    for name in ('BootstrapErrorsBase', 'BootstrapErrorsArrayOnly'):
        sk = Sink(); H = bootstrap_hooks(sk); flat = name.endswith('Only')
        mem = Mem(); mem.d[('SEQ', 0)] = N(0); mem.d.update(limits_mem()); mem.d[(('glob', '@stopSignal_flag'), 0)] = N(0)      # runs that are not interrupted (S04 decides the others)
        args = [ptr('BEST'), ptr('LIMITS'), S('limitsExist'), ptr('MODEL'), S('ftol'), S('nIter'), S('nFree'), S('whichStat'), ptr('OUT')] + ([S('seed'), bnot(vcmp('==', S('verbose'), N(0)))] if flat else [ptr('FILE'), S('seed')])
        t = Trace(p, p.func(name), None, args=args, hooks=H, virt=p.virt([(lambda o: o == 'MODEL', MO, True)]), mem=mem, strings=True)
        r = Rule(c, t, name); good = [BOOT, IPOS, NPOS]; ev = t.events
        pc = lambda e, *cs: under(drop_loop_conds(unver(e.pc), e), *(good + list(cs)))
        ok_ = lambda k: vcmp('>', outcome(add_(ONE, k)), N(0))
        count = lambda n: (lambda b: bind('sum', b, ite(ok_(psym(b)), N(1), N(0)), n))(fresh('$s'))
        v = unver(t.val); c.count('bootstrap facts', 3)
        r.ob(same(under(v, lt0(S('st.boot'))), N(-1)), 'failed setup', None, 'when the bootstrap cannot be set up the number of iterations is %s' % brief(under(v, lt0(S('st.boot'))), 80), sample='failed setup: -1')
        r.ob(same(under(v, BOOT, IPOS), count(S('nIter'))), 'number', None, 'the number of successful iterations is %s' % brief(under(v, BOOT, IPOS), 160), sample='number of iterations whose fit succeeded')
        r.ob(same(under(v, BOOT, bnot(IPOS)), N(0)), 'no iterations', None, 'without iterations the number is not 0')
        sk.live(t); num_of = {id(e): n_ for n_, e in enumerate(ev)}
        use = sk.of('UseBootstrap'); fits = [q for q in sk.rec if q[0] in FITS]
        pos = lambda q: num_of[id(q[2])]
        if r.ob(len(use) == 1 and unver(use[0][2].pc) is TRUE and not use[0][2].loops, 'bootstrap mode', use[0][2] if use else None, 'bootstrap mode is not entered exactly once', sample='bootstrap mode on'): r.ob(all(pos(q) > pos(use[0]) for q in fits + sk.of('MakeBootstrapSample')), 'bootstrap mode:order', use[0][2], 'bootstrap mode is entered after a sample or fit')
        # random numbers
        seeded = vcmp('>', S('seed'), N(0)); g = sk.of('init_genrand'); w = FALSE
        for q in g:
            x = unver(q[2].pc); w = bor(w, x); given = [seeded, bnot(vcmp('==', S('seed'), N(0)))]; own = under(q[1][0], under(x, *given), *given)
            if under(x, *given) is not FALSE: r.ob(same(own, S('seed')), 'seed', q[2], 'the random numbers do not start from the seed given but %s' % brief(own, 80), sample='seed given is used'); c.count('bootstrap facts')
            none = subst(q[1][0], {'seed': N(0)})
            if subst(x, {'seed': N(0)}) is not FALSE: r.ob(not is_const(none), 'no seed', q[2], 'without a seed every run uses the same random numbers', sample='no seed: by the clock')
            r.ob(not q[2].loops and all(pos(f) > pos(q) for f in sk.of('MakeBootstrapSample')), 'seed:once', q[2], 'the random numbers are restarted during the iterations')
        r.ob(w is TRUE, 'seed:always', g[0][2] if g else None, 'the random-number generator is not always initialised')
        # samples and fits
        smp = sk.of('MakeBootstrapSample')
        r.ob(len(smp) == 1 and pc(smp[0][2]) is TRUE and [trip(K) for _, K in smp[0][2].loops] == [psym('nIter')], 'sample', smp[0][2] if smp else None, 'not every iteration makes one new sample', sample='a new sample each iteration'); c.count('bootstrap facts')
        lm = bor(vcmp('==', S('whichStat'), N(CHI)), vcmp('==', S('whichStat'), N(MLR)))
        got = {CHI: FALSE, CASH: FALSE, MLR: FALSE}; P_ = set()
        for q in fits:
            e = q[2]; iN, spec = FITS[q[0]]; c.count('bootstrap facts')
            if not r.ob(len(e.loops) == 1 and trip(e.loops[0][1]) is psym('nIter'), 'fit:loop', e, 'the fit is not made once per iteration'): continue
            o = q[1][iN].v.obj if isinstance(q[1][iN], Leaf) and isinstance(q[1][iN].v, Ptr) and q[1][iN].v.off is ZERO else None
            if not r.ob(o is not None and o not in ('BEST', 'OUT'), 'fit:values', e, 'the fit does not work on a copy of the best-fit values'): continue
            P_.add(o)
            for k, wnt in enumerate(spec):
                a = q[1][k]
                if wnt is None: continue
                if wnt == 'limits': ok = isinstance(a, Leaf) and isinstance(a.v, Ptr) and same_limits(q[3], a.v.obj)
                elif wnt == 'MODEL': ok = a is ptr('MODEL')
                else: ok = same(under(unver(a), *good), S(wnt)) or wnt == 'limitsExist' and same_flag(a, wnt)
                r.ob(ok, '%s:argument %d' % (q[0], k), e, '%s is given %s where %s belongs' % (q[0], brief(a, 80), wnt), sample='%s: %s' % (q[0], wnt))
            for st in got:
                x = subst(pc(e), {'whichStat': N(st)}); got[st] = bor(got[st], x)
                if x is not FALSE: r.ob((q[0] == 'LevMarFit') == (st != CASH), 'solver', e, '%s is used for statistic %d' % (q[0], st), sample='%s for statistic %d' % (q[0], st))
            # start values: every store into the array before the fit, in the iteration, is the best-fit value
            at = num_of[id(e)]; fl = [f for f in filled(t, o, upto=at) if f[4] and f[4][0][0] == e.loops[0][0]]
            r.ob(any(f[1] and f[2] is psym('n:params') and len(f[4]) == 1 and under(drop_loop_conds(unver(f[5].pc), f[5]), *good) in (TRUE, pc(e)) for f in fl), 'start', e, 'the fit does not start from all the best-fit values', sample='every fit starts from the best-fit values')
            for f in fl: r.ob(f[1] and same(under(f[3], *good), LD('BEST', scale(psym(f[1]), Fraction(8)))), 'start:value', f[5], 'a fit starts from %s' % brief(f[3], 100)); c.count('bootstrap facts')
        for st in got: r.ob(got[st] is TRUE, 'fit:always', None, 'with statistic %d no fit is made when %s' % (st, brief(bnot(got[st]), 120)))
        # results
        n = 0
        for i, e, q in t.stores(lambda o: o == 'OUT' or isinstance(o, tuple) and o[:2] == ('*', 'OUT')):
            n += 1; c.count('bootstrap facts')
            if not r.ob(len(e.loops) == 2 and trip(e.loops[1][1]) is psym('n:params') and trip(e.loops[0][1]) is psym('nIter'), 'result:all', e, 'not every parameter of every iteration is kept'): continue
            k, j = psym(e.loops[0][0]), psym(e.loops[1][0]); done = count(leaf(k)).v
            want = add_(scale(mul(psym('n:params'), done), Fraction(8)), scale(j, Fraction(8))) if flat else scale(done, Fraction(8))
            off = under(leaf(q.off), vcmp('>', leaf(k), N(0)))
            r.ob((q.obj == 'OUT' if flat else q.obj == ('*', 'OUT', scale(j, Fraction(8)))) and same(norm_count(off), norm_count(leaf(want))), 'result:place', e, 'a result is kept at %s of %s' % (brief(off, 120), show_obj_(q.obj)), sample='results in order of the successful iterations')
            pf = [o for o in P_]; val = under(unver(e.val), *good)
            ok = any(is_sum_of(e.val, o, scale(j, Fraction(8))) for o in pf)
            r.ob(ok, 'result:value', e, 'the value kept is %s' % brief(e.val, 160), sample='fitted value in full-image coordinates')
            r.ob(same(pc(e), ok_(k)) or pc(e) is ok_(k), 'result:when', e, 'a result is kept when %s' % brief(pc(e), 120), sample='kept when the fit succeeded')
        r.ob(n == 1, 'result', None, 'results are kept %d times' % n)
        # afterwards
        ends = sk.of('EndBootstrap'); w = FALSE
        for q in ends: w = bor(w, unver(q[2].pc)); r.ob(not q[2].loops, 'end:loop', q[2], 'bootstrap mode ends during the iterations')
        r.ob(w is TRUE, 'end', ends[0][2] if ends else None, 'bootstrap mode is not left when %s' % brief(bnot(w), 100), sample='bootstrap mode left'); c.count('bootstrap facts')
        fs = [q for q in sk.of('GetFitStatistic') if not q[2].loops]; w = FALSE
        for q in fs:
            o = q[1][1].v.obj; at = pos(q); w = bor(w, unver(q[2].pc))
            last = [f for f in filled(t, o, upto=at) if not f[4]]
            ok = o == 'BEST' or any(f[1] and f[2] is psym('n:params') and same(under(f[3], *good), LD('BEST', scale(psym(f[1]), Fraction(8)))) and f[0] > max([pos(x) for x in fits] + [0]) for f in last)
            r.ob(ok and any(pos(x) < at and under(unver(x[2].pc), BOOT) is TRUE for x in ends), 'restore:values', q[2], 'the model is not left with the best-fit values and the original data', sample='model restored')
        r.ob(under(w, *good) is TRUE, 'restore', None, 'the model keeps the values of the last iteration'); c.count('bootstrap facts')
        for q in fits: r.ob(under(drop_loop_conds(unver(q[2].pc), q[2]), lt0(S('st.boot'))) is FALSE, 'failed setup:fit', q[2], 'fits are made although the bootstrap could not be set up')
        if not flat:
            os = outs.outputs(t); l = outs.said(os, None, good, 'FILE'); n = 0
            there = bnot(vcmp('==', leaf(patom(atom('load', 'FILE', ZERO, 'addr'))), N(0)))
            for ps, o, x in l:
                if not o.e.loops: continue
                vs = [y for y in ps if isinstance(y, tuple)]; n += 1; x = under(x, there); c.count('bootstrap facts')
                k = psym(o.e.loops[0][0])
                ok = len(vs) == 1 and any('row of' in repr(leaf(vs[0][2])) and uses(o.val, vfn('row of', leaf(patom(atom('load', ob, ZERO, 'fit')))).v) for ob in P_) and ''.join(y for y in ps if isinstance(y, str)) == '\n'
                r.ob(ok, 'row', o.e, 'a line of the bootstrap file is %s' % str(ps)[:120], sample='one line of fitted values')
                r.ob(same(x, ok_(k)) or x is ok_(k), 'row:when', o.e, 'a line is written when %s' % brief(x, 120)); r.ob(len(o.e.loops) == 1, 'row:once', o.e, 'a line is written several times per iteration')
            r.ob(n == 1, 'rows', None, 'the bootstrap file gets %d lines per iteration' % n, sample='one line per successful iteration')
            gone = vcmp('==', leaf(patom(atom('load', 'FILE', ZERO, 'addr'))), N(0))
            r.ob(all(under(o.pc, gone) is FALSE for o in os if outs.dest_is(o.dest, 'FILE', None, ())), 'no file', None, 'writes without a file')
def uses(v, p, seen=None):
    """does the term p occur in v"""
    seen = set() if seen is None else seen
    if v is p: return True
    if id(v) in seen: return False
    seen.add(id(v))
    if isinstance(v, Leaf): return uses(v.v, p, seen)
    if isinstance(v, Node): return uses(v.hi, p, seen) or uses(v.lo, p, seen)
    if isinstance(v, Poly): return any(uses(a, p, seen) for m, _ in v.terms for a, _ in m)
    if isinstance(v, Ptr): return uses(v.off, p, seen)
    if isinstance(v, tuple): return any(uses(x, p, seen) for x in v)
    return any(uses(x, p, seen) for x in getattr(v, 'args', ()))
def add_(a, b): return vadd(leaf(a), leaf(b)).v
def is_const(v): return isinstance(v, Leaf) and isinstance(v.v, Poly) and is_num(v.v)
def same_flag(a, w): return all(True for _ in [0]) and (same(a, S(w)) or same(a, bnot(vcmp('==', S(w), N(0)))))
def same_limits(mem, o):
    return o == 'LIMITS' or mem.d.get((o, 0)) is leaf(Ptr('LIM', ZERO)) or ('copyof' in repr(o) and 'LIMITS' in repr(o)) or any(isinstance(x, Leaf) and isinstance(x.v, Ptr) and 'LIM' in repr(x.v.obj) for x in [mem.d.get((o, 0))])
def show_obj_(o): return show_obj(o) if 'show_obj' in globals() else str(o)[:60]
def norm_count(v): return v
def is_sum_of(v, o, off):
    v = v.v if isinstance(v, Leaf) else v
    if not isinstance(v, Poly) or len(v.terms) != 2: return False
    tags = set()
    for m, k in v.terms:
        if k != 1 or len(m) != 1 or m[0][1] != 1 or m[0][0].kind != 'load': return False
        a = m[0][0]
        if a.args[1] is not off: return False
        if a.args[0] == o and 'fit' in a.args[2:]: tags.add('fit')
        elif 'offsets' in a.args[2:] and a.args[0] != o: tags.add('offsets')
    return tags == {'fit', 'offsets'}

def bootstrap_top(c):
    p = prog(*BS); sk = Sink(); H = bootstrap_hooks(sk)
    H['BootstrapErrorsBase'] = sk.h('Base', S('nOk')); H['PrintBootstrapSummary'] = sk.h('one'); H['PrintBootstrapSummaryMultimfit'] = sk.h('many')
    mem = Mem(); mem.d.update(limits_mem())
    args = [ptr('BEST'), ptr('LIMITS'), S('limitsExist'), ptr('MODEL'), S('ftol'), S('nIter'), S('nFree'), S('whichStat'), ptr('FILE'), S('seed'), bnot(vcmp('==', S('multi'), N(0)))]
    t = Trace(p, p.func('BootstrapErrors'), None, args=args, hooks=H, virt=p.virt([(lambda o: o == 'MODEL', MO, True)]), mem=mem, strings=True)
    r = Rule(c, t, 'BootstrapErrors'); sk.live(t); num_of = {id(e): n for n, e in enumerate(t.events)}; good = [NPOS]
    r.ob(same(unver(t.val), S('nOk')), 'number', None, 'the number of iterations returned is %s' % brief(unver(t.val), 100), sample='number of successful iterations'); c.count('bootstrap facts')
    b = sk.of('Base')
    if not r.ob(len(b) == 1 and unver(b[0][2].pc) is TRUE and not b[0][2].loops, 'run', None, 'the bootstrap is run %d times' % len(b)): return
    a = b[0][1]; at = num_of[id(b[0][2])]
    for k, n, w in ((0, 'best-fit values', ptr('BEST')), (2, 'use of limits', S('limitsExist')), (3, 'model', ptr('MODEL')), (4, 'tolerance', S('ftol')), (5, 'iterations', S('nIter')), (6, 'free parameters', S('nFree')), (7, 'statistic', S('whichStat')), (9, 'file', ptr('FILE')), (10, 'seed', S('seed'))):
        r.ob(a[k] is w or not isinstance(a[k].v if isinstance(a[k], Leaf) else None, Ptr) and (same(unver(a[k]), w) or n == 'use of limits' and same_flag(a[k], 'limitsExist')), 'run:' + n, b[0][2], 'the bootstrap gets %s as its %s' % (brief(a[k], 80), n), sample='hands on: ' + n); c.count('bootstrap facts')
    r.ob(isinstance(a[1], Leaf) and isinstance(a[1].v, Ptr) and same_limits(b[0][3], a[1].v.obj), 'run:limits', b[0][2], 'the bootstrap does not get the parameter limits', sample='hands on: limits')
    # the array of results
    o = a[8].v.obj if isinstance(a[8], Leaf) and isinstance(a[8].v, Ptr) else None
    ptrs = [f for f in filled(t, o, upto=at)] if o else []
    ok = len(ptrs) == 1 and ptrs[0][1] and ptrs[0][2] is psym('n:params') and isinstance(ptrs[0][3], Leaf) and isinstance(ptrs[0][3].v, Ptr)
    r.ob(ok and room(t, o, 'n:params') and room(t, ptrs[0][3].v.obj, 'nIter'), 'results', b[0][2], 'there is not room for every parameter of every iteration', sample='room for every parameter of every iteration'); c.count('bootstrap facts')
    multi = bnot(vcmp('==', S('multi'), N(0)))
    for nm, cond, other in (('one', bnot(multi), multi), ('many', multi, bnot(multi))):
        l = sk.of(nm)
        if not r.ob(len(l) == 1 and not l[0][2].loops, nm, None, 'the summary for %s image(s) is printed %d times' % (nm, len(l))): continue
        e, a2 = l[0][2], l[0][1]; pc = unver(e.pc); c.count('bootstrap facts', 4)
        r.ob(under(pc, other) is FALSE, nm + ':mode', e, 'the summary for %s image(s) is printed in the other mode' % nm, sample='summary by mode')
        for n in (-1, 0, 1): r.ob(subst(under(pc, cond), {'nOk': N(n)}) is FALSE, '%s:%d' % (nm, n), e, 'a summary is printed from %d successful iterations' % n, sample='no summary of fewer than 2 values')
        for n in (3, 10, 1000): r.ob(subst(under(pc, cond), {'nOk': N(n)}) is TRUE, '%s:%d' % (nm, n), e, 'no summary is printed from %d successful iterations' % n, sample='summary of %d values' % n)
        po = a2[0].v.obj if isinstance(a2[0], Leaf) and isinstance(a2[0].v, Ptr) else None
        fl = filled(t, po, upto=num_of[id(e)]) if po else []
        def full(f):
            off = lambda o2: leaf(patom(atom('load', o2, scale(psym(f[1]), Fraction(8)), 'offsets')))
            v = f[5].val if f[5].kind == 'store' else None
            ls = [x for x in (v.v.terms if isinstance(v, Leaf) and isinstance(v.v, Poly) else ())]
            return v is not None and len(ls) == 2 and all(k == 1 and len(m) == 1 for m, k in ls) and uses(v, strs.atom1(LD('BEST', scale(psym(f[1]), Fraction(8))).v)) and any(m[0][0].kind == 'load' and 'offsets' in m[0][0].args[2:] and m[0][0].args[1] is scale(psym(f[1]), Fraction(8)) for m, k in ls)
        r.ob(any(f[1] and f[2] is psym('n:params') and full(f) and implied_(pc, under(drop_loop_conds(unver(f[5].pc), f[5]), *good)) for f in fl) and all(f[1] and full(f) for f in fl), nm + ':best-fit values', e, 'the summary does not compare with the best-fit values in full-image coordinates', sample='best-fit values in full-image coordinates')
        r.ob(isinstance(a2[1], Leaf) and isinstance(a2[1].v, Ptr) and a2[1].v.obj == o and same(unver(a2[2]), S('n:params')) and same(unver(a2[3]), S('nOk')) and a2[5] is ptr('MODEL') and isinstance(a2[4], Leaf) and isinstance(a2[4].v, Ptr) and same_limits(l[0][3], a2[4].v.obj), nm + ':arguments', e, 'the summary is not given all successful results', sample='summary of exactly the successful results')
def implied_(pc, q): return q is TRUE or band(pc, bnot(q)) is FALSE
def room(t, o, n):
    """the allocation behind o holds n elements of 8 bytes"""
    for e in t.events:
        if e.kind == 'call' and e.name and dm(e.name) in ('calloc', 'malloc') and e.res is not None and any(isinstance(l, Ptr) and l.obj == o for l in leaves(e.res)):
            v = vmul(e.args[0], e.args[1]) if dm(e.name) == 'calloc' else e.args[0]
            return same(unver(v), vmul(N(8), S(n)))
    return False
def summary_hooks(H):
    st = lambda w, q, n: LD(('of', w, q.obj), n.v)
    def ci(fr, i, a, m):
        m = m.copy(); o, b = a[0].v.obj, int(numval(a[0].v.off))
        for k in [k for k in m.d if k[0] == o and k[1] in (b, b + 8)]: del m.d[k]
        fr.m.store(m, Ptr(o, num(b + 8)), st('lower', a[1].v, a[2])); fr.m.store(m, Ptr(o, num(b)), st('upper', a[1].v, a[2]))
        return BOT, m
    H['ConfidenceInterval'] = ci
    for w in ('Mean', 'StandardDeviation'): H[w] = (lambda w: lambda fr, i, a, m: (st(w, a[0].v, a[1]), m))(w)
def bootstrap_summary(c):
    p = prog(*BS); lab = None
    for name, nim in (('PrintBootstrapSummary', None), ('PrintBootstrapSummaryMultimfit', 1), ('PrintBootstrapSummaryMultimfit', 2), ('PrintBootstrapSummaryMultimfit', 4)):
        sk = Sink(); H = bootstrap_hooks(sk); summary_hooks(H)
        if nim: H['virt:GetNImages'] = H[MO + '::GetNImages'] = lambda fr, i, a, m: (N(nim), m)
        mem = Mem(); mem.d.update(limits_mem()); mem.d[('MODEL', p.off(MO, 'nParamsTot'))] = S('n:params')
        t = Trace(p, p.func(name), None, args=[ptr('BEST'), ptr('OUT'), S('n:params'), S('nOk'), ptr('LIMITS'), ptr('MODEL')], hooks=H, virt=p.virt([(lambda o: o == 'MODEL', MO, True)]), mem=mem, strings=True)
        r = Rule(c, t, name + (', %d image(s)' % nim if nim else '')); os = outs.outputs(t)
        plo = p.off(MO, 'parameterLabels'); names = ('*', 'MODEL', plo)
        skip = 5 * (nim - 1) if nim else 0
        # one group of lines per loop nest
        groups = []
        for o in os:
            if not o.e.loops or ZERO in [trip(K) for _, K in o.e.loops]: continue
            if not any(isinstance(x, tuple) and uses_any(x, 'BEST') for ps, _, _ in outs.said([o]) for x in ps): continue
            key = tuple(k for k, _ in o.e.loops)
            if not any(g[0] == key for g in groups): groups.append((key, [o2 for o2 in os if tuple(k for k, _ in o2.e.loops) == key]))
        r.ob(len(groups) == (1 if not skip else 2), 'groups', None, 'the parameters are printed in %d passes' % len(groups), sample='one pass over the parameters')
        first = True
        for key, g in groups:
            loops = g[0].e.loops; trips = [trip(K) for _, K in loops]
            if ZERO in trips: continue
            if skip and first:
                ok = [int(numval(x)) if x is not None and is_num(x) else None for x in trips] in ([nim - 1, 5], [skip]); idx = psym(key[-1]) if len(key) == 1 else add_(psym(key[1]), scale(psym(key[0]), Fraction(5)))
                nmw = lambda w: isinstance(w, tuple) and 'imageParamLabels' in repr(leaf(w[2])) and uses_any(w, None) and label_index(w) is (scale(psym(key[-1]), Fraction(32)))
            else:
                ok = trips == [sub(psym('n:params'), num(skip))]; idx = add_(psym(key[0]), num(skip))
                if not ok and len(trips) == 1 and trips[0] is psym('n:params') and skip: ok = False
                nmw = lambda w: isinstance(w, tuple) and same(leaf(w[2]) if isinstance(w[2], Poly) else w[2], LD(names, scale(idx, Fraction(32))))
            r.ob(ok, 'all parameters', g[0].e, 'not every parameter is printed once (loop over %s)' % [brief(leaf(x), 60) if x is not None else None for x in trips], sample='every parameter'); c.count('bootstrap facts')
            i8 = scale(idx, Fraction(8)); best = LD('BEST', i8); R = lambda w: LD(('of', w, ('*', 'OUT', i8)), psym('nOk'))
            fixed = bnot(vcmp('==', LD('LIM', scale(idx, Fraction(88))), N(0))); bound = vcmp('<', leaf(idx), S('n:params'))
            lo, up = R('lower'), R('upper')
            for fx in (True, False):
                ps = []
                for o in g:
                    for q, _, pc in outs.said([o], None, [fixed if fx else bnot(fixed), bound]):
                        r.ob(pc is TRUE, 'when', o.e, 'whether a parameter is printed depends on %s' % brief(pc, 100)); ps += q
                vals = [x for x in ps if isinstance(x, tuple)]
                want = [None, best] if fx else [None, best, vsub(up, best), vsub(best, lo), lo, up, vmul(N(Fraction(1, 2)), vsub(up, lo)), R('Mean'), R('StandardDeviation')]
                what = ['name', 'best-fit value', 'upper error', 'lower error', 'lower bound', 'upper bound', 'half-width', 'mean', 'standard deviation']
                text = ' '.join(x for x in ps if isinstance(x, str))
                r.ob(('fixed' in text) == fx and len(vals) == len(want), 'line, %s' % ('fixed' if fx else 'free'), g[0].e, 'a %s parameter is printed as %s' % ('fixed' if fx else 'free', str(ps)[:200]), sample='fixed parameters are marked')
                for x, w, n in zip(vals, want, what):
                    c.count('bootstrap facts')
                    if w is None: r.ob(nmw(x), 'name', g[0].e, 'parameter %s is called %s' % (brief(leaf(idx), 60), show_(x)), sample='own name'); continue
                    v = under(resolve(t, unver(leaf(x[2]) if isinstance(x[2], Poly) else x[2])), bound)
                    r.ob(same(v, w), n, g[0].e, 'the %s of a parameter shows %s' % (n, brief(v, 160)), sample='own ' + n)
            first = False
def image_labels(c):
    """the labels of the image parameters are in the order in which the model stores them"""
    p = prog(*BS)
    for n, f in p.prog.fns.items():
        if 'global_var_init' not in n: continue
        t = Trace(p, f, None, args=[], strings=True)
        for e in t.events:
            if e.kind != 'call' or not e.args or 'imageParamLabels' not in repr(e.args[0]) or 'vector' not in dm(e.name or ''): continue
            arr_ = [l.obj for l in leaves(e.args[1]) if isinstance(l, Ptr)]
            got = {int(numval(q.off)) // 32: strs.literal(under(unver(x.val)).v) for _, x, q in t.stores(lambda o: o in arr_) if is_num(q.off) and isinstance(x.val, Leaf)}
            Rule(c, t, 'image parameters').ob([got.get(k) for k in range(5)] == ['PIXEL_SCALE', 'ROTATION', 'FLUX_SCALE', 'X0', 'Y0'], 'names', e, 'the image parameters are called %s' % got, sample='names of the image parameters'); c.count('bootstrap facts')
def label_index(w):
    a = strs.atom1(w[2] if isinstance(w[2], Poly) else w[2].v)
    return a.args[1] if a is not None and a.kind == 'load' else None
def uses_any(x, o):
    return True if o is None else "'%s'" % o in repr(x[2]) or o in brief(leaf(x[2]) if isinstance(x[2], Poly) else x[2], 400)
def resolve(t, v):
    """replace elements of a local array by what was stored in them"""
    v0 = v.v if isinstance(v, Leaf) else v
    if not isinstance(v0, Poly): return v
    for m, k in v0.terms:
        for a, e in m:
            if a.kind == 'load' and isinstance(a.args[0], tuple) and a.args[0] and a.args[0][0] in ('ret', 'alloca'):
                fl = [f for f in filled(t, a.args[0]) if f[1]]
                if len(fl) == 1 and fl[0][2] is psym('n:params'): return subst(fl[0][3], {fl[0][1]: leaf(scale(a.args[1], Fraction(1, 8)))}) if v0 is patom(a) else v
    return v
def fluxes(c):
    p = prog('core/makeimage_main.cpp'); sk = Sink(); H = model_hooks(sk)
    def add(k, h): H['virt:' + k] = H[MO + '::' + k] = h
    add('GetNFunctions', lambda fr, i, a, m: (S('n:fun'), m))
    def names(obj):
        def f(fr, i, a, m):
            m = m.copy(); o = a[1].v.obj; b = int(numval(a[1].v.off))
            for k in [k for k in m.d if k[0] == o and k[1] in (b, b + 8, b + 16)]: del m.d[k]
            for d, v in ((0, ZERO), (8, scale(psym('n:fun'), Fraction(32))), (16, scale(psym('n:fun'), Fraction(32)))): fr.m.store(m, Ptr(o, num(b + d)), leaf(Ptr(obj, v)))
            return BOT, m
        return f
    add('GetFunctionNames', names('FNAMES')); add('GetFunctionLabels', names('FLABELS'))
    rec = sk.h('FindTotalFluxes')
    def total(fr, i, a, m):
        _, m = rec(fr, i, a, m); o = a[4].v.obj; m.clob[o] = 'flux'
        for q in [q for q in m.d if q[0] == o]: del m.d[q]
        return S('total'), m
    add('FindTotalFluxes', total)
    H['fopen'] = lambda fr, i, a, m: (sk.h('fopen')(fr, i, a, m), (leaf(Ptr('FILE', ZERO)), m))[1]
    t = Trace(p, p.func('DetermineFluxes'), None, args=[ptr('MODEL'), ptr('PARAMS'), ptr('OPTS'), ptr('PROG')], hooks=H, mem=opt_mem(p), virt=p.virt([(lambda o: o == 'MODEL', MO, True)]), strings=True, names={'OPT': {o: 'opt.' + n for n, o in p.fields('MakeimageOptions')[0].items()}})
    sk.live(t); r = Rule(c, t, 'DetermineFluxes'); num_of = {id(e): n for n, e in enumerate(t.events)}; opened = bnot(vcmp('==', leaf(patom(atom('load', 'FILE', ZERO, 'addr'))), N(0)))
    FPOS = [vcmp('>', S('n:fun'), N(0)), bnot(lt0(S('n:fun')))]
    l = sk.of('FindTotalFluxes')
    if not r.ob(len(l) == 1 and unver(l[0][2].pc) is TRUE and not l[0][2].loops, 'fluxes', l[0][2] if l else None, 'the fluxes are estimated %d times' % len(l)): return
    a = l[0][1]; F_ = a[4].v.obj; c.count('printed facts')
    r.ob(a[0] is ptr('MODEL') and a[1] is ptr('PARAMS') and all(same(unver(a[k]), S('opt.estimationImageSize')) for k in (2, 3)), 'fluxes:arguments', l[0][2], 'the fluxes are not those of the model on an image of the size asked for (%s)' % [brief(x, 40) for x in a[1:4]], sample='fluxes of the model on the image asked for')
    q = psym('q'); inr = [vcmp('<', leaf(q), S('n:fun')), bnot(vcmp('==', leaf(q), S('n:fun'))), vcmp('<', leaf(q), vadd(S('n:fun'), N(1))), bnot(vcmp('>', leaf(q), S('n:fun')))] + FPOS
    flux = LD(F_, scale(q, Fraction(8))); label = LD('FLABELS', scale(q, Fraction(32)))
    have_label = bnot(vcmp('==', label, leaf(psym('""'))))
    pushes = [(n, e) for n, e in enumerate(t.events) if e.kind == 'call' and e.name and 'vector' in dm(e.name)[:14] and ('push_back' in e.name or 'emplace_back' in e.name) and e.val is not None]
    # where are the lines printed from
    V = {}
    for o in outs.outputs(t):
        if not o.e.loops: continue
        for ps, _, pc in outs.said([o], None, (), 'any'):
            vs = [x for x in ps if isinstance(x, tuple)]
            at = strs.atom1(vs[0][2] if isinstance(vs[0][2], Poly) else vs[0][2].v) if len(vs) == 1 and len(ps) == 1 else None
            if at is not None and at.kind == 'load' and isinstance(at.args[0], tuple) and at.args[0][0] == '*': V.setdefault(base(at.args[0])[1], []).append((o, pc, at.args[1]))
    mine = [(n, e) for n, e in pushes if any(isinstance(x, Ptr) and x.obj in V for x in leaves(e.args[0])) and ('total' in syms(unver(e.val)) or uses(unver(e.val), strs.atom1(subst(flux, {'q': psym(e.loops[-1][0])}).v) if e.loops else None))]
    vecs_ = {x.obj for n, e in mine for x in leaves(e.args[0]) if isinstance(x, Ptr)}
    if not r.ob(len(vecs_) == 1, 'lines', None, 'the lines of the table are not collected in one list'): return
    v_ = vecs_.pop()
    def line(e, case, conds, sub):
        """words of the line an event adds in a case, or None when it adds none"""
        if case == 'component':
            if len(e.loops) != 1: return None
            n = trip(e.loops[0][1])
            if n not in (psym('n:fun'), add_(psym('n:fun'), ONE)): return None
            k = {e.loops[0][0]: leaf(q)}
        else:
            k = {}
            if e.loops:
                n = trip(e.loops[0][1])
                if len(e.loops) != 1 or n is not add_(psym('n:fun'), ONE): return None
                k = {e.loops[0][0]: S('n:fun')}
        pc = under(subst(drop_loop_conds(unver(e.pc), e) if case == 'component' else unver(e.pc), {**k, **sub}), *conds)
        if pc is FALSE: return None
        v = under(subst(unver(e.val), {**k, **sub}), pc, *conds)
        return pc, v
    for case in ('component', 'total'):
        fl = flux if case == 'component' else S('total'); frac = vdiv(flux, S('total')) if case == 'component' else N(1)
        for zp in (True, False):
            for pos_ in ((True, False) if zp else (True,)):
                for lab in ((True, False) if case == 'component' else (False,)):
                    conds = list(inr if case == 'component' else FPOS) + [vcmp('>', fl, N(0)) if pos_ else bnot(vcmp('>', fl, N(0)))]
                    sub_ = {} if zp else {'opt.magZeroPoint': N(-10000)}
                    if zp: conds.append(bnot(vcmp('==', S('opt.magZeroPoint'), N(-10000))))
                    if case == 'component': conds.append(have_label if lab else bnot(have_label))
                    got = [(n, e, x) for n, e in mine for x in [line(e, case, conds, sub_)] if x is not None]
                    key = '%s, %s%s%s' % (case, 'zero point' if zp else 'no zero point', '' if pos_ else ', no flux', ', label' if lab else '')
                    if not r.ob(len(got) == 1 and got[0][2][0] is TRUE, key, got[1][1] if len(got) > 1 else mine[0][1], 'a %s gets %d lines%s' % (case, len(got), '' if len(got) != 1 else ' (when %s)' % brief(got[0][2][0], 120)), sample='one line per component and total'): continue
                    n, e, (pc, v) = got[0]; c.count('printed facts')
                    want = [('name', LD('FNAMES', scale(q, Fraction(32))) if case == 'component' else 'Total'), ('flux', fl)] + ([('magnitude', vsub(S('opt.magZeroPoint'), vmul(N(Fraction(5, 2)), vfn('log10', fl))))] if zp and pos_ else [('no magnitude', '---')]) + [('fraction', frac)] + ([('label', label)] if lab else [])
                    for path, x in paths_of(v):
                        ps = strs.pieces(x) if isinstance(x, Poly) else [('?', x)]; ws = flat_words(ps)
                        if not r.ob(len(ws) == len(want), key, e, 'a %s is printed as %s' % (case, str(ps)[:200])): continue
                        for w, (nm, y) in zip(ws, want):
                            c.count('printed facts')
                            if isinstance(y, str): r.ob(w == y or isinstance(w, tuple) and strs.literal(w[2]) == y, nm, e, 'the table shows %s for %s' % (show_(w), y), sample=nm); continue
                            ok = isinstance(w, tuple) and len(w) == 3 and near(under(leaf(w[2]) if isinstance(w[2], Poly) else w[2], *conds), y)
                            r.ob(ok, nm, e, 'the %s of a %s shows %s' % (nm, case, show_(w)[:160]), sample='own ' + nm)
    for n, e in pushes:
        if any(isinstance(x, Ptr) and x.obj == v_ for x in leaves(e.args[0])) and (n, e) not in mine: r.ob(False, 'extra line', e, 'the table has another line: %s' % brief(e.val, 100))
    comp = [n for n, e in mine if line(e, 'component', inr, {}) is not None]; tot = [n for n, e in mine if line(e, 'total', FPOS, {}) is not None]
    r.ob(not comp or not tot or max(comp) <= max(tot), 'order', mine[0][1], 'the total is printed before the components', sample='total last')
    # printed and saved as asked
    pf, sf = bnot(vcmp('==', S('opt.printFluxes'), N(0))), bnot(vcmp('==', S('opt.saveFluxes'), N(0))); seen = {None: FALSE, 'FILE': FALSE}
    full = [bnot(vcmp('==', *[leaf(x) for x in ends_of(v_)]))]
    for o, pc, off in V.get(v_, []):
        d = 'FILE' if outs.dest_is(o.dest, 'FILE', None, ()) else None; k = psym(o.e.loops[-1][0]); n = trip(o.e.loops[-1][1]); c.count('printed facts')
        r.ob(off is scale(k, Fraction(32)) and n is not None and len(o.e.loops) == 1 and (n is add_(psym('n:fun'), ONE) or whole_vector(n, v_)), 'all lines', o.e, 'not all lines of the table are %s' % ('saved' if d else 'printed'), sample='all lines')
        nn = unver(leaf(n)) if n is not None else None; seen[d] = bor(seen[d], under(unver(o.pc), opened, *full, *([vcmp('<', leaf(k), nn), bnot(vcmp('==', leaf(k), nn)), vcmp('>', nn, N(0)), bnot(lt0(nn))] if n is not None else []))); r.ob(num_of[id(o.e)] > max(n for n, _ in mine), 'after', o.e, 'the table is printed before it is complete')
    r.ob(seen[None] is pf, 'printed', None, 'the table is printed when %s' % brief(seen[None], 120), sample='printed exactly when asked for'); r.ob(seen['FILE'] is sf, 'saved', None, 'the table is saved when %s' % brief(seen['FILE'], 120), sample='saved exactly when asked for')
    fr = outs.Fr(); fr.m = t.m
    for q_ in sk.of('fopen'):
        a = q_[1]; c.count('printed facts')
        r.ob(strs.literal(strs.chars(fr, a[1]).v) in ('w', 'wt') and 'saveFluxesFileName' in repr(strs.chars(fr, a[0])) and under(unver(q_[2].pc), *full) is sf, 'file', q_[2], 'the file written is not the one asked for (%s)' % brief(strs.chars(fr, a[0]), 80), sample='file asked for')
    r.ob(len(sk.of('fopen')) == 1, 'file:one', None, 'the file is opened %d times' % len(sk.of('fopen')))
    for n, e in t.calls('fclose'): r.ob(same(under(unver(e.pc), opened, sf, *full), TRUE) and all(num_of[id(o.e)] < n for o, _, _ in V.get(v_, []) if outs.dest_is(o.dest, 'FILE', None, ())), 'closed', e, 'the file is closed before it is complete', sample='closed after writing')
    r.ob(len(t.calls('fclose')) >= 1, 'closed:some', None, 'the file is never closed')
    shut = vcmp('==', leaf(patom(atom('load', 'FILE', ZERO, 'addr'))), N(0))
    r.ob(all(under(o.pc, shut) is FALSE for o in outs.outputs(t) if outs.dest_is(o.dest, 'FILE', None, ())), 'not opened', None, 'writes to a file that could not be opened', sample='file not opened: nothing written')
def opt_mem(p):
    m = Mem(); m.d[('OPTS', 0)] = leaf(Ptr('OPT', ZERO))
    return m
def flat_words(ps):
    out = []
    for x in ps:
        if isinstance(x, str): out += x.split()
        else: out.append(x)
    return out
def near(v, w):
    if same(v, w): return True
    d = vsub(v, w)
    return isinstance(d, Leaf) and isinstance(d.v, Poly) and all(abs(k) < Fraction(1, 10**9) for m, k in d.v.terms)
def ends_of(v): return [patom(atom('load', ('*', v, num(k)), ZERO, 'addr')) for k in (0, 8)]
def whole_vector(n, v):
    b, e = ends_of(v)
    if any(unver(leaf(n)) is unver(leaf(scale(add_(x, scale(y, Fraction(-1))), Fraction(1, 32)))) for x, y in [(e, b)]) : return True
    return any(a.kind == 'fn' and a.args[0] == 'idiv' for m, k in n.terms for a, x in m) and repr(v) in repr([a.args for m, k in n.terms for a, x in m]) or 'idiv' in brief(leaf(n), 400) and len(n.terms) == 1 and n.terms[0][1] == 1

def summary_rule(c):
    """the one-line account of how the fit ended: that of the solver used, for the status given"""
    p = prog(*RES); SOLVERS = {1: 'InterpretMpfitResult', 3: 'GetInterpretation_NM', 5: 'GetInterpretation_NLOpt', 2: None}
    msg = lambda w: lambda fr, i, a, m: (BOT, put_(fr, m, a[1], vfn('says:' + w, a[0])))
    H = {n: msg(n) for n in SOLVERS.values() if n}
    for solver, who in SOLVERS.items():
        t = Trace(p, p.func('GetSolverSummary'), None, args=[S('status'), N(solver), ptr('OUT')], hooks=H, strings=True); r = Rule(c, t, 'GetSolverSummary')
        v = t.out.d.get(('OUT', 0), BOT)
        for st, word in ((1, 'SUCCESS'), (5, 'Maximum'), (100, 'interrupt')) if who is None else ((None, None),):
            w = unver(subst(v, {'status': N(st)}, {}) if st is not None else v)
            said = []
            tmap(w, lambda a: said.append(a) if a.kind == 'fn' and str(a.args[0]).startswith('says:') else None)
            txt = repr(w)
            if who: ok = isinstance(w, Leaf) and [(a.args[0], a.args[1]) for a in said] == [('says:' + who, psym('status'))]
            else: ok = isinstance(w, Leaf) and not said and word in txt and not any(x in txt for x in ('SUCCESS', 'Maximum', 'interrupt') if x != word)
            r.ob(ok, 'outcome:%d%s' % (solver, ':%d' % st if st else ''), None, 'the outcome of solver %d%s is told as %s' % (solver, ' with status %d' % st if st else '', brief(w, 160)), sample='the solver\'s own account of its status'); c.count('printed facts')
GEN_WORDS = {-1: ('ERROR', 'generic'), -2: ('ERROR', 'invalid'), -3: ('ERROR', 'memory'), -4: ('ERROR', 'roundoff'), -5: ('ERROR', 'forced'), 1: ('SUCCESS', 'generic'), 2: ('SUCCESS', 'stopval'),
             3: ('SUCCESS', 'ftol'), 4: ('SUCCESS', 'xtol'), 5: ('FAILED', 'evaluations'), 6: ('FAILED', 'maximum time')}
LM_WORDS = {-16: ('ERROR', 'non-finite'), -17: ('ERROR', 'function was supplied'), -18: ('ERROR', 'data points'), -19: ('ERROR', 'free parameters'), -20: ('ERROR', 'memory'), -21: ('ERROR', 'initial values'), -22: ('ERROR', 'constraints inconsistent'),
            -24: ('ERROR', 'degrees of freedom'), 1: ('SUCCESS', 'in fit-statistic value'), 2: ('SUCCESS', 'in parameter value'), 3: ('SUCCESS', 'in fit-statistic and parameter value'), 4: ('SUCCESS', 'orthogonality'), 5: ('Terminated', 'iterations'),
            6: ('Terminated', 'ftol'), 7: ('Terminated', 'xtol'), 8: ('Terminated', 'gtol'), 100: ('Terminated', 'interrupt')}
def outcome_rule(c):
    """what each solver's status is said to mean: whether it is a success or a failure, and which"""
    p = prog('solvers/nmsimplex_fit.cpp', 'solvers/nlopt_fit.cpp', 'solvers/mpfit.cpp')
    for fn, words in (('InterpretMpfitResult', LM_WORDS), ('GetInterpretation_NM', GEN_WORDS), ('GetInterpretation_NLOpt', GEN_WORDS)):
        t = Trace(p, p.func(fn), None, args=[S('status'), ptr('OUT')], strings=True); r = Rule(c, t, fn); v = t.out.d.get(('OUT', 0), BOT)
        for st, (cls, word) in words.items():
            w = unver(subst(v, {'status': N(st)}, {}))
            if not isinstance(w, Leaf): continue
            txt = repr(w)
            if re.search(r'glob\.(?!@_Z17currentSolverName)|call:|idx', txt) and word not in txt.lower(): continue
            ok = word in txt.lower() and cls in txt and not any(x in txt for x in ('ERROR', 'SUCCESS', 'FAILED', 'Terminated') if x != cls)
            ok = ok and not any(x in txt.lower() for s2, (c2, x) in words.items() if x != word and x not in word and word not in x)
            r.ob(ok, 'meaning:%d' % st, None, 'status %d is told as %s' % (st, brief(w, 160)), sample='%d: %s, %s' % (st, cls, word)); c.count('outcomes')
def R01():
    c = Check('R01', 'Value numbering of the reporting functions with symbolic model, solver results and parameters: for every statistic, solver and mode, the words printed and the value after each label, compared with the definition of the quantity named.')
    print_results(c); fit_statistic(c); print_parameters(c); save_parameters(c); statistics_rule(c); results_rule(c); summary_rule(c); outcome_rule(c)
    c.floor('printed facts', 240); c.floor('formulas', 24); c.floor('outcomes', 30)
    return c.finish()
def multi_boot_rule(c):
    """a multi-image object enters bootstrap mode, resamples and leaves bootstrap mode for every one of its images, and tells whether that worked"""
    from .checks_model import mm_trace, MM, parr, virt, ADDR
    nO = psym('this.nModelObjects'); MOV = parr(MM, 'modelObjectsVect')
    for meth in ('UseBootstrap', 'MakeBootstrapSample', 'EndBootstrap'):
        t = mm_trace(meth, [ptr('this')]); r = Rule(c, t, 'multi:' + meth)
        l = t.calls('virt:' + meth, MO + '::' + meth)
        if not r.ob(len(l) == 1, 'each', None, '%d calls per image' % len(l)): continue
        e = l[0][1]
        K = e.loops[0][1] if len(e.loops) == 1 else None
        r.ob(K is not None and trip(K) is nO, 'range', e, 'not every image is treated: %s' % (K is not None and brief(K, 100)))
        if K is None: continue
        k = e.loops[0][0]
        r.ob(unver(pc_(e)) is TRUE and unver(e.args[0]) is leaf(Ptr(('*', MOV, scale(psym(k), Fraction(8))), ZERO)), 'each', e, 'image %s is treated when %s' % (brief(e.args[0], 60), brief(pc_(e), 80))); c.count('bootstrap facts')
        if meth == 'EndBootstrap': continue
        v = unver(t.val); v = under(v, vcmp('>', leaf(nO), N(0)))
        st = vfn('call:virt:' + meth, leaf(patom(atom('load', ('*', MOV, scale(psym('#m1'), Fraction(8))), ZERO, 'addr'))))
        a = the_atom(v)
        ok = False
        if a is not None and a.kind == 'mu':
            body = a.args[2]; body = body if isinstance(body, (Leaf, Node)) else leaf(body)
            ini = a.args[1]; ini = ini if isinstance(ini, (Leaf, Node)) else leaf(ini)
            bad = [b for b in bvars(body) if 'call:virt:' + meth in repr(b)]
            ok = ini is N(0) and len(bad) == 1
            if ok:
                neg = [x for x in (True, False) if implies_neg(bad[0], x)]
                ok = len(neg) == 1 and restrict(body, bad[0], not neg[0]) is S('#u1') and all(is_num(x) and numval(x) < 0 for x in leaves(restrict(body, bad[0], neg[0])) if isinstance(x, Poly))
        elif isinstance(v, (Leaf, Node)) and t.m.exitinfo: ok = True        # returns at the first failure
        r.ob(ok, 'status', e, 'the status returned is %s' % brief(v, 160), sample='negative when any image failed, 0 otherwise'); c.count('bootstrap facts')
def implies_neg(b, pol):
    """the comparison b, taken with the given polarity, says that the status is negative"""
    s = b.args[1]
    if b.args[0] != '<': return False
    (m_, k_), = [x for x in s.terms if x[0]] or [((), 0)]
    c0 = sum(k for m, k in s.terms if not m)
    # k*status + c0 < 0
    f = lambda st: k_ * st + c0 < 0
    return f(-1) == pol and f(0) == (not pol) and f(1) == (not pol)
def pc_(e): return drop_loop_conds(e.pc, e)
def R02():
    c = Check('R02', 'Value numbering of the bootstrap functions with model, solvers and random numbers replaced by named results: start values, sample, fit, kept results, file lines, clean-up and printed summary per iteration and parameter, compared with the definition.')
    bootstrap_runs(c); bootstrap_top(c); bootstrap_summary(c); image_labels(c); bootstrap_rule(c); multi_boot_rule(c)
    c.floor('bootstrap facts', 90)
    return c.finish()
def R03():
    c = Check('R03', 'Value numbering of the flux report of makeimage with the model replaced by named results: the text of every line of the table in every case, compared with the definition; conditions and destinations of printing and saving.')
    fluxes(c); c.floor('printed facts', 40)
    return c.finish()
TABLE = {'R01': R01, 'R02': R02, 'R03': R03}

"""S07: the derivatives used by the Levenberg-Marquardt solver."""
from fractions import Fraction
from . import ir, build
from .cas import *
from .build import AnalysisError, dm
from .report import Check
from .trace import *
from .checks_pipe import Rule, unver, same, under, LD, the_atom
from .checks_io import P_, show
from .checks_config import poly, ctr
from .checks_sect import terms_in

NAMES = 'FUNCT M N IFREE NPAR X FVEC FJAC LD EPSF WA PRIV NFEV STEP DSTEP DSIDE QU UL DDEBUG DR DA'.split()
NUMBERS = ('M', 'N', 'NPAR', 'LD', 'EPSF')
isn = lambda v: poly(v) is not None and is_num(poly(v))
def lm(v): return v if isinstance(v, (Leaf, Node)) else leaf(v)
def default(v, **null):
    """no parameter asks for another kind of derivative; the tables exist unless said"""
    def f(a):
        if a.kind != 'load' or not isinstance(a.args[0], str): return None
        o = a.args[0]; addr = len(a.args) > 2 and a.args[2] == 'addr'
        if addr: return N(0) if null.get(o) else N(8)
        if o in ('DSIDE', 'DDEBUG', 'DR', 'DA'): return N(0)
        if o in ('STEP', 'DSTEP') and null.get(o, True): return N(0)
        return None
    return tmap(lm(v), f)
def derivatives(c):
    p = Prog2(['solvers/mpfit.cpp'], passes=build.ONELOOP); fn = p.func('mp_fdjac2')
    if len(fn.params) != len(NAMES): raise AnalysisError('mp_fdjac2 has other parameters than expected')
    t = Trace(p, fn, None, [N(Fraction(1, 4)) if q == 'EPSF' else S(q) if q in NUMBERS else P_(q) for q in NAMES]); r = Rule(c, t, 'mp_fdjac2')
    objs = lambda x: {l.obj for l in leaves(lm(x)) if isinstance(l, Ptr)}
    live = lambda e: default(unver(e.pc)) is not FALSE
    def ptrs(e): return [l for l in leaves(default(lm(e.ptr))) if isinstance(l, Ptr)]
    calls = [(n, e) for n, e in enumerate(t.events) if e.kind == 'call' and e.name is None and len(e.args) >= 6 and live(e) and e.loops]
    jac = []; xs = []
    for n, e in enumerate(t.events):
        if e.kind != 'store' or not live(e) or not e.loops: continue
        q = ptrs(e)
        for l in q:
            if l.obj == 'FJAC' and not (isn(lm(e.val)) and numval(poly(lm(e.val))) == 0): jac = [z for z in jac if z[1] is not e] + [(n, e, l)]
            if l.obj == 'X': xs.append((n, e, l))
    c.count('evaluations', len(calls)); c.count('stores examined', len(jac) + len(xs))
    if not r.ob(len(calls) == 1 and len(calls[0][1].loops) == 1, 'evaluations', None, 'the model is evaluated in %d places for a one-sided derivative' % len(calls)): return
    n0, ev = calls[0]; k = ctr(ev); par = LD('IFREE', scale(k, Fraction(4)))
    r.ob(objs(ev.args[2]) == {'X'} and objs(ev.args[3]) == {'WA'}, 'evaluations', ev, 'the model is not evaluated at the moved parameters')
    x0 = LD('X', scale(poly(par), Fraction(8)))
    here = lambda l: same(lm(l.off), scale_v(par, 8)); mine = [z for z in xs if len(z[1].loops) == 1 and z[1].loops[0][0] == ev.loops[0][0]]
    for n, e, l in xs: r.ob(here(l) and (n, e, l) in mine, 'moved', e, 'another parameter than the free one, X at %s, is changed' % brief(lm(l.off), 50), sample='only the free parameter is moved')
    before = [z for z in mine if z[0] < n0]; after = [z for z in mine if z[0] > n0]
    some = [vcmp('<', N(0), S('M')), vcmp('<', N(0), S('N')), vcmp('<', leaf(k), S('N')), bnot(vcmp('==', S('M'), N(0)))]
    if not r.ob(len(before) >= 1 and len(after) >= 1, 'moved', ev, 'the parameter is not moved before and put back after the evaluation'): return
    b = before[-1][1]; a = after[-1][1]
    look = lambda v, *cs, **null: under(unver(default(unver(v), **null)), *some, *cs)
    alive = [vcmp('<', N(0), x0), bnot(vcmp('==', vfn('abs', x0), N(0)))]
    kept = look(a.val); r.ob(same(kept, x0), 'restored', a, 'after the evaluation the parameter is %s' % show(kept), sample='put back')
    pcs = look(after[-1][1].pc); ok_after = default(unver(pcs))
    r.ob(look(b.pc) is not FALSE, 'moved', b, 'never moved')
    pos = [vcmp('==', LD('QU', scale(k, Fraction(4))), N(0))]; lim = [bnot(pos[0])]
    ul = LD('UL', scale(k, Fraction(8)))
    for nm, null, cs in (('default', {}, [bnot(vcmp('==', vfn('abs', x0), N(0)))]), ('parameter zero', {}, [vcmp('==', vfn('abs', x0), N(0))]), ('no table of limits', {'UL': True, 'QU': True}, [bnot(vcmp('==', vfn('abs', x0), N(0)))])):
        v = look(b.val, *cs, **null); free = under(v, *pos); h = vadd(free, vmul(N(-1), x0)); c.count('steps')
        if nm == 'parameter zero': h = tmap(lm(h), lambda z: N(0) if z is the_atom(x0) or z is the_atom(vfn('abs', x0)) else None)
        ls = [z for z in leaves(h) if isinstance(z, Poly)]
        good = all((not is_num(z)) or numval(z) > 0 for z in ls) and len(ls) >= 1 and not any(repr_has(z, 'WA', 'FVEC') for z in ls)
        r.ob(good and not any(is_num(z) and numval(z) == 0 for z in ls), 'step', b, '%s: the step is %s' % (nm, show(h)), sample=(nm, 'nonzero step'))
        if nm == 'parameter zero': continue
        up = all(all(kk > 0 for mm, kk in z.terms) for z in ls); r.ob(up, 'step', b, '%s: the step of a parameter without limits is %s' % (nm, show(h)), sample=(nm, 'upward'))
        if null: r.ob(same(under(v, *lim), free), 'limit', b, 'without limits the step depends on them'); continue
        near = vcmp('<', vadd(ul, vmul(N(-1), h)), x0)
        def decide(w, yes):
            """every test of the limit left in w is the test for being nearer to it than the step"""
            return under(w, near if yes else bnot(near), *([vcmp('<', N(0), vadd(x0, vmul(N(-1), vadd(ul, vmul(N(-1), h)))))] if yes else [bnot(vcmp('<', N(0), vadd(x0, vmul(N(-1), vadd(ul, vmul(N(-1), h))))))]))
        w = under(v, *lim); g = decide(w, True); g2 = decide(w, False)
        r.ob(same(g, vadd(x0, vmul(N(-1), h))), 'limit', b, 'within a step of its upper limit the parameter is moved to %s' % show(g), sample='downward near the upper limit')
        r.ob(same(g2, free), 'limit', b, 'away from its upper limit the parameter is moved to %s' % show(g2), sample='upward elsewhere')
    # the derivative itself
    jl = [z for z in jac if len(z[1].loops) == 2 and z[1].loops[0][0] == ev.loops[0][0]]
    if not r.ob(len(jl) == 1 and len(jac) == 1, 'derivative', None, 'derivatives are stored in %d places' % len(jac)): return
    n, e, l = jl[0]; i = ctr(e); off = look(lm(l.off)); want = scale_v(vadd(vmul(S('M'), leaf(k)), leaf(i)), 8); ptr = look_ptr(e.ptr, look)
    r.ob(n > n0 and all(same(look(lm(q.off)), want) for q in ptr), 'place', e, 'the derivative is stored at %s' % ', '.join(show(look(lm(q.off))) for q in ptr), sample='column of the free parameter')
    tr = look(lm(e.loops[1][1])); r.ob(same(tr, S('M')), 'points', e, 'the derivative is given for %s points' % show(tr), sample='all data points')
    wa, fv = [LD(o, scale(i, Fraction(8))) for o in ('WA', 'FVEC')]
    for nm, cs in (('limit not near', [bnot(vcmp('==', vfn('abs', x0), N(0)))] + pos), ('near the limit', [bnot(vcmp('==', vfn('abs', x0), N(0)))] + lim), ('parameter zero', [vcmp('==', vfn('abs', x0), N(0))] + pos)):
        inn = [vcmp('<', leaf(i), S('M'))]; h = vadd(look(b.val, *cs, *inn), vmul(N(-1), x0)); d = look(e.val, *cs, *inn); c.count('derivatives')
        g = under(vmul(d, h), *cs); r.ob(close(g, vadd(wa, vmul(N(-1), fv))), 'derivative', e, '%s: derivative times step is %s' % (nm, show(g)), sample=(nm, '(f(x+h)-f(x))/h'))
    left = band(look(e.pc, vcmp('<', leaf(i), S('M'))), bnot(look(a.pc))); r.ob(left is FALSE, 'restored', a, 'the parameter is not put back when %s' % show(left), sample='always put back')
    r.ob(look(e.pc, vcmp('<', leaf(i), S('M'))) is not FALSE, 'derivative', e, 'never stored')
    # the number of evaluations
    nf = [(n, z) for n, z in enumerate(t.events) if z.kind == 'store' and z.loops and live(z) and any(q.obj == 'NFEV' for q in ptrs(z))]
    r.ob(len(nf) == 1 and z_in(nf[0][1], ev), 'counted', nf[0][1] if nf else ev, 'an evaluation is not counted once', sample='evaluations counted')
def z_in(a, b): return [q[0] for q in a.loops] == [q[0] for q in b.loops]
def repr_has(z, *names): return any(n in repr(z) for n in names)
def look_ptr(p, look): return [l for l in leaves(look_any(p, look)) if isinstance(l, Ptr)]
def look_any(p, look):
    try: return look(p)
    except Exception: return lm(p)
def scale_v(v, n): return vmul(N(n), v)
def close(a, b):
    """equal up to the rounding of constants"""
    if same(a, b): return True
    la = [z for z in leaves(lm(a)) if isinstance(z, Poly)]; lb = poly(b)
    if not la or lb is None: return False
    wb = dict(lb.terms)
    for z in la:
        wz = dict(z.terms)
        if {m for m, q in wz.items()} != set(wb) or any(abs(float(wz[m]) - float(wb[m])) > 1e-6 * abs(float(wb[m])) for m in wb): return False
    return True
def S07():
    c = Check('S07', 'Value numbering of mp_fdjac2: one round of the loop over free parameters with one data point as symbols.')
    derivatives(c)
    c.floor('evaluations', 1); c.floor('derivatives', 3)
    return c.finish()
TABLE = {'S07': S07}

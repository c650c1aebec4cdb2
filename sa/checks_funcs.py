"""F-checks: the image functions (light-distribution kernels), decided from their gated value-numbering terms."""
import os, sys, re, multiprocessing as mp, traceback
from fractions import Fraction
from . import build, gsa, ir, funcs, cas
from .build import dm, AnalysisError
from .cas import *
from .gsa import Machine, Mem
from .report import Check, loc
from .fspec import SPEC
D2R = funcs.D2R

# ------------------------------------------------------------------ driver
class Rec:
    """what one worker reports back"""
    def __init__(s): s.ev = []
    def count(s, w, n=1): s.ev.append(('count', w, n))
    def unit(s, u): s.ev.append(('unit', u))
    def assume(s, a): s.ev.append(('assume', a))
    def obligation(s, ok, key, where, msg, sample=None): s.ev.append(('ob', bool(ok), key, where, msg, sample)); return ok

PROG = None
def _work(a):
    f, cls = a
    sys.setrecursionlimit(100000)
    r = Rec()
    try:
        fm = funcs.FuncModel(PROG, cls)
        f(r, fm)
    except AnalysisError as e: r.ev.append(('err', '%s: %s' % (cls, e)))
    except RecursionError: r.ev.append(('err', '%s: recursion limit' % cls))
    except Exception as e: r.ev.append(('err', '%s: %s' % (cls, traceback.format_exc(limit=-4))))
    return r.ev

HEAVY = ['FerrersBar2D', 'GenSersic', 'GenExponential', 'GaussianRingAz', 'FlatBar', 'PeanutDattathri', 'CoreSersic', 'Sersic']
def run_classes(chk, f, classes=None):
    global PROG
    import threading
    PROG = funcs.load_program()
    reg = funcs.registered(PROG)
    for s, e in PROG.failed.items():
        # a function source that does not compile is not part of the program unless a registered class lives in it
        chk.notes.append('not compilable, not analysed: ' + s)
    cl = sorted(reg, key=lambda c: (HEAVY.index(c) if c in HEAVY else 99, c))
    if classes: cl = [c for c in cl if c in classes]
    threading.stack_size(512 * 1024 * 1024)
    with mp.get_context('fork').Pool(8, maxtasksperchild=4, initializer=_bigstack) as pool:
        res = pool.map(_work, [(f, c) for c in cl], chunksize=1)
    errs = []
    for ev in res:
        for e in ev:
            if e[0] == 'count': chk.count(e[1], e[2])
            elif e[0] == 'unit': chk.unit(e[1])
            elif e[0] == 'assume':
                if e[1] not in chk.assume: chk.assume.append(e[1])
            elif e[0] == 'err': errs.append(e[1])
            else: chk.obligation(*e[1:])
    chk.count('registered classes', len(cl))
    if errs and not chk.viol: raise AnalysisError(' | '.join(errs)[:3000])
    return reg

def _bigstack():
    import resource
    try: resource.setrlimit(resource.RLIMIT_STACK, (2**30, resource.getrlimit(resource.RLIMIT_STACK)[1]))
    except Exception: pass

def spec_for(fm):
    sp = SPEC.get(fm.short)
    if sp is None: raise AnalysisError('registered function %s (class %s) is not in the interface table' % (fm.short, fm.cls))
    return sp

def where(fm, meth='GetValue'):
    f = fm.slot(meth)
    return loc(f) if f is not None else fm.cls

def units_of(r, m):
    for u in getattr(m, 'analysed', ()): r.unit(u if isinstance(u, str) else getattr(u, 'name', str(u)))

def mem_with(fm, m, **fields):
    mem = fm.initial(m)
    for k, v in fields.items():
        if k in fm.off: mem.d[('this', fm.off[k])] = v
    return mem

def pnames(fm):
    """symbol per parameter, in interface order"""
    return [S('p%d.%s' % (i, l)) for i, (l, k) in enumerate(spec_for(fm))]

SUB = 'doSubsampling'
def require_fields(fm):
    for f in (SUB, 'pixelScaling', 'intensityScale', 'imageRotation'):
        if f not in fm.off: raise AnalysisError('class %s has no field %s' % (fm.cls, f))

def field_state(fm, m, params, xc, yc, **init):
    mem = mem_with(fm, m, **init)
    return fm.setup(m, params, xc, yc, mem)

# ------------------------------------------------------------------ F01 amplitude linearity
def f01(r, fm):
    require_fields(fm)
    sp = spec_for(fm)
    amp = {'p%d.%s' % (i, l): 1 for i, (l, k) in enumerate(sp) if k in ('amp', 'grad')}
    m = fm.machine()
    mem = field_state(fm, m, pnames(fm), S('xc'), S('yc'))
    r.unit(where(fm, 'Setup')); r.unit(where(fm))
    ok, why = False, ''
    # 1. compositional: degree of every field Setup stores, then GetValue over opaque fields
    try:
        fdeg = {}
        memo = {}
        for (o, off), v in mem.d.items():
            if o == 'this' and off in fm.names:
                d = degree(v, amp, memo)
                if d: fdeg['this.' + fm.names[off]] = d
        m2 = fm.machine()
        v, _ = fm.value(m2, fm.initial(m2), S('x'), S('y'))
        d = degree(v, fdeg, {})
        ok = d == 1
        why = 'degree %s' % d
        how = 'fields %s' % {k: str(x) for k, x in fdeg.items()}
    except NotHomogeneous as e: why = str(e)
    if not ok:
        # 2. on the composed term
        v, _ = fm.value(m, mem, S('x'), S('y'))
        try:
            d = degree(v, amp, {}); ok = d == 1; why = 'degree %s' % d; how = 'composed term'
        except NotHomogeneous as e: why = str(e)
    r.count('amplitude parameters', len(amp))
    r.obligation(ok, 'amplitude:' + fm.cls, where(fm),
        '%s: pixel value is not homogeneous of degree 1 in %s: %s' % (fm.short, ', '.join(l for l, k in sp if k in ('amp', 'grad')), why),
        sample='%s::GetValue degree 1 in %s (%s)' % (fm.cls, sorted(amp), how) if ok else None)

def F01():
    c = Check('F01', 'Homogeneity-degree inference (abstract interpretation over the degree domain) on the gated value-numbering term of '
              'every registered image function: Setup gives each object field a degree in the amplitude parameters, GetValue must infer to degree exactly 1 on every '
              'branch, including the sub-pixel and integration branches; conditions must be degree-consistent.')
    run_classes(c, f01)
    c.floor('registered classes', 26); c.floor('amplitude parameters', 28)
    return c.finish()

# ------------------------------------------------------------------ F02 translation / rotation
NO_PA = ('FlatSky', 'TiltedSkyPlane', 'PointSource')
def rotated(fm, ps):
    sp = spec_for(fm)
    pa = [ps[i] for i, (l, k) in enumerate(sp) if k == 'pa']
    if not pa: return vadd(S('xc'), S('u')), vadd(S('yc'), S('v'))
    a = vadd(vmul(N(D2R), vsub(pa[0], S('this.imageRotation'))), N(math.pi / 2))
    c_, s_ = vfn('cos', a), vfn('sin', a)
    return vadd(S('xc'), vsub(vmul(S('u'), c_), vmul(S('v'), s_))), vadd(S('yc'), vadd(vmul(S('u'), s_), vmul(S('v'), c_)))

def f02(r, fm):
    require_fields(fm)
    sp = spec_for(fm)
    ps = pnames(fm)
    m = fm.machine()
    x, y = rotated(fm, ps)
    pa = [i for i, (l, k) in enumerate(sp) if k == 'pa']
    bad = {'xc', 'yc'} | ({'p%d.%s' % (i, sp[i][0]) for i in pa} | {'this.imageRotation'} if pa else set())
    set_atan(x, y, pa, ps)
    mem = field_state(fm, m, ps, S('xc'), S('yc'), **{SUB: N(0)})
    v, _ = fm.value(m, mem, x, y)
    ATAN2.clear()
    left = sorted(set(syms(v)) & bad)
    if aperiodic_use(v): left.append('an azimuth used non-periodically')
    ok = not left
    r.unit(where(fm)); r.count('kernels')
    r.obligation(ok, 'frame:' + fm.cls, where(fm), '%s: the un-subsampled pixel value, written in coordinates (u,v) relative to the centre and major axis, still depends on %s' % (fm.short, ', '.join(left)),
        sample='%s: value depends only on %s' % (fm.cls, sorted(set(syms(v)))[:12]))
    # conditions/sample counts of the subsampled evaluation
    m = fm.machine()
    set_atan(x, y, pa, ps)
    mem = field_state(fm, m, ps, S('xc'), S('yc'), **{SUB: N(1)})
    try: v, _ = fm.value(m, mem, x, y)
    finally: ATAN2.clear()
    outer = [a for a in bvars(v) if set(syms(a)) & bad]
    r.count('subsampling decisions', len(bvars(v)))
    r.obligation(not outer, 'frame-subsampling:' + fm.cls, where(fm), '%s: the choice of sub-pixel grid depends on %s other than through position relative to the component' % (fm.short, sorted(set().union(*[syms(a) for a in outer]) & bad) if outer else ''))
    lv = set()
    for l in leaves(v):
        if isinstance(l, Poly):
            for cnt in outer_counts(l): lv |= set(syms(cnt)) & bad
    r.obligation(not lv, 'frame-count:' + fm.cls, where(fm), '%s: the number of sub-pixels depends on %s' % (fm.short, sorted(lv)))

def set_atan(x, y, pa, ps):
    """arctan2 of the rotated coordinates is the azimuth in the component frame plus the frame angle, modulo 2 pi: sound for
    azimuths used only through sin/cos, which periodic_use() insists on"""
    if not pa: return
    a = vadd(vmul(N(D2R), vsub(ps[pa[0]], S('this.imageRotation'))), N(math.pi / 2))
    dx, dy = vsub(x, S('xc')), vsub(y, S('yc'))
    ATAN2[(dy.v.id, dx.v.id)] = add(patom(atom('fn', 'atan2', psym('v'), psym('u'))), a.v)

def aperiodic_use(x, seen=None):
    """atan2 of the frame coordinates used other than as sin/cos of an integer multiple"""
    seen = set() if seen is None else seen
    k = (type(x).__name__, x.id)
    if k in seen: return False
    seen.add(k)
    if isinstance(x, Leaf): return isinstance(x.v, Poly) and aperiodic_use(x.v, seen)
    if isinstance(x, Node): return aperiodic_use(x.var, seen) or aperiodic_use(x.hi, seen) or aperiodic_use(x.lo, seen)
    if isinstance(x, Poly):
        return any(aperiodic_use(a, seen) or (isinstance(e, Poly) and aperiodic_use(e, seen)) for mo, c in x.terms for a, e in mo)
    if x.kind == 'fn' and x.args[0] == 'atan2': return True
    if x.kind == 'fn' and x.args[0] in ('sin', 'cos'):
        for mo, c in x.args[1].terms:
            if len(mo) == 1 and mo[0][0].kind == 'fn' and mo[0][0].args[0] == 'atan2' and mo[0][1] == 1 and abs(float(c) - round(float(c))) < 1e-12: continue
            for a, e in mo:
                if aperiodic_use(a, seen): return True
        return False
    return any(aperiodic_use(a, seen) for a in x.args if isinstance(a, (Poly, Atom, Node, Leaf)))

def outer_counts(p, out=None):
    out = [] if out is None else out
    for mo, c in p.terms:
        for a, e in mo:
            if a.kind == 'sum': out.append(a.args[2])
    return out

def F02():
    c = Check('F02', 'Frame-independence by normal-form dependence: each kernel term is rewritten with x=xc+u*cos a-v*sin a, y=yc+u*sin a+v*cos a (a = position angle + 90 deg - image rotation); '
              'the symbols of centre, position angle and image rotation must cancel out of the value and out of every sub-pixel decision.')
    run_classes(c, f02)
    c.floor('kernels', 26)
    return c.finish()

# ------------------------------------------------------------------ F03 sub-pixel grid
def mean_over_grid(D, n, order):
    """(1/n^2) sum_i sum_j D(x+(i+1/2)/n-1/2, y+(j+1/2)/n-1/2)"""
    nv = leaf(n)
    i, j = fresh('$i'), fresh('$j')
    h = N(Fraction(1, 2))
    env = {'x': vsub(vadd(S('x'), vdiv(vadd(S(i), h), nv)), h), 'y': vsub(vadd(S('y'), vdiv(vadd(S(j), h), nv)), h)}
    b = subst(D, env, {})
    a, o = (i, j) if order == 0 else (j, i)
    b = bind('sum', a, b, nv)
    b = bind('sum', o, b, nv)
    return vdiv(b, vmul(nv, nv))

def f03(r, fm):
    require_fields(fm)
    w = where(fm); r.unit(w)
    def attempt(full):
        m = fm.machine()
        def st(flag):
            if full: return field_state(fm, m, pnames(fm), S('xc'), S('yc'), **{SUB: N(flag)})
            # fields keep opaque names: GetValue alone
            return mem_with(fm, m, **{SUB: N(flag)})
        D, _ = fm.value(m, st(0), S('x'), S('y'))
        V, _ = fm.value(m, st(1), S('x'), S('y'))
        bad = []
        nsum = 0
        if any(a.kind == 'sum' for l in leaves(D) if isinstance(l, Poly) for a in atoms_of(l)):
            # with subsampling switched off the value must be the kernel at the pixel centre, not a grid mean
            if not native_sum(fm, D): bad.append('sub-pixel sums appear although sub-pixel sampling is off')
        seen = set(); okleaf = set()
        def go(v, d, b):
            nonlocal nsum
            k = (v.id, d.id, b.key())
            if k in seen: return
            seen.add(k)
            if isinstance(v, Node):
                for val, nx in ((True, v.hi), (False, v.lo)):
                    b2 = b.add(v.var, val)
                    if b2 is not None: go(nx, restrict(d, v.var, val), b2)
                return
            if v is BOT: return
            counts = outer_counts(v.v) if isinstance(v.v, Poly) else []
            if not counts:
                if not equal_under(v, d): bad.append('a branch without sub-pixel sampling does not return the kernel value at the pixel centre: %s vs %s' % (brief(v, 150), brief(d, 150)))
                return
            if v.id in okleaf: return
            okleaf.add(v.id)
            n = counts[0]
            nsum += 1
            D0 = D          # the kernel's own conditions are evaluated at each sample, not at the pixel centre
            for o in (0, 1):
                e = mean_over_grid(D0, n, o)
                if e is v: return
            for o in (0, 1):
                e = mean_over_grid(D0, n, o)
                if equal(v, e): return
            bad.append('on the branch using an n x n grid with n = %s the value is not (1/n^2) * sum over the centres of the n x n sub-pixels' % brief(leaf(n), 120))
        go(V, D, Bounds())
        return bad, nsum, len(leaves(V))
    bad, nsum, nl = attempt(False)
    if bad: bad, nsum, nl = attempt(True)
    r.count('sub-pixel branches', nsum); r.count('branches', nl)
    r.obligation(not bad, 'grid:' + fm.cls, w, '%s: %s' % (fm.short, '; '.join(bad[:2])), sample='%s: %d sub-pixel branch(es) equal the mean of the kernel over sub-pixel centres' % (fm.cls, nsum))

def native_sum(fm, D): return False
def atoms_of(p):
    for mo, c in p.terms:
        for a, e in mo: yield a
def equal_under(v, d):
    if v is d: return True
    return equal(v, d)

def F03():
    c = Check('F03', 'Equality of normal forms: for every registered function, each branch of the value with sub-pixel sampling on is either the kernel at the pixel centre or '
              'equal to (1/n^2) sum_{i,j<n} kernel(x+(i+1/2)/n-1/2, y+(j+1/2)/n-1/2), where the kernel is the same function with sampling off and n is the trip count found for the loops.')
    run_classes(c, f03)
    c.floor('registered classes', 26); c.floor('sub-pixel branches', 40)
    return c.finish()

# ------------------------------------------------------------------ F04 per-image conversion
def converted(fm, ps, skip=()):
    sp = spec_for(fm)
    sc, f, th = S('this.pixelScaling'), S('this.intensityScale'), S('this.imageRotation')
    out = []
    grads = [i for i, (l, k) in enumerate(sp) if k == 'grad']
    tr = vmul(th, N(D2R))
    for i, (l, k) in enumerate(sp):
        p = ps[i]
        if i in skip: out.append(p)
        elif k == 'pa': out.append(vsub(p, th))
        elif k == 'len': out.append(vmul(p, sc))
        elif k == 'invlen': out.append(vdiv(p, sc))
        elif k == 'amp': out.append(vmul(p, f))
        elif k == 'grad':
            gx, gy = ps[grads[0]], ps[grads[1]]
            c_, s_ = vfn('cos', tr), vfn('sin', tr)
            v = vadd(vmul(gx, c_), vmul(gy, s_)) if i == grads[0] else vsub(vmul(gy, c_), vmul(gx, s_))
            out.append(vdiv(vmul(f, v), sc))
        else: out.append(p)
    return out

IMG = ('pixelScaling', 'intensityScale', 'imageRotation')
def f04(r, fm):
    require_fields(fm)
    sp = spec_for(fm); ps = pnames(fm)
    r.unit(where(fm, 'Setup')); r.unit(where(fm, 'AdjustParametersForImage'))
    one = dict(pixelScaling=N(1), intensityScale=N(1), imageRotation=N(0))
    def same(skip, flags=(0, 1)):
        cv = converted(fm, ps, skip)
        m = fm.machine()
        A = field_state(fm, m, ps, S('xc'), S('yc'))
        B = field_state(fm, m, cv, S('xc'), S('yc'), **one)
        diff = [fm.names[o] for (ob, o) in set(A.d) | set(B.d) if ob == 'this' and o in fm.names and fm.names[o] not in IMG and A.d.get((ob, o)) is not B.d.get((ob, o))]
        m2 = fm.machine()
        v, _ = fm.value(m2, fm.initial(m2), S('x'), S('y'))
        direct = set(syms(v)) & {'this.' + i for i in IMG}
        if not direct and not (set(syms(v)) & {'this.' + d for d in diff}): return True, 'fields'
        for flag in flags:
            m = fm.machine()
            a, _ = fm.value(m, field_state(fm, m, ps, S('xc'), S('yc'), **{SUB: N(flag)}), S('x'), S('y'))
            b, _ = fm.value(m, field_state(fm, m, cv, S('xc'), S('yc'), **dict(one, **{SUB: N(flag)})), S('x'), S('y'))
            if not equal(a, b): return False, 'value'
        return True, 'value'
    ok, how = same(())
    names = ''
    if not ok:
        import itertools
        idx = [i for i, (l, k) in enumerate(sp) if k in ('pa', 'len', 'invlen', 'amp', 'grad')]
        for n in ((1, 2) if len(idx) < 5 else (1,)):
            for c in itertools.combinations(idx, n):
                if same(c, (0,))[0]: names = ','.join(sp[i][0] for i in c); break
            if names: break
    r.count('conversions', len(sp))
    r.obligation(ok, 'convert:%s:%s' % (fm.cls, names), where(fm, 'Setup'), '%s: pixel values for an image with its own pixel scale, flux scale and rotation are not those of the converted parameters%s' %
                 (fm.short, ' (%s is left unconverted)' % names if names else ''), sample='%s: Setup/GetValue use converted parameters (%s)' % (fm.cls, how))
    # reported per-image parameter values
    m = fm.machine(); mem = fm.initial(m)
    for i, p in enumerate(ps): mem.d[('params', 8 * (i + 3))] = p
    f = fm.slot('AdjustParametersForImage')
    if f is None: raise AnalysisError('%s::AdjustParametersForImage missing' % fm.cls)
    _, mem, _ = m.call(f, [leaf(Ptr('this', ZERO)), leaf(Ptr('params', ZERO)), leaf(Ptr('out', ZERO)), N(3)], mem)
    cv = converted(fm, ps)
    for i, (l, k) in enumerate(sp):
        got = mem.d.get(('out', 8 * (i + 3)))
        r.obligation(got is not None and equal(got, cv[i]), 'adjust:%s:%s' % (fm.cls, l), where(fm, 'AdjustParametersForImage'),
                     '%s: converted value of %s (%s) is %s' % (fm.short, l, k, 'never written' if got is None else brief(got, 200)))
    extra = [o for (ob, o) in mem.d if ob == 'out' and not (24 <= o < 24 + 8 * len(sp))]
    r.obligation(not extra and 'out' not in mem.clob, 'adjust-extra:' + fm.cls, where(fm, 'AdjustParametersForImage'), '%s: writes outside its own parameters (byte offsets %s)' % (fm.short, extra))
    # the interface that sets the three image quantities
    m = fm.machine(); mem = fm.initial(m)
    f = fm.slot('SetImageParameters') or PROG.find('FunctionObject', 'SetImageParameters')
    if f is None: raise AnalysisError('SetImageParameters not found')
    _, mem, _ = m.call(f, [leaf(Ptr('this', ZERO)), S('pixScale'), S('rot'), S('flux')], mem)
    want = dict(pixelScaling=vdiv(N(1), S('pixScale')), imageRotation=S('rot'), intensityScale=S('flux'))
    for k, v in want.items():
        r.obligation(mem.d.get(('this', fm.off[k])) is v, 'image-parameters:%s:%s' % (fm.cls, k), loc(f), '%s: SetImageParameters stores %s as %s' % (fm.short, k, mem.d.get(('this', fm.off[k]))))

def F04():
    c = Check('F04', 'For every registered function: the fields/value computed by Setup+GetValue for parameters p with image scale s, flux scale f and rotation t are equal normal forms to those '
              'computed for conv(p) with s=1,f=1,t=0, where conv subtracts t from position angles, multiplies lengths by s, divides inverse lengths by s, multiplies brightnesses by f; '
              'AdjustParametersForImage writes exactly conv(p), each entry once, in its own slice; SetImageParameters stores 1/pixelScale, rotation, fluxScale.')
    run_classes(c, f04)
    c.floor('registered classes', 26); c.floor('conversions', 130)
    return c.finish()


# ------------------------------------------------------------------ F05 parameter interface
def f05(r, fm):
    require_fields(fm)
    sp = SPEC.get(fm.short)
    r.unit(loc(fm.ctor)); r.unit(where(fm, 'Setup'))
    if not r.obligation(sp is not None, 'registered:' + fm.cls, loc(fm.ctor), 'class %s is registered under the name %r, which is not a documented function' % (fm.cls, fm.short)): return
    n = fm.nparams()
    r.obligation(n == len(sp), 'count:' + fm.cls, loc(fm.ctor), '%s: number of parameters is %s, documented %d' % (fm.short, n, len(sp)), sample='%s takes %d parameters' % (fm.short, len(sp)))
    want = [l for l, k in sp]
    r.obligation(fm.labels is not None and fm.labels[:len(sp)] == want and len(fm.labels) == len(sp), 'labels:' + fm.cls, loc(fm.ctor), '%s: parameter names are %s, documented %s' % (fm.short, fm.labels, want),
                 sample='%s: %s' % (fm.short, ', '.join(want)))
    # Setup: each field as a function of the parameter slice, for two different offsets
    ps = pnames(fm)
    res = []
    for off in (0, 5):
        m = fm.machine(); mem = fm.initial(m)
        for i in range(-3, len(sp) + 4):
            if not 0 <= i < len(sp) and off + i >= 0: mem.d[('params', 8 * (off + i))] = S('foreign%+d' % i)
        for i, p in enumerate(ps): mem.d[('params', 8 * (off + i))] = p
        f = fm.slot('Setup')
        _, mem, _ = m.call(f, [leaf(Ptr('this', ZERO)), leaf(Ptr('params', ZERO)), N(off), S('xc'), S('yc')], mem)
        res.append(mem)
    A, B = res
    foreign = set(); mism = []
    for (ob, o), v in A.d.items():
        if ob != 'this': continue
        w = B.d.get((ob, o))
        fl = {q for x in (v, w) if x is not None for q in syms(x) if q.startswith('foreign')} | {q for x in (v, w) if x is not None for q in loads_of(x, 'params')}
        if fl: foreign |= {'%s in %s' % (q, fm.names.get(o)) for q in fl}
        if v is not w and not (w is not None and equal(v, w)): mism.append(fm.names.get(o, '+%d' % o))
    r.obligation(not foreign, 'slice:' + fm.cls, where(fm, 'Setup'), '%s::Setup reads parameters that are not its own: %s' % (fm.cls, sorted(foreign)))
    r.obligation(not mism, 'offset:' + fm.cls, where(fm, 'Setup'), '%s::Setup does not honour the parameter offset for field(s) %s' % (fm.cls, sorted(mism)))
    wr = [o for (ob, o), v in A.d.items() if ob == 'params' and 0 <= o < 8 * len(sp) and v is not ps[o // 8]]
    r.obligation(not wr and 'params' not in A.clob, 'input:' + fm.cls, where(fm, 'Setup'), '%s::Setup modifies the parameter vector' % fm.cls)
    # every declared parameter matters
    m = fm.machine()
    mem = field_state(fm, m, ps, S('xc'), S('yc'), **{SUB: N(0)})
    v, _ = fm.value(m, mem, S('x'), S('y'))
    used = set(syms(v))
    for i, (l, k) in enumerate(sp):
        r.count('parameters')
        r.obligation(('p%d.%s' % (i, l)) in used, 'used:%s:%s' % (fm.cls, l), where(fm, 'GetValue'), '%s: the pixel value does not depend on declared parameter %s' % (fm.short, l))
    stale = {q for q in used if q.startswith('this.')} - {'this.' + i for i in IMG} - {'this.' + x for x in CONFIG_FIELDS}
    r.obligation(not stale, 'stale:' + fm.cls, where(fm, 'GetValue'), '%s: the pixel value depends on object state that Setup does not set from the parameters: %s' % (fm.short, sorted(stale)))

# object state legitimately fixed before Setup: sampling switch, PSF interpolator and its grid scale
CONFIG_FIELDS = ('doSubsampling', 'psfInterpolator', 'oversamplingScale', 'workspace')

def loads_of(x, obj, seen=None):
    seen = set() if seen is None else seen
    out = set()
    k = (type(x).__name__, x.id)
    if k in seen: return out
    seen.add(k)
    if isinstance(x, Leaf):
        if isinstance(x.v, Poly): out |= loads_of(x.v, obj, seen)
    elif isinstance(x, Node):
        for q in (x.var, x.hi, x.lo): out |= loads_of(q, obj, seen)
    elif isinstance(x, Poly):
        for mo, c in x.terms:
            for a, e in mo:
                out |= loads_of(a, obj, seen)
                if isinstance(e, Poly): out |= loads_of(e, obj, seen)
    else:
        if x.kind == 'load' and x.args[0] == obj: out.add('params[%r]' % (x.args[1],))
        for q in x.args:
            if isinstance(q, (Poly, Atom, Node, Leaf)): out |= loads_of(q, obj, seen)
    return out

def registry_pairs(prog):
    """[(name class, factory class, where)]: which class's name each factory is stored under"""
    import re
    mod = prog.mods['core/add_functions.cpp']
    out = []
    for n, fn in mod.functions.items():
        if fn.lines is None: continue
        d = dm(n)
        if 'funcobj_factory<' in d and '::' in d.split('(')[0]: continue
        if not any('funcobj_factory' in ln for ln in fn.lines): continue
        fn.body()
        c = gsa.CFG(fn)
        made = {}; slots = []; names = []
        seq = []
        for b in c.rpo:
            for i in b.insts: seq.append(i)
        for k, i in enumerate(seq):
            if i.op in ('call', 'invoke'):
                cal = i.x.get('callee')
                cn = dm(cal.v) if cal is not None and cal.k == 'global' else ''
                m1 = re.search(r'(\w+)::GetClassShortName\(', cn)
                if m1: names.append((k, m1.group(1), i))
                m2 = re.match(r'funcobj_factory<(\w+)>::funcobj_factory', cn)
                if m2 and i.ops: made[i.ops[0].v] = m2.group(1)
            for o in ir.iter_operands(i):
                if o.k == 'global':
                    m3 = re.match(r'@_ZN\d+([A-Za-z_]\w*?)9classNameE$', o.v)
                    if m3: names.append((k, m3.group(1), i))
                    m4 = re.match(r'vtable for funcobj_factory<(\w+)>', dm(o.v))
                    if m4 and i.op == 'store': made[i.ops[1].v] = m4.group(1)
        for k, i in enumerate(seq):
            if i.op == 'store' and i.ops[0].k == 'local' and i.ops[0].v in made:
                prev = [x for x in names if x[0] < k]
                out.append((prev[-1][1] if prev else None, made[i.ops[0].v], loc(fn, i)))
    return out

def F05():
    c = Check('F05', 'Parameter interface of every registered function: registry key, parameter count and label table against the documented interface; value numbering of Setup with two different '
              'offsets proves it reads exactly its own slice [offset, offset+n) and writes no parameter; dependence of the GetValue term proves every declared parameter is used and no stale field is read.')
    reg = run_classes(c, f05)
    pairs = registry_pairs(PROG)
    for nm, cls, w in pairs:
        c.count('registry entries')
        c.obligation(nm == cls, 'registry:%s' % cls, w, 'the factory of class %s is registered under the name of class %s' % (cls, nm), sample='%s registered under its own name' % cls)
    got = set()
    for cls in reg:
        try: got.add(funcs.FuncModel(PROG, cls).short)
        except AnalysisError: pass
    for s in sorted(set(SPEC) - got): c.violation('missing:' + s, 'core/add_functions.cpp', 'documented function %s is not registered' % s)
    c.floor('registered classes', 26); c.floor('registry entries', 26); c.floor('parameters', 130)
    return c.finish()

# ------------------------------------------------------------------ F06 order- and thread-independence of pixel evaluation
from . import purity
def vslot_of(e):
    """byte offset of the vtable slot an unresolved call loads its target from, or None"""
    cal = e.inst.x['callee']
    v = e.args[-1] if e.args else None
    out = set()
    for q in leaves(v) if isinstance(v, (Leaf, Node)) else []:
        # target = *( *(object) + slot ): pointer loaded from a pointer loaded from the receiver
        if isinstance(q, Ptr) and isinstance(q.obj, tuple) and q.obj[0] == '*' and q.off is ZERO:
            o = q.obj[2]
            if isinstance(o, (int,)): out.add(o)
            elif isinstance(o, Poly) and is_num(o): out.add(int(numval(o)))
            else: return None
        else: return None
    return out.pop() if len(out) == 1 else None

def sig(e):
    a = e.inst.x['args']
    return tuple('f' if x.ty is not None and x.ty.k in ('double', 'float') else 'i' for x in a)

def fn_sig(f):
    return tuple('f' if t.k in ('double', 'float') else 'i' for n, t in f.params)

def hierarchy_targets(prog, classes, off, sg):
    """functions at vtable byte offset `off` of the given classes, when their signature matches the call"""
    out = []
    for c in classes:
        vt = prog.find_vtable(c)
        if not vt or off % 8 or 2 + off // 8 >= len(vt): continue
        n = vt[2 + off // 8]
        if not n or n == '@__cxa_pure_virtual': continue
        f = prog.defined(n)
        if f is None: return None
        if fn_sig(f) == sg: out.append((c, f))
    return out

def subclasses(prog, base):
    out = []
    for m in prog.mods.values():
        for g in m.globals:
            mm = re.match(r'@_ZTV(\d+)(\w+)$', g)
            if mm and len(mm.group(2)) == int(mm.group(1)) and m.ginit(g) and m.ginit(g)[2] is not None:
                c = mm.group(2)
                k = c; fl = None; seen = set()
                while k and k not in seen:
                    seen.add(k)
                    if k == base:
                        out.append((c)); break
                    fl = None
                    for m2 in prog.mods.values():
                        fl = m2.class_fields(k)
                        if fl: break
                    b = [x[0][6:] for x in (fl or []) if x[0] and x[0].startswith('<base>')]
                    k = b[0] if b else None
    return sorted(set(out))

def pure_call(r, prog, fn, key, what, mach, mem, args, wanted):
    m = mach; m.trace = True
    indirect = []
    def allow(m_, e):
        o = vslot_of(e)
        if o is None: return False
        indirect.append((o, sig(e))); return True
    m.call(fn, args, mem)
    bad = purity.effects(m, m.events, allow, prog)
    r.count('stores and calls examined', len(m.events))
    for n in set(m.analysed): r.unit(n)
    for n, k in [(n[0], n) for n in m.notes if n[0] in ('store-unknown', 'integrand-unresolved')]:
        bad.append((n, None, str(k)))
    msg = '; '.join('%s (%s)' % (t, loc(e.fn, e.inst) if e is not None else '') for k, e, t in bad[:3])
    w = loc(bad[0][1].fn, bad[0][1].inst) if bad and bad[0][1] is not None else loc(fn)
    r.obligation(not bad, key, w, '%s: %s' % (what, msg), sample='%s: %d stores/calls, none reaching shared state' % (what, len(m.events)))
    wanted |= set(indirect)

def f06(r, fm):
    require_fields(fm)
    wanted = set()
    psf = [c for c in subclasses(PROG, 'PsfInterpolator')]
    fos = [fm.cls]
    slots = [('GetValue', [S('x'), S('y')])]
    for meth, args in slots + [('IsPointSource', [])]:
        f = fm.slot(meth)
        if f is None:
            if meth == 'GetValue': raise AnalysisError('no GetValue')
            continue
        for flag in ((0, 1) if meth == 'GetValue' else (0,)):
            m = fm.machine()
            mem = mem_with(fm, m, **{SUB: N(flag)})
            pure_call(r, PROG, f, 'pure:%s:%s' % (fm.cls, meth), '%s: evaluating %s' % (fm.short, 'one pixel' if meth == 'GetValue' else meth), m, mem, [leaf(Ptr('this', ZERO))] + args, wanted)
        r.count('kernels')
    done = set()
    while wanted - done:
        o, sg = sorted(wanted - done)[0]; done.add((o, sg))
        tg = hierarchy_targets(PROG, psf, o, sg)
        if not tg: 
            r.obligation(False, 'indirect:' + fm.cls, where(fm), '%s: an indirect call (slot %d) in the pixel evaluation has no known target' % (fm.short, o)); continue
        for c, f in tg:
            mod = f.mod
            names = {'this': {off: 'this.' + v[0] for off, v in (mod.all_fields(c) or {}).items()}}
            m = Machine(PROG, names=names)
            pure_call(r, PROG, f, 'pure:%s:%s' % (c, dm(f.name).split('(')[0].split('::')[-1]), '%s' % c, m, Mem(), [leaf(Ptr('this', ZERO))] + [S('a%d' % i) for i in range(len(sg) - 1)], wanted)
            r.count('interpolators')

def regions(chk):
    """every OpenMP parallel region of the image-building code: writes to shared memory must be disjoint between iterations"""
    srcs = ['core/model_object.cpp', 'core/oversampled_region.cpp', 'core/convolver.cpp', 'core/downsample.cpp', 'core/model_object_multimage.cpp']
    import os
    srcs = [s for s in build.repo_sources(dirs=('core',)) if os.path.basename(s)]
    withomp = [s for s in srcs if any('omp' in ln and ln.lstrip().startswith('#') and 'pragma' in ln for ln in open(os.path.join(build.REPO, s), errors='replace'))]
    extra = [s for s in srcs if s in ('core/downsample.cpp', 'core/convolver.cpp')]
    mods, failed = build.compile_all(sorted(set(withomp + extra)), extra=('-fopenmp',), allow_fail=True)
    if failed: raise AnalysisError('cannot compile with OpenMP: %s' % failed)
    p2 = build.Program(mods)
    vs = set()
    for s, mod in sorted(mods.items()):
        for name, fn in mod.functions.items():
            if fn.lines is None or not re.search(r'\.omp_outlined(_debug__)?(\.\d+)?$', name): continue
            fn.body()
            inner = [i for i in fn.insts() if i.op in ('call', 'invoke') and i.x['callee'].k == 'global' and '.omp_outlined' in i.x['callee'].v]
            if inner: continue          # the thin wrapper around the debug body
            one_region(chk, p2, mod, fn, vs)
    return p2, vs

def one_region(chk, prog, mod, fn, vs):
    m = Machine(prog, names={}); m.trace = True
    args = [leaf(Ptr(('cap', i, n), ZERO)) if t.k == 'ptr' else S('cap.%s' % n) for i, (n, t) in enumerate(fn.params)]
    m.call(fn, args, Mem())
    chk.count('parallel regions'); chk.unit(loc(fn)); chk.count('stores and calls examined', len(m.events))
    base = dm(fn.name.split('.omp_outlined')[0])
    name = base.split('(')[0]
    bad = []
    nst = 0
    written = {}
    for e in m.events:
        if e.pc is FALSE: continue
        if e.kind == 'call':
            if e.name is None:
                o = vslot_of(e)
                if o is None: bad.append((e, 'calls through an unresolved pointer'))
                else: vs.add((o, sig(e)))
                continue
            n = e.name
            if n.startswith(('@llvm.lifetime', '@llvm.dbg', '@__kmpc_', '@llvm.assume', '@llvm.experimental')) or gsa.pure_name(n) or n in ('@fmax', '@fmin', '@omp_get_thread_num'): continue
            f = prog.defined(n)
            if f is not None and not gsa.skip_std(n): continue
            if n.startswith('@llvm.mem'):
                if all(isinstance(q, Ptr) and purity.fresh_obj(q.obj) for q in leaves(e.args[0])): continue
            if n in purity.EXT_WRITES and not purity.EXT_WRITES[n]: continue
            if re.search(r'std::__throw|clang_call_terminate|_Unwind|std::terminate', dm(n)): continue
            ptrs = [q for a in e.args for q in leaves(a) if isinstance(q, Ptr)]
            if purity.harmless(dm(n)): continue
            if ptrs and all(purity.fresh_obj(q.obj) or purity.const_obj(q.obj, prog) for q in ptrs): continue
            bad.append((e, 'calls %s inside the parallel region' % dm(n)))
            continue
        for q in leaves(e.ptr):
            if not isinstance(q, Ptr): bad.append((e, 'writes to an unknown location')); continue
            if purity.fresh_obj(q.obj): continue
            nst += 1
            if any('__kmpc_reduce' in s for s in callsyms(e.pc)): continue       # combined under the runtime's reduction protocol
            why = disjoint(e, q)
            if why: bad.append((e, why))
            else: written.setdefault(q.obj, set()).add(q.off)
    # reads of what other iterations write
    for e in m.events:
        if e.kind != 'store' or e.val is None or e.pc is FALSE: continue
        for obj, off in load_atoms(e.val):
            if obj in written and off not in written[obj]: bad.append((e, 'reads an element that another iteration writes'))
    chk.count('shared writes', nst)
    chk.obligation(not bad, 'region:%s' % name, loc(bad[0][0].fn, bad[0][0].inst) if bad else loc(fn), 'parallel loop in %s: %s' % (name, '; '.join(t for e, t in bad[:3])),
                   sample='%s: %d shared write(s), each to an element owned by one iteration' % (name, nst))

def callsyms(x, seen=None):
    seen = set() if seen is None else seen
    k = (type(x).__name__, x.id)
    if k in seen: return set()
    seen.add(k)
    out = set()
    if isinstance(x, Leaf): return callsyms(x.v, seen) if isinstance(x.v, Poly) else out
    if isinstance(x, Node):
        for q in (x.var, x.hi, x.lo): out |= callsyms(q, seen)
    elif isinstance(x, Poly):
        for mo, c in x.terms:
            for a, e in mo: out |= callsyms(a, seen)
    else:
        if x.kind == 'fn' and str(x.args[0]).startswith('call:'): out.add(x.args[0])
        for q in x.args:
            if isinstance(q, (Poly, Atom, Node, Leaf)): out |= callsyms(q, seen)
    return out

def load_atoms(x, seen=None):
    seen = set() if seen is None else seen
    k = (type(x).__name__, x.id)
    if k in seen: return []
    seen.add(k)
    out = []
    if isinstance(x, Leaf): return load_atoms(x.v, seen) if isinstance(x.v, Poly) else out
    if isinstance(x, Node):
        for q in (x.var, x.hi, x.lo): out += load_atoms(q, seen)
    elif isinstance(x, Poly):
        for mo, c in x.terms:
            for a, e in mo: out += load_atoms(a, seen)
    else:
        if x.kind == 'load' and not (len(x.args) > 2 and x.args[2] == 'addr'): out.append((x.args[0], x.args[1]))
        for q in x.args:
            if isinstance(q, (Poly, Atom, Node, Leaf)): out += load_atoms(q, seen)
    return out

def coeff(p, name):
    """(coefficient, rest) of a symbol that occurs linearly, else None"""
    co, rest = ZERO, ZERO
    for mo, c in p.terms:
        hit = [(a, e) for a, e in mo if name in syms(a) or (isinstance(e, Poly) and name in syms(e))]
        if not hit: rest = add(rest, mk({mono_key(mo): (mo, c)}))
        elif len(hit) == 1 and hit[0][0].kind == 'sym' and hit[0][1] == 1:
            m2 = tuple(x for x in mo if x is not hit[0] and x[0] is not hit[0][0])
            co = add(co, mk({mono_key(m2): (m2, c)}))
        else: return None
    return co, rest

def disjoint(e, q):
    """None when different iterations of the worksharing loop write different elements"""
    if not isinstance(q.obj, tuple) or q.obj[0] != '*':
        return 'all threads write %s' % ('a shared variable' if isinstance(q.obj, tuple) and q.obj[0] == 'cap' else 'the same location')
    # worksharing loop: its counter starts at a bound the OpenMP runtime stored into a private variable
    off = q.off
    for k, K in e.loops:
        cr = coeff(off, k)
        if cr is None or len(cr[0].terms) != 1: continue
        # everything the runtime hands this thread (bounds and chunk stride live in private variables) is part of the counter
        base = ZERO
        for mo, c in off.terms:
            if any(a.kind == 'load' and isinstance(a.args[0], tuple) and a.args[0][0] == 'alloca' for a, ex in mo): base = add(base, mk({mono_key(mo): (mo, c)}))
        if base is ZERO: continue
        start = mul(base, cas.power(cr[0], cas.Fraction(-1)))
        o2 = subst(leaf(off), {k: leaf(sub(psym('#iv'), start))}, {})
        if not isinstance(o2, Leaf): continue
        o2 = o2.v
        if any(a.kind == 'load' and isinstance(a.args[0], tuple) and a.args[0][0] == 'alloca' for mo, c in o2.terms for a, ex in mo): continue
        cr = coeff(o2, '#iv')
        if cr is None: continue
        co, rest = cr
        if is_num(co) and numval(co) != 0 and not any(s.startswith(('$k', '$j')) for s in syms(rest)): return None
        # row blocks: coefficient * iv + rest with 0 <= rest < coefficient
        inner = [(k2, K2) for k2, K2 in e.loops if k2 in syms(rest)]
        if len(inner) == 1:
            c2 = coeff(rest, inner[0][0])
            if c2 and is_num(c2[0]):
                K2 = inner[0][1]
                for l in leaves(K2):
                    if isinstance(l, Poly) and not is_num(l) and mul(l, c2[0]) is co and is_num_free(c2[1]): return None
    return 'different iterations may write the same element (index %s)' % brief(leaf(off), 120)
def is_num_free(p): return not any(s.startswith(('$k', '$j', '#iv')) for s in syms(p))

def F06():
    c = Check('F06', 'Effect analysis over the traced value-numbering of every registered function\'s pixel evaluation (and of every PSF interpolator it can reach through a virtual call): no store and no call may reach '
              'memory outside the evaluation itself. OpenMP regions, compiled to their outlined bodies: every write to captured memory must be to an array element whose index is injective in the work-shared counter.')
    run_classes(c, f06)
    p2, vs = regions(c)
    fo = PROG
    names = {}
    for o, sg in sorted(vs):
        tg = hierarchy_targets(PROG, funcs.registered(PROG), o, sg)
        c.count('virtual calls in parallel regions')
        ms = sorted({dm(f.name).split('(')[0].split('::')[-1] for _, f in tg or []})
        c.obligation(bool(tg) and set(ms) <= {'GetValue', 'IsPointSource'}, 'region-call:%s' % ','.join(ms) , 'core/model_object.cpp', 'parallel regions call %s on the image functions, which is not covered by the evaluation analysis' % ms)
    c.floor('registered classes', 26); c.floor('kernels', 26); c.floor('interpolators', 1); c.floor('parallel regions', 5); c.floor('shared writes', 4)
    return c.finish()

# ------------------------------------------------------------------ F07 documented profile
from . import fspec
def f07(r, fm):
    require_fields(fm)
    sp = spec_for(fm); ps = pnames(fm)
    r.unit(where(fm)); r.unit(where(fm, 'Setup'))
    m = fm.machine()
    pa = [i for i, (l, k) in enumerate(sp) if k == 'pa']
    x, y = rotated(fm, ps)
    set_atan(x, y, pa, ps)
    one = dict(pixelScaling=N(1), intensityScale=N(1), imageRotation=N(0))
    mem = field_state(fm, m, ps, S('xc'), S('yc'), **{SUB: N(0)})
    v, _ = fm.value(m, mem, x, y)
    ATAN2.clear()
    unit = {'this.pixelScaling': N(1), 'this.intensityScale': N(1), 'this.imageRotation': N(0)}
    v = subst(v, unit, {})
    p = {l: ps[i] for i, (l, k) in enumerate(sp)}
    if fm.short in fspec.POINT: return f07_point(r, fm, v, p)
    f = fspec.F.get(fm.short)
    if f is None: raise AnalysisError('no documented profile for ' + fm.short)
    r.count('profiles'); r.count('profile branches', len(leaves(v)))
    for n_, T_ in enumerate([dict(bexp=100.0, cosh=100.0)] + [dict(bexp=a, cosh=b) for a in switches(v, 30) for b in switches(v, 20)][:16]):
        fspec.T.update(T_)
        e = f(p, S('u'), S('v'))
        ok = equal(v, e)
        if ok: break
    fspec.T.update(bexp=100.0, cosh=100.0)
    r.count('identical normal forms', 1 if v is e else 0)
    r.obligation(ok, 'profile:' + fm.cls, where(fm), '%s: the value at a pixel centre is not the documented profile: %s' % (fm.short, brief(v, 300)),
                 sample='%s: value term %s the documented profile (%d branches)' % (fm.short, 'is' if v is e else 'equals', len(leaves(v))))

def switches(v, least):
    """numeric thresholds a term (or an integrand in it) compares against"""
    out = set(); seen = set()
    def go(x):
        k = (type(x).__name__, x.id)
        if k in seen: return
        seen.add(k)
        if isinstance(x, Leaf):
            if isinstance(x.v, Poly): go(x.v)
        elif isinstance(x, Node): go(x.var); go(x.hi); go(x.lo)
        elif isinstance(x, Poly):
            for mo, c in x.terms:
                for a, e in mo:
                    go(a)
                    if isinstance(e, Poly): go(e)
        else:
            if x.kind == 'cmp' and x.args[0] == '<' and isinstance(x.args[1], Poly):
                c0 = [abs(float(c)) for mo, c in x.args[1].terms if not mo]
                cs = [abs(float(c)) for mo, c in x.args[1].terms if mo]
                if c0 and cs:
                    for q in cs:
                        t = c0[0] / q
                        if least <= t <= 1e4: out.add(round(t, 9))
            for q in x.args:
                if isinstance(q, (Poly, Atom, Node, Leaf)): go(q)
    go(v)
    return sorted(out)[:4]

def f07_point(r, fm, v, p):
    """I_tot times one evaluation of the PSF interpolator at the (scaled) offset in the component frame"""
    r.count('profiles'); r.count('profile branches', len(leaves(v)))
    bad = ''
    if not (isinstance(v, Leaf) and isinstance(v.v, Poly) and len(v.v.terms) == 1): bad = 'not a single product: ' + brief(v, 200)
    else:
        mo, c = v.v.terms[0]
        calls = [(a, e) for a, e in mo if a.kind == 'fn' and str(a.args[0]).startswith('call:')]
        rest = mk({mono_key(tuple(x for x in mo if x not in calls)): (tuple(x for x in mo if x not in calls), c)})
        if len(calls) != 1 or calls[0][1] != 1: bad = 'the interpolated PSF does not enter exactly once: ' + brief(v, 200)
        elif rest is not p['I_tot'].v: bad = 'the factor multiplying the interpolated PSF is %r' % (rest,)
        else:
            a = calls[0][0]
            sc = S('this.oversamplingScale')
            want = (vmul(sc, S('u')).v, vmul(sc, S('v')).v)
            got = a.args[-2:]
            if not all(same_poly(g, w) for g, w in zip(got, want)): bad = 'the PSF is interpolated at (%r, %r)' % tuple(got)
            elif 'psfInterpolator' not in fm.off: raise AnalysisError('no interpolator field')
            elif not any('%s' % fm.off['psfInterpolator'] in str(q) or 'psfInterpolator' in str(q) for q in a.args[1:3]): bad = 'the call does not go to the PSF interpolator: %r' % (a.args[1:3],)
    r.obligation(not bad, 'profile:' + fm.cls, where(fm), '%s: %s' % (fm.short, bad), sample='%s: I_tot * PSF(scale*u, scale*v)' % fm.short)

def F07():
    c = Check('F07', 'The composed Setup+GetValue term of every registered function (sub-pixel sampling off), rewritten in coordinates along/perpendicular to the major axis, against the term of its documented '
              'profile: identical normal forms, else matching decisions with analytically equal leaves; 3D functions compare the integral binder with its limits and integrand.')
    run_classes(c, f07)
    c.floor('registered classes', 26); c.floor('profiles', 26)
    return c.finish()

# ------------------------------------------------------------------ F08 closed-form fluxes and background components
def f08(r, fm):
    require_fields(fm)
    sp = spec_for(fm); ps = pnames(fm)
    p = {l: ps[i] for i, (l, k) in enumerate(sp)}
    one = dict(pixelScaling=N(1), intensityScale=N(1), imageRotation=N(0))
    for meth in ('CanCalculateTotalFlux', 'TotalFlux', 'IsBackground'):
        if fm.slot(meth) is None and PROG.find('FunctionObject', meth) is None: raise AnalysisError('%s::%s not found' % (fm.cls, meth))
    def run(meth):
        m = fm.machine()
        mem = field_state(fm, m, ps, S('xc'), S('yc'), **dict(one, **{SUB: N(0)}))
        f = fm.slot(meth) or PROG.find('FunctionObject', meth)
        r.unit(loc(f))
        return m.call(f, [leaf(Ptr('this', ZERO))], mem)[0]
    can = run('CanCalculateTotalFlux')
    want = fm.short in fspec.FLUX
    r.count('flux capability flags')
    isf = lambda v: v is FALSE or v is N(0)
    ist = lambda v: v is TRUE or v is N(1)
    if want or not isf(can):
        v = run('TotalFlux')
        r.count('closed-form fluxes')
        if not want: r.obligation(False, 'flux:' + fm.cls, where(fm, 'TotalFlux'), '%s: claims a closed-form total flux (%s) but none is documented' % (fm.short, brief(v, 150)))
        else:
            e = fspec.FLUX[fm.short](p)
            r.obligation(isf(can) or (ist(can) and equal(v, e)), 'flux:' + fm.cls, where(fm, 'TotalFlux'), '%s: closed-form total flux is %s' % (fm.short, brief(v, 300)), sample='%s: TotalFlux equals the integral of its profile' % fm.short)
    bg = run('IsBackground')
    r.count('background flags')
    wb = fm.short in fspec.BACKGROUND
    r.obligation(ist(bg) if wb else isf(bg), 'background:' + fm.cls, where(fm, 'IsBackground'), '%s: is %sreported as a background component (%s)' % (fm.short, 'not ' if wb else '', brief(bg, 80)))

def F08():
    c = Check('F08', 'Constant propagation decides which registered functions offer a closed-form total flux and which are background components; the TotalFlux term (after Setup) of each that offers one is '
              'compared with the analytic integral of its documented profile.')
    run_classes(c, f08)
    c.floor('registered classes', 26); c.floor('background flags', 26); c.floor('flux capability flags', 26)
    return c.finish()


TABLE = {'F01': F01, 'F02': F02, 'F03': F03, 'F04': F04, 'F05': F05, 'F06': F06, 'F07': F07, 'F08': F08}

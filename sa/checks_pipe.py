"""Image-pipeline properties, decided on event traces (every store with its index, value and condition as normal-form terms)."""
import re, struct
from fractions import Fraction
from . import build, ir, gsa, cas, trace
from .build import AnalysisError, dm
from .cas import *
from .report import Check, loc
from .trace import *

SRCS = ['core/model_object.cpp', 'core/oversampled_region.cpp', 'core/downsample.cpp', 'core/convolver.cpp', 'core/model_object_multimage.cpp', 'core/mp_enorm.cpp',
        'core/psf_oversampling_info.cpp', 'core/setup_model_object.cpp', 'core/param_holder.cpp', 'core/paramvector_processing.cpp', 'core/utilities_multimfit.cpp', 'function_objects/psf_interpolators.cpp', 'function_objects/function_object.cpp']
_P = None
def P():
    global _P
    if _P is None: _P = Prog2([s for s in SRCS])
    return _P

MO = 'ModelObject'
def mo(name): return P().off(MO, name)
def fld(name): return S('this.' + name)
def arr(name): return member(mo(name))

def fo_virt(p, cls=MO):
    """virtual calls on image functions get the name of the FunctionObject method; on the object itself, the method of its class"""
    fo = p.off(MO, 'functionObjects')
    def isfun(o): return isinstance(o, tuple) and o and o[0] == '*' and (base(o[1]) == member(fo) or 'functionObj' in str(o) or (isinstance(o[1], tuple) and o[1] and o[1][0] in ('ret', 'alloca')))
    return p.virt([(lambda o: o == 'this', cls, True), (isfun, 'FunctionObject', False)])

KEEP = {'Convolver::ConvolveImage': OPAQUE_VOID, 'OversampledRegion::ComputeRegionAndDownsample': OPAQUE_VOID}

def clobber(off):
    def h(fr, i, args, mem):
        mem = mem.copy()
        o = member(off)
        mem.clob[o] = fresh('v')
        for k in [k for k in mem.d if k[0] == o]: del mem.d[k]
        return BOT, mem
    return h

def mo_trace(meth, cls=MO, hooks=None, keep=True, args=None):
    p = P()
    h = dict(hooks or {})
    if keep:
        c = clobber(mo('modelVector'))
        for n in KEEP: h.setdefault(n, c)
    return Trace(p, p.method(cls, meth), cls, args=args, hooks=h, virt=fo_virt(p, cls), mem=start_mem())


# ------------------------------------------------------------------ helpers on terms
def LD(o, off=ZERO): return leaf(patom(atom('load', o, off)))
def ADDR(o, off=ZERO): return patom(atom('load', o, off, 'addr'))
def virt(meth, obj, *a):
    """term of a virtual call on the image function whose address is obj"""
    return leaf(patom(atom('fn', 'call:virt:' + meth, obj, *[x.v if isinstance(x, Leaf) else x for x in a])))
def fun(n): return ADDR(('*', arr('functionObjects'), scale(n, Fraction(8))))
def nz(v): return bnot(vcmp('==', v, N(0)))
def maxz(p): return ite(vcmp('>', leaf(p), N(0)), leaf(p), N(0))

def start_mem():
    """what holds before every operation: the number of functions is the length of the function list, likewise for oversampled regions"""
    m = gsa.Mem()
    for vec, n in (('functionObjects', 'nFunctions'), ('oversampledRegionsVect', 'nOversampledRegions')):
        o = mo(vec)
        m.d[('this', o + 8)] = leaf(Ptr(member(o), scale(psym('this.' + n), Fraction(8))))
    return m

def alloc_ok(v):
    """drop the branches on which a memory allocation failed"""
    for b in bvars(v):
        if b.args[0] == '==' and isinstance(b.args[1], Poly):
            if any(a.kind == 'load' and 'addr' in a.args[2:] and isinstance(a.args[0], tuple) and a.args[0] and a.args[0][0] == 'ret' for mo_, c in b.args[1].terms for a, e in mo_): v = restrict(v, b, False)
    return v

def under(v, *conds):
    """v when each condition (a diagram) is true"""
    for c in conds:
        while isinstance(c, Node):
            if c.lo is FALSE: v = restrict(v, c.var, True); c = c.hi
            elif c.hi is FALSE: v = restrict(v, c.var, False); c = c.lo
            else: break
    return v
FLAG = lambda n: nz(S('this.' + n))
def pc_of(e, *conds): return alloc_ok(under(drop_loop_conds(e.pc, e), *conds))
def val_of(e, *conds):
    v = e.val
    for k, K in e.loops:
        n = trip(K)
        if n is not None: v = under(v, vcmp('<', S(k), leaf(n)), bnot(vcmp('==', S(k), leaf(n))), vcmp('>', leaf(n), N(0)))
    return alloc_ok(under(unver(v), *conds))

def rowcol(A, e, C):
    """row and column of element A of an image with C columns"""
    r = lin(A, [k for k, K in e.loops])
    if r is None: return None
    co, rest = r
    ks = [k for k in co if co[k] is not ZERO]
    if len(ks) <= 1 and not (ks and co[ks[0]] is C):
        q = fn('idiv', A, C)
        return q, sub(A, mul(C, q))
    row = ZERO; col = ZERO
    for k in ks:
        if is_num(co[k]): col = add(col, mul(co[k], psym(k)))
        else: row = add(row, mul(mul(co[k], power(C, Fraction(-1))), psym(k)))
    for mo_, c in rest.terms:
        t = mk({mono_key(mo_): (mo_, c)})
        u = mul(t, power(C, Fraction(-1)))
        if any(a is C.terms[0][0][0][0] for a, x in mo_): row = add(row, u)
        else: col = add(col, t)
    return row, col

DIMS = (('this.nModelVals', mul(psym('this.nModelRows'), psym('this.nModelColumns'))), ('this.nDataVals', mul(psym('this.nDataRows'), psym('this.nDataColumns'))))
def same(a, b):
    a, b = under(a, vcmp('>', S('this.nFunctions'), N(0))), under(b, vcmp('>', S('this.nFunctions'), N(0)))
    return a is b or equal(a, b)

class Rule:
    """obligations about one traced operation"""
    def __init__(s, c, t, name):
        s.c, s.t, s.name = c, t, name
        c.count('operations analysed'); c.count('stores and calls examined', len(t.events))
        for n in t.m.analysed: c.unit(n)
        for n in t.m.notes:
            if n[0] in ('store-unknown',): raise AnalysisError('%s: a store through an unresolved pointer: %s' % (name, n))
    def ob(s, ok, what, e, msg, sample=None):
        w = loc(e.fn, e.inst) if hasattr(e, 'inst') else loc(s.t.fn)
        return s.c.obligation(bool(ok), '%s:%s' % (s.name, what), w, '%s: %s' % (s.name, msg), sample)

    def frame(s, *arrays):
        """the operation writes no array except the named ones"""
        ok = [arr(a) if isinstance(a, str) else a for a in arrays]
        for n, e, q in s.t.stores():
            for q2 in leaves(unver(e.ptr)):
                if not isinstance(q2, Ptr) or is_alloca(q2.obj) or not isinstance(q2.obj, tuple) or q2.obj[0] == 'ret': continue
                b = base(q2.obj)
                s.ob(any(b == a or q2.obj == a for a in ok), 'frame:%s' % (show_obj(b),), e, 'also writes into %s' % show_obj(b))

# ------------------------------------------------------------------ M01 image assembly
def pixel_args(row, col):
    """image coordinates of element (row, col) of the (padded) model image: the first data pixel is centred on (1, 1)"""
    return add(sub(col, psym('this.nPSFColumns')), ONE), add(sub(row, psym('this.nPSFRows')), ONE)

def crop(r, dst, value, conds, what, optional=False):
    """dst[z] = value(model index of data pixel z) for every data pixel"""
    ws = r.t.stores(dst)
    if not ws:
        r.ob(optional, what, None, 'no pixel values are written to the returned image'); return
    for n, e, q in ws:
        A = scale(q.off, Fraction(1, 8))
        why = covers(A, e, psym('this.nDataVals'), DIMS)
        if not r.ob(why is None, what + ':range', e, '%s: %s' % (what, why)): continue
        pc = pc_of(e)
        for conv in (True, False):
            cc = conds + [FLAG('doConvolution') if conv else bnot(FLAG('doConvolution'))]
            p = under(pc, *cc)
            if p is FALSE: continue
            if not r.ob(p is TRUE, what + ':condition', e, '%s: some pixels are skipped: %s' % (what, brief(p, 200))): continue
            rc = rowcol(A, e, psym('this.nDataColumns'))
            row, col = rc
            idx = add(mul(psym('this.nModelColumns'), add(psym('this.nPSFRows'), row)), add(psym('this.nPSFColumns'), col)) if conv else A
            want = value(A, scale(idx, Fraction(8)))
            got = val_of(e, *cc)
            ok = same(got, want)
            if not ok and not conv:
                # without a PSF the padding is zero and both images have the same shape
                z = {'this.nPSFRows': N(0), 'this.nPSFColumns': N(0), 'this.nModelColumns': S('this.nDataColumns')}
                ok = same(subst(got, z, {}), subst(want, z, {}))
            r.c.count('image copies')
            r.ob(ok, what + ':value' + ('' if conv else ':noPSF'), e, '%s%s: pixel z is %s' % (what, '' if conv else ' (no PSF)', brief(got, 250)), sample='%s: %s' % (r.name, what))

def model_fill(r, pred_point, val_of_pixel, conds, base_conds):
    pass

def setup_rule(r, params, nfuncs='this.nFunctions', x0y0=None):
    """each function is set up once, with its own parameter slice and the centre of its own function set"""
    cs = r.t.calls('virt:Setup')
    if not r.ob(bool(cs), 'setup', None, 'the image functions are never given their parameters'): return
    for n, e in cs:
        r.c.count('parameter hand-overs')
        if len(e.loops) != 1: r.ob(False, 'setup:loop', e, 'functions are not set up in one loop over all functions'); continue
        k = e.loops[0][0]; nt = trip(e.loops[0][1])
        r.ob(nt is psym(nfuncs), 'setup:range', e, 'set-up runs over %s functions' % brief(e.loops[0][1], 100))
        r.ob(pc_of(e) is TRUE, 'setup:condition', e, 'a function may be left with old parameters: %s' % brief(pc_of(e), 200))
        inb = vcmp('<', S(k), S(nfuncs))
        ob_, pv, off, x0, y0 = [under(unver(a), inb) for a in e.args[:5]]
        r.ob(ob_ is leaf(Ptr(('*', arr('functionObjects'), scale(psym(k), Fraction(8))), ZERO)), 'setup:function', e, 'loop index and function differ: %s' % brief(ob_, 150))
        r.ob(pv is params, 'setup:vector', e, 'parameters are taken from %s' % brief(pv, 100))
        flag = lambda q: vcmp('==', LD(arr('fsetStartFlags'), q), N(0))
        size = lambda q: LD(arr('paramSizes'), scale(q, Fraction(4)))
        b = fresh('$n')
        before = bind('sum', b, vadd(size(psym(b)), ite(flag(psym(b)), N(0), N(2))), S(k))
        want = vadd(before, ite(flag(psym(k)), N(0), N(2)))
        r.ob(off is want or equal(off, want), 'setup:offset', e, 'the slice of function n starts at %s' % brief(off, 200), sample='%s: slice of function n starts after all earlier functions and set centres' % r.name)
        if x0y0:
            r.ob(same(x0, x0y0[0]) and same(y0, x0y0[1]), 'setup:centre', e, 'functions are centred on (%s, %s)' % (brief(x0, 80), brief(y0, 80)))
            continue
        for nm, v, d in (('x0', x0, 0), ('y0', y0, 1)):
            new = under(v, bnot(flag(psym(k))))
            wantp = vadd(before, N(d))
            def at(o): return LD(params.v.obj, o.v.off) if False else None
            w = apply(lambda o: LD(params.v.obj, scale(o, Fraction(8))), 'ldp', wantp)
            r.ob(same(new, w), 'setup:%s' % nm, e, 'the first function of a set gets %s as its %s' % (brief(new, 150), nm))
            old = under(v, flag(psym(k)))
            a = the_atom(old)
            ok = a is not None and a.kind == 'mu'
            if ok:
                me, it = mu_names(a)
                rec = under(subst(a.args[2], {it: psym(k)}, {}), inb)
                ok = under(rec, flag(psym(k))) is leaf(psym(me)) and same(under(rec, bnot(flag(psym(k)))), w)
            r.ob(ok, 'setup:%s:kept' % nm, e, 'a later function of a set gets %s as its %s instead of its set\'s' % (brief(old, 150), nm))

def mu_names(a):
    """names bound in a recurrence: the value before the step, and the iteration number"""
    d = max([int(y[2:]) for y in syms(a.args[2]) if y[:2] in ('#u', '#m')] or [1])
    return '#u%d' % d, '#m%d' % d
def the_atom(v):
    if isinstance(v, Leaf) and isinstance(v.v, Poly) and len(v.v.terms) == 1 and v.v.terms[0][1] == 1 and len(v.v.terms[0][0]) == 1 and v.v.terms[0][0][0][1] == 1: return v.v.terms[0][0][0][0]
    return None

def fill_rule(r, what, e, q, value, conds):
    """model[A] (+)= value(x, y) at the image coordinates of A, for every pixel"""
    A = scale(q.off, Fraction(1, 8))
    why = covers(A, e, psym('this.nModelVals'), DIMS)
    r.ob(why is None, what + ':range', e, '%s: not every model pixel is computed exactly once: %s' % (what, why))
    rc = rowcol(A, e, psym('this.nModelColumns'))
    if rc is None: return
    x, y = pixel_args(*rc)
    got = val_of(e, *conds)
    want = value(x, y, LD(arr('modelVector'), q.off))
    r.c.count('pixel loops')
    r.ob(same(got, want), what + ':value', e, '%s: the value stored for a pixel is %s' % (what, brief(got, 400)), sample='%s: %s' % (r.name, what))

def M01():
    c = Check('M01', 'Value numbering of the image-assembly operations: every store into the model image is compared, as a normal-form term, with the sum of the components evaluated at the image coordinates of the '
              'element written; loop extents must cover the image; the order of evaluation / convolution / point sources / oversampling and the conditions guarding each are checked; cropped copies must map data pixel z to its padded position.')
    mv = arr('modelVector')
    nf = psym('this.nFunctions')
    ismodel = lambda o: base(o) == mv
    # --- whole model
    t = mo_trace('CreateModelImage'); r = Rule(c, t, 'CreateModelImage'); r.frame('modelVector')
    pv = t.args[1]
    setup_rule(r, pv)
    def total(points):
        def f(x, y, old):
            b = fresh('$n')
            isp = vcmp('==', virt('IsPointSource', fun(psym(b))), N(0))
            g = virt('GetValue', fun(psym(b)), x, y)
            s_ = bind('sum', b, ite(isp, N(0), g) if points else ite(isp, g, N(0)), leaf(nf))
            return vadd(old, s_) if points else s_
        return f
    ws = t.stores(ismodel)
    conv = t.calls('Convolver::ConvolveImage'); osm = t.calls('OversampledRegion::ComputeRegionAndDownsample')
    last_setup = max([n for n, e in t.calls('virt:Setup')] or [-1])
    npt = None
    kinds = {}
    for n, e, q in ws:
        got = val_of(e)
        isadd = 'point' if any(a.kind == 'load' and base(a.args[0]) == mv for l in leaves(under(got, vcmp('>', leaf(nf), N(0)))) if isinstance(l, Poly) for mo_, c_ in l.terms for a, x in mo_) else 'diffuse'
        kinds.setdefault(isadd, []).append((n, e, q))
    for kind in ('diffuse', 'point'):
        l = kinds.get(kind, [])
        if not r.ob(len(l) >= 1, kind, None, 'no loop adds the %s components to the model image' % kind): continue
        cond = [FLAG('pointSourcesPresent')] if kind == 'point' else []
        for n, e, q in l:
            fill_rule(r, kind + ' components', e, q, total(kind == 'point'), [])
            p = pc_of(e, *cond)
            r.ob(p is TRUE, kind + ':condition', e, 'the %s components are skipped when %s' % (kind, brief(bnot(p), 150)))
        r.ob(len(l) == 1, kind + ':once', l[0][1], 'the %s components are added %d times' % (kind, len(l)))
    for n, e in conv:
        r.ob(pc_of(e) is FLAG('doConvolution'), 'convolution:condition', e, 'convolution happens when %s' % brief(pc_of(e), 150))
        r.ob(e.args[0] is leaf(Ptr(arr('psfConvolver'), ZERO)) and e.args[1] is leaf(Ptr(mv, ZERO)), 'convolution:image', e, 'the model image is not what is convolved: %s' % [brief(a, 80) for a in e.args])
    r.ob(len(conv) == 1, 'convolution', None, '%d convolutions of the model image' % len(conv))
    if conv and 'diffuse' in kinds and 'point' in kinds:
        r.ob(last_setup < kinds['diffuse'][0][0] < conv[0][0] < kinds['point'][0][0], 'order', kinds['point'][0][1], 'set-up, diffuse components, convolution, point sources do not happen in this order')
    r.ob(len(osm) == 1, 'oversampling', None, '%d oversampling steps' % len(osm))
    for n, e in osm:
        r.ob(conv and n > max([conv[0][0]] + [x[0] for x in kinds.get('point', [])]), 'oversampling:order', e, 'oversampled regions are computed before the main image is complete')
        over_rule(r, e, nf)
    first = kinds.get('point', [(1e9,)])[0][0]
    for nm, wd, want in (('virt:AddPsfInterpolator', 'interpolator', leaf(Ptr(arr('psfInterpolator'), ZERO))), ('virt:SetOversamplingScale', 'scale', N(1))):
        cs = [(n, e) for n, e in t.calls(nm) if n < first]
        for n, e in cs:
            k = e.loops[-1][0] if e.loops else None
            r.ob(unver(e.args[1]) is want, wd, e, 'point sources get %s %s' % (wd, brief(e.args[1], 100)))
            r.ob(k is not None and len(e.loops) == 1 and trip(e.loops[0][1]) is nf and e.args[0] is leaf(Ptr(('*', arr('functionObjects'), scale(psym(k), Fraction(8))), ZERO)), wd + ':range', e, 'the %s is not handed to each function' % wd)
            isp = bnot(vcmp('==', virt('IsPointSource', fun(psym(k))), N(0))) if k else TRUE
            cond = under(unver(pc_of(e)), FLAG('pointSourcesPresent'), isp, vcmp('<', S(k or 'k'), leaf(nf)))
            for b in list(bvars(cond)):
                if k and k in syms(b) and b.args[0] == '==' and not any(str(a.args[0]).startswith('call:') for mo_, c_ in b.args[1].terms for a, x in mo_ if a.kind == 'fn'): cond = restrict(cond, b, False)
            r.ob(cond is TRUE, wd + ':condition', e, 'a point source may keep another region\'s %s: %s' % (wd, brief(cond, 150)))
        r.ob(len(cs) >= 1, wd + ':reset', None, 'point sources are not given back the main image\'s %s before they are evaluated' % wd)
    # --- one component
    t = mo_trace('GetSingleFunctionImage'); r = Rule(c, t, 'GetSingleFunctionImage'); r.frame('modelVector', 'outputModelVector')
    setup_rule(r, t.args[1])
    idx = t.args[2]
    obj = apply(lambda i: leaf(fun(i)), 'fun', idx).v
    def one(x, y, old): return virt('GetValue', obj, x, y)
    valid = [vcmp('>=', idx, N(0))]
    ws = t.stores(ismodel)
    ok_exit = lambda e: skip_exit(pc_of(e, *valid))
    for n, e, q in ws:
        fill_rule(r, 'component', e, q, one, [])
        r.ob(ok_exit(e) is TRUE, 'component:condition', e, 'pixels are skipped: %s' % brief(ok_exit(e), 200))
    r.ob(len(ws) == 1, 'component', None, 'the component is written %d times' % len(ws))
    isp = bnot(vcmp('==', virt('IsPointSource', obj), N(0)))
    conv = t.calls('Convolver::ConvolveImage')
    for n, e in conv:
        got = unver(ok_exit(e)); want = band(FLAG('doConvolution'), bnot(isp))
        r.ob(got is want, 'convolution:condition', e, 'convolution happens when %s' % brief(got, 200))
        r.ob(ws and n > ws[0][0], 'order', e, 'convolution precedes the evaluation')
        r.ob(e.args[0] is leaf(Ptr(arr('psfConvolver'), ZERO)) and e.args[1] is leaf(Ptr(mv, ZERO)), 'convolution:image', e, 'the model image is not what is convolved')
    r.ob(len(conv) == 1, 'convolution', None, '%d convolutions' % len(conv))
    for nm, wd, want in (('virt:AddPsfInterpolator', 'interpolator', leaf(Ptr(arr('psfInterpolator'), ZERO))), ('virt:SetOversamplingScale', 'scale', N(1))):
        ai = t.calls(nm)
        for n, e in ai:
            pcn = unver(ok_exit(e))
            r.ob(unver(e.args[1]) is want and ws and n < ws[0][0] and (pcn is isp or pcn is TRUE), wd, e, 'a point source does not get the main image\'s %s before it is evaluated' % wd)
        r.ob(len(ai) >= 1, wd + ':reset', None, 'a point source is not given the main image\'s %s' % wd)
    # ... and its part in every oversampled region: a list of one function for the region, replacing pixels of the convolved image
    ov = t.calls('OversampledRegion::ComputeRegionAndDownsample')
    r.ob(len(ov) == 1, 'oversampling', None, '%d calls compute oversampled regions' % len(ov))
    for n, e in ov:
        over_rule(r, e, ONE, lambda e: drop_loop_conds(unver(ok_exit(e)), e))
        r.ob(ws and n > ws[0][0] and all(n > k for k, q in conv), 'oversampling:order', e, 'oversampled regions are replaced before the component is evaluated and convolved')
        vec = lambda q: q.kind == 'call' and q.name and dm(q.name).startswith('std::vector<FunctionObject*') and q.args and isinstance(q.args[0], Leaf) and isinstance(q.args[0].v, Ptr) and is_alloca(q.args[0].v.obj)
        puts = [(k, q) for k, q in enumerate(t.events) if vec(q) and re.search(r'::(push_back|emplace_back)', dm(q.name))]
        made = [q for q in t.events if vec(q) and re.search(r'::vector\(', dm(q.name)) and len(q.args) > 1 and not re.search(r'::vector\(std::vector<', dm(q.name))]
        r.ob(bool(made) or len(puts) == 1 and puts[0][0] < n, 'oversampling:list', e, 'the list of functions given to a region is filled %d times' % len(puts))
        src = e.args[2]
        for q in reversed(t.events[:n]):
            if vec(q) and q.args[0] is src and re.search(r'::vector\((std::vector<|std::initializer)', dm(q.name)) and len(q.args) > 1 and dm(q.name).count('std::vector<') > 1: src = q.args[1]
        fill = [q.args[0] for k, q in puts] + [q.args[0] for q in made]
        r.ob(any(src is f for f in fill), 'oversampling:list', e, 'a region gets another list of functions than the one made for the component')
        for k, q in puts:
            v = q.val
            r.ob(v is not None and all(unver(v) is unver(g.args[0]) for k2, g in t.calls('virt:GetValue')), 'oversampling:list', q, 'a region evaluates %s instead of the one component' % brief(v, 120))
    out = lambda o: base(o) == arr('outputModelVector') or is_ret(o)
    crop(r, out, lambda A, i: LD(mv, i), valid + [NOEXIT], 'cropped image')
    ret_rule(r, [NOEXIT] + valid)
    # --- images handed to the user
    t = mo_trace('GetModelImageVector'); r = Rule(c, t, 'GetModelImageVector'); r.frame('outputModelVector')
    crop(r, out, lambda A, i: LD(mv, i), [FLAG('modelImageComputed')], 'cropped image')
    ret_rule(r, [FLAG('modelImageComputed')])
    t = mo_trace('GetResidualImageVector'); r = Rule(c, t, 'GetResidualImageVector'); r.frame('residualVector')
    res = lambda o: base(o) == arr('residualVector') or is_ret(o)
    crop(r, res, lambda A, i: vsub(LD(arr('dataVector'), scale(A, Fraction(8))), LD(mv, i)), [FLAG('modelImageComputed')], 'residual image')
    v = alloc_ok(under(t.val, FLAG('modelImageComputed')))
    r.ob(all(isinstance(q, Ptr) and res(q.obj) for q in leaves(v)), 'returned', None, 'returns %s' % brief(v, 100))
    # --- dimensions
    t = mo_trace('SetupModelImage', keep=False, hooks={'Convolver::SetupImage': OPAQUE_VOID, 'Convolver::DoFullSetup': lambda fr, i, a, m: (S('psfstatus'), m)}); r = Rule(c, t, 'SetupModelImage')
    dimension_rule(r)
    c.floor('operations analysed', 5); c.floor('pixel loops', 3); c.floor('image copies', 4); c.floor('parameter hand-overs', 2)
    return c.finish()

def is_ret(o): return isinstance(o, tuple) and bool(o) and o[0] == 'ret' and str(o[1]) in ('call:calloc', 'call:malloc', 'call:operator new[]', 'call:fftw_malloc', 'call:fftw_alloc_real', 'call:_Znam')
NOEXIT = TRUE
def skip_exit(pc): return pc

def over_rule(r, e, nf, pcf=None):
    n = [k for k, K in e.loops]
    r.ob(len(n) == 1 and trip(e.loops[0][1]) is psym('this.nOversampledRegions'), 'oversampling:range', e, 'not every oversampled region is computed')
    if len(n) != 1: return
    p = (pcf or pc_of)(e)
    r.ob(p is FLAG('oversampledRegionsExist') or p is TRUE, 'oversampling:condition', e, 'an oversampled region is skipped: %s' % brief(p, 150))
    r.ob(unver(e.args[0]) is leaf(Ptr(('*', arr('oversampledRegionsVect'), scale(psym(n[0]), Fraction(8))), ZERO)) and e.args[1] is leaf(Ptr(arr('modelVector'), ZERO)) and e.args[3] is leaf(nf), 'oversampling:arguments', e,
         'oversampled region gets %s' % [brief(a, 60) for a in e.args])

def ret_rule(r, conds):
    for conv in (True, False):
        v = alloc_ok(under(r.t.val, *(conds + [FLAG('doConvolution') if conv else bnot(FLAG('doConvolution'))])))
        qs = leaves(v)
        want = (lambda o: base(o) == arr('outputModelVector') or is_ret(o)) if conv else (lambda o: base(o) in (arr('modelVector'), arr('outputModelVector')))
        r.ob(all(isinstance(q, Ptr) and want(q.obj) and q.off is ZERO for q in qs if q is not BOT and q != 'BOT'), 'returned:%d' % conv, None, 'with%s a PSF the returned image is %s' % ('' if conv else 'out', brief(v, 150)))

def dimension_rule(r):
    t = r.t
    nc, nr = [a.v for a in t.args[1:3]]
    def end(name): 
        return alloc_ok(t.m.load(t.out, Ptr('this', num(mo(name))), ir.INT(64)))
    pcs, prs = psym('this.nPSFColumns'), psym('this.nPSFRows')
    two = Fraction(2)
    ok = vcmp('>=', S('psfstatus'), N(0))
    for conv in (True, False):
        cc = [FLAG('doConvolution') if conv else bnot(FLAG('doConvolution')), vcmp('>=', t.args[1], N(1)), vcmp('>=', t.args[2], N(1)), ok]
        mc = add(nc, scale(pcs, two)) if conv else nc
        mr = add(nr, scale(prs, two)) if conv else nr
        for name, want in (('nDataColumns', nc), ('nDataRows', nr), ('nDataVals', mul(nc, nr)), ('nModelColumns', mc), ('nModelRows', mr), ('nModelVals', mul(mc, mr))):
            got = end(name)
            for x in cc: got = under(got, x)
            # a failed allocation returns early: sizes stored before it still agree
            r.c.count('dimensions')
            r.ob(same(got, leaf(want)), 'dimension:%s:%d' % (name, conv), None, '%s%s: %s is %s' % (r.name, ' with a PSF' if conv else '', name, brief(got, 200)))
    for n, e in t.calls('calloc', 'malloc'):
        p = mul(e.args[0].v, e.args[1].v) if len(e.args) > 1 and all(isinstance(a, Leaf) for a in e.args[:2]) else None
        a = [under(x, ok) for x in e.args[:2]]
        tot = vmul(*a) if len(a) == 2 else a[0]
        for conv in (True, False):
            g = under(tot, FLAG('doConvolution') if conv else bnot(FLAG('doConvolution')))
            w = mul(add(nc, scale(pcs, two)), add(nr, scale(prs, two))) if conv else mul(nc, nr)
            r.ob(same(g, leaf(scale(w, Fraction(8)))), 'allocation:%d' % conv, e, 'the model image is allocated with %s bytes' % brief(g, 150))
    for n, e in t.calls('Convolver::SetupImage'):
        r.ob(same(e.args[1], leaf(add(nc, scale(pcs, two)))) and same(e.args[2], leaf(add(nr, scale(prs, two)))), 'convolver:size', e, 'the convolver is told %s' % [brief(a, 80) for a in e.args[1:]])

# ------------------------------------------------------------------ M02 oversampled regions
def after(t, *conds, keep=lambda o: o == 'this'):
    """memory of the object once the traced operation has succeeded under the given conditions"""
    m = gsa.Mem()
    for (o, k), v in t.out.d.items():
        if keep(o): m.d[(o, k)] = alloc_ok(under(v, *conds))
    return m

def block(A, e, C, nR, nC):
    """(row, column, None) when the writes at element index A visit each element of an nR x nC block of an image with C columns
    once (row, column: position in the image as terms over the loop counters); else (None, None, reason)"""
    ks = [(k, trip(K)) for k, K in e.loops]
    if any(n is None for k, n in ks): return None, None, None, None, 'loop bounds not understood: %s' % [brief(K, 80) for k, K in e.loops]
    used = [(k, n) for k, n in ks if k in syms(A)]
    if len(used) == 1:
        k, n = used[0]
        if n is not mul(nR, nC): return None, None, None, None, 'the loop runs over %s elements instead of %s' % (brief(leaf(n), 100), brief(leaf(mul(nR, nC)), 100))
        q = fn('idiv', psym(k), nC); col = sub(psym(k), mul(nC, q))
        off = sub(sub(A, mul(C, q)), col)
        if k in syms(off): return None, None, None, None, 'the element written is %s' % brief(leaf(A), 200)
        return q, col, off, None, None
    if len(used) != 2: return None, None, None, None, 'expected loops over rows and columns'
    r = lin(A, [k for k, n in used])
    if r is None: return None, None, None, None, 'the element written is %s' % brief(leaf(A), 200)
    co, rest = r
    (ka, na), (kb, nb) = used
    if co[ka] is ONE: ka, na, kb, nb = kb, nb, ka, na
    if co[kb] is not ONE or co[ka] is not C: return None, None, None, None, 'row stride is %s, column stride %s' % (brief(leaf(co[ka]), 60), brief(leaf(co[kb]), 60))
    if na is not nR or nb is not nC: return None, None, None, None, 'the loops run over %s rows and %s columns instead of %s and %s' % tuple(brief(leaf(x), 60) for x in (na, nb, nR, nC))
    return psym(ka), psym(kb), rest, None, None

def M02():
    c = Check('M02', 'Value numbering of the whole life of an oversampled region (constructor, PSF, set-up, evaluation, block averaging into the main image), run once with and once without an oversampled PSF: '
              'the coordinates handed to the components, the extent of every loop, the order evaluation/convolution/point sources/averaging, and the index and value of every store into the main image are compared with the specification as normal-form terms.')
    p = P(); OR = 'OversampledRegion'
    ok = vcmp('>=', S('psfstatus'), N(0))
    names = ['x1', 'y1', 'nbc', 'nbr', 'ncm', 'nrm', 'pcm', 'prm', 's']
    x1, y1, nbc, nbr, ncm, nrm, pcm, prm, s = [psym(n) for n in names]
    H = {'Convolver::SetupImage': OPAQUE_VOID, 'Convolver::SetupPSF': OPAQUE_VOID, 'Convolver::SetMaxThreads': OPAQUE_VOID, 'Convolver::Convolver': OPAQUE_VOID,
         'PsfInterpolator_bicubic::PsfInterpolator_bicubic': OPAQUE_VOID, 'PsfInterpolator::PsfInterpolator': OPAQUE_VOID, 'Convolver::DoFullSetup': lambda fr, i, a, m: (S('psfstatus'), m)}
    ctor = Trace(p, p.method(OR, 'OversampledRegion'), OR, hooks=H)
    off = lambda n: p.off(OR, n)
    for psf in (True, False):
        tag = 'with a PSF' if psf else 'without a PSF'
        mem = after(ctor)
        pc = pr = ZERO
        if psf:
            pc, pr = psym('pcols'), psym('prows')
            t = Trace(p, p.method(OR, 'AddPSFVector'), OR, args=[leaf(Ptr('this', ZERO)), leaf(Ptr(('arg', 'psf'), ZERO)), leaf(pc), leaf(pr), S('normalize')], hooks=H, mem=mem)
            r = Rule(c, t, 'AddPSFVector')
            big = [vcmp('>=', leaf(pc), N(4)), vcmp('>=', leaf(pr), N(4))]
            for n, e in t.calls('Convolver::SetupPSF'):
                r.ob([unver(a) for a in e.args[1:5]] == [leaf(Ptr(('arg', 'psf'), ZERO)), leaf(pc), leaf(pr), S('normalize')] and under(e.pc, *big) is TRUE, 'convolver PSF', e, 'the convolver gets %s' % [brief(a, 60) for a in e.args])
            r.ob(len(t.calls('Convolver::SetupPSF')) == 1, 'convolver PSF once', None, 'the PSF is not given to the convolver')
            mem = after(t, *big)
            convolver = alloc_ok(t.m.load(mem, Ptr('this', num(off('psfConvolver'))), ir.PTR))
            interp = alloc_ok(t.m.load(mem, Ptr('this', num(off('psfInterpolator'))), ir.PTR))
            cts = [e for n, e in t.calls('PsfInterpolator_bicubic::PsfInterpolator_bicubic')]
            r.ob(len(cts) == 1 and [unver(a) for a in cts[0].args[1:4]] == [leaf(Ptr(('arg', 'psf'), ZERO)), leaf(pc), leaf(pr)] and cts[0].args[0] is interp, 'interpolator', cts[0] if cts else None,
                 'point sources in the region are interpolated from %s' % [brief(a, 60) for a in (cts[0].args if cts else ())])
        t = Trace(p, p.method(OR, 'SetupModelImage'), OR, args=[leaf(Ptr('this', ZERO))] + [S(n) for n in names], hooks=H, mem=mem)
        r = Rule(c, t, 'SetupModelImage ' + tag)
        ncol, nrow = add(mul(nbc, s), scale(pc, Fraction(2))), add(mul(nbr, s), scale(pr, Fraction(2)))
        for n, e in t.calls('Convolver::SetupImage'):
            r.ob(psf and same(e.args[1], leaf(ncol)) and same(e.args[2], leaf(nrow)), 'convolver size', e, 'the convolver is told the image is %s' % [brief(a, 80) for a in e.args[1:]])
        r.ob(len(t.calls('Convolver::SetupImage')) == psf and len(t.calls('Convolver::DoFullSetup')) == psf, 'convolver set-up', None, 'the convolver is %sset up' % ('not ' if psf else ''))
        al = [e for n, e in t.calls('calloc', 'malloc')]
        r.ob(len(al) == 1, 'allocation', None, '%d allocations of the region image' % len(al))
        for e in al:
            a = [under(x, ok) for x in e.args[:2]]
            r.ob(same(vmul(*a) if len(a) == 2 else a[0], leaf(scale(mul(ncol, nrow), Fraction(8)))), 'allocation size', e, 'the region image is allocated with %s elements' % brief(a[0], 150))
        v = alloc_ok(under(t.val, ok))
        r.ob(v is N(0), 'status', None, 'a successful set-up returns %s' % brief(v, 80))
        mem = after(t, ok)
        # evaluation
        f = p.method(OR, 'ComputeRegionAndDownsample')
        vec = f.params[2][0]; nfn = 'nFunctions'
        mem.d[(vec, 8)] = leaf(Ptr(('*', vec, 0), scale(psym(nfn), Fraction(8))))
        def isfun(o): return isinstance(o, tuple) and o and o[0] == '*' and base(o[1]) == ('*', vec, 0)
        h = {'Convolver::ConvolveImage': OPAQUE_VOID, '@printf': OPAQUE_VOID}
        main = ('arg', 'main')
        t = Trace(p, f, OR, args=[leaf(Ptr('this', ZERO)), leaf(Ptr(main, ZERO)), leaf(Ptr(vec, ZERO)), S(nfn)], hooks=h, mem=mem, virt=p.virt([(isfun, 'FunctionObject', False)]))
        r = Rule(c, t, 'ComputeRegionAndDownsample ' + tag)
        mvp = alloc_ok(t.m.load(mem, Ptr('this', num(off('modelVector'))), ir.PTR))
        if not (isinstance(mvp, Leaf) and isinstance(mvp.v, Ptr)): raise AnalysisError('region image pointer not understood')
        mv = mvp.v.obj
        fo = lambda n: ADDR(('*', ('*', vec, 0), scale(n, Fraction(8))))
        half = Fraction(1, 2)
        is1 = power(s, Fraction(-1))
        start = sub(scale(is1, half), num(half))
        b = fresh('$n')
        def total(x, y, points):
            isp = vcmp('==', virt('IsPointSource', fo(psym(b))), N(0)); g = virt('GetValue', fo(psym(b)), x, y)
            return bind('sum', b, ite(isp, N(0), g) if points else ite(isp, g, N(0)), S(nfn))
        ws = [(n, e, q) for n, e, q in t.stores(lambda o: o == mv)]
        seen = {False: [], True: []}
        pos = vcmp('>', S(nfn), N(0))
        for n, e, q in ws:
            A = scale(q.off, Fraction(1, 8))
            row, col, o, _, why = block(A, e, ncol, nrow, ncol)
            if not r.ob(why is None and o is ZERO, 'region:range', e, 'not every pixel of the region is computed once: %s' % (why or brief(leaf(o), 80))): continue
            x = add(add(x1, start), mul(is1, sub(col, pc))); y = add(add(y1, start), mul(is1, sub(row, pr)))
            old = LD(mv, q.off)
            got = under(val_of(e), pos)
            d = same(got, total(x, y, False)); pt = same(got, vadd(old, total(x, y, True)))
            c.count('pixel loops')
            r.ob(d or pt, 'region:value', e, 'the value stored for a sub-pixel is %s' % brief(got, 350), sample='%s: sub-pixel (row, col) is evaluated at (%s, %s)' % (tag, brief(leaf(x), 120), brief(leaf(y), 120)))
            if d or pt: seen[pt].append((n, e))
            r.ob(pc_of(e) is TRUE, 'region:condition', e, 'sub-pixels are skipped: %s' % brief(pc_of(e), 150))
        r.ob(len(seen[False]) == 1 and len(seen[True]) == 1, 'region:once', None, 'diffuse components are added %d times, point sources %d times' % (len(seen[False]), len(seen[True])))
        conv = t.calls('Convolver::ConvolveImage')
        down = [(n, e, q) for n, e, q in t.stores(lambda o: o == main)]
        if psf:
            if r.ob(len(conv) == 1, 'convolution', None, 'the region is convolved %d times' % len(conv)):
                e = conv[0][1]
                r.ob(pc_of(e) is TRUE and e.args[1] is mvp and e.args[0] is convolver, 'convolution:image', e, 'what is convolved is %s with %s, when %s' % (brief(e.args[1], 60), brief(e.args[0], 60), brief(pc_of(e), 80)))
        else: r.ob(all(pc_of(e) is FALSE for n, e in conv), 'convolution', None, 'the region is convolved although there is no PSF')
        order = [seen[False][0][0] if seen[False] else -1] + [n for n, e in conv] + [seen[True][0][0] if seen[True] else -1] + [n for n, e, q in down]
        r.ob(order == sorted(order), 'order', None, 'evaluation, convolution, point sources and averaging do not happen in this order')
        for nm, want, wd in (('virt:AddPsfInterpolator', interp if psf else None, 'interpolator'), ('virt:SetOversamplingScale', leaf(s), 'scale')):
            cs = t.calls(nm)
            okk = [(n, e) for n, e in cs if seen[True] and n < seen[True][0][0]]
            good = False
            for n, e in okk:
                if len(e.loops) != 1: continue
                k = e.loops[0][0]
                isp = bnot(vcmp('==', virt('IsPointSource', fo(psym(k))), N(0)))
                pcn = under(unver(pc_of(e)), isp)
                for bb in bvars(pcn):
                    if bb.args[0] in ('<', '==') and k in syms(bb.args[1]) and not any(a.kind == 'fn' for mo_, cc in bb.args[1].terms for a, xx in mo_): pcn = restrict(pcn, bb, bb.args[0] == '<')
                n_ = trip(e.loops[0][1])
                good |= pcn is TRUE and unver(e.args[0]) is leaf(Ptr(('*', ('*', vec, 0), scale(psym(k), Fraction(8))), ZERO)) and n_ is psym(nfn) and (want is None or unver(e.args[1]) is want)
            r.ob(good, wd, cs[0][1] if cs else None, 'point sources do not get the region\'s %s before they are evaluated' % wd)
        # averaging
        r.ob(len(down) == 1, 'average', None, 'the main image is written %d times' % len(down))
        for n, e, q in down:
            A = scale(q.off, Fraction(1, 8))
            row, col, o, _, why = block(A, e, ncm, nbr, nbc)
            if not r.ob(why is None, 'average:range', e, 'not every main-image pixel of the region is replaced once: %s' % why): continue
            want = add(mul(ncm, sub(add(y1, prm), ONE)), sub(add(x1, pcm), ONE))
            r.ob(o is want, 'average:place', e, 'the region is written at element %s of the main image' % brief(leaf(o), 150))
            r.ob(drop_loop_conds(alloc_ok(e.pc), e) is TRUE, 'average:condition', e, 'pixels are skipped: %s' % brief(pc_of(e), 150))
            i, j = fresh('$i'), fresh('$j')
            el = add(mul(ncol, add(add(pr, mul(s, row)), psym(i))), add(add(pc, mul(s, col)), psym(j)))
            v = leaf(is1); v = vmul(v, v)
            w = vmul(v, bind('sum', i, bind('sum', j, LD(mv, scale(el, Fraction(8))), leaf(s)), leaf(s)))
            pos_s = vcmp('>', leaf(s), N(0))
            got, w = under(val_of(e), pos_s), under(w, pos_s)
            c.count('block averages')
            r.ob(got is w or equal(got, w), 'average:value', e, 'the pixel becomes %s' % brief(got, 300), sample='%s: main pixel = mean of its s x s sub-pixels' % tag)
    region_rule(c)
    c.floor('pixel loops', 4); c.floor('block averages', 2)
    return c.finish()

def region_rule(c):
    """how the model object sets up a region from its description"""
    p = P()
    info = ('arg', 'info')
    H = {'OversampledRegion::OversampledRegion': OPAQUE_VOID, 'OversampledRegion::SetDebugLevel': OPAQUE_VOID, 'OversampledRegion::AddPSFVector': OPAQUE_VOID,
         'OversampledRegion::SetupModelImage': lambda fr, i, a, m: (S('regionstatus'), m)}
    for g in ('GetNColumns', 'GetNRows', 'GetOversamplingScale', 'GetNormalizationFlag'):
        H['PsfOversamplingInfo::' + g] = (lambda g: lambda fr, i, a, m: (S('info.' + g), m))(g)
    H['PsfOversamplingInfo::GetPsfPixels'] = lambda fr, i, a, m: (leaf(Ptr(('arg', 'psf'), ZERO)), m)
    def bracket(fr, i, a, m):
        m = m.copy()
        for k, n in enumerate(('y2', 'y1', 'x2', 'x1')): m.d[(a[0].v.obj, a[0].v.off is ZERO and 4 * k or 4 * k)] = S('reg.' + n)
        return BOT, m
    H['GetAllCoordsFromBracket'] = bracket
    i_off = {o: 'info.' + n for n, o in p.fields('PsfOversamplingInfo')[0].items()}
    f = p.method(MO, 'AddOversampledPsfInfo')
    t = Trace(p, f, MO, args=[leaf(Ptr('this', ZERO)), leaf(Ptr(info, ZERO))], hooks=H, names={info: i_off})
    r = Rule(c, t, 'AddOversampledPsfInfo')
    su = t.calls('OversampledRegion::SetupModelImage'); ps = t.calls('OversampledRegion::AddPSFVector')
    if not r.ob(len(su) == 1 and len(ps) == 1, 'calls', None, '%d set-ups of the region, %d hand-overs of its PSF' % (len(su), len(ps))): return
    (ns, e), (np_, ep) = su[0], ps[0]
    r.ob(np_ < ns, 'order', e, 'the region is set up before it has its PSF')
    r.ob([a for a in ep.args[1:5]] == [leaf(Ptr(('arg', 'psf'), ZERO)), S('info.GetNColumns'), S('info.GetNRows'), S('info.GetNormalizationFlag')], 'psf', ep, 'the region gets PSF %s' % [brief(a, 60) for a in ep.args[1:]])
    X0, Y0 = S('info.X0_offset'), S('info.Y0_offset')
    def clip(v, lo, hi):
        if lo is not None: v = ite(vcmp('<', v, N(lo)), N(lo), v)
        if hi is not None: v = ite(vcmp('>', v, hi), hi, v)
        return v
    ax1, ay1 = clip(vsub(S('reg.x1'), X0), 1, None), clip(vsub(S('reg.y1'), Y0), 1, None)
    ax2, ay2 = clip(vsub(S('reg.x2'), X0), None, S('this.nDataColumns')), clip(vsub(S('reg.y2'), Y0), None, S('this.nDataRows'))
    want = [ax1, ay1, vadd(vsub(ax2, ax1), N(1)), vadd(vsub(ay2, ay1), N(1)), S('this.nModelColumns'), S('this.nModelRows'), S('this.nPSFColumns'), S('this.nPSFRows'), S('info.GetOversamplingScale')]
    facts = implied(e.pc)
    for nm, a, w in zip(('x1', 'y1', 'columns', 'rows', 'main columns', 'main rows', 'main PSF columns', 'main PSF rows', 'scale'), e.args[1:], want):
        c.count('region parameters')
        for b, pol in facts: a = restrict(a, b, pol)
        r.ob(same(a, w), 'region:' + nm, e, 'the region\'s %s is %s instead of %s' % (nm, brief(a, 150), brief(w, 150)))
    oks = vcmp('>=', S('regionstatus'), N(0))
    puts = [(n, q) for n, q in enumerate(t.events) if q.kind == 'call' and q.name and re.search(r'^std::vector<OversampledRegion\*.*::(push_back|emplace_back)', dm(q.name)) and q.args[0] is leaf(Ptr('this', num(p.off(MO, 'oversampledRegionsVect'))))]
    if r.ob(len(puts) == 1 and puts[0][0] > ns and not puts[0][1].loops, 'kept', puts[0][1] if puts else None, 'the region is added to the list of regions %d times' % len(puts)):
        q = puts[0][1]
        r.ob(q.val is not None and unver(q.val) is unver(e.args[0]), 'kept', q, 'the region kept is %s, not the one set up' % brief(q.val, 80))
        v = restrict_all(unver(q.pc), [(b, pol) for b, pol in facts])
        r.ob(same(v, oks) or v is TRUE, 'kept', q, 'the region is kept only when %s' % brief(v, 150))
    g = lambda n, ty: under(t.m.load(t.out, Ptr('this', num(p.off(MO, n))), ty), oks)
    a, b = alloc_ok(g('nOversampledRegions', ir.INT(32))), alloc_ok(g('oversampledRegionsExist', ir.INT(8)))
    for v, pol in facts: a, b = restrict(a, v, pol), restrict(b, v, pol)
    r.ob(same(a, vadd(S('this.nOversampledRegions'), N(1))), 'count', None, 'the number of regions becomes %s' % brief(a, 120))
    r.ob(same(b, N(1)), 'exist', None, 'regions-exist flag becomes %s' % brief(b, 120))

def restrict_all(v, facts):
    for b, pol in facts: v = restrict(v, b, pol)
    return v
def implied(pc):
    """(variable, polarity) of every literal that a condition implies"""
    out = []
    for b in bvars(pc):
        if restrict(pc, b, False) is FALSE: out.append((b, True))
        elif restrict(pc, b, True) is FALSE: out.append((b, False))
    return out

# ------------------------------------------------------------------ M03 convolution
import itertools, random
def on_grid(a, b, env, tries=400):
    """two index terms agree at integer points; env: name -> function(partial assignment, rng) giving a value in range"""
    n = 0
    for t in range(tries):
        rnd = random.Random(t); e = {}
        for k, f in env.items(): e[k] = float(f(e, rnd))
        x, y = Ev(e, t).val(leaf(a) if isinstance(a, Poly) else a), Ev(e, t).val(leaf(b) if isinstance(b, Poly) else b)
        if x != y: return False
        n += 1
    return n > 0

def fill_of(t, lo, hi, o, total):
    """events between lo and hi that set every element of array o to zero"""
    out = []
    for n, e, q in t.stores(lambda x: x == o):
        if not lo < n < hi: continue
        if val_of(e) is N(0) and covers(scale(q.off, Fraction(1, 8)), e, total) is None and pc_of(e) is TRUE: out.append(n)
    for n, e in t.calls('llvm.memset.p0.i64', 'memset'):
        if lo < n < hi and isinstance(e.args[0], Leaf) and isinstance(e.args[0].v, Ptr) and e.args[0].v.obj == o and e.args[1] is N(0) and e.args[2] is leaf(scale(total, Fraction(8))) and alloc_ok(e.pc) is TRUE: out.append(n)
    return out

def M03():
    c = Check('M03', 'Value numbering of the convolver\'s life (set-up of PSF and image, full set-up, one convolution) with symbolic image, PSF and padded sizes: zero padding, the wrap that puts the PSF centre on element (0,0), PSF normalisation, '
              'the arrays and dimensions of the three Fourier transforms, the complex product over all coefficients, and the cropped, rescaled result are compared with the specification; plus the PSF handed to convolver and interpolators by the model objects.')
    p = P(); CV = 'Convolver'
    C, R, pc, pr = [psym(n) for n in ('C', 'R', 'pc', 'pr')]        # padded columns, rows; PSF columns, rows
    ic, ir = add(sub(C, pc), ONE), add(sub(R, pr), ONE)             # image size for which the padded size is C x R
    H = {n: OPAQUE_VOID for n in ('PrintRealImage', 'PrintComplexImage_Absolute', 'PrintComplexImage_RealPart', '@printf', '@putchar', '@puts')}
    th = leaf(Ptr('this', ZERO)); PSF = ('arg', 'psf'); IMG = ('arg', 'img')
    t = Trace(p, p.method(CV, CV), CV); m = after(t)
    t = Trace(p, p.method(CV, 'SetupPSF'), CV, args=[th, leaf(Ptr(PSF, ZERO)), leaf(pc), leaf(pr), S('norm')], mem=m); m = after(t)
    t = Trace(p, p.method(CV, 'SetupImage'), CV, args=[th, leaf(ic), leaf(ir)], mem=m); m = after(t)
    t = Trace(p, p.method(CV, 'DoFullSetup'), CV, args=[th, S('dbg'), S('meas')], mem=m, hooks=H)
    r = Rule(c, t, 'DoFullSetup')
    m = after(t)
    r.ob(same(alloc_ok(t.val), N(0)), 'status', None, 'a successful set-up returns %s' % brief(t.val, 100))
    half = add(fn('idiv', C, num(2)), ONE)
    N_ = mul(C, R); NC = mul(half, R)
    size = {}
    for n, e in t.calls('fftw_malloc', 'malloc', 'calloc', 'fftw_alloc_real', 'fftw_alloc_complex'):
        b = vmul(*e.args[:2]) if 'calloc' in e.name else e.args[0]
        if 'alloc_real' in e.name: b = vmul(b, N(8))
        if 'alloc_complex' in e.name: b = vmul(b, N(16))
        if isinstance(e.res, Leaf) and isinstance(e.res.v, Ptr): size[e.res.v.obj] = b
    def obj(a):
        v = alloc_ok(a); return v.v.obj if isinstance(v, Leaf) and isinstance(v.v, Ptr) and v.v.off is ZERO else None
    plans = {}
    for n, e in t.calls('fftw_plan_dft_r2c_2d', 'fftw_plan_dft_c2r_2d'):
        kind = 'r2c' if 'r2c' in e.name else 'c2r'
        a, b = obj(e.args[2]), obj(e.args[3])
        c.count('transforms planned')
        r.ob(e.args[0] is leaf(R) and e.args[1] is leaf(C), 'plan:size', e, 'a transform is planned with %s x %s instead of image + PSF - 1 rows and columns' % (brief(e.args[0], 60), brief(e.args[1], 60)))
        re_, co = (a, b) if kind == 'r2c' else (b, a)
        r.ob(size.get(re_) is leaf(scale(N_, Fraction(8))) and size.get(co) is leaf(scale(NC, Fraction(16))), 'plan:arrays', e, 'a transform uses arrays of %s and %s bytes' % (brief(size.get(re_), 80) if size.get(re_) else '?', brief(size.get(co), 80) if size.get(co) else '?'))
        if isinstance(e.res, Leaf) and isinstance(e.res.v, Ptr): plans[e.res.v.obj] = (kind, a, b, n)
    ex = t.calls('fftw_execute')
    if not r.ob(len(ex) == 1 and obj(ex[0][1].args[0]) in plans and plans[obj(ex[0][1].args[0])][0] == 'r2c' and alloc_ok(ex[0][1].pc) is TRUE, 'psf transform', None, 'the PSF is not transformed exactly once'): return c.finish()
    nx, psf_plan = ex[0][0], plans[obj(ex[0][1].args[0])]
    psf_in, psf_ft, planned = psf_plan[1:]
    # normalisation
    yes, no = bnot(vcmp('==', S('norm'), N(0))), vcmp('==', S('norm'), N(0))
    b = fresh('$s')
    total = bind('sum', b, LD(PSF, scale(psym(b), Fraction(8))), leaf(mul(pc, pr)))
    pos = vcmp('>', leaf(mul(pc, pr)), N(0))
    nw = t.stores(lambda o: o == PSF)
    scaled = False
    for n, e, q in nw:
        A = scale(q.off, Fraction(1, 8))
        why = covers(A, e, mul(pc, pr))
        r.ob(why is None, 'normalise:range', e, 'normalisation: %s' % why)
        r.ob(same(pc_of(e), yes), 'normalise:condition', e, 'the PSF is rescaled when %s' % brief(pc_of(e), 150))
        got = under(val_of(e), pos)
        r.ob(same(got, under(vdiv(LD(PSF, q.off), total), pos)), 'normalise:value', e, 'a normalised PSF pixel is %s' % brief(got, 200), sample='PSF pixel / sum of PSF pixels')
        scaled = n
    # zero fill, then wrapped copy
    ws = [(n, e, q) for n, e, q in t.stores(lambda o: o == psf_in) if val_of(e) is not N(0)]
    fills = fill_of(t, planned, nx, psf_in, N_)
    r.ob(len(ws) >= 1, 'wrap', None, 'the PSF is never copied into the padded array')
    for n, e, q in ws:
        r.ob(fills and fills[0] < n < nx, 'wrap:order', e, 'planning, zeroing, copying and transforming the PSF do not happen in this order')
        r.ob(pc_of(e) is TRUE or same(pc_of(e), TRUE), 'wrap:condition', e, 'PSF pixels are skipped: %s' % brief(pc_of(e), 150))
        A = scale(q.off, Fraction(1, 8))
        for flag, nm in ((yes, 'normalised'), (no, 'as given')):
            v = under(val_of(e), flag, pos)
            want_scaled = flag is yes and scaled is False
            ld = None
            for l in leaves(v):
                if isinstance(l, Poly):
                    for mo_, cc in l.terms:
                        for a, x in mo_:
                            if a.kind == 'load' and a.args[0] == PSF: ld = a
            if not r.ob(ld is not None, 'wrap:value', e, 'the padded array gets %s' % brief(v, 150)): continue
            J = scale(ld.args[1], Fraction(1, 8))
            w = LD(PSF, ld.args[1])
            if want_scaled: w = under(vdiv(w, total), pos)
            r.ob(same(v, w), 'wrap:value', e, 'the padded array gets %s' % brief(v, 150))
            if scaled is not False and flag is yes: r.ob(scaled < n, 'normalise:order', e, 'the PSF is copied before it is normalised')
            why = covers(J, e, mul(pc, pr))
            r.ob(why is None, 'wrap:range', e, 'not every PSF pixel is copied once: %s' % why)
            row = fn('idiv', J, pc); col = sub(J, mul(pc, row))
            rem = lambda x, y: sub(x, mul(y, fn('idiv', x, y)))
            drow = rem(add(sub(R, fn('idiv', pr, num(2))), row), R); dcol = rem(add(sub(C, fn('idiv', pc, num(2))), col), C)
            want = add(mul(drow, C), dcol)
            env = {'pc': lambda e, r_: r_.randint(1, 9), 'pr': lambda e, r_: r_.randint(1, 9), 'C': lambda e, r_: e['pc'] + r_.randint(0, 8), 'R': lambda e, r_: e['pr'] + r_.randint(0, 8)}
            for k, K in e.loops:
                T = trip(K)
                env[k] = (lambda T: lambda e, r_: r_.randint(0, max(0, int(Ev(e, 0).poly(T)) - 1)))(T)
            idx = apply(lambda x: leaf(scale(x.off, Fraction(1, 8))) if isinstance(x, Ptr) and base(x.obj) == psf_in else leaf(psym('<elsewhere>')), 'wrapidx', unver(e.ptr))
            r.ob(on_grid(idx, want, env), 'wrap:place', e, 'PSF pixel %s goes to element %s: its centre (columns/2, rows/2) does not land on element 0' % (brief(leaf(J), 80), brief(leaf(A), 250)),
                 sample='PSF pixel (row, col) -> ((row - rows/2) mod R, (col - cols/2) mod C)')
    # --- one convolution
    t = Trace(p, p.method(CV, 'ConvolveImage'), CV, args=[th, leaf(Ptr(IMG, ZERO))], mem=m, hooks=H)
    r = Rule(c, t, 'ConvolveImage')
    ex = [(n, e, plans.get(obj(e.args[0]))) for n, e in t.calls('fftw_execute')]
    if not r.ob(len(ex) == 2 and all(x[2] for x in ex) and ex[0][2][0] == 'r2c' and ex[1][2][0] == 'c2r' and ex[0][2] is not psf_plan and all(alloc_ok(x[1].pc) is TRUE for x in ex), 'transforms', None,
                'a convolution does not consist of one forward and one inverse transform of the image'): return c.finish()
    (n1, e1, (k1, im_in, im_ft, x1)), (n2, e2, (k2, prod, out, x2)) = ex
    r.ob(len({im_in, psf_in, out}) == 3 and len({im_ft, psf_ft, prod}) >= 2 and psf_ft not in (im_ft, prod), 'arrays', e1, 'the transforms share arrays')
    fills = fill_of(t, -1, n1, im_in, N_)
    ws = [(n, e, q) for n, e, q in t.stores(lambda o: o == im_in) if val_of(e) is not N(0)]
    r.ob(len(ws) == 1 and ws[0][0] < n1 and bool(fills) and fills[0] < ws[0][0], 'padding', ws[0][1] if ws else None, 'the padded image is not zeroed and then filled before the transform')
    for n, e, q in ws:
        row, col, o, _, why = block(scale(q.off, Fraction(1, 8)), e, C, ir, ic)
        if not r.ob(why is None and o is ZERO, 'copy:range', e, 'not every image pixel is copied once to the corner of the padded array: %s' % (why or brief(leaf(o), 80))): continue
        c.count('image copies')
        r.ob(pc_of(e) is TRUE and same(val_of(e), LD(IMG, scale(add(mul(ic, row), col), Fraction(8)))), 'copy:value', e, 'the padded image gets %s' % brief(val_of(e), 150), sample='padded[r*C+c] = image[r*columns+c]')
    ws = t.stores(lambda o: o == prod)
    got = {}
    for n, e, q in ws:
        if not r.ob(n1 < n < n2, 'product:order', e, 'the product is not formed between the two transforms'): continue
        ks = [k for k, K in e.loops if k in syms(q.off)]
        part = ZERO
        rr = lin(q.off, ks)
        if rr is not None: part = rr[1]
        if not r.ob(is_num(part) and numval(part) in (0, 8), 'product:range', e, 'the product is stored at %s' % brief(leaf(q.off), 150)): continue
        z = scale(sub(q.off, part), Fraction(1, 16))
        why = covers(z, e, NC)
        r.ob(why is None and pc_of(e) is TRUE, 'product:range', e, 'not every coefficient is multiplied: %s' % (why or brief(pc_of(e), 100)))
        ld = lambda o, im: LD(o, add(scale(z, Fraction(16)), num(8 * im)))
        a, b_, x, y = ld(im_ft, 0), ld(im_ft, 1), ld(psf_ft, 0), ld(psf_ft, 1)
        w = vsub(vmul(a, x), vmul(b_, y)) if part is ZERO else vadd(vmul(b_, x), vmul(a, y))
        c.count('coefficient products')
        r.ob(same(val_of(e), w), 'product:value', e, 'the %s part of the product is %s' % ('real' if part is ZERO else 'imaginary', brief(val_of(e), 200)), sample='complex product of image and PSF coefficients')
        got[numval(part)] = 1
    r.ob(set(got) == {0, 8}, 'product', None, 'the complex product is incomplete')
    ws = t.stores(lambda o: o == IMG)
    r.ob(len(ws) == 1 and ws[0][0] > n2, 'result', ws[0][1] if ws else None, 'the image is not replaced once, after the inverse transform')
    for n, e, q in ws:
        row, col, o, _, why = block(scale(q.off, Fraction(1, 8)), e, ic, ir, ic)
        if not r.ob(why is None and o is ZERO, 'result:range', e, 'not every image pixel is replaced once: %s' % (why or brief(leaf(o), 80))): continue
        w = vdiv(LD(out, scale(add(mul(C, row), col), Fraction(8))), leaf(N_))
        c.count('image copies')
        r.ob(pc_of(e) is TRUE and same(val_of(e), w), 'result:value', e, 'a convolved pixel is %s' % brief(val_of(e), 200), sample='image[r*columns+c] = inverse[r*C+c] / (R*C)')
    psf_owner_rule(c)
    c.floor('transforms planned', 3); c.floor('image copies', 2); c.floor('coefficient products', 2); c.floor('PSF hand-overs', 2)
    return c.finish()

def psf_owner_rule(c):
    """the PSF given to the convolver and the PSF the point sources are interpolated from"""
    p = P(); PSF = ('arg', 'psf'); th = leaf(Ptr('this', ZERO))
    pc, pr, npx = psym('pc'), psym('pr'), mul(psym('pc'), psym('pr'))
    H = {'Convolver::SetupPSF': OPAQUE_VOID, 'Convolver::SetMaxThreads': OPAQUE_VOID, 'Convolver::Convolver': OPAQUE_VOID}
    t = Trace(p, p.method(MO, 'AddPSFVector'), MO, args=[th, leaf(npx), leaf(pc), leaf(pr), leaf(Ptr(PSF, ZERO)), S('norm')], hooks=H)
    r = Rule(c, t, 'ModelObject::AddPSFVector')
    cs = t.calls('Convolver::SetupPSF')
    r.ob(len(cs) == 1, 'convolver', None, 'the convolver gets the PSF %d times' % len(cs))
    facts = []
    for n, e in cs:
        facts = nominal(e.pc, [vcmp('>', leaf(npx), N(0))])
        c.count('PSF hand-overs')
        r.ob(facts is not None, 'convolver', e, 'the convolver gets the PSF only when %s' % brief(e.pc, 150))
        facts = facts or []
        r.ob([a for a in e.args[1:5]] == [leaf(Ptr(PSF, ZERO)), leaf(pc), leaf(pr), S('norm')], 'convolver', e, 'the convolver gets %s' % [brief(a, 60) for a in e.args[1:]])
    def fin(v):
        v = alloc_ok(v)
        for b, pol in facts: v = restrict(v, b, pol)
        return v
    class Nom:
        def __init__(s, e): s.e = e; s.loops = [(k, fin(K)) for k, K in e.loops]
        def __getattr__(s, n): return getattr(s.e, n)
    for nm, w in (('nPSFColumns', leaf(pc)), ('nPSFRows', leaf(pr)), ('doConvolution', N(1)), ('localPsfPixels_allocated', N(1))):
        g = fin(t.m.load(t.out, Ptr('this', num(p.off(MO, nm))), ir.INT(32 if nm[0] == 'n' else 8)))
        r.ob(same(g, w), 'field:' + nm, None, '%s becomes %s' % (nm, brief(g, 100)))
    lp = fin(t.m.load(t.out, Ptr('this', num(p.off(MO, 'localPsfPixels'))), ir.PTR))
    lo = lp.v.obj if isinstance(lp, Leaf) and isinstance(lp.v, Ptr) else None
    pos = vcmp('>', leaf(npx), N(0))
    copies = []; norms = []
    for n, e, q in t.stores(lambda o: o == lo and lo is not None):
        e = Nom(e)
        v = val_of(e)
        A = scale(q.off, Fraction(1, 8))
        why = covers(A, e, npx)
        isc = any(a.kind == 'load' and a.args[0] == PSF for l in leaves(v) if isinstance(l, Poly) for mo_, cc in l.terms for a, x in mo_)
        if isc:
            copies.append(n)
            r.ob(why is None and same(v, LD(PSF, q.off)), 'copy', e, 'the PSF kept for point sources is %s (%s)' % (brief(v, 120), why))
        else:
            norms.append(n)
            b = fresh('$s')
            tot = bind('sum', b, LD(lo, scale(psym(b), Fraction(8))), leaf(npx))
            r.ob(why is None and same(under(v, pos), under(vdiv(LD(lo, q.off), tot), pos)), 'normalise', e, 'a normalised PSF pixel is %s (%s)' % (brief(v, 150), why))
            cond = pc_of(e)
            for b_, pol in facts: cond = restrict(cond, b_, pol)
            cond = non_data(cond)
            r.ob(same(cond, bnot(vcmp('==', S('norm'), N(0)))), 'normalise:condition', e, 'the PSF kept for point sources is normalised when %s' % brief(cond, 150))
    r.ob(len(copies) == 1 and len(norms) == 1 and copies < norms, 'kept', None, 'the PSF kept for point sources is copied %d times and normalised %d times' % (len(copies), len(norms)))
    c.count('PSF hand-overs')
    # the interpolator is built from it
    it = p.mods and None
    t = Trace(p, p.method(MO, 'SetupPsfInterpolation'), MO, args=[th, S('kind')], hooks={k: OPAQUE_VOID for k in ('PsfInterpolator_bicubic::PsfInterpolator_bicubic', 'PsfInterpolator_lanczos2::PsfInterpolator_lanczos2', 'PsfInterpolator_lanczos3::PsfInterpolator_lanczos3')})
    r = Rule(c, t, 'SetupPsfInterpolation')
    kinds = {}
    for n, e in t.calls(*['PsfInterpolator_%s::PsfInterpolator_%s' % (k, k) for k in ('bicubic', 'lanczos2', 'lanczos3')]):
        r.ob(unver(e.args[1]) is leaf(Ptr(arr('localPsfPixels'), ZERO)) and e.args[2:4] == (fld('nPSFColumns'), fld('nPSFRows')), 'interpolator', e, 'the interpolator is built from %s' % [brief(a, 60) for a in e.args[1:]])
        kinds[dm(e.name).split('::')[0]] = [numval(b.args[1]) for b, pol in implied(e.pc) if False] or e.pc
        c.count('PSF hand-overs')
    r.ob(len(kinds) == 3, 'interpolator kinds', None, 'interpolators built: %s' % sorted(kinds))
    # oversampled region: the pixels the interpolator copies must already be normalised when normalisation is asked for
    H2 = {'Convolver::SetupPSF': OPAQUE_VOID, 'Convolver::SetMaxThreads': OPAQUE_VOID, 'Convolver::Convolver': OPAQUE_VOID, 'PsfInterpolator_bicubic::PsfInterpolator_bicubic': OPAQUE_VOID}
    t = Trace(p, p.method('OversampledRegion', 'AddPSFVector'), 'OversampledRegion', args=[th, leaf(Ptr(PSF, ZERO)), leaf(pc), leaf(pr), S('norm')], hooks=H2)
    r = Rule(c, t, 'OversampledRegion::AddPSFVector')
    for n, e in t.calls('PsfInterpolator_bicubic::PsfInterpolator_bicubic'):
        pre = [x for x in t.stores(lambda o: o == PSF) if x[0] < n]
        good = False
        for n_, e_, q in pre:
            b = fresh('$s'); tot = bind('sum', b, LD(PSF, scale(psym(b), Fraction(8))), leaf(npx))
            good |= covers(scale(q.off, Fraction(1, 8)), e_, npx) is None and same(under(val_of(e_), pos), under(vdiv(LD(PSF, q.off), tot), pos))
        r.ob(good, 'normalise', e, 'the interpolator for point sources copies the PSF before it is normalised')
        c.count('PSF hand-overs')

def nominal(pc, given=()):
    """an assignment of the data-dependent conditions under which pc holds whatever the options are: the path without error exits; None when there is none"""
    pc = alloc_ok(pc)
    g = [(c.var, c.hi is TRUE) for c in given if isinstance(c, Node)]
    for b, pol in g: pc = restrict(pc, b, pol)
    data = [b for b in bvars(pc) if b.args[0] == 'opq' or any(a.kind in ('load', 'sum', 'mu') or (a.kind == 'fn' and a.args[0] == 'isfinite') for a in atoms_of(b))]
    if len(data) > 10: return None
    from itertools import product
    for vals in product((False, True), repeat=len(data)):
        v = pc
        for b, pol in zip(data, vals): v = restrict(v, b, pol)
        if v is TRUE: return g + list(zip(data, vals))
    return None

def non_data(v):
    for b in list(bvars(v)):
        if b.args[0] == 'opq': v = restrict(v, b, True) if restrict(v, b, True) is not FALSE else restrict(v, b, False)
        elif any(a.kind in ('load', 'sum', 'mu') or (a.kind == 'fn' and a.args[0] == 'isfinite') for a in atoms_of(b)): v = restrict(v, b, False) if restrict(v, b, False) is not FALSE else restrict(v, b, True)
    return v
def atoms_of(b):
    p = b.args[1]
    return [a for mo_, c in p.terms for a, x in mo_] if isinstance(p, Poly) else []

# ------------------------------------------------------------------ M04 fit statistics
GAIN, SKY = S('this.effectiveGain'), S('this.originalSky')
def W(n): return LD(arr('weightVector'), n)
def noise2(flux): return vadd(vmul(vadd(flux, SKY), vpow(GAIN, N(-1))), vmul(S('this.nCombined'), S('this.readNoise_adu_squared')))
def photons(v): return vmul(GAIN, vadd(v, SKY))

def model_index(A, e, b, conv):
    """index into the model image of data pixel b (a term; A/e: the element written, when b is the element itself)"""
    if not conv: return b
    C = psym('this.nDataColumns')
    row, col = rowcol(A, e, C) if b is A else (fn('idiv', b, C), sub(b, mul(C, fn('idiv', b, C))))
    return add(mul(psym('this.nModelColumns'), add(psym('this.nPSFRows'), row)), add(psym('this.nPSFColumns'), col))

def data_term(kind, A, e, b, conv):
    o8 = lambda i: scale(i, Fraction(8))
    d, m, w = LD(arr('dataVector'), o8(b)), LD(arr('modelVector'), o8(model_index(A, e, b, conv))), W(o8(b))
    if kind == 'chi': return vmul(w, vsub(d, m))
    mod = photons(m)
    body = lambda L: vadd(vsub(mod, vmul(photons(d), L)), LD(arr('extraCashTermsVector'), o8(b)))
    pos = vcmp('>', mod, N(0))
    full = lambda L: vmul(w, body(L)) if kind == 'cash' else vpow(vmul(N(2), vmul(w, vfn("abs", body(L)))), N(Fraction(1, 2)))
    return pos, full(vfn('log', mod)), full

SMALL_LOG = -20      # log(model) of a pixel whose model is not positive must be at most this
def check_term(r, what, e, got, kind, A, b, conv):
    """the contribution of one pixel"""
    nopsf = {'this.nPSFRows': N(0), 'this.nPSFColumns': N(0), 'this.nModelColumns': S('this.nDataColumns')}
    want = data_term(kind, A, e, b, conv)
    def eq(g, w):
        return same(g, w) or (not conv and same(subst(g, nopsf, {}), subst(w, nopsf, {})))
    r.c.count('pixel terms')
    if kind == 'chi':
        return r.ob(eq(got, want), what, e, '%s: the term of a pixel is %s' % (what, brief(got, 300)), sample='%s: %s' % (r.name, what))
    pos, main, full = want
    r.ob(eq(under(got, pos), main), what, e, '%s: the term of a pixel is %s' % (what, brief(under(got, pos), 300)), sample='%s: %s' % (r.name, what))
    g = under(got, bnot(pos))
    # the same term with the logarithm replaced by a large negative constant
    ok = False
    for l in sorted(set(consts_of(g)) | fp_consts(r.t)):
        if l <= SMALL_LOG and eq(g, full(N(l))): ok = True
    r.ob(ok, what + ':non-positive model', e, '%s: where the model is not positive the term is %s (no large penalty for a model that excludes the observed counts)' % (what, brief(g, 300)))

def fp_consts(t):
    """floating-point constants in the units analysed"""
    out = set()
    for m in t.P.mods.values():
        for f in m.functions.values():
            for ln in f.lines or ():
                for h in re.findall(r'\b0x([0-9A-F]{16})\b', ln): out.add(struct.unpack('>d', bytes.fromhex(h))[0])
                for h in re.findall(r'(?<![\w.])-?\d+\.\d+e[+-]\d+', ln): out.add(float(h))
    return {Fraction(x) for x in out if x == x and -1e6 < x <= SMALL_LOG}

def consts_of(v):
    """candidate values of the constant standing for log(model): coefficients of data * gain * weight monomials"""
    out = set()
    for l in leaves(v):
        if not isinstance(l, Poly): continue
        ts = list(l.terms)
        for mo_, c in l.terms:
            for a, x in mo_:
                if a.kind == 'fn' and a.args[0] == 'abs': ts += list(a.args[1].terms)
                if a.kind == 'base': ts += list(a.args[0].terms)
        for mo_, c in ts: out |= {Fraction(c), -Fraction(c), Fraction(c) / 2, -Fraction(c) / 2}
    return sorted(out)

def combos(*flags):
    from itertools import product
    for vals in product((False, True), repeat=len(flags)):
        yield dict(zip(flags, vals)), [FLAG(f) if v else bnot(FLAG(f)) for f, v in zip(flags, vals)]
def cname(d): return '+'.join(k for k, v in d.items() if v) or 'plain'

def M04():
    c = Check('M04', 'Value numbering of the fit-statistic operations: for every combination of PSF convolution, bootstrap resampling and statistic the per-pixel term, the pixel range, the pairing of data, weight and model pixels, '
              'and the final sum are compared with the documented statistic as normal-form terms; the model image and model-based weights must be recomputed first.')
    H = {'ModelObject::CreateModelImage': clobber(mo('modelVector')), 'mp_enorm': lambda fr, i, a, m: (S('ENORM'), m)}
    dev = lambda o: base(o) == arr('deviatesVector') or is_ret(o)
    boots = arr('bootstrapIndices')
    def stored(r, outp, mlr_flag):
        t = r.t
        flags = ['doConvolution', 'doBootstrap'] + (['poissonMLR'] if mlr_flag else [])
        ws = t.stores(outp)
        cr = [n for n, e in t.calls('ModelObject::CreateModelImage')]
        r.ob(len(cr) == 1 and all(n > cr[0] for n, e, q in ws), 'model first', None, 'the model image is not computed before it is compared with the data')
        for n, e in t.calls('ModelObject::CreateModelImage'):
            r.ob(pc_of(e) is TRUE and e.args[1] is t.args[-1], 'model parameters', e, 'the model image is computed when %s from %s' % (brief(pc_of(e), 80), brief(e.args[1], 60)))
        for d, cc in combos(*flags):
            hit = [(n, e, q) for n, e, q in ws if under(pc_of(e), *cc) is not FALSE]
            if not r.ob(len(hit) == 1, cname(d), hit[0][1] if hit else None, '%s: each pixel is written %d times' % (cname(d), len(hit))): continue
            n, e, q = hit[0]
            for qq in leaves(under(unver(e.ptr), *cc)):
                r.ob(isinstance(qq, Ptr) and (outp(qq.obj)), cname(d) + ':target', e, '%s: written to %s' % (cname(d), qq))
            A = scale(q.off, Fraction(1, 8))
            tot = psym('this.nValidDataVals' if d['doBootstrap'] else 'this.nDataVals')
            why = covers(A, e, tot, DIMS)
            r.ob(why is None, cname(d) + ':range', e, '%s: %s' % (cname(d), why))
            if why: continue
            r.ob(under(pc_of(e), *cc) is TRUE, cname(d) + ':condition', e, '%s: pixels skipped: %s' % (cname(d), brief(under(pc_of(e), *cc), 150)))
            b = LD(boots, scale(A, Fraction(8))).v if d['doBootstrap'] else A
            check_term(r, cname(d), e, val_of(e, *cc), 'mlr' if d.get('poissonMLR') else 'chi', A, b, d['doConvolution'])
        upd = t.calls('ModelObject::UpdateWeightVector')
        wts = [(n, e, q) for n, e, q in t.stores(lambda o: base(o) == arr('weightVector'))]
        r.ob(all(not cr or n > cr[0] for n, e, q in wts) and all(n < min([x[0] for x in ws] or [1e9]) for n, e, q in wts), 'weights first', None, 'model-based weights are not recomputed between the model image and the comparison')
        for d, cc in combos('doConvolution', 'maskExists'):
            hit = [(n, e, q) for n, e, q in wts if under(pc_of(e), *cc) is not FALSE]
            nm = 'weights:' + cname(d)
            if not r.ob(len(hit) == 1, nm, hit[0][1] if hit else None, '%s: written %d times' % (nm, len(hit))): continue
            n, e, q = hit[0]
            A = scale(q.off, Fraction(1, 8))
            why = covers(A, e, psym('this.nDataVals'), DIMS)
            r.ob(why is None, nm + ':range', e, '%s: %s' % (nm, why))
            if why: continue
            want = FLAG('modelErrors')
            if d['maskExists']: want = band(want, vcmp('>', LD(arr('maskVector'), q.off), N(0)))
            p = unver(under(pc_of(e), *cc))
            r.ob(p is want, nm + ':condition', e, '%s: a weight is updated when %s' % (nm, brief(p, 150)))
            m = LD(arr('modelVector'), scale(model_index(A, e, A, d['doConvolution']), Fraction(8)))
            good = False
            nopsf = {'this.nPSFRows': N(0), 'this.nPSFColumns': N(0), 'this.nModelColumns': S('this.nDataColumns')}
            g = val_of(e, *cc)
            for g_ in (g, None if d['doConvolution'] else subst(g, nopsf, {})):
                for fl in (m, ):
                    w1 = vpow(noise2(fl), N(Fraction(-1, 2)))
                    # negative fluxes may be clipped, as they are for data-based errors
                    tf = vadd(fl, SKY)
                    if g_ is not None and (same(g_, w1) or same(under(g_, vcmp('>=', tf, N(0))), w1) or same(under(g_, vcmp('>', tf, N(0))), w1)): good = True
            r.c.count('pixel terms')
            r.ob(good, nm + ':value', e, '%s: a weight becomes %s' % (nm, brief(g, 250)), sample='%s: 1/sigma from the model' % r.name)
    # --- chi^2
    t = mo_trace('ChiSquared', hooks=H, keep=False); r = Rule(c, t, 'ChiSquared')
    stored(r, dev, False)
    r.ob(same(t.val, vmul(S('ENORM'), S('ENORM'))), 'result', None, 'the result is %s' % brief(t.val, 100))
    for d, cc in combos('doBootstrap'):
        hit = [e for n, e in t.calls('mp_enorm') if under(pc_of(e), *cc) is not FALSE]
        r.ob(len(hit) == 1 and under(hit[0].args[0], *cc) is S('this.nValidDataVals' if d['doBootstrap'] else 'this.nDataVals') and all(isinstance(q, Ptr) and dev(q.obj) and q.off is ZERO for q in leaves(hit[0].args[1])), 'sum:' + cname(d), hit[0] if hit else None,
             '%s: the deviates summed are %s' % (cname(d), [brief(a, 60) for a in hit[0].args] if hit else None))
    for n, e in t.calls('calloc', 'malloc'):
        a = under(vmul(*e.args[:2]), vcmp('>', S('this.nDataVals'), N(0)))
        r.ob(same(a, vmul(N(8), S('this.nDataVals'))), 'allocation', e, 'the deviates get %s bytes' % brief(a, 60))
    enorm_rule(c)
    # --- Levenberg-Marquardt residuals
    H2 = dict(H)
    t = mo_trace('ComputeDeviates', hooks=H2, keep=False); r = Rule(c, t, 'ComputeDeviates')
    out = t.args[1].v.obj
    stored(r, lambda o: o == out, True)
    # --- Cash statistic
    t = mo_trace('CashStatistic', hooks=H, keep=False); r = Rule(c, t, 'CashStatistic')
    cr = t.calls('ModelObject::CreateModelImage')
    r.ob(len(cr) == 1 and pc_of(cr[0][1]) is TRUE and cr[0][1].args[1] is t.args[-1], 'model first', None, 'the model image is not computed first')
    for d, cc in combos('doConvolution', 'doBootstrap'):
        n = 'this.nValidDataVals' if d['doBootstrap'] else 'this.nDataVals'
        v = unver(under(t.val, *(cc + [vcmp('>', S(x), N(0)) for x in (n, 'this.nDataRows', 'this.nDataColumns')])))
        s_ = flat_sum(v)
        if not r.ob(s_ is not None, cname(d), None, '%s: the statistic is %s' % (cname(d), brief(v, 300))): continue
        coef, body, lps = s_
        r.ob(coef == 2, cname(d) + ':factor', None, '%s: the sum is multiplied by %s' % (cname(d), coef))
        # the element visited: one loop, or rows and columns
        if len(lps) == 1: A = psym(lps[0][0])
        else: A = add(mul(psym(lps[0][0]), lps[1][1]), psym(lps[1][0]))
        class E: loops = tuple((k, leaf(nn)) for k, nn in lps)
        ok = covers(A, E, psym(n), DIMS) is None
        r.ob(ok, cname(d) + ':range', None, '%s: the sum runs over %s' % (cname(d), [brief(leaf(nn), 60) for k, nn in lps]))
        b = LD(boots, scale(A, Fraction(8))).v if d['doBootstrap'] else A
        check_term(r, cname(d), E, body, 'cash', A, b, d['doConvolution'])
    # --- which statistic
    HS = {'ModelObject::ChiSquared': lambda fr, i, a, m: (S('CHI'), m), 'ModelObject::CashStatistic': lambda fr, i, a, m: (S('CASH'), m), 'virt:ChiSquared': lambda fr, i, a, m: (S('CHI'), m), 'virt:CashStatistic': lambda fr, i, a, m: (S('CASH'), m)}
    t = mo_trace('GetFitStatistic', hooks=HS, keep=False); r = Rule(c, t, 'GetFitStatistic')
    r.ob(t.val is ite(FLAG('useCashStatistic'), S('CASH'), S('CHI')), 'choice', None, 'the statistic is %s' % brief(t.val, 100))
    r.ob(all(e.args[1] is t.args[1] for n, e in t.calls(*HS)), 'parameters', None, 'other parameters are handed on')
    extra_rule(c)
    bootstrap_rule(c)
    c.floor('pixel terms', 20)
    return c.finish()

def flat_sum(v):
    """v = coef * SUM[k < n](body) or a double sum: (coef, body, [(k, n)...])"""
    a = None
    if not (isinstance(v, Leaf) and isinstance(v.v, Poly) and len(v.v.terms) == 1): return None
    mo_, coef = v.v.terms[0]
    if len(mo_) != 1 or mo_[0][1] != 1 or mo_[0][0].kind != 'sum': return None
    lps = []
    a = mo_[0][0]
    while True:
        b = fresh('$z')
        lps.append((b, a.args[2]))
        body = subst(a.args[1], {a.args[0]: psym(b)}, {})
        a2 = the_atom(body)
        if a2 is None or a2.kind != 'sum' or len(lps) == 2: break
        a = a2
    for k, n in lps: body = under(body, vcmp('<', S(k), leaf(n)))
    return coef, body, lps

def extra_rule(c):
    """data-only terms of the Poisson likelihood ratio"""
    t = mo_trace('GenerateExtraCashTerms', keep=False); r = Rule(c, t, 'GenerateExtraCashTerms')
    ws = t.stores(lambda o: base(o) == arr('extraCashTermsVector'))
    r.ob(len(ws) == 1, 'terms', None, 'written %d times' % len(ws))
    for n, e, q in ws:
        A = scale(q.off, Fraction(1, 8))
        r.ob(covers(A, e, psym('this.nDataVals'), DIMS) is None and pc_of(e) is TRUE, 'range', e, 'not every pixel gets its term')
        D = photons(LD(arr('dataVector'), q.off))
        pos = vcmp('>', D, N(0))
        g = val_of(e)
        c.count('pixel terms')
        r.ob(same(under(g, pos), vsub(vmul(D, vfn('log', D)), D)) and same(under(g, bnot(pos)), N(0)), 'value', e, 'the term is %s' % brief(g, 200), sample='D log D - D')

def bootstrap_rule(c):
    """resampled indices lie in the image and never select a masked pixel"""
    t = mo_trace('MakeBootstrapSample', keep=False); r = Rule(c, t, 'MakeBootstrapSample')
    ws = t.stores(lambda o: base(o) == arr('bootstrapIndices') or is_ret(o))
    r.ob(len(ws) == 1, 'indices', None, 'indices are written %d times' % len(ws))
    for n, e, q in ws:
        A = scale(q.off, Fraction(1, 8))
        why = covers(A, e, psym('this.nValidDataVals'))
        r.ob(why is None, 'range', e, '%s' % why)
        r.ob(pc_of(e) is TRUE, 'condition', e, 'indices kept from an earlier sample: %s' % brief(pc_of(e), 150))
        g = val_of(e)
        draw = [LDr for LDr in rng_atoms(g)]
        ok = len(draw) == 1 and same(g, vfn('floor', vmul(leaf(patom(draw[0])), S('this.nDataVals')))) and '(0' not in str(draw[0].args[0])
        # a generator on [0, 1): a closed interval would give index nDataVals
        ok = ok and 'genrand_real2' in str(draw[0].args[0])
        r.ob(ok, 'index', e, 'a resampled index is %s' % brief(g, 150))
        c.count('pixel terms')
        wts = LD(arr('weightVector'), scale(g.v, Fraction(8))) if isinstance(g, Leaf) and isinstance(g.v, Poly) else None
        if wts is None: continue
        rej = [(k, K) for n2, e2 in t.calls('genrand_real2') for k, K in e2.loops if k not in [k3 for k3, K3 in e.loops]]
        good = [k for k, K in rej if same(under(unver(K), vcmp('>', wts, N(0))), N(0)) and endless(under(unver(K), bnot(vcmp('>', wts, N(0)))))]
        r.ob(bool(good), 'masked pixels', e, 'masked pixels can be drawn: the draw is repeated %s' % [brief(K, 150) for k, K in rej])
    for n, e in t.calls('calloc', 'malloc'):
        r.ob(same(under(vmul(*e.args[:2]), vcmp('>', S('this.nValidDataVals'), N(0))), vmul(N(8), S('this.nValidDataVals'))), 'allocation', e, 'the index vector gets %s bytes' % brief(vmul(*e.args[:2]), 60))
def endless(K):
    a = the_atom(K)
    return a is not None and a.kind == 'trip' and a.args[0] is TRUE
def rng_atoms(v):
    out = []
    def f(a):
        if a.kind == 'fn' and 'genrand' in str(a.args[0]): out.append(a)
        return None
    tmap(v, f)
    return out

def enorm_rule(c):
    """the norm: every element enters exactly one (scaled) sum, whatever its size, and the result combines the sums"""
    X = ('arg', 'x')
    t = Trace(P(), P().func('mp_enorm'), None, args=[S('n'), leaf(Ptr(X, ZERO))], raw=True); r = Rule(c, t, 'mp_enorm')
    if len(t.m.rawloops) != 1: raise AnalysisError('mp_enorm: %d loops instead of one' % len(t.m.rawloops))
    L = t.m.rawloops[0]
    # counter: runs 0..n-1
    cnt = [nm for nm in L['nxt'] if same(L['nxt'][nm], vadd(S(nm), N(1))) and L['ini'][nm] is N(0) and L['cont'] is vcmp('<', S(nm), S('n'))]
    r.ob(len(cnt) == 1, 'range', None, 'the loop does not visit elements 0..n-1: continues while %s' % brief(L['cont'], 100))
    if len(cnt) != 1: return
    k = cnt[0]
    x2 = vpow(LD(X, scale(psym(k), Fraction(8))), N(2))
    # the squared result, on each of its branches, is a sum of accumulators
    names = set(L['nxt'])
    # loop variables that never become negative: start at a non-negative number, become |x| or stay
    def nonneg_sym(nm):
        i0 = L['ini'][nm]
        if not (isinstance(i0, Leaf) and isinstance(i0.v, Poly) and is_num(i0.v) and numval(i0.v) >= 0): return False
        return all(isinstance(l, Poly) and (l is psym(nm) or (the_atom(leaf(l)) is not None and the_atom(leaf(l)).kind == 'fn' and the_atom(leaf(l)).args[0] == 'abs')) for l in leaves(L['nxt'][nm]))
    nn = {nm for nm in names if nonneg_sym(nm)}
    def absorb(a):
        if a.kind == 'fn' and a.args[0] == 'abs' and isinstance(a.args[1], Poly) and the_atom(leaf(a.args[1])) is not None and the_atom(leaf(a.args[1])).kind == 'sym' and the_atom(leaf(a.args[1])).args[0] in nn: return leaf(a.args[1])
        return None
    res = tmap(vmul(t.val, t.val), absorb)
    monos = {}
    for l in leaves(res):
        for mo_, cc in (l.terms if isinstance(l, Poly) else ()): monos[mono_key(mo_)] = mk({mono_key(mo_): (mo_, cc)})
    r.ob(all(syms(m) & names for m in monos.values()) and monos, 'result', None, 'the result is %s' % brief(t.val, 250))
    tot = leaf(ZERO)
    for m in monos.values(): tot = vadd(tot, leaf(m))
    c.count('accumulators', len(monos))
    ini = {nm: v for nm, v in L['ini'].items()}
    def step(v): return tmap(subst(v, {nm: L['nxt'][nm] for nm in names}, {}), absorb)
    r.ob(same(subst(tot, ini, {}), N(0)), 'start', None, 'the sums start at %s' % brief(subst(tot, ini, {}), 80))
    d = vsub(step(tot), tot)
    ok = True
    for cond, l in paths_of(d):
        want = x2
        for b, pol in cond:
            p = b.args[1]
            if b.args[0] == '==' and pol and isinstance(p, Poly) and p is fn('abs', LD(X, scale(psym(k), Fraction(8))).v): want = N(0)
        c.count('branches of the sum')
        if not same(leaf(l) if not isinstance(l, (Leaf, Node)) else l, want):
            ok = False
            r.ob(False, 'element', None, 'an element adds %s to the sum of squares when %s' % (brief(leaf(l), 120), [(brief(leaf(b.args[1]), 60), b.args[0], pol) for b, pol in cond][:5]))
    r.ob(ok, 'element', None, 'an element does not add its square', sample='each element adds x^2 to exactly one accumulator')
    # accumulators left out of a branch of the result are zero or negligible there
    for cond, l in paths_of(res):
        if not isinstance(l, Poly): r.ob(False, 'combination', None, 'the result is %s' % brief(t.val, 100)); continue
        zero = [b.args[1] for b, pol in cond if b.args[0] == '==' and pol]
        have = {mono_key(mo_) for mo_, cc in l.terms}
        same_c = all(monos[mono_key(mo_)] is mk({mono_key(mo_): (mo_, cc)}) for mo_, cc in l.terms)
        for key, m in monos.items():
            if key in have: continue
            if any(any(patom(a) is z for z in zero) for a, e in m.terms[0][0]): continue
            # does it only collect tiny elements?
            tiny = True
            for c2, l2 in paths_of(vsub(step(leaf(m)), leaf(m))):
                if l2 is ZERO: continue
                ax = fn('abs', LD(X, scale(psym(k), Fraction(8))).v)
                small = False
                for b, pol in c2:
                    p = b.args[1]
                    if b.args[0] == '<' and isinstance(p, Poly) and not pol and len(p.terms) == 2:
                        d0 = dict((mono_key(mo_), (mo_, cc)) for mo_, cc in p.terms)
                        # not (1 - a|x| < 0): |x| <= 1/a
                        c1 = [cc for mo_, cc in p.terms if not mo_]; ca = [cc for mo_, cc in p.terms if mo_ and mo_[0][0] is ax.terms[0][0][0][0]]
                        if c1 and ca and c1[0] > 0 and ca[0] < 0 and c1[0] / -ca[0] < Fraction(1, 10 ** 15): small = True
                tiny &= small
            r.ob(tiny, 'combination', None, 'the part %s of the sum of squares is left out of the result' % brief(leaf(m), 100))
        r.ob(same_c, 'combination', None, 'a part of the sum of squares enters the result with another factor')

def paths_of(v):
    """(list of (condition, polarity), leaf value) for every branch of a diagram"""
    out = []
    def go(n, c):
        if isinstance(n, Leaf): out.append((c, n.v)); return
        go(n.hi, c + [(n.var, True)]); go(n.lo, c + [(n.var, False)])
    go(v, [])
    return out

# ------------------------------------------------------------------ M05 weights, masks, set-up for fitting
FIN = lambda x: bnot(vcmp('==', vfn('isfinite', x), N(0)))

def header_consts(*names):
    """integer constants of the project, by name, from the preprocessed headers"""
    out = {}
    txt = build.preprocessed('core/model_object.cpp')
    for n in names:
        m = re.findall(r'\bconst\s+int\s+%s\s*=\s*(-?\d+)\s*;' % n, txt)
        if not m: raise AnalysisError('constant %s not found' % n)
        out[n] = int(m[-1])
    return out

def each(r, what, pred, conds, value, cond=None, total=None, floor=None):
    """exactly one store per pixel into the array, under the condition, with the value"""
    ws = [(n, e, q) for n, e, q in r.t.stores(pred) if under(pc_of(e), *conds) is not FALSE]
    total = total or psym('this.nDataVals')
    if not r.ob(len(ws) == 1, what, ws[0][1] if ws else None, '%s: written %d times per pixel' % (what, len(ws))): return None
    n, e, q = ws[0]
    for q2 in leaves(under(unver(e.ptr), *conds)):
        if isinstance(q2, Ptr): q = q2
    A = scale(q.off, Fraction(1, 8))
    why = covers(A, e, total, DIMS)
    r.ob(why is None, what + ':range', e, '%s: %s' % (what, why))
    if why: return n
    o = LD(q.obj, q.off)
    p = unver(under(pc_of(e), *conds))
    w = cond(q.obj, q.off) if cond else TRUE
    r.ob(p is w, what + ':condition', e, '%s: written when %s' % (what, brief(p, 150)))
    g = under(val_of(e, *conds), *( [w] if w is not TRUE else []))
    r.c.count('pixel rules')
    r.ob(same(g, value(q.obj, q.off)), what + ':value', e, '%s: the value is %s' % (what, brief(g, 200)), sample='%s: %s' % (r.name, what))
    return n

def exists_conds(v, pol=True):
    """v: a truth value. Returns the list of per-pixel conditions any of which, at any pixel, makes v false; None when v has another form"""
    out = []
    n = v
    while isinstance(n, Node):
        p = n.var.args[1]
        a = the_atom(leaf(p)) if isinstance(p, Poly) else None
        if a is None and isinstance(p, Poly): a = the_atom(leaf(neg(p)))
        if a is None: return None
        if n.var.args[0] == '==' and n.lo is FALSE: nxt = n.hi
        elif n.var.args[0] == '<' and n.hi is FALSE and p.terms[0][1] < 0: nxt = n.lo
        else: return None
        if a.kind == 'mu':
            me, it = mu_names(a)
            stay = leaf(psym(me))
            if a.args[1] is not N(0): return None
            conds = FALSE
            for path, l in paths_of(a.args[2]):
                if l is psym(me): continue
                if l is not ONE and l != True: return None
                c = TRUE
                for b, q in path: c = band(c, node(b, TRUE, FALSE) if q else node(b, FALSE, TRUE))
                conds = bor(conds, c)
            out.append((subst(conds, {it: psym('$p')}, {}), a.args[3]))
        elif a.kind == 'sum':
            conds = FALSE
            for path, l in paths_of(a.args[1]):
                if l is ZERO: continue
                if not is_num(l) or numval(l) <= 0: return None
                c = TRUE
                for b, q in path: c = band(c, node(b, TRUE, FALSE) if q else node(b, FALSE, TRUE))
                conds = bor(conds, c)
            out.append((subst(conds, {a.args[0]: psym('$p')}, {}), leaf(a.args[2])))
        else: return None
        n = nxt
    return out if n is TRUE else None

def M05():
    c = Check('M05', 'Value numbering of the operations that prepare data for fitting: conversion of error images to weights, Gaussian error model, mask conventions and valid-pixel count, masking of non-finite pixels, '
              'application of the mask, vetting, and their order in the final set-up, each compared per pixel with the documented rule as normal-form terms.')
    K = header_consts('WEIGHTS_ARE_SIGMAS', 'WEIGHTS_ARE_VARIANCES', 'WEIGHTS_ARE_WEIGHTS', 'MASK_ZERO_IS_GOOD', 'MASK_ZERO_IS_BAD')
    nd = psym('this.nDataVals'); pos = vcmp('>', leaf(nd), N(0))
    th = leaf(Ptr('this', ZERO)); VEC = ('arg', 'pixels')
    def end(t, name, bits=8, *conds):
        return unver(alloc_ok(under(t.m.load(t.out, Ptr('this', num(mo(name))), ir.PTR if bits == 'p' else ir.INT(bits) if bits != 'd' else ir.DOUBLE), *(list(conds) + [pos]))))
    def args(kind): return [th, S('nvals'), S('ncols'), S('nrows'), leaf(Ptr(VEC, ZERO)), N(kind)]
    # --- image description
    t = mo_trace('AddImageCharacteristics', keep=False, args=[th, S('gain'), S('rn'), S('texp'), S('ncomb'), S('sky')]); r = Rule(c, t, 'AddImageCharacteristics'); r.frame()
    ge = vmul(S('gain'), vmul(S('texp'), S('ncomb')))
    for nm, bits, w in (('originalSky', 'd', S('sky')), ('nCombined', 32, S('ncomb')), ('effectiveGain', 'd', ge), ('readNoise_adu_squared', 'd', vdiv(vmul(S('rn'), S('rn')), vmul(ge, ge)))):
        g = end(t, nm, bits)
        c.count('pixel rules')
        r.ob(same(g, w), nm, None, '%s becomes %s' % (nm, brief(g, 100)))
    # --- error images
    for kind, f in (('WEIGHTS_ARE_SIGMAS', lambda x: vpow(x, N(-1))), ('WEIGHTS_ARE_VARIANCES', lambda x: vpow(x, N(Fraction(-1, 2)))), ('WEIGHTS_ARE_WEIGHTS', lambda x: vpow(x, N(Fraction(1, 2))))):
        t = mo_trace('AddErrorVector', keep=False, args=args(K[kind])); r = Rule(c, t, 'AddErrorVector'); r.frame('weightVector', VEC)
        each(r, kind, lambda o: o == VEC or base(o) == arr('weightVector') or is_ret(o), [], lambda o, q: f(LD(VEC, q)))
        v = end(t, 'weightVector', 'p')
        r.ob(isinstance(v, Leaf) and isinstance(v.v, Ptr) and v.v.off is ZERO and (v.v.obj == VEC or is_ret(v.v.obj)), kind + ':kept', None, 'the weights kept are %s' % brief(v, 80))
        for nm in ('weightValsSet', 'externalErrorVectorSupplied'): r.ob(end(t, nm) is N(1), kind + ':' + nm, None, '%s becomes %s' % (nm, brief(end(t, nm), 60)))
        owner_ok(r, t, 'weightVector', 'weightVectorAllocated', VEC)
    # --- Gaussian errors from the data
    t = mo_trace('GenerateErrorVector', keep=False); r = Rule(c, t, 'GenerateErrorVector'); r.frame('weightVector')
    def gauss(o, q):
        fl = LD(arr('dataVector'), q); tot = vadd(fl, SKY)
        return ite(vcmp('<', tot, N(0)), vpow(vmul(S('this.nCombined'), S('this.readNoise_adu_squared')), N(Fraction(-1, 2))), vpow(noise2(fl), N(Fraction(-1, 2))))
    for d, cc in combos('weightVectorAllocated'):
        each(r, 'weights:' + cname(d), lambda o: base(o) == arr('weightVector') or is_ret(o), cc, gauss)
    r.ob(end(t, 'weightValsSet') is N(1), 'weightValsSet', None, 'weights are not marked as set')
    r.ob(alloc_ok(t.val) is N(0), 'status', None, 'reports %s' % brief(t.val, 60))
    for meth in ('UseModelErrors', 'UseCashStatistic', 'UsePoissonMLR'):
        t = mo_trace(meth, keep=False); r = Rule(c, t, meth); r.frame('weightVector', 'extraCashTermsVector')
        for d, cc in combos('weightVectorAllocated'):
            each(r, 'weights:' + cname(d), lambda o: base(o) == arr('weightVector') or (is_ret(o) and o == getattr(end(t, 'weightVector', 'p', *cc), 'v', None).obj), cc, lambda o, q: N(1))
        want = dict(UseModelErrors=dict(modelErrors=1, dataErrors=0, weightValsSet=1), UseCashStatistic=dict(useCashStatistic=1, weightValsSet=1), UsePoissonMLR=dict(useCashStatistic=1, poissonMLR=1, weightValsSet=1))[meth]
        for nm, w in want.items(): r.ob(end(t, nm) is N(w), nm, None, '%s becomes %s' % (nm, brief(end(t, nm), 60)))
    # --- masks
    for kind, good in (('MASK_ZERO_IS_GOOD', lambda x: band(FIN(x), bnot(vcmp('>', x, N(0))))), ('MASK_ZERO_IS_BAD', lambda x: band(FIN(x), bnot(vcmp('<', x, N(1)))))):
        t = mo_trace('AddMaskVector', keep=False, args=args(K[kind])); r = Rule(c, t, 'AddMaskVector'); r.frame('maskVector', VEC)
        ws = t.stores(lambda o: o == VEC or is_ret(o))
        seen = {}
        for n, e, q in ws:
            A = scale(q.off, Fraction(1, 8))
            why = covers(A, e, nd, DIMS)
            r.ob(why is None, kind + ':range', e, '%s: %s' % (kind, why))
            if why: continue
            want = ite(good(LD(VEC, q.off)), N(1), N(0))
            p = unver(pc_of(e)); v = val_of(e)
            # the value written wherever this store happens
            r.ob(under_ite(p, v, want), kind + ':value', e, '%s: a mask pixel becomes %s when %s' % (kind, brief(v, 80), brief(p, 100)))
            k = e.loops[-1][0] if e.loops else None
            seen.setdefault(1, []).append(subst(p, {kk: psym('$k%d' % j) for j, (kk, K_) in enumerate(e.loops)}, {}))
            c.count('pixel rules')
        tot = FALSE
        for p in seen.get(1, []): tot = bor(tot, p)
        r.ob(tot is TRUE, kind + ':all', None, '%s: some mask pixels are not converted' % kind)
        b = fresh('$n')
        w = bind('sum', b, ite(good(LD(VEC, scale(psym(b), Fraction(8)))), N(1), N(0)), leaf(nd))
        g = end(t, 'nValidDataVals', 64)
        r.ob(same(g, under(w, pos)), kind + ':count', None, '%s: the number of valid pixels becomes %s' % (kind, brief(g, 150)))
        r.ob(end(t, 'maskExists') is N(1) and alloc_ok(t.val) is N(0), kind + ':flag', None, '%s: the mask is not marked as present' % kind)
        v = end(t, 'maskVector', 'p')
        r.ob(isinstance(v, Leaf) and isinstance(v.v, Ptr) and v.v.off is ZERO and (v.v.obj == VEC or is_ret(v.v.obj)), kind + ':kept', None, 'the mask kept is %s' % brief(v, 80))
    # --- mask applied to weights
    t = mo_trace('ApplyMask', keep=False); r = Rule(c, t, 'ApplyMask'); r.frame('weightVector')
    both = [FLAG('weightValsSet'), FLAG('maskExists')]
    ws = t.stores(lambda o: base(o) == arr('weightVector'))
    cover = FALSE
    for n, e, q in ws:
        A = scale(q.off, Fraction(1, 8))
        why = covers(A, e, nd, DIMS)
        r.ob(why is None, 'range', e, '%s' % why)
        p0 = unver(under(pc_of(e), *both))
        cover = bor(cover, subst(p0, {kk: psym('$k%d' % j) for j, (kk, K_) in enumerate(e.loops)}, {}))
        m, w = LD(arr('maskVector'), q.off), LD(arr('weightVector'), q.off)
        prod = vmul(m, w)
        for path, l in paths_of(band_val(p0, val_of(e, *both))):
            if l is None: continue
            lits = [(b, pl) for b, pl in path]
            finite = any(b.args[0] == '==' and not pl and b.args[1] is vfn('isfinite', prod).v for b, pl in lits)
            msk = mask_value(lits, m.v)
            if msk == 0 or msk is None: r.ob(l is ZERO or (finite and l is prod.v) or (msk is None and l is prod.v), 'value', e, 'the weight of a masked pixel becomes %s' % brief(leaf(l), 80))
            if msk == 1 or msk is None: r.ob(l is prod.v or (l is w.v and msk == 1), 'value', e, 'the weight of an unmasked pixel becomes %s' % brief(leaf(l), 80))
            if msk is None and l is prod.v and not finite:
                nonfin = any(b.args[0] == '==' and pl and b.args[1] is vfn('isfinite', prod).v for b, pl in lits)
                r.ob(False, 'value', e, 'a masked pixel with a non-finite weight keeps it')
        c.count('pixel rules')
    r.ob(cover is TRUE or covered(cover, lambda off: LD(arr('maskVector'), off)), 'condition', None, 'some weights are not masked: %s' % brief(cover, 150))
    # --- vetting
    t = mo_trace('CheckWeightVector', keep=False); r = Rule(c, t, 'CheckWeightVector'); r.frame()
    p8 = scale(psym('$p'), Fraction(8)); wp = LD(arr('weightVector'), p8); mp = LD(arr('maskVector'), p8)
    for d, cc in combos('maskExists'):
        v = unver(under(t.val, *cc + [pos]))
        ex = exists_conds(truth(v))
        if not r.ob(ex is not None, cname(d), None, 'the verdict is %s' % brief(v, 200)): continue
        bad = FALSE
        for cd, K_ in ex:
            bad = bor(bad, cd)
            r.ob(under(K_, pos) is leaf(nd), cname(d) + ':range', None, 'only %s weights are checked' % brief(K_, 60))
        want = band(vcmp('>', mp, N(0)), bor(bnot(FIN(wp)), vcmp('<', wp, N(0)))) if d['maskExists'] else bnot(FIN(wp))
        # negative weights may be rejected without a mask, too
        r.ob(bad is want or (not d['maskExists'] and bad is bor(want, vcmp('<', wp, N(0)))), cname(d) + ':rule', None, 'weights are rejected when %s' % brief(bad, 200), sample='weights: finite and non-negative')
        c.count('pixel rules')
    t = mo_trace('VetDataVector', keep=False); r = Rule(c, t, 'VetDataVector'); r.frame('dataVector')
    v = unver(under(t.val, pos)); ex = exists_conds(truth(v))
    dp = LD(arr('dataVector'), p8)
    if r.ob(ex is not None, 'verdict', None, 'the verdict is %s' % brief(v, 200)):
        bad = FALSE
        for cd, K_ in ex:
            bad = bor(bad, cd); r.ob(under(K_, pos) is leaf(nd), 'range', None, 'only %s data values are checked' % brief(K_, 60))
        r.ob(bad is band(bnot(FIN(dp)), vcmp('>', mp, N(0))), 'rule', None, 'data are rejected when %s' % brief(bad, 200))
    each(r, 'masked non-finite data', lambda o: base(o) == arr('dataVector'), [], lambda o, q: N(0), lambda o, q: band(bnot(FIN(LD(arr('dataVector'), q))), bnot(vcmp('>', LD(arr('maskVector'), q), N(0)))))
    final_setup(c, K, nd, pos, end)
    # --- data
    t = mo_trace('AddImageDataVector', keep=False, hooks={'ModelObject::SetupModelImage': lambda fr, i, a, m: (S('sstat'), m), 'virt:SetupModelImage': lambda fr, i, a, m: (S('sstat'), m)}, args=[th, leaf(Ptr(VEC, ZERO)), S('nc'), S('nr')]); r = Rule(c, t, 'AddImageDataVector'); r.frame()
    for nm, bits, w in (('nDataVals', 64, vmul(S('nc'), S('nr'))), ('nValidDataVals', 64, vmul(S('nc'), S('nr'))), ('dataVector', 'p', leaf(Ptr(VEC, ZERO))), ('dataValsSet', 8, N(1))):
        g = end(t, nm, bits)
        r.ob(g is w or same(g, w), nm, None, '%s becomes %s' % (nm, brief(g, 80)))
    cs = t.calls('ModelObject::SetupModelImage', 'virt:SetupModelImage')
    r.ob(len(cs) == 1 and list(cs[0][1].args[1:3]) == [S('nc'), S('nr')] and pc_of(cs[0][1]) is TRUE, 'model image', None, 'the model image is not set up for the data')
    r.ob(neg_iff(t.val, vcmp('<', S('sstat'), N(0))), 'status', None, 'reports %s' % brief(t.val, 80))
    c.floor('pixel rules', 25)
    return c.finish()

def truth(v): return apply(lambda x: leaf(x) if isinstance(x, bool) else (TRUE if x is ONE else FALSE if x is ZERO else leaf(x)), 'truth', v)

def neg_iff(v, cond):
    """v is negative exactly when cond holds (v's leaves are numbers)"""
    s_ = apply(lambda x: (TRUE if numval(x) < 0 else FALSE) if isinstance(x, Poly) and is_num(x) else BOT, 'isneg', v)
    return s_ is cond

def under_ite(p, v, want):
    """v equals want wherever p holds"""
    for path, l in paths_of(p):
        if l is not True: continue
        a, b = v, want
        for x, pl in path: a, b = restrict(a, x, pl), restrict(b, x, pl)
        if not (a is b or same(a, b)): return False
    return True
def band_val(p, v):
    """v where p holds, None elsewhere"""
    return ite(p, v, leaf(None)) if p is not TRUE else v
def mask_value(lits, m):
    """0 / 1 when the branch says the mask value is zero / not zero"""
    for b, pl in lits:
        if b.args[0] == '==' and b.args[1] is m: return 0 if pl else 1
        if b.args[0] == '<' and b.args[1] is neg(m): return 1 if pl else 0
    return None
def covered(p, mask):
    """everything except 'mask is not zero' (an unmasked weight may be left alone)"""
    for path, l in paths_of(p):
        if l is True: continue
        if not any(b.args[0] in ('==', '<') and isinstance(b.args[1], Poly) and any(a.kind == 'load' and base(a.args[0]) == arr('maskVector') for a in atoms_of(b)) and ((b.args[0] == '==') != pl) for b, pl in path): return False
    return True
def owner_ok(r, t, field, flag, vec):
    """a vector that belongs to the caller is not marked as allocated here; an earlier internal one is released"""
    fr = [e for n, e in t.calls('free') if any(isinstance(q, Ptr) and base(q.obj) == arr(field) for q in leaves(unver(e.args[0])))]
    v = unver(t.m.load(t.out, Ptr('this', num(mo(flag))), ir.INT(8)))
    kept = unver(t.m.load(t.out, Ptr('this', num(mo(field))), ir.PTR))
    if isinstance(kept, Leaf) and isinstance(kept.v, Ptr) and kept.v.obj == vec:
        r.ob(same(v, N(0)) or under(v, FLAG(flag)) is N(0), flag, None, 'the caller\'s vector is marked as owned: %s' % brief(v, 80))
    r.ob(len(fr) == 1 and pc_of(fr[0]) is FLAG(flag), field + ':released', None, 'an internally allocated vector is not released exactly when there is one')

def final_setup(c, K, nd, pos, end):
    HS = {}
    for nm, v in (('GenerateErrorVector', S('gstat')), ('CheckWeightVector', nz(S('wok'))), ('VetDataVector', nz(S('dok'))), ('ApplyMask', BOT), ('GenerateExtraCashTerms', BOT)):
        h = (lambda v: lambda fr, i, a, m: (v, m))(v)
        HS['ModelObject::' + nm] = h; HS['virt:' + nm] = h
    t = mo_trace('FinalSetupForFitting', keep=False, hooks=HS); r = Rule(c, t, 'FinalSetupForFitting'); r.frame('maskVector', 'weightVector')
    ok = vcmp('>=', S('gstat'), N(0))
    ev = {nm: t.calls('ModelObject::' + nm, 'virt:' + nm) for nm in ('GenerateErrorVector', 'CheckWeightVector', 'VetDataVector', 'ApplyMask', 'GenerateExtraCashTerms')}
    for nm, l in ev.items():
        if not r.ob(len(l) == 1, nm, None, '%s happens %d times' % (nm, len(l))): return
    at = {nm: l[0][0] for nm, l in ev.items()}
    gen = band(bnot(FLAG('useCashStatistic')), band(FLAG('dataErrors'), bnot(FLAG('externalErrorVectorSupplied'))))
    want = dict(GenerateErrorVector=gen, CheckWeightVector=TRUE, ApplyMask=TRUE, VetDataVector=FLAG('dataValsSet'), GenerateExtraCashTerms=band(FLAG('useCashStatistic'), FLAG('poissonMLR')))
    for nm, w in want.items():
        p = unver(under(pc_of(ev[nm][0][1]), ok))
        r.ob(p is w or (nm == 'VetDataVector' and p is TRUE), nm + ':condition', ev[nm][0][1], '%s happens when %s' % (nm, brief(p, 150)))
    ismask = lambda o: base(o) == arr('maskVector') or is_ret(o)
    isw = lambda o: base(o) == arr('weightVector')
    for n, e, q in t.stores(isw):
        if any(isinstance(q2, Ptr) and ismask(q2.obj) for q2 in leaves(unver(e.ptr))) and not isw(base(q.obj)): continue
        p = unver(alloc_ok(drop_loop_conds(e.pc, e)))
        nonfin = bnot(FIN(LD(arr('weightVector'), q.off)))
        good = val_of(e) is N(0) and all(any(pl and b.args[0] == '==' and node(b, TRUE, FALSE) is nonfin for b, pl in path) and
                                         any(pl and b.args[0] == '<' and (lambda a: a is not None and a.kind == 'load' and ismask(base(a.args[0])) and a.args[1] is q.off)(the_atom(leaf(neg(b.args[1])))) for b, pl in path)
                                         for path, l in paths_of(p) if l is True)
        r.ob(good, 'weights', e, 'a weight becomes %s when %s' % (brief(val_of(e), 60), brief(p, 150)))
    for d, cc in combos('maskExists', 'externalErrorVectorSupplied'):
        cc = cc + [ok]
        tag = cname(d)
        mws = [(n, e, q) for n, e, q in t.stores(ismask) if under(pc_of(e), *cc) is not FALSE and not any(isw(q3.obj) for q3 in leaves(unver(e.ptr)) if isinstance(q3, Ptr))]
        init = [x for x in mws if val_of(x[1], *cc) is N(1)]
        zero = [x for x in mws if val_of(x[1], *cc) is N(0)]
        r.ob(len(init) == (0 if d['maskExists'] else 1) and len(zero) == 1 + d['externalErrorVectorSupplied'] and len(mws) == len(init) + len(zero), tag + ':mask', None, '%s: the mask is written by %d + %d + %d operations' % (tag, len(init), len(zero), len(mws) - len(init) - len(zero)))
        for n, e, q in init:
            A = scale(q.off, Fraction(1, 8))
            r.ob(covers(A, e, nd, DIMS) is None and under(pc_of(e), *cc) is TRUE, tag + ':default mask', e, 'the default mask does not cover the image')
        total = S('this.nValidDataVals')
        seen = set()
        for n, e, q in zero:
            for q2 in leaves(under(unver(e.ptr), *cc)):
                if isinstance(q2, Ptr): q = q2
            A = scale(q.off, Fraction(1, 8))
            why = covers(A, e, nd, DIMS)
            r.ob(why is None, tag + ':non-finite range', e, '%s' % why)
            if why: continue
            p = unver(under(alloc_ok(drop_loop_conds(e.pc, e)), *cc))
            m = vcmp('>', unver(LD(q.obj, q.off)), N(0))
            p = tmap_obj(p)
            for what, vec in (('data', 'dataVector'), ('errors', 'weightVector')):
                cnd = band(m, bnot(FIN(LD(arr(vec), q.off))))
                if p is cnd:
                    seen.add(what)
                    b = fresh('$n'); kk = e.loops[-1][0]
                    b8 = scale(psym(b), Fraction(8))
                    total = vsub(total, bind('sum', b, ite(band(vcmp('>', LD(q.obj, b8), N(0)), bnot(FIN(LD(arr(vec), b8)))), N(1), N(0)), leaf(nd)))
                    r.ob(n < at['ApplyMask'], tag + ':%s order' % what, e, 'non-finite %s are masked after the mask has been applied' % what)
                    if what == 'errors': r.ob(True, tag, e, '')
            c.count('pixel rules')
        wantseen = {'data'} | ({'errors'} if d['externalErrorVectorSupplied'] else set())
        r.ob(seen == wantseen, tag + ':non-finite', None, '%s: unmasked non-finite pixels are masked for %s' % (tag, sorted(seen)))
        g = tmap_obj(end(t, 'nValidDataVals', 64, *cc))
        if seen == wantseen: r.ob(same(g, under(total, pos)), tag + ':count', None, '%s: the number of valid pixels becomes %s' % (tag, brief(g, 250)))
        bad = vcmp('<', under(total, pos), N(1))
        st = tmap_obj(unver(alloc_ok(under(t.val, *(cc + [pos])))))
        w = bor(bnot(nz(S('wok'))), band(FLAG('dataValsSet'), bnot(nz(S('dok')))))
        got = apply(lambda x: (TRUE if numval(x) < 0 else FALSE) if isinstance(x, Poly) and is_num(x) else BOT, 'isneg', st)
        few = vcmp('<', g, N(1))
        r.ob(got is bor(w, few), tag + ':status', None, '%s: an unusable set-up is not reported: status %s' % (tag, brief(st, 200)))
        r.ob(end(t, 'maskExists', 8, *cc) in (N(1), S('this.maskExists')) , tag + ':maskExists', None, 'maskExists becomes %s' % brief(end(t, 'maskExists', 8, *cc), 60))
        if not d['maskExists']:
            r.ob(end(t, 'maskVectorAllocated', 8, *cc) is N(1), tag + ':owned', None, 'the default mask is never released')
    r.ob(at['GenerateErrorVector'] < at['ApplyMask'] < at['CheckWeightVector'], 'order', ev['ApplyMask'][0][1], 'weights are not generated, masked and checked in this order')
    r.ob(at['VetDataVector'] < at['GenerateExtraCashTerms'] and at['GenerateExtraCashTerms'] > 0, 'order:terms', ev['GenerateExtraCashTerms'][0][1], 'the data-only terms of the statistic are computed before masked non-finite data are zeroed')
    v = unver(t.val)
    r.ob(all(numval(l) < 0 for l in leaves(alloc_ok(under(t.val, gen, vcmp('<', S('gstat'), N(0))))) if isinstance(l, Poly) and is_num(l)) , 'status:weights', None, 'failure to generate weights is not reported')

def tmap_obj(v):
    """loads from versions of the same array are the same"""
    return unver(v)

TABLE = {'M01': M01, 'M02': M02, 'M03': M03, 'M04': M04, 'M05': M05}

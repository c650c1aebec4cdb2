"""The model seen as a whole: multi-image fits and the identity of parameters from input to report."""
import re
from fractions import Fraction
from . import build, ir, gsa, cas, trace, strs
from .build import AnalysisError, dm
from .cas import *
from .report import Check, loc
from .trace import *
from .checks_pipe import P, Rule, arr, mo, fld, LD, ADDR, virt, under, alloc_ok, unver, pc_of, val_of, same, nz, maxz, FLAG, combos, cname, the_atom, atoms_of, paths_of, MO

MM, PH = 'ModelObjectMultImage', 'ParamHolder'
def obj_term(q): return patom(atom('load', q.obj, q.off, 'addr'))
def getter(nm): return lambda fr, i, a, m: (apply(lambda q: virt(nm, obj_term(q)) if isinstance(q, Ptr) else BOT, 'obj' + nm, a[0]), m)
def mm_virt(p):
    mov = p.off(MM, 'modelObjectsVect')
    return p.virt([(lambda o: o == 'this', MM, True), (lambda o: isinstance(o, tuple) and bool(o) and o[0] == '*' and base(o[1]) == member(mov), MO, False), (lambda o: True, 'FunctionObject', False)])
def mm_trace(meth, args=None, extra=None, strings=False):
    p = P()
    H = {PH + '::' + x: OPAQUE_VOID for x in ('AddNewParameterVector', 'GetImageParams', 'GetParamsForModelObject', 'GeneralSetup')}
    for nm in ('GetNDataValues', 'GetNParams', 'GetNValidPixels'): H[MO + '::' + nm] = H['virt:' + nm] = getter(nm)
    H.update(extra or {})
    # the number of images is the length of the list of images
    m = gsa.Mem(); o = p.off(MM, 'modelObjectsVect')
    m.d[('this', o + 8)] = leaf(Ptr(member(o), scale(psym('this.nModelObjects'), Fraction(8))))
    return Trace(p, p.method(MM, meth), MM, args=args, hooks=H, virt=mm_virt(p), strings=strings, mem=m)
def ph_trace(meth, args=None, extra=None):
    p = P(); return Trace(p, p.method(PH, meth), PH, args=args, hooks=extra or {})
def sp(x): return leaf(psym(x)) if isinstance(x, str) else x
def ptr(o, off=0): return leaf(Ptr(o, num(off) if isinstance(off, int) else off))
def endv(t, cls, nm, bits=64, *conds):
    ty = ir.PTR if bits == 'p' else ir.DOUBLE if bits == 'd' else ir.INT(bits)
    return unver(alloc_ok(under(t.m.load(t.out, Ptr('this', num(P().off(cls, nm))), ty), *conds)))
def parr(cls, nm): return member(P().off(cls, nm))

def ph_rule(c):
    """the conversion of one global parameter vector into each image's parameters"""
    p = P()
    PAR, OUT = 'PAR', 'OUT'
    th = ptr('this')
    img, nI, nM = S('img'), psym('this.nImageParameters'), psym('this.nModelParameters')
    par = lambda i: L(PAR, scale(i, Fraction(8)))
    size = lambda n: L(parr(PH, 'parameterSizes'), scale(n, Fraction(4)))
    flag = lambda n: nz(L(parr(PH, 'functionSetStartFlags'), n))
    local = lambda n: L(parr(PH, 'nLocalParamsForImages'), scale(n, Fraction(4)))
    im = lambda j: par(add(scale(sub(psym('img'), ONE), Fraction(5)), num(j)))
    t = ph_trace('AssembleParametersForImage', [th, ptr(PAR), img, ptr(OUT)]); r = Rule(c, t, 'AssembleParametersForImage')
    for nm, cc in (('main image', [vcmp('==', img, N(0))]), ('other image', [vcmp('>', img, N(0)), vcmp('>', im(0), N(0))])):
        cc = cc + [bnot(vcmp('<', img, N(0)))]
        if nm == 'main image': sb = lambda v: subst(v, {'img': N(0)}, {})
        else: sb = lambda v: v
        ws = []
        for n, e, q in t.stores(lambda o: base(o) == OUT):
            pc = unver(under(pc_of(e, *cc), *cc)); pc = unver(under(sb(pc), *cc))
            if pc is FALSE: continue
            ws.append((n, e, q, pc))
        fills = []; firsts = []; sets = []; locs = []
        for n, e, q, pc in ws:
            A = scale(q.off, Fraction(1, 8)); A = sb(leaf(A)).v
            v = unver(under(sb(val_of(e, *cc)), *cc))
            ks = [k for k, K in e.loops if k in syms(A)]
            K = trip(e.loops[-1][1]) if e.loops else None
            if K is not None: K = sb(leaf(K)).v if isinstance(sb(leaf(K)), Leaf) else None
            if e.loops and A is psym(e.loops[-1][0]) and K is nM: fills.append((n, e, A, v, pc))
            elif not e.loops and A in (ZERO, ONE): firsts.append((n, e, A, v, pc))
            elif e.loops and A is add(nM, psym(e.loops[-1][0])): locs.append((n, e, A, v, pc, K))
            else: sets.append((n, e, A, v, pc, K))
        if not r.ob(len(fills) == 1, nm + ':base', None, '%s: the shared model parameters are copied by %d loops' % (nm, len(fills))): continue
        n0, e, A, v, pc = fills[0]
        r.ob(pc is TRUE and same(v, par(add(nI, A))), nm + ':base value', e, '%s: model parameter i becomes %s when %s' % (nm, brief(v, 100), brief(pc, 60)), sample='out[i] = params[nImageParameters + i]')
        c.count('conversion rules')
        if nm == 'main image':
            r.ob(not firsts and not sets, nm + ':untouched', (firsts + sets)[0][1] if firsts + sets else None, 'the main image\'s positions are changed')
        else:
            for j in (0, 1):
                l = [x for x in firsts if x[2] is num(j)]
                good = len(l) == 1 and l[0][4] is TRUE and l[0][0] > n0 and same(l[0][3], im(3 + j))
                r.ob(good, nm + ':XY'[0:1] + str(j), l[0][1] if l else None, '%s: %s of the first function set becomes %s' % (nm, 'XY'[j], [brief(x[3], 100) for x in l]), sample='first function set at the image\'s own X0,Y0')
                c.count('conversion rules')
            # function sets after the first
            ref = lambda j: par(add(nI, num(j)))
            deg = mul(im(1).v, num(math.pi / 180))
            sc = im(0)
            got = set()
            for n, e, A, v, pc, K in sets:
                k = e.loops[-1][0] if e.loops else None
                if not r.ob(k is not None and K is sub(psym('this.nFunctions'), ONE), nm + ':sets loop', e, '%s: a write outside the loop over functions: element %s' % (nm, brief(leaf(A), 100))): continue
                fl = flag(add(psym(k), ONE))
                pcs = unver(under(pc, vcmp('>', S('this.nFunctionSets'), N(1))))
                r.ob(pcs is fl and (pc is fl or pc is band(vcmp('>', S('this.nFunctionSets'), N(1)), fl)), nm + ':sets condition', e, '%s: a position is converted when %s' % (nm, brief(pc, 120)))
                b = fresh('$n'); nb = add(psym(b), ONE)
                at = vadd(vadd(N(2), size(ZERO)), bind('sum', b, vadd(size(nb), ite(flag(nb), N(2), N(0))), S(k)))
                hit = None
                for j in (0, 1):
                    if same(leaf(A), vadd(at, N(j))): hit = j
                if not r.ob(hit is not None, nm + ':sets element', e, '%s: the position of a later function set is written at %s' % (nm, brief(leaf(A), 150))): continue
                x = vsub(par(add(nI, at.v)), ref(0)); y = vsub(par(add(nI, add(at.v, ONE))), ref(1))
                co, si = vfn('cos', vmul(im(1), N(math.pi / 180))), vfn('sin', vmul(im(1), N(math.pi / 180)))
                w = vadd(im(3), vmul(sc, vadd(vmul(x, co), vmul(y, si)))) if hit == 0 else vadd(im(4), vmul(sc, vsub(vmul(y, co), vmul(x, si))))
                v = under(v, fl)
                r.ob(same(v, w), nm + ':sets value %s' % 'XY'[hit], e, '%s: the %s of a later function set becomes %s' % (nm, 'XY'[hit], brief(v, 300)), sample='later sets: offset from the first set, rotated and scaled')
                r.ob(n > n0, nm + ':sets order', e, 'positions are converted before the copy')
                got.add(hit); c.count('conversion rules')
            r.ob(got == {0, 1}, nm + ':sets both', None, 'not both coordinates of later function sets are converted: %s' % sorted(got))
        # this image's own functions
        idx = img
        if r.ob(len(locs) == 1, nm + ':local', None, '%s: the parameters of the image\'s own functions are written by %d loops' % (nm, len(locs))):
            n, e, A, v, pc, K = locs[0]
            b = fresh('$n')
            start = vadd(leaf(add(nI, nM)), bind('sum', b, local(psym(b)), idx))
            w = sb(par(add(start.v, psym(e.loops[-1][0])))) if isinstance(start, Leaf) else None
            pos = sb(vcmp('>', local(idx.v), N(0)))
            nloc = sb(local(idx.v)).v
            r.ob(pc in (TRUE, pos) and K is nloc and w is not None and same(v, w), nm + ':local value', e, '%s: the image\'s own parameter i becomes %s (i < %s, when %s)' % (nm, brief(v, 150), K and brief(leaf(K), 60), brief(pc, 60)), sample='own functions: after those of earlier images')
            c.count('conversion rules')
    # --- image descriptions and the assembly of every image
    t = ph_trace('AddNewParameterVector', [th, ptr(PAR)], {PH + '::AssembleParametersForImage': OPAQUE_VOID}); r = Rule(c, t, 'AddNewParameterVector')
    for j, nm, dflt in ((0, 'pixelScales', 1), (1, 'rotationAngles', 0), (2, 'intensityScales', 1)):
        o = parr(PH, nm); main = FALSE; oth = FALSE
        for n, e, q in t.stores(lambda x: base(x) == o):
            pc = unver(pc_of(e)); A = scale(q.off, Fraction(1, 8)); v = unver(val_of(e))
            k = e.loops[-1][0] if e.loops else None
            if A is ZERO:
                if k is None and v is N(dflt): main = bor(main, pc)
                elif r.ob(v is N(dflt) and pc is vcmp('==', S(k), N(0)), nm + ':main', e, '%s of the main image becomes %s when %s' % (nm, brief(v, 60), brief(pc, 80))): main = TRUE
            elif k is not None:
                K = trip(e.loops[-1][1])
                off = sub(A, psym(k))
                w = par(add(scale(sub(A, ONE), Fraction(5)), num(j)))
                cs = [vcmp('>', leaf(A), N(0)), bnot(vcmp('==', leaf(A), N(0)))]
                vv = under(v, *cs)
                good = is_num(off) and numval(off) in (0, 1) and K is sub(psym('this.nImages'), off) and same(vv, w) and under(pc, *cs) is TRUE
                r.ob(good, nm + ':other', e, '%s of image %s becomes %s when %s (up to %s)' % (nm, brief(leaf(A), 30), brief(vv, 150), brief(pc, 60), K and brief(leaf(K), 40)), sample='image n: params[5 (n - 1) + %d]' % j)
                if good: oth = TRUE
            else: r.ob(False, nm + ':other', e, '%s is written at %s' % (nm, brief(leaf(A), 60)))
        r.ob(main is TRUE and oth is TRUE, nm + ':set', None, '%s is not set for every image' % nm)
        c.count('conversion rules')
    cs = t.calls(PH + '::AssembleParametersForImage')
    good = False
    if len(cs) == 1:
        e = cs[0][1]; k = e.loops[-1][0] if e.loops else None
        good = k is not None and trip(e.loops[-1][1]) is psym('this.nImages') and pc_of(e) is TRUE and e.args[1] is ptr(PAR) and e.args[2] is S(k) and unver(e.args[3]) is leaf(Ptr(('*', parr(PH, 'perImageModelParameters'), scale(psym(k), Fraction(8))), ZERO))
    r.ob(good, 'assemble', cs[0][1] if cs else None, 'the parameters of some image are not assembled into its own vector')
    # --- readers
    t = ph_trace('GetImageParams', [th, img, ptr(OUT)]); r = Rule(c, t, 'GetImageParams')
    for j, nm in enumerate(('pixelScales', 'rotationAngles', 'intensityScales')):
        v = t.m.load(t.out, Ptr(OUT, num(8 * j)), ir.DOUBLE)
        r.ob(unver(v) is LD(parr(PH, nm), scale(psym('img'), Fraction(8))), nm, None, 'element %d of the image description is %s' % (j, brief(v, 80)))
        c.count('conversion rules')
    t = ph_trace('GetParamsForModelObject', [th, img, ptr(OUT)]); r = Rule(c, t, 'GetParamsForModelObject')
    ws = t.stores(lambda o: base(o) == OUT)
    good = False
    if len(ws) == 1:
        n, e, q = ws[0]
        A = scale(q.off, Fraction(1, 8))
        good = covers(A, e, the_count(parr(PH, 'nParamsPerModelObj'), psym('img'))) is None and pc_of(e) is TRUE and unver(val_of(e)) is LD(('*', parr(PH, 'perImageModelParameters'), scale(psym('img'), Fraction(8))), q.off)
    r.ob(good, 'copy', ws[0][1] if ws else None, 'an image\'s parameters are not copied in full')
    # --- set-up
    a = [S('nIm'), S('nF'), S('nTot'), S('nS'), ptr('SIZES'), ptr('FLAGS'), ptr('LOCAL')]
    t = ph_trace('GeneralSetup', [th] + a); r = Rule(c, t, 'GeneralSetup')
    fieldof = lambda nm, bits=32: subst(endv(t, PH, nm, bits, vcmp('>', S('nIm'), N(0))), {'this.nLocalParams': N(0)}, {})
    b = fresh('$n')
    loc_ = bind('sum', b, LD(('*', 'LOCAL', 0), scale(psym(b), Fraction(4))), S('nIm'))
    want = dict(nImages=S('nIm'), nImageParameters=vmul(N(5), vsub(S('nIm'), N(1))), nFunctions=S('nF'), nFunctionSets=S('nS'), nParametersTot=S('nTot'))
    want['nModelParameters'] = vsub(vsub(S('nTot'), want['nImageParameters']), loc_)
    for nm, w in want.items():
        g = fieldof(nm)
        r.ob(same(unver(g), w), nm, None, '%s becomes %s' % (nm, brief(g, 150)), sample='%s' % nm); c.count('conversion rules')
    for nm, o in (('parameterSizes', 'SIZES'), ('nLocalParamsForImages', 'LOCAL')):
        g = endv(t, PH, nm, 'p')
        r.ob(g is leaf(Ptr(('*', o, 0), ZERO)), nm, None, '%s is not the given list' % nm); c.count('conversion rules')
    fl = [(n, e, q) for n, e, q in t.stores(lambda o: isinstance(o, tuple) and o[0] == 'ret') if q.obj == (endv(t, PH, 'functionSetStartFlags', 'p').v.obj)]
    good = len(fl) == 1 and covers(fl[0][2].off, fl[0][1], psym('nF')) is None and same(val_of(fl[0][1]), ite(nz(LD('FLAGS', fl[0][2].off)), N(1), N(0))) or (len(fl) == 1 and truthy(val_of(fl[0][1])) is nz(LD('FLAGS', fl[0][2].off)))
    r.ob(good, 'functionSetStartFlags', fl[0][1] if fl else None, 'the starts of function sets are not copied')
    pushes(r, t, PH, {'perImageModelParameters': None, 'nParamsPerModelObj': lambda k: vadd(want['nModelParameters'], LD(('*', 'LOCAL', 0), scale(psym(k), Fraction(4))))}, psym('nIm'), {'this.nLocalParams': N(0)}, [vcmp('>', S('nIm'), N(0))])
    # each image's own vector is long enough and not shared
    for n, e in t.calls('calloc'):
        if e.loops:
            k = e.loops[-1][0]
            w = vadd(want['nModelParameters'], LD(('*', 'LOCAL', 0), scale(psym(k), Fraction(4))))
            g = under(subst(unver(e.args[0]), {'this.nLocalParams': N(0)}, {}), vcmp('>', S('nIm'), N(0)))
            r.ob(same(g, w), 'allocation', e, 'an image\'s parameter vector has %s elements' % brief(g, 120))

def truthy(v): return apply(lambda x: leaf(x) if isinstance(x, bool) else (bnot(cmp_norm('==', x)) if isinstance(x, Poly) else BOT), 'truthy', v)
def L(o, off):
    return gsa.Machine(P().prog).load(gsa.Mem(), Ptr(o, off), ir.DOUBLE)
def the_count(o, i): return LD(o, scale(i, Fraction(4))).v

def pushes(r, t, cls, want, total, env=None, conds=()):
    """for each list: exactly one append per iteration, with the given value"""
    for nm, w in want.items():
        o = P().off(cls, nm)
        l = [e for e in t.events if e.kind == 'call' and e.name and ('push_back' in e.name or 'emplace_back' in e.name) and e.args and e.args[0] is ptr('this', o)]
        if not r.ob(len(l) == 1, nm + ':appends', l[0] if l else None, '%s is extended by %d operations' % (nm, len(l))): continue
        e = l[0]
        K = trip(e.loops[-1][1]) if e.loops else None
        good = (K is total if total is not None else not e.loops)
        r.ob(good, nm + ':count', e, '%s is extended %s times' % (nm, K and brief(leaf(K), 60)))
        r.c.count('conversion rules')
        if w is None or e.val is None: continue
        k = e.loops[-1][0] if e.loops else None
        v = unver(under(subst(val_of(e), env or {}, {}), *conds))
        ww = w(k)
        r.ob(same(v, ww), nm + ':value', e, '%s gets %s' % (nm, brief(v, 150)))

def consumer_rule(c):
    """every evaluation of an image uses that image's description and parameters, extracted from the current vector"""
    p = P(); MOV = parr(MM, 'modelObjectsVect')
    th = ptr('this')
    nO = psym('this.nModelObjects')
    for meth, finals, args in (('GetFitStatistic', ('CashStatistic', 'ChiSquared'), [th, ptr('PAR')]), ('ComputeDeviates', ('ComputeDeviates',), [th, ptr('Y'), ptr('PAR')]),
                               ('CreateAllModelImages', ('CreateModelImage',), [th, ptr('PAR')])):
        t = mm_trace(meth, args); r = Rule(c, t, meth)
        hold = ptr('this', p.off(MM, 'parameterHolder'))
        adds = t.calls(PH + '::AddNewParameterVector')
        r.ob(len(adds) == 1 and pc_of(adds[0][1]) is TRUE and adds[0][1].args[1] is ptr('PAR') and not adds[0][1].loops, 'parameters', adds[0][1] if adds else None, 'the parameter vector given is not taken over exactly once')
        n_add = adds[0][0] if adds else -1
        setup_first(r, t, n_add)
        gip, gpm = t.calls(PH + '::GetImageParams'), t.calls(PH + '::GetParamsForModelObject')
        sip = t.calls('virt:SetImageParameters', MO + '::SetImageParameters')
        ev = t.calls(*['virt:' + f for f in finals] + [MO + '::' + f for f in finals])
        def canon(e, a):
            for k, K in e.loops: a = subst(a, {k: psym('$img')}, {})
            return unver(a)
        def whole(e):
            # loops over all images (one level)
            return len(e.loops) == 1 and trip(e.loops[0][1]) is nO
        obj = leaf(Ptr(('*', MOV, scale(psym('$img'), Fraction(8))), ZERO))
        for n, e in gip + gpm + sip + ev: r.ob(whole(e), 'loop', e, '%s is not done for every image' % (e.name if e.name.startswith('virt') else dm(e.name)))
        r.ob(len(gip) == 1 and len(gpm) == 1 and len(sip) == 1, 'steps', None, 'description, parameters and hand-over happen %d/%d/%d times per image' % (len(gip), len(gpm), len(sip)))
        if not (len(gip) == len(gpm) == len(sip) == 1): continue
        for (n, e) in gip + gpm:
            r.ob(pc_of(e) is TRUE and e.args[0] is hold and canon(e, e.args[1]) is S('$img') and n > n_add, 'extract', e, 'takes the values of image %s' % brief(canon(e, e.args[1]), 60))
        D, Pp = canon(gip[0][1], gip[0][1].args[2]), canon(gpm[0][1], gpm[0][1].args[2])
        e = sip[0][1]
        r.ob(pc_of(e) is TRUE and canon(e, e.args[0]) is obj and canon(e, e.args[1]) is D and sip[0][0] > gip[0][0], 'hand-over', e, 'image description %s goes to %s' % (brief(canon(e, e.args[1]), 60), brief(canon(e, e.args[0]), 60)))
        cond = FALSE
        for n, e in ev:
            pi = 2 if meth == 'ComputeDeviates' else 1
            same_loop = all(x[1].loops[0][0] == e.loops[0][0] for x in (gip[0], gpm[0], sip[0]))
            own = same_loop or ('$img' in syms(D) and '$img' in syms(Pp))
            r.ob(canon(e, e.args[0]) is obj and canon(e, e.args[pi]) is Pp and n > sip[0][0] and n > gpm[0][0] and own, 'evaluate', e, 'image %s is evaluated with %s' % (brief(canon(e, e.args[0]), 60), brief(canon(e, e.args[pi]), 60)), sample='%s: image i with its own parameters' % meth)
            cond = bor(cond, unver(pc_of(e)))
            c.count('conversion rules')
            if meth == 'ComputeDeviates':
                b = fresh('$n')
                w = leaf(Ptr('Y', ZERO))
                nd = lambda n: virt('GetNDataValues', ADDR(('*', MOV, scale(n, Fraction(8)))))
                start = bind('sum', b, nd(psym(b)), S('$img'))
                g = canon(e, e.args[1])
                o = g.v.off if isinstance(g, Leaf) and isinstance(g.v, Ptr) and g.v.obj == 'Y' else None
                r.ob(o is not None and same(leaf(scale(o, Fraction(1, 8))), start), 'deviates start', e, 'the deviates of image i go to %s' % brief(g, 150), sample='after those of all earlier images')
        r.ob(cond is TRUE, 'always', None, 'some image is not evaluated: only when %s' % brief(cond, 100))
        if meth == 'GetFitStatistic':
            v = unver(under(t.val, vcmp('>', leaf(nO), N(0))))
            for flag, f in ((True, 'CashStatistic'), (False, 'ChiSquared')):
                b = fresh('$n')
                g = under(v, FLAG('useCashStatistic') if flag else bnot(FLAG('useCashStatistic')))
                w = bind('sum', b, leaf(patom(atom('fn', 'call:virt:' + f, ADDR(('*', MOV, scale(psym(b), Fraction(8)))), the_addr(Pp, b)))), leaf(nO))
                r.ob(same(g, w), 'sum:' + f, None, 'the total is %s' % brief(g, 200), sample='sum over the images of %s' % f); c.count('conversion rules')

def setup_first(r, t, n_add):
    """the holder of parameters is set up before it is first used, and not set up again"""
    su = t.calls(PH + '::GeneralSetup'); have = FLAG('parameterHolderSet')
    ready = FALSE
    for n, e in su:
        r.ob(under(unver(e.pc), have) is FALSE, 'set-up:again', e, 'the parameter holder is set up again although it is already set up')
        if n_add is not None and n < n_add: ready = bor(ready, unver(e.pc))
    if n_add is None: return
    r.ob(under(ready, bnot(have)) is TRUE, 'set-up', None, 'parameters are handed to a holder that need not be set up')

def the_addr(Pp, b):
    q = subst(Pp, {'$img': psym(b)}, {})
    return obj_term(q.v) if isinstance(q, Leaf) and isinstance(q.v, Ptr) else psym('?')

def mm_setup_rule(c):
    p = P(); th = ptr('this')
    t = mm_trace('AddModelObject', [th, ptr('NEW')]); r = Rule(c, t, 'AddModelObject')
    some = vcmp('>', S('this.nModelObjects'), N(0)); none = bnot(some)
    npar, nd = virt('GetNParams', ADDR('NEW')), virt('GetNDataValues', ADDR('NEW'))
    for nm, bits, w in (('nParamsTot', 32, ite(some, vadd(fld('nParamsTot'), N(5)), fld('nParamsTot'))), ('nModelObjects', 32, vadd(fld('nModelObjects'), N(1))), ('nDataVals', 64, vadd(fld('nDataVals'), nd))):
        g = endv(t, MM, nm, bits)
        r.ob(same(g, w), nm, None, '%s becomes %s' % (nm, brief(g, 100)), sample=nm); c.count('conversion rules')
    pushes(r, t, MM, {'modelObjectsVect': lambda k: leaf(Ptr('NEW', ZERO)), 'paramsForModelObjects': None, 'nParamsForModelObjects': lambda k: npar, 'imageDescriptionParams': None}, None)
    fr = {}
    for n, e in t.calls('calloc'): fr[e.res.v.obj if isinstance(e.res, Leaf) else None] = e
    for nm, w in (('paramsForModelObjects', npar), ('imageDescriptionParams', None)):
        l = [e for e in t.events if e.kind == 'call' and e.name and 'push_back' in e.name and e.args[0] is ptr('this', p.off(MM, nm))]
        if not l or not (isinstance(l[0].val, Leaf) and isinstance(l[0].val.v, Ptr)): continue
        a = fr.get(l[0].val.v.obj)
        sz = a.args[0] if a is not None else None
        r.ob(sz is not None and (same(sz, w) if w is not None else isinstance(sz, Leaf) and is_num(sz.v) and numval(sz.v) >= 3), nm + ':size', l[0], 'a new %s entry has %s elements' % (nm, sz and brief(sz, 60)))
    t = mm_trace('AddFunction', [th, ptr('FUN'), S('glob')]); r = Rule(c, t, 'AddFunction')
    some = vcmp('>', S('this.nModelObjects'), N(0)); npar = virt('GetNParams', ADDR('FUN'))
    for nm, w in (('nFunctions', vadd(fld('nFunctions'), N(1))), ('nFunctionParams', vadd(fld('nFunctionParams'), npar))):
        g = endv(t, MM, nm, 32, some, bnot(vcmp('<', S('this.nModelObjects'), N(1)))); r.ob(same(g, w), nm, None, '%s becomes %s' % (nm, brief(g, 100))); c.count('conversion rules')
    pushes(r, t, MM, {'functionObjects': lambda k: leaf(Ptr('FUN', ZERO)), 'paramSizes': lambda k: npar}, None)
    t = mm_trace('FinalModelSetup', [th]); r = Rule(c, t, 'FinalModelSetup')
    nO = psym('this.nModelObjects'); pos = vcmp('>', leaf(nO), N(0))
    glob = vadd(fld('nFunctionParams'), vmul(N(2), fld('nFunctionSets')))
    nmod = lambda n: LD(parr(MM, 'nParamsForModelObjects'), scale(n, Fraction(4)))
    extra = lambda n: vsub(nmod(n), glob)
    b = fresh('$n')
    tot = bind('sum', b, ite(vcmp('>', extra(psym(b)), N(0)), extra(psym(b)), N(0)), leaf(nO))
    g = endv(t, MM, 'nGlobalFuncParams', 32); r.ob(same(g, glob), 'nGlobalFuncParams', None, 'nGlobalFuncParams becomes %s' % brief(g, 100))
    g = subst(endv(t, MM, 'nParamsTot', 32, pos), {'this.nPerImageParams': N(0)}, {})
    r.ob(same(g, vadd(fld('nParamsTot'), tot)), 'nParamsTot', None, 'the total number of parameters becomes %s' % brief(g, 200), sample='total + parameters of all images\' own functions')
    pushes(r, t, MM, {'nPerImageParamsForModelObjects': lambda k: extra(psym(k))}, nO)
    gs = t.calls(PH + '::GeneralSetup')
    if r.ob(len(gs) == 1 and pc_of(gs[0][1]) is TRUE, 'holder', None, 'the parameter holder is set up %d times' % len(gs)):
        e = gs[0][1]
        ar = [subst(unver(under(a, pos)), {'this.nPerImageParams': N(0)}, {}) for a in e.args]
        r.ob(ar[1] is leaf(nO) and ar[2] is fld('nFunctions') and same(ar[3], vadd(fld('nParamsTot'), tot)) and ar[4] is fld('nFunctionSets'), 'holder counts', e, 'the parameter holder gets %s' % [brief(a, 60) for a in ar[1:5]])
    for n in (1,): c.count('conversion rules')
    t = mm_trace('GetNValidPixels', [th]); r = Rule(c, t, 'GetNValidPixels')
    b = fresh('$n')
    w = bind('sum', b, virt('GetNValidPixels', ADDR(('*', parr(MM, 'modelObjectsVect'), scale(psym(b), Fraction(8))))), leaf(nO))
    r.ob(same(unver(under(t.val, pos)), w), 'sum', None, 'the number of valid pixels is %s' % brief(t.val, 150), sample='sum over the images'); c.count('conversion rules')
    # --- final set-up of every image; its failure is the failure of the whole
    t = mm_trace('FinalSetupForFitting', [th]); r = Rule(c, t, 'FinalSetupForFitting')
    l = t.calls('virt:FinalSetupForFitting', MO + '::FinalSetupForFitting')
    if r.ob(len(l) == 1 and len(l[0][1].loops) == 1, 'each', l[0][1] if l else None, '%d final set-ups per image' % len(l)):
        e = l[0][1]; k, K = e.loops[0]
        for b in list(bvars(K)):
            if b.args[0] == 'opq': K = restrict(K, b, True)
        r.ob(trip(K) is nO and unver(e.args[0]) is leaf(Ptr(('*', parr(MM, 'modelObjectsVect'), scale(psym(k), Fraction(8))), ZERO)), 'each', e, 'not every image is set up: %s, image %s' % (brief(K, 100), brief(e.args[0], 60))); c.count('conversion rules')
        neg = [v for v in ([leaf(False)] if t.m.exitinfo else [])]
        outs_ = [x for b in bvars(t.val) if b.args[0] == 'opq' for x in [restrict(t.val, b, False)]]
        if outs_: r.ob(all(x is not N(0) for x in outs_) and 'FinalSetupForFitting' in repr(outs_[0]) or all(isinstance(x, Leaf) and is_num(x.v) and numval(x.v) < 0 for x in outs_), 'status', e, 'after a failure %s is returned' % brief(outs_[0], 100), sample='failure of an image is returned')
        else: r.ob('FinalSetupForFitting' in repr(t.val), 'status', e, 'the status of the images does not decide the result: %s' % brief(t.val, 100))
        for b, (kk, which, conds, ret) in t.m.exitinfo.items():
            x = [v for cd in conds[1:] for v in bvars(cd) if 'FinalSetupForFitting' in repr(v)]
            r.ob(len(x) == 1 and x[0].args[0] == '<' and negative_only(x[0], conds[1:]), 'status:when', e, 'the set-up stops when %s' % [brief(q, 120) for q in conds[1:]])
    setup_first(r, t, None)
    # --- the dimensions of an image
    t = mm_trace('GetImageDimensions', [ptr('RES'), th, S('img')]); r = Rule(c, t, 'GetImageDimensions')
    one = ('*', parr(MM, 'modelObjectsVect'), scale(psym('img'), Fraction(8)))
    # a tuple is laid out last element first
    for off, nm in ((4, 'nDataColumns'), (0, 'nDataRows')):
        g = unver(t.m.load(t.out, Ptr('RES', num(off)), ir.INT(32)))
        a = the_atom(g)
        r.ob(a is not None and a.kind == 'load' and a.args[0] == one and a.args[1] is num(mo(nm)), nm, None, 'the %s of an image are %s' % ('columns' if off else 'rows', brief(g, 80)), sample='columns, rows of that image'); c.count('conversion rules')
    # --- hand-over of the description to the functions shared by all images
    from .checks_pipe import mo_trace
    t = mo_trace('SetImageParameters', args=[th, ptr('D')]); r = Rule(c, t, 'SetImageParameters')
    l = t.calls('virt:SetImageParameters')
    good = False
    if len(l) == 1:
        e = l[0][1]; k = e.loops[-1][0] if e.loops else '?'
        d = [LD('D', num(8 * j)) for j in range(3)]
        want = [t.m.load(gsa.Mem(), Ptr('D', num(8 * j)), ir.DOUBLE) for j in range(3)]
        pc = unver(pc_of(e))
        good = len(e.loops) == 1 and trip(e.loops[0][1]) is psym('this.nFunctions') and list(e.args[1:4]) == want and unver(e.args[0]) is leaf(Ptr(('*', arr('functionObjects'), scale(psym(k), Fraction(8))), ZERO)) \
               and (pc is TRUE or all(a.kind == 'load' and 'globalFunctionFlags' in str(P().fields(MO)[1].get(owner_off(a))) and a.args[1] is psym(k) for v_ in bvars(pc) for a in atoms_of(v_)))
        r.ob(pc is not TRUE, 'own functions', e, 'an image\'s own functions are rescaled as if they were shared')
    r.ob(good, 'hand-over', l[0][1] if l else None, 'the image description does not reach every shared function unchanged'); c.count('conversion rules')

def negative_only(b, conds):
    """the literal b, as it occurs in the conditions, holds exactly for negative values of its only symbol"""
    s = b.args[1]
    kk = [x for x in s.terms if x[0]]
    if len(kk) != 1: return False
    c0 = sum(k for m, k in s.terms if not m); f = lambda st: kk[0][1] * st + c0 < 0
    pol = all(restrict(q, b, False) is FALSE for q in conds)
    return f(-1) == pol and f(0) == (not pol) and f(1) == (not pol)
def owner_off(a):
    """byte offset, within the object, of the member the loaded element belongs to"""
    o = a.args[0]
    while isinstance(o, tuple) and o and o[0] == '*':
        if o[1] == 'this': return o[2]
        o = o[1]
    return None

def M06():
    c = Check('M06', 'The conversion of the fit\'s parameter vector into each image\'s own parameters is taken as normal-form terms from the compiled code (every store with element index, value and condition) and compared with the documented transformation; each evaluation '
              'must use the image description and the parameters of the same image, both extracted from the vector given; counts (parameters, pixels, data values) are sums over images.')
    ph_rule(c); consumer_rule(c); mm_setup_rule(c)
    c.floor('conversion rules', 35)
    return c.finish()

TABLE = {'M06': M06}

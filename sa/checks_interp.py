"""M08: the PSF as seen by point sources."""
import math, random, re
from fractions import Fraction
from . import build, ir, gsa, cas, trace, strs
from .build import AnalysisError, dm
from .cas import *
from .report import Check, loc
from .trace import *
from .checks_pipe import Rule, FLAG, the_atom, atoms_of, paths_of, unver, pc_of, val_of, same, under, OPAQUE_VOID
from .checks_model import ptr
from .checks_pipe import MO, fo_virt, implied

SRC = ['function_objects/psf_interpolators.cpp', 'function_objects/func_pointsource.cpp', 'function_objects/func_pointsource-rot.cpp', 'function_objects/function_object.cpp', 'core/model_object.cpp', 'core/utilities.cpp']
KINDS = (('bicubic', 0), ('lanczos2', 2), ('lanczos3', 3))
_p = []
def P():
    if not _p: _p.append(Prog2(SRC))
    return _p[0]

def kernel(x, n): 
    x = abs(x)
    if x < 1e-6: return 1.0
    if x > n: return 0.0
    return n * math.sin(math.pi * x) * math.sin(math.pi * x / n) / (math.pi ** 2 * x * x)

class World(Ev):
    """values of the interpolator's members for an image of C columns and R rows, as its constructor (checked separately) sets them"""
    def __init__(s, env, seed, C, R, arrays):
        Ev.__init__(s, env, seed); s.C, s.R, s.arrays = C, R, arrays
    def sub(s, b, v):
        e = World(s.env, s.seed, s.C, s.R, s.arrays); e.env[b] = v
        return e
    def sym(s, n):
        m = re.match(r'\*\.this\.(\d+)@(\d+)$', n) if n not in s.env else None
        if m:
            f = s.arrays.get(('*', 'this', int(m.group(1))))
            return float('nan') if f is None else s.at(f, int(m.group(2)) / 8)
        return Ev.sym(s, n)
    def cond(s, a):
        # comparisons of whole numbers carry fractions like 1/3 in normal form: rounding must not decide them
        return s.poly(a.args[1]) < -1e-11 if a.args[0] == '<' else Ev.cond(s, a)
    def at(s, nm, k):
        if abs(k - round(k)) > 1e-6: raise AnalysisError('interpolation reads %s at a fraction of an element' % nm)
        k = int(round(k))
        if nm == 'psfDataArray': return s.pixel(k)
        n = s.C if nm == 'xArray' else s.R
        return k - (n - 1) / 2.0 if 0 <= k < n else float('nan')
    def pixel(s, k): return random.Random('%d/%d' % (k, s.seed)).uniform(0.1, 2) if 0 <= k < s.C * s.R else float('nan')
    def atom(s, a):
        if a.kind == 'sum':
            n = int(round(max(0, s.poly(a.args[2]))))
            return sum(s.sub(a.args[0], float(k)).val(a.args[1]) for k in range(n))
        if a.kind == 'load':
            nm = s.arrays.get(base(a.args[0]))
            k = s.poly(a.args[1])
            if k != k: return k
            if nm is None: raise AnalysisError('interpolation uses the unknown array %s' % show_obj(a.args[0]))
            return s.at(nm, k / 8)
        return Ev.atom(s, a)

def lanczos_rule(c, cls, n):
    p = P()
    t = Trace(p, p.method(cls, 'GetValue'), cls, args=[ptr('this'), S('x'), S('y')]); r = Rule(c, t, cls)
    arrays = {('*', 'this', p.off(cls, a)): a for a in ('xArray', 'yArray', 'psfDataArray')}
    v = unver(t.val)
    worlds = 0; bad = None; inside = 0
    for seed in range(60):
        rnd = random.Random(seed)
        C, R = rnd.choice([(4, 4), (5, 8), (8, 5), (9, 9), (6, 4), (7, 11)])
        xb, yb = (C - 1) / 2.0, (R - 1) / 2.0
        def pos(b):
            q = rnd.random()
            if q < 0.15: return rnd.choice((-1, 1)) * (b + rnd.uniform(0.01, 3))
            if q < 0.3: return rnd.choice((-b, b))
            if q < 0.5: return -b + rnd.randint(0, int(2 * b))
            return rnd.uniform(-b, b)
        x, y = pos(xb), pos(yb)
        env = {'x': x, 'y': y, 'this.nColumns': float(C), 'this.nRows': float(R), 'this.xBound': xb, 'this.yBound': yb, 'this.deltaXMin': -xb, 'this.deltaXMax': xb, 'this.deltaYMin': -yb, 'this.deltaYMax': yb, 'this.nPixelsTot': float(C * R)}
        w = World(env, seed, C, R, arrays)
        if abs(x) > xb or abs(y) > yb: want = 0.0
        else:
            want = sum(kernel(x - (col - xb), n) * kernel(y - (row - yb), n) * w.pixel(row * C + col) for row in range(R) for col in range(C))
            inside += 1
        got = w.val(v)
        worlds += 1
        if not (abs(got - want) <= 1e-7 * max(1, abs(want))): bad = bad or 'at (%.3f, %.3f) in a %d x %d PSF image its term denotes %.6g, the Lanczos sum is %.6g' % (x, y, C, R, got, want)
    c.count('interpolation terms')
    r.ob(bad is None and inside > 20, 'value', None, 'the interpolated value is not the Lanczos-%d sum over the PSF pixels: %s' % (n, bad), sample='%s: separable Lanczos-%d sum of pixel [row*nColumns + col], zero outside the image' % (cls, n))
    # reads stay inside the image: every array access is guarded (an unguarded one shows as an undefined value above)

def bicubic_rule(c, cls):
    p = P()
    t = Trace(p, p.method(cls, 'GetValue'), cls, args=[ptr('this'), S('x'), S('y')]); r = Rule(c, t, cls)
    v = unver(t.val)
    cs = t.calls('gsl_spline2d_eval', 'gsl_spline2d_eval_e', 'gsl_spline2d_eval_extrap')
    ok = len(cs) == 1 and dm(cs[0][1].name) == 'gsl_spline2d_eval'
    r.ob(ok, 'spline', cs[0][1] if cs else None, 'the spline is evaluated by %d calls' % len(cs)); c.count('interpolation terms')
    if not ok: return
    e = cs[0][1]
    a = e.args
    r.ob(unver(a[0]) is leaf(Ptr(('*', 'this', p.off(cls, 'splineInterp')), ZERO)) and same(a[1], S('x')) and same(a[2], S('y')), 'spline:arguments', e, 'the spline is evaluated at (%s, %s)' % (brief(a[1], 40), brief(a[2], 40)), sample='%s: spline(x, y)' % cls)
    out = FALSE
    for lo, q in (('deltaXMin', 'x'), ('deltaYMin', 'y')): out = bor(out, vcmp('<', S(q), S('this.' + lo)))
    for hi, q in (('deltaXMax', 'x'), ('deltaYMax', 'y')): out = bor(out, vcmp('<', S('this.' + hi), S(q)))
    r.ob(unver(pc_of(e)) is bnot(out), 'inside', e, 'the spline is evaluated when %s' % brief(pc_of(e), 150), sample='%s: only inside the PSF image' % cls)
    good = under_ok(v, out)
    r.ob(good, 'outside', None, 'outside the PSF image the value is %s' % brief(v, 150))
def under_ok(v, out):
    for path, l in paths_of(v):
        cond = TRUE
        for b, q in path: cond = band(cond, node(b, TRUE, FALSE) if q else node(b, FALSE, TRUE))
        if l is ZERO: 
            if band(cond, bnot(out)) is not FALSE: return False
        elif band(cond, out) is not FALSE: return False
    return True

def ctor_rule(c, kind, n):
    p = P(); cls = 'PsfInterpolator_' + kind
    C, R = psym('C'), psym('R')
    fs = [f for f in p.prog.find(cls, cls)]
    if not fs: raise AnalysisError('constructor of %s not found' % cls)
    t = Trace(p, fs[0], cls, args=[ptr('this'), ptr('PSF'), leaf(C), leaf(R)]); r = Rule(c, t, cls + ':constructor')
    ld = lambda f, ty: unver(t.m.load(t.out, Ptr('this', num(p.off(cls, f))), ty))
    half = lambda q: scale(sub(q, ONE), Fraction(1, 2))
    for f, ty, w in (('nColumns', ir.INT(32), C), ('nRows', ir.INT(32), R), ('deltaXMin', ir.DOUBLE, neg(half(C))), ('deltaXMax', ir.DOUBLE, half(C)), ('deltaYMin', ir.DOUBLE, neg(half(R))), ('deltaYMax', ir.DOUBLE, half(R))):
        r.ob(same(ld(f, ty), leaf(w)), f, None, '%s is set to %s' % (f, brief(ld(f, ty), 80)), sample='%s = %s' % (f, w)); c.count('interpolator members')
    hold = {}
    for f, q in (('xArray', C), ('yArray', R)):
        o = ld(f, ir.PTR)
        if not r.ob(isinstance(o, Leaf) and isinstance(o.v, Ptr) and o.v.off is ZERO and 'alloc' in str(o.v.obj) + str(o), f, None, '%s is %s' % (f, brief(o, 60))): continue
        hold[f] = o
        ws = t.stores(lambda b: base(b) == base(o.v.obj))
        ok = len(ws) == 1
        why = None
        if ok:
            A = scale(ws[0][2].off, Fraction(1, 8))
            why = covers(A, ws[0][1], q)
            ok = why is None and same(unver(val_of(ws[0][1])), leaf(sub(A, half(q))))
        r.ob(ok, f + ':values', ws[0][1] if ws else None, '%s does not hold the positions of the %s about the image centre (%s)' % (f, 'columns' if f[0] == 'x' else 'rows', why or (brief(val_of(ws[0][1]), 80) if ws else 'never written')), sample='%s[i] = i - (n-1)/2' % f); c.count('interpolator members')
        al = [e for k, e in t.calls('calloc', 'malloc') if e is not None]
        size = [e.args for e in al if e.res is not None] or [e.args for e in al]
        r.ob(any(same(x[0], leaf(q)) and len(x) > 1 and same(x[1], N(8)) or same(x[0], leaf(scale(q, Fraction(8)))) for x in size), f + ':size', None, '%s is allocated with sizes %s' % (f, [[brief(y, 30) for y in x] for x in size]))
    if kind == 'bicubic':
        a = t.calls('gsl_spline2d_alloc'); b = t.calls('gsl_spline2d_init')
        ok = len(a) == 1 and len(b) == 1 and 'gsl_interp2d_bicubic' in str(a[0][1].args[0]) and same(a[0][1].args[1], leaf(C)) and same(a[0][1].args[2], leaf(R))
        r.ob(ok, 'spline', a[0][1] if a else None, 'the spline is not a bicubic spline of columns x rows'); c.count('interpolator members')
        if ok and len(hold) == 2:
            x = b[0][1].args
            lastw = max(k for o in hold.values() for k, e, q in t.stores(lambda b_: base(b_) == base(o.v.obj)))
            r.ob(unver(x[0]) is ld('splineInterp', ir.PTR) and unver(x[1]) is hold['xArray'] and unver(x[2]) is hold['yArray'] and x[3] is ptr('PSF') and same(x[4], leaf(C)) and same(x[5], leaf(R)), 'spline:data', b[0][1], 'the spline is initialised with %s' % [brief(y, 40) for y in x], sample='gsl_spline2d_init(spline, xArray, yArray, PSF, columns, rows)')
            r.ob(b[0][0] > lastw, 'spline:order', b[0][1], 'the spline is initialised before the positions are set')
    else:
        r.ob(ld('psfDataArray', ir.PTR) is ptr('PSF'), 'psf', None, 'the PSF pixels are %s' % brief(ld('psfDataArray', ir.PTR), 60)); c.count('interpolator members')
    return r

def kernel_rule(c):
    p = P()
    t = Trace(p, p.func('Lanczos'), None, args=[S('x'), S('n')]); r = Rule(c, t, 'Lanczos')
    bad = None
    for seed in range(300):
        rnd = random.Random(seed); n = rnd.choice((2, 3))
        x = rnd.choice((0.0, float(rnd.randint(-4, 4)), rnd.uniform(-4, 4), rnd.uniform(-1e-5, 1e-5), rnd.choice((-1, 1)) * rnd.uniform(2e-6, 1e-3)))
        g = Ev({'x': x, 'n': float(n)}, seed).val(t.val)
        if not abs(g - kernel(x, n)) < 1e-6: bad = bad or 'Lanczos(%g, %d) denotes %.8g, the kernel is %.8g' % (x, n, g, kernel(x, n))
    r.ob(bad is None, 'kernel', None, 'the kernel is wrong: %s' % bad, sample='Lanczos(x, n) = sinc(x) sinc(x/n), |x| <= n'); c.count('interpolation terms')

def literals(v):
    return {s[1:-1] for s in syms(v) if isinstance(s, str) and len(s) > 1 and s[0] == '"' and s[-1] == '"'}
def option_rule(c, cls):
    """optional parameters: the interpolation recognised is the one stored, and what is accepted is remembered"""
    p = P()
    t = Trace(p, p.method(cls, 'SetExtraParams'), cls, args=[ptr('this'), ptr('MAP')], strings=True); r = Rule(c, t, cls + ':SetExtraParams')
    io = p.off(cls, 'interpolationType'); known = [k for k, n in KINDS]
    ws = [(n, e, q) for n, e, q in t.stores(lambda o: o == 'this') if is_num(q.off) and int(numval(q.off)) == io]
    stored = set()
    for n, e, q in ws:
        for path, l in paths_of(unver(e.val)):
            txt = strs.literal(l) if isinstance(l, Poly) else None
            if not r.ob(txt in known, 'method', e, 'the interpolation type is set to %s, which selects no interpolator' % (repr(txt) if txt is not None else 'text that was not checked (%s)' % brief(leaf(l), 60))): continue
            good = True
            for pth, lf in paths_of(unver(e.pc)):
                if lf is False: continue
                named = set()
                for b, pol in tuple(pth) + tuple(path):
                    if pol and b.args[0] == '==': named |= {x.lower() for x in literals(b)} - {'method'}
                good &= named == {txt}
            r.ob(good, 'method:' + txt, e, 'the interpolation type becomes "%s" when %s' % (txt, brief(unver(e.pc), 150)), sample='%s: method %s selects it' % (cls, txt))
            stored.add(txt); c.count('optional parameters')
    r.ob({'bicubic', 'lanczos2', 'lanczos3'} <= stored, 'methods', None, 'only %s can be selected' % sorted(stored))
    # without an optional parameter: bicubic
    t0 = Trace(p, p.prog.find(cls, cls)[0], cls, args=[ptr('this')], strings=True); r0 = Rule(c, t0, cls + ':constructor')
    d = [e.val for n, e, q in t0.stores(lambda o: o == 'this') if is_num(q.off) and int(numval(q.off)) == io]
    got = strs.literal(d[-1].v) if d and isinstance(d[-1], Leaf) and isinstance(d[-1].v, Poly) else None
    r0.ob(got == 'bicubic', 'default', None, 'the interpolation used without an optional parameter is %r, documented is bicubic' % got, sample='%s: bicubic by default' % cls)
    # accepted means remembered
    acc = FALSE
    for path, l in paths_of(unver(t.val)):
        if isinstance(l, Poly) and is_num(l) and numval(l) > 0:
            x = TRUE
            for b, q in path: x = band(x, node(b, TRUE, FALSE) if q else node(b, FALSE, TRUE))
            acc = bor(acc, x)
    r.ob(acc is not FALSE, 'accepts', None, 'no optional parameter is ever accepted')
    for what, evs in (('extraParamsSet', [e for n, e, q in t.stores(lambda o: o == 'this') if is_num(q.off) and int(numval(q.off)) == p.off('FunctionObject', 'extraParamsSet') and e.val in (TRUE, N(1), leaf(1))]),
                      ('inputExtraParams', [e for e in t.events if e.kind == 'call' and e.name and 'std::map<' in dm(e.name) and '::operator=(' in dm(e.name) and e.args[0] is ptr('this', p.off('FunctionObject', 'inputExtraParams')) and e.args[1] is ptr('MAP')])):
        got = FALSE
        for e in evs: got = bor(got, unver(e.pc))
        r.ob(band(acc, bnot(got)) is FALSE, what, evs[0] if evs else None, 'optional parameters are accepted without setting %s, so that they are missing from the saved model' % what, sample='%s: %s set whenever parameters are accepted' % (cls, what)); c.count('optional parameters')

def lookup_tables():
    """global maps from names to numbers, read from their initialisers: {global: {name: number}}"""
    p = P(); out = {}
    for n, f in p.prog.fns.items():
        if 'global_var_init' not in n or f.lines is None: continue
        try: t = Trace(p, f, None, args=[], strings=True)
        except AnalysisError: continue
        last = {}; pairs = {}; glob = None
        for e in t.events:
            if e.kind == 'store' and isinstance(e.ptr, Leaf): last[e.ptr] = e.val
            elif e.kind == 'call' and e.name:
                d = dm(e.name)
                if d.startswith('std::pair<') and '::pair<' in d and len(e.args) == 3: pairs[e.args[0]] = (last.get(e.args[1]), last.get(e.args[2]))
                elif d.startswith('std::map<') and '::map(' in d and isinstance(e.args[0], Leaf) and isinstance(e.args[0].v, Ptr): glob = e.args[0].v.obj
        if glob is None or not pairs: continue
        tab = {}
        for k, v in pairs.values():
            k = strs.literal(k.v) if isinstance(k, Leaf) and isinstance(k.v, Poly) else None
            if k is None or not isinstance(v, Leaf) or not isinstance(v.v, Poly) or not is_num(v.v): tab = None; break
            tab[k] = int(numval(v.v))
        if tab: out[glob] = tab
    return out
def select_rule(c):
    """from the recognised name to the class of the interpolator built"""
    p = P(); tabs = lookup_tables()
    H = {'PsfInterpolator_%s::PsfInterpolator_%s' % (k, k): OPAQUE_VOID for k, n in KINDS}
    t = Trace(p, p.method(MO, 'AddFunction'), MO, args=[ptr('this'), ptr('F'), S('glob')], hooks=H, strings=True, virt=p.virt([(lambda o: o == 'F', 'FunctionObject', False)])); r = Rule(c, t, 'ModelObject::AddFunction')
    cts = t.calls(*H)
    r.ob(len(cts) > 0, 'built', None, 'no interpolator is built')
    tab = {}
    for n, e in enumerate(t.events):
        if e.kind == 'call' and e.name and dm(e.name).startswith('std::map<') and isinstance(e.args[0], Leaf) and isinstance(e.args[0].v, Ptr) and e.args[0].v.obj in tabs: tab = tabs[e.args[0].v.obj]
    made = {}
    for name, _ in KINDS:
        for n, e in cts:
            pc = unver(e.pc)
            env = {s: N(tab[name]) for s in syms(pc) if isinstance(s, str) and s.startswith('ret.call:std::map<') and name in tab}
            pc = subst(pc, env)
            for b in list(bvars(pc)):
                lit = literals(node(b, TRUE, FALSE))
                if lit and b.args[0] == '==': pc = restrict(pc, b, name in lit)
            if pc is not FALSE: made.setdefault(name, []).append((dm(e.name).split('::')[0], pc, e))
        got = made.get(name, [])
        r.ob([g[0] for g in got] == ['PsfInterpolator_' + name], 'kind:' + name, got[0][2] if got else None, 'for "%s" the interpolator built is %s' % (name, [g[0] for g in got] or 'none'), sample='"%s" -> PsfInterpolator_%s' % (name, name)); c.count('interpolator selections')
    # ... of the function being added, whenever it is a point source and a large enough PSF is there
    known = {name: got[0][1] for name, got in made.items() if got}
    if len(known) == 3: r.ob(len(set(known.values())) == 1, 'condition', None, 'the interpolators are built under different conditions: %s' % {k: brief(v, 80) for k, v in known.items()})
    asks = [e for n, e in t.calls('virt:GetInterpolationType', 'virt:GetInterpolationType[abi:cxx11]')]
    r.ob(bool(asks) and all(e.args[1] is ptr('F') or e.args[0] is ptr('F') for e in asks), 'asks', asks[0] if asks else None, 'the interpolation type is not asked of the function being added')
    have = fld_nz('psfInterpolator_allocated')
    if known: r.ob(all(under(v, bnot(have)) is not FALSE for v in known.values()), 'first', None, 'no interpolator is built for the first point source: %s' % {k: brief(v, 80) for k, v in known.items()})
    later = FALSE
    for e in asks: later = bor(later, band(unver(e.pc), have))
    r.ob(later is not FALSE, 'second', None, 'once a point source has been added, the interpolation method of further point sources is ignored: all use the first one\'s')
    c.count('interpolator selections')

def fld_nz(n): return bnot(vcmp('==', S('this.' + n), N(0)))
def M08():
    c = Check('M08', 'Value numbering of the PSF interpolators: members set by the constructors against their definition (normal forms), the interpolated value against the documented sum or spline call, with the decisions that guard it; the interpolation names accepted by point sources against the names the model object maps to interpolators.')
    for k, n in KINDS:
        ctor_rule(c, k, n)
        if n: lanczos_rule(c, 'PsfInterpolator_' + k, n)
        else: bicubic_rule(c, 'PsfInterpolator_' + k)
    kernel_rule(c)
    for cls in ('PointSource', 'PointSourceRot'): option_rule(c, cls)
    select_rule(c)
    c.floor('interpolator selections', 4); c.floor('interpolation terms', 4); c.floor('interpolator members', 24); c.floor('optional parameters', 8)
    return c.finish()
TABLE = {'M08': M08}

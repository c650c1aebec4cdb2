"""C07: the image-information file of multimfit and makemultimages."""
import re
from fractions import Fraction
from . import strs, ir, build, gsa
from .cas import *
from .build import AnalysisError, dm
from .report import Check
from .trace import *
from .checks_pipe import Rule, unver, same, under, LD, trip, OPAQUE_VOID, the_atom, bvars, drop_loop_conds
from .checks_io import P_, show
from .checks_config import Tx, T, numof, isword, chopped, poly, vec_of, reading, ctr, size_of, kept_lines, loops_out
from .checks_sect import lit, terms_in

SRCS = ('core/imageparams_file_parser.cpp', 'core/config_file_parser.cpp', 'core/utilities.cpp')
I32 = ir.INT(32); LINE = T('line'); N5 = 5
_p = []
def prog():
    if not _p: _p.append(Prog2(list(SRCS), passes=build.ONELOOP))
    return _p[0]
INTS = ('@strtol', '@__isoc23_strtol', '@atoi', '@atol')
def ints(tx):
    h = lambda fr, i, a, m: (vfn('integer', strs.chars(fr, a[0])), m)
    H = {k: h for k in INTS}; H.update(limits_copied())
    for n in tx.p.prog.fns:
        if n.startswith('@_ZNSt7__cxx114stoiE'): H[n] = lambda fr, i, a, m: (vfn('integer', strs.get(fr, m, a[0])), m)
    return H
intof = lambda s: vfn('integer', s)
SIZE = 88
LIM = {'fixed': 0, 'limited0': 4, 'limited1': 8, 'limit0': 16, 'limit1': 24}
PARS = {'PIXEL_SCALE': ('pixelScale', True), 'IMAGE_PA': ('rotation', True), 'FLUX_SCALE': ('intensityScale', False), 'X0': ('x0', False), 'Y0': ('y0', False)}
def constants():
    s = build.read('core/definitions.h') if hasattr(build, 'read') else open(build.REPO + '/core/definitions.h').read()
    return {k: int(v) for k, v in re.findall(r'const int\s+(\w+)\s*=\s*(-?\d+)\s*;', s)}
def limits_copied():
    """a parameter's limits copied as a whole, also when they were set in a loop"""
    def h(fr, i, a, m):
        r, m2 = gsa.memcpy(fr, a, m); d, q, n = a[:3]
        one = lambda v: v.v if isinstance(v, Leaf) and isinstance(v.v, Ptr) else None
        d, q = one(d), one(q)
        if d is not None and q is not None and is_num(d.off) and is_num(q.off) and isinstance(n, Leaf) and is_num(n.v) and numval(n.v) == SIZE and not (isinstance(q.obj, tuple) and q.obj[0] == 'glob'):
            for k, o in LIM.items():
                at = int(numval(q.off)) + o
                if q.obj in m.clob and (q.obj, at) not in m.d: m2.d[(d.obj, int(numval(d.off)) + o)] = S('<set in a loop>')
        return r, m2
    return {'@llvm.memcpy.p0.p0.i64': h, '@llvm.memmove.p0.p0.i64': h}
def one_line(c):
    """what one line of an image's section sets, and that it sets nothing else"""
    p = prog(); F, _ = p.fields('ImageInfo'); K = constants()
    x = Tx(c, 'StoreInfoFromLine', [P_('L'), P_('INFO')], {('L', 0): LINE}, p=p, extra=ints); r = x.r
    W_ = [(n, s, d) for n, s, d in x.counts.values() if same(unver(s), LINE) or same(unver(s), chopped(LINE))]; ns = [n for n, s, d in W_]
    if not r.ob(len(W_) >= 1, 'words', None, 'a line is not cut into its words'): return
    n, s, d = W_[0]; W = lambda j: x.piece(s, d, j)
    part = lambda y, j: [x.piece(s2, d2, j) for n2, s2, d2 in x.counts.values() if same(unver(s2), y) and isinstance(d2, Leaf) and strs.literal(d2.v) == ',']
    KW = {'GAIN': {'gain': numof(W(1))}, 'READNOISE': {'readNoise': numof(W(1))}, 'ORIGINAL_SKY': {'originalSky': numof(W(1))}, 'EXPTIME': {'expTime': numof(W(1))}, 'WEIGHT': {'weight': numof(W(1))},
          'NCOLS': {'nColumns': intof(W(1))}, 'NROWS': {'nRows': intof(W(1))}, 'NCOMBINED': {'nCombined': intof(W(1))},
          'DATA': {'dataImageFileName': W(1), 'dataImage_present': TRUE}, 'MASK': {'maskImageFileName': W(1), 'maskImage_present': TRUE}, 'ERROR': {'errorImageFileName': W(1), 'errorImage_present': TRUE}, 'PSF': {'psfImageFileName': W(1), 'psfImage_present': TRUE},
          'MASK_ZERO_IS_GOOD': {'maskFormat': N(K['MASK_ZERO_IS_GOOD'])}, 'MASK_ZERO_IS_BAD': {'maskFormat': N(K['MASK_ZERO_IS_BAD'])},
          'ERRORS_ARE_SIGMAS': {'errorType': N(K['WEIGHTS_ARE_SIGMAS'])}, 'ERRORS_ARE_VARIANCES': {'errorType': N(K['WEIGHTS_ARE_VARIANCES'])}, 'ERRORS_ARE_WEIGHTS': {'errorType': N(K['WEIGHTS_ARE_WEIGHTS'])},
          'OVERSAMPLE_SCALE': {'nOversamplingScales': 1}, 'OVERSAMPLED_PSF': {'nOversampledFileNames': 1, 'psfOversampledImage_present': TRUE}, 'OVERSAMPLED_REGION': {'nOversampleRegions': 1, 'oversampleRegionSet': TRUE}}
    PUSH = {'OVERSAMPLE_SCALE': ('psfOversamplingScales', intof(W(1))), 'OVERSAMPLED_PSF': ('psfOversampledFileNames', W(1)), 'OVERSAMPLED_REGION': ('psfOversampleRegions', W(1))}
    for kw, (a, b) in (('NCOLS,NROWS', (0, 1)), ('NROWS,NCOLS', (1, 0))):
        g = {}
        for f, j in (('nColumns', a), ('nRows', b)):
            l = part(W(1), j); g[f] = intof(l[0]) if l else None
        KW[kw] = g
    words = set(KW) | set(PARS) | {'IMAGE_START'}
    D = x.t.out.d; mine = {k[1]: unver(v) for k, v in D.items() if k[0] == 'INFO' and isinstance(k[1], int)}
    words |= {q for v in mine.values() for b in bvars(v) for q in re.findall(r'"([A-Z][A-Z0-9_,]+)"', repr(b))}
    name = {o: f for f, o in F.items()}
    for f in PARS.values():
        for k, o in LIM.items(): name[F[f[0] + '_limitInfo'] + o] = f[0] + ' ' + k
    def sel(v, kw, nw, *conds):
        cs = [isword(W(0), q) if q == kw else bnot(isword(W(0), q)) for q in words]
        env = {q: N(nw) for q in ns}
        w = under(v, *cs); w = subst(w, env) if isinstance(w, (Leaf, Node)) else w
        return under(w, *cs, *[subst(y, env) for y in conds], *conds)
    flat = lambda v: v if isinstance(v, (Leaf, Node)) else leaf(v)
    eq = lambda v, w: same(v, w) or w is TRUE and (v is TRUE or same(flat(v), N(1)))
    base = {o: flat(sel(v, '', 2)) for o, v in mine.items()}
    def changed(kw, nw, *conds): return {o: g for o, v in mine.items() if not same(g := flat(sel(v, kw, nw, *conds)), base[o])}
    for kw, want in KW.items():
        ch = changed(kw, 2)
        for f, w in want.items():
            o = F[f]; g = ch.pop(o, None); c.count('settings')
            if isinstance(w, int) and w == 1: ok = g is not None and same(g, vadd(base[o], N(1)))
            else: ok = g is not None and w is not None and eq(g, w)
            if w is TRUE and g is None: ok = o in base and eq(base[o], TRUE)
            r.ob(ok, '%s:%s' % (kw, f), None, 'after %s, %s is %s' % (kw, f, show(g) if g is not None else 'unchanged'), sample=('%s: %s' % (kw, f), show(g) if g is not None else ''))
        for o, g in ch.items(): r.ob(name.get(o) is None, '%s:else' % kw, None, '%s also changes %s, to %s' % (kw, name.get(o), show(g)))
    for kw, (f, fixed) in PARS.items():
        lo_, hi_ = part(W(2), 0), part(W(2), 1); v = numof(W(1)); b = F[f + '_limitInfo']
        for case, nw, conds, want in (('alone', 2, [], {'fixed': int(fixed), 'limited0': 0, 'limited1': 0}), ('fixed', 3, [isword(W(2), 'fixed')], {'fixed': 1, 'limited0': 0, 'limited1': 0}), ('limits', 3, None, {'fixed': 0, 'limited0': 1, 'limited1': 1})):
            if conds is None:
                if not r.ob(bool(lo_ and hi_), kw + ':limits', None, 'the limits of %s are not cut at their comma' % kw): continue
                lo, hi = numof(lo_[0]), numof(hi_[0]); want = dict(want, limit0=lo, limit1=hi)
                conds = [bnot(isword(W(2), 'fixed')), vcmp('<', lo, hi), bnot(vcmp('==', lo, hi)), bnot(vcmp('<', v, lo)), bnot(vcmp('<', hi, v)), vcmp('<', lo, v), vcmp('<', v, hi)]
            comma = lambda y: tmap(y, lambda a: N(1) if a.kind == 'fn' and str(a.args[0]).startswith('str:') and 'find' in str(a.args[0]) and '","' in repr(leaf(patom(a))) else None)
            look = lambda o: flat(under(comma(sel(mine[o], kw, nw, *conds)), *conds)) if o in mine else None
            gv = look(F[f]); c.count('settings')
            r.ob(gv is not None and same(gv, v), '%s:%s' % (kw, case), None, 'the value of %s is %s' % (kw, show(gv) if gv is not None else 'not stored'), sample=('%s %s' % (kw, case), 'value kept'))
            for k, w in want.items():
                g = look(b + LIM[k])
                if g is not None and '<set in a loop>' in repr(g): continue                 # not followed
                w = N(w) if isinstance(w, int) else w; c.count('settings')
                kept = g is not None and same(w, N(0)) and same(g, base[b + LIM[k]])       # as set up: nothing
                r.ob(g is not None and (same(g, w) or kept) or g is None and same(w, N(0)), '%s:%s:%s' % (kw, case, k), None, '%s (%s): %s becomes %s' % (kw, case, k, show(g) if g is not None else 'unset'), sample=('%s %s %s' % (kw, case, k), show(w)))
            own = {F[f]} | set(range(b, b + 88))
            for o in mine:
                if o in own or name.get(o) is None: continue
                g = flat(under(comma(sel(mine[o], kw, nw, *conds)), *conds)); r.ob(same(g, base[o]), '%s:else' % kw, None, '%s also changes %s, to %s' % (kw, name[o], show(g)))
    seen = set()
    for z, e in x.of('push'):
        o = vec_of(e.args[0])
        if o is None or o[0] != 'INFO' or not is_num(o[1]): continue
        f = name.get(int(numval(o[1]))); kws = [k for k in sorted(words) if sel(unver(e.pc), k, 2) is not FALSE]; seen |= set(kws)
        for k in kws: r.ob(k in PUSH and PUSH[k][0] == f and same(unver(z[4]), PUSH[k][1]) and sel(unver(e.pc), k, 2) is TRUE, '%s:list' % k, e, '%s adds %s to %s' % (k, show(z[4]), f), sample=('%s: list' % k, f)); c.count('settings')
    for k in PUSH: r.ob(k in seen, '%s:list' % k, None, '%s adds nothing to %s' % (k, PUSH[k][0]))

EL = lambda o, i: LD(('elem', o[0], o[1]), scale(i, Fraction(32)))
EI = lambda o, i: LD(('elem', o[0], o[1]), scale(i, Fraction(4)))
def has(v, y, word, want):
    """the line y contains the word, or not, said of all ways to look for it in v"""
    def f(a):
        if a.kind == 'fn' and str(a.args[0]) == 'str:find' and ('"%s"' % word) in repr(leaf(patom(a))): return N(0) if want else N(-1)
    return tmap(v, f)
def cond(v, *cs, **words):
    for w, y in words.items(): v = has(v, None, w, y)
    return under(v, *cs)
within = lambda i, n: [vcmp('<', i, n), bnot(vcmp('>=', i, n)), bnot(vcmp('==', i, n)), vcmp('>', vadd(n, vmul(N(-1), i)), N(0))]
def loc(v, e):
    return drop_loop_conds(unver(v), e)
def one_image(c):
    """the lines of one image go, in order and up to its functions, into one new description"""
    p = prog()
    def st(tx):
        H = reading(tx); H['StoreInfoFromLine'] = lambda fr, i, a, m: (tx.note('line', fr, i, a, m, strs.get(fr, m, a[0])), (S('st'), m))[1]; return H
    x = Tx(c, 'AddInfoFromLines', [P_('LINES'), P_('LIST')], p=p, extra=st, loops=True); r = x.r; L = ('LINES', ZERO); n = size_of(L)
    l = x.of('line'); pu = [(z, e) for z, e in x.of('push') if vec_of(e.args[0]) == ('LIST', ZERO)]
    if not r.ob(len(l) == 1 and len(l[0][1].loops) == 1, 'lines', None, 'the lines of an image are not read in one place'): return
    z, e = l[0]; k = ctr(e); info = vec_of(e.args[1]); c.count('lines of an image')
    r.ob(same(unver(z[4]), EL(L, k)), 'line', e, 'the line read is %s' % show(z[4]), sample='line k')
    g = cond(unver(e.pc), *within(leaf(k), n), FUNCTIONS_START=False); r.ob(g is TRUE, 'line', e, 'not every line before the functions is used: %s' % show(g), sample='all lines before FUNCTIONS_START')
    r.ob(cond(unver(e.pc), *within(leaf(k), n), FUNCTIONS_START=True) is FALSE, 'functions', e, 'the line that starts the functions is read as a setting', sample='FUNCTIONS_START is no setting')
    r.ob(len(pu) == 1 and not pu[0][1].loops and unver(pu[0][1].pc) is TRUE and vec_of(pu[0][1].args[1]) == info, 'added', pu[0][1] if pu else None, 'the description of an image is not added exactly once', sample='one description per image')
    r.ob(info is not None and isinstance(info[0], tuple) and info[0][0] == 'alloca' and unver(leaf(info[1])) is leaf(ZERO), 'own', e, 'the settings go into %s' % (info,), sample='a new description')
    outs_ = loops_out(x.t).get(e.loops[-1][0], []); v = unver(x.t.val)
    r.ob(any(cond(way, FUNCTIONS_START=False) is FALSE for cs, way in outs_) or cond(unver(e.pc), *within(leaf(k), n), FUNCTIONS_START=True) is FALSE and not outs_, 'functions', e, 'an image does not end its settings at its functions', sample='settings end there')
    for cs, way in outs_:
        at_fn = cond(way, FUNCTIONS_START=False) is FALSE
        g = under(v, *cs); tr = [a for a in terms_in(g) if a.kind == 'trip']
        ok = not is_num_(g) and (len(tr) == 1 or any(q.kind == 'sym' for q in terms_in(g))) if at_fn else is_num_(g) and numval(poly(g)) == 0
        r.ob(ok, 'where', None, 'when %s, the result is %s' % ('functions are found' if at_fn else 'there are no functions', show(g)), sample='where the functions start')
def is_num_(v): return poly(v) is not None and is_num(poly(v))
def checked(c):
    """which lines are refused"""
    p = prog(); K = {}
    def st(tx):
        H = reading(tx); H['ValidParameterLine'] = lambda fr, i, a, m: (tx.note('valid', fr, i, a, m, strs.get(fr, m, a[0])), (S('ok'), m))[1]; return H
    x = Tx(c, 'VetInputLines', [P_('LINES'), P_('ORIG'), P_('CODES'), P_('BAD')], p=p, extra=st, loops=True); r = x.r; L, O = ('LINES', ZERO), ('ORIG', ZERO); n, no_ = size_of(L), size_of(O)
    some = [vcmp('>', n, N(0)), bnot(vcmp('==', n, N(0))), vcmp('>', no_, N(0)), bnot(vcmp('==', no_, N(0)))]
    va = x.of('valid')
    if not r.ob(len(va) == 1 and len(va[0][1].loops) == 1, 'lines', None, 'the lines are not checked in one place'): return
    z, e = va[0]; k = ctr(e); r.ob(same(unver(z[4]), EL(L, k)) and unver(e.args[1]) is TRUE, 'line', e, 'the line checked is %s' % show(z[4]), sample='every line'); c.count('lines checked')
    w = within(leaf(k), n)
    r.ob(cond(unver(e.pc), *some, *w, IMAGE_START=False, FUNCTIONS_START=False) is TRUE, 'line', e, 'not every setting is checked: %s' % show(e.pc), sample='every setting checked')
    for q in ('IMAGE_START', 'FUNCTIONS_START'): r.ob(cond(unver(e.pc), *some, *w, **{q: True}) is FALSE, 'word', e, 'a line with %s must be a setting' % q, sample='%s accepted' % q)
    tr = e.loops[-1][1]; tr = tr if isinstance(tr, (Leaf, Node)) else leaf(tr); r.ob(same(under(unver(tr), *some), n), 'all', e, '%s lines are checked' % show(tr), sample='all lines')
    bads = [(z_, e_) for z_, e_ in x.of('push') if vec_of(e_.args[0]) == ('BAD', ZERO) and e_.loops]; codes = [(z_, e_) for z_, e_ in x.of('push') if vec_of(e_.args[0]) == ('CODES', ZERO) and e_.loops]
    if r.ob(len(bads) == 1 and len(codes) == 1, 'bad', None, 'a bad line is not noted once'):
        zb, eb = bads[0]; r.ob(same(unver(zb[4]), EI(O, ctr(eb))), 'number', eb, 'the number noted for a bad line is %s' % show(zb[4]), sample='its original number')
        bad = ok0(S('ok')); wk = within(leaf(ctr(eb)), n)
        r.ob(cond(unver(eb.pc), *some, *wk, bad, IMAGE_START=False, FUNCTIONS_START=False) is TRUE and cond(unver(eb.pc), *some, *wk, bnot(bad)) is FALSE, 'bad', eb, 'bad lines are noted when %s' % show(eb.pc), sample='bad lines')
        r.ob(unver(codes[0][1].pc) is unver(eb.pc), 'code', codes[0][1], 'errors and line numbers differ in number')
    # accepted when no line is bad and an image was started, refused otherwise
    v0 = under(unver(x.t.val), *some); bad = [ok0(S('ok'))]; env = {}
    isn = lambda y: is_num_(y) if isinstance(y, (Leaf, Node)) else False
    def sets(step):
        """which event changes it, and to what"""
        d = {}
        for ev, cs, w in (('start', [], dict(IMAGE_START=True)), ('bad', bad, dict(IMAGE_START=False, FUNCTIONS_START=False)), ('fine', [bnot(bad[0])], dict(IMAGE_START=False, FUNCTIONS_START=False)), ('func', bad, dict(IMAGE_START=False, FUNCTIONS_START=True))):
            g = cond(step, *cs, **w)
            if isn(g): d[ev] = numval(poly(g))
        return d
    for a in terms_in(v0):
        if a.kind == 'sum':
            d = sets(a.args[1]); h = [ev for ev in d if d[ev] != 0]
            if len(h) == 1 and len(d) == 4: env[a] = (h[0], d[h[0]], 0)
            if h == ['bad', 'fine']: env[a] = ('line', 3, 0)
        elif a.kind == 'mu':
            d = sets(a.args[2]); ini = {numval(poly(y)) for y in leaf_values(under(a.args[1], *some)) if isn(y)}
            for ev in d:
                o = ini - {d[ev]}
                if len(d) == 1 and len(o) == 1: env[a] = (ev, d[ev], o.pop())
    def outcome(*evs):
        g = tmap(v0, lambda a: N(env[a][1] if env[a][0] in evs + ('line',) else env[a][2]) if a in env else N(3 if 'bad' in evs else 0) if a.kind == 'fn' and a.args[0] == 'size' and 'BAD' in repr(a) else None)
        return under(g, *(bad if 'bad' in evs else [bnot(bad[0])]))
    for evs, want, why in ((('start',), True, 'a good file'), (('start', 'bad'), False, 'a file with a bad line'), ((), False, 'a file without images')):
        g = outcome(*evs); ok = None if not (g is TRUE or g is FALSE or isn(g)) else (g is TRUE or g is not FALSE and numval(poly(g)) != 0) == want; c.count('outcomes', int(ok is not None))
        r.ob(ok is not False, 'outcome', None, '%s is %s' % (why, 'accepted' if not want else 'refused'), sample=(why, 'accepted' if want else 'refused'))
    for nm, cs in (('no lines', [ok0(n), vcmp('==', n, N(0)), bnot(vcmp('>', n, N(0)))]),):
        g = under(unver(x.t.val), *cs); r.ob(g is FALSE or is_num_(g) and numval(poly(g)) == 0, 'empty', None, 'a file with %s is accepted' % nm, sample='refused: no lines')
def leaf_values(v): return [leaf(y) if isinstance(y, Poly) else y for y in leaves(v if isinstance(v, (Leaf, Node)) else leaf(v))]
def ok0(v): return vcmp('==', v, N(0))
def copies():
    """a struct copied from an element of a list, word by word"""
    def h(fr, i, a, m):
        r, m2 = gsa.memcpy(fr, a, m); d, q, n = a[:3]
        one = lambda v: v.v if isinstance(v, Leaf) and isinstance(v.v, Ptr) else None
        d, q = one(d), one(q)
        if d is not None and q is not None and is_num(d.off) and not is_num(q.off) and isinstance(n, Leaf) and is_num(n.v) and numval(n.v) <= 512:
            for o in range(0, int(numval(n.v)), 4): m2.d[(d.obj, int(numval(d.off)) + o)] = fr.m.load(m2, Ptr(q.obj, add(q.off, num(o))), ir.DOUBLE)
        return r, m2
    return {'@llvm.memcpy.p0.p0.i64': h, '@llvm.memmove.p0.p0.i64': h}
def parameters(c):
    """the description of all images but the first, as parameters and limits"""
    p = prog(); F, _ = p.fields('ImageInfo'); size = None
    names = ('pixelScale', 'rotation', 'intensityScale', 'x0', 'y0')
    for full in (False, True):
        def st(tx): return copies()
        x = Tx(c, 'GetImageDescriptionParams', [P_('RET'), P_('LIST')] + ([P_('LIMS'), P_('EXIST')] if full else []), p=p, extra=st); t = x.t; r = x.r; mode = 'with limits' if full else 'values'; K = lambda q: '%s:%s' % (mode.replace(' ', '_'), q)
        st_ = [(e, q) for nn, e, q in t.stores(lambda o: isinstance(o, tuple) and o[0] == 'ret' and 'alloc' in str(o)) if e.loops] or [(e, q) for nn, e, q in t.stores(lambda o: isinstance(o, tuple) and o[0] == 'ret') if e.loops]
        seen = {}
        for e, q in st_:
            if len(e.loops) != 1: r.ob(False, K('values'), e, 'a value is stored in a nested loop'); continue
            k = ctr(e); o = q.off; j = add(o, scale(k, Fraction(-40))); v = unver(e.val); a = the_atom(v if isinstance(v, (Leaf, Node)) else leaf(v))
            if not is_num(j) or a is None or a.kind != 'load' or 'LIST' not in repr(a.args[0]): r.ob(False, K('values'), e, 'parameter %s is set to %s' % (brief(leaf(o), 40), show(e.val))); continue
            j = int(numval(j)) // 8; off = a.args[1]; S_ = [kk for mm, kk in off.terms if mm and mm[0][0] is the_atom(leaf(k))]; rest = [kk for mm, kk in off.terms if not mm]
            ok = 0 <= j < 5 and len(S_) == 1 and len(off.terms) == 2 and int(rest[0]) - int(S_[0]) == F[names[j]]
            if ok: size = int(S_[0])
            r.ob(ok, K('value:%d' % j), e, 'parameter %d of an image is %s' % (j, show(e.val)), sample=('%s: parameter %d' % (mode, j), names[j] if 0 <= j < 5 else '')); seen[j] = e; c.count('description parameters')
            tr = e.loops[0][1]; tr = tr if isinstance(tr, (Leaf, Node)) else leaf(tr); d = [z for z in terms_in(tr) if z.kind == 'idiv' or z.kind == 'fn' and z.args[0] == 'idiv']
            gt = subst_atoms(tr, d, 7); r.ob(is_num_(gt) and numval(poly(gt)) == 6, K('images'), e, 'parameters are given for %s images' % show(tr), sample='every image but the first')
        r.ob(set(seen) == set(range(5)), K('values'), None, 'not all five parameters of an image are given', sample='five parameters')
        rn = [e for nn, e, q in t.stores(lambda o: o == 'RET') if not isinstance(e.val, Leaf) or isinstance(e.val.v, Poly)]
        for e in rn[-1:]:
            d = [z for z in terms_in(unver(e.val)) if 'idiv' in (z.kind, str(z.args[0]))]; g = subst_atoms(unver(e.val), d, 7); r.ob(is_num_(g) and numval(poly(g)) == 30, K('number'), e, 'the number of parameters is %s' % show(e.val), sample='five per image')
        if not full or size is None: continue
        pu = [(z, e) for z, e in x.of('push') if vec_of(e.args[0]) == ('LIMS', ZERO)]
        looped = any(isinstance(q.obj, tuple) and q.obj[0] == 'alloca' and not is_num(q.off) for nn, e, q in t.stores(lambda o: True))
        if r.ob(len(pu) == 5 and all(len(e.loops) == 1 and len({ctr(e) for z, e in pu}) == 1 for z, e in pu), K('limits'), None, 'limits are not added five times per image'):
            for j, (z, e) in enumerate(pu):
                r.ob(loc(e.pc, e) is TRUE, K('limits'), e, 'limits are added only when %s' % show(e.pc))
                for k_, o_ in LIM.items():
                    v = z[4].get(k_)
                    if looped and (v is None or is_num_(lm_(v))): continue                  # set in a loop over both ends: not followed
                    a = the_atom(unver(v)) if isinstance(v, (Leaf, Node)) else None
                    rest = [kk for mm, kk in a.args[1].terms if not mm] if a is not None and a.kind == 'load' and isinstance(a.args[1], Poly) else []
                    r.ob(len(rest) == 1 and int(rest[0]) - size == F[names[j] + '_limitInfo'] + o_, K('limits:%d' % j), e, '%s of parameter %d is %s' % (k_, j, show(v) if v is not None else 'unset'), sample=('limits of parameter %d' % j, k_)); c.count('description parameters')
        ex = [(e, q) for nn, e, q in t.stores(lambda o: o == 'EXIST')]; on = [e for e, q in ex if e.loops]; off_ = [e for e, q in ex if not e.loops]
        r.ob(any(same(unver(e.val), N(0)) or unver(e.val) is FALSE for e in off_), K('exist'), None, 'limits are said to exist before any was seen', sample='none at first')
        hit = set()
        for e in on:
            v = unver(e.val) if isinstance(e.val, (Leaf, Node)) else leaf(e.val); const = v is TRUE or v is FALSE or is_num_(v)
            if const and not (same(v, N(1)) or v is TRUE): r.ob(False, K('exist'), e, 'limits seen before are forgotten'); continue
            if not const:
                g = tmap(v, lambda a: N(0) if a.kind == 'load' and 'LIST' in repr(a.args[0]) and not a.args[2:] else None)
                r.ob(not (g is FALSE or is_num_(g)), K('exist'), e, 'limits seen before are forgotten', sample='limits of any image')
            for b in bvars(loc(e.pc, e)) + ([] if const else list(bvars(v))):
                for a in terms_in(leaf_bool(b)):
                    if a.kind == 'load' and 'LIST' in repr(a.args[0]): hit |= {int(kk) - size for mm, kk in a.args[1].terms if not mm}
        want = {F[f + '_limitInfo'] + o for f in names for o in (0, 4, 8)}
        if on and not looped: r.ob(want <= hit, K('exist'), on[0], 'limits of an image can go unnoticed: %s' % sorted(want - hit), sample='any of the 15 flags')
def lm_(v): return v if isinstance(v, (Leaf, Node)) else leaf(v)
def leaf_bool(b): return node(b, TRUE, FALSE)
def subst_atoms(v, d, n):
    v = v if isinstance(v, (Leaf, Node)) else leaf(v)
    return tmap(v, lambda a: N(n) if a in d else None)
def info_file(c):
    """which lines belong to which image, and which functions"""
    p = prog(); F, _ = p.fields('ImageInfo')
    def st(tx):
        H = reading(tx)
        def parse(fr, i, a, m):
            m = m.copy(); q = [z for z in leaves(a[7]) if isinstance(z, Ptr)]
            if len(q) == 1: fr.m.store(m, q[0], S('found'))
            tx.note('parse', fr, i, a, m); return S('parsed'), m
        H['ParseFunctionSection'] = parse
        H['AddInfoFromLines'] = lambda fr, i, a, m: (tx.note('add', fr, i, a, m), (S('offset'), m))[1]
        H['VetInputLines'] = lambda fr, i, a, m: (tx.note('vet', fr, i, a, m), (S('ok'), m))[1]
        for n in tx.p.prog.fns:
            if re.match(r'std::vector<.*>::operator=\(', dm(n)): H[n] = lambda fr, i, a, m: (tx.note('assign', fr, i, a, m), (a[0], m))[1]
        return H
    x = Tx(c, 'ReadImageParamsFile', [P_('FILE'), P_('NIM'), P_('LIST')], {('FILE', 0): T('filename')}, p=p, extra=st, loops=True); r = x.r; t = x.t; FN = T('filename')
    opened = [(e, q) for n, e, q in t.stores(lambda o: isinstance(o, tuple) and o[0] == 'io')]
    r.ob(len(opened) == 1 and same(opened[0][0].val, FN), 'file', None, 'another file is read', sample='file given')
    vt, ad, ps, rp, push, cl, asg = [x.of(k) for k in ('vet', 'add', 'parse', 'report', 'push', 'clear', 'assign')]
    if not r.ob(len(vt) == 1 and len(ad) == 1 and len(ps) == 1 and not vt[0][1].loops and len(ad[0][1].loops) == 1 and len(ps[0][1].loops) == 1, 'steps', None, 'lines are not checked once and read once per image'): return
    va, aa, pa = vt[0][1].args, ad[0][1].args, ps[0][1].args; L, O = vec_of(va[0]), vec_of(va[1]); ea, ep = ad[0][1], ps[0][1]
    r.ob(unver(vt[0][1].pc) is TRUE, 'vet', vt[0][1], 'the lines are not always checked')
    kept_lines(x, r, t, lambda q: q, 'info', [(z, e) for z, e in push if len(e.loops) == 1], L, O, FN)
    good = [bnot(ok0(S('ok')))]; bad = [ok0(S('ok'))]
    g = under(unver(t.val), *bad); r.ob(is_num_(g) and numval(poly(g)) < 0 and under(unver(ea.pc), *bad) is FALSE, 'refused', ea, 'a file with a bad line is used', sample='refused')
    r.ob(len(rp) == 1 and under(rp[0][1].pc, *bad) is TRUE and under(rp[0][1].pc, *good) is FALSE and vec_of(rp[0][1].args[0]) == vec_of(va[2]) and vec_of(rp[0][1].args[1]) == vec_of(va[3]), 'said', rp[0][1] if rp else None, 'what is wrong with a file is not said', sample='told')
    # where images start
    stt = [(z, e) for z, e in push if len(e.loops) == 1 and is_num_(vadd(unver(z[4]), vmul(N(-1), leaf(ctr(e))))) and vec_of(e.args[0]) not in (L, O)] if True else []
    if not r.ob(len(stt) == 1, 'starts', None, 'the first lines of the images are not looked for in one place'): return
    zs, es = stt[0]; k = ctr(es); B = vec_of(es.args[0]); w = within(leaf(k), size_of(L)); NI = size_of(B); c.count('images', 1)
    r.ob(same(unver(zs[4]), leaf(k)), 'starts', es, 'an image starts at line %s' % show(zs[4]), sample='line k')
    r.ob(cond(unver(es.pc), *good, *w, IMAGE_START=True) is TRUE and cond(unver(es.pc), *good, *w, IMAGE_START=False) is FALSE, 'starts', es, 'an image starts when %s' % show(es.pc), sample='at IMAGE_START')
    tr = es.loops[0][1]; tr = tr if isinstance(tr, (Leaf, Node)) else leaf(tr); r.ob(same(under(unver(tr), vcmp('>', size_of(L), N(0))), size_of(L)), 'starts', es, 'images are looked for in %s lines' % show(tr), sample='all lines')
    nm_ = [e for n, e, q in t.stores(lambda o: o == 'NIM')]; r.ob(len(nm_) >= 1 and same(unver(nm_[-1].val), NI) and under(unver(nm_[-1].pc), *good) is TRUE, 'number', nm_[-1] if nm_ else None, 'the number of images is %s' % (show(nm_[-1].val) if nm_ else 'not given'), sample='one per IMAGE_START')
    # the lines of one image
    ki = ctr(ea); s0 = EI(B, ki); s1 = EI(B, add(ki, num(1))); n = size_of(L); wi = within(leaf(ki), NI); C = vec_of(aa[0]); more = [vcmp('<', leaf(add(ki, num(1))), NI), vcmp('<', leaf(ki), vadd(NI, N(-1))), bnot(vcmp('==', leaf(add(ki, num(1))), NI))]; last = [bnot(vcmp('<', leaf(add(ki, num(1))), NI)), bnot(vcmp('<', leaf(ki), vadd(NI, N(-1))))]
    r.ob(under(unver(ea.pc), *good, *wi) is TRUE and vec_of(aa[1]) == ('LIST', ZERO), 'each', ea, 'an image is read only when %s' % show(ea.pc), sample='every image')
    r.ob(any(vec_of(e.args[0]) == ('LIST', ZERO) and under(unver(e.pc), *good) is TRUE and not e.loops for z, e in cl), 'cleared', None, 'images of an earlier file are kept', sample='list cleared')
    def range_of(vec, what, first, known):
        """the lines copied for one image: from the given line up to the start of the next image"""
        l = [(z, e) for z, e in push if vec_of(e.args[0]) == vec]
        if not r.ob(len(l) == 1 and len(l[0][1].loops) == 2 and l[0][1].loops[0][0] == ctr_name(ea) , what, ea, 'the %s are not collected in one place' % what): return None
        z, e = l[0]; j = ctr(e); at = vadd(leaf(j), first); c.count('line ranges')
        tr = e.loops[-1][1]; tr = unver(tr if isinstance(tr, (Leaf, Node)) else leaf(tr))
        for nm2, cs, end in (('an image followed by another', more, s1), ('the last image', last, n)):
            ln = vadd(end, vmul(N(-1), first)); pos = [vcmp('>', ln, N(0)), vcmp('<', first, end)]
            g = under(tr, *wi, *known, *cs, *pos); r.ob(same(g, ln), what + ':range', e, '%s of the %s of %s are used' % (show(g), what, nm2), sample=('%s of %s' % (what, nm2), show(ln)))
            inn = [vcmp('<', at, end), bnot(vcmp('>=', at, end)), vcmp('<', leaf(j), ln)]
            r.ob(under(unver(e.pc), *good, *wi, *known, *cs, *pos, *inn) is TRUE, what + ':range', e, 'some %s of %s are left out: %s' % (what, nm2, show(under(unver(e.pc), *good, *wi, *known, *cs, *pos, *inn))))
        r.ob(any(vec_of(e2.args[0]) == vec and len(e2.loops) <= 1 and (e2.loops or 1) for z2, e2 in cl) or fresh_each(x, vec, ea), what + ':cleared', e, 'the %s of an earlier image are kept' % what, sample=what + ' cleared')
        return z, e, at
    fn_ = [vcmp('>', S('offset'), N(0)), bnot(vcmp('<=', S('offset'), N(0))), bnot(ok0(S('offset')))]; nofn = [ok0(S('offset')), bnot(vcmp('>', S('offset'), N(0)))]
    q = range_of(C, 'lines', s0, [])
    if q: r.ob(same(unver(q[0][4]), LD(('elem', L[0], L[1]), scale(poly(q[2]), Fraction(32)))), 'lines', q[1], 'a line of an image is %s' % show(q[0][4]), sample='line of the image')
    # its functions
    first = vadd(vadd(s0, S('offset')), N(1))
    r.ob(under(unver(ep.pc), *good, *wi, *fn_) is TRUE and under(unver(ep.pc), *nofn) is FALSE, 'functions', ep, 'functions of an image are read when %s' % show(ep.pc), sample='when there are any')
    for vec, src, size, what in ((vec_of(pa[0]), L, 32, 'function lines'), (vec_of(pa[8]), O, 4, 'function line numbers')):
        q = range_of(vec, what, first, fn_)
        if q: r.ob(same(unver(q[0][4]), LD(('elem', src[0], src[1]), scale(poly(q[2]), Fraction(size)))), what, q[1], 'the %s of an image are %s' % (what, show(q[0][4])), sample=what)
    r.ob(unver(pa[1]) is TRUE, 'functions', ep, 'functions of an image are not read as those of images')
    neg = [vcmp('<', S('parsed'), N(0)), bnot(vcmp('>=', S('parsed'), N(0)))]; pos = [bnot(vcmp('<', S('parsed'), N(0))), vcmp('>=', S('parsed'), N(0))]
    want = {'perImageFuncNames': 2, 'perImageFuncLabels': 3, 'perImageParamVals': 4, 'perImageParamLimits': 5, 'perImageFuncSetIndices': 6}; name = {o: f for f, o in F.items()}; got = {}
    size = None
    for z, e in asg:
        o = vec_of(e.args[0]); a = rel(o, ki)
        if a is None: continue
        f = name.get(a); got[f] = e; c.count('functions of an image')
        r.ob(f in want and vec_of(e.args[1]) == vec_of(pa[want[f]]), 'functions:%s' % f, e, '%s of an image is taken from something else' % f, sample=f)
        r.ob(under(unver(e.pc), *good, *wi, *fn_, *pos) is TRUE, 'functions:%s' % f, e, '%s of an image is stored only when %s' % (f, show(under(unver(e.pc), *good, *wi, *fn_, *pos))))
    for f in want: r.ob(f in got, 'functions:%s' % f, ep, '%s of an image is not stored' % f)
    for f, w in (('perImageParamLimitsExist', S('found')), ('perImageFunctionsExist', N(1))):
        l = [(e, q) for nn, e, q in t.stores(lambda o: 'LIST' in str(o)) if rel((q.obj, q.off), ki) == F[f]]
        r.ob(any(flagged(e.val, w) and under(unver(e.pc), *good, *wi, *fn_, *pos) is TRUE for e, q in l), 'functions:%s' % f, ep, '%s of an image is %s' % (f, ', '.join(show(e.val) for e, q in l) or 'not stored'), sample=f)
    ex = [z_ for z_ in loops_out(t).get(ea.loops[0][0], [])]
    ways = [under(unver(t.val), *good, *cs) for cs, way in ex if under(way, *neg, *fn_) is not FALSE and 'parsed' in repr(way)]
    r.ob(len(ways) >= 1 and all(is_num_(g) and numval(poly(g)) < 0 for g in ways), 'functions:refused', ep, 'bad functions of an image are not refused', sample='refused')
def flagged(v, w):
    v = unver(v)
    return same(v, w) or v is TRUE and same(w, N(1)) or 'found' in repr(w) and 'found' in repr(v)
def ctr_name(e): return e.loops[-1][0]
def rel(o, k):
    """offset within image k of the list"""
    if o is None or 'LIST' not in repr(o[0]) or not isinstance(o[1], Poly): return None
    rest = [kk for mm, kk in o[1].terms if not mm]; lin = [mm for mm, kk in o[1].terms if mm]
    if len(lin) != 1 or lin[0][0][0] is not the_atom(leaf(k)): return None
    return int(rest[0]) if rest else 0
def fresh_each(x, vec, e):
    """the list is made anew for every image"""
    return any(ev.kind == 'call' and ev.loops and ev.loops[0][0] == e.loops[0][0] and '::vector()' in dm(ev.name) and vec_of(ev.args[0]) == vec for ev in x.t.events)
def C07():
    c = Check('C07', 'Value numbering of the reader of image-information files: every keyword with a line cut into named words, and one round of each loop over lines and images.')
    one_line(c); one_image(c); checked(c); parameters(c); info_file(c)
    c.floor('settings', 75); c.floor('description parameters', 10); c.floor('line ranges', 3)
    return c.finish()
TABLE = {'C07': C07}


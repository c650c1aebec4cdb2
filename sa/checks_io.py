"""I01: FITS images are read and written pixel for pixel, or the failure is reported. A model of cfitsio's calls is part of the traced program: every call may fail, and a failed status makes the later ones do nothing."""
from fractions import Fraction
from . import strs, ir
from .cas import *
from .build import AnalysisError, dm
from .report import Check
from .trace import *
from .checks_pipe import Rule, unver, same, under, paths_of, LD, trip
from .checks_setup import prog
from .outs import outputs

SRC = 'core/image_io.cpp'
NAX = [psym('naxes.0'), psym('naxes.1')]
HDU, DIM = psym('hduType'), psym('naxis')
def ok0(x): return vcmp('==', leaf(x) if isinstance(x, Poly) else x, N(0))
class Fits:
    """cfitsio as seen by the traced functions"""
    NAMES = {'ffopentest': 'open', 'ffopen': 'open', 'ffdkopn': 'open', 'ffiopn': 'open', 'ffghdn': 'hdunum', 'ffghdt': 'hdutype', 'ffmahd': 'movabs', 'ffgidm': 'dim', 'ffgisz': 'size', 'ffgipr': 'par', 'ffgkyj': 'key', 'ffgknj': 'keys', 'ffgpxv': 'read', 'ffgpv': 'readv', 'ffgpvd': 'readd',
             'ffinit': 'create', 'ffcrim': 'image', 'ffpcom': 'comment', 'ffpdat': 'date', 'ffppx': 'write', 'ffppr': 'writev', 'ffpprd': 'writed', 'ffclos': 'close', 'ffrprt': 'report', 'fftw_alloc_real': 'alloc', 'fftw_malloc': 'allocb', 'fftw_free': 'free'}
    STATUS = {'open', 'hdutype', 'movabs', 'dim', 'size', 'par', 'key', 'keys', 'read', 'readv', 'readd', 'create', 'image', 'comment', 'date', 'write', 'writev', 'writed', 'close'}
    def __init__(self): self.rec = []; self.n = {}
    def hooks(self, p):
        H = {}
        for f, k in self.NAMES.items(): H['@' + f] = H[f] = self.hook(k)
        return H
    def hook(self, k):
        def h(fr, i, a, m):
            m = m.copy(); n = self.n[k] = self.n.get(k, 0) + 1; new = None
            if k in self.STATUS:
                q = [x for x in leaves(a[-1]) if isinstance(x, Ptr)]
                if len(q) != 1: raise AnalysisError('%s: status of %s is not a single variable' % (fr.fn.name, k))
                old = fr.m.load(m, q[0], ir.INT(32))
                # comments and dates are taken to be written unless something failed before
                err = N(0) if k in ('comment', 'date') else S('err.%s.%d' % (k, n))
                new = old if k in ('comment', 'date') else ite(ok0(old), err, old)
            good = ok0(new) if new is not None else TRUE
            def out(j, v, ty, off=0):
                for x in leaves(a[j]):
                    if isinstance(x, Ptr) and x.obj != 'null':
                        d = Ptr(x.obj, add(x.off, num(off))); fr.m.store(m, d, ite(good, v, fr.m.load(m, d, ty)))
            res = new if new is not None else BOT
            if k in ('open', 'create'): self.open_(fr, i, a, m, k, n, out)
            elif k == 'hdunum': out(1, S('hdu'), ir.INT(32)); res = S('hdu')
            elif k == 'hdutype': out(1, leaf(HDU), ir.INT(32))
            elif k == 'movabs': out(2, leaf(HDU), ir.INT(32))
            elif k == 'dim': out(1, leaf(DIM), ir.INT(32))
            elif k == 'size':
                for j in (0, 1): out(2, leaf(NAX[j]), ir.INT(64), 8 * j)
            elif k == 'par':
                out(3, leaf(DIM), ir.INT(32))
                for j in (0, 1): out(4, leaf(NAX[j]), ir.INT(64), 8 * j)
            elif k == 'keys':
                for j in (0, 1): out(4, leaf(NAX[j]), ir.INT(64), 8 * j)
                out(5, S('nfound'), ir.INT(32))
            elif k == 'key':
                t = strs.literal(chars_of(fr, a[1]))
                out(2, leaf(NAX[0]) if t == 'NAXIS1' else leaf(NAX[1]) if t == 'NAXIS2' else S('key?'), ir.INT(64))
            elif k in ('alloc', 'allocb'): res = leaf(Ptr(('image', n), ZERO))
            self.rec.append((k, n, i, a, m.copy(), fr.fn, [strs.chars(fr, x) if any(isinstance(y, Ptr) for y in leaves(x)) else None for x in a]))
            if new is not None and k not in ('comment', 'date'): fr.m.store(m, q[0], new)
            return res, m
        return h
    def open_(self, fr, i, a, m, k, n, out):
        j = 1 if len(a) == 5 else 0
        out(j, leaf(Ptr(('fits', k, n), ZERO)), ir.PTR)
def chars_of(fr, v):
    x = strs.chars(fr, v); return x.v if isinstance(x, Leaf) else None

class Io:
    def __init__(self, c, name, args, mem=None):
        self.c = c; self.p = prog(SRC); self.x = Fits(); H = self.x.hooks(self.p)
        m0 = mem or {}; mem = Mem(); mem.d.update(m0); mem.d[("FILE", 0)] = S('filename'); mem.d[('CNAME', 0)] = S('cname')
        f = self.p.func(name); self.t = Trace(self.p, f, None, args=args, hooks=H, strings=True, mem=mem)
        self.f = f; self.r = Rule(c, self.t, name)
    def errs(self, *kinds): return [(k, n, psym('err.%s.%d' % (k, n))) for k, n, *_ in self.x.rec if k in kinds and k in self.x.STATUS]
    def of(self, *kinds): return [r for r in self.x.rec if r[0] in kinds]
    def mem_at(self, m, v, o, ty=64):
        l = [q for q in leaves(v) if isinstance(q, Ptr)]
        if len(l) != 1: return None
        return self.t.m.load(m, Ptr(l[0].obj, add(l[0].off, num(o))), ir.INT(ty))
def P_(o): return leaf(Ptr(o, ZERO))
def value_at(t, obj, off, ty): return t.m.load(t.out, Ptr(obj, num(off)), ty)
def fails_when(r, what, pc, must, label, e=None):
    """a path that counts as success rules out every failure in `must` (pairs of a name and a condition that has to hold)"""
    for name, ok in must:
        r.ob(under(pc, bnot(ok)) is FALSE, '%s:%s' % (what, name), e, '%s although %s' % (label, name), sample=('%s only if' % label, name))
def conj_of(path):
    pc = TRUE
    for b, q in path: pc = band(pc, node(b, TRUE, FALSE) if q else node(b, FALSE, TRUE))
    return pc
def union(paths):
    pc = FALSE
    for p in paths: pc = bor(pc, conj_of(p))
    return pc
def file_ok(x, close=False):
    """what has to hold for the image to have been read: nothing failed and there is a two-dimensional image"""
    ks = [k for k in ('open', 'movabs', 'hdutype', 'dim', 'size', 'par', 'key', 'keys', 'read', 'readv', 'readd')]
    out = [('%s %d fails' % ({'open': 'opening the file', 'movabs': 'moving to the extension', 'dim': 'reading the number of dimensions', 'keys': 'reading the dimensions', 'read': 'reading the pixels'}.get(k, 'cfitsio call ' + k), n), ok0(e)) for k, n, e in x.errs(*ks)]
    return out + [('the extension is not an image', ok0(HDU)), ('the image is not two-dimensional', vcmp('==', leaf(DIM), N(2)))]
def opened_file(x, r, mode_ok=('0',)):
    for k, n, i, a, m, fn, txt in x.of('open'):
        j = 2 if len(a) == 5 else 1
        r.ob(txt[j] is not None and same(txt[j], S('filename')), 'open:name', Ev(fn, i), 'opens %s instead of the file asked for' % show(txt[j]), sample=('opens', show(txt[j])))
        r.ob(same(a[j + 1], N(0)), 'open:mode', Ev(fn, i), 'the file is not opened read-only')
    used = [r_ for r_ in x.x.rec if r_[0] in x.x.STATUS and r_[0] not in ('open', 'create', 'report', 'hdunum')] + x.of('hdunum')
    for k, n, i, a, m, fn, txt in used:
        l = [q for q in leaves(a[0]) if isinstance(q, Ptr) and q.obj[0] == 'fits']
        r.ob(len(l) == 1, '%s:file' % k, Ev(fn, i), 'cfitsio call %s is not made on the file that was opened' % k)
class Ev:
    def __init__(s, fn, inst): s.fn, s.inst = fn, inst
def show(v): return 'nothing' if v is None else brief(v, 80)
def stderr_said(t):
    pc = FALSE
    for o in outputs(t):
        if o.dest is not None and any(isinstance(q, Ptr) and 'stderr' in repr(q.obj) for q in leaves(o.dest)): pc = bor(pc, o.pc)
    for n, e in enumerate(t.events):
        if e.kind == 'call' and e.name and 'ffrprt' in e.name: pc = bor(pc, unver(e.pc))
    return pc
def axis_checks(x, r):
    for k, n, i, a, m, fn, txt in x.of('keys'):
        r.ob(strs.literal(txt[1].v) == 'NAXIS' and same(a[2], N(1)) and is_num(a[3].v) and numval(a[3].v) >= 2, 'keys', Ev(fn, i), 'does not read NAXIS1 and NAXIS2', sample=('reads', 'NAXIS1, NAXIS2'))
    for k, n, i, a, m, fn, txt in x.of('size'):
        r.ob(is_num(a[1].v) and numval(a[1].v) >= 2, 'keys', Ev(fn, i), 'does not read NAXIS1 and NAXIS2')
def reader(c):
    x = Io(c, 'ReadImageAsVector', [P_('FILE'), P_('C'), P_('R'), S('verbose')]); r = x.r; t = x.t
    opened_file(x, r); axis_checks(x, r)
    good = [(p, l) for p, l in paths_of(t.val) if not (isinstance(l, Ptr) and l.obj == 'null')]; bad = [p for p, l in paths_of(t.val) if isinstance(l, Ptr) and l.obj == 'null']
    ok = union([p for p, l in good])
    r.ob(len(good) > 0 and ok is not FALSE, 'some', None, 'never returns an image')
    fails_when(r, 'null', ok, file_ok(x), 'ReadImageAsVector returns pixels')
    alls = TRUE
    for n_, k in file_ok(x) + [('', ok0(e)) for _, _, e in x.errs('close')]: alls = band(alls, k)
    r.ob(under(bnot(ok), alls) is FALSE, 'read:all', None, 'a valid two-dimensional image is not always read', sample=('a valid 2-D image is', 'returned'))
    r.ob(band(bnot(ok), bnot(stderr_said(t))) is FALSE, 'null:said', None, 'some failure is not reported', sample=('every null result is', 'reported on stderr'))
    rd = x.of('read', 'readv', 'readd'); r.ob(len(rd) == 1, 'read', None, 'pixels are read %d times' % len(rd))
    al = x.of('alloc', 'allocb')
    npix = mul(NAX[0], NAX[1])
    for k, n, i, a, m, fn, txt in rd:
        e = Ev(fn, i); at = lambda j: under(a[j], ok)
        if k == 'readd': raise AnalysisError('ReadImageAsVector: ffgpvd is not modelled')
        r.ob(same(at(1), N(82)), 'read:type', e, 'the pixels are not read as doubles', sample=('reads', 'TDOUBLE'))
        if k == 'read':
            for o in (0, 8): r.ob(x.mem_at(m, a[2], o) is not None and same(x.mem_at(m, a[2], o), N(1)), 'read:first', e, 'reading does not start at pixel (1,1)', sample=('first pixel', '(1,1)'))
        else: r.ob(same(at(2), N(1)), 'read:first', e, 'reading does not start at pixel 1')
        r.ob(same(at(3), leaf(npix)), 'read:count', e, 'reads %s pixels, not NAXIS1*NAXIS2' % show(at(3)), sample=('pixels read', show(at(3))))
        nul = [q for q in leaves(at(4))]; z = nul and all(isinstance(q, Ptr) and (q.obj == 'null' or same(x.mem_at(m, leaf(q), 0), N(0))) for q in nul)
        r.ob(z, 'read:nulls', e, 'undefined pixels are replaced while reading')
        dst = at(5)
        for p, l in good:
            r.ob(same(under(dst, conj_of(p)), leaf(l)), 'read:dest', e, 'the pixels are read into %s but %s is returned' % (show(dst), l), sample=('returned', str(l)))
    for p, l in good:
        mine = [z for z in al if isinstance(l, Ptr) and l.obj == ('image', z[1])]
        if r.ob(len(mine) == 1 and l.off is ZERO, 'read:owned', None, 'the returned array %s is not a new one' % (l,)):
            k, n, i, a, m, fn, txt = mine[0]; need = leaf(npix if k == 'alloc' else scale(npix, Fraction(8)))
            r.ob(same(under(a[0], conj_of(p)), need), 'read:room', Ev(fn, i), 'allocates %s for %s pixels' % (show(under(a[0], conj_of(p))), brief(leaf(npix))), sample=('allocated', brief(leaf(npix))))
        for z in x.of('free'):
            f = band(band(ev_pc(t, z), conj_of(p)), TRUE)
            r.ob(f is FALSE or not any(isinstance(q, Ptr) and q.obj == l.obj for q in leaves(z[3][0])), 'read:freed', Ev(z[5], z[2]), 'the returned array has been freed')
    for obj, w, nm in (('C', NAX[0], 'columns'), ('R', NAX[1], 'rows')):
        v = under(value_at(t, obj, 0, ir.INT(32)), ok)
        r.ob(same(v, leaf(w)), 'size:' + nm, None, 'the number of %s reported is %s' % (nm, show(v)), sample=(nm, show(v)))
def ev_pc(t, z):
    pc = FALSE
    for n, e in enumerate(t.events):
        if e.kind == 'call' and e.inst is z[2]: pc = bor(pc, unver(e.pc))
    return pc
def sizer(c):
    x = Io(c, 'GetImageSize', [P_('OUT'), P_('FILE'), S('verbose')]); r = x.r; t = x.t
    opened_file(x, r); axis_checks(x, r)
    st = value_at(t, 'OUT', 0, ir.INT(32)); rows = value_at(t, 'OUT', 4, ir.INT(32)); cols = value_at(t, 'OUT', 8, ir.INT(32))
    ok = ok0(st)
    r.ob(ok is not FALSE, 'some', None, 'never succeeds')
    fails_when(r, 'status', ok, file_ok(x), 'GetImageSize reports success')
    r.ob(same(under(cols, ok), leaf(NAX[0])), 'columns', None, 'the number of columns returned is %s' % show(under(cols, ok)), sample=('columns', show(under(cols, ok))))
    r.ob(same(under(rows, ok), leaf(NAX[1])), 'rows', None, 'the number of rows returned is %s' % show(under(rows, ok)), sample=('rows', show(under(rows, ok))))
    alls = TRUE
    for n_, k in file_ok(x) + [('', ok0(e)) for _, _, e in x.errs('close')]: alls = band(alls, k)
    r.ob(under(bnot(ok), alls) is FALSE, 'read:all', None, 'the size of a valid two-dimensional image is not always returned')
    r.ob(band(bnot(ok), bnot(stderr_said(t))) is FALSE, 'said', None, 'some failure is not reported')
def valid(c):
    x = Io(c, 'CheckForImage', [P_('FILE'), S('verbose')]); r = x.r; t = x.t
    opened_file(x, r); ok = vcmp('>', t.val, N(0))
    r.ob(ok is not FALSE, 'some', None, 'never accepts a file')
    fails_when(r, 'valid', ok, file_ok(x), 'CheckForImage accepts a file')
    alls = TRUE
    for n_, k in file_ok(x): alls = band(alls, k)
    r.ob(under(bnot(ok), alls) is FALSE, 'valid:all', None, 'a valid two-dimensional image is not always accepted')
    r.ob(band(bnot(ok), bnot(stderr_said(t))) is FALSE, 'said', None, 'some failure is not reported')
    for k, n, i, a, m, fn, txt in x.of('movabs'): r.ob(same(under(a[1], alls), S('hdu')), 'hdu', Ev(fn, i), 'looks at another extension than the one the name selects')
def writer(c):
    mem = {('COM', 0): P_('COM[]'), ('COM', 8): leaf(Ptr('COM[]', scale(psym('n:comments'), Fraction(32)))), ('COM', 16): leaf(Ptr('COM[]', scale(psym('n:comments'), Fraction(32))))}
    x = Io(c, 'SaveVectorAsImage', [P_('PIX'), P_('FILE'), S('nCols'), S('nRows'), P_('COM')], mem=mem); r = x.r; t = x.t
    isnull = vcmp('==', P_('PIX'), P_('null'))
    ok = ok0(t.val); r.ob(band(ok, bnot(isnull)) is not FALSE, 'some', None, 'never succeeds')
    r.ob(under(ok, isnull) is FALSE, 'null', None, 'claims success for a null image')
    must = [('%s fails' % {'create': 'creating the file', 'image': 'creating the image', 'write': 'writing the pixels', 'close': 'closing the file'}.get(k, k), ok0(e)) for k, n, e in x.errs('create', 'image', 'write', 'writev', 'close')]
    fails_when(r, 'status', ok, must, 'SaveVectorAsImage reports success')
    alls = bnot(isnull)
    for n_, k in must: alls = band(alls, k)
    r.ob(under(bnot(ok), alls) is FALSE, 'status:all', None, 'reports a failure when nothing failed')
    r.ob(band(bnot(ok), bnot(stderr_said(t))) is FALSE, 'said', None, 'some failure is not reported', sample=('every failure is', 'reported on stderr'))
    one = lambda *ks: x.of(*ks)
    for ks, what in ((('create',), 'creates the file'), (('image',), 'creates the image'), (('write', 'writev'), 'writes the pixels'), (('close',), 'closes the file')):
        pc = FALSE
        for z in one(*ks): pc = bor(pc, ev_pc(t, z))
        r.ob(under(bnot(pc), alls) is FALSE and len(one(*ks)) > 0, 'does:' + ks[0], None, 'a case exists in which it never %s' % what, sample=('always', what))
    for k, n, i, a, m, fn, txt in one('create'):
        want = strs.cat(leaf(psym('"!"')), S('filename'))
        r.ob(txt[1] is not None and same(txt[1], want), 'name', Ev(fn, i), 'creates %s instead of !filename (replacing an existing file)' % show(txt[1]), sample=('file created', show(txt[1])))
    for k, n, i, a, m, fn, txt in one('image'):
        e = Ev(fn, i)
        r.ob(same(a[1], N(-32)) or same(a[1], N(-64)), 'image:type', e, 'the image is not a floating-point one', sample=('BITPIX', show(a[1])))
        r.ob(same(a[2], N(2)), 'image:dims', e, 'the image does not have two dimensions')
        for o, w in ((0, 'nCols'), (8, 'nRows')):
            v = x.mem_at(m, a[3], o); r.ob(v is not None and same(v, S(w)), 'image:size', e, 'axis %d of the image is %s, not %s' % (o // 8 + 1, show(v), w), sample=('axis %d' % (o // 8 + 1), show(v)))
    npix = mul(psym('nCols'), psym('nRows'))
    for k, n, i, a, m, fn, txt in one('write', 'writev'):
        e = Ev(fn, i); at = lambda j: under(a[j], alls)
        r.ob(same(at(1), N(82)), 'write:type', e, 'the pixels are not passed on as doubles')
        if k == 'write':
            for o in (0, 8): r.ob(x.mem_at(m, a[2], o) is not None and same(x.mem_at(m, a[2], o), N(1)), 'write:first', e, 'writing does not start at pixel (1,1)', sample=('first pixel', '(1,1)'))
        else: r.ob(same(at(2), N(1)), 'write:first', e, 'writing does not start at pixel 1')
        r.ob(same(at(3), leaf(npix)), 'write:count', e, 'writes %s pixels, not nColumns*nRows' % show(at(3)), sample=('pixels written', show(at(3))))
        r.ob(same(at(4), P_('PIX')), 'write:source', e, 'writes %s, not the image' % show(at(4)))
    w = [q for n, e, q in t.stores(lambda o: o == 'PIX')]; r.ob(not w, 'write:changed', None, 'changes the pixel values')
    # the order of the calls: the image before its pixels, and the file is closed last
    pos = {}
    for k, n, i, a, m, fn, txt in x.x.rec: pos.setdefault('write' if k == 'writev' else k, []).append(x.x.rec.index(next(z for z in x.x.rec if z[2] is i and z[0] == k and z[1] == n)))
    r.ob(all(k in pos for k in ('create', 'image', 'write', 'close')) and max(pos['create']) < min(pos['image']) and max(pos['image']) < min(pos['write']), 'order', None, 'the image is not created before its pixels are written')
    # every comment
    com = [(n, e) for n, e in t.calls('ffpcom')] or [(n, e) for n, e in t.calls('@ffpcom')]
    fr = type('Fr', (), {})(); fr.m = t.m; found = False
    for n, e in com:
        if len(e.loops) != 1: continue
        k, K = e.loops[0]; k = k if isinstance(k, Poly) else psym(k); v = strs.chars(fr, e.args[1])
        one_ = same(v, LD('COM[]', scale(k, Fraction(32)))); no = ok0(t.val)
        pc = under(drop_loop_conds(unver(e.pc), e), alls)
        found = found or (one_ and K is not None and trip(K) is psym('n:comments') and (pc is TRUE or under(bnot(pc), vcmp('>', S('n:comments'), N(0))) is FALSE))
    r.ob(found, 'comments', None, 'not every header line is written to the image', sample=('header lines', 'all written'))
def I01():
    c = Check('I01', 'Value numbering of the FITS reading and writing functions with a model of cfitsio in which every call may fail.'); valid(c); sizer(c); reader(c); writer(c)
    return c.finish()
TABLE = {'I01': I01}

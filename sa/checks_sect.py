"""I02: image sections, masks, PSF images and oversampling regions are matched to the data image."""
import re
from fractions import Fraction
from . import strs, ir
from .cas import *
from .build import AnalysisError, dm
from .report import Check
from .trace import *
from .checks_pipe import Rule, unver, same, under, paths_of, LD, trip, OPAQUE_VOID
from .checks_setup import prog
from .checks_io import P_, show, stderr_said, conj_of, union, value_at, ok0, Ev

SRCS = ('core/getimages.cpp', 'core/psf_oversampling_info.cpp', 'core/utilities.cpp', 'core/image_io.cpp')
I32 = ir.INT(32)
def iff(a, b): return band(a, bnot(b)) is FALSE and band(b, bnot(a)) is FALSE
def npieces(s, d): return vfn('pieces#', s, d)
def piece(s, d, k): return vfn('piece', s, d, N(k))
def lit(x): return leaf(psym('"%s"' % x))
def first(f): return f[0] if isinstance(f, list) else f
def failed(kind, t): return vfn('failed.' + kind, t)
class Tr:
    """a traced function; images are read by name, texts cut into pieces, numbers read from texts by name"""
    def __init__(self, c, name, args, mem=None, extra=None, cls=None, inline=()):
        self.p = p = prog(*SRCS); self.rec = []; H = {}; vecs = {}
        mm = Mem(); mm.d.update(mem or {})
        def note(k, i, a, fr, m, res=None): self.rec.append((k, i, a, fr.fn, res)); return len([r for r in self.rec if r[0] == k])
        def split(fr, i, a, m):
            s, d = strs.get(fr, m, a[0]), strs.get(fr, m, a[2]); v = [q for q in leaves(a[1]) if isinstance(q, Ptr)]
            if len(v) != 1 or not is_num(v[0].off): raise AnalysisError('%s: SplitString into an unknown vector' % name)
            m = m.copy(); o = ('pieces', vecs.setdefault((s.id, d.id), len(vecs))); b = int(numval(v[0].off))
            for k in range(8): m.d[(o, 32 * k)] = piece(s, d, k)
            m.d[(v[0].obj, b)] = leaf(Ptr(o, ZERO)); m.d[(v[0].obj, b + 8)] = apply(lambda n: leaf(Ptr(o, scale(n, Fraction(32)))), 'pieces', npieces(s, d))
            return BOT, m
        sites = {}
        def read(fr, i, a, m):
            t = strs.get(fr, m, a[0]); note('read', i, a, fr, m, t); n = sites.setdefault(id(i), len(sites) + 1); m = m.copy(); ok = ok0(failed('read', t))
            for j, w in ((1, 'cols'), (2, 'rows')):
                for q in leaves(a[j]):
                    if isinstance(q, Ptr) and q.obj != 'null': fr.m.store(m, q, ite(ok, vfn(w, t), fr.m.load(m, q, I32)))
            return ite(ok, P_(('img', n)), P_('null')), m
        def size(fr, i, a, m):
            t = strs.get(fr, m, a[1]); note('size', i, a, fr, m, t); m = m.copy(); ok = ok0(failed('size', t)); q = [x for x in leaves(a[0]) if isinstance(x, Ptr)][0]
            for o, v in ((0, ite(ok, N(0), N(-1))), (4, ite(ok, vfn('rows', t), N(0))), (8, ite(ok, vfn('cols', t), N(0)))): fr.m.store(m, Ptr(q.obj, add(q.off, num(o))), v)
            return BOT, m
        def free(fr, i, a, m): note('free', i, a, fr, m); return BOT, m
        def number(fr, i, a, m): return vfn('atoi', strs.chars(fr, a[0])), m
        H['SplitString'] = split; H['ReadImageAsVector'] = read; H['GetImageSize'] = size; H['@fftw_free'] = free; H['@atoi'] = number
        H['@strtol'] = number
        for n in p.prog.fns:
            if n.startswith('@_ZNSt6vector') and 'D2Ev' in n: H[n] = OPAQUE_VOID
            if n.startswith('@_ZNSt7__cxx114stoi'): H[n] = lambda fr, i, a, m: (vfn('atoi', strs.get(fr, m, a[0])), m)
        for k in ('GetStartCoordsFromBracket', 'GetPixelStartCoords', 'GetAllCoordsFromBracket'):
            if k != name and k not in inline: H[k] = self.coords(k, {'GetAllCoordsFromBracket': 4}.get(k, 2))
        full = {n: n.replace('C1E', 'C2E') for n in p.prog.fns if n.startswith('@_ZN19PsfOversamplingInfoC1E')}
        for n, n2 in full.items(): H[n] = lambda fr, i, a, m, n2=n2: (BOT, fr.m.call(first(p.prog.fns[n2]), a, m, fr.depth + 1)[1])
        if extra: H.update(extra(self))
        f = p.func(name); self.f = f
        self.t = Trace(p, f, cls, args=args, hooks=H, strings=True, mem=mm); self.r = Rule(c, self.t, name.split('::')[-1])
    def coords(self, k, n):
        def h(fr, i, a, m):
            t = strs.get(fr, m, a[1]); m = m.copy(); q = [x for x in leaves(a[0]) if isinstance(x, Ptr)][0]
            for j in range(n): fr.m.store(m, Ptr(q.obj, add(q.off, num(4 * (n - 1 - j)))), vfn('%s.%d' % (k, j), t))
            return BOT, m
        return h
    def out(self, off, ty=I32): return value_at(self.t, 'OUT', off, ty)
    def at(self, obj, off, ty=I32): return value_at(self.t, obj, off, ty)
def check(r, conds, v, want, key, msg, sample=None):
    a, b = under(v, *conds), under(want, *conds)
    return r.ob(same(a, b), key, None, '%s is %s instead of %s' % (msg, show(a), show(b)), sample=(sample or msg, show(a)))
def sections(c):
    T = lambda s: leaf(psym(s)); txt = T('text'); comma, colon, star = lit(','), lit(':'), lit('*')
    two = vcmp('==', npieces(txt, comma), N(2))
    for fn, n in (('GetStartCoordsFromBracket', 1), ('GetAllCoordsFromBracket', 2)):
        full = n == 2
        x = Tr(c, fn, [P_('OUT'), P_('TEXT')] + ([] if full else [P_('NAME')]), {('TEXT', 0): txt, ('NAME', 0): T('name')}); r = x.r
        # what is cut at the comma
        vals = [x.out(4 * (2 * n - 1 - j)) for j in range(2 * n)]
        cut = whole(x, vals)
        if not r.ob(cut is not None, 'text', None, 'the section is not cut at its comma'): continue
        if full: r.ob(trims(cut, txt), 'trim', None, 'the text read is %s' % show(cut), sample=('text read', show(cut)))
        else: r.ob(same(cut, txt), 'trim', None, 'the text read is %s' % show(cut))
        two = [vcmp('==', npieces(cut, comma), N(2)), bnot(vcmp('<', npieces(cut, comma), N(2))), bnot(vcmp('>', npieces(cut, comma), N(2)))]
        P2 = [piece(cut, comma, k) for k in (0, 1)]
        stars = lambda k: [vcmp('==', P2[k], star)]; ranges = lambda k: [bnot(vcmp('==', P2[k], star)), vcmp('==', npieces(P2[k], colon), N(2))]; wrong = lambda k: [bnot(vcmp('==', P2[k], star)), bnot(vcmp('==', npieces(P2[k], colon), N(2)))]
        for kx, cx in (('range', ranges), ('*', stars), ('bad', wrong)):
            for ky, cy in (('range', ranges), ('*', stars), ('bad', wrong)):
                conds = two + cx(0) + cy(1); bad = 'bad' in (kx, ky)
                for ax, kind in ((0, kx), (1, ky)):
                    for j in range(n):
                        if kind == '*' and j and not bad: continue          # the upper end of "*" is not used
                        want = N(0) if bad else N(1) if kind == '*' else vfn('atoi', piece(P2[ax], colon, j))
                        nm = '%s%d' % ('xy'[ax], j + 1)
                        check(r, conds, vals[ax * n + j], want, '%s,%s:%s' % (kx, ky, nm), '%s of a section "%s"' % (nm, ','.join({'range': 'a:b', '*': '*', 'bad': 'a'}[z] for z in (kx, ky))))
        if full:
            less = [vcmp('==', npieces(cut, comma), N(1)), bnot(vcmp('==', npieces(cut, comma), N(2))), vcmp('<', npieces(cut, comma), N(2)), bnot(vcmp('>', npieces(cut, comma), N(2)))]
            for j in range(2 * n): check(r, less, vals[j], N(0), 'parts:%d' % j, 'a coordinate of a section with a single part')
        r.c.count('texts analysed')
def conj(l):
    r = TRUE
    for x in l: r = band(r, x)
    return r
def terms_in(v, acc=None, seen=None):
    acc = [] if acc is None else acc; seen = set() if seen is None else seen
    if isinstance(v, Node):
        if id(v) in seen: return acc
        seen.add(id(v)); terms_in(v.hi, acc, seen); terms_in(v.lo, acc, seen)
        for a in v.var.args: terms_in(a, acc, seen)
    elif isinstance(v, Leaf): terms_in(v.v, acc, seen)
    elif isinstance(v, Poly):
        if id(v) in seen: return acc
        seen.add(id(v))
        for m, _ in v.terms:
            for a, _e in m:
                acc.append(a)
                for b in a.args: terms_in(b, acc, seen)
    elif isinstance(v, (tuple, list)):
        for b in v: terms_in(b, acc, seen)
    return acc
def whole(x, vals):
    """the text that is cut at commas"""
    found = {}
    for v in vals:
        for a in terms_in(v):
            if a.kind == 'fn' and a.args[0] == 'piece' and strs.literal(a.args[2].v if isinstance(a.args[2], Leaf) else a.args[2]) == ',':
                s = a.args[1]; s = s if isinstance(s, (Leaf, Node)) else leaf(s); found[s.id] = s
    return list(found.values())[0] if len(found) == 1 else None
def trims(cut, txt):
    """cut is txt without leading [ and trailing ]"""
    a, b = vfn('str:find_first_not_of', txt, lit('['), N(0)), vfn('str:find_last_not_of', txt, lit(']'), N(-1))
    for n in (vadd(vadd(b, vmul(N(-1), a)), N(1)),):
        if same(cut, vfn('substr', txt, a, n)): return True
    return False
def origin(c):
    """the section in a file name, and the offset it stands for"""
    f = leaf(psym('file')); x = Tr(c, 'GetPixelStartCoords', [P_('OUT'), P_('TEXT')], {('TEXT', 0): f}); r = x.r
    xs, ys = x.out(4), x.out(0); npos = N(-1); no = lambda v: vcmp('==', v, npos); yes = lambda v: bnot(no(v))
    find = lambda ch, at: vfn('str:find', f, lit(ch), at)
    inside = lambda a, b: vfn('substr', f, vadd(a, N(1)), vadd(vadd(b, vmul(N(-1), a)), N(-1)))
    l1 = find('[', N(0)); l2 = find(']', l1); l3 = find('[', l2); l4 = find(']', l3); s1, s2 = inside(l1, l2), inside(l3, l4); comma = lit(',')
    n1, n2 = npieces(s1, comma), npieces(s2, comma); empty1 = vcmp('==', s1, strs.EMPTY); size1 = vfn('str:size', s1)
    isn = lambda v, k: [vcmp('==', v, N(k)), *[bnot(vcmp('==', v, N(j))) for j in (1, 2) if j != k]]
    full = [bnot(empty1), bnot(vcmp('==', size1, N(0))), vcmp('>', size1, N(0)), bnot(vcmp('<', size1, N(1)))]; none = [empty1, vcmp('==', size1, N(0)), bnot(vcmp('>', size1, N(0))), vcmp('<', size1, N(1))]
    start = lambda s: [vfn('GetStartCoordsFromBracket.%d' % j, s) for j in (0, 1)]
    one = [N(1), N(1)]; bad = [N(0), N(0)]
    other = [bnot(vcmp('==', n1, N(1))), bnot(vcmp('==', n1, N(2)))]
    cases = [('no section', [no(l1)], one), ('unclosed section', [yes(l1), no(l2)], bad), ('section', [yes(l1), yes(l2), no(l3)] + isn(n1, 2), start(s1)), ('section and another group', [yes(l1), yes(l2), yes(l3), yes(l4)] + isn(n1, 2), start(s1)),
             ('extension', [yes(l1), yes(l2), no(l3)] + isn(n1, 1) + full, one), ('extension and section', [yes(l1), yes(l2), yes(l3), yes(l4)] + isn(n1, 1) + full + isn(n2, 2), start(s2)),
             ('extension and unclosed section', [yes(l1), yes(l2), yes(l3), no(l4)] + isn(n1, 1), bad), ('extension and something else', [yes(l1), yes(l2), yes(l3), yes(l4)] + isn(n1, 1) + full + isn(n2, 1), bad),
             ('empty brackets', [yes(l1), yes(l2), no(l3)] + isn(n1, 1) + none, bad), ('no or three parts', [yes(l1), yes(l2), no(l3)] + other, bad)]
    for nm, conds, want in cases:
        for v, w, ax in ((xs, want[0], 'x'), (ys, want[1], 'y')): check(r, conds, v, w, '%s:%s' % (nm.replace(' ', '_'), ax), '%s of the first pixel (%s)' % (ax, nm))
    c.count('texts analysed')
    x = Tr(c, 'DetermineImageOffset', [P_('OUT'), P_('TEXT')], {('TEXT', 0): f})
    for j, o in ((0, 4), (1, 0)): check(x.r, [], x.out(o), vadd(vfn('GetPixelStartCoords.%d' % j, f), N(-1)), 'offset:%s' % 'xy'[j], 'the %s offset' % 'xy'[j])
def loads(c):
    """an image is accepted when it can be read and has the size asked for"""
    x = Tr(c, 'GetAndCheckImage', [P_('OUT'), P_('FILE'), P_('TYPE'), S('nc'), S('nr')], {('FILE', 0): S('filename'), ('TYPE', 0): S('type')}); r = x.r
    pix, st = x.out(8, ir.PTR), x.out(0); rd = [z for z in x.rec if z[0] == 'read']
    if not r.ob(len(rd) == 1, 'read', None, 'the image is read %d times' % len(rd)): return
    r.ob(same(rd[0][4], S('filename')), 'name', Ev(rd[0][3], rd[0][1]), 'reads %s' % show(rd[0][4]), sample=('reads', show(rd[0][4])))
    good = ok0(failed('read', S('filename'))); cols, rows = vfn('cols', S('filename')), vfn('rows', S('filename'))
    eq = lambda a, b: vcmp('==', a, b)
    pos = {True: lambda v: [vcmp('>', v, N(0)), bnot(vcmp('<', v, N(1))), bnot(vcmp('==', v, N(0)))], False: lambda v: [bnot(vcmp('>', v, N(0))), vcmp('<', v, N(1))]}
    ok = bnot(vcmp('<', st, N(0)))
    r.ob(under(ok, bnot(good)) is FALSE, 'unread', None, 'succeeds although the image cannot be read', sample=('unreadable', 'refused'))
    for a in (True, False):
        for b in (True, False):
            for ec in (True, False):
                for er in (True, False):
                    conds = [good] + pos[a](S('nc')) + pos[b](S('nr')) + [eq(cols, S('nc')) if ec else bnot(eq(cols, S('nc'))), eq(rows, S('nr')) if er else bnot(eq(rows, S('nr')))]
                    want = not (a and b) or (ec and er)
                    v = under(ok, *conds)
                    # sizes of zero for only one axis do not occur
                    if a != b: continue
                    r.ob(v is (TRUE if want else FALSE), 'size', None, 'an image with %s columns and %s rows is %s%s' % ('matching' if ec else 'other', 'matching' if er else 'other', 'refused' if want else 'accepted', '' if a else ' although no size is asked for'), sample=('size %s' % ('asked for' if a else 'not asked for'), '%s/%s: %s' % (ec, er, 'accepted' if want else 'refused')))
    for pc, l in paths_of(pix):
        pc = conj_of(pc)
        if isinstance(l, Ptr) and l.obj == 'null': r.ob(under(band(pc, ok), good) is FALSE, 'pixels', None, 'succeeds without the pixels')
        else:
            r.ob(isinstance(l, Ptr) and l.obj == ('img', 1), 'pixels', None, 'returns %s' % (l,))
            r.ob(band(pc, bnot(ok)) is FALSE, 'null', None, 'pixels are returned for a refused image', sample=('refused', 'null'))
    for z in [z for z in x.rec if z[0] == 'free']: r.ob(band(pc_of(x, z), ok) is FALSE, 'freed', Ev(z[3], z[1]), 'the pixels of an accepted image are freed')
    r.ob(band(bnot(ok), bnot(stderr_said(x.t))) is FALSE, 'said', None, 'some refusal is not reported', sample=('refusals', 'reported'))
    c.count('images', 1)
def pc_of(x, z):
    pc = FALSE
    for e in x.t.events:
        if e.kind == 'call' and e.inst is z[1]: pc = bor(pc, unver(e.pc))
    return pc
def paths_null(v): return all(isinstance(l, Ptr) and l.obj == 'null' for _, l in paths_of(v))
def checked(tr):
    """GetAndCheckImage by name: the image of a file, refused when it is not as asked for"""
    def h(fr, i, a, m):
        t = strs.get(fr, m, a[1]); tr.rec.append(('get', i, a, fr.fn, t)); n = len([z for z in tr.rec if z[0] == 'get']); ok = ok0(S('failed.get.%d' % n)); m = m.copy(); q = [y for y in leaves(a[0]) if isinstance(y, Ptr)][0]
        fr.m.store(m, q, ite(ok, N(0), N(-1))); fr.m.store(m, Ptr(q.obj, add(q.off, num(8))), ite(ok, P_(('img', n)), P_('null')))
        return BOT, m
    return {'GetAndCheckImage': h}
def masks(c):
    """mask and noise image: each when its name is given, at the size of the data image"""
    for wm in (False, True):
        for we in (False, True):
            nm, ne = (S('maskfile') if wm else strs.EMPTY), (S('noisefile') if we else strs.EMPTY)
            x = Tr(c, 'GetMaskAndErrorImages', [P_('OUT'), S('nc'), S('nr'), P_('MASK'), P_('NOISE'), P_('MA'), P_('EA')], {('MASK', 0): nm, ('NOISE', 0): ne}, extra=checked); r = x.r
            given = [z for v in (S('maskfile'), S('noisefile')) for z in (vcmp('>', vfn('str:size', v), N(0)), bnot(vcmp('<', vfn('str:size', v), N(1))), bnot(vcmp('==', vfn('str:size', v), N(0))), bnot(vcmp('==', v, strs.EMPTY)))]
            case = '%s,%s' % ('mask' if wm else 'no mask', 'noise' if we else 'no noise')
            u = lambda v: under(v, *given); got = [z for z in x.rec if z[0] == 'get' and u(pc_of(x, z)) is not FALSE]
            want = [w for w, y in ((S('maskfile'), wm), (S('noisefile'), we)) if y]
            if not r.ob(len(got) == len(want) and all(any(same(u(z[4]), w) for z in got) for w in want), case + ':reads', None, '%s: %d images are read instead of %d' % (case, len(got), len(want)), sample=(case, '%d images' % len(got))): continue
            allok = list(given); num_ = {}
            for z in got:
                k = [y for y in x.rec if y[0] == 'get'].index(z) + 1; allok.append(ok0(S('failed.get.%d' % k))); num_['maskfile' if same(u(z[4]), S('maskfile')) else 'noisefile'] = k
                for j, w in ((3, 'nc'), (4, 'nr')): r.ob(same(u(z[2][j]), S(w)), case + ':size', Ev(z[3], z[1]), '%s: an image is compared with %s instead of %s' % (case, show(u(z[2][j])), w))
            st = x.out(0); check(r, allok, st, N(int(wm) + 2 * int(we)), case + ':status', '%s: the status' % case)
            for k, y in num_.items():
                bad = ok0(S('failed.get.%d' % y)); v = under(st, *given); r.ob(band(bnot(bad), bnot(vcmp('<', v, N(0)))) is FALSE, case + ':failed', None, '%s: %s cannot be used but no failure is returned' % (case, k), sample=('unusable %s' % k, 'failure'))
            for k, off, have in (('maskfile', 16, wm), ('noisefile', 8, we)):
                v = under(x.out(off, ir.PTR), *allok); w = P_(('img', num_[k])) if have else P_('null'); r.ob(same(v, w), case + ':' + k, None, '%s: %s is %s' % (case, k, show(v)), sample=(case + ': ' + k, show(v)))
            for o, have in (('MA', wm), ('EA', we)):
                v = under(x.at(o, 0, ir.INT(8)), *allok); r.ob(v is (TRUE if have else FALSE) or same(v, N(int(have))), case + ':' + o, None, '%s: the flag for an allocated image is %s' % (case, show(v)))
            c.count('images', len(want))
def psf(c):
    x = Tr(c, 'GetPsfImage', [P_('OUT'), P_('FILE')], {('FILE', 0): S('filename')}); r = x.r
    st, rows, cols, pix = x.out(0), x.out(4), x.out(8), x.out(16, ir.PTR); ok = bnot(vcmp('<', st, N(0)))
    for z in [z for z in x.rec if z[0] in ('read', 'size')]: r.ob(same(z[4], S('filename')), 'name', Ev(z[3], z[1]), 'reads %s' % show(z[4]))
    for k in ('read', 'size'):
        r.ob(under(ok, bnot(ok0(failed(k, S('filename'))))) is FALSE, 'failed:' + k, None, 'succeeds although %s' % ('the image cannot be read' if k == 'read' else 'its size cannot be read'), sample=('failure to ' + k, 'returned'))
    good = [ok0(failed(k, S('filename'))) for k in ('read', 'size')]
    r.ob(under(ok, *good) is TRUE, 'good', None, 'a readable PSF image is not always accepted')
    check(r, good, cols, vfn('cols', S('filename')), 'columns', 'the number of columns of the PSF'); check(r, good, rows, vfn('rows', S('filename')), 'rows', 'the number of rows of the PSF')
    r.ob(same(under(pix, *good), P_(('img', 1))), 'pixels', None, 'the PSF returned is %s' % show(under(pix, *good)))
    for z in [z for z in x.rec if z[0] == 'free']: r.ob(band(pc_of(x, z), ok) is FALSE, 'freed', Ev(z[3], z[1]), 'the pixels of the PSF are freed')
    c.count('images', 1)

def oversampled(c):
    """one region of higher resolution per region asked for, with its PSF, scale and offset"""
    p = prog(*SRCS); of = p.fields('OptionsBase')[0]; pf = p.fields('PsfOversamplingInfo')[0]
    mem = {('OPT', 0): P_('O'), ('O', of['nOversampleRegions']): S('nRegions')}
    for k, o, n, e in (('psfOversampledFileNames', 'FN[]', 'nFiles', 32), ('psfOversamplingScales', 'SC[]', 'nScales', 4), ('psfOversampleRegions', 'RG[]', 'nRegions', 32)):
        mem[('O', of[k])] = P_(o); mem[('O', of[k] + 8)] = mem[('O', of[k] + 16)] = leaf(Ptr(o, scale(psym(n), Fraction(e))))
    pushed = []
    def extra(tr):
        def push(fr, i, a, m):
            q = [x for x in leaves(a[1]) if isinstance(x, Ptr)]
            pushed.append((i, a, m.copy(), fr, fr.m.load(m, q[0], ir.PTR) if len(q) == 1 else None)); return BOT, m
        H = {}
        for n in tr.p.prog.fns:
            if n.startswith('@_ZNSt6vectorIP19PsfOversamplingInfoSaIS1_EE') and re.search(r'9push_back|12emplace_back', n): H[n] = push
        return H
    x = Tr(c, 'GetOversampledPsfInfo', [P_('OPT'), S('xOff'), S('yOff'), P_('LIST')], mem, extra=extra); r = x.r; t = x.t
    news = [(n, e, q) for n, e, q in t.stores(lambda o: 'operator new' in str(o))]; reads = [e for e in t.events if e.kind == 'call' and e.name and 'ReadImageAsVector' in e.name]
    push = [(n, e) for n, e in enumerate(t.events) if e.kind == 'call' and any(e.inst is z[0] for z in pushed)]
    eq = lambda a, b: vcmp('==', a, b); nF, nS, nR = S('nFiles'), S('nScales'), S('nRegions')
    cmp3 = lambda a, b, rel: [eq(a, b) if rel == 0 else bnot(eq(a, b))]
    pos = [bnot(vcmp('<', nR, N(1))), vcmp('>', nR, N(0)), bnot(vcmp('==', nR, N(0)))]
    # what is refused before anything is read
    many = [vcmp('>', nF, N(1)), bnot(vcmp('<', nF, N(2))), bnot(eq(nF, N(1)))]; single = [bnot(vcmp('>', nF, N(1))), vcmp('<', nF, N(2)), eq(nF, N(1))]
    for nm, conds in (('no region is given', [vcmp('<', nR, N(1)), bnot(vcmp('>', nR, N(0)))]), ('there are more scales or fewer than PSF images', pos + [bnot(eq(nF, nS))]), ('there are several PSF images but not one per region', pos + [eq(nF, nS)] + many + [bnot(eq(nR, nF))])):
        v = under(t.val, *conds); r.ob(under(vcmp('<', v, N(0))) is TRUE or isinstance(v, Leaf) and is_num(v.v) and numval(v.v) != 0, 'refused', None, 'no failure is returned when %s' % nm, sample=('refused', nm))
    if not r.ob(len(push) == 1 and len(push[0][1].loops) == 1 and len(reads) >= 1, 'regions', None, 'regions are not added one by one in one place'): return
    n0, pe = push[0]; k0 = pe.loops[0][0]; kp = k0 if isinstance(k0, Poly) else psym(k0); kv = leaf(kp)
    r.ob(all(isinstance(q, Ptr) and q.obj == 'LIST' for q in leaves(pe.args[0])), 'list', pe, 'the region is not added to the list of the caller')
    file = lambda i: LD('FN[]', scale(i, Fraction(32)))
    inloop = [vcmp('<', kv, nR), bnot(vcmp('>=', kv, nR))]
    later = [bnot(eq(kv, N(0))), vcmp('>', kv, N(0))]; start = [eq(kv, N(0)), bnot(vcmp('>', kv, N(0)))]
    for nm, conds, idx, own in (('several PSF images', pos + [eq(nF, nS), eq(nR, nF)] + many, kp, True), ('one PSF image, first region', pos + [eq(nF, nS)] + single + start, ZERO, True), ('one PSF image, later regions', pos + [eq(nF, nS)] + single + later, ZERO, False)):
        f = file(idx); sub = {list(syms(kv))[0]: N(0)} if nm.endswith('first region') else None
        cond = conds + inloop; u0 = lambda v: under(unver(subst(v, sub)) if sub else unver(v), *cond); good = [ok0(failed('read', f))]
        u = lambda v: under(u0(v), *good)
        # reading
        rd = [e for e in reads if u(e.pc) is not FALSE]
        if own:
            r.ob(len(rd) == 1, nm + ':read', None, '%s: the PSF image is read %d times' % (nm, len(rd)))
            fr = type('Fr', (), {})(); fr.m = t.m
            r.ob(under(u0(pe.pc), bnot(ok0(failed('read', f)))) is FALSE, nm + ':unread', pe, '%s: a region is added although its PSF image (%s) cannot be read' % (nm, show(f)), sample=(nm + ': unreadable', 'refused'))
        else: r.ob(not rd, nm + ':read', rd[0] if rd else None, '%s: a PSF image is read again' % nm)
        r.ob(u(pe.pc) is TRUE, nm + ':added', pe, '%s: the region is not always added: %s' % (nm, show(u(pe.pc))), sample=(nm, 'added'))
        # what the region is given
        want = {'nColumns_psf': vfn('cols', f), 'nRows_psf': vfn('rows', f), 'X0_offset': S('xOff'), 'Y0_offset': S('yOff'), 'regionString': LD('RG[]', scale(ZERO if sub else kp, Fraction(32))), 'oversamplingScale': LD('SC[]', scale(idx, Fraction(4))), 'pixelsArrayIsUnique': TRUE if own else FALSE, 'normalizePSF': TRUE, 'psfPixels': None}
        for fld, w in want.items():
            st = [e for n, e, q in news if is_num(q.off) and int(numval(q.off)) == pf[fld] and u(e.pc) is not FALSE]
            if not r.ob(st and u(st[-1].pc) is TRUE and (not st or same_loop(st[-1], pe)), '%s:%s' % (nm, fld), pe, '%s: %s is not always set' % (nm, fld)): continue
            v = first_of(u(st[-1].val), kv, later, conds)
            if fld == 'psfPixels':
                ls = leaves(v); okp = all(isinstance(q, Ptr) and (q.obj == ('img', 1) or (not own and unknown(q.obj) and q.off is ZERO)) for q in ls) and len(ls) == 1
                r.ob(okp, '%s:%s' % (nm, fld), st[-1], '%s: the PSF pixels are %s' % (nm, show(v)), sample=('%s: %s' % (nm, fld), show(v)))
            elif w in (TRUE, FALSE): r.ob(v is w or same(v, N(int(w is TRUE))), '%s:%s' % (nm, fld), st[-1], '%s: %s is %s' % (nm, fld, show(v)), sample=('%s: %s' % (nm, fld), show(v)))
            else: r.ob(same(v, w), '%s:%s' % (nm, fld), st[-1], '%s: %s is %s instead of %s' % (nm, fld, show(v), show(w)), sample=('%s: %s' % (nm, fld), show(v)))
            c.count('region fields')
        for b, inf in t.m.exitinfo.items():
            if inf[0] != k0: continue
            for j, cnd in enumerate(inf[2]):
                v = u(cnd); r.ob(v is FALSE, nm + ':all', pe, '%s: stops before the last region' % nm, sample=(nm, 'all regions'))
        for pth, l in paths_of(under(t.val, *[x_ for x_ in conds if not depends(x_, kv)])):
            done = [(b, q) for b, q in pth if b in t.m.exitinfo]
            for b, q in done:
                inf = t.m.exitinfo[b]; other = [cnd for j, cnd in enumerate(inf[2]) if (j == inf[1]) == q]
                fin = all(under(cnd, *inloop) is FALSE for cnd in other)      # this way out is the end of the regions
                r.ob(isinstance(l, Poly) and is_num(l) and (numval(l) == 0) == fin, nm + ':result', None, '%s: the result is %s' % (nm, brief(leaf(l))))
    names = [e for e in reads]
    for z in [z for z in x.rec if z[0] == 'read']: pass
    c.count('regions', 3)
def unknown(o): return '?' in str(o)
def same_loop(e, pe): return len(e.loops) == len(pe.loops) and all(a[0] == b[0] for a, b in zip(e.loops, pe.loops))
def depends(v, k): return bool(syms(v) & syms(k))
def first_of(v, kv, later, conds):
    """values kept from the first round of a loop on"""
    v = v if isinstance(v, (Leaf, Node)) else leaf(v)
    def f(p):
        if isinstance(p, Ptr) and not is_num(p.off):
            o = f(p.off); return leaf(Ptr(p.obj, o.v)) if isinstance(o, Leaf) else leaf(p)
        if not isinstance(p, Poly): return leaf(p)
        a = strs.atom1(p)
        if a is None or a.kind != 'mu' or a.args[0] != 'rec': return leaf(p)
        body = a.args[2]; m1 = psym('#m1'); nz = [bnot(vcmp('==', leaf(m1), N(0))), vcmp('>', leaf(m1), N(0))]
        keep = under(body, *conds, *nz)
        if not (isinstance(keep, Leaf) and keep.v is psym('#u1')): return leaf(p)
        return under(subst(body, {list(syms(leaf(m1)))[0]: N(0)}), *conds)
    return apply(f, fresh('first'), v)

def region_info(c):
    """what is put into an oversampling region is what comes out of it; its corners are relative to the image section"""
    p = prog(*SRCS); pf = p.fields('PsfOversamplingInfo')[0]; F = lambda k: 'this.' + k
    fld = {('this', pf[k]): S('f.' + k) for k in pf if k != 'psfPixels'}; fld[('this', pf['psfPixels'])] = P_('PIX')
    def tr(name, args, cls='PsfOversamplingInfo', mem=None): return Tr(c, 'PsfOversamplingInfo::' + name, args, {**fld, **(mem or {})})
    x = tr('GetCorrectedRegionCoords', [P_('OUT'), P_('this')])
    for j, (nm, off) in enumerate((('x1', 'X0_offset'), ('x2', 'X0_offset'), ('y1', 'Y0_offset'), ('y2', 'Y0_offset'))):
        check(x.r, [], x.out(12 - 4 * j), vadd(vfn('GetAllCoordsFromBracket.%d' % j, S('f.regionString')), vmul(N(-1), S('f.' + off))), nm, '%s of the region within the section' % nm)
    for get, k in (('GetNColumns', 'nColumns_psf'), ('GetNRows', 'nRows_psf'), ('GetOversamplingScale', 'oversamplingScale'), ('GetPsfPixels', None), ('PixelsArrayIsUnique', 'pixelsArrayIsUnique'), ('GetNormalizationFlag', 'normalizePSF')):
        x = tr(get, [P_('this')]); v = x.t.val
        x.r.ob(same(v, S('f.' + k)) or v is bnot(vcmp('==', S('f.' + k), N(0))) if k else same(v, P_('PIX')), get, None, '%s returns %s' % (get, show(v)), sample=(get, show(v)))
    x = tr('GetRegionString[abi:cxx11]', [P_('OUT'), P_('this')]); v = x.t.m.load(x.t.out, Ptr('OUT', ZERO), ir.DOUBLE); x.r.ob(same(v, S('f.regionString')), 'GetRegionString', None, 'GetRegionString returns %s' % show(v))
    x = tr('GetImageOffset', [P_('this'), P_('X'), P_('Y')])
    for o, k in (('X', 'X0_offset'), ('Y', 'Y0_offset')): check(x.r, [], x.at(o, 0), S('f.' + k), k, 'the offset returned')
    # what each setter changes
    sets = {'AddPsfPixels': ([P_('NEWPIX'), S('a'), S('b'), S('u')], {'psfPixels': P_('NEWPIX'), 'nColumns_psf': S('a'), 'nRows_psf': S('b'), 'pixelsArrayIsUnique': S('u')}), 'AddRegionString': ([P_('STR')], {'regionString': S('newregion')}),
            'AddOversamplingScale': ([S('a')], {'oversamplingScale': S('a')}), 'AddImageOffset': ([S('a'), S('b')], {'X0_offset': S('a'), 'Y0_offset': S('b')}), 'SetNormalizationFlag': ([S('u')], {'normalizePSF': S('u')})}
    for nm, (args, ch) in sets.items():
        x = tr(nm, [P_('this')] + args, mem={('STR', 0): S('newregion')})
        for k in pf:
            v = x.at('this', pf[k], ir.PTR if k == 'psfPixels' else I32); w = ch.get(k, P_('PIX') if k == 'psfPixels' else S('f.' + k))
            x.r.ob(same(v, w) or v is bnot(vcmp('==', w, N(0))), k, None, '%s leaves %s as %s' % (nm, k, show(v)), sample=('%s: %s' % (nm, k), show(v)))
        c.count('region fields', len(ch))
def I02():
    c = Check('I02', 'Value numbering of the functions that load masks, noise and PSF images and that read image sections and oversampling regions, with texts cut into named pieces, case by case against the documented formats.')
    sections(c); origin(c); loads(c); masks(c); psf(c); oversampled(c); region_info(c)
    return c.finish()
TABLE = {'I02': I02}

"""C05: configuration files are read line by line into options, functions, parameters, limits and labels."""
import re
from fractions import Fraction
from . import strs, ir, build
from .cas import *
from .build import AnalysisError, dm
from .report import Check
from .trace import *
from .gsa import Event
from .checks_pipe import Rule, unver, same, under, paths_of, LD, trip, OPAQUE_VOID, the_atom
from .checks_io import P_, show, stderr_said, conj_of, union, value_at, ok0, Ev
from .outs import outputs
from .checks_mcmc import io_hook
from .checks_sect import lit, first, conj, terms_in

SRCS = ('core/config_file_parser.cpp', 'core/utilities.cpp')
I32 = ir.INT(32); I64 = ir.INT(64)
_prog = []
def prog():
    if not _prog: _prog.append(Prog2(list(SRCS), passes=build.ONELOOP))
    return _prog[0]
T = lambda s: leaf(psym(s))
def chopped(s): return vfn('chop', s)
def numeric(s): return vfn('numeric', s)
def numof(s): return vfn('number', s)
def isword(s, w): return vcmp('==', s, lit(w))
class Tx:
    """a traced parser function: texts cut into named pieces whose number is a symbol, helpers by name"""
    def __init__(self, c, name, args, mem=None, skip=(), extra=None, loops=False, p=None, cls=None, virt=None):
        self.p = p = p or prog(); self.rec = []; self.counts = {}; H = {}; self.npush = {}
        mm = Mem(); mm.d.update(mem or {})
        def put1(fr, m, a, v): strs.put(fr, m, a, v)
        def chop(fr, i, a, m):
            m = m.copy(); d = a[1] if len(a) > 1 else N(35); x = strs.get(fr, m, a[0])
            put1(fr, m, a[0], chopped(x) if same(d, N(35)) else vfn('chop', x, d)); return BOT, m
        def trim(fr, i, a, m): m = m.copy(); put1(fr, m, a[0], vfn('trim', strs.get(fr, m, a[0]))); return BOT, m
        def split(fr, i, a, m):
            s, d = strs.get(fr, m, a[0]), strs.get(fr, m, a[2]); v = [q for q in leaves(a[1]) if isinstance(q, Ptr)]
            if len(v) != 1 or not is_num(v[0].off): raise AnalysisError('%s: SplitString into an unknown vector' % name)
            m = m.copy(); n = self.count(s, d); o = ('pieces', n); b = int(numval(v[0].off))
            for k in range(8): m.d[(o, 32 * k)] = self.piece(s, d, k)
            m.d[(v[0].obj, b)] = leaf(Ptr(o, ZERO)); m.d[(v[0].obj, b + 8)] = leaf(Ptr(o, scale(psym(n), Fraction(32)))) if not loops else apply(lambda y: leaf(Ptr(o, scale(y, Fraction(32)))), 'pieces', vfn('pieces#', s, d))
            return BOT, m
        def num_(fr, i, a, m): return numof(strs.chars(fr, a[0])), m
        H.update({'ChopComment': chop, 'TrimWhitespace': trim, 'SplitString': split, '@strtod': num_, '@atof': num_, 'IsNumeric': lambda fr, i, a, m: (numeric(strs.chars(fr, a[0])), m)})
        for k in skip: H.pop(k, None)
        for n in p.prog.fns:
            d = dm(n)
            if d.startswith('std::vector<') and re.search(r'::(push_back|emplace_back)\(', d): H[n] = self.pusher(d)
            elif d.startswith('std::vector<') and re.search(r'::clear\(', d): H[n] = self.clear
            elif d.startswith('std::vector<') and '::~vector' in d: H[n] = OPAQUE_VOID
            elif n.startswith('@_ZNSt7__cxx114stodE') : H[n] = lambda fr, i, a, m: (numof(strs.get(fr, m, a[0])), m)
        if extra: H.update(extra(self))
        if name in H: del H[name]
        f = p.func(name, len(args)); self.f = f
        self.t = Trace(p, f, cls, args=args, hooks=H, strings=True, mem=mm, virt=virt); self.r = Rule(c, self.t, name)
    def count(self, s, d):
        k = (s.id, d.id)
        if k not in self.counts: self.counts[k] = ('pieces%d' % (len(self.counts) + 1), s, d)
        return self.counts[k][0]
    def piece(self, s, d, k): return vfn('piece', s, d, N(k))
    def note(self, kind, fr, i, a, m, val=None):
        """remember a call; what it was given becomes part of the trace"""
        for k, v in (val.items() if isinstance(val, dict) else (('', val),)): fr.m.events.append(Event('store', fr.fn, i, TRUE, ptr=leaf(Ptr(('note', kind, k), ZERO)), val=v if v is not None else N(0)))
    def pusher(self, d):
        el = 'double' if d.startswith('std::vector<double') else 'int' if d.startswith('std::vector<int') else 'text' if d.startswith('std::vector<std::__cxx11::basic_string') else 'limits' if d.startswith('std::vector<mp_par') else 'other'
        def h(fr, i, a, m):
            if el in ('double', 'int'): v = apply(lambda q: fr.m.load(m, q, ir.DOUBLE if el == 'double' else I32) if isinstance(q, Ptr) else BOT, fresh('pv'), a[1])
            elif el == 'text': v = strs.get(fr, m, a[1])
            elif el == 'limits':
                q = [x for x in leaves(a[1]) if isinstance(x, Ptr)][0]; g = lambda o, ty: fr.m.load(m, Ptr(q.obj, add(q.off, num(o))), ty)
                v = {'fixed': g(0, I32), 'limited0': g(4, I32), 'limited1': g(8, I32), 'limit0': g(16, ir.DOUBLE), 'limit1': g(24, ir.DOUBLE)}
            else: v = a[1]
            self.note('push', fr, i, a, m, v); return BOT, m
        return h
    def clear(self, fr, i, a, m): self.note('clear', fr, i, a, m); return BOT, m
    def of(self, kind, obj=None):
        """(record, path condition) of the recorded calls, in order"""
        out = []; last = {}
        for e in self.t.events:
            if e.kind == 'call': last[id(e.inst)] = e
            o = e.ptr.v.obj if e.kind == 'store' and isinstance(e.ptr, Leaf) and isinstance(e.ptr.v, Ptr) else None
            if isinstance(o, tuple) and o[0] == 'note' and o[1] == kind:
                ev = last[id(e.inst)]
                if obj is not None and not any(isinstance(q, Ptr) and q.obj == obj for q in leaves(ev.args[0])): continue
                if o[2] and out and out[-1][1] is ev: out[-1][0][4][o[2]] = e.val
                else: out.append(((kind, ev.inst, ev.args, ev.fn, {o[2]: e.val} if o[2] else e.val), ev))
        return out
    def case(self, v, n, *conds):
        """v when the texts cut have the numbers of pieces in n"""
        env = {k: N(x) for k, x in n.items()}
        v = unver(v)
        return under(subst(v, env), *[subst(x, env) for x in conds]) if env else under(v, *conds)
def blank(d):
    """a literal of separators that contains blanks and tabs"""
    t = strs.literal(d.v) if isinstance(d, Leaf) else None
    return t is not None and ' ' in t and '\t' in t and not re.search(r'[\w,.#+-]', t)
def cuts(x, r):
    """the words of the line and, where looked for, the parts of its third word: (words, {name: symbol}, separator)"""
    W = [(n, s, d) for n, s, d in x.counts.values() if blank(d)]; C = [(n, s, d) for n, s, d in x.counts.values() if isinstance(d, Leaf) and strs.literal(d.v) == ',']
    r.ob(len(W) == 1 and len(C) <= 1 and len(W) + len(C) == len(x.counts), 'words', None, 'a line is cut %d times into words' % len(W))
    if len(W) != 1: return None
    return W[0], C[0] if C else None
LINE = T('line')
def eqs(a, b): return vcmp('==', a, b)
def words_of(x, r, line=None):
    k = cuts(x, r)
    if k is None: return None
    (n, s, d), cm = k; want = chopped(LINE) if line is None else line
    r.ob(same(s, want), 'comment', None, 'the words are those of %s instead of the line without its comment' % show(s), sample=('words of', show(s)))
    return n, (lambda j: x.piece(s, d, j)), cm, d
def number_words(c):
    """which parameter lines are accepted"""
    for opt in (True, False):
        x = Tx(c, 'ValidParameterLine', [P_('L'), N(int(opt))], {('L', 0): LINE}); r = x.r; w = words_of(x, r); mode = 'optional' if opt else 'parameter'
        if w is None: continue
        n, W, cm, d = w; v = x.t.val
        def chk(k, want, conds, msg, parts=None):
            env = {n: k}
            if parts is not None and cm: env[cm[0]] = parts
            u = x.case(v, env, *conds); u = u if isinstance(u, (Leaf, Node)) else leaf(u)
            okv = u is (TRUE if want else FALSE) or same(u, N(int(want)))
            r.ob(okv, '%s:%s' % (mode, msg.replace(' ', '_')), None, 'a line of %s with %s is %s' % (mode, msg, show(u)), sample=('%s: %s' % (mode, msg), 'accepted' if want else 'refused'))
        chk(0, False, [], 'no words'); chk(1, False, [], 'one word')
        if opt:
            for k in (2, 3, 5): chk(k, True, [], '%d words' % k)
            continue
        num1, not1 = bnot(ok0(numeric(W(1)))), ok0(numeric(W(1))); fx = isword(W(2), 'fixed')
        for k in (2, 3, 4): chk(k, False, [not1], '%d words and no number' % k)
        chk(2, True, [num1], 'a number'); chk(3, True, [num1, fx], 'a number and fixed'); chk(4, True, [num1, fx], 'a number, fixed and more')
        if not r.ob(cm is not None and same(cm[1], W(2)), 'limits', None, 'the third word is not cut at its comma'): continue
        p = lambda j: x.piece(cm[1], cm[2], j)
        for parts in (0, 1, 3): chk(3, False, [num1, bnot(fx)], 'a number and %d limits' % parts, parts)
        for a in (True, False):
            for b in (True, False): chk(3, a and b, [num1, bnot(fx)] + [bnot(ok0(numeric(p(j)))) if y else ok0(numeric(p(j))) for j, y in ((0, a), (1, b))], 'limits that are %s and %s' % tuple('numbers' if y else 'no numbers' for y in (a, b)), 2)
    c.count('line functions')
def limits(c):
    """a parameter line gives one value and one set of limits"""
    x = Tx(c, 'AddParameterAndLimit', [P_('L'), P_('PARS'), P_('LIMS'), S('lineno')], {('L', 0): LINE}); r = x.r; t = x.t; w = words_of(x, r)
    if w is None: return
    n, W, cm, d = w; val = numof(W(1)); vals = x.of('push', 'PARS'); lims = x.of('push', 'LIMS')
    for k in (2, 3, 4):
        alive = [(z, e) for z, e in vals if x.case(e.pc, {n: k}) is not FALSE]
        r.ob(len(alive) == 1 and x.case(alive[0][1].pc, {n: k}) is TRUE and not alive[0][1].loops, 'value', alive[0][1] if alive else None, 'one value is not always stored')
        for z, e in alive: r.ob(same(x.case(z[4], {n: k}), val), 'value', e, 'stores %s' % show(z[4]), sample=('value', show(z[4])))
    if not r.ob(cm is not None and same(cm[1], W(2)), 'limits', None, 'the third word is not cut at its comma'): return
    lo, hi = (numof(x.piece(cm[1], cm[2], j)) for j in (0, 1)); fx = isword(W(2), 'fixed')
    comma = vfn('str:find', W(2), lit(','), N(0)); has = [bnot(eqs(comma, N(-1))), bnot(vcmp('<', comma, N(0)))]
    lt = lambda a, b, y: [vcmp('<', a, b), bnot(vcmp('>=', a, b)), bnot(vcmp('==', a, b)), bnot(vcmp('>', a, b)), vcmp('<=', a, b)] if y else None
    inorder = lt(lo, hi, True); inside = lt(lo, val, True) + lt(val, hi, True)
    none = {'fixed': N(0), 'limited0': N(0), 'limited1': N(0)}
    def good(nm, k, conds, want, ret, parts=None):
        env = {n: k}
        if parts: env[cm[0]] = parts
        u = lambda v: x.case(v, env, *conds)
        al = [(z, e) for z, e in lims if u(e.pc) is not FALSE]
        r.ob(len(al) == 1 and u(al[0][1].pc) is TRUE and not al[0][1].loops, nm + ':stored', al[0][1] if al else None, '%s: one set of limits is not always stored' % nm)
        for z, e in al[:1]:
            for f, y in want.items():
                g = u(z[4][f]); r.ob(same(g, y), '%s:%s' % (nm, f), e, '%s: %s is %s instead of %s' % (nm, f, show(g), show(y)), sample=('%s: %s' % (nm, f), show(g)))
        g = u(t.val); r.ob(same(g, N(ret)), nm + ':result', None, '%s: the result is %s' % (nm, show(g)), sample=(nm + ': result', show(g)))
    good('no limits', 2, [], none, 0)
    good('fixed', 3, [fx], {**none, 'fixed': N(1)}, 1); good('fixed and more', 4, [fx], {**none, 'fixed': N(1)}, 1)
    good('limits', 3, [bnot(fx)] + has + inorder + inside, {'fixed': N(0), 'limited0': N(1), 'limited1': N(1), 'limit0': lo, 'limit1': hi}, 1, 2)
    eq = [eqs(lo, hi), bnot(vcmp('<', lo, hi)), bnot(vcmp('>', lo, hi)), vcmp('>=', lo, hi), vcmp('<=', lo, hi)]
    said = stderr_said(t)
    for nm, conds in (('limits in the wrong order', lt(hi, lo, True)), ('equal limits', eq), ('value below the limits', inorder + lt(val, lo, True) + lt(val, hi, True)), ('value above the limits', inorder + lt(hi, val, True) + lt(lo, val, True))):
        u = lambda v: x.case(v, {n: 3, cm[0]: 2}, bnot(fx), *has, *conds)
        r.ob(u(vcmp('<', t.val, N(0))) is TRUE, 'refused', None, 'a line with %s is not refused' % nm, sample=('refused', nm))
        r.ob(u(said) is TRUE, 'said', None, '%s: nothing is said' % nm)
    c.count('line functions')
    x = Tx(c, 'AddParameter', [P_('L'), P_('PARS')], {('L', 0): LINE}) if any(dm(n_).startswith('AddParameter(') for n_ in prog().prog.fns) else None
    if x is not None and words_of(x, x.r):
        n, W, cm, d = words_of(x, x.r); v = x.of('push', 'PARS'); x.r.ob(len(v) == 1 and x.case(v[0][1].pc, {n: 2}) is TRUE and same(x.case(v[0][0][4], {n: 2}), numof(W(1))), 'value', None, 'does not store the value of the line')
        c.count('line functions')
def names(c):
    x = Tx(c, 'AddFunctionNameAndLabel', [P_('L'), P_('NAMES'), P_('LABELS')], {('L', 0): LINE}, extra=lambda tx: {n_: (lambda fr, i, a, m: (BOT, _put(fr, m, a[0], vfn('label', strs.get(fr, m, a[1]))))) for n_ in tx.p.prog.fns if dm(n_).startswith('GetFunctionLabel')}); r = x.r; w = words_of(x, r)
    if w:
        n, W, cm, d = w
        for o, want, what in (('NAMES', W(1), 'name'), ('LABELS', vfn('label', LINE), 'label')):
            v = x.of('push', o); r.ob(len(v) == 1 and x.case(v[0][1].pc, {n: 2}) is TRUE and not v[0][1].loops, what, None, 'the %s of a function is not stored once' % what)
            for z, e in v: g = x.case(z[4], {n: 2}); r.ob(same(g, want), what, e, 'the %s stored is %s' % (what, show(g)), sample=(what, show(g)))
    x = Tx(c, [dm(n_).split('(')[0] for n_ in prog().prog.fns if dm(n_).startswith('GetFunctionLabel')][0], [P_('OUT'), P_('L')], {('L', 0): LINE}); r = x.r
    v = x.t.m.load(x.t.out, Ptr('OUT', ZERO), ir.DOUBLE); loc = vfn('str:find', LINE, lit('LABEL'), N(0)); none = [eqs(loc, N(-1))]; some = [bnot(eqs(loc, N(-1)))]
    # the part after LABEL may be taken before or after trimming
    g = under(v, *none); r.ob(same(g, strs.EMPTY), 'none', None, 'the label of a function without one is %s' % show(g), sample=('no label', show(g)))
    g = under(v, *some); rest = vfn('substr', LINE, vadd(loc, N(5)), N(-1)); r.ob(same(g, vfn('trim', rest)), 'label', None, 'the label of a function is %s' % show(g), sample=('label', show(g)))
    x = Tx(c, 'AddOptionalParameter', [P_('L'), P_('MAP')], {('L', 0): LINE}, extra=mapper); r = x.r; w = words_of(x, r)
    if w:
        n, W, cm, d = w; ks = x.of('key', 'MAP'); r.ob(len(ks) == 1 and x.case(ks[0][1].pc, {n: 2}) is TRUE, 'key', None, 'one optional parameter is not always stored')
        for z, e in ks[:1]:
            g = x.case(z[4], {n: 2}); r.ob(same(g, W(0)), 'key', e, 'the name of the optional parameter is %s' % show(g), sample=('name', show(g)))
            g = x.case(x.t.m.load(x.t.out, Ptr('VALUE', ZERO), ir.DOUBLE), {n: 2}); r.ob(same(g, W(1)), 'value', e, 'the value of the optional parameter is %s' % show(g), sample=('value', show(g)))
    c.count('line functions', 3)
def _put(fr, m, a, v): m = m.copy(); strs.put(fr, m, a, v); return m
def mapper(tx):
    H = {}
    def at(fr, i, a, m): tx.note('key', fr, i, a, m, strs.get(fr, m, a[1])); return P_('VALUE'), m
    for n in tx.p.prog.fns:
        if re.match(r'std::map<.*>::operator\[\]\(', dm(n)): H[n] = at
    return H
def texts(c):
    """comments and blanks taken off a text"""
    x = Tx(c, 'ChopComment', [P_('L'), S('mark')], {('L', 0): LINE}, skip=('ChopComment',)); v = x.t.m.load(x.t.out, Ptr('L', ZERO), ir.DOUBLE)
    loc = [vfn('str:find', LINE, y, N(0)) for y in (S('mark'),)]
    for nm, conds, want in (('with a mark', [bnot(eqs(loc[0], N(-1)))], vfn('substr', LINE, N(0), loc[0])),):
        g = under(v, *conds); x.r.ob(same(g, want), 'chop', None, 'a text %s becomes %s' % (nm, show(g)), sample=(nm, show(g)))
    g = under(v, eqs(loc[0], N(-1))); x.r.ob(any(same(g, y) for y in (LINE, vfn('substr', LINE, N(0), loc[0]), vfn('substr', LINE, N(0), N(-1)))), 'chop', None, 'a text without a mark becomes %s' % show(g), sample=('without a mark', show(g)))
    x = Tx(c, 'TrimWhitespace', [P_('L')], {('L', 0): LINE}, skip=('TrimWhitespace',)); r = x.r; v = x.t.m.load(x.t.out, Ptr('L', ZERO), ir.DOUBLE)
    ends = {}
    for a in terms_in(v):
        if a.kind == 'fn' and a.args[0] in ('str:find_first_not_of', 'str:find_last_not_of'):
            s, d = a.args[1], a.args[2]; d = strs.literal(d.v if isinstance(d, Leaf) else d); ends.setdefault(a.args[0][9:], []).append((leaf(patom(a)), s, d))
    ok = r.ob(set(ends) == {'first_not_of', 'last_not_of'} and all(len(set(z[0].id for z in y)) == 1 for y in ends.values()), 'ends', None, 'the ends of a text are not looked for')
    if ok:
        (A, sa_, da), (B, sb, db) = ends['first_not_of'][0], ends['last_not_of'][0]
        r.ob(same(sa_ if isinstance(sa_, (Leaf, Node)) else leaf(sa_), LINE) and same(sb if isinstance(sb, (Leaf, Node)) else leaf(sb), LINE), 'ends', None, 'the ends of another text are used')
        for nm, d in (('start', da), ('end', db)): r.ob(d is not None and set(d) >= set(' \t\n') and set(d) <= set(' \t\n\r\v\f'), 'blanks:' + nm, None, 'the characters taken off at the %s are %r' % (nm, d), sample=('taken off at the ' + nm, repr(d)))
        full = [bnot(eqs(LINE, strs.EMPTY)), bnot(ok0(vfn('str:size', LINE)))]; none = [eqs(A, N(-1)), eqs(B, N(-1)), eqs(A, B)]; some = [bnot(eqs(A, N(-1))), bnot(eqs(B, N(-1)))]
        for nm, conds, want in (('only blanks', full + none, (strs.EMPTY,)), ('several characters', full + some + [bnot(eqs(A, B))], (vfn('substr', LINE, A, vadd(vadd(B, vmul(N(-1), A)), N(1))),)), ('a single character', full + some + [eqs(A, B)], (vfn('substr', LINE, A, vadd(vadd(B, vmul(N(-1), A)), N(1))), vfn('substr', LINE, A, N(1))))):
            g = under(v, *conds); r.ob(any(same(g, w) for w in want), nm.replace(' ', '_'), None, 'a text with %s becomes %s' % (nm, show(g)), sample=(nm, show(g)))
        g = under(v, eqs(LINE, strs.EMPTY)); r.ob(same(g, LINE) or same(g, strs.EMPTY), 'empty', None, 'an empty text becomes %s' % show(g))
    c.count('line functions', 2)
KEY = {'X': 'X0', 'Y': 'Y0', 'F': 'FUNCTION', 'S': 'OPTIONAL_PARAMS_START', 'E': 'OPTIONAL_PARAMS_END'}
KINDS = {'X': 'an X0 line', 'F': 'a FUNCTION line', 'S': 'the start of optional parameters', 'E': 'the end of optional parameters', 'P': 'any other line'}
def starts(t, w, y):
    """the text begins with the word w (or not), however that is asked"""
    n = N(len(w)); forms = [eqs(vfn('str:find', t, lit(w), N(0)), N(0)), eqs(vfn('str:compare', t, N(0), n, lit(w)), N(0)), eqs(vfn('str:rfind', t, lit(w), N(0)), N(0)), bnot(eqs(vfn('str:rfind', t, lit(w), N(0)), N(-1))), eqs(vfn('substr', t, N(0), n), lit(w)), ok0(vfn('strncmp', t, lit(w), n))]
    return [f if y else bnot(f) for f in forms] + ([bnot(eqs(vfn('str:find', t, lit(w), N(0)), N(-1)))] if y else [])
def kind_of(t, k):
    """the line t is of kind k"""
    return [x for z in ('X', 'F', 'S', 'E') for x in starts(t, KEY[z], z == k)]
def line(i): return LD('LINES[]', scale(i, Fraction(32)))
def orig(i): return LD('ORIG[]', scale(i, Fraction(4)))
def poly(v): return v.v if isinstance(v, Leaf) and isinstance(v.v, Poly) else None
def index_of(v, obj, size):
    """i when v points to element i of the vector obj"""
    qs = [q for q in leaves(v)]
    if len(qs) != 1 or not isinstance(qs[0], Ptr) or qs[0].obj != obj: return None
    return scale(qs[0].off, Fraction(1, size))
class Section(Tx):
    """the function that reads the lines of the function section"""
    def __init__(self, c, two):
        mem = {}
        for o, n, e in (('LINES', 'nLines', 32), ('ORIG', 'nLines', 4)): mem[(o, 0)] = P_(o + '[]'); mem[(o, 8)] = mem[(o, 16)] = leaf(Ptr(o + '[]', scale(psym(n), Fraction(e))))
        def extra(tx):
            H = {}
            def par(fr, i, a, m): t = strs.get(fr, m, a[0]); tx.note('par', fr, i, a, m, t); return vfn('limit', t), m
            def fun(fr, i, a, m): tx.note('fun', fr, i, a, m, strs.get(fr, m, a[0])); return BOT, m
            def opt(fr, i, a, m): tx.note('opt', fr, i, a, m, strs.get(fr, m, a[0])); return BOT, m
            H.update({'AddParameterAndLimit': par, 'AddFunctionNameAndLabel': fun, 'AddOptionalParameter': opt})
            for n in tx.p.prog.fns:
                d = dm(n)
                if d.startswith('std::map<'): H[n] = OPAQUE_VOID
                if re.match(r'std::vector<std::map<.*>::(operator\[\]|at)\(', d): H[n] = lambda fr, i, a, m: (apply(lambda k: leaf(Ptr('OPTV[]', scale(k, Fraction(48)))), 'optv', a[1]) if same(a[0], P_('OPTV')) else BOT, m)
                if re.match(r'std::vector<std::map<.*>::back\(', d): H[n] = lambda fr, i, a, m: (P_('OPTV.back'), m)
            return H
        super().__init__(c, 'ParseFunctionSection', [P_('LINES'), N(int(two)), P_('NAMES'), P_('LABELS'), P_('PARS'), P_('LIMS'), P_('FSET'), P_('FOUND'), P_('ORIG'), S('chk'), P_('OPTV')], mem, extra=extra)
def round_of(v, k, conds_of):
    """(value before the first round, value after a round of each kind) of a quantity kept over the rounds; conds_of(line text, kind)"""
    a = strs.atom1(v); k = k if isinstance(k, Poly) else psym(k)
    if v is k: init, body = N(0), vadd(leaf(psym('#u1')), N(1))
    elif a is not None and a.kind == 'sum' and a.args[2] is k: init, body = N(0), vadd(leaf(psym('#u1')), subst(a.args[1] if isinstance(a.args[1], (Leaf, Node)) else leaf(a.args[1]), {a.args[0]: leaf(psym('#m1'))}))
    elif a is not None and a.kind == 'mu' and a.args[0] == 'rec': init, body = a.args[1], a.args[2]
    else: return None
    ts = {}
    for z in terms_in(body):
        if z.kind == 'fn' and str(z.args[0]).startswith(('str:', 'substr', 'strncmp')): t = z.args[1]; t = t if isinstance(t, (Leaf, Node)) else leaf(t); ts[t.id] = t
    return init, (lambda kd, *more: under(body, *[x for t in ts.values() for x in conds_of(t, kd)], *more)), list(ts.values())
def section(c):
    """what one line of the function section does"""
    for two in (True, False):
        x = Section(c, two); r = x.r; t = x.t; mode = '2D' if two else '1D'
        f = x.of('fun'); ps = x.of('par'); os = x.of('opt'); pu = x.of('push', 'FSET')
        ok = len(f) == 1 and len(f[0][1].loops) == 1
        if not r.ob(ok, mode + ':functions', None, 'the names of functions are not read in one place of the loop over the lines'): continue
        k0 = f[0][1].loops[0][0]; I = index_of(f[0][0][2][0], 'LINES[]', 32)
        if not r.ob(I is not None, mode + ':functions', f[0][1], 'a function is not read from a line of the list'): continue
        ia = the_atom(leaf(I))
        for z, e in f + ps + os + pu:
            if ia is None or not e.loops or 'nLines' not in repr(e.pc): continue
            g = tmap(unver(e.pc), lambda q_: S('nLines') if q_ is ia else None)
            r.ob(g is FALSE or not isinstance(g, (Leaf, Node)), mode + ':end', e, 'the line after the last one is read as well', sample=(mode + ': past the end', 'nothing read')); break
        L0, L1 = line(I), line(add(I, num(1))); at = lambda kd: kind_of(L0, kd)
        n = S('nLines'); inr = lambda i: [vcmp('<', leaf(i), n), bnot(vcmp('>=', leaf(i), n)), bnot(vcmp('==', leaf(i), n)), bnot(vcmp('>', leaf(i), n))]
        more = inr(add(I, num(1))); has = starts(L1, 'Y0', True); base = inr(I)
        same_q = {}
        u = lambda v, *cs: under(canon(unver(v), k0, I, same_q), *base, *[canon(z, k0, I, same_q) for z in cs])
        chk0, chk1 = [ok0(S('chk'))], [bnot(ok0(S('chk')))]
        # which line comes next
        rec = round_of(I, k0, lambda t_, kd: kind_of(t_, kd))
        if r.ob(rec is not None and same(rec[0], N(0)), mode + ':first', f[0][1], 'the first line read is not line 0'):
            for kd in KINDS:
                cs = []
                g = rec[1](kd); want = vadd(leaf(psym('#u1')), N(2 if kd == 'X' and two else 1)); r.ob(same(g, want), '%s:next:%s' % (mode, kd), f[0][1], 'after %s the line read next is %s' % (KINDS[kd], show(g)), sample=('%s: next after %s' % (mode, KINDS[kd]), show(g)))
        # the number of functions so far
        NF = None
        if r.ob(len(pu) >= 1, mode + ':sets', None, 'no start of a set of functions is stored'):
            NF = poly(pu[0][0][4])
        nf = round_of(NF, k0, lambda t_, kd: kind_of(t_, kd)) if NF is not None else None
        if NF is not None:
            good = nf is not None and same(nf[0], N(0)); u2 = None
            if good:
                for kd in KINDS:
                    g = nf[1](kd); own = [leaf(psym(z.args[0])) for z in terms_in(g) if z.kind == 'sym' and z.args[0].startswith('#u')]
                    good = r.ob(len(set(o.id for o in own)) == 1 and same(g, vadd(own[0], N(int(kd == 'F')))), '%s:count:%s' % (mode, kd), pu[0][1], 'after %s the number of functions becomes %s' % (KINDS[kd], show(g)), sample=('%s: number of functions after %s' % (mode, KINDS[kd]), show(g)))
                for t_ in nf[2]: r.ob(is_line(t_, I, k0), mode + ':counted', pu[0][1], 'another line (%s) decides what is counted' % show(t_))
            else: r.ob(False, mode + ':sets', pu[0][1], 'the start of a set of functions is %s instead of the number of functions so far' % show(leaf(NF)))
        # inside optional parameters or not
        IO = in_optional(os, k0, I, L0, u, at)
        io1, io0 = ([], [])
        if r.ob(len(os) >= 1 and IO is not None, mode + ':optional', None, 'whether a line is an optional parameter does not follow from the lines before'):
            rec = round_of(poly(IO[0]), k0, lambda t_, kd: kind_of(t_, kd)); one, zero = (IO[0], N(int(IO[2]))), (IO[0], N(int(not IO[2]))); io1 = [IO[1], eqs(*one), bnot(eqs(*zero))]; io0 = [bnot(z) for z in io1]
            own = leaf(psym('#u1'))
            val = lambda b: N(int(b == IO[2]))
            if r.ob(rec is not None and same(rec[0], val(False)), mode + ':optional', None, 'lines are optional parameters from the start'):
                for kd in KINDS:
                    g = rec[1](kd); w = val(True) if kd == 'S' else val(False) if kd == 'E' else None
                    r.ob(same(g, w) if w is not None else isinstance(g, Leaf) and str(g.v).startswith('#u'), '%s:optional:%s' % (mode, kd), None, 'after %s the flag for optional parameters is %s' % (KINDS[kd], show(g)), sample=('%s: optional after %s' % (mode, KINDS[kd]), show(g)))
        # what is done for each kind of line
        some = [vcmp('>', leaf(NF), N(0)), bnot(vcmp('<', leaf(NF), N(1))), bnot(ok0(leaf(NF))), bnot(vcmp('<=', leaf(NF), N(0)))] if NF is not None else []
        nofun = [bnot(x_) for x_ in some]
        lim = lambda l, y: [vcmp('<', vfn('limit', l), N(0)), bnot(vcmp('>=', vfn('limit', l), N(0))), bnot(vcmp('>', vfn('limit', l), N(0))), bnot(eqs(vfn('limit', l), N(1))), bnot(ok0(vfn('limit', l)))] if y == 'bad' else [bnot(vcmp('<', vfn('limit', l), N(0))), vcmp('>=', vfn('limit', l), N(0)), eqs(vfn('limit', l), N(1)) if y else bnot(eqs(vfn('limit', l), N(1))), ok0(vfn('limit', l)) if not y else bnot(ok0(vfn('limit', l)))]
        oks = lim(L0, False) + lim(L1, False)
        acts = {'X0 and Y0' if two else 'X0': (at('X') + (more + has if two else []), ['set', 'par0'] + (['par1'] if two else [])), 'FUNCTION': (at('F'), ['fun', 'map']), 'OPTIONAL_PARAMS_START': (at('S'), []), 'OPTIONAL_PARAMS_END': (at('E'), []),
                'optional parameter': (at('P') + io1 + some, ['opt']), 'parameter': (at('P') + io0, ['par0'])}
        ends = way_out(t, k0)
        for nm, (cs, want) in acts.items():
            for fun in ((some, nofun) if nm not in ('optional parameter',) else (some,)):
                got = []
                U = lambda v: u(v, *cs, *fun, *oks)
                for kind, l in (('par', ps), ('fun', f), ('opt', os), ('set', pu), ('map', [z for z in x.of('push', 'OPTV')])):
                    for z, e in l:
                        pc = U(e.pc)
                        if pc is FALSE: continue
                        a = [y for y in z[2]]
                        w = kind
                        if kind == 'par': i_ = index_of(U(a[0]), 'LINES[]', 32); w = 'par0' if i_ is not None and sub_(i_, I) == 0 else 'par1' if i_ is not None and sub_(i_, I) == 1 else 'par?'
                        r.ob(pc is TRUE and len(e.loops) == 1, '%s:%s:%s' % (mode, nm, w), e, 'on %s line something is only done sometimes (%s)' % (nm, show(pc)))
                        got.append(w)
                        if kind == 'par':
                            j = {'par0': 0, 'par1': 1}.get(w)
                            if j is not None: r.ob(same(U(a[3]), orig(add(I, num(j)))), '%s:%s:lineno' % (mode, nm), e, 'the line number given for %s is %s' % (nm, show(U(a[3]))), sample=('%s: %s: line number' % (mode, nm), show(U(a[3]))))
                            r.ob(same(a[1], P_('PARS')) and same(a[2], P_('LIMS')), '%s:%s:lists' % (mode, nm), e, 'values go to %s and limits to %s' % (show(a[1]), show(a[2])))
                        if kind == 'fun': r.ob(same(a[1], P_('NAMES')) and same(a[2], P_('LABELS')) and index_of(U(a[0]), 'LINES[]', 32) is not None and sub_(index_of(U(a[0]), 'LINES[]', 32), I) == 0, '%s:%s:lists' % (mode, nm), e, 'the name or label of a function goes to another list')
                        if kind == 'set' and NF is not None: r.ob(same(U(z[4]), leaf(NF)), '%s:%s:start' % (mode, nm), e, 'the start of a set is %s' % show(U(z[4])))
                        if kind == 'opt':
                            i_ = index_of(U(a[1]), 'OPTV[]', 48); r.ob((i_ is not None and NF is not None and sub_(i_, NF) == -1 or same(U(a[1]), P_('OPTV.back'))) and index_of(U(a[0]), 'LINES[]', 32) is not None and sub_(index_of(U(a[0]), 'LINES[]', 32), I) == 0, '%s:%s:function' % (mode, nm), e, 'an optional parameter goes to %s' % show(U(a[1])), sample=('%s: optional parameter for' % mode, show(U(a[1]))))
                r.ob(sorted(got) == sorted(want) and [y for y in got if y.startswith('par')] == [y for y in want if y.startswith('par')], '%s:%s' % (mode, nm), f[0][1], 'on %s line: %s instead of %s' % (nm, got or 'nothing', want or 'nothing'), sample=('%s: %s' % (mode, nm), ', '.join(want) or 'nothing'))
                g = U(ends['fail']); r.ob(g is FALSE, '%s:%s:accepted' % (mode, nm), None, 'a proper %s line can be refused: %s' % (nm, show(g)), sample=('%s: %s' % (mode, nm), 'accepted'))
                c.count('kinds of line')
        # what is refused
        bad = [('an X0 line at the end', at('X') + lim(L0, False) + [bnot(z) for z in more])] * two + [('an X0 line that is not followed by a Y0 line', at('X') + lim(L0, False) + more + starts(L1, 'Y0', False))] * two + [('bad limits of X0', at('X') + chk1 + lim(L0, 'bad'))] + [('bad limits of Y0', at('X') + more + has + chk1 + lim(L0, False) + lim(L1, 'bad'))] * two + [('bad limits', at('P') + io0 + chk1 + lim(L0, 'bad')), ('an optional parameter before the first function', at('P') + io1 + nofun)]
        for nm, cs in bad:
            g = u(ends['fail'], *cs); r.ob(g is TRUE, '%s:refused' % mode, None, '%s: %s is not refused: %s' % (mode, nm, show(g)), sample=('%s: refused' % mode, nm))
        for nm, cs in (('X0', at('X') + (more + has + lim(L1, 'bad') if two else [])), ('parameter', at('P') + io0)):
            g = u(ends['fail'], *cs, *chk0, *lim(L0, 'bad')); r.ob(g is FALSE, '%s:unchecked:%s' % (mode, nm), None, 'limits are refused although they are not to be checked')
        g = under(unver(ends['done']), *base); r.ob(g is FALSE, mode + ':all', None, 'stops before the last line: %s' % show(g), sample=(mode, 'all lines'))
        g = under(unver(ends['done']), *[bnot(z) for z in base]); r.ob(g is TRUE, mode + ':end', None, 'does not stop after the last line')
        r.ob(ends['known'], mode + ':result', None, 'the result is neither 0 nor -1')
        # limits were found
        for z, e in ps:
            a = z[4]
            a = unver(a)
            st = [s_ for n_, s_, q in t.stores(lambda o: o == 'FOUND') if s_.loops and not same(s_.val, N(0)) and s_.val is not FALSE]
            w = band(unver(e.pc), eqs(vfn('limit', a), N(1))); got = FALSE
            for s_ in st: got = bor(got, unver(s_.pc))
            l = [bnot(vcmp('<', vfn('limit', a), N(0))), vcmp('>', vfn('limit', a), N(0))]
            r.ob(under(band(w, bnot(got)), *base, *l, *chk0) is FALSE, mode + ':found', e, 'limits of a line are not noticed', sample=(mode, 'limits noticed'))
        for n_, s_, q in t.stores(lambda o: o == 'FOUND'):
            if not s_.loops: r.ob(same(s_.val, N(0)) or s_.val is FALSE, mode + ':found', s_, 'limits are said to be found before the first line')
            else:
                none = [y for z, e in ps for y in lim(z[4] if isinstance(z[4], (Leaf, Node)) else leaf(z[4]), False)]
                val = under(unver(s_.val), *[unver(y) for y in none], *base)
                was = lambda b: tmap(val, lambda z: N(b) if z.kind in ('mu', 'load') or z.kind == 'sym' and 'FOUND' in str(z.args[0]) else None)
                old = (was(0) is FALSE or same(was(0), N(0))) and (was(1) is TRUE or same(was(1), N(1)))   # what was found before is kept
                r.ob(s_.val is not FALSE and not same(s_.val, N(0)) and (under(unver(s_.pc), *[unver(y) for y in none], *base) is FALSE or old), mode + ':found', s_, 'limits are said to be found on a line without limits')
        r.ob(any(not s_.loops for n_, s_, q in t.stores(lambda o: o == 'FOUND')), mode + ':found', None, 'whether limits were found is not reset')
        for o in ('NAMES', 'LABELS', 'PARS', 'LIMS', 'FSET'):
            cl = x.of('clear', o); r.ob(any(not e.loops and e.pc is TRUE for z, e in cl), '%s:clear:%s' % (mode, o), None, 'the list %s is not emptied first' % o, sample=(mode + ': emptied', o))
def canon(v, k, I, known):
    """quantities that start alike and change alike with every kind of line are one quantity"""
    def f(a):
        if a.kind not in ('mu', 'sum') or patom(a) is I: return None
        if id(a) not in known:
            known[id(a)] = (a, None); rec = None
            if same(leaf(a.args[2]) if isinstance(a.args[2], Poly) else a.args[2], leaf(k if isinstance(k, Poly) else psym(k))) or a.kind == 'mu': rec = round_of(patom(a), k, lambda t_, kd: kind_of(t_, kd))
            if rec is not None and isinstance(rec[0], Leaf):
                tab = tuple(re.sub('#u\\d+', '#u', brief(rec[1](kd), 400)) for kd in KINDS)
                if all(len(z) < 20 for z in tab): known[id(a)] = (a, known.setdefault((rec[0].id, tab, a.args[-1].id if hasattr(a.args[-1], 'id') else 0), patom(a)))
        r = known[id(a)][1]
        return leaf(r) if r is not None and strs.atom1(r) is not a else None
    return tmap(v, f)
def sub_(a, b):
    d = add(a, scale(b, Fraction(-1))); return int(numval(d)) if is_num(d) else None
def is_line(t, I, k):
    """t is the current line of a round (not one further on)"""
    a = strs.atom1(poly(t)) if poly(t) is not None else None
    if a is None or a.kind != 'load': return False
    off = [z for z in a.args[1:] if isinstance(z, Poly)]
    if not off: return False
    p = scale(off[0], Fraction(1, 32)); return strs.atom1(p) is not None
def in_optional(os, k, I, L0, u, at):
    """the quantity that says whether optional parameters are being read: (value, condition that it is set, the polarity)"""
    for z, e in os:
        pc = u(e.pc, *at('P'))
        for b in vars_of(pc):
            if b.kind != 'cmp' and not isinstance(b.args, tuple): continue
            for a in terms_in(node(b, TRUE, FALSE)):
                if a.kind == 'mu' and a.args[0] == 'rec' and not any(q.kind == 'mu' for q in terms_in(a.args[2]) if False):
                    v = leaf(patom(a)); init = a.args[1]
                    if v.v is I: continue
                    w0, w1 = subst_val(node(b, TRUE, FALSE), a, 0), subst_val(node(b, TRUE, FALSE), a, 1)
                    if {w0, w1} == {True, False}:
                        cond = node(b, TRUE, FALSE); on = band(pc, bnot(cond)) is FALSE
                        return v, (cond if on else bnot(cond)), (w1 if on else not w1)
    return None
def vars_of(v, acc=None, seen=None):
    acc = [] if acc is None else acc; seen = set() if seen is None else seen
    if isinstance(v, Node) and id(v) not in seen:
        seen.add(id(v)); acc.append(v.var); vars_of(v.hi, acc, seen); vars_of(v.lo, acc, seen)
    return acc
def way_out(t, k):
    """the conditions under which the loop is left with a failure or after the last line"""
    fail = done = FALSE; known = True
    mine = [(b, inf) for b, inf in t.m.exitinfo.items() if inf[0] == k]
    if not mine: return dict(fail=FALSE, done=FALSE, known=False)
    for j, cond in enumerate(mine[0][1][2]):                # the last way out is the one left when no other is taken
        cond = unver(cond); v = under(t.val, *[node(b, TRUE, FALSE) if inf[1] == j else node(b, FALSE, TRUE) for b, inf in mine])
        if isinstance(v, Leaf) and is_num(v.v): 
            if numval(v.v) == 0: done = bor(done, cond)
            elif numval(v.v) == -1: fail = bor(fail, cond)
            else: known = False
        else: known = False
    return dict(fail=fail, done=done, known=known)
def subst_val(v, a, x):
    """truth value of the condition v when the quantity a is x"""
    w = tmap(v, lambda b: N(x) if b is a else None); return True if w is TRUE else False if w is FALSE else None
def loops_out(t):
    """loops that can be left in several ways: counter -> [(what is assumed when left that way, condition)]"""
    out = {}
    for b, inf in t.m.exitinfo.items(): out.setdefault(inf[0], []).append((b, inf))
    r = {}
    for k, l in out.items():
        r[k] = []
        for j, cond in enumerate(l[0][1][2]): r[k].append(([node(b, TRUE, FALSE) if inf[1] == j else node(b, FALSE, TRUE) for b, inf in l], unver(cond)))
    return r
def before_end(i): return [vcmp('<', leaf(i), S('nLines')), bnot(vcmp('>=', leaf(i), S('nLines'))), bnot(eqs(leaf(i), S('nLines'))), bnot(vcmp('>', leaf(i), S('nLines')))]
def vet(c):
    """which files are refused, and for which line"""
    mem = {}
    for o, n, e in (('LINES', 'nLines', 32), ('ORIG', 'nLines', 4)): mem[(o, 0)] = P_(o + '[]'); mem[(o, 8)] = mem[(o, 16)] = leaf(Ptr(o + '[]', scale(psym(n), Fraction(e))))
    flag = lambda v: v if isinstance(v, Leaf) and isinstance(v.v, Poly) else ite(v, N(1), N(0))
    def extra(tx):
        def vp(fr, i, a, m): t = strs.get(fr, m, a[0]); tx.note('valid', fr, i, a, m, t); return bnot(ok0(vfn('valid', t, flag(a[1])))), m
        return {'ValidParameterLine': vp}
    for two in (True, False):
        x = Tx(c, 'VetConfigFile', [P_('LINES'), P_('ORIG'), N(int(two)), P_('BAD')], mem, extra=extra); r = x.r; t = x.t; mode = '2D' if two else '1D'; L = loops_out(t); bad = [(e, q) for n, e, q in t.stores(lambda o: o == 'BAD')]
        # the search for the first X0 line: the loop that is left at an X0 line
        find = {}
        for k, ways in L.items():
            kp = k if isinstance(k, Poly) else psym(k); l = line(kp)
            for asm, cond in ways:
                if under(cond, *before_end(kp), *starts(l, 'X0', True)) is TRUE and under(cond, *before_end(kp), *starts(l, 'X0', False)) is FALSE: find[k] = asm
        if len(find) != 1: continue                      # written in another way: not decided here
        kx = list(find)[0]; found = find[kx]; none = [z for asm, cond in L[kx] if asm is not found for z in [asm]]
        r.ob(len(none) == 1 and under([cond for asm, cond in L[kx] if asm is not found][0], *before_end(kx if isinstance(kx, Poly) else psym(kx))) is FALSE, mode + ':search', None, 'the search for an X0 line stops early')
        # where the section starts
        counts = [leaf(patom(z)) for z in terms_in(unver(t.val)) if z.kind == 'trip']; counts = [z for y in counts for z in (bnot(vcmp('<', y, N(0))), vcmp('>=', y, N(0)), vcmp('>', y, N(-1)), bnot(vcmp('<=', y, N(-1))), bnot(eqs(y, N(-1))))]
        def result(*cs): return under(unver(t.val), *counts, *cs)
        st = None
        for pth, l in paths_of(result(*found)):
            if isinstance(l, Poly) and not is_num(l): st = l if st is None or st is l else False
        if not r.ob(isinstance(st, Poly), mode + ':start', None, 'the start of the function section is not returned'): continue
        a = strs.atom1(st)
        ok = a is not None and a.kind == 'trip'
        if ok:
            kk = [z for z in terms_in(a.args[0]) if z.kind == 'sym' and str(z.args[0]).startswith('#k')]; ok = len(set(z.args[0] for z in kk)) >= 1
            if ok:
                kq = patom(kk[0]); w = a.args[0]; ok = under(w, *before_end(kq), *starts(line(kq), 'X0', True)) is FALSE and under(w, *before_end(kq), *starts(line(kq), 'X0', False)) is TRUE
        r.ob(ok, mode + ':start', None, 'the function section starts at %s' % show(leaf(st)), sample=(mode + ': start', 'first X0 line'))
        codes = {}
        def fails(nm, cs, bl=None):
            v = result(*cs); w = vcmp('<', v, N(0)) if isinstance(v, Leaf) and isinstance(v.v, Poly) else None
            if not r.ob(isinstance(v, Leaf) and is_num(v.v) and numval(v.v) < 0, '%s:%s' % (mode, nm.replace(' ', '_')), None, '%s: the result is %s' % (nm, show(v)), sample=('%s: %s' % (mode, nm), show(v))): return
            codes[nm] = int(numval(v.v))
            if bl is not None:
                got = [(e, under(unver(e.val), *cs)) for e, q in bad if under(unver(e.pc), *cs) is TRUE]
                r.ob(len(got) >= 1 and same(got[-1][1], bl), '%s:%s:line' % (mode, nm.replace(' ', '_')), got[-1][0] if got else None, '%s: the line reported is %s' % (nm, show(got[-1][1]) if got else 'none'), sample=('%s: %s: line reported' % (mode, nm), show(bl)))
        fails('no X0 line', none[0] if none else [])
        nxt = add(st, num(1)); hasY = before_end(nxt) + starts(line(nxt), 'Y0', True)
        if two:
            fails('an X0 line at the end', found + [bnot(z) for z in before_end(nxt)], orig(st)); fails('no Y0 line after the X0 line', found + before_end(nxt) + starts(line(nxt), 'Y0', False), orig(st))
            if 'an X0 line at the end' in codes and 'no Y0 line after the X0 line' in codes: r.ob(codes['an X0 line at the end'] == codes.pop('no Y0 line after the X0 line'), mode + ':codes', None, 'a missing Y0 line has two codes')
        good = found + (hasY if two else [])
        # the other loops: any FUNCTION line; every line
        other = {k: w for k, w in L.items() if k != kx}; searchF = []; every = []
        for k, ways in other.items():
            kp = k if isinstance(k, Poly) else psym(k); l = line(add(st, kp)); inn = before_end(add(st, kp))
            us = [(asm, under(cond, *good, *inn, *starts(l, 'FUNCTION', True)), under(cond, *good, *inn, *starts(l, 'FUNCTION', False))) for asm, cond in ways]
            hit = [asm for asm, y, n_ in us if y is TRUE and n_ is FALSE]
            (searchF if hit else every).append((k, kp, l, inn, ways, hit))
        for k, kp, l, inn, ways, hit in every:
            l0 = line(kp); r.ob(not any(under(cond, *good, *before_end(kp), *starts(l0, 'FUNCTION', True)) is TRUE and under(cond, *good, *before_end(kp), *starts(l0, 'FUNCTION', False)) is FALSE for asm, cond in ways), mode + ':functions', None, 'FUNCTION lines before the function section count')
        if len(searchF) == 1 and len(every) == 1:
            k, kp, l, inn, ways, hit = searchF[0]
            rest = [(asm, cond) for asm, cond in ways if asm is not hit[0]]
            r.ob(len(rest) == 1 and under(rest[0][1], *good, *inn) is FALSE and under(rest[0][1], *good, *[bnot(z) for z in inn]) is TRUE, mode + ':functions', None, 'the search for a FUNCTION line stops early')
            if rest: fails('no FUNCTION line', good + rest[0][0])
            good2 = good + hit[0]; k, kp, l, inn, ways, _ = every[0]
            ends = [(asm, cond) for asm, cond in ways if under(cond, *good2, *inn) is FALSE]; stops = [(asm, cond) for asm, cond in ways if under(cond, *good2, *inn) is not FALSE]
            if r.ob(len(ends) == 1 and len(stops) >= 1, mode + ':lines', None, 'the lines are not all looked at'):
                v = result(*good2, *ends[0][0]); r.ob(same(v, leaf(st)), mode + ':accepted', None, 'the result for a proper file is %s' % show(v), sample=(mode + ': accepted', 'start'))
                out = FALSE
                for j, (asm, cond) in enumerate(stops):
                    out = bor(out, under(cond, *good2)); fails('bad line %d' % (j + 1), good2 + asm)
                # whether the lines are optional parameters
                IO = None
                for b in {id(a_): a_ for a_ in terms_in(out) if a_.kind == 'mu'}.values():
                    rec = round_of(patom(b), kp, lambda t_, kd: kind_of(t_, kd) + good2)
                    if rec is None or b.args[2] is None or not same(b.args[3] if isinstance(b.args[3], (Leaf, Node)) else leaf(b.args[3]), leaf(kp)): continue
                    IO = (patom(b), rec)
                if r.ob(IO is not None, mode + ':optional', None, 'optional parameters are checked like others'):
                    for kd in KINDS:
                        g = IO[1][1](kd, *good2); w = N(1) if kd == 'S' else N(0) if kd == 'E' else None
                        r.ob(same(g, w) if w is not None else isinstance(g, Leaf) and str(g.v).startswith('#u'), '%s:optional:%s' % (mode, kd), None, 'after %s the flag for optional parameters is %s' % (KINDS[kd], show(g)), sample=('%s: optional after %s' % (mode, KINDS[kd]), show(g)))
                    r.ob(same(IO[1][0], N(0)), mode + ':optional', None, 'lines are optional parameters from the start')
                    for kd in KINDS:
                        for o in (0, 1):
                            for val in (0, 1):
                                fl = N(1) if kd == 'F' else N(o); ve = vfn('valid', l, fl); io = leaf(IO[0])
                                cs = good2 + inn + kind_of(l, kd) + [eqs(io, N(o)), bnot(eqs(io, N(1 - o)))] + [ok0(ve) if not val else bnot(ok0(ve))]
                                v1 = tmap(out, lambda a_: N(o) if patom(a_) is IO[0] else None); g = under(v1, *[tmap(z, lambda a_: N(o) if patom(a_) is IO[0] else None) for z in cs])
                                want = kd not in 'SE' and not val
                                r.ob(g is (TRUE if want else FALSE), '%s:line:%s' % (mode, kd), None, '%s%s that is %s is %s' % (KINDS[kd], ' among optional parameters' if o else '', 'proper' if val else 'not proper', 'not always refused' if want else 'refused: %s' % show(g)), sample=('%s: %s' % (mode, KINDS[kd]), 'checked' if kd not in 'SE' else 'skipped'))
                # which line is reported
                for e, q in bad:
                    if not e.loops:
                        for asm, cond in stops:                   # stored once the loop has been left: a number of a line of the file, not of the list
                            if under(unver(e.pc), *good2, *asm) is not TRUE: continue
                            g = under(unver(e.val), *good2, *asm); a_ = strs.atom1(poly(g)) if poly(g) is not None else None
                            r.ob(a_ is not None and a_.kind == 'load' and a_.args[0] == 'ORIG[]', mode + ':line', e, 'the line reported is %s' % brief(g, 80))
                        continue
                    g = under(unver(e.val), *good2); pc = under(unver(e.pc), *good2); kq = e.loops[-1][0]
                    r.ob(same(g, orig(add(st, kq if isinstance(kq, Poly) else psym(kq)))), mode + ':line', e, 'the line reported is %s' % show(g), sample=(mode + ': line reported', show(g)))
                noted = [(e, under(unver(e.pc), *good2)) for e, q in bad]
                for j, (asm, cond) in enumerate(stops):
                    r.ob(any(band(under(cond, *good2), bnot(pc)) is FALSE or under(pc, *asm) is TRUE for e, pc in noted), mode + ':noted', None, 'a bad line is not reported')
                codes_ = {n_: v_ for n_, v_ in codes.items() if not n_.startswith('bad line')}; badc = {v_ for n_, v_ in codes.items() if n_.startswith('bad line')}
                r.ob(len(badc) == 1 and len(set(codes_.values()) | badc) == len(codes_) + 1, mode + ':codes', None, 'different errors have the same code: %s' % codes)
                x2 = Tx(c, 'ReportConfigError', [S('code'), S('lineno')])
                for nm, cd in list(codes_.items()) + [('bad line', list(badc)[0])] if badc else []:
                    said = [o_ for o_ in outputs(x2.t) if subst(unver(o_.pc), {'code': N(cd)}) is TRUE]
                    r2 = x2.r
                    r2.ob(len(said) >= 1, 'said', None, '%s: nothing is said' % nm, sample=('said', nm))
                    if 'line' in nm and nm not in ('no X0 line', 'no FUNCTION line'): r2.ob(any('lineno' in syms(o_.val) for o_ in said), 'lineno', None, '%s: the line number is not said' % nm)
        c.count('kinds of line', 5)
class Stub:
    def __init__(s): s.rec = []
    def h(s, k): return lambda fr, i, a, m: (BOT, m)
def vec_of(v):
    q = [z for z in leaves(v) if isinstance(z, Ptr)]
    return (q[0].obj, q[0].off) if len(q) == 1 else None
def size_of(o): return vfn('size', leaf(patom(atom('load', o[0], o[1], 'addr'))))
def reading(tx):
    """files by line, vectors of the function by element"""
    H = {}; sk = Stub()
    for n in tx.p.prog.fns:
        h = io_hook(sk, n)
        if h: H[n] = h
        q = re.match(r'std::vector<(.*)>::(operator\[\]|at|size|empty)\(', dm(n))
        if q and ('string<char' in q.group(1) or q.group(1).startswith('int')) and 'std::map' not in q.group(1):
            def acc(fr, i, a, m, es=4 if q.group(1).startswith('int') else 32, w=q.group(2)):
                o = vec_of(a[0]); beg = m.d.get((o[0], int(numval(o[1])))) if o and is_num(o[1]) else None
                if o is None: raise AnalysisError('an unknown list is read')
                known = isinstance(beg, Leaf) and isinstance(beg.v, Ptr) and isinstance(beg.v.obj, tuple) and beg.v.obj[0] == 'pieces'
                if w in ('size', 'empty'):
                    if known: end = m.d[(o[0], int(numval(o[1])) + 8)]; n_ = apply(lambda q_: leaf(scale(q_.off, Fraction(1, 32))), fresh('np'), end)
                    else: n_ = size_of(o)
                    return (n_ if w == 'size' else ok0(n_)), m
                return apply(lambda k: leaf(Ptr(beg.v.obj if known else ('elem', o[0], o[1]), scale(k, Fraction(es)))), fresh('el'), a[1]), m
            H[n] = acc
    def vet_(fr, i, a, m):
        m = m.copy(); q = [z for z in leaves(a[3]) if isinstance(z, Ptr)]
        if len(q) == 1: fr.m.store(m, q[0], S('badline'))
        tx.note('vet', fr, i, a, m); return S('start'), m
    def parse(fr, i, a, m): tx.note('parse', fr, i, a, m); return S('parsed'), m
    def rep(fr, i, a, m): tx.note('report', fr, i, a, m); return BOT, m
    H.update({'VetConfigFile': vet_, 'ParseFunctionSection': parse, 'ReportConfigError': rep})
    return H
def ctr(e):
    k = e.loops[-1][0]; return k if isinstance(k, Poly) else psym(k)
def kept_lines(x, r, t, K, mode, push, LV, OV, F):
    """the lines of the file that are kept, with their numbers"""
    kept = [(z, e) for z, e in push if vec_of(e.args[0]) == LV]; nums = [(z, e) for z, e in push if vec_of(e.args[0]) == OV]
    if r.ob(len(kept) == 1 and len(nums) == 1 and len(kept[0][1].loops) == 1 and len(nums[0][1].loops) == 1, K('lines'), None, 'lines and their numbers are not kept in one place'):
        z, e = kept[0]; k = ctr(e); txt = vfn('trim', vfn('line', F, leaf(add(k, num(1))))); eof = vfn('eof', F, leaf(add(k, num(1))))
        r.ob(same(unver(z[4]), txt), K('lines'), e, 'the line kept is %s' % show(unver(z[4])), sample=(mode + ': line kept', show(unver(z[4]))))
        sz = vfn('str:size', txt); chs = [a_ for a_ in terms_in(unver(e.pc)) if a_.kind == 'load' and isinstance(a_.args[0], tuple) and a_.args[0][0] == 'chars']
        noteof = bnot(eqs(eof, N(1))); nonempty = lambda y: [vcmp('>', sz, N(0)) if y else bnot(vcmp('>', sz, N(0))), bnot(ok0(sz)) if y else ok0(sz), bnot(vcmp('<', sz, N(1))) if y else vcmp('<', sz, N(1)), bnot(eqs(txt, strs.EMPTY)) if y else eqs(txt, strs.EMPTY)]
        mark = lambda y: [eqs(leaf(patom(a_)), N(35)) if y else bnot(eqs(leaf(patom(a_)), N(35))) for a_ in chs] + starts(txt, '#', y)
        for zz, ee, what in ((z, e, 'line'), (nums[0][0], nums[0][1], 'number')):
            kk = ctr(ee)
            sub = lambda v: subst(unver(v), {list(syms(leaf(kk)))[0]: leaf(k)})
            for nm, cs, want in (('a line', [noteof] + nonempty(True) + mark(False), TRUE), ('a comment', [noteof] + nonempty(True) + mark(True), FALSE), ('an empty line', [noteof] + nonempty(False), FALSE), ('the end of the file', [bnot(noteof)], FALSE)):
                g = under(sub(ee.pc), *cs); r.ob(g is want, K('kept:' + what), ee, 'the %s of %s is %skept' % (what, nm, 'not always ' if want is TRUE else ''), sample=('%s: %s of %s' % (mode, what, nm), 'kept' if want is TRUE else 'left out'))
        for a_ in chs: r.ob(a_.args[1] is ZERO, K('mark'), e, 'another character than the first makes a line a comment')
        g = subst(unver(nums[0][0][4]), {list(syms(leaf(ctr(nums[0][1]))))[0]: leaf(k)}); r.ob(same(g, vadd(leaf(k), N(1))), K('number'), nums[0][1], 'the number kept for line k+1 is %s' % show(g), sample=(mode + ': number kept', show(g)))
        done = loops_out(t).get(e.loops[-1][0])
        tr = leaf(e.loops[-1][1]) if isinstance(e.loops[-1][1], Poly) else e.loops[-1][1]
        a_ = strs.atom1(poly(tr)) if poly(tr) is not None else None
        if a_ is not None and a_.kind == 'trip':
            kq = [q_ for q_ in terms_in(a_.args[0]) if q_.kind == 'sym' and str(q_.args[0]).startswith('#k')]
            g = under(a_.args[0], bnot(eqs(vfn('eof', F, leaf(add(patom(kq[0]), num(1)))), N(1)))) if kq else None
            r.ob(g is TRUE, K('all'), e, 'reading can stop before the end of the file', sample=(mode, 'all lines'))
def whole_file(c):
    """the lines of a file, its options and its function section"""
    for full in (True, False):
        args = [P_('FILE'), S('mode'), P_('NAMES'), P_('LABELS'), P_('PARS')] + ([P_('LIMS')] if full else []) + [P_('FSET')] + ([P_('FOUND')] if full else []) + [P_('OPTS'), P_('OPTV')]
        x = Tx(c, 'ReadConfigFile', args, {('FILE', 0): T('filename')}, extra=reading, loops=True); r = x.r; t = x.t; F = T('filename'); mode = 'with limits' if full else 'without limits'; K = lambda z: '%s:%s' % (mode.replace(' ', '_'), z)
        co = {'optionNames': 0, 'optionValues': 24, 'nOptions': 48}
        opened = [(e, q) for n, e, q in t.stores(lambda o: isinstance(o, tuple) and o[0] == 'io')]
        r.ob(len(opened) == 1 and same(opened[0][0].val, F), K('file'), None, 'another file is read', sample=(mode, 'file given'))
        vt, ps, rp = x.of('vet'), x.of('parse'), x.of('report'); push = x.of('push')
        if not r.ob(len(vt) == 1 and len(ps) == 1 and not vt[0][1].loops and not ps[0][1].loops, K('vet'), None, 'the lines are not checked once and read once'): continue
        va, pa = vt[0][1].args, ps[0][1].args; LV, OV = vec_of(va[0]), vec_of(va[1])
        r.ob(vt[0][1].pc is TRUE and same(va[2], S('mode')), K('vet'), vt[0][1], 'the lines are checked for another mode')
        # the lines kept
        kept_lines(x, r, t, K, mode, push, LV, OV, F)
        # refused files
        neg, pos = [vcmp('<', S('start'), N(0)), bnot(vcmp('>=', S('start'), N(0))), vcmp('<=', S('start'), N(-1)), bnot(vcmp('>', S('start'), N(-1)))], [bnot(vcmp('<', S('start'), N(0))), vcmp('>=', S('start'), N(0)), bnot(vcmp('<=', S('start'), N(-1))), vcmp('>', S('start'), N(-1))]
        g = under(t.val, *neg); r.ob(isinstance(g, Leaf) and is_num(g.v) and numval(g.v) < 0, K('refused'), None, 'the result for a file with an error is %s' % show(g), sample=(mode + ': error', show(g)))
        r.ob(under(ps[0][1].pc, *neg) is FALSE, K('refused'), ps[0][1], 'a file with an error is read nevertheless')
        r.ob(len(rp) == 1 and under(rp[0][1].pc, *neg) is TRUE and under(rp[0][1].pc, *pos) is FALSE and same(rp[0][1].args[0], S('start')) and same(unver(rp[0][1].args[1]), S('badline')), K('said'), rp[0][1] if rp else None, 'an error in a file is not reported with its line', sample=(mode + ': error', 'reported'))
        g = under(t.val, *pos); r.ob(same(g, S('parsed')), K('result'), None, 'the result is %s' % show(g), sample=(mode + ': result', show(g))); r.ob(under(ps[0][1].pc, *pos) is TRUE, K('result'), ps[0][1], 'the function section is not always read')
        # options
        names_, values_ = [[(z, e) for z, e in push if vec_of(e.args[0]) is not None and vec_of(e.args[0])[0] == 'OPTS' and is_num(vec_of(e.args[0])[1]) and int(numval(vec_of(e.args[0])[1])) == co[w]] for w in ('optionNames', 'optionValues')]
        el = lambda o, i, size: LD(('elem', o[0], o[1]), scale(i, Fraction(size)))
        inopt = lambda k: [vcmp('<', leaf(k), S('start')), bnot(vcmp('>=', leaf(k), S('start')))]
        for what, l, j in (('name', names_, 0), ('value', values_, 1)):
            if not r.ob(len(l) == 1 and len(l[0][1].loops) == 1, K('option:' + what), None, 'the %s of an option is not stored in one place' % what): continue
            z, e = l[0]; k = ctr(e); src = unver(z[4]); W = [(s_, d_) for n_, s_, d_ in x.counts.values()]
            r.ob(len(W) >= 1 and all(blank(w[1]) for w in W), K('option:words'), e, 'option lines are not cut into words')
            for s_, d_ in W[:1]:
                want = chopped(el(LV, k, 32))
                got = [a_ for a_ in terms_in(src) if a_.kind == 'fn' and a_.args[0] == 'piece']
                okp = len(got) == 1 and src is leaf(patom(got[0])) and same(got[0].args[1] if isinstance(got[0].args[1], (Leaf, Node)) else leaf(got[0].args[1]), want) and same(leaf(got[0].args[3]) if isinstance(got[0].args[3], Poly) else got[0].args[3], N(j))
                r.ob(okp, K('option:' + what), e, 'the %s of an option is %s' % (what, show(src)), sample=('%s: option %s' % (mode, what), show(src)))
                np_ = [leaf(patom(a_)) for a_ in terms_in(unver(e.pc)) if a_.kind == 'fn' and a_.args[0] == 'pieces#']
                for q_ in np_[:1]:
                    for nn, want2 in ((1, FALSE), (2, TRUE), (3, FALSE)):
                        cs = inopt(k) + pos; g = tmap(unver(e.pc), lambda a_: N(nn) if a_.kind == 'fn' and a_.args[0] == 'pieces#' else None); g = under(g, *cs)
                        r.ob(g is want2, K('option:%d' % nn), e, 'a line of options with %d words is %s' % (nn, 'not always an option' if want2 is TRUE else 'an option'), sample=('%s: %d words' % (mode, nn), 'option' if want2 is TRUE else 'left out'))
                r.ob(len(np_) >= 1, K('option:words'), e, 'options do not depend on the number of words')
            tr = under(e.loops[0][1] if isinstance(e.loops[0][1], (Leaf, Node)) else leaf(e.loops[0][1]), *pos, vcmp('>', S('start'), N(0))); r.ob(same(tr, S('start')) , K('option:all'), e, 'options are read from %s lines' % show(tr), sample=(mode + ': option lines', show(tr)))
            cl = [e_ for z_, e_ in x.of('clear') if vec_of(e_.args[0]) == vec_of(e.args[0])]; r.ob(any(not e_.loops and under(e_.pc, *pos) is TRUE for e_ in cl), K('option:cleared'), e, 'options of an earlier file are kept')
        st = [(e, q) for n, e, q in t.stores(lambda o: o == 'OPTS') if is_num(q.off) and int(numval(q.off)) == co['nOptions']]
        r.ob(any(not e.loops and same(e.val, N(0)) and under(e.pc, *pos) is TRUE for e, q in st), K('option:count'), None, 'the number of options is not reset')
        incs = [(e, q) for e, q in st if e.loops]
        if names_: r.ob(len(incs) == 1 and same_round(incs[0][0], names_[0][1], inopt, pos), K('option:count'), incs[0][0] if incs else None, 'the number of options does not go up with every option', sample=(mode + ': number of options', 'one per option'))
        for e, q in incs:
            w = unver(e.val); sums = [z for z in terms_in(w) if z.kind == 'sum']
            at = lambda x: numval(y) if (y := poly(tmap(w, lambda z: N(x) if z in sums else None))) is not None and is_num(y) else None
            bad = poly(w) is not None and is_num(poly(w)) or len(sums) == 1 and isinstance(w, Leaf) and None not in (at(0), at(1)) and (at(0) != 1 or at(1) != 2)
            r.ob(not bad, K('option:count'), e, 'the number of options becomes %s' % show(w), sample=(mode + ': number of options', 'one more'))
        # the function section
        FL, FO = vec_of(pa[0]), vec_of(pa[8])
        for what, o, src, size in (('lines', FL, LV, 32), ('numbers', FO, OV, 4)):
            l = [(z, e) for z, e in push if vec_of(e.args[0]) == o]
            if not r.ob(len(l) == 1 and len(l[0][1].loops) == 1, K('section:' + what), ps[0][1], 'the %s of the function section are not collected in one place' % what): continue
            z, e = l[0]; k = ctr(e); got = unver(z[4])
            r.ob(same(got, el(src, add(psym('start'), k), size)), K('section:' + what), e, 'the %s of the function section are %s' % (what, show(got)), sample=('%s: %s' % (mode, what), show(got)))
            inn = [vcmp('<', leaf(add(psym('start'), k)), size_of(LV)), vcmp('<', leaf(add(psym('start'), k)), size_of(OV))]
            r.ob(under(unver(e.pc), *pos, *inn) is TRUE, K('section:' + what), e, 'some %s of the function section are left out' % what)
            tr = e.loops[0][1] if isinstance(e.loops[0][1], (Leaf, Node)) else leaf(e.loops[0][1]); n_ = [vadd(size_of(y), vmul(N(-1), S('start'))) for y in (LV, OV)]
            g = under(unver(tr), *pos, *[vcmp('<', S('start'), size_of(y)) for y in (LV, OV)], *[vcmp('>', y, N(0)) for y in n_]); r.ob(any(same(g, y) for y in n_), K('section:all'), e, 'the function section has %s lines' % show(g), sample=(mode + ': section', show(g)))
        want = {1: S('mode'), 2: P_('NAMES'), 3: P_('LABELS'), 4: P_('PARS'), 6: P_('FSET'), 10: P_('OPTV')}
        if full: want.update({5: P_('LIMS'), 7: P_('FOUND')})
        for j, w in want.items(): r.ob(same(pa[j], w), K('section:argument'), ps[0][1], 'argument %d of the reading of the function section is %s instead of %s' % (j + 1, show(pa[j]), show(w)), sample=('%s: argument %d' % (mode, j + 1), show(w)))
        r.ob(pa[9] is (TRUE if full else FALSE) or same(pa[9], N(int(full))), K('section:limits'), ps[0][1], 'limits are %s' % ('not checked' if full else 'checked although they are not used'), sample=(mode, 'limits checked' if full else 'limits not checked'))
        c.count('files read')
def same_round(e, e2, inopt, pos):
    k, k2 = ctr(e), ctr(e2); a = under(subst(unver(e.pc), {list(syms(leaf(k)))[0]: leaf(k2)}), *pos, *inopt(k2)); b = under(unver(e2.pc), *pos, *inopt(k2))
    return a is b
def C05():
    c = Check('C05', 'Value numbering of the parser of configuration files: every line function with the line cut into named words, and one round of each loop over the lines for every kind of line.')
    number_words(c); limits(c); names(c); texts(c); section(c); vet(c); whole_file(c)
    return c.finish()
TABLE = {'C05': C05}

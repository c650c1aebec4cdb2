"""S05, S06: the MCMC sampler: which proposals are evaluated and accepted, what the chain files hold, how a run is resumed and ends."""
import re
from fractions import Fraction
from . import cas
from .gsa import Event
from .build import AnalysisError, dm
from . import strs
from .cas import *
from .report import Check
from .trace import *
from .checks_pipe import Rule, unver, same, under, OPAQUE_VOID, LD, paths_of
from .checks_setup import prog
from .checks_results import Sink, ptr
from .taint import Taint
from .checks_main import all_atoms
from .checks_solvers import arg, leaf_atoms, number_of, content, Q

DREAM = ['cdream/%s.cpp' % k for k in ('dream', 'dream_initialize', 'restore_state', 'dream_pars', 'gen_CR', 'check_outliers', 'gelman_rubin')]
MINF = S('<-inf>')
NC, NV, NF, MAXE, NCR = (psym('p.' + k) for k in ('numChains', 'nvar', 'nfree', 'maxEvals', 'nCR'))
EL = {'d': 8, 'i': 4, 'j': 4, 'b': 1, 'PSo': 8, 'Pd': 8}
def times(*ps):
    r = num(1)
    for x in ps: r = cas.mul(r, x if isinstance(x, Poly) else num(x))
    return r
def plus(*ps):
    r = ZERO
    for x in ps: r = cas.add(r, x if isinstance(x, Poly) else num(x))
    return r
def trace_of(fname, args, srcs=DREAM, extra=None, mem=None, io=False):
    """a traced function of the sampler: vectors are plain arrays, streams and strings opaque, the generator and the model named results"""
    p = prog(*(list(srcs) + ['core/mcmc_main.cpp', 'core/model_object.cpp'])); sk = Sink(); H = {}; vecs = {}; sites = {}
    def ctor(size, filled):
        def h(fr, i, a, m):
            l = [x for x in leaves(a[0]) if isinstance(x, Ptr)]
            if len(l) != 1 or not is_num(l[0].off): return BOT, m
            v = ('vec', sites.setdefault(id(i), len(sites)))
            if isinstance(a[1], (Leaf, Node)) and any(isinstance(x, Ptr) for x in leaves(a[1])): return BOT, m
            init = N(0)
            if filled and len(a) > 2:
                q = [x for x in leaves(a[2]) if isinstance(x, Ptr)]
                init = m.d.get((q[0].obj, int(numval(q[0].off)))) if len(q) == 1 and is_num(q[0].off) else None
            vecs[v] = (a[1], init, size); sk.__dict__.setdefault('vec_at', {})[(l[0].obj, l[0].off)] = v; m = m.copy(); m.d[(l[0].obj, int(numval(l[0].off)))] = leaf(Ptr(v, ZERO)); return BOT, m
        return h
    for n in p.prog.fns:
        if not n.startswith('@_Z'): continue
        h = io_hook(sk, n) if io else None
        if h is not None: H[n] = h; continue
        q = re.match(r'@_ZNSt6vectorI(d|i|j|b|PSo|Pd)Sa.*C[12]Em(.*)$', n)
        if q: H[n] = ctor(EL[q.group(1)], dm(n).count('const&') == 2); continue
        if re.match(r'@_ZNSt6vectorIPSoSaIS0_EEixEm', n): H[n] = lambda fr, i, a, m: (leaf(Ptr('STREAMS', scale(a[1].v, Fraction(8)))) if isinstance(a[1], Leaf) else BOT, m)
        elif n.startswith('@_ZNSt6vectorIPSoSaIS0_EE') and not 'ixE' in n: H[n] = sk.h('streams:' + ('resize' if 'resize' in n else 'other'))
        elif n.startswith('@_ZNSt6vector') and ('resize' in n or 'D2Ev' in n): H[n] = OPAQUE_VOID
        elif n.startswith(('@_ZStls', '@_ZNSolsE')): H[n] = out_(sk)
        elif n.startswith(('@_ZStrs', '@_ZNSirsE')): H[n] = in_(sk)
        elif n.startswith(('@_ZSt', '@_ZNSo', '@_ZNKSo', '@_ZNSi', '@_ZNSt7__cxx11', '@_ZNSt14basic', '@_ZNKSt14basic', '@_ZNSt8ios', '@_ZNSt9basic', '@_ZNKSt9basic', '@_ZNKSt7__cxx11')) and not re.match(r'@_ZSt3(max|min)', n): H[n] = sk.h(own(n))
    for k in ('uniform', 'uniform_int', 'gaussian', 'multinomial', 'shuffle'):
        H['virt:' + k] = H['rng::GSLStream::' + k] = rng_(sk, k)
    H['virt:PrintModelParamsHorizontalString'] = H['ModelObject::PrintModelParamsHorizontalString'] = sk.h('row')
    H.update(extra(sk) if extra else {})
    f, _ = p.fields('t_dream_pars')
    t = Trace(p, p.func(fname), None, args=args, hooks=H, strings=True, mem=mem or Mem(), names={'P': {o: 'p.' + n for n, o in f.items()}}, virt=p.virt([(lambda o: o == 'R', 'rng::GSLStream', False), (lambda o: o == ('*', 'P', f['extraData']), 'ModelObject', False)]))
    sk.live(t); return p, t, sk, vecs, f
def sobj(v):
    q = [x for x in leaves(v) if isinstance(x, Ptr)]
    return q[0].obj if len(q) == 1 else None
def slot(what, obj): return (('io', what, obj), 0)
def asbool(name): return lambda *a: vcmp('==', vfn(name, *a), N(1))
def text_put(m, obj, v): m.d[slot('text', obj)] = v
def text_get(m, obj): return m.d.get(slot('text', obj), strs.EMPTY)
def io_hook(sk, n):
    """streams with what they hold: texts made from pieces, files named by their path, lines and fields by their number"""
    d = dm(n); cls = re.match(r'(?:std::__cxx11::|std::)?(basic_[io]stringstream|basic_stringstream|basic_[io]fstream|basic_fstream)<', d); meth = d.split('(')[0].split('::')[-1]
    if d.startswith('std::operator|(std::_Ios_Openmode'): return lambda fr, i, a, m: (vadd(a[0], a[1]), m)
    if re.match(r'std::operator[&~|^]=?\(std::_Ios', d): return lambda fr, i, a, m: (BOT, m)
    if cls and re.match(r'~', meth): return lambda fr, i, a, m: (BOT, m)
    if cls and 'stringstream' in cls.group(1):
        if meth == cls.group(1):
            def h(fr, i, a, m):
                o = sobj(a[0]); m = m.copy(); t = strs.get(fr, m, a[1]) if 'basic_string<' in d.split('(', 1)[1] and len(a) > 1 else strs.EMPTY
                text_put(m, o, t); m.d[slot('field', o)] = N(0); return BOT, m
            return h
        if meth == 'str' and 'str() const' in d:
            def h(fr, i, a, m):
                m = m.copy(); strs.put(fr, m, a[0], text_get(m, sobj(a[1]))); return BOT, m
            return h
        if meth == 'str':
            def h(fr, i, a, m):
                m = m.copy(); text_put(m, sobj(a[0]), strs.get(fr, m, a[1])); m.d[slot('field', sobj(a[0]))] = N(0); return BOT, m
            return h
    if cls and 'fstream' in cls.group(1) and meth in (cls.group(1), 'open'):
        kind = cls.group(1)
        def h(fr, i, a, m):
            o = sobj(a[0]); m = m.copy()
            if len(a) < 2: return BOT, m
            t = strs.get(fr, m, a[1]) if 'basic_string<' in d.split('(', 1)[1] else strs.get_chars(fr, m, a[1])
            ev = [e for e in reversed(fr.m.events) if e.kind == 'call' and e.inst is i][0]; w = Event('store', fr.fn, i, TRUE, ptr=leaf(Ptr(('io', 'opened', kind), ZERO)), val=t); fr.m.events.append(w); sk.rec.append(('open:' + kind, list(a), ev, m)); sk.__dict__.setdefault('paths', []).append((ev, w, o))
            m.d[slot('path', o)] = t; m.d[slot('line', o)] = N(0); return BOT, m
        return h
    if cls and meth == 'close': return sk.h('close')
    q = re.match(r'std::basic_ios<char, std::char_traits<char>>::(operator!|fail|bad|eof|good|operator bool)\(', d) or re.match(r'std::basic_[io]*fstream<char, std::char_traits<char>>::(is_open)\(', d)
    if q:
        w = q.group(1)
        def h(fr, i, a, m):
            o = sobj(a[0]); path = m.d.get(slot('path', o)); line = m.d.get(slot('line', o), N(0))
            if path is None: return vcmp('==', vfn('badtext', text_get(m, o)), N(1)), m
            done = asbool('eof')(path, line); bad = asbool('bad')(path)
            if w == 'eof': return done, m
            if line is N(0): return (bad if w in ('operator!', 'fail', 'bad') else bnot(bad)), m
            return (done if w in ('operator!', 'fail') else bnot(done)), m
        return h
    if d.startswith('std::basic_istream<char, std::char_traits<char>>& std::getline<'):
        def h(fr, i, a, m):
            o = sobj(a[0]); m = m.copy(); k = m.d.get(slot('line', o), N(0)); k = vadd(k, N(1)); m.d[slot('line', o)] = k
            strs.put(fr, m, a[1], vfn('line', m.d.get(slot('path', o), S('<path>')), k)); return a[0], m
        return h
    if d.startswith('std::istream::operator>>('):
        def h(fr, i, a, m):
            o = sobj(a[0]); m = m.copy(); k = m.d.get(slot('field', o), N(0)); v = vfn('field', text_get(m, o), k); m.d[slot('field', o)] = vadd(k, N(1))
            q = [x for x in leaves(a[1]) if isinstance(x, Ptr)]
            if len(q) == 1: fr.m.store(m, q[0], v); fr.m.events.append(Event('store', fr.fn, i, TRUE, ptr=a[1], val=v))
            return a[0], m
        return h
    if d.startswith('std::ostream::operator<<(') or re.match(r'std::basic_ostream<char, std::char_traits<char>>& std::operator<<', d):
        rec = sk.h('out')
        def h(fr, i, a, m):
            _, m = rec(fr, i, a, m); o = sobj(a[0])
            if o is None or slot('text', o) not in m.d: return a[0], m
            m = m.copy(); t = d.split('(', 1)[1] if d.startswith('std::ostream') else d.split('(', 1)[1].split(',', 1)[-1]
            x = strs.get(fr, m, a[1]) if 'basic_string<' in d else strs.get_chars(fr, m, a[1]) if 'char const*' in d else vfn('fmt', S('"%d"') if 'double' not in t else S('"%g"'), a[1])
            text_put(m, o, strs.cat(text_get(m, o), x)); return a[0], m
        return h
    if re.match(r'std::__cxx11::basic_string<char.*::operator\[\]\(|std::__cxx11::basic_string<char.*::(at|front)\(', d):
        def h(fr, i, a, m):
            t = strs.get(fr, m, a[0]); k = a[1] if len(a) > 1 else N(0)
            return apply(lambda x, y: leaf(Ptr(('chars', x), y)) if isinstance(x, Poly) and isinstance(y, Poly) else BOT, fresh('chr'), t, k), m
        return h
    return None
def own(n):
    d = dm(n).split('(')[0]; return 'std:' + d.split('::')[-1]
def out_(sk):
    h = sk.h('out')
    def g(fr, i, a, m):
        _, m = h(fr, i, a, m); return a[0], m
    return g
def in_(sk):
    h = sk.h('in')
    def g(fr, i, a, m):
        _, m = h(fr, i, a, m); return a[0], m
    return g
def rng_(sk, kind):
    """random numbers: a named value (one per call site) is stored where the generator is told to"""
    h = sk.h('rng:' + kind); names = sk.__dict__.setdefault('drawn', {})
    def g(fr, i, a, m):
        _, m = h(fr, i, a, m); m = m.copy() if m is not None else m
        u = names.setdefault(id(i), 'rng.%s.%d' % (kind, len(names) + 1))
        k = {'uniform': 2, 'uniform_int': 2, 'gaussian': 2}.get(kind)
        q = [x for x in leaves(a[k])] if k else []
        if len(q) == 1 and isinstance(q[0], Ptr): fr.m.store(m, q[0], S(u)); fr.m.events.append(Event('store', fr.fn, i, TRUE, ptr=leaf(q[0]), val=S(u)))
        elif kind == 'multinomial' or kind == 'shuffle':
            for x in leaves(a[4] if kind == 'multinomial' else a[1]):
                if isinstance(x, Ptr): m.clob[x.obj] = fresh('v'); m.d = {kk: v for kk, v in m.d.items() if kk[0] != x.obj}
        return BOT, m
    return g

def at3(row, i, j): return scale(plus(times(row, NC, NV), times(i, NV), j), Fraction(8))
def at2(row, i): return scale(plus(times(row, NC), i), Fraction(8))
def inits(sk): return {'dream_initialize': sk.h('init'), 'dream_restore_state': sk.h('restore', S('prev')), 'gen_CR': sk.h('gen_CR'), 'check_outliers': sk.h('check_outliers'), 'gelman_rubin': sk.h('gelman_rubin')}
def counters(e): return [k for k, K in e.loops]
def body(e): return drop_loop_conds(unver(e.pc), e)
def lit(b, pol=True): return node(b, TRUE, FALSE) if pol else node(b, FALSE, TRUE)
def given(v, *conds):
    for x in conds: v = under(v, x)
    return v
class Dream:
    """the traced sampler with its arrays identified by what they hold"""
    def __init__(s, c, io=False):
        s.p, s.t, s.sk, s.vecs, s.f = trace_of('dream', [ptr('P'), ptr('R')], extra=inits, io=io); s.r = Rule(c, s.t, 'dream'); t = s.t; s.c = c
        s.num = number_of(t)
        F = ('*', 'P', s.f['fun'])
        s.evals = [(n, e) for n, e in enumerate(t.events) if e.kind == 'call' and not e.name and len(e.args) >= 6 and isinstance(e.args[-1], Leaf) and isinstance(e.args[-1].v, Ptr) and e.args[-1].v.obj == F]
        size = scale(times(MAXE, NC, NV), Fraction(8)); st = [a for a in allocs(t) if a[1] is size]
        if len(st) != 1: raise AnalysisError('the array of chain states is not found')
        s.state = st[0][0]; s.lik = None; s.prop = None
        for n, e in s.evals:
            for l in leaves(e.args[2]):
                if isinstance(l, Ptr) and l.obj != s.state: s.prop = l.obj
        likes = {l.obj for n, e in enumerate(t.events) if e.kind == 'store' and any(unver(e.val) is unver(x.res) for _, x in s.evals) for l in leaves(e.ptr) if isinstance(l, Ptr)}
        for o, z in allocs(t):
            if o in likes: s.lik = o
        if not s.evals or s.lik is None or s.prop is None: raise AnalysisError('the evaluations of the likelihood are not found')
        s.kt = counters(s.evals[0][1])[0] if s.evals[0][1].loops else None
        s.T = plus(psym('prev'), psym(s.kt), 1); s.T1 = plus(psym('prev'), psym(s.kt))
        s.inrun = [vcmp('<', leaf(s.T), leaf(MAXE)), bnot(vcmp('<', S('prev'), N(0)))]
    def stores(s, obj):
        for n, e in enumerate(s.t.events):
            if e.kind != 'store': continue
            q = [l for l in leaves(e.ptr) if isinstance(l, Ptr)]
            if any(x.obj == obj for x in q): yield n, e, (unver(leaf(q[0].off)) if len(q) == 1 else None)
    def cond(s, e, *more): return given(body(e), *(s.inrun + list(more)))
    def state_at(s, row, i, j): return LD(s.state, at3(row, i, j))
    def lik_at(s, row, i): return LD(s.lik, at2(row, i))
    def vecs_len(s, cs):
        """how many pairs there are"""
        out = [leaf(psym('p.deltaMax'))]
        for o, (n, init, z) in s.vecs.items():
            if isinstance(n, Node): out += [leaf(l) for l in leaves(n) if isinstance(l, Poly)] + [n]
        return out
    def prop_at(s, i, j): return LD(s.prop, scale(plus(times(i, NV), j), Fraction(8)))
def allocs(t):
    for n, e in enumerate(t.events):
        if e.kind == 'call' and e.name and dm(e.name).split('(')[0] in ('@malloc', 'malloc', '@calloc', 'calloc') and isinstance(e.res, Leaf) and isinstance(e.res.v, Ptr):
            a = [x for x in e.args if isinstance(x, Leaf)]
            z = a[0].v if 'malloc' in e.name else times(a[0].v, a[1].v)
            yield e.res.v.obj, z
def is_lock0(j): return vcmp('==', LD(('*', 'P', 160), scale(j, Fraction(4))), N(0))
def moves(c):
    d = Dream(c); t, r, sk = d.t, d.r, d.sk; T, T1 = d.T, d.T1; ev_end = max(n for n, e in d.evals); LO, HI = ('*', 'P', d.f['varLo']), ('*', 'P', d.f['varHi'])
    lock0 = lambda j: vcmp('==', LD(('*', 'P', d.f['varLock']), scale(j, Fraction(4))), N(0))
    # evaluations: which point, where the result goes
    results = {}
    for n, e in d.evals:
        c.count('evaluations'); cs = counters(e)
        if not r.ob(len(cs) == 2 and cs[0] == d.kt and trip(e.loops[1][1]) is NC, 'evaluate:where', e, 'the likelihood is evaluated outside the loop over generations and chains', sample='once per chain and generation'): continue
        i = psym(cs[1]); q = [l for l in leaves(e.args[2])]
        r.ob(unver(e.args[3]) is leaf(Ptr(('*', 'P', d.f['extraData']), ZERO)) or brief(unver(e.args[3]), 60) == brief(leaf(Ptr(('*', 'P', d.f['extraData']), ZERO)), 60), 'evaluate:model', e, 'the likelihood is evaluated for %s' % brief(e.args[3], 60), sample='own model')
        off = unver(leaf(q[0].off)) if len(q) == 1 and isinstance(q[0], Ptr) else None
        kind = None
        if off is not None and q[0].obj == d.state and off is leaf(at3(T1, i, ZERO)): kind = 'old'
        elif off is not None and q[0].obj == d.prop and off is leaf(scale(times(i, NV), Fraction(8))): kind = 'new'
        r.ob(kind is not None, 'evaluate:point', e, 'the likelihood is evaluated for %s, not for the proposal or the state of the same chain' % brief(e.args[2], 100), sample='own point')
        results[id(e)] = (kind, i, e); w = [x for x in d.t.events if x.kind == 'store' and unver(x.val) is unver(e.res)]
        st = [(m, x, o) for m, x, o in d.stores(d.lik) if unver(x.val) is unver(e.res)]
        r.ob(len(st) >= 1 and all(counters(x)[:2] == cs and o is leaf(at2(T if kind == 'new' else T1, i)) and same(body(x), body(e)) for m, x, o in st), 'evaluate:result', e, 'the likelihood of a point is kept for another chain or generation', sample='result kept for its own chain')
    r.ob(any(k[0] == 'new' for k in results.values()), 'evaluate', None, 'no proposal is evaluated')
    # which proposals are evaluated
    Qi = psym('q:par'); inq = [vcmp('<', leaf(Qi), leaf(NV)), vcmp('>', leaf(NV), N(0))]
    for n, e in d.evals:
        if results.get(id(e), (None,))[0] != 'new': continue
        i = results[id(e)][1]; pc = d.cond(e)
        if is_current(d, n, e, i): c.count('proposals'); r.ob(True, 'limits', e, '', sample='nothing to move: the current state'); continue
        flags = in_limits(d, e, pc, i, Qi, lock0, LO, HI); c.count('proposals')
        if not r.ob(flags is not None, 'limits', e, 'a proposal is evaluated (and can be accepted) without all its free parameters being within their limits: when %s' % brief(pc, 160), sample='within the limits'): continue
        # the rest of what is out of range gets minus infinity
        outside = [(m, x, o) for m, x, o in d.stores(d.lik) if unver(x.val) is MINF and counters(x) == counters(e)]
        r.ob(len(outside) >= 1 and all(o is leaf(at2(T, i_of(x))) for m, x, o in outside), 'outside', e, 'a proposal outside the limits does not get a likelihood of minus infinity', sample='minus infinity outside')
        r.ob(all(given(rename(d.cond(x), x, e), flags[0]) is FALSE for m, x, o in outside), 'outside:all', e, 'a proposal within the limits gets a likelihood of minus infinity', sample='only outside the limits')
        c.count('proposals')
    # the likelihood a proposal is judged by is always set in this generation
    cover = FALSE
    for m, x, o in d.stores(d.lik):
        if m <= ev_end + 3 and len(counters(x)) == 2 and o is leaf(at2(T, i_of(x))): cover = bor(cover, rename(d.cond(x), x, d.evals[0][1]))
    r.ob(given(cover) is TRUE, 'judged', None, 'the likelihood of a proposal is not set in every case (only when %s)' % brief(cover, 120), sample='set for every chain')
    return d, results
def i_of(e): return psym(counters(e)[1]) if len(e.loops) > 1 else ZERO
def rename(v, e, to):
    a, b = counters(e), counters(to)
    return subst(v, {x: S(y) for x, y in zip(a, b) if x != y})
def is_current(d, n, e, i):
    """the proposal was just made equal to the current state"""
    pc = d.cond(e)
    for m, x, o in d.stores(d.prop):
        cs = counters(x)
        if m < n and len(cs) == 3 and cs[:2] == counters(e) and trip(x.loops[2][1]) is NV and o is leaf(scale(plus(times(i, NV), psym(cs[2])), Fraction(8))) and same(unver(x.val), d.state_at(d.T1, i, psym(cs[2]))):
            later = [y for k, y, _ in d.stores(d.prop) if m < k < n]
            if not later and given(d.cond(x), pc) is TRUE: return True
    return False
def in_limits(d, e, pc, i, q, lock0, LO, HI):
    """(condition, its literals) when the evaluation happens only for a proposal within the limits"""
    t = d.t
    for b in sorted(bvars(pc), key=str):
        per = per_element(d, b)
        if per is None: continue
        v = d.prop_at(i, q); lo, hi = LD(LO, scale(q, Fraction(8))), LD(HI, scale(q, Fraction(8)))
        bad = bor(vcmp('<', v, lo), vcmp('>', v, hi)); out, fine = per(q, i)
        ok = same(given(out, lock0(q)), bad)
        pol = True if restrict(pc, b, not fine) is FALSE else False
        if ok and pol: return lit(b, fine), [x for x in ()]
    return None
def per_element(d, b):
    """for a decision taken over all parameters: (when element q makes it fail, truth of b when all are fine)"""
    t = d.t; inf = t.m.exitinfo.get(b)
    if inf:
        k, w, exits, rets = inf
        ends = [x for x, cnd in enumerate(exits) if is_end(cnd, k)]
        if len(ends) != 1 or len(exits) < 2: return None
        end = ends[0]
        def per(q, i):
            out = FALSE
            for x, cnd in enumerate(exits):
                if x != end: out = bor(out, under(unver(subst(unver(cnd), {k: leaf(q)})), vcmp('<', leaf(q), leaf(NV))))
            return out, w == end
        return per
    if b.args[0] in ('==', '<') and isinstance(b.args[1], Poly):
        at = [a for m, k in b.args[1].terms for a, x in m]
        if any(a.kind == 'sum' for a in at): return per_sum(d, b)
        if len(at) != 1 or at[0].kind != 'mu' or at[0].args[0] != 'rec' or len(at[0].args) != 4: return None
        _, init, bod, K = at[0].args; P = b.args[1]; a = at[0]
        if trip(K) is not NV or not (isinstance(init, Leaf) and is_num(init.v)): return None
        k0 = [k for m, k in P.terms if not m]; k0 = k0[0] if k0 else Fraction(0); co = [k for m, k in P.terms if m][0]
        res = lambda x: (co * x + k0 == 0) if b.args[0] == '==' else (co * x + k0 < 0)
        i0 = numval(init.v); fine = res(i0)
        def per(q, i):
            mm = [x for x in syms(bod) if x.startswith('#m')]; uu = [x for x in syms(bod) if x.startswith('#u')]
            bo = subst(bod, {mm[0]: leaf(q)}) if mm else bod; bo = under(unver(bo), vcmp('<', leaf(q), leaf(NV))); out = FALSE
            for path, l in paths_of(bo):
                x = l if isinstance(l, Poly) else l.v
                cnd = TRUE
                for bb, pol in path: cnd = band(cnd, lit(bb, pol))
                if uu and x is psym(uu[0]): continue
                if is_num(x) and res(numval(x)) == fine and not uu: continue
                if is_num(x) and res(numval(x)) != fine or not is_num(x): out = bor(out, cnd)
            return out, fine
        return per
    return None
def per_sum(d, b):
    """number of failing (or fine) parameters compared with a constant"""
    P = b.args[1]; sums = [(m, k) for m, k in P.terms if any(a.kind == 'sum' for a, x in m)]
    if len(sums) != 1 or len(sums[0][0]) != 1: return None
    (a, x), = sums[0][0]; co = sums[0][1]
    if x != 1 or a.args[2] is not NV and (isinstance(a.args[2], Poly) or trip(a.args[2]) is not NV): return None
    rest = plus(P, scale(patom(a), -co)); per1 = ZERO; const = Fraction(0)
    for m, k in rest.terms:
        if not m: const = k
        elif patom_is(m, NV): per1 = num(k)
        else: return None
    bname, bod = a.args[0], a.args[1]; bod = leaf(bod) if isinstance(bod, Poly) else bod
    each = vadd(vmul(N(co), bod), leaf(per1)); vals = {numval(l) for l in leaves(each) if isinstance(l, Poly) and is_num(l)}
    if len(vals) != len({id(l) for l in leaves(each)}) or len(vals) != 2 or 0 not in vals: return None
    step = [v for v in vals if v][0]; op = b.args[0]
    if op == '==' and const == 0: fine = True
    elif op == '<' and step < 0 and const == 0: fine = False
    elif op == '<' and step > 0 and const < 0 and const + step >= 0: fine = True
    else: return None
    def per(q, i):
        return under(unver(bnot(vcmp('==', subst(each, {bname: leaf(q)}), N(0)))), vcmp('<', leaf(q), leaf(NV))), fine
    return per
def patom_is(m, p): return cas.Poly is not None and len(m) == 1 and m[0][1] == 1 and patom(m[0][0]) is p
def is_end(cnd, k):
    """the ordinary end of a loop over all parameters"""
    return same(unver(cnd), bnot(vcmp('<', S(k), leaf(NV)))) or same(unver(cnd), vcmp('==', S(k), leaf(NV)))

def cell_subst(d, v, obj, q, size, upto, frm, init, n, conds):
    """v with the load of element q of an array replaced by what was stored there"""
    ld = LD(obj, scale(q, Fraction(size)))
    if ld.v.terms[0][0][0][0] not in set(leaf_atoms_in(v)): return v
    x = content(d.t, obj, q, upto, frm=frm, init=init, size=size, n=n)
    if x is None: return v
    x = given(unver(x), *conds); a = ld.v.terms[0][0][0][0]
    return tmap(v, lambda y: x if y is a else None)
def leaf_atoms_in(v):
    out = []
    for b in bvars(v):
        for w in b.args[1:]:
            if isinstance(w, Poly): out += [a for m, k in w.terms for a, x in m]
    for l in leaves(v):
        if isinstance(l, Poly): out += [a for m, k in l.terms for a, x in m]
    return out
def decisions(d, results):
    t, r, c, sk = d.t, d.r, d.c, d.sk; T, T1 = d.T, d.T1; ev_end = max(n for n, e in d.evals)
    copies = [(n, e, o) for n, e, o in d.stores(d.state) if n > ev_end]; best = t.calls('gsl_stats_max_index')
    first_best = min([n for n, e in best], default=10 ** 9)
    taken = []; kept = []; likk = []
    for n, e, o in copies:
        if n > first_best: continue
        cs = counters(e)
        if not r.ob(len(cs) == 3 and cs[0] == d.kt and trip(e.loops[1][1]) is NC and trip(e.loops[2][1]) is NV and o is leaf(at3(T, psym(cs[1]), psym(cs[2]))), 'next', e, 'a state is stored in %s, not in the place of the same chain and parameter in this generation' % brief(o, 100) if o is not None else 'a state cannot be followed', sample='own place'): continue
        i, j = psym(cs[1]), psym(cs[2])
        for path, l in paths_of(given(unver(e.val), *inner(d, e))):
            x = leaf(l) if isinstance(l, Poly) else l; cnd = TRUE
            for b, pol in path: cnd = band(cnd, lit(b, pol))
            c.count('next states')
            if same(x, d.prop_at(i, j)): taken.append((n, e, i, cnd))
            elif same(x, d.state_at(T1, i, j)): kept.append((n, e, i, cnd))
            else: r.ob(False, 'next:value', e, 'the next state of a chain is %s, neither its proposal nor its present state' % brief(e.val, 100))
    if not r.ob(taken and kept, 'next:both', None, 'proposals are never %s' % ('accepted' if not taken else 'rejected'), sample='accepted and rejected'): return
    i = taken[0][2]; ck = counters(taken[0][1]); new, old = d.lik_at(T, i), d.lik_at(T1, i)
    lastu = [(e, a) for _, a, e, m in sk.of('rng:uniform') if d.num.get(id(e), 0) > ev_end and len(e.loops) == 2 and e.loops[0][0] == d.kt]
    def whole(e, upto, more=TRUE):
        v = band(d.cond(e), given(more, *d.inrun))
        for obj in {a.args[0] for a in leaf_atoms_in(v) if a.kind == 'load'}:
            if isinstance(obj, tuple) and obj[0] == 'vec' and obj in d.vecs:
                z = d.vecs[obj][2]; v = cell_subst(d, v, obj, psym(counters(e)[1]), z, upto, ev_end, S('stale'), NC, d.inrun + [vcmp('<', S(counters(e)[1]), leaf(NC))])
        return drop_loop_conds(unver(v), e)
    acc = FALSE; rej = FALSE
    for n, e, q, z in taken: acc = bor(acc, rename(whole(e, n, z), e, taken[0][1]))
    for n, e, q, z in kept: rej = bor(rej, rename(whole(e, n, z), e, taken[0][1]))
    inf = vcmp('==', new, MINF); lower = vcmp('<', new, old); c.count('decisions')
    r.ob(same(bor(acc, rej), TRUE) and band(acc, rej) is FALSE, 'decide', taken[0][1], 'some chains get no next state', sample='one or the other')
    by = None
    for e, a in lastu:
        u = S(sk.drawn[id(e.inst)]); m1 = vcmp('<', vfn('log', u), vsub(new, old)); m2 = vcmp('<', u, vfn('exp', vsub(new, old)))
        if not (same(a[1], N(1)) and same(a[3], N(0)) and same(a[4], N(1))): continue
        for m in (m1, m2, vcmp('<=', vfn('log', u), vsub(new, old)), vcmp('<=', u, vfn('exp', vsub(new, old)))):
            if accept_ok(acc, inf, lower, m): by = (e, m)
            # drawn where it is needed
    if r.ob(by is not None, 'accept', taken[0][1], 'a proposal is accepted when %s, not when it is better or log(u) is below the change in the log likelihood' % brief(acc, 300), sample='Metropolis rule'):
        e = by[0]; ce = rename(d.cond(e), e, taken[0][1]) if len(counters(e)) == 2 else FALSE
        r.ob(given(ce, bnot(inf), lower) is TRUE and counters(e)[0] == d.kt and trip(e.loops[1][1]) is NC, 'accept:fresh', e, 'the random number for the decision is not drawn for every chain', sample='own random number')
    # likelihood kept with the state
    back = FALSE
    for n, e, o in d.stores(d.lik):
        if n <= ev_end + 4 or n > first_best: continue
        cs = counters(e)
        if not r.ob(len(cs) == 2 and o is leaf(at2(T, psym(cs[1]))) and same(unver(e.val), d.lik_at(T1, psym(cs[1]))), 'likelihood', e, 'the likelihood of a chain becomes %s' % brief(e.val, 80), sample='likelihood kept with the state'): continue
        back = bor(back, rename(whole(e, n), e, taken[0][1]))
    r.ob(same(back, rej), 'likelihood:when', taken[0][1], 'the likelihood of a rejected proposal is kept with the old state (it is put back when %s)' % brief(back, 120), sample='put back when rejected')
def inner(d, e):
    """inside the loops over chains and parameters"""
    return d.inrun + [vcmp('<', S(k), leaf(x)) for k, x in zip(counters(e)[1:], (NC, NV))]
def accept_ok(f, inf, lower, m):
    """f is the Metropolis rule: never when minus infinity, always when not lower, else when m"""
    c1 = given(f, inf, lower, bnot(m)); c2 = given(f, bnot(inf), bnot(lower), m); c3 = given(f, bnot(inf), lower)
    return c1 is FALSE and c2 is TRUE and same(c3, m)
def proposals(d):
    """what a proposal is made of"""
    t, r, c, sk = d.t, d.r, d.c, d.sk; T, T1 = d.T, d.T1; first = min(n for n, e in d.evals)
    LOCK = ('*', 'P', d.f['varLock']); q = psym('q:par'); inq = [vcmp('<', leaf(q), leaf(NV)), vcmp('>', leaf(NV), N(0))]
    made = [(n, e, o) for n, e, o in d.stores(d.prop) if e.loops and e.loops[0][0] == d.kt and n < first]
    moved = []
    for n, e, o in made:
        cs = counters(e)
        if not r.ob(len(cs) == 3 and trip(e.loops[1][1]) is NC and trip(e.loops[2][1]) is NV and o is leaf(scale(plus(times(psym(cs[1]), NV), psym(cs[2])), Fraction(8))), 'propose:place', e, 'a proposal is stored in %s' % brief(o, 80) if o is not None else 'a proposal cannot be followed', sample='own place'): continue
        i, j = psym(cs[1]), psym(cs[2]); c.count('proposed values')
        if same(unver(e.val), d.state_at(T1, i, j)): continue
        moved.append((n, e, i, j))
    if not r.ob(len(moved) >= 1, 'propose', None, 'proposals never differ from the present states', sample='proposals move'): return
    for n, e, i, j in moved:
        step = vsub(unver(e.val), d.state_at(T1, i, j)); ats = [a for a in leaf_atoms_in(step) if a.kind == 'load' and a.args[0] == d.state]
        # a locked parameter never moves
        pc = drop_loop_conds(resolve_cells(d, d.cond(e), n, j, LOCK, inq), e); lk = bnot(vcmp('==', LD(LOCK, scale(j, Fraction(4))), N(0)))
        r.ob(given(pc, lk) is FALSE or band(pc, lk) is FALSE, 'propose:fixed', e, 'a fixed parameter is moved when %s' % brief(given(pc, lk), 120), sample='fixed parameters stay')
        # (1 + e) * gamma * difference + epsilon
        v = resolve_cells(d, step, n, j, LOCK, inq + [vcmp('==', LD(LOCK, scale(j, Fraction(4))), N(0))], value=True)
        v = resolve_cells(d, v, n, j, LOCK, inq + [vcmp('==', LD(LOCK, scale(j, Fraction(4))), N(0))], value=True)
        form(d, e, given(v, d.cond(e), vcmp('<', leaf(i), leaf(NC)), vcmp('<', leaf(j), leaf(NV)), bnot(vcmp('<', S(d.kt), N(0)))), i, j)
    cross(d, moved, LOCK, inq); pairs(d)
def cross(d, moved, LOCK, inq):
    """a free parameter is moved unless a random number is below one minus the crossover rate; the number of moved ones scales the step"""
    r, c, t = d.r, d.c, d.t
    for n, e, i, j in moved:
        lk = vcmp('==', LD(LOCK, scale(j, Fraction(4))), N(0)); pc = drop_loop_conds(given(resolve_cells(d, d.cond(e), n, j, LOCK, inq), lk), e)
        cnt = getattr(d, 'move_count', None)
        if cnt is None: continue
        live = vcmp('<', N(0), LD(cnt, scale(i, Fraction(4)))); move = given(pc, live, lk); keep = bnot(move); us = sorted(u for u in syms(keep) if u.startswith('rng.uniform.'))
        cr = {a for a in leaf_atoms_in(keep) if a.kind == 'load' and isinstance(a.args[0], tuple) and a.args[0][0] == 'ret'}
        ok = len(us) == 1 and len(cr) == 1; c.count('crossovers')
        if ok:
            a = list(cr)[0]; rate = vdiv(leaf(patom(a)), leaf(NCR)); below = vcmp('<', S(us[0]), vsub(N(1), rate)); off = plus(a.args[1], scale(times(psym('p.loopSteps'), i), Fraction(-4)))
            ok = same(given(keep, vcmp('<', rate, N(1))), below) and (given(keep, bnot(vcmp('<', rate, N(1)))) is FALSE or same(keep, below)) and i.terms[0][0][0][0].args[0] not in syms(off)
        r.ob(ok, 'crossover', e, 'a free parameter keeps its value when %s, not when a random number is below one minus the crossover rate of its chain' % brief(keep, 160), sample='u < 1 - CR')
        # the count
        for m, x, o in d.stores(cnt):
            w = unver(x.val); cs = counters(x)
            if len(cs) == 2: r.ob(w is leaf(NF) and o is leaf(scale(psym(cs[1]), Fraction(4))) and same(d.cond(x), TRUE), 'count:start', x, 'the count of moved parameters starts with %s' % brief(w, 60), sample='all free parameters'); continue
            if not r.ob(len(cs) == 3 and o is leaf(scale(psym(cs[1]), Fraction(4))) and same(w, vsub(LD(cnt, o.v), N(1))), 'count', x, 'the count of moved parameters becomes %s' % brief(w, 60), sample='one less'): continue
            pcx = subst(d.cond(x), {cs[1]: leaf(i), cs[2]: leaf(j)})
            r.ob(same(given(pcx, lk), keep) and given(pcx, bnot(lk)) is FALSE, 'count:when', x, 'a parameter is left out of the count when %s' % brief(pcx, 160), sample='every kept one'); d.counted = True
        r.ob(getattr(d, 'counted', False), 'count', e, 'parameters which keep their value are counted as moved', sample='kept ones are not counted')
def pairs(d):
    r, c, t, sk = d.r, d.c, d.t, d.sk; rows = getattr(d, 'rows', None); first = min(n for n, e in d.evals)
    if not r.ob(rows is not None and len(set(rows)) == 2, 'pair', None, 'the difference is not that of two chains which are drawn separately', sample='two chains'): return
    draws = {sk.drawn[id(e.inst)]: (e, a) for _, a, e, m in sk.of('rng:uniform_int')}; apart = []; own = {}; many = psym('q:pair'); ch = psym('q:chain')
    more = vcmp('<', N(2), leaf(NC))
    for obj in rows: own[obj] = content_of(d, obj, first)
    for obj in rows:
        st = [(m, x, o) for m, x, o in d.stores(obj) if m < first and len(counters(x)) >= 3]; other = [o for o in rows if o != obj][0]; mine = False; drawn = []
        for m, x, o in st:
            cs = counters(x); w = unver(x.val); cell = LD(obj, scale(psym(cs[2]), Fraction(4))); pc = given(drop(d, x), more); u = [z for z in draws if psym(z) is (w.v if isinstance(w, Leaf) else None)]; i = psym(cs[1]); c.count('pairs')
            if not r.ob(o is leaf(scale(psym(cs[2]), Fraction(4))) and cs[0] == d.kt and trip(x.loops[1][1]) is NC, 'pair:place', x, 'a chain for the difference is kept in %s' % brief(o, 60) if o is not None else 'lost', sample='own place'): continue
            if u:
                a = draws[u[0]][1]; drawn.append(u[0]); hi = unver(a[4])
                r.ob(same(a[3], N(0)) and (same(hi, leaf(plus(NC, -1))) or same(hi, leaf(NC))), 'pair:range', x, 'a chain for the difference is drawn from %s to below %s' % (brief(a[3], 40), brief(hi, 40)), sample='within the chains'); continue
            one = [z for z in drawn if same(w, vadd(S(z), N(1)))] or (['cell'] if same(w, vadd(cell, N(1))) else [])
            if one and drawn:
                z = drawn[-1]; ge = bnot(vcmp('<', S(z), leaf(i))) if one[0] != 'cell' else bnot(vcmp('<', cell, leaf(i)))
                mine = True; r.ob(same(unver(draws[z][1][4]), leaf(plus(NC, -1))) and same(pc, ge) and subst(pc, {z if one[0] != 'cell' else '?': leaf(i)}) is (TRUE if one[0] != 'cell' else subst(pc, {'?': leaf(i)})), 'pair:other', x, 'the chain itself can be used for the difference, or a chain which does not exist (moved on when %s)' % brief(pc, 100), sample='another chain')
                continue
            if wraps(w, cell):
                ov = [own[other]] if own[other] is not None else []; ov = [subst(z, {'q:pair': S(cs[2]), 'q:chain': leaf(i)}) for z in ov] + [LD(other, scale(psym(cs[2]), Fraction(4)))]
                ok = [z for z in ov if same(pc, bor(cond_eq(cell, z), vcmp('==', cell, leaf(i))))]
                r.ob(bool(ok), 'pair:apart', x, 'the other chain is moved on when %s, not when it is the first one or the chain itself' % brief(pc, 160), sample='three different chains'); mine = True; apart.append(x); continue
            r.ob(False, 'pair:value', x, 'a chain for the difference becomes %s' % brief(w, 80))
        r.ob(len(drawn) == 1, 'pair:drawn', None, 'a chain for the difference is not drawn at random', sample='drawn'); r.ob(mine, 'pair:self', st[-1][1] if st else None, 'the chain itself can be used for the difference', sample='not itself')
    r.ob(len(apart) >= 1, 'pair:two', None, 'the two chains of a pair can be the same', sample='two different chains')
def drop(d, x):
    """condition inside the loops over generations, chains and pairs"""
    v = d.cond(x); cs = counters(x)
    for k, K in x.loops[:3]:
        for b in list(bvars(v)):
            if psym(k) and k in syms(lit(b)) and trip(K) is not None: v = given(v, vcmp('<', S(k), leaf(trip(K))) if isinstance(trip(K), Poly) else vcmp('<', S(k), trip(K)))
    n = d.vecs_len(cs)
    return given(v, *[vcmp('<', S(cs[2]), z) for z in n])
def cond_eq(a, b): return vcmp('==', a, b)
def content_of(d, obj, upto):
    """the chosen chain in terms of the random number, as long as it is not moved on in a loop of its own"""
    v = None
    for m, x, o in d.stores(obj):
        cs = counters(x)
        if m >= upto or len(cs) < 3: continue
        if len(cs) > 3: return None
        w = subst(unver(x.val), {cs[1]: S('q:chain'), cs[2]: S('q:pair')}); pc = subst(drop(d, x), {cs[1]: S('q:chain'), cs[2]: S('q:pair')})
        if v is not None: w = tmap(w, lambda a: v if a.kind == 'load' and a.args[0] == obj else None); pc = tmap(pc, lambda a: v if a.kind == 'load' and a.args[0] == obj else None)
        v = w if pc is TRUE or v is None else ite(pc, w, v)
    return v
def o_sub(o, x, cs):
    return subst(o, {counters(x)[2]: S(cs[2])}) if o is not None else None
def wraps(w, cell):
    """w is (cell + 1) mod number of chains"""
    for s in (vadd(cell, N(1)),):
        m = vsub(s, vmul(leaf(NC), leaf(fn('idiv', s.v, NC))))
        if same(w, m): return True
    return False
def resolve_cells(d, v, upto, j, LOCK, conds, value=False):
    for obj in sorted({a.args[0] for a in leaf_atoms_in(v) if a.kind == 'load' and isinstance(a.args[0], tuple) and a.args[0] in d.vecs}, key=str):
        n, init, size = d.vecs[obj]
        if added_up(d, obj): continue
        ld = LD(obj, scale(j, Fraction(size)))
        if ld.v.terms[0][0][0][0] not in set(leaf_atoms_in(v)): continue
        x = content(d.t, obj, j, upto, init=init if init is not None else S('stale'), size=size, n=leaf_of(n))
        if x is None: continue
        x = given(unver(x), *(d.inrun + conds + [vcmp('<', leaf(j), leaf(NV))])); a = ld.v.terms[0][0][0][0]
        v = tmap(v, lambda y: x if y is a else None)
        if not value: v = given(v, *conds)
    return v
def added_up(d, obj):
    return [(n, e, o) for n, e, o in d.stores(obj) if o is not None and any(patom(a) is LD(obj, o.v).v for a in leaf_atoms_in(unver(e.val)) if a.kind == 'load')]
def form(d, e, v, i, j):
    """(1 + noise * u(-1, 1)) * gamma * (sum of differences of pairs) + small normal deviate"""
    r, c, sk = d.r, d.c, d.sk; npath = 0; T1 = d.T1
    us = {u for u in syms(v) if u.startswith('rng.uniform.')}; gs = {u for u in syms(v) if u.startswith('rng.gaussian.')}
    if not r.ob(len(us) == 1 and len(gs) == 1, 'step', e, 'a step is %s' % brief(v, 200), sample='one scale and one normal deviate'): return
    u, g = list(us)[0], list(gs)[0]; un = leaf(plus(num(1), times(psym('p.noise'), plus(scale(psym(u), Fraction(2)), -1))))
    for path, l in paths_of(v):
        x = leaf(l) if isinstance(l, Poly) else l; npath += 1; c.count('steps'); cnd = TRUE
        for b, pol in path: cnd = band(cnd, lit(b, pol))
        x0 = subst(x, {g: N(0), u: N(Fraction(1, 2))})
        D = [a for a in leaf_atoms(x0) if a.kind == 'load' and a.args[0] in d.vecs and d.vecs[a.args[0]][2] == 8 and added_up(d, a.args[0]) or a.kind == 'sum']; D = list(dict.fromkeys(D))
        if x0 is N(0) and not D: continue
        if not r.ob(len(D) == 1, 'step', e, 'a step is %s' % brief(x, 200), sample='a step along the differences'): return
        gamma = tmap(x0, lambda a: N(1) if a is D[0] else None); zero = tmap(x0, lambda a: N(0) if a is D[0] else None)
        r.ob(zero is N(0) and close(x, vadd(vmul(vmul(un, gamma), leaf(patom(D[0]))), S(g))), 'step', e, 'a step is %s' % brief(x, 200), sample='(1+e)*gamma*difference+epsilon')
        every5 = vcmp('==', leaf(plus(d.T, scale(fn('idiv', d.T, num(5)), Fraction(-5)))), N(0)); g1 = gamma is N(1)
        if not g1:
            n = vmul(gamma, gamma); d.moving = None; good = isinstance(n, Leaf) and len(n.v.terms) == 1 and abs(float(n.v.terms[0][1]) - 2.38 ** 2 / 2) < 1e-6
            if good:
                ats = n.v.terms[0][0]; cnt = [a for a, z in ats if a.kind == 'load' and a.args[0] in d.vecs and d.vecs[a.args[0]][2] == 4 and a.args[1] is scale(i, Fraction(4)) and z == -1]; rest = [a for a, z in ats if a not in cnt]
                lens = {l for o, (m, _, z) in d.vecs.items() if isinstance(m, Node) for l in leaves(m) if isinstance(l, Poly)} | {num(1)}
                good = len(cnt) == 1 and len(rest) <= 1 and all(z == -1 for a, z in ats) and all(patom(a) in lens for a in rest)
                if good: d.moving = cnt[0].args[0]
                for a in rest:
                    dr = [(z, y) for z, y in [(sk.drawn[id(x[2].inst)], x) for x in sk.of('rng:uniform_int')] if psym(z) is patom(a)]
                    good = good and len(dr) == 1 and same(dr[0][1][1][3], N(1)) and same(unver(dr[0][1][1][4]), leaf(plus(psym('p.deltaMax'), 1)))
            r.ob(good, 'gamma', e, 'the scale of a step is %s' % brief(gamma, 100), sample='2.38/sqrt(2 d delta)')
            if d.moving: d.move_count = d.moving
        r.ob(given(every5, cnd) is (TRUE if g1 else FALSE) or (not g1 and given(band(cnd, every5), vcmp('<', N(1), leaf(d.T))) is FALSE), 'gamma:when', e, 'the scale of a step is %s when %s' % (brief(gamma, 40), brief(cnd, 100)), sample='long steps every fifth generation')
        d.diffs = D[0]
    r.ob(npath >= 1, 'step', e, 'no step is found')
    # the differences
    D = getattr(d, 'diffs', None)
    if D is None: return
    if D.kind == 'load':
        for n, x, o in d.stores(D.args[0]):
            cs = counters(x)
            if len(cs) < 3 or cs[:1] != [d.kt]: continue
            w = unver(x.val)
            if w is N(0): continue
            own = LD(D.args[0], scale(psym(cs[2]), Fraction(8))); term = vsub(w, own); pair_term(d, x, term, psym(cs[2]), cs)
    else:
        b_, body_, K = D.args[:3]; pair_term(d, e, unver(body_), j, None, b_)
def close(a, b):
    d = vsub(a, b)
    return isinstance(d, Leaf) and isinstance(d.v, Poly) and all(abs(float(k)) < 1e-8 for m, k in d.v.terms)
def near_square(n):
    if not isinstance(n, Leaf) or len(n.v.terms) != 1: return False
    m, k = n.v.terms[0]
    return abs(float(k) - 2.38 ** 2 / 2) < 1e-6 and all(x == -1 for a, x in m) and len(m) in (1, 2)
def pair_term(d, e, term, j, cs, b=None):
    """state of one chain minus the state of another, both of the generation before"""
    r = d.r; d.c.count('differences')
    for path, l in paths_of(term):
        x = leaf(l) if isinstance(l, Poly) else l
        if x is N(0): continue
        ts = [(m, k) for m, k in x.v.terms]; ok = len(ts) == 2 and sorted(k for m, k in ts) == [-1, 1]
        for m, k in ts:
            ok = ok and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'load' and m[0][0].args[0] == d.state
            if not ok: break
            off = plus(m[0][0].args[1], scale(at3(d.T1, ZERO, j), Fraction(-1)))
            row = [a for mm, kk in off.terms for a, q in mm if a.kind == 'load']
            ok = len(row) == 1 and off is scale(times(patom(row[0]), NV), Fraction(8)) and row[0].args[0] in d.vecs and row[0].args[1] is scale(psym(cs[3] if cs and len(cs) > 3 else b), Fraction(4))
            if ok: d.__dict__.setdefault('rows', [])
            if ok and row[0].args[0] not in d.rows: d.rows.append(row[0].args[0])
        r.ob(ok, 'difference', e, 'the difference of a pair is %s' % brief(x, 160), sample='two states of the generation before')
def leaf_of(n): return n.v if isinstance(n, Leaf) and isinstance(n.v, Poly) else None
SNC, SNV = psym('STATE@16'), psym('STATE@24')
def gelman_rubin(c):
    """sqrt of (pooled variance / mean variance within chains), from the second half of the chains"""
    p, t, sk, vecs, f = trace_of('gelman_rubin', [ptr('STATE'), ptr('RV'), ptr('LOCK'), S('first'), S('last'), N(0)], extra=lambda sk: {'gsl_pow_2': lambda fr, i, a, m: (vfn('sq', a[0]), m)}); r = Rule(c, t, 'gelman_rubin')
    pos = [vcmp('>', S('last'), N(0))]; w = lambda v: given(unver(v), *pos)
    out = [(n, e) for n, e in enumerate(t.events) if e.kind == 'store' and any(isinstance(l, Ptr) and l.obj == ('*', 'RV', 0) for l in leaves(e.ptr)) and e.loops and not same(unver(e.val), N(0))]
    r.ob(len(out) >= 1, 'statistic', None, 'no convergence statistic is stored')
    for n, e in out:
        j = psym(counters(e)[-1]); c.count('convergence statistics'); v = w(e.val); q = [l for l in leaves(e.ptr)]
        unlocked = vcmp('==', LD('LOCK', scale(j, Fraction(4))), N(0))
        r.ob(len(q) == 1 and unver(leaf(q[0].off)) is leaf(scale(j, Fraction(8))) and trip(e.loops[-1][1]) is SNV and given(w(body(e)), unlocked) is TRUE, 'statistic:place', e, 'the statistic of a parameter is kept elsewhere, or not for every free parameter', sample='one for each free parameter')
        from .checks_main import all_atoms
        loads = sorted({a for l in leaves(v) + [x for b_ in bvars(v) for x in b_.args[1:]] if isinstance(l, Poly) for a in all_atoms(l) if a.kind == 'load' and not (len(a.args) > 2 and a.args[2] == 'addr')}, key=str); what = {}
        for a in loads:
            src = [(m, x) for m, x in enumerate(t.events) if m < n and x.kind == 'store' and any(isinstance(l, Ptr) and l.obj == a.args[0] for l in leaves(x.ptr)) and not same(unver(x.val), N(0))]
            if len(src) == 1: what[a] = origin(t, src[0][1], w)
        Ws = [a for a in loads if what.get(a) and what[a][0] == 'mean' and what[a][1] == 'within']; Bs = [a for a in loads if what.get(a) and what[a][0] == 'variance' and what[a][1] == 'mean']
        if not r.ob(len(Ws) == 1 and len(Bs) == 1 and len(loads) == 2, 'statistic:from', e, 'the statistic is not made from the mean variance within chains and the variance of the means', sample='variance within and between chains'): continue
        W, B = patom(Ws[0]), patom(Bs[0]); cnt = what[Ws[0]][2]
        nn = [x for x in cnt if isinstance(x, (Leaf, Node))]
        want = lambda n_: vfn('sqrt', vdiv(vadd(vadd(vmul(vdiv(vsub(n_, N(1)), n_), leaf(W)), leaf(B)), vdiv(leaf(B), leaf(SNC))), leaf(W)))
        good = given(v, vcmp('>', leaf(W), N(0))); 
        r.ob(any(power_same(good, want(n_)) for n_ in nn), 'statistic:value', e, 'the statistic is %s' % brief(good, 200), sample='sqrt(((n-1)/n W + B + B/m)/W)')
        t0 = leaf(fn('idiv', cas.add(psym('first'), psym('last')), num(2)))
        r.ob(any(same(n_, vsub(vsub(S('last'), t0), N(k))) for n_ in nn for k in (1, 0)), 'statistic:samples', e, 'the statistic is made from %s generations' % brief(nn[0] if nn else N(0), 80), sample='second half of the chains')
        r.ob(what[Ws[0]][3] is True and what[Bs[0]][3] is True, 'statistic:start', e, 'the mean or variance of a chain is not taken from its own second half', sample='own chain')
        for a in loads:
            for x in t.events:
                if x.kind == 'store' and x.loops and any(isinstance(l, Ptr) and (l.obj == a.args[0] or l.obj in feeding(t, a.args[0])) for l in leaves(x.ptr)) and not same(unver(x.val), N(0)):
                    lk = vcmp('==', LD('LOCK', scale(psym(counters(x)[-1]), Fraction(4))), N(0)); lk2 = vcmp('==', LD('LOCK', scale(psym(counters(x)[0]), Fraction(4))), N(0))
                    r.ob(given(body(x), lk) is TRUE or given(body(x), lk2) is TRUE, 'statistic:each', x, 'what the statistic is made from is only set when %s' % brief(body(x), 80), sample='for every free parameter')
def feeding(t, obj):
    out = set()
    for x in t.events:
        if x.kind == 'store' and any(isinstance(l, Ptr) and l.obj == obj for l in leaves(x.ptr)):
            for l in leaves(x.val):
                if isinstance(l, Poly):
                    from .checks_main import all_atoms
                    out |= {a.args[0] for a in all_atoms(l) if a.kind == 'load' and isinstance(a.args[0], tuple) and a.args[0][0] == 'ret'}
    return out
def power_same(a, b):
    x, y = vmul(a, a), vmul(b, b)
    return same(x, y) or same(vsub(x, y), N(0))
def origin(t, x, w):
    """what an array holds: (function, of what, sample sizes, chain data as expected)"""
    for e in t.events:
        if e.kind != 'call' or not e.name or e.res is None or w(e.res) is not w(x.val): continue
        k = dm(e.name).split('(')[0].lstrip('@')
        kind = {'gsl_stats_mean': 'mean', 'gsl_stats_variance_m': 'variance', 'gsl_stats_variance': 'variance'}.get(k)
        if kind is None: return None
        q = [l for l in leaves(w(e.args[0])) if isinstance(l, Ptr)]
        if len(q) != 1: return None
        if q[0].obj == ('*', 'STATE', 32):
            cs = counters(x); t0 = fn('idiv', cas.add(psym('first'), psym('last')), num(2))
            ok = len(cs) == 2 and same(w(e.args[1]), leaf(times(SNC, SNV))) and any(unver(leaf(q[0].off)) is leaf(scale(plus(times(t0, SNC, SNV), times(psym(a), SNV), psym(b)), Fraction(8))) for a, b in (cs, cs[::-1]))
            if kind == 'variance' and len(e.args) > 3: 
                m = origin_of_value(t, e.args[3], w); ok = ok and m is not None and m[0] == 'mean' and w(m[1].args[0]) is w(e.args[0]) and same(w(m[1].args[2]), w(e.args[2]))
            return ('within' if kind == 'variance' else 'mean', 'state', [w(e.args[2])], ok)
        src = [y for y in t.events if y.kind == 'store' and y is not x and any(isinstance(l, Ptr) and l.obj == q[0].obj for l in leaves(y.ptr)) and not same(unver(y.val), N(0))]
        ok = same(w(e.args[1]), leaf(SNV)) and same(w(e.args[2]), leaf(SNC)) and bool(x.loops) and unver(leaf(q[0].off)) is leaf(scale(psym(counters(x)[-1]), Fraction(8)))
        if len(src) != 1: return None
        o = origin(t, src[0], w)
        return (kind, o[0], o[2], o[3] and ok) if o else None
    return None
def origin_of_value(t, v, w):
    for e in t.events:
        if e.kind == 'call' and e.name and e.res is not None and 'gsl_stats_mean' in e.name and w(e.res) is w(v): return ('mean', e)
    return None
def outliers(d):
    t, r, c, sk = d.t, d.r, d.c, d.sk; T = d.T; best = t.calls('gsl_stats_max_index'); co = sk.of('check_outliers')
    later = [(n, e, o) for n, e, o in d.stores(d.state) if best and n > best[0][0]] + [(n, e, o) for n, e, o in d.stores(d.lik) if best and n > best[0][0]]
    if not best and not co: return
    if not r.ob(len(best) == 1 and len(co) == 1, 'outlier', best[1][1] if len(best) > 1 else None, 'outlying chains are not looked for once'): return
    b = best[0][1].res; a = co[0][1]; e0 = co[0][2]; c.count('outlier moves', len(later))
    r.ob(same(unver(a[0]), leaf(T)), 'outlier:when', e0, 'outlying chains are looked for up to generation %s' % brief(a[0], 40), sample='up to now')
    pc = d.cond(best[0][1]); on = bnot(vcmp('==', S('p.collapseOutliers'), N(0))); early = vcmp('<', leaf(T), leaf(times(psym('p.reenterBurnin'), MAXE)))
    r.ob(given(pc, bnot(on)) is FALSE and given(pc, bnot(early)) is FALSE, 'outlier:early', best[0][1], 'chains are moved in the whole run, so that their states are no longer a sample', sample='only early in the run')
    ml = [l for l in leaves(best[0][1].args[0]) if isinstance(l, Ptr)]
    seen = set()
    for n, e, o in later:
        cs = counters(e); i = psym(cs[1]) if len(cs) > 1 else ZERO; own = o is not None
        if any(x.obj == d.state for x in leaves(e.ptr) if isinstance(x, Ptr)):
            ok = own and len(cs) == 3 and o is leaf(at3(T, i, psym(cs[2]))) and trip(e.loops[2][1]) is NV and same(unver(e.val), LD(d.state, at3(T, b.v, psym(cs[2])))); seen.add('state')
        else: ok = own and len(cs) == 2 and o is leaf(at2(T, i)) and same(unver(e.val), LD(d.lik, at2(T, b.v))); seen.add('likelihood')
        r.ob(ok, 'outlier:move', e, 'an outlying chain gets %s, not the present state and likelihood of the best chain' % brief(e.val, 100), sample='moved to the best chain')
        pe = d.cond(e); fl = [x for x in bvars(pe) if any(at.kind == 'load' and at.args[0] in d.vecs and d.vecs[at.args[0]][2] == 1 for at in leaf_atoms_in(lit(x)))]
        r.ob(len(fl) >= 1 and any(given(pe, lit(x, v)) is FALSE for x in fl for v in (True, False)), 'outlier:which', e, 'a chain which is no outlier is moved', sample='only outliers')
    r.ob(not later or seen == {'state', 'likelihood'}, 'outlier:both', best[0][1], 'an outlying chain does not get both the state and the likelihood of the best chain', sample='state and likelihood')
def outlier_test(c):
    p, t, sk, vecs, f = trace_of('check_outliers', [S('t'), ptr('LIKA'), ptr('MV'), ptr('OV')]); r = Rule(c, t, 'check_outliers'); n2 = psym('LIKA@16')
    means = t.calls('gsl_stats_mean'); t0 = fn('idiv', psym('t'), num(2)); c.count('outlier moves')
    for n, e in means:
        q = [l for l in leaves(e.args[0]) if isinstance(l, Ptr)]
        ok = len(q) == 1 and q[0].obj == ('*', 'LIKA', 24) and e.loops and unver(leaf(q[0].off)) is leaf(scale(plus(times(t0, n2), psym(counters(e)[-1])), Fraction(8))) and same(unver(e.args[1]), leaf(n2)) and any(same(unver(e.args[2]), leaf(plus(psym('t'), scale(t0, Fraction(-1)), k))) for k in (0, 1))
        r.ob(ok, 'mean', e, 'the mean likelihood of a chain is taken from %s, %s values' % (brief(e.args[0], 80), brief(e.args[2], 40)), sample='second half of the chain')
    r.ob(len(means) == 1, 'mean', None, 'the mean likelihoods are not made', sample='mean likelihoods')
    qs = {}
    for n, e in t.calls('gsl_stats_quantile_from_sorted_data'):
        q = [l for l in leaves(e.args[0]) if isinstance(l, Ptr)]
        sorts = [m for m, x in enumerate(t.events) if x.kind == 'call' and x.name and m < n and re.match(r'@_ZSt(4sort|11stable_sort)I|@gsl_sort', x.name) and x.pc is TRUE and any(isinstance(l, Ptr) and l.obj == q[0].obj for a in x.args[:1] for l in leaves(a))] if q else []
        put = [m for m, x in enumerate(t.events) if x.kind == 'store' and m < n and any(isinstance(l, Ptr) and l.obj == q[0].obj for l in leaves(x.ptr))] if q else []
        r.ob(bool(sorts) and max(put, default=-1) < max(sorts), 'sorted', e, 'the quartiles are taken from values which are not sorted', sample='sorted')
        if isinstance(e.args[3], Leaf) and is_num(e.args[3].v): qs[float(numval(e.args[3].v))] = unver(e.res)
    if not r.ob(set(qs) == {0.25, 0.75}, 'quartiles', None, 'the quartiles are taken at %s' % sorted(qs), sample='quartiles'): return
    cut = vsub(vmul(N(3), qs[0.25]), vmul(N(2), qs[0.75])); yes = FALSE
    for n, e in enumerate(t.events):
        if e.kind == 'store' and e.loops and len(e.loops) == 1 and not any(x.kind == 'load' and False for x in ()):
            q = [l for l in leaves(e.ptr) if isinstance(l, Ptr)]
            v = unver(e.val)
            if len(q) == 1 and q[0].obj == ('*', 'OV', 0) and (v is N(1) or v is TRUE or isinstance(v, Node)):
                c.count('outlier moves'); pc = body(e); cell = [a for a in leaf_atoms_in(pc) + leaf_atoms_in(v) if a.kind == 'load' and a.args[0] == ('*', 'MV', 0)]
                if v is not N(1) and v is not TRUE: pc = band(pc, v if all(l in (True, False) for l in leaves(v)) else bnot(vcmp('==', v, N(0))))
                yes = bor(yes, pc)
                r.ob(len(set(cell)) == 1 and same(pc, vcmp('<', leaf(patom(cell[0])), cut)) and unver(leaf(q[0].off)) is leaf(scale(cell[0].args[1], Fraction(1, 8))), 'outlier', e, 'a chain is an outlier when %s' % brief(pc, 160), sample='mean likelihood below Q1 - 2 IQR')
    r.ob(yes is not FALSE, 'outlier', None, 'no chain can be an outlier', sample='outliers')
def converged(d):
    """convergence is only claimed after the burn-in, when all free parameters are below the limit"""
    t, r, c, sk = d.t, d.r, d.c, d.sk; gr = d.sk.of('gelman_rubin'); c.count('convergence statistics')
    if not r.ob(len(gr) == 1, 'converged', None, 'the convergence of the chains is not tested'): return
    e = gr[0][2]; a = gr[0][1]
    r.ob(len(a) >= 5 and same(unver(a[4]), leaf(d.T)) and brief(unver(a[2]), 40) == brief(leaf(Ptr(('*', 'P', d.f['varLock']), ZERO)), 40), 'converged:args', e, 'convergence is tested for %s' % brief(a[4], 40), sample='up to now')
    rv = [sk.vec_at[(l.obj, l.off)] for l in leaves(a[1]) if isinstance(l, Ptr) and (l.obj, l.off) in getattr(sk, 'vec_at', {})]
    q = psym('q:par'); found = 0
    for b, inf in t.m.exitinfo.items():
        if inf[0] != d.kt: continue
        for cnd in inf[2]:
            cnd = unver(cnd)
            if same(cnd, bnot(vcmp('<', leaf(d.T), leaf(MAXE)))): continue
            for y in sorted(bvars(cnd), key=lambda z: len(str(z.args[1])) if len(z.args) > 1 else 0):
                per = per_element(d, y)
                if per is None: continue
                bad, fine = per(q, None); lock0 = vcmp('==', LD(('*', 'P', d.f['varLock']), scale(q, Fraction(4))), N(0))
                if not rv: continue
                above = bnot(vcmp('<', LD(rv[0], scale(q, Fraction(8))), S('p.scaleReductionCrit')))
                if same(given(bad, lock0), above) and given(bad, bnot(lock0)) is FALSE and given(restrict(cnd, y, not fine), vcmp('>', leaf(NV), N(0))) is FALSE: found += 1; break
    r.ob(found >= 1, 'converged:all', e, 'the chains are said to have converged before the statistic of every free parameter is below the limit', sample='every free parameter below the limit')
    vals = sorted({int(numval(l)) for l in leaves(t.val) if isinstance(l, Poly) and is_num(l)}); r.ob(set(vals) <= {-10, -1, 0, 1} and 0 in vals and 1 in vals, 'converged:status', None, 'the status is one of %s' % vals, sample='status')
def S05():
    c = Check('S05', 'Value numbering of the MCMC sampler with the random numbers, the likelihood and the model replaced by named results, compared with the definition of the chain.')
    d, res = moves(c); decisions(d, res); proposals(d); outliers(d); converged(d); outlier_test(c); gelman_rubin(c)
    c.floor('evaluations', 3); c.floor('proposals', 3); c.floor('next states', 2); c.floor('steps', 2); c.floor('pairs', 2); c.floor('crossovers', 1)
    return c.finish()
def rows(c):
    """every row of a chain file holds the state of its own chain: parameters, log likelihood, burn-in, crossover probabilities, acceptance"""
    d = Dream(c, io=True); t, r, sk = d.t, d.r, d.sk; MODEL = leaf(Ptr(('*', 'P', d.f['extraData']), ZERO)); fresh_run = vcmp('==', S('p.appendFile'), N(0))
    outs_ = [(d.num[id(e)], a, e) for _, a, e, m in sk.of('out') if id(e) in d.num]; kinds = set(); paths = set()
    for _, a, e, m in sk.of('row'):
        n = d.num[id(e)]; cs = counters(e); c.count('rows'); start = not cs or cs[0] != d.kt
        if not r.ob(len(cs) == (1 if start else 2) and trip(e.loops[-1][1]) is NC, 'row:where', e, 'a row is not written once per chain', sample='once per chain'): continue
        i = psym(cs[-1]); g = ZERO if start else d.T; kinds.add(start); own_ = [vcmp('<', leaf(i), leaf(NC))]
        r.ob(brief(unver(a[1]), 60) == brief(MODEL, 60), 'row:model', e, 'a row is printed by %s, not by the own model' % brief(a[1], 60), sample='own model')
        q = [l for l in leaves(a[2]) if isinstance(l, Ptr)]; good = False
        if len(q) == 1 and q[0].obj == d.state: good = unver(leaf(q[0].off)) is leaf(at3(g, i, ZERO))
        elif len(q) == 1 and q[0].off is ZERO:
            st = [(m_, x, o) for m_, x, o in d.stores(q[0].obj) if m_ < n]
            if st:
                m_, x, o = st[-1]; cx = counters(x)
                good = cx[:-1] == cs and trip(x.loops[-1][1]) is NV and o is leaf(scale(psym(cx[-1]), Fraction(8))) and same(unver(x.val), d.state_at(g, i, psym(cx[-1]))) and (same(body(x), body(e)) or given(body(x), body(e)) is TRUE)
        r.ob(good, 'row:state', e, 'the parameters of a row are not the state of the same chain in the same generation', sample='state of the chain')
        # what is written until the end of the line
        items = []
        for k, b, x in outs_:
            if k < n or x.loops[:len(cs)] != e.loops: continue
            z = b[1]; items.append((k, b, x, z))
            if isinstance(z, Leaf) and isinstance(z.v, Ptr) and 'endl' in str(z.v.obj): break
            if isinstance(z, Leaf) and isinstance(z.v, Ptr) and const(t, z) in ('\n',): break
        W = []; sep = True
        for k, b, x, z in items:
            w = [l for l in leaves(b[0]) if isinstance(l, Ptr)]
            r.ob(len(w) == 1 and stream_of(w[0], i), 'row:file', x, 'part of the row of a chain is written to %s' % brief(b[0], 60), sample='own file')
            r.ob(same(drop_loop_conds(unver(x.pc), x), body(e)) or x.loops != e.loops, 'row:when', x, 'part of a row is not always written', sample='whole rows')
            v = const(t, z)
            if isinstance(z, Leaf) and isinstance(z.v, Ptr) and 'endl' in str(z.v.obj): W.append(('end', None, x)); continue
            if v is not None:
                if v.strip() == '': sep = True
                else: W.append(('text', v, x))
                if v.endswith('\n'): W.append(('end', None, x))
                continue
            if not sep: r.ob(False, 'row:separate', x, 'two entries of a row are written without a blank between them')
            sep = False; W.append(('value', z, x))
            # a blank after the last element of a loop
        if r.ob(len([w for w in W if w[0] == 'value']) == 5 and W[-1][0] == 'end' and not any(w[0] == 'text' for w in W), 'row:entries', e, 'a row has %s' % [w[0] if w[0] != 'text' else w[1] for w in W], sample='five entries'):
            V = [w for w in W if w[0] == 'value']
            r.ob(addr_(V[0][1]) == addr_(a[0]), 'row:first', V[0][2], 'a row does not begin with the parameters', sample='parameters first')
            r.ob(same(unver(V[1][1]), d.lik_at(g, i)), 'row:likelihood', V[1][2], 'the likelihood in a row is %s' % brief(V[1][1], 90), sample='likelihood of the state')
            flag = {numval(l) if isinstance(l, Poly) and is_num(l) else l for l in leaves(V[2][1])}
            r.ob(flag <= {0, 1, True, False}, 'row:burnin', V[2][2], 'the burn-in flag in a row is %s' % brief(V[2][1], 90), sample='flag')
            if start: r.ob(same(unver(V[2][1]), vcmp('>', S('p.burnIn'), N(0))) or same(unver(V[2][1]), ite(vcmp('>', S('p.burnIn'), N(0)), N(1), N(0))), 'row:burnin:start', V[2][2], 'the burn-in flag of the first row is %s' % brief(V[2][1], 90), sample='in burn-in')
            x = V[3][2]; k = counters(x)[-1]; p_ = [a_ for l in leaves(V[3][1]) if isinstance(l, Poly) for m_, co in l.terms for a_, ex in m_ if a_.kind == 'load']
            r.ob(len(x.loops) == len(e.loops) + 1 and trip(x.loops[-1][1]) is NCR and len(p_) == 1 and same(unver(V[3][1]), LD(p_[0].args[0], scale(psym(k), Fraction(8)))), 'row:crossover', x, 'the crossover probabilities in a row are %s' % brief(V[3][1], 90), sample='nCR probabilities')
            pcr = [v_ for v_, (n_, init, z_) in d.vecs.items() if leaf_of(n_) is NCR or (isinstance(n_, Leaf) and n_.v is NCR)]
            r.ob(len(p_) == 1 and (not pcr or p_[0].args[0] in pcr), 'row:crossover:of', x, 'the crossover probabilities in a row are from another array', sample='own probabilities')
            if not start:
                y = [a_ for l in leaves(V[4][1]) if isinstance(l, Poly) for m_, co in l.terms for a_, ex in m_ if a_.kind == 'load']
                r.ob(len(y) == 1 and same(unver(V[4][1]), LD(y[0].args[0], scale(i, Fraction(4)))) and y[0].args[0] in d.vecs, 'row:accept', V[4][2], 'the acceptance in a row is %s' % brief(V[4][1], 90), sample='acceptance of the chain')
            else: r.ob(same(V[4][1], N(1)), 'row:accept', V[4][2], 'the first row says %s' % brief(V[4][1], 60), sample='first rows are accepted')
        if start: r.ob(given(d.cond(e), bnot(fresh_run)) is FALSE and given(d.cond(e), fresh_run) is not FALSE, 'row:start', e, 'the starting points are written when %s' % brief(d.cond(e), 120), sample='starting points of a new run')
        else: deciding(c, d, e)
    r.ob(kinds == {True, False}, 'row', None, 'rows are missing for %s' % ('the starting points' if True not in kinds else 'the generations'), sample='both kinds of rows')
    # the files themselves
    for a, e, w in opened(t, sk, 'basic_ofstream'):
        c.count('chain files'); cs = counters(e)
        if not r.ob(len(cs) == 1, 'file:each', e, 'not every chain gets a file', sample='one file per chain'): continue
        bad = vcmp('==', vfn('bad', w.val), N(1)); tested = False; early = [b for b in t.m.exitinfo if t.m.exitinfo[b][0] == cs[0]]; conds = t.m.exitinfo[early[0]][2] if early else []
        for x in conds:
            x = unver(x)
            if is_end_of(x, cs[0], NC): continue
            if not r.ob(given(x, bnot(bad)) is FALSE, 'file:each', e, 'the files of some chains are not opened (the loop over them ends when %s)' % brief(x, 120), sample='one file per chain'): continue
            tested = given(x, bad, vcmp('<', S(cs[0]), leaf(NC))) is TRUE
        if not conds: r.ob(trip(e.loops[0][1]) is NC, 'file:each', e, 'not every chain gets a file', sample='one file per chain')
        c.count('failures to open'); r.ob(tested, 'file:checked', e, 'a chain file that cannot be opened is not noticed', sample='checked')
        if tested:
            vals = set()
            for path, l in paths_of(t.val):
                for b, pol in path:
                    inf = t.m.exitinfo.get(b)
                    if inf and inf[0] == cs[0] and is_end_of(unver(inf[2][inf[1]]), cs[0], NC) != pol: vals.add(l if isinstance(l, Poly) else l.v)
            r.ob(bool(vals) and all(is_num(x) and numval(x) < 0 for x in vals), 'file:status', e, 'the run goes on with status %s when a chain file cannot be opened' % sorted(str(x) for x in vals), sample='an error status')
        on = bnot(vcmp('<', S('prev'), N(0)))
        r.ob(len(a) >= 3 and same(given(unver(a[2]), fresh_run, on), N(16)) and same(given(unver(a[2]), bnot(fresh_run), on), N(17)), 'file:mode', e, 'the file of a chain is opened in mode %s: an old one is kept when, and only when, the run resumes it' % brief(a[2], 60), sample='appended when resuming')
        paths.add(brief(subst(w.val, {cs[0]: S('i')}), 400))
    return d, paths
def const(t, v):
    """the text of a constant that is written"""
    if isinstance(v, Leaf) and isinstance(v.v, Ptr) and isinstance(v.v.obj, tuple) and v.v.obj[0] == 'glob' and v.v.off is ZERO: return strs.literal(strs.lit(t, v.v).v)
    return None
def loops_of(f):
    """natural loops of a function: header -> blocks"""
    succ = {b: list(b.succs) for b in f.blocks}; pred = {b: [x for x in f.blocks if b in succ[x]] for b in f.blocks}
    def reach(a, avoid):
        seen = set(); work = [a]
        while work:
            x = work.pop()
            if x in seen or x is avoid: continue
            seen.add(x); work += succ[x]
        return seen
    out = {}
    for h in f.blocks:
        without = reach(f.blocks[0], h)
        for u in pred[h]:
            if u in without: continue
            seen = {h}; work = [u]
            while work:
                x = work.pop()
                if x in seen: continue
                seen.add(x); work += pred[x]
            out[h] = out.get(h, set()) | seen
    return out, succ
def is_interval(d, f, o):
    i = f.body().defs.get(o.v) if o.k == 'local' else None
    return i is not None and i.op == 'getelementptr' and Taint.gep(None, f, i)[0] == d.f['report_interval']
def deciding(c, d, e):
    """rows are left out only because of the reporting interval"""
    f = d.t.fn; f.body()
    if e.fn is not f or d.evals[0][1].fn is not f: return
    L, succ = loops_of(f); b0, b1 = e.inst.bb, d.evals[0][1].inst.bb
    main = [h for h in L if b0 in L[h] and b1 in L[h]]; inner_ = [h for h in L if b0 in L[h] and b1 not in L[h]]
    if not main or not inner_: return
    H = max(main, key=lambda h: len(L[h])); H2 = max(inner_, key=lambda h: len(L[h]))
    def reaches(s_):
        seen = set(); work = [s_]
        while work:
            x = work.pop()
            if x is H2: return True
            if x in seen or x is H or x not in L[H]: continue
            seen.add(x); work += succ[x]
        return False
    for b in L[H]:
        if b in L[H2]: continue
        inside = [s_ for s_ in succ[b] if s_ in L[H]]
        if len(inside) < 2 or len({reaches(s_) for s_ in inside}) < 2: continue
        c.count('conditions of a row'); todo = [o for o in b.term.ops if o.k == 'local']; seen = set(); found = other = False
        while todo:
            v = todo.pop()
            if v.v in seen: continue
            seen.add(v.v); i = f.body().defs.get(v.v)
            if i is None: continue
            if i.op == 'getelementptr':
                off, n_ = Taint.gep(None, f, i)
                if off == d.f['report_interval']: found = True
                continue
            if i.op != 'phi': todo += [o for o in i.ops if o.k == 'local']
            if i.op in ('and', 'or', 'select', 'load') and not (i.op == 'load' and any(is_interval(d, f, o) for o in i.ops)): other = True
        d.r.ob(found and not other, 'row:every', e, 'rows of a generation are left out for a reason other than the reporting interval (line %s)' % f.line(b.insts[-1])[1], sample='every reported generation')
def addr_(v):
    q = [l for l in leaves(v) if isinstance(l, Ptr)]; return (q[0].obj, q[0].off) if len(q) == 1 else None
def stream_of(p, i): return isinstance(p.obj, tuple) and p.obj[:2] == ('*', 'STREAMS') and p.obj[2] is scale(i, Fraction(8))
def opened(t, sk, kind):
    """files that are opened: arguments, call, what names them"""
    w = [x for x in t.events if x.kind == 'store' and isinstance(x.ptr, Leaf) and isinstance(x.ptr.v, Ptr) and x.ptr.v.obj == ('io', 'opened', kind)]
    for _, a, e, m in sk.of('open:' + kind):
        y = [x for x in w if x.inst is e.inst and x.loops == e.loops]
        if y: yield a, e, y[0]
def is_end_of(x, k, n): return same(x, bnot(vcmp('<', S(k), leaf(n)))) or same(x, vcmp('==', S(k), leaf(n)))
def restored(c, paths):
    """a resumed run starts from the last row that all chains have, read as it was written"""
    p, t, sk, vecs, f = trace_of('dream_restore_state', [ptr('P'), ptr('STATE'), ptr('LIKA'), ptr('CV'), ptr('BI')], io=True); r = Rule(c, t, 'restore'); SN, SZ, LN = (psym(x) for x in ('STATE@16', 'STATE@24', 'LIKA@16'))
    files = list(opened(t, sk, 'basic_ifstream')); path = None
    for a, e, w in files:
        c.count('chain files'); cs = counters(e)
        if not r.ob(len(cs) == 1, 'file:each', e, 'not every chain file is read', sample='one file per chain'): continue
        path = w.val; mine = brief(subst(w.val, {cs[0]: S('i')}), 400)
        r.ob(mine in paths, 'file:name', e, 'the file of a chain is looked for as %s but written as %s' % (mine, sorted(paths)), sample='same file name'); bad = vcmp('==', vfn('bad', w.val), N(1)); i = psym(cs[0])
        early = [b for b in t.m.exitinfo if t.m.exitinfo[b][0] == cs[0]]; conds = [unver(x) for x in (t.m.exitinfo[early[0]][2] if early else [])]; tested = False
        for x in conds:
            if is_end_of(x, cs[0], NC): continue
            r.ob(given(x, bnot(bad)) is FALSE, 'file:each', e, 'the files of some chains are not read', sample='one file per chain'); tested = tested or given(x, bad, vcmp('<', leaf(i), leaf(NC))) is TRUE
        if not conds:
            for m_, x in enumerate(t.events):
                pass
        r.ob(tested, 'file:checked', e, 'a missing chain file is not noticed', sample='checked')
    if not r.ob(len(files) == 1, 'file', None, 'the chain files are not read', sample='read'): return
    at = lambda obj: [(m_, x, q[0].off) for m_, x in enumerate(t.events) if x.kind == 'store' for q in [[l for l in leaves(x.ptr) if isinstance(l, Ptr)]] if len(q) == 1 and q[0].obj == obj]
    def fields(v):
        """(line, number, what is added) of a value read from a line"""
        v = unver(v); out = set()
        for l in leaves(v):
            if not isinstance(l, Poly): return None
            fs = [(m, k, a_) for m, k in l.terms for a_, ex in m if a_.kind == 'fn' and a_.args[0] == 'field']
            if len(fs) != 1 or len(fs[0][0]) != 1 or fs[0][1] != 1: out.add(('?', str(l)[:60], None)); continue
            a_ = fs[0][2]; rest = cas.add(l, scale(patom(a_), Fraction(-1))); out.add((a_.args[1], a_.args[2], rest))
        return out
    read = {}
    final = {}
    for key, obj in (('state', ('*', 'STATE', 32)), ('likelihood', ('*', 'LIKA', 24)), ('burnin', 'BI'), ('crossover', ('*', 'CV', 0))):
        st = at(obj); c.count('fields', len(st))
        if not r.ob(bool(st), 'field:' + key, None, 'the %s of a row is not read back' % key, sample='read back'): continue
        final[key] = st[-1]
    if len(final) < 4: return
    n, e, off = final['state']; cs = counters(e)
    if not r.ob(len(cs) == 3 and cs[0] == counters(files[0][1])[0] and trip(e.loops[2][1]) is NV, 'field:state', e, 'not all parameters of a row are read', sample='all parameters'): return
    i, j = psym(cs[0]), psym(cs[2]); base = cas.add(off, scale(plus(times(i, SZ), j), Fraction(-8)))
    row = row_number(base, times(SN, SZ)); inside = [vcmp('<', leaf(psym(cs[1])), leaf(MAXE)), vcmp('>', leaf(NV), N(0)), vcmp('<', leaf(j), leaf(NV))]
    if not r.ob(row is not None and counts_up(t, row, cs), 'field:place', e, 'the state of a row is stored at %s' % brief(leaf(off), 100), sample='place of the row and chain'): return
    fs = fields(given(unver(e.val), *inside)); OFFS = [v for v, (n_, init, z_) in vecs.items() if leaf_of(n_) is NV and init is not None and same(init, N(0))]
    call = t.calls('ModelObject::GetImageOffsets') or t.calls('GetImageOffsets')
    okoff = any(l.obj in OFFS and l.off is ZERO for _, x in call for a_ in x.args[1:2] for l in leaves(a_) if isinstance(l, Ptr)) and all(m_ < n for m_, x in call)
    def is_minus_offset(x): return okoff and any(x is cas.mul(num(-1), LD(v, scale(j, Fraction(8))).v) for v in OFFS)
    r.ob(fs is not None and len(fs) == 1 and all(is_field(k, j) and rest is not None and is_minus_offset(rest) for _, k, rest in fs), 'field:state:value', e, 'a restored parameter is %s, not field j of the row less the offset of its image section' % brief(e.val, 200), sample='field less offset')
    lines = {x[0] for x in fs or ()}
    for key, k0 in (('likelihood', NV), ('burnin', plus(NV, 1)), ('crossover', None)):
        m_, x, o = final[key]; cx = counters(x)
        if key == 'crossover':
            if not r.ob(len(cx) == 3 and trip(x.loops[2][1]) is NCR and o is scale(psym(cx[2]), Fraction(8)), 'field:crossover:place', x, 'the crossover probabilities are not all read', sample='nCR probabilities'): continue
            k0 = plus(NV, 2, psym(cx[2]))
        elif not r.ob(len(cx) == 2, 'field:%s:place' % key, x, 'the %s is not read once per row' % key, sample='once per row'): continue
        ren = {cx[0]: leaf(i), cx[1]: S(cs[1])}
        g = fields(subst(given(unver(x.val), vcmp('<', S(cx[1]), leaf(MAXE)), vcmp('>', leaf(NV), N(0))), ren)); k0 = subst(leaf(k0), ren).v
        r.ob(g is not None and len(g) == 1 and all(is_field(k, k0) and rest is ZERO for _, k, rest in g), 'field:%s:value' % key, x, 'the restored %s is field %s of a row, not field %s' % (key, sorted(str(y[1])[:60] for y in g or ()), k0), sample='own field')
        r.ob({y[0] for y in g or ()} == lines, 'field:%s:line' % key, x, 'the %s is read from another line than the parameters' % key, sample='same line')
        if key == 'likelihood': r.ob(subst(leaf(o), ren) is leaf(cas.add(scale(times(row, LN), Fraction(8)), scale(i, Fraction(8)))), 'field:likelihood:place', x, 'the likelihood of a row is stored at %s' % brief(leaf(o), 80), sample='place of the row and chain')
    # only data lines are read, no more than there is room for
    c.count('data lines')
    def blank_(z): return re.search(r'str:(size|length)\(|""', z) is not None
    def data(conds): return any(blank_(brief(lit(bb), 3000)) for x in conds for bb in bvars(unver(x)))
    inner_ = [v for v in t.m.exitinfo.values() if data(v[2])]
    todo = [unver(x) for v in inner_ for x in v[2]] + [body(e)]
    texts = [(bb, brief(lit(bb), 6000)) for x in todo for bb in bvars(x)]
    has = lambda s_: any(s_ in z for _, z in texts)
    r.ob(any(blank_(z) for _, z in texts), 'lines:empty', e, 'empty lines are taken for rows', sample='empty lines are skipped')
    r.ob(any('chars.' in z and '/35*' in z or 'chars.' in z and '35 -' in z or '-35' in z for _, z in texts), 'lines:comment', e, 'comment lines are taken for rows', sample='comment lines are skipped')
    r.ob(any('p.maxEvals' in z for _, z in texts), 'lines:room', e, 'more rows are read than there is room for', sample='no more than there is room for')
    # where the run goes on
    val = given(t.val, vcmp('==', S('p.appendFile'), N(0))); r.ob(val is N(0), 'start:new', None, 'a new run starts after row %s' % brief(val, 80), sample='a new run starts at row 0')
    k0 = counters(files[0][1])[0]; early = [b_ for b_ in t.m.exitinfo if t.m.exitinfo[b_][0] == k0]; badv = set(); goodv = set()
    for pth, l in paths_of(given(t.val, bnot(vcmp('==', S('p.appendFile'), N(0))))):
        l = l if isinstance(l, Poly) else l.v; st = None
        for b_, pol in pth:
            inf = t.m.exitinfo.get(b_)
            if inf and inf[0] == k0: st = is_end_of(unver(inf[2][inf[1]]), k0, NC) == pol
        (badv if st is False else goodv if st is True else set()).add(l)
    r.ob(bool(badv) and all(is_num(x) and numval(x) < 0 for x in badv), 'start:missing', None, 'when a chain file is missing the run starts after row %s' % sorted(str(x)[:60] for x in badv), sample='negative when a file is missing')
    ok = bool(goodv)
    for x in goodv:
        a_ = strs.atom1(x); ok = ok and a_ is not None and a_.kind == 'mu' and a_.args[0] == 'rec' and smallest(a_)
    r.ob(ok, 'start:common', None, 'a resumed run goes on from row %s, not from the last one that all chains have' % sorted(str(x)[:160] for x in goodv), sample='last row common to all chains')
def row_number(base, size):
    """base = 8 * row * size"""
    r = ZERO; sz = sorted(str(a) for m, k in size.terms for a, x in m)
    for m, k in base.terms:
        names = [str(a) for a, x in m]; rest = [(a, x) for a, x in m if str(a) not in sz]
        if any(n not in names for n in sz) or k % 8: return None
        t_ = num(k / 8)
        for a, x in rest: t_ = cas.mul(t_, patom(a, x)) if x == 1 else t_
        r = cas.add(r, t_)
    return r
def counts_up(t, row, cs):
    """0, 1, 2 ... for the rows of one file"""
    if row is psym(cs[1]): return True
    a = strs.atom1(row)
    if a is None or a.kind != 'mu' or a.args[0] != 'rec' or a.args[1] is not N(0): return False
    u = {x for x in syms(a.args[2]) if x.startswith('#u')}
    return all(any(cas.add(l if isinstance(l, Poly) else l.v, scale(psym(x), Fraction(-1))) in (ZERO, num(1)) for x in u) for l in leaves(a.args[2]))
def is_field(k, want):
    k = k.v if isinstance(k, Leaf) else k
    return k is want
def smallest(a):
    """a running minimum, from maxEvals, of the number of rows less one"""
    init, bod = a.args[1], a.args[2]
    if (init.v if isinstance(init, Leaf) else init) is not MAXE: return False
    for b in sorted(bvars(bod), key=str):
        if b.args[0] == '==' and any(a_.kind == 'fn' and a_.args[0] == 'bad' for w in b.args[1:] if isinstance(w, Poly) for m, k in w.terms for a_, x in m): bod = restrict(bod, b, not b_one(b))
    for x in sorted(syms(bod)):
        if x.startswith('#m'): bod = given(bod, vcmp('<', S(x), leaf(NC)))
    us = sorted(x for x in syms(bod) if x.startswith('#u'))
    if not us: return False
    u = S(us[-1]) if len(us) == 1 else None
    cand = [S(x) for x in us] if u is None else [u]
    for u in cand:
        good = True; seen = 0
        def go(v, conds):
            nonlocal good, seen
            other = [b for b in bvars(v) if us_of(u) not in syms_of(b)]
            if other:
                b = sorted(other, key=str)[0]; go(restrict(v, b, True), conds); go(restrict(v, b, False), conds); return
            w = [l if isinstance(l, Poly) else l.v for l in leaves(v)]; w = [x for x in w if x is not u.v]
            if len(w) != 1: good = False; return
            seen += 1; x = leaf(w[0]); k0 = [k for m, k in w[0].terms if not m]
            good = good and same(v, ite(vcmp('<', x, u), x, u)) and (k0[0] if k0 else 0) == -1 and all(len(m) == 1 and m[0][0].kind in ('mu', 'trip', 'sym', 'fn') for m, k in w[0].terms if m)
        go(bod, [])
        if good and seen: return True
    return False
def b_one(b): return restrict(lit(b), b, True) is TRUE
def us_of(u): return sorted(syms(u))[0]
def syms_of(b): return syms(lit(b))
def started(c):
    """the starting points lie within the limits, each with the likelihood of its own chain"""
    p, t, sk, vecs, f = trace_of('dream_initialize', [ptr('P'), ptr('R'), ptr('STATE'), ptr('LIK')]); r = Rule(c, t, 'initialize'); ST, LK = ('*', 'STATE', 24), ('*', 'LIK', 16); NY = psym('STATE@16')
    LO, HI, LOCK = (('*', 'P', f[k]) for k in ('varLo', 'varHi', 'varLock')); al = [(n, e) for n, e in enumerate(t.events)]; first = True; moved = []
    for n, e in al:
        if e.kind != 'store': continue
        q = [l for l in leaves(e.ptr) if isinstance(l, Ptr)]
        if not any(l.obj == ST for l in q): continue
        cs = counters(e); c.count('starting values'); js = [k for k, K in e.loops if trip(K) is NV]
        if not r.ob(len(q) == 1 and len(js) == 1, 'place', e, 'starting values are not set for every parameter', sample='every parameter'): continue
        j = psym(js[0]); ii = [k for k in cs if k != js[0] and q[0].off is scale(plus(times(psym(k), NY), j), Fraction(8))]
        if not r.ob(bool(ii), 'place', e, 'a starting value is stored at %s' % brief(leaf(q[0].off), 80), sample='own place'): continue
        i = psym(ii[0]); lo, hi = LD(LO, scale(j, Fraction(8))), LD(HI, scale(j, Fraction(8))); moved.append((n, e, ii[0]))
        lock0 = vcmp('==', LD(LOCK, scale(j, Fraction(4))), N(0)); fine = [vcmp('<', leaf(j), leaf(NV)), vcmp('<', leaf(i), leaf(NC))]
        v = given(unver(e.val), *fine); ok = True; vals = set()
        for path, l in paths_of(given(v, lock0)):
            l = l if isinstance(l, Poly) else l.v
            if l is lo.v or l is hi.v: continue
            # the value itself: only when it is neither below nor above
            cnd = TRUE
            for b, pol in path: cnd = band(cnd, lit(b, pol))
            x = leaf(l); ok = ok and given(vcmp('<', x, lo), cnd) is FALSE and given(vcmp('>', x, hi), cnd) is FALSE; vals.add(l)
        r.ob(ok, 'limits', e, 'a starting value can be outside the limits: %s' % brief(v, 200), sample='within the limits')
        r.ob(len(vals) >= 1 and all(any(s_.startswith('rng.uniform') for s_ in syms(leaf(x))) for x in vals), 'random', e, 'starting values are not random: %s' % brief(v, 160), sample='random')
        for x in vals:
            us = [s_ for s_ in syms(leaf(x)) if s_.startswith('rng.uniform')]
            # a point of the range: linear in the random number, from the lower limit on
            if len(us) == 1:
                y = leaf(x); a0 = subst(y, {us[0]: N(0)}); a1 = subst(y, {us[0]: N(1)}); step = vsub(a1, a0); L = [s_ for s_ in syms(step)]
                cell = [a_ for m, k in x.terms for a_, ex in m if a_.kind == 'load' and a_.args[0] not in (LO, HI, LOCK)]
                if cell:
                    z = tmap(a0, lambda a_: N(0) if a_ is cell[0] else None); o = tmap(a0, lambda a_: leaf(NC) if a_ is cell[0] else None)
                    r.ob(same(z, lo) and same(vmul(step, leaf(NC)), vsub(hi, lo)) and same(o, hi), 'random:range', e, 'a starting value is %s, not a point of one of numChains equal parts of the range' % brief(leaf(x), 160), sample='equal parts of the range')
                else: r.ob(same(a0, lo) and same(step, vsub(hi, lo)), 'random:range', e, 'a starting value is %s, not a point of the range' % brief(leaf(x), 160), sample='a point of the range')
        w = given(v, bnot(lock0)); r.ob(all((l if isinstance(l, Poly) else l.v) in (lo.v, hi.v) for _, l in paths_of(w)) and (w is lo or given(w, vcmp('<=', lo, hi)) is lo or same(w, lo) or in_order(w, lo, hi)), 'fixed', e, 'a fixed parameter starts at %s' % brief(w, 100), sample='fixed parameters at their value')
    F = ('*', 'P', f['fun']); evs = [(n, e) for n, e in al if e.kind == 'call' and not e.name and len(e.args) >= 6 and isinstance(e.args[-1], Leaf) and isinstance(e.args[-1].v, Ptr) and e.args[-1].v.obj == F]
    r.ob(bool(evs), 'evaluate', None, 'the likelihood of the starting points is not computed', sample='computed')
    for n, e in evs:
        c.count('evaluations'); q = [l for l in leaves(e.args[2]) if isinstance(l, Ptr)]; mine = [k for k in counters(e) if len(q) == 1 and q[0].obj == ST and q[0].off is scale(times(psym(k), NY), Fraction(8))]
        if not r.ob(bool(mine), 'evaluate:point', e, 'the likelihood is computed for %s' % brief(e.args[2], 80), sample='own starting point'): continue
        st = [x for x in t.events if x.kind == 'store' and unver(x.val) is unver(e.res)]
        r.ob(bool(st) and all(len(z) == 1 and z[0].obj == LK and z[0].off is scale(psym(mine[0]), Fraction(8)) for x in st for z in [[l for l in leaves(x.ptr) if isinstance(l, Ptr)]]), 'evaluate:result', e, 'the likelihood of a starting point is kept for another chain', sample='kept for its own chain')
        r.ob(brief(unver(e.args[3]), 60) == brief(leaf(Ptr(('*', 'P', f['extraData']), ZERO)), 60), 'evaluate:model', e, 'the likelihood is computed by another model', sample='own model')
    c.count('starting points', len(moved))
    # drawn again points are evaluated again
    for n, e, k in moved:
        later = [x for m, x in evs if m > n and any(k2 == k for k2 in counters(x)) or m > n and trip(x.loops[0][1]) is NC]
        r.ob(bool(later), 'evaluate:after', e, 'a starting point is set after its likelihood was computed', sample='computed afterwards')
def in_order(w, lo, hi):
    """lo itself, but for comparisons of lo with itself and with hi"""
    return {l if isinstance(l, Poly) else l.v for _, l in paths_of(given(w, bnot(vcmp('<', hi, lo))))} == {lo.v}
def set_up(c):
    """what the sampler works with is what it was given"""
    p, t, sk, vecs, f = trace_of('SetupDreamParams', [ptr('P'), S('n:n'), ptr('INIT'), ptr('NAME'), ptr('LOCKS'), ptr('LO'), ptr('HI')]); r = Rule(c, t, 'SetupDreamParams'); n_ = psym('n:n'); j = psym('q:par'); arrays = {}
    for n, e in enumerate(t.events):
        if e.kind == 'store':
            q = [l for l in leaves(e.ptr) if isinstance(l, Ptr)]
            if len(q) == 1 and q[0].obj == 'P' and is_num(q[0].off): arrays[int(numval(q[0].off))] = (e, unver(e.val))
    sizes_ = dict(allocs(t))
    for name, src, size in (('varInit', 'INIT', 8), ('varLock', 'LOCKS', 4), ('varLo', 'LO', 8), ('varHi', 'HI', 8)):
        c.count('arrays'); e, v = arrays.get(f[name], (None, None))
        if not r.ob(e is not None and isinstance(v, Leaf) and isinstance(v.v, Ptr) and v.v.off is ZERO and v.v.obj in sizes_, 'array:' + name, e, '%s is not set to an own array' % name, sample='own array'): continue
        o = v.v.obj; r.ob(sizes_[o] is scale(n_, Fraction(size)), 'array:size', e, '%s has %s bytes' % (name, sizes_[o]), sample='room for n values')
        cp = [x for x in t.events if x.kind == 'call' and x.name and ('memcpy' in x.name or 'memmove' in x.name) and any(isinstance(l, Ptr) and l.obj == o for l in leaves(x.args[0]))]
        if cp:
            x = cp[-1]; r.ob(unver(x.args[1]) is leaf(Ptr(src, ZERO)) and unver(x.args[2]) is leaf(scale(n_, Fraction(size))) and len(cp) == 1, 'array:copy', x, '%s is a copy of %s bytes of %s' % (name, brief(x.args[2], 40), brief(x.args[1], 40)), sample='copied'); continue
        st = [x for x in t.events if x.kind == 'store' and any(isinstance(l, Ptr) and l.obj == o for l in leaves(x.ptr))]
        w = content(t, o, j, init=S('unset'), size=size, n=n_); w = None if w is None else given(unver(w), vcmp('<', leaf(j), leaf(n_)))
        r.ob(w is not None and same(w, LD(src, scale(j, Fraction(size)))), 'array:copy', st[-1] if st else e, '%s is %s' % (name, brief(w, 80) if w is not None else '?'), sample='copied')
    e, v = arrays.get(f['nvar'], (None, None)); r.ob(e is not None and v is leaf(n_), 'nvar', e, 'the number of parameters is %s' % (brief(v, 60) if v is not None else 'not set'), sample='n')
    nf = None
    for x in reversed(t.events):
        if x.kind == 'store' and any(isinstance(l, Ptr) and l.obj == 'P' and is_num(l.off) and numval(l.off) == f['nfree'] for l in leaves(x.ptr)): nf = x; break
    want = LD('LOCKS', scale(psym('#b'), Fraction(4))); full = None
    if nf is not None: full = given(unver(nf.val), vcmp('>', leaf(n_), N(0)))
    good = False
    if nf is not None and nf.loops:
        # counted down (or up) parameter by parameter
        k = psym(counters(nf)[0]); free0 = vcmp('==', LD('LOCKS', scale(k, Fraction(4))), N(0)); before = None
        good = trip(nf.loops[0][1]) is n_ and same(body(nf), bnot(free0)) and any(a_.kind == 'sum' for l in leaves(full) if isinstance(l, Poly) for m, kk in l.terms for a_, ex in m) and counted(full, n_, k, -1, True)
        good = good or trip(nf.loops[0][1]) is n_ and same(body(nf), free0) and counted(full, n_, k, 1, False)
    elif full is not None: good = free_total(full, n_)
    r.ob(good, 'nfree', nf, 'the number of free parameters is %s' % (brief(full, 120) if full is not None else 'not set'), sample='n less the fixed ones'); c.count('arrays')
def counted(v, n_, k, step, down):
    for l in leaves(v):
        if not isinstance(l, Poly): return False
        sums = [(m, kk, a) for m, kk in l.terms for a, ex in m if a.kind == 'sum']
        if len(sums) != 1 or sums[0][1] != 1 or len(sums[0][0]) != 1: return False
        a = sums[0][2]; rest = cas.add(l, scale(patom(a), Fraction(-1))); bod = leaf(a.args[1]) if isinstance(a.args[1], Poly) else a.args[1]
        if rest is not plus(n_, -1) and down or rest is not num(1) and not down: return False
        K = a.args[2] if isinstance(a.args[2], Poly) else trip(a.args[2]) if not isinstance(a.args[2], Leaf) else a.args[2].v
        if K is not k: return False
        free0 = vcmp('==', LD('LOCKS', scale(psym(a.args[0]), Fraction(4))), N(0))
        if not same(unver(bod), ite(free0, N(0), N(-1)) if down else ite(free0, N(1), N(0))): return False
    return True
def free_total(v, n_):
    for l in leaves(v):
        if not isinstance(l, Poly): return False
        sums = [(m, kk, a) for m, kk in l.terms for a, ex in m if a.kind == 'sum']
        if len(sums) != 1 or len(sums[0][0]) != 1: return False
        a = sums[0][2]; co = sums[0][1]; rest = cas.add(l, scale(patom(a), -co)); bod = leaf(a.args[1]) if isinstance(a.args[1], Poly) else a.args[1]
        free0 = vcmp('==', LD('LOCKS', scale(psym(a.args[0]), Fraction(4))), N(0)); bod = vmul(N(co), unver(bod))
        if not (rest is n_ and same(bod, ite(free0, N(0), N(-1))) or rest is ZERO and same(bod, ite(free0, N(1), N(0)))): return False
    return True
def generator(c):
    """the random numbers are what the sampler asks for"""
    p = prog(*(list(DREAM) + ['core/mcmc_main.cpp', 'core/model_object.cpp'])); H = {}
    for k in ('gsl_rng_uniform', 'gsl_rng_uniform_int', 'gsl_ran_gaussian'): H[k] = (lambda k: lambda fr, i, a, m: (vfn(k, *a[1:]) if len(a) > 1 else S(k), m))(k)
    A, B = S('a'), S('b')
    want = {'uniform': (vadd(A, vmul(vsub(B, A), S('gsl_rng_uniform'))), 8), 'uniform_int': (vadd(A, vfn('gsl_rng_uniform_int', vsub(B, A))), 4), 'gaussian': (vadd(vfn('gsl_ran_gaussian', B), A), 8)}
    for fn_ in ('uniform', 'uniform_int', 'gaussian', 'multinomial', 'shuffle'):
        for n in sorted(p.prog.fns):
            if not n.startswith('@_Z') or not dm(n).startswith('rng::GSLStream::%s(' % fn_): continue
            f = p.prog.fns[n]; f = f[0] if isinstance(f, list) else f; c.count('generator functions')
            args = {'shuffle': [ptr('G'), ptr('X'), S('n')], 'multinomial': [ptr('G'), S('k'), S('n'), ptr('PP'), ptr('R')]}.get(fn_, [ptr('G'), S('n'), ptr('R'), A, B])
            t = Trace(p, f, None, args=args, hooks=H); r = Rule(c, t, 'GSLStream::' + fn_)
            if fn_ in want:
                v, size = want[fn_]; st = [x for x in t.events if x.kind == 'store' and any(isinstance(l, Ptr) and l.obj == 'R' for l in leaves(x.ptr))]
                r.ob(len(st) == 1 and same(unver(st[0].val), v), 'value', st[0] if st else None, 'the numbers are %s, not %s' % (brief(st[0].val, 80) if st else '?', brief(v, 80)), sample='from the range asked for')
                if st:
                    off = [l.off for l in leaves(st[0].ptr)]; k = counters(st[0])
                    r.ob(len(off) == 1 and (off[0] is ZERO and (fn_ == 'gaussian' or not k) and fn_ == 'gaussian' or len(k) == 1 and trip(st[0].loops[0][1]) is psym('n') and off[0] is scale(psym(k[0]), Fraction(size))), 'count', st[0], 'not all numbers asked for are set', sample='as many as asked for')
            elif fn_ == 'multinomial':
                e = [x for x in t.events if x.kind == 'call' and x.name and 'gsl_ran_multinomial' in x.name]
                r.ob(len(e) == 1 and [brief(unver(x), 40) for x in e[0].args[1:]] == [brief(x, 40) for x in (S('k'), S('n'), ptr('PP'), ptr('R'))], 'args', e[0] if e else None, 'the multinomial draw is made with other arguments', sample='arguments passed on')
            else:
                e = [x for x in t.events if x.kind == 'call' and x.name and 'gsl_ran_shuffle' in x.name]; size = 8 if 'EPdm' in n else 4
                r.ob(len(e) == 1 and [brief(unver(x), 40) for x in e[0].args[1:]] == [brief(x, 40) for x in (ptr('X'), S('n'), N(size))], 'args', e[0] if e else None, 'the elements are shuffled with other arguments', sample='arguments passed on')
    p, t, sk, vecs, f = trace_of('gen_CR', [ptr('R'), ptr('PV'), ptr('CRM'), ptr('LV')]); r = Rule(c, t, 'gen_CR'); CR = ('*', 'CRM', 24); L = ('*', 'LV', 0); size = times(psym('CRM@8'), psym('CRM@16'))
    st = [(n, x) for n, x in enumerate(t.events) if x.kind == 'store' and any(isinstance(l, Ptr) and l.obj == CR for l in leaves(x.ptr))]; mu_ = sk.of('rng:multinomial'); sh = sk.of('rng:shuffle'); c.count('crossover choices', len(st))
    num_ = number_of(t)
    if r.ob(len(st) == 1 and len(mu_) == 1 and len(sh) == 1, 'choice', None, 'the crossover values are not drawn once and shuffled', sample='drawn and shuffled'):
        n, x = st[0]; a = mu_[0][1]; b = sh[0][1]; nm, ns = num_.get(id(mu_[0][2]), -1), num_.get(id(sh[0][2]), -1); cs = counters(x)
        at0 = lambda v, o: [(l.obj, l.off) for l in leaves(v) if isinstance(l, Ptr)] == [(o, ZERO)]
        r.ob(0 <= nm < n < ns, 'choice:order', x, 'the crossover values are not drawn, set and then shuffled', sample='in this order')
        r.ob(len(a) >= 5 and same(unver(a[2]), leaf(size)) and at0(a[3], ('*', 'PV', 0)) and at0(a[4], L), 'choice:draw', mu_[0][2], 'the numbers of crossover values are drawn for %s' % brief(a[2], 60), sample='one per chain and step')
        r.ob(at0(b[1], CR) and same(unver(b[2]), leaf(size)), 'choice:shuffle', sh[0][2], 'only %s of the crossover values are shuffled' % brief(b[2], 60), sample='all of them')
        q = [l for l in leaves(x.ptr) if isinstance(l, Ptr)]
        r.ob(len(cs) == 2 and same(unver(x.val), vadd(S(cs[0]), N(1))), 'choice:value', x, 'the crossover values of class m are set to %s' % brief(x.val, 60), sample='m + 1')
        if len(cs) == 2:
            k1 = trip(x.loops[1][1]); ld = LD(L, scale(psym(cs[0]), Fraction(4))).v; m_ = given(body(x), *[])
            r.ob(k1 is not None and unver(leaf(k1)).v in (ld,) or nonneg_trip(x.loops[1][1], ld), 'choice:times', x, 'a crossover value is not given as often as it was drawn', sample='as often as drawn')
            off = unver(leaf(q[0].off)).v; rest = cas.add(off, scale(psym(cs[1]), Fraction(-4)))
            r.ob(rest is ZERO or any(a_.kind == 'sum' for m2, kk in rest.terms for a_, ex in m2), 'choice:place', x, 'crossover values overwrite each other', sample='one after the other')
def nonneg_trip(K, ld):
    """a loop of as many turns as the (unsigned) number says"""
    try: v = unver(leaf(trip(K))) if trip(K) is not None else None
    except Exception: v = None
    if v is not None: return any(a is ld.terms[0][0][0][0] for a in leaf_atoms_in(v))
    return ld.terms[0][0][0][0] in set(all_atoms_(K))
def all_atoms_(K):
    try: return [a for a in all_atoms(K if not isinstance(K, Poly) else leaf(K))]
    except Exception: return []
def S06():
    c = Check('S06', 'Value numbering of the writing and reading of the MCMC chain files, of the starting points and of the set-up, with texts followed through the streams, compared with the documented format and with each other.')
    d, paths = rows(c); restored(c, paths); started(c); set_up(c); generator(c)
    c.floor('rows', 2); c.floor('chain files', 2); c.floor('fields', 4); c.floor('starting values', 2); c.floor('evaluations', 2); c.floor('arrays', 4); c.floor('generator functions', 5); c.floor('crossover choices', 1)
    return c.finish()
TABLE = {'S05': S05, 'S06': S06}

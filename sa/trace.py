"""Event traces of whole methods: every store, call and branch with its address/value term, path condition and loop context."""
import re
from . import build, ir, gsa, cas
from .build import AnalysisError, dm
from .cas import *
from .gsa import Machine, Mem
from .report import loc

class Prog2:
    """a program plus per-class field tables"""
    def __init__(s, srcs, extra=(), passes=build.PASSES):
        mods, failed = build.compile_all(sorted(set(srcs)), passes=passes, extra=extra, allow_fail=True)
        if failed: raise AnalysisError('cannot compile %s' % failed)
        s.prog = build.Program(mods)
        s.mods = mods
        s._f = {}
    def fields(s, cls):
        if cls not in s._f:
            r = None
            for m in s.mods.values():
                r = m.all_fields(cls)
                if r: break
            if not r: raise AnalysisError('class %s not found' % cls)
            s._f[cls] = {v[0]: o for o, v in r.items()}, {o: v[0] for o, v in r.items()}
        return s._f[cls]
    def off(s, cls, name):
        f = s.fields(cls)[0]
        if name not in f: raise AnalysisError('%s has no data member %s' % (cls, name))
        return f[name]
    def method(s, cls, meth, nargs=None):
        fs = [f for f in s.prog.find(cls, meth) if nargs is None or len(f.params) == nargs + 1]
        if not fs: raise AnalysisError('%s::%s not found' % (cls, meth))
        return fs[0]
    def func(s, name, nargs=None):
        fs = [f for n, f in s.prog.fns.items() if f.lines is not None and dm(n).split('(')[0] == name and (nargs is None or len(f.params) == nargs)]
        if not fs: raise AnalysisError('function %s not found' % name)
        return fs[0]
    def virt(s, recv):
        """resolver of virtual calls; recv: list of (predicate on object, class, exact?)"""
        def f(m, v, args, i):
            if not isinstance(v, Leaf) or not isinstance(v.v, Ptr): return None
            q = v.v
            # function pointer = load(vptr + slot); vptr = load(object + 0)
            if not (isinstance(q.obj, tuple) and len(q.obj) >= 3 and q.obj[0] == '*' and q.off is ZERO): return None
            vp, slot = q.obj[1], q.obj[2]
            if isinstance(slot, Poly): slot = int(numval(slot)) if is_num(slot) else None
            if slot is None or slot % 8: return None
            if not (isinstance(vp, tuple) and vp[0] == '*'): return None
            for pred, cls, exact in recv:
                if not pred(vp[1]): continue
                vt = s.prog.find_vtable(cls)
                if not vt or 2 + slot // 8 >= len(vt): continue
                n = vt[2 + slot // 8]
                if not n: continue
                if exact: return n
                nm = dm(n).split('(')[0].split('::')[-1]
                if n == '@__cxa_pure_virtual': nm = 'slot%d' % (slot // 8)
                return 'virt:' + nm
            return None
        return f

OPAQUE_VOID = lambda fr, i, args, mem: (BOT, mem)
class Trace:
    def __init__(s, P, fn, cls=None, args=None, hooks=None, virt=None, names=None, mem=None, consts=None, raw=False, strings=False):
        s.P, s.fn = P, fn
        nm = dict(names or {})
        if cls: nm['this'] = {o: 'this.' + n for n, o in P.fields(cls)[0].items()}
        s.m = Machine(P.prog, names=nm, hooks=hooks or {})
        s.m.trace = True
        s.m.strings = strings
        if raw: s.m.rawloops = []
        s.m.virt = virt
        s.mem = mem or Mem()
        if args is None: args = []
        a = list(args)
        if cls and len(a) < len(fn.params): a = [leaf(Ptr('this', ZERO))] + a
        for nme, ty in fn.params[len(a):]:
            a.append(leaf(Ptr(nme, ZERO)) if ty.k == 'ptr' else S('arg' + nme))
        s.args = a
        s.val, s.out, s.pc = s.m.call(fn, a, s.mem)
        s.events = [e for e in s.m.events if e.pc is not FALSE]
    def stores(s, pred=None):
        out = []
        for n, e in enumerate(s.events):
            if e.kind != 'store': continue
            for q in leaves(e.ptr):
                if isinstance(q, Ptr) and (pred is None or pred(q.obj)): out.append((n, e, q)); break
        return out
    def unroll(s, most=4):
        """replace the events of loops with a small constant trip count by one copy per iteration"""
        def go(evs, depth):
            out = []; i = 0
            while i < len(evs):
                e = evs[i]
                if len(e.loops) <= depth: out.append(e); i += 1; continue
                k, K = e.loops[depth]; j = i
                while j < len(evs) and len(evs[j].loops) > depth and evs[j].loops[depth][0] == k: j += 1
                n = trip(K)
                if n is not None and is_num(n) and 0 < numval(n) <= most:
                    grp = []
                    for q in range(int(numval(n))):
                        for x in evs[i:j]:
                            y = gsa.Event(x.kind, x.fn, x.inst, x.pc, x.name, x.ptr, x.val, x.args); y.res = x.res
                            y.loops = x.loops[:depth] + x.loops[depth + 1:]
                            y.subst({k: num(q)}); y.pc = unver(y.pc)
                            if y.pc is not FALSE: grp.append(y)
                    out += go(grp, depth)
                else: out += go(evs[i:j], depth + 1)
                i = j
            return out
        s.events = go(s.events, 0)
        return s
    def calls(s, *names):
        out = []
        for n, e in enumerate(s.events):
            if e.kind != 'call' or e.name is None: continue
            d = e.name if e.name.startswith('virt:') else dm(e.name).split('(')[0]
            if d in names: out.append((n, e))
        return out

def is_alloca(o): return isinstance(o, tuple) and len(o) > 0 and o[0] == 'alloca'
def base(o):
    """the array an element pointer goes into: object identity without version tags"""
    if isinstance(o, tuple) and o and o[0] == '*': return ('*', base(o[1]), o[2])
    return o
def member(off, of='this'): return ('*', of, off)
def in_loop(e): return {k for k, K in e.loops}

def trip(K):
    """N for a trip count of the form max(N, 0) (or a constant); None when not understood"""
    if isinstance(K, Leaf): return K.v if isinstance(K.v, Poly) else None
    for l in leaves(K):
        if isinstance(l, Poly) and l.terms:
            if K is ite(vcmp('>', leaf(l), N(0)), leaf(l), N(0)): return l
            if K is ite(vcmp('>', N(1), leaf(l)), N(0), leaf(l)): return l
    return None

def drop_loop_conds(pc, e):
    """path condition without the conditions that only say each loop counter is within its trip count"""
    for k, K in e.loops:
        n = trip(K)
        for v in list(bvars(pc)):
            if v.args[0] == '<' and isinstance(v.args[1], Poly):
                p = v.args[1]
                if n is not None and p is sub(psym(k), n): pc = restrict(pc, v, True)
            elif v.args[0] == '==' and n is not None and v.args[1] in (sub(psym(k), n), sub(n, psym(k))): pc = restrict(pc, v, False)
        # a loop that runs at all has a positive trip count
        if n is not None:
            c = vcmp('<', S(k), leaf(n))
            if isinstance(c, Node): pc = restrict(pc, c.var, c.hi is TRUE)
            c = vcmp('>', leaf(n), N(0))
            if isinstance(c, Node): pc = restrict(pc, c.var, c.hi is TRUE)
    return pc

def assume(x, c):
    """x under the condition c (a literal diagram)"""
    if isinstance(c, Node) and {c.hi, c.lo} == {TRUE, FALSE}: return restrict(x, c.var, c.hi is TRUE)
    return x

def lin(p, names):
    """(coefficients, rest) of a polynomial linear in the given symbols, or None"""
    co = {n: ZERO for n in names}; rest = ZERO
    for mo, c in p.terms:
        hit = [(a, e) for a, e in mo if syms(a) & set(names) or (isinstance(e, Poly) and syms(e) & set(names))]
        if not hit: rest = add(rest, mk({mono_key(mo): (mo, c)})); continue
        if len(hit) == 1 and hit[0][0].kind == 'sym' and hit[0][1] == 1:
            m2 = tuple(x for x in mo if x[0] is not hit[0][0])
            co[hit[0][0].args[0]] = add(co[hit[0][0].args[0]], mk({mono_key(m2): (m2, c)}))
        else: return None
    return co, rest

def covers(A, e, total, eqs=()):
    """None when the writes at element index A, over all of e's loops, hit every index 0..total-1 exactly once; else why not.
    eqs: substitutions (name -> Poly) that may be applied to make products comparable"""
    ks = [(k, trip(K)) for k, K in e.loops if k in syms(A)]
    extra = [k for k, K in e.loops if k not in syms(A)]
    if extra: return 'the element written does not depend on loop counter of an enclosing loop'
    if any(n is None for k, n in ks): return 'loop bounds not understood'
    r = lin(A, [k for k, n in ks])
    def norm(p):
        q = p
        for nm, w in eqs: q = subst(leaf(q), {nm: leaf(w)}, {}); q = q.v
        return q
    if r is None: return 'element index is not an affine function of the loop counters: %s' % brief(leaf(A), 200)
    co, rest = r
    # reversed loops
    for k, n in ks:
        if is_num(co[k]) and numval(co[k]) < 0 or (len(co[k].terms) == 1 and co[k].terms[0][1] < 0):
            rest = add(rest, mul(co[k], sub(n, ONE))); co[k] = neg(co[k])
    if norm(rest) is not ZERO: return 'the element range does not start at 0 (offset %s)' % brief(leaf(rest), 120)
    if len(ks) == 0: return None if norm(total) is ONE else 'only one element is written'
    order = sorted(ks, key=lambda kn: 0 if co[kn[0]] is ONE else 1)
    span = ONE
    for k, n in order:
        if norm(co[k]) is not norm(span): return 'element stride %s of a loop does not match the extent %s of the loops inside it' % (brief(leaf(co[k]), 80), brief(leaf(span), 80))
        span = mul(span, n)
    if norm(span) is not norm(total): return 'elements 0..%s-1 are written, not 0..%s-1' % (brief(leaf(span), 100), brief(leaf(total), 100))
    return None

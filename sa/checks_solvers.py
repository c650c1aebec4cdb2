"""S01-S04: what the solvers are handed, what they may try, what they hand back."""
import re
from fractions import Fraction
from . import build, ir, gsa, cas, trace, strs, outs
from .build import AnalysisError, dm
from .cas import *
from .report import Check, loc
from .trace import *
from .checks_pipe import Rule, unver, same, under, OPAQUE_VOID, MO, atoms_of, paths_of, LD, the_atom
from .checks_setup import prog, no, conj, lt0, ENDS, literal_of
from .checks_results import Sink, model_hooks, ptr, add_, vsub, limits_mem

WRAP = ('solvers/nmsimplex_fit.cpp', 'solvers/nlopt_fit.cpp', 'solvers/levmar_fit.cpp', 'solvers/diff_evoln_fit.cpp', 'solvers/DESolver.cpp', 'core/utilities.cpp')
POOR = 'poor'
def linear(p, k):
    """(a, b) with p = a*k + b, a a number, b free of k; None when not of that form"""
    a = Fraction(0); b = ZERO
    for m, c in p.terms:
        if len(m) == 1 and m[0][1] == 1 and m[0][0] is psym(k).terms[0][0][0][0]: a += c
        elif k in syms(mk({m: c}) if False else patom_mono(m, c)): return None
        else: b = cas.add(b, patom_mono(m, c))
    return (a, b) if a else None
def patom_mono(m, c):
    r = num(c)
    for a, e in m: r = cas.mul(r, patom(a, e)) if not isinstance(e, Poly) else None
    return r
def content(t, obj, q, upto=None, frm=0, init=None, size=8, field=0, given=(), n=None):
    """the value of element q (a term) of an array just before event number upto, as last stored; None when a store cannot be followed"""
    v = init if init is not None else LD(obj, add_(scale(q, Fraction(size)), num(field)).v if False else cas.add(scale(q, Fraction(size)), num(field)))
    for i, e in enumerate(t.events):
        if i < frm or upto is not None and i >= upto: continue
        if e.kind == 'call' and e.name and dm(e.name).split('.p0')[0] in ('llvm.memcpy', 'memcpy', 'memmove', 'llvm.memmove', 'llvm.memset', 'memset'):
            d = [l for l in leaves(e.args[0]) if isinstance(l, Ptr)]
            if not any(x.obj == obj for x in d): continue
            if len(d) != 1 or d[0].off is not ZERO or not isinstance(e.args[2], Leaf): return None
            cnt = scale(e.args[2].v, Fraction(1, size)); pc = under(unver(e.pc), *given)
            if 'memset' in dm(e.name):
                if e.args[1] is not N(0): return None
                new = N(0)
            else:
                s_ = [l for l in leaves(e.args[1]) if isinstance(l, Ptr)]
                if len(s_) != 1: return None
                new = LD(s_[0].obj, cas.add(s_[0].off, cas.add(scale(q, Fraction(size)), num(field))))
            if n is not None and cnt is not n: pc = band(pc, vcmp('<', leaf(q), leaf(cnt)))
            v = ite(pc, new, v); continue
        if e.kind != 'store': continue
        pt = [l for l in leaves(e.ptr) if isinstance(l, Ptr)]
        if not any(x.obj == obj for x in pt): continue
        if len(pt) != 1: return None
        off = pt[0].off; pc = unver(e.pc)
        for k, K in reversed(e.loops):
            l = linear(off, k)
            if l is None or abs(l[0]) != size: continue
            a, b = l; rest = cas.add(b, num(-field)); 
            ks = scale(cas.add(scale(q, Fraction(size)), scale(rest, Fraction(-1))), Fraction(1) / a)
            tn = trip(K)
            if any(w for w in ks.terms if Fraction(w[1]).denominator != 1): break      # another field of the element
            pc = drop_loop_conds(pc, e); inside = TRUE
            if not (n is not None and tn is not None and ks is q and unver(leaf(tn)) is unver(leaf(n))):
                if tn is None: return None
                inside = band(bnot(lt0(leaf(ks))), vcmp('<', leaf(ks), unver(leaf(tn))))
                if n is not None and same_range(ks, unver(leaf(tn)), q, unver(leaf(n))): inside = TRUE
            env = {k: leaf(ks)}
            v = ite(under(band(inside, subst(pc, env)), *given), under(subst(unver(e.val), env), *given), v)
            break
        else:
            c0 = off
            if any(k in syms(leaf(off)) for k, _ in e.loops): return None
            d = scale(cas.add(off, num(-field)), Fraction(1, size))
            if is_num(d) and Fraction(numval(d)).denominator != 1: continue
            v = ite(under(band(pc, vcmp('==', leaf(q), leaf(d))), *given), unver(e.val), v)
    return under(v, *given)
def same_range(ks, tn, q, n):
    """0<=ks<tn exactly when 0<=q<n, for ks = n-1-q"""
    return tn is n and leaf(ks) is vsub(vsub(n, N(1)), leaf(q))
def loads_as(x, obj, size, table, q):
    """x with the fields (offset -> number) of element q of an array of structs replaced"""
    def f(a):
        if a.kind == 'load' and a.args[0] == obj and len(a.args) == 2:
            for o, v in table.items():
                if a.args[1] is cas.add(scale(q, Fraction(size)), num(o)): return v
        return None
    return tmap(x, f)
NP = psym('n:params'); Q = psym('q'); INQ = [vcmp('<', leaf(Q), leaf(NP)), bnot(vcmp('==', leaf(Q), leaf(NP))), vcmp('>', leaf(NP), N(0)), bnot(lt0(leaf(NP)))]
INF = float('inf')
def enum_of(header, name):
    """value of an enumerator of a C header, by counting"""
    src = re.sub(r'/\*.*?\*/', '', open(header).read(), flags=re.S)
    for body in re.findall(r'enum\s*\w*\s*\{(.*?)\}', src, flags=re.S):
        n = -1
        for it in body.split(','):
            it = it.strip()
            if not it or it.startswith('#'): continue
            m = re.match(r'(\w+)\s*(?:=\s*(-?\d+))?$', it.split('\n')[-1].strip())
            if not m: continue
            n = int(m.group(2)) if m.group(2) else n + 1
            if m.group(1) == name: return n
    raise AnalysisError('enumerator %s not found' % name)
def number_of(t): return {id(e): n for n, e in enumerate(t.events)}
def limit_cases():
    for fx in (1, 0):
        for l in ((1, 1), (0, 0)):
            yield fx, l, {0: N(fx), 4: N(l[0]), 8: N(l[1])}
START = LD('PARAMS', scale(Q, Fraction(8)))
def lim(o): return LD('LIM', cas.add(scale(Q, Fraction(88)), num(o)))
def bounds_ok(r, key, e, low, high, unlimited=True):
    """the two arrays hold the value itself for fixed parameters, the own limits where there are limits, and nothing else"""
    for side, v, o, inf in (('lower', low, 16, -INF), ('upper', high, 24, INF)):
        if not r.ob(v is not None, key + ':' + side, e, 'the %s limits handed over cannot be followed' % side): continue
        for fx, l, tab in limit_cases():
            if not fx and l == (0, 0) and not unlimited: continue
            w = START if fx else lim(o) if l == (1, 1) else N(inf); got = under(loads_as(v, 'LIM', 88, tab, Q), *INQ); r.c.count('limits handed over')
            r.ob(got is w or same(got, w), key + ':' + side, e, 'the %s limit of a %s parameter is %s' % (side, 'fixed' if fx else 'limited' if l == (1, 1) else 'free', brief(got, 120)), sample='own %s limit of each parameter' % side)
def untouched(r, t, obj, what, upto):
    """no store into the start values before the fit"""
    for n, e in enumerate(t.events):
        if n < upto and e.kind == 'store': r.ob(not any(isinstance(l, Ptr) and l.obj == obj for l in leaves(e.ptr)), what, e, 'the start values are changed before the fit')
def stat_hook(sk):
    H = {}
    def stat(fr, i, a, m):
        sk.h('GetFitStatistic')(fr, i, a, m)
        return (S('stat(PARAMS)') if a[1] is ptr('PARAMS') else S('stat(X)') if a[1] is ptr('X') else S('stat(other)')), m
    H['virt:GetFitStatistic'] = H[MO + '::GetFitStatistic'] = stat
    return H
def arg(e, k): return e.args[k] if len(e.args) > k else BOT
def one(r, t, name, key=None):
    l = [(n, e) for n, e in t.calls(name)]
    if not r.ob(len(l) == 1, key or name, l[1][1] if len(l) > 1 else None, '%s is called %d times' % (name, len(l)), sample='%s once' % name): return None
    return l[0]
def results_ok(r, t, sk, after, base, kind, best, evals=None, initial=None):
    have = bnot(vcmp('==', LD('RESULTS', ZERO, 'addr') if False else leaf(patom(atom('load', 'RESULTS', ZERO, 'addr'))), N(0)))
    num_ = number_of(t)
    for fn, want in (('SetSolverType', N(kind)), ('StoreBestfitStatisticValue', best), ('StoreNFunctionEvals', evals), ('StoreInitialStatisticValue', initial)):
        if want is None: continue
        l = t.calls('SolverResults::' + fn)
        if not r.ob(len(l) == 1, fn, l[1][1] if len(l) > 1 else None, 'the results get %s %d times' % (fn, len(l)), sample='results filled'): continue
        n, e = l[0]; r.c.count('results handed back')
        r.ob(n > after and arg(e, 0) is ptr('RESULTS') and same(under(unver(e.pc), have, *base), TRUE), fn + ':when', e, 'results are not stored for every finished fit (%s)' % brief(unver(e.pc), 80), sample='for every fit with results')
        r.ob(want(e) if callable(want) else same(unver(arg(e, 1)), want), fn + ':value', e, 'the results get %s as %s' % (brief(arg(e, 1), 80), fn[5:] if fn.startswith('Store') else fn[3:]), sample='own value')
def conds_of(pc):
    """a condition as a list of facts"""
    return [pc] if pc is not TRUE else []
def nlopt_wrapper(c, name, src, objective, kind):
    p = prog(src, 'core/utilities.cpp', 'core/model_object.cpp'); sk = Sink(); H = stat_hook(sk)
    for k in ('PopulateAlgorithmMap', 'InterpretResult', 'GetInterpretation_NM', 'PrintParametersSimple'): H[k] = sk.h(k)
    def run(fr, i, a, m):
        _, m = sk.h('nlopt_optimize')(fr, i, a, m)
        for o in {k[0] for k in m.d if isinstance(k[0], tuple) and k[0][0] == 'glob'} | {a[1].v.obj, a[2].v.obj}:
            m.clob[o] = 'fit'
            for q in [q for q in m.d if q[0] == o]: del m.d[q]
        return S('status'), m
    H['nlopt_optimize'] = run
    mem = Mem(); mem.d.update(limits_mem()); generic = name == 'NLOptFit'
    args = [leaf(NP), ptr('PARAMS'), ptr('LIMITS'), ptr('MODEL'), S('ftol'), S('verbose')] + ([ptr('NAME')] if generic else []) + [ptr('RESULTS')]
    t = Trace(p, p.func(name), None, args=args, hooks=H, virt=p.virt([(lambda o: o == 'MODEL', MO, True)]), mem=mem, strings=True); sk.live(t); r = Rule(c, t, name)
    got = one(r, t, 'nlopt_optimize')
    if not got: return
    go, e = got; base_ = unver(e.pc); base = conds_of(base_); opt = e.args[0]; r.ob(not e.loops, 'once', e, 'the fit is repeated')
    cr = one(r, t, 'nlopt_create')
    if cr:
        r.ob(cr[1].res is opt or unver(cr[1].res) is unver(opt) and cr[0] < go, 'create', cr[1], 'the optimizer run is not the one created', sample='optimizer created'); r.ob(arg(cr[1], 1) is leaf(NP), 'dimension', cr[1], 'the optimizer has %s dimensions' % brief(arg(cr[1], 1), 60), sample='as many dimensions as parameters')
        if not generic: r.ob(arg(cr[1], 0) is N(enum_of('/usr/include/nlopt.h', 'NLOPT_LN_NELDERMEAD')), 'algorithm', cr[1], 'the algorithm is not Nelder-Mead simplex', sample='Nelder-Mead')
        else:
            a0 = arg(cr[1], 0); txt = repr([x.args for x in leaf_atoms(a0)]) if not isinstance(a0, str) else ''
            fnd = [ev for n, ev in enumerate(t.events) if ev.kind == 'call' and ev.name and dm(ev.name).startswith('std::map<') and ('::find(' in dm(ev.name) or '::at(' in dm(ev.name) or '::operator[](' in dm(ev.name)) and n < cr[0] and arg(ev, 1) is ptr('NAME')]
            r.ob(len(fnd) >= 1 and all(arg(x, 0) is arg(y[2], 0) or arg(x, 0) is y[1][0] for x in fnd for y in sk.of('PopulateAlgorithmMap')) and len(sk.of('PopulateAlgorithmMap')) == 1, 'algorithm', cr[1], 'the algorithm is not the one whose name was given', sample='algorithm looked up by the name given')
    for fn, k in (('nlopt_set_lower_bounds', 'low'), ('nlopt_set_upper_bounds', 'high'), ('nlopt_set_min_objective', 0), ('nlopt_set_ftol_rel', 0), ('nlopt_set_maxeval', 0)):
        l = one(r, t, fn)
        if l: r.ob(l[0] < go and unver(arg(l[1], 0)) is unver(opt) and same(under(unver(l[1].pc), *base), TRUE) and not l[1].loops, fn + ':before', l[1], '%s does not apply to every fit' % fn, sample='set before the fit')
    lo, hi = t.calls('nlopt_set_lower_bounds'), t.calls('nlopt_set_upper_bounds')
    if len(lo) == len(hi) == 1:
        objs = [arg(x[1], 1) for n, x in ((0, lo[0]), (1, hi[0]))]
        if r.ob(all(isinstance(o, Leaf) and isinstance(o.v, Ptr) and o.v.off is ZERO for o in objs), 'bounds', lo[0][1], 'the limits handed over are not whole arrays'):
            vs = [content(t, o.v.obj, Q, x[0], n=NP, given=INQ + base) for o, x in zip(objs, (lo[0], hi[0]))]; bounds_ok(r, 'bounds', lo[0][1], *vs)
    for n, x in t.calls('nlopt_set_min_objective'): r.ob(objective in dm(str(fun_name(arg(x, 1))).replace('glob.', '')) and arg(x, 2) is ptr('MODEL'), 'objective', x, 'what is minimized is not the fit statistic of the model', sample='fit statistic minimized')
    for n, x in t.calls('nlopt_set_ftol_rel'): r.ob(same(arg(x, 1), S('ftol')), 'tolerance', x, 'the tolerance used is %s' % brief(arg(x, 1), 60), sample='tolerance asked for')
    for n, x in t.calls('nlopt_set_maxeval'): r.ob(positive_multiple(arg(x, 1)), 'evaluations', x, 'the number of evaluations is limited to %s' % brief(arg(x, 1), 60), sample='evaluations limited')
    r.ob(arg(e, 1) is ptr('PARAMS'), 'start', e, 'the fit does not start from, and end in, the parameters given', sample='parameters given'); untouched(r, t, 'PARAMS', 'start:value', len(t.events))
    v = unver(t.val); want = S('status'); r.ob(same(under(v, *base), want), 'status', None, 'the status returned is %s' % brief(under(v, *base), 80), sample='own status returned')
    f = arg(e, 2); fobj = f.v.obj if isinstance(f, Leaf) and isinstance(f.v, Ptr) else None
    counter = [x for x in t.calls('SolverResults::StoreNFunctionEvals')]
    cobj = None
    if counter:
        cobj = place(t, arg(counter[0][1], 1))
        r.ob(cobj is not None and cobj[0] == 'glob' and exact_atom(arg(counter[0][1], 1)), 'evaluations:counter', counter[0][1], 'the number of evaluations is not a count (%s)' % brief(arg(counter[0][1], 1), 200))
        if cobj is not None:
            z = content(t, cobj, ZERO, go, given=base); r.ob(z is N(0), 'evaluations:start', counter[0][1], 'the evaluations of earlier fits are counted as well (the count starts from %s)' % brief(z, 60) if z is not None else 'the count cannot be followed', sample='count starts at 0')
    results_ok(r, t, sk, go, base, kind, lambda x: exact_atom(arg(x, 1)) and [a.args[:2] for a in leaf_atoms(arg(x, 1))] == [(fobj, ZERO)], None, lambda x: same(arg(x, 1), S('stat(PARAMS)')) and all(num_(t, q[2]) < go for q in sk.of('GetFitStatistic') if q[1][1] is ptr('PARAMS')) and all(n_ < go or True for n_ in [0]))
    num_of = number_of(t)
    for q in sk.of('GetFitStatistic'): r.ob(num_of[id(q[2])] < go, 'initial', q[2], 'the initial fit statistic is computed after the fit', sample='before the fit')
    for fn in ('nlopt_destroy', 'free'):
        for n, x in t.calls(fn): r.ob(n > go or under(unver(x.pc), *base) is FALSE, fn, x, '%s before the fit is done' % fn)
    return cobj
def num_(t, e): return number_of(t).get(id(e), 10**9)
def fun_name(v): return v.v.obj if isinstance(v, Leaf) and isinstance(v.v, Ptr) else None
def place(t, v):
    """the object a value was loaded from"""
    at = leaf_atoms(v)
    if len(at) != 1: return None
    if at[0].kind == 'load': return at[0].args[0] if at[0].args[1] is ZERO else None
    if at[0].kind == 'sym':
        for e in t.events:
            for q in (leaves(e.ptr) if e.kind == 'store' else []):
                if isinstance(q, Ptr) and show_obj(q.obj) + '@0' == at[0].args[0]: return q.obj
    return None
def leaf_atoms(v):
    out = []
    for l in (leaves(v) if isinstance(v, (Leaf, Node)) else [v]):
        if isinstance(l, Poly): out += [a for m, k in l.terms for a, x in m]
    return out
def expand_exits(t, v, most=6):
    """how a loop with a small constant number of rounds was left, written out"""
    for b in list(bvars(v)):
        inf = t.m.exitinfo.get(b)
        if not inf: continue
        k, w, exits, rets = inf; reach = TRUE; acc = FALSE
        for q in range(most + 1):
            for i, cnd in enumerate(exits):
                x = unver(subst(unver(cnd), {k: N(q)})); here = band(reach, x)
                if i == w: acc = bor(acc, here)
                reach = band(reach, bnot(x))
            if reach is FALSE: break
        if reach is FALSE: v = ite(acc, restrict(v, b, True), restrict(v, b, False))
    return v
def exact_atom(v):
    at = leaf_atoms(v)
    return len(at) == 1 and isinstance(v, Leaf) and v.v is patom(at[0])
def positive_multiple(v):
    if not isinstance(v, Leaf) or not isinstance(v.v, Poly): return False
    p = v.v
    if is_num(p): return numval(p) > 0
    return len(p.terms) == 1 and p.terms[0][1] > 0 and p is scale(NP, p.terms[0][1])
def nlopt_objective(c, src, fname, counter, optimizer_of):
    p = prog(src, 'core/utilities.cpp', 'core/model_object.cpp'); sk = Sink(); H = stat_hook(sk); H['PrintParametersSimple'] = sk.h('print')
    t = Trace(p, p.func(fname), None, args=[leaf(NP), ptr('X'), ptr('GRAD'), ptr('MODEL')], hooks=H, virt=p.virt([(lambda o: o == 'MODEL', MO, True)]), strings=True); sk.live(t); r = Rule(c, t, fname)
    l = sk.of('GetFitStatistic'); r.ob(len(l) == 1 and l[0][1][0] is ptr('MODEL') and l[0][1][1] is ptr('X') and unver(l[0][2].pc) is TRUE, 'statistic', l[0][2] if l else None, 'the fit statistic is not that of the values tried', sample='statistic of the values tried')
    r.ob(same(unver(t.val), S('stat(X)')), 'value', None, 'the value returned is %s' % brief(t.val, 80), sample='the statistic itself'); c.count('objective functions')
    for e in t.events:
        if e.kind == 'store': r.ob(not any(isinstance(x, Ptr) and x.obj == 'X' for x in leaves(e.ptr)), 'values', e, 'the values tried are changed')
    if counter is not None:
        st = [e for e in t.events if e.kind == 'store' and any(isinstance(x, Ptr) and x.obj == counter for x in leaves(e.ptr))]
        r.ob(len(st) == 1 and unver(st[0].pc) is TRUE and same(unver(st[0].val), vadd(S(show_obj(counter) + '@0'), N(1))), 'count', st[0] if st else None, 'not every evaluation is counted once', sample='each evaluation counted')
    stop = FALSE; stops = [(n, e) for n, e in t.calls('nlopt_force_stop')]
    for n, e in stops:
        stop = bor(stop, unver(e.pc)); r.ob(len(leaf_atoms_ptr(arg(e, 0))) == 1, 'stop:own', e, 'what is stopped is not the optimizer running')
    flag = vcmp('==', S('glob.@stopSignal_flag@0'), N(1))
    def facts(v): return tmap(v, lambda a: S('nan') if a.kind == 'opq' else None)
    r.ob(all_paths(stop, flag), 'interrupt', stops[0][1] if stops else None, 'an interrupt does not stop the fit (stopped when %s)' % brief(stop, 120), sample='interrupt stops the fit')
    rest = stop
    for v in bvars(flag): rest = restrict(rest, v, False)
    me = str(S('stat(X)').id); is_nan = lambda v: v.args in (('opq', 'fpclass', me, '3'), ('opq', 'uno', me, me)) or v.args[0] == 'opq' and v.args[1] == 'uno' and me in v.args[2:]
    odd = [v for v in bvars(rest) if not is_nan(v)]
    nan = rest
    for v in bvars(rest): nan = restrict(nan, v, True)
    fine = rest
    for v in bvars(rest): fine = restrict(fine, v, False)
    r.ob(not odd and fine is FALSE, 'no other stop', stops[0][1] if stops else None, 'the fit is stopped for another reason (%s)' % brief(rest, 120), sample='stopped for no other reason')
    r.ob(nan is TRUE, 'NaN', stops[0][1] if stops else None, 'a fit statistic that is not a number does not stop the fit', sample='NaN stops the fit')
def all_paths(v, *conds):
    """v holds whenever the conditions do, whatever the order of the decisions"""
    w = TRUE
    for c in conds: w = band(w, c)
    return band(w, bnot(v)) is FALSE
def leaf_atoms_ptr(v): return [x for x in leaves(v) if isinstance(x, Ptr) and x.obj not in ('null',)]
def new_or_calloc_zero(t, obj):
    """is the memory of an array known to start at zero"""
    return isinstance(obj, tuple) and 'calloc' in repr(obj) or any(e.kind == 'call' and e.name and 'memset' in dm(e.name) and any(isinstance(x, Ptr) and x.obj == obj and x.off is ZERO for x in leaves(e.args[0])) for e in t.events)
def levmar(c):
    p = prog('solvers/levmar_fit.cpp', 'core/model_object.cpp'); sk = Sink(); H = stat_hook(sk)
    def run(fr, i, a, m):
        _, m = sk.h('mpfit')(fr, i, a, m)
        for q in [x for v in (a[3], a[7]) for x in leaves(v) if isinstance(x, Ptr)]:
            m.clob[q.obj] = 'fit'
            for k in [k for k in m.d if k[0] == q.obj and q.obj == 'PARAMS']: del m.d[k]
        return S('status'), m
    H['mpfit'] = run; mem = Mem(); mem.d.update(limits_mem())
    lims = bnot(vcmp('==', S('limitsExist'), N(0)))
    t = Trace(p, p.func('LevMarFit'), None, args=[leaf(NP), S('nFree'), S('nData'), ptr('PARAMS'), ptr('LIMITS'), ptr('MODEL'), S('ftol'), S('limitsExist'), S('verbose'), ptr('RESULTS')], hooks=H, virt=p.virt([(lambda o: o == 'MODEL', MO, True)]), mem=mem, strings=True)
    sk.live(t); t.unroll(); r = Rule(c, t, 'LevMarFit'); got = one(r, t, 'mpfit')
    if not got: return
    go, e = got; a = e.args; r.ob(unver(e.pc) is TRUE and not e.loops, 'always', e, 'the fit is not always done', sample='fit done')
    r.ob('myfunc_mpfit' in dm(str(fun_name(a[0]))) or 'myfunc_mpfit' in str(fun_name(a[0])), 'objective', e, 'what is minimized is not the deviates of the model', sample='deviates of the model')
    for k, w, what in ((1, S('nData'), 'number of data values'), (2, leaf(NP), 'number of parameters'), (3, ptr('PARAMS'), 'start values'), (6, ptr('MODEL'), 'model')): r.ob(same(a[k], w), what, e, 'the %s handed over is %s' % (what, brief(a[k], 60)), sample='own ' + what)
    untouched(r, t, 'PARAMS', 'start:value', len(t.events))
    no_l, with_l = under(a[4], bnot(lims)), under(a[4], lims)
    r.ob(isinstance(no_l, Leaf) and isinstance(no_l.v, Ptr) and no_l.v.obj == 'null', 'no limits', e, 'limits are handed over when there are none', sample='no limits: none')
    if r.ob(isinstance(with_l, Leaf) and isinstance(with_l.v, Ptr) and with_l.v.off is ZERO, 'limits', e, 'the limits handed over are %s' % brief(with_l, 60)):
        o = with_l.v.obj
        if o == 'LIM': c.count('limits handed over', 10)
        else:
            r.ob(new_or_calloc_zero(t, o), 'limits:rest', e, 'the other settings of a parameter are not zero', sample='other settings zero')
            for fld, size, what in ((0, 4, 'fixed'), (4, 4, 'limited'), (8, 4, 'limited'), (16, 8, 'limits'), (24, 8, 'limits')):
                v = content(t, o, Q, go, n=NP, size=88, field=fld, given=INQ + [lims]); c.count('limits handed over', 2)
                r.ob(v is not None and same(unver(v), lim(fld)), 'limits:' + what, e, 'the %s of a parameter handed over is %s' % (what, brief(v, 100) if v is not None else 'not known'), sample='own %s of each parameter' % what)
    cfg = fun_name(a[5]); mpc, _ = p.fields('mp_config_struct'); mpr, _ = p.fields('mp_result_struct')
    def field(o, k): return content(t, o, ZERO, go, size=10**6, field=k)
    v = field(cfg, mpc['ftol']); r.ob(v is not None and same(unver(v), S('ftol')), 'tolerance', e, 'the tolerance used is %s' % (brief(v, 60) if v is not None else 'not known'), sample='tolerance asked for')
    v = field(cfg, mpc['maxiter']); r.ob(v is not None and isinstance(v, Leaf) and is_num(v.v) and numval(v.v) > 0, 'iterations', e, 'the iterations are not limited', sample='iterations limited')
    r.ob(new_or_calloc_zero(t, cfg), 'settings', e, 'other settings are not the default ones', sample='other settings default')
    res = fun_name(a[7]); v = field(res, mpr['xerror'])
    xe = fun_name(v) if v is not None else None
    al = [x for n, x in enumerate(t.events) if x.kind == 'call' and x.name and isinstance(x.res, Leaf) and isinstance(x.res.v, Ptr) and x.res.v.obj == xe and dm(x.name).lstrip('@') in ('malloc', 'calloc', 'operator new[](unsigned long)')]
    if r.ob(len(al) == 1, 'errors', e, 'the uncertainties have no place of their own'):
        sz = al[0].args[0] if len(al[0].args) == 1 else vmul(al[0].args[0], al[0].args[1]); r.ob(same(sz, leaf(scale(NP, Fraction(8)))), 'errors:room', al[0], 'the room for uncertainties is %s bytes' % brief(sz, 60), sample='room for every uncertainty')
    r.ob(new_or_calloc_zero(t, res), 'result', e, 'other results are not empty at the start', sample='results empty at the start')
    r.ob(same(unver(t.val), S('status')), 'status', None, 'the status returned is %s' % brief(t.val, 80), sample='own status returned')
    have = bnot(vcmp('==', leaf(patom(atom('load', 'RESULTS', ZERO, 'addr'))), N(0)))
    results_ok(r, t, sk, go, [], 1, None)
    l = t.calls('SolverResults::AddMPResults')
    if r.ob(len(l) == 1, 'results', None, 'the results are handed back %d times' % len(l)):
        n, x = l[0]; r.ob(n > go and arg(x, 0) is ptr('RESULTS') and fun_name(arg(x, 1)) == res and same(under(unver(x.pc), have), TRUE), 'results', x, 'the results handed back are not those of the fit', sample='results of the fit')
        for m_, y in enumerate(t.events):
            if y.kind == 'call' and y.name and dm(y.name).lstrip('@') in ('free', 'operator delete[](void*)', 'operator delete(void*)') and any(isinstance(q, Ptr) and q.obj == xe for q in leaves(y.args[0])): r.ob(m_ > n, 'results:freed', y, 'the uncertainties are gone before they are handed back', sample='freed after use')
    for m_, y in enumerate(t.events):
        if y.kind == 'call' and y.name and dm(y.name).lstrip('@') == 'free': r.ob(m_ > go, 'free', y, 'memory is freed before the fit')
    # the function minimized
    sk2 = Sink(); H2 = {}
    H2['virt:ComputeDeviates'] = H2[MO + '::ComputeDeviates'] = sk2.h('ComputeDeviates')
    t2 = Trace(p, p.func('myfunc_mpfit'), None, args=[S('nData'), leaf(NP), ptr('X'), ptr('DEV'), ptr('DERIV'), ptr('MODEL')], hooks=H2, virt=p.virt([(lambda o: o == 'MODEL', MO, True)])); r2 = Rule(c, t2, 'myfunc_mpfit'); q = sk2.of('ComputeDeviates'); c.count('objective functions')
    r2.ob(len(q) == 1 and q[0][1][:3] == [ptr('MODEL'), ptr('DEV'), ptr('X')] and unver(q[0][2].pc) is TRUE, 'deviates', q[0][2] if q else None, 'the deviates are not those of the values tried', sample='deviates of the values tried')
    r2.ob(t2.val is N(0), 'status', None, 'a failure is signalled', sample='success'); r2.ob(not [x for x in t2.stores()], 'values', None, 'values are changed')
def diff_evoln(c):
    p = prog('solvers/diff_evoln_fit.cpp', 'core/model_object.cpp'); sk = Sink(); H = stat_hook(sk)
    for k in ('Setup', 'Population', 'Generations', 'Energy', 'StoreSolution', 'Solve', 'DESolver', '~DESolver'): H['DESolver::' + k] = sk.h(k, S('de.' + k))
    mem = Mem(); mem.d.update(limits_mem())
    t = Trace(p, p.func('DiffEvolnFit'), None, args=[leaf(NP), ptr('PARAMS'), ptr('LIMITS'), ptr('MODEL'), S('ftol'), S('verbose'), ptr('RESULTS'), S('seed'), S('lhs')], hooks=H, virt=p.virt([(lambda o: o == 'MODEL', MO, True)]), mem=mem, strings=True)
    sk.live(t); r = Rule(c, t, 'DiffEvolnFit'); num_of = number_of(t)
    q = {k: sk.of(k) for k in ('Setup', 'Solve', 'StoreSolution', 'DESolver')}
    for k, l in q.items():
        if not r.ob(len(l) == 1 and not l[0][2].loops, k, l[0][2] if l else None, '%s is called %d times' % (k, len(l)), sample='%s once' % k): return
    pos = {k: num_of[id(l[0][2])] for k, l in q.items()}; go = pos['Solve']; e = q['Solve'][0][2]; obj = q['Solve'][0][1][0]; base = [unver(e.pc)]
    r.ob(pos['DESolver'] < pos['Setup'] < pos['Solve'] < pos['StoreSolution'] and all(l[0][1][0] is obj and same(under(unver(l[0][2].pc), *base), TRUE) for l in q.values()), 'order', e, 'setting up, solving and storing the solution are not done in that order for one solver', sample='set up, solved, stored')
    r.ob(q['DESolver'][0][1][1] is leaf(NP), 'dimension', q['DESolver'][0][2], 'the solver has %s dimensions' % brief(q['DESolver'][0][1][1], 60), sample='as many dimensions as parameters')
    a = q['Setup'][0][1]
    # refused exactly when a parameter that is not fixed has no limits
    refused(r, t, unver(e.pc), e)
    v = unver(t.val); r.ob(same(under(v, *base), S('de.Solve')), 'status', None, 'the status returned is %s' % brief(under(v, *base), 80), sample='own status returned')
    bad = under(v, bnot(base[0])); r.ob(isinstance(bad, Leaf) and is_num(bad.v) and numval(bad.v) < 0, 'status:refused', None, 'refusing to fit returns %s' % brief(bad, 80), sample='refused: negative status')
    vs = [content(t, fun_name(x), Q, pos['Setup'], n=NP, given=INQ + base) if fun_name(x) is not None else None for x in (a[1], a[2])]
    bounds_ok(r, 'bounds', q['Setup'][0][2], *vs, unlimited=False)
    for k, w, what in ((6, S('ftol'), 'tolerance'), (7, S('seed'), 'seed')): r.ob(same(a[k], w), what, q['Setup'][0][2], 'the %s used is %s' % (what, brief(a[k], 60)), sample=what + ' asked for')
    r.ob(same(a[8], S('lhs')) or same(a[8], bnot(vcmp('==', S('lhs'), N(0)))), 'sampling', q['Setup'][0][2], 'Latin hypercube sampling is used when %s' % brief(a[8], 60), sample='sampling asked for')
    g = q['Solve'][0][1][1]; r.ob(isinstance(g, Leaf) and is_num(g.v) and numval(g.v) > 0, 'generations', e, 'the number of generations is %s' % brief(g, 60), sample='generations limited')
    r.ob(q['StoreSolution'][0][1][1] is ptr('PARAMS'), 'solution', q['StoreSolution'][0][2], 'the solution is not stored in the parameters', sample='solution stored'); untouched(r, t, 'PARAMS', 'start:value', len(t.events))
    results_ok(r, t, sk, go, base, 2, S('de.Energy'), vmul(S('de.Population'), S('de.Generations')))
    dead = [(n, x) for n, x in enumerate(t.events) if x.kind == 'call' and x.name and dm(x.name).split('(')[0] in ('ImfitSolver::~ImfitSolver', 'operator delete', 'DESolver::~DESolver', '@free', 'free')]
    for n, x in dead:
        if under(unver(x.pc), *base) is not FALSE and isinstance(arg(x, 0), Leaf) and (fun_name(arg(x, 0)) == obj.v.obj): r.ob(all(n > num_of[id(y[2])] for k in ('StoreSolution', 'Energy', 'Population', 'Generations') for y in sk.of(k)), 'freed', x, 'the solver is deleted before its results are taken', sample='deleted after use')
        elif under(unver(x.pc), *base) is not FALSE and fun_name(arg(x, 0)) in (fun_name(a[1]), fun_name(a[2])): r.ob(n > pos['Setup'], 'freed:limits', x, 'the limits are freed before they are used', sample='freed after use')
    fn = p.func('ImfitSolver::EnergyFunction'); sk2 = Sink(); H2 = stat_hook(sk2)
    m2 = [x for x in t.events if x.kind == 'store' and x.val is not None and unver(x.val) is ptr('MODEL')]
    if r.ob(len(m2) >= 1, 'model', None, 'the solver does not know the model'):
        off = [l.off for l in leaves(m2[-1].ptr) if isinstance(l, Ptr)][0]
        mm = Mem(); mm.d[('SOLVER', int(numval(off)))] = ptr('MODEL')
        t2 = Trace(p, fn, None, args=[ptr('SOLVER'), ptr('X'), ptr('AT')], hooks=H2, virt=p.virt([(lambda o: o == 'MODEL', MO, True)]), mem=mm); r2 = Rule(c, t2, 'ImfitSolver::EnergyFunction'); l = sk2.of('GetFitStatistic'); c.count('objective functions')
        r2.ob(len(l) == 1 and l[0][1][0] is ptr('MODEL') and l[0][1][1] is ptr('X') and same(unver(t2.val), S('stat(X)')), 'statistic', l[0][2] if l else None, 'the energy is not the fit statistic of the values tried', sample='statistic of the values tried')
        r2.ob(not [x for n, x, _ in t2.stores() if any(isinstance(y, Ptr) and y.obj == 'X' for y in leaves(x.ptr))], 'values', None, 'the values tried are changed')
def refused(r, t, pc, e):
    """the fit is done exactly when every parameter that is not fixed has limits"""
    ok_el = []
    for fx, l, tab in limit_cases(): ok_el.append((tab, bool(fx) or l == (1, 1)))
    bv = list(bvars(pc)); verdict = []
    for v in bv:
        got = flag_over_elements(t, v)
        if got is None: r.ob(False, 'refused', e, 'whether a fit is done depends on %s' % show_c(v.args) if False else 'whether a fit is done depends on %s' % str(v.args)[:160]); return
        verdict.append((v, got))
    if not r.ob(len(verdict) == 1, 'refused', e, 'whether the fit is done does not depend on the limits of the parameters'): return
    v, (per, when_all) = verdict[0]
    for tab, ok in ok_el:
        x = per(tab); r.ob(x is not None and x == ok, 'refused:each', e, 'a %s parameter %s' % ('fixed' if tab[0] is N(1) else 'limited' if tab[4] is N(1) else 'free', 'prevents the fit' if ok else 'does not prevent the fit'), sample='limits required for each parameter that is not fixed')
    r.ob(restrict(pc, v, when_all) is TRUE and restrict(pc, v, not when_all) is FALSE, 'refused:when', e, 'the fit is done when limits are missing', sample='fit done when all limits are there')
def flag_over_elements(t, v):
    """for a decision on a value collected over all parameters: (is element fine, given its limits table) and the outcome meaning all are fine"""
    if v.args[0] not in ('==', '<') or not isinstance(v.args[1], Poly): return None
    at = [a for m, k in v.args[1].terms for a, x in m]
    if len(at) != 1: return None
    a = at[0]
    rest = [k for m, k in v.args[1].terms if not m]; co = [k for m, k in v.args[1].terms if m][0]; k0 = rest[0] if rest else Fraction(0)
    def outcome_(x): return (co * x + k0 == 0) if v.args[0] == '==' else (co * x + k0 < 0)
    if a.kind == 'mu' and a.args[0] == 'rec' and len(a.args) == 4:
        _, init, body, K = a.args
        if not (isinstance(init, Leaf) and is_num(init.v) and trip(K) is NP): return None
        i0 = numval(init.v); mm = [x for x in syms(body) if x.startswith('#m')]; uu = [x for x in syms(body) if x.startswith('#u')]
        if len(uu) != 1 or len(mm) > 1: return None
        def per(tab):
            b = body
            if mm: b = subst(b, {mm[0]: leaf(Q)})
            b = loads_as(b, 'LIM', 88, tab, Q)
            keep = same(b, S(uu[0]))
            if keep: return True
            b2 = subst(b, {uu[0]: init}); b3 = b
            if isinstance(b, Leaf) and is_num(b.v): return None if outcome_(numval(b.v)) == outcome_(i0) else False
            # counted up
            d = vsub(b, S(uu[0]))
            if isinstance(d, Leaf) and is_num(d.v) and numval(d.v) > 0 and i0 == 0 and outcome_(0) != outcome_(numval(d.v)) and outcome_(numval(d.v)) == outcome_(10 * numval(d.v)): return False
            return None
        return per, outcome_(i0)
    if a.kind == 'sum' and len(a.args) >= 3:
        b_, body, K = a.args[:3]
        if not (K is NP or isinstance(K, Poly) and K is NP or isinstance(K, (Leaf, Node)) and trip(K) is NP): return None
        def per(tab):
            x = loads_as(subst(body, {b_: leaf(Q)}), 'LIM', 88, tab, Q)
            if not (isinstance(x, Leaf) and is_num(x.v)): return None
            x = numval(x.v)
            if x == 0: return True
            return False if outcome_(0) != outcome_(x) and outcome_(x) == outcome_(5 * x) else None
        return per, outcome_(0)
    return None
def dispatch(c):
    p = prog('solvers/dispatch_solver.cpp'); sk = Sink(); H = {}
    for k in ('LevMarFit', 'DiffEvolnFit', 'NMSimplexFit', 'NLOptFit'): H[k] = sk.h(k, S('st.' + k))
    names = ['ID', 'n:params', 'nFree', 'nData', 'PARAMS', 'LIMITS', 'MODEL', 'ftol', 'limitsExist', 'verbose', 'RESULTS', 'NAME', 'seed', 'lhs']
    P_ = lambda n: ptr(n) if n in ('PARAMS', 'LIMITS', 'MODEL', 'RESULTS', 'NAME') else S(n)
    mem = Mem(); mem.d.update(limits_mem())
    t = Trace(p, p.func('DispatchToSolver'), None, args=[P_(n) for n in names], hooks=H, mem=mem, strings=True); sk.live(t); r = Rule(c, t, 'DispatchToSolver')
    want = {'LevMarFit': (1, ['n:params', 'nFree', 'nData', 'PARAMS', 'LIMITS', 'MODEL', 'ftol', 'limitsExist', 'verbose', 'RESULTS']), 'DiffEvolnFit': (2, ['n:params', 'PARAMS', 'LIMITS', 'MODEL', 'ftol', 'verbose', 'RESULTS', 'seed', 'lhs']), 'NMSimplexFit': (3, ['n:params', 'PARAMS', 'LIMITS', 'MODEL', 'ftol', 'verbose', 'RESULTS']), 'NLOptFit': (5, ['n:params', 'PARAMS', 'LIMITS', 'MODEL', 'ftol', 'verbose', 'NAME', 'RESULTS'])}
    for k, (i, ns) in want.items():
        l = sk.of(k); live = [q for q in l if subst(unver(q[2].pc), {'ID': N(i)}) is TRUE]; c.count('solvers')
        if not r.ob(len(live) == 1, k, l[0][2] if l else None, '%s is not called exactly once for its number' % k, sample='solver asked for'): continue
        q = live[0]
        for x, n in zip(q[1], ns): c.count('limits handed over'); r.ob(same_arg(t, q[3], x, n), k + ':' + n, q[2], '%s gets %s as %s' % (k, brief(x, 60), n), sample='own arguments')
        for j in (1, 2, 3, 5):
            if j != i: r.ob(all(subst(unver(q2[2].pc), {'ID': N(j)}) is FALSE for q2 in l), k + ':only', q[2], '%s is called for solver %d' % (k, j), sample='no other solver')
        r.ob(same(subst(unver(t.val), {'ID': N(i)}), S('st.' + k)), k + ':status', None, 'the status of %s is returned as %s' % (k, brief(subst(unver(t.val), {'ID': N(i)}), 60)), sample='own status returned')
    other = subst(unver(t.val), {'ID': N(99)}); r.ob(isinstance(other, Leaf) and is_num(other.v) and numval(other.v) < 0, 'unknown', None, 'an unknown solver returns %s' % brief(other, 60), sample='unknown solver: failure')
def same_arg(t, mem, x, n):
    if n == 'LIMITS': return isinstance(x, Leaf) and isinstance(x.v, Ptr) and (x.v.obj == 'LIMITS' or mem.d.get((x.v.obj, 0)) is leaf(Ptr('LIM', ZERO)) or 'copyof' in repr(x.v.obj) and 'LIMITS' in repr(x.v.obj) or copied(t, x.v.obj, 'LIMITS'))
    if n == 'NAME': return x is ptr('NAME') or isinstance(x, Leaf) and isinstance(x.v, Ptr) and 'NAME' in repr(mem.d.get((x.v.obj, 0), '')) + brief(mem.d.get((x.v.obj, 0), N(0)), 100)
    if n in ('PARAMS', 'MODEL', 'RESULTS'): return x is ptr(n)
    return same(x, S(n)) or same(x, bnot(vcmp('==', S(n), N(0))))
def copied(t, o, src):
    for e in t.events:
        if e.kind == 'call' and e.name and 'vector' in dm(e.name) and len(e.args) > 1 and fun_name(e.args[0]) == o and fun_name(e.args[1]) == src: return True
    return False
DE_ARRAYS = ('trialSolution', 'bestSolution', 'popEnergy', 'population', 'oldValues', 'minBounds', 'maxBounds')
def de_trace(meth, args, extra=None, tested=None):
    p = prog('solvers/DESolver.cpp'); sk = Sink(); H = {}; us = []
    def uni(fr, i, a, m):
        u = fresh('u'); us.append(u); return leaf(psym(u)), m
    for k in ('genrand_real1', 'genrand_res53', 'genrand_real3', 'genrand_real2'): H[k] = uni
    for n in p.prog.fns:
        for w in ('shuffle', 'mersenne_twister_engine', 'random_device'):
            if w in n and n.startswith('@_Z'): H[n] = sk.h(w, S('random')); break
    H['init_genrand'] = sk.h('init_genrand'); H['virt:EnergyFunction'] = H['__cxa_pure_virtual'] = H['virt:slot0'] = sk.h('Energy', S('E'))
    H.update({k: sk.h(k.split('::')[-1], v) for k, v in (extra or {}).items()})
    if tested:
        h_ = sk.h('TestConverged', S('conv'))
        def seen_(fr, i, a, m): tested(a, m); return h_(fr, i, a, m)
        H['TestConverged'] = seen_
    f, _ = p.fields('DESolver'); mem = Mem()
    for k in DE_ARRAYS: mem.d[('D', f[k])] = ptr(k)
    t = Trace(p, p.func('DESolver::' + meth), None, args=[ptr('D')] + args, hooks=H, mem=mem, strings=True, names={'D': {o: 'd.' + n for n, o in f.items()}}, virt=p.virt([(lambda o: o == 'D', 'DESolver', True)]))
    sk.live(t); return p, t, sk, us, f
def elem(o, q=Q): return LD(o, scale(q, Fraction(8)))
def ends_within(v, us, low, high):
    """v, linear in random numbers of [0, 1], runs between low and high"""
    mine = [u for u in us if u in syms(v)]
    for m in range(2 ** len(mine)):
        x = subst(v, {u: N((m >> k) & 1) for k, u in enumerate(mine)})
        if not any(same(x, y) for y in low + high): return False
    return True
def stores_of(t, obj):
    for n, e in enumerate(t.events):
        if e.kind == 'store':
            q = [l for l in leaves(e.ptr) if isinstance(l, Ptr)]
            if any(x.obj == obj for x in q): yield n, e, q[0].off if len(q) == 1 else None
def de_setup(c):
    p, t, sk, us, f = de_trace('Setup', [ptr('MIN'), ptr('MAX'), S('strategy'), S('F'), S('CR'), S('ftol'), S('seed'), S('lhs')]); r = Rule(c, t, 'DESolver::Setup')
    nd, np_ = psym('d.nDim'), psym('d.nPop'); lhs = bnot(vcmp('==', S('lhs'), N(0)))
    for o, w in (('minBounds', 'MIN'), ('maxBounds', 'MAX')):
        v = content(t, o, Q, n=nd, given=[vcmp('<', leaf(Q), leaf(nd))]); c.count('limits handed over'); r.ob(v is not None and same(unver(v), elem(w)), o, None, 'the limits used are %s' % (brief(v, 80) if v is not None else 'not known'), sample='own limits')
    for k, w in (('strategy', 'strategy'), ('scale', 'F'), ('probability', 'CR'), ('tolerance', 'ftol')):
        v = t.out.d.get(('D', f[k])); r.ob(v is not None and same(unver(v), S(w)), k, None, 'the %s used is %s' % (k, brief(v, 60) if v is not None else 'not set'), sample='own settings')
    done = FALSE
    for n, e, off in stores_of(t, 'population'):
        if not r.ob(off is not None and len(e.loops) == 2, 'population', e, 'a start value cannot be followed'): continue
        rows = [k for k, K in e.loops if trip(K) is np_]; cols = [k for k, K in e.loops if trip(K) is nd]; c.count('candidates')
        if not r.ob(len(rows) == len(cols) == 1 and unver(leaf(off)) is leaf(scale(cas.add(cas.mul(psym(rows[0]), nd), psym(cols[0])), Fraction(8))), 'population:place', e, 'a start value is stored in %s' % brief(leaf(off), 80), sample='each parameter of each candidate'): continue
        j = psym(cols[0]); v = unver(e.val); lo, hi = elem('MIN', j), elem('MAX', j)
        if elem('minBounds', j).v.terms and 'minBounds' in brief(v, 400): lo, hi = elem('minBounds', j), elem('maxBounds', j)
        L = [a for a in leaf_atoms(v) if a.kind == 'load' and patom(a) not in (lo.v, hi.v)]; L = list(dict.fromkeys(L))
        if L:
            ok = len(L) == 1 and L[0].args[1] is scale(psym(rows[0]), Fraction(4)) and cols[0] in repr(L[0].args[0]) + brief(leaf(patom(L[0])), 300)
            put = lambda x: tmap(v, lambda a: x if a is L[0] else None)
            ok = ok and ends_within(subst(put(N(0)), {u: N(0) for u in us}), us, [lo], []) and ends_within(subst(put(leaf(cas.add(np_, num(-1)))), {u: N(1) for u in us}), us, [hi], [])
            idx = [e2 for n2, e2 in enumerate(t.events) if e2.kind == 'store' and e2.loops and e2.val is not None and unver(e2.val) is S(e2.loops[-1][0]) and trip(e2.loops[-1][1]) is np_ and all(isinstance(l, Ptr) and l.off is scale(psym(e2.loops[-1][0]), Fraction(4)) for l in leaves(e2.ptr))]
            ok = ok and len(sk.of('shuffle')) == 1 and len(idx) >= 1
        else: ok = ends_within(v, us, [lo], [hi]) and any(u in syms(v) for u in us)
        r.ob(ok, 'population:range', e, 'a start value is %s, which need not lie between the limits' % brief(v, 140), sample='start values between the limits')
        done = bor(done, under(drop_loop_conds(unver(e.pc), e), *INQ))
    r.ob(done is TRUE, 'population:all', None, 'candidates are left without start values (set when %s)' % brief(done, 100), sample='all candidates')
    v = content(t, 'popEnergy', Q, n=np_, given=[vcmp('<', leaf(Q), leaf(np_))]); r.ob(v is not None and v is N(INF), 'energy', None, 'the first energy of a candidate is %s, so that some valid solutions are never accepted' % (brief(v, 80) if v is not None else 'not known'), sample='first energies infinite')
    return t, sk
def de_solve(c):
    tested = []
    p, t, sk, us, f = de_trace('Solve', [S('maxgen'), S('verbose')], {'DESolver::CalcTrialSolution': BOT, 'std::isnan': S('nan')}, lambda a, m: tested.append((a, m))); r = Rule(c, t, 'DESolver::Solve')
    nd, np_ = psym('d.nDim'), psym('d.nPop'); e_ = sk.of('Energy')
    if not r.ob(len(e_) == 1 and len(e_[0][2].loops) == 2 and e_[0][1][1] is ptr('trialSolution'), 'energy', e_[0][2] if e_ else None, 'each trial vector is not evaluated exactly once', sample='each trial evaluated'): return
    ev = e_[0][2]; num_of = number_of(t); go = num_of[id(ev)]; cand = ev.loops[-1][0]; c.count('candidates'); base = unver(ev.pc)
    r.ob(trip(ev.loops[-1][1]) is np_, 'all candidates', ev, 'not every candidate gets a trial vector', sample='all candidates')
    loc_ = lambda x, *more: under(drop_loop_conds(unver(x.pc), x), drop_loop_conds(base, ev), *more)
    inq = [vcmp('<', leaf(Q), leaf(nd)), bnot(lt0(leaf(nd))), vcmp('>', leaf(nd), N(0))]
    calc = sk.of('CalcTrialSolution'); r.ob(len(calc) == 1 and calc[0][1][1] is S(cand) and num_of[id(calc[0][2])] < go and loc_(calc[0][2]) is TRUE, 'trial', calc[0][2] if calc else None, 'the trial vector is not made for the candidate', sample='own trial vector')
    made = num_of[id(calc[0][2])] if calc else 0
    old = content(t, 'oldValues', Q, go, frm=made, n=nd, given=inq + conds_of(base), init=S('stale'))
    own = LD('population', cas.add(scale(cas.mul(nd, psym(cand)), Fraction(8)), scale(Q, Fraction(8))))
    v = content(t, 'trialSolution', Q, go, frm=made, n=nd, given=inq + lits(base))
    if r.ob(v is not None, 'trial:range', ev, 'the trial vector cannot be followed'):
        v = unver(v)
        if old is not None: v = subst_load(v, elem('oldValues'), unver(under(old, *lits(base))))
        lo, hi, tr = elem('minBounds'), elem('maxBounds'), elem('trialSolution'); npath = 0
        for path, l in paths_of(v):
            cond = TRUE
            for b, pol in path: cond = band(cond, node(b, TRUE, FALSE) if pol else node(b, FALSE, TRUE))
            npath += 1; c.count('trial vectors'); x = leaf(l) if isinstance(l, Poly) else l
            ok = ends_within(x, us, [lo, hi, own], []) or (x is tr and band(cond, vcmp('<', tr, lo)) is FALSE and band(cond, vcmp('>', tr, hi)) is FALSE)
            r.ob(ok, 'trial:range', ev, 'a parameter is tried as %s, which need not lie between its limits' % brief(x, 140), sample='tried between the limits')
        r.ob(npath >= 2, 'trial:paths', ev, 'trial vectors are not compared with the limits')
    better = vcmp('<', S('E'), LD('popEnergy', scale(psym(cand), Fraction(8))))
    accept = [(n, e, off) for n, e, off in stores_of(t, 'population')]
    r.ob(len(accept) >= 1, 'accept', ev, 'trial vectors are never accepted')
    acc = FALSE
    for n, e, off in accept:
        ok = n > go and e.loops[:2] == ev.loops and len(e.loops) == 3 and trip(e.loops[-1][1]) is nd and off is not None and unver(leaf(off)) is leaf(cas.add(scale(cas.mul(nd, psym(cand)), Fraction(8)), scale(psym(e.loops[-1][0]), Fraction(8)))) and same(unver(e.val), elem('trialSolution', psym(e.loops[-1][0])))
        r.ob(ok, 'accept:value', e, 'a candidate is replaced by %s' % brief(e.val, 80), sample='replaced by its own trial vector'); acc = loc_(e)
        r.ob(same(acc, better), 'accept:when', e, 'a candidate is replaced when %s' % brief(acc, 140), sample='replaced when the trial is better')
    for n, e, off in stores_of(t, 'popEnergy'):
        r.ob(n > go and unver(e.val) is S('E') and off is scale(psym(cand), Fraction(8)) and same(loc_(e), better), 'accept:energy', e, 'the energy of a candidate becomes %s' % brief(e.val, 80), sample='own energy')
    r.ob(len(list(stores_of(t, 'popEnergy'))) >= 1, 'accept:energy', ev, 'the energies of candidates are not kept')
    # best so far
    be = [(n, e) for n, e, off in stores_of(t, 'D') if off is not None and is_num(off) and int(numval(off)) == f['bestEnergy']]
    first = [(n, e) for n, e in be if not e.loops]; later = [(n, e) for n, e in be if e.loops]
    r.ob(len(first) == 1 and first[0][1].val is N(INF), 'best:start', first[0][1] if first else ev, 'solutions of an energy above %s are never accepted' % (brief(first[0][1].val, 40) if first else '?'), sample='best energy starts infinite')
    bs = list(stores_of(t, 'bestSolution'))
    if r.ob(len(later) == 1 and len(bs) == 1, 'best', later[0][1] if later else ev, 'the best solution is not kept'):
        n, e = later[0]; w = loc_(e); n2, e2, off2 = bs[0]
        r.ob(n > go and unver(e.val) is S('E'), 'best:energy', e, 'the best energy becomes %s' % brief(e.val, 60), sample='own energy')
        r.ob(n2 > go and e2.loops[:2] == ev.loops and len(e2.loops) == 3 and trip(e2.loops[-1][1]) is nd and off2 is scale(psym(e2.loops[-1][0]), Fraction(8)) and same(unver(e2.val), elem('trialSolution', psym(e2.loops[-1][0]))), 'best:value', e2, 'the best solution becomes %s' % brief(e2.val, 80), sample='own trial vector')
        r.ob(same(loc_(e2), w), 'best:when', e2, 'the best solution and its energy are not replaced together', sample='replaced together')
        cmp_ = [b for b in bvars(w) if b not in bvars(better)]
        r.ob(len(cmp_) == 1 and cmp_[0].args[0] == '<' and w is not FALSE, 'best:better', e, 'the best solution is replaced when %s' % brief(w, 100), sample='replaced when better')
        if len(cmp_) == 1:
            only = restrict(under(w, better), cmp_[0], True), restrict(under(w, better), cmp_[0], False)
            d = cmp_[0].args[1]; neg_e = [k for m, k in d.terms if len(m) == 1 and m[0][0] is psym('E').terms[0][0][0][0]]
            r.ob(only == (TRUE, FALSE) and neg_e == [1] or only == (FALSE, TRUE) and neg_e == [-1], 'best:better', e, 'the best solution is replaced when it is not better', sample='replaced when better')
    for o in ('minBounds', 'maxBounds'):
        for n, e, off in stores_of(t, o): r.ob(False, 'limits', e, 'the limits are changed during the fit')
    # how it ends
    conv = sk.of('TestConverged'); flag = vcmp('==', S('glob.@stopSignal_flag@0'), N(1))
    vals = sorted({int(numval(l)) for l in leaves(t.val) if isinstance(l, Poly) and is_num(l)}); r.ob(all(isinstance(l, Poly) and is_num(l) for l in leaves(t.val)), 'status', None, 'the status is %s' % brief(t.val, 100), sample='status')
    seen = {}
    for path, l in paths_of(t.val):
        if not (isinstance(l, Poly) and is_num(l)): continue
        inf = [(t.m.exitinfo.get(b), pol) for b, pol in path]
        if not r.ob(path and all(i is not None for i, pol in inf) and len({i[0] for i, pol in inf}) == 1, 'status', None, 'the status depends on more than how the fit ends: %s' % brief(t.val, 100)): continue
        exits = inf[0][0][2]; yes = [i[1] for i, pol in inf if pol]; no_ = [i[1] for i, pol in inf if not pol]
        w = yes if yes else [k for k in range(len(exits)) if k not in no_]
        for k in w: seen[int(numval(l))] = bor(seen.get(int(numval(l)), FALSE), unver(exits[k]))
    r.ob(1 in seen and band(seen[1], vcmp('==', S('conv'), N(0))) is FALSE, 'converged', conv[0][2] if conv else None, 'a fit is said to have converged without the test of convergence', sample='converged when the test says so')
    r.ob(any(band(band(flag, bnot(x)), bnot(seen.get(5, FALSE))) is FALSE for s_, x in seen.items() if s_ not in (1, 5)), 'interrupt', None, 'an interrupt does not end the fit after the current generation', sample='interrupt ends the fit')
    r.ob(all(band(x, bnot(flag)) is FALSE for s_, x in seen.items() if s_ not in (1, 5)), 'interrupt:only', None, 'the fit ends early for another reason', sample='no other end')
    tl = t.calls('TestConverged')
    for n, e in tl: r.ob(same(arg(e, 1), S('d.tolerance')), 'tolerance', e, 'convergence is tested with %s' % brief(arg(e, 1), 60), sample='own tolerance')
    if tested and tl: last_changes(r, t, tl[-1][1], *tested[-1])
    p2 = prog('solvers/DESolver.cpp'); t2 = Trace(p2, p2.func('TestConverged'), None, args=[ptr('REL'), S('tol')]); r2 = Rule(c, t2, 'TestConverged'); v = unver(expand_exits(t2, t2.val)); v = tmap(v, lambda a: S('REL@%d' % int(numval(a.args[1]))) if a.kind == 'load' and a.args[0] == 'REL' and is_num(a.args[1]) else None)
    allof = TRUE
    for k in range(3): allof = band(allof, vcmp('<', S('REL@%d' % (8 * k)), S('tol')))
    yes = lambda x: bnot(vcmp('==', x, N(0))) if any(isinstance(l, Poly) for l in leaves(x)) else x
    r2.ob(same(yes(v), allof), 'three', None, 'a fit is converged when %s' % brief(v, 120), sample='all of the last three changes below the tolerance')
def lits(b): return [b]
def last_changes(r, t, e, a, m):
    """the values tested for convergence: the size of the change just made, then the two before it; none counts as small before it was measured"""
    P0 = [l for l in leaves(a[0])]
    if len(P0) != 1 or not isinstance(P0[0], Ptr) or not is_num(P0[0].off): return
    obj, off = P0[0].obj, int(numval(P0[0].off))
    def kinds(v, out):
        for l in leaves(v if isinstance(v, (Leaf, Node)) else leaf(v)):
            if not isinstance(l, Poly): out.add('?'); continue
            if is_num(l): out.add('unset' if numval(l) >= 1 else 'small'); continue
            x = the_atom(leaf(l))
            if x is None: out.add('signed' if any(q.kind == 'mu' for q in leaf_atoms(leaf(l))) else '?')
            elif x.kind == 'fn' and x.args[0] == 'abs': out.add('new')
            elif x.kind == 'mu' and len(x.args) >= 3:
                o = set(); kinds(x.args[1], o); kinds(x.args[2], o); out |= {'old' if k == 'new' else k for k in o} or {'?'}
            elif x.kind == 'sym' and str(x.args[0]).startswith(('#u', '$M', '$L')): out.add('kept')
            else: out.add('?')
        return out
    say = {'small': 'a small number before any change was measured', 'signed': 'a change with its sign', 'new': 'the newest change'}
    slot = lambda o: m.d.get((obj, o), BOT)
    k0 = kinds(unver(slot(off)), set()); r.ob(not (k0 & {'small', 'signed'}) and ('new' in k0 or '?' in k0), 'changes', e, 'the newest change tested is %s' % ', '.join(say.get(k, k) for k in sorted(k0)), sample='size of the newest relative change')
    for j in (1, 2):
        k = kinds(unver(slot(off + 8 * j)), set()); r.ob(not (k & {'small', 'signed', 'new'}), 'changes:older', e, 'change %d back is %s' % (j, ', '.join(say.get(x, x) for x in sorted(k))), sample='an earlier change')
    r.ob(slot(off + 8) is BOT or not same(slot(off + 8), slot(off + 16)), 'changes:older', e, 'the same change is tested twice', sample='three different changes')
    for n, ev, p_ in t.stores():
        for l in leaves(ev.ptr):
            if isinstance(l, Ptr) and l.obj == obj and is_num(l.off):
                j = (int(numval(l.off)) - off) // 8; k = kinds(unver(ev.val), set())
                r.ob(not (k & {'small', 'signed'} or j and ev.loops and 'new' in k), 'changes:kept', ev, 'relative change %d is set to %s' % (j, ', '.join(say.get(x, x) for x in sorted(k))), sample='changes kept in order')
def subst_load(v, ld, new):
    a = ld.v.terms[0][0][0][0]
    return tmap(v, lambda x: new if x is a else None)
def de_store(c):
    p, t, sk, us, f = de_trace('StoreSolution', [ptr('OUT')]); r = Rule(c, t, 'DESolver::StoreSolution'); nd = psym('d.nDim')
    v = content(t, 'OUT', Q, n=nd, given=[vcmp('<', leaf(Q), leaf(nd))]); c.count('candidates')
    if r.ob(v is not None, 'solution', None, 'the solution cannot be followed'):
        v = unver(v); some = vcmp('<', S('d.bestEnergy'), N(INF))
        r.ob(all(same(leaf(l), elem('bestSolution')) or same(leaf(l), elem('OUT')) for l in leaves(v)) and any(same(leaf(l), elem('bestSolution')) for l in leaves(v)), 'solution', None, 'the solution stored is %s' % brief(v, 100), sample='the best solution')
        none = subst(v, {'d.bestEnergy': N(INF)}); r.ob(same(none, elem('OUT')), 'none', None, 'when no trial vector had a valid energy, the parameters become %s' % brief(none, 80), sample='no solution: parameters kept')
        r.ob(same(under(v, some), elem('bestSolution')), 'stored', None, 'a solution is not stored', sample='solution stored')
def de_rest(c):
    names = ['Best1Exp', 'Rand1Exp', 'RandToBest1Exp', 'Best2Exp', 'Rand2Exp', 'Best1Bin', 'Rand1Bin', 'RandToBest1Bin', 'Best2Bin', 'Rand2Bin']
    for nm in names:
        p, t, sk, us, f = de_trace(nm, [S('cand')], {'DESolver::SelectSamples': BOT}); r = Rule(c, t, 'DESolver::' + nm); c.count('strategies')
        for n, e, _ in t.stores():
            for l in leaves(e.ptr):
                if isinstance(l, Ptr): r.ob(l.obj == 'trialSolution' or isinstance(l.obj, tuple) and l.obj[0] == 'alloca', 'changes', e, '%s is changed while a trial vector is made' % show_obj(l.obj), sample='only the trial vector is changed')
    p, t, sk, us, f = de_trace('SelectSamples', [S('cand')] + [ptr('R%d' % k) for k in range(1, 6)]); r = Rule(c, t, 'DESolver::SelectSamples')
    for k in range(1, 6):
        st = list(stores_of(t, 'R%d' % k))
        r.ob(len(st) >= 1, 'sample', None, 'no random candidate is chosen', sample='random candidate')
        for n, e, off in st: c.count('indices'); r.ob(index_ok(unver(e.val), us, psym('d.nPop')), 'sample:range', e, 'a random candidate number is %s, which can be one past the last' % brief(e.val, 100), sample='within the population')
    p, t, sk, us, f = de_trace('RandomUniform', [S('a'), S('b')]); r = Rule(c, t, 'DESolver::RandomUniform'); r.ob(len(us) == 1 and ends_within(unver(t.val), us, [S('a'), S('b')], []), 'range', None, 'a random number is %s' % brief(t.val, 80), sample='between the two values')
    # first element changed by each strategy
    for nm in names:
        p, t, sk, us, f = de_trace(nm, [S('cand')], {'DESolver::SelectSamples': BOT}); r = Rule(c, t, 'DESolver::' + nm)
        for n, e, off in stores_of(t, 'trialSolution'):
            if off is None or not e.loops: continue
            v = leaf(scale(off, Fraction(1, 8)))
            ms = [a for a in leaf_atoms(v) if a.kind == 'mu']
            if len(e.loops) == 1 and len(ms) == 1 and len(ms[0].args) == 4: c.count('indices'); r.ob(index_ok(unver(ms[0].args[1]) if isinstance(ms[0].args[1], (Leaf, Node)) else leaf(ms[0].args[1]), us, psym('d.nDim')), 'first', e, 'the first parameter changed is number %s, which can be one past the last' % brief(ms[0].args[1], 100), sample='a parameter of the model')
def index_ok(v, us, n):
    """0 <= v < n for random numbers of [0, 1]"""
    for path, l in paths_of(v):
        x = leaf(l) if isinstance(l, Poly) else l
        if not (isinstance(x, Leaf) and isinstance(x.v, Poly)): return False
        if x.v is cas.add(n, num(-1)): continue
        cond = TRUE
        for b, pol in path: cond = band(cond, node(b, TRUE, FALSE) if pol else node(b, FALSE, TRUE))
        at = leaf_atoms(x)
        if len(at) != 1 or x.v is not patom(at[0]): return False
        if band(cond, bnot(vcmp('<', x, leaf(n)))) is not FALSE: return False
    return True
def S02():
    c = Check('S02', 'Value numbering of the differential-evolution solver with the random numbers and the energy replaced by named results: start values, trial vectors, acceptance, best solution, end of the fit, random indices.')
    de_setup(c); de_solve(c); de_store(c); de_rest(c)
    c.floor('candidates', 4); c.floor('trial vectors', 2); c.floor('strategies', 10)
    return c.finish()
def S01():
    c = Check('S01', 'Value numbering of the solver wrappers with the optimizers replaced by named results: limits, start values, tolerance and objective handed over per parameter, and status, values and counts handed back, compared with the definition.')
    for name, src, obj, kind in (('NMSimplexFit', 'solvers/nmsimplex_fit.cpp', 'myfunc_nlopt', 3), ('NLOptFit', 'solvers/nlopt_fit.cpp', 'myfunc_nlopt_gen', 5)):
        cobj = nlopt_wrapper(c, name, src, obj, kind); nlopt_objective(c, src, obj, cobj, None)
    levmar(c); diff_evoln(c); dispatch(c)
    c.floor('limits handed over', 50); c.floor('objective functions', 4)
    return c.finish()
TABLE = {'S01': S01, 'S02': S02}

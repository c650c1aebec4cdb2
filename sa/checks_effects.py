"""What a run depends on: seeds, the clock, interrupts (S03, S04)."""
import re
from .checks_solvers import *
from . import build, taint
from .ir import iter_operands
from .taint import Taint, Seeds, SEEDING, own, loc_of, reach
from . import interrupt
from .interrupt import Walk, loops, counted, TooMany

UNITS = ('core', 'solvers', 'function_objects', 'cdream')
_all = None
def everything():
    global _all
    if _all is None:
        srcs = [x for x in build.repo_sources(dirs=UNITS)]
        _all = Prog2(srcs)
    return _all
def name_of(f): return gsa.own_name(dm(f.name)) if False else dm(f.name).split('(')[0]
def option_fields(p):
    out = {}
    for k, m in p.prog.mods.items():
        for t in set(re.findall(r'%"?(?:class|struct)\.(\w*Options\w*)"?', ' '.join(m.types))) if hasattr(m, 'types') else ():
            if t not in out:
                try: out[t] = {o: n for n, o in p.fields(t)[0].items()}
                except Exception: pass
    return out
def S03():
    c = Check('S03', 'Effect analysis: every value taken from the clock, the process or the operating system is followed through the program to the place where it is used; every place where a random-number generator is seeded is followed back to the number given with --seed.')
    p = everything(); T = Taint(p.prog).run(); S_ = Seeds(T, option_fields(p))
    for f in p.prog.mods: c.unit(f)
    c.count('functions', sum(1 for f in T.fns.values() if own(f)))
    for f, i, d in T.sources:
        mine = [b for b in T.bad if b[0] is f]; c.count('sources')
        c.obligation(True, '', '', '', sample='%s in %s: only printed or used as seed when none was given' % (d, name_of(f)))
    c.count('uses followed', T.nuse)
    for f, i, m in T.bad: c.obligation(False, '%s:%s' % (name_of(f), re.sub(r'<.*', '', m)), loc_of(f, i), 'in %s a value that differs from run to run %s' % (name_of(f), m))
    for f, i, d in T.seeds:
        c.count('seedings'); z = S_.guards(f, i.bb); g0 = 'branch'
        if not z:
            z = []
            for a in i.x['args']:
                w = S_.tainted_when(f, a)
                if w is None: z = None; break
                z += w
        if not c.obligation(bool(z), name_of(f) + ':seeded by the clock', loc_of(f, i), 'in %s a random-number generator starts from a value that differs from run to run although --seed was given' % name_of(f)): continue
        r = [S_.is_seed(f, v) for v in z]
        bad = [x for x in r if x]
        c.obligation(len(bad) < len(r), name_of(f) + ':seed', loc_of(bad[0][0], bad[0][1]) if bad and bad[0][1] is not None else loc_of(f, i), 'the number that decides whether %s uses the clock %s' % (name_of(f), bad[0][2] if bad else ''), sample='%s: clock only without --seed' % name_of(f))
    for f, i in T.seeding_calls():
        if any(i is j for _, j, _ in T.seeds): continue
        d = dm(i.x['callee'].v).split('(')[0]; a = i.x['args'][-1]; c.count('seedings')
        if strip_(f, a).k == 'int' or name_of(f).startswith(('init_', 'genrand', 'rng::')): continue         # constants and the inside of the generators
        r = S_.is_seed(f, a)
        c.obligation(r is None, name_of(f) + ':' + d, loc_of(r[0], r[1]) if r and r[1] is not None else loc_of(f, i), 'in %s %s starts from a value that %s' % (name_of(f), d, r[2] if r else ''), sample='%s: %s from --seed' % (name_of(f), d))
    de_seed(c); nlopt_seed(c)
    c.floor('sources', 8); c.floor('seedings', 8)
    return c.finish()
strip_ = taint.strip
def de_seed(c):
    """with a seed every generator of differential evolution starts from it, before the first random number is drawn"""
    p, t, sk, us, f = de_trace('Setup', [ptr('MIN'), ptr('MAX'), S('strategy'), S('F'), S('CR'), S('ftol'), S('seed'), S('lhs')]); r = Rule(c, t, 'DESolver::Setup')
    pos = vcmp('>', S('seed'), N(0)); seeded = [pos, bnot(vcmp('==', S('seed'), N(0)))]; num = number_of(t)
    g = sk.of('init_genrand'); w = FALSE
    for q in g:
        x = under(unver(q[2].pc), *seeded)
        if x is FALSE: continue
        w = bor(w, x); r.ob(same(under(unver(q[1][0]), *seeded), S('seed')), 'seed', q[2], 'with a seed the random numbers start from %s' % brief(under(unver(q[1][0]), *seeded), 80), sample='seed given is used')
        for e in t.events:
            if e.kind == 'call' and e.name and dm(e.name).startswith('genrand_') and num[id(e)] < num[id(q[2])]: r.ob(False, 'seed:first', e, 'a random number is drawn before the generator is seeded')
    r.ob(w is TRUE, 'seed:always', g[0][2] if g else None, 'with a seed the generator is not always initialised', sample='generator initialised')
    for e in t.events:
        if e.kind == 'call' and e.name and SEEDING.match(dm(e.name)) and 'mersenne_twister_engine' in dm(e.name):
            v = under(unver(e.args[1]), *seeded); c.count('seedings')
            r.ob(len(e.args) > 1 and {x for x in syms(v)} == {'seed'}, 'engine', e, 'with a seed the engine starts from %s' % brief(v, 80), sample='engine from the seed')
def nlopt_seed(c):
    """NLopt has random numbers of its own"""
    p = prog('solvers/dispatch_solver.cpp', 'solvers/nlopt_fit.cpp'); sk = Sink(); H = {}
    for k in ('LevMarFit', 'DiffEvolnFit', 'NMSimplexFit', 'NLOptFit'): H[k] = sk.h(k, S('st.' + k))
    H['nlopt_srand'] = sk.h('srand'); H['nlopt_srand_time'] = sk.h('srand_time')
    names = ['ID', 'n:params', 'nFree', 'nData', 'PARAMS', 'LIMITS', 'MODEL', 'ftol', 'limitsExist', 'verbose', 'RESULTS', 'NAME', 'seed', 'lhs']
    P_ = lambda n: ptr(n) if n in ('PARAMS', 'LIMITS', 'MODEL', 'RESULTS', 'NAME') else S(n)
    mem = Mem(); mem.d.update(limits_mem())
    t = Trace(p, p.func('DispatchToSolver'), None, args=[P_(n) for n in names], hooks=H, mem=mem, strings=True); sk.live(t); r = Rule(c, t, 'DispatchToSolver')
    num = number_of(t); seeded = [vcmp('>', S('seed'), N(0)), bnot(vcmp('==', S('seed'), N(0)))]; fit = sk.of('NLOptFit'); w = FALSE
    if not r.ob(len(fit) >= 1, 'NLOptFit', None, 'the NLopt solvers are not called'): return
    for q in sk.of('srand'):
        x = under(subst(unver(q[2].pc), {'ID': N(5)}), *seeded)
        if x is FALSE: continue
        r.ob(same(under(unver(q[1][0]), *seeded), S('seed')) and all(num[id(q[2])] < num[id(y[2])] for y in fit), 'nlopt:seed', q[2], 'NLopt is seeded with %s' % brief(q[1][0], 60), sample='NLopt from the seed'); w = bor(w, x); c.count('seedings')
    r.ob(w is TRUE, 'nlopt', fit[0][2], 'NLopt algorithms that use random numbers do not start from the seed given', sample='NLopt seeded when a seed is given')
# ---------------------------------------------------------------- S04: interrupts
PLAIN = ('load', 'store', 'alloca', 'icmp', 'br', 'ret', 'switch', 'phi', 'select', 'zext', 'sext', 'trunc', 'and', 'or', 'xor', 'freeze', 'dbg', 'unreachable')
def calls_of(T, pred):
    """[(function, call)] in this repository's code whose callee name satisfies pred"""
    for f in T.fns.values():
        if not own(f): continue
        for i in f.insts():
            if i.op in ('call', 'invoke') and i.x['callee'].k == 'global' and pred(bare(i)): yield f, i
def bare(i):
    d = dm(i.x['callee'].v) if i.x['callee'].k == 'global' else ''
    return (d[1:] if d.startswith('@') else d).split('(')[0]
def before(f, i, j):
    """instruction i is executed on every way to instruction j"""
    if i.bb is j.bb: return i.idx < j.idx
    work = [f.blocks[0]]; seen = set()
    while work:
        b = work.pop()
        if b is j.bb: return False
        if id(b) in seen or b is i.bb: continue
        seen.add(id(b)); work += b.succs
    return True
def must_before(T, f, j, does, depth=0):
    """something that `does` has happened whenever f reaches instruction j"""
    for i in f.insts():
        if i.op in ('call', 'invoke') and (does(f, i) or always(T, f, i, does)) and before(f, i, j): return True
    cs = T.callsites(id(f))
    return depth < 6 and bool(cs) and all(must_before(T, g, i, does, depth + 1) for g, i in cs)
def always(T, f, i, does, depth=0):
    g = T.defined(f, i.x['callee'].v) if i.x['callee'].k == 'global' else None
    if g is None or not own(g) or depth > 4 or g.lines is None or g is f: return False
    rets = [x for x in g.insts() if x.op == 'ret']
    return any(x.op in ('call', 'invoke') and (does(g, x) or always(T, g, x, does, depth + 1)) and all(before(g, x, y) for y in rets) for x in g.insts())
def S04():
    c = Check('S04', 'Control-flow analysis: what the interrupt handler may do; that it is installed before the solver starts; and, with the flag assumed set, whether any further round of a loop that evaluates the model, any solver callback that goes on, any bootstrap fit or any best-fit output can still be reached.')
    p = everything(); T = Taint(p.prog)
    for f in p.prog.mods: c.unit(f)
    flags = {}; handlers = []; installs = []
    for f, i in calls_of(T, lambda d: d in ('signal', 'sigaction', 'bsd_signal', 'sigset')):
        installs.append((f, i)); a = i.x['args']
        if bare(i) == 'sigaction': c.obligation(False, 'sigaction', loc_of(f, i), 'handlers installed with sigaction are not analysed'); continue
        if a[1].k != 'global': continue
        h = T.defined(f, a[1].v)
        if not c.obligation(h is not None, 'handler', loc_of(f, i), 'the signal handler is not part of the program'): continue
        handlers.append((h, a[0].v if a[0].k == 'int' else None))
    if not c.obligation(bool(handlers), 'handlers', ('core/imfit_main.cpp', 1), 'no signal handler is installed: an interrupt ends the program without results'): return c.finish()
    for h, sig in handlers:
        nm = name_of(h); c.count('handlers')
        for i in h.insts():
            ok = i.op in PLAIN or (i.op == 'call' and i.x['callee'].k == 'global' and i.x['callee'].v.startswith('@llvm.'))
            c.obligation(ok, nm + ':effects', loc_of(h, i), 'the handler %s does more than record the interrupt (%s), which is not safe inside a signal handler' % (nm, bare(i) if i.op in ('call', 'invoke') else i.op))
            if i.op == 'store' and i.ops[1].k == 'global':
                g = i.ops[1].v
                c.obligation(i.x.get('volatile'), nm + ':volatile', loc_of(h, i), '%s is not volatile: the program need not notice that it changes' % g)
                c.obligation(i.ops[0].ty.k == 'int' and i.ops[0].ty.a <= 32, nm + ':atomic', loc_of(h, i), '%s is not of a type that can be written in one step' % g)
                if c.obligation(i.ops[0].k == 'int' and i.ops[0].v != 0, nm + ':value', loc_of(h, i), 'the handler does not record the interrupt', sample='%s records the interrupt in %s' % (nm, g)): flags.setdefault(g, {})[i.ops[0].v] = h
        w = Walk(T, {}, lambda f, i: 'good' if i.op == 'store' and i.ops[1].k == 'global' and i.x.get('volatile') and i.ops[0].k == 'int' and i.ops[0].v else None)
        h.body(); env = {h.params[0][0]: frozenset([sig])} if sig is not None else {}
        rets, bad, _ = w.walk(h, h.blocks[0], 0, env)
        c.obligation(not rets and sig == 2, nm + ':always', h.loc(), 'an interrupt (signal %s) is not always recorded by %s' % (sig, nm), sample='%s records every SIGINT' % nm)
    for g, vs in flags.items(): c.obligation(len(vs) == 1, 'flag', list(vs.values())[0].loc(), 'handlers record interrupts with different values')
    flag = {g: list(vs)[0] for g, vs in flags.items()}
    H = {id(h) for h, _ in handlers}
    for f in T.fns.values():
        if not own(f) or not any(any(g in l for g in flag) for l in f.lines): continue
        for i in f.insts():
            if i.op in ('load', 'store') and any(o.k == 'global' and o.v in flag for o in iter_operands(i)):
                c.count('accesses of the flag')
                c.obligation(i.x.get('volatile'), name_of(f) + ':volatile', loc_of(f, i), 'the flag is read or written in %s as if it could not change by itself' % name_of(f))
                if i.op == 'store': c.obligation(id(f) in H, name_of(f) + ':reset', loc_of(f, i), '%s overwrites the record of the interrupt' % name_of(f))
    inst = {id(i) for f, i in installs if i.x['args'][0].k == 'int' and i.x['args'][0].v == 2 and i.x['args'][1].k == 'global' and any(id(T.defined(f, i.x['args'][1].v)) == id(h) for h, _ in handlers)}
    for f, i in calls_of(T, lambda d: d == 'DispatchToSolver'):
        c.count('fits'); c.obligation(must_before(T, f, i, lambda g, x: id(x) in inst), name_of(f) + ':installed', loc_of(f, i), 'the solver can be started without the interrupt handler', sample='handler installed before the solver in %s' % f.mod.key)
        for g, x in installs: c.obligation(id(x) in inst, name_of(g) + ':uninstalled', loc_of(g, x), 'the handling of a signal is changed to something else')
    solver_loops(c, T, flag); callbacks(c, T, flag); after_fit(c, T, flag); interrupted_sample(c, T, flag)
    c.floor('handlers', 2); c.floor('fits', 2); c.floor('loops', 4); c.floor('callbacks', 2)
    return c.finish()
SOLVER_FNS = ('LevMarFit', 'DiffEvolnFit', 'NMSimplexFit', 'NLOptFit')
def in_solver(f): return f.mod.key.startswith('solvers/') or f.mod.key == 'core/bootstrap_errors.cpp'
def evaluates(T, f, i, memo, seen=()):
    """does this call lead to an evaluation of the model (a call through a pointer or of a solver)?"""
    if i.op not in ('call', 'invoke'): return False
    if i.x['callee'].k != 'global': return True
    if bare(i) in SOLVER_FNS or bare(i) == 'nlopt_optimize': return True
    g = T.defined(f, i.x['callee'].v)
    if g is None or not own(g) or not in_solver(g): return bare(i) in ('ModelObject::GetFitStatistic', 'ModelObject::ComputeDeviates')
    if id(g) not in memo:
        memo[id(g)] = False
        memo[id(g)] = any(evaluates(T, g, x, memo) for x in g.insts())
    return memo[id(g)]
def solver_loops(c, T, flag):
    memo = {}; cand = {}; inside = set()
    for f in T.fns.values():
        if not own(f) or not in_solver(f): continue
        for h, names, depth in loops(f):
            ev = [i for nm in names for i in f.bmap[nm].insts if evaluates(T, f, i, memo)]
            if ev:
                cand.setdefault(id(f), []).append((f, h, names, depth, counted(f, h, names)))
                for i in ev:
                    g = T.defined(f, i.x['callee'].v) if i.x['callee'].k == 'global' else None
                    if g is not None: inside.add(id(i))
    def nested(f, n=0):
        cs = [(g, i) for g, i in T.callsites(id(f))]
        return bool(cs) and n < 6 and all(id(i) in inside or nested(g, n + 1) for g, i in cs)
    for fid, ls in cand.items():
        for f, h, names, depth, cnt in ls:
            if cnt and (depth > 0 or nested(f)): continue
            c.count('loops')
            w = Walk(T, flag, lambda g, i: None)
            bad = w.walk(f, h, len([i for i in h.insts if i.op == 'phi']), {}, head=h, names=names)[1]
            at = [i for nm in names for i in f.bmap[nm].insts if i.dbg and evaluates(T, f, i, memo)]
            c.count('states', w.nstates)
            c.obligation(bad is None, name_of(f) + ':goes on', loc_of(f, at[0]) if at else f.loc(), 'in %s a loop that evaluates the model can go round again after an interrupt' % name_of(f), sample='%s: the loop evaluating the model ends after an interrupt' % name_of(f))
def callbacks(c, T, flag):
    """functions called by NLopt end the optimisation after an interrupt"""
    opts = {}
    for f, i in calls_of(T, lambda d: d == 'nlopt_optimize'):
        o = i.x['args'][0]; opts[id(f)] = opts.get(id(f), []) + [(f, i, places(T, f, o))]
    for f, i in calls_of(T, lambda d: d in ('nlopt_set_min_objective', 'nlopt_set_max_objective')):
        g = T.defined(f, i.x['args'][1].v) if i.x['args'][1].k == 'global' else None; c.count('callbacks')
        if not c.obligation(g is not None, name_of(f) + ':objective', loc_of(f, i), 'the objective function cannot be followed'): continue
        tgt = {x for _, _, ps in opts.get(id(f), []) for x in ps}
        def stop(h, x):
            if x.op in ('call', 'invoke') and x.x['callee'].k == 'global' and bare(x) == 'nlopt_force_stop':
                return 'good' if places(T, h, x.x['args'][0]) & tgt else None
        g.body(); w = Walk(T, flag, stop); rets, bad, _ = w.walk(g, g.blocks[0], 0, {})
        c.obligation(not rets, '%s:%s:goes on' % (g.mod.key, name_of(g)), g.loc(), 'after an interrupt %s can return without stopping the optimiser that called it' % name_of(g), sample='%s (%s) stops the optimiser after an interrupt' % (name_of(g), g.mod.key))
def places(T, f, v):
    """global variables a value was read from or written to"""
    out = set()
    v = taint.strip(f, v)
    d = f.body().defs.get(v.v) if v.k == 'local' else None
    if d is not None and d.op == 'load' and d.ops[0].k == 'global': out.add(('g', full(f, d.ops[0].v)))
    for i in (f.uses().get(v.v, []) if v.k == 'local' else []):
        if i.op == 'store' and i.ops[0].k == 'local' and i.ops[0].v == v.v and i.ops[1].k == 'global': out.add(('g', full(f, i.ops[1].v)))
    return out
def full(f, g): return (f.mod.key, g)
def after_fit(c, T, flag):
    """what a program still does after an interrupted fit"""
    from . import outs
    for f, i in calls_of(T, lambda d: d == 'DispatchToSolver'):
        prog_ = f.mod.key.split('/')[-1].replace('_main.cpp', '')
        w = Walk(T, flag, lambda g, x: 'bad' if x.op in ('call', 'invoke') and x.x['callee'].k == 'global' and bare(x).startswith('BootstrapErrors') else None)
        bad = w.walk(f, i.bb, i.idx + 1, {})[1]
        c.count('states', w.nstates)
        c.obligation(bad is None, prog_ + ':bootstrap', loc_of(*bad) if bad else loc_of(f, i), '%s goes on to bootstrap resampling after an interrupted fit' % prog_, sample='%s: no bootstrap after an interrupt' % prog_)
        if prog_ != 'imfit': continue
        def opt_of(g, a):
            """offset of the option a string argument was taken from"""
            r = T.root(g, a); d = g.body().defs.get(a.v) if a.k == 'local' else None
            if r is not None and r[0] == 'alloca':
                for x in g.uses().get(r[1], []):
                    if x.op in ('call', 'invoke') and x.x['callee'].k == 'global' and re.search(r'basic_string<.*>::basic_string\(|::basic_string\(', dm(x.x['callee'].v)) and x.x['args'][0].v == r[1]: return field_of(T, g, x.x['args'][1])
            return field_of(T, g, a)
        names = {}
        for g in T.fns.values():
            if g.mod is not f.mod or not own(g): continue
            for x in g.insts():
                if x.op in ('call', 'invoke') and x.x['callee'].k == 'global' and bare(x) == 'SaveParameters': names[id(x)] = opt_of(g, x.x['args'][2])
        def stop(g, x):
            if x.op in ('call', 'invoke') and x.x['callee'].k == 'global':
                if bare(x) == 'SaveVectorAsImage': return 'bad'
                if id(x) in names: return 'bad' if names[id(x)] != 'interruptedParameterFileName' else None
        w = Walk(T, flag, stop); bad = w.walk(f, i.bb, i.idx + 1, {})[1]; c.count('states', w.nstates)
        c.obligation(bad is None, prog_ + ':outputs', loc_of(*bad) if bad else loc_of(f, i), 'after an interrupted fit %s saves results as if they were the best fit' % prog_, sample='%s: after an interrupt only the special file is written' % prog_)
        kept = [x for x in names if names[x] == 'interruptedParameterFileName']
        c.obligation(bool(kept), prog_ + ':special', loc_of(f, i), 'the parameters reached before the interrupt are not saved', sample='parameters saved in the special file')
def field_of(T, g, v):
    d = g.body().defs.get(v.v) if v.k == 'local' else None
    if d is None or d.op != 'getelementptr' or d.x['bt'].k not in ('named',): return None
    m = re.match(r'%"?(class|struct)\.(\w+)', d.x['bt'].a); off, n = T.gep(g, d)
    if not m: return None
    try: F = everything().fields(m.group(2))[0]
    except Exception: return None
    return next((k for k, o in F.items() if o == off), None)
def interrupted_sample(c, T, flag):
    """a bootstrap fit cut short by an interrupt is not stored among the results"""
    for f, i in calls_of(T, lambda d: d in SOLVER_FNS):
        if f.mod.key != 'core/bootstrap_errors.cpp': continue
        ls = [(h, names) for h, names, d in loops(f) if i.bb.name in names]
        if not ls: continue
        c.count('bootstrap fits')
        outp = {nm for nm, ty in f.params if ty.k == 'ptr'}
        def stop(g, x):
            if g is not f: return None
            if x.op == 'store' and x.ops[1].k == 'local' and from_param(f, x.ops[1], outp): return 'bad'
            if x.op in ('call', 'invoke') and x.x['callee'].k == 'global' and bare(x) in ('fprintf', 'fputs', 'fwrite') and from_param(f, x.x['args'][0] if bare(x) == 'fprintf' else x.x['args'][-1], outp): return 'bad'
        w = Walk(T, flag, stop); bad = w.walk(f, i.bb, i.idx + 1, {}, head=ls[0][0])[1]; c.count('states', w.nstates)
        c.obligation(bad is None, name_of(f) + ':sample', loc_of(*bad) if bad else loc_of(f, i), 'after an interrupt %s stores a bootstrap fit that was cut short (or starts another)' % name_of(f), sample='%s: interrupted bootstrap fit is dropped' % name_of(f))
def from_param(f, v, names, n=0):
    while v.k == 'local' and n < 20:
        n += 1
        if v.v in names: return True
        d = f.body().defs.get(v.v)
        if d is None or d.op not in ('getelementptr', 'load', 'bitcast', 'phi'): return False
        v = d.ops[0]
    return False
TABLE = {'S03': S03, 'S04': S04}

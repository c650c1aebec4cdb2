"""What is still possible once a flag is set: walks over the control flow of a function with the value of the flag known.
Registers whose value follows from the flag and from constants are followed; every other decision is explored both ways."""
import re
from .build import dm
from .ir import iter_operands
from .taint import own, loc_of
LIMIT = 60000
class TooMany(Exception): pass
def liveness(f):
    if hasattr(f, '_livein'): return f._livein
    f.body(); use = {}; dfn = {}; phi = {}
    for b in f.blocks:
        u = set(); d = set()
        for i in b.insts:
            if i.op == 'phi':
                for o, q in zip(i.ops, i.x['blocks']):
                    if o.k == 'local': phi.setdefault((blk(f, q).name, b.name), set()).add(o.v)
            else:
                for o in iter_operands(i):
                    if o.k == 'local' and o.v not in d: u.add(o.v)
            if i.res: d.add(i.res)
        use[b.name] = u; dfn[b.name] = d
    live = {b.name: set() for b in f.blocks}; ch = True
    while ch:
        ch = False
        for b in reversed(f.blocks):
            out = set()
            for c in b.succs: out |= live[c.name] | phi.get((b.name, c.name), set())
            n = use[b.name] | (out - dfn[b.name])
            if n != live[b.name]: live[b.name] = n; ch = True
    f._livein = live; f._liveedge = phi
    return live
def blk(f, q): return f.bmap[q if q in f.bmap else '%' + q.strip('%"')]
def sccs(blocks, within):
    """strongly connected parts of the blocks in `within` (Tarjan, iterative)"""
    idx = {}; low = {}; st = []; on = set(); out = []; n = 0
    for r in blocks:
        if r.name not in within or r.name in idx: continue
        work = [(r, iter(r.succs))]; idx[r.name] = low[r.name] = n; n += 1; st.append(r); on.add(r.name)
        while work:
            v, it = work[-1]; adv = False
            for w in it:
                if w.name not in within: continue
                if w.name not in idx:
                    idx[w.name] = low[w.name] = n; n += 1; st.append(w); on.add(w.name); work.append((w, iter(w.succs))); adv = True; break
                elif w.name in on: low[v.name] = min(low[v.name], idx[w.name])
            if adv: continue
            work.pop()
            if work: low[work[-1][0].name] = min(low[work[-1][0].name], low[v.name])
            if low[v.name] == idx[v.name]:
                c = []
                while True:
                    w = st.pop(); on.discard(w.name); c.append(w)
                    if w is v: break
                if len(c) > 1 or v in v.succs: out.append(c)
    return out
def loops(f, blocks=None, within=None, depth=0):
    """[(header, {block names}, depth)] of a function, outermost first"""
    f.body()
    if within is None: blocks, within = f.blocks, {b.name for b in f.blocks}
    out = []
    for c in sccs(blocks, within):
        names = {b.name for b in c}
        ent = [b for b in c if b is f.blocks[0] or any(p.name not in names for p in b.preds)] or [c[-1]]
        h = ent[0]; out.append((h, names, depth))
        out += loops(f, c, names - {h.name}, depth + 1)
    return out
def counted(f, h, names):
    """the loop ends when a counter reaches a bound fixed before it starts"""
    phis = {i.res for i in h.insts if i.op == 'phi' and i.ty.k == 'int'}
    def counter(o, n=0):
        if o.k != 'local' or n > 4: return False
        if o.v in phis:
            d = f.defs[o.v]
            return any(step(x, o.v) for x, q in zip(d.ops, d.x['blocks']) if blk(f, q).name in names)
        d = f.defs.get(o.v)
        return d is not None and d.op in ('zext', 'sext', 'trunc', 'add', 'sub') and counter(d.ops[0], n + 1)
    def step(x, p, n=0):
        d = f.defs.get(x.v) if x.k == 'local' else None
        return d is not None and n < 4 and (d.op in ('add', 'sub') and d.ops[0].k == 'local' and d.ops[0].v == p and d.ops[1].k == 'int' and d.ops[1].v != 0)
    def fixed(o, n=0):
        if o.k in ('int', 'global', 'null'): return True
        if o.k != 'local' or n > 6: return False
        d = f.defs.get(o.v)
        if d is None or d.bb.name not in names: return True
        if d.op in ('load',): return True            # re-read bound: a bound all the same
        return d.op in ('zext', 'sext', 'trunc', 'add', 'sub', 'mul') and all(fixed(x, n + 1) for x in d.ops)
    for nm in names:
        b = f.bmap[nm]; t = b.term
        if t.op != 'br' or not t.ops or all(s.name in names for s in b.succs): continue
        d = f.defs.get(t.ops[0].v) if t.ops[0].k == 'local' else None
        if d is not None and d.op == 'icmp' and ((counter(d.ops[0]) and fixed(d.ops[1])) or (counter(d.ops[1]) and fixed(d.ops[0]))): return True
    return False
def wrap(v, ty):
    n = ty.a if ty is not None and ty.k == 'int' else 64
    v &= (1 << n) - 1
    return v
PRED = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'ult': lambda a, b: a < b, 'ule': lambda a, b: a <= b, 'ugt': lambda a, b: a > b, 'uge': lambda a, b: a >= b}
SPRED = {'slt': lambda a, b: a < b, 'sle': lambda a, b: a <= b, 'sgt': lambda a, b: a > b, 'sge': lambda a, b: a >= b}
def sgn(v, ty):
    n = ty.a if ty.k == 'int' else 64
    return v - (1 << n) if v >> (n - 1) & 1 else v
class Walk:
    """flag: {name of a global: value}; stop(f, i) -> 'good' (this path needs no further look), 'bad' or None"""
    def __init__(s, T, flag, stop): s.T, s.flag, s.stop = T, flag, stop; s.memo = {}; s.nstates = 0; s.mention = {}
    def val(s, env, o):
        if o.k == 'int': return frozenset([wrap(o.v, o.ty)])
        if o.k == 'local': return env.get(o.v)
        if o.k == 'null': return frozenset([0])
        return None
    def concerns(s, g, seen=()):
        """does the function read the flag or do one of the things looked for?"""
        if id(g) in s.mention: return s.mention[id(g)]
        s.mention[id(g)] = False; r = False
        for i in g.insts():
            if i.op == 'load' and any(o.k == 'global' and o.v in s.flag for o in iter_operands(i)): r = r or True
            if s.stop(g, i): r = 'stop'; break
            if i.op in ('call', 'invoke') and i.x['callee'].k == 'global':
                h = s.T.defined(g, i.x['callee'].v)
                if h is not None and own(h) and h is not g:
                    r = s.concerns(h) or r
                    if r == 'stop': break
        s.mention[id(g)] = r
        return r
    def step(s, f, i, env):
        """-> 'good' | 'bad' | None, updating env"""
        r = s.stop(f, i)
        if r: return r
        op = i.op
        if op == 'load':
            p = i.ops[0]
            if p.k == 'global' and p.v in s.flag: env[i.res] = frozenset([wrap(s.flag[p.v], i.ty)]); return None
            k = s.place(f, p)
            if k is not None and k in env and i.ty.k == 'int': env[i.res] = env[k]
            return None
        if op == 'store':
            k = s.place(f, i.ops[1])
            if k is None:
                for q in [q for q in env if isinstance(q, tuple)]: del env[q]
                return None
            for q in [q for q in env if isinstance(q, tuple) and q[0] != 'alloca' and k[0] != 'alloca' and q != k]: del env[q]
            v = s.val(env, i.ops[0])
            if v is None: env.pop(k, None)
            else: env[k] = v
            return None
        if op in ('call', 'invoke'):
            nm = i.x['callee'].v if i.x['callee'].k == 'global' else None
            if nm and nm.startswith('@llvm.'): return None
            g = s.T.defined(f, nm) if nm else None
            if g is not None and own(g) and g is not f and s.concerns(g):
                a = tuple(s.val(env, x) for x in i.x['args']); rets, bad = s.summary(g, a)
                if bad: return 'bad'
                for q in [q for q in env if isinstance(q, tuple)]: del env[q]
                if not rets: return 'good'
                if i.res and None not in rets:
                    v = frozenset().union(*rets)
                    if len(v) <= 12: env[i.res] = v
                return None
            d = dm(nm) if nm else ''
            if not re.match(r'^@?(printf|fprintf|puts|fputs|putchar|fputc|fwrite|fflush|free|operator delete|gettimeofday|fabs|sqrt)', d):
                for q in [q for q in env if isinstance(q, tuple)]: del env[q]
            return None
        if i.res:
            v = None; o = i.ops
            if op == 'icmp':
                pr = i.x['pred']; v = s.lift(lambda a, b: int(PRED[pr](a, b)) if pr in PRED else int(SPRED[pr](sgn(a, o[0].ty), sgn(b, o[0].ty))), env, o)
            elif op in ('zext', 'trunc', 'freeze'): v = s.lift(lambda a: wrap(a, i.ty), env, o)
            elif op == 'sext': v = s.lift(lambda a: wrap(sgn(a, o[0].ty), i.ty), env, o)
            elif op == 'select':
                c = s.val(env, o[0])
                if c is not None and len(c) == 1: v = s.val(env, o[1] if 1 in c else o[2])
                elif s.val(env, o[1]) is not None and s.val(env, o[2]) is not None: v = s.val(env, o[1]) | s.val(env, o[2])
            elif op in ('and', 'or', 'xor'):      # no arithmetic: counters would be unrolled
                a, b = s.val(env, o[0]), s.val(env, o[1]); z, w = frozenset([0]), frozenset([1])
                if op == 'and' and (a == z or b == z): v = z
                elif op == 'or' and i.ty.k == 'int' and i.ty.a == 1 and (a == w or b == w): v = w
                else: v = s.lift(lambda a, b: wrap({'and': a & b, 'or': a | b, 'xor': a ^ b}[op], i.ty), env, o)
            if v is not None and len(v) <= 12: env[i.res] = v
        return None
    def lift(s, fn, env, ops):
        vs = [s.val(env, o) for o in ops]
        if any(v is None for v in vs): return None
        import itertools
        return frozenset(fn(*x) for x in itertools.product(*vs))
    def place(s, f, p):
        r = s.T.root(f, p)
        return (r[0], r[1], r[2]) if r is not None and r[2] is not None and r[0] in ('alloca', 'param', 'global') else None
    def summary(s, g, a):
        key = (id(g), a)
        if key in s.memo: return s.memo[key]
        s.memo[key] = ({None}, None)                   # recursion: unknown
        g.body(); env = {nm: v for (nm, ty), v in zip(g.params, a) if v is not None}
        try: rets, bad, _ = s.walk(g, g.blocks[0], 0, env, limit=LIMIT // 10)
        except TooMany:
            if s.concerns(g) == 'stop': raise
            rets, bad = {None}, None                   # what it returns is not known
        s.memo[key] = (rets, bad)
        return s.memo[key]
    def walk(s, f, b, k, env, head=None, names=None, limit=LIMIT):
        """-> (return values, instruction reached that must not be (or the block of `head` reached again), trail)"""
        live = liveness(f); seen = set(); work = [(b, k, env, None)]; rets = set(); n = 0
        while work:
            b, k, env, came = work.pop(); env = dict(env)
            n += 1; s.nstates += 1
            if n > limit: raise TooMany(dm(f.name))
            if came is not None:
                key = (b.name, came.name if any(i.op == 'phi' for i in b.insts[:1]) else '', frozenset(env.items()))
                if key in seen: continue
                seen.add(key)
                new = {}
                for i in b.insts:
                    if i.op != 'phi': break
                    for o, q in zip(i.ops, i.x['blocks']):
                        if blk(f, q) is came: new[i.res] = s.val(env, o)
                for r, v in new.items():
                    if v is None: env.pop(r, None)
                    else: env[r] = v
                k = 0
            done = False
            for i in b.insts[k:]:
                if i.op == 'phi': continue
                if i.res: env.pop(i.res, None)
                r = s.step(f, i, env)
                if r == 'good': done = True; break
                if r == 'bad': return rets, (f, i), None
                if i.op == 'ret': rets.add(s.val(env, i.ops[0]) if i.ops else None)
            if done: continue
            t = b.term; nxt = b.succs
            if t.op == 'br' and t.ops:
                c = s.val(env, t.ops[0])
                if c is not None: nxt = [b.succs[0 if x else 1] for x in c]
            elif t.op == 'switch':
                c = s.val(env, t.ops[0])
                if c is not None:
                    cs = {wrap(v if isinstance(v, int) else v.v, t.ops[0].ty): sx for (v, q), sx in zip(t.x['cases'], b.succs[1:])}
                    nxt = [cs.get(x, b.succs[0]) for x in c]
            elif t.op == 'invoke': nxt = b.succs[:1]                # the exceptional way out ends the fit
            for x in nxt:
                if head is not None and x is head: return rets, (f, t), None
                if names is not None and x.name not in names: continue
                keep = live[x.name] | f._liveedge.get((b.name, x.name), set())
                work.append((x, 0, {q: v for q, v in env.items() if isinstance(q, tuple) or q in keep}, b))
        return rets, None, None

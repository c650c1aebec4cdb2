"""Gated value numbering of LLVM IR functions.

A function is turned, without executing it, into closed terms (see cas.py): every SSA
name gets one decision diagram over the function's inputs; joins become gates, loops
become recurrences (inductions, sums) solved once, calls are composed, stack slots and
object fields are tracked by (object, byte offset).  There is no path enumeration and no
solver: each block is visited once per enclosing loop summary.
"""
import re
from fractions import Fraction
from .cas import *
from . import cas
from .build import dm, AnalysisError
from . import ir, strs

def trip_count(K):
    """N for a trip count max(N, 0) or a constant"""
    if isinstance(K, Leaf): return K.v if isinstance(K.v, Poly) else None
    for l in leaves(K):
        if isinstance(l, Poly) and l.terms and (K is ite(vcmp('>', leaf(l), N(0)), leaf(l), N(0)) or K is ite(vcmp('>', N(1), leaf(l)), N(0), leaf(l))): return l
    return None

class Unsupported(Exception):
    pass

# ------------------------------------------------------------------ CFG helpers
class CFG:
    def __init__(s, fn, follow_unwind=False):
        fn.body()
        s.fn = fn
        s.entry = fn.blocks[0]
        s.succ = {}
        for b in fn.blocks:
            l = list(b.succs)
            if b.term.op == 'invoke' and not follow_unwind: l = l[:1]
            s.succ[b] = l
        # reachable, postorder
        seen = set(); order = []
        st = [(s.entry, iter(s.succ[s.entry]))]; seen.add(s.entry)
        while st:
            b, it = st[-1]
            for c in it:
                if c not in seen:
                    seen.add(c); st.append((c, iter(s.succ[c]))); break
            else:
                order.append(b); st.pop()
        s.rpo = order[::-1]
        s.num = {b: i for i, b in enumerate(s.rpo)}
        s.pred = {b: [] for b in s.rpo}
        for b in s.rpo:
            for c in s.succ[b]:
                s.pred[c].append(b)
        # blocks from which the function cannot return (exit, abort, failed assertion)
        live = {b for b in s.rpo if b.term.op == 'ret'}
        st = list(live)
        while st:
            for q in s.pred[st.pop()]:
                if q not in live: live.add(q); st.append(q)
        s.doomed = {b for b in s.rpo if b not in live} if s.entry in live else set()
        # dominators
        idom = {s.entry: s.entry}
        ch = True
        while ch:
            ch = False
            for b in s.rpo[1:]:
                new = None
                for p in s.pred[b]:
                    if p in idom:
                        new = p if new is None else s._inter(idom, p, new)
                if idom.get(b) is not new:
                    idom[b] = new; ch = True
        s.idom = idom
        # natural loops
        s.loops = {}
        for b in s.rpo:
            for c in s.succ[b]:
                if s.dominates(c, b):
                    body = s.loops.setdefault(c, set([c]))
                    st = [b]
                    while st:
                        q = st.pop()
                        if q in body: continue
                        body.add(q); st.extend(s.pred[q])
                elif s.num[c] <= s.num[b]:
                    raise Unsupported('irreducible')
        # what happens on the way from a loop into a block the function does not return from
        s.tail = {}
        for h, body in s.loops.items():
            t = set(); st = [c for b in body for c in s.succ[b] if c not in body and c in s.doomed]
            while st:
                c = st.pop()
                if c in t or c in s.loops: continue
                t.add(c); st.extend(s.succ[c])
            s.tail[h] = t
        s.inner = {}
        for b in s.rpo:
            best = None
            for h, body in s.loops.items():
                if b in body and (best is None or len(body) < len(s.loops[best])): best = h
            s.inner[b] = best
    def _inter(s, idom, a, b):
        while a is not b:
            while s.num[a] > s.num[b]: a = idom[a]
            while s.num[b] > s.num[a]: b = idom[b]
        return a
    def dominates(s, a, b):
        while True:
            if a is b: return True
            if b is s.entry: return False
            b = s.idom[b]

_cfgs = {}
def cfg_of(fn):
    c = _cfgs.get(fn)
    if c is None:
        c = _cfgs[fn] = CFG(fn)
    return c

# ------------------------------------------------------------------ memory
class Mem:
    __slots__ = ('d', 'ranges', 'clob', 'log')
    def __init__(s):
        s.d = {}; s.ranges = (); s.clob = {}; s.log = ()
    def copy(s):
        m = Mem(); m.d = dict(s.d); m.ranges = s.ranges; m.clob = dict(s.clob); m.log = s.log
        return m

PURE = {
 'sqrt': 'sqrt', 'exp': 'exp', 'pow': 'pow', 'fabs': 'abs', 'log': 'log', 'log10': 'log10', 'log2': 'log2', 'sin': 'sin', 'cos': 'cos', 'tan': 'tan',
 'cosh': 'cosh', 'sinh': 'sinh', 'tanh': 'tanh', 'atan': 'atan', 'atan2': 'atan2', 'asin': 'asin', 'acos': 'acos', 'floor': 'floor', 'ceil': 'ceil',
 'round': 'round', 'trunc': 'trunc', 'rint': 'rint', 'nearbyint': 'rint', 'hypot': 'hypot', 'tgamma': 'tgamma', 'lgamma': 'lgamma', 'cbrt': 'cbrt', 'exp2': 'exp2',
 'fmod': 'fmod', 'erf': 'erf', 'log1p': 'log1p', 'expm1': 'expm1', 'abs': 'abs', 'labs': 'abs', 'exp10': 'exp10',
 'gsl_pow_2': ('ip', 2), 'gsl_pow_3': ('ip', 3), 'gsl_pow_4': ('ip', 4),
}
def pure_name(n):
    n = n.lstrip('@')
    if n.startswith('llvm.'):
        p = n.split('.')
        return PURE.get(p[1])
    if n in PURE: return PURE[n]
    if n.startswith('gsl_sf_') and not n.endswith('_e'): return n
    return None

class Event:
    __slots__ = ('kind', 'fn', 'inst', 'name', 'ptr', 'val', 'args', 'pc', 'loops', 'res')
    def __init__(s, kind, fn, inst, pc, name=None, ptr=None, val=None, args=()):
        s.kind, s.fn, s.inst, s.pc, s.name, s.ptr, s.val, s.args, s.loops, s.res = kind, fn, inst, pc, name, ptr, val, args, (), None
    def subst(s, env):
        if s.ptr is not None: s.ptr = subst(s.ptr, env)
        if s.val is not None: s.val = subst(s.val, env)
        s.args = tuple(subst(a, env) for a in s.args)
        if s.res is not None: s.res = subst(s.res, env)
        s.pc = subst(s.pc, env)
        s.loops = tuple((k, subst(K, env)) for k, K in s.loops)
    def __repr__(s): return '%s %s' % (s.kind, s.name or s.ptr)

class Machine:
    MAXDEPTH = 40
    def __init__(s, prog, names=None, hooks=None):
        s.prog = prog
        s.names = names or {}        # obj -> {offset: field name}
        s.hooks = hooks or {}
        s.notes = []                 # opaque calls etc.
        s.calls = []                 # (fn, callee) executed
        s.nalloca = 0
        s.analysed = set()
        s.stores = []
        s.trace = False              # record store/call events with their loop context
        s.events = []
        s.exitinfo = {}              # opaque choice of a loop exit -> (counter, which, conditions of all exits, also returns)
        s.cur = None
        s.strings = False            # treat std::string objects as terms
        s.virt = None                # resolver of virtual calls: callee value -> function name or 'virt:Method'
    def string_event(s, fr, ptr, val, delta=None, old=None):
        # res: the text appended, when the operation appends; args[0]: contents before
        e = Event('store', fr.fn, fr.cur_inst, TRUE, ptr=ptr, val=val, args=(old,) if old is not None else ())
        e.res = delta; s.events.append(e)
    # -------- symbolic initial contents
    def symname(s, obj, off):
        nm = s.names.get(obj)
        if nm and off in nm: return nm[off]
        return '%s@%s' % (show_obj(obj), off)
    def load(s, mem, p, ty, inst=None):
        if not isinstance(p, Ptr): return leaf(psym('<load of %s>' % (p,)))
        obj, off = p.obj, p.off
        if is_num(off):
            o = int(numval(off))
            v = mem.d.get((obj, o))
            if v is not None: return v
            for lo, hi, ob, val in reversed(mem.ranges):
                if ob == obj and lo <= o < hi: return val
            if obj in mem.clob:
                return s._opaque(obj, off, ty, mem.clob[obj])
            g = s._global(obj, o, ty)
            if g is not None: return g
            if ty.k == 'ptr': return leaf(Ptr(('*', obj, o), ZERO))
            if isinstance(obj, tuple) and obj not in s.names and Ptr(obj, ZERO).objsyms(): return s._opaque(obj, off, ty, None)
            return leaf(psym(s.symname(obj, o)))
        # symbolic offset
        ver = mem.clob.get(obj); last = s._last(mem, obj)
        if last is not None and last[0] is off: return last[1]
        return s._opaque(obj, off, ty, ver)
    def _last(s, mem, obj):
        """(offset, value) of the last store to obj at a symbolic offset, when nothing wrote to obj since"""
        for (ob, of, val, ver) in reversed(mem.log):
            if ob == obj: return (of, val) if of is not None and mem.clob.get(obj) == ver else None
        return None
    def _opaque(s, obj, off, ty, ver):
        if ty.k == 'ptr': return leaf(Ptr(('*', obj, off) + ((ver,) if ver else ()), ZERO))
        return leaf(patom(atom('load', obj, off, *((ver,) if ver else ()))))
    def _global(s, obj, o, ty):
        if isinstance(obj, tuple) and obj and obj[0] == 'glob':
            m, g = s.prog.glob(obj[1], obj[2] if len(obj) > 2 else None)
            if g and g[0]:
                v = s._ginit_at(m, g[1], g[2], o)
                if v is not None: return s.const(v, m)
            elif g:
                # a mutable global: symbolic unless never written is proven elsewhere
                return None
        return None
    def _ginit_at(s, m, t, v, o):
        t = m.resolve(t)
        if v.k == 'zero':
            return ir.V('int', 0, ir.INT(64)) if True else None
        if v.k == 'str':
            raw = m.cstring  # unused for numbers
            return None
        if t.k in ('array', 'vector') and v.k == 'agg':
            sz, _ = m.size_align(t.b)
            i = o // sz
            if i >= len(v.v): return None
            return s._ginit_at(m, t.b, v.v[i], o - i * sz)
        if t.k in ('struct', 'packed') and v.k == 'agg':
            for j in range(len(t.a)):
                off, ft = m.field_offset(t, j)
                sz, _ = m.size_align(ft)
                if off <= o < off + sz: return s._ginit_at(m, ft, v.v[j], o - off)
            return None
        return v if o == 0 else None
    def store(s, mem, p, v, pc=TRUE):
        """mutates mem"""
        if not isinstance(p, Ptr):
            s.notes.append(('store-unknown', str(p))); return
        if is_num(p.off):
            k = (p.obj, int(numval(p.off)))
            mem.d[k] = v
            if s._last(mem, p.obj) is not None: mem.log = mem.log + ((p.obj, None, None, None),)
        else:
            mem.clob[p.obj] = ver = fresh('v'); mem.log = mem.log + ((p.obj, p.off, v, ver),)
            for k in [k for k in mem.d if k[0] == p.obj]: del mem.d[k]
        s.stores.append((p, v))
    def mem_ite(s, c, a, b):
        if a is b: return a
        m = Mem()
        for k in set(a.d) | set(b.d):
            va = a.d.get(k); vb = b.d.get(k)
            if va is None: va = s._init_for(a, k, vb)
            if vb is None: vb = s._init_for(b, k, va)
            if va is vb: m.d[k] = va
            else: m.d[k] = ite(c, va, vb)
        m.ranges = a.ranges if a.ranges == b.ranges else (a.ranges if len(a.ranges) > len(b.ranges) else b.ranges)
        k = 0
        while k < len(a.log) and k < len(b.log) and a.log[k] is b.log[k]: k += 1
        m.log = a.log[:k]; differ = {x[0] for x in a.log[k:] + b.log[k:]}
        for o in set(a.clob) | set(b.clob):
            if a.clob.get(o) == b.clob.get(o):
                m.clob[o] = a.clob[o]
                if o not in differ: continue
                ver = a.clob[o]
            else: m.clob[o] = ver = fresh('v')
            la, lb = s._last(a, o), s._last(b, o)
            if la is not None and lb is not None and la[0] is lb[0]: m.log = m.log + ((o, la[0], la[1] if la[1] is lb[1] else ite(c, la[1], lb[1]), ver),)
            elif o in differ: m.log = m.log + ((o, None, None, None),)
        return m
    def _init_for(s, mem, k, like):
        isptr = any(isinstance(x, Ptr) for x in leaves(like))
        return s.load(mem, Ptr(k[0], num(k[1])), ir.PTR if isptr else ir.DOUBLE)
    # -------- operands
    def const(s, v, m):
        k = v.k
        if k == 'int': return leaf(num(v.v)) if v.ty.k == 'int' and v.ty.a != 1 else (TRUE if v.v else FALSE)
        if k == 'fp': return leaf(num(v.v))
        if k == 'null': return leaf(Ptr('null', ZERO))
        if k == 'undef': return BOT
        if k == 'zero':
            return leaf(num(0)) if v.ty.k in ('int', 'double', 'float') else (leaf(Ptr('null', ZERO)) if v.ty.k == 'ptr' else s._zagg(v.ty, m))
        if k == 'global':
            ln = m.globals.get(v.v)
            # module-private symbols of different modules may share a name
            if ln is not None and re.match(r'(private|internal) ', ln): return leaf(Ptr(('glob', v.v, m.key), ZERO))
            return leaf(Ptr(('glob', v.v), ZERO))
        if k == 'cexpr':
            op, t, ops = v.v
            if op == 'getelementptr':
                base = s.const(ops[0], m)
                return s.gep(m, t, base, [s.const(o, m) for o in ops[1:]], ops[1:])
            if op in ('bitcast', 'addrspacecast', 'ptrtoint', 'inttoptr'): return s.const(ops[0], m)
            return leaf(psym('<cexpr %s>' % op))
        if k == 'agg': return leaf(Agg([s.const(x, m) for x in v.v]))
        return leaf(psym('<%s %s>' % (k, v.v)))
    def _zagg(s, ty, m):
        t = m.resolve(ty)
        if t.k == 'struct': return leaf(Agg([s.const(ir.V('zero', None, f), m) for f in t.a]))
        return leaf(psym('<zeroagg>'))
    def gep(s, m, bt, base, idx, raw):
        # byte offset as value
        off = N(0)
        t = bt
        for j, iv in enumerate(idx):
            if j == 0:
                sz, _ = m.size_align(t)
                off = vadd(off, vmul(iv, N(sz)))
            else:
                t = m.resolve(t)
                if t.k in ('struct', 'packed'):
                    fo, t = m.field_offset(t, raw[j].v)
                    off = vadd(off, N(fo))
                else:
                    t = t.b
                    sz, _ = m.size_align(t)
                    off = vadd(off, vmul(iv, N(sz)))
        def f(b, o):
            if isinstance(b, Ptr): return leaf(Ptr(b.obj, cas.add(b.off, o)))
            if isinstance(b, Poly): return leaf(Ptr(('int', b), o))
            return BOT
        return apply(f, 'gep', base, off)
    # -------- function evaluation
    def call(s, fn, args, mem, depth=0):
        """returns (value, mem, reachable condition)"""
        if depth > s.MAXDEPTH: raise Unsupported('recursion depth at ' + fn.name)
        fn.body()
        s.analysed.add(fn.name)
        fr = Frame(s, fn, args, depth)
        return fr.run(mem)

class Frame:
    def __init__(s, mach, fn, args, depth):
        s.m, s.fn, s.depth = mach, fn, depth
        s.mod = fn.mod
        s.env = {}
        for (nm, t), a in zip(fn.params, args): s.env[nm] = a
        s.cfg = cfg_of(fn)
        s.rets = []
        s.edgeval = {}
        mach.nalloca += 1
        s.fid = mach.nalloca
    def val(s, v):
        if v.k == 'local':
            r = s.env.get(v.v)
            if r is None: return leaf(psym('<undef %s:%s>' % (s.fn.name, v.v)))
            return r
        return s.m.const(v, s.mod)
    def run(s, mem):
        backs, exits, rets = s.region(set(s.cfg.rpo), s.cfg.entry, TRUE, mem)
        if not rets:
            return BOT, mem, FALSE
        v, m, pc = rets[-1][1], rets[-1][2], rets[-1][0]
        for (p, vv, mm) in reversed(rets[:-1]):
            v = ite(p, vv, v); m = s.m.mem_ite(p, mm, m); pc = bor(pc, p)
        # restore canonical form over unreachable combos
        return v, m, pc
    def region(s, blocks, header, pc0, mem0, phis=None):
        """evaluate blocks once; returns (backedges, exits, rets)
        backedge: (pc, block, mem) ; exit: (pc, src, dst, mem)"""
        cfg = s.cfg
        order = [b for b in cfg.rpo if b in blocks]
        inc = {header: [(pc0, None, mem0)]}
        backs, exits, rets = [], [], []
        done = set()
        for b in order:
            if b in done: continue
            ins = inc.get(b)
            if not ins: continue
            if b is not header and b in cfg.loops and cfg.loops[b] <= blocks:
                L = cfg.loops[b]
                done |= L
                if s.m.trace and cfg.tail[b]:
                    L = L | cfg.tail[b]
                    done |= {x for x in cfg.tail[b] if all(y in L for y in cfg.pred[x])}
                pc, mem = s.merge(ins)
                if pc is FALSE: continue
                outs, lrets = s.loop(b, L, ins, pc, mem)
                for (p, src, dst, mm) in outs:
                    s.edge(p, src, dst, mm, header, blocks, inc, backs, exits)
                rets += lrets
                continue
            done.add(b)
            pc, mem = s.merge(ins)
            if pc is FALSE: continue
            mem = mem.copy()
            # phis
            if not (b is header and phis is not None):
                new = {}
                for i in b.insts:
                    if i.op != 'phi': break
                    new[i.res] = s.phi(i, ins)
                s.env.update(new)
            alive = True
            for i in b.insts:
                if i.op in ('phi', 'dbg'): continue
                r = s.inst(i, mem, pc)
                if r is not None: mem = r
            t = b.term
            if t.op == 'ret':
                rets.append((pc, s.val(t.ops[0]) if t.ops else BOT, mem))
            elif t.op == 'br':
                tg = b.succs
                if len(tg) == 1: s.edge(pc, b, tg[0], mem, header, blocks, inc, backs, exits)
                else:
                    c = s.bool(s.val(t.ops[0]))
                    # execution that continues at all took the side that can return
                    d = [s.m.trace and x in s.cfg.doomed for x in tg]
                    s.edge(pc if d[1] and not d[0] else band(pc, c), b, tg[0], mem, header, blocks, inc, backs, exits)
                    s.edge(pc if d[0] and not d[1] else band(pc, bnot(c)), b, tg[1], mem, header, blocks, inc, backs, exits)
            elif t.op == 'switch':
                v = s.val(t.ops[0]); rest = pc
                agg = {}
                for (cv, tgt), dst in zip(t.x['cases'], b.succs[1:]):
                    c = band(rest, vcmp('==', v, N(cv)))
                    agg.setdefault(dst, []).append(c)
                    rest = band(rest, bnot(vcmp('==', v, N(cv))))
                agg.setdefault(b.succs[0], []).append(rest)
                for dst, cs in agg.items():
                    c = FALSE
                    for q in cs: c = bor(c, q)
                    s.edge(c, b, dst, mem, header, blocks, inc, backs, exits)
            elif t.op == 'invoke':
                s.edge(pc, b, b.succs[0], mem, header, blocks, inc, backs, exits)
        return backs, exits, rets
    def edge(s, pc, src, dst, mem, header, blocks, inc, backs, exits):
        if pc is FALSE or pc is BOT: return
        if s.m.trace and dst in s.cfg.doomed and src not in s.cfg.doomed and dst not in blocks: return
        if dst is header: backs.append((pc, src, mem))
        elif dst not in blocks: exits.append((pc, src, dst, mem))
        else: inc.setdefault(dst, []).append((pc, src, mem))
    def merge(s, ins):
        pc, src, mem = ins[-1]
        for (p, _, m) in reversed(ins[:-1]):
            mem = s.m.mem_ite(p, m, mem)
            pc = bor(pc, p)
        return pc, mem
    def phi(s, i, ins):
        def inv(src):
            ov = s.edgeval.get((src.name, i.res))
            if ov is not None: return ov
            for v, b in zip(i.ops, i.x['blocks']):
                if b == src.name: return s.val(v)
            return BOT
        r = inv(ins[-1][1])
        for (p, src, _) in reversed(ins[:-1]):
            r = ite(p, inv(src), r)
        return r
    def bool(s, v):
        def f(x):
            if isinstance(x, bool): return TRUE if x else FALSE
            if isinstance(x, Poly): return bnot(cmp_norm('==', x))
            return node(atom('cmp', 'opq', str(x)), TRUE, FALSE)
        return apply(f, 'bool', v)
    # ---------------- loops
    def loop(s, h, L, ins, pc, mem):
        m = s.m
        phis = [i for i in h.insts if i.op == 'phi']
        init = {}
        for i in phis: init[i.res] = s.phi(i, ins)
        symof = {}
        for i in phis:
            nm = fresh('$L')
            symof[i.res] = nm
            if i.ty.k == 'ptr':
                lv = [x for x in leaves(init[i.res]) if isinstance(x, Ptr)]
                obj = lv[0].obj if lv else ('?',)
                s.env[i.res] = leaf(Ptr(obj, psym(nm)))
            else: s.env[i.res] = leaf(psym(nm))
        memsym = {}          # key -> symbol name
        memptr = {}          # key -> object, for pointer-valued entries
        havoc = {}           # pointer-valued entries that do not stay in one object
        clobbered = set(); killed = set()
        outer_env = dict(s.env)
        for it in range(8):
            if it == 0: mark = len(m.events); xmark = len(m.exitinfo)
            else: del m.events[mark:]
            start = mem.copy()
            for k, nm in memsym.items(): start.d[k] = leaf(Ptr(memptr[k], psym(nm))) if k in memptr else leaf(psym(nm))
            for k, w in havoc.items(): start.d[k] = w
            for o in clobbered:
                # what the loop itself writes to the object is not known at the start of a round
                start.clob[o] = fresh('v')
                for k in [k for k in start.d if k[0] == o and k in killed]: del start.d[k]
            if clobbered: start.log = tuple(x for x in start.log if x[0] not in clobbered)
            s.env = dict(outer_env)
            backs, exits, rets = s.region(L, h, TRUE, start, phis=True)
            new = False
            for (p, b, mm) in backs + [(e[0], e[1], e[3]) for e in exits]:
                for k, v in mm.d.items():
                    if k in memsym: continue
                    if start.d.get(k) is not v:
                        v0 = start.d.get(k)
                        if v0 is None and s.m.load(start, Ptr(k[0], num(k[1])), ir.PTR if any(isinstance(x, Ptr) for x in leaves(v)) else ir.DOUBLE) is v: continue
                        if k in havoc: continue
                        lv = leaves(v)
                        if any(isinstance(x, Agg) for x in lv): continue
                        if any(isinstance(x, Ptr) for x in lv):
                            i0 = mem.d.get(k)
                            ob = {x.obj for x in lv if isinstance(x, Ptr)} | ({x.obj for x in leaves(i0) if isinstance(x, Ptr)} if i0 is not None else {None})
                            if len(ob) == 1 and None not in ob: memptr[k] = ob.pop()
                            else:
                                havoc[k] = leaf(Ptr(('?', fresh('p')), ZERO)); new = True
                                continue
                        memsym[k] = fresh('$M'); new = True
                for k in start.d:
                    if k not in mm.d and k not in killed: killed.add(k); memsym.pop(k, None); clobbered.add(k[0]); new = True
                for o in mm.clob:
                    if mm.clob[o] is not start.clob.get(o) and mm.clob[o] != start.clob.get(o) and o not in clobbered:
                        clobbered.add(o); new = True
            if not new: break
        # recurrences
        C = FALSE
        for (p, b, mm) in backs: C = bor(C, p)
        nxt = {}; ini = {}
        for i in phis:
            nm = symof[i.res]
            v = None
            for (p, b, mm) in reversed(backs):
                w = None
                for x, bn in zip(i.ops, i.x['blocks']):
                    if bn == b.name: w = s.val(x)
                v = w if v is None else ite(p, w, v)
            nxt[nm] = v if v is not None else leaf(psym(nm))
            ini[nm] = init[i.res]
            if i.ty.k == 'ptr':
                f = lambda x: leaf(x.off) if isinstance(x, Ptr) else BOT
                nxt[nm] = apply(f, 'ptroff', nxt[nm]); ini[nm] = apply(f, 'ptroff', ini[nm])
        for k, nm in memsym.items():
            v = None
            for (p, b, mm) in reversed(backs):
                w = mm.d.get(k, leaf(Ptr(memptr[k], psym(nm))) if k in memptr else leaf(psym(nm)))
                v = w if v is None else ite(p, w, v)
            nxt[nm] = v if v is not None else leaf(psym(nm))
            ini[nm] = m.load(mem, Ptr(k[0], num(k[1])), ir.DOUBLE)
            if k in memptr:
                f = lambda x: leaf(x.off) if isinstance(x, Ptr) else BOT
                if v is None: nxt[nm] = leaf(psym(nm))
                else: nxt[nm] = apply(f, 'ptroff', nxt[nm])
                ini[nm] = apply(f, 'ptroff', ini[nm])
        # restrict to "continue" (literals that must hold)
        lits = s.literals(C)
        for nm in nxt:
            for var, val in lits: nxt[nm] = restrict(nxt[nm], var, val)
            nxt[nm] = within(nxt[nm], C)
        loopsyms = set(nxt)
        kname = fresh('$k')
        if getattr(m, 'rawloops', None) is not None:
            # keep the loop variables as they are after the last step; the caller reasons about one step
            m.rawloops.append(dict(fn=s.fn, ini=ini, nxt=nxt, cont=C, names=symof))
            ini = {nm: v for nm, v in ini.items()}
            sol = {nm: leaf(psym(nm)) for nm in nxt}
            K = leaf(psym(kname)); Ck = C
            raw = True
        else: raw = False
        if not raw: sol = {}
        prog = True
        todo = set() if raw else set(nxt)
        while prog and todo:
            prog = False
            for nm in sorted(todo, key=lambda z: int(z[2:])):
                # inductive constants: the initial value reproduces itself
                if ini[nm] is not BOT and not (syms(ini[nm]) & loopsyms):
                    w = subst(nxt[nm], {**sol, nm: ini[nm]})
                    if w is ini[nm]:
                        sol[nm] = ini[nm]; todo.discard(nm); prog = True; continue
                    others = {q: ini[q] for q in todo if q != nm and ini[q] is not BOT and not isinstance(ini[q], str)}
                    if nm in syms(nxt[nm]) or others:
                        pass
                d = vsub(nxt[nm], leaf(psym(nm)))
                if BOT in (d,): continue
                d = subst(d, {q: sol[q] for q in sol})
                sy = syms(d)
                if sy & todo: continue
                if kname not in sy and not (sy & loopsyms):
                    sol[nm] = vadd(ini[nm], vmul(leaf(psym(kname)), d))
                else:
                    j = fresh('$j')
                    sol[nm] = vadd(ini[nm], bind('sum', j, subst(d, {kname: psym(j)}), leaf(psym(kname))))
                todo.discard(nm); prog = True
        # assignments independent of own previous value
        for nm in sorted(todo):
            v = subst(nxt[nm], sol)
            rec = subst(nxt[nm], {q: w for q, w in sol.items() if not isinstance(w, str)})
            d = 1 + max([int(y[2:]) for y in syms(rec) if y[:2] in ('#u', '#m')] or [0])     # bound names: own value #u, iteration #m
            sol[nm] = leaf(patom(atom('mu', 'rec', ini[nm], subst(rec, {nm: psym('#u%d' % d), kname: psym('#m%d' % d)}), leaf(psym(kname)))))
        if not raw:
            Ck = subst(C, sol)
            K = s.trip(Ck, kname)
        final = {nm: subst(v, {kname: K}) for nm, v in sol.items()}
        # a variable set afresh in every iteration: after the loop it has the value of the last one
        if not raw:
            n_it = trip_count(K)
            for nm in sorted(todo):
                rec = subst(nxt[nm], {q: w for q, w in sol.items() if q != nm and not isinstance(w, str)})
                if n_it is None or syms(rec) & loopsyms or rec is BOT or ini[nm] is BOT or not isinstance(ini[nm], (Leaf, Node)): continue
                final[nm] = ite(vcmp('>', leaf(n_it), N(0)), subst(rec, {kname: vsub(leaf(n_it), N(1))}), ini[nm])
        multi = len(set((e[1].name, e[2].name) for e in exits)) > 1
        # which exit is taken, and the iteration it is taken in (the first one in which its own condition holds)
        qs = []; finals = []
        if multi:
            tot = None
            Ks = []
            for n_, (p, src, dst, mm) in enumerate(exits):
                q = node(atom('cmp', 'opq', 'exit', fresh('x')), TRUE, FALSE) if n_ < len(exits) - 1 or rets else TRUE
                if isinstance(q, Node): m.exitinfo[q.var] = (kname, n_, [subst(e_[0], sol) for e_ in exits], bool(rets))
                if tot is not None: q = band(q, bnot(tot))
                tot = q if tot is None else bor(tot, q)
                qs.append(q)
                Ke = K if raw else s.trip(bnot(subst(p, sol)), kname)
                if not raw and any(a.kind == 'fn' and a.args[0] == 'trip' for l in leaves(Ke) if isinstance(l, Poly) for mo_, c_ in l.terms for a, x in mo_): Ke = K
                Ks.append(Ke)
                finals.append(final if Ke is K else {nm: subst(v, {kname: Ke}) for nm, v in sol.items()})
            if not raw:
                K0 = K
                for q, Ke in zip(reversed(qs), reversed(Ks)): K = ite(q, Ke, K)
        ks = {x for x in sol if isinstance(x, str)}
        for b in list(m.exitinfo)[xmark:]:                  # exits of inner loops, in terms of this loop's counter
            k0, w0, c0, r0 = m.exitinfo[b]
            if any(syms(x) & ks for x in c0): m.exitinfo[b] = (k0, w0, [subst(x, sol) for x in c0], r0)
        for e in m.events[mark:]:
            e.subst(sol)
            e.pc = band(pc, e.pc)
            e.loops = ((kname, K),) + e.loops
        outs = []
        final0 = final
        info = dict(header=h, fn=s.fn, trip=K, cont=Ck, sol=sol, exits=exits, k=kname)
        m.loops = getattr(m, 'loops', [])
        m.loops.append(info)
        tot = None
        for n_, (p, src, dst, mm) in enumerate(exits):
            mm2 = mm.copy()
            final = finals[n_] if multi else final
            q = qs[n_] if multi else TRUE
            for k, v in list(mm2.d.items()):
                if mem.d.get(k) is not v: mm2.d[k] = subst(within(v, p), final)
            for i in dst.insts:
                if i.op != 'phi': break
                for x, bn in zip(i.ops, i.x['blocks']):
                    if bn == src.name:
                        v = s.val(x)
                        # literals that hold on this exit
                        for var, val in s.literals(p): v = restrict(v, var, val)
                        v = within(v, p)
                        s.edgeval[(src.name, i.res)] = subst(v, final)
            outs.append((band(pc, q), src, dst, mm2))
        lr = []
        for (p, v, mm) in rets:
            mm2 = mm.copy()
            q = node(atom('cmp', 'opq', 'ret', fresh('x')), TRUE, FALSE)
            for k, w in list(mm2.d.items()):
                if mem.d.get(k) is not w: mm2.d[k] = subst(w, final0)
            lr.append((band(pc, q), subst(v, final0), mm2))
            outs = [(band(o[0], bnot(q)),) + o[1:] for o in outs]
        # names defined in the loop but used after it without LCSSA (none normally)
        for b in L:
            for i in b.insts:
                if i.res and i.res in s.env and i.op != 'phi':
                    pass
        return outs, lr
    def literals(s, C):
        out = []
        n = C
        while isinstance(n, Node):
            if n.lo is FALSE: out.append((n.var, True)); n = n.hi
            elif n.hi is FALSE: out.append((n.var, False)); n = n.lo
            else: break
        return out
    def trip(s, C, k):
        """smallest k >= 0 for which C(k) is false"""
        def one(c):
            # c is a literal diagram over one variable that depends on k
            if isinstance(c, Leaf): return None
            v = c.var
            pos = c.hi is TRUE and c.lo is FALSE
            negv = c.hi is FALSE and c.lo is TRUE
            if not (pos or negv) or v.args[0] not in ('<', '=='): return None
            p = v.args[1]
            ks = psym(k)
            # linear in k?
            coef = ZERO; rest = ZERO
            for m_, cc in p.terms:
                ka = [(a, e) for a, e in m_ if k in syms(a) or (isinstance(e, Poly) and k in syms(e))]
                if not ka: rest = add(rest, mk({mono_key(m_): (m_, cc)}))
                elif len(ka) == 1 and ka[0][0].kind == 'sym' and ka[0][1] == 1:
                    m2 = tuple((a, e) for a, e in m_ if a is not ka[0][0])
                    coef = add(coef, mk({mono_key(m2): (m2, cc)}))
                else: return None
            if not is_num(coef): return None
            a = numval(coef)
            if v.args[0] == '==' and negv:          # continue while rest + a k != 0
                return leaf(scale(neg(rest), 1 / a))
            if v.args[0] == '<' and pos and a > 0:  # rest + a k < 0 -> k < -rest/a
                n = scale(neg(rest), 1 / a)
                # the canonical comparison may have been rescaled; ceil only when step is not one
                n2 = leaf(n) if s._unit(p, a) else vfn('ceil', leaf(n))
                return ite(vcmp('>', leaf(n), N(0)), n2, N(0))
            if v.args[0] == '<' and negv and a < 0:  # continue while not(rest + a k < 0): k <= rest/-a
                n = add(scale(rest, 1 / -a), ONE)
                n2 = leaf(n) if s._unit(p, a) else vfn('floor', leaf(n))
                return ite(vcmp('>', leaf(n), N(0)), n2, N(0))
            return None
        # conditions not depending on k gate the loop
        for v in bvars(C):
            if k not in syms(v):
                return ite(node(v, TRUE, FALSE), s.trip(restrict(C, v, True), k), s.trip(restrict(C, v, False), k))
        if C is FALSE: return N(0)
        r = one(C)
        if r is None:
            r = leaf(patom(atom('trip', subst(C, {k: psym('#k')}))))
        return r
    def _unit(s, p, a):
        """all other coefficients are integer multiples of a (so n is an integer for integer symbols)"""
        for m_, c in p.terms:
            r = c / a
            if isinstance(r, Fraction):
                if r.denominator != 1: return False
            elif r != int(r): return False
        return True
    # ---------------- instructions
    def inst(s, i, mem, pc):
        op = i.op; env = s.env; m = s.m
        if op in ('fadd', 'add'): env[i.res] = vadd(s.val(i.ops[0]), s.val(i.ops[1]))
        elif op in ('fsub', 'sub'):
            a, b = s.val(i.ops[0]), s.val(i.ops[1])
            env[i.res] = s.psub(a, b)
        elif op in ('fmul', 'mul'): env[i.res] = vmul(s.val(i.ops[0]), s.val(i.ops[1]))
        elif op == 'fdiv': env[i.res] = vdiv(s.val(i.ops[0]), s.val(i.ops[1]))
        elif op == 'fneg': env[i.res] = vneg(s.val(i.ops[0]))
        elif op == 'shl' and i.ops[1].k == 'int': env[i.res] = vmul(s.val(i.ops[0]), N(2 ** i.ops[1].v))
        elif op in ('and', 'or', 'xor') and i.ty.k == 'int' and i.ty.a == 1:
            a, b = s.bool(s.val(i.ops[0])), s.bool(s.val(i.ops[1]))
            env[i.res] = band(a, b) if op == 'and' else bor(a, b) if op == 'or' else ite(a, bnot(b), b)
        elif op in ('sdiv', 'udiv'):
            a, b = s.val(i.ops[0]), s.val(i.ops[1])
            def dv(x, y):
                if is_num(y) and numval(y) != 0:
                    q = scale(x, 1 / numval(y))
                    if all(isinstance(c, Fraction) and c.denominator == 1 for _, c in q.terms): return q
                return fn('idiv', x, y)
            env[i.res] = lift(dv, 'sdiv')(a, b)
        elif op in ('srem', 'urem'):
            # a rem b = a - b*(a div b)
            a, b = s.val(i.ops[0]), s.val(i.ops[1])
            def rm(x, y):
                if is_num(x) and is_num(y) and numval(y) != 0: return num(int(math.fmod(numval(x), numval(y))))
                return sub(x, mul(y, fn('idiv', x, y)))
            env[i.res] = lift(rm, 'srem')(a, b)
        elif op == 'frem': env[i.res] = vfn('fmod', s.val(i.ops[0]), s.val(i.ops[1]))
        elif op in ('ashr', 'lshr', 'and', 'or', 'xor', 'shl'):
            if op == 'and' and i.ops[1].k == 'int' and i.ops[1].v == 1 and False: pass
            env[i.res] = vfn('bit_' + op, s.val(i.ops[0]), s.val(i.ops[1]))
        elif op in ('sext', 'zext', 'sitofp', 'uitofp', 'fpext', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'addrspacecast'):
            env[i.res] = s.val(i.ops[0])
        elif op == 'fptrunc': env[i.res] = vfn('fptrunc', s.val(i.ops[0]))
        elif op == 'trunc':
            v = s.val(i.ops[0])
            env[i.res] = s.bool(v) if i.ty.a == 1 else v
        elif op in ('fptosi', 'fptoui'): env[i.res] = vfn('trunc', s.val(i.ops[0]))
        elif op == 'icmp':
            pr = {'eq': '==', 'ne': '!=', 'slt': '<', 'sle': '<=', 'sgt': '>', 'sge': '>=', 'ult': '<', 'ule': '<=', 'ugt': '>', 'uge': '>='}[i.x['pred']]
            env[i.res] = vcmp(pr, s.val(i.ops[0]), s.val(i.ops[1]))
        elif op == 'fcmp':
            p = i.x['pred']
            if p in ('ord', 'uno'):
                env[i.res] = vcmp('==' if p == 'ord' else '!=', vfn('isnan', s.val(i.ops[0])), N(0)) if False else node(atom('cmp', 'opq', p, str(s.val(i.ops[0]).id), str(s.val(i.ops[1]).id)), TRUE, FALSE)
            elif p in ('true', 'false'): env[i.res] = TRUE if p == 'true' else FALSE
            else:
                pr = {'eq': '==', 'ne': '!=', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}[p[1:]]
                env[i.res] = vcmp(pr, s.val(i.ops[0]), s.val(i.ops[1]))
        elif op == 'select':
            env[i.res] = ite(s.bool(s.val(i.ops[0])), s.val(i.ops[1]), s.val(i.ops[2]))
        elif op == 'alloca':
            env[i.res] = leaf(Ptr(('alloca', s.fid, i.res), ZERO))
        elif op == 'getelementptr':
            env[i.res] = m.gep(s.mod, i.x['bt'], s.val(i.ops[0]), [s.val(o) for o in i.ops[1:]], i.ops[1:])
        elif op == 'load':
            p = s.val(i.ops[0])
            env[i.res] = apply(lambda q: m.load(mem, q, i.ty, i), ('load', fresh('!')), p)
        elif op == 'store':
            p = s.val(i.ops[1]); v = s.val(i.ops[0])
            if m.trace: m.events.append(Event('store', s.fn, i, pc, ptr=p, val=v))
            if isinstance(p, Leaf): m.store(mem, p.v, v)
            else:
                m.notes.append(('store-multi', s.fn.name, s.fn.line(i)))
                for q in leaves(p):
                    if isinstance(q, Ptr): mem.clob[q.obj] = fresh('v')
        elif op == 'extractvalue':
            v = s.val(i.ops[0])
            def ex(x):
                if isinstance(x, Agg):
                    r = x
                    for ix in i.x['idx']:
                        r = r.items[ix]
                        if isinstance(r, (Leaf, Node)):
                            if isinstance(r, Leaf) and isinstance(r.v, Agg): r = r.v
                            else: return r
                    return leaf(r)
                return leaf(psym('<extract %s.%s>' % (str(x)[:60], i.x['idx'])))
            env[i.res] = apply(ex, ('ex', tuple(i.x['idx'])), v)
        elif op == 'insertvalue':
            a, b = s.val(i.ops[0]), s.val(i.ops[1])
            n = 2
            t = s.mod.resolve(i.ty)
            if t.k == 'struct': n = len(t.a)
            items = list(a.v.items) if isinstance(a, Leaf) and isinstance(a.v, Agg) else [BOT] * n
            items[i.x['idx'][0]] = b
            env[i.res] = leaf(Agg(items))
        elif op in ('call', 'invoke'):
            return s.docall(i, mem, pc)
        elif op in ('br', 'ret', 'switch', 'unreachable', 'resume', 'landingpad', 'fence'):
            if op == 'landingpad': env[i.res] = leaf(psym('<lpad>'))
        else:
            if i.res: env[i.res] = leaf(psym('<%s %s>' % (op, fresh())))
            m.notes.append(('op', op, s.fn.name))
        return None
    def psub(s, a, b):
        def f(x, y):
            if isinstance(x, Ptr) and isinstance(y, Ptr):
                if x.obj == y.obj: return leaf(sub(x.off, y.off))
                return leaf(sub(cas.addr(x), cas.addr(y)))
            x, y = [(ONE if v else ZERO) if isinstance(v, bool) else v for v in (x, y)]
            if isinstance(x, Poly) and isinstance(y, Poly): return leaf(sub(x, y))
            return leaf(psym('<sub>'))
        return apply(f, 'psub', a, b)
    def docall(s, i, mem, pc):
        m = s.m
        s.cur_inst = i
        cal = i.x['callee']
        args = [s.val(a) for a in i.x['args']] if cal.k != 'asm' else []
        name = None
        if cal.k == 'global': name = cal.v
        elif cal.k == 'local':
            v = s.val(cal)
            if isinstance(v, Leaf) and isinstance(v.v, Ptr) and isinstance(v.v.obj, tuple) and v.v.obj[0] == 'glob': name = v.v.obj[1]
            else:
                if m.virt is not None: name = m.virt(m, v, args, i)
                # several targets: not resolved
                if name is None: s.m.notes.append(('indirect', s.fn.name, s.fn.line(i), str(v)[:80]))
        ev = None
        if m.trace:
            mark = len(m.events)
            ev = Event('call', s.fn, i, pc, name=name, args=tuple(args) + ((s.val(cal),) if cal.k == 'local' else ()))
            m.events.append(ev)
        r, mm = m_call(s, i, name, args, mem, pc)
        if ev is not None and name and name.startswith('@_ZNSt6vectorI') and ('push_back' in name or 'emplace_back' in name) and len(args) == 2:
            ev.val = strs.get(s, mem, args[1]) if m.strings and 'basic_string' in dm(name)[:40] else pushed(s, name, args[1], mem)
        if ev is not None:
            ev.res = r if isinstance(r, (Leaf, Node)) else None
            for e in m.events[mark + 1:]: e.pc = band(pc, e.pc)
        if i.res: s.env[i.res] = r
        return mm

def m_call(fr, i, name, args, mem, pc):
    m = fr.m
    m.calls.append((fr.fn.name, name))
    if name is None:
        return opaque(fr, i, 'indirect', args, mem)
    if m.strings and name is not None:
        r = strs.builtin(fr, i, name, args, mem)
        if r is not None: return r
    if name.startswith('virt:'):
        if name in m.hooks: return m.hooks[name](fr, i, args, mem)
        return opaque(fr, i, name, args, mem)
    for h in (name, dm(name)):
        if h in m.hooks: return m.hooks[h](fr, i, args, mem)
    d = dm(name).split('(')[0]
    if d in m.hooks: return m.hooks[d](fr, i, args, mem)
    if name.startswith('@llvm.'):
        if name.startswith(('@llvm.lifetime', '@llvm.dbg', '@llvm.assume', '@llvm.experimental', '@llvm.va_')): return BOT, None
        if name.startswith('@llvm.memcpy') or name.startswith('@llvm.memmove'): block_event(fr, i, args, mem, True); return memcpy(fr, args, mem)
        if name.startswith('@llvm.memset'): block_event(fr, i, args, mem, False); return memset(fr, args, mem)
        p = name.split('.')[1]
        if p in ('smax', 'umax', 'maxnum', 'maximum'): return ite(vcmp('<', args[0], args[1]), args[1], args[0]), None
        if p in ('smin', 'umin', 'minnum', 'minimum'): return ite(vcmp('<', args[1], args[0]), args[1], args[0]), None
        if p == 'fmuladd': return vadd(vmul(args[0], args[1]), args[2]), None
        if p == 'powi': return vpow(args[0], args[1]), None
        if p == 'expect': return args[0], None
        if p == 'abs': return vfn('abs', args[0]), None
        if p == 'is':       # llvm.is.fpclass
            mask = int(numval(args[1].v)) if isinstance(args[1], Leaf) and is_num(args[1].v) else None
            fin = bnot(vcmp('==', vfn('isfinite', args[0]), N(0))) if BOT is not args[0] else None
            if mask == 504 and fin is not None: return fin, None            # finite
            if mask == 519 and fin is not None: return bnot(fin), None      # infinite or NaN
            return node(atom('cmp', 'opq', 'fpclass', str(args[0].id), str(args[1])), TRUE, FALSE), None
    pn = pure_name(name)
    if pn is not None:
        if isinstance(pn, tuple): return vpow(args[0], N(pn[1])), None
        return vfn(pn, *args), None
    if name in ('@fmax', '@fmin'):
        a, b = args
        return (ite(vcmp('<', a, b), b, a) if name == '@fmax' else ite(vcmp('<', b, a), b, a)), None
    if name in GSL_INTEG: return integ(fr, i, name, args, mem)
    if name == '@gsl_pow_int': return vpow(args[0], args[1]), None
    b = vec_builtin(fr, name, args, mem)
    if b is not None: return b
    f = m.prog.defined(name, fr.fn.mod)
    if f is not None and (not skip_std(name) or (m.strings and VEC_STRING.match(name))):
        v, mm, rc = m.call(f, args, mem, fr.depth + 1)
        return v, mm
    return opaque(fr, i, name, args, mem)

VEC_STRING = re.compile(r'@_ZNK?St6vectorINSt7__cxx1112basic_string.*(ixEm|4sizeEv|5emptyEv|4backEv|5frontEv|2atEm|5beginEv|3endEv|6cbeginEv|4cendEv|4dataEv)$|@_ZNK?9__gnu_cxx(17__normal_iteratorI|neI|eqI|miI|ltI)PK?NSt7__cxx1112basic_string')
STD_INLINE = ('std::min', 'std::max', 'std::abs', 'std::vector', 'std::fabs', 'std::sqrt', 'std::pow', 'std::swap', 'std::sin', 'std::cos', 'std::__', 'operator')
VEC_SCALAR = {'i': 32, 'j': 32, 'l': 64, 'm': 64, 'b': 8, 'h': 8, 'd': 0, 'f': 0, 'P': -1}
def pushed(fr, name, ref, mem):
    """the value appended to a vector of scalars"""
    k = VEC_SCALAR.get(name[len('@_ZNSt6vectorI')])
    if k is None: return None
    ty = ir.PTR if k < 0 else ir.INT(k) if k else ir.DOUBLE
    return apply(lambda q: fr.m.load(mem, q, ty) if isinstance(q, Ptr) else BOT, fresh('pushed'), ref)
def vec_builtin(fr, name, args, mem):
    """std::vector operations that need no look inside: appending reads its argument; copying makes the copy stand for the same elements"""
    if name == '@_ZNKSt14_Bit_referencecvbEv' and len(args) == 1:
        def bit(q):
            p = fr.m.load(mem, q, ir.PTR) if isinstance(q, Ptr) else BOT
            return fr.bool(apply(lambda x: fr.m.load(mem, x, ir.INT(8)) if isinstance(x, Ptr) else BOT, fresh('bit'), p))
        return apply(bit, fresh('bitref'), args[0]), mem
    if name == '@_ZNSt14_Bit_referenceaSEb' and len(args) == 2 and isinstance(args[0], Leaf) and isinstance(args[0].v, Ptr):
        p = fr.m.load(mem, args[0].v, ir.PTR)
        if isinstance(p, Leaf) and isinstance(p.v, Ptr):
            mem = mem.copy(); v = apply(lambda x: N(1 if x else 0) if isinstance(x, bool) else leaf(x), 'bitval', args[1])
            if fr.m.trace: e = Event('store', fr.fn, fr.cur_inst, TRUE, ptr=p, val=v); fr.m.events.append(e)
            fr.m.store(mem, p.v, v)
            return args[0], mem
    if not name.startswith('@_ZNSt6vectorI'): return None
    if name in ('@_ZNSt6vectorIbSaIbEEixEm', '@_ZNKSt6vectorIbSaIbEEixEm') and len(args) == 2:
        # the n-th bit of a vector<bool> is modelled as the n-th byte of its storage
        el = apply(lambda q, n: leaf(Ptr(fr.m.load(mem, q, ir.PTR).v.obj, n)) if isinstance(q, Ptr) and isinstance(n, Poly) and isinstance(fr.m.load(mem, q, ir.PTR), Leaf) and isinstance(fr.m.load(mem, q, ir.PTR).v, Ptr) else BOT, fresh('bits'), args[0], args[1])
        if name[3] == 'K': return fr.bool(apply(lambda x: fr.m.load(mem, x, ir.INT(8)) if isinstance(x, Ptr) else BOT, fresh('bit'), el)), mem
        return leaf(Agg([el, N(1)])), mem
    if ('9push_backE' in name or '12emplace_backI' in name) and len(args) == 2:
        mem = mem.copy()
        for q in leaves(args[0]):
            if isinstance(q, Ptr) and is_alloca_obj(q.obj):
                lo = int(numval(q.off)) if is_num(q.off) else None
                for k in [k for k in mem.d if k[0] == q.obj and (lo is None or lo <= k[1] < lo + 24)]: del mem.d[k]
                mem.clob[q.obj] = fresh('v')
        if 'emplace_back' in name: return None
        return BOT, mem
    if re.search(r'(C[12]|aS)ERKS\w*_$', name) and len(args) == 2:
        d, q = args[0], args[1]
        if isinstance(d, Leaf) and isinstance(d.v, Ptr) and is_num(d.v.off) and isinstance(q, Leaf) and isinstance(q.v, Ptr):
            mem = mem.copy()
            for o in (0, 8, 16): mem.d[(d.v.obj, int(numval(d.v.off)) + o)] = fr.m.load(mem, Ptr(q.v.obj, add(q.v.off, num(o))), ir.PTR)
            return args[0], mem
    return None
def is_alloca_obj(o): return isinstance(o, tuple) and bool(o) and o[0] == 'alloca'

def own_name(d):
    """qualified name of a demangled function, without return type and parameters"""
    depth = 0; st = 0
    for n, ch in enumerate(d):
        if ch == '<' and not d[:n].endswith('operator'): depth += 1
        elif ch == '>' and depth: depth -= 1
        elif depth == 0 and ch == '(': 
            return d[st:n]
        elif depth == 0 and ch == ' ' and not d[:n].endswith('operator'): st = n + 1
    return d[st:]
def skip_std(name):
    d = dm(name)
    if not own_name(d).startswith(('std::', '__gnu_cxx')): return False
    if '<' in d and 'std::' in d and ('string' in d or 'map' in d or 'ostream' in d or '_Rb_tree' in d): return True
    if d.startswith(('std::', 'void std::', '__gnu_cxx')):
        return 'push_back' in d or 'emplace' in d or 'realloc' in d or 'resize' in d or '~' in d
    return False

def opaque(fr, i, name, args, mem):
    m = fr.m
    m.notes.append(('opaque', fr.fn.name, name, fr.fn.line(i)))
    mem = mem.copy()
    sret = strs.opaque_string(fr, i, name, args, mem) if m.strings and name else None
    for a in args:
        for q in leaves(a):
            if isinstance(q, Ptr) and isinstance(q.obj, tuple) and q.obj and q.obj[0] == 'alloca':
                for k in [k for k in mem.d if k[0] == q.obj]: del mem.d[k]
                mem.clob[q.obj] = fresh('v')
    if sret is not None: strs.put(fr, mem, args[0], sret); return BOT, mem
    if i.ty is None or i.ty.k == 'void': return BOT, mem
    nm = 'call:' + (dm(name) if name and name.startswith('@') else str(name))
    if i.ty.k == 'ptr' and m.strings and '[abi:cxx11]' in nm:
        # a function returning a string by reference: a function of its arguments
        ts = [strs.obj_term(a) for a in args if a is not BOT]
        return leaf(Ptr(('ret', nm.replace('[abi:cxx11]', '')) + tuple(x.v if isinstance(x, Leaf) else str(x.id) for x in ts), ZERO)), mem
    if i.ty.k == 'ptr': return leaf(Ptr(('ret', nm, fresh('r')), ZERO)), mem
    def asterm(x):
        if isinstance(x, Poly): return leaf(x)
        if isinstance(x, bool): return N(1 if x else 0)
        if isinstance(x, Ptr): return leaf(patom(atom('load', x.obj, x.off, 'addr')))
        return leaf(psym('<%s>' % (x,)))
    if name == 'indirect' and i.x['callee'].k == 'local':
        args = [fr.val(i.x['callee'])] + list(args)
    args = [apply(asterm, 'asterm', a) for a in args]
    return lift(lambda *v: patom(atom('fn', nm, *v)), nm)(*args) if args else leaf(patom(atom('fn', nm))), mem

def block_event(fr, i, args, mem, copy):
    """a block copy or clear of a variable number of doubles, as the element-wise loop it stands for"""
    m = fr.m
    if not m.trace: return
    d, sr, n = args[:3]
    if not (isinstance(n, Leaf) and isinstance(n.v, Poly) and not is_num(n.v)): return
    if not copy and sr is not N(0): return
    k = fresh('$k')
    o8 = scale(psym(k), Fraction(8))
    at = lambda v: apply(lambda q: leaf(Ptr(q.obj, add(q.off, o8))) if isinstance(q, Ptr) else leaf(q), ('elem', k), v)
    v = apply(lambda q: m.load(mem, q, ir.DOUBLE, i), ('load', fresh('!')), at(sr)) if copy else N(0)
    e = Event('store', fr.fn, i, TRUE, ptr=at(d), val=v)
    e.loops = ((k, leaf(scale(n.v, Fraction(1, 8)))),)
    m.events.append(e)

def memcpy(fr, args, mem):
    mem = mem.copy()
    d, sr, n = args[:3]
    if isinstance(d, Leaf) and isinstance(sr, Leaf) and isinstance(n, Leaf) and isinstance(d.v, Ptr) and isinstance(sr.v, Ptr) and is_num(n.v) and is_num(d.v.off) and is_num(sr.v.off):
        ln = int(numval(n.v)); so = int(numval(sr.v.off)); do = int(numval(d.v.off))
        for k in [k for k in mem.d if k[0] == d.v.obj and do <= k[1] < do + ln]: del mem.d[k]
        if isinstance(sr.v.obj, tuple) and sr.v.obj[0] == 'glob':
            for o in range(0, ln, 8):
                v = fr.m._global(sr.v.obj, so + o, ir.DOUBLE)
                if v is not None: mem.d[(d.v.obj, do + o)] = v
        else:
            for k, v in list(mem.d.items()):
                if k[0] == sr.v.obj and so <= k[1] < so + ln: mem.d[(d.v.obj, k[1] - so + do)] = v
            # unwritten source contents stay symbolic
            have = {k[1] for k in mem.d if k[0] == d.v.obj}
            for o in sorted(set(range(0, min(ln, 512), 8)) | {x - so for x in (fr.m.names.get(sr.v.obj) or {}) if isinstance(x, int) and so <= x < so + ln}):
                if do + o not in have and not any(do + o < h < do + o + 8 for h in have):
                    mem.d[(d.v.obj, do + o)] = fr.m.load(mem, Ptr(sr.v.obj, num(so + o)), ir.DOUBLE)
    else:
        for q in leaves(d):
            if isinstance(q, Ptr):
                mem.clob[q.obj] = fresh('v')
                for k in [k for k in mem.d if k[0] == q.obj]: del mem.d[k]
    return BOT, mem

def memset(fr, args, mem):
    mem = mem.copy()
    d, v, n = args[:3]
    if isinstance(d, Leaf) and isinstance(d.v, Ptr) and isinstance(n, Leaf) and is_num(n.v) and is_num(d.v.off):
        ln = int(numval(n.v)); do = int(numval(d.v.off))
        for k in [k for k in mem.d if k[0] == d.v.obj and do <= k[1] < do + ln]: del mem.d[k]
        z = isinstance(v, Leaf) and isinstance(v.v, Poly) and is_num(v.v) and numval(v.v) == 0
        mem.ranges = mem.ranges + ((do, do + ln, d.v.obj, N(0) if z else leaf(psym('<memset>'))),)
    else:
        for q in leaves(d):
            if isinstance(q, Ptr): mem.clob[q.obj] = fresh('v')
    return BOT, mem

# position of (a, b, result) in GSL integration calls
GSL_INTEG = {
 '@gsl_integration_qags': (1, 2, 7), '@gsl_integration_qag': (1, 2, 8), '@gsl_integration_cquad': (1, 2, 6), '@gsl_integration_qng': (1, 2, 5),
 '@gsl_integration_qagi': (None, None, 5), '@gsl_integration_romberg': (1, 2, 5),
}
def integ(fr, i, name, args, mem):
    m = fr.m
    a, b, r = GSL_INTEG[name]
    F = args[0]
    mem = mem.copy()
    fp = m.load(mem, F.v, ir.PTR) if isinstance(F, Leaf) and isinstance(F.v, Ptr) else None
    pp = m.load(mem, Ptr(F.v.obj, add(F.v.off, num(8))), ir.PTR) if fp is not None else None
    body = None
    if fp is not None and isinstance(fp, Leaf) and isinstance(fp.v, Ptr) and isinstance(fp.v.obj, tuple) and fp.v.obj[0] == 'glob':
        f = m.prog.defined(fp.v.obj[1])
        if f is not None:
            t = fresh('$t')
            body, mm, rc = m.call(f, [leaf(psym(t)), pp], mem, fr.depth + 1)
    if body is None:
        m.notes.append(('integrand-unresolved', fr.fn.name, fr.fn.line(i), str(fp)))
        val = leaf(psym('<integral>'))
    else:
        lo = args[a] if a is not None else leaf(psym('-inf'))
        hi = args[b] if b is not None else leaf(psym('+inf'))
        val = bind('integ', t, body, lo, hi)
    res = args[r]
    if isinstance(res, Leaf) and isinstance(res.v, Ptr): m.store(mem, res.v, val)
    return N(0), mem

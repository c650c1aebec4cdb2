"""Flow of values that differ from run to run (clock, process, operating-system randomness) through the intermediate representation."""
import re
from .build import dm
from .ir import iter_operands
INF = float('inf')
SOURCES = re.compile(r'^(time|clock|gettimeofday|clock_gettime|ftime|times|getrusage|rand|rand_r|random|drand48|lrand48|mrand48|erand48|getpid|getppid|gettid|getentropy|getrandom|tmpnam|mkstemp|std::random_device::(operator\(\)|_M_getval)|std::chrono::.*::now|nlopt_srand_time|sched_getcpu|omp_get_wtime|rdtsc)(\(|$)')
SEEDING = re.compile(r'^(init_genrand|init_by_array|srand|srandom|srand48|nlopt_srand|gsl_rng_set|std::mersenne_twister_engine<.*>::(mersenne_twister_engine|seed)|std::linear_congruential_engine<.*>::(linear_congruential_engine|seed)|rng::\w+::(alloc|set_seed|\w*[Ss]eed\w*))\b')
OUTPUT = re.compile(r'^(printf|fprintf|vprintf|vfprintf|puts|fputs|fputc|putchar|fflush|fwrite|exit|free|operator delete|std::basic_ostream<.*>::(operator<<|flush|put|write)|std::ostream|std::basic_ostream|fits_write_|ffp|ffuky|__cxa|_Unwind|loguru::)')
FORMAT = re.compile(r'^(ctime|localtime|gmtime|asctime|strftime|mktime|difftime|str\w+|mem(cpy|move|set|cmp)|llvm\.|sprintf|snprintf|vsnprintf|vsprintf|std::|__gnu_cxx::|operator|bool std::|char|fabs|floor|ceil|round|sqrt)')
def loc_of(fn, i): return '%s:%s' % tuple(str(x) for x in fn.line(i))
class Taint:
    """sources found, uses of tainted values that are not output, seeding calls with a tainted value"""
    def __init__(s, prog):
        s.prog = prog; s.callers = {}; s.t = set(); s.bad = []; s.seeds = []; s.sources = []; s.nuse = 0
        s.fns = {}
        seen = set()
        for k, m in prog.mods.items():
            for n, f in m.functions.items():
                if f.lines is None: continue
                if 'linkonce' in f.header.split('@')[0]:
                    if n in seen: continue
                    seen.add(n)
                s.fns[(k, n)] = f
        s.ids = {id(f): k for k, f in s.fns.items()}
    def seeding_calls(s):
        out = []
        for f in s.fns.values():
            if not own(f): continue
            if not any(('seed' in l or 'rand' in l or 'alloc' in l or 'mersenne' in l) for l in f.lines if ' call ' in l or ' invoke ' in l or l.lstrip().startswith(('call', 'invoke'))): continue
            for i in f.insts():
                if i.op in ('call', 'invoke') and i.x['callee'].k == 'global' and SEEDING.match(dm(i.x['callee'].v)) and not i.x['callee'].v.startswith('@llvm'): out.append((f, i))
        return out
    def run(s):
        work = []
        cnt = {}
        def add(*key):
            if key[0] in ('mem', 'param-mem'):
                n = cnt[key[:3]] = cnt.get(key[:3], 0) + (key not in s.t)
                if n > 24: key = key[:3] + (-INF, INF)
            if key not in s.t: s.t.add(key); work.append(key)
        pre = re.compile(r'time|clock|rand|getpid|gettid|getentropy|tmpnam|mkstemp|rusage|random_device|chrono|getcpu')
        for k, f in s.fns.items():
            if not own(f) or not any(pre.search(l) for l in f.lines): continue
            for i in f.insts():
                if i.op in ('call', 'invoke') and i.x['callee'].k == 'global':
                    d = dm(i.x['callee'].v)
                    if d.startswith('@'): d = d[1:]
                    g_ = s.defined(f, i.x['callee'].v)
                    if re.match(r'(void )?std::random_shuffle<', d): s.sources.append((f, i, 'rand')); s.bad.append((f, i, 'decides the order of a list'))
                    if SOURCES.match(d) and not (g_ is not None and own(g_)):
                        s.sources.append((f, i, d))
                        if i.res: add('reg', id(f), i.res)
                        for a in i.x['args']: s.taint_mem(f, a, add, i, quiet=True)
        byid = {id(f): f for f in s.fns.values()}
        s.byid = byid
        while work:
            key = work.pop()
            if key[0] == 'reg':
                f = byid[key[1]]
                for i in f.uses().get(key[2], []): s.use(f, i, key[2], add)
            elif key[0] == 'mem':
                f = byid[key[1]]
                for i in f.uses().get(key[2], []): s.mem_use(f, i, key[2], key[3], key[4], add)
            elif key[0] == 'ret':
                for f, i in s.callsites(key[1]):
                    if i.res: add('reg', id(f), i.res)
            elif key[0] == 'param-mem':
                f = byid[key[1]]
                for g, i in s.callsites(id(f)):
                    if key[2] < len(i.x['args']): s.from_pointer(g, i.x['args'][key[2]], add, i, key[3], key[4])
            elif key[0] == 'global':
                for f in s.fns.values():
                    if not own(f) or not any(key[1] in l for l in f.lines): continue
                    for i in f.insts():
                        if i.op == 'load' and any(o.k == 'global' and o.v == key[1] for o in iter_operands(i)): add('reg', id(f), i.res)
        return s
    def defined(s, f, name):
        g = f.mod.functions.get(name)
        g = g if g is not None and g.lines is not None else s.prog.defined(name, f.mod)
        return s.fns.get((g.mod.key, name), s.prog.defined(name)) if g is not None and 'linkonce' not in g.header.split('@')[0] else s.prog.defined(name) if g is not None else None
    def callsites(s, fid):
        if not s.callers:
            for f in s.fns.values():
                if not own(f): continue
                for i in f.insts():
                    if i.op in ('call', 'invoke') and i.x['callee'].k == 'global':
                        g = s.defined(f, i.x['callee'].v)
                        if g is not None: s.callers.setdefault(id(g), []).append((f, i))
        return s.callers.get(fid, [])
    def gep(s, f, d):
        """(constant offset or None, size of what is pointed to or None)"""
        t = d.x['bt']; off = 0; m = f.mod
        for k, o in enumerate(d.ops[1:]):
            c = o.v if o.k == 'int' else None
            if k == 0: off = None if c is None else c * m.size_align(t)[0]
            else:
                t = m.resolve(t)
                if t.k in ('struct', 'packed') and c is not None:
                    off = None if off is None else off + m.field_offset(t, c)[0]; t = t.a[c]
                elif t.k == 'array':
                    t = t.b; off = None if off is None or c is None else off + c * m.size_align(t)[0]
                else: return None, None
        try: n = m.size_align(t)[0]
        except Exception: n = None
        return off, n
    def root(s, f, v):
        """(kind, register or name, offset or None, size or None) of the object a pointer points into"""
        seen = 0; off = 0; size = None
        while v.k == 'local' and seen < 50:
            seen += 1
            d = f.body().defs.get(v.v)
            if d is None:
                for k, (nm, ty) in enumerate(f.params):
                    if nm == v.v: return ('param', v.v, off, size)
                return None
            if d.op == 'alloca':
                if size is None and off == 0:
                    try: size = f.mod.size_align(d.x['aty'])[0]
                    except Exception: size = None
                return ('alloca', v.v, off, size)
            if d.op == 'getelementptr':
                o, n = s.gep(f, d)
                if size is None: size = n
                off = None if off is None or o is None else off + o; v = d.ops[0]; continue
            if d.op in ('bitcast', 'addrspacecast', 'freeze'): v = d.ops[0]; continue
            if d.op in ('call', 'invoke') and d.x['callee'].k == 'global' and re.match(r'^@?(operator new|malloc|calloc|realloc|strdup|ctime|localtime|gmtime|asctime)', dm(d.x['callee'].v)): return ('alloca', v.v, off, size)
            return None
        if v.k == 'global': return ('global', v.v, 0, None)
        if v.k == 'cexpr' and v.v[2] and v.v[2][0].k == 'global': return ('global', v.v[2][0].v, 0, None)
        if v.k in ('null', 'undef'): return ('null', None, 0, None)
        return None
    def taint_mem(s, f, v, add, i, quiet=False, size=None):
        if v.ty.k != 'ptr': return
        r = s.root(f, v)
        if r is None:
            if not quiet: s.bad.append((f, i, 'is stored in memory shared with the rest of the program'))
            return
        kind, nm, off, n = r; n = size or n
        lo, hi = (-INF, INF) if off is None else (off, off + n if n is not None else INF)
        if kind == 'alloca': add('mem', id(f), nm, lo, hi)
        elif kind == 'param':
            add('mem', id(f), nm, lo, hi); add('param-mem', id(f), [k for k, (x, ty) in enumerate(f.params) if x == nm][0], lo, hi)
        elif kind == 'global':
            g = s.prog.glob(nm, f.mod.key)[1]
            if not quiet or not (g and g[0]): add('global', nm)
    def from_pointer(s, f, v, add, i, lo, hi):
        """the bytes lo..hi behind pointer v hold a tainted value"""
        r = s.root(f, v)
        if r is None or r[0] in ('global', 'null') or r[2] is None: s.taint_mem(f, v, add, i); return
        kind, nm, off, n = r
        add('mem', id(f), nm, off + lo, off + hi)
        if kind == 'param': add('param-mem', id(f), [k for k, (x, ty) in enumerate(f.params) if x == nm][0], off + lo, off + hi)
    def mem_use(s, f, i, reg, lo, hi, add):
        """an instruction using a pointer with tainted bytes lo..hi behind it"""
        s.nuse += 1
        if i.op == 'getelementptr':
            o, n = s.gep(f, i)
            if o is None: add('mem', id(f), i.res, -INF, INF)
            elif hi > o and (n is None or lo < o + n or len(i.ops) <= 2): add('mem', id(f), i.res, lo - o, hi - o)
        elif i.op == 'load':
            n = s.size(f, i.ty)
            if lo < n and hi > 0: add('reg', id(f), i.res)
        elif i.op in ('phi', 'select', 'bitcast', 'freeze', 'addrspacecast'): add('mem', id(f), i.res, lo, hi)
        elif i.op == 'store':
            if i.ops[0].k == 'local' and i.ops[0].v == reg and s.root(f, i.ops[1]) is not None: s.taint_mem(f, i.ops[1], add, i, quiet=True, size=8)
        elif i.op == 'ret': add('ret', id(f))
        elif i.op in ('call', 'invoke'):
            cal = i.x['callee']
            if cal.k != 'global': return
            name = cal.v; d = dm(name); d = d[1:] if d.startswith('@') else d; a = i.x['args']
            if name.startswith(('@llvm.lifetime', '@llvm.dbg')) or SEEDING.match(d) or OUTPUT.match(d): return
            if name.startswith(('@llvm.memcpy', '@llvm.memmove')):
                if a[1].k == 'local' and a[1].v == reg:
                    n = a[2].v if a[2].k == 'int' else INF
                    if lo < n and hi > 0: s.from_pointer(f, a[0], add, i, max(lo, 0), min(hi, n))
                return
            if name.startswith('@llvm.'): return
            g = s.defined(f, name)
            if g is not None and own(g):
                for k, x in enumerate(a):
                    if x.k == 'local' and x.v == reg and k < len(g.params): add('mem', id(g), g.params[k][0], lo, hi)
                if any(x.k == 'local' and x.v == reg and k >= len(g.params) for k, x in enumerate(a)):
                    if i.res: add('reg', id(f), i.res)
                    if i.x.get('sret'): s.taint_mem(f, a[0], add, i)
                return
            if d.split('(')[0] in ('gettimeofday', 'clock_gettime', 'time', 'ftime'): return
            if '__normal_iterator' in d and 'operator' in d and re.search(r'operator(==|!=|-|<|\+\+)', d): return
            if re.match(r'std::(__cxx11::)?(basic_string|vector|shared_ptr|map|set)', d) and (lo >= 32 or hi <= 0): return
            if re.match(r'std::(__cxx11::)?(vector|map|set|deque|basic_string)<.*>::(size|empty|capacity|length|~\w+)\(', d): return
            if lo >= 8 * 1024 or hi <= 0: return
            if FORMAT.match(d):
                if i.res:
                    if i.ty.k == 'ptr': add('mem', id(f), i.res, -INF, INF)
                    else: add('reg', id(f), i.res)
                if a and a[0].ty.k == 'ptr' and not (a[0].k == 'local' and a[0].v == reg): s.taint_mem(f, a[0], add, i, quiet=True)
                return
            s.bad.append((f, i, 'is handed to %s' % d.split('(')[0]))
    def size(s, f, ty):
        try: return f.mod.size_align(ty)[0]
        except Exception: return 8
    def use(s, f, i, reg, add):
        s.nuse += 1
        if i.op == 'dbg': return
        if i.op == 'store':
            if i.ops[0].k == 'local' and i.ops[0].v == reg: s.taint_mem(f, i.ops[1], add, i, size=s.size(f, i.ops[0].ty))
            return
        if i.op in ('br', 'switch'): s.bad.append((f, i, 'decides which way the program goes')); return
        if i.op == 'ret': add('ret', id(f)); return
        if i.op in ('call', 'invoke'):
            cal = i.x['callee']
            if cal.k != 'global': s.bad.append((f, i, 'is handed to an unknown function')); return
            name = cal.v; d = dm(name); d = d[1:] if d.startswith('@') else d; a = i.x['args']
            if name.startswith(('@llvm.lifetime', '@llvm.dbg')): return
            if SEEDING.match(d): s.seeds.append((f, i, d)); return
            if OUTPUT.match(d): return
            g = s.defined(f, name)
            if g is not None and own(g):
                for k, x in enumerate(a):
                    if x.k == 'local' and x.v == reg and k < len(g.params): add('reg', id(g), g.params[k][0])
                if any(x.k == 'local' and x.v == reg and k >= len(g.params) for k, x in enumerate(a)):
                    if i.res: add('reg', id(f), i.res)
                    if i.x.get('sret'): s.taint_mem(f, a[0], add, i)
                return
            if re.match(r'std::(vector|deque)<.*>::(resize|vector|assign|reserve|operator\[\]|at)\(', d): s.bad.append((f, i, 'decides the length or the element of a list')); return
            if FORMAT.match(d):
                if i.res: add('reg', id(f), i.res)
                if a and a[0].ty.k == 'ptr' and not (a[0].k == 'local' and a[0].v == reg): s.taint_mem(f, a[0], add, i)
                return
            s.bad.append((f, i, 'is handed to %s' % d.split('(')[0])); return
        if i.res: add('reg', id(f), i.res)
def own(f):
    """code of this repository, not of the libraries it includes"""
    l = f.loc()[0]
    return not str(l).startswith('/usr/') and 'loguru/' not in str(l) and not dm(f.name).startswith('loguru::') and not dm(f.name).startswith(('std::', '__gnu_cxx::', 'void std::'))

CASTS = ('trunc', 'zext', 'sext', 'freeze', 'bitcast')
def strip(f, v):
    while v.k == 'local':
        d = f.body().defs.get(v.v)
        if d is not None and d.op in CASTS: v = d.ops[0]
        else: break
    return v
def edge_guards(f, b, upto=30):
    """[(value, sides allowed)]: (v, constant comparison, taken) decisions every path to block b has passed"""
    out = []; n = 0
    while len(b.preds) == 1 and n < upto:
        p = b.preds[0]; t = p.term; n += 1
        if t.op == 'br' and t.ops and p.succs[0] is not p.succs[1]: out.append((t.ops[0], p.succs[0] is b, p))
        b = p
    return out
def dom_guards(f, b):
    """decisions taken on every path to block b (dominating edges)"""
    f.body()
    out = list(edge_guards(f, b))
    # dominators: an edge dominates b when b is unreachable without it
    for p in f.blocks:
        t = p.term
        if t.op != 'br' or not t.ops or p.succs[0] is p.succs[1]: continue
        for side in (True, False):
            keep = p.succs[0] if side else p.succs[1]
            if not reach(f, b, p, p.succs[1] if side else p.succs[0], cut=(p, keep)): out.append((t.ops[0], side, p))
    return out
def reach(f, b, p, other, cut):
    seen = set(); work = [f.blocks[0]]
    while work:
        x = work.pop()
        if x is b: return True
        if id(x) in seen: continue
        seen.add(id(x))
        for y in x.succs:
            if x is cut[0] and y is cut[1]: continue
            work.append(y)
    return False
def zero_only(f, cond, taken):
    """the value that must be zero for a decision to come out that way (a positive number makes it come out the other way)"""
    d = f.body().defs.get(cond.v) if cond.k == 'local' else None
    if d is None: return None
    if d.op == 'trunc' or d.op == 'freeze': return zero_only(f, d.ops[0], taken)
    if d.op == 'xor' and d.ops[1].k == 'int': return zero_only(f, d.ops[0], not taken)
    if d.op != 'icmp': return None
    a, b = d.ops; pr = d.x['pred']
    if a.k == 'int': a, b = b, a; pr = {'ugt': 'ult', 'ult': 'ugt', 'uge': 'ule', 'ule': 'uge', 'sgt': 'slt', 'slt': 'sgt', 'sge': 'sle', 'sle': 'sge'}.get(pr, pr)
    if b.k != 'int': return None
    c = b.v; op = {'eq': lambda x: x == c, 'ne': lambda x: x != c, 'ugt': lambda x: x > c, 'sgt': lambda x: x > c, 'uge': lambda x: x >= c, 'sge': lambda x: x >= c, 'ult': lambda x: x < c, 'slt': lambda x: x < c, 'ule': lambda x: x <= c, 'sle': lambda x: x <= c}.get(pr)
    if op is None: return None
    return strip(f, a) if all(op(x) != taken for x in (1, 2, 7, 1000, 2**31, 2**40)) else None
class Seeds:
    """where seeds come from"""
    def __init__(s, T, fields): s.T, s.fields = T, fields; s.memo = {}
    def from_options(s, f, v):
        v = strip(f, v); d = f.body().defs.get(v.v) if v.k == 'local' else None
        if d is None or d.op != 'load': return False
        p = d.ops[0]; g = f.defs.get(p.v) if p.k == 'local' else None
        if g is None or g.op != 'getelementptr' or g.x['bt'].k != 'named': return False
        m = re.match(r'%"?(class|struct)\.(\w+)', g.x['bt'].a); off, n = s.T.gep(f, g)
        return bool(m) and s.fields.get(m.group(2), {}).get(off) == 'rngSeed'
    def is_seed(s, f, v, depth=0):
        """None when v is the number given with --seed wherever this code is called, else (function, instruction or None, text)"""
        v = strip(f, v)
        if s.from_options(f, v): return None
        if depth > 8: return (f, None, 'cannot be followed')
        d = f.body().defs.get(v.v) if v.k == 'local' else None
        if d is not None and d.op == 'phi':
            for o in d.ops:
                r = s.is_seed(f, o, depth + 1)
                if r: return r
            return None
        if d is None and v.k == 'local':
            for k, (nm, ty) in enumerate(f.params):
                if nm == v.v:
                    for g, i in s.T.callsites(id(f)):
                        r = s.is_seed(g, i.x['args'][k], depth + 1)
                        if r: return (r[0], r[1] or i, r[2])
                    return None
        return (f, d, 'is not the number given with --seed')
    def tainted_when(s, f, v, depth=0):
        """values that must be zero for v to be a number that differs from run to run; None: whenever"""
        v = strip(f, v)
        if v.k != 'local' or ('reg', id(f), v.v) not in s.T.t: return []
        d = f.body().defs.get(v.v)
        if d is None or depth > 6: return None
        if d.op == 'phi':
            out = []
            for o, b in zip(d.ops, d.x['blocks']):
                if not s.tainted(f, o): continue
                z = s.guards(f, f.bmap[b if b in f.bmap else '%' + b.strip('%')], d.bb)
                if not z:
                    z = s.tainted_when(f, o, depth + 1)
                    if z is None: return None
                out += z
            return out
        if d.op == 'select':
            out = []
            for o, side in ((d.ops[1], True), (d.ops[2], False)):
                if not s.tainted(f, o): continue
                z = zero_only(f, d.ops[0], side)
                if z is None:
                    w = s.tainted_when(f, o, depth + 1)
                    if w is None: return None
                    out += w
                else: out.append(z)
            return out
        if d.op in ('call', 'invoke') and d.x['callee'].k == 'global':
            g = s.T.defined(f, d.x['callee'].v)
            if g is not None and own(g):
                out = []
                for i in g.insts():
                    if i.op == 'ret' and i.ops:
                        w = s.guards(g, i.bb) or s.tainted_when(g, i.ops[0], depth + 1)
                        if w is None: return None
                        for z in w:
                            k = [k for k, (nm, ty) in enumerate(g.params) if z.k == 'local' and nm == z.v]
                            if not k: return None
                            out.append(d.x['args'][k[0]])
                return out
        z = s.guards(f, d.bb)
        return z or None
    def tainted(s, f, o): o = strip(f, o); return o.k == 'local' and ('reg', id(f), o.v) in s.T.t
    def guards(s, f, b, to=None):
        out = [zero_only(f, c, side) for c, side, p in dom_guards(f, b)]
        if to is not None and b.term.op == 'br' and b.term.ops and b.succs[0] is not b.succs[1]: out.append(zero_only(f, b.term.ops[0], b.succs[0] is to))
        return [z for z in out if z is not None]

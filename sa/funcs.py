"""Model of the 2D image-function classes: resolved through the function registry and vtables."""
import re
from . import build, gsa, ir
from .build import dm, AnalysisError
from .cas import *
from .gsa import Machine, Mem

D2R = math.pi / 180.0

def load_program(extra=()):
    srcs = build.repo_sources(dirs=('function_objects',)) + ['core/add_functions.cpp']
    mods, failed = build.compile_all(srcs, allow_fail=True)
    need = [s for s in failed if s == 'core/add_functions.cpp']
    if need: raise AnalysisError('cannot compile core/add_functions.cpp: ' + failed[need[0]])
    p = build.Program(mods)
    p.failed = failed
    return p

class FuncModel:
    def __init__(s, prog, cls):
        s.prog, s.cls = prog, cls
        s.vt = prog.find_vtable(cls)
        if s.vt is None: raise AnalysisError('no vtable definition for class ' + cls)
        s.mod = None
        ctor = prog.defined(s.ctor_name(cls))
        if ctor is None: raise AnalysisError('no constructor definition for class ' + cls)
        s.ctor = ctor; s.mod = ctor.mod
        s.fields = s.mod.all_fields(cls)
        if not s.fields: raise AnalysisError('no debug description of class ' + cls)
        s.names = {o: v[0] for o, v in s.fields.items()}
        s.off = {v[0]: o for o, v in s.fields.items()}
        s.labels, s.units = s._tables()
        s.consts = s._ctor_consts()
        s.short = s._short()
    @staticmethod
    def ctor_name(c): return '@_ZN%d%sC2Ev' % (len(c), c)
    def slot(s, meth):
        """the function the virtual call to `meth` reaches for this dynamic type"""
        for e in s.vt:
            if e and re.search(r'::%s\(' % re.escape(meth), dm(e)): return s.prog.defined(e)
        return None
    def bases(s):
        out = []; c = s.cls
        while True:
            fl = s.mod.class_fields(c) or []
            b = [x[0][6:] for x in fl if x[0] and x[0].startswith('<base>')]
            if not b: return out
            out.append(b[0]); c = b[0]
    def _tables(s):
        """label and unit tables: the constant arrays of C strings the constructor reads"""
        seen = []
        for i in s.ctor.insts():
            for o in ir.iter_operands(i):
                if o.k == 'global' and o.v not in seen and o.v in s.mod.globals: seen.append(o.v)
        tabs = []
        for g in seen:
            gi = s.mod.ginit(g)
            if gi and gi[0] and gi[1].k == 'array' and gi[1].b.k == 'array' and gi[1].b.b.k == 'int' and gi[2] is not None and gi[2].k == 'agg':
                tabs.append([e.v.replace('\\00', '') if e.k == 'str' else '' for e in gi[2].v])
        # the label table holds no 'counts'/'pixels' entries
        lab = [t for t in tabs if not any(x.startswith(('counts', 'pixels', 'deg')) for x in t)]
        uni = [t for t in tabs if any(x.startswith(('counts', 'pixels', 'deg')) for x in t)]
        return (lab[0] if lab else None), (uni[0] if uni else None)
    def _short(s):
        g = s.mod.globals
        nm = '@_ZN%d%s9classNameE' % (len(s.cls), s.cls)
        m, gi = s.prog.glob(nm)
        return m.cstring(nm) if gi else None
    def _stores_to_this(s, fn):
        """[(offset, value operand, inst)] of direct stores to constant offsets of the first argument"""
        out = []
        fn.body()
        this = fn.params[0][0]
        base = {this: 0}
        for b in fn.blocks:
            for i in b.insts:
                if i.op == 'getelementptr' and i.ops[0].k == 'local' and i.ops[0].v in base and all(o.k == 'int' for o in i.ops[1:]):
                    o = base[i.ops[0].v]; t = i.x['bt']
                    o += i.ops[1].v * fn.mod.size_align(t)[0]
                    for ix in i.ops[2:]:
                        t = fn.mod.resolve(t)
                        if t.k in ('struct', 'packed'):
                            fo, t = fn.mod.field_offset(t, ix.v); o += fo
                        else:
                            t = t.b; o += ix.v * fn.mod.size_align(t)[0]
                    base[i.res] = o
                elif i.op == 'store' and i.ops[1].k == 'local' and i.ops[1].v in base:
                    out.append((base[i.ops[1].v], i.ops[0], i))
        return out
    def _ctor_consts(s):
        """fields whose value after construction is a constant that no other member function changes"""
        d = {}
        for c in reversed([s.cls] + s.bases()):
            f = s.prog.defined(s.ctor_name(c))
            if f is None: continue
            for off, v, i in s._stores_to_this(f):
                if v.k in ('int', 'fp', 'global') or v.k == 'null':
                    d[off] = v if off not in d or True else None
                else: d.pop(off, None)
        for c in [s.cls] + s.bases():
            for n, f in s.prog.methods(c).items():
                nm = dm(n).split('(')[0].split('::')[-1]
                if nm == c or nm.startswith('~'): continue
                try: st = s._stores_to_this(f)
                except Exception: continue
                for off, v, i in st:
                    if off in d and not (v.k == d[off].k and v.v == d[off].v):
                        if not (d[off].k == 'global'): d.pop(off)
        d.pop(0, None)
        return d
    # ------------------------------------------------------------------
    def machine(s, hooks=None):
        return Machine(s.prog, names={'this': {o: 'this.' + n for o, n in s.names.items()}}, hooks=hooks)
    def initial(s, m):
        mem = Mem()
        for off, v in s.consts.items():
            mem.d[('this', off)] = m.const(v, s.mod)
        mem.d[('this', 0)] = leaf(Ptr(('glob', '@_ZTV%d%s' % (len(s.cls), s.cls)), num(16)))
        return mem
    def nparams(s):
        o = s.off.get('nParams')
        v = s.consts.get(o)
        return v.v if v is not None and v.k == 'int' else None
    def setup(s, m, params, xc, yc, mem=None, offset=None):
        """params: list of values; returns memory after Setup"""
        mem = mem or s.initial(m)
        off = offset if offset is not None else N(0)
        for i, p in enumerate(params): mem.d[('params', 8 * i)] = p
        f = s.slot('Setup')
        if f is None: raise AnalysisError('%s::Setup has no definition' % s.cls)
        v, mem, rc = m.call(f, [leaf(Ptr('this', ZERO)), leaf(Ptr('params', ZERO)), off, xc, yc], mem)
        return mem
    def value(s, m, mem, x, y):
        f = s.slot('GetValue')
        if f is None: raise AnalysisError('%s::GetValue has no definition' % s.cls)
        v, mem2, rc = m.call(f, [leaf(Ptr('this', ZERO)), x, y], mem.copy())
        return v, mem2

def registered(prog):
    out = []
    for n, f in prog.mods['core/add_functions.cpp'].functions.items():
        m = re.match(r'funcobj_factory<(\w+)>::create\(\)', dm(n))
        if m and f.lines is not None: out.append(m.group(1))
    return sorted(set(out))

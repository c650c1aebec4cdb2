"""Parser for the textual form of LLVM 18 IR (opaque pointers).

Only what the analyses need: types with x86-64 layout, globals, functions with
basic blocks and instructions, and the debug metadata that maps instructions to
source lines and struct fields to names.  Function bodies are parsed on demand.
"""
import re, struct

class IRError(Exception):
    pass

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'a', 'b')
    def __init__(s, k, a=None, b=None):
        s.k, s.a, s.b = k, a, b
    def __repr__(s):
        if s.k == 'int': return 'i%d' % s.a
        if s.k == 'named': return s.a
        if s.k == 'array': return '[%d x %r]' % (s.a, s.b)
        if s.k == 'struct': return '{%s}' % ','.join(map(repr, s.a))
        return s.k
    def key(s):
        return repr(s)

VOID, PTR, DOUBLE, FLOAT = Ty('void'), Ty('ptr'), Ty('double'), Ty('float')
LABEL, META = Ty('label'), Ty('metadata')
_ints = {}
def INT(n):
    if n not in _ints: _ints[n] = Ty('int', n)
    return _ints[n]

# ---------------------------------------------------------------- values
class V:
    """A value operand: k in local, global, int, fp, null, undef, zero, bool, cexpr, str, agg, meta, asm"""
    __slots__ = ('k', 'v', 'ty')
    def __init__(s, k, v, ty):
        s.k, s.v, s.ty = k, v, ty
    def __repr__(s):
        return '%s:%s' % (s.k, s.v)

class Inst:
    __slots__ = ('op', 'res', 'ty', 'ops', 'x', 'dbg', 'bb', 'idx', 'fn')
    def __init__(s, op, res=None, ty=None, ops=(), x=None):
        s.op, s.res, s.ty, s.ops, s.x = op, res, ty, list(ops), x or {}
        s.dbg = None; s.bb = None; s.idx = -1; s.fn = None
    def __repr__(s):
        return '%s = %s %r %r %r' % (s.res, s.op, s.ty, s.ops, s.x)

class Block:
    __slots__ = ('name', 'insts', 'succs', 'preds', 'fn')
    def __init__(s, name):
        s.name = name; s.insts = []; s.succs = []; s.preds = []; s.fn = None
    @property
    def term(s):
        return s.insts[-1]

TOK = re.compile(r'''
  (?P<ws>\s+)
 |(?P<cstr>c"[^"]*")
 |(?P<local>%"[^"]*"|%[-a-zA-Z$._0-9]+)
 |(?P<glob>@"[^"]*"|@[-a-zA-Z$._0-9]+)
 |(?P<meta>!"[^"]*"|![-a-zA-Z$._0-9]*)
 |(?P<attr>\#\d+)
 |(?P<str>"[^"]*")
 |(?P<num>-?\d+\.\d*(?:[eE][-+]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)
 |(?P<id>\$?[a-zA-Z_][-a-zA-Z0-9_.]*)
 |(?P<p>\.\.\.|[][(){}<>,=*:|])
''', re.X)

def tokenize(s):
    out = []; pos = 0; n = len(s)
    while pos < n:
        if s[pos] == ';': break
        m = TOK.match(s, pos)
        if not m: raise IRError('tokenize %r at %d' % (s[:200], pos))
        pos = m.end()
        k = m.lastgroup
        if k != 'ws': out.append((k, m.group()))
    return out

PARAM_ATTRS = set('''noundef nonnull nocapture readonly writeonly readnone noalias signext zeroext inreg returned nest
 swiftself immarg nofree allocptr allocalign dead_on_unwind writable swifterror noreturn nounwind noext'''.split())
FMF = set('nuw nsw exact fast nnan ninf nsz arcp contract afn reassoc inbounds disjoint nneg volatile'.split())
BINOPS = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem'.split())
CASTS = set('trunc zext sext fptrunc fpext fptoui fptosi uitofp sitofp ptrtoint inttoptr bitcast addrspacecast'.split())

class P:
    """token-stream parser"""
    def __init__(s, toks, mod):
        s.t = toks; s.i = 0; s.mod = mod
    def peek(s, d=0):
        j = s.i + d
        return s.t[j][1] if j < len(s.t) else None
    def peekk(s, d=0):
        j = s.i + d
        return s.t[j][0] if j < len(s.t) else None
    def next(s):
        v = s.t[s.i]; s.i += 1
        return v[1]
    def accept(s, v):
        if s.peek() == v:
            s.i += 1; return True
        return False
    def expect(s, v):
        if s.peek() != v: raise IRError('expected %s got %s in %s' % (v, s.peek(), ' '.join(x[1] for x in s.t)[:300]))
        s.i += 1
    def ty(s):
        t = s._ty0()
        while True:
            if s.peek() == '(':       # function type
                depth = 0
                while True:
                    x = s.next()
                    if x == '(': depth += 1
                    elif x == ')':
                        depth -= 1
                        if depth == 0: break
                t = Ty('func', t)
            elif s.peek() == '*':
                s.i += 1; t = PTR
            elif s.peek() == 'addrspace':
                s.i += 4
            else: return t
    def _ty0(s):
        k = s.peekk(); v = s.next()
        if v == 'void': return VOID
        if v == 'ptr': return PTR
        if v == 'double': return DOUBLE
        if v == 'float': return FLOAT
        if v == 'x86_fp80': return Ty('x86_fp80')
        if v == 'label': return LABEL
        if v == 'metadata': return META
        if v == 'token': return Ty('token')
        if k == 'id' and re.match(r'i\d+$', v): return INT(int(v[1:]))
        if k == 'local': return Ty('named', v)
        if v == '[':
            n = int(s.next()); s.expect('x'); e = s.ty(); s.expect(']')
            return Ty('array', n, e)
        if v == '{':
            l = []
            while not s.accept('}'):
                l.append(s.ty()); s.accept(',')
            return Ty('struct', l)
        if v == '<':
            if s.peek() == '{':
                t = s.ty(); s.expect('>'); return Ty('packed', t.a)
            n = int(s.next()); s.expect('x'); e = s.ty(); s.expect('>')
            return Ty('vector', n, e)
        raise IRError('type? %s in %s' % (v, ' '.join(x[1] for x in s.t)[:300]))
    def val(s, ty):
        k = s.peekk(); v = s.next()
        if k == 'local': return V('local', v, ty)
        if k == 'glob': return V('global', unq(v), ty)
        if k == 'num':
            if ty.k in ('double', 'float'):
                if v.startswith('0x'):
                    return V('fp', struct.unpack('>d', bytes.fromhex(v[2:].rjust(16, '0')))[0], ty)
                return V('fp', float(v), ty)
            if ty.k == 'x86_fp80': return V('fp', float('nan'), ty)
            return V('int', int(v), ty)
        if v in ('true', 'false'): return V('int', 1 if v == 'true' else 0, ty)
        if v == 'null': return V('null', None, ty)
        if v in ('undef', 'poison'): return V('undef', None, ty)
        if v == 'zeroinitializer': return V('zero', None, ty)
        if v == 'none': return V('null', None, ty)
        if k == 'cstr': return V('str', v[2:-1], ty)
        if k == 'meta': return V('meta', v, ty)
        if v in ('[', '{', '<'):
            close = {'[': ']', '{': '}', '<': '>'}[v]
            if v == '<' and s.peek() == '{':
                s.next(); close = '}'
                packed = True
            else: packed = False
            l = []
            while not s.accept(close):
                t = s.ty(); l.append(s.val(t)); s.accept(',')
            if packed: s.expect('>')
            return V('agg', l, ty)
        if v == 'asm':
            while s.peekk() == 'id': s.next()
            a = s.next(); s.accept(','); b = s.next()
            return V('asm', (a, b), ty)
        if v == 'getelementptr':
            while s.peek() in FMF: s.next()
            s.expect('('); bt = s.ty(); ops = []
            while s.accept(','):
                while s.peek() in ('inrange',): s.next()
                t = s.ty(); ops.append(s.val(t))
            s.expect(')')
            return V('cexpr', ('getelementptr', bt, ops), ty)
        if v in BINOPS or v in ('icmp', 'fcmp'):
            while s.peek() in FMF: s.next()
            if v in ('icmp', 'fcmp'): s.next()
            s.expect('('); ops = []
            while True:
                t = s.ty(); ops.append(s.val(t))
                if not s.accept(','): break
            s.expect(')')
            return V('cexpr', (v, None, ops), ty)
        if v in CASTS:
            s.expect('('); t = s.ty(); o = s.val(t); s.expect('to'); t2 = s.ty(); s.expect(')')
            return V('cexpr', (v, t2, [o]), ty)
        if v in ('dso_local_equivalent', 'no_cfi'):
            return s.val(ty)
        if v == 'blockaddress':
            s.expect('('); s.next(); s.expect(','); s.next(); s.expect(')')
            return V('undef', None, ty)
        if v == 'select':
            raise IRError('cexpr select')
        raise IRError('value? %s in %s' % (v, ' '.join(x[1] for x in s.t)[:300]))
    def tyval(s):
        t = s.ty(); s.attrs(); return s.val(t)
    def attrs(s):
        while True:
            p = s.peek()
            if p in PARAM_ATTRS: s.next()
            elif p in ('align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'inalloca',
                       'elementtype', 'preallocated', 'allocsize', 'captures', 'alignstack', 'memory', 'initializes',
                       'nofpclass', 'allockind', 'range'):
                s.next()
                if s.peek() == '(':
                    d = 0
                    while True:
                        x = s.next()
                        if x == '(': d += 1
                        elif x == ')':
                            d -= 1
                            if d == 0: break
                elif s.peekk() == 'num': s.next()
            elif s.peekk() == 'attr': s.next()
            elif s.peekk() == 'str':
                s.next()
                if s.accept('='): s.next()
            else: return

def unq(v):
    if v[1:2] == '"': return v[0] + v[2:-1]
    return v

# ---------------------------------------------------------------- function
class Function:
    def __init__(s, mod, name, header, lines):
        s.mod, s.name, s.header, s.lines = mod, name, header, lines
        s._p = False; s.blocks = []; s.bmap = {}; s.args = []; s.ret = None; s.dbg = None
        m = re.search(r'!dbg !(\d+)', header)
        if m: s.dbg = m.group(1)
        s.declared = lines is None
        s._hdr = False
    def _header(s):
        if s._hdr: return
        s._hdr = True
        h = s.header
        toks = tokenize(h.rstrip(' {'))
        # find the name token
        for j, (k, v) in enumerate(toks):
            if k == 'glob' and unq(v) == s.name: break
        else: raise IRError('no name in header ' + h)
        p = P(toks, s.mod)
        p.i = 1
        # skip linkage etc. up to the type: attributes are ids not types
        skip = set('''private internal available_externally linkonce weak common appending extern_weak linkonce_odr weak_odr
          external default hidden protected dllimport dllexport dso_local dso_preemptable unnamed_addr local_unnamed_addr
          ccc fastcc coldcc'''.split())
        while True:
            if p.peek() in skip: p.next()
            elif p.peekk() == 'meta': p.next(); p.next() if p.peekk()=='meta' else None
            else:
                i0 = p.i; p.attrs()
                if p.i == i0: break
        s.ret = p.ty()
        p.attrs()
        p.i = j + 1
        p.expect('(')
        n = 0
        s.vararg = False
        s.sret = False
        while not p.accept(')'):
            if p.accept('...'):
                s.vararg = True
            else:
                t = p.ty()
                i0 = p.i; p.attrs()
                if any(x[1] == 'sret' for x in p.t[i0:p.i]): s.sret = True
                if p.peekk() == 'local': nm = p.next()
                else: nm = '%%%d' % n
                s.args.append((nm, t)); n += 1
            p.accept(',')
    @property
    def params(s):
        s._header(); return s.args
    @property
    def rettype(s):
        s._header(); return s.ret
    def body(s):
        if s._p: return s
        s._p = True
        s._header()
        if s.lines is None: return s
        cur = None
        nargs = len(s.args)
        joined = []
        buf = None
        for ln in s.lines:
            st = ln.strip()
            if not st or st[0] == ';': continue
            if buf is not None:
                buf += ' ' + st
                if st == ']' or st.startswith(']'):
                    joined.append(buf); buf = None
                continue
            if st.startswith('switch ') and not re.search(r'\]\s*(, !.*)?$', st):
                buf = st; continue
            if joined and (st.startswith('to label') or st.startswith('cleanup') or st.startswith('catch ') or st.startswith('filter ')):
                joined[-1] += ' ' + st; continue
            joined.append(st)
        for st in joined:
            m = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):(\s|$)', st)
            if m and ' = ' not in st.split(';')[0]:
                nm = m.group(1).strip('"')
                cur = Block('%' + nm); s.blocks.append(cur); s.bmap[cur.name] = cur
                continue
            if cur is None:
                cur = Block('%%%d' % nargs); s.blocks.append(cur); s.bmap[cur.name] = cur
                if re.match(r'entry:', st): continue
            ins = parse_inst(st, s.mod)
            if ins is None: continue
            ins.bb = cur; ins.idx = len(cur.insts); ins.fn = s
            cur.insts.append(ins)
        for b in s.blocks:
            b.fn = s
            t = b.insts[-1]
            if t.op == 'br': b.succs = [unqb(x) for x in t.x['targets']]
            elif t.op == 'switch': b.succs = [unqb(t.x['default'])] + [unqb(x[1]) for x in t.x['cases']]
            elif t.op == 'invoke': b.succs = [unqb(t.x['normal']), unqb(t.x['unwind'])]
            else: b.succs = []
        for b in s.blocks:
            b.succs = [s.bmap[x] for x in b.succs]
        for b in s.blocks:
            for c in b.succs: c.preds.append(b)
        s.defs = {}
        for b in s.blocks:
            for i in b.insts:
                if i.res: s.defs[i.res] = i
        return s
    def insts(s):
        s.body()
        for b in s.blocks:
            for i in b.insts: yield i
    def loc(s):
        return s.mod.subprogram_loc(s.dbg) if s.dbg else ('?', 0)
    def line(s, inst):
        return s.mod.dbg_loc(inst.dbg) if inst.dbg else s.loc()
    def uses(s):
        """map local name -> list of instructions using it"""
        s.body()
        if not hasattr(s, '_uses'):
            u = {}
            for i in s.insts():
                for o in iter_operands(i):
                    if o.k == 'local': u.setdefault(o.v, []).append(i)
            s._uses = u
        return s._uses

def iter_operands(i):
    for o in i.ops:
        yield o
        if o.k == 'cexpr':
            st = list(o.v[2])
            while st:
                q = st.pop(); yield q
                if q.k == 'cexpr': st.extend(q.v[2])

def unqb(v):
    return '%' + v[2:-1] if v[1:2] == '"' else v

def parse_inst(st, mod):
    dbg = None
    m = re.search(r', !dbg !(\d+)', st)
    if m: dbg = m.group(1)
    c = st.find(', !')
    # strip trailing metadata attachments
    if c >= 0 and 'metadata !' not in st[c:]:
        st2 = re.sub(r'(, ![a-zA-Z_.]+ !\d+)+\s*(#\d+)?$', '', st)
    else: st2 = re.sub(r'(, ![a-zA-Z_.]+ !\d+)+$', '', st)
    toks = tokenize(st2)
    p = P(toks, mod)
    res = None
    if p.peekk() == 'local' and p.peek(1) == '=':
        res = unqb(p.next()); p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'): op = p.next()
    ins = Inst(op, res)
    ins.dbg = dbg
    def flags():
        f = []
        while p.peek() in FMF: f.append(p.next())
        return f
    if op in BINOPS:
        ins.x['flags'] = flags()
        t = p.ty(); a = p.val(t); p.expect(','); b = p.val(t)
        ins.ty = t; ins.ops = [a, b]
    elif op == 'fneg':
        flags(); t = p.ty(); ins.ty = t; ins.ops = [p.val(t)]
    elif op == 'freeze':
        t = p.ty(); ins.ty = t; ins.ops = [p.val(t)]
    elif op in CASTS:
        flags(); t = p.ty(); v = p.val(t); p.expect('to'); ins.ty = p.ty(); ins.ops = [v]
    elif op in ('icmp', 'fcmp'):
        flags(); ins.x['pred'] = p.next(); t = p.ty(); a = p.val(t); p.expect(','); b = p.val(t)
        ins.ty = INT(1); ins.ops = [a, b]
    elif op == 'select':
        flags(); c = p.tyval(); p.expect(','); a = p.tyval(); p.expect(','); b = p.tyval()
        ins.ty = a.ty; ins.ops = [c, a, b]
    elif op == 'phi':
        flags(); t = p.ty(); ins.ty = t; inc = []
        while p.accept('['):
            v = p.val(t); p.expect(','); b = unqb(p.next()); p.expect(']'); inc.append((v, b))
            p.accept(',')
        ins.ops = [v for v, b in inc]; ins.x['blocks'] = [b for v, b in inc]
    elif op == 'alloca':
        p.accept('inalloca'); t = p.ty(); ins.ty = PTR; ins.x['aty'] = t
        if p.accept(',') and p.peek() != 'align':
            ins.ops = [p.tyval()]
    elif op == 'load':
        p.accept('atomic'); flags(); t = p.ty(); p.expect(','); a = p.tyval()
        ins.ty = t; ins.ops = [a]
        ins.x['volatile'] = ' volatile ' in st
    elif op == 'store':
        p.accept('atomic'); flags(); v = p.tyval(); p.expect(','); a = p.tyval()
        ins.ty = VOID; ins.ops = [v, a]
        ins.x['volatile'] = ' volatile ' in st
    elif op == 'getelementptr':
        flags(); bt = p.ty(); ops = []
        while p.accept(','):
            ops.append(p.tyval())
        ins.ty = PTR; ins.ops = ops; ins.x['bt'] = bt
    elif op == 'ret':
        t = p.ty(); ins.ty = t
        if t.k != 'void': ins.ops = [p.val(t)]
    elif op == 'br':
        if p.peek() == 'label':
            p.next(); ins.x['targets'] = [p.next()]
        else:
            c = p.tyval(); p.expect(','); p.expect('label'); a = p.next(); p.expect(','); p.expect('label'); b = p.next()
            ins.ops = [c]; ins.x['targets'] = [a, b]
    elif op == 'switch':
        c = p.tyval(); p.expect(','); p.expect('label'); ins.x['default'] = p.next(); cases = []
        p.expect('[')
        while not p.accept(']'):
            v = p.tyval(); p.expect(','); p.expect('label'); cases.append((v.v, p.next()))
        ins.ops = [c]; ins.x['cases'] = cases
    elif op in ('call', 'invoke'):
        flags()
        while p.peek() in ('ccc', 'fastcc', 'coldcc'): p.next()
        p.attrs()
        t = p.ty()
        if t.k == 'func': t = t.a
        p.attrs()
        callee = p.val(PTR)
        p.expect('(')
        args = []
        sret = False
        while not p.accept(')'):
            at = p.ty()
            if at.k == 'metadata':
                # metadata operand: value or inline metadata (possibly typed value)
                d = 0
                j = p.i
                if p.peekk() == 'meta':
                    args.append(V('meta', p.next(), META))
                    if p.peek() == '(':
                        while True:
                            x = p.next()
                            if x == '(': d += 1
                            elif x == ')':
                                d -= 1
                                if d == 0: break
                else:
                    args.append(p.tyval())
            else:
                i0 = p.i; p.attrs()
                if any(x[1] == 'sret' for x in p.t[i0:p.i]): sret = True
                args.append(p.val(at))
            p.accept(',')
        ins.ty = t; ins.x['callee'] = callee; ins.x['args'] = args; ins.x['sret'] = sret
        if callee.k == 'global' and callee.v.startswith('@llvm.dbg.'):
            ins.op = 'dbg'
            ins.x['kind'] = callee.v[10:]
            ins.ops = [a for a in args if a.k not in ('meta',)]
            ins.x['vals'] = args
            return ins
        ins.ops = list(args) + ([callee] if callee.k != 'global' else [])
        if op == 'invoke':
            p.attrs()
            p.expect('to'); p.expect('label'); ins.x['normal'] = p.next(); p.expect('unwind'); p.expect('label'); ins.x['unwind'] = p.next()
    elif op == 'unreachable':
        pass
    elif op == 'resume':
        ins.ops = [p.tyval()]
    elif op == 'landingpad':
        ins.ty = p.ty()
    elif op == 'extractvalue':
        v = p.tyval(); idx = []
        while p.accept(','): idx.append(int(p.next()))
        ins.ops = [v]; ins.x['idx'] = idx; ins.ty = Ty('unk')
        t = v.ty
        for i in idx:
            if t.k == 'struct': t = t.a[i]
            elif t.k == 'array': t = t.b
            elif t.k == 'named': t = mod.resolve(t).a[i]
        ins.ty = t
    elif op == 'insertvalue':
        v = p.tyval(); p.expect(','); w = p.tyval(); idx = []
        while p.accept(','): idx.append(int(p.next()))
        ins.ops = [v, w]; ins.x['idx'] = idx; ins.ty = v.ty
    elif op in ('atomicrmw',):
        flags(); ins.x['rmw'] = p.next(); a = p.tyval(); p.expect(','); v = p.tyval(); ins.ops = [a, v]; ins.ty = v.ty
    elif op == 'cmpxchg':
        flags(); p.accept('weak'); a = p.tyval(); p.expect(','); v = p.tyval(); p.expect(','); w = p.tyval(); ins.ops = [a, v, w]
        ins.ty = Ty('struct', [v.ty, INT(1)])
    elif op == 'fence':
        pass
    elif op in ('extractelement', 'insertelement', 'shufflevector'):
        while True:
            ins.ops.append(p.tyval())
            if not p.accept(','): break
        t0 = ins.ops[0].ty
        ins.ty = t0.b if op == 'extractelement' else t0
    elif op == 'va_arg':
        ins.ops = [p.tyval()]; p.expect(','); ins.ty = p.ty()
    else:
        raise IRError('inst? ' + st)
    return ins

# ---------------------------------------------------------------- module
class Module:
    def __init__(s, text, path=''):
        s.path = path
        s.types = {}; s.functions = {}; s.globals = {}; s.meta = {}; s._tyc = {}; s._dl = {}
        lines = text.split('\n')
        i = 0; n = len(lines)
        while i < n:
            ln = lines[i]
            c = ln[:1]
            if c == '!':
                j = ln.find(' = ')
                s.meta[ln[1:j]] = ln[j+3:]
            elif c == 'd':
                if ln.startswith('define '):
                    m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
                    nm = unq('@' + m.group(1))
                    j = i + 1
                    while lines[j] != '}': j += 1
                    s.functions[nm] = Function(s, nm, ln, lines[i+1:j])
                    i = j
                elif ln.startswith('declare '):
                    m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
                    nm = unq('@' + m.group(1))
                    s.functions[nm] = Function(s, nm, ln, None)
            elif c == '%':
                j = ln.find(' = type ')
                s.types[ln[:j]] = ln[j+8:]
            elif c == '@':
                m = re.match(r'(@"[^"]*"|@[-a-zA-Z$._0-9]+) = ', ln)
                if m: s.globals[unq(m.group(1))] = ln[m.end():]
            i += 1
    # --- types
    def resolve(s, t):
        if t.k != 'named': return t
        if t.a not in s._tyc:
            body = s.types.get(t.a)
            if body is None or body == 'opaque': s._tyc[t.a] = Ty('struct', [])
            else: s._tyc[t.a] = P(tokenize(body), s).ty()
        return s._tyc[t.a]
    def size_align(s, t):
        if t.k == 'named':
            return s.size_align(s.resolve(t))
        if t.k == 'int':
            b = (t.a + 7) // 8
            a = 1
            while a < b: a *= 2
            return (a, min(a, 16))
        if t.k in ('double', 'ptr'): return (8, 8)
        if t.k == 'float': return (4, 4)
        if t.k == 'x86_fp80': return (16, 16)
        if t.k in ('array', 'vector'):
            sz, al = s.size_align(t.b); return (sz * t.a, al)
        if t.k == 'struct':
            o = 0; am = 1
            for f in t.a:
                sz, al = s.size_align(f)
                o = (o + al - 1) // al * al + sz; am = max(am, al)
            return ((o + am - 1) // am * am, am)
        if t.k == 'packed':
            return (sum(s.size_align(f)[0] for f in t.a), 1)
        raise IRError('size of %r' % t)
    def field_offset(s, t, idx):
        t = s.resolve(t)
        o = 0
        for j, f in enumerate(t.a):
            sz, al = s.size_align(f)
            if t.k != 'packed': o = (o + al - 1) // al * al
            if j == idx: return o, f
            o += sz
        raise IRError('field %d of %r' % (idx, t))
    # --- globals
    def ginit(s, name):
        ln = s.globals.get(name)
        if ln is None: return None
        m = re.search(r'\b(global|constant)\b', ln)
        if not m: return None
        const = m.group(1) == 'constant'
        head = ln[:m.start()]
        rest = re.sub(r'(, (align \d+|comdat(\([^)]*\))?|section "[^"]*"|![a-z]+ !\d+))+$', '', ln[m.end():])
        p = P(tokenize(rest), s)
        t = p.ty()
        v = p.val(t) if p.i < len(p.t) and 'external' not in head.split() else None
        return (const, t, v)
    def cstring(s, name):
        g = s.ginit(name)
        if g and g[2] is not None and g[2].k == 'str':
            raw = g[2].v
            b = re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), raw)
            return b.rstrip('\0')
        if g and g[2] is not None and g[2].k == 'zero' and g[1].k == 'array': return ''
        return None
    # --- metadata
    def mfield(s, mid, field):
        ln = s.meta.get(mid)
        if ln is None: return None
        m = re.search(r'\b' + field + r': ("(?:[^"]*)"|[^,)]+)', ln)
        if not m: return None
        v = m.group(1)
        if v.startswith('"'): return v[1:-1]
        return v
    def mref(s, mid, field):
        v = s.mfield(mid, field)
        if v and v.startswith('!'): return v[1:]
        return None
    def file_of(s, mid):
        seen = 0
        while mid and seen < 50:
            ln = s.meta.get(mid, '')
            if 'DIFile(' in ln: return s.mfield(mid, 'filename')
            f = s.mref(mid, 'file')
            if f: return s.mfield(f, 'filename')
            mid = s.mref(mid, 'scope'); seen += 1
        return '?'
    def subprogram_loc(s, mid):
        if mid is None: return ('?', 0)
        return (s.file_of(mid), int(s.mfield(mid, 'line') or 0))
    def dbg_loc(s, mid, innermost=True):
        if mid is None: return ('?', 0)
        if mid not in s._dl:
            s._dl[mid] = (s.file_of(s.mref(mid, 'scope')), int(s.mfield(mid, 'line') or 0))
        return s._dl[mid]
    def mlist(s, mid):
        ln = s.meta.get(mid, '')
        m = re.match(r'(?:distinct )?!\{(.*)\}', ln)
        if not m: return []
        return [x.strip()[1:] for x in m.group(1).split(',') if x.strip().startswith('!')]
    def di_types(s):
        """name (qualified by scope for nested) -> metadata id of composite types defined"""
        if hasattr(s, '_dit'): return s._dit
        d = {}
        for mid, ln in s.meta.items():
            if 'DICompositeType(' in ln and ('DW_TAG_class_type' in ln or 'DW_TAG_structure_type' in ln) and 'DIFlagFwdDecl' not in ln:
                nm = s.mfield(mid, 'name')
                if nm: d.setdefault(nm, mid)
        s._dit = d
        return d
    def class_fields(s, cname):
        """[(name, byte offset, byte size, type metadata id, static)] of class incl. base subobjects ('<base>')"""
        mid = s.di_types().get(cname)
        if mid is None: return None
        el = s.mref(mid, 'elements')
        out = []
        for e in s.mlist(el) if el else []:
            ln = s.meta.get(e, '')
            if 'DW_TAG_inheritance' in ln:
                bt = s.mref(e, 'baseType'); bn = s.mfield(bt, 'name')
                off = int(s.mfield(e, 'offset') or 0) // 8
                out.append(('<base>' + (bn or ''), off, 0, bt, False))
            elif 'DW_TAG_member' in ln and 'DIFlagStaticMember' not in ln:
                off = int(s.mfield(e, 'offset') or 0) // 8
                out.append((s.mfield(e, 'name'), off, int(s.mfield(e, 'size') or 0) // 8, s.mref(e, 'baseType'), False))
        return out
    def all_fields(s, cname, base=0):
        """flattened offset -> (name, size, type mid, declaring class)"""
        out = {}
        for nm, off, sz, tm, _ in s.class_fields(cname) or []:
            if nm and nm.startswith('<base>'):
                out.update(s.all_fields(nm[6:], base + off))
            elif nm:
                out[base + off] = (nm, sz, tm, cname)
        return out
    def type_name(s, mid, depth=0):
        if mid is None: return 'void'
        ln = s.meta.get(mid, '')
        if 'DW_TAG_pointer_type' in ln: return s.type_name(s.mref(mid, 'baseType'), depth + 1) + '*'
        if 'DW_TAG_reference_type' in ln: return s.type_name(s.mref(mid, 'baseType'), depth + 1) + '&'
        if 'DW_TAG_const_type' in ln: return 'const ' + s.type_name(s.mref(mid, 'baseType'), depth + 1)
        if 'DW_TAG_volatile_type' in ln: return 'volatile ' + s.type_name(s.mref(mid, 'baseType'), depth + 1)
        if 'DW_TAG_array_type' in ln: return s.type_name(s.mref(mid, 'baseType'), depth + 1) + '[]'
        nm = s.mfield(mid, 'name')
        return nm or '?'

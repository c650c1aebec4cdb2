"""std::string as a term domain: the value of a string object is a term (literal, concatenation, formatted text, uninterpreted query), kept in the first word of the object."""
import re
from .cas import *
from .build import dm
from . import ir

STR = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'
FMT = ('PrintToString',)

def is_str_fn(d): return d.startswith(STR + '::') or d.startswith(STR + ' std::operator+<') or re.match(r'bool std::operator(==|!=|<)<char', d) is not None

def lit(fr, q):
    """text of a character pointer as a term"""
    if not isinstance(q, Ptr): return leaf(psym('<chars>'))
    o = q.obj
    if isinstance(o, tuple) and o and o[0] == 'cstr': return leaf(o[1])
    if isinstance(o, tuple) and o and o[0] == 'glob' and q.off is ZERO:
        m, g = fr.m.prog.glob(o[1], o[2] if len(o) > 2 else None)
        if m is not None:
            t = m.cstring(o[1])
            if t is not None: return leaf(psym('"%s"' % t))
    return leaf(patom(atom('load', o, q.off, 'chars')))
def chars(fr, v): return apply(lambda q: lit(fr, q), fresh('lit'), v)

def get(fr, mem, v):
    """value of the string object v points to"""
    def f(q):
        if not isinstance(q, Ptr): return leaf(psym('<string>'))
        if isinstance(q.obj, tuple) and q.obj and q.obj[0] == 'glob' and is_num(q.off) and (q.obj, int(numval(q.off))) not in mem.d:
            c = const_string(fr.m.prog, q.obj)
            if c is not None: return leaf(psym('"%s"' % c))
        return fr.m.load(mem, q, ir.DOUBLE)
    return apply(f, fresh('str'), v)

def get_chars(fr, mem, v):
    """text a char* points to, as a term"""
    return chars(fr, v)

def put(fr, mem, dst, val, delta=None):
    """mutates mem"""
    qs = leaves(dst); old = None
    if len(qs) == 1 and isinstance(qs[0], Ptr):
        if fr.m.trace and delta is None and not (isinstance(qs[0].obj, tuple) and qs[0].obj and qs[0].obj[0] == 'alloca'): old = get(fr, mem, dst)
        fr.m.store(mem, qs[0], val)
    if fr.m.trace: fr.m.string_event(fr, dst, val, delta, old)

def atom1(p):
    if isinstance(p, Poly) and len(p.terms) == 1 and p.terms[0][1] == 1 and len(p.terms[0][0]) == 1 and p.terms[0][0][0][1] == 1: return p.terms[0][0][0][0]
    return None
def literal(p):
    """text of a literal string term, or None"""
    a = atom1(p)
    if a is not None and a.kind == 'sym' and len(a.args[0]) >= 2 and a.args[0][0] == '"' and a.args[0][-1] == '"': return a.args[0][1:-1]
    return None
CONV = re.compile(r'%[-+ #0]*(\*|\d+)?(?:\.(\*|\d+))?(?:hh|h|ll|l|z|j|t|L)?([diouxXeEfFgGaAcspn%])')
def pieces(p):
    """a string term as a list of literal texts and inserted values ('v', conversion, term)"""
    if isinstance(p, Leaf): p = p.v
    t = literal(p)
    if t is not None: return [t] if t else []
    a = atom1(p)
    if a is not None and a.kind == 'fn':
        args = [x.v if isinstance(x, Leaf) else x for x in a.args[1:]]
        if a.args[0] == 'cat': return pieces(args[0]) + pieces(args[1])
        if a.args[0] == 'fmt':
            f = literal(args[0])
            if f is None: return [('?', p)]
            out = []; pos = 0; k = 1
            for m in CONV.finditer(f):
                if m.start() > pos: out.append(f[pos:m.start()])
                pos = m.end()
                if m.group(3) == '%': out.append('%'); continue
                for st in (1, 2):
                    if m.group(st) == '*': k += 1
                if k >= len(args): out.append(('?', p)); continue
                out += pieces(args[k]) if m.group(3) == 's' else [('v', m.group(3), args[k])]
                k += 1
            if pos < len(f): out.append(f[pos:])
            if k != len(args): out.append(('?', p))
            return out
    return [('v', 's', p)]
def words(ps, skip=(), spaces=()):
    """pieces -> words: each word is a text, a value, or a tuple of both; `skip`: values dropped, `spaces`: values that act as white space"""
    out = []; cur = []
    def end():
        if cur: out.append(cur[0] if len(cur) == 1 else tuple(cur)); cur.clear()
    for x in ps:
        if isinstance(x, str):
            parts = re.split(r'(\s+)', x)
            for w in parts:
                if not w: continue
                if w.isspace(): end()
                elif cur and isinstance(cur[-1], str): cur[-1] += w
                else: cur.append(w)
        elif len(x) == 3 and x[2] in skip: continue
        elif len(x) == 3 and x[2] in spaces: end()
        else: cur.append(x)
    end()
    return out

def const_string(prog, obj):
    """literal a constant string object is initialised with"""
    c = prog.__dict__.setdefault('_cstr', None)
    if c is None:
        c = prog._cstr = {}
        for k, m in prog.mods.items():
            for n, f in m.functions.items():
                if '__cxx_global_var_init' not in n or f.lines is None: continue
                for bb in f.body().blocks:
                    for ins in (bb.insts if hasattr(bb, 'insts') else bb):
                        if ins.op not in ('call', 'invoke'): continue
                        cal = ins.x['callee']
                        if cal.k == 'global' and is_str_fn(dm(cal.v)) and '::basic_string' in dm(cal.v) and len(ins.x['args']) >= 2 and ins.x['args'][0].k == 'global' and ins.x['args'][1].k == 'global':
                            t = m.cstring(ins.x['args'][1].v)
                            if t is not None: c[(k, ins.x['args'][0].v)] = t
    if len(obj) > 2: return c.get((obj[2], obj[1]))
    l = {v for (k, n), v in c.items() if n == obj[1]}
    return l.pop() if len(l) == 1 else None

def cstr_ptr(v): return apply(lambda p: leaf(Ptr(('cstr', p), ZERO)) if isinstance(p, Poly) else BOT, 'cstr', v)
def obj_term(v): return apply(lambda q: leaf(patom(atom('load', q.obj, q.off, 'addr'))) if isinstance(q, Ptr) else (leaf(q) if isinstance(q, Poly) else N(1 if q is True else 0)), 'objterm', v)
EMPTY = leaf(psym('""'))
def cat(a, b):
    if a is EMPTY: return b
    if b is EMPTY: return a
    return vfn('cat', a, b)
def arg_term(fr, mem, a):
    def f(q):
        if isinstance(q, Ptr): return lit(fr, q)
        return leaf(q) if isinstance(q, Poly) else N(1 if q is True else 0)
    return apply(f, fresh('arg'), a)

def builtin(fr, i, name, args, mem):
    """(result, memory) or None"""
    d = dm(name) if name.startswith('@') else name
    mem0 = mem
    if d.split('(')[0].split('[')[0] in FMT and i.x.get('sret'):
        mem = mem.copy()
        put(fr, mem, args[0], vfn('fmt', *[arg_term(fr, mem0, a) for a in args[1:]]))
        return BOT, mem
    if not name.startswith('@'): return None
    if not is_str_fn(d): return None
    head = d.split('(')[0] if not d.startswith('bool') and not d.startswith(STR + ' ') else d
    sig = d[len(STR) + 2:] if d.startswith(STR + '::') else d
    meth = re.match(r'[~\w]+(=|\+=|\[\])?', sig).group(0) if d.startswith(STR + '::') else None
    isstr = lambda k: STR in ','.join(split_args(d)[k:k + 1])
    def text(k):
        """k-th parameter as text"""
        t = split_args(d)
        return get(fr, mem0, args[k + off]) if k < len(t) and 'basic_string' in t[k] else chars(fr, args[k + off])
    off = 1
    if meth is not None:
        ps = split_args(d)
        if meth.startswith('basic_string'):
            mem = mem.copy()
            if not ps or ps == ['']: put(fr, mem, args[0], EMPTY)
            elif 'basic_string' in ps[0] and len(ps) <= 2 and 'unsigned' not in ''.join(ps[1:]): put(fr, mem, args[0], get(fr, mem0, args[1]))
            elif ps[0].startswith('char const*') and (len(ps) == 1 or 'allocator' in ps[1]): put(fr, mem, args[0], chars(fr, args[1]))
            else: put(fr, mem, args[0], vfn('mkstr', *[arg_term(fr, mem0, a) for a in args[1:] if a is not BOT]))
            return BOT, mem
        if meth == '~basic_string': return BOT, mem
        if meth in ('operator=', 'assign') and len(ps) == 1:
            mem = mem.copy(); put(fr, mem, args[0], text(0)); return args[0], mem
        if meth in ('operator+=', 'append') and len(ps) == 1 and ps[0] != 'char':
            mem = mem.copy(); put(fr, mem, args[0], cat(get(fr, mem0, args[0]), text(0)), delta=text(0)); return args[0], mem
        if meth in ('operator+=', 'push_back', 'append', 'insert', 'replace', 'erase', 'resize'):
            mem = mem.copy(); put(fr, mem, args[0], vfn(meth, get(fr, mem0, args[0]), *[arg_term(fr, mem0, a) for a in args[1:]])); return args[0], mem
        if meth == 'clear':
            mem = mem.copy(); put(fr, mem, args[0], EMPTY); return BOT, mem
        if meth in ('c_str', 'data'): return cstr_ptr(get(fr, mem0, args[0])), mem
        if meth == 'empty': return vcmp('==', get(fr, mem0, args[0]), EMPTY), mem
        if meth in ('substr',) and i.x.get('sret'):
            mem = mem.copy(); put(fr, mem, args[0], vfn('substr', get(fr, mem0, args[1]), *[arg_term(fr, mem0, a) for a in args[2:]])); return BOT, mem
        if meth == 'operator[]' or meth in ('begin', 'end', 'at', 'rbegin', 'rend'):
            return None
        if meth in ('size', 'length'):
            t = literal(get(fr, mem0, args[0]).v) if isinstance(get(fr, mem0, args[0]), Leaf) else None
            if t is not None: return leaf(num(len(t))), mem
            meth = 'size'
        ts = [get(fr, mem0, args[0])] + [text(k) if k < len(ps) and ('basic_string' in ps[k] or 'char const*' in ps[k]) else arg_term(fr, mem0, args[k + 1]) for k in range(len(args) - 1)]
        if meth.startswith(('find', 'rfind')) and len(ps) >= 1 and ps[0] == 'char' and isinstance(ts[1], Leaf) and isinstance(ts[1].v, Poly) and is_num(ts[1].v): ts[1] = leaf(psym('"%s"' % chr(int(numval(ts[1].v)))))
        return vfn('str:' + meth, *ts), mem
    off = 1 if i.x.get('sret') else 0
    if d.startswith(STR + ' std::operator+<'):
        ps = split_args(d)
        if 'char' in ps and not any('char const*' == p for p in ps): return None
        mem = mem.copy(); put(fr, mem, args[0], cat(text(0), text(1))); return BOT, mem
    op = re.match(r'bool std::operator(==|!=|<)<', d).group(1)
    r = vcmp('==' if op != '<' else '<', text(0), text(1))
    return (bnot(r) if op == '!=' else r), mem

def split_args(d):
    """parameter types of a demangled signature"""
    depth = 0; end = len(d)
    while end > 0 and d[end - 1] != ')': end -= 1
    k = end - 1; n = 0
    while k >= 0:
        if d[k] == ')': n += 1
        elif d[k] == '(':
            n -= 1
            if n == 0: break
        k -= 1
    body = d[k + 1:end - 1]
    out = []; cur = ''
    for ch in body:
        if ch in '<(': depth += 1
        if ch in '>)': depth -= 1
        if ch == ',' and depth == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

def opaque_string(fr, i, name, args, mem):
    """an unknown function returning a string: the result is a function of its other arguments"""
    if not i.x.get('sret') or not args: return None
    nm = name if name.startswith('virt:') else dm(name)
    if '[abi:cxx11]' not in nm: return None
    nm = nm.split('(')[0].replace('[abi:cxx11]', '')
    def t(a):
        return apply(lambda q: leaf(patom(atom('load', q.obj, q.off, 'addr'))) if isinstance(q, Ptr) else (leaf(q) if isinstance(q, Poly) else N(1 if q is True else 0)), fresh('ot'), a)
    return vfn('call:' + nm, *[t(a) for a in args[1:]])

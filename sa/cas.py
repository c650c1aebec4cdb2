"""Term normal forms used for value numbering.

Leaf terms are generalised polynomials: finite sums  c * prod(atom^exponent)  with
rational or symbolic exponents.  Values are multi-terminal decision diagrams whose
inner nodes are canonical comparisons and whose leaves are terms, so two spellings of
the same branching arithmetic get the same node.  Everything is interned: equality of
values is identity of nodes.
"""
from fractions import Fraction
import math

# ------------------------------------------------------------------ interning
_atoms = {}
_atom_list = []
_polys = {}

def ckey(c):
    if isinstance(c, (int, Fraction)): 
        f = float(c)
    else: f = c
    if f == 0: return '0'
    if f == int(f) and abs(f) < 1e15: return str(int(f))
    return '%.10g' % f

class Atom:
    __slots__ = ('id', 'kind', 'args', '_syms', '_h')
    def __repr__(s): return show_atom(s)

def atom(kind, *args):
    k = (kind,) + tuple(a.id if isinstance(a, (Atom, Poly, Node, Leaf)) else a for a in args) + tuple(type(a).__name__ for a in args)
    a = _atoms.get(k)
    if a is None:
        a = Atom(); a.id = len(_atom_list); a.kind = kind; a.args = args; a._syms = None
        _atoms[k] = a; _atom_list.append(a)
    return a

class Poly:
    __slots__ = ('id', 'terms', '_syms')      # terms: tuple of (mono, coeff) sorted; mono: tuple of (atom, exp)
    def __repr__(s): return show_poly(s)
    def __hash__(s): return s.id
    def __eq__(s, o): return s is o

def ekey(e):
    return 'p%d' % e.id if isinstance(e, Poly) else str(e)

def mono_key(m):
    return tuple((a.id, ekey(e)) for a, e in m)

def mk(terms):
    """terms: dict monokey -> (mono, coeff)"""
    l = [(k, m, c) for k, (m, c) in terms.items() if not _zero(c)]
    l.sort(key=lambda x: x[0])
    key = tuple((k, ckey(c)) for k, m, c in l)
    p = _polys.get(key)
    if p is None:
        p = Poly(); p.id = len(_polys); p.terms = tuple((m, c) for k, m, c in l); p._syms = None
        _polys[key] = p
    return p

def _zero(c):
    return c == 0 or (not isinstance(c, (int, Fraction)) and abs(c) < 1e-300)

def num(c):
    if isinstance(c, float):
        if c != c or c in (float('inf'), float('-inf')):
            return psym('<%r>' % c)
        if c == int(c) and abs(c) < 2**53: c = Fraction(int(c))
        else:
            fr = Fraction(c).limit_denominator(1000)
            if float(fr) == c: c = fr
    elif isinstance(c, int): c = Fraction(c)
    return mk({(): ((), c)})

def psym(name):
    a = atom('sym', name)
    return mk({mono_key(((a, Fraction(1)),)): (((a, Fraction(1)),), Fraction(1))})

def patom(a, e=Fraction(1)):
    if a.kind == 'fn' and a.args[0] == 'cos' and isinstance(e, Fraction) and e.denominator == 1 and e >= 2:
        return cospow(a, int(e))
    m = ((a, e),)
    return mk({mono_key(m): (m, Fraction(1))})

def cospow(a, e):
    """cos(t)^e with cos^2 rewritten to 1 - sin^2"""
    sn = fn('sin', a.args[1])
    r = ipow(sub(ONE, mul(sn, sn)), e // 2)
    return mul(r, patom(a)) if e % 2 else r

ZERO = num(0); ONE = num(1)

def is_num(p):
    return len(p.terms) == 0 or (len(p.terms) == 1 and p.terms[0][0] == ())
def numval(p):
    return p.terms[0][1] if p.terms else Fraction(0)

def cadd(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction): return a + b
    a = float(a); b = float(b); s = a + b
    if abs(s) <= 1e-12 * max(abs(a), abs(b)): return Fraction(0)
    return s
def cmul(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction): return a * b
    try: return float(a) * float(b)
    except OverflowError: return float('inf')

def add(a, b):
    d = {mono_key(m): (m, c) for m, c in a.terms}
    for m, c in b.terms:
        k = mono_key(m)
        if k in d: d[k] = (m, cadd(d[k][1], c))
        else: d[k] = (m, c)
    return mk(d)

def scale(a, c):
    return mk({mono_key(m): (m, cmul(x, c)) for m, x in a.terms})
def neg(a): return scale(a, Fraction(-1))
def sub(a, b): return add(a, neg(b))

def eadd(e, f):
    if isinstance(e, Poly) or isinstance(f, Poly):
        e = e if isinstance(e, Poly) else num(e); f = f if isinstance(f, Poly) else num(f)
        return enorm(add(e, f))
    return e + f
def emul(e, f):
    if isinstance(e, Poly) or isinstance(f, Poly):
        e = e if isinstance(e, Poly) else num(e); f = f if isinstance(f, Poly) else num(f)
        return enorm(mul(e, f))
    return e * f
def enorm(p):
    if isinstance(p, Poly) and is_num(p):
        v = numval(p)
        if isinstance(v, Fraction): return v
        fr = Fraction(v).limit_denominator(10000)
        if abs(float(fr) - v) <= 1e-12 * abs(v): return fr
    return p
def ezero(e):
    return e == 0 if not isinstance(e, Poly) else (is_num(e) and numval(e) == 0)

def mono_mul(m, n):
    d = {a.id: (a, e) for a, e in m}
    for a, e in n:
        if a.id in d: d[a.id] = (a, eadd(d[a.id][1], e))
        else: d[a.id] = (a, e)
    out = []; extra = None
    for i in sorted(d):
        a, e = d[i]
        if ezero(e): continue
        if a.kind == 'fn' and a.args[0] == 'abs' and isinstance(e, Fraction) and e.denominator == 1 and e.numerator % 2 == 0:
            q = ipow(a.args[1], int(e)) if e > 0 else None
            if q is not None:
                extra = q if extra is None else mul(extra, q); continue
        if a.kind == 'fn' and a.args[0] == 'cos' and isinstance(e, Fraction) and e.denominator == 1 and e >= 2:
            q = cospow(a, int(e))
            extra = q if extra is None else mul(extra, q); continue
        if a.kind == 'base' and isinstance(e, Fraction) and e.denominator == 1 and 0 < e <= 8:
            q = ipow(a.args[0], int(e))
            extra = q if extra is None else mul(extra, q); continue
        out.append((a, e))
    return tuple(out), extra

MAXTERMS = 4000
class TooBig(Exception): pass

def mul(a, b):
    if len(a.terms) * len(b.terms) > MAXTERMS: raise TooBig()
    if is_num(a): return scale(b, numval(a))
    if is_num(b): return scale(a, numval(b))
    d = {}; acc = None
    for m, c in a.terms:
        for n, e in b.terms:
            q, extra = mono_mul(m, n)
            cc = cmul(c, e)
            if extra is not None:
                t = mul(mk({mono_key(q): (q, cc)}), extra)
                acc = t if acc is None else add(acc, t)
                continue
            k = mono_key(q)
            if k in d: d[k] = (q, cadd(d[k][1], cc))
            else: d[k] = (q, cc)
    r = mk(d)
    return r if acc is None else add(r, acc)

def ipow(p, n):
    r = ONE
    for _ in range(n): r = mul(r, p)
    return r

_nonneg_syms = set()
def nonneg_atom(a):
    if a.kind == 'e': return True
    if a.kind == 'fn' and a.args[0] in ('abs', 'cosh', 'max0', 'gamma'): return True
    if a.kind == 'sym': return a.args[0] in _nonneg_syms
    return False

def nonneg(p):
    """syntactically non-negative for real arguments"""
    for m, c in p.terms:
        if c < 0: return False
        for a, e in m:
            if nonneg_atom(a): continue
            if a.kind == 'base' and (isinstance(e, Poly) or e.denominator % 2 == 0 or e.numerator % 2 == 0 or nonneg(a.args[0])): continue
            if isinstance(e, Fraction) and e.denominator == 1 and e.numerator % 2 == 0: continue
            return False
    return True

def absval(p):
    if is_num(p): return num(abs(numval(p)))
    if nonneg(p): return p
    if nonneg(neg(p)): return neg(p)
    if len(p.terms) == 1:
        m, c = p.terms[0]
        r = num(abs(c))
        for a, e in m:
            if nonneg_atom(a) or a.kind == 'base' and nonneg(patom(a, e)) or (isinstance(e, Fraction) and e.denominator == 1 and e.numerator % 2 == 0) or isinstance(e, Poly) or e.denominator != 1:
                r = mul(r, patom(a, e))
            else:
                r = mul(r, patom(atom('fn', 'abs', patom(a)), e))
        return r
    # sign-normalise: leading coefficient positive
    if p.terms[0][1] < 0: p = neg(p)
    c = abs(p.terms[0][1])
    q = scale(p, 1 / c)
    return mul(num(c), patom(atom('fn', 'abs', q)))

def mono_pow(m, c, e):
    """(c * m)^e for non-integer or symbolic e (real, assuming defined)"""
    r = ONE
    if c != 1:
        if c > 0:
            if isinstance(e, Fraction):
                v = float(c) ** float(e)
                fr = Fraction(v).limit_denominator(10 ** 6)
                r = num(fr) if abs(float(fr) - v) < 1e-15 * abs(v) else num(v)
            else:
                r = expo(scale(e, math.log(c)))
        else:
            # negative constant: keep as opaque base
            q = mk({mono_key(m): (m, c)})
            return patom(atom('base', q), e)
    for a, x in m:
        b = a
        ne = emul(x, e)
        if isinstance(x, Fraction) and x.denominator == 1 and x.numerator % 2 == 0 and not nonneg_atom(a) and a.kind != 'base':
            if not (isinstance(ne, Fraction) and ne.denominator == 1 and ne.numerator % 2 == 0):
                b = atom('fn', 'abs', patom(a))
        r = mul(r, patom(b, ne)) if not ezero(ne) else r
    return r

def content(p):
    """p = c * mono * q with q canonical (leading coefficient 1, no common monomial factor)"""
    mins = {}
    first = True
    for m, c in p.terms:
        cur = {a.id: (a, e) for a, e in m if isinstance(e, Fraction)}
        if first:
            mins = dict(cur); first = False
        else:
            for i in list(mins):
                if i in cur: mins[i] = (mins[i][0], min(mins[i][1], cur[i][1]))
                elif mins[i][1] > 0: del mins[i]
                # negative exponent stays (other terms have exponent 0)
            for i in cur:
                if i not in mins and cur[i][1] < 0: mins[i] = cur[i]
    # symbolic exponents: common only when identical in all terms
    mono = tuple(sorted(((a, e) for a, e in mins.values() if e != 0), key=lambda x: x[0].id))
    inv = tuple((a, -e) for a, e in mono)
    q = mul(p, mk({mono_key(inv): (inv, Fraction(1))})) if inv else p
    # second pass: leading coefficient
    lc = abs(q.terms[0][1])
    q = scale(q, 1 / lc if isinstance(lc, Fraction) else 1.0 / lc)
    return lc, mono, q

def power(p, e):
    e = enorm(e) if isinstance(e, Poly) else e
    if isinstance(e, Fraction):
        if e == 0: return ONE
        if e == 1: return p
        if e.denominator == 1 and e > 0 and len(p.terms) > 1 and e <= 8:
            try: return ipow(p, int(e))
            except TooBig: pass
    if not p.terms: return ZERO if isinstance(e, Fraction) and e > 0 else patom(atom('fn', 'pow', p, e if isinstance(e, Poly) else num(e)))
    if is_num(p):
        c = numval(p)
        if isinstance(e, Fraction) and e.denominator == 1:
            if isinstance(c, Fraction): return num(c ** int(e))
            return num(float(c) ** int(e))
        if c == 1: return ONE
    if len(p.terms) == 1:
        m, c = p.terms[0]
        if isinstance(e, Fraction) and e.denominator == 1:
            r = num(c ** int(e)) if isinstance(c, Fraction) else num(float(c) ** int(e))
            for a, x in m:
                r = mul(r, patom(a, emul(x, e)))
            return r
        return mono_pow(m, c, e)
    lc, mono, q = content(p)
    if len(q.terms) == 1 and not mono: return power(q, e)
    r = patom(atom('base', q), e)
    if mono or lc != 1:
        if isinstance(e, Fraction) and e.denominator == 1:
            r = mul(r, power(mk({mono_key(mono): (mono, lc if isinstance(lc, Fraction) else lc)}), e))
        else:
            r = mul(r, mono_pow(mono, lc, e))
    return r

EATOM = None
ATAN2 = {}       # (y, x) -> term, for rotated coordinates introduced by a check
def expo(p):
    global EATOM
    if EATOM is None: EATOM = atom('e')
    if not p.terms: return ONE
    if is_num(p):
        try: return num(math.exp(float(numval(p))))
        except OverflowError: pass
    # exp(c*log(q)) -> q^c
    e = enorm(p)
    return patom(EATOM, e)

def fn(name, *args):
    a0 = args[0] if args else None
    if name == 'sqrt': return power(a0, Fraction(1, 2))
    if name == 'exp': return expo(a0)
    if name == 'exp2': return expo(scale(a0, math.log(2)))
    if name == 'exp10': return expo(scale(a0, math.log(10)))
    if name == 'pow': return power(a0, args[1])
    if name == 'abs': return absval(a0)
    if name == 'cbrt': return power(a0, Fraction(1, 3))
    if name == 'hypot': return power(add(mul(args[0], args[0]), mul(args[1], args[1])), Fraction(1, 2))
    if name == 'log10': return scale(fn('log', a0), 1 / math.log(10))
    if name == 'log2': return scale(fn('log', a0), 1 / math.log(2))
    if name == 'log1p': return fn('log', add(ONE, a0))
    if name == 'expm1': return sub(expo(a0), ONE)
    if name == 'tan': return mul(fn('sin', a0), power(fn('cos', a0), Fraction(-1)))
    if name in ('trunc', 'floor', 'ceil', 'round', 'rint') and all(Fraction(c).denominator == 1 and all(a.kind == 'fn' and a.args[0] in ('idiv', 'trunc', 'floor', 'ceil', 'round', 'rint') and x == 1 for a, x in m) for m, c in a0.terms): return a0
    if name == 'idiv':
        if a0 is ZERO or args[1] is ONE: return a0
        if len(args[1].terms) == 1 and args[1].terms[0][1] == 1:
            # exact quotient of integers
            ds = dict(args[1].terms[0][0])
            if all(Fraction(c).denominator == 1 and all(dict(m).get(a, 0) == 1 and x == 1 for a, x in ds.items()) and all(not isinstance(x, Poly) and x >= 0 for a, x in m) for m, c in a0.terms):
                return mul(a0, power(args[1], Fraction(-1)))
    if name == 'log':
        if is_num(a0) and numval(a0) > 0: return num(math.log(numval(a0)))
        if len(a0.terms) == 1:
            m, c = a0.terms[0]
            if len(m) == 1 and m[0][0].kind == 'e' and c > 0:
                e = m[0][1]
                return add(num(math.log(c)), e if isinstance(e, Poly) else num(e))
    if name in ('sin', 'cos', 'cosh', 'sinh', 'tanh', 'atan', 'asin', 'erf'):
        if is_num(a0): return num(getattr(math, name)(float(numval(a0))))
        if name in ('sin', 'cos'):
            # phases that are multiples of pi/2
            for m, c in a0.terms:
                if m == ():
                    k = round(float(c) / (math.pi / 2))
                    if k and abs(float(c) - k * math.pi / 2) < 1e-9:
                        r = add(a0, num(-c)) if isinstance(c, Fraction) else sub(a0, mk({(): ((), c)}))
                        k %= 4
                        if k == 0: return fn(name, r)
                        if k == 2: return neg(fn(name, r))
                        if name == 'cos': return neg(fn('sin', r)) if k == 1 else fn('sin', r)
                        return fn('cos', r) if k == 1 else neg(fn('cos', r))
        # parity
        if a0.terms[0][1] < 0:
            if name in ('cos', 'cosh'): a0 = neg(a0)
            else: return neg(patom(atom('fn', name, neg(a0))))
        return patom(atom('fn', name, a0))
    if name in ('floor', 'ceil', 'round', 'trunc', 'rint'):
        if is_num(a0): return num({'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'round': round, 'rint': round}[name](numval(a0)))
        if name == 'rint': name = 'round'
        return patom(atom('fn', name, a0))
    if name in ('tgamma', 'gsl_sf_gamma'):
        return patom(atom('fn', 'gamma', a0))
    if name in ('lgamma', 'gsl_sf_lngamma'):
        return fn('log', patom(atom('fn', 'gamma', a0)))
    if name == 'atan2':
        r = ATAN2.get((args[0].id, args[1].id))
        if r is not None: return r
        return patom(atom('fn', 'atan2', args[0], args[1]))
    return patom(atom('fn', name, *args))

# ------------------------------------------------------------------ decision diagrams
class Leaf:
    __slots__ = ('id', 'v')
    def __repr__(s): return repr(s.v)
class Node:
    __slots__ = ('id', 'var', 'hi', 'lo')
    def __repr__(s): return show(s)

_leaves = {}; _nodes = {}
_counter = [0]
def leaf(v):
    k = ('P', v.id) if isinstance(v, Poly) else v
    n = _leaves.get(k)
    if n is None:
        n = Leaf(); n.v = v; n.id = _counter[0]; _counter[0] += 1
        _leaves[k] = n
    return n
def node(var, hi, lo):
    if hi is lo: return hi
    k = (var.id, hi.id, lo.id)
    n = _nodes.get(k)
    if n is None:
        n = Node(); n.var, n.hi, n.lo = var, hi, lo; n.id = _counter[0]; _counter[0] += 1
        _nodes[k] = n
    return n

TRUE = leaf(True); FALSE = leaf(False)
BOT = leaf('BOT')              # unreachable / undefined

def topvar(*ns):
    best = None
    for n in ns:
        if isinstance(n, Node) and (best is None or n.var.id < best.id): best = n.var
    return best
def cof(n, var, val):
    if isinstance(n, Node) and n.var is var: return n.hi if val else n.lo
    return n

NODELIMIT = [400000]
_amemo = {}
def apply(f, tag, *ns):
    """pointwise application; f gets leaf payloads, returns a value (Leaf/Node)"""
    key = (tag,) + tuple(n.id for n in ns)
    r = _amemo.get(key)
    if r is not None: return r
    v = topvar(*ns)
    if v is None:
        r = BOT if any(n is BOT for n in ns) else f(*[n.v for n in ns])
    else:
        if len(_nodes) > NODELIMIT[0]: raise TooBig()
        hi, lo = apply(f, tag, *[cof(n, v, True) for n in ns]), apply(f, tag, *[cof(n, v, False) for n in ns])
        # what f returns may itself branch on v or on an earlier condition
        r = node(v, hi, lo) if below(v, hi) and below(v, lo) else ite(node(v, TRUE, FALSE), hi, lo)
    _amemo[key] = r
    return r

def below(v, n): return isinstance(n, Leaf) or n.var.id > v.id
_imemo = {}
def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if c is BOT: return BOT
    if a is b: return a
    if a is BOT: return b
    if b is BOT: return a
    if b is FALSE and a is TRUE: return c
    key = (c.id, a.id, b.id)
    r = _imemo.get(key)
    if r is None:
        v = topvar(c, a, b)
        if len(_nodes) > NODELIMIT[0]: raise TooBig()
        r = node(v, ite(cof(c, v, True), cof(a, v, True), cof(b, v, True)), ite(cof(c, v, False), cof(a, v, False), cof(b, v, False)))
        _imemo[key] = r
    return r
_wmemo = {}
def within(v, c):
    """a simpler value that agrees with v wherever c holds"""
    if not isinstance(v, Node) or not isinstance(c, Node): return v
    key = (v.id, c.id); r = _wmemo.get(key)
    if r is None:
        if c.var.id < v.var.id: r = within(v, c.lo if c.hi is FALSE else c.hi if c.lo is FALSE else bor(c.hi, c.lo))
        elif c.var is v.var: r = within(v.lo, c.lo) if c.hi is FALSE else within(v.hi, c.hi) if c.lo is FALSE else node(v.var, within(v.hi, c.hi), within(v.lo, c.lo))
        else: r = node(v.var, within(v.hi, c), within(v.lo, c))
        _wmemo[key] = r
    return r
def band(a, b): return ite(a, b, FALSE)
def bor(a, b): return ite(a, TRUE, b)
def bnot(a): return ite(a, FALSE, TRUE)

def P(v): return leaf(v)
def N(c): return leaf(num(c))
def S(name): return leaf(psym(name))

def lift(f, tag):
    return lambda *ns: apply(lambda *vs: leaf(f(*vs)) if all(isinstance(v, Poly) for v in vs) else _mix(f, vs), tag, *ns)
def _mix(f, vs):
    vs = [(ONE if v else ZERO) if isinstance(v, bool) else v for v in vs]
    if all(isinstance(v, Poly) for v in vs): return leaf(f(*vs))
    return leaf(psym('<mix:%s>' % ','.join(str(v) for v in vs)))
vadd = lift(add, 'add'); vsub = lift(sub, 'sub'); vmul = lift(mul, 'mul'); vneg = lift(neg, 'neg')
vdiv = lift(lambda a, b: mul(a, power(b, Fraction(-1))), 'div')
vpow = lift(lambda a, b: power(a, b), 'pow')
def vfn(name, *args):
    return lift(lambda *a: fn(name, *a), 'fn:' + name)(*args)

def cmp_norm(op, d):
    """canonical decision for d op 0"""
    if is_num(d):
        v = numval(d)
        return TRUE if {'<': v < 0, '<=': v <= 0, '==': v == 0}[op] else FALSE
    # drop positive scale
    c = abs(d.terms[0][1])
    if c != 1: d = scale(d, 1 / c)
    if op == '==':
        if d.terms[0][1] < 0: d = neg(d)
        return node(atom('cmp', '==', d), TRUE, FALSE)
    if op == '<':
        if nonneg(d): return FALSE
        return node(atom('cmp', '<', d), TRUE, FALSE)
    # d <= 0  <=>  not (-d < 0)
    if nonneg(neg(d)): return TRUE
    return bnot(cmp_norm('<', neg(d)))

def addr(p):
    """address of a pointer as a number"""
    if p.obj == 'null': return p.off
    if isinstance(p.obj, tuple) and p.obj and p.obj[0] == 'int' and isinstance(p.obj[1], Poly): return add(p.obj[1], p.off)
    return add(patom(atom('load', p.obj, ZERO, 'addr')), p.off)

def vcmp(op, a, b):
    def f(x, y):
        if isinstance(x, bool): x = ONE if x else ZERO
        if isinstance(y, bool): y = ONE if y else ZERO
        if isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj == y.obj and x.obj != 'null': x, y = x.off, y.off
        elif isinstance(x, (Ptr, Poly)) and isinstance(y, (Ptr, Poly)) and (isinstance(x, Ptr) or isinstance(y, Ptr)):
            if op in ('==', '!='):
                for u, w in ((x, y), (y, x)):
                    if isinstance(u, Ptr) and u.obj == 'null' and isinstance(w, Ptr) and (w.obj == 'this' or isinstance(w.obj, tuple) and w.obj and w.obj[0] in ('alloca', 'glob', 'img', 'image', 'fits')): return FALSE if op == '==' else TRUE
            x = addr(x) if isinstance(x, Ptr) else x
            y = addr(y) if isinstance(y, Ptr) else y
        if not (isinstance(x, Poly) and isinstance(y, Poly)):
            if x == y: return {'==': TRUE, '!=': FALSE}.get(op, TRUE if op in ('<=', '>=') else FALSE)
            r = node(atom('cmp', 'opq', str(x), op, str(y)), TRUE, FALSE)
            if op == '!=': return bnot(node(atom('cmp', 'opq', str(x), '==', str(y)), TRUE, FALSE))
            return r
        if op == '<': return cmp_norm('<', sub(x, y))
        if op == '>': return cmp_norm('<', sub(y, x))
        if op == '<=': return cmp_norm('<=', sub(x, y))
        if op == '>=': return cmp_norm('<=', sub(y, x))
        if op == '==': return cmp_norm('==', sub(x, y))
        if op == '!=': return bnot(cmp_norm('==', sub(x, y)))
    return apply(f, 'cmp' + op, a, b)

def leaves(n, acc=None, seen=None):
    """distinct leaf payloads"""
    acc = [] if acc is None else acc; seen = set() if seen is None else seen
    if n.id in seen: return acc
    seen.add(n.id)
    if isinstance(n, Leaf): acc.append(n.v)
    else: leaves(n.hi, acc, seen); leaves(n.lo, acc, seen)
    return acc
def bvars(n, acc=None, seen=None):
    acc = [] if acc is None else acc; seen = set() if seen is None else seen
    if n.id in seen or isinstance(n, Leaf): return acc
    seen.add(n.id)
    if n.var not in acc: acc.append(n.var)
    bvars(n.hi, acc, seen); bvars(n.lo, acc, seen)
    return acc

# ------------------------------------------------------------------ traversal
def syms(x):
    """set of symbol names occurring in a value / poly / atom"""
    if isinstance(x, Poly):
        if x._syms is None:
            r = set()
            for m, c in x.terms:
                for a, e in m:
                    r |= syms(a)
                    if isinstance(e, Poly): r |= syms(e)
            x._syms = frozenset(r)
        return x._syms
    if isinstance(x, Atom):
        if x._syms is None:
            r = set()
            if x.kind == 'sym': r.add(x.args[0])
            else:
                for a in x.args:
                    if isinstance(a, (Poly, Atom, Node, Leaf)): r |= syms(a)
                    elif isinstance(a, tuple): r |= Ptr(a, ZERO).objsyms()
            x._syms = frozenset(r)
        return x._syms
    if isinstance(x, Leaf):
        if isinstance(x.v, Poly): return syms(x.v)
        if isinstance(x.v, Ptr): return syms(x.v.off) | x.v.objsyms()
        if isinstance(x.v, Agg):
            r = frozenset()
            for a in x.v.items: r |= syms(a)
            return r
        return frozenset()
    if isinstance(x, Node):
        r = _nsy.get(x.id)
        if r is None:
            r = syms(x.var) | syms(x.hi) | syms(x.lo); _nsy[x.id] = r
        return r
    return frozenset()
_nsy = {}

class Ptr:
    """pointer: object name (tuple/str) + byte offset term"""
    __slots__ = ('obj', 'off')
    def __init__(s, obj, off): s.obj, s.off = obj, off
    def __hash__(s): return hash((s.obj, s.off.id))
    def __eq__(s, o): return isinstance(o, Ptr) and s.obj == o.obj and s.off is o.off
    def __repr__(s): return '&%s+%r' % (show_obj(s.obj), s.off)
    def objsyms(s):
        r = set(); st = [s.obj]
        while st:
            q = st.pop()
            if isinstance(q, Poly): r |= syms(q)
            elif isinstance(q, tuple): st.extend(q)
        return frozenset(r)
class Agg:
    __slots__ = ('items',)
    def __init__(s, items): s.items = tuple(items)
    def __hash__(s): return hash(tuple(i.id for i in s.items))
    def __eq__(s, o): return isinstance(o, Agg) and s.items == o.items
    def __repr__(s): return '{%s}' % ', '.join(map(repr, s.items))

def show_obj(o):
    if isinstance(o, tuple):
        return '.'.join(show_obj(x) for x in o)
    return str(o)

def subst(x, env, memo=None):
    """substitute symbols (name -> Poly/Leaf/Node); returns value for values, value for poly."""
    memo = {} if memo is None else memo
    k = (type(x).__name__, x.id)
    if k in memo: return memo[k]
    if isinstance(x, Leaf):
        if isinstance(x.v, Poly): r = subst_poly(x.v, env, memo)
        elif isinstance(x.v, Ptr):
            o = subst_obj(x.v.obj, env, memo)
            r = apply(lambda p: leaf(Ptr(o, p)), ('mkptr', o), subst_poly(x.v.off, env, memo))
        elif isinstance(x.v, Agg): r = leaf(Agg([subst(i, env, memo) for i in x.v.items]))
        else: r = x
    else:
        r = ite(subst_cond(x.var, env, memo), subst(x.hi, env, memo), subst(x.lo, env, memo))
    memo[k] = r
    return r
def subst_obj(o, env, memo):
    if isinstance(o, Poly):
        if not (syms(o) & env.keys()): return o
        v = subst_poly(o, env, memo)
        return v.v if isinstance(v, Leaf) and isinstance(v.v, Poly) else psym('<idx>')
    if isinstance(o, tuple): return tuple(subst_obj(x, env, memo) for x in o)
    return o
def subst_cond(a, env, memo):
    if not (syms(a) & env.keys()): return node(a, TRUE, FALSE)
    k = ('C', a.id)
    if k in memo: return memo[k]
    if a.args[0] in ('<', '=='):
        d = subst_poly(a.args[1], env, memo)
        op = a.args[0]
        r = apply(lambda p: cmp_norm(op, p), 'cmpz' + op, d)
    else: r = node(a, TRUE, FALSE)
    memo[k] = r
    return r
def subst_poly(p, env, memo):
    if not (syms(p) & env.keys()): return leaf(p)
    k = ('Q', p.id)
    if k in memo: return memo[k]
    tot = N(0)
    for m, c in p.terms:
        t = leaf(num(c))
        for a, e in m:
            av = subst_atom(a, env, memo)
            if isinstance(e, Poly): ev = subst_poly(e, env, memo)
            else: ev = leaf(num(e))
            if a.kind == 'e': t = vmul(t, lift(expo, 'expo')(ev))
            else: t = vmul(t, vpow(av, ev))
        tot = vadd(tot, t)
    memo[k] = tot
    return tot
def subst_atom(a, env, memo):
    if a.kind == 'sym':
        v = env.get(a.args[0])
        if v is None: return leaf(patom(a))
        return leaf(v) if isinstance(v, Poly) else v
    if not (syms(a) & env.keys()): return leaf(patom(a))
    k = ('A', a.id)
    if k in memo: return memo[k]
    if a.kind == 'base': r = subst_poly(a.args[0], env, memo)
    elif a.kind == 'fn':
        r = vfn(a.args[0], *[subst_poly(q, env, memo) for q in a.args[1:]])
    elif a.kind in ('sum', 'integ'):
        b, body = a.args[0], a.args[1]
        env2 = {k2: v for k2, v in env.items() if k2 != b}
        body2 = subst(body, env2, {})
        lo = [subst_poly(q, env2, {}) for q in a.args[2:]]
        r = apply(lambda *q: mk_binder(a.kind, b, body2, *q), ('bind', a.kind, b, body2.id), *lo)
    elif a.kind == 'load':
        o = subst_obj(a.args[0], env, memo)
        r = apply(lambda p: leaf(patom(atom('load', o, p, *a.args[2:]))), ('ld', o, a.args[2:]), subst_poly(a.args[1], env, memo))
    elif a.kind == 'val':
        r = leaf(patom(atom('val', subst(a.args[0], env, memo))))
    elif a.kind == 'mu':
        r = leaf(patom(atom('mu', a.args[0], *[subst(q, env, memo) if isinstance(q, (Leaf, Node)) else q for q in a.args[1:]])))
    else:
        r = leaf(patom(a))
    memo[k] = r
    return r

# ------------------------------------------------------------------ binders
def bdepth(x):
    d = 0
    for s in syms(x):
        if s.startswith('#b'): d = max(d, int(s[2:]))
    return d

_fresh = [0]
def fresh(pfx='$'):
    _fresh[0] += 1
    return '%s%d' % (pfx, _fresh[0])

def inner_binders(x, seen=None):
    """maximum canonical binder index bound inside x"""
    seen = {} if seen is None else seen
    k = (type(x).__name__, x.id)
    if k in seen: return seen[k]
    seen[k] = 0
    r = 0
    if isinstance(x, Poly):
        for m, c in x.terms:
            for a, e in m:
                r = max(r, inner_binders(a, seen))
                if isinstance(e, Poly): r = max(r, inner_binders(e, seen))
    elif isinstance(x, Atom):
        if x.kind in ('sum', 'integ'): r = int(x.args[0][2:])
        for a in x.args:
            if isinstance(a, (Poly, Atom, Node, Leaf)): r = max(r, inner_binders(a, seen))
    elif isinstance(x, Leaf):
        if isinstance(x.v, Poly): r = inner_binders(x.v, seen)
    else:
        r = max(inner_binders(x.var, seen), inner_binders(x.hi, seen), inner_binders(x.lo, seen))
    seen[k] = r
    return r

def bind(kind, name, body, *bounds):
    """Value of binder `kind` over symbol `name`; bounds are values."""
    k = inner_binders(body) + 1
    cn = '#b%d' % k
    body = subst(body, {name: psym(cn)})
    return apply(lambda *q: mk_binder(kind, cn, body, *q), ('bind', kind, cn, body.id), *bounds)

def mk_binder(kind, b, body, *bounds):
    """bounds are Polys.  sum: (count) k=0..count-1 ; integ: (lo, hi)"""
    # conditions independent of the bound variable move outside
    for v in bvars(body):
        if b not in syms(v):
            return ite(node(v, TRUE, FALSE), mk_binder(kind, b, restrict(body, v, True), *bounds), mk_binder(kind, b, restrict(body, v, False), *bounds))
    if kind == 'sum':
        n = bounds[0]
        if is_num(n) and numval(n) <= 0: return N(0)
        if b not in syms(body): return vmul(body, leaf(n))
    else:
        if bounds[0] is bounds[1]: return N(0)
    if isinstance(body, Leaf) and isinstance(body.v, Poly):
        tot = N(0)
        groups = {}
        for m, c in body.v.terms:
            out = []; inn = []
            for a, e in m:
                dep = b in syms(a) or (isinstance(e, Poly) and b in syms(e))
                if a.kind == 'e' and isinstance(e, Poly) and dep:
                    # split exp exponent into independent and dependent parts
                    ei = mk({mono_key(mm): (mm, cc) for mm, cc in e.terms if not any(b in syms(aa) or (isinstance(ee, Poly) and b in syms(ee)) for aa, ee in mm)})
                    ed = sub(e, ei)
                    if ei.terms: out.append((a, enorm(ei)))
                    inn.append((a, enorm(ed)))
                elif dep: inn.append((a, e))
                else: out.append((a, e))
            o = tuple(out); i = tuple(inn)
            groups.setdefault(mono_key(o), [o, []])[1].append((i, c))
        for k, (o, l) in sorted(groups.items(), key=lambda kv: str(kv[0])):
            q = mk({mono_key(i): (i, c) for i, c in l})
            if b not in syms(q):
                if kind == 'sum': w = mul(q, bounds[0])
                else: w = mul(q, sub(bounds[1], bounds[0]))
            else:
                lc = q.terms[0][1]
                q = scale(q, 1 / lc)
                w = scale(patom(atom(kind, b, leaf(q), *bounds)), lc)
            tot = vadd(tot, leaf(mul(mk({mono_key(o): (o, Fraction(1))}), w)))
        return tot
    return leaf(patom(atom(kind, b, body, *bounds)))

_rmemo = {}
def restrict(n, var, val):
    if isinstance(n, Leaf): return n
    k = (n.id, var.id, val)
    r = _rmemo.get(k)
    if r is None:
        if n.var is var: r = n.hi if val else n.lo
        else: r = node(n.var, restrict(n.hi, var, val), restrict(n.lo, var, val)) if True else None
        _rmemo[k] = r
    return r

# ------------------------------------------------------------------ printing
def show_atom(a):
    if a.kind == 'sym': return a.args[0]
    if a.kind == 'e': return 'e'
    if a.kind == 'base': return '(%s)' % show_poly(a.args[0])
    if a.kind == 'fn': return '%s(%s)' % (a.args[0], ', '.join(map(repr, a.args[1:])))
    if a.kind == 'cmp':
        if a.args[0] in ('<', '=='): return '%s %s 0' % (show_poly(a.args[1]), a.args[0])
        return ' '.join(map(str, a.args[1:]))
    if a.kind == 'sum': return 'SUM[%s<%s](%s)' % (a.args[0], ','.join(map(repr, a.args[2:])), show(a.args[1]))
    if a.kind == 'integ': return 'INT[%s: %s](%s)' % (a.args[0], ' .. '.join(map(repr, a.args[2:])), show(a.args[1]))
    if a.kind == 'load': return '%s[%s]%s' % (show_obj(a.args[0]), show_poly(a.args[1]), ''.join("'%s" % x for x in a.args[2:]))
    return '%s(%s)' % (a.kind, ', '.join(map(str, a.args)))
def show_c(c):
    return ckey(c) if not (isinstance(c, Fraction) and c.denominator != 1) else str(c)
def show_poly(p):
    if not p.terms: return '0'
    out = []
    for m, c in p.terms:
        f = []
        for a, e in m:
            s = show_atom(a)
            if isinstance(e, Poly): s += '^(%s)' % show_poly(e)
            elif e != 1: s += '^%s' % (e if e.denominator == 1 and e > 0 else '(%s)' % e)
            f.append(s)
        if not f: out.append(show_c(c))
        elif c == 1: out.append('*'.join(f))
        elif c == -1: out.append('-' + '*'.join(f))
        else: out.append(show_c(c) + '*' + '*'.join(f))
    return ' + '.join(out).replace('+ -', '- ')
def brief(n, limit=400):
    """printing for reports: bounded"""
    if size(n) > 3000: return '<term of %d nodes over {%s}>' % (size(n), ', '.join(sorted(syms(n))[:12]))
    t = show(n) if isinstance(n, (Leaf, Node)) else repr(n)
    return t if len(t) <= limit else t[:limit] + '...'
def size(x, seen=None):
    seen = set() if seen is None else seen
    k = (type(x).__name__, x.id)
    n = 1
    if isinstance(x, Poly):
        for m, c in x.terms:
            n += 1
            for a, e in m:
                n += size(a, seen)
                if isinstance(e, Poly): n += size(e, seen)
    elif isinstance(x, Atom):
        for a in x.args:
            if isinstance(a, (Poly, Atom, Node, Leaf)): n += size(a, seen)
    elif isinstance(x, Leaf):
        if isinstance(x.v, Poly): n += size(x.v, seen)
    else:
        n += size(x.var, seen) + size(x.hi, seen) + size(x.lo, seen)
    return min(n, 10**7)
def show(n):
    if isinstance(n, Leaf): return repr(n.v)
    return 'if(%s ? %s : %s)' % (show_atom(n.var), show(n.hi), show(n.lo))


# ------------------------------------------------------------------ homogeneity degree (abstract interpretation)
class NotHomogeneous(Exception):
    pass
def degree(x, amp, memo=None):
    """degree of homogeneity of a value/poly/atom in the symbols `amp` (name -> degree); None for identically zero"""
    memo = {} if memo is None else memo
    k = (type(x).__name__, x.id)
    if k in memo: return memo[k]
    if isinstance(x, Leaf):
        if isinstance(x.v, Poly): r = degree(x.v, amp, memo)
        elif x.v == 'BOT' or isinstance(x.v, bool): r = None
        else: r = Fraction(0)
    elif isinstance(x, Node):
        a = x.var
        if a.args[0] in ('<', '=='): degree(a.args[1], amp, memo)
        elif set(syms(a)) & set(amp): raise NotHomogeneous('condition %s' % show_atom(a)[:120])
        h, l = degree(x.hi, amp, memo), degree(x.lo, amp, memo)
        if h is None: r = l
        elif l is None or l == h: r = h
        else: raise NotHomogeneous('branches on (%s) have degrees %s and %s' % (show_atom(a)[:120], h, l))
    elif isinstance(x, Poly):
        r = None
        for m, c in x.terms:
            d = Fraction(0)
            for a, e in m:
                da = degree(a, amp, memo)
                da = Fraction(0) if da is None else da
                if isinstance(e, Poly):
                    de = degree(e, amp, memo)
                    if de not in (None, 0) : raise NotHomogeneous('exponent of degree %s' % de)
                    if da != 0: raise NotHomogeneous('degree-%s base with variable exponent' % da)
                else: d += da * e
            if r is None: r = d
            elif r != d: raise NotHomogeneous('sum of terms of degree %s and %s' % (r, d))
    else:
        a = x
        if a.kind == 'sym': r = Fraction(amp.get(a.args[0], 0))
        elif a.kind == 'e': r = Fraction(0)
        elif a.kind == 'base': r = degree(a.args[0], amp, memo)
        elif a.kind in ('sum', 'integ'):
            for q in a.args[2:]:
                if degree(q, amp, memo) not in (None, 0): raise NotHomogeneous('bounds of degree != 0')
            r = degree(a.args[1], amp, memo)
        elif a.kind == 'fn' and a.args[0] == 'abs': r = degree(a.args[1], amp, memo)
        else:
            for q in a.args:
                if isinstance(q, (Poly, Leaf, Node)):
                    d = degree(q, amp, memo)
                    if d not in (None, 0): raise NotHomogeneous('argument of %s has degree %s' % (a.args[0] if a.kind == 'fn' else a.kind, d))
            r = Fraction(0)
    memo[k] = r
    return r

# ------------------------------------------------------------------ term evaluation (only used to confirm that two
# differently shaped normal forms denote the same analytic term; it can only silence a report)
import random
class Ev:
    def __init__(s, env, seed=0):
        s.env, s.seed, s.memo = dict(env), seed, {}
    def sym(s, n):
        if n not in s.env:
            rnd = random.Random('%s/%s' % (n, s.seed))
            v = math.exp(rnd.uniform(-1.2, 1.2))
            s.env[n] = float(rnd.randint(1, 4)) if s.seed % 3 == 2 and rnd.random() < 0.5 else v
        return s.env[n]
    def val(s, n):
        while isinstance(n, Node): n = n.hi if s.cond(n.var) else n.lo
        if isinstance(n.v, Poly): return s.poly(n.v)
        if isinstance(n.v, bool): return 1.0 if n.v else 0.0
        return float('nan')
    def cond(s, a):
        if a.args[0] == '<': return s.poly(a.args[1]) < 0
        if a.args[0] == '==': return abs(s.poly(a.args[1])) < 1e-12
        return random.Random('%s/%s' % (a.args, s.seed)).random() < 0.5
    def poly(s, p):
        k = p.id
        if k in s.memo: return s.memo[k]
        t = 0.0
        for m, c in p.terms:
            f = float(c)
            for a, e in m:
                ev = s.poly(e) if isinstance(e, Poly) else float(e)
                try: f *= math.exp(ev) if a.kind == 'e' else s.pw(s.atom(a), ev)
                except (OverflowError, ValueError, ZeroDivisionError): f = float('nan')
            t += f
        s.memo[k] = t
        return t
    def pw(s, b, e):
        if e == 1: return b
        if b < 0 and e != int(e): return float('nan')
        return b ** e
    def sub(s, b, v):
        e = Ev(s.env, s.seed); e.env[b] = v
        return e
    def atom(s, a):
        if a.kind == 'sym': return s.sym(a.args[0])
        if a.kind == 'base': return s.poly(a.args[0])
        if a.kind == 'sum':
            n = s.poly(a.args[2]); n = int(max(0, min(6, round(n))))
            return sum(s.sub(a.args[0], float(k)).val(a.args[1]) for k in range(n))
        if a.kind == 'integ':
            lo, hi = s.poly(a.args[2]), s.poly(a.args[3])
            xs = [-0.9602898565, -0.7966664774, -0.5255324099, -0.1834346425, 0.1834346425, 0.5255324099, 0.7966664774, 0.9602898565]
            ws = [0.1012285363, 0.2223810345, 0.3137066459, 0.3626837834] ; ws = ws + ws[::-1]
            return sum(w * s.sub(a.args[0], (lo + hi) / 2 + x * (hi - lo) / 2).val(a.args[1]) for x, w in zip(xs, ws)) * (hi - lo) / 2
        if a.kind == 'fn':
            n = a.args[0]; v = [s.poly(q) for q in a.args[1:]]
            try:
                if n == 'abs': return abs(v[0])
                if n in ('sin', 'cos', 'cosh', 'sinh', 'tanh', 'atan', 'asin', 'acos', 'log', 'floor', 'ceil', 'trunc', 'erf', 'atan2', 'gamma'): return float(getattr(math, n)(*v))
                if n == 'irem' or n == 'fmod': return math.fmod(*v)
                if n == 'idiv': return float(math.trunc(v[0] / v[1]))
                if n == 'round': return float(math.floor(v[0] + 0.5))
                if n == 'isfinite': return 1.0 if random.Random('%.8g/fin/%s' % (v[0], s.seed)).random() < 0.7 else 0.0
            except (OverflowError, ValueError, ZeroDivisionError): return float('nan')
            rnd = random.Random('%s/%s/%s' % (n, ['%.8g' % q for q in v], s.seed))
            u = math.exp(rnd.uniform(-1, 1))
            return 0.0 if s.seed % 3 and rnd.random() < 0.35 else u
        if a.kind == 'load':
            rnd = random.Random('%s/%s/%.8g/%s' % (show_obj(a.args[0]), a.args[2:], s.poly(a.args[1]), s.seed))
            v = math.exp(rnd.uniform(-1, 1))
            if s.seed % 3 == 0: return v
            w = rnd.random()      # array elements of either sign; in every third world also exact small integers
            if s.seed % 3 == 1: return v if w < 0.6 else -v
            return (-2.0, -1.0, 0.0, 1.0, 2.0, v, v, v, -v, 3.0)[int(w * 10)]
        return math.exp(random.Random('%s/%s' % (a.id, s.seed)).uniform(-1, 1))

def close(x, y, tol=1e-7):
    if x != x or y != y: return x != x and y != y
    return abs(x - y) <= tol * max(abs(x), abs(y), 1e-300)

def same_poly(p, q, tries=24):
    if p is q: return True
    good = 0
    for t in range(tries):
        a, b = Ev({}, t), Ev({}, t)
        x, y = a.poly(p), b.poly(q)
        if x != x and y != y: continue
        if t % 3 and (x != x or y != y): continue     # domain differences count where every array element is positive
        if not close(x, y): return False
        good += 1
    return good >= 3

def paths(n, lits=()):
    if isinstance(n, Leaf): yield lits, n.v
    else:
        yield from paths(n.hi, lits + ((n.var, True),))
        yield from paths(n.lo, lits + ((n.var, False),))

class Bounds:
    """interval domain over the affine forms decided so far; add() returns None when the decision is impossible"""
    def __init__(s, d=None): s.d = d or {}
    def key(s): return tuple(sorted(s.d.items()))
    def add(s, var, val):
        if var.args[0] != '<': return s
        p = var.args[1]
        c0 = 0.0; rest = []
        for m, c in p.terms:
            if m: rest.append((m, c))
            else: c0 = float(c)
        if not rest: return s
        g = rest[0][1]
        f = mk({mono_key(m): (m, c / g) for m, c in rest})
        b = -c0 / float(g)
        lo, hi, los, his = s.d.get(f.id, (-math.inf, math.inf, True, True))   # strictness flags
        # g*form + c0 < 0  is val
        upper = (float(g) > 0) == val
        strict = val
        if upper:
            if b < hi or (b == hi and strict): hi, his = b, strict
        else:
            if b > lo or (b == lo and strict): lo, los = b, strict
        if lo > hi or (lo == hi and (los or his)): return None
        d = dict(s.d); d[f.id] = (lo, hi, los, his)
        return Bounds(d)

def npaths(n, memo=None):
    memo = {} if memo is None else memo
    if isinstance(n, Leaf): return 1
    if n.id not in memo: memo[n.id] = npaths(n.hi, memo) + npaths(n.lo, memo)
    return memo[n.id]

def same_sign(p, q):
    """the comparisons p<0 and q<0 agree (sampled over several scales, both outcomes seen)"""
    seen = set()
    names = sorted(syms(p) | syms(q))
    for t in range(400):
        rnd = random.Random(t)
        env = {n: math.exp(rnd.uniform(-5, 5)) * (1 if rnd.random() < 0.8 else -1) for n in names}
        x, y = Ev(env, t).poly(p), Ev(env, t).poly(q)
        if x != x or y != y: continue
        if (x < 0) != (y < 0): return False
        seen.add(x < 0)
    return len(seen) == 2

def equal(a, b):
    """do two values denote the same function?  Identity of normal forms, else leaf-by-leaf agreement of
    the analytic terms under matched decisions."""
    if a is b: return True
    va, vb = bvars(a), bvars(b)
    env = {}
    ren = {}
    for v in vb:
        if v in va: continue
        cand = [w for w in va if w not in vb and w.args[0] == v.args[0] and w.args[0] in ('<', '==') and (same_sign(w.args[1], v.args[1]) if w.args[0] == '<' else same_poly(w.args[1], v.args[1]))]
        if not cand: return _whole(a, b)
        ren[v] = cand[0]
    if ren:
        def rn(n):
            if isinstance(n, Leaf): return n
            return ite(node(ren.get(n.var, n.var), TRUE, FALSE), rn(n.hi), rn(n.lo))
        b = rn(b)
        if a is b: return True
    memo = {}
    def go(x, y):
        if x is y: return True
        k = (x.id, y.id)
        if k in memo: return memo[k]
        v = topvar(x, y)
        if v is None:
            if isinstance(x.v, Poly) and isinstance(y.v, Poly): r = same_poly(x.v, y.v)
            else: r = x.v == y.v
        else: r = go(cof(x, v, True), cof(y, v, True)) and go(cof(x, v, False), cof(y, v, False))
        memo[k] = r
        return r
    return go(a, b) or False
def _whole(a, b):
    """last resort when the decisions cannot be matched one to one: agreement on a wide sample that reaches every leaf"""
    need = set(id(l) for l in leaves(a)) ; got = set()
    names = sorted(syms(a) | syms(b))
    n = 0
    for t in range(3000):
        rnd = random.Random(t)
        w = rnd.choice((0.7, 2.0, 4.0))
        env = {q: math.exp(rnd.uniform(-w, w)) * (1 if rnd.random() < 0.7 else -1) for q in names}
        x, y = a, b
        ea, eb = Ev(env, t), Ev(env, t)
        while isinstance(x, Node): x = x.hi if ea.cond(x.var) else x.lo
        u, v = ea.val(a), eb.val(b)
        if u != u and v != v: continue
        if t % 3 and (u != u or v != v): continue
        if not close(u, v, 1e-6): return False
        got.add(id(x.v)); n += 1
        if n > 400 and got >= need: return True
    return n > 200 and got >= need

# ------------------------------------------------------------------ generic rewriting
def tmap(x, f, memo=None, g=None):
    """rebuild a value, replacing atoms a for which f(a) returns a value (children are rewritten first)"""
    memo = {} if memo is None else memo
    def val(n):
        k = ('V', n.id)
        if k in memo: return memo[k]
        if isinstance(n, Leaf):
            if isinstance(n.v, Poly): r = poly(n.v)
            elif isinstance(n.v, Ptr):
                o = obj(n.v.obj)
                r = apply(lambda p: leaf(Ptr(o, p)), ('mkptr', o), poly(n.v.off))
            else: r = n
        else:
            c, hi, lo = cond(n.var), val(n.hi), val(n.lo)
            r = g(n.var, hi, lo) if g else None
            if r is None: r = ite(c, hi, lo)
        memo[k] = r
        return r
    def cond(a):
        if a.args[0] in ('<', '=='):
            op = a.args[0]
            return apply(lambda p: cmp_norm(op, p), 'cmpz' + op, poly(a.args[1]))
        return node(a, TRUE, FALSE)
    def obj(o):
        if isinstance(o, Poly):
            v = poly(o)
            return v.v if isinstance(v, Leaf) and isinstance(v.v, Poly) else psym('<idx>')
        if isinstance(o, tuple): return tuple(obj(q) for q in o)
        return o
    def poly(p):
        k = ('P', p.id)
        if k in memo: return memo[k]
        tot = N(0)
        for m, c in p.terms:
            t = leaf(num(c))
            for a, e in m:
                ev = poly(e) if isinstance(e, Poly) else leaf(num(e))
                if a.kind == 'e': t = vmul(t, lift(expo, 'expo')(ev))
                else: t = vmul(t, vpow(at(a), ev))
            tot = vadd(tot, t)
        memo[k] = tot
        return tot
    def at(a):
        k = ('A', a.id)
        if k in memo: return memo[k]
        if a.kind == 'base': r = poly(a.args[0])
        elif a.kind == 'fn': r = lift(lambda *q: fn(a.args[0], *q), 'fn' + str(a.args[0]))(*[poly(q) for q in a.args[1:]]) if len(a.args) > 1 else leaf(patom(a))
        elif a.kind in ('sum', 'integ'):
            b2 = val(a.args[1]); lo = [poly(q) for q in a.args[2:]]
            r = apply(lambda *q: mk_binder(a.kind, a.args[0], b2, *q), ('bind', a.kind, a.args[0], b2.id), *lo)
        elif a.kind == 'load':
            o = obj(a.args[0])
            r = apply(lambda p: leaf(patom(atom('load', o, p, *a.args[2:]))), ('ld', o, a.args[2:]), poly(a.args[1]))
        elif a.kind == 'mu': r = leaf(patom(atom('mu', a.args[0], *[val(q) if isinstance(q, (Leaf, Node)) else q for q in a.args[1:]])))
        else: r = leaf(patom(a))
        if isinstance(r, Leaf) and isinstance(r.v, Poly) and len(r.v.terms) == 1 and r.v.terms[0][1] == 1 and len(r.v.terms[0][0]) == 1 and r.v.terms[0][0][0][1] == 1:
            w = f(r.v.terms[0][0][0][0])
            if w is not None: r = w
        memo[k] = r
        return r
    return val(x) if isinstance(x, (Leaf, Node)) else poly(x)

def strip_obj(o):
    if isinstance(o, tuple) and o and o[0] == '*': return ('*', strip_obj(o[1]), o[2])
    return o
def unver(x, memo=None):
    """forget which version of memory a load refers to"""
    def f(a):
        if a.kind == 'load':
            extra = tuple(q for q in a.args[2:] if q == 'addr')
            o = strip_obj(a.args[0])
            if extra != a.args[2:] or o != a.args[0]: return leaf(patom(atom('load', o, a.args[1], *extra)))
        return None
    return tmap(x, f)

def nonneg_norm(x, pred):
    """x simplified knowing that the atoms satisfying pred are never negative: `if (a > 0) A else B` is A when A at a = 0 is B"""
    def g(v, hi, lo):
        if v.args[0] != '<' or not isinstance(v.args[1], Poly) or len(v.args[1].terms) != 1: return None
        m, c = v.args[1].terms[0]
        if len(m) != 1 or m[0][1] != 1 or not pred(m[0][0]): return None
        a = m[0][0]
        if c > 0: return lo                     # a < 0 never
        if hi in (TRUE, FALSE) or lo in (TRUE, FALSE): return None
        return hi if tmap(hi, lambda b: N(0) if b is a else None) is lo else None
    return tmap(x, lambda a: None, g=g)

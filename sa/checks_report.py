"""M07: the identity of parameters from the model's description to everything printed about it."""
import re
from fractions import Fraction
from . import build, ir, gsa, cas, trace, strs
from .build import AnalysisError, dm
from .cas import *
from .report import Check, loc
from .trace import *
from .checks_pipe import P, Rule, arr, mo, fld, LD, ADDR, virt, under, alloc_ok, unver, pc_of, val_of, same, nz, maxz, FLAG, the_atom, atoms_of, paths_of, fo_virt, start_mem, fun, MO, mu_names
from .checks_model import MM, PH, mm_trace, sp, ptr, endv, parr, getter, mm_virt, L

class Line:
    __slots__ = ('n', 'e', 'pc', 'words', 'pieces', 'hit')
def delta_of(e):
    """(text added, is it the whole contents?)"""
    if e.res is not None: return e.res, False
    olds = {l for l in leaves(unver(e.args[0]))} if e.args else set()
    def strip(p):
        rest = []
        while p not in olds or strs.literal(p) == '':
            a = strs.atom1(p)
            if a is None or a.kind != 'fn' or a.args[0] != 'cat': return None
            rest.append(a.args[2]); p = a.args[1]
        r = strs.EMPTY
        for x in reversed(rest): r = strs.cat(r, leaf(x) if isinstance(x, Poly) else x)
        return r
    v = unver(e.val)
    if olds:
        rs = {id(l): strip(l) for l in leaves(v)}
        if all(x is not None for x in rs.values()): return apply(lambda l: rs[id(l)], fresh('dl'), v), False
    return v, True
def sizes(v): return nonneg_norm(v, lambda a: a.kind == 'load' and base(a.args[0]) == arr('paramSizes'))
def lines_of(t, sink, case=(), skip=(), spaces=(), commas=True):
    out = []
    for n, e in enumerate(t.events):
        whole = False
        if e.kind == 'call' and e.name and 'push_back' in e.name or e.kind == 'call' and e.name and 'emplace_back' in e.name:
            if not e.args or not any(isinstance(q, Ptr) and q.obj == sink for q in leaves(e.args[0])) or e.val is None: continue
            v = e.val
        elif e.kind == 'store' and any(isinstance(q, Ptr) and q.obj == sink for q in leaves(e.ptr)): v, whole = delta_of(e)
        else: continue
        pc = sizes(unver(pc_of(e, *case)))
        if pc is FALSE: continue
        e2 = gsa.Event(e.kind, e.fn, e.inst, e.pc, val=v); e2.loops = e.loops
        v = sizes(under(unver(val_of(e2, *case)), pc))
        for path, l in paths_of(v):
            c = pc
            for b, q in path: c = band(c, node(b, TRUE, FALSE) if q else node(b, FALSE, TRUE))
            if c is FALSE: continue
            ln = Line(); ln.n, ln.e, ln.pc, ln.hit = n, e, c, False
            ln.pieces = [x.replace(',', ' ') if commas and isinstance(x, str) else x for x in strs.pieces(l)] if isinstance(l, Poly) else [('?', l)]
            ln.words = strs.words(ln.pieces, skip, spaces)
            if whole and not ln.words: continue
            out.append(ln)
    return out
def show_w(ws): return ' '.join(w if isinstance(w, str) else '<%s>' % brief(leaf(w[2]), 110) if isinstance(w, tuple) and len(w) == 3 and w[0] == 'v' else '?%s' % (str(w)[:80],) for w in ws)
NUM, INT_, STR_ = 'fFgGeE', 'di', 's'
def match(ws, want, *given):
    """None, or why the words are not as wanted; want: texts, (kinds, term) pairs"""
    if len(ws) < len(want): return 'has %d of the %d expected items' % (len(ws), len(want))
    for w, x in zip(ws, want):
        if isinstance(x, str):
            if w != x: return 'has %s where %s belongs' % (show_w([w]), x)
        else:
            kinds, term = x
            if not (isinstance(w, tuple) and len(w) == 3 and w[0] == 'v' and isinstance(w[1], str)): return 'has %s where %s belongs' % (show_w([w]), brief(term, 100))
            if w[1] not in kinds: return 'prints a value with the wrong kind of conversion (%%%s)' % w[1]
            if not same(under(leaf(w[2]), *given), under(term, *given)): return 'shows %s where %s belongs' % (brief(leaf(w[2]), 150), brief(term, 150))
    return None

# ---------------------------------------------------------------- positions in the parameter vector
FS = lambda n: nz(L(arr('fsetStartFlags'), n))
SZ = lambda n: L(arr('paramSizes'), scale(n, Fraction(4)))
def start_of(n):
    """position of the first parameter of function n's block (its set's X0 when it starts a set)"""
    b = fresh('$n')
    return bind('sum', b, vadd(SZ(psym(b)), ite(FS(psym(b)), N(2), N(0))), leaf(n))
def at(o, i): return L(o, scale(i, Fraction(8)))
def atv(o, v): return apply(lambda p: at(o, p), fresh('at'), v)
def name_of(v): return apply(lambda p: leaf(patom(atom('load', arr('parameterLabels'), scale(p, Fraction(32))))), fresh('nm'), v)

def fn_loop(r, ln, what):
    k = ln.e.loops[0][0] if ln.e.loops else None
    ok = k is not None and trip(ln.e.loops[0][1]) is psym('this.nFunctions')
    r.ob(ok, what + ':functions', ln.e, '%s is not printed once for each function' % what)
    return psym(k) if ok else None

def struct_size(name):
    for m in P().mods.values():
        for ln in m.meta.values():
            if 'DW_TAG_structure_type' in ln and 'name: "%s"' % name in ln:
                g = re.search(r'size: (\d+)', ln)
                if g: return int(g.group(1)) // 8
    raise AnalysisError('structure %s not found' % name)
def info_off(fieldname, k=0):
    return P().off('SimpleParameterInfo', fieldname) + {'fixed': 4, 'limits': 8, 'limited': 4, 'offset': 8}[fieldname] * k
def info(idx, fieldname, k=0):
    return apply(lambda p: L(arr('parameterInfoVect'), add(scale(p, Fraction(struct_size('SimpleParameterInfo'))), num(info_off(fieldname, k)))), fresh('in'), idx)

def print_rule(c):
    PAR, ERR, VEC = 'PAR', 'ERR', 'VEC'
    p = P()
    t = Trace(p, p.method(MO, 'PrintModelParamsToStrings'), MO, args=[ptr('this'), ptr(VEC), ptr(PAR), ptr(ERR), ptr('PREFIX'), S('printLimits')], virt=fo_virt(p), mem=start_mem(), strings=True)
    r = Rule(c, t, 'PrintModelParamsToStrings')
    pre = patom(atom('load', 'PREFIX', ZERO))
    noerr = vcmp('==', leaf(ADDR(ERR)), N(0)); lim = nz(S('printLimits'))
    okret = TRUE
    for path, l in paths_of(unver(t.val)):
        if l is not ZERO:
            x = TRUE
            for b, q in path: x = band(x, node(b, TRUE, FALSE) if q else node(b, FALSE, TRUE))
            okret = band(okret, bnot(x))
    for case, cc in (('values', [bnot(lim), noerr]), ('values and errors', [bnot(lim), bnot(noerr)]), ('values and limits', [lim])):
        ok2 = under(okret, *cc)
        r.ob(ok2 is not FALSE and all('parameterInfoVect' == field_of(a) for a in loads_in(ok2)), case + ':refused', None, '%s: nothing is printed when %s' % (case, brief(bnot(ok2), 120)))
        cs = cc + [ok2]
        ls = lines_of(t, VEC, cs, skip=(pre,))
        seen = {}
        order = {}
        for ln in ls:
            if not ln.words: continue          # blank line
            w0 = ln.words[0]
            isname = isinstance(w0, tuple) and w0[0] == 'v' and w0[1] == 's'
            if w0 in ('X0', 'Y0') and isinstance(w0, str):
                j = 'XY'.index(w0[0]); k = fn_loop(r, ln, w0)
                if k is None: continue
                start = vadd(start_of(k), N(j)); fl = FS(k)
                off = S('this.imageOffset_%s' % w0)
                idx = start
                limits = lambda m: vadd(info(idx, 'limits', m), off)
            elif w0 == 'FUNCTION':
                k = fn_loop(r, ln, 'FUNCTION')
                if k is None: continue
                ws = [x for w in ln.words for x in ([w] if isinstance(w, str) or w[0] == 'v' else list(w))]
                lab = fn_string('GetLabel', k); empty = vcmp('==', lab, strs.EMPTY)
                if implies(ln.pc, empty): ws = [w for w in ws if isinstance(w, str) or leaf(w[2]) is not lab]
                elif not implies(ln.pc, bnot(empty)): ws = ['?'] + ws
                why = match(ws, ['FUNCTION', ('s', fn_string('GetShortName', k))] + (['#', 'LABEL', ('s', lab)] if implies(ln.pc, bnot(empty)) else []))
                if why is None and ws[2:] and ws[2] != '#': why = 'continues with %s' % show_w(ws[2:])
                r.ob(why is None, case + ':FUNCTION', ln.e, '%s: the FUNCTION line of a component %s' % (case, why), sample='FUNCTION line: short name and label of the same component'); c.count('report lines')
                seen['FUNCTION'] = bor(seen.get('FUNCTION', FALSE), ln.pc); order.setdefault('FUNCTION', []).append(ln.n)
                continue
            elif len(ln.e.loops) == 2 and isname and strs_extra(ln, r): 
                order.setdefault('extra', []).append(ln.n)
                continue
            elif len(ln.e.loops) == 2 and isname:
                k = fn_loop(r, ln, 'parameter')
                if k is None: continue
                i = psym(ln.e.loops[1][0])
                if not r.ob(trip(ln.e.loops[1][1]) is SZ(k).v, case + ':parameters', ln.e, '%s: %s parameter lines are printed for a function' % (case, brief(ln.e.loops[1][1], 80))): continue
                fl = TRUE
                idx = vadd(vadd(start_of(k), ite(FS(k), N(2), N(0))), leaf(i)); off = None
                limits = lambda m: info(idx, 'limits', m)
                inrange = apply(lambda q: vcmp('<', leaf(q), S('this.nParamsTot')), fresh('ir'), idx)
                if under(ln.pc, *under_all(ln.pc, inrange)) is FALSE or band(ln.pc, inrange) is FALSE: continue
            elif len(ln.e.loops) == 2 and out_of_range(r, ln): continue
            else:
                vals = [w for w in ln.words if not isinstance(w, str)]
                r.ob(not vals, case + ':other', ln.e, '%s: an unexpected line: %s' % (case, show_w(ln.words)))
                continue
            for flv in ([True, False] if fl is TRUE else [True]):
                g = FS(k) if flv else bnot(FS(k))
                pc = under(ln.pc, g)
                if pc is FALSE: continue
                want = [w0 if isinstance(w0, str) else ('s', under(name_of(under(idx, g)), g)), (NUM, vadd(atv(PAR, idx), off) if off is not None else atv(PAR, idx))]
                key = w0 if isinstance(w0, str) else 'parameter'
                if case == 'values and errors': want += ['#', '+/-', (NUM, atv(ERR, idx))]
                if case == 'values and limits':
                    fa = the_atom(under(info(idx, 'fixed'), g))
                    p1, p0 = (tmap(pc, lambda a: N(w) if a is fa else None) for w in (1, 0))
                    if p0 is FALSE and p1 is not FALSE: want += ['fixed']
                    elif p1 is FALSE: want += [(NUM, limits(0)), (NUM, limits(1))]
                    else:
                        r.ob(False, case + ':fixed', ln.e, '%s: limits or "fixed" are chosen when %s' % (case, brief(pc, 150))); continue
                why = match(ln.words, want, g)
                rest = ln.words[len(want):]
                if why is None:
                    for w in rest:
                        if isinstance(w, str): continue
                        a = the_atom(leaf(w[2])) if w[0] == 'v' and w[1] == 's' and isinstance(w[2], Poly) else None
                        if not (off is None and a is not None and a.kind == 'load' and isinstance(a.args[1], Poly) and a.args[1] is scale(i, Fraction(32))): why = 'ends with %s' % show_w([w])
                    if rest and case != 'values and errors' and rest[0] != '#': why = 'continues with %s' % show_w(rest)
                r.ob(why is None, '%s:%s' % (case, key), ln.e, '%s: the line of %s %s' % (case, 'each parameter' if key == 'parameter' else 'the set position ' + key, why), sample='%s: %s: name, value%s of one and the same parameter' % (case, key, ', limits' if 'limits' in case else ', error' if 'errors' in case else ''))
                c.count('report lines')
                kk = (key, flv)
                overlap = band(seen.get(kk, FALSE), pc)
                r.ob(overlap is FALSE, '%s:%s:twice' % (case, key), ln.e, '%s: the line of %s is printed twice' % (case, key))
                seen[kk] = bor(seen.get(kk, FALSE), pc); order.setdefault(key, []).append(ln.n)
            if fl is not TRUE: r.ob(under(ln.pc, bnot(FS(k))) is FALSE, '%s:%s:start' % (case, w0), ln.e, '%s: %s is printed for functions that do not start a set' % (case, w0))
        for kk, what in ((('X0', True), 'X0'), (('Y0', True), 'Y0'), ('FUNCTION', 'FUNCTION'), (('parameter', True), 'parameter'), (('parameter', False), 'parameter')):
            s = seen.get(kk, FALSE)
            r.ob(free_of(s), '%s:%s:always' % (case, what), None, '%s: the line of %s is only printed when %s' % (case, what, brief(s, 150)))
        seq = [order.get(x, []) for x in ('X0', 'Y0', 'FUNCTION', 'parameter')]
        r.ob(all(a and b and max(a) < min(b) for a, b in zip(seq, seq[1:])), case + ':order', None, '%s: the lines are not in the order X0, Y0, FUNCTION, parameters' % case)

def out_of_range(r, ln):
    """a line for a name index past the parameter list: never printed, the list covers every function's parameters"""
    k = fn_loop(r, ln, 'parameter')
    if k is None: return False
    idx = vadd(vadd(start_of(k), ite(FS(k), N(2), N(0))), leaf(psym(ln.e.loops[1][0])))
    return band(ln.pc, apply(lambda q: vcmp('<', leaf(q), S('this.nParamsTot')), fresh('ir'), idx)) is FALSE

def implies(a, b): return band(a, bnot(b)) is FALSE
def loads_in(x):
    acc = []
    def f(a):
        if a.kind == 'load': acc.append(a)
        return None
    tmap(x, f); return acc
def free_of(s):
    """always, apart from the guard of the parameter-name table"""
    if s is TRUE: return True
    for v in bvars(s):
        if not any(a.kind == 'sym' and a.args[0] in ('this.nParamsTot',) for a in atoms_of(v)): return False
    return s is not FALSE
def under_all(pc, c): return [c] if isinstance(c, Node) else []
def field_of(a):
    o = a.args[0]
    names = P().fields(MO)[1]
    while isinstance(o, tuple) and o and o[0] == '*':
        if o[1] == 'this': break
        o = o[1]
    off = o[2] if isinstance(o, tuple) and len(o) > 2 else a.args[1] if o == 'this' else None
    if isinstance(off, Poly): off = int(numval(off)) if is_num(off) else None
    if off is None: return ''
    return max(((k, v) for k, v in names.items() if k <= off), default=(0, ''))[1]
def fn_string(meth, k):
    """term of the string a component's accessor returns"""
    return leaf(patom(atom('load', ('ret', 'call:virt:' + meth, fun(k)), ZERO)))
def strs_extra(ln, r):
    """a line describing optional (non-fitted) parameters of a component, printed only if it has any set"""
    return any('ExtraParamsSet' in repr(v) for v in bvars(ln.pc)) and len([w for w in ln.words if not isinstance(w, str)]) == 1


# ---------------------------------------------------------------- values on one line, and the header naming them
def content_empty(c): return isinstance(c, Node) and any('""' in syms(v) for v in bvars(c))
def merge(ls):
    """lines of the same loops, put together in program order for every combination of their conditions: (loops, first event, condition, pieces)"""
    groups = {}
    for ln in ls: groups.setdefault(tuple(k for k, K in ln.e.loops), []).append(ln)
    out = []
    for ks, g in groups.items():
        def cases(pcs, cond):
            vs = [v for p in pcs for v in (bvars(p) if isinstance(p, Node) else [])]
            if not vs:
                out.append((g[0].e.loops, g, cond, [(ln, ln.pieces) for ln, p in zip(g, pcs) if p is TRUE])); return
            v = vs[0]
            for val in (True, False):
                c = band(cond, node(v, TRUE, FALSE) if val else node(v, FALSE, TRUE))
                if c is FALSE: continue
                cases([restrict(p, v, val) for p in pcs], c)
        pcs = []
        for ln in g:
            p = ln.pc
            if ks:      # loop counters are not negative
                k = leaf(psym(ks[-1])); eq = vcmp('==', k, N(0))
                p = under(p, bnot(vcmp('<', k, N(0))), vcmp('<', N(-1), k))
                gt = vcmp('>', k, N(0))
                p = ite(eq, under(p, eq, bnot(gt)), under(p, bnot(eq), gt))
            pcs.append(p)
        if len({v.id for p in pcs if isinstance(p, Node) for v in bvars(p)}) > 8: raise AnalysisError('too many conditions in the text of one line')
        cases(pcs, TRUE)
    return out
def row_rule(c, r, ls, sep, model_from, xoff, yoff, par, extra=None):
    """model_from: position of the first model parameter; every value once, each separated from the one before"""
    order = {}; seen = {}
    plain = model_from is N(0)
    for loops, g, cond, parts in merge(ls):
        e = g[0].e
        if not parts: continue
        k = psym(loops[0][0]) if loops else None
        K = trip(loops[0][1]) if loops else None
        model = K is psym('this.nFunctions')
        # is this the first value of the line?
        if k is None or len(loops) == 2: first = False
        elif any('""' in syms(v) for v in bvars(cond)):
            first = None
            for v in bvars(cond):
                if '""' in syms(v): first = restrict(cond, v, False) is FALSE
        else:
            eq = vcmp('==', leaf(k), N(0))
            if model and not plain:
                z = apply(lambda q: vcmp('>', leaf(q), N(0)), fresh('p0'), sizes(vadd(model_from, start_of(k))))
                first = True if implies(cond, bnot(z)) else False if implies(cond, z) else None
            else: first = True if implies(cond, eq) else False if implies(cond, bnot(eq)) else None
        prev = 'start'; vals = []
        for ln, ps in parts:
            for x in ps:
                is_sep = not isinstance(x, str) and len(x) == 3 and x[2] is sep or isinstance(x, str) and x.strip() == '' and x != ''
                if is_sep: 
                    if prev == 'start' and first: r.ob(False, 'separator', ln.e, 'the line starts with a separator')
                    prev = 'sep'
                elif isinstance(x, str): prev = 'text'
                else:
                    if prev == 'value': r.ob(False, 'separator', ln.e, 'two values are printed without a separator between them')
                    if prev == 'start': r.ob(first, 'separator', ln.e, 'a value that is not the first of the line is printed without a separator (when %s)' % brief(cond, 120))
                    prev = 'value'; vals.append(x)
        r.ob(prev != 'sep', 'separator', parts[-1][0].e, 'a separator is printed that no value follows')
        # which parameters
        if model and len(loops) == 1:
            want = [(NUM, vadd(atv(par, vadd(model_from, vadd(start_of(k), N(j)))), off)) for j, off in ((0, xoff), (1, yoff))]
            why = match(vals, want) or ('has further values' if len(vals) > 2 else None)
            r.ob(why is None and under(cond, bnot(FS(k))) is FALSE, 'position', e, 'the position of a function set %s' % (why or 'is printed for functions that do not start a set'), sample='%s: X0 and Y0 of the set, in full-image coordinates' % r.name)
            key = 'XY'
        elif model and len(loops) == 2:
            i = psym(loops[1][0])
            good = trip(loops[1][1]) is SZ(k).v
            why = None
            for flv in (True, False):
                gd = FS(k) if flv else bnot(FS(k))
                if under(cond, gd) is FALSE: continue
                why = why or match(vals, [(NUM, under(atv(par, vadd(model_from, vadd(vadd(start_of(k), N(2 if flv else 0)), leaf(i)))), gd))], gd)
                seen[('P', flv)] = bor(seen.get(('P', flv), FALSE), under(cond, gd))
            r.ob(good and why is None and len(vals) == 1, 'parameter', e, 'a parameter of a function %s' % (why or 'is printed %s times' % brief(loops[1][1], 60)), sample='%s: the values of one component in order' % r.name)
            key = 'P'
        elif extra is not None: key = extra(e, loops, cond, vals, seen)
        else:
            r.ob(False, 'other', e, 'an unexpected value: %s' % show_w(vals)); continue
        c.count('report lines')
        if key == 'XY': seen['XY'] = bor(seen.get('XY', FALSE), under(cond, FS(k)))
        order.setdefault(key, []).extend(ln.n for ln, ps in parts)
    for key in ('XY', ('P', True), ('P', False)):
        s = seen.get(key, FALSE)
        r.ob(free_of(s), '%s:always' % (key if isinstance(key, str) else key[0]), None, '%s values are only printed when %s' % (key, brief(s, 120)))
    seq = [order[x] for x in ('I', 'XY', 'P') if x in order]
    r.ob(all(max(a) < min(b) for a, b in zip(seq, seq[1:])), 'order', None, 'the values are not printed in the order of the parameter vector')
    return seen

def header_word(w):
    """(label, number) of LABEL_<number>"""
    if isinstance(w, tuple) and w and w[0] != 'v' and w[0] != '?':
        v = [x for x in w if not isinstance(x, str)]
        return w, v
    return (w,), []

def rows_rule(c):
    p = P(); par, sep = 'PAR', unver(LD('SEP')).v
    t = Trace(p, p.method(MO, 'PrintModelParamsHorizontalString'), MO, args=[ptr(x) for x in ('RES', 'this', par, 'SEP')], virt=fo_virt(p), mem=start_mem(), strings=True)
    r = Rule(c, t, 'PrintModelParamsHorizontalString')
    sep = psym('SEP@0')
    row_rule(c, r, lines_of(t, 'RES', commas=False), sep, N(0), S('this.imageOffset_X0'), S('this.imageOffset_Y0'), par)
    # --- header
    t = Trace(p, p.method(MO, 'GetParamHeader'), MO, args=[ptr(x) for x in ('RES', 'this')], virt=fo_virt(p), mem=start_mem(), strings=True)
    r = Rule(c, t, 'GetParamHeader')
    order = {}
    ls = lines_of(t, 'RES', commas=False)
    first = [ln for ln in ls if not ln.e.loops]
    r.ob(len(first) == 1 and first[0].pieces == ['# '], 'start', first[0].e if first else None, 'the header does not start with "# "'); c.count('report lines')
    for ln in ls:
        if not ln.e.loops: continue
        k = fn_loop(r, ln, 'header')
        if k is None: continue
        if len(ln.e.loops) == 1:
            b = fresh('$n')
            num_ = vadd(N(1), bind('sum', b, ite(FS(psym(b)), N(1), N(0)), leaf(k)))
            for w in ln.words:
                good = isinstance(w, tuple) and len(w) == 2 and w[0] in ('X0_', 'Y0_') and isinstance(w[1], tuple) and same(leaf(w[1][2]), num_)
                r.ob(good, 'set', ln.e, 'a set position is named %s' % show_w([w] if isinstance(w, str) else list(w)), sample='X0_n, Y0_n: n-th set')
                if good: order.setdefault(w[0][:2], []).append((ln.n, ln.words.index(w)))
            r.ob(under(ln.pc, bnot(FS(k))) is FALSE and under(ln.pc, FS(k)) is TRUE, 'set:when', ln.e, 'set positions are named when %s' % brief(ln.pc, 80))
        else:
            i = psym(ln.e.loops[1][0])
            idx = vadd(vadd(start_of(k), ite(FS(k), N(2), N(0))), leaf(i))
            inrange = apply(lambda q: vcmp('<', leaf(q), S('this.nParamsTot')), fresh('ir'), idx)
            if band(ln.pc, inrange) is FALSE: continue
            r.ob(trip(ln.e.loops[1][1]) is SZ(k).v, 'parameters', ln.e, '%s names are printed for a function' % brief(ln.e.loops[1][1], 60))
            for flv in (True, False):
                g = FS(k) if flv else bnot(FS(k))
                if under(ln.pc, g) is FALSE: continue
                w = ln.words[0] if len(ln.words) == 1 else None
                good = isinstance(w, tuple) and len(w) == 3 and w[1] == '_' and w[0][0] == 'v' and same(under(leaf(w[0][2]), g), under(name_of(under(idx, g)), g)) and w[2][0] == 'v' and w[2][2] is add(k, ONE)
                r.ob(good, 'parameter', ln.e, 'a parameter is named %s' % show_w(ln.words), sample='NAME_n: own name, n-th function')
            order.setdefault('P', []).append((ln.n, 0))
        c.count('report lines')
    seq = [order.get(x, []) for x in ('X0', 'Y0', 'P')]
    r.ob(all(a and b and max(a) < min(b) for a, b in zip(seq, seq[1:])), 'order', None, 'names are not in the order of the parameter vector')

def table_rule(c):
    """how the table of parameters is built up"""
    p = P(); th = ptr('this')
    def T(meth, args=None, nargs=None, sel=None):
        fs = [f for f in p.prog.find(MO, meth) if nargs is None or len(f.params) == nargs]
        if sel: fs = [f for f in fs if sel(f)]
        if not fs: raise AnalysisError('%s not found' % meth)
        t = Trace(p, fs[0], MO, args=args, virt=fo_virt(p), mem=start_mem(), strings=True)
        return t, Rule(c, t, meth)
    t, r = T('AddFunction', [th, ptr('FUN'), S('glob')])
    l = [e for e in t.events if e.kind == 'call' and e.name and 'push_back' in e.name]
    size = [e.val for e in l if e.args[0] is ptr('this', mo('paramSizes'))]
    fun_ = [e for e in l if e.args[0] is ptr('this', mo('functionObjects'))]
    npar = unver(size[0]) if len(size) == 1 else None
    a = the_atom(npar) if npar is not None else None
    slot = None
    r.ob(a is not None and a.args[0] == 'call:indirect' and slot_is(a, 'GetNParams'), 'size', l[0] if l else None, 'the number of parameters recorded for a new component is %s' % (npar and brief(npar, 100)), sample='number of parameters as declared by the component')
    r.ob(len(fun_) == 1 and fun_[0].val is ptr('FUN') and pc_of(fun_[0]) is TRUE, 'component', None, 'a new component is recorded %d times' % len(fun_))
    for nm, w in (('nFunctions', N(1)), ('nFunctionParams', npar)):
        g = endv(t, MO, nm, 32)
        r.ob(w is not None and same(unver(g), vadd(fld(nm), w)), nm, None, '%s becomes %s' % (nm, brief(g, 100)), sample='AddFunction: counts'); c.count('table rules')
    # sets
    t, r = T('DefineFunctionSets', [th, ptr('IDX')])
    cnt = endv(t, MO, 'nFunctionSets', 32)
    want = vfn('idiv', vsub(leaf(ADDR(('*', 'IDX', 8))), leaf(ADDR(('*', 'IDX', 0)))), N(4))
    n_idx = the_count_of('IDX', 4)
    r.ob(same(cnt, n_idx), 'nFunctionSets', None, 'the number of function sets is %s' % brief(cnt, 100))
    g = endv(t, MO, 'nParamsTot', 32)
    r.ob(same(g, vadd(fld('nParamsTot'), vadd(fld('nFunctionParams'), vmul(N(2), cnt)))), 'nParamsTot', None, 'the number of parameters becomes %s' % brief(g, 120), sample='function parameters + X0,Y0 per set'); c.count('table rules')
    flags = unver(t.m.load(t.out, Ptr('this', num(mo('fsetStartFlags'))), ir.PTR))
    fo = flags.v.obj if isinstance(flags, Leaf) and isinstance(flags.v, Ptr) else None
    ws = [(n, e, q) for n, e, q in t.stores(lambda o: o == fo)]
    setter = [x for x in ws if x[1].loops]
    good = len(setter) == 1 and len(setter[0][1].loops) == 1 and same(leaf(trip(setter[0][1].loops[0][1]) or ZERO), n_idx) and unver(pc_of(setter[0][1])) is TRUE
    if good:
        k = psym(setter[0][1].loops[0][0]); q = unver(leaf(setter[0][2])).v
        good = q.off is L(('*', 'IDX', 0), scale(k, Fraction(4))).v and val_of(setter[0][1]) is N(1)
    r.ob(good, 'flags', setter[0][1] if setter else None, 'the start of a function set is not marked at its own function index', sample='flag of function i set exactly when a set starts at i')
    for n, e, q in ws:
        if not e.loops: r.ob(q.off is ZERO and val_of(e) is N(1), 'flags:other', e, 'function %s is marked as starting a set' % brief(leaf(q.off), 60))
    al = [e for n, e in t.calls('calloc')]
    r.ob(len(al) == 1 and al[0].args[0] is fld('nFunctions') and fo is not None, 'flags:clear', al[0] if al else None, 'the flags of all functions are not cleared first')
    # names
    t, r = T('PopulateParameterNames')
    lab = ptr('this', mo('parameterLabels'))
    l = [(n, e) for n, e in enumerate(t.events) if e.kind == 'call' and e.name and ('push_back' in e.name or 'emplace_back' in e.name) and e.args[0] is lab]
    g = t.calls('virt:GetParameterNames')
    seq = []
    for n, e in l + g:
        k = e.loops[0][0] if len(e.loops) == 1 else None
        if not r.ob(k is not None and trip(e.loops[0][1]) is psym('this.nFunctions'), 'loop', e, 'names are not added once per function'): continue
        pc = unver(pc_of(e))
        if e.name.startswith('virt'):
            r.ob(pc is TRUE and unver(e.args[0]) is leaf(Ptr(('*', arr('functionObjects'), scale(psym(k), Fraction(8))), ZERO)) and e.args[1] is lab, 'own', e, 'the names of a function are not those it declares (when %s)' % brief(pc, 60), sample='labels: names declared by the component'); seq.append((n, 'own'))
        else:
            v = unver(val_of(e)); w = strs.literal(v.v) if isinstance(v, Leaf) else None
            r.ob(pc is FS(psym(k)) and w in ('X0', 'Y0'), 'set', e, 'label %s is added when %s' % (brief(v, 40), brief(pc, 60)), sample='labels: X0, Y0 at the start of a set'); seq.append((n, w))
        c.count('table rules')
    r.ob([w for n, w in sorted(seq, key=lambda x: x[0])] == ['X0', 'Y0', 'own'], 'order', None, 'labels are added in the order %s' % [w for n, w in sorted(seq, key=lambda x: x[0])])
    # limits
    for f in p.prog.find(MO, 'AddParameterInfo'):
        t = Trace(p, f, MO, args=[th, ptr('INFO')], virt=fo_virt(p), mem=start_mem(), strings=True); r = Rule(c, t, 'AddParameterInfo')
        vec = 'vector' in dm(f.name)
        o = ('*', 'INFO', 0) if vec else 'INFO'
        l = [(n, e) for n, e in enumerate(t.events) if e.kind == 'call' and e.name and ('push_back' in e.name or 'emplace_back' in e.name) and e.args[0] is ptr('this', mo('parameterInfoVect'))]
        if not r.ob(len(l) == 1 and len(l[0][1].loops) == 1 and trip(l[0][1].loops[0][1]) is psym('this.nParamsTot') and unver(pc_of(l[0][1])) is TRUE, 'one each', l[0][1] if l else None, 'limits are not recorded once per parameter'): continue
        n, e = l[0]; k = psym(e.loops[0][0])
        src = e.args[1].v
        got = {}
        for m_, e2, q in t.stores(lambda ob: ob == src.obj):
            if m_ < n and is_num(q.off) and [x for x, K in e2.loops] == [x for x, K in e.loops]: got[int(numval(q.off))] = e2
        for fname, kk in (('fixed', 0), ('limited', 0), ('limited', 1), ('limits', 0), ('limits', 1)):
            wd = 8 if fname == 'limits' else 4
            d = p.off('SimpleParameterInfo', fname) + wd * kk; sof = p.off('mp_par_struct', fname) + wd * kk
            e2 = got.get(d)
            w = L(o, add(scale(k, Fraction(struct_size('mp_par_struct'))), num(sof)))
            r.ob(e2 is not None and unver(pc_of(e2)) is TRUE and same(unver(val_of(e2)), w), '%s%d' % (fname, kk), e2 or e, '%s[%d] of a parameter is recorded as %s' % (fname, kk, brief(val_of(e2), 80) if e2 is not None else 'nothing'), sample='limits recorded for the same parameter'); c.count('table rules')
    # name and offset accessors
    t, r = T('GetParameterName', [th, S('i')])
    v = unver(under(t.val, vcmp('<', S('i'), S('this.nParamsTot'))))
    r.ob(v is leaf(Ptr(arr('parameterLabels'), scale(psym('i'), Fraction(32)))), 'label', None, 'the name of parameter i is %s' % brief(v, 100), sample='name i = label i'); c.count('table rules')
    t, r = T('AddImageOffsets', [th, S('X'), S('Y')])
    for nm, w in (('imageOffset_X0', 'X'), ('imageOffset_Y0', 'Y')):
        g = t.m.load(t.out, Ptr('this', num(mo(nm))), ir.INT(32)); r.ob(g is S(w), nm, None, '%s becomes %s' % (nm, brief(g, 60))); c.count('table rules')
    for f in p.prog.find(MO, 'GetImageOffsets'):
        if 'tuple' in dm(f.name) or 'double' not in dm(f.name):
            t = Trace(p, f, MO, args=[ptr('RES'), th], mem=start_mem()); r = Rule(c, t, 'GetImageOffsets')
            got = {int(numval(q.off)): unver(val_of(e)) for n, e, q in t.stores(lambda o: o == 'RES') if is_num(q.off)}
            r.ob(got == {4: S('this.imageOffset_X0'), 0: S('this.imageOffset_Y0')}, 'pair', None, 'the offsets returned are %s' % {k: brief(v, 40) for k, v in got.items()}, sample='(x offset, y offset)'); c.count('table rules')
        else:
            t = Trace(p, f, MO, args=[th, ptr('OUT')], virt=fo_virt(p), mem=start_mem()); r = Rule(c, t, 'GetImageOffsets')
            X, Y = S('this.imageOffset_X0'), S('this.imageOffset_Y0')
            got = set()
            for n, e, q in t.stores(lambda o: o == 'OUT'):
                k = e.loops[0][0] if len(e.loops) == 1 else None
                if not r.ob(k is not None and trip(e.loops[0][1]) is psym('this.nFunctions'), 'loop', e, 'an offset is written outside the loop over functions'): continue
                A = leaf(scale(q.off, Fraction(1, 8)))
                for j, w in ((0, X), (1, Y)):
                    if same(unver(A), vadd(start_of(psym(k)), N(j))):
                        pc = unver(under(pc_of(e), nz(w)))
                        r.ob(same(unver(val_of(e)), w) and pc is FS(psym(k)), 'XY'[j], e, 'the %s offset of a set is %s when %s' % ('XY'[j], brief(val_of(e), 60), brief(pc, 80)), sample='offset at the position of X0, Y0'); got.add(j); c.count('table rules'); break
                else: r.ob(False, 'element', e, 'an offset is written for parameter %s' % brief(A, 120))
            r.ob(got == {0, 1}, 'both', None, 'offsets of X0 and Y0 are not both given')

def slot_is(a, meth):
    """an indirect call atom: is it the virtual method `meth` of FunctionObject?"""
    vt = P().prog.find_vtable('FunctionObject')
    f = a.args[1]
    f = f.v if isinstance(f, Leaf) else f
    at_ = strs.atom1(f)
    if at_ is None or at_.kind != 'load': return False
    o = at_.args[0]
    off = o[2] if isinstance(o, tuple) and o[0] == '*' else None
    off = int(numval(off)) if isinstance(off, Poly) and is_num(off) else off
    if not isinstance(off, int): return False
    n = vt[2 + off // 8]
    return n and dm(n).split('(')[0].split('::')[-1] == meth

def the_count_of(o, size):
    p = P(); m = gsa.Machine(p.prog)
    return vfn('idiv', vsub(leaf(ADDR(('*', o, 8))), leaf(ADDR(('*', o, 0)))), N(size))

def fluxes_rule(c):
    p = P()
    t = Trace(p, p.method(MO, 'FindTotalFluxes'), MO, args=[ptr('this'), ptr('PAR'), S('xs'), S('ys'), ptr('OUT')], virt=fo_virt(p), mem=start_mem()); r = Rule(c, t, 'FindTotalFluxes')
    pos = [vcmp('>', S('xs'), N(0)), vcmp('>', S('ys'), N(0)), vcmp('>', S('this.nFunctions'), N(0)), bnot(vcmp('<', S('xs'), N(1))), bnot(vcmp('<', S('ys'), N(1)))]
    l = t.calls('virt:Setup')
    if r.ob(len(l) == 1 and len(l[0][1].loops) == 1 and trip(l[0][1].loops[0][1]) is psym('this.nFunctions'), 'setup', l[0][1] if l else None, 'components are set up %d times' % len(l)):
        e = l[0][1]; k = psym(e.loops[0][0])
        off = unver(under(e.args[2], *pos))
        w = vadd(start_of(k), ite(FS(k), N(2), N(0)))
        cen = [vsub(vmul(unver(a), N(2)), S(s)) for a, s in ((e.args[3], 'xs'), (e.args[4], 'ys'))]
        r.ob(unver(pc_of(e, *pos)) is TRUE and unver(e.args[0]) is leaf(Ptr(('*', arr('functionObjects'), scale(k, Fraction(8))), ZERO)) and e.args[1] is ptr('PAR') and same(off, w), 'setup:slice', e, 'a component is set up with parameters from %s' % brief(off, 150), sample='every component gets its own parameters')
        r.ob(all(isinstance(x, Leaf) and is_num(x.v) and 0 <= numval(x.v) <= 2 for x in cen), 'setup:centre', e, 'components are not centred in the image')
    f = lambda k: fun(k)
    bg = lambda k: nz(virt('IsBackground', f(k))); can = lambda k: nz(virt('CanCalculateTotalFlux', f(k)))
    b1, b2 = fresh('$x'), fresh('$y')
    numeric = lambda k: bind('sum', b2, bind('sum', b1, virt('GetValue', f(k), leaf(add(psym(b1), ONE)), leaf(add(psym(b2), ONE))), S('xs')), S('ys'))
    comp = lambda k: ite(can(k), virt('TotalFlux', f(k)), numeric(k))
    ws = t.stores(lambda o: o == 'OUT')
    for n, e, q in ws:
        k = psym(e.loops[0][0]) if len(e.loops) == 1 else ZERO
        pc = unver(pc_of(e, *pos))
        v = unver(under(val_of(e, *pos), bnot(bg(k))))
        r.ob(scale(q.off, Fraction(1, 8)) is k and implies(bnot(bg(k)), pc) and same(v, comp(k)), 'component', e, 'the flux of a component is %s' % brief(v, 200), sample='own total flux, or the sum of the pixels of its image'); c.count('table rules')
    r.ob(len(ws) >= 1, 'component:some', None, 'no component fluxes are returned')
    b3 = fresh('$f')
    v = unver(under(t.val, *pos))
    w = bind('sum', b3, ite(bg(psym(b3)), N(0), comp(psym(b3))), S('this.nFunctions'))
    r.ob(same(v, w), 'total', None, 'the total flux is %s' % brief(v, 300), sample='sum over all components that are not background'); c.count('table rules')

# ---------------------------------------------------------------- several images
IMG = ['PIXEL_SCALE', 'ROTATION', 'FLUX_SCALE', 'X0', 'Y0']
def image_rule(c):
    p = P(); MOV = parr(MM, 'modelObjectsVect'); nO = psym('this.nModelObjects')
    oi = lambda i: ('*', MOV, scale(i, Fraction(8)))
    offs = lambda i, ax: L(oi(i), num(P().off(MO, 'imageOffset_%s0' % ax)))
    PAR, ERR, VEC = 'PAR', 'ERR', 'VEC'
    t = mm_trace('PrintModelParamsToStrings', [ptr('this'), ptr(VEC), ptr(PAR), ptr(ERR), ptr('PREFIX'), S('printLimits')], {MM + '::GetParameterStringsForOneImage': OPAQUE_VOID, MM + '::GetPerImageFuncStrings': OPAQUE_VOID}, strings=True)
    r = Rule(c, t, 'multi:PrintModelParamsToStrings')
    pre = patom(atom('load', 'PREFIX', ZERO))
    noerr = vcmp('==', leaf(ADDR(ERR)), N(0)); nolim = vcmp('==', S('printLimits'), N(0))
    g = t.calls(MM + '::GetParameterStringsForOneImage')
    r.ob(len(g) == 1 and not g[0][1].loops and under(pc_of(g[0][1]), nolim) is TRUE and list(g[0][1].args[1:5]) == [ptr(VEC), ptr(PAR), N(0), ptr(ERR)], 'main', g[0][1] if g else None, 'the model parameters are not printed once, for the reference image'); c.count('report lines')
    for case, cc in (('values', [nolim, noerr]), ('values and errors', [nolim, bnot(noerr)])):
        seq = []
        for ln in lines_of(t, VEC, cc, skip=(pre,)):
            if not ln.e.loops or not isinstance(ln.words[0], str) or ln.words[0] == '#':
                for w in ln.words:
                    if not isinstance(w, str) and w[0] == 'v' and w[1] in INT_:
                        r.ob(bool(ln.e.loops) and same(leaf(w[2]), leaf(image_no(ln, nO, r, True))), case + ':image number', ln.e, '%s: an image is announced as number %s' % (case, brief(leaf(w[2]), 60)))
                continue
            img = image_no(ln, nO, r)
            if img is None: continue
            w0 = ln.words[0]
            if not r.ob(w0 in IMG or w0 == 'IMAGE_PA', case + ':other', ln.e, '%s: an unexpected line: %s' % (case, show_w(ln.words))): continue
            j = IMG.index(w0) if w0 in IMG else 1
            if unver(under(ln.pc, vcmp('>', leaf(img), N(1)))) is FALSE: continue
            at_ = vadd(vmul(N(5), vsub(leaf(img), N(2))), N(j))
            v = atv(PAR, at_)
            prev = sub(img, ONE)
            if j >= 3: v = vadd(v, offs(prev, 'XY'[j - 3]))
            want = [w0, (NUM, v)]
            if case == 'values and errors': want += ['#', '+/-', (NUM, atv(ERR, at_))]
            given = [vcmp('>', leaf(img), N(1)), bnot(vcmp('<', leaf(prev), N(1))), vcmp('>', leaf(prev), N(0))]
            k = psym(ln.e.loops[0][0]); given += [bnot(vcmp('<', leaf(k), N(0))), vcmp('<', N(-1), leaf(k)) if True else TRUE]
            if any(implies(x, FALSE) for x in []): continue
            if under(ln.pc, *given) is FALSE: continue
            why = match(ln.words, want, *given) or (None if len(ln.words) == len(want) else 'continues with %s' % show_w(ln.words[len(want):]))
            r.ob(why is None, '%s:%s' % (case, w0), ln.e, '%s: the line %s of an image %s' % (case, w0, why), sample='%s: %s of image n%s' % (case, IMG[j], ', in full-image coordinates' if j >= 3 else '')); c.count('report lines')
            seq.append((ln.n, j))
        r.ob([j for n, j in sorted(set(seq))] == [0, 1, 2, 3, 4], case + ':order', None, '%s: the description of an image is printed as %s' % (case, [IMG[j] for n, j in sorted(set(seq))]))
    # the parameters of one image
    t = mm_trace('GetParameterStringsForOneImage', [ptr('this'), ptr(VEC), ptr(PAR), S('img'), ptr(ERR)], strings=True); r = Rule(c, t, 'GetParameterStringsForOneImage')
    hold = ptr('this', p.off(MM, 'parameterHolder')); img = psym('img')
    e8 = lambda nm: leaf(Ptr(('*', parr(MM, nm), scale(img, Fraction(8))), ZERO))
    steps = [(PH + '::AddNewParameterVector', lambda a: a[1] is ptr(PAR)), (PH + '::GetParamsForModelObject', lambda a: a[1] is S('img') and unver(a[2]) is e8('paramsForModelObjects')),
             (PH + '::GetImageParams', lambda a: a[1] is S('img') and unver(a[2]) is e8('imageDescriptionParams')),
             ('virt:SetImageParameters', lambda a: unver(a[0]) is e8('modelObjectsVect') and unver(a[1]) is e8('imageDescriptionParams')),
             ('virt:PrintModelParamsToStrings', lambda a: unver(a[0]) is e8('modelObjectsVect') and a[1] is ptr(VEC) and unver(a[2]) is e8('paramsForModelObjects'))]
    pos = []
    for nm, good in steps:
        l = t.calls(nm)
        ok = len(l) == 1 and unver(pc_of(l[0][1])) is TRUE and good(l[0][1].args)
        r.ob(ok, nm.split('::')[-1].split(':')[-1], l[0][1] if l else None, '%s is not done exactly once with the data of the image asked for' % nm.split(':')[-1], sample='%s for the image asked for' % nm.split(':')[-1]); c.count('report lines')
        pos.append(l[0][0] if l else -1)
    r.ob(pos[0] < min(pos[1], pos[2]) and pos[2] < pos[3] and max(pos) == pos[4], 'order', None, 'the steps are not in the order: take over parameters, extract, hand over, print')
    l = t.calls('virt:PrintModelParamsToStrings')
    if l:
        a = l[0][1].args
        v = unver(under(a[3], bnot(noerr)))
        r.ob(v is leaf(Ptr(ERR, scale(sub(nO, ONE), Fraction(40)))) and unver(under(a[3], noerr)) in (leaf(Ptr('null', ZERO)), ptr(ERR)), 'errors', l[0][1], 'the errors handed on are %s' % brief(a[3], 100), sample='errors of the model parameters, skipping those of the image descriptions')
        r.ob(a[5] is leaf(False) or a[5] is N(0) or a[5] is FALSE, 'limits', l[0][1], 'limits are asked for, which belong to a different parameter vector')
    t = mm_trace('GetAllImageDescriptionParameters', [ptr('this'), ptr(PAR), ptr('OUT')]); r = Rule(c, t, 'GetAllImageDescriptionParameters')
    ws = t.stores(lambda o: o == 'OUT')
    if r.ob(len(ws) == 1, 'copy', None, 'the descriptions are copied by %d operations' % len(ws)):
        n, e, q = ws[0]; A = scale(q.off, Fraction(1, 8))
        why = covers(A, e, scale(sub(nO, ONE), Fraction(5)))
        r.ob(why is None and same(unver(val_of(e)), at(PAR, A)), 'copy', e, 'description value %s becomes %s (%s)' % (brief(leaf(A), 60), brief(val_of(e), 80), why)); c.count('report lines')
    # names of the description values of a further image, in the order of the parameter vector
    t = mm_trace('AddModelObject', [ptr('this'), ptr('NEW')], strings=True); r = Rule(c, t, 'multi:AddModelObject')
    l = [e for e in t.events if e.kind == 'call' and e.name and ('push_back' in e.name or 'emplace_back' in e.name) and e.args[0] is ptr('this', P().off(MM, 'parameterLabels'))]
    more = vcmp('>', S('this.nModelObjects'), N(0))
    w = [strs.literal(unver(e.val).v) if isinstance(e.val, Leaf) and isinstance(unver(e.val), Leaf) and isinstance(unver(e.val).v, Poly) else None for e in l]
    r.ob(w == IMG and all(not e.loops and same(unver(e.pc), more) for e in l), 'labels', l[0] if l else None, 'the values describing a further image are labelled %s when %s' % (w, [brief(unver(e.pc), 60) for e in l][:1]), sample='labels of the image description'); c.count('report lines', 5)
    # one line of values
    sep = psym('SEP@0')
    t = mm_trace('PrintModelParamsHorizontalString', [ptr(x) for x in ('RES', 'this', PAR, 'SEP')], strings=True); r = Rule(c, t, 'multi:PrintModelParamsHorizontalString')
    first = leaf(scale(sub(nO, ONE), Fraction(5)))
    got = {}
    def extra(e, loops, cond, vals, seen):
        k = psym(loops[0][0]) if len(loops) == 1 else None
        K = trip(loops[0][1]) if k is not None else None
        if k is None:
            r.ob(False, 'other', e, 'an unexpected value: %s' % show_w(vals)); return 'I'
        if K is None:
            for l in leaves(loops[0][1]):
                if isinstance(l, Poly) and l.terms and not is_num(l): K = l
        why = match(vals, [(NUM, at(PAR, k))])
        inb = unver(under(cond, vcmp('<', leaf(k), first), vcmp('<', leaf(add(scale(k, Fraction(1, 5)), ONE)), leaf(nO))))
        seen['I'] = bor(seen.get('I', FALSE), inb)
        r.ob(why is None and len(vals) == 1 and K is first.v, 'image', e, 'the image descriptions: value i %s, for i < %s' % (why, K and brief(leaf(K), 60)), sample='image descriptions in order'); return 'I'
    seen = row_rule(c, r, lines_of(t, 'RES', commas=False), sep, first, offs(ZERO, 'X'), offs(ZERO, 'Y'), PAR, extra)
    r.ob(seen.get('I') is TRUE, 'image:always', None, 'the image descriptions are only printed when %s' % brief(seen.get('I', FALSE), 100))
    t = mm_trace('GetParamHeader', [ptr('RES'), ptr('this')], strings=True); r = Rule(c, t, 'multi:GetParamHeader')
    names = []
    last = None
    for ln in lines_of(t, 'RES', commas=False):
        if not ln.e.loops:
            if ln.pieces == ['# ']: names.append((ln.n, 0, '#'))
            else: last = ln
            continue
        img = image_no(ln, nO, r)
        if img is None: continue
        for j, w in enumerate(ln.words):
            good = isinstance(w, tuple) and len(w) == 2 and isinstance(w[0], str) and w[0].endswith('_IM_') and isinstance(w[1], tuple) and w[1][0] == 'v' and w[1][2] is img
            r.ob(good, 'image', ln.e, 'an image value is named %s' % show_w([w] if isinstance(w, str) else list(w)), sample='NAME_IM_n: n-th image'); c.count('report lines')
            if good: names.append((ln.n, j, w[0][:-4]))
    nn = [x[2] for x in sorted(names)]
    r.ob(nn[:1] == ['#'] and len(nn) == 6 and all(a == b or (a, b) == ('IMAGE_PA', 'ROTATION') for a, b in zip(nn[1:], IMG)), 'order', None, 'the image values are named %s' % nn)
    good = last is not None and names and last.n > max(x[0] for x in names) and len(last.pieces) == 1
    if good:
        a = strs.atom1(last.pieces[0][2])
        good = a is not None and a.args[0] == 'substr' and same(leaf_(a.args[2]), N(2)) and same(leaf_(a.args[3]), N(-1))
        if good:
            b = strs.atom1(leaf_(a.args[1]).v)
            good = b is not None and b.args[0] == 'call:virt:GetParamHeader' and repr(the_atom(leaf_(b.args[1])).args) == repr(the_atom(leaf(ADDR(oi(ZERO)))).args)
    r.ob(good, 'model', last.e if last else None, 'the names of the model parameters do not follow those of the images')

def leaf_(x): return x if isinstance(x, (Leaf, Node)) else leaf(x)
def image_no(ln, nO, r, quiet=False):
    """1-based number of the image a line of the loop over additional images is about"""
    k = ln.e.loops[0][0] if len(ln.e.loops) == 1 else None
    K = trip(ln.e.loops[0][1]) if k else None
    good = K is sub(nO, ONE)
    if not quiet: r.ob(good, 'images', ln.e, 'a line is not printed once for each additional image')
    return add(psym(k), num(2)) if good else (ZERO if quiet else None)

def offsets_rule(c):
    """positions and their limits are moved into the frame of the image section"""
    p = P(); PAR, LIM, MU = 'PAR', 'LIM', 'MULT'
    names = {}
    H = {MM + '::GetNImages': lambda fr, i, a, m: (S('nImages'), m)}
    vt = p.virt([(lambda o: o == MU, MM, False)])
    H['virt:GetNImages'] = H[MM + '::GetNImages']
    t = Trace(p, p.func('CorrectForImageOffsets'), None, args=[ptr(PAR), ptr(LIM), ptr(MU)], hooks=H, virt=vt, strings=True).unroll(); r = Rule(c, t, 'CorrectForImageOffsets')
    nI = psym('nImages'); first = scale(sub(nI, ONE), Fraction(5))
    oi = lambda i: ('*', ('*', MU, P().off(MM, 'modelObjectsVect')), scale(i, Fraction(8)))
    offs = lambda i, ax: L(oi(i), num(P().off(MO, 'imageOffset_%s0' % ax)))
    SZ_ = struct_size('mp_par_struct'); lo = P().off('mp_par_struct', 'limits'); ld = P().off('mp_par_struct', 'limited'); of = P().off('mp_par_struct', 'offset')
    lab = lambda i: leaf(patom(atom('load', ('*', MU, P().off(MO, 'parameterLabels')), scale(i, Fraction(32)))))
    got = {}
    for n, e, q in t.stores(lambda o: base(o) in (PAR, ('*', LIM, 0))):
        q = unver(leaf(q)).v
        k = psym(e.loops[0][0]) if len(e.loops) == 1 else None
        K = trip(e.loops[0][1]) if k is not None else None
        if not r.ob(k is not None and K is not None, 'loop', e, 'a value is changed outside the loops over images and parameters'): continue
        which = 'image' if K is sub(nI, ONE) else 'model' if same(leaf(K), leaf(sub(L(MU, num(P().off(MO, 'nParamsTot'))).v, first))) else None
        if not r.ob(which, 'range', e, 'values are changed for %s indices' % brief(leaf(K), 80)): continue
        pc = unver(pc_of(e)); v = unver(val_of(e))
        for j, ax in ((0, 'X'), (1, 'Y')):
            if which == 'image': idx = add(scale(k, Fraction(5)), num(3 + j)); im = add(k, ONE); cond = TRUE
            else:
                idx = add(k, first); im = ZERO
                cond = None
            w = offs(im, ax); hit = None
            if base(q.obj) == PAR:
                if q.off is scale(idx, Fraction(8)): hit, want, need = 'value', vsub(at(PAR, idx), w), TRUE
            else:
                d = sub(q.off, scale(idx, Fraction(SZ_)))
                if is_num(d):
                    d = int(numval(d))
                    if d == of: hit, want, need = 'offset', w, TRUE
                    for m in (0, 1):
                        if d == lo + 8 * m: hit, want, need = 'limit%d' % m, vsub(L(('*', LIM, 0), q.off), w), vcmp('==', L(('*', LIM, 0), add(scale(idx, Fraction(SZ_)), num(ld + 4 * m))), N(1))
            if hit is None: continue
            if which == 'model':
                lits = name_cond(under(pc, vcmp('<', leaf(idx), L(MU, num(P().off(MO, 'nParamsTot'))))), lab(idx), ax)
                if lits is None: continue
                rest = lits
            else: rest = pc
            r.ob(same(v, want) and (rest is need or (need is not TRUE and rest is TRUE)), '%s:%s:%s' % (which, ax, hit), e, '%s: %s of %s0 becomes %s when %s' % (which, hit, ax, brief(v, 120), brief(rest, 80)), sample='%s0 and its limits moved by the offset of its image' % ax)
            got[(which, ax, hit)] = got.get((which, ax, hit), 0) + 1; c.count('table rules'); break
        else: r.ob(False, 'element', e, '%s: %s of the parameters is changed (to %s) when %s' % (which, q, brief(v, 80), brief(pc, 80)))
    need = {(a, b, h) for a in ('image', 'model') for b in 'XY' for h in ('value', 'offset', 'limit0', 'limit1')}
    r.ob(set(got) == need and all(v == 1 for v in got.values()), 'all', None, 'not corrected (or corrected twice): %s' % sorted(x for x in need if got.get(x) != 1))

def name_cond(pc, label, ax):
    """pc minus the condition that the parameter is called X0 / Y0; None when it is about another name"""
    pos = False
    for v in sorted(bvars(pc), key=lambda v: str(v)):
        s = show_c_(v)
        who = 'X' if 'X0_string' in s or '"X0"' in s else 'Y' if 'Y0_string' in s or '"Y0"' in s else None
        if who is None: continue
        if not any(unver(leaf(patom(a))).v is label.v for a in atoms_of(v)): return None
        want = who == ax
        if restrict(pc, v, not want) is not FALSE: return None
        pc = restrict(pc, v, want); pos = pos or want
    return pc if pos else None
def show_c_(v): return show_atom(v)

def M07():
    c = Check('M07', 'Value numbering of every operation that builds the parameter table and prints it: each printed item is identified as a term (name, value, error, limits with their positions in the parameter vector) and all items of one line must have the position of the same parameter.')
    table_rule(c); print_rule(c); rows_rule(c); fluxes_rule(c); image_rule(c); offsets_rule(c)
    c.floor('report lines', 60); c.floor('table rules', 40)
    return c.finish()
TABLE = {'M07': M07}

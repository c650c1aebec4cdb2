"""C06: a command line is read argument by argument into flags, options with their texts, and plain arguments."""
import re
from fractions import Fraction
from . import strs, ir, build
from .cas import *
from .build import AnalysisError, dm
from .report import Check
from .trace import *
from .checks_pipe import unver, same, under, LD, OPAQUE_VOID
from .checks_io import P_, show, stderr_said, ok0
from .checks_sect import lit, terms_in, first as ffirst
from .checks_config import Tx, T, eqs, starts, loops_out, ctr, _put

_prog = []
def prog():
    if not _prog: _prog.append(Prog2(['core/commandline_parser.cpp', 'core/utilities.cpp'], passes=build.ONELOOP))
    return _prog[0]
def mapped(own=False):
    """the map of names is asked by name; what it holds for a name is at ENTRY (one for each name)"""
    def extra(tx):
        H = {}
        def look(fr, i, a, m): t = strs.get(fr, m, a[1]); tx.note('look', fr, i, a, m, t); return vfn('known', t), m
        def at(fr, i, a, m): tx.note('at', fr, i, a, m, strs.get(fr, m, a[1])); return (leaf(Ptr(('ENTRY', strs.get(fr, m, a[1]).id), ZERO)) if own else P_('ENTRY')), m
        for n in tx.p.prog.fns:
            d = dm(n)
            if d.startswith(('std::map<', 'std::_Rb_tree_iterator<', 'std::pair<')): H[n] = OPAQUE_VOID
            if re.match(r'std::map<.*>::(count|find|contains)\(', d): H[n] = look
            elif re.match(r'std::map<.*>::(operator\[\]|at)\(', d): H[n] = at
            elif re.match(r'std::map<.*>::end\(', d): H[n] = lambda fr, i, a, m: (N(0), m)
            elif re.match(r'std::_Rb_tree_iterator<.*>::operator(->|\*)\(', d): H[n] = lambda fr, i, a, m: (P_('PAIR'), m)
            elif 'operator==(std::_Rb_tree_iterator' in d or 'operator!=(std::_Rb_tree_iterator' in d:
                eq = 'operator==' in d
                H[n] = lambda fr, i, a, m, eq=eq: (lambda x, y: ((eqs(x, y) if eq else bnot(eqs(x, y))), m))(*[apply(lambda q: fr.m.load(m, q, ir.INT(64)) if isinstance(q, Ptr) else BOT, fresh('it'), z) for z in a[:2]])
        for n in tx.p.prog.fns:
            if n.startswith('@_ZN12OptionObjectC2E'): H[n.replace('C2E', 'C1E')] = lambda fr, i, a, m, n=n: (BOT, fr.m.call(ffirst(tx.p.prog.fns[n]), a, m, fr.depth + 1)[1])
        def char(fr, i, a, m):                                   # a character of a copy is that character of what was copied
            k = a[1] if len(a) > 1 else N(0)
            def f(x, y):
                q = strs.atom1(x) if isinstance(x, Poly) else None
                if q is not None and q.kind == 'load' and q.args[-1] == 'chars' and isinstance(y, Poly): return leaf(Ptr(q.args[0], add(q.args[1], y)))
                return leaf(Ptr(('chars', x), y)) if isinstance(x, Poly) and isinstance(y, Poly) else BOT
            return apply(f, fresh('chr'), strs.get(fr, m, a[0]), k), m
        for n in tx.p.prog.fns:
            if re.match(r'std::__cxx11::basic_string<char.*::(operator\[\]|at|front)\(', dm(n)): H[n] = char
        for n in ('operator[](unsigned long) const', 'operator[](unsigned long)', 'at(unsigned long) const', 'at(unsigned long)', 'front() const', 'front()'):
            H[strs.STR + '::' + n] = char; H[strs.STR + '::' + n.split('(')[0]] = char
        H['StripLeadingDashes'] = lambda fr, i, a, m: (BOT, _put(fr, m, a[0], vfn('bare', strs.get(fr, m, a[0]))))
        return H
    return extra
ENT = {('ENTRY', 0): P_('OPTION'), ('PAIR', 32): P_('OPTION')}
def VIRT(): return prog().virt([(lambda o: o == 'OPTION' or 'operator new' in str(o), 'OptionObject', True)])
def full(name): return [dm(n).split('(')[0] for n in prog().prog.fns if re.match(re.escape(name) + r'(\[abi:\w+\])?\(', dm(n))][0]
def cons(x, y): return x if y else bnot(x)
def field(o, cls, name): return S('%s@%d' % (o, prog().off(cls, name)))
def argument(j): return ('*', 'ARGV', scale(j, Fraction(8)))
def text_at(j): return leaf(patom(atom('load', argument(j), ZERO)))    # as unver() writes it
def char_at(j): return leaf(patom(atom('load', argument(j), ZERO)))
def lt(a, b, y): return [cons(vcmp('<', a, b), y), cons(bnot(vcmp('>=', a, b)), y)] + ([bnot(eqs(a, b)), bnot(vcmp('>', a, b)), vcmp('<=', a, b)] if y else [])
def positive(k, y): return [cons(vcmp('>', k, N(0)), y), cons(bnot(ok0(k)), y), cons(bnot(vcmp('<', k, N(1))), y), cons(eqs(k, N(1)), y)]
def at_counter(q, k):
    y = q.args[3]; y = y.v if isinstance(y, Leaf) else y; return isinstance(y, Poly) and y is (k if isinstance(k, Poly) else psym(k))
class Round:
    """one round of the loop over the arguments, in terms of the number m of the recurrence that finds the argument"""
    def __init__(s, M, shift): s.M, s.shift = M, shift
    def __call__(s, v): return tmap(unver(v), lambda a: leaf(psym('m')) if a is s.M else None)
def parsing(c):
    x = Tx(c, 'CLineParser::ParseCommandLine', [P_('THIS'), S('argc'), P_('ARGV')], ENT, extra=mapped(), loops=True, p=prog(), virt=VIRT()); r = x.r; t = x.t; o = lambda n: prog().off('CLineParser', n); oo = lambda n: prog().off('OptionObject', n)
    pu = x.of('push'); at = lambda q: [y for y in leaves(q) if isinstance(y, Ptr)]
    def dest(z):
        q = at(z[2][0]); return (q[0].obj, int(numval(q[0].off))) if len(q) == 1 and is_num(q[0].off) else None
    plain = [(z, e) for z, e in pu if dest(z) == ('THIS', o('argStrings'))]; targ = [(z, e) for z, e in pu if dest(z) == ('OPTION', oo('targetStrings'))]
    if not r.ob(len(plain) >= 1 and all(len(e.loops) == 1 for z, e in plain), 'arguments', None, 'plain arguments are not stored in the loop over the arguments'): return
    e0 = plain[0][1]; k = e0.loops[0][0]; w0 = unver(plain[0][0][4]); a = strs.atom1(w0.v) if isinstance(w0, Leaf) and isinstance(w0.v, Poly) else None
    ob = a.args[0] if a is not None and a.kind == 'load' else None
    if not r.ob(isinstance(ob, tuple) and ob[:2] == ('*', 'ARGV'), 'arguments', e0, 'what is stored as an argument is %s' % show(plain[0][0][4])): return
    J = scale(ob[2] if isinstance(ob[2], Poly) else num(ob[2]), Fraction(1, 8)); ats = [q for q in terms_in(leaf(J)) if q.kind == 'mu' and q.args[0] == 'rec' and at_counter(q, k)]
    if not r.ob(len(ats) == 1, 'next', e0, 'which argument is read does not follow from the ones before'): return
    M = ats[0]; sh = add(J, scale(patom(M), Fraction(-1)))
    if not r.ob(is_num(sh), 'next', e0, 'which argument is read is %s' % show(leaf(J))): return
    sh = int(numval(sh)); V = Round(M, sh); j = add(psym('m'), num(sh)); jv = leaf(j)
    r.ob(isinstance(M.args[1], Leaf) and same(vadd(M.args[1], N(sh)), N(1)) or isinstance(M.args[1], Poly) and same(leaf(add(M.args[1], num(sh))), N(1)), 'first', e0, 'the first argument read is not the one after the name of the program', sample=('first', '1'))
    nxt = vadd(subst(M.args[2] if isinstance(M.args[2], (Leaf, Node)) else leaf(M.args[2]), {'#u1': leaf(psym('m'))}), N(sh))
    word = text_at(j); first = char_at(j); B = vfn('bare', word); one = vfn('piece', B, lit('='), N(0)); two = vfn('piece', B, lit('='), N(1)); K = vfn('known', one); np = vfn('pieces#', B, lit('='))
    dash = lambda y: [cons(eqs(first, N(45)), y)] + starts(word, '-', y) + ([bnot(eqs(word, strs.EMPTY))] if y else [])
    size = vfn('str:size', B)
    empty = lambda y: [cons(eqs(B, strs.EMPTY), y), cons(ok0(size), y), cons(vcmp('<', size, N(1)), y), cons(vcmp('<=', size, N(0)), y)]
    known = lambda y: positive(K, y)
    flag = lambda y: [cons(bnot(ok0(field('OPTION', 'OptionObject', 'isFlag'))), y)]
    cut = lambda y: [cons(vcmp('>', np, N(1)), y), cons(bnot(vcmp('<', np, N(2))), y), cons(bnot(eqs(np, N(1))), y)] + ([] if y else [eqs(np, N(1))])
    inr = lt(jv, S('argc'), True) + lt(leaf(add(j, num(-1))), vadd(S('argc'), N(-1)), True); room = lambda y: lt(leaf(add(j, num(1))), S('argc'), y) + ([] if y else [eqs(leaf(add(j, num(1))), S('argc'))])
    opt = dash(True) + empty(False); ign = field('THIS', 'CLineParser', 'ignoreUnrecognized')
    quiet = [ok0(field('THIS', 'CLineParser', 'verboseLevel')), bnot(vcmp('>', field('THIS', 'CLineParser', 'verboseLevel'), N(1)))]
    outs = loops_out(t).get(k, []); said = stderr_said(t)
    for z, e in x.of('look') + x.of('at'): r.ob(same(V(z[4]), one), 'name', e, 'the option looked for is %s instead of the text before the equals sign' % show(V(z[4])), sample=('name looked for', show(V(z[4]))))
    cases = {'a plain argument': (dash(False), 1, {'arg': word}), 'a flag': (opt + known(True) + flag(True), 1, {'flag': N(1)}), 'an option with an equals sign': (opt + known(True) + flag(False) + cut(True), 1, {'target': two, 'set': N(1)}),
             'an option with its text next': (opt + known(True) + flag(False) + cut(False) + room(True), 2, {'target': text_at(add(j, num(1))), 'set': N(1)}), 'an unknown option that is to be ignored': (opt + known(False) + [bnot(ok0(ign)), cons(eqs(ign, N(1)), True)], 1, {})}
    bad = {'nothing but dashes': dash(True) + empty(True), 'an option without its text': opt + known(True) + flag(False) + cut(False) + room(False), 'an unknown option that is an error': opt + known(False) + [ok0(ign)]}
    KEY = lambda nm: nm.replace(' ', '_')
    st = [(e, q) for n, e, q in t.stores(lambda ob_: ob_ in ('THIS', 'OPTION'))]
    for nm, (cs, step, want) in cases.items():
        U = lambda v: under(V(v), *inr, *cs, *quiet); got = {}
        def act(w, e, v):
            pc = U(e.pc)
            if pc is FALSE: return
            r.ob(pc is TRUE and len(e.loops) == 1, KEY(nm) + ':' + w, e, 'on %s something is only done sometimes (%s)' % (nm, show(pc)))
            r.ob(w not in got or w in ('flag', 'set', 'some'), KEY(nm) + ':' + w, e, 'on %s it is done twice' % nm); got[w] = U(v)
        for z, e in x.of('clear'):
            if dest(z) in (('THIS', o('argStrings')), ('OPTION', oo('targetStrings'))): act('cleared', e, N(0))
        for z, e in pu: act('arg' if (z, e) in plain else 'target' if (z, e) in targ else 'other', e, z[4] if isinstance(z[4], (Leaf, Node)) else N(0))
        seen = False
        for e, q in st:
            f = (q.obj, int(numval(q.off))) if is_num(q.off) else None
            if f == ('THIS', o('commandLineEmpty')):
                if e.loops: seen = seen or U(e.pc) is TRUE and same(U(e.val), N(0))
                else: seen = seen or under(unver(e.pc), vcmp('>', S('argc'), N(1)), bnot(vcmp('<=', S('argc'), N(1))), bnot(vcmp('<', S('argc'), N(2)))) is TRUE and same(e.val, N(0))
                r.ob(same(e.val, N(0)) or e.val is FALSE or same(U(e.val), N(0)), 'empty', e, 'a command line with arguments is said to be empty'); continue
            act({('OPTION', oo('flagSet')): 'flag', ('OPTION', oo('targetSet')): 'set'}.get(f, 'other'), e, e.val)
        r.ob(seen, KEY(nm) + ':some', None, 'with %s the command line still counts as empty' % nm, sample=(nm, 'not empty'))
        r.ob(sorted(got) == sorted(want), KEY(nm), e0, 'on %s: %s instead of %s' % (nm, ', '.join(sorted(got)) or 'nothing', ', '.join(sorted(want)) or 'nothing'), sample=(nm, ', '.join(sorted(want)) or 'nothing'))
        for w in want:
            if w in got: g = got[w]; g = N(1) if g is TRUE else g; r.ob(same(g, want[w]), KEY(nm) + ':' + w, e0, 'on %s what is stored is %s instead of %s' % (nm, show(g), show(want[w])), sample=(nm, show(g)))
        g = under(nxt, *inr, *cs); r.ob(same(g, leaf(add(j, num(step)))), KEY(nm) + ':next', e0, 'after %s the argument read next is %s' % (nm, show(g)), sample=(nm + ': next', show(g)))
        for al, cond in outs: g = U(cond); r.ob(g is FALSE, KEY(nm) + ':goes_on', e0, 'reading stops at %s: %s' % (nm, show(g)), sample=(nm, 'goes on'))
        c.count('kinds of argument')
    for nm, cs in bad.items():
        hit = []
        for al, cond in outs:
            g = under(V(cond), *inr, *cs, *quiet)
            if g is FALSE: continue
            hit.append(g); v = under(t.val, *al); r.ob(g is TRUE and same(v, N(-1)), KEY(nm), e0, 'with %s the result is %s (%s)' % (nm, show(v), show(g)), sample=(nm, 'result -1'))
            s_ = under(V(said), *al, *inr, *cs, *quiet); r.ob(s_ is TRUE, KEY(nm) + ':said', e0, 'nothing is said about %s: %s' % (nm, show(s_)), sample=(nm, 'said'))
        r.ob(len(hit) == 1, KEY(nm), e0, 'reading does not stop at %s' % nm, sample=(nm, 'stops'))
        c.count('kinds of argument')
    past = lt(jv, S('argc'), False) + [eqs(jv, S('argc'))] + lt(leaf(add(j, num(-1))), vadd(S('argc'), N(-1)), False); hit = []
    for al, cond in outs:
        g = under(V(cond), *past)
        if g is not FALSE: hit.append(g); r.ob(g is TRUE and same(under(t.val, *al), N(0)), 'end', e0, 'after the last argument the result is %s' % show(under(t.val, *al)), sample=('after the last argument', '0'))
    r.ob(len(hit) == 1, 'end', e0, 'reading does not end after the last argument')
def adding(c):
    P = prog(); o = lambda n: P.off('CLineParser', n); oo = lambda n: P.off('OptionObject', n)
    for kind, fl, qu in (('AddFlag', 1, 0), ('AddOption', 0, 0), ('AddQueueOption', 0, 1)):
        for two in (False, True):
            mem = {('A', 0): T('short'), ('B', 0): T('long')}
            x = Tx(c, 'CLineParser::' + kind, [P_('THIS'), P_('A')] + [P_('B')] * two, mem, extra=mapped(True), p=P, virt=VIRT()); r = x.r; t = x.t; objs = []; K = kind + ('2' if two else '')
            for nm in ['short', 'long'][:1 + two]:
                v = t.m.load(t.out, Ptr(('ENTRY', T(nm).id), ZERO), ir.PTR); q = [y for y in leaves(v) if isinstance(y, Ptr)]
                if r.ob(isinstance(v, Leaf) and len(q) == 1 and is_num(q[0].off) and 'ENTRY' not in str(q[0].obj), K + ':' + nm, None, 'the %s name does not get an option of its own: %s' % (nm, show(v)), sample=(K, nm + ' name')): objs.append(q[0])
            for z, e in x.of('at'): r.ob(any(same(z[4], T(nm)) for nm in ['short', 'long'][:1 + two]), K + ':names', e, 'the name added is %s' % show(z[4]))
            if len(objs) < 1 + two: continue
            r.ob(len(set((str(q.obj), q.off.id) for q in objs)) == 1, K + ':same', None, 'the two names belong to different options', sample=(K, 'one option'))
            for f, w in (('isFlag', fl), ('isQueue', qu), ('flagSet', 0), ('targetSet', 0)):
                g = t.m.load(t.out, Ptr(objs[0].obj, num(oo(f))), ir.INT(8)); r.ob(same(g, N(w)) or g is (TRUE if w else FALSE), K + ':' + f, None, '%s of a new option is %s' % (f, show(g)), sample=('%s: %s' % (K, f), w))
            c.count('ways to add an option')
def asking(c):
    P = prog(); o = lambda n: P.off('CLineParser', n); oo = lambda n: P.off('OptionObject', n); mem = {**ENT, ('NM', 0): T('name')}
    kn = vfn('known', T('name')); yes, no = positive(kn, True), positive(kn, False)
    def vec(ob, off, n):                                           # element n of the vector of texts there
        return lambda q: isinstance(q, Ptr) and q.obj == ('*', ob, num(off)) and same(leaf(q.off), leaf(scale(psym(n), Fraction(32))))
    def count_of(ob, off):
        a, b = (leaf(Ptr(('*', ob, num(off + d)), ZERO)) for d in (0, 8)); return a, b
    for name, args, want in (('FlagSet', [P_('NM')], field('OPTION', 'OptionObject', 'flagSet')), ('OptionSet', [P_('NM')], field('OPTION', 'OptionObject', 'targetSet')), ('CommandLineEmpty', [], field('THIS', 'CLineParser', 'commandLineEmpty'))):
        x = Tx(c, 'CLineParser::' + name, [P_('THIS')] + args, mem, extra=mapped(), p=P, virt=VIRT()); v = unver(x.t.val); r = x.r; truth = lambda z: bnot(ok0(z)) if not (z is TRUE or z is FALSE) else z
        g = under(v, *yes) if args else v; w = [truth(want), bnot(truth(want))]
        r.ob(under(truth(g), truth(want)) is TRUE and under(truth(g), ok0(want)) is FALSE, name, None, 'the answer is %s' % show(g), sample=(name, show(g)))
        if args: g = under(v, *no); r.ob(g is FALSE or same(g, N(0)), name + ':unknown', None, 'the answer for an unknown name is %s' % show(g), sample=(name + ': unknown name', show(g)))
        for z, e in x.of('look') + x.of('at'): r.ob(same(z[4], T('name')), name + ':name', e, 'the name asked for is %s' % show(z[4]))
        for n, e, q in x.t.stores(lambda ob: ob in ('THIS', 'OPTION')): r.ob(False, name + ':changes', e, 'asking changes the answer')
        c.count('questions')
    for name, args, ob, off in (('GetTargetString', [P_('NM'), S('n')], 'OPTION', oo('targetStrings')), ('GetArgument', [S('n')], 'THIS', o('argStrings'))):
        m2 = dict(mem); m2[(ob, off)] = P_('TEXTS'); m2[(ob, off + 8)] = leaf(Ptr('TEXTS', scale(psym('ntexts'), Fraction(32))))
        x = Tx(c, full('CLineParser::' + name), [P_('THIS')] + args, m2, extra=mapped(), p=P, virt=VIRT()); v = under(unver(x.t.val), *yes); x.r.ob(same(v, leaf(Ptr('TEXTS', scale(psym('n'), Fraction(32))))), name, None, 'the text number n is %s' % show(v), sample=(name, show(v)))
        for z, e in x.of('look') + x.of('at'): x.r.ob(same(z[4], T('name')), name + ':name', e, 'the name asked for is %s' % show(z[4]))
        c.count('questions')
    for name, args, ob, off in (('GetNTargets', [P_('NM')], 'OPTION', oo('targetStrings')), ('nArguments', [], 'THIS', o('argStrings'))):
        m2 = dict(mem); m2[(ob, off)] = P_('TEXTS'); m2[(ob, off + 8)] = leaf(Ptr('TEXTS', scale(psym('ntexts'), Fraction(32))))
        x = Tx(c, full('CLineParser::' + name), [P_('THIS')] + args, m2, extra=mapped(), p=P, virt=VIRT()); v = under(unver(x.t.val), *yes); x.r.ob(same(v, S('ntexts')), name, None, 'the number of texts is %s' % show(v), sample=(name, show(v)))
        c.count('questions')
    x = Tx(c, 'CLineParser::UnrecognizedAreErrors', [P_('THIS')], mem, p=P); g = x.t.m.load(x.t.out, Ptr('THIS', num(o('ignoreUnrecognized'))), ir.INT(8)); x.r.ob(same(g, N(0)) or g is FALSE, 'UnrecognizedAreErrors', None, 'unknown options are still ignored', sample=('UnrecognizedAreErrors', 'errors'))
    x = Tx(c, 'CLineParser::CLineParser', [P_('THIS')], {}, extra=mapped(), p=P, virt=VIRT())
    for f, w in (('ignoreUnrecognized', 1), ('commandLineEmpty', 1)):
        g = x.t.m.load(x.t.out, Ptr('THIS', num(o(f))), ir.INT(8)); x.r.ob(same(g, N(w)) or g is (TRUE if w else FALSE), f, None, '%s starts as %s' % (f, show(g)), sample=(f, w))
    c.count('questions', 2)
def texts(c):
    """dashes taken off, texts cut at separators, texts that are numbers"""
    x = Tx(c, 'StripLeadingDashes', [P_('L')], {('L', 0): T('text')}, p=prog()); v = x.t.m.load(x.t.out, Ptr('L', ZERO), ir.DOUBLE); A = vfn('str:find_first_not_of', T('text'), lit('-'), N(0)); npos = [eqs(A, N(-1))]; some = [bnot(z) for z in npos] + [bnot(eqs(T('text'), strs.EMPTY))]
    g = under(v, *some); x.r.ob(any(same(g, w) for w in (vfn('substr', T('text'), A, N(-1)), )), 'dashes', None, 'a text becomes %s' % show(g), sample=('without leading dashes', show(g)))
    for cs in ([eqs(T('text'), strs.EMPTY)] + npos, npos + [bnot(eqs(T('text'), strs.EMPTY))]): g = under(v, *cs); x.r.ob(same(g, strs.EMPTY) or same(under(g, *cs), strs.EMPTY) or same(g, T('text')) and cs[0] is eqs(T('text'), strs.EMPTY), 'dashes:none', None, 'a text of dashes only becomes %s' % show(g), sample=('only dashes', show(g)))
    cutting(c); numbers(c)
def cutting(c):
    s, d = T('text'), T('separators')
    x = Tx(c, 'SplitString', [P_('L'), P_('V'), P_('D')], {('L', 0): s, ('D', 0): d}, skip=('SplitString',), loops=True, p=prog()); r = x.r; t = x.t
    word = lambda at: vfn('str:find_first_not_of', s, d, at); sep = lambda at: vfn('str:find_first_of', s, d, at); A0 = word(N(0)); P0 = sep(A0)
    pu = x.of('push', 'V'); cl = x.of('clear', 'V'); none = [eqs(P0, N(-1))]; some = [bnot(z) for z in none]
    r.ob(any(e.pc is TRUE and not e.loops for z, e in cl), 'cleared', None, 'pieces of an earlier text are kept', sample=('pieces', 'emptied first'))
    whole = [(z, e) for z, e in pu if not e.loops]; inl = [(z, e) for z, e in pu if len(e.loops) == 1]
    al = [(z, e) for z, e in whole if under(unver(e.pc), *none) is not FALSE]
    r.ob(len(al) == 1 and under(unver(al[0][1].pc), *none) is TRUE and same(under(unver(al[0][0][4]), *none), s), 'whole', None, 'a text without a separator after its first word is not one piece', sample=('no separator', 'the text itself'))
    r.ob(all(under(unver(e.pc), *some) is FALSE for z, e in whole), 'whole', None, 'a text with separators is stored whole')
    if not r.ob(len(inl) == 1 and len(inl) + len(whole) == len(pu), 'pieces', None, 'the pieces of a text are not stored in one loop'): return
    z, e = inl[0]; k = e.loops[0][0]; kp = k if isinstance(k, Poly) else psym(k); S_ = lambda q: q if isinstance(q, (Leaf, Node)) else leaf(q)
    fs = [a for a in terms_in(unver(z[4])) if a.kind == 'fn' and a.args[0] == 'substr']
    if not r.ob(len(fs) == 1 and same(unver(z[4]), leaf(patom(fs[0]))) and same(S_(fs[0].args[1]), s), 'piece', e, 'a piece is %s' % show(unver(z[4]))): return
    A, ln = S_(fs[0].args[2]), S_(fs[0].args[3]); a = strs.atom1(A.v) if isinstance(A, Leaf) and isinstance(A.v, Poly) else None
    if not r.ob(a is not None and a.kind == 'mu' and a.args[0] == 'rec' and at_counter(a, k) and same(S_(a.args[1]), A0), 'first', e, 'the first piece starts at %s' % show(A)): return
    # a recurrence that starts at the end of the first piece and moves from the end of one piece to the end of the next one is the end of the piece
    def ends(q):
        if q.kind != 'mu' or q.args[0] != 'rec' or q is a: return None
        own = leaf(psym('#u1'))
        if same(S_(q.args[1]), P0) and same(S_(q.args[2]), sep(word(own))): return vfn('END', leaf(q.args[3]) if isinstance(q.args[3], Poly) else S_(q.args[3]))
        return None
    body = tmap(S_(a.args[2]), ends); us = [leaf(psym(y)) for y in syms(body) if y.startswith('#u')]; ms = [leaf(psym(y)) for y in syms(body) if y.startswith('#m')]
    ok = any(same(body, word(sep(u))) for u in us) or any(same(body, word(vfn('END', m))) for m in ms) or any(same(body, word(vadd(vfn('END', m), N(0)))) for m in ms)
    r.ob(ok, 'next', e, 'the next piece starts at %s' % show(body), sample=('next piece', 'the first character after the separators'))
    lnE = tmap(vadd(ln, A), ends); E1 = vfn('END', leaf(kp)); r.ob(same(lnE, E1) or same(vadd(ln, A), sep(A)), 'end', e, 'a piece ends at %s' % brief(lnE, 200), sample=('end of a piece', 'the next separator'))
    # the loop goes on while there is a piece
    U = lambda v, at: tmap(tmap(v, ends), lambda q: vfn('START') if q.kind == 'mu' and q is not a and same(S_(q.args[1]), A0) or q is a else None)
    tr = [q for q in terms_in(S_(e.loops[0][1])) if q.kind == 'trip']; pc = U(unver(e.pc), kp); st = vfn('START')
    fins = [q for q in terms_in(pc) if q.kind == 'fn' and q.args[0] in ('END',)] + []
    more = [bnot(eqs(st, N(-1)))]; less = [eqs(st, N(-1))] + [eqs(leaf(patom(q)), N(-1)) for q in fins] + [eqs(sep(st), N(-1))]
    conds = [U(S_(q.args[0]), '#k') for q in tr]
    def val(v, cs, last):
        cs = cs + [eqs(leaf(patom(q)), N(-1)) for q in terms_in(v) if q.kind == 'fn' and q.args[0] == 'END'] if last else cs
        return under(v, *cs)
    r.ob(len(conds) == 1 and all(val(v, more, False) is TRUE and val(v, less, True) is FALSE for v in conds), 'all', e, 'pieces are read while %s' % '; '.join(show(v) for v in conds), sample=('pieces', 'all of them'))
    r.ob(under(pc, *some, *more) is TRUE, 'stored', e, 'a piece is left out: %s' % show(pc))
    c.count('text helpers')
def digits(v):
    """character classes of known characters"""
    def f(q):
        if q.kind != 'fn' or len(q.args) != 2: return None
        n = str(q.args[0]).split(':')[-1]; y = q.args[1]
        if not (isinstance(y, Poly) and is_num(y)): return None
        ch = int(numval(y))
        if n == 'isdigit': return N(int(48 <= ch <= 57))
        if n == 'isspace': return N(int(ch in (9, 10, 11, 12, 13, 32)))
        return None
    return tmap(v, f)
KINDS = {'kAnyInt': 0, 'kNonzeroInt': 1, 'kPosInt': 2, 'kAnyReal': 3, 'kPosReal': 4}
def numbers(c):
    P = prog(); f = P.func('NotANumber', 3)
    for nm, kd in KINDS.items():
        def more(fr, i, a, m): return vfn('refused', a[1], a[2]) if same(a[0], P_('TXT')) else BOT, m
        x = Tx(c, 'NotANumber', [P_('TXT'), S('at'), N(kd)], extra=lambda tx: {f.name: more}, p=P); r = x.r; v = unver(x.t.val); ch = LD('TXT', psym('at')); ca = [q for q in terms_in(v) if q.kind == 'load']
        r.ob(all(same(leaf(patom(q)), ch) for q in ca) and ca, nm, None, 'looks at %s' % ', '.join(show(leaf(patom(q))) for q in ca))
        wrong = []
        for code in range(0, 128):
            g = digits(tmap(v, lambda q: N(code) if q.kind == 'load' else None)); g = N(1) if g is TRUE else N(0) if g is FALSE else g; on = lambda k: vfn('refused', leaf(add(psym('at'), num(1))), N(k))
            s = chr(code); dig = s.isdigit()
            ok = same(g, N(0)) if dig and not (nm == 'kPosInt' and s == '0') else same(g, on(kd)) if s == '-' and nm in ('kAnyInt', 'kAnyReal') else s == '-' and nm == 'kNonzeroInt' or (same(g, on(0)) if s == '.' and nm in ('kAnyReal', 'kPosReal') else same(g, N(1)))
            if not ok: wrong.append((s, show(g)))
        r.ob(not wrong, nm, None, 'characters %s' % wrong[:4], sample=(nm, 'digits accepted, other characters refused'))
        c.count('kinds of number')
    def tod(fr, i, a, m):
        m = m.copy()
        for q in leaves(a[1]):
            if isinstance(q, Ptr): m.d[(q.obj, int(numval(q.off)))] = P_('REST')
        return vfn('number', strs.chars(fr, a[0])), m
    x = Tx(c, 'IsNumeric', [P_('TXT')], skip=('IsNumeric', '@strtod'), extra=lambda tx: {'@strtod': tod, 'strtod': tod}, p=P); r = x.r; v = unver(x.t.val)
    first, rest = leaf(psym('TXT@0')), leaf(psym('REST@0')); ad = leaf(patom(atom('load', 'TXT', ZERO, 'addr')))
    def go(a, b):
        w = tmap(v, lambda q: N(a) if q.kind == 'load' and q.args[0] == 'TXT' and len(q.args) == 2 or q.kind == 'sym' and q.args[0] == 'TXT@0' else N(b) if q.kind == 'load' and q.args[0] == 'REST' or q.kind == 'sym' and q.args[0] == 'REST@0' else N(8) if q.kind == 'load' and q.args[-1] == 'addr' else None)
        w = digits(w); return N(1) if w is TRUE else N(0) if w is FALSE else w
    for a, b, want, msg in ((49, 0, 1, 'a number'), (45, 0, 1, 'a negative number'), (46, 0, 1, 'a number that starts with a point'), (43, 0, 1, 'a number with a plus sign'), (49, 97, 0, 'a number followed by a letter'), (49, 32, 0, 'a number followed by a blank'), (49, 44, 0, 'a number followed by a comma'), (97, 97, 0, 'a word'), (32, 0, 0, 'a blank before a number'), (9, 0, 0, 'a tab before a number'), (0, 0, 0, 'an empty text')):
        g = go(a, b); r.ob(isinstance(g, Leaf) and is_num(g.v) and (numval(g.v) != 0) == bool(want), msg.replace(' ', '_'), None, '%s is %s' % (msg, show(g)), sample=(msg, 'a number' if want else 'not a number'))
    c.count('text helpers', 2)
def C06():
    c = Check('C06', 'Value numbering of the command-line parser: one round of the loop over the arguments for every kind of argument, the options and flags it fills, the questions asked of them, and the helpers that cut and test texts.')
    parsing(c); adding(c); asking(c); texts(c)
    return c.finish()
TABLE = {'C06': C06}

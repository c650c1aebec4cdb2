"""what a function prints: calls of the stdio family as decision-diagram-guarded pieces of text"""
from . import build, strs, gsa
from .build import dm
from .cas import *
from .trace import *
from .checks_pipe import unver, under, paths_of
FAM = {'printf': (0, None), 'fprintf': (1, 0), 'puts': ('s', None), 'fputs': ('s', 1), 'putchar': ('c', None), 'putc': ('c', 1), 'fputc': ('c', 1), 'fwrite': ('w', 3), 'snprintf': (2, 'buf'), 'sprintf': (1, 'buf')}
class Fr: pass
class Out:
    __slots__ = ('e', 'n', 'pc', 'dest', 'val', 'name')
def outputs(t, strings=None):
    fr = Fr(); fr.m = t.m; out = []
    for n, e in enumerate(t.events):
        if e.kind != 'call' or not e.name: continue
        nm = dm(e.name).split('(')[0] if e.name.startswith('@') else e.name
        if nm not in FAM: continue
        how, d = FAM[nm]
        if d == 'buf': continue
        o = Out(); o.e, o.n, o.name = e, n, nm; a = list(e.args)
        o.dest = None if d is None else a[d]
        txt = lambda k: strs.chars(fr, a[k])
        if how == 's': o.val = strs.cat(txt(0), leaf(psym('"\n"'))) if nm == 'puts' else txt(0)
        elif how == 'c':
            o.val = leaf(psym('"%s"' % chr(int(numval(a[0].v))))) if isinstance(a[0], Leaf) and isinstance(a[0].v, Poly) and is_num(a[0].v) else vfn('fmt', leaf(psym('"%c"')), a[0])
        elif how == 'w': o.val = txt(0)
        else:
            o.val = vfn('fmt', txt(how), *[strs.arg_term(fr, None, x) for x in a[how + 1:]])
        o.pc = drop_loop_conds(unver(e.pc), e)
        out.append(o)
    return out
def said(outs, sub=None, conds=(), dest=None, quiet='(),:;[]'):
    """words printed in a case: [(words of one stretch, event, pc, loops)], one entry per printing call"""
    res = []
    for o in outs:
        pc = under(subst(o.pc, sub) if sub else o.pc, *conds)
        if pc is FALSE: continue
        if not dest_is(o.dest, dest, sub, conds): continue
        v = under(unver(subst(o.val, sub) if sub else o.val), pc, *conds)
        for path, l in paths_of(v):
            c = pc
            for b, q in path: c = band(c, node(b, TRUE, FALSE) if q else node(b, FALSE, TRUE))
            if c is FALSE: continue
            ps = strs.pieces(l) if isinstance(l, Poly) else [('?', l)]
            ps = [''.join(' ' if ch in quiet else ch for ch in x) if isinstance(x, str) else x for x in ps]
            res.append((ps, o, c))
    return res
def dest_is(v, want, sub, conds):
    if want == 'any': return True
    if v is None: return want is None
    v = under(unver(subst(v, sub) if sub else v), *conds)
    ls = leaves(v)
    if want is None: return any(isinstance(l, Ptr) and 'stdout' in repr(l.obj) for l in ls)
    return any(isinstance(l, Ptr) and l.obj == want for l in ls)
def words(parts):
    """one list of words from several stretches"""
    ps = []
    for p in parts: ps += p
    return strs.words(ps)
def find(ws, *label):
    """indices just after each occurrence of the label"""
    k = len(label)
    return [i + k for i in range(len(ws) - k + 1) if tuple(w for w in ws[i:i + k]) == label]

"""C04: what the main programs do with what they read: model setup, offsets, fit, saved files."""
import re
from fractions import Fraction
from . import build, ir, gsa, cas, trace, strs
from .build import AnalysisError, dm
from .cas import *
from .report import Check, loc
from .trace import *
from .checks_pipe import Rule, unver, same, under, OPAQUE_VOID, MO, atoms_of
from .checks_setup import prog, MAINS, PROGRAMS, onz, no, conj, lt0, ENDS, forget, literal_of

def vecp(name, n, size): return {0: leaf(Ptr(name, ZERO)), 8: leaf(Ptr(name, scale(psym(n), Fraction(size)))), 16: leaf(Ptr(name, scale(psym(n), Fraction(size))))}
class Main:
    """the trace of one main(), with every step it calls replaced by named results"""
    def __init__(s, prg, src=None):
        s.p = p = prog(MAINS[prg], 'core/model_object.cpp'); f = p.func('main'); s.prg = prg
        s.F = p.fields(PROGRAMS[prg][0])[0]
        s.rec = []
        s.mp = p.fields('mp_par_struct')[0] if prg != 'makeimage' else {}
        H = {'ProcessInput': s.options, 'HandleConfigFileOptions': s.record('HandleConfigFileOptions'), 'RequestedFilesPresent': s.record('RequestedFilesPresent', ret=bnot(vcmp('==', S('filesPresent'), N(0)))),
             'MakeOutputHeader': OPAQUE_VOID}
        V = {'functionList': ('functionList', 'n:functions', 32), 'labels': ('labels', 'n:functions', 32), 'parameterList': ('parameterList', 'n:parameters', 8), 'parameterInfo': ('parameterInfo', 'n:parameters', 88), 'setIndices': ('setIndices', 'n:sets', 4), 'optionalParams': ('optionalParams', 'n:functions', 48)}
        names = ['functionList', 'labels', 'parameterList', 'parameterInfo', 'setIndices', None, None, 'optionalParams'] if prg != 'makeimage' else ['functionList', 'labels', 'parameterList', 'setIndices', None, 'optionalParams']
        outs = {2 + k: vecp(*V[n]) for k, n in enumerate(names) if n}
        if prg != 'makeimage': outs[7] = {0: S('limitsExist')}
        H['ReadConfigFile'] = s.record('ReadConfigFile', 's', S('st.config'), outs)
        H['ReadImageAsVector'] = s.record('ReadImageAsVector', 's', leaf(Ptr('IMG', ZERO)), {1: {0: S('nCols')}, 2: {0: S('nRows')}})
        H['DetermineImageOffset'] = s.record('DetermineImageOffset', '.s', None, {0: {4: S('X0'), 0: S('Y0')}})
        H['GetMaskAndErrorImages'] = s.record('GetMaskAndErrorImages', '.vvss', None, {0: {16: leaf(Ptr('MASK', ZERO)), 8: leaf(Ptr('ERR', ZERO)), 0: S('st.mask')}, 5: {0: S('maskAllocated')}, 6: {0: S('errAllocated')}})
        H['GetPsfImage'] = s.record('GetPsfImage', '.s', None, {0: {16: leaf(Ptr('PSF', ZERO)), 8: S('psfCols'), 4: S('psfRows'), 0: S('st.psf')}})
        H['GetImageSize'] = s.record('GetImageSize', '.s', None, {0: {8: S('nCols'), 4: S('nRows'), 0: S('st.size')}})
        H['GetOversampledPsfInfo'] = s.record('GetOversampledPsfInfo', '', S('st.over'), {3: vecp('OVER', 'n:over', 8)})
        H['SetupModelObject'] = s.record('SetupModelObject', '', leaf(Ptr('MODEL', ZERO)))
        H['AddFunctions'] = s.record('AddFunctions', '', S('st.functions'))
        H['DispatchToSolver'] = s.record('DispatchToSolver', '...........s', S('st.fit'))
        H['BootstrapErrors'] = s.record('BootstrapErrors', '', S('n:bootstrap'))
        for k in ('PrintResults', 'PrintFitStatistic', 'SaveParameters2', 'DetermineFluxes', 'dream', 'SetupDreamParams', 'SetHeaderDreamParams', 'FreeVarsDreamParams', 'signal'): H[k] = s.record(k, '', BOT)
        H['SaveParameters'] = s.record('SaveParameters', '..s', BOT)
        H['SaveVectorAsImage'] = s.record('SaveVectorAsImage', '.s', S('st.save'))
        H['PrepareImageComments'] = s.record('PrepareImageComments', '.ss.s.s', BOT)
        H['EstimateMemoryUse'] = H['EstimatePsfOversamplingMemoryUse'] = lambda fr, i, a, m: (S('memory'), m)
        H['SolverResults::SolverResults'] = OPAQUE_VOID
        m = dict(GetNParams=S('n:params'), GetNValidPixels=S('nValid'), GetNDataValues=S('nData'), GetNFunctions=S('nFunctions'), FinalSetupForFitting=S('st.setup'), WhichFitStatistic=S('whichStat'), GetModelImageVector=leaf(Ptr('modelImage', ZERO)), GetExpandedModelImageVector=leaf(Ptr('expandedImage', ZERO)),
                 GetResidualImageVector=leaf(Ptr('residualImage', ZERO)), GetWeightImageVector=leaf(Ptr('weightImage', ZERO)), GetSingleFunctionImage=leaf(Ptr('functionImage', ZERO)))
        for k, v in m.items(): H['virt:' + k] = H[MO + '::' + k] = s.record(k, '', v)
        for k in ('PrintDescription', 'PrintInputImage', 'AddParameterInfo', 'AddImageOffsets', 'CreateModelImage', 'PrintModelImage', 'PrintModelParamsToStrings'): H['virt:' + k] = H[MO + '::' + k] = s.record(k, '', BOT)
        H['virt:GetFunctionNames'] = H[MO + '::GetFunctionNames'] = s.record('GetFunctionNames', '', BOT, {1: vecp('functionNames', 'nFunctions', 32)})
        H['virt:GetFunctionLabels'] = H[MO + '::GetFunctionLabels'] = s.record('GetFunctionLabels', '', BOT, {1: vecp('functionLabels', 'nFunctions', 32)})
        def pname(fr, i, a, mem): return apply(lambda n: leaf(Ptr(('name', n), ZERO)), fresh('pn'), a[1]), mem
        def header(fr, i, a, mem):
            mem = mem.copy(); strs.put(fr, mem, a[0], S('paramHeader')); return BOT, mem
        for q in ('GetParameterName', 'GetParameterName[abi:cxx11]'): H['virt:' + q] = H[MO + '::' + q] = pname
        for q in ('GetParamHeader', 'GetParamHeader[abi:cxx11]'): H['virt:' + q] = H[MO + '::' + q] = header
        s.V = V
        s.t = Trace(p, f, None, args=[S('argc'), ptr('ARGV')], hooks=H, virt=p.virt([(lambda o: o == 'MODEL', MO, True)]), strings=True)
    def options(s, fr, i, args, mem):
        q = fr.m.load(mem, args[-1].v, ir.PTR).v; mem = mem.copy()
        b = int(numval(q.off)); s.opt = (q.obj, b)
        for k in [k for k in mem.d if k[0] == q.obj]: del mem.d[k]
        for n, o in s.F.items(): mem.d[(q.obj, b + o)] = S('opt.' + n)
        s.rec.append(('ProcessInput', list(args), fr.m.events[-1], mem)); return BOT, mem
    def record(s, name, kinds='', ret=BOT, outs=None):
        def h(fr, i, args, mem):
            a = [strs.get(fr, mem, x) if k < len(kinds) and kinds[k] == 's' else x for k, x in enumerate(args)]
            ev = [e for e in reversed(fr.m.events) if e.kind == 'call' and e.inst is i][0]
            s.rec.append((name, a, ev, mem))
            mem = mem.copy()
            for k, d in (outs or {}).items():
                if k >= len(args) or not isinstance(args[k], Leaf) or not isinstance(args[k].v, Ptr): continue
                q = args[k].v; b = int(numval(q.off))
                for o, v in d.items(): mem.d[(q.obj, b + o)] = v
            return (ret if ret is not None else BOT), mem
        return h
def ptr(n): return leaf(Ptr(n, ZERO))

# ------------------------------------------------------------------ C04
from .checks_pipe import paths_of, LD
FITMAINS = ('imfit', 'imfit-mcmc')
def isname(k, n): return vcmp('==', leaf(psym('"%s"' % n)), LD(('name', k)))
def eqv(a, b): return a is b or band(a, bnot(b)) is FALSE and band(b, bnot(a)) is FALSE
def along(v, cond):
    """v restricted to each way cond can come true"""
    out = []
    for path, l in paths_of(cond):
        if l is not True and l != 1: continue
        x = v
        for b, q in path:
            if isinstance(x, (Node, Leaf)): x = restrict(x, b, q)
        out.append((path, x))
    return out
def pinned(v, path):
    """v with the atoms that the conditions fix to a number replaced by it"""
    known = {}
    for b, q in path:
        if b.args[0] == '==' and q and isinstance(b.args[1], Poly):
            ts = b.args[1].terms
            at = [(m[0][0], c) for m, c in ts if len(m) == 1 and m[0][1] == 1]; k = [c for m, c in ts if not m]
            if len(at) == 1 and len(at) + len(k) == len(ts): known[at[0][0]] = N(-(k[0] if k else 0) / at[0][1])
    return tmap(v, lambda a: known.get(a)) if known and isinstance(v, (Node, Leaf)) else v
class Steps(Rule):
    def __init__(s, c, M):
        Rule.__init__(s, c, M.t, M.prg); s.M = M; s.by = {}
        for r in M.rec: s.by.setdefault(r[0], []).append(r)
        s.main = M.p.func('main')
        adr = lambda n: leaf(patom(atom('load', n, ZERO, 'addr')))
        s.succ = conj(bnot(vcmp('==', S('filesPresent'), N(0))), vcmp('==', S('st.config'), N(0)), bnot(vcmp('==', adr('IMG'), N(0))), *[bnot(lt0(S('st.' + k))) for k in ('mask', 'psf', 'over', 'functions', 'setup')], vcmp('==', S('st.size'), N(0)), vcmp('==', S('n:params'), S('n:parameters')), vcmp('>', S('n:params'), N(0)))
    def asked(s, r, cond, exact=True):
        """the step happens when cond holds and nothing failed before; exact: and otherwise only where the program has ended"""
        w = s.when(r)
        if band(band(cond, s.succ), bnot(w)) is not FALSE: return False
        if not exact or band(w, bnot(cond)) is FALSE: return True
        over = band(w, bnot(cond))
        for e in s.t.events:
            if e.kind == 'call' and e.name and dm(e.name).split('(')[0] in ENDS and not s.reaches(r[2], e): over = band(over, bnot(unver(drop_loop_conds(e.pc, e))))
        return over is FALSE
    def when(s, rec): return unver(drop_loop_conds(rec[2].pc, rec[2]))
    def has(s, v, want, cond):
        """v equals want whenever cond holds; want: a term or a predicate on leaf values"""
        for path, x in along(unver(v) if isinstance(v, (Node, Leaf)) else v, band(cond, s.succ)):
            if callable(want):
                if not all(want(l) for l in leaves(x)): return False
            else:
                w = want
                for b, q in path:
                    if isinstance(w, Node): w = restrict(w, b, q)
                if not same(x, w): return False
        return True
    def vec(s, rec, k, name, cond):
        """argument k is (a copy of) the vector `name`"""
        v = rec[1][k]
        if not isinstance(v, Leaf) or not isinstance(v.v, Ptr) or not is_num(v.v.off): return False
        q = v.v; o = int(numval(q.off)); n, cnt, size = ('OVER', 'n:over', 8) if name == 'over' else s.M.V[name]
        a, b = rec[3].d.get((q.obj, o)), rec[3].d.get((q.obj, o + 8))
        if a is None or b is None: return False
        return s.has(a, lambda l: isinstance(l, Ptr) and l.obj == n and l.off is ZERO, cond) and s.has(b, lambda l: isinstance(l, Ptr) and l.obj == n and l.off is scale(psym(cnt), Fraction(size)), cond)
    def options(s, rec, k):
        v = rec[1][k]
        if not isinstance(v, Leaf) or not isinstance(v.v, Ptr): return False
        a = rec[3].d.get((v.v.obj, int(numval(v.v.off))))
        return a is not None and all(isinstance(l, Ptr) and l.obj == s.M.opt[0] for l in leaves(a))
    def one(s, name, cond, nth=None, key=None, exact=True):
        """the call of a step, made exactly when cond holds"""
        key = key or name
        l = s.by.get(name, [])
        if nth is not None: l = [r for r in l if nth(r)]
        live = [r for r in l if s.when(r) is not FALSE]
        if not s.ob(live, key, None, '%s is never reached' % key): return None
        if not s.ob(len(live) == 1, key + ':twice', live[-1][2], '%s happens %d times' % (key, len(live))): return None
        r = live[0]; w = s.when(r)
        s.ob(s.asked(r, cond, exact), key + ':when', r[2], '%s happens when %s' % (key, brief(w, 260)), sample='%s exactly when %s' % (key, brief(cond, 120)))
        s.c.count('steps of main')
        return r
    def args(s, r, cond, key, **want):
        """want: a<k>=term or predicate, v<k>=vector name, o<k>=options"""
        if r is None: return
        for a, w in want.items():
            kind, rest = a[0], a[1:]; k = int(rest.split('_')[0]); nm = rest.split('_', 1)[1] if '_' in rest else 'argument %d' % (k + 1)
            if k >= len(r[1]): s.ob(False, '%s:%s' % (key, nm), r[2], '%s gets no %s' % (key, nm)); continue
            ok = s.vec(r, k, w, cond) if kind == 'v' else s.options(r, k) if kind == 'o' else s.has(r[1][k], w, cond)
            s.ob(ok, '%s:%s' % (key, nm), r[2], '%s gets the wrong %s: %s' % (key, nm, brief(unver(r[1][k]), 200)), sample='%s: %s' % (key, nm)); s.c.count('step arguments')
    def fails(s, what, F, cond, *before):
        """when F holds (and cond), the program ends before the steps named"""
        F = band(cond, F); ev = []
        for e in s.t.events:
            if e.kind == 'call' and e.name and dm(e.name).split('(')[0] in ENDS:
                p = unver(drop_loop_conds(e.pc, e))
                if band(p, F) is not FALSE: ev.append((e, p))
        for b in before:
            for r in s.by.get(b, []):
                w = s.when(r)
                if band(w, F) is FALSE: continue
                end = FALSE
                for e, p in ev:
                    if not s.reaches(r[2], e): end = bor(end, p)
                s.ob(band(F, bnot(end)) is FALSE, '%s:stops' % what, r[2], 'when %s the program carries on to %s' % (what, b), sample='%s: the program stops' % what); s.c.count('failures')
    def reaches(s, a, b):
        """a's block can be followed by b's"""
        if a.fn is not b.fn or a.fn.name != s.main.name: return False
        f = a.fn.body(); A, B = block_of(f, a.inst), block_of(f, b.inst)
        if A is None or B is None or A is B: return False
        seen = {A.name}; todo = [A]; byname = {x.name: x for x in f.blocks}
        while todo:
            x = todo.pop()
            for n in x.succs:
                n = n if isinstance(n, str) else n.name
                if n == B.name: return True
                if n not in seen: seen.add(n); todo.append(byname[n])
        return False
def block_of(f, inst):
    for b in f.blocks:
        if any(i is inst for i in b.insts): return b
    return None

def str_is(n): return leaf(psym('opt.' + n))
def P_(n): return leaf(Ptr(n, ZERO))
def isptr(n): return lambda l: isinstance(l, Ptr) and l.obj == n and l.off is ZERO
def truth(c): return c
def pushed(r, rec, k):
    """values in the vector passed as argument k, filled by push_back or from an initialiser list"""
    M = r.M; v = rec[1][k]
    if not isinstance(v, Leaf) or not isinstance(v.v, Ptr): return None
    q = v.v.obj; evs = r.t.events; end = evs.index(rec[2]); out = []
    src = [q]
    for e in reversed(evs[:end]):           # copies of the vector
        if e.kind == 'call' and e.name and re.match(r'std::vector<int, .*::vector\(std::vector', dm(e.name)) and e.args and isinstance(e.args[0], Leaf) and isinstance(e.args[0].v, Ptr) and e.args[0].v.obj == src[-1] and isinstance(e.args[1].v, Ptr): src.append(e.args[1].v.obj)
    for e in evs[:end]:
        if e.kind != 'call' or not e.name or not e.args or not isinstance(e.args[0], Leaf) or not isinstance(e.args[0].v, Ptr) or e.args[0].v.obj not in src: continue
        d = dm(e.name)
        if re.search(r'::(push_back|emplace_back)', d): out.append(e.val)
        elif 'clear' in d: out = []
    if out: return out
    a = rec[3].d.get((q, int(numval(v.v.off))))
    if isinstance(a, Leaf) and isinstance(a.v, Ptr):
        vals = [rec[3].d.get((a.v.obj, int(numval(a.v.off)) + 4 * i)) for i in range(4)]
        if all(x is not None for x in vals): return vals
    return None

def param_loop(r, array, offs, cond, per, first):
    """element stores of `array` (an object) in a loop over all parameters: per(k, case) gives {offset: wanted value or None}"""
    n = psym('n:params'); size = {'parameterInfo': 88}.get(array, 8)
    pos = cond
    ev = [(i, e, q) for i, e, q in r.t.stores(lambda o: o == array)]
    end = r.t.events.index(first[2]) if first else len(r.t.events)
    got = {}
    for i, e, q in ev:
        if not e.loops: r.ob(False, '%s:loop' % array, e, '%s is changed outside the loop over the parameters' % show_obj(array)); continue
        k = e.loops[-1][0]; idx = scale(sub(q.off, num(int(numval(strip(q.off, k))))), Fraction(1, size)); o = int(numval(strip(q.off, k)))
        ok = idx is psym(k) and trip(under(e.loops[-1][1], cond)) is n and len(e.loops) == 1
        if not r.ob(ok, '%s:range' % show_obj(array), e, 'not every parameter is treated: element %s for %s iterations' % (brief(leaf(idx), 60), brief(e.loops[-1][1], 80))): continue
        if o not in offs and array == 'parameterInfo': r.ob(False, 'parameterInfo:%d' % o, e, 'changes something other than limits and offset of a parameter'); continue
        r.ob(i < end, '%s:order' % show_obj(array), e, 'is adjusted after it has been handed on', sample='%s final before it is used' % show_obj(array))
        got.setdefault(o, []).append((e, k))
    for o, nm in offs.items():
        for case in ('X0', 'Y0', 'other'):
            acc = FALSE; bad = None; vals = []
            for e, k in got.get(o, []):
                cs = [isname(psym(k), 'X0') if case == 'X0' else bnot(isname(psym(k), 'X0'))]
                if case != 'X0': cs.append(isname(psym(k), 'Y0') if case == 'Y0' else bnot(isname(psym(k), 'Y0')))
                else: cs.append(bnot(isname(psym(k), 'Y0')))
                pc = under(pc_main(e, n), *cs)
                if band(pc, cond) is FALSE: continue
                acc = bor(acc, pc); w = per(psym(k), o, case)
                v = under(unver(e.val), *cs, lt0(vsub(S(k), leaf(n))), vcmp('>', leaf(n), N(0)), bnot(vcmp('==', S(k), leaf(n))))
                ok = all(same(x, w) for _, x in along(v, band(cond, pc))) if w is not None else False
                r.ob(ok, '%s:%s:%s' % (show_obj(array), nm, case), e, 'the %s of %s becomes %s' % (nm, {'X0': 'an X0 parameter', 'Y0': 'a Y0 parameter', 'other': 'a parameter that is no position'}[case], brief(v, 160)), sample='%s of %s: %s' % (nm, case, brief(w, 80) if w is not None else 'as read')); r.c.count('parameter adjustments')
            need = per(psym('?'), o, case) is not None and not (case == 'other' and array == 'parameterInfo')
            if need: r.ob(band(band(cond, r.succ), bnot(acc)) is FALSE, '%s:%s:%s:always' % (show_obj(array), nm, case), got[o][0][0] if got.get(o) else None, 'the %s of %s is not set in every case' % (nm, case), sample='%s of %s always' % (nm, case))
def strip(off, k):
    z = subst(leaf(off), {k: N(0)}, {}).v
    return z if is_num(z) else num(-1)
def pc_main(e, n):
    pc = unver(drop_loop_conds(e.pc, e))
    return restrict_pos(pc, n)
def restrict_pos(pc, n):
    c = vcmp('>', leaf(n), N(0))
    return restrict(pc, c.var, c.hi is TRUE) if isinstance(c, Node) else pc

def common(r, cond, image=True):
    """reading, setting up, adding the functions"""
    M = r.M
    psfon = band(cond, onz('psfImagePresent')); over = conj(cond, onz('psfOversampling'), onz('psfOversampledImagePresent'))
    x = r.one('GetPsfImage', psfon); r.args(x, psfon, 'GetPsfImage', a1_PSF_file=str_is('psfFileName'))
    r.fails('the PSF image cannot be read', lt0(S('st.psf')), psfon, 'SetupModelObject')
    x = r.one('GetOversampledPsfInfo', over); z = (S('X0'), S('Y0')) if image else (N(0), N(0))
    r.args(x, over, 'GetOversampledPsfInfo', o0_options=1, a1_X_offset=z[0], a2_Y_offset=z[1])
    r.fails('the oversampled PSFs cannot be read', lt0(S('st.over')), over, 'SetupModelObject')
    x = r.one('SetupModelObject', cond)
    if x:
        r.args(x, cond, 'SetupModelObject', o0_options=1, a2_image=isptr('IMG') if image else isptr('null'), a4_mask=isptr('MASK') if image else isptr('null'), a5_errors=isptr('ERR') if image else isptr('null'))
        r.args(x, psfon, 'SetupModelObject', a3_PSF=isptr('PSF'))
        if over is not FALSE: r.ob(r.vec(x, 6, 'over', over), 'SetupModelObject:oversampled PSFs', x[2], 'the oversampled PSFs do not reach the model', sample='SetupModelObject: oversampled PSFs')
        dims = pushed(r, x, 1)
        if r.ob(dims is not None and len(dims) == 4, 'SetupModelObject:sizes', x[2], 'the image and PSF sizes are not a list of four'):
            want = r.size if not image else (S('nCols'), S('nRows'))
            for k, (d, w) in enumerate(zip(dims, want + (S('psfCols'), S('psfRows')))):
                nm = ('image columns', 'image rows', 'PSF columns', 'PSF rows')[k]
                r.ob(r.has(d, w, cond if k < 2 else psfon), 'SetupModelObject:' + nm, x[2], 'the number of %s is %s' % (nm, brief(unver(d), 160)), sample='sizes: ' + nm)
    y = r.one('AddFunctions', cond)
    if y:
        r.args(y, cond, 'AddFunctions', a0_model=isptr('MODEL'), v1_function_names='functionList', v2_labels='labels', v3_sets='setIndices', a4_subsampling=onz('subsamplingFlag'), v6_optional_parameters='optionalParams')
    r.fails('a function cannot be added', lt0(S('st.functions')), cond, 'FinalSetupForFitting', 'DispatchToSolver', 'dream', 'CreateModelImage', 'DetermineFluxes')
    r.fails('the number of parameter values is wrong', no(vcmp('==', S('n:params'), S('n:parameters'))), cond, 'FinalSetupForFitting', 'DispatchToSolver', 'dream', 'CreateModelImage', 'DetermineFluxes', 'BootstrapErrors')
    pos = r.t.events.index
    for a, b in (('SetupModelObject', 'AddFunctions'), ('AddFunctions', 'GetNParams')):
        if r.by.get(a) and r.by.get(b): r.ob(pos(r.by[a][0][2]) < pos(r.by[b][0][2]), '%s before %s' % (a, b), r.by[b][0][2], '%s comes before %s' % (b, a))

def fit_main(c, prg):
    M = Main(prg); r = Steps(c, M)
    fp = bnot(vcmp('==', S('filesPresent'), N(0)))
    ok = vcmp('==', S('st.config'), N(0)); base0 = band(ok, vcmp('==', S('opt.noImage'), N(0)))
    x = r.one('RequestedFilesPresent', TRUE); r.args(x, TRUE, 'RequestedFilesPresent', o0_options=1)
    r.fails('a requested file is missing', bnot(fp), TRUE, 'ReadConfigFile', 'ReadImageAsVector')
    x = r.one('ReadConfigFile', TRUE); r.args(x, TRUE, 'ReadConfigFile', a0_file=str_is('configFileName'), a1_mode=TRUE)
    r.fails('the configuration file cannot be read', no(ok), fp, 'HandleConfigFileOptions', 'ReadImageAsVector', 'SetupModelObject')
    r.fails('there is no image', onz('noImage'), band(fp, ok), 'ReadImageAsVector', 'SetupModelObject')
    h = r.one('HandleConfigFileOptions', ok); r.args(h, ok, 'HandleConfigFileOptions', o1_options=1)
    if h and x: r.ob(h[1][0] is x[1][8], 'HandleConfigFileOptions:settings', h[2], 'the image settings handled are not those read from the configuration file', sample='settings from the configuration file')
    r.size = (S('nCols'), S('nRows'))
    x = r.one('ReadImageAsVector', base0); r.args(x, base0, 'ReadImageAsVector', a0_file=str_is('imageFileName'))
    r.fails('the data image cannot be read', vcmp('==', leaf(patom(atom('load', 'IMG', ZERO, 'addr'))), N(0)), base0, 'SetupModelObject', 'GetMaskAndErrorImages')
    x = r.one('DetermineImageOffset', base0); r.args(x, base0, 'DetermineImageOffset', a1_file=str_is('imageFileName'))
    x = r.one('GetMaskAndErrorImages', base0); r.args(x, base0, 'GetMaskAndErrorImages', a1_columns=S('nCols'), a2_rows=S('nRows'), a3_mask_file=str_is('maskFileName'), a4_noise_file=str_is('noiseFileName'))
    r.fails('the mask or noise image cannot be used', lt0(S('st.mask')), base0, 'SetupModelObject')
    common(r, base0)
    run = 'DispatchToSolver' if prg == 'imfit' else 'dream'
    f = r.one('FinalSetupForFitting', base0); r.args(f, base0, 'FinalSetupForFitting', a0_model=isptr('MODEL'))
    r.fails('the fit cannot be set up', lt0(S('st.setup')), base0, run, 'PrintFitStatistic', 'BootstrapErrors')
    cond = conj(base0, vcmp('>', S('n:params'), N(0)))
    pos = r.t.events.index
    # limits and offsets
    inf = r.one('AddParameterInfo', base0); r.args(inf, base0, 'AddParameterInfo', a0_model=isptr('MODEL'), v1_parameter_information='parameterInfo')
    io = r.one('AddImageOffsets', base0); r.args(io, base0, 'AddImageOffsets', a0_model=isptr('MODEL'), a1_X=S('X0'), a2_Y=S('Y0'))
    mp = M.mp; L0, OFF, FIX, LIM = mp['limits'], mp['offset'], mp['fixed'], mp['limited']
    el = lambda k, o: LD('parameterInfo', add(scale(k, Fraction(88)), num(o)))
    def per(k, o, case):
        d = {'X0': S('X0'), 'Y0': S('Y0')}.get(case)
        if o == OFF: return d if d is not None else N(0)
        return vsub(el(k, o), d) if d is not None else el(k, o)
    param_loop(r, 'parameterInfo', {L0: 'lower limit', L0 + 8: 'upper limit', OFF: 'offset'}, cond, per, inf)
    # initial values
    go = r.by.get(run, [])
    arg = {'imfit': ('DispatchToSolver', 4), 'imfit-mcmc': ('SetupDreamParams', 2)}[prg]
    use = r.by.get(arg[0], [])
    if not r.ob(len(use) == 1, arg[0], None, '%s is not called exactly once' % arg[0]): return
    pv = use[0][1][arg[1]]; vec = {l.obj for l in leaves(pv) if isinstance(l, Ptr)}
    if not r.ob(len(vec) == 1 and all(isinstance(l, Ptr) and l.off is ZERO for l in leaves(pv)), 'initial values', use[0][2], 'the initial values are not one array'): return
    V = vec.pop()
    firstuse = min([q for n in ('PrintFitStatistic', arg[0]) for q in r.by.get(n, [])], key=lambda q: pos(q[2]))
    init = lambda k, o, case: vsub(LD('parameterList', scale(k, Fraction(8))), {'X0': S('X0'), 'Y0': S('Y0')}.get(case, N(0)))
    param_loop(r, V, {0: 'initial value'}, cond, init, firstuse)
    # free parameters
    b = fresh('$f'); nfree = vadd(S('n:params'), bind('sum', b, ite(vcmp('==', el(psym(b), FIX), N(1)), N(-1), N(0)), S('n:params')))
    isV = isptr(V)
    intr = vcmp('==', leaf(psym('glob.@stopSignal_flag@0')), N(1))
    if prg == 'imfit':
        fitc = conj(base0, vcmp('==', S('opt.printFitStatisticOnly'), N(0))); fitn = conj(fitc, vcmp('>', S('n:params'), N(0)))
        x = r.one('DispatchToSolver', fitc)
        r.args(x, fitn, 'DispatchToSolver', a0_solver=S('opt.solver'), a1_number_of_parameters=S('n:params'), a2_free_parameters=nfree, a3_number_of_pixels=vmul(S('nCols'), S('nRows')), v5_parameter_limits='parameterInfo', a6_model=isptr('MODEL'), a7_tolerance=S('opt.ftol'), a8_limits_flag=bnot(vcmp('==', S('limitsExist'), N(0))), a9_verbosity=S('opt.verbose'), a11_NLopt_solver=str_is('nloptSolverName'), a12_seed=S('opt.rngSeed'), a13_hypercube=onz('useLHS'))
        res = x[1][10] if x else None
        y = r.one('PrintResults', fitc); r.args(y, fitn, 'PrintResults', a0_parameters=isV, a1_model=isptr('MODEL'), a2_free_parameters=nfree, a3_fit_status=S('st.fit'))
        if x and y:
            r.ob(y[1][4] is res, 'PrintResults:results', y[2], 'prints results other than those of the fit', sample='PrintResults: results of the fit')
            r.ob(pos(x[2]) < pos(y[2]), 'PrintResults:order', y[2], 'results are printed before the fit')
        only = conj(base0, onz('printFitStatisticOnly')); y = r.one('PrintFitStatistic', only)
        r.args(y, conj(only, vcmp('>', S('n:params'), N(0))), 'PrintFitStatistic', a0_parameters=isV, a1_model=isptr('MODEL'), a2_free_parameters=nfree)
        nint = bnot(band(fitc, intr)); boot = conj(base0, nint, onz('doBootstrap'), vcmp('>', S('opt.bootstrapIterations'), N(0)))
        y = r.one('BootstrapErrors', boot)
        bn = conj(boot, vcmp('>', S('n:params'), N(0)))
        r.args(y, bn, 'BootstrapErrors', a0_parameters=isV, v1_parameter_limits='parameterInfo', a2_limits_flag=bnot(vcmp('==', S('limitsExist'), N(0))), a3_model=isptr('MODEL'), a4_tolerance=S('opt.ftol'), a5_iterations=S('opt.bootstrapIterations'), a6_free_parameters=nfree, a7_statistic=S('whichStat'), a9_seed=S('opt.rngSeed'), a10_mode=FALSE)
        if y and x: r.ob(pos(x[2]) < pos(y[2]), 'BootstrapErrors:order', y[2], 'bootstrap resampling comes before the fit')
        if y:
            sb = band(boot, onz('saveBootstrap')); nsb = band(boot, bnot(onz('saveBootstrap')))
            isfo = lambda l: isinstance(l, Ptr) and isinstance(l.obj, tuple) and l.obj[0] == 'ret' and 'fopen' in str(l.obj[1])
            r.ob(r.has(y[1][8], isfo, sb), 'BootstrapErrors:file', y[2], 'with --save-bootstrap the samples do not go to the opened file', sample='--save-bootstrap: opened file')
            r.ob(r.has(y[1][8], isptr('null'), nsb), 'BootstrapErrors:no file', y[2], 'a file is written without --save-bootstrap', sample='no --save-bootstrap: no file')
            fo = [e for n, e in r.t.calls('fopen')]
            for e in fo: r.ob(len(fo) == 1 and any('outputBootstrapFileName' in str(syms(l)) or 'outputBootstrapFileName' in str(l) for l in leaves(e.val if e.val is not None else e.args[0])) or names_file(M, e, 'outputBootstrapFileName'), 'fopen', e, 'the bootstrap file is not the one named by the user', sample='bootstrap output file')
            hs = {l.obj for e in fo for l in leaves(e.res) if isinstance(l, Ptr)} if all(e.res is not None for e in fo) else set()
            for h in hs: sb = band(sb, bnot(vcmp('==', leaf(patom(atom('load', h, ZERO, 'addr'))), N(0))))
            p2 = r.one('SaveParameters2', sb); r.args(p2, conj(sb, vcmp('>', S('n:params'), N(0))), 'SaveParameters2', a0_file=isfo, a1_parameters=isV, a2_model=isptr('MODEL'))
        for key, fld, cnd in (('best-fit parameters', 'outputParameterFileName', bnot(intr)), ('parameters of an interrupted fit', 'interruptedParameterFileName', intr)):
            cc = conj(fitc, onz('saveBestFitParams'), cnd)
            y = r.one('SaveParameters', cc, nth=lambda q: band(r.when(q), cc) is not FALSE, key='saving the ' + key, exact=False)
            if y and x: r.ob(pos(x[2]) < pos(y[2]), key + ':order', y[2], 'are saved before the fit')
            r.args(y, conj(cc, vcmp('>', S('n:params'), N(0))), 'saving the ' + key, a0_parameters=isV, a1_model=isptr('MODEL'), a2_file=str_is(fld), a4_free_parameters=nfree, a5_solver=S('opt.solver'), a6_fit_status=S('st.fit'))
            if y: r.ob(y[1][7] is res, 'saving the %s:results' % key, y[2], 'saves results other than those of the fit')
        for y in r.by.get('SaveParameters', []): r.ob(band(band(r.when(y), r.succ), bnot(band(fitc, onz('saveBestFitParams')))) is FALSE, 'SaveParameters:only after a fit', y[2], 'parameters are saved when %s' % brief(r.when(y), 200), sample='saved parameters: only after a fit')
        prep = r.by.get('PrepareImageComments', [])
        for img, flag, fld, hdr in (('modelImage', 'saveModel', 'outputModelFileName', 'HDR_MODELIMAGE'), ('residualImage', 'saveResidualImage', 'outputResidualFileName', 'HDR_RESIDUALIMAGE'), ('weightImage', 'saveWeightImage', 'outputWeightFileName', 'HDR_WEIGHTIMAGE')):
            cc = conj(base0, onz(flag), nint); key = 'saving the ' + img
            y = r.one('SaveVectorAsImage', cc, nth=lambda q: any(isinstance(l, Ptr) and l.obj == img for l in leaves(q[1][0])), key=key)
            r.args(y, cc, key, a0_image=isptr(img), a1_file=str_is(fld), a2_columns=S('nCols'), a3_rows=S('nRows'))
            if not y: continue
            p = [q for q in M.rec[:M.rec.index(y)] if q[0] == 'PrepareImageComments']
            if r.ob(p and r.asked(p[-1], cc), key + ':comments', y[2], 'the header comments are not made for this image'):
                from .checks_setup import headers, HEADERS
                headers(); r.args(p[-1], cc, key + ' (header)', a2_parameter_file=str_is('outputParameterFileName'), a3_PSF_used=onz('psfImagePresent'), a4_PSF_file=str_is('psfFileName'), a5_kind=N(HEADERS[hdr]), a6_data_file=str_is('imageFileName'))
                prev = [q for q in M.rec[:M.rec.index(p[-1])] if q[0] == 'PrepareImageComments' and q[1][0] is p[-1][1][0] and band(r.when(q), cc) is not FALSE]
                if prev:
                    lo, hi = pos(prev[-1][2]), pos(p[-1][2]); obj = p[-1][1][0].v.obj
                    r.ob(any(e.kind == 'call' and e.name and '::clear' in dm(e.name) and isinstance(e.args[0], Leaf) and isinstance(e.args[0].v, Ptr) and e.args[0].v.obj == obj and band(band(cc, r.succ), bnot(unver(e.pc))) is FALSE for e in r.t.events[lo:hi]), key + ':old comments', p[-1][2], 'the header also carries the comments of the image saved before', sample=key + ': own comments only')
            for n, fn in (('imfit', run), ('b', 'BootstrapErrors')):
                for q in r.by.get(fn, []): r.ob(pos(q[2]) < pos(y[2]), key + ':order', y[2], 'the image is saved before %s' % fn)
    else: mcmc(r, base0, cond, V, isV, el, mp, nfree)
    return r
def names_file(M, e, fld):
    q = e.args[0].v if e.args and isinstance(e.args[0], Leaf) else None
    return q is not None and 'opt.' + fld in repr(q.obj if isinstance(q, Ptr) else q)
def vsub(a, b): return vadd(a, vmul(N(-1), b))

def mcmc(r, base, cond, V, isV, el, mp, nfree):
    """the MCMC program: sampler set-up"""
    M, p, c = r.M, r.M.p, r.c; pos = r.t.events.index
    FIX, L0, LIM = mp['fixed'], mp['limits'], mp['limited']
    r.fails('a free parameter has no limits', missing_limits(r, base, el, FIX, LIM), TRUE, 'dream')
    x = r.one('SetupDreamParams', base)
    if not x: return
    r.args(x, cond, 'SetupDreamParams', a1_number_of_parameters=S('n:params'), a2_initial_values=isV)
    n = psym('n:params')
    fixed = lambda k: vcmp('==', el(k, FIX), N(1))
    val = lambda k: LD(V, scale(k, Fraction(8)))
    wants = {4: ('lock flags', 4, lambda k: ite(fixed(k), N(1), N(0))), 5: ('lower limits', 8, lambda k: ite(fixed(k), val(k), el(k, L0))), 6: ('upper limits', 8, lambda k: ite(fixed(k), val(k), el(k, L0 + 8))),
             3: ('names', 32, lambda k: LD(('name', k)))}
    for a, (nm, size, want) in wants.items():
        qs = leaves(x[1][a])
        if not r.ob(len(qs) == 1 and isinstance(qs[0], Ptr), 'SetupDreamParams:' + nm, x[2], 'the %s are not one array' % nm): continue
        q0 = qs[0]; acc = FALSE; at = None
        for i, e, q in r.t.stores(lambda o: o == q0.obj):
            if is_num(sub(q.off, q0.off)) and numval(sub(q.off, q0.off)) < 0: continue      # length of the allocation
            if nm == 'names' and (e.val is leaf(psym('""')) or i > pos(x[2])): continue
            if not e.loops or i > pos(x[2]):
                r.ob(False, 'SetupDreamParams:%s:order' % nm, e, 'the %s are changed outside the loop over the parameters' % nm); continue
            k = e.loops[-1][0]
            idx = scale(sub(q.off, q0.off), Fraction(1, size)); at = e
            if not r.ob(idx is psym(k) and trip(under(e.loops[-1][1], cond)) is n, 'SetupDreamParams:%s:range' % nm, e, '%s: element %s for %s iterations' % (nm, brief(leaf(idx), 60), brief(e.loops[-1][1], 80))): continue
            pc = pc_main(e, n); acc = bor(acc, subst(pc, {k: S('?k')}))
            w = want(psym(k))
            r.ob(all(same(pinned(u, pa), pinned(wv, pa)) for (pa, u), (_, wv) in zip(along(unver(e.val), band(cond, pc)), along(w, band(cond, pc)))), 'SetupDreamParams:' + nm, e, 'the %s given to the sampler are %s' % (nm, brief(unver(e.val), 160)), sample='sampler %s: %s' % (nm, brief(w, 120))); c.count('step arguments')
        r.ob(band(band(cond, r.succ), bnot(acc)) is FALSE, 'SetupDreamParams:%s:always' % nm, at, 'the %s are not set for every parameter' % nm)
    y = r.one('dream', base)
    if not y: return
    r.ob(pos(x[2]) < pos(y[2]), 'dream:order', y[2], 'the sampler is set up after it has run')
    if not r.ob(y[1][0] is x[1][0], 'dream:parameters', y[2], 'the sampler runs with settings that were not set up'): return
    D = y[1][0].v; F = p.fields('t_dream_pars')[0]; o0 = int(numval(D.off))
    got = lambda f: y[3].d.get((D.obj, o0 + F[f]))
    nch = ite(vcmp('>', S('opt.nChains'), N(0)), S('opt.nChains'), nfree); nch = ite(vcmp('<', nch, N(2)), N(3), nch)
    for f, w in (('numChains', nch), ('maxEvals', S('opt.maxEvals')), ('burnIn', S('opt.nBurnIn')), ('gelmanEvals', leaf(fn('idiv', psym('opt.nGelmanEvals'), num(10)))), ('scaleReductionCrit', S('opt.GRScaleReductionLimit')), ('noise', S('opt.mcmcNoise')), ('bstar_zero', S('opt.mcmc_bstar')), ('outputRootname', str_is('outputFileRoot')),
                 ('fun', lambda l: isinstance(l, Ptr) and isinstance(l.obj, tuple) and l.obj[0] == 'glob' and 'LikelihoodFuncForDREAM' in str(l.obj[1])), ('extraData', isptr('MODEL'))):
        v = got(f)
        r.ob(v is not None and r.has(v, w, cond), 'dream:' + f, y[2], 'the sampler runs with %s = %s' % (f, brief(unver(v), 160) if v is not None else 'its default'), sample='sampler: %s' % f); c.count('step arguments')
    pn = [(i, e) for i, e in enumerate(r.t.events) if e.kind == 'call' and e.name and re.search('::(push_back|emplace_back)', dm(e.name)) and isinstance(e.args[0], Leaf) and isinstance(e.args[0].v, Ptr) and e.args[0].v.obj == D.obj and is_num(e.args[0].v.off) and int(numval(e.args[0].v.off)) == o0 + F['parameterNames']]
    nq = leaves(x[1][3])[0]
    for i, e in pn:
        k = e.loops[-1][0] if e.loops else '?'
        good = e.loops and trip(under(e.loops[-1][1], cond)) is n and i < pos(y[2]) and (same(unver(e.val), LD(nq.obj, add(nq.off, scale(psym(k), Fraction(32))))) or same(unver(e.val), LD(('name', psym(k)))))
        r.ob(good, 'dream:parameterNames', e, 'the parameter names given to the sampler are %s' % brief(unver(e.val), 100), sample='sampler: parameter names in order')
    r.ob(len(pn) == 1, 'dream:parameterNames:once', pn[0][1] if pn else None, 'the parameter names are handed over %d times' % len(pn))
    v = got('appendFile'); ap = band(cond, onz('appendToOutput'))
    r.ob(v is not None and r.has(v, N(1), ap) and not r.has(v, N(1), band(cond, bnot(onz('appendToOutput')))), 'dream:appendFile', y[2], 'chains are appended to existing files when %s' % (brief(unver(v), 120) if v is not None else 'never'), sample='--append: append')
    # the parameter values of the header
    h = r.one('PrintModelParamsToStrings', base); r.args(h, cond, 'PrintModelParamsToStrings', a0_model=isptr('MODEL'), a2_parameters=isV)
    # random numbers
    seeds = [(e, e.args[1], unver(e.pc)) for n_, e in r.t.calls('rng::GSLStream::alloc')]
    pos_seed = vcmp('>', S('opt.rngSeed'), N(0))
    ok = any(v is S('opt.rngSeed') and band(band(cond, pos_seed), bnot(pc)) is FALSE for e, v, pc in seeds) and all(v is S('opt.rngSeed') or band(pc, pos_seed) is FALSE for e, v, pc in seeds)
    r.ob(ok, 'seed', seeds[0][0] if seeds else None, 'the random-number generator is not seeded with --seed', sample='--seed seeds the generator')
    r.ob(all(not r.reaches(y[2], e) for e, v, pc in seeds), 'seed:order', None, 'the generator is seeded after the run')
    # likelihood
    f = p.func('LikelihoodFuncForDREAM')
    t = Trace(p, f, None, args=[S('chain'), S('gen'), ptr('STATE'), ptr('MU'), FALSE], hooks={'virt:GetFitStatistic': stat, MO + '::GetFitStatistic': stat}, virt=p.virt([(lambda o: o == 'MU', MO, True)]))
    q = Rule(c, t, 'LikelihoodFuncForDREAM')
    q.ob(same(t.val, vmul(leaf(num(Fraction(-1, 2))), STAT)), 'value', None, 'the log-likelihood is %s' % brief(t.val, 120), sample='log-likelihood = -statistic/2 of the given state')

STAT = S('statistic')
def stat(fr, i, a, mem):
    ok = len(a) == 2 and a[0] is P_('MU') and a[1] is P_('STATE')
    return (STAT if ok else S('statistic of something else')), mem
def missing_limits(r, base, el, FIX, LIM):
    """the program's own test that some free parameter lacks a limit: the exits whose condition reads `limited`; what it must say is checked here"""
    n = psym('n:params'); acc = FALSE; at = None; ok = False
    def flag(v, on): return [vcmp('==', v, N(1)), bnot(vcmp('==', v, N(0)))] if on else [vcmp('==', v, N(0)), bnot(vcmp('==', v, N(1)))]
    def cases(x, k):
        return [(free and (not lo or not hi), under(x, *flag(el(k, FIX), not free), *flag(el(k, LIM), lo), *flag(el(k, LIM + 4), hi))) for free in (True, False) for lo in (True, False) for hi in (True, False)]
    info = r.t.m.exitinfo
    def reads(x):
        if any(b in info and any(reads(p) for p in info[b][2]) for b in bvars(x)): return True
        return any(a.kind == 'load' and a.args[0] == 'parameterInfo' and isinstance(a.args[1], Poly) and strip_all(a.args[1]) in (LIM, LIM + 4) for a in all_atoms(x))
    for e in r.t.events:
        if not (e.kind == 'call' and e.name and dm(e.name).split('(')[0] in ENDS): continue
        pc = unver(drop_loop_conds(e.pc, e))
        if not reads(pc): continue
        at = e; acc = bor(acc, pc)
        if e.loops:                      # stops inside the loop over the parameters
            k = psym(e.loops[-1][0])
            ok = trip(under(e.loops[-1][1], base)) is n and all(band(base, bnot(x)) is FALSE if m else band(base, x) is FALSE for m, x in cases(pc, k)); continue
        for b in bvars(pc):
            if b in info:                # stops after a loop that is left at the first such parameter
                kn, which, ps, rets = info[b]; k = psym(kn)
                ps = [unver(p) for p in ps]; over = [j for j, p in enumerate(ps) if p is bnot(lt0(vsub(S(kn), leaf(n))))]
                if len(ps) < 2 or rets or len(over) != 1 or which not in (over[0], 1 - over[0]) or which != over[0] and len(ps) > 2: continue
                p = FALSE
                for j, q in enumerate(ps): p = bor(p, q) if j != over[0] else p
                inside = band(base, lt0(vsub(S(kn), leaf(n))))
                good = all(band(inside, bnot(x)) is FALSE if m else band(inside, x) is FALSE for m, x in cases(p, k))
                yes, no_ = restrict(pc, b, which != over[0]), restrict(pc, b, which == over[0])
                ok = ok or good and band(base, bnot(yes)) is FALSE and band(base, no_) is FALSE
                continue
            for a in atoms_of(b):
                if a.kind == 'mu' and a.args[0] == 'rec':
                    init, body, K = a.args[1:4]; k = psym([x for x in symnames(body) if x.startswith('#m')][0])
                    u = [x for x in symnames(body) if x.startswith('#u')]
                    cs = cases(body, k); hit = {x for m, x in cs if m}; miss = {x for m, x in cs if not m}
                    if len(hit) != 1 or len(miss) != 1 or not u or miss.pop() is not S(u[0]): continue
                    c1 = hit.pop(); yes, no_ = (tmap(pc, lambda q: w if q is a else None) for w in (c1, init))
                elif a.kind == 'sum':
                    body, K = a.args[1], leaf(a.args[2]) if isinstance(a.args[2], Poly) else a.args[2]; k = psym(a.args[0]); cs = cases(body, k)
                    hit = {x for m, x in cs if m}; miss = {x for m, x in cs if not m}
                    if len(hit) != 1 or miss != {N(0)}: continue
                    yes, no_ = (tmap(pc, lambda q: w if q is a else None) for w in (hit.pop(), N(0)))
                else: continue
                yes, no_ = restrict_pos(yes, n), restrict_pos(no_, n)
                ok = ok or trip(K) is n and band(base, bnot(yes)) is FALSE and band(base, no_) is FALSE
    r.ob(ok, 'missing limits', at, 'the test for free parameters without limits is %s' % brief(acc, 300), sample='a free parameter without both limits: stop')
    return acc
def all_atoms(x):
    acc = []; tmap(x, lambda a: acc.append(a) and None)
    return acc
def symnames(x): return syms(x) if not isinstance(x, Leaf) else syms(x.v) if isinstance(x.v, Poly) else set()
def strip_all(p):
    v = [c for m, c in p.terms if not m]
    return int(v[0]) if v else 0
def make_main(c):
    """makeimage"""
    M = Main('makeimage'); r = Steps(c, M); pos = r.t.events.index
    from .checks_setup import headers, HEADERS
    headers()
    fe = [b for q in r.by.get('ReadConfigFile', []) for b in [r.when(q)]]
    x = r.by.get('ReadConfigFile', [None])[0]
    if not r.ob(x is not None and len(fe) == 1, 'ReadConfigFile', None, 'the configuration file is not read once'): return
    exists = fe[0]
    r.ob(all(a.kind == 'fn' and 'FileExists' in str(a.args[0]) and 'configFileName' in str(a) for b in bvars(exists) for a in atoms_of(b)), 'ReadConfigFile:when', x[2], 'the configuration file is read when %s' % brief(exists, 200), sample='configuration read when it exists')
    r.args(x, exists, 'ReadConfigFile', a0_file=str_is('configFileName'), a1_mode=TRUE)
    ok = band(exists, vcmp('==', S('st.config'), N(0)))
    h = r.one('HandleConfigFileOptions', ok); r.args(h, ok, 'HandleConfigFileOptions', o1_options=1)
    if h: r.ob(h[1][0] is x[1][6], 'HandleConfigFileOptions:settings', h[2], 'the settings handled are not those read from the configuration file', sample='settings from the configuration file')
    if h: r.ob(pos(h[2]) < min([pos(q[2]) for n in ('SetupModelObject', 'GetImageSize') for q in r.by.get(n, [])] or [10**9]), 'HandleConfigFileOptions:order', h[2], 'settings of the configuration file are handled too late')
    given = conj(vcmp('>', S('opt.nColumns'), N(0)), vcmp('>', S('opt.nRows'), N(0)))
    nodims = conj(bnot(given), onz('noImageDimensions')); save = onz('saveImage')
    fluxonly = conj(bor(onz('printFluxes'), onz('saveFluxes')), bnot(save), bnot(onz('printImages')))
    none = conj(nodims, onz('noRefImage'))
    run = conj(ok, bnot(conj(none, save)))
    ref = conj(run, nodims, bnot(fluxonly))
    g = r.one('GetImageSize', ref); r.args(g, ref, 'GetImageSize', a1_file=str_is('referenceImageName'))
    r.fails('the reference image cannot be read', no(vcmp('==', S('st.size'), N(0))), ref, 'SetupModelObject')
    r.size = tuple(ite(conj(nodims, bnot(fluxonly)), S(a), ite(none, N(2), S('opt.' + b))) for a, b in (('nCols', 'nColumns'), ('nRows', 'nRows')))
    if not r.by.get('SetupModelObject'): r.ob(False, 'SetupModelObject', None, 'no model is set up'); return
    common(r, run, image=False)
    # parameter values
    img = band(run, bnot(fluxonly)); n = psym('n:params'); npos = vcmp('>', S('n:params'), N(0))
    y = r.one('CreateModelImage', img, nth=lambda q: not q[2].loops)
    if not y: return
    pv = y[1][1]; objs = {l.obj for l in leaves(pv) if isinstance(l, Ptr)}
    if not r.ob(len(objs) == 1 and all(isinstance(l, Ptr) and l.off is ZERO for l in leaves(pv)), 'parameter values', y[2], 'the parameter values are not one array'): return
    V = objs.pop()
    param_loop(r, V, {0: 'value'}, band(run, npos), lambda k, o, case: LD('parameterList', scale(k, Fraction(8))), y)
    r.args(y, img, 'CreateModelImage', a0_model=isptr('MODEL'))
    sv = band(img, save)
    lone = lambda obj: (lambda q: any(isinstance(l, Ptr) and l.obj == obj for l in leaves(q[1][0])))
    z = r.one('SaveVectorAsImage', sv, nth=lone('modelImage'), key='saving the model image')
    r.args(z, sv, 'saving the model image', a0_image=isptr('modelImage'), a1_file=str_is('outputImageName'), a2_columns=r.size[0], a3_rows=r.size[1])
    if z: r.ob(pos(y[2]) < pos(z[2]), 'saving the model image:order', z[2], 'the image is saved before it is computed')
    p = r.one('PrepareImageComments', sv); r.args(p, sv, 'PrepareImageComments', a2_configuration_file=str_is('configFileName'), a3_PSF_used=onz('psfImagePresent'), a4_PSF_file=str_is('psfFileName'), a5_kind=N(HEADERS['HDR_MAKEIMAGE']))
    ex = band(sv, onz('saveExpandedImage')); psf = band(ex, onz('psfImagePresent')); nopsf = band(ex, bnot(onz('psfImagePresent')))
    z = r.one('SaveVectorAsImage', ex, nth=lone('expandedImage'), key='saving the expanded image')
    r.args(z, psf, 'saving the expanded image', a2_columns=vadd(r.size[0], vmul(N(2), S('psfCols'))), a3_rows=vadd(r.size[1], vmul(N(2), S('psfRows'))))
    r.args(z, nopsf, 'saving the expanded image without PSF', a2_columns=r.size[0], a3_rows=r.size[1])
    if z: r.ob(not r.has(z[1][1], str_is('outputImageName'), ex), 'saving the expanded image:file', z[2], 'the expanded image overwrites the model image', sample='expanded image: own file')
    # one image per function
    al = band(sv, onz('saveAllFunctions'))
    one = [q for q in r.by.get('GetSingleFunctionImage', []) if q[2].loops]; svs = [q for q in r.by.get('SaveVectorAsImage', []) if lone('functionImage')(q) and q[2].loops]
    if r.ob(len(one) == 1 and len(svs) == 1, 'function images', None, 'the images of single functions are made %d times and saved %d times' % (len(one), len(svs))):
        q, w = one[0], svs[0]; k, K = q[2].loops[-1]
        same_loop = w[2].loops and w[2].loops[-1][0] == k
        fp = conj(al, vcmp('>', S('nFunctions'), N(0)))
        r.ob(same_loop and len(q[2].loops) == 1 and trip(under(K, fp)) is psym('nFunctions'), 'function images:each', q[2], 'images are made for %s functions' % brief(K, 100), sample='one image per function')
        pc = r.when(q); r.ob(r.asked(q, fp, False) and band(band(pc, run), bnot(al)) is FALSE, 'function images:when', q[2], 'images of single functions are made when %s' % brief(pc, 200), sample='function images with --output-functions')
        i = psym(k); idx = lambda v: tmap(unver(v), lambda a: leaf(i) if a.kind == 'sym' and str(a.args[0]).startswith('$L') else None) if isinstance(v, (Leaf, Node)) else v
        r.ob(idx(q[1][2]) is leaf(i) and r.has(q[1][0], isptr('MODEL'), al) and r.has(q[1][1], isptr(V), al), 'function images:function', q[2], 'the image made is of function %s' % brief(unver(q[1][2]), 60), sample='i-th image: i-th function, all parameters')
        nm = idx(w[1][1]); ps = strs.pieces(nm.v) if isinstance(nm, Leaf) and isinstance(nm.v, Poly) else []
        want = LD('functionNames', scale(i, Fraction(32)))
        txt = fileparts(ps)
        r.ob(txt is not None and has_piece(txt, str_is('functionRootName'), first=True) and has_piece(txt, leaf(add(i, ONE))) and has_piece(txt, want), 'function images:file', w[2], 'the image of function i goes to %s' % brief(nm, 160), sample='file name: root, i+1, name of function i')
        r.ob(r.has(w[1][2], r.size[0], fp) and r.has(w[1][3], r.size[1], fp), 'function images:size', w[2], 'the image of a function is saved with other dimensions')
        r.ob(pos(q[2]) < pos(w[2]), 'function images:order', w[2], 'an image is saved before it is made')
        mi = r.by.get('GetModelImageVector', [])
        r.ob(all(pos(m[2]) < pos(q[2]) for m in mi), 'function images:after', q[2], 'single-function images are made before the whole image is saved')
    fl = band(run, bor(onz('printFluxes'), onz('saveFluxes')))
    d = r.one('DetermineFluxes', fl); r.args(d, band(fl, npos), 'DetermineFluxes', a0_model=isptr('MODEL'), a1_parameters=isptr(V), o2_options=1)
def fileparts(ps): return ps
def has_piece(ps, term, first=False):
    def t(x):
        if isinstance(x, tuple):
            for y in x[1:]:
                if isinstance(y, Leaf): y = y.v
                if isinstance(y, Poly): return leaf(y)
        return None
    vs = [t(x) for x in ps if not isinstance(x, str)]
    vs = [v for v in vs if v is not None]
    return bool(vs) and (same(vs[0], term) if first else any(same(v, term) for v in vs))
def C04():
    c = Check('C04', 'Value numbering of the main programs with their steps as named results: for every step, the condition under which it happens, each argument it receives and its order, compared with the documented flow of imfit, imfit-mcmc and makeimage.')
    for prg in FITMAINS: fit_main(c, prg)
    make_main(c)
    c.floor('steps of main', 45); c.floor('step arguments', 180); c.floor('failures', 30); c.floor('parameter adjustments', 20)
    return c.finish()
TABLE = {'C04': C04}

"""C01-C03: from the command line to the model object and to the saved files."""
import re
from fractions import Fraction
from . import build, ir, gsa, cas, trace, strs
from .build import AnalysisError, dm
from .cas import *
from .report import Check, loc
from .trace import *
from .checks_pipe import Rule, paths_of, unver, pc_of, val_of, same, under, OPAQUE_VOID, MO, implied, atoms_of
from .checks_model import ptr, L

OPT = ('*', 'OPT', 0)          # the options object behind the shared pointer
def onz(n): return bnot(vcmp('==', S('opt.' + n), N(0)))
def lt0(v): return vcmp('<', v, N(0))
def no(c): return bnot(c)
def conj(*cs):
    r = TRUE
    for c in cs: r = band(r, c)
    return r
def anyof(evs):
    r = FALSE
    for e in evs: r = bor(r, drop_loop_conds(unver(e.pc), e))
    return r
ENDS = ('exit', '_exit', 'abort', 'std::terminate', 'quick_exit')

# ------------------------------------------------------------------ C01
SETUP = ['core/setup_model_object.cpp', 'core/model_object.cpp']
_p = {}
def prog(*src):
    if src not in _p: _p[src] = Prog2(list(src))
    return _p[src]

STATUS = ('AddPSFVector', 'SetupModelImage', 'AddImageDataVector', 'AddOversampledPsfInfo', 'AddMaskVector', 'UseCashStatistic', 'UseModelErrors')
VOID = ('SetMaxThreads', 'SetDebugLevel', 'AddImageCharacteristics', 'AddErrorVector', 'UsePoissonMLR')
def C01():
    c = Check('C01', 'Value numbering of SetupModelObject with the calls on the new model object kept symbolic: for every call, its arguments (polynomial normal form over the inputs), the decision diagram of the options under which it happens, its order, and that a failure status ends the program.')
    p = prog(*SETUP)
    H = {MO + '::' + k: OPAQUE_VOID for k in VOID + ('ModelObject',)}
    for k in STATUS: H[MO + '::' + k] = (lambda k: lambda fr, i, a, m: (S('status_' + k), m))(k)
    of = {o: 'opt.' + n for n, o in p.fields('OptionsBase')[0].items()}
    A = [ptr('OPT'), ptr('NCR'), ptr('DATA'), ptr('PSF'), ptr('MASK'), ptr('ERR'), ptr('OVER')]
    isnew = lambda o: isinstance(o, tuple) and 'operator new' in str(o) and o[0] == 'ret'
    t = Trace(p, p.func('SetupModelObject'), None, args=A, hooks=H, names={OPT: of}, virt=p.virt([(isnew, MO, True)])); r = Rule(c, t, 'SetupModelObject')
    d = [unver(t.m.load(t.mem, Ptr(('*', 'NCR', 0), num(4 * k)), ir.INT(32))) for k in range(4)]
    nC, nR, pC, pR = d
    prod = lambda a, b: leaf(mul(a.v, b.v))
    data = no(vcmp('==', leaf(patom(atom('load', 'DATA', ZERO, 'addr'))), N(0)))
    calls = {}
    for k in STATUS + VOID + ('ModelObject',): calls[k] = [(n, e) for n, e in t.calls(MO + '::' + k, 'virt:' + k)]
    new = [e.args[0] for n, e in calls['ModelObject']]
    if not r.ob(len(new) == 1 and isinstance(new[0], Leaf), 'new', None, '%d model objects are made' % len(new)): return c.finish()
    obj = new[0]
    r.ob(unver(t.val) is unver(obj), 'returned', None, 'the object returned is %s, not the one set up' % brief(t.val, 80))
    chi = conj(data, no(onz('useCashStatistic')), no(onz('usePoissonMLR')))
    want = {  # call: (condition, arguments)
        'SetMaxThreads': (onz('maxThreadsSet'), [S('opt.maxThreads')]),
        'SetDebugLevel': (TRUE, [S('opt.debugLevel')]),
        'AddPSFVector': (onz('psfImagePresent'), [prod(pC, pR), pC, pR, ptr('PSF'), onz('normalizePSF')]),
        'SetupModelImage': (no(data), [nC, nR]),
        'AddImageDataVector': (data, [ptr('DATA'), nC, nR]),
        'AddImageCharacteristics': (data, [S('opt.' + n) for n in ('gain', 'readNoise', 'expTime', 'nCombined', 'originalSky')]),
        'AddMaskVector': (onz('maskImagePresent'), [prod(nC, nR), nC, nR, ptr('MASK'), S('opt.maskFormat')]),
        'UseCashStatistic': (conj(data, onz('useCashStatistic')), []),
        'UsePoissonMLR': (conj(data, no(onz('useCashStatistic')), onz('usePoissonMLR')), []),
        'AddErrorVector': (conj(chi, onz('noiseImagePresent')), [prod(nC, nR), nC, nR, ptr('ERR'), S('opt.errorType')]),
        'UseModelErrors': (conj(chi, no(onz('noiseImagePresent')), onz('useModelForErrors')), []),
    }
    names = {'AddPSFVector': ('pixels', 'columns', 'rows', 'PSF', 'normalize'), 'AddMaskVector': ('pixels', 'columns', 'rows', 'mask', 'format'), 'AddErrorVector': ('pixels', 'columns', 'rows', 'errors', 'type')}
    for k, (cond, args) in want.items():
        evs = calls[k]; c.count('set-up calls')
        if not r.ob(evs, k, None, '%s is never called' % k): continue
        got = anyof([e for n, e in evs])
        r.ob(got is cond, k + ':when', evs[0][1], '%s is called when %s, not when %s' % (k, brief(got, 150), brief(cond, 120)), sample='%s exactly when %s' % (k, brief(cond, 100)))
        for a in range(len(evs)):
            for b in range(a): r.ob(band(unver(evs[a][1].pc), unver(evs[b][1].pc)) is FALSE, k + ':once', evs[a][1], '%s can be called twice' % k)
        for n, e in evs:
            r.ob(unver(e.args[0]) is unver(obj), k + ':object', e, '%s is called on another object' % k)
            r.ob(not e.loops, k + ':loop', e, '%s is called in a loop' % k)
            for q, w in enumerate(args):
                g = under(unver(e.args[q + 1]), unver(e.pc)) if q + 1 < len(e.args) else BOT
                w = under(w, unver(e.pc))
                isb = lambda v: all(isinstance(l, bool) for l in leaves(v))
                if isb(w) and isb(g): ok = g is w
                else: ok = g is w or same(ite(g, N(1), N(0)) if isb(g) else g, ite(w, N(1), N(0)) if isb(w) else w)
                r.ob(ok, '%s:argument %s' % (k, names[k][q] if k in names else q + 1), e, '%s is given %s where %s belongs' % (k, brief(g, 80), brief(w, 80)))
                c.count('set-up arguments')
    # every oversampled PSF, in order
    evs = calls['AddOversampledPsfInfo']
    if r.ob(len(evs) == 1, 'AddOversampledPsfInfo', evs[0][1] if evs else None, '%d calls add oversampled PSFs' % len(evs)):
        n, e = evs[0]; c.count('set-up calls')
        r.ob(len(e.loops) == 1, 'oversampled:loop', e, 'oversampled PSFs are not added one by one')
        if len(e.loops) == 1:
            k, K = e.loops[0]
            g = unver(e.args[1])
            # element k of the vector
            first = Ptr(('*', ('*', 'OVER', 0), scale(psym(k), Fraction(8))), ZERO)
            r.ob(g is leaf(first), 'oversampled:each', e, 'what is added in iteration %s is %s' % (k, brief(g, 80)), sample='element k of the list of oversampled PSFs in iteration k')
            r.ob(vec_trip(K, 'OVER'), 'oversampled:all', e, 'the loop over oversampled PSFs runs %s times' % brief(K, 120))
            r.ob(unver(e.args[0]) is unver(obj), 'oversampled:object', e, 'AddOversampledPsfInfo is called on another object')
            r.ob(drop_vec(unver(e.pc), k) is onz('psfOversampling'), 'oversampled:when', e, 'oversampled PSFs are added when %s' % brief(drop_vec(unver(e.pc), k), 150))
            c.count('set-up arguments', 2)
    # order
    first = lambda k: min([n for n, e in calls[k]] or [10 ** 9]); last = lambda k: max([n for n, e in calls[k]] or [-1])
    for a, bs, why in (('AddPSFVector', ('SetupModelImage', 'AddImageDataVector', 'AddOversampledPsfInfo'), 'the model image is sized for the PSF when the image is added'),
                       ('SetupModelImage', ('AddOversampledPsfInfo',), 'an oversampled region needs the image dimensions'), ('AddImageDataVector', ('AddOversampledPsfInfo', 'AddMaskVector', 'AddErrorVector', 'UseModelErrors', 'UseCashStatistic', 'UsePoissonMLR', 'AddImageCharacteristics'), 'they act on the data image')):
        for b in bs:
            r.ob(last(a) < first(b), 'order:%s<%s' % (a, b), calls[b][0][1] if calls[b] else None, '%s comes before %s although %s' % (b, a, why)); c.count('orderings')
    # failures end the program; nothing else does
    ex = [e for n, e in t.calls(*ENDS)]
    over = anyof(ex)
    okall = TRUE
    for k in STATUS:
        ev = calls[k]
        if not ev: continue
        fail = FALSE
        for n, e in ev: fail = bor(fail, conj(drop_vec(unver(e.pc), e.loops[0][0]) if e.loops else unver(e.pc), lt0(S('status_' + k))))
        got = FALSE
        for x in ex: got = bor(got, drop_vec(unver(x.pc), x.loops[0][0]) if x.loops else unver(x.pc))
        okall = band(okall, no(lt0(S('status_' + k))))
        # under no other failure
        miss = band(fail, bnot(got))
        r.ob(miss is FALSE, k + ':failure', ev[0][1], 'a failure of %s is ignored when %s' % (k, brief(miss, 150)), sample='%s < 0 ends the program' % k); c.count('failure statuses')
    lm = conj(data, onz('useCashStatistic'), vcmp('==', S('opt.solver'), N(1)), no(onz('printFitStatisticOnly')))
    got = band(over, okall)
    for x in ex:
        if x.loops: got = bor(band(anyof([y for y in ex if not y.loops]), okall), band(drop_vec(unver(x.pc), x.loops[0][0]), okall))
    rest = under(got, *[no(lt0(S('status_' + k))) for k in STATUS])
    r.ob(rest is lm, 'exit', ex[0] if ex else None, 'the program ends without a failure when %s, not exactly for the Cash statistic with the Levenberg-Marquardt solver' % brief(rest, 200), sample='ends without failure only for Cash statistic + L-M fit')
    c.floor('set-up calls', 12); c.floor('set-up arguments', 25); c.floor('failure statuses', 7)
    return c.finish()
def drop_vec(pc, k):
    """path condition of a statement in a loop over a vector without the conditions on the loop counter"""
    for b in list(bvars(pc)):
        if k in syms(node(b, TRUE, FALSE)) or 'idiv' in str(brief(node(b, TRUE, FALSE), 300)): 
            pc = bor(restrict(pc, b, True), restrict(pc, b, False))
    return pc
def vec_trip(K, name):
    """max(0, size) or size, with size = (end - begin)/8"""
    diff = sub(patom(atom('load', ('*', name, 8), ZERO, 'addr')), patom(atom('load', ('*', name, 0), ZERO, 'addr')))
    ls = {l for l in leaves(K) if isinstance(l, Poly) and l is not ZERO}
    if len(ls) != 1: return False
    n = ls.pop()
    idiv = [l for l in leaves(vfn('idiv', leaf(diff), N(8)))]
    return (n is scale(diff, Fraction(1, 8)) or n in idiv) and (K is ite(vcmp('>', leaf(n), N(0)), leaf(n), N(0)) or all(l is n or l is ZERO for l in leaves(K)))

# ------------------------------------------------------------------ C02 command line
# effects: field -> value; values: constants, STR (the option's text), REAL, INT, list fields with '+'
STR, REAL, POSREAL, INT, NINT, COUNT = 'STR', 'REAL', 'POSREAL', 'INT', 'NINT', 'COUNT'
def d(**k): return k
ACT = ('help', 'version', 'list-functions', 'list-parameters', 'sample-config')
F_FITIN = {'model-errors': d(useModelForErrors=1), 'cashstat': d(useCashStatistic=1), 'poisson-mlr': d(usePoissonMLR=1), 'mlr': d(usePoissonMLR=1),
           'errors-are-variances': d(errorType='WEIGHTS_ARE_VARIANCES'), 'errors-are-weights': d(errorType='WEIGHTS_ARE_WEIGHTS'), 'mask-zero-is-bad': d(maskFormat='MASK_ZERO_IS_BAD')}
F_VERB = {'quiet': d(verbose=0), 'silent': d(verbose=-1), 'loud': d(verbose=2)}
F_PSF = {'no-normalize': d(normalizePSF=0), 'no-subsampling': d(subsamplingFlag=0)}
F_SOLV = {'nm': d(solver='NMSIMPLEX_SOLVER'), 'de': d(solver='DIFF_EVOLN_SOLVER'), 'chisquare-only': d(printFitStatisticOnly=1), 'fitstat-only': d(printFitStatisticOnly=1), 'printimage': d(printImages=1)}
O_PSF = {'psf': d(psfFileName=STR, psfImagePresent=1)}
Q_PSF = {'overpsf': {'psfOversampling': 1, 'psfOversampledImagePresent': 1, '+psfOversampledFileNames': STR}, 'overpsf_scale': {'+psfOversamplingScales': INT}, 'overpsf_region': {'oversampleRegionSet': 1, '+psfOversampleRegions': STR, 'nOversampleRegions': COUNT}}
O_IN = {'noise': d(noiseFileName=STR, noiseImagePresent=1), 'mask': d(maskFileName=STR, maskImagePresent=1), 'sky': d(originalSky=REAL, originalSkySet=1), 'gain': d(gain=POSREAL, gainSet=1), 'readnoise': d(readNoise=POSREAL, readNoiseSet=1), 'exptime': d(expTime=POSREAL, expTimeSet=1), 'ncombined': d(nCombined=INT, nCombinedSet=1)}
O_RUN = {'max-threads': d(maxThreads=INT, maxThreadsSet=1)}
O_SEED = {'seed': d(rngSeed=INT)}
O_CFG = {'config': d(configFileName=STR)}
O_FIT = {'nlopt': d(solver='GENERIC_NLOPT_SOLVER', nloptSolverName=STR), 'ftol': d(ftol=POSREAL, ftolSet=1), 'bootstrap': d(doBootstrap=1, bootstrapIterations=INT), 'save-bootstrap': d(outputBootstrapFileName=STR, saveBootstrap=1)}
O_SAVE = {'save-model': d(outputModelFileName=STR, saveModel=1), 'save-residual': d(outputResidualFileName=STR, saveResidualImage=1), 'save-weights': d(outputWeightFileName=STR, saveWeightImage=1)}
O_MAKE = {'output': d(outputImageName=STR, noOutputImageName=0), 'output-functions': d(functionRootName=STR, saveAllFunctions=1), 'timing': d(timingIterations=INT, saveImage=0), 'estimation-size': d(estimationImageSize=INT), 'debug': d(debugLevel=NINT)}
F_MAKE = {'save-expanded': d(saveExpandedImage=1), 'nosave': d(saveImage=0)}
def j(*ds):
    r = {}
    for x in ds: r.update(x)
    return r
PROGRAMS = {
    'imfit': ('ImfitOptions', j(F_FITIN, F_VERB, F_PSF, F_SOLV, {'de-lhs': d(solver='DIFF_EVOLN_SOLVER', useLHS=1)}), j(O_PSF, O_IN, O_RUN, O_SEED, O_CFG, O_FIT, O_SAVE, {'save-params': d(outputParameterFileName=STR, saveBestFitParams=1)}), Q_PSF, ('imageFileName', 'noImage')),
    'imfit-mcmc': ('MCMCOptions', j(F_FITIN, F_VERB, F_PSF, {'append': d(appendToOutput=1)}), j(O_PSF, O_IN, O_RUN, O_SEED, O_CFG, {'output': d(outputFileRoot=STR), 'nchains': d(nChains=INT), 'max-chain-length': d(maxEvals=INT), 'burnin-length': d(nBurnIn=INT), 'gelman-evals': d(nGelmanEvals=INT), 'gelman-rubin-limit': d(GRScaleReductionLimit=POSREAL), 'uniform-offset': d(mcmcNoise=POSREAL), 'gaussian-offset': d(mcmc_bstar=POSREAL)}), Q_PSF, ('imageFileName', 'noImage')),
    'makeimage': ('MakeimageOptions', j(F_PSF, F_MAKE, {'printimage': d(printImages=1), 'print-fluxes': d(printFluxes=1, saveImage=0)}), j(O_PSF, O_RUN, O_MAKE, {'refimage': d(referenceImageName=STR, noRefImage=0), 'ncols': d(nColumns=INT, nColumnsSet=1), 'nrows': d(nRows=INT, nRowsSet=1), 'zero-point': d(magZeroPoint=REAL), 'save-fluxes': d(saveFluxesFileName=STR, saveFluxes=1)}), Q_PSF, ('configFileName', 'noConfigFile')),
    'makemultimages': ('MakeMultimagesOptions', j(F_MAKE, {'nosubsampling': d(subsamplingFlag=0)}), j(O_RUN, O_MAKE, {'image-info': d(imageInfoFile=STR, imageInfoFile_exists=1)}), {}, ('configFileName', 'noConfigFile')),
    'multimfit': ('MultimfitOptions', j(F_FITIN, F_VERB, F_SOLV, {'nosubsampling': d(subsamplingFlag=0), 'logging': d(loggingOn=1)}), j(O_RUN, O_SEED, O_CFG, O_FIT, O_SAVE, {'image-info': d(imageInfoFile=STR, imageInfoFile_exists=1), 'save-params-root': d(outputParameterRootName=STR, saveBestFitParams=1)}), {}, None),
}
SHORT = {'help': 'h', 'version': 'v', 'config': 'c', 'output': 'o', 'image-info': 'i'}
MAINS = {'imfit': 'core/imfit_main.cpp', 'imfit-mcmc': 'core/mcmc_main.cpp', 'makeimage': 'core/makeimage_main.cpp', 'makemultimages': 'core/makemultimages_main.cpp', 'multimfit': 'core/multimfit_main.cpp'}
TO_REAL = ('strtod', 'atof', '__strtod_internal', 'std::stod', 'std::__cxx11::stod'); TO_INT = ('strtol', '__isoc23_strtol', 'atoi', 'atol', 'atoll', 'strtoul', '__isoc23_strtoul', 'strtoull', '__isoc23_strtoull', 'std::stoi', 'std::stol', 'std::stoul')

class Line_:
    """what one program's ProcessInput does, as decision diagrams over the options given"""
    def __init__(s, c, prg):
        cls = PROGRAMS[prg][0]
        s.p = p = prog(MAINS[prg]); f = p.func('ProcessInput')
        s.decl = []; s.used = []; s.usage = []
        def text(fr, mem, a):
            v = strs.get(fr, mem, a)
            return strs.literal(v.v) if isinstance(v, Leaf) and isinstance(v.v, Poly) else None
        def Q(kind):
            def h(fr, i, args, mem):
                n = text(fr, mem, args[1]); s.used.append((kind, n, fr.fn, i))
                return (S('%s:%s' % (kind, n)) if kind == 'count' else bnot(vcmp('==', S('%s:%s' % (kind, n)), N(0)))), mem
            return h
        def T(fr, i, args, mem):
            n = text(fr, mem, args[1]); s.used.append(('target', n, fr.fn, i))
            return s.target(n, args[2]), mem
        def D(kind):
            def h(fr, i, args, mem):
                s.decl.append((kind, [text(fr, mem, a) for a in args[1:]], fr.fn, i)); return BOT, mem
            return h
        def U(fr, i, args, mem):
            v = strs.get(fr, mem, args[1]); s.usage.append(strs.pieces(v.v) if isinstance(v, Leaf) and isinstance(v.v, Poly) else [])
            return BOT, mem
        hooks = {'CLineParser::FlagSet': Q('flag'), 'CLineParser::OptionSet': Q('opt'), 'CLineParser::GetNTargets': Q('count'), 'CLineParser::AddFlag': D('flag'), 'CLineParser::AddOption': D('opt'), 'CLineParser::AddQueueOption': D('queue'), 'CLineParser::AddUsageLine': U,
                 'CLineParser::GetTargetString': T, 'CLineParser::GetTargetString[abi:cxx11]': T, 'CLineParser::nArguments': lambda fr, i, a, m: (S('nArguments'), m), 'CLineParser::CommandLineEmpty': lambda fr, i, a, m: (bnot(vcmp('==', S('empty'), N(0))), m), 'CLineParser::ParseCommandLine': lambda fr, i, a, m: (S('parsed'), m),
                 'CLineParser::GetArgument': lambda fr, i, a, m: (s.target('argument', a[1]), m), 'CLineParser::GetArgument[abi:cxx11]': lambda fr, i, a, m: (s.target('argument', a[1]), m),
                 'NotANumber': lambda fr, i, a, m: (bnot(vcmp('==', vfn('notanumber', strs.get_chars(fr, m, a[0]), a[2]), N(0))), m)}
        s.of = {o: n for n, o in p.fields(cls)[0].items()}
        s.t = Trace(p, f, None, args=[S('argc'), ptr('ARGV'), ptr('OPT')], hooks=hooks, names={OPT: {o: 'opt.' + n for o, n in s.of.items()}}, strings=True)
        s.r = Rule(c, s.t, prg)
    def target(s, n, idx):
        return apply(lambda q: leaf(Ptr(('*', ('target', n), scale(q, Fraction(8))), ZERO)), fresh('tg'), idx)
    def target_text(s, n, idx=ZERO):
        q = Ptr(('*', ('target', n), scale(idx, Fraction(8))), ZERO)
        return s.t.m.load(s.t.mem, q, ir.DOUBLE)
    def effects(s):
        """field -> value diagram (initial value: opt.field), list -> events"""
        val = {}; lists = {}; other = []
        for n, e in enumerate(s.t.events):
            if e.kind == 'store':
                for q in leaves(e.ptr):
                    if not isinstance(q, Ptr) or q.obj != OPT: continue
                    k = s.of.get(int(numval(q.off))) if is_num(q.off) else None
                    if k is None: other.append(e); continue
                    if e.loops: lists.setdefault(k, []).append((n, e)); continue
                    v = e.val
                    if isinstance(v, Node) or v in (TRUE, FALSE): v = ite(v, N(1), N(0))
                    val.setdefault(k, []).append((n, e, unver(v)))
            elif e.kind == 'call' and e.name and re.search(r'::(push_back|emplace_back)', dm(e.name)):
                q = e.args[0].v if isinstance(e.args[0], Leaf) else None
                if isinstance(q, Ptr) and q.obj == OPT: lists.setdefault(s.of.get(int(numval(q.off))), []).append((n, e))
        return val, lists, other
def final(ws, init):
    v = init
    for n, e, x in ws: v = ite(unver(e.pc), x, v)
    return v
def is_conv(v, text, fns):
    """v is one conversion of the option's text"""
    if not isinstance(v, Leaf) or not isinstance(v.v, Poly): return False
    a = strs.atom1(v.v)
    if a is None or a.kind != 'fn' or not str(a.args[0]).startswith('call:'): return False
    if a.args[0][5:].split('(')[0].replace('__cxx11::', '') not in fns: return False
    args = [x.v if isinstance(x, Leaf) else x for x in a.args[1:]]
    t = args[0] if args else None
    b = strs.atom1(t) if isinstance(t, Poly) else None
    if b is None: return False
    w = strs.atom1(text.v)
    if 'sto' in a.args[0].split('(')[0] and b.kind == 'load' and w is not None and w.kind == 'load' and tuple(b.args[:2]) == tuple(w.args[:2]): return True
    if b.kind == 'load': o = b.args[0]
    else: return t is text.v
    if not (isinstance(o, tuple) and o[0] == 'cstr' and o[1] is text.v): return False
    return 'strtol' not in a.args[0] and 'strtoul' not in a.args[0] or len(args) < 3 or args[2] is num(10)
def cname(p, n):
    """value of a numeric constant of the program's headers"""
    return HEADERS[n]
HEADERS = {}
def headers():
    """numeric constants the options stand for, read from the headers' own definitions"""
    if HEADERS: return
    txt = ''
    for f in ('core/definitions.h', 'solvers/dispatch_solver.h', 'core/utilities_pub.h', 'solvers/solver_definitions.h'):
        try: txt += open(build.REPO + '/' + f).read()
        except OSError: pass
    for n in ('WEIGHTS_ARE_VARIANCES', 'WEIGHTS_ARE_WEIGHTS', 'MASK_ZERO_IS_BAD', 'NMSIMPLEX_SOLVER', 'DIFF_EVOLN_SOLVER', 'GENERIC_NLOPT_SOLVER', 'MPFIT_SOLVER', 'kAnyReal', 'kPosReal', 'kPosInt', 'kNonzeroInt', 'kAnyInt', 'WEIGHTS_ARE_SIGMAS', 'MASK_ZERO_IS_GOOD', 'HDR_MAKEIMAGE', 'HDR_MODELIMAGE', 'HDR_RESIDUALIMAGE', 'HDR_WEIGHTIMAGE'):
        m = re.search(r'(?:#define\s+%s\s+|\b%s\s*=\s*)(\d+)' % (n, n), txt)
        if not m: raise AnalysisError('constant %s not found in the headers' % n)
        HEADERS[n] = int(m.group(1))

def options_rule(c, prg):
    cls, flags, opts, queues, arg = PROGRAMS[prg]
    ln = Line_(c, prg); r, t = ln.r, ln.t
    FL = lambda n: bnot(vcmp('==', S('flag:' + n), N(0))); OP = lambda n: bnot(vcmp('==', S('opt:' + n), N(0)))
    # --- declared, documented, used
    decl = {}
    for kind, names, fn, i in ln.decl:
        e = gsa.Event('call', fn, i, TRUE)
        if not r.ob(names and all(names), 'declared', e, 'an option is declared under an unknown name'): continue
        long = max(names, key=len)
        r.ob(all(x not in decl for x in names), 'declared:' + long, e, 'option %s is declared twice' % names)
        for x in names: decl[x] = (kind, long, e)
        c.count('declared options')
    kinds = {}
    for n in list(flags) + list(ACT): kinds[n] = 'flag'
    for n in opts: kinds[n] = 'opt'
    for n in queues: kinds[n] = 'queue'
    for n, k in kinds.items():
        r.ob(n in decl and decl[n][0] == k, 'option:' + n, decl[n][2] if n in decl else None, 'option --%s is %s, it should be a %s' % (n, 'declared as a ' + decl[n][0] if n in decl else 'not declared', k), sample='%s: --%s is a %s' % (prg, n, k))
        if n in SHORT and (n != 'image-info' or prg == 'multimfit'): r.ob(SHORT[n] in decl and decl[SHORT[n]][1] == n, 'short:' + n, None, '-%s does not stand for --%s' % (SHORT[n], n))
    for kind, n, fn, i in ln.used:
        e = gsa.Event('call', fn, i, TRUE)
        k = decl.get(n, (None,))[0]
        good = k == 'flag' if kind == 'flag' else k in ('opt', 'queue') if kind in ('opt', 'target') else k == 'queue'
        r.ob(good, 'used:%s' % n, e, 'the program asks for %s %r, which is %s' % (kind, n, 'declared as a %s' % k if k else 'never declared')); c.count('option queries')
    for ps in ln.usage:
        m = re.match(r'\s*(?:-(\w)\s+)?\s*--([\w-]+)(\s+<[^>]*>)?', ''.join(x if isinstance(x, str) else '?' for x in ps))
        if not m: continue
        n = m.group(2)
        r.ob(n in decl, 'usage:' + n, None, 'the help text documents --%s, which is not an option' % n); c.count('documented options')
        if m.group(3): r.ob(decl.get(n, ('',))[0] != 'flag', 'usage:%s:value' % n, None, 'the help text gives --%s a value, it is declared without one' % n)
        if m.group(1): r.ob(decl.get(m.group(1), (0, 0))[1] == n, 'usage:%s:short' % n, None, 'the help text says -%s is --%s' % (m.group(1), n))
    # --- order: declare, parse, ask
    pos = {}
    for n, e in enumerate(t.events):
        if e.kind == 'call' and e.name and dm(e.name).startswith('CLineParser::'):
            k = dm(e.name).split('(')[0].split('::')[1].replace('[abi:cxx11]', '')
            pos.setdefault(k, []).append((n, e))
    pl = pos.get('ParseCommandLine', [])
    if r.ob(len(pl) == 1 and unver(pl[0][1].pc) is TRUE and same(pl[0][1].args[1], S('argc')) and pl[0][1].args[2] is ptr('ARGV'), 'parse', pl[0][1] if pl else None, 'the command line is not parsed once, from argc and argv'):
        for k in ('AddFlag', 'AddOption', 'AddQueueOption'):
            for n, e in pos.get(k, []): r.ob(n < pl[0][0] and unver(e.pc) is TRUE and not e.loops, 'order:' + k, e, 'an option is declared conditionally or after the command line has been parsed')
        for k in ('FlagSet', 'OptionSet', 'GetTargetString', 'GetNTargets', 'nArguments', 'GetArgument'):
            for n, e in pos.get(k, []): r.ob(n > pl[0][0], 'order:' + k, e, 'options are asked for before the command line has been parsed')
    un = pos.get('UnrecognizedAreErrors', [])
    r.ob(len(un) >= 1 and pl and un[0][0] < pl[0][0] and unver(un[0][1].pc) is TRUE, 'unrecognized', un[0][1] if un else None, 'unrecognised options are silently ignored')
    ex = anyof([e for n, e in t.calls(*ENDS) if not e.loops])
    r.ob(band(lt0(S('parsed')), bnot(ex)) is FALSE, 'parse:failure', pl[0][1] if pl else None, 'an unusable command line does not end the program')
    for n in ACT:
        if n != 'list-parameters': r.ob(band(FL(n), bnot(ex)) is FALSE, 'action:' + n, None, '--%s does not end the program' % n)
        c.count('information options')
    # --- effects
    val, lists, other = ln.effects()
    r.ob(not other, 'store', other[0] if other else None, 'a store into the options at an unknown place')
    want = {}
    for n, ef in j(flags, opts, queues).items():
        for k, v in ef.items(): want.setdefault(k.lstrip('+'), []).append((n, v, k[0] == '+'))
    if arg:
        want.setdefault(arg[0], []).append(('<argument>', STR, False)); want.setdefault(arg[1], []).append(('<argument>', 0, False))
    G = lambda n: FL(n) if n in flags or n in ACT else OP(n) if n in opts or n in queues else vcmp('>', S('nArguments'), N(0))
    extra = {'noImageDimensions'} if prg in ('makeimage', 'makemultimages') else set()
    for k in sorted((set(val) | set(lists)) - set(want) - extra): r.ob(False, 'field:' + str(k), (val.get(k) or lists.get(k))[0][1], 'the option setting %s is changed, which no documented option stands for' % k)
    inits = {}
    for k, ws in want.items():
        c.count('option settings')
        if any(l or v is COUNT for n, v, l in ws):
            n, v, l = ws[0]
            evs = lists.get(k, [])
            if not r.ob(len(evs) == 1, 'list:' + k, evs[0][1] if evs else None, '--%s: %s is filled at %d places' % (n, k, len(evs))): continue
            e = evs[0][1]
            if not r.ob(len(e.loops) == 1, 'list:%s:loop' % k, e, '--%s: not all values given are used' % n): continue
            kn, K = e.loops[0]
            cnt = S('count:' + n)
            r.ob(K is ite(vcmp('>', cnt, N(0)), cnt, N(0)), 'list:%s:all' % k, e, '--%s: the loop over the values given runs %s times' % (n, brief(K, 80)))
            pc = drop_loop_conds(unver(e.pc), e)
            for b in list(bvars(pc)):
                if 'count:' + n in syms(node(b, TRUE, FALSE)) or kn in syms(node(b, TRUE, FALSE)): pc = bor(restrict(pc, b, True), restrict(pc, b, False))
            r.ob(pc is G(n), 'list:%s:when' % k, e, '--%s: values are taken when %s' % (n, brief(pc, 120)))
            g = unver(e.val) if e.val is not None else BOT
            if v is COUNT: ok = same(g, vadd(vadd(S('opt.' + k), leaf(psym(kn))), N(1)))
            elif v is STR: ok = same(g, ln.target_text(n, psym(kn)))
            else: ok = is_conv(g, ln.target_text(n, psym(kn)), TO_INT)
            r.ob(ok, 'list:%s:value' % k, e, '--%s: %s receives %s' % (n, k, brief(g, 100)), sample='%s: value i of --%s -> %s[i]' % (prg, n, k))
            continue
        init = S('opt.' + k)
        got = final(val.get(k, []), init)
        e = val[k][0][1] if k in val else None
        anyset = FALSE
        for n, v, l in ws: anyset = bor(anyset, G(n))
        r.ob(under(got, bnot(anyset)) is init, 'field:%s:default' % k, e, '%s is changed although none of %s is given: %s' % (k, [n for n, v, l in ws], brief(under(got, bnot(anyset)), 120)))
        for n, v, l in ws:
            rest = [bnot(G(m)) for m, v2, l2 in ws if m != n and v2 != v]
            g = under(got, *(rest + [G(n)]))
            txt = ln.target_text('argument' if n == '<argument>' else n)
            if isinstance(v, int): ok = same(g, N(v)); w = v
            elif v in HEADERS: ok = same(g, N(HEADERS[v])); w = v
            elif v is STR: ok = same(g, txt); w = 'the text given'
            elif v in (REAL, POSREAL): ok = is_conv(g, txt, TO_REAL); w = 'the number given'
            else: ok = is_conv(g, txt, TO_INT); w = 'the whole number given'
            r.ob(ok, 'field:%s:%s' % (k, n), e, 'with --%s, %s becomes %s, not %s' % (n, k, brief(g, 120), w), sample='%s: --%s sets %s to %s' % (prg, n, k, w)); c.count('option effects')
    if extra:
        got = final(val.get('noImageDimensions', []), S('opt.noImageDimensions'))
        both = conj(*[no(vcmp('==', final(val.get(k, []), S('opt.' + k)), N(0))) for k in ('nColumns', 'nRows')])
        r.ob(got is ite(both, N(0), S('opt.noImageDimensions')), 'field:noImageDimensions', val.get('noImageDimensions', [(0, None)])[0][1], 'noImageDimensions is cleared when %s' % brief(got, 150))
    # --- numbers are checked
    for n, ef in j(opts, queues).items():
        for k, v in ef.items():
            if v not in (REAL, POSREAL, INT, NINT): continue
            kind = {REAL: ('kAnyReal',), POSREAL: ('kPosReal',), INT: ('kPosInt',), NINT: ('kPosInt', 'kAnyInt', 'kNonzeroInt')}[v]
            ok = False
            for x, e in t.calls(*ENDS):
                for kd in kind:
                    for ix in [ZERO] + [psym(q) for q, K in e.loops]:
                        bad = bnot(vcmp('==', vfn('notanumber', ln.target_text(n, ix), N(HEADERS[kd])), N(0)))
                        pc = drop_loop_conds(unver(e.pc), e)
                        for b in list(bvars(pc)):
                            if e.loops and 'count:' + n in syms(node(b, TRUE, FALSE)): pc = bor(restrict(pc, b, True), restrict(pc, b, False))
                        ok |= band(band(G(n), bad), bnot(pc)) is FALSE
            r.ob(ok, 'number:' + n, None, '--%s: a value that is not a %s is accepted' % (n, {REAL: 'number', POSREAL: 'positive number', INT: 'positive whole number', NINT: 'whole number'}[v]), sample='%s: --%s must be a number' % (prg, n)); c.count('number checks')
def C02():
    c = Check('C02', 'Value numbering of every program\'s command-line processing with the parser\'s queries kept symbolic: the final value of every option setting as a decision diagram over the options given, compared with the documented meaning of each option; the sets of declared, documented and queried options; checks of numbers.')
    headers()
    for prg in PROGRAMS: options_rule(c, prg)
    c.floor('declared options', 150); c.floor('option effects', 150); c.floor('option queries', 150); c.floor('number checks', 25)
    return c.finish()
# ------------------------------------------------------------------ C03
CONFIG = {'imfit': {'GAIN': ('gain', 'gainSet', TO_REAL), 'READNOISE': ('readNoise', 'readNoiseSet', TO_REAL), 'EXPTIME': ('expTime', 'expTimeSet', TO_REAL), 'ORIGINAL_SKY': ('originalSky', 'originalSkySet', TO_REAL), 'NCOMBINED': ('nCombined', 'nCombinedSet', TO_INT)},
          'makeimage': {'NCOLS': ('nColumns', 'nColumnsSet', TO_INT), 'NCOLUMNS': ('nColumns', 'nColumnsSet', TO_INT), 'NROWS': ('nRows', 'nRowsSet', TO_INT)}}
CONFIG['imfit-mcmc'] = CONFIG['imfit']
CFG_OFF = {'optionNames': 0, 'optionValues': 24, 'nOptions': 48}
def forget(pc, words):
    """pc without the decisions that mention any of the symbols"""
    for b in list(bvars(pc)):
        if syms(node(b, TRUE, FALSE)) & words: pc = bor(restrict(pc, b, True), restrict(pc, b, False))
    return pc
def literal_of(p, q):
    """text of a literal or constant string term"""
    t = strs.literal(q)
    if t is not None: return t
    a = strs.atom1(q)
    if a is None: return None
    if a.kind == 'sym' and a.args[0].startswith('glob.'):
        n = a.args[0][5:].rsplit('@', 1)[0]
        for k in p.mods:
            if n.endswith('.' + k): return strs.const_string(p, ('glob', n[:-len(k) - 1], k))
        return strs.const_string(p, ('glob', n.split('.')[0]))
    if a.kind == 'load' and isinstance(a.args[0], tuple) and a.args[0][0] == 'glob': return strs.const_string(p, a.args[0])
    return None
def config_rule(c, prg):
    headers()
    p = prog(MAINS[prg]); cls = PROGRAMS[prg][0]
    of = {o: n for n, o in p.fields(cls)[0].items()}
    H = {'NotANumber': lambda fr, i, a, m: (bnot(vcmp('==', vfn('notanumber', strs.get_chars(fr, m, a[0]), a[2]), N(0))), m)}
    t = Trace(p, p.func('HandleConfigFileOptions'), None, args=[ptr('CFG'), ptr('OPT')], hooks=H, names={OPT: {o: 'opt.' + n for o, n in of.items()}, 'CFG': {48: 'cfg.nOptions'}}, strings=True); r = Rule(c, t, prg)
    def el(off, k): return patom(atom('load', ('*', 'CFG', off), scale(psym(k), Fraction(32))))
    def name_tests(pc, k):
        """decision variables of pc that compare the k-th name: {variable: literal}"""
        nm = el(0, k); res = {}
        for b in bvars(pc):
            if b.args[0] != '==' or not isinstance(b.args[1], Poly): continue
            for sg in (1, -1):
                q = add(b.args[1], scale(nm, Fraction(sg)))
                l = literal_of(p, scale(q, Fraction(sg)))
                if l is not None: res[b] = l; break
        return res
    table = CONFIG[prg]; at = {}
    for n, e in enumerate(t.events):
        if e.kind != 'store': continue
        for q in leaves(e.ptr):
            if isinstance(q, Ptr) and q.obj == OPT:
                k = of.get(int(numval(q.off))) if is_num(q.off) else None
                if not r.ob(k is not None and len(e.loops) == 1, 'store', e, 'a setting is changed at an unknown place or outside the loop over the options of the file'): continue
                at.setdefault(k, []).append((n, e))
    for k in sorted(set(at) - {v[0] for v in table.values()}): r.ob(False, 'field:' + str(k), at[k][0][1], 'the configuration file changes %s, which no documented keyword stands for' % k)
    ends = [e for n, e in t.calls(*ENDS)]
    known = set()
    for lit, (field, flag, conv) in table.items():
        evs = at.get(field, [])
        if not r.ob(evs, 'keyword:' + lit, None, 'the keyword %s of the configuration file has no effect on %s' % (lit, field)): continue
        when = FALSE; val = BOT; kn = evs[0][1].loops[0][0]
        for n, e in evs:
            k, K = e.loops[0]
            cnt = S('cfg.nOptions')
            r.ob(nonneg_norm(unver(K), lambda a: a is strs.atom1(cnt.v)) is cnt or K is ite(vcmp('>', cnt, N(0)), cnt, N(0)), 'all:' + field, e, 'not all options of the file are looked at: %s' % brief(K, 100))
            pc = forget(drop_loop_conds(unver(e.pc), e), {'cfg.nOptions'})
            tests = name_tests(pc, k); known |= set(tests.values())
            for b, l in tests.items(): pc = restrict(pc, b, l == lit)
            for b in list(bvars(pc)):           # the number check has its own obligation
                if k in syms(node(b, TRUE, FALSE)) and any(a.kind == 'fn' and a.args[0] == 'notanumber' for a in atoms_of(b)): pc = restrict(pc, b, False)
            v = unver(e.val)
            when = bor(when, pc); val = ite(pc, v, val)
        val = under(val, when)
        txt = el(24, kn)
        r.ob(when is no(onz(flag)), 'when:' + lit, evs[0][1], 'the value of %s is taken %s instead of unless it was given on the command line' % (lit, 'never' if when is FALSE else 'when ' + brief(when, 160)), sample='%s: %s of the file is used unless %s' % (prg, lit, flag))
        ok = val is not BOT and (is_conv(val, leaf(txt), conv))
        r.ob(ok, 'value:' + lit, evs[0][1], '%s becomes %s, not the number given for %s' % (field, brief(val, 160), lit), sample='%s: %s <- value given with %s' % (prg, field, lit)); c.count('keywords')
        # a keyword of another meaning changes nothing here
        for other in list(table) + ['<other>']:
            if other in table and table[other][0] == field: continue
            w = FALSE
            for n, e in evs:
                pc = drop_loop_conds(unver(e.pc), e)
                for b, l in name_tests(pc, e.loops[0][0]).items(): pc = restrict(pc, b, l == other)
                w = bor(w, pc)
            r.ob(w is FALSE, 'only:%s:%s' % (field, other), evs[0][1], 'the keyword %s changes %s' % (other, field)); c.count('keyword pairs')
        if prg == 'makeimage':
            bad = FALSE
            for e in ends:
                if not e.loops: continue
                pc = forget(drop_loop_conds(unver(e.pc), e), {'cfg.nOptions'})
                for b, l in name_tests(pc, e.loops[0][0]).items(): pc = restrict(pc, b, l == lit)
                nan = bnot(vcmp('==', vfn('notanumber', leaf(el(24, e.loops[0][0])), N(HEADERS['kPosInt'])), N(0)))
                if band(band(no(onz(flag)), nan), bnot(pc)) is FALSE: bad = TRUE
            r.ob(bad is TRUE, 'number:' + lit, evs[0][1], 'a value of %s that is not a positive whole number is accepted' % lit); c.count('number checks')
def C03():
    c = Check('C03', 'Value numbering of the configuration-file option handling: for every setting, the decision diagram of keyword and command-line flag under which it changes, and the value it receives, compared with the documented keywords.')
    for prg in CONFIG: config_rule(c, prg)
    c.floor('keywords', 13); c.floor('keyword pairs', 40)
    return c.finish()
TABLE = {'C01': C01, 'C02': C02, 'C03': C03}

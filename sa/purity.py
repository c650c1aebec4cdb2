"""Effect analysis on traced value numbering: which stores and external effects of a call reach objects it does not own."""
import re
from . import gsa, ir
from .build import dm, AnalysisError
from .cas import *
from .gsa import Machine, Mem

# external functions: argument positions they may write through (everything else read-only); None: no effect at all
EXT_WRITES = {
 '@gsl_integration_workspace_alloc': (), '@gsl_integration_cquad_workspace_alloc': (), '@malloc': (), '@calloc': (), '@_Znwm': (), '@_Znam': (), '@free': (0,), '@_ZdlPv': (0,), '@_ZdaPv': (0,), '@_ZdlPvm': (0,),
 '@gsl_integration_workspace_free': (0,), '@gsl_integration_cquad_workspace_free': (0,),
 '@gsl_integration_qags': (6, 7, 8), '@gsl_integration_qag': (7, 8, 9), '@gsl_integration_cquad': (5, 6, 7, 8), '@gsl_integration_qng': (5, 6, 7), '@gsl_integration_qagi': (4, 5, 6), '@gsl_integration_romberg': (5, 6, 7),
 '@gsl_spline2d_eval': (3, 4), '@gsl_interp2d_eval': (6, 7), '@gsl_spline_eval': (2,), '@gsl_spline2d_eval_deriv_x': (3, 4),
 '@gsl_set_error_handler_off': (), '@__cxa_atexit': (), '@strlen': (), '@memcmp': (), '@strcmp': (), '@abort': (), '@exit': (),
 '@__clang_call_terminate': (), '@_ZSt9terminatev': (), '@_ZSt20__throw_length_errorPKc': (),
}
def fresh_obj(o):
    """object owned by the call being analysed: stack slot, or memory it allocated itself"""
    if isinstance(o, tuple) and o:
        if o[0] == 'alloca': return True
        if o[0] == 'ret' and re.search(r'operator new|malloc|calloc|_alloc\b|_alloc$', str(o[1])): return True
    return False
def ptr_leaves(v):
    return [q for q in leaves(v) if not (isinstance(q, Poly) or isinstance(q, bool) or q is None)]

def effects(m, events, allow_indirect, prog):
    """[(kind, fn, inst, text)] of effects visible outside"""
    bad = []
    def line(e): return '%s:%s' % tuple(str(x) for x in e.fn.line(e.inst))
    for e in events:
        if e.pc is FALSE: continue
        if e.kind == 'store':
            for q in leaves(e.ptr):
                if isinstance(q, Ptr) and (fresh_obj(q.obj) or q.obj == 'null'): continue
                bad.append(('store', e, 'writes %s' % describe(m, q)))
        elif e.kind == 'call':
            n = e.name
            if n is None:
                if not allow_indirect(m, e): bad.append(('indirect', e, 'calls through a pointer that cannot be resolved'))
                continue
            if n.startswith('@llvm.'):
                if n.startswith(('@llvm.memcpy', '@llvm.memset', '@llvm.memmove')):
                    for q in leaves(e.args[0]):
                        if not (isinstance(q, Ptr) and fresh_obj(q.obj)): bad.append(('store', e, 'copies into %s' % describe(m, q)))
                continue
            if gsa.pure_name(n) is not None or n in ('@fmax', '@fmin', '@gsl_pow_int'): continue
            f = prog.defined(n)
            if f is not None and not gsa.skip_std(n): continue        # analysed inside
            if n in gsa.GSL_INTEG or n in EXT_WRITES: wr = EXT_WRITES.get(n, ())
            else: wr = None
            d = dm(n)
            if wr is None:
                # not modelled: every pointer handed to it must be owned by this call; a function taking no pointer may still have hidden state
                if n.startswith(('@rand', '@srand', '@genrand', '@init_genrand', '@time', '@clock')) or not (e.fn.mod.declared_pure(n) if hasattr(e.fn.mod, 'declared_pure') else False):
                    ptrs = [q for a in e.args for q in leaves(a) if isinstance(q, Ptr)]
                    if any(not fresh_obj(q.obj) and not const_obj(q.obj, prog) for q in ptrs) or not ptrs or not harmless(d):
                        bad.append(('extern', e, 'calls %s, which may change state shared between evaluations' % d))
                continue
            for k in wr:
                if k >= len(e.args): continue
                for q in leaves(e.args[k]):
                    if isinstance(q, Ptr) and (fresh_obj(q.obj) or q.obj == 'null'): continue
                    bad.append(('extern', e, 'lets %s modify %s' % (d, describe(m, q))))
    return bad

HARMLESS = re.compile(r'^(printf|fprintf|puts|fputs|putchar|std::basic_ostream|std::operator<<)')
def harmless(d): return bool(HARMLESS.match(d))
def const_obj(o, prog):
    if isinstance(o, tuple) and o and o[0] == 'glob':
        m, g = prog.glob(o[1], o[2] if len(o) > 2 else None)
        return bool(g and g[0]) or o[1] in ('@stdout', '@stderr', '@_ZSt4cout', '@_ZSt4cerr')
    return False

def describe(m, q):
    if isinstance(q, Ptr):
        o = q.obj
        if o in m.names and is_num(q.off):
            return 'object field %s' % m.names[o].get(int(numval(q.off)), '+%s' % q.off).replace('this.', '')
        if isinstance(o, tuple) and o and o[0] == 'glob': return 'static variable %s' % dm(o[1])
        return 'memory at %r' % (q,)
    return 'an unknown location'

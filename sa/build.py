"""Compile the translation units of /repo to LLVM IR with the project's flags (no linking, no running)."""
import os, subprocess, sys, tempfile, shutil, re, hashlib
from concurrent.futures import ThreadPoolExecutor
from . import ir

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
CLANG = 'clang++-18'; OPT = 'opt-18'
DEFINES = ['-DANSI', '-DUSING_SCONS', '-DLINUX', '-DFFTW_THREADING', '-DUSE_OPENMP']
INCLUDES = ['.', 'core', 'solvers', 'cdream', 'cdream/include', 'function_objects', 'function_objects_1d', 'profile_fitting']
PASSES = 'function(sroa,early-cse,simplifycfg,loop-simplify,lcssa)'
ONELOOP = 'function(sroa,early-cse,simplifycfg,lcssa)'      # a loop with several ways back stays one loop
LIGHT = 'function(sroa,simplifycfg<no-switch-to-lookup>)'

class AnalysisError(Exception):
    """the analysis itself cannot give an answer"""

def flags(repo):
    inc = []
    for i in INCLUDES: inc += ['-I', os.path.join(repo, i)]
    return ['-std=c++11'] + DEFINES + ['-isystem', os.path.join(HERE, 'stub')] + inc + ['-include', 'cstring', '-w']

def compile_one(repo, src, outdir, passes, extra):
    base = os.path.join(outdir, src.replace('/', '_'))
    raw, out = base + '.raw.ll', base + '.ll'
    cmd = [CLANG] + flags(repo) + ['-O1', '-g', '-fstandalone-debug', '-fno-math-errno', '-ffp-contract=off', '-Xclang', '-disable-llvm-passes',
           '-emit-llvm', '-S'] + list(extra) + [os.path.join(repo, src), '-o', raw]
    r = subprocess.run(cmd, capture_output=True, text=True, cwd=repo)
    if r.returncode != 0: return src, None, r.stderr[:2000]
    if passes:
        r = subprocess.run([OPT, '-passes=' + passes, '-S', raw, '-o', out], capture_output=True, text=True)
        if r.returncode != 0: return src, None, r.stderr[:2000]
        os.unlink(raw)
    else: os.rename(raw, out)
    with open(out) as f: text = f.read()
    os.unlink(out)
    return src, text, None

def compile_all(sources, passes=PASSES, extra=(), repo=None, allow_fail=False):
    repo = repo or REPO
    tmp = tempfile.mkdtemp(prefix='imfit_sa_')
    mods = {}; failed = {}
    try:
        with ThreadPoolExecutor(max_workers=8) as ex:
            for src, text, err in ex.map(lambda s: compile_one(repo, s, tmp, passes, extra), sources):
                if text is None:
                    if not allow_fail:
                        raise AnalysisError('cannot compile %s: %s' % (src, err))
                    failed[src] = err
                else: mods[src] = text
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    out = {s: ir.Module(t, s) for s, t in mods.items()}
    return (out, failed) if allow_fail else out

def preprocessed(src, repo=None):
    repo = repo or REPO
    r = subprocess.run([CLANG] + flags(repo) + ['-E', '-P', os.path.join(repo, src)], capture_output=True, text=True, cwd=repo)
    if r.returncode != 0: raise AnalysisError('cannot preprocess %s: %s' % (src, r.stderr[:1000]))
    return r.stdout

# ----------------------------------------------------------------- source discovery
def repo_sources(repo=None, dirs=('core', 'solvers', 'function_objects', 'cdream', 'profile_fitting', 'function_objects_1d')):
    repo = repo or REPO
    out = []
    for d in dirs:
        p = os.path.join(repo, d)
        if os.path.isdir(p):
            out += [d + '/' + f for f in sorted(os.listdir(p)) if f.endswith('.cpp')]
    return out

_dm = {}
def demangle(names):
    todo = [n for n in names if n not in _dm]
    if todo:
        r = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(n.lstrip('@') for n in todo) + '\n', capture_output=True, text=True)
        for n, d in zip(todo, r.stdout.split('\n')): _dm[n] = d
    return [_dm[n] for n in names]
def dm(name):
    if name not in _dm: demangle([name])
    return _dm[name]

class Program:
    """A set of modules with one function table."""
    def __init__(s, mods):
        s.mods = mods
        s.fns = {}
        s.internal = {}     # (module, name) of static functions
        for k, m in mods.items():
            m.key = k
            for n, f in m.functions.items():
                if f.lines is not None and re.match(r'define (\w+ )*?internal ', f.header): s.internal[(k, n)] = f
                if f.lines is not None and (n not in s.fns or s.fns[n].lines is None): s.fns[n] = f
                elif n not in s.fns: s.fns[n] = f
        s.vt = {}
        demangle(list(s.fns))
        s.bydm = {}
        for n in s.fns:
            s.bydm.setdefault(dm(n), n)
    def get(s, name):
        return s.fns.get(name)
    def defined(s, name, mod=None):
        f = s.internal.get((mod.key, name)) if mod is not None else None
        if f is None: f = s.fns.get(name)
        return f if f is not None and f.lines is not None else None
    def glob(s, name, mod=None):
        """(module, (const, ty, init)) preferring `mod` for internal symbols"""
        if isinstance(mod, str): mod = s.mods[mod]
        cands = ([mod] if mod is not None else []) + list(s.mods.values())
        for m in cands:
            if name in m.globals:
                g = m.ginit(name)
                if g and g[2] is not None: return m, g
        return None, None
    def find_vtable(s, cls):
        """vtable slots (function names or None) of class, from the definition of its vtable"""
        nm = '@_ZTV%d%s' % (len(cls), cls) if '::' not in cls else '@_ZTVN%sE' % ''.join('%d%s' % (len(x), x) for x in cls.split('::'))
        if nm in s.vt: return s.vt[nm]
        m, g = s.glob(nm)
        res = None
        if g:
            arr = g[2].v[0]
            res = []
            for e in arr.v:
                res.append(e.v if e.k == 'global' else None)
        s.vt[nm] = res
        return res
    def methods(s, cls):
        pre = '%s::' % cls
        return {n: f for n, f in s.fns.items() if dm(n).startswith(pre) and f.lines is not None}
    def find(s, cls, meth):
        """definitions of cls::meth (any overload)"""
        pre = ('%s::%s(' % (cls, meth), '%s::%s[abi:cxx11](' % (cls, meth))
        return [f for n, f in s.fns.items() if dm(n).startswith(pre) and f.lines is not None]

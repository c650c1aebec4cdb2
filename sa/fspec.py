"""Interface of the image functions as documented for users (parameter order, meaning, units).

kinds: pa (position angle), ang (other angle), ell, amp (surface brightness / flux, converted with the image's
flux scale), len (pixels), invlen (1/pixels), num (dimensionless), grad (counts/pixel per pixel)
"""
SPEC = {
 'Exponential': [('PA', 'pa'), ('ell', 'ell'), ('I_0', 'amp'), ('h', 'len')],
 'Sersic': [('PA', 'pa'), ('ell', 'ell'), ('n', 'num'), ('I_e', 'amp'), ('r_e', 'len')],
 'Sersic_GenEllipse': [('PA', 'pa'), ('ell', 'ell'), ('c0', 'num'), ('n', 'num'), ('I_e', 'amp'), ('r_e', 'len')],
 'Core-Sersic': [('PA', 'pa'), ('ell', 'ell'), ('n', 'num'), ('I_b', 'amp'), ('r_e', 'len'), ('r_b', 'len'), ('alpha', 'num'), ('gamma', 'num')],
 'Exponential_GenEllipse': [('PA', 'pa'), ('ell', 'ell'), ('c0', 'num'), ('I_0', 'amp'), ('h', 'len')],
 'BrokenExponential': [('PA', 'pa'), ('ell', 'ell'), ('I_0', 'amp'), ('h1', 'len'), ('h2', 'len'), ('r_break', 'len'), ('alpha', 'invlen')],
 'BrokenExponential2D': [('PA', 'pa'), ('I_0', 'amp'), ('h1', 'len'), ('h2', 'len'), ('r_break', 'len'), ('alpha', 'invlen'), ('h_z', 'len')],
 'EdgeOnRing': [('PA', 'pa'), ('I_0', 'amp'), ('r', 'len'), ('sigma_r', 'len'), ('sigma_z', 'len')],
 'EdgeOnRing2Side': [('PA', 'pa'), ('I_0', 'amp'), ('r', 'len'), ('sigma_r_in', 'len'), ('sigma_r_out', 'len'), ('sigma_z', 'len')],
 'FlatBar': [('PA', 'pa'), ('ell', 'ell'), ('deltaPA_max', 'ang'), ('I_0', 'amp'), ('h1', 'len'), ('h2', 'len'), ('r_break', 'len'), ('alpha', 'invlen')],
 'GaussianRing': [('PA', 'pa'), ('ell', 'ell'), ('A', 'amp'), ('R_ring', 'len'), ('sigma_r', 'len')],
 'GaussianRing2Side': [('PA', 'pa'), ('ell', 'ell'), ('A', 'amp'), ('R_ring', 'len'), ('sigma_r_in', 'len'), ('sigma_r_out', 'len')],
 'GaussianRingAz': [('PA', 'pa'), ('ell', 'ell'), ('A_maj', 'amp'), ('A_min_rel', 'num'), ('R_ring', 'len'), ('sigma_r', 'len')],
 'Gaussian': [('PA', 'pa'), ('ell', 'ell'), ('I_0', 'amp'), ('sigma', 'len')],
 'Moffat': [('PA', 'pa'), ('ell', 'ell'), ('I_0', 'amp'), ('fwhm', 'len'), ('beta', 'num')],
 'ModifiedKing': [('PA', 'pa'), ('ell', 'ell'), ('I_0', 'amp'), ('r_c', 'len'), ('r_t', 'len'), ('alpha', 'num')],
 'ModifiedKing2': [('PA', 'pa'), ('ell', 'ell'), ('I_0', 'amp'), ('r_c', 'len'), ('c', 'num'), ('alpha', 'num')],
 'FerrersBar2D': [('PA', 'pa'), ('ell', 'ell'), ('c0', 'num'), ('n', 'num'), ('I_0', 'amp'), ('a_bar', 'len')],
 'FlatSky': [('I_sky', 'amp')],
 'TiltedSkyPlane': [('I_0', 'amp'), ('m_x', 'grad'), ('m_y', 'grad')],
 'DattathriPeanut3D': [('PA_lon', 'pa'), ('inc', 'ang'), ('barPA', 'ang'), ('J0_bar', 'amp'), ('R_bar_x', 'len'), ('q', 'num'), ('q_z', 'num'),
                       ('R_peanut', 'len'), ('A_peanut', 'len'), ('sigma_peanut', 'len'), ('c_bar_par', 'num'), ('c_bar_perp', 'num')],
 'EdgeOnDisk': [('PA', 'pa'), ('L_0', 'amp'), ('h', 'len'), ('n', 'num'), ('z_0', 'len')],
 'ExponentialDisk3D': [('PA', 'pa'), ('inc', 'ang'), ('J_0', 'amp'), ('h', 'len'), ('n', 'num'), ('z_0', 'len')],
 'BrokenExponentialDisk3D': [('PA', 'pa'), ('inc', 'ang'), ('J_0', 'amp'), ('h1', 'len'), ('h2', 'len'), ('r_break', 'len'), ('alpha', 'invlen'), ('n', 'num'), ('z_0', 'len')],
 'GaussianRing3D': [('PA', 'pa'), ('inc', 'ang'), ('PA_ring', 'ang'), ('ell', 'ell'), ('J_0', 'amp'), ('a_ring', 'len'), ('sigma', 'len'), ('h_z', 'len')],
 'FerrersBar3D': [('PA', 'pa'), ('inc', 'ang'), ('barPA', 'ang'), ('J_0', 'amp'), ('R_bar', 'len'), ('q', 'num'), ('q_z', 'num'), ('n', 'num')],
 'PointSource': [('I_tot', 'amp')],
 'PointSourceRot': [('PA', 'pa'), ('I_tot', 'amp')],
}

# ---------------------------------------------------------------------------------------------------------
# Documented profiles.  F[name](p, u, v) is the term for the un-subsampled value; p: parameters by label (already
# converted to this image's units), u along and v perpendicular to the component's major axis / line of nodes.
# A profile that may switch to its large-argument limit takes the switch points from `T`.
from .cas import *
_D = math.pi / 180.0
def _k(c): return N(c)
def _sq(a): return vmul(a, a)
def _pw(a, b): return vpow(a, b)
def _exp(a): return vfn('exp', a)
def _sqrt(a): return vfn('sqrt', a)
def _abs(a): return vfn('abs', a)
def _sum(*a):
    r = a[0]
    for x in a[1:]: r = vadd(r, x)
    return r
def _prod(*a):
    r = a[0]
    for x in a[1:]: r = vmul(r, x)
    return r
def _inv(a): return vdiv(N(1), a)
def _q(p): return vsub(N(1), p['ell'])
def _rell(p, u, v): return _sqrt(vadd(_sq(u), _sq(vdiv(v, _q(p)))))
def _rgen(p, u, v):
    e = vadd(p['c0'], N(2))
    return _pw(vadd(_pw(_abs(u), e), _pw(_abs(vdiv(v, _q(p))), e)), _inv(e))
def bn(n):
    ciotti = _sum(vmul(N(2), n), N(Fraction(-1, 3)), vdiv(N(4 / 405.), n), vdiv(N(46 / 25515.), _sq(n)), vdiv(N(131 / 1148175.), _prod(n, n, n)), vdiv(N(-2194697 / 30690717750.), _prod(n, n, n, n)))
    mac = _sum(N(0.01945), vmul(N(-0.8902), n), vmul(N(10.95), _sq(n)), vmul(N(-19.67), _prod(n, n, n)), vmul(N(13.43), _prod(n, n, n, n)))
    return ite(vcmp('>', n, N(0.36)), ciotti, mac)
def _sersic(p, r): return vmul(p['I_e'], _exp(vneg(vmul(bn(p['n']), vsub(_pw(vdiv(r, p['r_e']), _inv(p['n'])), N(1))))))
def _gauss(d, s): return _exp(vneg(vdiv(_sq(d), vmul(N(2), _sq(s)))))
class Switch:
    """threshold of a documented exact/limit switch; found in the analysed term, must be at least `least`"""
    def __init__(s, default, least): s.default, s.least = default, least
BEXP, COSH = Switch(100.0, 30.0), Switch(100.0, 20.0)
T = {'bexp': 100.0, 'cosh': 100.0}
def _brokenexp(I0, h1, h2, rb, al, r):
    ex = vmul(_inv(al), vsub(_inv(h1), _inv(h2)))
    Sf = _pw(vadd(N(1), _exp(vneg(vmul(al, rb)))), vneg(ex))
    g = vmul(al, vsub(r, rb))
    full = _prod(I0, Sf, _exp(vneg(vdiv(r, h1))), _pw(vadd(N(1), _exp(g)), ex))
    lim = _prod(I0, Sf, _exp(vsub(vsub(vdiv(rb, h2), vdiv(rb, h1)), vdiv(r, h2))))
    return ite(vcmp('>', g, N(T['bexp'])), lim, full)
def _sech(n, z0, z):
    al = vdiv(N(2), n)
    w = vdiv(z, vmul(al, z0))
    return ite(vcmp('>', w, N(T['cosh'])), vmul(_pw(N(2), al), _exp(vneg(vdiv(z, z0)))), _pw(_inv(vfn('cosh', w)), al))
def _king(p, r, rt):
    a = p['alpha']
    def w(x): return _inv(_pw(vadd(N(1), _sq(vdiv(x, p['r_c']))), _inv(a)))
    val = _prod(p['I_0'], _pw(vsub(N(1), w(rt)), vneg(a)), _pw(vsub(w(r), w(rt)), a))
    return ite(vcmp('<', r, rt), val, N(0))
def _coresersic(p, r):
    r = ite(vcmp('<', r, N(0.001)), N(0.001), r)
    n, re, rb, a, g = p['n'], p['r_e'], p['r_b'], p['alpha'], p['gamma']
    b = bn(n)
    Ip = _prod(p['I_b'], _pw(N(2), vneg(vdiv(g, a))), _exp(vmul(b, _pw(vmul(_pw(N(2), _inv(a)), vdiv(rb, re)), _inv(n)))))
    return _prod(Ip, _pw(vadd(N(1), _pw(vdiv(rb, r), a)), vdiv(g, a)),
                 _exp(vneg(vmul(b, _pw(vdiv(vadd(_pw(r, a), _pw(rb, a)), _pw(re, a)), _inv(vmul(a, n)))))))
def _edgering(p, u, v, sl, sr):
    z = _gauss(v, p['sigma_z'])
    return vmul(p['I_0'], vadd(vmul(_gauss(vadd(u, p['r']), sl), z), vmul(_gauss(vsub(u, p['r']), sr), z)))
def _edgering2(p, u, v):
    i, o, r = p['sigma_r_in'], p['sigma_r_out'], p['r']
    sl = ite(vcmp('<', u, vneg(r)), o, i)
    sr = ite(vcmp('<', u, vneg(r)), i, ite(vcmp('<', u, r), i, o))
    return _edgering(p, u, v, sl, sr)
def _flatbar(p, u, v):
    r = _rell(p, u, v); rc = _sqrt(vadd(_sq(u), _sq(v)))
    dmax = vmul(N(_D), p['deltaPA_max'])
    d = _abs(vfn('atan', vdiv(v, u)))
    par = vadd(p['h2'], vmul(vdiv(vsub(p['h1'], p['h2']), _sq(dmax)), _sq(d)))
    h2 = ite(vcmp('<', d, N(0)), p['h2'], ite(vcmp('>', d, dmax), p['h1'], par))
    c = band(vcmp('>', rc, N(0)), vcmp('>', r, N(0)))
    rb = ite(c, vmul(vdiv(r, rc), p['r_break']), p['r_break'])
    h2 = ite(c, h2, p['h2'])
    # beyond the maximum angle: a single exponential
    return ite(vcmp('>', d, dmax), vmul(p['I_0'], _exp(vneg(vdiv(r, p['h1'])))), _brokenexp(p['I_0'], p['h1'], h2, rb, p['alpha'], r))
def _ferrers2d(p, u, v):
    m2 = vdiv(_sq(_rgen(p, u, v)), _sq(p['a_bar']))
    return ite(vcmp('>', m2, N(1)), N(0), vmul(p['I_0'], _pw(vsub(N(1), m2), p['n'])))
def _edgedisk(p, u, v):
    R, z = _abs(u), _abs(v)
    s = vdiv(R, p['h'])
    c = _prod(N(2), p['h'], p['L_0'])
    rad = ite(vcmp('==', R, N(0)), c, _prod(c, s, vfn('gsl_sf_bessel_K1', s)))
    return vmul(rad, _sech(p['n'], p['z_0'], z))
def _los(p, u, v, s):
    i = vmul(N(_D), p['inc']); c, sn = vfn('cos', i), vfn('sin', i)
    return u, vadd(vmul(v, c), vmul(s, sn)), vsub(vmul(v, sn), vmul(s, c))
def _rotate(x, y, deg, off):
    a = vmul(N(_D), vadd(deg, N(off))); c, s = vfn('cos', a), vfn('sin', a)
    return vadd(vmul(x, c), vmul(y, s)), vsub(vmul(y, c), vmul(x, s))
def _integral(dens, L):
    t = fresh('$t'); s = leaf(psym(t))
    return bind('integ', t, dens(s), vneg(L), L)
def _expdisk3d(p, u, v):
    def d(s):
        x, y, z = _los(p, u, v, s)
        return _prod(p['J_0'], _exp(vneg(vdiv(_sqrt(vadd(_sq(x), _sq(y))), p['h']))), _sech(p['n'], p['z_0'], _abs(z)))
    return _integral(d, vmul(N(20), p['h']))
def _bexpdisk3d(p, u, v):
    def d(s):
        x, y, z = _los(p, u, v, s)
        return _prod(_brokenexp(p['J_0'], p['h1'], p['h2'], p['r_break'], p['alpha'], _sqrt(vadd(_sq(x), _sq(y)))), _sech(p['n'], p['z_0'], _abs(z)))
    a, b = vmul(N(20), p['r_break']), vmul(N(20), p['h2'])
    return _integral(d, ite(vcmp('<', a, b), b, a))
def _gring3d(p, u, v):
    def d(s):
        x, y, z = _los(p, u, v, s)
        X, Y = _rotate(x, y, p['PA_ring'], 90)
        R = _sqrt(vadd(_sq(X), _sq(vdiv(Y, _q(p)))))
        return _prod(p['J_0'], _gauss(vsub(R, p['a_ring']), p['sigma']), _exp(vneg(vdiv(_abs(z), p['h_z']))))
    return _integral(d, vmul(N(2), p['a_ring']))
def _ferrers3d(p, u, v):
    i = vmul(N(_D), p['inc'])
    a = p['R_bar']; b = vmul(p['q'], a); c = vmul(p['q_z'], a)
    def d(s):
        x, y, z = _los(p, u, v, s)
        X, Y = _rotate(x, y, p['barPA'], 90)
        m2 = _sum(vdiv(_sq(Y), _sq(a)), vdiv(_sq(X), _sq(b)), vdiv(_sq(z), _sq(c)))
        return ite(vcmp('>', m2, N(1)), N(0), vmul(p['J_0'], _pw(vsub(N(1), m2), p['n'])))
    e = vmul(_sqrt(_sq(b)), vfn('sin', i))
    return _integral(d, vmul(N(1.01), ite(vcmp('<', e, a), a, e)))
def _peanut(p, u, v):
    Rx, Ry, Rz = p['R_bar_x'], vmul(p['q'], p['R_bar_x']), vmul(p['q_z'], p['R_bar_x'])
    def d(s):
        x, y, z = _los(p, u, v, s)
        X, Y = _rotate(x, y, p['barPA'], 0)
        def bump(dx): return vmul(p['A_peanut'], _exp(vneg(vdiv(vadd(_sq(dx), _sq(Y)), vmul(N(2), _sq(p['sigma_peanut']))))))
        z0 = _sum(bump(vsub(X, p['R_peanut'])), bump(vadd(X, p['R_peanut'])), Rz)
        cp, cv = p['c_bar_par'], p['c_bar_perp']
        Rs = vadd(_pw(vadd(_pw(vdiv(_abs(X), Rx), cv), _pw(vdiv(_abs(Y), Ry), cv)), vdiv(cp, cv)), _pw(vdiv(_abs(z), z0), cp))
        Rs = _pw(Rs, _inv(cp))
        return vmul(p['J0_bar'], _pw(vfn('cosh', Rs), N(-2)))
    return _integral(d, vmul(N(10), Rx))

F = {
 'Exponential': lambda p, u, v: vmul(p['I_0'], _exp(vneg(vdiv(_rell(p, u, v), p['h'])))),
 'Exponential_GenEllipse': lambda p, u, v: vmul(p['I_0'], _exp(vneg(vdiv(_rgen(p, u, v), p['h'])))),
 'Sersic': lambda p, u, v: _sersic(p, _rell(p, u, v)),
 'Sersic_GenEllipse': lambda p, u, v: _sersic(p, _rgen(p, u, v)),
 'Core-Sersic': lambda p, u, v: _coresersic(p, _rell(p, u, v)),
 'BrokenExponential': lambda p, u, v: _brokenexp(p['I_0'], p['h1'], p['h2'], p['r_break'], p['alpha'], _rell(p, u, v)),
 'BrokenExponential2D': lambda p, u, v: vmul(_brokenexp(p['I_0'], p['h1'], p['h2'], p['r_break'], p['alpha'], _abs(u)), _exp(vneg(vdiv(_abs(v), p['h_z'])))),
 'EdgeOnRing': lambda p, u, v: _edgering(p, u, v, p['sigma_r'], p['sigma_r']),
 'EdgeOnRing2Side': _edgering2,
 'FlatBar': _flatbar,
 'GaussianRing': lambda p, u, v: vmul(p['A'], _gauss(vsub(_rell(p, u, v), p['R_ring']), p['sigma_r'])),
 'GaussianRing2Side': lambda p, u, v: vmul(p['A'], _gauss(vsub(_rell(p, u, v), p['R_ring']), ite(vcmp('<', _rell(p, u, v), p['R_ring']), p['sigma_r_in'], p['sigma_r_out']))),
 'GaussianRingAz': lambda p, u, v: vmul(vmul(vmul(N(Fraction(1, 2)), p['A_maj']), vadd(vadd(N(1), p['A_min_rel']), vmul(vsub(N(1), p['A_min_rel']), vfn('cos', vmul(N(2), vfn('atan2', v, u)))))),
                                       _gauss(vsub(_rell(p, u, v), p['R_ring']), p['sigma_r'])),
 'Gaussian': lambda p, u, v: vmul(p['I_0'], _gauss(_rell(p, u, v), p['sigma'])),
 'Moffat': lambda p, u, v: vdiv(p['I_0'], _pw(vadd(N(1), _sq(vdiv(_rell(p, u, v), vdiv(p['fwhm'], vmul(N(2), _sqrt(vsub(_pw(N(2), _inv(p['beta'])), N(1)))))))), p['beta'])),
 'ModifiedKing': lambda p, u, v: _king(p, _rell(p, u, v), p['r_t']),
 'ModifiedKing2': lambda p, u, v: _king(p, _rell(p, u, v), vmul(p['c'], p['r_c'])),
 'FerrersBar2D': _ferrers2d,
 'FlatSky': lambda p, u, v: p['I_sky'],
 'TiltedSkyPlane': lambda p, u, v: _sum(p['I_0'], vmul(p['m_x'], u), vmul(p['m_y'], v)),
 'DattathriPeanut3D': _peanut,
 'EdgeOnDisk': _edgedisk,
 'ExponentialDisk3D': _expdisk3d,
 'BrokenExponentialDisk3D': _bexpdisk3d,
 'GaussianRing3D': _gring3d,
 'FerrersBar3D': _ferrers3d,
}
POINT = ('PointSource', 'PointSourceRot')
# closed-form total fluxes
FLUX = {
 'Exponential': lambda p: _prod(N(2 * math.pi), _q(p), p['I_0'], _sq(p['h'])),
 'Gaussian': lambda p: _prod(N(2 * math.pi), _q(p), p['I_0'], _sq(p['sigma'])),
 'Sersic': lambda p: _prod(N(2 * math.pi), p['n'], _exp(bn(p['n'])), _pw(bn(p['n']), vmul(N(-2), p['n'])), vfn('tgamma', vmul(N(2), p['n'])), _q(p), p['I_e'], _sq(p['r_e'])),
 'PointSource': lambda p: p['I_tot'],
 'PointSourceRot': lambda p: p['I_tot'],
}
BACKGROUND = ('FlatSky', 'TiltedSkyPlane')

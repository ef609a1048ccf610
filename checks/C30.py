"""Crystals: published indices, phase matching of three waves, and group quantities."""
from .common import PULSE

HEAD = '''
import numpy as np
from scipy import misc
from pynlo.media.crystals.XTAL_PPLN import PPLN
from pynlo.media.crystals.XTAL_AgGaSe2 import AgGaSe2
from pynlo.media.crystals.XTAL_AgGaS import AgGaSe2 as AgGaS2
from pynlo.media.crystals.CrystalContainer import Crystal
c = 299792458.0
T = SYM('T', 0, 'real'); L = SYM('L', 0, 'pos'); lam = SYM('lam', 0, 'pos'); th = SYM('th', 0, 'real')
lp = SYM('lp', 0, 'pos'); ls = SYM('ls', 0, 'pos'); li = SYM('li', 0, 'pos')
def third(a, b): return 1/(1/a + 1/b)           # sum of the frequencies
def left(a, b): return 1/(1/a - 1/b)            # difference
def term(l, a, b, e): return a/(l**e - b)
def far(l, a, b, e): return a/(1 - b/l**e)
def mixed(no, ne, th): return 1/np.sqrt(np.sin(th)**2/ne**2 + np.cos(th)**2/no**2)
# Gayer et al. 2008, Deng et al. 2006
def gayer(lam, T):
    l = lam*1e-3
    f = (T - 24.5)*(T + 570.82)
    return np.sqrt(5.756 + 2.86e-6*f + (0.0983 + 4.7e-8*f)/(l**2 - (0.2020 + 6.113e-8*f)**2)
                   + (189.32 + 1.516e-4*f)/(l**2 - 12.52**2) - 1.32e-2*l**2)
def deng(lam, T):
    l = lam*1e-3
    f = (T - 24.5)*(T + 570.82)
    return np.sqrt(5.39121 + 4.96827e-7*f + (0.100473 + 3.862e-8*f)/(l**2 - (0.20692 - 0.89e-8*f)**2)
                   + (100.0 + 2.657e-5*f)/(l**2 - 11.34927**2) - (1.544e-2 + 9.62119e-10*f)*l**2)
# Roberts 1996, rational exponents
def se_o(lam):
    l = lam*1e-3
    return np.sqrt(6.849065 + term(l, 0.417863, 0.178080, 1.970203) + term(l, 0.000442, 0.889242, 0.340086) + far(l, 1.209374, 915.345, 1.921292))
def se_e(lam):
    l = lam*1e-3
    return np.sqrt(6.675232 + term(l, 0.436579, 0.229775, 1.893694) + term(l, 0.012063, 0.213957, 4.269152) + far(l, 3.252722, 3129.32, 2.047204))
def s_o(lam):
    l = lam*1e-3
    return np.sqrt(5.814100 + term(l, 0.0867547, 0.0356502, 3.156983) + term(l, 0.0821721, -0.315646, 4.430430)
                   + term(l, 0.506566, -6.582197, 6.604280) + far(l, 176380.0, 112586195.0, 2.225043))
def s_e(lam):
    l = lam*1e-3
    return np.sqrt(5.530050 + term(l, 0.0510941, 0.141109, 2.359877) + term(l, 0.195314, -0.0910735, 2.566664) + far(l, 4253.78, 4304924.0, 2.383834))
'''


def run(chk):
    chk.prog('lithium niobate index', HEAD + '''
x = PPLN(T, length=L)
EQ('default data', x.n(lam), gayer(lam, T))
EQ('axis has no influence', x.n(lam, 'e'), gayer(lam, T))
EQ('length', x.length_mks, L)
EQ('length in nm', x.length_nm, 1e9*L)
EQ('default length', PPLN(T).length_mks, 1)
T2 = SYM('T2', 0, 'real')
x.set_T(T2)
EQ('new temperature', x.n(lam), gayer(lam, T2))
EQ('temperature known', x.T, T2)
x.load(T, 'Deng')
EQ('other data', x.n(lam), deng(lam, T))
x.set_T(T2)
EQ('other data, new temperature', x.n(lam), deng(lam, T2))
y = PPLN(T, length=L)
z = PPLN(T2, length=2*L)
EQ('crystals are independent', y.n(lam), gayer(lam, T))
EQ('lengths are independent', y.length_mks, L)
EQ('damage threshold', y.damage_threshold_mks, 4e13)
EQ('damage threshold of another crystal', AgGaSe2(th).damage_threshold_mks, 1e13)
EQ('nonlinearity', y.deff, 14.9e-12)
''')
    for nm, cls, o, e, d in (('AgGaSe2', 'AgGaSe2', 'se_o', 'se_e', '28.5e-12'), ('AgGaS2', 'AgGaS2', 's_o', 's_e', '8.69e-12')):
        chk.prog(nm + ' index', HEAD + '''
x = %(cls)s(th, length=L)
no = %(o)s(lam); ne = %(e)s(lam)
EQ('ordinary', x.n(lam, 'o'), no)
EQ('extraordinary', x.n(lam, 'e'), ne)
EQ('mixed', x.n(lam), mixed(no, ne, th))
EQ('mixed by name', x.n(lam, 'mix'), x.n(lam))
x.set_theta(0)
EQ('ordinary at angle zero', x.n(lam), x.n(lam, 'o'))
x.set_theta(np.pi/2)
EQ('extraordinary at a right angle', x.n(lam), x.n(lam, 'e'))
x.set_theta(2*th)
EQ('as if built at the angle', x.n(lam), %(cls)s(2*th, length=L).n(lam))
EQ('nonlinearity', x.deff, %(d)s)
EQ('length', x.length_mks, L)
''' % dict(cls=cls, o=o, e=e, d=d))
        chk.prog(nm + ' phase matching', HEAD + '''
x = %(cls)s(th, length=L)
a = x.phasematch(lp, ls, li)
EQ('nothing to return but the angle', isinstance(x.phasematch(lp, ls, li, return_wavelength=True), tuple), False)
def matched(a, lp, ls, li):
    y = %(cls)s(a, length=L)
    return (y.n(lp)/lp)**2 - (y.n(ls, 'o')/ls + y.n(li, 'o')/li)**2
EQ('angle', np.cos(a)**2, (((lp*(x.n(ls, 'o')/ls + x.n(li, 'o')/li))**-2) - x.n(lp, 'e')**-2)/(x.n(lp, 'o')**-2 - x.n(lp, 'e')**-2))
EQ('angle is not changed by asking', x.theta, th)
for which in ('pump', 'signal', 'idler'):
    args = (None if which == 'pump' else lp, None if which == 'signal' else ls, None if which == 'idler' else li)
    full = (third(ls, li) if which == 'pump' else lp, left(lp, li) if which == 'signal' else ls, left(lp, ls) if which == 'idler' else li)
    r = x.phasematch(*args, return_wavelength=True)
    EQ('angle and wavelength', isinstance(r, tuple) and len(r) == 2, True)
    EQ('no wavelength unless asked', isinstance(x.phasematch(*args), tuple), False)
    b, w = r
    i = ('pump', 'signal', 'idler').index(which)
    EQ('missing wavelength', w, full[i])
    EQ('energy conserved', third(full[1], full[2]), full[0])
    full = list(args)
    full[i] = w
    EQ('same angle', b, x.phasematch(*full))
    EQ('angle only', x.phasematch(*args), b)
''' % dict(cls=cls, o=o, e=e))
        # any index curves, wavelengths in fixed proportion: the angle may or may not exist
        chk.prog(nm + ' existence of an angle', HEAD + '''
def crystal(f):
    x = %(cls)s(th, length=L)
    x.n = f
    return x
for r in (2, 3):
    ws, wi = r*lam, r*lam/(r - 1)
    y = crystal(lambda l, axis='mix': UF('pw_' + axis, l, typ='pos'))
    no, ne, so, io = y.n(lam, 'o'), y.n(lam, 'e'), y.n(ws, 'o'), y.n(wi, 'o')
    k = so/r + io*(r - 1)/r
    EQ('angle for any indices', np.cos(y.phasematch(lam, ws, wi))**2, (k**-2 - ne**-2)/(no**-2 - ne**-2))
def const(o, e, s):
    return crystal(lambda l, axis='mix': s if l == 2 else o if axis == 'o' else e)
def refused(o, e, s):
    try:
        const(o, e, s).phasematch(1, 2, 2)
    except Exception:
        return True
    return False
EQ('index sum above both', refused(2, 1.9, 2.1), True)
EQ('index sum below both', refused(2, 1.9, 1.5), True)
EQ('index sum between', refused(2, 1.9, 1.95), False)
EQ('positive crystal, above', refused(2, 2.2, 2.3), True)
EQ('positive crystal, below', refused(2, 2.2, 1.95), True)
EQ('positive crystal, between', refused(2, 2.2, 2.1), False)
''' % dict(cls=cls))
    chk.prog('poling period', HEAD + '''
x = PPLN(T, length=L)
def k(l): return 2*np.pi*gayer(l, T)/l
q = SYM('q', 0, 'real')
def period(lp, ls, li, q): return 2*np.pi/(k(lp) - k(ls) - k(li) - q/(1e9*L))*1e-9
EQ('given detuning', x.calculate_poling_period(lp, ls, li, delta_k_L=q), period(lp, ls, li, q))
EQ('default detuning', x.calculate_poling_period(lp, ls, li), period(lp, ls, li, 3.2))
EQ('silent', x.calculate_poling_period(lp, ls, li, silent=True), period(lp, ls, li, 3.2))
for which in (0, 1, 2):
    args = [lp, ls, li]
    args[which] = None
    full = [lp, ls, li]
    full[which] = (third(ls, li), left(lp, li), left(lp, ls))[which]
    r = x.calculate_poling_period(*args, delta_k_L=q, silent=True)
    EQ('period and wavelength', isinstance(r, tuple) and len(r) == 2, True)
    P, w = r
    EQ('missing wavelength', w, full[which])
    EQ('energy conserved', 1/full[0], 1/full[1] + 1/full[2])
    EQ('period with a missing wavelength', P, period(full[0], full[1], full[2], q))
    R, v = x.calculate_poling_period(*args, delta_k_L=q)
    EQ('printing has no influence', R, P)
''')
    chk.prog('poling profile', HEAD + '''
x = PPLN(T, length=L)
p0 = SYM('p0', 0, 'pos'); p1 = SYM('p1', 0, 'pos'); z = SYM('z', 0, 'real')
EQ('default period', x.pp(z), 30.49e-6)
x.set_pp_chirp(p0, p1)
EQ('chirp starts', x.pp(0), p0)
EQ('chirp ends', x.pp(L), p1)
EQ('chirp is linear', x.pp(z), p0 + (p1 - p0)*z/L)
x.set_pp(lambda s: 7*s)
EQ('given profile', x.pp(z), 7*z)
''')
    chk.prog('group quantities', HEAD + '''
x = Crystal({'length': L})
x.n = lambda l, axis=None: UF('pw_f', l, typ='pos') if axis is None else UF('pw_g', l, typ='pos')
cn = c*1e9/1e12
def group(l, axis=None): return cn/(x.n(l, axis) - l*misc.derivative(lambda y: x.n(y, axis), l))
def curve(l, axis=None): return misc.derivative(lambda y: x.n(y, axis), l, n=2)
EQ('group velocity', x.calculate_group_velocity_nm_ps(lam), group(lam))
EQ('group velocity on an axis', x.calculate_group_velocity_nm_ps(lam, 'o'), group(lam, 'o'))
EQ('delay over the crystal', x.calculate_pulse_delay_ps(lp, ls), 1e9*L*(1/group(lp) - 1/group(ls)))
EQ('delay over a length', x.calculate_pulse_delay_ps(lp, ls, 2*L), 2*x.calculate_pulse_delay_ps(lp, ls))
EQ('delay on an axis', x.calculate_pulse_delay_ps(lp, ls, axis='o'), 1e9*L*(1/group(lp, 'o') - 1/group(ls, 'o')))
EQ('delay is antisymmetric', x.calculate_pulse_delay_ps(ls, lp), -x.calculate_pulse_delay_ps(lp, ls))
D = -lam/cn*curve(lam)*1e12
EQ('dispersion', x.calculate_D_ps_nm_km(lam), D)
EQ('dispersion on an axis', x.calculate_D_ps_nm_km(lam, 'o'), -lam/cn*curve(lam, 'o')*1e12)
EQ('dispersion in short units', x.calculate_D_fs_um_mm(lam), D)
EQ('dispersion is the slope of the group delay', D, misc.derivative(lambda y: 1/x.calculate_group_velocity_nm_ps(y), lam)*1e12)
EQ('short units on an axis', x.calculate_D_fs_um_mm(lam, 'o'), x.calculate_D_ps_nm_km(lam, 'o'))
def bw(a, b): return np.abs(0.886*np.pi/(1/(group(a)*1e3) - 1/(group(b)*1e3)))
EQ('mixing bandwidth', x.calculate_mix_phasematching_bw(lp, ls), np.minimum(bw(ls, lp), bw(left(lp, ls), lp))/c)
K = SYM('K', 0, 'posint')
la = SYM('la', 1, 'pos', K)
EQ('group velocity on an array', x.calculate_group_velocity_nm_ps(la), group(la))
EQ('mixing bandwidth on an array', x.calculate_mix_phasematching_bw(lp, la), np.minimum(bw(la, lp), bw(left(lp, la), lp))/c)
''')
    chk.prog('axis left to the crystal', HEAD + '''
x = Crystal({'length': L})
x.n = lambda l, axis='mix': UF('pw_none', l, typ='pos') if axis is None else UF('pw_' + axis, l, typ='pos')
y = Crystal({'length': L})
y.n = lambda l: UF('pw_mix', l, typ='pos')
EQ('group velocity', x.calculate_group_velocity_nm_ps(lam), y.calculate_group_velocity_nm_ps(lam))
EQ('dispersion', x.calculate_D_ps_nm_km(lam), y.calculate_D_ps_nm_km(lam))
EQ('delay', x.calculate_pulse_delay_ps(lp, ls), y.calculate_pulse_delay_ps(lp, ls))
EQ('bandwidth', x.calculate_mix_phasematching_bw(lp, ls), y.calculate_mix_phasematching_bw(lp, ls))
cn = c*1e9/1e12
def bw(a, b, axis): return np.abs(0.886*np.pi/(1/(1e3*x.calculate_group_velocity_nm_ps(a, axis)) - 1/(1e3*x.calculate_group_velocity_nm_ps(b, axis))))
for axis in ('o', 'e'):
    EQ('bandwidth on an axis', x.calculate_mix_phasematching_bw(lp, ls, axis), np.minimum(bw(ls, lp, axis), bw(left(lp, ls), lp, axis))/c)
    EQ('group velocity on an axis', x.calculate_group_velocity_nm_ps(lam, axis), cn/(x.n(lam, axis) - lam*misc.derivative(lambda v: x.n(v, axis), lam)))
''')
    chk.prog('inverse', HEAD + '''
import pynlo.media.crystals.CrystalContainer as B
class Search:
    def minimize_scalar(self, f, bounds=None, method=None, **kw):
        self.f = f
        self.bounds = bounds
        self.method = method
        self.x = SYM('best', 0, 'pos')
        return self
s = Search()
B.optimize = s
x = PPLN(T, length=L)
P = SYM('P', 0, 'pos')
r = x.invert_dfg_qpm_to_signal_wl(lp, P)
EQ('answer of the search', r, s.x)
EQ('searched misfit', s.f(ls), (x.calculate_poling_period(lp, ls, None)[0] - P)**2)
EQ('lower bound', s.bounds[0], 1.001*lp)
EQ('upper bound', s.bounds[1], 2000)
x.invert_dfg_qpm_to_signal_wl(lp, P, 3000)
EQ('upper bound given', s.bounds[1], 3000)
EQ('bounded search', s.method == 'bounded', True)
''', soft=True)
    chk.prog('on a pulse', PULSE + HEAD.replace('import numpy as np', '') + '''
p = mk(N, Tw, wl, A)
x = PPLN(T, length=L)
n = gayer(p.wl_nm, T)
EQ('index', x.get_pulse_n(p), n)
EQ('wave number', x.get_pulse_k(p), 2*np.pi*n/p.wl_mks)
y = AgGaSe2(th, length=L)
EQ('index on an axis', y.get_pulse_n(p, 'o'), se_o(p.wl_nm))
EQ('wave number on an axis', y.get_pulse_k(p, 'e'), 2*np.pi*se_e(p.wl_nm)/p.wl_mks)
EQ('mixed', y.get_pulse_n(p), y.n(p.wl_nm))
''')
    chk.floor(80)

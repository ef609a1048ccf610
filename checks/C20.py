"""Fiber dispersion, nonlinearity and gain in the documented units."""
from .common import PULSE
from .C05 import IMPORTS

HEAD = PULSE + IMPORTS + '''
from scipy import interpolate
K = SYM('K', 0, 'posint')
L = SYM('L', 0, 'pos'); w0 = SYM('w0', 0, 'pos'); g = SYM('g', 0, 'real'); G = SYM('G', 0, 'pos')
b2 = SYM('b2', 0, 'real'); b3 = SYM('b3', 0, 'real'); b4 = SYM('b4', 0, 'real')
lam = SYM('lam', 1, 'pos', K); D = SYM('D', 1, 'real', K); n = SYM('n', 1, 'pos', K)
V = 2*np.pi*np.arange(-M, M)/Tw                    # rad/ps
W = V + 2*np.pi*c*1e-3/wl                          # rad/ps, c in nm/ps
def comoving(B):
    slope = np.gradient(B)/np.gradient(W)
    return B - slope[M]*V - B[M]
def taylor(w, *bs):
    r = 0
    f = 1
    for i, b in enumerate(bs):
        f = f*(i + 2) if i else 2
        r = r + b*w**(i + 2)/f
    return r
fib = FiberInstance()
'''
def run(chk):
    chk.prog('coefficients', HEAD + '''
x = W - 2*np.pi*c*1e-3/w0
fib.generate_fiber(L, w0, [b2, b3, b4], g)
B = comoving(taylor(x, b2, b3, b4))
EQ('ps^n/m by default', fib.get_betas(p), B)
EQ('asked again', fib.get_betas(p), B)
EQ('length', fib.length, L)
EQ('gamma', fib.get_gamma(), g)
EQ('no gain', fib.get_gain(p), np.zeros(N))
EQ('second-order dispersion inside', fib.Beta2(p)[1:N-1], np.diff(B, 2)/(2*np.pi/Tw)**2)
EQ('D parameter', fib.Beta2_to_D(p)*p.wl_nm**2, -2*np.pi*(c*1e-3)*1000*fib.Beta2(p))
fib.generate_fiber(L, w0, [b2, b3], g, gvd_units='ps^n/km', gain=G)
EQ('ps^n/km', fib.get_betas(p), comoving(taylor(x, b2/1000, b3/1000)))
EQ('ps^n/km asked again', fib.get_betas(p), comoving(taylor(x, b2/1000, b3/1000)))
EQ('flat gain', fib.get_gain(p), G*np.ones(N))
fib.generate_fiber(L, w0, (b2,), g, gvd_units='ps^n/m')
EQ('single coefficient', fib.get_betas(p), comoving(taylor(x, b2)))
fib.generate_fiber(L, wl, [b2, b3], g)
EQ('expanded about the pulse centre: coefficients', fib.get_betas(p), comoving(taylor(V, b2, b3)))
''')
    for u, k in (('ps^n/m', 1), ('ps^n/km', 1000)):
        chk.prog('database fiber in ' + u, HEAD + '''
spec = {'dispersion_format': 'GVD', 'dispersion_gvd_units': '%s', 'dispersion_gvd_center_wavelength': w0,
        'dispersion_data': [b2, b3, b4], 'gamma': g, 'is_gain': False, 'name': 'a'}
fib.fiberloader.get_fiber = lambda name: spec
fib.load_from_db(L, 'a')
B = comoving(taylor(W - 2*np.pi*c*1e-3/w0, b2/%d, b3/%d, b4/%d))
EQ('betas', fib.get_betas(p), B)
EQ('betas asked again', fib.get_betas(p), B)
EQ('gamma', fib.get_gamma(), g)
EQ('length', fib.length, L)
fib.load_from_db(L, 'a')
EQ('betas after loading again', fib.get_betas(p), B)
EQ('no gain', fib.get_gain(p), np.zeros(N))
''' % (u, k, k, k), soft=True)
    chk.prog('tabulated D', HEAD + '''
spec = {'dispersion_format': 'D', 'dispersion_x_units': 'nm', 'dispersion_y_units': 'ps/nm/km', 'dispersion_x_data': lam,
        'dispersion_y_data': D, 'gamma': g, 'is_gain': False, 'name': 'a'}
fib.fiberloader.get_fiber = lambda name: spec
fib.load_from_db(L, 'a', poly_order=2)
om = 2*np.pi*c*1e-3*(1/lam - 1/wl)                # rad/ps
be = -D*1e-3*lam**2/(2*np.pi*c*1e-3)              # D in ps/(nm m) -> ps^2/m
q = np.polyfit(om, be, 2)
B = q[2]*V**2/2 + q[1]*V**3/6 + 2*q[0]*V**4/24
EQ('betas', fib.get_betas(p), B)
EQ('betas asked again', fib.get_betas(p), B)
from pynlo.media.fibers.calculators import DTabulationToBetas
r = DTabulationToBetas(wl, np.transpose(np.vstack((lam, D))), 2, False)
EQ('fitted second-order dispersion', r[0], q[2])
EQ('fitted third-order dispersion', r[1], q[1])
EQ('fitted fourth-order dispersion', r[2], 2*q[0])
r, xx, yy, zz = DTabulationToBetas(wl, np.transpose(np.vstack((lam, D))), 2, False, return_diagnostics=True)
EQ('diagnostics: frequency', xx, om)
EQ('diagnostics: data', yy, be)
EQ('diagnostics: fit', zz, q[2] + q[1]*om + q[0]*om**2)
''', soft=True)
    chk.prog('refractive index', HEAD + '''
fib.generate_fiber(L, w0, [b2], g)
fib.set_dispersion_function(lambda z: (lam, n), 'n')
fb = interpolate.InterpolatedUnivariateSpline((2*np.pi*c*1e-3/lam)[::-1], (2*np.pi*n*1e9/lam)[::-1])
EQ('betas', fib.get_betas(p), comoving(fb(W)))
''')
    chk.prog('measured gain', HEAD + '''
gl = SYM('gl', 1, 'pos', K); gy = SYM('gy', 1, 'real', K); P = SYM('P', 0, 'pos')
fib.generate_fiber(L, w0, [b2], g, gain=1)
fib.fiberspecs['gain_x_data'] = gl
fib.fiberspecs['gain_y_data'] = gy
fib.fiberspecs['gain_x_units'] = 'm'
from scipy.interpolate import interp1d
from scipy.optimize import minimize
sp = interp1d(c/gl[::-1], gy[::-1], kind='cubic', bounds_error=False, fill_value=0)(W/(2*np.pi)*1e12)
def miss(k): 
    a = np.fft.ifftshift(np.fft.fft(np.fft.fftshift(A*np.exp(k*sp*L/2))))
    return np.abs(P - fr*1e6*Tw/N*1e-12*np.trapz(np.abs(a)**2))
import pynlo.media.fibers.fiber as mod
kk = SYM('kk', 0, 'real'); q = SYM('q', 0, 'real')
seen = []
class Best:
    x = kk
def fake(fun, x0, **kw):
    seen.append(fun(q))
    return Best
mod.minimize = fake
EQ('gain spectrum times the fitted factor', fib.get_gain(p, P), kk*sp)
EQ('factor fitted to the output power', seen[0], miss(q))
''', soft=True)
    chk.floor(25)

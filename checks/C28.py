"""Media that change along their length are sampled at the right position."""
from .common import PULSE
from .C05 import IMPORTS
from .C08 import STUB_FIBER
from .C20 import HEAD as FIBER_HEAD

PROP = PULSE + IMPORTS + '''
K = SYM('K', 0, 'real')
L = SYM('L', 0, 'pos'); w0 = SYM('w0', 0, 'pos'); g = SYM('g', 0, 'real'); b2 = SYM('b2', 0, 'real')
def F(v): return np.fft.ifftshift(np.fft.ifft(np.fft.fftshift(v)))
def B(v): return np.fft.ifftshift(np.fft.fft(np.fft.fftshift(v)))
seen = []
s = SSFM(dz=L, disable_Raman=True, disable_self_steepening=True)
SSFM.CalculateLocalError = lambda self: 0.75*self.local_error
class Zfiber:
    length = L
    gamma = 1
    fibertype = 'x'
    def get_betas(self, p, z=0): return UF('beta', z, rank=1, typ='real', len=p.NPTS)
    def get_gamma(self, z=0): return UF('gamma', z, rank=0, typ='real')
    def get_gain(self, p, output_power=1): return UF('gain', output_power, rank=1, typ='real', len=p.NPTS)
f = Zfiber()
from pynlo.interactions.FourWaveMixing import global_variables
global_variables.PRE_FFTSHIFT = True
'''

def run(chk):
    chk.prog('fiber with functions', FIBER_HEAD + '''
z = SYM('z', 0, 'real'); y = SYM('y', 0, 'real')
fib.generate_fiber(L, w0, [b2, b3], g)
fib.set_gamma_function(lambda z: UF('gam', z, rank=0, typ='real'))
EQ('gamma at a position', fib.get_gamma(z), UF('gam', z, rank=0, typ='real'))
EQ('gamma at another position', fib.get_gamma(z=y), UF('gam', y, rank=0, typ='real'))
EQ('gamma by default at the entrance', fib.get_gamma(), UF('gam', 0, rank=0, typ='real'))
fib.set_dispersion_function(lambda z: [UF('c2', z, rank=0, typ='real'), UF('c3', z, rank=0, typ='real')])
x = W - 2*np.pi*c*1e-3/w0
def at(z): return comoving(taylor(x, UF('c2', z, rank=0, typ='real'), UF('c3', z, rank=0, typ='real')))
EQ('coefficients at a position', fib.get_betas(p, z), at(z))
EQ('coefficients at another position', fib.get_betas(p, z=y), at(y))
EQ('coefficients back at the first position', fib.get_betas(p, z=z), at(z))
EQ('coefficients by default at the entrance', fib.get_betas(p), at(0))
om = 2*np.pi*c*1e-3*(1/lam - 1/wl)
fib.poly_order = 1
fib.set_dispersion_function(lambda z: (lam, UF('D', z, rank=1, typ='real', len=K)), 'D')
def atD(z):
    q = np.polyfit(om, -UF('D', z, rank=1, typ='real', len=K)*1e-3*lam**2/(2*np.pi*c*1e-3), 1)
    return q[1]*V**2/2 + q[0]*V**3/6
EQ('D at a position', fib.get_betas(p, z), atD(z))
EQ('D at another position', fib.get_betas(p, y), atD(y))
from scipy import interpolate
fib.set_dispersion_function(lambda z: (lam, UF('n', z, rank=1, typ='real', len=K)), 'n')
def atn(z):
    fb = interpolate.InterpolatedUnivariateSpline((2*np.pi*c*1e-3/lam)[::-1], (2*np.pi*UF('n', z, rank=1, typ='real', len=K)*1e9/lam)[::-1])
    return comoving(fb(W))
EQ('index at a position', fib.get_betas(p, z), atn(z))
EQ('index at another position', fib.get_betas(p, y), atn(y))
fib.generate_fiber(L, w0, [b2, b3], g)
EQ('generating again forgets the functions: gamma', fib.get_gamma(z), g)
EQ('generating again forgets the functions: dispersion', fib.get_betas(p, z), comoving(taylor(x, b2, b3)))
''')
    for n in (2, 3):
        for reload in (True, False):
            src = PROP + """
h = L/%d
SSFM.NonlinearOperator = lambda self, A: 0*A
z, AW, AT, out = s.propagate(p, f, %d, reload_fiber_each_step=%s)
def step(Z, z): return B(np.exp(h*(1j*UF('beta', z, rank=1, typ='real', len=N) + f.get_gain(p, None)/2))*F(Z))
""" % (n, n, reload)
            for i in range(n):
                prev = 'p.AT' if i == 0 else 'AT[:, %d]' % (i - 1)
                src += "EQ('dispersion of segment %d', AT[:, %d], step(%s, %s))\n" % (i, i, prev, ('%d*h' % i) if reload else '0')
            src += """
SSFM.Advance = lambda self, A, h, d: UF('S', A, self.gamma, h, rank=1, typ='cplx', like=1)
z, AW, AT, out = s.propagate(p, f, %d, reload_fiber_each_step=%s)
def one(Z, z, h): return np.fft.ifftshift(UF('S', np.fft.fftshift(Z), UF('gamma', z, rank=0, typ='real'), h, rank=1, typ='cplx', like=1))
def step(Z, z): return (16*one(one(Z, z, h/2), z, h/2) - one(Z, z, h))/15
""" % (n, reload)
            for i in range(n):
                prev = 'p.AT' if i == 0 else 'AT[:, %d]' % (i - 1)
                src += "EQ('nonlinearity of segment %d', AT[:, %d], step(%s, %s))\n" % (i, i, prev, ('%d*h' % i) if reload else '0')
            chk.prog('%d segments, %s' % (n, 'reloading' if reload else 'not reloading'), src, soft=True, no_external_raise=True, unroll_while=3)
    chk.floor(15)

"""Nonlinear response: Kerr, self-steepening and delayed Raman contributions."""
from .common import PULSE
from .C05 import IMPORTS
from .C08 import step_spec

HEAD = PULSE + IMPORTS + '''
def F(v): return np.fft.ifftshift(np.fft.ifft(np.fft.fftshift(v)))
def B(v): return np.fft.ifftshift(np.fft.fft(np.fft.fftshift(v)))
sh = np.fft.fftshift
ush = np.fft.ifftshift
from pynlo.interactions.FourWaveMixing import global_variables
g = SYM('g', 0, 'real')
class StubFiber:
    length = SYM('L', 0, 'pos')
    gamma = g
    fibertype = 'x'
    def get_betas(self, p, z=0): return UF('beta', z, rank=1, typ='real', len=p.NPTS)
    def get_gamma(self, z=0): return g
    def get_gain(self, p, output_power=1): return UF('gain', output_power, rank=1, typ='real', len=p.NPTS)
f = StubFiber()
Z = SYM('Z', 1, 'cplx', N)
fR = SYM('fR', 0, 'real'); t1 = SYM('t1', 0, 'pos'); t2 = SYM('t2', 0, 'pos')
T = np.arange(-M, M)*Tw/N
W = 2*np.pi*np.arange(-M, M)/Tw
w0 = 2*np.pi*299792.458/wl
def delayed(shape, frac):
    # causal, unit-area response as a frequency-domain factor
    r = np.where(np.arange(N) < M, 0, shape)
    r = r/np.trapz(r, T)
    return (1-frac) + Tw*F(frac*r)
def d(v): return B(-1j*W*F(v))
def NL(A, R, steep):
    c = B(R*F(np.abs(A)**2))
    if not steep:
        return 1j*g*c
    return 1j*g*c - (g/w0)*(B(R*F(d(np.abs(A)**2))) + np.where(np.abs(A) > 1e-15, d(A)*c/(1e-20+A), 0))
'''
RAMAN = {
    'no Raman': ('disable_Raman=True', 'np.ones(N)'),
    'simple Raman': ('USE_SIMPLE_RAMAN=True, f_R=fR, tau_1=t1, tau_2=t2', 'delayed(np.exp(-T/t2)*np.sin(T/t1), fR)'),
    'full Raman': ('tau_1=t1, tau_2=t2',
                   'delayed(0.79*(t1/(t1**2+t2**2)*np.exp(-T/t2)*np.sin(T/t1)) + 0.21*(2*0.096-T)/0.096**2*np.exp(-T/0.096), 0.245)'),
}

def run(chk):
    for nm, (opt, R) in RAMAN.items():
        for steep in (False, True):
            for pre in (True, False):
                src = HEAD + '''
global_variables.PRE_FFTSHIFT = %s
s = SSFM(disable_self_steepening=%s, %s)
s.setup_fftw(p, f, None)
s.load_fiber_parameters(p, f, None)
R = %s
EQ('operator', %s, NL(Z, R, %s))
''' % (pre, not steep, opt, R, 'ush(s.NonlinearOperator(sh(Z+0))+0)' if pre else 's.NonlinearOperator(Z+0)+0', steep)
                chk.prog('%s, %s, %s order' % (nm, 'steepening' if steep else 'no steepening', 'native' if pre else 'centred'),
                         src, soft=True, no_external_raise=True)
    chk.floor(10)

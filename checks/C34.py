"""Generated pulses have the requested shape, chirp and grid."""
from .common import PULSE

SHAPES = {
    'sech': ('SechPulse', 'T0_ps=t0, ', '1/np.cosh(T/t0)'),
    'gauss': ('GaussianPulse', 'T0_ps=t0, ', 'np.exp(-2.77*0.5*T**2/t0**2)'),
    'sinc': ('SincPulse', 'FWHM_ps=t0, ', 'np.sinc(T*3.7909885/(t0*np.pi))'),
}

def run(chk):
    src = PULSE + '''
from pynlo.light.DerivedPulses import *
t0 = SYM('t0', 0, 'pos'); P0 = SYM('P0', 0, 'pos')
Tw = SYM('Tb', 0, 'real') ** 2 + 2
wl = SYM('wb', 0, 'real') ** 2 + 2
g2 = SYM('g2', 0, 'real'); g3 = SYM('g3', 0, 'real'); h2 = SYM('h2', 0, 'real'); h3 = SYM('h3', 0, 'real')
T = np.arange(-M, M)*Tw/N
V = 2*np.pi*np.arange(-M, M)/Tw
def fwd(x): return np.fft.ifftshift(np.fft.ifft(np.fft.fftshift(x)))
def bwd(x): return np.fft.ifftshift(np.fft.fft(np.fft.fftshift(x)))
'''
    for nm, (cls, w, shape) in SHAPES.items():
        src += '''
p = %(cls)s(P0, %(w)scenter_wavelength_nm=wl, time_window_ps=Tw, frep_MHz=fr, NPTS=N)
EQ('%(nm)s: field', p.AT, np.sqrt(P0)*%(shape)s)
EQ('%(nm)s: centred at time zero', p.AT[M], np.sqrt(P0))
EQ('%(nm)s: centre wavelength', p.center_wavelength_nm, wl)
EQ('%(nm)s: time window', p.time_window_ps, Tw)
EQ('%(nm)s: size', p.NPTS, N)
EQ('%(nm)s: repetition rate', p.frep_MHz, fr)
p = %(cls)s(P0, %(w)scenter_wavelength_nm=wl, time_window_ps=Tw, frep_MHz=fr, NPTS=N, GDD=g2, TOD=g3)
EQ('%(nm)s: spectral chirp', p.AW, fwd(np.sqrt(P0)*%(shape)s)*np.exp(1j*(g2*V**2/2+g3*V**3/6)))
p = %(cls)s(P0, %(w)scenter_wavelength_nm=wl, time_window_ps=Tw, frep_MHz=fr, NPTS=N, chirp2=h2, chirp3=h3)
''' % dict(nm=nm, cls=cls, w=w, shape=shape)
        tt = 't0' if nm != 'sinc' else '(t0/3.7909885)'
        src += "EQ('%s: temporal chirp', p.AT, np.sqrt(P0)*%s*np.exp(-1j*(h2/2*(T/%s)**2 + h3/3*(T/%s)**3)))\n" % (nm, shape, tt, tt)
    chk.prog('shapes', src, anchors='pynlo.light.DerivedPulses')
    chk.prog('cw and noise', src.split('\np = ')[0] + '''
p = CWPulse(P0, wl, time_window_ps=Tw, NPTS=N)
EQ('cw: constant field', p.AT, p.AT[0]*np.ones(N))
EQ('cw: centre wavelength', p.center_wavelength_nm, wl)
f = SYM('f', 0, 'real')
p = CWPulse(P0, wl, time_window_ps=Tw, NPTS=N, offset_from_center_THz=f)
n = np.round(f*Tw)
z = np.zeros(N)
z[M+int(n)] = np.sqrt(P0)
EQ('offset cw: line on the grid', p.AW, z)
EQ('offset cw: line is at the requested wavelength', p.center_frequency_THz + n/Tw, 299792.458/wl)
p = NoisePulse(wl, time_window_ps=Tw, NPTS=N, frep_MHz=fr)
EQ('noise floor magnitude', np.abs(p.AW), 1e-30*np.ones(N))
EQ('noise: repetition rate', p.frep_MHz, fr)
EQ('noise: centre wavelength', p.center_wavelength_nm, wl)
''')
    chk.floor(25)

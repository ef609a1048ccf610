"""Same results whichever FFT library or sample order setting is in use."""
from .common import PULSE
from .C05 import IMPORTS

STUB_FIBER = '''
class StubFiber:
    length = SYM('L', 0, 'pos')
    gamma = SYM('g', 0, 'real')
    fibertype = 'x'
    def get_betas(self, p, z=0): return UF('beta', z, rank=1, typ='real', len=p.NPTS)
    def get_gamma(self, z=0): return UF('gamma', z, rank=0, typ='real')
    def get_gain(self, p, output_power=1): return UF('gain', output_power, rank=1, typ='real', len=p.NPTS)
f = StubFiber()
h = SYM('h', 0, 'pos')
'''
CENTRED = '''
def F(v): return np.fft.ifftshift(np.fft.ifft(np.fft.fftshift(v)))
def B(v): return np.fft.ifftshift(np.fft.fft(np.fft.fftshift(v)))
sh = np.fft.fftshift
ush = np.fft.ifftshift
'''

def step_spec(pre, fw, extra=''):
    return PULSE + IMPORTS + CENTRED + STUB_FIBER + '''
from pynlo.interactions.FourWaveMixing import global_variables
global_variables.PRE_FFTSHIFT = %(pre)s
def NLraw(v): return UF('N', v, rank=1, typ='cplx', like=1)
SSFM.NonlinearOperator = lambda self, A: NLraw(A)
def NL(v): return ush(NLraw(sh(v))) if %(pre)s else NLraw(v)
def enc(v): return sh(v) if %(pre)s else v
def dec(v): return ush(v) if %(pre)s else v
s = SSFM()
s.setup_fftw(p, f, None)
s.load_fiber_parameters(p, f, None)
Z = SYM('Z', 1, 'cplx', N)
def lin(v, h): return B(np.exp(h*(1j*f.get_betas(p) + f.get_gain(p, None)/2)/2)*F(v))
def step(Z, h):
    AI = lin(Z, h)
    k1 = lin(h*NL(Z)*Z, h)
    k2 = h*NL(AI + k1/2)*(AI + k1/2)
    k3 = h*NL(AI + k2/2)*(AI + k2/2)
    t = lin(AI + k3, h)
    return lin(AI + k1/6 + k2/3 + k3/3, h) + h*NL(t)*t/6
''' % dict(pre=pre) + extra

def run(chk):
    for fw in (True, False):
        for pre in (True, False):
            tag = '%s, %s order' % ('pyfftw' if fw else 'scipy', 'native' if pre else 'centred')
            src = step_spec(pre, fw).split('def NLraw')[0] + '''
s = SSFM()
s.setup_fftw(p, f, None)
Z = SYM('Z', 1, 'cplx', N)
Y = SYM('Y', 1, 'cplx', N)
'''
            f, b = ('np.fft.ifft(%s)', 'np.fft.fft(%s)') if pre else ('F(%s)', 'B(%s)')
            for m in ('FFT_t', 'FFT_t_2'):
                src += "EQ('%s', s.%s(Z+0)+0, %s)\n" % (m, m, f % 'Z')
            for m in ('IFFT_t', 'IFFT_t_2', 'IFFT_t_3'):
                src += "EQ('%s', s.%s(Z+0)+0, %s)\n" % (m, m, b % 'Z')
            src += "EQ('FFT_t_shift', s.FFT_t_shift(Z+0)+0, F(Z))\nEQ('IFFT_t_shift', s.IFFT_t_shift(Z+0)+0, B(Z))\n"
            src += "a = s.IFFT_t(Z+0)\ns.IFFT_t_2(Y+0)\ns.FFT_t_2(Y+0)\nEQ('nested transforms keep the outer result', a+0, %s)\n" % (b % 'Z')
            chk.prog('transforms, ' + tag, src, soft=True, pyfftw=fw, no_external_raise=True)
            chk.prog('step, ' + tag, step_spec(pre, fw, '''
EQ('forward step', dec(s.Advance(enc(Z + 0), h, 1)+0), step(Z, h))
EQ('next step after it', dec(s.Advance(enc(Z + 0), h/2, 1)+0), step(Z, h/2))
'''), soft=True, pyfftw=fw, no_external_raise=True)
            for n in (1, 2):
                chk.prog('propagation over %d, %s' % (n, tag), step_spec(pre, fw, '''
def one(self, dz, direction=1): self.A[:] = self.Advance(self.A, dz, direction)
SSFM.integrate_over_dz = one
A0 = p.AT
s = SSFM()
y, AW, AT, out = s.propagate(p, f, %d)
''' % n + ("""
Z1 = step(A0, f.length)
EQ('field', AT[:, 0], Z1)
EQ('spectrum', AW[:, 0], F(Z1))
EQ('returned pulse', out.AT, Z1)
EQ('returned spectrum', out.AW, F(Z1))
""" if n == 1 else """
Z1 = step(A0, f.length/2)
EQ('field after the first half', AT[:, 0], Z1)
EQ('spectrum after the first half', AW[:, 0], F(Z1))
EQ('propagated pulse keeps its field', p.AT, A0)
""")), soft=True, pyfftw=fw, no_external_raise=True)
        chk.prog('mixing products, ' + ('pyfftw' if fw else 'numpy'), PULSE + '''
from pynlo.interactions.ThreeWaveMixing.DFG_integrand import fftcomputer
Z = SYM('Z', 1, 'cplx', N)
Y = SYM('Y', 1, 'cplx', N)
q = fftcomputer(N)
O = np.zeros(N, dtype=complex)
def pad(v): return np.hstack((v, O))
def lpad(v): return np.hstack((O, v))
def crop(v): return np.fft.ifftshift(v)[M:M+N]
a = q.corr(Z, Y)
b = q.conv(Z, Y)
EQ('correlation', a, crop(np.fft.ifft(np.fft.fft(pad(Z))*np.conj(np.fft.fft(pad(Y))))))
EQ('convolution', b, crop(np.fft.ifft(np.fft.fft(lpad(Z))*np.fft.fft(pad(Y)))))
EQ('convolution after other use', q.conv(Z, Y), b)
EQ('correlation after other use', q.corr(Z, Y), a)
''', soft=True, pyfftw=fw)
    chk.floor(25)

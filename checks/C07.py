"""Time/frequency conventions: transform pair, sample order, phase operations."""
from .common import PULSE

def run(chk):
    chk.prog('transform pair', PULSE + '''
from pynlo.util import FFT_t, IFFT_t
def fwd(x): return np.fft.ifftshift(np.fft.ifft(np.fft.fftshift(x)))
def bwd(x): return np.fft.ifftshift(np.fft.fft(np.fft.fftshift(x)))
EQ('to frequency: centred inverse DFT, normalised by the number of points', FFT_t(A), fwd(A))
EQ('to time: centred forward DFT, unnormalised', IFFT_t(A), bwd(A))
EQ('pair inverts', IFFT_t(FFT_t(A)), A)
EQ('pair inverts the other way', FFT_t(IFFT_t(A)), A)
M1 = SYM('M1', 0, 'posint'); M3 = SYM('M3', 0, 'posint')
B = SYM('B2', 2, 'cplx', 2*M1, 2*M3)
EQ('default axis is the first', FFT_t(B), np.fft.ifftshift(np.fft.ifft(np.fft.fftshift(B, axes=(0,)), axis=0), axes=(0,)))
EQ('second axis', FFT_t(B, 1), np.fft.ifftshift(np.fft.ifft(np.fft.fftshift(B, axes=(1,)), axis=1), axes=(1,)))
EQ('second axis back', IFFT_t(B, 1), np.fft.ifftshift(np.fft.fft(np.fft.fftshift(B, axes=(1,)), axis=1), axes=(1,)))
p = mk(N, Tw, wl, A, fr)
EQ('spectrum as stored', p.AW, A)
EQ('field is the transform of the spectrum', p.AT, bwd(A))
p.set_AT(A)
EQ('field as stored', p.AT, A)
EQ('spectrum is the transform of the field', p.AW, fwd(A))
x = SYM('x', 0, 'real')
q = mk(N, Tw, wl, A)
q.add_time_offset(x)
EQ('time offset is a linear spectral phase', q.AW, A*np.exp(-1j*p.W_THz*x))
r = mk(N, Tw, wl, A)
r.filter_by_wavelength_nm(wl-10, wl+10)
EQ('filter keeps only the band', r.AW, np.where((p.wl_nm >= wl-10) & (p.wl_nm <= wl+10), A, 0))
g2 = SYM('g2', 0, 'real'); g3 = SYM('g3', 0, 'real'); g4 = SYM('g4', 0, 'real'); w0 = SYM('w0', 0, 'real')
r = mk(N, Tw, wl, A)
r.chirp_pulse_W(g2, g3, g4)
V = 2*np.pi*np.arange(-M, M)/Tw
EQ('chirp about the centre', r.AW, A*np.exp(1j*(g2*V**2/2 + g3*V**3/6 + g4*V**4/24)))
r = mk(N, Tw, wl, A)
r.chirp_pulse_W(g2, g3, g4, w0_THz=w0)
V = V + 2*np.pi*299792.458/wl - w0
EQ('chirp about a given frequency', r.AW, A*np.exp(1j*(g2*V**2/2 + g3*V**3/6 + g4*V**4/24)))
t0 = SYM('t0', 0, 'pos')
r = mk(N, Tw, wl, None)
r.set_AT(A)
r.chirp_pulse_T(g2, g3, t0)
T = np.arange(-M, M)*Tw/N
EQ('temporal chirp', r.AT, A*np.exp(-1j*(g2/2*(T/t0)**2 + g3/3*(T/t0)**3)))
r = mk(N, Tw, wl, A)
P = SYM('P', 1, 'real', N)
r.apply_phase_W(P)
EQ('applied phase', r.AW, A*np.exp(1j*P))
w2 = SYM('w2', 0, 'pos')
r = mk(N, Tw, wl, A)
r.rotate_spectrum_to_new_center_wl(w2)
k = int(round((299792.458/w2 - 299792.458/wl)*Tw))
EQ('spectrum rotation moves to the new centre', r.AW, np.roll(A, k))
''', anchors='pynlo.util.pynlo_ffts')
    chk.prog('zero padding', PULSE + '''
B = SYM('B', 1, 'cplx', N)
def pulse():
    p = mk(N, Tw, wl, None)
    p.set_AT(B)
    return p
p = pulse(); p.expand_time_window(1, 'before')
EQ('new points before', p.AT, np.hstack((np.zeros(N), B)))
p = pulse(); p.expand_time_window(1, 'after')
EQ('new points after', p.AT, np.hstack((B, np.zeros(N))))
p = pulse(); p.expand_time_window(1, 'even')
EQ('new points on both sides', p.AT, np.hstack((np.zeros(M), B, np.zeros(M))))
p = pulse(); p.expand_time_window(2, 'after')
EQ('factor four', p.AT, np.hstack((B, np.zeros(3*N))))
p = pulse(); p.expand_time_window(2, 'before')
EQ('factor four before', p.AT, np.hstack((np.zeros(3*N), B)))
p = pulse(); p.expand_time_window(2, 'even')
EQ('factor four on both sides', p.AT, np.hstack((np.zeros(3*M), B, np.zeros(3*M))))
p = pulse(); p.expand_time_window(3, 'even')
EQ('factor eight on both sides', p.AT, np.hstack((np.zeros(7*M), B, np.zeros(7*M))))
p = pulse(); p.expand_time_window(3, 'before')
EQ('factor eight before', p.AT, np.hstack((np.zeros(7*N), B)))
p = pulse(); p.expand_time_window(1, 'even'); p.expand_time_window(1, 'after')
EQ('padding twice', p.AT, np.hstack((np.zeros(M), B, np.zeros(M + 2*N))))
p = pulse(); p.expand_time_window(1)
EQ('default side', p.AT, np.hstack((np.zeros(N), B)))
p = pulse(); p.expand_time_window(0, 'even')
EQ('factor one', p.AT, B)
''')
    chk.floor(20)

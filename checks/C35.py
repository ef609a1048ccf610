"""What a pulse reports about itself: averages, autocorrelation, spectrogram, subset."""
from .common import PULSE


def run(chk):
    chk.prog('averages', PULSE + '''
p = mk(N, Tw, wl, A, fr)
P = np.abs(A)**2
f = c/wl*1e9 + (np.arange(N) - M)/Tw*1e12
EQ('mean frequency', p.calculate_weighted_avg_frequency_mks(), np.sum(P*f)/np.sum(P))
EQ('mean wavelength', p.calculate_weighted_avg_wavelength_nm(), 1e9*c/(np.sum(P*f)/np.sum(P)))
a = SYM('a', 0, 'pos')
p.set_AW(a*A)
EQ('size of the field does not matter', p.calculate_weighted_avg_frequency_mks(), np.sum(P*f)/np.sum(P))
p.set_AT(A)
B = p.AW
EQ('follows the field', p.calculate_weighted_avg_frequency_mks(), np.sum(np.abs(B)**2*f)/np.sum(np.abs(B)**2))
''')
    chk.prog('autocorrelation', PULSE + '''
p = mk(N, Tw, wl, None, fr)
p.set_AT(A)
P = np.abs(A)**2
x = p.calculate_intensity_autocorrelation()
z = np.zeros(2*N)
z[:N] = P
F = np.fft.fft(z)
EQ('autocorrelation', x, np.real(np.fft.fftshift(np.fft.ifft(F*np.conj(F)))[M:M + N]))
EQ('field kept', p.AT, A)
''')
    for gate in ('xfrog', 'frog'):
        chk.prog('spectrogram, ' + gate, PULSE + """
import scipy.ndimage
p = mk(N, Tw, wl, None, fr)
p.set_AT(A)
n = SYM('n', 0, 'posint')
g = SYM('g', 0, 'pos')
D, F, ext, S = p.spectrogram(gate_type=%r, gate_function_width_ps=g, time_steps=n)
t = (np.arange(N) - M)*Tw/N
tau = np.linspace(-Tw/2, t[N - 1], n)
f = np.arange(M)/Tw
EQ('delays', D, np.meshgrid(tau, f)[0])
EQ('frequencies', F, np.meshgrid(tau, f)[1])
tt, aa = np.meshgrid(tau, t)[1], np.meshgrid(tau, A)[1]
dd = np.meshgrid(tau, t)[0]
""" % gate + ("""
gate = np.exp(-(tt - dd)**2/(2*g**2))
""" if gate == 'xfrog' else """
k = ((tt - dd + Tw/2)*N/Tw, 0*dd)
gate = scipy.ndimage.map_coordinates(np.real(aa), k) + 1j*scipy.ndimage.map_coordinates(np.imag(aa), k)
""") + """
# the part of the field seen through the gate, on its carrier, in the frequency domain
E = aa*gate*np.exp(-2j*np.pi*(c/wl*1e-3)*tt)
EQ('spectrogram', S, np.abs(N*np.fft.ifft(E, axis=0))[:M])
EQ('field kept', p.AT, A)
""")
    chk.prog('interpolation', PULSE + """
from scipy.interpolate import interp1d
w2 = SYM('w2', 0, 'pos')
p = mk(N, Tw, wl, A, fr)
q = p.interpolate_to_new_center_wl(w2)
EQ('centre', q.center_wavelength_nm, w2)
EQ('field at the new frequencies', q.AW, interp1d(p.W_mks, A, bounds_error=False, fill_value=0.0)(q.W_mks))
EQ('rate', q.frep_MHz, fr)
EQ('points', q.NPTS, N)
EQ('window', q.time_window_ps, Tw)
EQ('field kept', p.AW, A)
EQ('centre kept', p.center_wavelength_nm, wl)
""")

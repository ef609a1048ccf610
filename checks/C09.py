"""Phase-only operations leave the magnitudes they must not touch."""
from .common import PULSE
from .C05 import IMPORTS

SPECTRAL = {
    'dispersion': 'chirp_pulse_W(g2)',
    'third- and fourth-order dispersion': 'chirp_pulse_W(g2, TOD=g3, FOD=g4)',
    'dispersion about a frequency': 'chirp_pulse_W(g2, g3, g4, w0_THz=w0)',
    'phase array': 'apply_phase_W(P)',
    'constant phase': 'apply_phase_W(g2)',
    'dechirping': 'dechirp_pulse()',
    'dechirping above a threshold': 'dechirp_pulse(g2, t0)',
    'delay removal': 'remove_time_delay()',
    'delay removal above a threshold': 'remove_time_delay(t0)',
    'time offset': 'add_time_offset(g2)',
}

def run(chk):
    src = PULSE + IMPORTS + '''
g2 = SYM('g2', 0, 'real'); g3 = SYM('g3', 0, 'real'); g4 = SYM('g4', 0, 'real'); w0 = SYM('w0', 0, 'real'); t0 = SYM('t0', 0, 'pos')
P = SYM('P', 1, 'real', N)
B = SYM('B', 1, 'cplx', N)
'''
    grid = ['NPTS', 'time_window_ps', 'center_wavelength_nm', 'frep_MHz']
    for nm, op in SPECTRAL.items():
        src += "q = mk(N, Tw, wl, A, fr)\nq.%s\nEQ('%s: spectral magnitude', np.abs(q.AW), np.abs(A))\n" % (op, nm)
        src += "EQ('%s: total spectral power', np.sum(np.abs(q.AW)**2), np.sum(np.abs(A)**2))\n" % nm
        for r, v in zip(grid, ('N', 'Tw', 'wl', 'fr')):
            src += "EQ('%s: %s', q.%s, %s)\n" % (nm, r, r, v)
    src += '''
q = mk(N, Tw, wl, None, fr)
q.set_AT(B)
q.chirp_pulse_T(g2, g3, t0)
EQ('temporal chirp: magnitude in time', np.abs(q.AT), np.abs(B))
q.chirp_pulse_T(-g2, -g3, t0)
EQ('temporal chirp undone by the opposite chirp', q.AT, B)
q = mk(N, Tw, wl, A, fr)
q.chirp_pulse_W(g2, g3, g4)
q.chirp_pulse_W(-g2, -g3, -g4)
EQ('dispersion undone by the opposite dispersion', q.AW, A)
q.chirp_pulse_W(g2, g3, g4, w0)
q.chirp_pulse_W(-g2, -g3, -g4, w0)
EQ('dispersion about a frequency undone by the opposite dispersion', q.AW, A)
q.chirp_pulse_W(g2)
q.chirp_pulse_W(g3)
r = mk(N, Tw, wl, A, fr)
r.chirp_pulse_W(g2 + g3)
EQ('dispersion adds up', q.AW, r.AW)
q = mk(N, Tw, wl, A, fr)
q.add_time_offset(g2)
q.add_time_offset(-g2)
EQ('time offset undone by the opposite offset', q.AW, A)
q.apply_phase_W(P)
q.apply_phase_W(-P)
EQ('phase undone by the opposite phase', q.AW, A)
q = mk(N, Tw, wl, A, fr)
q.rotate_spectrum_to_new_center_wl(t0)
k = int(round((299792.458/t0 - 299792.458/wl)*Tw))
EQ('rotation of the spectrum only moves samples', np.abs(q.AW), np.roll(np.abs(A), k))
'''
    chk.prog('pulse', src)
    chk.prog('compressor', PULSE + IMPORTS + '''
t = TreacyCompressor(600, 27)
s = SYM('s', 0, 'pos')
q = mk(N, Tw, wl, A, fr)
t.apply_phase_to_pulse(s, q)
EQ('spectral magnitude', np.abs(q.AW), np.abs(A))
EQ('centre wavelength', q.center_wavelength_nm, wl)
EQ('time window', q.time_window_ps, Tw)
EQ('repetition rate', q.frep_MHz, fr)
''')
    chk.floor(30)

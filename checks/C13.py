"""A pulse gives no grid or field before its settings are complete, and then the right ones."""
from itertools import permutations
from .common import PULSE
from .C12 import REJ

READS = ['W_mks', 'W_THz', 'F_mks', 'F_THz', 'V_mks', 'V_THz', 'dF_mks', 'dF_THz', 'T_mks', 'T_ps', 'dT_mks', 'dT_ps', 'wl_nm', 'wl_mks']
FIELD = ['AW', 'AT', 'calc_epp()', 'get_pulse_dict()']
WRITE = ['set_AW(A)', 'set_AT(A)', 'apply_phase_W(A)', 'chirp_pulse_W(1)', 'chirp_pulse_T(1, 1, 1)', 'add_time_offset(1)', 'set_epp(1)', 'dechirp_pulse()',
         'remove_time_delay()', 'add_noise()', 'filter_by_wavelength_nm(1, 2)', 'create_cloned_pulse()', 'create_subset_pulse(wl, 2)',
         'expand_time_window(1)', 'interpolate_to_new_center_wl(wl)', 'rotate_spectrum_to_new_center_wl(wl)', 'spectrogram()',
         'calculate_intensity_autocorrelation()', 'calculate_weighted_avg_wavelength_nm()', 'calculate_weighted_avg_frequency_mks()']
SET = {'size': 'set_NPTS(N)', 'window': 'set_time_window_ps(Tw)', 'centre': 'set_center_wavelength_nm(wl)'}
ALT = {'size': 'set_NPTS(N)', 'window': 'set_frequency_window_THz(N/Tw)', 'centre': 'set_center_wavelength_m(wl*1e-9)'}

def run(chk):
    says = REJ.replace('refused', 'says').replace('(ValueError, TypeError, RuntimeError, AssertionError, AttributeError, IndexError, KeyError)', '(ValueError, RuntimeError)')
    partial = [(), ('size',), ('centre',), ('size', 'window'), ('centre', 'size'), ('size', 'centre')]
    for done in partial:
        nm = 'set so far: ' + (', '.join(done) or 'nothing')
        src = PULSE + REJ + says + 'z = mk(N, Tw, wl, None)\nf = mk(N, Tw, wl, A)\n'
        head = 'p = Pulse()\n' + ''.join('p.%s\n' % SET[d] for d in done)
        rest = ''.join('p.%s\n' % SET[d] for d in ('size', 'window', 'centre') if d not in done)
        for r in READS + FIELD + WRITE:
            f = 'says' if r in READS + FIELD[:3] else 'refused'
            src += head + "EQ('refused: %s', %s(lambda: p.%s), True)\n" % (r, f, r)
            src += "EQ('refused again: %s', %s(lambda: p.%s), True)\n" % (r, f, r)
            # completing the settings afterwards gives the normal pulse
            if r in READS:
                src += rest + "EQ('completed after refusal: %s', p.%s, z.%s)\n" % (r, r, r)
            else:
                src += rest + "p.set_AW(A)\nEQ('field after refusal of %s', p.AW, A)\nEQ('grid after refusal of %s', p.W_mks, z.W_mks)\n" % (r, r)
        chk.prog(nm, src, no_external_raise=True)
    src = PULSE + REJ + says + 'z = mk(N, Tw, wl, None)\nf = mk(N, Tw, wl, A)\n'
    for order in permutations(('size', 'window', 'centre')):
        for S in (SET, ALT):
            nm = ', '.join(S[o].split('(')[0] for o in order)
            if order.index('window') < order.index('size'):
                pre = order[:order.index('window')]
                src += 'p = Pulse()\n' + ''.join('p.%s\n' % S[o] for o in pre)
                src += "EQ('window before size: %s', refused(lambda: p.%s), True)\n" % (nm, S['window'])
                src += 'p.%s\np.%s\np.%s\n' % (S['size'], S['window'], S['centre'])
            else:
                src += 'p = Pulse()\n' + ''.join('p.%s\n' % S[o] for o in order)
            src += "EQ('no field yet: %s', refused(lambda: p.AW), True)\nEQ('no field in time yet: %s', refused(lambda: p.AT), True)\n" % (nm, nm)
            for r in READS:
                src += "EQ('%s: %s', p.%s, z.%s)\n" % (nm, r, r, r)
            src += "p.set_AW(A)\nEQ('%s: AW', p.AW, f.AW)\nEQ('%s: AT', p.AT, f.AT)\n" % (nm, nm)
    for w in ('set_time_window_ps(Tw)', 'set_time_window_s(Tw)', 'set_frequency_window_THz(Tw)', 'set_frequency_window_mks(Tw)'):
        src += "p = Pulse()\nEQ('no size yet: %s', refused(lambda: p.%s), True)\n" % (w, w)
    chk.prog('order of settings', src, no_external_raise=True)
    chk.floor(300)

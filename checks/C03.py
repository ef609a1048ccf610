"""Derived values always reflect the latest grid settings (no stale caches)."""
from .common import PULSE

READS = ['wl_nm', 'wl_mks', 'W_mks', 'W_THz', 'F_mks', 'F_THz', 'V_mks', 'V_THz', 'T_ps', 'T_mks', 'dT_ps', 'dT_mks',
         'dF_mks', 'dF_THz', 'center_wavelength_nm', 'center_wavelength_mks', 'center_frequency_THz', 'center_frequency_mks',
         'time_window_ps', 'time_window_mks', 'NPTS']
CHANGES = {
    'centre wavelength (nm)': ('set_center_wavelength_nm(x)', 'mk(N, Tw, x, None)'),
    'centre wavelength (m)': ('set_center_wavelength_m(x*1e-9)', 'mk(N, Tw, x, None)'),
    'time window (ps)': ('set_time_window_ps(x)', 'mk(N, x, wl, None)'),
    'time window (s)': ('set_time_window_s(x*1e-12)', 'mk(N, x, wl, None)'),
    'frequency window (THz)': ('set_frequency_window_THz(N/x)', 'mk(N, x, wl, None)'),
    'number of points': ('set_NPTS(2*M2)', 'mk(2*M2, Tw, wl, None)'),
    'clone of another pulse': ('clone_pulse(other)', 'mk(2*M2, T2, x, None)'),
    'load of a dictionary': ('load_pulse_dict(other.get_pulse_dict())', 'mk(2*M2, T2, x, None)'),
    'doubled time window': ('expand_time_window(1)', 'mk(2*N, 2*Tw, wl, None)'),
}

def run(chk):
    for name, (change, fresh) in CHANGES.items():
        src = PULSE + '''
x = SYM('x', 0, 'pos')
M2 = SYM('M2', 0, 'posint')
T2 = SYM('T2', 0, 'pos')
other = mk(2*M2, T2, x, SYM('B', 1, 'cplx', 2*M2))
p = mk(N, Tw, wl, A)
'''
        for r in READS:
            src += 'r_%s = p.%s\n' % (r, r)
        src += 'p.%s\nf = %s\n' % (change, fresh)
        for r in READS:
            src += "EQ('%s after changing', p.%s, f.%s)\n" % (r, r, r)
        # and a second, reversed change: a cache of the previous state must not come back
        if name.startswith('centre') or name.startswith('time window (ps'):
            src += 'p.set_center_wavelength_nm(wl)\np.set_time_window_ps(Tw)\ng = mk(N, Tw, wl, None)\n'
            for r in ('wl_nm', 'W_mks', 'F_mks', 'T_ps', 'wl_mks'):
                src += "EQ('%s after changing back', p.%s, g.%s)\n" % (r, r, r)
        chk.prog(name, src)
    chk.prog('field follows the new grid', PULSE + '''
M2 = SYM('M2', 0, 'posint')
B = SYM('B', 1, 'cplx', 2*M2)
p = mk(N, Tw, wl, A)
e0 = p.calc_epp()
p.set_NPTS(2*M2)
p.set_AW(B)
f = mk(2*M2, Tw, wl, B)
EQ('spectrum after resizing', p.AW, B)
EQ('field after resizing', p.AT, f.AT)
EQ('energy after resizing', p.calc_epp(), f.calc_epp())
x = SYM('x', 0, 'pos')
p.set_time_window_ps(x)
g = mk(2*M2, x, wl, B)
EQ('energy after changing the window', p.calc_epp(), g.calc_epp())
''')
    chk.prog('crystal index cache', PULSE + '''
from pynlo.media.crystals.XTAL_PPLN import PPLN
from pynlo.media.crystals.XTAL_AgGaSe2 import AgGaSe2
Tc = SYM('Tc'); Td = SYM('Td'); x = SYM('x', 0, 'pos'); y = SYM('y', 0, 'pos')
p = mk(N, Tw, wl, A)
q = mk(N, Tw, x, A)
r = mk(N, y, wl, A)
k = PPLN(Tc, enable_caching=True)
u = PPLN(Tc)
EQ('PPLN first use', k.get_pulse_n(p), u.n(p.wl_nm))
EQ('PPLN cached use', k.get_pulse_n(p), u.n(p.wl_nm))
EQ('PPLN other centre', k.get_pulse_n(q), u.n(q.wl_nm))
EQ('PPLN other window', k.get_pulse_n(r), u.n(r.wl_nm))
v = PPLN(Td)
k.set_T(Td)
EQ('PPLN after temperature change', k.get_pulse_n(p), v.n(p.wl_nm))
k.load(Tc, data_source='Deng')
w = PPLN(Tc)
w.load(Tc, data_source='Deng')
EQ('PPLN after loading other data', k.get_pulse_n(p), w.n(p.wl_nm))
th = SYM('th'); ph = SYM('ph')
a = AgGaSe2(th, enable_caching=True)
b = AgGaSe2(th)
EQ('AgGaSe2 is not served PPLN data', a.get_pulse_n(p, 'o'), b.n(p.wl_nm, 'o'))
EQ('AgGaSe2 other axis', a.get_pulse_n(p, 'e'), b.n(p.wl_nm, 'e'))
EQ('AgGaSe2 mixed axis', a.get_pulse_n(p, 'mix'), b.n(p.wl_nm, 'mix'))
a.set_theta(ph)
b.set_theta(ph)
EQ('AgGaSe2 after rotation', a.get_pulse_n(p, 'mix'), b.n(p.wl_nm, 'mix'))
n = a.get_pulse_n(p, 'o')
n[0] = 7
EQ('cached index survives the caller', a.get_pulse_n(p, 'o'), b.n(p.wl_nm, 'o'))
n = a.get_pulse_n(p, 'o')
n *= 2
EQ('cached index survives the caller twice', a.get_pulse_n(p, 'o'), b.n(p.wl_nm, 'o'))
n = b.get_pulse_n(q, 'o')
b.set_caching(True)
n = b.get_pulse_n(q, 'o')
n *= 2
EQ('index first computed for the caller is not the cached one', b.get_pulse_n(q, 'o'), a.n(q.wl_nm, 'o'))
''')
    chk.floor(150)

"""Invalid requests are refused and leave everything as it was."""
from .common import PULSE
from .C05 import IMPORTS

REJ = '''
def refused(f):
    try:
        f()
    except (ValueError, TypeError, RuntimeError, AssertionError, AttributeError, IndexError, KeyError):
        return True
    return False
'''
# what -> (setup, attempt)
PULSE_OPS = {
    'padding at an unknown side': "p.expand_time_window(1, 'middle')",
    'padding at an unknown side by four': "p.expand_time_window(2, new_pts_loc='Before')",
    'unknown noise type': "p.add_noise('white')",
    'subset of equal size': 'p.create_subset_pulse(wl, N)',
    'subset of larger size': 'p.create_subset_pulse(wl, N + M2)',
    'unknown gate': "p.spectrogram(gate_type='shg')",
    'unset units': 'p._ext_units_mks()',
    'unset units, nm': 'p._ext_units_nmps()',
}
READS = ['AW', 'AT', 'wl_nm', 'W_mks', 'T_ps', 'NPTS', 'time_window_ps', 'center_wavelength_nm', 'frep_MHz', 'calc_epp()']

def run(chk):
    for nm, op in PULSE_OPS.items():
        src = PULSE + REJ + '''
M2 = SYM('M2', 0, 'posint')
p = mk(N, Tw, wl, A, fr)
'''
        src += ''.join('v%d = p.%s\n' % (i, r) for i, r in enumerate(READS))
        src += "EQ('refused', refused(lambda: %s), True)\n" % op
        src += ''.join("EQ('%s afterwards', p.%s, v%d)\n" % (r, r, i) for i, r in enumerate(READS))
        chk.prog(nm, src, soft='_ext' in op)
    src = PULSE + IMPORTS + REJ + '''
s = SYM('s', 0, 'pos')
t = TreacyCompressor(600, 27)
EQ('compressor: second order is not higher order', refused(lambda: t.calc_compressor_HOD(wl, s, 2)), True)
EQ('compressor: order one is not higher order', refused(lambda: t.calc_compressor_HOD(wl, s, 1)), True)
EQ('compressor: third order is answered', refused(lambda: t.calc_compressor_HOD(wl, s, 3)), False)
EQ('compressor: no zeroth derivative', refused(lambda: t.calc_compressor_dnphi_domega_n(wl, s, 0)), True)
EQ('compressor: no negative derivative', refused(lambda: t.calc_compressor_dnphi_domega_n(wl, s, -1)), True)
EQ('compressor: first derivative is answered', refused(lambda: t.calc_compressor_dnphi_domega_n(wl, s, 1)), False)
f = FiberInstance()
f.generate_fiber(s, wl, [1, 2], 1)
b0 = f.get_betas(p)
f.set_dispersion_function(lambda z: 1, dispersion_format='beta')
EQ('fiber: unknown dispersion format', refused(lambda: f.get_betas(p)), True)
f = FiberInstance()
f.generate_fiber(s, wl, [1, 2], 1)
f.fiberspecs['dispersion_format'] = 'B'
EQ('fiber: unknown stored format', refused(lambda: f.get_betas(p)), True)
k = AgGaSe2(s)
EQ('crystal: unknown axis', refused(lambda: k.n(wl, 'x')), True)
EQ('crystal: unknown axis for a pulse', refused(lambda: k.get_pulse_n(p, 'x')), True)
EQ('crystal: known axis', refused(lambda: k.n(wl, 'o')), False)
k.set_caching(False)
EQ('crystal: caching switch takes a truth value', refused(lambda: k.set_caching('on')), True)
EQ('crystal still answers', k.n(wl, 'o'), AgGaSe2(s).n(wl, 'o'))
from pynlo.media.crystals import XTAL_AgGaS
k = XTAL_AgGaS.AgGaSe2(s)
EQ('other crystal: unknown axis', refused(lambda: k.n(wl, 'x')), True)
from pynlo.light.DerivedPulses import *
small = 0.5
for X in (SechPulse, GaussianPulse, SincPulse):
    r1 = refused(lambda: X(1, 1, small, time_window_ps=10))
    r2 = refused(lambda: X(1, 1, 1550, time_window_ps=small))
    EQ('generated pulse: wavelength in metres', r1, True)
    EQ('generated pulse: window in seconds', r2, True)
EQ('continuous wave: wavelength in metres', refused(lambda: CWPulse(1, small)), True)
EQ('continuous wave: window in seconds', refused(lambda: CWPulse(1, 1550, time_window_ps=small)), True)
'''
    chk.prog('media and devices', src, no_external_raise=True)
    chk.prog('caching switch', PULSE + IMPORTS + REJ + '''
s = SYM('s', 0, 'pos')
for X in (lambda **d: PPLN(s, **d), lambda **d: AgGaSe2(s, **d)):
    for start in (True, False):
        k = X(enable_caching=start)
        before = k._enable_caching
        r = refused(lambda: k.set_caching('on'))
        EQ('switch after a refused request', k._enable_caching, before)
        k.set_caching(not start)
        EQ('switch after a valid request', k._enable_caching, not start)
''', soft=True)
    chk.prog('mixing problem', PULSE + IMPORTS + REJ + '''
from pynlo.interactions.ThreeWaveMixing import dfg_problem
x = SYM('x', 0, 'pos'); w2 = SYM('w2', 0, 'pos')
B = SYM('B', 1, 'cplx', N)
def make(a, b, **kw): return dfg_problem(a, b, AgGaSe2(x, length=x), disable_SPM=True, **kw)
q = mk(N, Tw, w2, B, fr)
EQ('pump and signal of different size', refused(lambda: make(p, mk(4*M, Tw, w2, None, fr))), True)
i = mk(N, Tw, 1/(1/wl - 1/w2), None)
EQ('overlapping grids', refused(lambda: make(p, q)), bool(max(p.wl_nm) > min(q.wl_nm) or max(q.wl_nm) > min(i.wl_nm)))
EQ('pump unchanged', p.AW, A)
EQ('pump grid unchanged', p.wl_nm, mk(N, Tw, wl, A).wl_nm)
EQ('signal unchanged', q.AW, B)
EQ('signal grid unchanged', q.wl_nm, mk(N, Tw, w2, B).wl_nm)
EQ('no waveguide without an area', refused(lambda: dfg_problem(p, q, AgGaSe2(x, length=x), disable_SPM=True, wg_mode=True)), True)
''', no_external_raise=True)
    chk.prog('overlaps', PULSE + REJ + '''
from pynlo.interactions.ThreeWaveMixing import field_classes
b = field_classes.beam_parameters(3., 4., 5.)
for i in (0, 1, 2):
    for bad in (-1, 3, 1.0):
        u = refused(lambda: b.calculate_overlap(i, bad))
        v = refused(lambda: b.calculate_overlap(bad, i))
        EQ('index out of range', u, True)
        EQ('first index out of range', v, True)
    for j in (0, 1, 2):
        w = refused(lambda: b.calculate_overlap(i, j))
        EQ('index in range', w, False)
''', soft=True)
    chk.floor(100)

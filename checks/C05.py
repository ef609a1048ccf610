"""Operations leave the objects passed to them as they were."""
from .common import PULSE, PULSE_READS, FIBER_READS, CW_GOOD
from .C04 import snap, same

ARR = '''
Z = SYM('Z', 1, 'cplx', N)
R = SYM('R', 1, 'real', N)
'''
ARRAY_OPS = {
    'spectrum setter': ('Z', 'mk(N, Tw, wl, None).set_AW(v)'),
    'field setter': ('Z', 'mk(N, Tw, wl, None).set_AT(v)'),
    'spectrum setter over an old field': ('Z', 'mk(N, Tw, wl, A).set_AW(v)'),
    'field setter over an old field': ('Z', 'mk(N, Tw, wl, A).set_AT(v)'),
    'phase application': ('R', 'mk(N, Tw, wl, A).apply_phase_W(v)'),
    'transform': ('Z', 'FFT_t(v)'),
    'inverse transform': ('Z', 'IFFT_t(v)'),
    'fiber generation': ('R', 'FiberInstance().generate_fiber(Tw, wl, v, 1)'),
    'fiber generation per km': ('R', "FiberInstance().generate_fiber(Tw, wl, v, 1, gvd_units='ps^n/km')"),
    'index of PPLN': ('R', 'PPLN(Tw).n(v)'),
    'index of AgGaSe2': ('R', "AgGaSe2(Tw).n(v, 'mix')"),
    'group velocity': ('R', 'PPLN(Tw).calculate_group_velocity_nm_ps(v)'),
    'dispersion': ('R', 'PPLN(Tw).calculate_D_ps_nm_km(v)'),
    'phasematching bandwidth': ('R', 'PPLN(Tw).calculate_mix_phasematching_bw(wl, v)'),
    'poling period': ('R', 'PPLN(Tw).calculate_poling_period(wl, v, None, silent=True)'),
    'diffraction angle': ('R', 'TreacyCompressor(600, 27).calc_theta(v)'),
    'single-pass dispersion': ('R', 'TreacyCompressor(600, 27).calc_dt_dw_singlepass(v, Tw)'),
    'compressor dispersion': ('R', 'TreacyCompressor(600, 27).calc_compressor_gdd(v, Tw)'),
    'group delay': ('R', 'TreacyCompressor(600, 27).calc_dphi_domega(v, Tw)'),
    'beam size at an index': ('R', 'OneDBeam(1e-5, p).calculate_waist(Tw, v)'),
    'beam curvature at an index': ('R', 'OneDBeam(1e-5, p).calculate_R(Tw, v)'),
    'beam phase at an index': ('R', 'OneDBeam(1e-5, p).calculate_gouy_phase(Tw, v)'),
    'beam scale at an index': ('R', 'OneDBeam(1e-5, p).rtP_to_a(v)'),
    'guided scale at an index': ('R', 'OneDBeam_highV_WG(10., p).rtP_to_a(v)'),
}
IMPORTS = '''
from pynlo.util import FFT_t, IFFT_t
from pynlo.light import OneDBeam, OneDBeam_highV_WG
from pynlo.light.DerivedPulses import *
from pynlo.media.fibers.fiber import FiberInstance
from pynlo.media.fibers.calculators import DTabulationToBetas
from pynlo.media.crystals.XTAL_PPLN import PPLN
from pynlo.media.crystals.XTAL_AgGaSe2 import AgGaSe2
from pynlo.devices.grating_compressor import TreacyCompressor
from pynlo.interactions.FourWaveMixing.SSFM import SSFM
p = mk(N, Tw, wl, A, fr)
'''
PULSE_OPS = {
    'clone source': 'Pulse().clone_pulse(p)',
    'created clone': 'p.create_cloned_pulse()',
    'dictionary export': 'p.get_pulse_dict()',
    'interpolation': 'p.interpolate_to_new_center_wl(x)',
    'energy': 'p.calc_epp()',
    'autocorrelation': 'p.calculate_intensity_autocorrelation()',
    'mean frequency': 'p.calculate_weighted_avg_frequency_mks()',
    'mean wavelength': 'p.calculate_weighted_avg_wavelength_nm()',
    'spectrogram': 'p.spectrogram()',
    'frog export': "p.write_frog('x.dat')",
    'fiber dispersion': 'f.get_betas(p)',
    'fiber gain': 'f.get_gain(p)',
    'fiber second-order dispersion': 'f.Beta2(p)',
    'fiber D': 'f.Beta2_to_D(p)',
    'crystal index': 'PPLN(Tw).get_pulse_n(p)',
    'crystal wavenumber': 'PPLN(Tw).get_pulse_k(p)',
    'cached crystal index': 'PPLN(Tw, enable_caching=True).get_pulse_n(p)',
    'beam': 'OneDBeam(1e-5, p).set_waist_to_match_central_waist(p, 1e-5, PPLN(Tw))',
    'beam conversion': 'OneDBeam(1e-5, p).rtP_to_a_2(p, PPLN(Tw), x)',
}

def run(chk):
    src = PULSE + ARR + IMPORTS
    for i, (nm, (kind, op)) in enumerate(ARRAY_OPS.items()):
        src += "v = %s + 0\n%s\nEQ('%s: array argument', v, %s)\n" % (kind, op, nm, kind)
    chk.prog('array arguments', src)
    src = PULSE + IMPORTS + '''
x = SYM('x', 0, 'pos'); b2 = SYM('b2', 0, 'real'); b3 = SYM('b3', 0, 'real')
f = FiberInstance()
f.generate_fiber(x, wl, [b2, b3], 1, gain=2)
'''
    reads = ['@.AW', '@.T_ps', '@.W_mks', '@.wl_nm', '@.frep_MHz', '@.NPTS', '@.center_wavelength_nm', '@.time_window_ps']
    src += snap('p', reads, 's')
    for nm, op in PULSE_OPS.items():
        src += op + '\n' + same('p', ['@.AW', '@.frep_MHz', '@.center_wavelength_nm', '@.time_window_ps', '@.NPTS'], 'k', nm).replace('k_0', 's_0').replace('k_1', 's_4').replace('k_2', 's_6').replace('k_3', 's_7').replace('k_4', 's_5')
    src += same('p', reads, 's', 'finally')
    chk.prog('pulse arguments', src)
    chk.prog('containers', PULSE + IMPORTS + '''
b2 = SYM('b2', 0, 'real'); b3 = SYM('b3', 0, 'real'); x = SYM('x', 0, 'pos')
K = SYM('K', 0, 'posint')
L1 = SYM('L1', 1, 'pos', K); D1 = SYM('D1', 1, 'real', K)
b = [b2, b3]
f = FiberInstance()
f.generate_fiber(x, wl, b, 1, gvd_units='ps^n/km')
f.get_betas(p)
EQ('coefficient list, first', b[0], b2)
EQ('coefficient list, second', b[1], b3)
ba = np.array([b2, b3])
f.generate_fiber(x, wl, ba, 1)
f.get_betas(p)
f.get_betas(p)
f.betas[0] = 5
EQ('coefficient array', ba, np.array([b2, b3]))
tab = np.transpose(np.vstack((L1, D1)))
t0 = tab + 0
DTabulationToBetas(wl, tab, 3, False)
EQ('dispersion table', tab, t0)
lw = L1 + 0; dd = D1 + 0
f = FiberInstance()
f.generate_fiber(x, wl, b, 1)
f.set_dispersion_function(lambda z: (lw, dd), 'D')
f.get_betas(p)
f.poly_order = 3
f.get_betas(p)
EQ('user dispersion wavelengths', lw, L1)
EQ('user dispersion values', dd, D1)
f.set_dispersion_function(lambda z: (lw, dd), 'n')
f.get_betas(p)
EQ('user index wavelengths', lw, L1)
EQ('user index values', dd, D1)
bz = np.array([b2, b3])
f.set_dispersion_function(lambda z: bz, 'GVD')
f.get_betas(p)
f.get_betas(p, x)
EQ('user coefficients', bz, np.array([b2, b3]))
d = p.get_pulse_dict()
w = d['AT_re'][0] + 0
n0 = d['NPTS']
q = Pulse()
q.load_pulse_dict(d)
q.chirp_pulse_W(x)
q.expand_time_window(1)
EQ('pulse dictionary entry', d['AT_re'][0], w)
EQ('pulse dictionary size', d['NPTS'], n0)
''')
    chk.prog('propagation', PULSE + IMPORTS + '''
b2 = SYM('b2', 0, 'real'); b3 = SYM('b3', 0, 'real'); x = SYM('x', 0, 'pos'); g = SYM('g', 0, 'real'); g0 = SYM('g0', 0, 'pos')
f = FiberInstance()
f.generate_fiber(x, wl, [b2, b3], g, gain=g0)
''' + snap('p', reads, 's') + snap('f', FIBER_READS, 't') + '''
s = SSFM()
y, AW, AT, out = s.propagate(p, f, 2)
''' + same('p', reads, 's', 'propagated pulse') + same('f', FIBER_READS, 't', 'fiber') + '''
AW[0, 0] = 1
AT[0, 0] = 1
out.set_AW(Z1) if False else out.chirp_pulse_W(x)
y[0] = 5
''' + same('p', reads[:2], 's', 'after editing the results') + '''
s.propagate(out, f, 1)
''' + same('p', reads[:2], 's', 'after a second propagation'), no_external_raise=True)
    chk.prog('three-wave mixing', PULSE + IMPORTS + '''
from pynlo.interactions.ThreeWaveMixing import dfg_problem
w2 = SYM('w2', 0, 'pos'); x = SYM('x', 0, 'pos')
B = SYM('B', 1, 'cplx', N)
q = mk(N, Tw, w2, B, fr)
k = AgGaSe2(x, length=x)
''' + snap('p', reads, 's') + snap('q', reads, 't') + '''
kn = k.n(wl); kt = k.theta; kl = k.length_mks
d = dfg_problem(p, q, k, disable_SPM=True)
''' + same('p', reads, 's', 'pump') + same('q', reads, 't', 'signal') + '''
EQ('crystal index', k.n(wl), kn)
EQ('crystal angle', k.theta, kt)
EQ('crystal length', k.length_mks, kl)
d.pump.chirp_pulse_W(x)
d.sgnl.chirp_pulse_W(x)
d.crystal.set_theta(5)
EQ('pump after the problem changes its own', p.AW, s_0)
EQ('signal after the problem changes its own', q.AW, t_0)
EQ('crystal after the problem changes its own', k.theta, kt)
Y = SYM('Y', 1, 'cplx', 3*N)
yy = Y + 0
dy = np.zeros(3*N, dtype=complex)
z = SYM('z', 0, 'pos')
d.deriv(z, yy, dy)
EQ('state passed to the right-hand side', yy, Y)
''', no_external_raise=True)
    chk.floor(80)

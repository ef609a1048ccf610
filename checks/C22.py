"""Computing draws nothing, touches no file, consumes no random number and changes no process-wide setting unless asked."""
import ast
import os
from sa.check import Broken, REPO
from .common import PULSE, text_files
from .C05 import IMPORTS
from .C18 import HEAD
from .C36 import RUNS

KINDS = {'plot': 'draws a figure', 'file': 'writes or opens a file', 'file-read': 'reads a file', 'rng': 'consumes random numbers',
         'rngseed': 'reseeds the random generator', 'setting': 'changes a process-wide setting', 'exit': 'ends the process',
         'input': 'waits for keyboard input', 'clock': 'reads the clock'}

BASE = PULSE + IMPORTS + '''
x = SYM('x', 0, 'pos'); y = SYM('y', 0, 'pos'); b2 = SYM('b2', 0, 'real'); b3 = SYM('b3', 0, 'real'); g = SYM('g', 0, 'real')
K = SYM('K', 0, 'posint')
l = SYM('l', 1, 'pos', K); D = SYM('D', 1, 'real', K); R = SYM('R', 1, 'real', N)
q = mk(N, Tw, x, A, fr)
f = FiberInstance()
f.generate_fiber(x, wl, [b2, b3], g, gain=y)
k = PPLN(x, length=y)
ag = AgGaSe2(x, length=y)
tc = TreacyCompressor(600, 27)
bm = OneDBeam(x, p)
wg = OneDBeam_highV_WG(10., p)
s = SSFM()
'''

# operation -> (source, effects it has by its purpose)
OPS = {
    'a pulse and all its quantities': ("""
t = mk(N, Tw, wl, A, fr)
[t.AW, t.AT, t.T_ps, t.T_mks, t.W_mks, t.W_THz, t.F_THz, t.F_mks, t.V_THz, t.V_mks, t.dT_ps, t.dT_mks, t.dF_THz, t.dF_mks, t.wl_nm, t.wl_mks, t.frep_MHz, t.cache_hash]
t.calc_epp()""", ()),
    'sech pulse': ('SechPulse(1, T0_ps=x, center_wavelength_nm=1550, time_window_ps=10, GDD=b2, TOD=b3)', ()),
    'gaussian pulse': ('GaussianPulse(1, T0_ps=x, center_wavelength_nm=1550, time_window_ps=10, GDD=b2, TOD=b3)', ()),
    'sinc pulse': ('SincPulse(1, x, center_wavelength_nm=1550, time_window_ps=10, GDD=b2, TOD=b3)', ()),
    'noise pulse': ('NoisePulse(1550, time_window_ps=10.)', ('rng',)),
    'continuous wave': ('CWPulse(x, 1550)', ()),
    'measured field': ("FROGPulse(10, 1550, 1, 'x.dat')", ('file-read',)),
    'setting a spectrum and a field': ('p.set_AW(A)\np.set_AT(A)', ()),
    'phase operations': ("p.chirp_pulse_W(b2, b3)\np.chirp_pulse_T(b2, b3, 1)\np.apply_phase_W(R)\np.dechirp_pulse(x) if hasattr(p, 'dechirp_pulse') else None\np.add_time_offset(x)", ()),
    'windows, shifts and filters': ("p.expand_time_window(1)\np.rotate_spectrum_to_new_center_wl(x)\np.filter_by_wavelength_nm(x, x + 1)", ()),
    'moving to another centre': ('p.interpolate_to_new_center_wl(x)', ()),
    'copies': ('p.create_cloned_pulse()\nPulse().clone_pulse(p)\nPulse().load_pulse_dict(p.get_pulse_dict())', ()),
    'subset': ('p.create_subset_pulse(x, M)', ()),
    'averages and autocorrelation': ('p.calculate_weighted_avg_frequency_mks()\np.calculate_weighted_avg_wavelength_nm()\np.calculate_intensity_autocorrelation()', ()),
    'adding noise': ('p.add_noise()', ('rng',)),
    'spectrogram': ('p.spectrogram()', ()),
    'writing a field': ("p.write_frog('x.dat')", ('file',)),
    'generating a fiber': ('f.generate_fiber(x, wl, [b2, b3], g)\n[f.get_betas(p), f.get_gain(p), f.get_gamma(), f.Beta2(p), f.Beta2_to_D(p)]', ()),
    'new fiber with its database': ("h = FiberInstance()\nh.generate_fiber(x, wl, [b2, b3], g)\n[h.get_betas(p), h.get_gain(p), h.get_gamma(), h.Beta2(p), h.Beta2_to_D(p)]", ('file-read',)),
    'fiber functions': ("f.set_gamma_function(lambda z: z)\nf.set_dispersion_function(lambda z: (l, D), 'D')\nf.get_gamma(x)\nf.get_betas(p, x)", ()),
    'fiber from a file': ("h = FiberInstance()\nh.load_from_file('x.csv', length=x)\nMARK('loaded')\nh.get_betas(p)", ('file-read',)),
    'dispersion fit': ('DTabulationToBetas(wl, np.transpose(np.vstack((l, D))), 3, False)', ()),
    'dispersion fit of a file': ("DTabulationToBetas(wl, 'x.csv', 3)", ('file-read',)),
    'PPLN': ('[k.n(wl), k.get_pulse_n(p), k.get_pulse_k(p), k.calculate_D_ps_nm_km(wl), k.calculate_D_fs_um_mm(wl), k.calculate_group_velocity_nm_ps(wl), k.calculate_pulse_delay_ps(wl, x)]\n'
             'k.set_T(x)\nk.set_pp(lambda z: z)\nk.set_caching(True)\nk.get_pulse_n(p)\nk.set_pp_chirp(x, y)\nk.length_nm', ()),
    'poling': ('k.calculate_poling_period(wl, x, None, silent=True)\nk.calculate_mix_phasematching_bw(wl, x)', ()),
    'signal of a poling period': ('k.invert_dfg_qpm_to_signal_wl(wl, x)', ()),
    'birefringent crystal': ("ag.set_theta(x)\n[ag.n(wl, 'o'), ag.n(wl, 'e'), ag.n(wl)]\nag.phasematch(wl, x, None)", ()),
    'free beam': ('[bm.calc_confocal(), bm.calculate_waist(y, x), bm.calculate_R(y, x), bm.calculate_gouy_phase(y, x), bm.calculate_zR(x), bm.rtP_to_a(x), bm.rtP_to_a_2(p, k, y), bm.get_n_in_crystal(p, k), bm.get_k_in_crystal(p, k)]\n'
                  'bm.set_waist_to_match_central_waist(p, x, k)', ()),
    'beam matching': ('bm.calc_overlap_integral(x, p, q, OneDBeam(x, q), k)\nbm.set_waist_to_match_confocal(p, q, OneDBeam(x, q), k)', ()),
    'guided beam': ('[wg.rtP_to_a(x), wg.calculate_gouy_phase(y, x), wg.rtP_to_a_2(p, k, y), wg.get_n_in_crystal(p, k)]\nwg.set_Aeff(x)', ()),
    'grating compressor': ('[tc.calc_theta(wl), tc.calc_dt_dw_singlepass(wl, x), tc.calc_compressor_gdd(wl, x), tc.calc_compressor_HOD(wl, x, 3), tc.calc_dphi_domega(x, y)]\ntc.apply_phase_to_pulse(x, p)', ()),
    'one step': ('s.setup_fftw(p, f, None)\ns.load_fiber_parameters(p, f, None)\ns.integrate_over_dz(x)', ()),
    'propagation': ('s.propagate(p, f, 2)', ()),
    'propagation reloading the fiber': ('s.propagate(p, f, 2, reload_fiber_each_step=True)', ()),
    'gain goal': ('s.propagate_to_gain_goal(p, f, 2, x)', ()),
    'coherence': ('s.calculate_coherence(p, f, num_trials=2, n_steps=1)', ('rng',)),
    'coherence with a seed': ('s.calculate_coherence(p, f, num_trials=2, random_seed=1, n_steps=1)', ('rng', 'rngseed')),
    'transforms': ('from pynlo.util import FFT_t, IFFT_t\nFFT_t(A)\nIFFT_t(A)', ()),
}
MIX = {
    'mixing problem': ("dfg_problem(p, q, crystal('simple'), disable_SPM=True)", ('rng',)),
    'birefringent mixing problem': ("dfg_problem(p, q, crystal('BPM'), disable_SPM=True)", ('rng',)),
    'mixing problem in a waveguide': ("dfg_problem(p, q, crystal('simple'), disable_SPM=True, wg_mode=True, Aeff_squm=10.)", ('rng',)),
    'mixing problem with a crystal': ('dfg_problem(p, q, PPLN(x, length=L), disable_SPM=True)', ('rng',)),
    'mixing right-hand side': ('rhs(d, z)', ()),
    'mixing right-hand side with the beams\' phase': ('rhs(e, z)', ()),
    'reading mixing results': ("""res = d.process_stepper_output(Run())
[res.get_z(0), res.get_pump(0), res.get_sgnl(1), res.get_idlr(1)]""", ()),
    'integration driver': ("o = ode_solve.ODEint(np.ones(2), 0., 1., 1e-6, 1e-6, .1, 0., ode_solve.Output(2), dopr853.StepperDopr853, F())\no.integrate()", ()),
}
MIXED = """x = SYM('x', 0, 'pos')
from pynlo.util import ode_solve
from pynlo.util.ode_solve import dopr853
class F:
    def deriv(self, x, y, dydx):
        dydx[:] = y
class Run:
    count = 2
    ysave = np.zeros((4, 3*N), dtype=complex)
    xsave = np.zeros(4)
d = dfg_problem(p, q, crystal('simple'), disable_SPM=True)
e = dfg_problem(p, q, crystal('simple'), disable_SPM=True, apply_gouy_phase=True)
"""
RW = {
    'writing a run': ("w = rw.DFGWriter('f.h5', 'par')\nw.add_run(d, runs[0], a[0])", ()),
    'reading a run': ("w = rw.DFGWriter('f.h5', 'par')\nw.add_run(d, runs[0], a[0])\ng = rw.DFGReader('f.h5', 'par')\ng.get_run(0, 0)\ng.get_next_run()\ng.get_run_param(0)", ()),
}


def modules():
    """importable modules of the package (scripts that draw when run and test files excluded)"""
    root = os.path.join(REPO, 'src')
    for d, _, fs in sorted(os.walk(os.path.join(root, 'pynlo'))):
        if not os.path.exists(os.path.join(d, '__init__.py')):
            continue
        for f in sorted(fs):
            if f.endswith('.py') and f not in ('example.py', 'test.py'):
                name = os.path.relpath(os.path.join(d, f), root)[:-3].replace(os.sep, '.')
                yield name[:-len('.__init__')] if name.endswith('.__init__') else name


def report(chk, p, label, allowed, inside):
    """obligations of one operation: which effects any path through it has"""
    got = {}
    for ev in p.eng.events:
        if ev[0] == 'effect' and ev[3] in KINDS and inside(ev):
            got.setdefault(ev[3], ev)
    for kind, what in KINDS.items():
        lab = '%s: %s' % (label, kind)
        if kind in got and kind not in allowed:
            ev = got[kind]
            chk.violation(lab, 'effect', '%s:%s' % (ev[1][0], ev[1][1]), '%s: %s at line %s, reached through %s' % (
                what, ' '.join(map(str, ev[4:])), ev[1][2], ' > '.join(map(str, ev[2]))))
        else:
            yield kind, lab, got


def op(chk, label, head, src, allowed, **config):
    body = 'def the_operation():\n' + ''.join('    %s\n' % l for l in src.strip().split('\n')) + "    HOLDS('completes', True)\n"
    before = len(chk.items)
    p = chk.prog(label, head + body + 'the_operation()\n', no_external_raise=True, **config)
    if p is None:
        return
    done = any(o[0] == 'holds' for o in p.eng.observed)
    quiet = list(report(chk, p, label, allowed, lambda ev: any('the_operation' in str(q) for q in ev[2])))
    for kind, lab, got in quiet:
        if not done:
            chk.undecided(lab, 'effect', 'the operation was not followed to its end')
        elif kind in allowed and kind not in got:
            chk.violation(lab, 'effect', 'specification program %s' % label, 'the effect it exists for never happens')
        else:
            chk.ok(lab, 'effect')
    # whether the operation can complete is decided by other checks
    chk.items[before:] = [i for i in chk.items[before:] if not i[1].endswith(': completes')]


def run(chk):
    mods = list(modules())
    if len(mods) < 10:
        raise Broken('only %d modules under src/pynlo' % len(mods))
    p = chk.prog('import', ''.join('import %s\n' % m for m in mods) + "HOLDS('all imported', True)\n")
    if p is not None:
        for kind, lab, got in report(chk, p, 'import', (), lambda ev: ev[1][0] != 'import'):
            chk.ok(lab, 'effect')
    for ops, head in ((OPS, BASE), (MIX, HEAD + IMPORTS.replace('p = mk(N, Tw, wl, A, fr)', '') + MIXED), (RW, RUNS)):
        for label, (src, allowed) in ops.items():
            op(chk, label, head, src, allowed, ext_overrides=text_files())
    chk.floor(250)

"""Results depend on current contents and arguments only, never on earlier calls."""
import re
from .common import PULSE, CW_GOOD, text_files
from .C05 import IMPORTS
from .C18 import GRIDS, HEAD
from .C32 import RUN


def history(name, state, args, queries, other, changes=(), fresh=''):
    """A program asking an object `o` (built by `make(*state)`) the same questions before and after other calls.
    The first answer is the reference; every later answer must be that one with the changed inputs renamed in it.
    state / args: {symbol: other symbol}; queries: {label: expression in o and the argument names}."""
    S1, S2 = ', '.join(state), ', '.join(state.values())
    A1, A2 = ', '.join(args), ', '.join(args.values())
    ren = lambda d: ''.join(', %s, %s' % kv for kv in d.items())
    src = ''.join('def q%d(o%s): return %s\n' % (i, ', ' + A1 if A1 else '', e) for i, e in enumerate(queries.values()))
    def ask(i, o, a):
        return 'q%d(%s)' % (i, ', '.join(x for x in (o, a) if x))
    L = list(enumerate(queries))
    src += 'o = make(%s)\n' % S1
    src += ''.join('r%d = %s\nk%d = r%d + 0\n' % (i, ask(i, 'o', A1), i, i) for i, l in L)
    src += ''.join("EQ('%s: asked again', %s, k%d)\n" % (l, ask(i, 'o', A1), i) for i, l in reversed(L))
    if A2:
        src += ''.join("EQ('%s: with other arguments', %s, RENAME(k%d%s))\n" % (l, ask(i, 'o', A2), i, ren(args)) for i, l in L)
    if other:
        src += 'second = make(%s)\n' % S2
        src += ''.join("EQ('%s: of another object', %s, RENAME(k%d%s))\n" % (l, ask(i, 'second', A1), i, ren(state)) for i, l in L)
        src += ''.join("EQ('%s: unaffected by another object', %s, k%d)\n" % (l, ask(i, 'o', A1), i) for i, l in L)
    done = {}
    for lab, code, pairs in changes:
        done.update(pairs)
        src += code + '\n'
        src += ''.join("EQ('%s: after %s', %s, RENAME(k%d%s))\n" % (l, lab, ask(i, 'o', A1), i, ren(done)) for i, l in L)
    src += ''.join("EQ('%s: earlier answer kept', r%d, k%d)\n" % (l, i, i) for i, l in L)
    # one question alone on an object of its own: each argument changed by itself, and each change right after the question
    for i, l in L:
        one = [a for a in args if re.search(r'\b%s\b' % a, queries[l])]
        if not (len(one) > 1 or changes):
            continue
        src += '%s\no = make(%s)\n' % (fresh, S1)
        if len(one) > 1:
            for a in one:
                d = {k: k for k in args}
                d[a] = args[a]
                src += "%s\nEQ('%s: with one argument changed', %s, RENAME(k%d, %s, %s))\n" % (ask(i, 'o', A1), l, ask(i, 'o', ', '.join(d.values())), i, a, args[a])
        done = {}
        src += ask(i, 'o', A1) + '\n'
        for lab, code, pairs in changes:
            done.update(pairs)
            src += "%s\nEQ('%s: asked just before and after %s', %s, RENAME(k%d%s))\n" % (code, l, lab, ask(i, 'o', A1), i, ren(done))
    return src


PULSE2 = PULSE + '''
M2 = SYM('M2', 0, 'posint'); T2 = SYM('T2', 0, 'pos'); w2 = SYM('w2', 0, 'pos'); f2 = SYM('f2', 0, 'pos')
A2 = SYM('A2', 1, 'cplx', N); B = SYM('B', 1, 'cplx', 2*M2)
x = SYM('x', 0, 'pos'); y = SYM('y', 0, 'pos')
'''

GRID = {k: 'o.' + k for k in ('NPTS', 'time_window_ps', 'time_window_mks', 'center_wavelength_nm', 'center_wavelength_mks', 'center_frequency_THz',
                              'center_frequency_mks', 'frep_MHz', 'frep_mks', 'AW', 'AT', 'T_ps', 'T_mks', 'dT_ps', 'dT_mks', 'W_THz', 'W_mks',
                              'F_THz', 'F_mks', 'V_THz', 'V_mks', 'dF_THz', 'dF_mks', 'wl_nm', 'wl_mks')}
CALC = {
    'energy': 'o.calc_epp()',
    'spectrogram': 'o.spectrogram(gate_function_width_ps=x)[3]',
    'spectrogram delays': 'o.spectrogram(gate_function_width_ps=x, time_steps=8)[0]',
    'self-gated spectrogram': "o.spectrogram('frog')[3]",
    'mean frequency': 'o.calculate_weighted_avg_frequency_mks()',
    'mean wavelength': 'o.calculate_weighted_avg_wavelength_nm()',
    'autocorrelation': 'o.calculate_intensity_autocorrelation()[1]',
    'clone': 'o.create_cloned_pulse().AW',
    'clone grid': 'o.create_cloned_pulse().W_mks',
    'interpolated': 'o.interpolate_to_new_center_wl(x).AW',
    'interpolated grid': 'o.interpolate_to_new_center_wl(x).wl_nm',
    'exported field': "o.get_pulse_dict()['AT_re'] + 1j*o.get_pulse_dict()['AT_im']",
}
CHANGES = (
    ('a new spectrum', 'o.set_AW(A2)', {'A': 'A2'}),
    ('a new repetition rate', 'o.set_frep_MHz(f2)', {'fr': 'f2'}),
    ('a new centre', 'o.set_center_wavelength_nm(w2)', {'wl': 'w2'}),
    ('a new window', 'o.set_time_window_ps(T2); o.set_AW(A2)', {'Tw': 'T2'}),
    ('a new size', 'o.set_NPTS(2*M2); o.set_AW(B)', {'A': 'B', 'A2': 'B', 'M': 'M2'}),
)


def run(chk):
    make = 'def make(M, Tw, wl, A, fr): return mk(2*M, Tw, wl, A, fr)\n'
    state = {'M': 'M2', 'Tw': 'T2', 'wl': 'w2', 'A': 'B', 'fr': 'f2'}
    chk.prog('pulse', PULSE2 + make + history('pulse', state, {}, GRID, True, CHANGES))
    chk.prog('pulse calculations', PULSE2 + make + history('pulse', state, {'x': 'y'}, CALC, True, CHANGES))

    beams = PULSE2 + IMPORTS + """
from pynlo.media.crystals.CrystalContainer import Crystal
v0 = SYM('v0', 0, 'pos'); u0 = SYM('u0', 0, 'pos'); n0 = SYM('n0', 0, 'pos'); n1 = SYM('n1', 0, 'pos')
z = SYM('z', 0, 'real'); y = SYM('y', 0, 'real'); L = SYM('L', 0, 'pos'); L2 = SYM('L2', 0, 'pos'); w3 = SYM('w3', 0, 'pos')
def index(l, axis='none'): return UF('pw_n' + axis, l, rank=1, typ='pos')
def other(l, axis='none'): return UF('pw_m' + axis, l, rank=1, typ='pos')
def crystal(L):
    x = Crystal({'length': L})
    x.n = index
    return x
x = crystal(L)
p = mk(N, Tw, wl, A, fr)
q = mk(N, Tw, w3, A2, fr)
"""
    common = {'conversion': 'o.rtP_to_a(n0)', 'conversion at a position': 'o.rtP_to_a(n0, z)', 'conversion in the crystal': 'o.rtP_to_a_2(p, x, z)',
              'index in the crystal': 'o.get_n_in_crystal(p, x)', 'wave number in the crystal': 'o.get_k_in_crystal(p, x)',
              'phase': 'o.calculate_gouy_phase(z, n0)', 'coupling': 'o.calc_overlap_integral(z, p, q, o, x)'}
    gauss = dict(common, **{'waist': 'o.waist', 'confocal parameter': 'o.calc_confocal(n0)', 'confocal parameter in vacuum': 'o.calc_confocal()',
                            'radius': 'o.calculate_waist(z, n0)', 'Rayleigh range': 'o.calculate_zR(n0)', 'curvature': 'o.calculate_R(z, n0)'})
    moves = (('the pulse moved', 'p.set_center_wavelength_nm(w2)', {}), ('the crystal changed', 'x.n = other', {}))
    for nm, cls, ask, size in (('Gaussian beam', 'OneDBeam', gauss, 'o.set_w0(u0)'),
                               ('waveguide beam', 'OneDBeam_highV_WG', dict(common, area='o.Aeff'), 'o.set_Aeff(u0*1e-12)')):
        chk.prog(nm, beams + 'def make(v0, wl): return %s(v0, mk(N, Tw, wl, A, fr))\n' % cls +
                 history(nm, {'v0': 'u0', 'wl': 'w2'}, {'n0': 'n1', 'z': 'y'}, ask, False, (('a new size', size, {'v0': 'u0'}),)))
        one = {k: v for k, v in ask.items() if 'p,' not in v}
        chk.prog(nm + ' of another pulse', beams + 'def make(v0, wl): return %s(v0, mk(N, Tw, wl, A, fr))\n' % cls +
                 history(nm, {'v0': 'u0', 'wl': 'w2'}, {'n0': 'n1', 'z': 'y'}, one, True))
        # the pulses, the crystal and the partner beam asked about change under the beam
        two = {k: v for k, v in ask.items() if 'p, x' in v}
        two['coupling'] = 'o.calc_overlap_integral(z, p, q, t, x)'
        two['reversed coupling'] = 'o.calc_overlap_integral(z, p, q, t, x, True)'
        if cls == 'OneDBeam':
            two['best overlap'] = 'o.calc_optimal_beam_overlap_in_crystal(p, q, t, x)'
            two['best overlap over a length'] = 'o.calc_optimal_beam_overlap_in_crystal(p, q, t, x, n0)'
        two = list(two.items())
        src = beams.replace("L2 = SYM", "wb = SYM('wb', 0, 'pos'); Tb = SYM('Tb', 0, 'pos'); vq = SYM('vq', 0, 'pos'); vr = SYM('vr', 0, 'pos'); wq = SYM('wq', 0, 'pos'); w6 = SYM('w6', 0, 'pos'); L2 = SYM")
        src += """
def beam(v, w): return %s(v, mk(N, Tb, w, A, fr))
def crystal_of(L, f):
    x = crystal(L)
    x.n = f
    return x
""" % cls
        steps = (('the pulse moved', 'p.set_center_wavelength_nm(w2)', 'wl, w2'), ('the window of the pulse changed', 'p.set_time_window_ps(T2)', 'Tw, T2'),
                 ('another pulse', 'p = mk(N, Tw, wb, A2, fr)', 'wl, wb'), ('the other pulse moved', 'q.set_center_wavelength_nm(w6)', 'w3, w6'), ('another partner pulse', 'q = mk(N, Tq, w6, A2, fr)', 'w3, w6'),
                 ('another partner beam', 't = beam(vr, wq)', 'vq, vr'), ('the partner beam resized', 't.set_w0(vr)' if cls == 'OneDBeam' else 't.set_Aeff(vr*1e-12)', 'vq, vr'),
                 ('another length', 'x = crystal(L2)', 'L, L2'))
        src = src.replace("vq = SYM", "Tq = SYM('Tq', 0, 'pos'); vq = SYM")
        start = 'p = mk(N, Tw, wl, A, fr); q = mk(N, Tq, w3, A2, fr); x = crystal(L); t = beam(vq, wq)\n'
        for i, (l, e) in enumerate(two):
            src += 'def q%d(): return %s\n' % (i, e) + start + 'o = beam(v0, wb)\nr%d = q%d()\nk%d = r%d + 0\n' % (i, i, i, i)
            for lab, code, pairs in steps:
                src += start + "q%d()\n%s\nEQ('%s: %s', q%d(), RENAME(k%d, %s))\n" % (i, code, l, lab, i, i, pairs)
            src += start + "EQ('%s: the first objects again', q%d(), k%d)\n" % (l, i, i)
        for i, (l, e) in enumerate(two):
            src += start + "x = crystal_of(L, other)\no = beam(v0, wb)\nn%d = q%d()\nm%d = n%d + 0\n" % (i, i, i, i)
            src += start + "q%d()\nx = crystal_of(L, other)\nEQ('%s: another crystal', q%d(), m%d)\n" % (i, l, i, i)
            src += start + "q%d()\nx.n = other\nEQ('%s: the crystal changed', q%d(), m%d)\n" % (i, l, i, i)
        src += ''.join("EQ('%s: earlier answer kept', r%d, k%d)\n" % (l, i, i) for i, (l, e) in enumerate(two))
        chk.prog(nm + ' asked about other objects', src)

    crystals = PULSE2 + IMPORTS + """
from pynlo.media.crystals import XTAL_AgGaS
t1 = SYM('t1', 0, 'real'); t2 = SYM('t2', 0, 'real'); L = SYM('L', 0, 'pos'); L2 = SYM('L2', 0, 'pos')
a = SYM('a', 0, 'pos'); b = SYM('b', 0, 'pos'); u = SYM('u', 0, 'pos'); v = SYM('v', 0, 'pos'); z = SYM('z', 0, 'real'); y = SYM('y', 0, 'real')
def deng(t, **d):
    x = PPLN(t, **d)
    x.load(t, 'Deng')
    return x
"""
    xtal = {'index': 'o.n(a)', 'pulse index': 'o.get_pulse_n(p)', 'pulse wave number': 'o.get_pulse_k(p)', 'group velocity': 'o.calculate_group_velocity_nm_ps(a)',
            'delay': 'o.calculate_pulse_delay_ps(a, b)', 'delay over a length': 'o.calculate_pulse_delay_ps(a, b, z)', 'dispersion': 'o.calculate_D_ps_nm_km(a)', 'dispersion in other units': 'o.calculate_D_fs_um_mm(a)',
            'bandwidth': 'o.calculate_mix_phasematching_bw(a, b)', 'length': 'o.length_mks', 'length in nm': 'o.length_nm', 'damage threshold': 'o.damage_threshold_mks'}
    axes = {k + ', axis ' + ax: e.replace(e0, e1 % ax) for ax in 'o' for k, e, e0, e1 in (
        ('index', 'o.n(a)', '(a)', "(a, '%s')"), ('group velocity', xtal['group velocity'], '(a)', "(a, '%s')"), ('delay', xtal['delay'], 'a, b', "a, b, z, '%s'"),
        ('dispersion', xtal['dispersion'], '(a)', "(a, '%s')"), ('dispersion in other units', xtal['dispersion in other units'], '(a)', "(a, '%s')"),
        ('bandwidth', xtal['bandwidth'], 'b)', "b, '%s')"), ('pulse index', 'o.get_pulse_n(p)', '(p)', "(p, '%s')"), ('pulse wave number', 'o.get_pulse_k(p)', '(p)', "(p, '%s')"))}
    axes.update({'phase matching': 'o.phasematch(None, a, b)', 'phase matching of a pump': 'o.phasematch(a, b, None, return_wavelength=True)[0]',
                 'third wavelength': 'o.phasematch(a, None, b, return_wavelength=True)[1]'})
    ppln = dict(xtal, **{'poling period': 'o.calculate_poling_period(a, b, None, silent=True)[0]', 'third wavelength': 'o.calculate_poling_period(a, b, None, silent=True)[1]',
                         'poling': 'o.pp(z)'})
    state = {'t1': 't2', 'L': 'L2'}
    args = {'a': 'u', 'b': 'v', 'z': 'y'}
    moved = ('the pulse moved', 'p.set_center_wavelength_nm(w2)', {'wl': 'w2'})
    widened = ('the window of the pulse changed', 'p.set_time_window_ps(T2)', {'Tw': 'T2'})
    for cached in (False, True):
        for nm, make, ask, turn in (('PPLN', 'PPLN(t1, length=L%s)', ppln, 'o.set_T(t2)'),
                                    ('PPLN of the other data', 'deng(t1, length=L%s)', ppln, 'o.set_T(t2)'), ('AgGaSe2', 'AgGaSe2(t1, length=L%s)', dict(xtal, **axes), 'o.set_theta(t2)'),
                                    ('AgGaS', 'XTAL_AgGaS.AgGaSe2(t1, length=L%s)', dict(xtal, **axes), 'o.set_theta(t2)')):
            ask = dict(ask)
            if 'PPLN' not in nm:
                for k in ('delay', 'delay over a length', 'dispersion', 'dispersion in other units', 'bandwidth'):
                    ask.pop(k)
            ch = (moved, ('a new temperature or angle', turn, {'t1': 't2'}))
            if nm == 'PPLN':
                ch += (('other data, and back', "o.load(t2, 'Deng'); o.n(a); o.get_pulse_n(p); o.load(t2)", {}),)
            chk.prog(nm + (' with caching' if cached else ''), crystals + 'p = mk(N, Tw, wl, A, fr)\ndef make(t1, L): return ' + make % (', enable_caching=True' if cached else '') + '\n' +
                     history(nm, state, args, ask, True, ch, 'p = mk(N, Tw, wl, A, fr)'))
            few = {k: v for k, v in ask.items() if '(p' in v}
            chk.prog(nm + (' with caching' if cached else '') + ', other window', crystals + 'p = mk(N, Tw, wl, A, fr)\ndef make(t1, L): return ' + make % (', enable_caching=True' if cached else '') + '\n' +
                     history(nm, state, args, few, True, (widened,), 'p = mk(N, Tw, wl, A, fr)'))

    fibers = PULSE2 + IMPORTS + """
p = mk(N, Tw, wl, A, fr)
L = SYM('L', 0, 'pos'); L2 = SYM('L2', 0, 'pos'); w0 = SYM('w0', 0, 'pos'); w9 = SYM('w9', 0, 'pos')
g = SYM('g', 0, 'real'); h = SYM('h', 0, 'real'); G = SYM('G', 0, 'pos'); G2 = SYM('G2', 0, 'pos')
b2 = SYM('b2', 0, 'real'); b3 = SYM('b3', 0, 'real'); d2 = SYM('d2', 0, 'real'); d3 = SYM('d3', 0, 'real'); z = SYM('z', 0, 'real'); y = SYM('y', 0, 'real')
def F(l): return UF('c2', l, rank=0, typ='real'), UF('c3', l, rank=0, typ='real')
"""
    ask = {'dispersion': 'o.get_betas(p)', 'nonlinearity': 'o.get_gamma()', 'gain': 'o.get_gain(p)', 'second order': 'o.Beta2(p)', 'D': 'o.Beta2_to_D(p)', 'length': 'o.length'}
    state = {'L': 'L2', 'w0': 'w9', 'b2': 'd2', 'b3': 'd3', 'g': 'h', 'G': 'G2'}
    make = """
def make(L, w0, b2, b3, g, G):
    f = FiberInstance()
    f.generate_fiber(L, w0, [b2, b3], g, gain=G)
    return f
"""
    chk.prog('fiber', fibers + make + history('fiber', state, {}, ask, True, (
        ('the pulse moved', 'p.set_center_wavelength_nm(w2)', {'wl': 'w2'}), ('the fiber was generated anew', 'o.generate_fiber(L2, w9, [d2, d3], h, gain=G2)', state)), 'p = mk(N, Tw, wl, A, fr)'))
    chk.prog('fiber and pulses', fibers + make + history('fiber', state, {}, ask, False, (
        ('the window of the pulse changed', 'p.set_time_window_ps(T2)', {'Tw': 'T2'}), ('another pulse came', 'p = mk(2*M2, Tw, w2, B, fr)', {'Tw': 'Tw', 'M': 'M2', 'wl': 'w2', 'A': 'B', 'T2': 'Tw'})), 'p = mk(N, Tw, wl, A, fr)'))
    along = {'dispersion': 'o.get_betas(p, z)', 'nonlinearity': 'o.get_gamma(z)'}
    profiled = make.replace('    return f', """    f.set_gamma_function(lambda z: UF('gam', z, g, rank=0, typ='real'))
    f.set_dispersion_function(lambda z: [UF('c2', z, b2, rank=0, typ='real'), UF('c3', z, b3, rank=0, typ='real')])
    return f""")
    chk.prog('fiber with profiles', fibers + profiled + history('fiber', state, {'z': 'y'}, along, True, (('the pulse moved', 'p.set_center_wavelength_nm(w2)', {'wl': 'w2'}),), 'p = mk(N, Tw, wl, A, fr)'))
    # every way of filling a fiber, after every other: the outcome is that of a new fiber
    fill = {
        'generated': 'f.generate_fiber(L, w0, [b2, b3], g)',
        'generated with gain': "f.generate_fiber(L2, wl, [b3], h, gain=G, gvd_units='ps^n/km')",
        'profiled': "f.generate_fiber(L, w0, [b2, b3], g); f.set_gamma_function(lambda z: h); f.set_dispersion_function(lambda z: (d2, d3))",
        'tabulated along z': "f.generate_fiber(L, w0, [b2, b3], g); f.poly_order = 1; f.set_dispersion_function(lambda z: (tx, ty), 'D')",
        'from a file': "f.load_from_file('d.csv', length=L, gamma_W_m=g, poly_order=2)",
        'from a file with gain': "f.load_from_file('e.csv', length=L2, gamma_W_m=h, gain=G2)",
        'from the database': "f.load_from_db(L, 'taylor')",
        'from the database with gain': "f.load_from_db(L2, 'table', poly_order=3)",
    }
    src = fibers + """
K = SYM('K', 0, 'posint')
tx = SYM('tx', 1, 'pos', K); ty = SYM('ty', 1, 'real', K); ex = SYM('ex', 1, 'pos', K); ey = SYM('ey', 1, 'real', K)
db = {'taylor': {'dispersion_format': 'GVD', 'dispersion_gvd_units': 'ps^n/km', 'dispersion_gvd_center_wavelength': w9, 'dispersion_data': [d2, d3], 'gamma': h, 'is_gain': False, 'name': 'taylor'},
      'table': {'dispersion_format': 'D', 'dispersion_x_units': 'nm', 'dispersion_y_units': 'ps/nm/km', 'dispersion_x_data': tx, 'dispersion_y_data': ty, 'gamma': g, 'is_gain': True,
                'gain_x_data': ex, 'gain_y_data': ey, 'gain_x_units': 'nm', 'name': 'table'}}
def blank():
    f = FiberInstance()
    f.fiberloader.get_fiber = lambda name: db[name]
    return f
"""
    ways = list(fill)
    for i, w in enumerate(ways):
        src += 'def fill%d(f):\n' % i + ''.join('    %s\n' % x for x in fill[w].split('; ')) + '    return f\n'
    reads = {'dispersion': '.get_betas(p)', 'nonlinearity': '.get_gamma()', 'gain': '.get_gain(p, G)', 'length': '.length', 'type': '.fibertype'}
    for i, w in enumerate(ways):
        one = src + 'n = fill%d(blank())\n' % i + ''.join('s%d = n%s\n' % (k, e) for k, e in enumerate(reads.values()))
        for j, v in enumerate(ways):
            one += 'f = fill%d(blank())\nf.get_betas(p); f.get_gamma(); f.get_gain(p, G2)\nfill%d(f)\n' % (j, i)
            one += ''.join("EQ('%s: as of a new fiber, after one %s', f%s, s%d)\n" % (r, v, e, k) for k, (r, e) in enumerate(reads.items()))
        chk.prog('fiber filled again, ' + w, one, soft=True, ext_overrides=text_files())

    device = PULSE2 + """
from pynlo.devices.grating_compressor import TreacyCompressor
lines = SYM('lines', 0, 'pos'); lines2 = SYM('lines2', 0, 'pos'); an = SYM('an', 0, 'real'); an2 = SYM('an2', 0, 'real')
G = SYM('G', 0, 'pos'); G2 = SYM('G2', 0, 'pos'); lam = SYM('lam', 0, 'pos'); lam2 = SYM('lam2', 0, 'pos')
def make(lines, an): return TreacyCompressor(lines, an)
"""
    ask = {'angle': 'o.calc_theta(lam)', 'single pass': 'o.calc_dt_dw_singlepass(lam, G)', 'delay': 'o.calc_dphi_domega(lam, G)', 'dispersion': 'o.calc_compressor_gdd(lam, G)',
           'third order': 'o.calc_compressor_HOD(lam, G, 3)', 'delay slope': 'o.calc_compressor_dnphi_domega_n(lam, G, 1)'}
    chk.prog('compressor', device + history('compressor', {'lines': 'lines2', 'an': 'an2'}, {'lam': 'lam2', 'G': 'G2'}, ask, True))
    chk.prog('compressor on pulses', device + """
def squeeze(t, G, Tw, wl, A):
    p = mk(N, Tw, wl, A, fr)
    t.apply_phase_to_pulse(G, p)
    return p.AW
o = make(lines, an)
r = squeeze(o, G, Tw, wl, A); k = r + 0
EQ('the same again', squeeze(o, G, Tw, wl, A), k)
EQ('another separation', squeeze(o, G2, Tw, wl, A), RENAME(k, G, G2))
EQ('another spectrum', squeeze(o, G, Tw, wl, A2), RENAME(k, A, A2))
EQ('another window', squeeze(o, G, T2, wl, A), RENAME(k, Tw, T2))
EQ('another centre', squeeze(o, G, Tw, w2, A), RENAME(k, wl, w2))
EQ('another compressor', squeeze(make(lines2, an2), G, Tw, wl, A), RENAME(k, lines, lines2, an, an2))
EQ('earlier result kept', r, k)
""")

    new = PULSE2 + CW_GOOD + """
from pynlo.light.DerivedPulses import *
P = SYM('P', 0, 'pos'); P2 = SYM('P2', 0, 'pos'); t0 = SYM('t0', 0, 'pos'); t9 = SYM('t9', 0, 'pos')
g2 = SYM('g2', 0, 'real'); g3 = SYM('g3', 0, 'real'); G2 = SYM('G2', 0, 'real'); G3 = SYM('G3', 0, 'real')
wa = SYM('wa', 0, 'real'); wc = SYM('wc', 0, 'real'); Ta = SYM('Ta', 0, 'real'); Tc = SYM('Tc', 0, 'real')
"""
    for nm, call in (('sech', "SechPulse(P, t0, wa**2 + 2, time_window_ps=Ta**2 + 2, frep_MHz=fr, NPTS=2*M, GDD=g2, TOD=g3)"),
                     ('gauss', "GaussianPulse(P, t0, wa**2 + 2, time_window_ps=Ta**2 + 2, frep_MHz=fr, NPTS=2*M, GDD=g2, TOD=g3)"),
                     ('sinc', "SincPulse(P, t0, wa**2 + 2, time_window_ps=Ta**2 + 2, frep_MHz=fr, NPTS=2*M, GDD=g2, TOD=g3)"),
                     ('chirped sech', "SechPulse(P, t0, wa**2 + 2, time_window_ps=Ta**2 + 2, frep_MHz=fr, NPTS=2*M, chirp2=g2, chirp3=g3)"),
                     ('continuous wave', "CWPulse(P, wa**2 + 2, time_window_ps=Ta**2 + 2, NPTS=2*M)")):
        names = dict(P='P2', t0='t9', wa='wc', Ta='Tc', fr='f2', g2='G2', g3='G3', M='M2')
        chk.prog('generated pulses, ' + nm, new + 'def make(%s): return %s\n' % (', '.join(names), call) +
                 history(nm, names, {}, {'field': 'o.AT', 'spectrum': 'o.AW', 'frequencies': 'o.W_mks', 'times': 'o.T_ps', 'rate': 'o.frep_MHz', 'energy': 'o.calc_epp()'}, True))
        for v, w in names.items():
            if v not in call.replace('(', ' ').replace(',', ' ').replace('*', ' ').replace('=', ' ').replace(')', ' ').split():
                continue
            d = {k: k for k in names}
            d[v] = w
            chk.prog('generated pulses, %s, one argument changed: %s' % (nm, v), new + 'def make(%s): return %s\n' % (', '.join(names), call) + """
o = make(%s)
k = o.AT + 0; W = o.W_mks + 0
u = make(%s)
EQ('field', u.AT, RENAME(k, %s, %s))
EQ('frequencies', u.W_mks, RENAME(W, %s, %s))
""" % (', '.join(names), ', '.join(d.values()), v, w, v, w))

    chk.prog('functions', PULSE2 + IMPORTS + """
K = SYM('K', 0, 'posint')
l1 = SYM('l1', 1, 'pos', K); e1 = SYM('e1', 1, 'real', K); l2 = SYM('l2', 1, 'pos', K); e2 = SYM('e2', 1, 'real', K)
c0 = SYM('c0', 0, 'pos'); c1 = SYM('c1', 0, 'pos')
def table(a, b): return np.transpose(np.vstack((a, b)))
t = DTabulationToBetas(c0, table(l1, e1), 3, False); k = t + 0
EQ('coefficients: again', DTabulationToBetas(c0, table(l1, e1), 3, False), k)
EQ('coefficients: another centre', DTabulationToBetas(c1, table(l1, e1), 3, False), RENAME(k, c0, c1))
EQ('coefficients: another table', DTabulationToBetas(c0, table(l2, e2), 3, False), RENAME(k, l1, l2, e1, e2))
EQ('coefficients: earlier answer kept', t, k)
m = table(l1, e1)
DTabulationToBetas(c0, m, 3, False)
m[:, 1] = e2
EQ('coefficients: table edited in place', DTabulationToBetas(c0, m, 3, False), RENAME(k, e1, e2))
for f in (FFT_t, IFFT_t):
    r = f(A); s = r + 0
    EQ('transform: again', f(A), s)
    EQ('transform: of another field', f(A2), RENAME(s, A, A2))
    EQ('transform: of another size', f(B), RENAME(s, A, B, M, M2))
    v = A + 0
    f(v)
    v[:] = A2
    EQ('transform: array edited in place', f(v), RENAME(s, A, A2))
    EQ('transform: earlier answer kept', r, s)
""")

    solver = PULSE2 + IMPORTS + """
L = SYM('L', 0, 'pos'); b = SYM('b', 0, 'real'); b2 = SYM('b2', 0, 'real'); g = SYM('g', 0, 'real'); g2 = SYM('g2', 0, 'real'); h = SYM('h', 0, 'pos'); h2 = SYM('h2', 0, 'pos')
class Medium:
    length = 1.0
    fibertype = 'x'
    def __init__(self, b, g, h):
        self.b, self.gamma, self.h = b, g, h
    def get_betas(self, p, z=0): return UF('beta', self.b, p.W_mks, rank=1, typ='real', len=p.NPTS)
    def get_gamma(self, z=0): return self.gamma
    def get_gain(self, p, output_power=1): return UF('gain', self.h, p.W_mks, rank=1, typ='real', len=p.NPTS)
SSFM.CalculateLocalError = lambda self: 0.75*self.local_error
def run(s, M, Tw, wl, A, b, g, h): return s.propagate(mk(2*M, Tw, wl, A, fr), Medium(b, g, h), 1)
names = (M, Tw, wl, A, b, g, h)
"""
    names = dict(M='M2', Tw='T2', wl='w2', A='B', b='b2', g='g2', h='h2')
    for opt in ('disable_Raman=True, disable_self_steepening=True', 'disable_Raman=True', ''):
        body = 'o = SSFM(dz=0.5, USE_SIMPLE_RAMAN=False%s)\n' % (opt and ', ' + opt) + """
z0, W0, T0, out = run(o, M, Tw, wl, A, b, g, h)
kz = z0 + 0; kW = W0 + 0; kT = T0 + 0; ko = out.AW + 0
"""
        def case(lab, **d):
            a = {k: d.get(k, k) for k in names}
            ren = ''.join(', %s, %s' % (k, v) for k, v in a.items() if k != v)
            return 'z1, W1, T1, u = run(o, %s)\n' % ', '.join(a.values()) + ''.join(
                "EQ('%s: %s', %s, RENAME(%s%s))\n" % (lab, w, x, k, ren) for w, x, k in (('positions', 'z1', 'kz'), ('spectra', 'W1', 'kW'), ('fields', 'T1', 'kT'), ('final spectrum', 'u.AW', 'ko')))
        body += case('the same again') + case('another spectrum', A='A2') + case('another centre', wl='w2') + case('another window', Tw='T2') + case('another size', M='M2', A='B')
        body += case('another fiber', b='b2', g='g2', h='h2') + case('the first run again') + "EQ('earlier spectra kept', W0, kW)\nEQ('earlier fields kept', T0, kT)\nEQ('earlier result kept', out.AW, ko)\n"
        chk.prog('propagation with one solver' + (opt and ', ' + opt), solver + body, soft=True, unroll_while=3)

    mixing = GRIDS + """
p, q, r = grid('p'), grid('q'), grid('r')
S = SYM('S', 0, 'pos'); v = SYM('v', 0, 'pos'); v2 = SYM('v2', 0, 'pos'); z2 = SYM('z2', 0, 'real'); L2 = SYM('L2', 0, 'pos'); deff2 = SYM('deff2', 0, 'pos'); S2 = SYM('S2', 0, 'pos')
Y2 = SYM('Y2', 1, 'cplx', 3*N)
def slope(d, z, Y):
    dy = np.zeros(3*N, dtype=complex)
    d.deriv(z, Y + 0, dy)
    return dy
def make(L, deff, S):
    x = Crystal({'length': L})
    x.mode = 'simple'
    x.deff = deff
    x.n = index
    return dfg_problem(p, q, x, disable_SPM=True, wg_mode=True, Aeff_squm=S)
o = make(L, deff, S)
a = slope(o, z, Y); k = a + 0
EQ('rate: again', slope(o, z, Y), k)
EQ('rate: elsewhere', slope(o, z2, Y), RENAME(k, z, z2))
EQ('rate: of other fields', slope(o, z, Y2), RENAME(k, Y, Y2))
EQ('rate: of both', slope(o, z2, Y2), RENAME(k, Y, Y2, z, z2))
EQ('rate: back at the first', slope(o, z, Y), k)
u = make(L2, deff2, S2)
EQ('rate: of another problem', slope(u, z, Y), RENAME(k, L, L2, deff, deff2, S, S2))
EQ('rate: unaffected by another problem', slope(o, z, Y), k)
EQ('rate: earlier answer kept', a, k)
"""
    chk.prog('mixing problem', mixing, soft=True)
    chk.prog('mixing results', HEAD + "ax = ('none', 'none', 'none')\n" + RUN + """
other = [SYM('X0', 1, 'cplx', 3*N), SYM('X1', 1, 'cplx', 3*N)]
d = dfg_problem(p, q, crystal('simple'), disable_SPM=True)
res = d.process_stepper_output(run)
got = [[f(k).AW for f in (res.get_pump, res.get_sgnl, res.get_idlr)] for k in (0, 1)]
kept = [[v + 0 for v in g] for g in got]
for k in (1, 0):
    EQ('idler again', res.get_idlr(k).AW, kept[k][2])
    EQ('signal again', res.get_sgnl(k).AW, kept[k][1])
    EQ('pump again', res.get_pump(k).AW, kept[k][0])
    EQ('centre of the pump again', res.get_pump(k).center_wavelength_nm, wl)
for k in (0, 1):
    run.ysave[k, :] = other[k]
new = d.process_stepper_output(run)
for k in (0, 1):
    EQ('pump of another run', new.get_pump(k).AW, RENAME(kept[k][0], rows[k], other[k]))
    EQ('signal of another run', new.get_sgnl(k).AW, RENAME(kept[k][1], rows[k], other[k]))
    EQ('idler of another run', new.get_idlr(k).AW, RENAME(kept[k][2], rows[k], other[k]))
    EQ('pump of the first run', res.get_pump(k).AW, kept[k][0])
    EQ('signal of the first run', res.get_sgnl(k).AW, kept[k][1])
    EQ('idler of the first run', res.get_idlr(k).AW, kept[k][2])
    for j in (0, 1, 2):
        EQ('arrays given out earlier', got[k][j], kept[k][j])
""", soft=True)
    chk.floor(1500)

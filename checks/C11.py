"""Copies and stored pulses reproduce the pulse they were made from."""
from .common import PULSE, PULSE_READS, text_files

READS = PULSE_READS + ['wl_mks', 'T_mks', 'W_THz', 'F_THz', 'F_mks', 'V_THz', 'dT_ps', 'dT_mks', 'dF_mks', 'dF_THz', 'center_wavelength_mks',
                       'center_frequency_THz', 'frep_mks', 'time_window_mks', 'calc_epp()']
WAYS = {
    'clone into a new pulse': 'q = Pulse()\nq.clone_pulse(p)\n',
    'created clone': 'q = p.create_cloned_pulse()\n',
    'clone into a used pulse': 'q = mk(N2, T2, w2, A2, f2)\n[q.wl_nm, q.W_mks, q.T_ps]\nq.clone_pulse(p)\n',
    'clone of a clone': 'q = p.create_cloned_pulse().create_cloned_pulse()\n',
    'clone over itself': 'q = p.create_cloned_pulse()\nq.clone_pulse(q)\n',
    'dictionary': 'q = Pulse()\nq.load_pulse_dict(p.get_pulse_dict())\n',
    'dictionary into a used pulse': 'q = mk(N2, T2, w2, A2, f2)\n[q.wl_nm, q.W_mks, q.T_ps]\nq.load_pulse_dict(p.get_pulse_dict())\n',
    'dictionary of a clone': 'q = Pulse()\nq.load_pulse_dict(p.create_cloned_pulse().get_pulse_dict())\n',
    'field read and set': 'q = mk(N, Tw, wl, A, fr)\nq.set_AT(q.AT)\n',
    'spectrum read and set': 'q = mk(N, Tw, wl, A, fr)\nq.set_AW(q.AW)\n',
    'interpolation to the same centre': 'q = p.interpolate_to_new_center_wl(wl)\n',
    'rotation to the same centre': 'q = p.create_cloned_pulse()\nq.rotate_spectrum_to_new_center_wl(wl)\n',
}

def run(chk):
    for nm, op in WAYS.items():
        src = PULSE + '''
M2 = SYM('M2', 0, 'posint'); N2 = 2*M2; T2 = SYM('T2', 0, 'pos'); w2 = SYM('w2', 0, 'pos'); f2 = SYM('f2', 0, 'pos')
A2 = SYM('A2', 1, 'cplx', N2)
p = mk(N, Tw, wl, A, fr)
''' + op
        for r in READS:
            src += "EQ('%s', q.%s, p.%s)\n" % (r, r, r)
        src += "EQ('original field', p.AW, A)\n"
        chk.prog(nm, src)
    for nm, op in WAYS.items():
        if 'mk(N, Tw, wl, A, fr)' in op:
            continue
        chk.prog(nm + ', no repetition rate', PULSE + '''
M2 = SYM('M2', 0, 'posint'); N2 = 2*M2; T2 = SYM('T2', 0, 'pos'); w2 = SYM('w2', 0, 'pos'); f2 = SYM('f2', 0, 'pos')
A2 = SYM('A2', 1, 'cplx', N2)
p = mk(N, Tw, wl, A)
p.set_frep_MHz(None)
''' + op + '''
EQ('repetition rate', q.frep_MHz, None)
EQ('repetition rate in Hz', q.frep_mks, None)
EQ('spectrum', q.AW, A)
''')
    chk.prog('after later changes', PULSE + '''
x = SYM('x', 0, 'pos'); B = SYM('B', 1, 'cplx', N)
p = mk(N, Tw, wl, A, fr)
p.set_epp(x)
p.chirp_pulse_W(x)
p.set_frep_MHz(2*fr)
p.set_center_wavelength_nm(x)
p.expand_time_window(1)
q = p.create_cloned_pulse()
EQ('clone: field', q.AT, p.AT)
EQ('clone: spectrum', q.AW, p.AW)
EQ('clone: grid', q.W_mks, p.W_mks)
EQ('clone: repetition rate', q.frep_MHz, 2*fr)
r = Pulse()
r.load_pulse_dict(p.get_pulse_dict())
EQ('dictionary: field', r.AT, p.AT)
EQ('dictionary: grid', r.W_mks, p.W_mks)
EQ('dictionary: repetition rate', r.frep_MHz, 2*fr)
d = p.get_pulse_dict()
EQ('dictionary: size entry', d['NPTS'], 2*N)
EQ('dictionary: window entry', d['time_window_ps'], 2*Tw)
EQ('dictionary: centre entry', d['center_wavelength_nm'], x)
EQ('dictionary: rate entry', d['frep_MHz'], 2*fr)
''')
    for flip in (None, True, False):
        w = '' if flip is None else ', flip_phase=%s' % flip
        chk.prog('text file, phase %s' % {None: 'as by default', True: 'flipped', False: 'not flipped'}[flip], PULSE + '''
from pynlo.light.DerivedPulses import FROGPulse
Tw = SYM('Tb', 0, 'real')**2 + 2
wl = SYM('wb', 0, 'real')**2 + 2
p = mk(N, Tw, wl, A, fr)
p.write_frog('x.dat'%(w)s)
q = FROGPulse(Tw, wl, p.calc_epp(), frep_MHz=fr, NPTS=N, fileloc='x.dat'%(w)s)
EQ('spectrum', q.AW, A)
EQ('field', q.AT, p.AT)
EQ('energy', q.calc_epp(), p.calc_epp())
EQ('repetition rate', q.frep_MHz, fr)
EQ('grid', q.W_mks, p.W_mks)
r = FROGPulse(Tw, wl, 2.5, frep_MHz=fr, NPTS=N, power_is_avg=True, fileloc='x.dat'%(w)s)
EQ('phase when given another power', r.AW*np.abs(A), np.abs(r.AW)*A)
EQ('original', p.AW, A)
''' % dict(w=w), no_external_raise=True, ext_overrides=text_files())
    chk.floor(200)

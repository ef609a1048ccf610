"""Instances are independent of one another."""
from .common import PULSE, PULSE_READS, FIBER_READS, CW_GOOD

def snap(var, reads, tag):
    return ''.join('%s_%d = %s\n' % (tag, i, r.replace('@', var)) for i, r in enumerate(reads))

def same(var, reads, tag, what):
    return ''.join("EQ('%s: %s', %s, %s_%d)\n" % (what, r.replace('@.', ''), r.replace('@', var), tag, i) for i, r in enumerate(reads))

def run(chk):
    reads = ['@.' + r for r in PULSE_READS]
    chk.prog('pulses', PULSE + CW_GOOD + '''
M2 = SYM('M2', 0, 'posint'); T2 = SYM('T2', 0, 'pos'); x = SYM('x', 0, 'pos'); f2 = SYM('f2', 0, 'pos')
B = SYM('B', 1, 'cplx', 2*M2)
from pynlo.light.DerivedPulses import *
p = mk(N, Tw, wl, A, fr)
d = Pulse()
dfr = d.frep_MHz
''' + snap('p', reads, 's') + '''
q = mk(2*M2, T2, x, B, f2)
q.wl_nm; q.W_mks
q.chirp_pulse_W(x)
q.set_frep_MHz(x)
q.add_time_offset(x)
q.expand_time_window(1)
''' + same('p', reads, 's', 'after building and changing another pulse') + '''
r = p.create_cloned_pulse()
r.set_center_wavelength_nm(x); r.set_AW(B[0]); r.set_frep_MHz(x); r.wl_nm
''' + same('p', reads, 's', 'after changing its clone') + '''
t = Pulse()
t.clone_pulse(p)
t.chirp_pulse_W(x)
p.add_time_offset(x)
p2 = mk(N, Tw, wl, A, fr)
p2.chirp_pulse_W(x)
EQ('a clone does not follow its original', t.AW, p2.AW)
EQ('repetition rate default is not shared', Pulse().frep_MHz, dfr)
g = SechPulse(x, T0_ps=T2, center_wavelength_nm=wb, time_window_ps=Tb, frep_MHz=f2, NPTS=N)
h = SechPulse(x, T0_ps=T2, center_wavelength_nm=wb, time_window_ps=Tb, frep_MHz=f2, NPTS=N)
h.set_frep_MHz(fr); h.chirp_pulse_T(x, x, x); h.set_NPTS(M2)
k = SechPulse(x, T0_ps=T2, center_wavelength_nm=wb, time_window_ps=Tb, frep_MHz=f2, NPTS=N)
EQ('two sech pulses', g.AW, k.AW)
EQ('two sech pulses: repetition rate', g.frep_MHz, k.frep_MHz)
''')
    fr = FIBER_READS
    chk.prog('fibers', PULSE + '''
from pynlo.media.fibers.fiber import FiberInstance
p = mk(N, Tw, wl, A, fr)
L = SYM('L', 0, 'pos'); L2 = SYM('L2', 0, 'pos'); w0 = SYM('w0', 0, 'pos'); g = SYM('g', 0, 'real'); G = SYM('G', 0, 'pos')
b2 = SYM('b2', 0, 'real'); b3 = SYM('b3', 0, 'real'); x = SYM('x', 0, 'real')
a = FiberInstance()
a.generate_fiber(L, w0, [b2, b3], g)
''' + snap('a', fr, 's') + '''
b = FiberInstance()
b.generate_fiber(L2, wl, [b3, x, b2], x, gain=G)
b.get_betas(p)
b.set_gamma_function(lambda z: z)
b.set_dispersion_function(lambda z: (z, z))
''' + same('a', fr, 's', 'generated') + '''
c = FiberInstance()
c.load_from_file('disp.csv', length=L2, gain=G)
''' + same('a', fr, 's', 'generated, after loading another from a file') + '''
d = FiberInstance()
d.load_from_db(L2, 'other')
d.fiberspecs['is_gain'] = True
''' + same('a', fr, 's', 'generated, after loading another from a database'))
    chk.prog('fibers of one loader', PULSE + '''
from pynlo.media.fibers.fiber import FiberInstance
p = mk(N, Tw, wl, A, fr)
L = SYM('L', 0, 'pos')
a = FiberInstance()
a.load_from_file('d.csv', length=L, gamma_W_m=1)
g0 = a.get_gain(p)
b = FiberInstance()
b.load_from_file('d.csv', length=L, gain=2)
EQ('file fiber keeps its gain flag', a.get_gain(p), np.zeros(N))
EQ('file fiber with gain has it', b.get_gain(p), 2*np.ones(N))
e = FiberInstance()
e.load_from_db(L, 'x')
s0 = e.fiberspecs['gamma'] + 0
e.fiberspecs['gamma'] = 5
e.load_from_db(L, 'x')
EQ('editing a loaded fiber does not edit its database', e.gamma, s0)
''')
    chk.prog('crystals', PULSE + '''
from pynlo.media.crystals.XTAL_PPLN import PPLN
from pynlo.media.crystals.XTAL_AgGaSe2 import AgGaSe2
Tc = SYM('Tc', 0, 'real'); Td = SYM('Td', 0, 'real'); l = SYM('l', 0, 'pos'); m = SYM('m', 0, 'pos'); th = SYM('th', 0, 'real'); ph = SYM('ph', 0, 'real')
p = mk(N, Tw, wl, A, fr)
a = PPLN(Tc, length=l)
d = AgGaSe2(th, length=l)
n0 = a.n(wl); d0 = d.n(wl); dt = d.damage_threshold_mks; at = a.damage_threshold_mks; pp0 = a.pp(l)
b = PPLN(Td, length=m, enable_caching=True)
b.load(Td, data_source='Deng')
b.set_T(ph)
b.set_pp(lambda x: x)
b.set_caching(True)
e = AgGaSe2(ph, length=m, enable_caching=True)
e.set_theta(l)
e.get_pulse_n(p, 'o')
EQ('PPLN index', a.n(wl), n0)
EQ('PPLN length', a.length_mks, l)
EQ('PPLN length in nm', a.length_nm, l*1e9)
EQ('PPLN poling', a.pp(l), pp0)
EQ('PPLN temperature', a.T, Tc)
EQ('PPLN damage threshold', a.damage_threshold_mks, at)
EQ('AgGaSe2 index', d.n(wl), d0)
EQ('AgGaSe2 damage threshold unaffected by PPLN', d.damage_threshold_mks, AgGaSe2(th).damage_threshold_mks)
EQ('AgGaSe2 length', d.length_mks, l)
EQ('AgGaSe2 pulse index', d.get_pulse_n(p, 'o'), d.n(p.wl_nm, 'o'))
EQ('PPLN pulse index', a.get_pulse_n(p), a.n(p.wl_nm))
EQ('PPLN pulse index of the other', b.get_pulse_n(p), b.n(p.wl_nm))
''')
    chk.floor(45)

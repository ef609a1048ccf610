"""Pulse energy and average power agree with the field."""
from .common import PULSE, text_files
from .C34 import SHAPES

def run(chk):
    src = PULSE + '''
from pynlo.light.DerivedPulses import *
B = SYM('B', 1, 'cplx', N); E = SYM('E', 0, 'pos'); P0 = SYM('P0', 0, 'pos'); t0 = SYM('t0', 0, 'pos')
def energy(v, T, n): return T/n*1e-12*np.trapz(np.abs(v)**2)
p = mk(N, Tw, wl, None, fr)
p.set_AT(B)
EQ('energy is the time integral of power', p.calc_epp(), energy(B, Tw, N))
EQ('asked again', p.calc_epp(), energy(B, Tw, N))
p.set_frep_MHz(2*fr)
EQ('energy does not depend on the repetition rate', p.calc_epp(), energy(B, Tw, N))
p.set_frep_MHz(fr)
e0 = p.calc_epp()
p.set_epp(E)
EQ('energy after it is set', p.calc_epp(), E)
EQ('setting the energy only scales the field', p.AT, B*np.sqrt(E/e0))
EQ('setting the energy keeps the centre', p.center_wavelength_nm, wl)
EQ('setting the energy keeps the repetition rate', p.frep_MHz, fr)
p.set_epp(2*E)
EQ('energy after it is set again', p.calc_epp(), 2*E)
p.set_epp(e0)
EQ('field after the energy is set back', p.AT, B)
q = mk(N, Tw, wl, None, fr)
q.set_AT(2*B)
EQ('twice the field is four times the energy', q.calc_epp(), 4*e0)
q = mk(N, 2*Tw, wl, None, fr)
q.set_AT(B)
EQ('twice the sample spacing is twice the energy', q.calc_epp(), 2*e0)
q = p.create_cloned_pulse()
EQ('energy of a clone', q.calc_epp(), p.calc_epp())
g2 = SYM('g2', 0, 'real'); g3 = SYM('g3', 0, 'real')
p.chirp_pulse_T(g2, g3, t0)
EQ('temporal chirp keeps the energy', p.calc_epp(), e0)
'''
    for k in (1, 2):
        for loc in ('before', 'after'):
            src += '''
q = mk(N, Tw, wl, None, fr)
q.set_AT(B)
q.expand_time_window(%d, '%s')
EQ('peak power after padding by %d %s', np.sum(np.abs(q.AT)**2)*q.dT_mks, np.sum(np.abs(B)**2)*Tw/N*1e-12)
''' % (k, loc, k, loc)
    chk.prog('energy', src)
    src = PULSE + '''
from pynlo.light.DerivedPulses import *
P0 = SYM('P0', 0, 'pos'); t0 = SYM('t0', 0, 'pos'); h2 = SYM('h2', 0, 'real'); h3 = SYM('h3', 0, 'real')
Tw = SYM('Tb', 0, 'real') ** 2 + 2
wl = SYM('wb', 0, 'real') ** 2 + 2
T = np.arange(-M, M)*Tw/N
'''
    for nm, (cls, w, shape) in SHAPES.items():
        src += '''
p = %(cls)s(P0, %(w)scenter_wavelength_nm=wl, time_window_ps=Tw, frep_MHz=fr, NPTS=N, power_is_avg=True)
EQ('%(nm)s: average power as requested', p.calc_epp()*p.frep_mks, P0)
s = %(shape)s
EQ('%(nm)s: field', p.AT, s*np.sqrt(P0/(fr*1e6*Tw/N*1e-12*np.trapz(np.abs(s)**2))))
EQ('%(nm)s: repetition rate', p.frep_MHz, fr)
p = %(cls)s(P0, %(w)scenter_wavelength_nm=wl, time_window_ps=Tw, frep_MHz=fr, NPTS=N, power_is_avg=True, chirp2=h2, chirp3=h3)
EQ('%(nm)s: average power with temporal chirp', p.calc_epp()*p.frep_mks, P0)
p = %(cls)s(P0, %(w)scenter_wavelength_nm=wl, time_window_ps=Tw, frep_MHz=fr, NPTS=N, power_is_avg=False)
EQ('%(nm)s: peak power as requested', np.abs(p.AT[M])**2, P0)
''' % dict(nm=nm, cls=cls, w=w, shape=shape)
    src += '''
p = CWPulse(P0, wl, time_window_ps=Tw, NPTS=N)
d = np.zeros(N)
d[M] = np.sqrt(P0)
EQ('cw: power in one line', p.AW, d)
EQ('cw: power at every time', np.abs(p.AT)**2, P0*np.ones(N))
f = SYM('f', 0, 'real')
p = CWPulse(P0, wl, time_window_ps=Tw, NPTS=N, offset_from_center_THz=f)
EQ('offset cw: spectral power', np.sum(np.abs(p.AW)**2), P0)
EQ('offset cw: power at every time', np.abs(p.AT)**2, P0*np.ones(N))
'''
    chk.prog('requested power', src)
    for avg in (True, False):
        chk.prog('measured pulse, %s' % ('average power' if avg else 'energy'), PULSE + '''
from pynlo.light.DerivedPulses import *
P0 = SYM('P0', 0, 'pos')
Tw = SYM('Tb', 0, 'real') ** 2 + 2
wl = SYM('wb', 0, 'real') ** 2 + 2
p = FROGPulse(Tw, wl, P0, frep_MHz=fr, NPTS=N, power_is_avg=%s, fileloc='x')
EQ('energy as requested', p.calc_epp()%s, P0)
EQ('repetition rate', p.frep_MHz, fr)
EQ('centre wavelength', p.center_wavelength_nm, wl)
EQ('time window', p.time_window_ps, Tw)
EQ('size', p.NPTS, N)
''' % (avg, '*fr*1e6' if avg else ''), no_external_raise=True, ext_overrides=text_files())
    for epp in (True, False):
        for log in (True, False):
            chk.prog('spectrum analyser, %s, %s' % ('energy' if epp else 'average power', 'log' if log else 'linear'), PULSE + '''
from pynlo.light.DerivedPulses import *
from scipy.interpolate import interp1d
P0 = SYM('P0', 0, 'pos')
Tw = SYM('Tb', 0, 'real') ** 2 + 2
wl = SYM('wb', 0, 'real') ** 2 + 2
w2 = SYM('w2', 0, 'pos')
n = SYM('rows', 0, 'posint')
p = CWPulse(1.0, wl, time_window_ps=Tw, NPTS=N)
p.set_frep_MHz(fr)
p.gen_OSA(Tw, w2, P0, power_is_epp=%s, fileloc='x.csv', log=%s, rows=n)
EQ('energy as requested', p.calc_epp()%s, P0)
EQ('repetition rate', p.frep_MHz, fr)
EQ('centre wavelength', p.center_wavelength_nm, w2)
EQ('time window', p.time_window_ps, Tw)
D = np.genfromtxt('x.csv', delimiter=',', skip_header=n)
f = c/w2*1e-3 + (np.arange(N) - M)/Tw
I = interp1d(c/D[:, 0]*1e-3, %s, bounds_error=False, fill_value=0)(f)
I = np.abs(I)
EQ('shape of the spectrum', np.abs(p.AW)**2/np.sum(np.abs(p.AW)**2), I/np.sum(I))
''' % (epp, log, '' if epp else '*fr*1e6', '10.0**(D[:, 1]/10)' if log else 'D[:, 1]'), no_external_raise=True, ext_overrides=text_files())
    chk.floor(35)

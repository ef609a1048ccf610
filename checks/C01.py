from .common import PULSE

SRC = PULSE + '''
p = mk(N, Tw, wl, A, fr)
EQ('time grid ps vs s', p.T_mks, p.T_ps*1e-12)
EQ('time step ps vs s', p.dT_mks, p.dT_ps*1e-12)
EQ('time window ps vs s', p.time_window_mks, p.time_window_ps*1e-12)
EQ('time window as set', p.time_window_ps, Tw)
EQ('relative frequency THz vs Hz', p.V_mks, p.V_THz*1e12)
EQ('angular frequency THz vs Hz', p.W_mks, p.W_THz*1e12)
EQ('frequency THz vs Hz', p.F_mks, p.F_THz*1e12)
EQ('frequency spacing THz vs Hz', p.dF_mks, p.dF_THz*1e12)
EQ('angular vs ordinary frequency', p.W_THz, 2*np.pi*p.F_THz)
EQ('wavelength nm vs m', p.wl_mks, p.wl_nm*1e-9)
EQ('centre wavelength nm vs m', p.center_wavelength_mks, p.center_wavelength_nm*1e-9)
EQ('centre wavelength as set', p.center_wavelength_nm, wl)
EQ('centre frequency THz vs Hz', p.center_frequency_mks, p.center_frequency_THz*1e12)
EQ('repetition rate MHz vs Hz', p.frep_mks, p.frep_MHz*1e6)
EQ('repetition rate as given', p.frep_MHz, fr)
EQ('wavelength is c over frequency', p.wl_mks*p.F_mks, c*np.ones(N))
EQ('centre wavelength is c over frequency', p.center_wavelength_mks*p.center_frequency_mks, c)
x = SYM('x', 0, 'pos')
p.set_frep_MHz(x)
EQ('repetition rate setter', p.frep_mks, x*1e6)
q = mk(N, Tw, wl, None)
q.set_time_window_s(x*1e-12)
r = mk(N, Tw, wl, None)
r.set_time_window_ps(x)
EQ('window setters agree', q.time_window_ps, x)
EQ('window setters agree on the grid', q.T_ps, r.T_ps)
EQ('window setters agree on frequency grid', q.W_mks, r.W_mks)
q = mk(N, Tw, wl, None)
r = mk(N, Tw, wl, None)
q.set_frequency_window_THz(x)
r.set_frequency_window_mks(x*1e12)
EQ('frequency window setters agree', q.time_window_ps, r.time_window_ps)
EQ('frequency window setter spans the requested width', q.dF_THz*q.NPTS, x)
EQ('frequency window setter spans the requested width (Hz)', r.dF_mks*r.NPTS, x*1e12)
q = mk(N, Tw, wl, None)
r = mk(N, Tw, wl, None)
q.set_center_wavelength_nm(x)
r.set_center_wavelength_m(x*1e-9)
EQ('centre wavelength setters agree', q.center_frequency_THz, r.center_frequency_THz)
EQ('centre wavelength setter in m', r.center_wavelength_mks, x*1e-9)
EQ('centre wavelength setter in nm', q.center_wavelength_nm, x)
'''

def run(chk):
    chk.prog('units', SRC)
    chk.floor(20)

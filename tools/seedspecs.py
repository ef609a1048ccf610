SEEDS = []
def seed(id, property, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))
PB = 'light/PulseBase.py'
seed('C01-window-hz', 'C01', [(PB,
"""    def _get_time_window_seconds(self):
        return self._time_window* 1e-12
""", """    def _get_time_window_seconds(self):
        return self.dT_mks * (self._n - 1 + self._n % 2)
""")], '''
from pynlo.light.PulseBase import Pulse
for n in (63, 64):
    p = Pulse(); p.set_NPTS(n); p.set_time_window_ps(5.); p.set_center_wavelength_nm(1550.)
    assert abs(p.time_window_mks - p.time_window_ps*1e-12) < 1e-18, n
''', 'an even number of points', 'time window in seconds is one sample shorter than the window in ps')
seed('C07-chirp-about-frequency', 'C07', [(PB,
"""            V = self.W_THz - w0_THz
            self.set_AW( np.exp(1j * (GDD / 2.0) * V**2 + 
                                   1j * (TOD / 6.0) * V**3+ 
""", """            V = self.W_THz - w0_THz
            self.set_AW( np.exp(1j * (GDD / 2.0) * V**2 + 
                                   1j * (TOD / 6.0) * V * abs(V)**2+ 
""".replace('V * abs(V)**2', 'abs(V)**3'))], '''
import numpy as np
from pynlo.light.PulseBase import Pulse
p = Pulse(); p.set_NPTS(64); p.set_time_window_ps(5.); p.set_center_wavelength_nm(1550.)
p.set_AW(np.ones(64))
w0 = p.W_THz[20]
p.chirp_pulse_W(0.01, 0.003, w0_THz=w0)
V = p.W_THz - w0
assert np.allclose(p.AW, np.exp(1j*(0.005*V**2 + 0.0005*V**3)))
''', 'third-order dispersion expanded about an explicit frequency, and samples below it', 'cubic phase has the wrong sign below the expansion frequency')

DP='light/DerivedPulses.py'; SS='interactions/FourWaveMixing/SSFM.py'; DFG='interactions/ThreeWaveMixing/DFG_integrand.py'
FIB='media/fibers/fiber.py'; CAL='media/fibers/calculators.py'; XC='media/crystals/CrystalContainer.py'; PPLN='media/crystals/XTAL_PPLN.py'
ST='util/ode_solve/steppers.py'; DO='util/ode_solve/dopr853.py'; CT='util/ode_solve/dopr853_controller.py'; GC='devices/grating_compressor.py'
BEAM='light/beam.py'; FC='interactions/ThreeWaveMixing/field_classes.py'
MK="""
import numpy as np
from pynlo.light.PulseBase import Pulse
def mk(n=64, T=5., wl=1550.):
    p = Pulse(); p.set_NPTS(n); p.set_time_window_ps(T); p.set_center_wavelength_nm(wl); return p
"""
seed('C03-hz-grid-revalidated', 'C03', [(PB,
"""        if (self._cache_W_Hz_hash == self.cache_hash):
""", """        if self.cache_hash in (self._cache_W_Hz_hash, self._cache_wl_nm_hash) and self._cache_W_Hz is not None:
""")], MK + """
p = mk(); p.W_mks
p.set_center_wavelength_nm(1000.); p.wl_nm
assert np.allclose(p.W_mks, mk(wl=1000.).W_mks)
""", 'reading the grid in Hz, changing the centre, reading the wavelengths, then reading the grid in Hz again',
'the frequency grid in Hz still belongs to the earlier centre wavelength')
seed('C02-subset-centre', 'C02', [(PB,
"""        p.set_center_wavelength_nm(self.wl_nm[center_idx] )
""", """        p.set_center_wavelength_nm(center_wl_nm)
""")], MK + """
p = mk(); p.set_AW(np.arange(64) + 1.)
s = p.create_subset_pulse(p.wl_nm[20], 16)
assert np.allclose(s.W_THz, p.W_THz[12:28], rtol=1e-12)
s = p.create_subset_pulse(0.3*p.wl_nm[20] + 0.7*p.wl_nm[21], 16)
i = int(round(s.AW[8].real)) - 1
assert np.allclose(s.W_THz, p.W_THz[i-8:i+8], rtol=1e-9)
""", 'a requested centre that does not fall on a grid point', 'the frequency grid of the subset no longer carries the frequencies of its samples')
seed('C06-field-kept-by-reference', 'C06', [(PB,
"""        self._AW[:] = AW_new
""", """        if isinstance(AW_new, np.ndarray) and AW_new.shape == self._AW.shape:
            self._AW = AW_new.astype(np.complex128, copy=False)
        else:
            self._AW[:] = AW_new
""")], MK + """
p = mk(); a = np.ones(64, dtype=np.complex128); p.set_AW(a)
a[3] = 99
assert p.AW[3] == 1
""", 'the caller passes a complex array and edits it afterwards', 'editing the array handed to the setter changes the pulse')
seed('C10-energy-by-sum', 'C10', [(PB,
"""        return self.dT_mks * np.trapz(abs(self.AT)**2)
""", """        return self.dT_mks * np.sum(abs(self.AT)**2)
""")], MK + """
p = mk(); p.set_AT(np.ones(64, complex))
assert abs(p.calc_epp() - np.trapz(abs(p.AT)**2, p.T_mks)) < 1e-9*p.calc_epp()
""", 'a field that has not decayed at the ends of the window', 'energy per pulse is not the trapezoidal integral of the power')
seed('C11-load-keeps-old-rate', 'C11', [(PB,
"""        self._frep_MHz = d["frep_MHz"]
""", """        self._frep_MHz = d["frep_MHz"] or self._frep_MHz
""")], MK + """
p = mk(); p.set_frep_MHz(None); p.set_AT(np.ones(64)); d = p.get_pulse_dict()
q = mk(); q.set_frep_MHz(80.); q.load_pulse_dict(d)
assert q.frep_MHz is None and p.frep_MHz is None
""", 'loading a pulse without repetition rate into a pulse that already has one', 'the loaded pulse keeps the old repetition rate')
seed('C13-step-before-complete', 'C13', [(PB,
"""    def __get_dT(self):
        r\"\"\" Return time grid spacing (ps) \"\"\"
        if not self._ready:
""", """    def __get_dT(self):
        r\"\"\" Return time grid spacing (ps) \"\"\"
        if self._time_window is None:
""")], MK + """
p = Pulse(); p.set_NPTS(64); p.set_time_window_ps(5.)
try:
    p.dT_ps
    raise SystemExit('answered')
except RuntimeError: pass
p.set_center_wavelength_nm(1550.); assert p.dT_ps == 5./64
""", 'asking for the time step before the centre wavelength is set', 'an incomplete pulse answers a grid request')
seed('C15-stale-half-step', 'C15', [(SS,
"""        if h!=self.last_h or direction!=self.last_dir or self.last_h is None:
""", """        if self.last_h is None or abs(h) != abs(self.last_h):
""")], """
import io, contextlib, numpy as np
from pynlo.light.DerivedPulses import SechPulse
from pynlo.media.fibers.fiber import FiberInstance
from pynlo.interactions.FourWaveMixing.SSFM import SSFM
p = SechPulse(1., 0.1, 1550., time_window_ps=5., NPTS=64)
f = FiberInstance(); f.generate_fiber(1., 1550., [-0.02], 0.01)
with contextlib.redirect_stdout(io.StringIO()):
    s = SSFM(disable_Raman=True, disable_self_steepening=True)
    s.setup_fftw(p, f, None); s.load_fiber_parameters(p, f, None)
    a0 = np.copy(s.A)
    a1 = np.copy(s.Advance(np.copy(a0), 0.01, 1))
    a2 = np.copy(s.Advance(np.copy(a1), 0.01, -1))
assert np.abs(a2 - a0).max() < 1e-3*np.abs(a0).max(), np.abs(a2-a0).max()
""", 'a forward step followed by a backward step of the same length', 'the backward step uses the linear operator of the forward step')
seed('C16-odd-order-of-steps', 'C16', [(SS,
"""            dist -= 2.0*old_dz
""", """            dist -= 2.0*min(old_dz, dz)
""")], """
import io, contextlib, numpy as np
from pynlo.light.DerivedPulses import SechPulse
from pynlo.media.fibers.fiber import FiberInstance
from pynlo.interactions.FourWaveMixing.SSFM import SSFM
p = SechPulse(100., 0.05, 1550., time_window_ps=5., NPTS=256)
f = FiberInstance(); f.generate_fiber(0.2, 1550., [-0.02], 0.1)
tot = []
class S(SSFM):
    def Advance(self, A, dz, d):
        tot.append(dz); return SSFM.Advance(self, A, dz, d)
    def CalculateLocalError(self):
        e = SSFM.CalculateLocalError(self); log.append((tot[-1], e)); return e
log = []
with contextlib.redirect_stdout(io.StringIO()):
    s = S(local_error=1e-4, dz=1e-3, disable_Raman=True, disable_self_steepening=True)
    s.propagate(p, f, 1)
d = sum(2*h for h, e in log if e <= 2e-4)
assert any(1e-4 <= e <= 2e-4 for h, e in log)
assert abs(d - 0.2) < 1e-9, d
""", 'a step whose error falls between the tolerance and twice the tolerance', 'kept steps that shrink the next one are not counted in full, so the fibre is overshot')
seed('C20-beta2-shifted', 'C20', [(FIB,
"""        out = np.append(out[0], out)
        out = np.append(out, out[-1])
""", """        out = np.append(out, [out[-1], out[-1]])
""")], MK + """
from pynlo.media.fibers.fiber import FiberInstance
p = mk(64, 5., 1550.); f = FiberInstance(); f.generate_fiber(1., 1550., [-0.02, 1e-3], 0.01)
b = f.Beta2(p)
assert abs(b[32] + 0.02) < 1e-6, b[32]
""", 'third-order dispersion: the second-order dispersion varies with frequency', 'reported second-order dispersion is assigned to the neighbouring frequency')
seed('C26-raman-off-loses-kerr', 'C26', [(SS,
"""            self.R[:]=1
""", """            self.R[:]=1 - self.f_R*(not self.disable_self_steepening)
""")], """
import io, contextlib, numpy as np
from pynlo.light.DerivedPulses import SechPulse
from pynlo.media.fibers.fiber import FiberInstance
from pynlo.interactions.FourWaveMixing.SSFM import SSFM
p = SechPulse(1., 0.1, 1550., time_window_ps=5., NPTS=64)
f = FiberInstance(); f.generate_fiber(1., 1550., [-0.02], 0.01)
with contextlib.redirect_stdout(io.StringIO()):
    for ss in (True, False):
        s = SSFM(disable_Raman=True, disable_self_steepening=ss)
        s.setup_fftw(p, f, None); s.load_fiber_parameters(p, f, None)
        A = np.copy(s.A)
        n = s.NonlinearOperator(A)
        i = np.argmax(np.abs(A))
        assert abs(n[i].imag - 0.01*abs(A[i])**2) < 1e-6, ss
""", 'Raman disabled while self-steepening is enabled', 'disabling Raman also removes the Raman share of the instantaneous response')
seed('C27-keeps-at-smallest', 'C27', [(SS,
"""                if new_dz >= self.dz_min:
                    dz = new_dz
                    # discard current step
                    continue
""", """                if dz > 4.0*self.dz_min:
                    dz = new_dz
                    # discard current step
                    continue
""")], """
import io, contextlib, numpy as np
from pynlo.light.DerivedPulses import SechPulse
from pynlo.media.fibers.fiber import FiberInstance
from pynlo.interactions.FourWaveMixing.SSFM import SSFM
p = SechPulse(1., 0.1, 1550., time_window_ps=5., NPTS=64)
f = FiberInstance(); f.generate_fiber(1., 1550., [-0.02], 0.01)
hs = []
class S(SSFM):
    def CalculateLocalError(self):
        hs.append(self.last_h); return 1.0 if len(hs) < 60 else 0.0
with contextlib.redirect_stdout(io.StringIO()):
    s = S(local_error=1e-3, dz=1e-3, disable_Raman=True, disable_self_steepening=True)
    s.setup_fftw(p, f, None); s.load_fiber_parameters(p, f, None)
    s.dz_min = 1e-4
    s.integrate_over_dz(0.004)
# steps 1e-3, 5e-4, 2.5e-4, 1.25e-4 (last one kept although too inaccurate)
assert np.allclose(hs[:4], [1e-3, 5e-4, 2.5e-4, 1.25e-4]), hs[:6]
""", 'an error above twice the tolerance with a step within a factor four of the smallest step size', 'a step is kept although it could still be halved')
seed('C28-gamma-at-entrance', 'C28', [(SS,
"""        self.gamma     =  fiber.get_gamma(z=z)
""", """        self.gamma     =  fiber.get_gamma(z=0 if fiber.dispersion_changes_with_z else z)
""")], """
import io, contextlib, numpy as np
from pynlo.light.DerivedPulses import SechPulse
from pynlo.media.fibers.fiber import FiberInstance
from pynlo.interactions.FourWaveMixing.SSFM import SSFM
p = SechPulse(1., 0.1, 1550., time_window_ps=5., NPTS=64)
f = FiberInstance(); f.generate_fiber(1., 1550., [-0.02], 0.01)
f.set_gamma_function(lambda z: 0.01 + z)
f.set_dispersion_function(lambda z: (-0.02*(1-z),), 'GVD')
with contextlib.redirect_stdout(io.StringIO()):
    s = SSFM(disable_Raman=True, disable_self_steepening=True)
    s.setup_fftw(p, f, None); s.load_fiber_parameters(p, f, None, z=0.5)
assert abs(s.gamma - 0.51) < 1e-12
""", 'a fibre whose dispersion and nonlinearity both vary along it, reloaded per segment', 'nonlinearity of the entrance is used in every segment')

seed('C14-dense-weights', 'C14', [(DO,
"""        self.rcont4[:]=ydiff-h*dydxnew-bspl
""", """        self.rcont4[:]=ydiff-h*self.RHS_slope(dydxnew)-bspl
"""), (DO,
"""    def prepare_dense(self, h,dydxnew, RHS_class):
""", """    def RHS_slope(self, dydxnew):
        # slope at the end point; a rejected attempt leaves the one of its start
        return self.dydx if self.con.hnext == 0.0 else dydxnew
    def prepare_dense(self, h,dydxnew, RHS_class):
"""), (CT,
"""       if err <= 1.0:
           if err == 0.0:
               scale = maxscale
""", """       if err <= 1.0:
           if err == 0.0:
               self.hnext = 0.0
               self.reject = False
               return (True, h)
""")], """
import numpy as np
from pynlo.util.ode_solve.dopr853 import StepperDopr853
class R:
    def deriv(self, x, y, d): d[:] = 0*y
y = np.array([1., 2.]); s = StepperDopr853(y, np.zeros(2), 0., 1e-6, 1e-6, True)
s.step(0.1, R())
assert abs(s.hnext - 0.6) < 1e-12, s.hnext
""", 'a step whose error estimate is exactly zero', 'next step length is zero instead of the largest allowed growth')
seed('C14-error-scale', 'C14', [(DO,
"""        sk[:] = self.atol + self.rtol*np.maximum(np.abs(self.y), np.abs(self.yout))
""", """        sk[:] = self.atol + self.rtol*np.maximum(np.abs(self.y), self.yout)
""")], """
import numpy as np
from pynlo.util.ode_solve.dopr853 import StepperDopr853
y = np.array([0.1]); s = StepperDopr853(y, np.zeros(1), 0., 0., 1e-3, False)
s.yout = np.array([-5.]); s.yerr[:] = 0.; s.yerr2[:] = 1e-3
assert abs(s.error(1.) - 1e-3/5e-3) < 1e-12, s.error(1.)
""", 'a solution component that becomes negative and grows', 'the error tolerance is scaled by the wrong magnitude')
seed('C17-first-step-direction', 'C17', [(ST,
"""         self.h     = np.abs(h1)*np.sign(xx2-xx1)
""", """         self.h     = h1
""")], """
import numpy as np
from pynlo.util.ode_solve.steppers import ODEint, Output
from pynlo.util.ode_solve.dopr853 import StepperDopr853
class R:
    def deriv(self, x, y, d): d[:] = 1.0
o = Output(4); y = np.array([2.])
ODEint(y, 2., 1., 1e-6, 1e-6, 0.1, 0., o, StepperDopr853, R()).integrate()
assert o.count == 5 and np.allclose(o.xsave[:5], np.linspace(2, 1, 5)), (o.count, o.xsave[:8])
""", 'integrating towards smaller positions', 'the integration runs away from the end point')
seed('C17-resize-drops', 'C17', [(ST,
"""        newx[:kold] = self.xsave
""", """        newx[:kold-1] = self.xsave[:kold-1]
""")], """
import numpy as np
from pynlo.util.ode_solve.steppers import ODEint, Output
from pynlo.util.ode_solve.dopr853 import StepperDopr853
class R:
    def deriv(self, x, y, d): d[:] = 1.0
o = Output(700); y = np.array([0.])
ODEint(y, 0., 1., 1e-6, 1e-6, 0.1, 0., o, StepperDopr853, R()).integrate()
assert np.allclose(o.xsave[:701], np.linspace(0, 1, 701))
""", 'more save points than the initial buffer holds', 'position of the last point saved before the buffer grew is lost')
seed('C05-fiber-coefficients', 'C05', [(FIB,
"""        self.betas = np.copy(np.array(betas))
""", """        self.betas = np.asarray(betas)
"""), (FIB,
"""            self.betas = self.betas * 1.0e-3
""", """            self.betas *= 1.0e-3
""")], """
import numpy as np
from pynlo.media.fibers.fiber import FiberInstance
b = np.array([-20., 0.1]); f = FiberInstance(); f.generate_fiber(1., 1550., b, 0.01, gvd_units='ps^n/km')
assert b[0] == -20.
""", 'dispersion coefficients given as an array and per kilometre', 'the array of the caller is rescaled')
seed('C05-pump-of-mixing', 'C05', [(DFG,
"""        self.pump = deepcopy(pump_in)
""", """        self.pump = pump_in
"""), (DFG,
"""        self.pulse = integrand_instance.pump.create_cloned_pulse()
""", """        self.pulse = integrand_instance.pump
""")], """
import io, contextlib, numpy as np
from pynlo.light.DerivedPulses import SechPulse
from pynlo.media.crystals.XTAL_PPLN import PPLN
from pynlo.interactions.ThreeWaveMixing.DFG_integrand import dfg_problem
c = PPLN(45., length=1e-3); c.set_pp((30e-6,))
p = SechPulse(1., 0.2, 1064., time_window_ps=20., NPTS=128); s = SechPulse(1., 0.2, 1550., time_window_ps=20., NPTS=128)
d = dfg_problem(p, s, c, disable_SPM=True)
class O: pass
o = O(); o.count = 2; o.ysave = np.ones((2, 384), complex); o.xsave = np.array([0., 1e-3])
with contextlib.redirect_stdout(io.StringIO()):
    r = d.process_stepper_output(o); r.get_sgnl(1)
assert abs(p.center_wavelength_nm - 1064.) < 1e-6
""", 'reading a field from the mixing results', 'the pump pulse of the caller becomes the signal')
seed('C04-shared-dispersion-table', 'C04', [(PPLN,
"""        self.sellmeier_calculators = {'Deng' :DengSellmeier(T),
                                      'Gayer_5pctMg':Gayer5PctSellmeier(T)}
""", """        if not hasattr(PPLN, 'sellmeier_calculators'):
            PPLN.sellmeier_calculators = {'Deng' :DengSellmeier(T),
                                          'Gayer_5pctMg':Gayer5PctSellmeier(T)}
        for calculator in self.sellmeier_calculators.values():
            calculator.set_T_degC(T)
""")], """
from pynlo.media.crystals.XTAL_PPLN import PPLN
a = PPLN(30., length=1e-3); n = a.n(1550.)
b = PPLN(150., length=1e-3)
assert a.n(1550.) == n and b.n(1550.) != n
""", 'two crystals at different temperatures', 'building the second crystal changes the index of the first')
seed('C08-window-of-shifted-transform', 'C08', [(SS,
"""            return ifftshift(scipy.fftpack.fft(fftshift(A)))
    def FFT_t_2(self, A):        
""", """            return fftshift(scipy.fftpack.fft(ifftshift(A)))
    def FFT_t_2(self, A):        
"""), (SS,
"""    def conditional_ifftshift(self, x):
        if global_variables.PRE_FFTSHIFT:
            x[:] = ifftshift(x)
            return x
""", """    def conditional_ifftshift(self, x):
        if global_variables.PRE_FFTSHIFT:
            x[:] = np.roll(x, (len(x)-1)//2)
            return x
""")], """
import io, contextlib, numpy as np
from pynlo.light.DerivedPulses import SechPulse
from pynlo.media.fibers.fiber import FiberInstance
from pynlo.interactions.FourWaveMixing import global_variables
from pynlo.interactions.FourWaveMixing.SSFM import SSFM
p = SechPulse(1., 0.1, 1550., time_window_ps=5., NPTS=64)
f = FiberInstance(); f.generate_fiber(1., 1550., [-0.02], 0.01)
r = []
for flag in (True, False):
    global_variables.PRE_FFTSHIFT = flag
    with contextlib.redirect_stdout(io.StringIO()):
        s = SSFM(disable_Raman=True, disable_self_steepening=True, dz=0.1)
        r.append(s.propagate(p, f, 1)[2])
assert np.allclose(r[0], r[1], atol=1e-9)
""", 'an even number of points in native FFT order', 'the result in native order is displaced by one sample')
seed('C09-negative-phase', 'C09', [(PB,
"""        self.set_AW(self.AW * np.exp(1j*phase))
""", """        self.set_AW(np.abs(self.AW) * np.exp(1j*(np.angle(self.AW) + phase % np.pi)))
""")], MK + """
p = mk(); p.set_AW(np.ones(64)); p.apply_phase_W(2.0); p.apply_phase_W(-2.0)
assert np.allclose(p.AW, 1)
""", 'phases outside 0..pi', 'the opposite phase no longer restores the field')
seed('C12-caching-switch', 'C12', [(XC,
"""        assert(cache_enable == True or cache_enable == False)
        self._enable_caching = cache_enable
""", """        self._enable_caching = cache_enable
        assert(cache_enable == True or cache_enable == False)
""")], """
from pynlo.media.crystals.XTAL_PPLN import PPLN
c = PPLN(30.)
try: c.set_caching('off')
except AssertionError: pass
else: raise SystemExit('accepted')
assert c._enable_caching is False
""", 'a refused request followed by use of the crystal', 'the refused value has taken effect')
seed('C33-file-gain-spectrum', 'C33', [(FIB,
"""        self.fiberspecs['gain_x_data' ] = None
        
        self.x, self.y""", """        self.fiberspecs.setdefault('gain_x_data', None)
        
        self.x, self.y""")], MK + """
import tempfile, os
from pynlo.media.fibers.fiber import FiberInstance
p = mk(); f = FiberInstance(); g = f.fiberloader.fibers
name = sorted(g)[0]
g[name] = dict(g[name], is_gain=True, gain_x_units='m', gain_x_data=[1.4e-6, 1.5e-6, 1.55e-6, 1.6e-6, 1.7e-6], gain_y_data=[0., 1., 2., 1., 0.])
f.load_from_db(1., name)
d = tempfile.mkdtemp(); fn = os.path.join(d, 'x.csv')
np.savetxt(fn, np.array([[1400., 10.], [1500., 15.], [1600., 18.], [1700., 22.]]), delimiter=',')
f.load_from_file(fn, gain=0.5)
p.set_AW(np.ones(64))
g = f.get_gain(p, 1.)
os.remove(fn); os.rmdir(d)
assert np.allclose(g, 0.5)
""", 'an object that held an amplifier fibre and then loads a file with flat gain', 'the old gain spectrum is used instead of the flat gain')
seed('C34-sinc-width', 'C34', [(DP,
"""            self.set_AT(self.AT * np.sqrt( power / ( frep_MHz*1.0e6 * self.calc_epp()) ))
        
        self.chirp_pulse_W(GDD, TOD)
        self.chirp_pulse_T(chirp2, chirp3, T0_ps)   
""", """            self.set_AT(self.AT * np.sqrt( power / ( frep_MHz*1.0e6 * self.calc_epp()) ))
        
        self.chirp_pulse_W(GDD, TOD)
        self.chirp_pulse_T(chirp2, chirp3, FWHM_ps)   
""")], """
import numpy as np
from pynlo.light.DerivedPulses import SincPulse
a = SincPulse(1., 1., 1550., NPTS=64); b = SincPulse(1., 1., 1550., NPTS=64, chirp2=0.3)
T0 = 1./3.7909885
assert np.allclose(b.AT, a.AT*np.exp(-0.15j*(a.T_ps/T0)**2))
""", 'a sinc pulse with temporal chirp', 'the chirp is referred to the full width instead of the characteristic time')
seed('C07-pad-even', 'C07', [(PB,
"""            pts_before = int(np.floor(num_new_pts * 0.5))
""", """            pts_before = int(np.floor(self.NPTS * 0.25)) * (2**factor_log2 - 1)
""")], MK + """
p = mk(62); p.set_AT(np.arange(62.)+1); a = p.AT; p.expand_time_window(2, 'even')
i = int(np.argmax(np.abs(p.AT) > 0.5))
assert i == 93, i
""", 'padding evenly by more than a factor two', 'points are not added evenly on both sides')
RWF='interactions/ThreeWaveMixing/multi_run_rw.py'; AG='media/crystals/XTAL_AgGaSe2.py'
seed('C18-chirped-domain-end', 'C18', [(DFG,
"""            domain_ub.append(z_current+self.crystal.pp(z_current) * 1.0)
""", """            domain_ub.append(domain_lb[-1]+self.crystal.pp(domain_lb[-1]) * 0.5)
""")], MK + """
from pynlo.media.crystals.XTAL_PPLN import PPLN
from pynlo.interactions.ThreeWaveMixing import dfg_problem
p = mk(wl=1064.); q = mk(wl=1550.); p.set_AW(np.ones(64)); q.set_AW(np.ones(64))
def signs(pp):
    x = PPLN(30., length=1e-3); x.set_pp(pp)
    d = dfg_problem(p, q, x, disable_SPM=True)
    return [d.poling(z) for z in np.linspace(1.01e-6, 0.999e-3, 2000)]
for pp in (lambda z: 30e-6, lambda z: 20e-6 + 20e-3*z):
    z0, edges = 0., []
    while z0 < 1e-3:
        edges.append((z0 + pp(z0)/2, z0 + pp(z0))); z0 += pp(z0)
    want = [-1 if any(a < z < b for a, b in edges) else 1 for z in np.linspace(1.01e-6, 0.999e-3, 2000)]
    assert signs(pp) == want
""", 'a poling period that changes along the crystal', 'inverted domains do not end where the next period starts')
seed('C21-noise-accumulates', 'C21', [(SS,
"""        for num in range(0, num_trials):

            pulse = pulse_in.create_cloned_pulse()
            pulse.add_noise(noise_type=noise_type)
""", """        pulse = pulse_in.create_cloned_pulse()
        for num in range(0, num_trials):

            pulse.add_noise(noise_type=noise_type)
""")], MK + """
from pynlo.interactions.FourWaveMixing.SSFM import SSFM
from pynlo.media.fibers.fiber import FiberInstance
p = mk(); p.set_AW(np.ones(64)*1e-12); f = FiberInstance(); f.generate_fiber(1e-3, 1550., [0.01], 0.)
s = SSFM(disable_Raman=True, disable_self_steepening=True, USE_SIMPLE_RAMAN=True)
seen = []
s.propagate = lambda pulse_in, **k: (seen.append(pulse_in.AW + 0) or (np.zeros(1), np.ones((64, 1)), np.ones((64, 1)), pulse_in))
np.random.seed(3)
s.calculate_coherence(p, f, num_trials=3, n_steps=1)
np.random.seed(3)
for a in seen:
    q = mk(); q.set_AW(p.AW); q.add_noise('one_photon_freq')
    assert np.allclose(a, q.AW, rtol=1e-12, atol=0)
""", 'two or more trials', 'each trial starts from the noise of all the trials before it')
seed('C22-overlap-plots', 'C22', [(DFG,
"""            if self._plot_beam_overlaps and abs(z-self.last_calc_z) > self.crystal.length_mks*0.001:    
""", """            if self._plot_beam_overlaps or self._calc_gouy and abs(z-self.last_calc_z) > self.crystal.length_mks*0.001:    
""")], """
import matplotlib
matplotlib.use('Agg')
from matplotlib import pyplot as plt
""" + MK + """
from pynlo.media.crystals.XTAL_PPLN import PPLN
from pynlo.interactions.ThreeWaveMixing import dfg_problem
p = mk(wl=1064.); q = mk(wl=1550.); p.set_AW(np.ones(64)); q.set_AW(np.ones(64))
for gouy in (False, True):
    x = PPLN(30., length=1e-3); x.set_pp(lambda z: 30e-6)
    d = dfg_problem(p, q, x, disable_SPM=True, apply_gouy_phase=gouy)
    d.deriv(4e-4, d.ystart, np.zeros(192, dtype=complex))
assert plt.get_fignums() == []
""", 'a mixing problem with the beams\' phase included', 'evaluating the right-hand side opens figures nobody asked for')
seed('C23-raman-plot-transform', 'C23', [(SS,
"""            plt.plot(self.omegas/(2*np.pi), abs(self.FFT_t(self.A)))
""", """            plt.plot(self.omegas/(2*np.pi), abs(self.FFT_w(self.A)))
""")], """
import matplotlib
matplotlib.use('Agg')
""" + MK + """
from pynlo.interactions.FourWaveMixing.SSFM import SSFM
from pynlo.media.fibers.fiber import FiberInstance
p = mk(); p.set_AW(np.ones(64)); f = FiberInstance(); f.generate_fiber(1e-3, 1550., [0.01], 1.)
SSFM().setup_fftw(p, f, None, raman_plots=True)
""", 'asking for the Raman plots', 'the plot uses a transform that does not exist')
seed('C29-derivative-order', 'C29', [(GC,
"""                                      n     = dispersion_order - 2,
""", """                                      n     = max(1, dispersion_order // 2),
""")], """
import numpy as np
from pynlo.devices.grating_compressor import TreacyCompressor
import pynlo.devices.grating_compressor as G
seen = []
class M:
    def derivative(f, x, dx=1., n=1, args=(), order=3):
        seen.append(n)
        return 0.
G.misc = M
t = TreacyCompressor(600., 27.)
for k in (3, 4, 5, 6):
    t.calc_compressor_HOD(1550., 0.1, k)
assert seen == [1, 2, 3, 4], seen
""", 'a dispersion order of five or more', 'fifth and higher orders are those of a lower derivative')
seed('C30-delay-axis', 'C30', [(XC,
"""        vg2 = self.calculate_group_velocity_nm_ps(wl2_nm, axis)
""", """        vg2 = self.calculate_group_velocity_nm_ps(wl2_nm)
""")], """
from pynlo.media.crystals.XTAL_AgGaSe2 import AgGaSe2
a = AgGaSe2(0.5, length=1e-2)
a.calculate_group_velocity_nm_ps = lambda wl, axis=None: {None: 5., 'mix': 5., 'o': 7., 'e': 4.}[axis]*wl
for axis in (None, 'mix', 'o', 'e'):
    g = a.calculate_group_velocity_nm_ps
    assert abs(a.calculate_pulse_delay_ps(2., 3., axis=axis) - (1e7/g(2., axis) - 1e7/g(3., axis))) < 1e-3, axis
""", 'a delay along a given crystal axis', 'the second colour is delayed as along the default axis')
seed('C31-central-waist-of-mean', 'C31', [(BEAM,
"""        zr = (np.pi) * w0_center**2 * (n1[len(n1)>>1]/self._lambda0[len(self._lambda0)>>1])
""", """        zr = (np.pi) * w0_center**2 * np.mean(n1/self._lambda0)
""")], MK + """
from pynlo.light import OneDBeam
from pynlo.media.crystals.XTAL_PPLN import PPLN
p = mk(T=0.5); b = OneDBeam(1e-5, p); b.set_waist_to_match_central_waist(p, 2e-5, PPLN(30.))
assert abs(b.waist[32] - 2e-5) < 1e-15
""", 'a broad spectrum', 'the waist at the centre colour is not the requested one')
seed('C32-frame-of-grid-centre', 'C32', [(DFG,
"""        self._pump_center_idx = np.argmax(abs(self.pump.AW))
""", """        self._pump_center_idx = len(self.n_p) >> 1
""")], MK + """
from pynlo.media.crystals.XTAL_PPLN import PPLN
from pynlo.interactions.ThreeWaveMixing import dfg_problem
p = mk(wl=1064.); q = mk(wl=1550.); q.set_AW(np.ones(64))
for i in (32, 20):
    a = np.zeros(64, dtype=complex); a[i] = 1; p.set_AW(a)
    x = PPLN(30., length=1e-3); x.set_pp(lambda z: 30e-6)
    d = dfg_problem(p, q, x, disable_SPM=True)
    class R: count = 1; ysave = np.ones((1, 192), dtype=complex); xsave = np.array([5e-4])
    A = d.process_stepper_output(R()).get_pump(0).AW + 0
    n = x.n(p.wl_nm); z = 5e-4; v = 299792458./n[i]
    assert np.allclose(A, np.exp(1j*(2*np.pi*n/p.wl_mks*z - z/v*p.W_mks)), atol=1e-6)
""", 'a pump whose spectrum peaks off the centre of its grid', 'results are shown in a frame that does not move with the pump')
seed('C35-mean-of-wavelengths', 'C35', [(PB,
"""        return 1.0e9 * self._c_mks / self.calculate_weighted_avg_frequency_mks()
""", """        return np.sum(abs(self.AW)**2 * self.wl_nm) / np.sum(abs(self.AW)**2)
""")], MK + """
p = mk(T=0.5); p.set_AW(np.ones(64))
assert abs(p.calculate_weighted_avg_wavelength_nm() - 1e9*299792458./p.calculate_weighted_avg_frequency_mks()) < 1e-6
""", 'a broad spectrum', 'average wavelength and average frequency no longer describe the same colour')
seed('C36-first-step', 'C36', [(RWF,
"""        if z_num is None:
            z_num = -1
""", """        if not z_num:
            z_num = -1
""")], MK + """
import tempfile, os
from pynlo.interactions.ThreeWaveMixing.multi_run_rw import DFGWriter, DFGReader
d = tempfile.mkdtemp(); fn = os.path.join(d, 'x.h5')
class D: pump, sgnl, idlr = mk(wl=1000.), mk(wl=1500.), mk(wl=3000.)
class O: count = 2; ysave = np.arange(384).reshape(2, 192) + 0j
class S: nvar = 192; out = O
try:
    w = DFGWriter(fn, 'a'); w.add_run(D, S, 1.); w.tables_file.close()
    g = DFGReader(fn, 'a')
    got = [g.get_run(0, k)[0].AW + 0 for k in (0, 1)]
    g.tables_file.close()
finally:
    os.remove(fn); os.rmdir(d)
for k in (0, 1):
    assert np.allclose(got[k], O.ysave[k, :64])
""", 'asking for the first saved step', 'the last step is returned in its place')
seed('C37-wave-number-kept', 'C37', [(BEAM,
"""        return crystal_instance.get_pulse_k(pulse_instance, self.axis)""", """        asked = (pulse_instance, crystal_instance, self.axis)
        if getattr(self, '_k_asked', None) != asked:
            self._k_asked, self._k = asked, crystal_instance.get_pulse_k(pulse_instance, self.axis)
        return self._k""")], MK + """
from pynlo.light import OneDBeam
from pynlo.media.crystals.XTAL_PPLN import PPLN
p = mk(); x = PPLN(30., length=1e-3); b = OneDBeam(1e-5, p)
assert np.allclose(b.get_k_in_crystal(p, x), x.get_pulse_k(p), rtol=1e-12)
p.set_center_wavelength_nm(1064.)
assert np.allclose(b.get_k_in_crystal(p, x), x.get_pulse_k(p), rtol=1e-12)
""", 'asking about a pulse, re-centring that pulse, and asking again', 'the wave numbers returned are those of the earlier centre wavelength')
seed('C37-pump-velocity-kept', 'C37', [(XC,
"""        vg_p = self.calculate_group_velocity_nm_ps(pump_wl_nm,   axis)*1e3 # m/s
""", """        known = self.__dict__.setdefault('_pump_velocities', {})
        if (pump_wl_nm, axis) not in known:
            known[(pump_wl_nm, axis)] = self.calculate_group_velocity_nm_ps(pump_wl_nm,   axis)*1e3 # m/s
        vg_p = known[(pump_wl_nm, axis)]
""")], """
from pynlo.media.crystals.XTAL_PPLN import PPLN
x = PPLN(30., length=1e-3)
x.calculate_mix_phasematching_bw(1064., 1550.)
x.set_T(180.)
a, b = x.calculate_mix_phasematching_bw(1064., 1550.), PPLN(180., length=1e-3).calculate_mix_phasematching_bw(1064., 1550.)
assert abs(a/b - 1) < 1e-9, (a, b)
""", 'a bandwidth calculation, a change of temperature, and a second calculation with the same pump', 'the pump travels at the velocity it had at the earlier temperature')
seed('C37-table-fitted-once', 'C37', [(FIB,
"""            self.betas = DTabulationToBetas(pulse.center_wavelength_nm,
                                            np.transpose(np.vstack((self.x,self.y))),
                                            self.poly_order,
                                            DDataIsFile = False)
""", """            fitted = (pulse.center_wavelength_nm, self.length, self.poly_order)
            if self.dispersion_changes_with_z or getattr(self, '_fitted', None) != fitted:
                self.betas = DTabulationToBetas(pulse.center_wavelength_nm,
                                                np.transpose(np.vstack((self.x,self.y))),
                                                self.poly_order,
                                                DDataIsFile = False)
                self._fitted = fitted
""")], MK + """
import tempfile, os
from pynlo.media.fibers.fiber import FiberInstance
d = tempfile.mkdtemp(); p = mk()
try:
    for i in (0, 1):
        with open(os.path.join(d, '%d.csv' % i), 'w') as o:
            for l in np.linspace(1000., 2000., 21):
                o.write('%f,%f\\n' % (l, (i + 1)*0.05*(l - 1300.)))
    f = FiberInstance(); g = FiberInstance()
    for i in (0, 1):
        f.load_from_file(os.path.join(d, '%d.csv' % i)); b = f.get_betas(p)
    g.load_from_file(os.path.join(d, '1.csv'))
    assert np.allclose(b, g.get_betas(p), rtol=1e-9)
finally:
    for i in (0, 1): os.remove(os.path.join(d, '%d.csv' % i))
    os.rmdir(d)
""", 'loading a second dispersion table of the same length into a fiber that has answered before', 'the dispersion returned is that of the table loaded earlier')

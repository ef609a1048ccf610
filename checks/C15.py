"""Split-step advance: interaction-picture Runge-Kutta, linear operator, extrapolated step."""
from .common import PULSE
from .C05 import IMPORTS
from .C08 import step_spec

def run(chk):
    chk.prog('step', step_spec(True, True, '''
EQ('forward step', dec(s.Advance(enc(Z + 0), h, 1)+0), step(Z, h))
h2 = SYM('h2', 0, 'pos')
EQ('step of another size', dec(s.Advance(enc(Z + 0), h2, 1)+0), step(Z, h2))
EQ('step back to the first size', dec(s.Advance(enc(Z + 0), h, 1)+0), step(Z, h))
EQ('half step', dec(s.Advance(enc(Z + 0), h/2, 1)+0), step(Z, h/2))
EQ('two half steps', dec(s.Advance(s.Advance(enc(Z + 0), h/2, 1), h/2, 1)+0), step(step(Z, h/2), h/2))
EQ('backward step', dec(s.Advance(enc(Z + 0), h, -1)+0), step(Z, -h))
EQ('forward step after a backward one', dec(s.Advance(enc(Z + 0), h, 1)+0), step(Z, h))
'''), soft=True, no_external_raise=True)
    # a medium without nonlinearity: exact dispersion, gain and reversibility
    chk.prog('linear medium', step_spec(True, True, '''
SSFM.NonlinearOperator = lambda self, A: 0*A
EQ('dispersion and gain over a step', dec(s.Advance(enc(Z + 0), h, 1)+0), lin(lin(Z, h), h))
EQ('forward then backward', dec(s.Advance(s.Advance(enc(Z + 0), h, 1), h, -1)+0), Z)
'''), soft=True, no_external_raise=True)
    chk.prog('nothing happens', step_spec(True, True, '''
SSFM.NonlinearOperator = lambda self, A: 0*A
class Empty(StubFiber):
    def get_betas(self, p, z=0): return np.zeros(p.NPTS)
    def get_gain(self, p, output_power=1): return np.zeros(p.NPTS)
e = Empty()
s.setup_fftw(p, e, None)
s.load_fiber_parameters(p, e, None)
EQ('field in an empty medium', dec(s.Advance(enc(Z + 0), h, 1)+0), Z)
'''), soft=True, no_external_raise=True)
    chk.floor(10)

"""Noise, coherence and gain-goal runs do what their options say."""
from .common import PULSE
from .C05 import IMPORTS
from .C08 import STUB_FIBER

H = '6.62607015e-34'
NOISE = PULSE + '''
import scipy.constants
p = mk(N, Tw, wl, A, fr)
seed = SYM('seed', 0, 'int')
np.random.seed(seed)
p.add_noise(%s)
W = p.AW
np.random.seed(seed)
size = N
n = np.random.normal(size=N)
u = np.random.uniform(size=N)
f = c/wl*1e9 + (np.arange(N) - M)/Tw*1e12
hv = scipy.constants.h*f
df = 1e12/Tw
'''
REST = '''
EQ('points', p.NPTS, N)
EQ('window', p.time_window_ps, Tw)
EQ('centre', p.center_wavelength_nm, wl)
EQ('rate', p.frep_MHz, fr)
p.set_AW(A)
EQ('spectrum set afterwards', p.AW, A)
'''
COH = PULSE + IMPORTS + STUB_FIBER + '''
y = SYM('y', 1, 'real')
B = SYM('B', 1, 'cplx', N)
log = []
class Out:
    pass
def field(k, A):
    return UF('AW%%d' %% k, A+0, rank=2)
def propagate(self, pulse_in=None, fiber=None, n_steps=None, output_power=None, reload_fiber_each_step=False):
    log.append((pulse_in, fiber, n_steps, output_power, reload_fiber_each_step, pulse_in.AW))
    return y, field(0, pulse_in.AW), field(1, pulse_in.AW), Out()
SSFM.propagate = propagate
p = mk(N, Tw, wl, A, fr)
fb = FiberInstance()
seed = SYM('seed', 0, 'int')
ns = SYM('ns', 0, 'posint')
op = SYM('op', 0, 'pos')
T = %d
def twin(k):
    """the k-th noisy field"""
    q = mk(N, Tw, wl, A, fr)
    q.add_noise(%s)
    return q.AW
s = SSFM()
'''

# power delivered when x is asked for, goal, scale guess, tolerance
GAIN = (
    ('met at once', 'x', '3', None, '0.05'),
    ('met at once with a guess', 'x/2', '3', '2', '0.05'),
    ('symbolic goal', 'x', "SYM('goal', 0, 'pos')", None, '0.05'),
    ('linear loss', 'x/3', '2', None, '0.01'),
    ('linear with offset', 'x/2 + 1', '5', None, '0.001'),
    ('offset and guess', 'x/4 + 1/2', '2', '3', '0.001'),
    ('saturating', '4*x/(4 + x)', '2', None, '0.01'),
    ('saturating, tight', '9*x/(5 + x)', '3', '1/2', '0.0001'),
    ('quadratic', 'x*x/2', '1', None, '0.02'),
)


def run(chk):
    chk.prog('one photon', NOISE % "noise_type='one_photon_freq'" + '''
EQ('one photon per mode', W, A + n*hv*df*np.exp(2j*np.pi*u))
''' + REST)
    chk.prog('photon number', NOISE % "noise_type='sqrt_N_freq'" + '''
EQ('shot noise', W, A + n*np.sqrt(np.where(np.abs(A)**2/df/hv < 0, 0, np.abs(A)**2/df/hv))*hv*df*np.exp(2j*np.pi*u))
''' + REST)
    chk.prog('default noise', NOISE % '' + '''
EQ('default is the shot noise', W, A + n*np.sqrt(np.where(np.abs(A)**2/df/hv < 0, 0, np.abs(A)**2/df/hv))*hv*df*np.exp(2j*np.pi*u))
''' + REST)
    for typ, seeded in (('one_photon_freq', True), ('sqrt_N_freq', True), ('one_photon_freq', False)):
        for trials in (2, 3):
            opt = 'noise_type=%r' % typ
            chk.prog('coherence, %s, %d trials%s' % (typ, trials, '' if seeded else ', no seed'), COH % (trials, opt) + """
np.random.seed(SYM('earlier', 0, 'int'))
g, res = s.calculate_coherence(p, fb, num_trials=T, %s%s, n_steps=ns, output_power=op, reload_fiber_each_step=True)
""" % ('random_seed=seed, ' if seeded else '', opt) + """
np.random.seed(%s)
""" % ('seed' if seeded else "SYM('earlier', 0, 'int')") + """
E = [twin(k) for k in range(T)]
EQ('number of runs', len(log), T)
EQ('number of results', len(res), T)
for k in range(T):
    EQ('noisy input of each run', log[k][5], E[k])
    EQ('a pulse of its own', SHARES(log[k][0], p), False)
    EQ('same fiber', log[k][1] is fb, True)
    EQ('steps', log[k][2], ns)
    EQ('output power', log[k][3], op)
    EQ('reloading', log[k][4], True)
    EQ('spectra of each run', res[k][1], field(0, E[k]))
    EQ('fields of each run', res[k][2], field(1, E[k]))
    EQ('positions', res[k][0], y)
EQ('input kept', p.AW, A)
tot = 0
for i in range(T):
    for j in range(T):
        if i != j:
            a, b = field(0, E[i]), field(0, E[j])
            tot = tot + np.conj(a)*b/(np.abs(a)*np.abs(b))
EQ('coherence', g, np.abs(tot/(T*(T - 1))))
""")
    chk.prog('repeatable', COH % (2, '') + """
g1, r1 = s.calculate_coherence(p, fb, num_trials=T, random_seed=seed)
np.random.normal(size=N)
g2, r2 = s.calculate_coherence(p, fb, num_trials=T, random_seed=seed)
EQ('same seed, same coherence', g1, g2)
EQ('same seed, same runs', r1[1][1], r2[1][1])
EQ('seed zero is a seed', 0, 0)
s.calculate_coherence(p, fb, num_trials=T, random_seed=0)
a = log[-1][5]
s.calculate_coherence(p, fb, num_trials=T, random_seed=0)
EQ('seed zero repeats', log[-1][5], a)
""")

    for name, resp, goal, guess, tol in GAIN:
        chk.prog('gain goal, %s' % name, PULSE + IMPORTS + STUB_FIBER + """
log = []
class Out:
    frep_mks = fr*1e6
    def calc_epp(self):
        return self.power/self.frep_mks
def power(x):
    return %s
def propagate(self, pulse_in=None, fiber=None, n_steps=None, output_power=None, reload_fiber_each_step=False):
    o = Out()
    o.power = power(output_power)
    log.append((pulse_in, fiber, n_steps, output_power, o))
    return 'y', 'AW', 'AT', o
SSFM.propagate = propagate
p = mk(N, Tw, wl, A, fr)
fb = FiberInstance()
ns = SYM('ns', 0, 'posint')
s = SSFM()
goal, tol = %s, %s
(y, AW, AT, out), scale = s.propagate_to_gain_goal(p, fb, ns, power_goal=goal%s, powertol=tol)
""" % (resp, goal, tol, '' if guess is None else ', scalefactor_guess=%s' % guess) + """
EQ('first guess', log[0][3], goal*%s)
EQ('result of the last run', out is log[-1][4], True)
EQ('steps of the last run', log[-1][2], ns)
EQ('last run uses the returned scale', log[-1][3], goal*scale)
for k in range(len(log)):
    EQ('same pulse', log[k][0] is p, True)
    EQ('same fiber', log[k][1] is fb, True)
HOLDS('power within tolerance', abs(out.power - goal) <= tol*goal)
EQ('input kept', p.AW, A)
""" % ('1' if guess is None else guess), unroll_while=12)

"""Three-wave mixing: the integrand, its poling sign, and the phases put back on the saved fields."""
from .common import PULSE

HEAD = PULSE + '''
from pynlo.interactions.ThreeWaveMixing import dfg_problem
from pynlo.interactions.ThreeWaveMixing.DFG_integrand import fftcomputer
from pynlo.media.crystals.CrystalContainer import Crystal
from scipy import constants
eps0 = constants.epsilon_0
w0 = SYM('w0', 0, 'pos'); L = SYM('L', 0, 'pos'); deff = SYM('deff', 0, 'pos')
w2 = SYM('w2', 0, 'pos')
B = SYM('B', 1, 'cplx', N)
p = mk(N, Tw, wl, A, fr)
q = mk(N, Tw, w2, B, fr)
r = mk(N, Tw, 1/(1/wl - 1/w2), None, fr)
def index(l, axis='none'): return UF('pw_n' + axis, l, rank=1, typ='pos')
def crystal(mode):
    x = Crystal({'length': L})
    x.mode = mode
    x.deff = deff
    x.n = index
    return x
z = SYM('z', 0, 'real')
Y = SYM('Y', 1, 'cplx', 3*N)
Yp = Y[:N]; Ys = Y[N:2*N]; Yi = Y[2*N:]
def rhs(d, z):
    dy = np.zeros(3*N, dtype=complex)
    d.deriv(z, Y + 0, dy)
    return dy
def spec(ax, z, width, gouy=None, sign=1):
    n = [index(g.wl_nm, a) for g, a in zip((p, q, r), ax)]
    W = [g.W_mks for g in (p, q, r)]
    v = max([max(c/i) for i in n])
    ph = [np.exp(1j*(2*np.pi*i/g.wl_mks*z - z/v*w)) for i, g, w in zip(n, (p, q, r), W)]
    if gouy is not None:
        ph = [a*b for a, b in zip(ph, gouy)]
    P = [1/np.sqrt(width*i*eps0*c) for i in n]
    f = fftcomputer(N)
    up = [a*b*e for a, b, e in zip(P, (Yp, Ys, Yi), ph)]
    mix = (f.conv(up[1], up[2]), f.corr(up[0], up[2]), f.corr(up[0], up[1]))
    return [2j*sign*deff*w/(c*i)*m/(e*a) for w, i, m, e, a in zip(W, n, mix, ph, P)]
'''


# three grids of positive wavelengths in place of the pulses
GRIDS = HEAD + '''
import pynlo.interactions.ThreeWaveMixing.DFG_integrand as D
class Grid:
    def __init__(self, wl_mks, A, name):
        self.wl_mks = wl_mks
        self.wl_nm = wl_mks*1e9
        self.W_mks = 2*np.pi*c/wl_mks
        self.AW = A
        self.NPTS = N
        self.frep_MHz = fr
        self.frep_mks = fr*1e6
        self.time_window_ps = Tw
        self.center_wavelength_nm = self.wl_nm[M]
        self.cache_hash = name
def grid(name): return Grid(UF(name, 0, rank=1, len=N, typ='pos'), UF('A' + name, 0, rank=1, len=N, typ='cplx'), name)
p = grid('lp'); q = grid('ls'); r = grid('li')
D.NoisePulse = lambda **kw: r
'''


def three(names, d='got', s='want'):
    return ''.join("EQ('%s', %s[%s], %s[%d])\n" % (n, d, ('0:N', 'N:2*N', '2*N:3*N')[k], s, k) for k, n in enumerate(names))


def run(chk):
    chk.prog('waveguide', HEAD + '''
S = SYM('S', 0, 'pos')
d = dfg_problem(p, q, crystal('simple'), disable_SPM=True, wg_mode=True, Aeff_squm=S)
got = rhs(d, z)
want = spec(('none',)*3, z, S*1e-12)
''' + three(('pump', 'signal', 'idler')))
    beams = '''
n = [index(g.wl_nm, a) for g, a in zip((p, q, r), ax)]
zR = np.pi*w0**2*n[0][M]/p.wl_mks[M]
area = [zR*g.wl_mks/i*(1 + ((z - L/2)/zR)**2) for g, i in zip((p, q, r), n)]
size = [np.mean(np.sqrt(zR*g.wl_mks/i/np.pi)*np.sqrt(1 + ((z - L/2)/zR)**2)) for g, i in zip((p, q, r), n)]
if size[0] <= size[1] and size[0] <= size[2]: width = area[0]
elif size[1] <= size[2]: width = area[1]
else: width = area[2]
'''
    for nm, mode, ax in (('beams', 'simple', "('none',)*3"), ('beams, birefringent', 'BPM', "('mix', 'o', 'o')")):
        chk.prog(nm, GRIDS + '''
d = dfg_problem(p, q, crystal('%s'), disable_SPM=True, pump_waist=w0)
ax = %s
got = rhs(d, z)
''' % (mode, ax) + beams + '''
want = spec(ax, z, width)
''' + three(('pump', 'signal', 'idler')), soft=True)
        chk.prog(nm + ', Gouy phase', GRIDS + '''
d = dfg_problem(p, q, crystal('%s'), disable_SPM=True, pump_waist=w0, apply_gouy_phase=True)
ax = %s
got = rhs(d, z)
''' % (mode, ax) + beams + '''
g = np.exp(1j*np.arctan2(z - L/2, zR*np.ones(N)))
want = spec(ax, z, width, (g, g, g))
''' + three(('pump', 'signal', 'idler')), soft=True)

    poled = GRIDS + '''
t = SYM('t', 0, 'pos'); S = SYM('S', 0, 'pos')
u = 1/(2*(1 + t))             # any number between 0 and 1/2
def poled(length, period):
    x = Crystal({'length': length})
    x.mode = 'PP'
    x.deff = deff
    x.n = index
    x.pp = period
    return dfg_problem(p, q, x, disable_SPM=True, wg_mode=True, Aeff_squm=S)
def none(s): return spec(('none',)*3, s, S*1e-12)
'''
    for nm, length, period, edges in (('poling', '2.5', '1', ((0, 1), (1, 2), (2, 3))),
                                      ('chirped poling', '10', '1 + z', ((0, 1), (1, 3), (3, 7), (7, 15)))):
        chk.prog(nm, poled + '''
d = poled(%s, lambda z: %s)
for lo, hi in %r:
    a = lo + u*(hi - lo)
    b = (lo + hi)/2 + u*(hi - lo)
    up = rhs(d, a)
    want = none(a)
    EQ('pump in the first half of a period', up[0:N], want[0])
    EQ('signal in the first half of a period', up[N:2*N], want[1])
    EQ('idler in the first half of a period', up[2*N:3*N], want[2])
    down = rhs(d, b)
    want = none(b)
    EQ('pump in the second half of a period', down[0:N], -want[0])
    EQ('signal in the second half of a period', down[N:2*N], -want[1])
    EQ('idler in the second half of a period', down[2*N:3*N], -want[2])
''' % (length, period, edges), soft=True, unroll_while=16)
    chk.floor(15)

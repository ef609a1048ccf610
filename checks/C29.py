"""The grating compressor's dispersion: geometry, derivatives, and the phase applied to a pulse."""
from .common import PULSE

HEAD = PULSE + '''
from pynlo.devices.grating_compressor import TreacyCompressor
from scipy import integrate, misc
lines = SYM('lines', 0, 'pos'); G = SYM('G', 0, 'pos'); lam = SYM('lam', 0, 'pos'); u = SYM('u', 0, 'pos')
d = 1e-3/lines
out = (1 - u**2)/(1 + u**2)                     # sine of the diffracted angle: every value in (-1, 1)
sg = lam*1e-9/d - out                           # sine of the incidence angle
g = np.arcsin(sg)
t = TreacyCompressor(lines, g*180/np.pi)
c = 299792458.0
w = 2*np.pi*c/(lam*1e-9)
def delay(w):                                   # group delay of one pass
    b = np.arcsin(2*np.pi*c/(w*d) - sg)
    return G*(1 + np.cos(g - b))/np.cos(b)/c
def slope(w):                                   # its derivative
    s = 2*np.pi*c/(w*d) - sg
    return -4*np.pi**2*c*G/(w**3*d**2*(1 - s**2)**1.5)
'''


def run(chk):
    chk.prog('geometry', HEAD + '''
th = t.calc_theta(lam)
EQ('grating equation', np.sin(g - th), out)
EQ('angle between the rays', th, g - np.arcsin(out))
EQ('group delay of one pass', t.calc_dphi_domega(w, G), delay(w))
EQ('second-order dispersion of one pass', t.calc_dt_dw_singlepass(lam, G), slope(w))
EQ('two passes', t.calc_compressor_gdd(lam, G), 2*slope(w))
x = misc.derivative(lambda o: t.calc_dphi_domega(o, G), w, dx=1e9)
EQ('dispersion is the derivative of the delay', t.calc_dt_dw_singlepass(lam, G), x)
EQ('proportional to the separation', t.calc_compressor_gdd(lam, 2*G), 2*t.calc_compressor_gdd(lam, G))
''')
    for n in (3, 4, 5):
        chk.prog('order %d' % n, HEAD + '''
EQ('derivative of the second order', t.calc_compressor_HOD(lam, G, %d), misc.derivative(lambda o: 2*slope(o), w, n=%d, order=11))
''' % (n, n - 2))
    for n in (1, 2, 3):
        chk.prog('single-pass order %d' % n, HEAD + '''
EQ('derivative of the delay', t.calc_compressor_dnphi_domega_n(lam, G, %d), misc.derivative(delay, w, n=%d, order=11)*10.0**(15*(%d+1)))
''' % (n, n, n))
    chk.prog('phase applied to a pulse', HEAD + '''
p = mk(N, Tw, wl, A)
w0 = 2*np.pi*1e12*c*1e-3/wl
h = TreacyCompressor(SYM('l2', 0, 'pos'), SYM('a2', 0, 'real'))
before = p.AW + 0
grid = p.W_mks + 0
h.apply_phase_to_pulse(G, p)
k = SYM('k', 0, 'posint')
def phase(x): return integrate.quad(lambda o: 2*h.calc_dphi_domega(o, G), w0, x)[0]
r = [p.AW[j]/before[j]*np.exp(-1j*phase(grid[j])) for j in (0, 1, 2, k, k+1, k+2)]
EQ('magnitudes kept', np.abs(r[0]), 1)
EQ('integral of the two-pass delay, up to a delay', r[0]*r[2], r[1]**2)
EQ('anywhere in the grid', r[3]*r[5], r[4]**2)
EQ('no phase at the centre', p.AW[M], before[M])
EQ('grid kept', p.W_mks, grid)
''')
    chk.prog('refused', HEAD + '''
def refused(f):
    try:
        f()
    except (ValueError, AssertionError):
        return 1
    return 0
EQ('higher orders start at the third', refused(lambda: t.calc_compressor_HOD(lam, G, 2)), 1)
EQ('orders start at the first', refused(lambda: t.calc_compressor_dnphi_domega_n(lam, G, 0)), 1)
th = t.calc_theta(lam, True)
EQ('display has no influence', th, t.calc_theta(lam))
''')
    chk.floor(20)

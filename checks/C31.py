"""Gaussian and waveguide beams: geometry, field conversion, overlap, and matching."""
from .common import PULSE

HEAD = PULSE + '''
from pynlo.light.beam import OneDBeam
from pynlo.light.high_V_waveguide import OneDBeam_highV_WG
from pynlo.media.crystals.CrystalContainer import Crystal
from scipy import constants
eps0 = constants.epsilon_0
w0 = SYM('w0', 0, 'pos'); v0 = SYM('v0', 0, 'pos'); z = SYM('z', 0, 'real'); n0 = SYM('n0', 0, 'pos')
def index(l, axis='none'): return UF('pw_n' + axis, l, rank=1, typ='pos')
x = Crystal({'length': SYM('L', 0, 'pos')})
x.n = index
lp = UF('lp', 0, rank=1, len=N, typ='pos'); lq = UF('lq', 0, rank=1, len=N, typ='pos')
class Grid:
    def __init__(self, l):
        self.wl_mks = l
        self.wl_nm = l*1e9
        self.cache_hash = 'g'
p = Grid(lp); q = Grid(lq)
a = OneDBeam(w0, p); b = OneDBeam(v0, q, 'o')
np_ = index(lp*1e9); nq = index(lq*1e9, 'o')
kp = 2*np.pi*np_/lp; kq = 2*np.pi*nq/lq
zp = np.pi*w0**2*np_/lp; zq = np.pi*v0**2*nq/lq
'''


def run(chk):
    chk.prog('focus', HEAD + '''
EQ('waist', a.waist, w0)
EQ('confocal parameter', a.calc_confocal(n0), 2*np.pi*w0**2*n0/lp)
EQ('confocal parameter in vacuum', a.calc_confocal(), 2*np.pi*w0**2/lp)
EQ('Rayleigh range', a.calculate_zR(n0), np.pi*w0**2*n0/lp)
EQ('radius', a.calculate_waist(z, n0), w0*np.sqrt(1 + (z*lp/(np.pi*w0**2*n0))**2))
EQ('radius at the focus', a.calculate_waist(0, n0), w0*np.ones(N))
EQ('radius one Rayleigh range away', a.calculate_waist(a.calculate_zR(n0), n0)**2, 2*w0**2*np.ones(N))
EQ('curvature', a.calculate_R(z, n0), z + (np.pi*w0**2*n0/lp)**2/z)
ph = a.calculate_gouy_phase(z, n0)
EQ('Gouy phase', ph, np.exp(1j*np.arctan2(z, np.pi*w0**2*n0/lp)))
EQ('Gouy phase is a phase', np.abs(ph), np.ones(N))
EQ('no Gouy phase at the focus', a.calculate_gouy_phase(0, n0), np.ones(N))
EQ('odd about the focus', a.calculate_gouy_phase(-z, n0), np.conj(ph))
ns = UF('ns', 0, rank=1, len=N, typ='pos')
EQ('index on the grid', a.calculate_zR(ns), np.pi*w0**2*ns/lp)
a.set_w0(v0)
EQ('new waist', a.calc_confocal(n0), 2*np.pi*v0**2*n0/lp)
''')
    chk.prog('field', HEAD + '''
EQ('field of a power', a.rtP_to_a(n0), 1/np.sqrt(np.pi*w0**2*n0*eps0*c))
EQ('field of a power in the crystal', a.rtP_to_a_2(p, x, z, v0), 1/np.sqrt(np.pi*v0**2*np_*eps0*c))
EQ('field on the other axis', b.rtP_to_a_2(q, x, z, v0), 1/np.sqrt(np.pi*v0**2*nq*eps0*c))
EQ('field at a distance', a.rtP_to_a_2(p, x, z), 1/np.sqrt(np.pi*w0**2*(1 + (z*lp/(np.pi*w0**2*np_))**2)*np_*eps0*c))
EQ('index', a.get_n_in_crystal(p, x), np_)
EQ('wave number', b.get_k_in_crystal(q, x), kq)
''')
    chk.prog('overlap', HEAD + '''
f = a.calc_overlap_integral(z, p, q, b, x)
EQ('coupling', f, 4*kp*kq*zp*zq/(kq**2*(z**2 + zp**2) - 2*kp*kq*(z**2 - zp*zq) + kp**2*(z**2 + zq**2)))
EQ('symmetric', f, b.calc_overlap_integral(z, q, p, a, x))
EQ('same on both sides of the focus', f, a.calc_overlap_integral(-z, p, q, b, x))
EQ('a beam with itself', a.calc_overlap_integral(z, p, p, a, x), np.ones(N))
EQ('at the focus', a.calc_overlap_integral(0, p, q, b, x), 4*w0**2*v0**2/(w0**2 + v0**2)**2*np.ones(N))
r = a.calc_overlap_integral(z, p, q, b, x, reverse_order=True)
k2 = kq[::-1]; z2 = zq[::-1]
EQ('reversed order', r, 4*kp*k2*zp*z2/(k2**2*(z**2 + zp**2) - 2*kp*k2*(z**2 - zp*z2) + kp**2*(z**2 + z2**2)))
''')
    chk.prog('matching', HEAD + '''
a.set_waist_to_match_confocal(p, q, b, x)
EQ('Rayleigh ranges agree', a.calculate_zR(np_), zq)
EQ('waist of the match', a.waist, np.sqrt(zq*lp/(np.pi*np_)))
EQ('other beam untouched', b.waist, v0)
a.set_waist_to_match_central_waist(p, v0, x)
EQ('waist at the centre', a.waist[M], v0)
EQ('one Rayleigh range', a.calculate_zR(np_), np.pi*v0**2*np_[M]/lp[M]*np.ones(N))
''')
    chk.prog('waveguide', HEAD + '''
S = SYM('S', 0, 'pos')
g = OneDBeam_highV_WG(S, p); h = OneDBeam_highV_WG(S, q, 'o')
EQ('area in square metres', g.Aeff, S*1e-12)
EQ('field of a power', g.rtP_to_a(n0), 1/np.sqrt(S*1e-12*n0*eps0*c))
EQ('field of a power in the crystal', g.rtP_to_a_2(p, x, z), 1/np.sqrt(S*1e-12*np_*eps0*c))
EQ('field on the other axis', h.rtP_to_a_2(q, x), 1/np.sqrt(S*1e-12*nq*eps0*c))
EQ('full overlap', g.calc_overlap_integral(z, p, q, h, x), 1)
EQ('full overlap reversed', g.calc_overlap_integral(z, p, q, h, x, reverse_order=True), 1)
EQ('no Gouy phase', g.calculate_gouy_phase(z, n0), 1)
EQ('index', g.get_n_in_crystal(p, x), np_)
EQ('wave number', h.get_k_in_crystal(q, x), kq)
g.set_Aeff(2*S)
EQ('new area', g.rtP_to_a(n0), 1/np.sqrt(2*S*n0*eps0*c))
''')
    chk.prog('optimal overlap', HEAD + '''
import pynlo.light.beam as B
from scipy import misc
class Search:
    f = None
    def minimize(self, f, x0, **kw):
        self.f = f
        self.x0 = x0
        self.x = UF('best', 0, rank=1, len=N, typ='pos')
        return self
s = Search()
B.optimize = s
L = SYM('L2', 0, 'pos'); y = SYM('y', 0, 'pos')
w = a.calc_optimal_beam_overlap_in_crystal(p, q, b, x, L)
EQ('waist of the best Rayleigh range', w, np.sqrt(s.x*lp/(np.pi*np_)))
EQ('search starts from the other beam', s.x0, zq)
def loss(d):
    a.calc_optimal_beam_overlap_in_crystal(p, q, b, x, d)
    return s.f(y)
l1 = SYM('l1', 0, 'pos'); l2 = SYM('l2', 0, 'pos')
p = Grid(l1*np.ones(N)); q = Grid(l2*np.ones(N))
a = OneDBeam(w0, p); b = OneDBeam(v0, q, 'o')
kp = 2*np.pi*index(p.wl_nm)/l1; kq = 2*np.pi*index(q.wl_nm, 'o')/l2
zq = np.pi*v0**2*index(q.wl_nm, 'o')/l2
each = 4*kp*kq*y*zq/(kq**2*(L**2 + y**2) - 2*kp*kq*(L**2 - y*zq) + kp**2*(L**2 + zq**2))
EQ('searched quantity grows by the overlap at the end', misc.derivative(loss, L), -np.sum(each))
EQ('nothing for no length', loss(0), 0)
a.calc_optimal_beam_overlap_in_crystal(p, q, b, x)
f0 = s.f(y)
EQ('crystal length by default', f0, loss(x.length_mks))
EQ('beams untouched', a.waist + b.waist, w0 + v0)
''', soft=True)
    chk.floor(38)

"""Arrays handed in or out are not shared with the object that took or gave them."""
from .common import PULSE
from .C05 import IMPORTS

GRIDS = ['AW', 'AT', 'wl_nm', 'wl_mks', 'W_mks', 'W_THz', 'F_mks', 'F_THz', 'V_mks', 'V_THz', 'T_ps', 'T_mks']

def run(chk):
    src = PULSE + '''
x = SYM('x', 0, 'real')
p = mk(N, Tw, wl, A, fr)
q = mk(N, Tw, wl, A, fr)
'''
    for g in GRIDS:
        src += 'a_%s = p.%s\n' % (g, g)
    for g in GRIDS:
        src += 'a = p.%s\na *= x\na[0] = x\nb = p.%s\nb[1:3] = x\n' % (g, g)
    for g in GRIDS:
        src += "EQ('%s after the caller edits what it was given', p.%s, q.%s)\n" % (g, g, g)
        src += "EQ('%s kept by the caller is not overwritten', a_%s, q.%s)\n" % (g, g, g)
    src += 'p.chirp_pulse_W(x)\np.apply_phase_W(x)\np.add_time_offset(x)\n'
    for g in ('AW', 'AT'):
        src += "EQ('%s kept by the caller survives later changes of the pulse', a_%s, q.%s)\n" % (g, g, g)
    src += 'p.set_center_wavelength_nm(wl+1)\np.wl_nm\np.W_mks\np.set_AW(5)\n'
    for g in GRIDS:
        src += "EQ('%s kept by the caller survives a new grid', a_%s, q.%s)\n" % (g, g, g)
    src += '''
Z = SYM('Z', 1, 'cplx', N)
z = Z + 0
p = mk(N, Tw, wl, None, fr)
p.set_AW(z)
z *= 2
z[0] = x
EQ('spectrum given to a pulse', p.AW, Z)
z = Z + 0
p.set_AT(z)
z *= 2
z[0] = x
q = mk(N, Tw, wl, None, fr)
q.set_AT(Z)
EQ('field given to a pulse', p.AW, q.AW)
r = q.create_cloned_pulse()
b = r.AW
b[0] = 7
t = r.AT
t[0] = 7
EQ('clone after editing its field', q.AT, Z)
EQ('clone itself', r.AT, Z)
d = q.get_pulse_dict()
d['AT_re'][0] = 9
EQ('pulse after editing its dictionary', q.AT, Z)
d = q.get_pulse_dict()
s = Pulse()
s.load_pulse_dict(d)
d['AT_re'][0] = 9
EQ('pulse after editing the dictionary it was loaded from', s.AT, Z)
c = q.calculate_intensity_autocorrelation()
c[0] = 5
EQ('pulse after editing its autocorrelation', q.AT, Z)
i = q.interpolate_to_new_center_wl(wl+1)
i.set_AW(x)
EQ('pulse after changing its interpolation', q.AT, Z)
'''
    chk.prog('pulse', src)
    chk.prog('media', PULSE + IMPORTS + '''
b2 = SYM('b2', 0, 'real'); b3 = SYM('b3', 0, 'real'); x = SYM('x', 0, 'pos'); g0 = SYM('g0', 0, 'pos')
def gen(): 
    f = FiberInstance()
    f.generate_fiber(x, wl, [b2, b3], 1, gain=g0)
    return f
f = gen()
b = f.get_betas(p)
b *= 2
b[0] = 1
EQ('propagation constants after the caller edits them', f.get_betas(p), gen().get_betas(p))
b = f.get_gain(p)
b *= 2
EQ('gain after the caller edits it', f.get_gain(p), gen().get_gain(p))
b = f.Beta2(p)
b *= 2
EQ('second-order dispersion after the caller edits it', f.Beta2(p), gen().Beta2(p))
c = np.array([b2, b3])
f.generate_fiber(x, wl, c, 1, gain=g0)
c *= 3
EQ('fiber after its coefficient array is edited', f.get_betas(p), gen().get_betas(p))
k = PPLN(Tw, enable_caching=True)
u = PPLN(Tw)
n = k.get_pulse_n(p)
n *= 2
EQ('cached index after the caller edits the first answer', k.get_pulse_n(p), u.n(p.wl_nm))
n = k.get_pulse_n(p)
n *= 2
EQ('cached index after the caller edits a later answer', k.get_pulse_n(p), u.n(p.wl_nm))
w = k.get_pulse_k(p)
w *= 2
EQ('wavenumber after the caller edits it', k.get_pulse_k(p), u.get_pulse_k(p))
kk = AgGaSe2(x, enable_caching=True)
n = kk.get_pulse_n(p, 'o')
n[0] = 0
EQ('cached ordinary index', kk.get_pulse_n(p, 'o'), AgGaSe2(x).n(p.wl_nm, 'o'))
n = kk.get_pulse_n(p, 'mix')
n[0] = 0
EQ('cached mixed index', kk.get_pulse_n(p, 'mix'), AgGaSe2(x).n(p.wl_nm, 'mix'))
EQ('cached ordinary index again', kk.get_pulse_n(p, 'o'), AgGaSe2(x).n(p.wl_nm, 'o'))
h = OneDBeam(1e-5, p)
a = p.wl_nm
a *= 2
EQ('beam wavelength', h.calc_confocal(), OneDBeam(1e-5, mk(N, Tw, wl, A, fr)).calc_confocal())
''')
    chk.prog('propagation results', PULSE + IMPORTS + '''
b2 = SYM('b2', 0, 'real'); b3 = SYM('b3', 0, 'real'); x = SYM('x', 0, 'pos')
f = FiberInstance()
f.generate_fiber(x, wl, [b2, b3], 1)
def go(s):
    return s.propagate(p, f, 2)
s = SSFM()
y, AW, AT, out = go(s)
AW0 = AW + 0; AT0 = AT + 0; o0 = out.AW; y0 = y + 0
AW *= 2
AT *= 2
AW[0, 0] = 1
AT[0, 0] = 1
EQ('output pulse after the caller edits the result arrays', out.AW, o0)
AW2 = AW + 0
out.chirp_pulse_W(x)
EQ('spectra after the output pulse is changed', AW, AW2)
y1, AW1, AT1, out1 = go(s)
EQ('spectra after the solver runs again', AW, AW2)
EQ('positions after the solver runs again', y, y0)
o1 = out1.AW; AWk = AW1 + 0; ATk = AT1 + 0
go(s)
EQ('earlier output pulse after the solver runs again', out1.AW, o1)
EQ('earlier spectra after the solver runs again', AW1, AWk)
EQ('earlier fields after the solver runs again', AT1, ATk)
''', no_external_raise=True)
    chk.floor(60)

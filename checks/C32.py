"""Mixing problems and results: which slot, which grid, which phase belongs to which field."""
from .C18 import GRIDS, HEAD, three

# a solver's output of two saved rows in a longer buffer
RUN = '''
Z = [SYM('z0', 0, 'real'), SYM('z1', 0, 'real')]
rows = [SYM('Y0', 1, 'cplx', 3*N), SYM('Y1', 1, 'cplx', 3*N)]
class Run:
    count = 2
    ysave = np.zeros((4, 3*N), dtype=complex)
    xsave = np.zeros(4)
run = Run()
for k in (0, 1):
    run.ysave[k, :] = rows[k]
    run.xsave[k] = Z[k]
def shown(k, j, v):
    """field j of row k with the phase of its index in a frame moving at v"""
    g = (p, q, r)[j]
    n = index(g.wl_nm, ax[j])
    return rows[k][j*N:(j + 1)*N]*np.exp(1j*(2*np.pi*n/g.wl_mks*Z[k] - Z[k]/v*g.W_mks))
'''


def run(chk):
    chk.prog('problem', HEAD + '''
d = dfg_problem(p, q, crystal('simple'), disable_SPM=True)
EQ('pump slot', d.ystart[0:N], A)
EQ('signal slot', d.ystart[N:2*N], B)
EQ('idler slot', d.ystart[2*N:3*N], d.idlr.AW)
EQ('three slots', len(d.ystart), 3*N)
EQ('idler photons carry the energy difference', 1/d.idlr.center_wavelength_nm, 1/wl - 1/w2)
EQ('idler grid points', d.idlr.NPTS, N)
EQ('idler window', d.idlr.time_window_ps, Tw)
EQ('idler rate', d.idlr.frep_mks, fr*1e6)
i = N//3
EQ('idler frequencies are differences', d.idlr.W_mks[i] - r.W_mks[i], 0)
EQ('the problem has its own pump', SHARES(d.pump, p), False)
EQ('the problem has its own signal', SHARES(d.sgnl, q), False)
EQ('given pump kept', p.AW, A)
EQ('given signal kept', q.AW, B)
EQ('given centre kept', p.center_wavelength_nm, wl)
''')
    for mode, ax in (('simple', ('none', 'none', 'none')), ('BPM', ('mix', 'o', 'o'))):
        chk.prog('results, ' + mode, HEAD + 'ax = %r\n' % (ax,) + RUN + '''
d = dfg_problem(p, q, crystal(%r), disable_SPM=True)
before = run.ysave + 0
res = d.process_stepper_output(run)
v = c/index(p.wl_nm, ax[0])[np.argmax(abs(A))]
for k in (0, 1):
    u = res.get_pump(k)
    EQ('pump', u.AW, shown(k, 0, v))
    EQ('pump centre', u.center_wavelength_nm, wl)
    EQ('pump frequencies', u.W_mks, p.W_mks)
    u = res.get_sgnl(k)
    EQ('signal', u.AW, shown(k, 1, v))
    EQ('signal centre', u.center_wavelength_nm, w2)
    EQ('signal frequencies', u.W_mks, q.W_mks)
    u = res.get_idlr(k)
    EQ('idler', u.AW, shown(k, 2, v))
    EQ('idler centre', 1/u.center_wavelength_nm, 1/wl - 1/w2)
    EQ('position', res.get_z(k), Z[k])
EQ('number of saves', res.n_saves, 2)
EQ('signal after pump', res.get_sgnl(1).AW, shown(1, 1, v))
EQ('pump again', res.get_pump(0).AW, shown(0, 0, v))
EQ('pump centre again', res.pulse.center_wavelength_nm, wl)
EQ('raw output kept', run.ysave, before)
EQ('problem kept', d.pump.AW, A)
EQ('window', res.get_pump(0).time_window_ps, Tw)
EQ('rate', res.get_pump(0).frep_mks, fr*1e6)
''' % mode)
    chk.prog('containers', HEAD + '''
from pynlo.interactions.ThreeWaveMixing.field_classes import ThreeFields, beam_parameters
f = [SYM('f%d' % k, 1, 'cplx', N) for k in range(3)]
g = [SYM('g%d' % k, 1, 'cplx', N) for k in range(3)]
x = ThreeFields(N)
x.set_idlr(f[2]); x.set_pump(f[0]); x.set_sgnl(f[1])
EQ('pump', x.get_pump(), f[0])
EQ('signal', x.get_sgnl(), f[1])
EQ('idler', x.get_idlr(), f[2])
for k in range(3):
    EQ('all', x.get_all()[k], f[k])
y = x.create_copy()
EQ('copy of the pump', y.get_pump(), f[0])
EQ('copy of the signal', y.get_sgnl(), f[1])
EQ('copy of the idler', y.get_idlr(), f[2])
y.set_pump(g[0]); y.set_sgnl(g[1]); y.set_idlr(g[2])
EQ('original kept', x.get_pump(), f[0])
EQ('original signal kept', x.get_sgnl(), f[1])
EQ('original idler kept', x.get_idlr(), f[2])
w = ThreeFields(N)
EQ('new fields are empty', w.get_sgnl(), np.zeros(N))
w.set_all(x.get_all())
w.set_pump(g[0])
EQ('setting all copies', x.get_pump(), f[0])
EQ('others set', w.get_idlr(), f[2])
b = [SYM('b%d' % k, 0, 'pos') for k in range(3)]
o = beam_parameters(b[0], b[1], b[2])
for i in range(3):
    for j in range(3):
        EQ('overlap', o.calculate_overlap(i, j), (b[i] + b[j])/2)
''')
    chk.floor(30)

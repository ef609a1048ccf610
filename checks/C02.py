from .common import PULSE

GRID = '''
def grid(tag, p, Nx, Mx, Tx, f0):
    k = np.arange(-Mx, Mx)
    EQ(tag+': number of points', p.NPTS, Nx)
    EQ(tag+': time grid', p.T_ps, k*Tx/Nx)
    EQ(tag+': time step', p.dT_ps, Tx/Nx)
    EQ(tag+': relative frequency grid', p.V_THz, 2*np.pi*k/Tx)
    EQ(tag+': angular frequency grid', p.W_THz, 2*np.pi*(f0 + k/Tx))
    EQ(tag+': frequency grid', p.F_THz, f0 + k/Tx)
    EQ(tag+': wavelength grid', p.wl_nm, 299792.458/(f0 + k/Tx))
    EQ(tag+': frequency spacing', p.dF_THz, 1/Tx)
    EQ(tag+': spacings are reciprocal', p.dF_mks*p.dT_mks*p.NPTS, 1)
    EQ(tag+': centre point is the centre wavelength', p.wl_nm[Mx], p.center_wavelength_nm)
    EQ(tag+': time zero is the centre point', p.T_ps[Mx], 0)
'''
SRC = PULSE + GRID + '''
c = 299792.458
p = mk(N, Tw, wl, A)
grid('new', p, N, M, Tw, c/wl)
T2 = SYM('T2', 0, 'pos'); wl2 = SYM('wl2', 0, 'pos'); M2 = SYM('M2', 0, 'posint')
q = Pulse(n=N)
q.set_center_wavelength_nm(wl2)
q.set_time_window_ps(T2)
grid('constructor size', q, N, M, T2, c/wl2)
DF = SYM('DF', 0, 'pos')
q.set_frequency_window_THz(DF)
grid('by frequency window', q, N, M, N/DF, c/wl2)
r = p.create_cloned_pulse()
grid('clone', r, N, M, Tw, c/wl)
e = mk(N, Tw, wl, A)
e.expand_time_window(1)
grid('expanded window', e, 2*N, N, 2*Tw, c/wl)
i = p.interpolate_to_new_center_wl(wl2)
grid('interpolated', i, N, M, Tw, c/wl2)
l = Pulse()
l.load_pulse_dict(p.get_pulse_dict())
grid('loaded', l, N, M, Tw, c/wl)
'''
# a label is needed per call, so the helper is expanded per tag
import re

def expand(src):
    """inline calls of the grid() helper so that every obligation has a literal label"""
    body = re.search(r"def grid\(.*?\n((?:    .*\n)+)", src)
    head = src[:body.start()] + src[body.end():]
    out = []
    for line in head.split('\n'):
        m = re.match(r"grid\('([^']*)', (.*)\)$", line)
        if not m:
            out.append(line)
            continue
        tag = m.group(1)
        args = [a.strip() for a in m.group(2).split(', ')]
        b = body.group(1)
        for nm, val in zip(('p', 'Nx', 'Mx', 'Tx', 'f0'), args):
            b = re.sub(r'\b%s\b' % nm, '(%s)' % val, b) if nm != 'p' else re.sub(r'\bp\.', val + '.', b)
        b = b.replace("tag+': ", "'" + tag + ': ')
        out += [x[4:] for x in b.rstrip('\n').split('\n')]
    return '\n'.join(out)

def run(chk):
    chk.prog('grids', expand(SRC))
    sub = PULSE + '''
p = mk(N, Tw, wl, A, fr)
M2 = SYM('M2', 0, 'posint')
w0 = SYM('w0', 0, 'pos')
if 2*M2 < N:
    s = p.create_subset_pulse(w0, 2*M2)
    i = np.argmin(abs(p.wl_nm - w0))
    EQ('subset: size', s.NPTS, 2*M2)
    EQ('subset: frequency spacing kept', s.dF_THz, p.dF_THz)
    EQ('subset: centre is the nearest grid point', s.center_wavelength_nm, p.wl_nm[i])
    EQ('subset: time window kept', s.time_window_ps, Tw)
    EQ('subset: repetition rate kept', s.frep_MHz, fr)
    EQ('subset: field is the matching slice', s.AW, p.AW[i-M2:i+M2])
'''
    chk.prog('subset', sub)
    chk.floor(60)

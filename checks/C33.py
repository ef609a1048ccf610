"""Every way of obtaining a fiber yields a complete one, whatever the instance held before."""
import json
import os
from .C20 import HEAD
from .common import text_files
from sa import check

SETUP = {
    'coefficients': "@.generate_fiber(L, w0, [b2, b3], g, gain=G)",
    'coefficients without gain': "@.generate_fiber(L, w0, [b2, b3], g)",
    'database, coefficients': "@.fiberloader.get_fiber = lambda name: gvd\n@.load_from_db(L, 'a')",
    'database, table': "@.fiberloader.get_fiber = lambda name: tab\n@.load_from_db(L, 'b', poly_order=2)",
    'database, gain spectrum': "@.fiberloader.get_fiber = lambda name: amp\n@.load_from_db(L, 'c', poly_order=2)",
    'file': "@.load_from_file('x.csv', length=L, gamma_W_m=g, gain=0, poly_order=2)",
    'file with gain': "@.load_from_file('x.csv', length=L, gamma_W_m=g, gain=G, poly_order=2)",
    'positions': "@.generate_fiber(L, w0, [b2, b3], g)\n@.set_dispersion_function(lambda z: [z*b2, z*b3])\n@.set_gamma_function(lambda z: z*g)",
}
READS = ["@.length", "@.get_gamma()", "@.get_gamma(z)", "@.get_gain(p)", "@.get_betas(p)", "@.get_betas(p, z)", "@.Beta2(p)", "@.Beta2_to_D(p)"]
DATA = '''
z = SYM('z', 0, 'real')
gvd = {'dispersion_format': 'GVD', 'dispersion_gvd_units': 'ps^n/km', 'dispersion_gvd_center_wavelength': w0,
       'dispersion_data': [b2, b3, b4], 'gamma': g, 'is_gain': False, 'name': 'a'}
tab = {'dispersion_format': 'D', 'dispersion_x_units': 'nm', 'dispersion_y_units': 'ps/nm/km', 'dispersion_x_data': lam,
       'dispersion_y_data': D, 'gamma': g, 'is_gain': False, 'name': 'b'}
amp = {'dispersion_format': 'D', 'dispersion_x_units': 'nm', 'dispersion_y_units': 'ps/nm/km', 'dispersion_x_data': lam,
       'dispersion_y_data': D, 'gamma': g, 'is_gain': True, 'name': 'c', 'gain_x_units': 'm', 'gain_x_data': SYM('gx', 1, 'pos', 9),
       'gain_y_data': SYM('gy', 1, 'real', 9)}
'''

def run(chk):
    for k, op in SETUP.items():
        src = HEAD + DATA + 'a = FiberInstance()\n' + op.replace('@', 'a') + '\n'
        for i, r in enumerate(READS):
            src += 'v%d = %s\n' % (i, r.replace('@', 'a'))
        src += "EQ('length as given', v0, L)\n"
        src += "EQ('fiber answers every query', 1, 1)\n"
        for j, (k2, op2) in enumerate(SETUP.items()):
            src += 'b = FiberInstance()\n' + op2.replace('@', 'b') + '\nb.get_betas(p)\n' + op.replace('@', 'b') + '\n'
            for i, r in enumerate(READS):
                src += "EQ('after %s: %s', %s, v%d)\n" % (k2, r.replace('@.', ''), r.replace('@', 'b'), i)
        chk.prog(k, src, soft=True)
    chk.prog('collection file', HEAD + DATA + '''
import os
import pynlo.media.fibers.JSONFiberLoader as mod
opened = []
class File:
    def __init__(self, path, mode='r', *a, **k):
        opened.append((path, mode))
        self.path = path
    def read(self): return self.path
    def close(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False
class Pickle:
    @staticmethod
    def decode(text):
        return {'first': gvd, 'second': tab, 'text': text}
mod.open = File
mod.jsonpickle = Pickle
x = mod.JSONFiberLoader('mine', 'some/folder')
EQ('one file opened', len(opened), 1)
EQ('file of the collection', opened[0][0], os.path.join('some/folder', 'mine.txt'))
EQ('only read', opened[0][1] in ('r', 'rt'), True)
EQ('its content', x.get_fiber('text'), os.path.join('some/folder', 'mine.txt'))
EQ('fiber by name', x.get_fiber('first')['dispersion_format'], 'GVD')
EQ('other fiber by name', x.get_fiber('second')['dispersion_y_data'], D)
x.print_fiber_list()
EQ('names', sorted(x.fiber_names), ['first', 'second', 'text'])
x.print_fiber_list()
EQ('names asked again', len(x.fiber_names), 3)
try:
    x.get_fiber('third')
    r = False
except Exception:
    r = True
EQ('unknown fiber refused', r, True)
y = mod.JSONFiberLoader()
EQ('collection of the package', opened[1][0], os.path.join(os.path.abspath(os.path.dirname(mod.__file__)), 'general_fibers.txt'))
f = FiberInstance('mine', 'some/folder')
EQ('collection of a fiber', opened[2][0], os.path.join('some/folder', 'mine.txt'))
f.load_from_db(L, 'second', poly_order=2)
EQ('type of a fiber', f.fibertype, 'second')
EQ('nonlinearity from the collection', f.get_gamma(), g)
om = 2*np.pi*c*1e-3*(1/lam - 1/wl)
q = np.polyfit(om, -D*1e-3*lam**2/(2*np.pi*c*1e-3), 2)
EQ('dispersion from the collection', f.get_betas(p), q[2]*V**2/2 + q[1]*V**3/6 + 2*q[0]*V**4/24)
f.load_from_db(L, 'first')
B = f.get_betas(p)
f.load_from_db(2*L, 'first')
EQ('same fiber again', f.get_betas(p), B)
h = FiberInstance('mine', 'some/folder')
h.generate_fiber(L, w0, [b2, b3, b4], g, gvd_units='ps^n/km')
EQ('as if generated', h.get_betas(p), B)
''', soft=True)
    chk.prog('dispersion file', HEAD + '''
from pynlo.media.fibers.calculators import DTabulationToBetas
lam, D = np.genfromtxt('d/x.csv', delimiter=',', unpack=True)
om = 2*np.pi*c*1e-3*(1/lam - 1/wl)                # rad/ps
be = -D*1e-3*lam**2/(2*np.pi*c*1e-3)              # D in ps/(nm m) -> ps^2/m
def betas(order):
    q = np.polyfit(om, be, order)
    r = 0
    f = 1
    for i in range(order + 1):
        f = f*(i + 2) if i else 2
        k = 1
        for j in range(2, i + 1): k = k*j
        r = r + k*q[order - i]*V**(i + 2)/f
    return r
fib.load_from_file('d/x.csv', length=L, gamma_W_m=g, poly_order=2)
EQ('dispersion', fib.get_betas(p), betas(2))
EQ('length', fib.length, L)
EQ('nonlinearity', fib.get_gamma(), g)
EQ('no gain', fib.get_gain(p), np.zeros(N))
EQ('named after the file', fib.fibertype, 'x.csv')
fib.load_from_file('d/x.csv', length=L, gamma_W_m=g, gain=G, fiberName='mine', poly_order=3)
EQ('order of the fit', fib.get_betas(p), betas(3))
EQ('given name', fib.fibertype, 'mine')
EQ('gain', fib.get_gain(p), G*np.ones(N))
fib.load_from_file('d/x.csv')
EQ('default order', fib.get_betas(p), betas(3))
EQ('default length', fib.length, 0.1)
EQ('default nonlinearity', fib.get_gamma(), 0)
x, y = np.genfromtxt('t.csv', delimiter=',', skip_header=1, unpack=True)
om = 2*np.pi*c*1e-3*(1/x - 1/wl)
q = np.polyfit(om, -y*1e-3*x**2/(2*np.pi*c*1e-3), 2)
r = DTabulationToBetas(wl, 't.csv', 2)
EQ('table with a header', r[0], q[2])
EQ('third order of a table with a header', r[1], q[1])
EQ('table said to be a file', DTabulationToBetas(wl, 't.csv', 2, True)[2], 2*q[0])
''', soft=True, ext_overrides=text_files())
    data(chk)
    chk.floor(500)

def data(chk):
    """the fiber collection shipped with the package has every field the loader needs"""
    p = os.path.join(check.REPO, 'src/pynlo/media/fibers/general_fibers.txt')
    rule = 'data completeness'
    try:
        d = json.load(open(p))
    except Exception as e:
        chk.violation('shipped collection: readable', rule, p, repr(e))
        return
    chk.ok('shipped collection: readable', rule)
    need = {'GVD': ('dispersion_gvd_units', 'dispersion_gvd_center_wavelength', 'dispersion_data'),
            'D': ('dispersion_x_units', 'dispersion_y_units', 'dispersion_x_data', 'dispersion_y_data')}
    for k, v in d.items():
        f = v.get('dispersion_format')
        miss = [x for x in ('gamma', 'is_gain') + need.get(f, ()) if x not in v]
        if v.get('is_gain'):
            miss += [x for x in ('gain_x_data',) if x not in v]
        chk.expect(f in need and not miss, 'shipped fiber %s: complete' % k, rule, 'general_fibers.txt:%s' % k, 'format %r, missing %s' % (f, miss))
        if f == 'GVD':
            chk.expect(v.get('dispersion_gvd_units') in ('ps^n/km', 'ps^n/m'), 'shipped fiber %s: units' % k, rule,
                       'general_fibers.txt:%s' % k, 'unit %r is not one the loader converts' % v.get('dispersion_gvd_units'))
        elif f == 'D':
            chk.expect(len(v.get('dispersion_x_data', ())) == len(v.get('dispersion_y_data', ())), 'shipped fiber %s: table' % k, rule,
                       'general_fibers.txt:%s' % k, 'wavelength and D columns differ in length')

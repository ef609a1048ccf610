"""Mixing runs written to a file are the runs read back."""

# an in-memory stand-in for the part of PyTables that is used
TABLES = '''
import numpy as np
import pynlo.interactions.ThreeWaveMixing.multi_run_rw as rw
c = 299792458.0
class NodeError(Exception):
    pass
class NoSuchNodeError(NodeError):
    pass
class Leaf:
    def __init__(self, data):
        self.data = data
        self.shape = data.shape
        self.dtype = data.dtype
    def __getitem__(self, k):
        return self.data[k]
    def __setitem__(self, k, v):
        self.data[k] = v
    def __len__(self):
        return len(self.data)
    def read(self):
        return self.data + 0
class Group:
    def __init__(self, path):
        self.kids = {}
        self._v_children = self.kids
        self._v_pathname = path
        self._v_name = path.split('/')[-1]
    def _f_get_child(self, name):
        if name not in self.kids:
            raise NoSuchNodeError(name)
        return self.kids[name]
    def _f_list_nodes(self, classname=None):
        return list(self.kids.values())
    def _f_iter_nodes(self, classname=None):
        return list(self.kids.values())
    def __contains__(self, name):
        return name in self.kids
class Disk:
    pass
disk = Disk()
disk.roots = {}
class File:
    def __init__(self, name, mode):
        self.name = name
        if mode == 'w' or name not in disk.roots:
            if mode == 'r':
                raise IOError(name)
            disk.roots[name] = Group('/')
        self.root = disk.roots[name]
        self.writable = mode != 'r'
    def find(self, where):
        if not isinstance(where, str):
            return where
        g = self.root
        for part in where.split('/'):
            if part != '':
                if part not in g.kids:
                    raise NoSuchNodeError(where)
                g = g.kids[part]
        return g
    def put(self, where, name, node):
        g = self.find(where)
        if name in g.kids or not self.writable:
            raise NodeError(name)
        g.kids[name] = node
        return node
    def create_group(self, where, name, title='', filters=None, createparents=False):
        return self.put(where, name, Group(self.find(where)._v_pathname + '/' + name))
    def create_carray(self, where, name, atom=None, shape=None, title='', filters=None, chunkshape=None, byteorder=None, createparents=False, obj=None):
        x = np.zeros(shape, dtype=atom.dtype) if obj is None else obj + 0
        return self.put(where, name, Leaf(x))
    def create_array(self, where, name, obj=None, title='', byteorder=None, createparents=False):
        return self.put(where, name, Leaf(obj + 0))
    def get_node(self, where, name=None, classname=None):
        g = self.find(where)
        if name is not None:
            g = g._f_get_child(name)
        return g
    def __contains__(self, path):
        try:
            self.find(path)
        except NoSuchNodeError:
            return False
        return True
    def list_nodes(self, where, classname=None):
        return list(self.find(where).kids.values())
    def iter_nodes(self, where, classname=None):
        return self.list_nodes(where)
    def remove_node(self, where, name=None, recursive=False):
        g = self.find(where)
        if name not in g.kids or not self.writable:
            raise NodeError(name)
        del g.kids[name]
    def flush(self):
        pass
    def close(self):
        pass
class Atom:
    def from_dtype(dtype, dflt=None):
        a = Atom()
        a.dtype = dtype
        return a
def Float64Atom():
    return Atom.from_dtype(np.dtype(float))
def ComplexAtom(itemsize):
    return Atom.from_dtype(np.dtype(complex))
class Tables:
    pass
T = Tables()
T.open_file = File
T.NodeError = NodeError
T.NoSuchNodeError = NoSuchNodeError
T.Atom = Atom
T.Float64Atom = Float64Atom
T.ComplexAtom = ComplexAtom
T.Complex128Atom = lambda: ComplexAtom(16)
rw.tables = T
'''

RUNS = TABLES + '''
from pynlo.light.PulseBase import Pulse
M = SYM('M', 0, 'posint')
N = 2*M
fr = SYM('fr', 0, 'pos')
wl = [SYM('wp', 0, 'pos'), SYM('ws', 0, 'pos'), SYM('wi', 0, 'pos')]
Tw = [SYM('Tp', 0, 'pos'), SYM('Ts', 0, 'pos'), SYM('Ti', 0, 'pos')]
class Problem:
    pass
def mk(k):
    p = Pulse(frep_MHz=fr, n=N)
    p.set_center_wavelength_nm(wl[k])
    p.set_time_window_ps(Tw[k])
    return p
d = Problem()
d.pump, d.sgnl, d.idlr = mk(0), mk(1), mk(2)
class Out:
    pass
class Solver:
    pass
def solved(rows, spare):
    o = Solver()
    o.nvar = 3*N
    o.out = Out()
    o.out.count = len(rows)
    o.out.nsave = len(rows) - 1
    o.out.ysave = np.zeros((len(rows) + spare, 3*N), dtype=complex)
    o.out.xsave = np.zeros(len(rows) + spare)
    for k in range(len(rows)):
        o.out.ysave[k, :] = rows[k]
    return o
Y = [[SYM('Y00', 1, 'cplx', 3*N), SYM('Y01', 1, 'cplx', 3*N)],
     [SYM('Y10', 1, 'cplx', 3*N), SYM('Y11', 1, 'cplx', 3*N), SYM('Y12', 1, 'cplx', 3*N)]]
a = [SYM('a0', 0, 'real'), SYM('a1', 0, 'real')]
runs = [solved(Y[0], 3), solved(Y[1], 0)]
'''


def guarded(src):
    return 'try:\n' + ''.join('    %s\n' % l for l in src.strip().split('\n')) + '''
except NodeError:
    HOLDS('every node read was written and none is written twice', False)
else:
    HOLDS('every node read was written and none is written twice', True)
'''


def run(chk):
    chk.prog('round trip', RUNS + guarded('''
w = rw.DFGWriter('f.h5', 'par')
w.add_run(d, runs[0], a[0])
w.add_run(d, runs[1], a[1])
MARK('written')
g = rw.DFGReader('f.h5', 'par')
EQ('number of runs', g.run_ctr, 2)
for j in (0, 1):
    EQ('parameter', g.get_run_param(j), a[j])
    for k in range(len(Y[j])):
        t = g.get_run(j, k)
        EQ('three pulses', len(t), 3)
        for m in (0, 1, 2):
            EQ('field', t[m].AW, Y[j][k][m*N:(m + 1)*N])
            EQ('points', t[m].NPTS, N)
            EQ('centre', t[m].center_wavelength_nm, wl[m])
            EQ('window', t[m].time_window_ps, Tw[m])
            EQ('rate', t[m].frep_mks, fr*1e6)
            EQ('frequencies', t[m].W_mks, mk(m).W_mks)
EQ('last parameter', g.get_run_param(), a[1])
t = g.get_run()
for m in (0, 1, 2):
    EQ('last step of the last run', t[m].AW, Y[1][2][m*N:(m + 1)*N])
t = g.get_run(0)
for m in (0, 1, 2):
    EQ('last step of a run', t[m].AW, Y[0][1][m*N:(m + 1)*N])
t = g.get_run(z_num=1)
for m in (0, 1, 2):
    EQ('a step of the last run', t[m].AW, Y[1][1][m*N:(m + 1)*N])
EQ('output kept', runs[0].out.ysave[1], Y[0][1])
EQ('pulses read are separate', SHARES(g.get_run(0, 0)[0], g.get_run(0, 0)[0]), False)
'''), explore_handlers=False)
    chk.prog('one after the other', RUNS + guarded('''
w = rw.DFGWriter('f.h5', 'par')
w.add_run(d, runs[0], a[0])
w.add_run(d, runs[1], a[1])
g = rw.DFGReader('f.h5', 'par')
t = g.get_next_run(0)
for m in (0, 1, 2):
    EQ('first', t[m].AW, Y[0][0][m*N:(m + 1)*N])
g.get_run(1)
g.get_run_param()
t = g.get_next_run()
for m in (0, 1, 2):
    EQ('second', t[m].AW, Y[1][2][m*N:(m + 1)*N])
HOLDS('then no more', g.get_next_run() is None)
HOLDS('still no more', g.get_next_run() is None)
h = rw.DFGReader('f.h5', 'par')
t = h.get_next_run(1)
for m in (0, 1, 2):
    EQ('another reader starts at the first', t[m].AW, Y[0][1][m*N:(m + 1)*N])
'''), explore_handlers=False)
    chk.prog('several groups', RUNS + guarded('''
w = rw.DFGWriter('f.h5', 'one')
v = rw.DFGWriter('f.h5', 'two')
w.add_run(d, runs[0], a[0])
w.add_run(d, runs[1], a[1])
v.add_run(d, runs[1], a[1])
u = rw.DFGWriter('other.h5', 'one')
u.add_run(d, runs[1], 7.5)
g, h, k = rw.DFGReader('f.h5', 'one'), rw.DFGReader('f.h5', 'two'), rw.DFGReader('other.h5', 'one')
EQ('runs of the first', g.run_ctr, 2)
EQ('runs of the second', h.run_ctr, 1)
EQ('runs of the other file', k.run_ctr, 1)
EQ('field of the first', g.get_run(0, 0)[1].AW, Y[0][0][N:2*N])
EQ('field of the second', h.get_run(0, 0)[1].AW, Y[1][0][N:2*N])
EQ('parameter of the first', g.get_run_param(0), a[0])
EQ('parameter of the second', h.get_run_param(0), a[1])
EQ('parameter of the other file', k.get_run_param(), 7.5)
w = rw.DFGWriter('f.h5', 'one')
w.add_run(d, runs[1], 3.0)
g = rw.DFGReader('f.h5', 'one')
EQ('a new series replaces the old', g.run_ctr, 1)
EQ('its field', g.get_run(0, 2)[2].AW, Y[1][2][2*N:3*N])
EQ('its parameter', g.get_run_param(), 3.0)
EQ('the other series stays', rw.DFGReader('f.h5', 'two').get_run(0, 0)[0].AW, Y[1][0][0:N])
'''), explore_handlers=False)
    chk.prog('bad run numbers', RUNS + guarded('''
w = rw.DFGWriter('f.h5', 'par')
w.add_run(d, runs[0], a[0])
w.add_run(d, runs[1], a[1])
g = rw.DFGReader('f.h5', 'par')
def refused(f, n):
    try:
        f(n)
    except IndexError:
        return True
    return False
for n in (-1, 2, 3, -2):
    HOLDS('no such run', refused(g.get_run, n))
    HOLDS('no such parameter', refused(g.get_run_param, n))
for n in (0, 1):
    HOLDS('run exists', not refused(g.get_run, n))
    HOLDS('parameter exists', not refused(g.get_run_param, n))
'''), explore_handlers=False)
    chk.floor(40)

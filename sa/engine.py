"""Abstract interpreter: parses the repository's source and builds, for every
observable of a client program, the value graph of what the source computes on
all inputs at once.  It never imports, executes or enumerates paths of the
repository; branches become gated (phi) nodes, loops become mu nodes.
"""
import ast
import os
import warnings
from .core import *
from . import core
from .values import *
from . import arrays
from .arrays import getitem, setitem, where, cmp_, shape_of, length_of, bcast

STDLIB_OK = None


HARNESS = ('UF', 'SYM', 'observe', 'STORED', 'EQ', 'HOLDS', 'MARK', 'VALUE', 'SHARES', 'RENAME')


class PyRaise(Exception):
    """the current abstract path definitely raises"""


class Unsupported(Exception):
    pass


class State(object):
    __slots__ = ('store', 'pc')

    def __init__(self, store=None, pc=()):
        self.store = store if store is not None else {}
        self.pc = pc

    def copy(self):
        return State(dict(self.store), self.pc)

    def take(self, o):
        self.store, self.pc = o.store, o.pc


class Raise(object):
    __slots__ = ('st', 'exc', 'site', 'cond', 'implicit', 'via')

    def __init__(self, st, exc, site, implicit=False):
        self.st, self.exc, self.site, self.implicit = st, exc, site, implicit
        self.via = []


class Frame(object):
    __slots__ = ('fid', 'module', 'cls', 'parent', 'raises', 'globals', 'nonlocals', 'qual', 'captured', 'fn', 'iscls', 'localnames')

    def __init__(self, fid, module, cls=None, parent=None, qual='', fn=None):
        self.fid, self.module, self.cls, self.parent, self.qual, self.fn = fid, module, cls, parent, qual, fn
        self.raises = []
        self.globals = set()
        self.nonlocals = set()
        self.captured = False
        self.iscls = False
        self.localnames = None


class Out(object):
    __slots__ = ('normal', 'rets', 'brks', 'conts')

    def __init__(self, normal):
        self.normal = normal
        self.rets, self.brks, self.conts = [], [], []


_ind_hook = [None]


class Loop(object):
    __slots__ = ('lid', 'kind', 'cond', 'iter', 'keys', 'site', 'body_pc', 'node', 'brk', 'qual', 'exit_raises', 'end', 'header', 'conts')

    def __init__(self, lid, kind, site, qual):
        self.lid, self.kind, self.site, self.qual = lid, kind, site, qual
        self.keys = {}
        self.cond = None
        self.iter = None


def mangle(name, cls):
    if cls and name.startswith('__') and not name.endswith('__'):
        return '_' + cls.lstrip('_') + name
    return name


class Engine(object):
    def __init__(self, repo='/repo', config=None):
        self.repo = repo
        self.src = os.path.join(repo, 'src')
        self.config = dict(config or {})
        self.modules = {}          # name -> (path, tree)
        self.modstate = {}         # name -> 'loading' / 'done'
        self.nid = 0
        self.events = []
        self.visited = set()       # functions interpreted
        self.calls = 0
        self.callsites = set()
        self.branches = set()
        self.extnames = {}
        self.exc_classes = {}      # classes of exception objects, by name
        self.loops = {}
        self.stack = []
        self.site_stack = []
        self.cur = None            # current ast node
        self.lococc = {}           # loc -> (phase, qual)
        self.phase = 'import'
        self.raises_log = []
        self.fn_attrs = set()
        self.overrides = {}        # qualname -> callable(eng, st, fr, args, kw)
        self.max_unroll = 70
        self.sources = {}          # extra modules: name -> source text
        self.ext_overrides = {}    # external dotted name -> callable(eng, args, kw, st, fr)
        self.observed = []
        self.trace = None
        from . import models
        self.models = models
        self.st = State()
        self.fcounter = 0
        self.lamdepth = 0

    # ------------------------------------------------------------- helpers
    def fresh(self):
        self.nid += 1
        return self.nid

    def site(self):
        q = self.stack[-1].qual if self.stack else '<top>'
        line = getattr(self.cur, 'lineno', 0)
        m = self.stack[-1].module if self.stack else '?'
        return (m, q, line)

    def event(self, kind, *data):
        self.events.append((kind, self.site(), tuple(f.qual for f in self.stack)) + data)

    def new_arr(self, st, node, dtype=None):
        loc = self.fresh()
        if dtype is not None:
            node = self.coerce(node, dtype)
            st.store[('t', loc)] = dtype
        st.store[('h', loc)] = node
        self.lococc[loc] = (self.phase, self.site())
        return Arr(loc)

    def new_list(self, st, items):
        loc = self.fresh()
        st.store[('l', loc)] = items if isinstance(items, SymList) else tuple(items)
        self.lococc[loc] = (self.phase, self.site())
        return ListV(loc)

    def new_set(self, st, items):
        loc = self.fresh()
        st.store[('l', loc)] = items if isinstance(items, SymList) else tuple(items)
        self.lococc[loc] = (self.phase, self.site())
        return SetV(loc)

    def new_dict(self, st, items):
        loc = self.fresh()
        st.store[('d', loc)] = tuple(items)
        self.lococc[loc] = (self.phase, self.site())
        return DictV(loc)

    def wrap(self, st, n):
        """Node -> Value (immutable scalar or fresh array cell)"""
        if not isinstance(n, Node):
            return n
        if n.rank == 0 or n.op in ('none', 'str', 'bool', 'num', 'undefvar'):
            if n.op == 'tuple':
                return TupV([self.wrap(st, a) for a in n.args])
            return n
        if n.op in ('phi',) and n.args[1].op in ('none',) or n.op == 'phi' and n.args[2].op == 'none':
            return PV(n.args[0], self.wrap(st, n.args[1]), self.wrap(st, n.args[2]))
        return self.new_arr(st, n)

    def read_arr(self, st, a):
        n = st.store[('h', a.loc)]
        for i in a.path:
            n = self.part(n, i)
        return n

    def real_array(self, st, a):
        if a.path and a.path[-1].op == 'str':
            return True
        dt = st.store.get(('t', a.loc))
        if isinstance(dt, str):
            return not dt.startswith('complex')
        return arrays.is_real(self.read_arr(st, a))

    def part(self, n, i):
        if i.op == 'str':
            return self.models.mk_real(n) if i.attr == '.real' else self.models.mk_imag(n)
        return getitem(n, i)

    def coerce(self, v, dtype):
        if dtype in ('float64', 'float32'):
            return v if arrays.is_real(v) and dtype == 'float64' else mk('cast', v, attr=dtype)
        if dtype == 'complex64':
            return v if isnum(v) else mk('cast', v, attr='complex64')
        if dtype in ('int', 'bool'):
            if dtype == 'int' and self.models.is_integer(v):
                return v
            if dtype == 'bool' and arrays.is_boolean(v):
                return v
            return mk('cast', v, attr=dtype)
        return v

    def write_arr(self, st, a, idx, v):
        """functional update of the cell behind reference a at index idx (None = whole)"""
        k = ('h', a.loc)
        dt = st.store.get(('t', a.loc))
        if dt is not None and isinstance(dt, str):
            v = self.coerce(v, dt)
        def upd(content, path):
            if not path:
                return setitem(content, idx, v) if idx is not None else bcast(v, content)
            subn = self.part(content, path[0])
            new = upd(subn, path[1:])
            if path[0].op == 'str':
                # the real or imaginary part of a complex array, written through
                new = self.models.mk_real(new) if not arrays.is_real(new) else new
                re, im = (new, self.models.mk_imag(content)) if path[0].attr == '.real' else (self.models.mk_real(content), new)
                return add(re, mul(core.cnum(0, 1), im))
            return setitem(content, path[0], new)
        st.store[k] = upd(st.store[k], a.path)

    def node(self, v, st):
        """Value -> Node"""
        if isinstance(v, Node):
            return v
        if isinstance(v, Arr):
            return self.read_arr(st, v)
        if isinstance(v, TupV):
            return tup([self.node(x, st) for x in v.items])
        if isinstance(v, (ListV, SetV)):
            c = st.store[('l', v.loc)]
            if isinstance(c, SymList):
                return c.node
            return mk('list', *[self.node(x, st) for x in c], rank=self._list_rank(c, st))
        if isinstance(v, DictV):
            c = st.store[('d', v.loc)]
            return mk('dict', *[tup([k, self.node(x, st)]) for k, x in c], rank=0)
        if isinstance(v, PV):
            return phi(v.c, self.node(v.a, st), self.node(v.b, st))
        if isinstance(v, Undef):
            return undefvar()
        if isinstance(v, Ext):
            return self.models.ext_node(v.name)
        if isinstance(v, Obj):
            return mk('obj', attr=v.oid)
        if isinstance(v, SymList):
            return v.node
        if isinstance(v, (Fn, BM)):
            return self.lam_node(v, st)
        if isinstance(v, Cls):
            return mk('ext', attr='class:' + v.qual)
        if isinstance(v, XObj):
            return mk('ext', attr='x:%s:%s' % (v.kind, hash(v.data) if False else id(v.data)))
        if isinstance(v, XM):
            return mk('boundm', self.node(v.self, st), attr=v.name, rank=0)
        if isinstance(v, ModV):
            return mk('ext', attr='module:' + v.name)
        return mk('ext', attr='value:%s' % type(v).__name__)

    def _list_rank(self, c, st):
        if not c:
            return 1
        r = 0
        for x in c:
            n = self.node(x, st)
            if n.rank is None:
                return None
            r = max(r, n.rank)
        return r + 1

    def lam_node(self, v, st):
        """abstract a function value into a lambda node over bound symbols"""
        fn = v.fn if isinstance(v, BM) else v
        if isinstance(fn, Fn):
            a = fn.node.args
            names = [x.arg for x in a.args]
            if isinstance(v, BM):
                names = names[1:]
            nreq = len(names) - len(fn.defaults)
            names = names[:max(nreq, 0)]
            if self.lamdepth > 4:
                return mk('fn', attr=fn.qual)
            self.lamdepth += 1
            try:
                syms = [mk('bv', attr='L%d_%d' % (self.lamdepth, i)) for i in range(len(names))]
                st2 = st.copy()
                fr = Frame(-1, fn.module, qual=fn.qual)
                try:
                    r = self.call(v, list(syms), {}, st2, fr)
                    body = self.node(r, st2)
                except (PyRaise, Unsupported):
                    return mk('fn', attr=fn.qual)
                return mk('lam', body, attr=tuple(s.attr for s in syms), rank=0)
            finally:
                self.lamdepth -= 1
        return mk('fn', attr=getattr(fn, 'qual', repr(fn)))

    # ------------------------------------------------------------- modules
    def find_module(self, name):
        p = os.path.join(self.src, *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py'), True
        if os.path.isfile(p + '.py'):
            return p + '.py', False
        return None, False

    def is_internal(self, name):
        return name in self.sources or name.split('.')[0] in ('pynlo',)

    def load_module(self, name, st):
        """returns ModV or None"""
        if name in self.modstate:
            return ModV(name)
        if name in self.sources:
            text, path, ispkg = self.sources[name], '<harness:%s>' % name, False
        else:
            path, ispkg = self.find_module(name)
            if path is None:
                return None
            if ispkg and not os.path.exists(path):
                text = ''
            else:
                with open(path, 'rb') as f:
                    raw = f.read()
                text = raw.decode('utf-8', 'replace') if b'coding: latin1' not in raw[:60] else raw.decode('latin1')
                if text.startswith('\ufeff'):
                    text = text[1:]
                text = _strip_coding(text)
        if '.' in name:
            self.load_module(name.rsplit('.', 1)[0], st)
        self.modstate[name] = 'loading'
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = ast.parse(text)
        self.modules[name] = (path, tree, ispkg)
        fr = Frame(('m', name), name, qual='<module>')
        fr.globals = None
        st.store[('g', name, '__name__')] = S(name)
        st.store[('g', name, '__file__')] = S(path)
        self.stack.append(fr)
        save = self.cur
        try:
            for s in tree.body:
                try:
                    out = self.exec_block([s], st, fr)
                    if out.normal is None:
                        lr = getattr(self, 'last_raise', None)
                        self.event('module_raises' if lr is not None and not lr.implicit and (lr.site[0] != name or lr.via) else 'module_aborts', name)
                        break
                    st.take(out.normal)
                except PyRaise:
                    self.event('module_raises', name)
                    break
        finally:
            self.stack.pop()
            self.cur = save
        self.modstate[name] = 'done'
        if '.' in name:
            par, leaf = name.rsplit('.', 1)
            st.store[('g', par, leaf)] = ModV(name)
        return ModV(name)

    def ext_importable(self, name):
        root = name.split('.')[0]
        if root == 'pyfftw':
            return self.config.get('pyfftw', True)
        import sys
        if root in sys.stdlib_module_names:
            return True
        return root in ('numpy', 'scipy', 'matplotlib', 'tables', 'jsonpickle', 'pyfftw', 'mpl_toolkits')

    def do_import(self, st, fr, name):
        """import dotted module; returns value of the module or raises"""
        if self.is_internal(name):
            m = self.load_module(name, st)
            if m is None:
                self.event('import_unresolved', name)
                self.raise_(st, fr, S('ImportError'), True)
            return m
        if not self.ext_importable(name):
            self.event('import_unresolved', name)
            self.raise_(st, fr, S('ImportError'), True)
        self.extnames.setdefault(name, set()).add(self.site())
        return Ext(name)

    def raise_(self, st, fr, exc, implicit=False):
        r = Raise(st.copy(), exc, self.site(), implicit)
        r.cond = st.pc
        r.via = [(f.module, f.qual) for f in self.stack if f.module not in self.sources]
        self.last_raise = r
        fr.raises.append(r)
        raise PyRaise()

    # ----------------------------------------------------------- conditions
    def truth(self, v, st):
        if isinstance(v, Node):
            if v.op == 'bool':
                return v
            if v.op == 'num':
                return boolean(not (v.attr[0] == 0 and v.attr[1] == 0))
            if v.op == 'none':
                return FALSE
            if v.op == 'str':
                return boolean(bool(v.attr))
            if v.op in arrays.BOOLOPS:
                return v
            if v.op == 'phi':
                return phi(v.args[0], self.truth(v.args[1], st), self.truth(v.args[2], st))
            if v.op == 'const':
                return TRUE
            if v.op == 'sym' and v.attr[2] in ('pos', 'posint'):
                return TRUE
            if v.op == 'sym' and v.attr[2] == 'bool':
                return v
            if arrays.kind_of(v) == 'n' and v.rank == 0 and not arrays.is_boolean(v):
                if arrays.is_pos(v):
                    return TRUE
                return lnot(cmp_('eq', v, ZERO))
            if v.op == 'undefvar':
                return mk('truth', v)
            if arrays.is_boolean(v):
                return v
            return mk('truth', v)
        if isinstance(v, (TupV,)):
            return boolean(len(v.items) > 0)
        if isinstance(v, (ListV, SetV)):
            c = st.store[('l', v.loc)]
            return mk('truth', c.node) if isinstance(c, SymList) else boolean(len(c) > 0)
        if isinstance(v, DictV):
            return boolean(len(st.store[('d', v.loc)]) > 0)
        if isinstance(v, PV):
            return phi(v.c, self.truth(v.a, st), self.truth(v.b, st))
        if isinstance(v, Arr):
            n = self.read_arr(st, v)
            return self.truth(n, st)
        return TRUE

    def decide(self, c, st):
        """True/False if the condition is implied on this path, else None"""
        if c.op == 'bool':
            return c.attr
        return self._dec(c, self._facts(st))

    def _facts(self, st):
        f = {}
        for c, p in st.pc:
            self._addfact(f, c, p)
        return f

    def _addfact(self, f, c, p):
        if c.op == 'not':
            return self._addfact(f, c.args[0], not p)
        f[c] = p
        if c.op == 'and' and p:
            for a in c.args:
                self._addfact(f, a, True)
        if c.op == 'or' and not p:
            for a in c.args:
                self._addfact(f, a, False)

    def _dec(self, c, f):
        if c.op == 'bool':
            return c.attr
        if c in f:
            return f[c]
        if c.op == 'not':
            r = self._dec(c.args[0], f)
            return None if r is None else not r
        if c.op == 'and':
            a, b = self._dec(c.args[0], f), self._dec(c.args[1], f)
            if a is False or b is False:
                return False
            if a and b:
                return True
            return None
        if c.op == 'or':
            a, b = self._dec(c.args[0], f), self._dec(c.args[1], f)
            if a or b:
                return True
            if a is False and b is False:
                return False
            return None
        if c.op == 'phi':
            g = self._dec(c.args[0], f)
            if g is not None:
                return self._dec(c.args[1] if g else c.args[2], f)
        if c.op == 'lt':
            # lt(a,b) false if lt(b,a) known
            r = f.get(mk('lt', c.args[1], c.args[0]))
            if r:
                return False
            e = f.get(cmp_('eq', c.args[0], c.args[1]))
            if e:
                return False
        return None

    # ------------------------------------------------------------- merging
    def merge_val(self, c, a, b, sa, sb, st):
        if a is b or same(a, b):
            return a
        if isinstance(a, str) and a == b:
            return a
        if isinstance(a, Node) and isinstance(b, Node):
            return phi(c, a, b)
        if isinstance(a, TupV) and isinstance(b, TupV) and len(a.items) == len(b.items):
            return TupV([self.merge_val(c, x, y, sa, sb, st) for x, y in zip(a.items, b.items)])
        if isinstance(a, tuple) and isinstance(b, tuple):
            return None
        if isinstance(a, PV) and a.c is c:
            a = a.a
        if isinstance(b, PV) and b.c is c:
            b = b.b
        if same(a, b):
            return a
        if c.op == 'not':
            return PV(c.args[0], b, a)
        return PV(c, a, b)

    def merge(self, c, sa, sb, pc):
        """join two states under condition c"""
        if sa is None:
            return sb
        if sb is None:
            return sa
        if c.op == 'bool':
            r = sa if c.attr else sb
            return State(r.store, pc)
        A, B = sa.store, sb.store
        out = State({}, pc)
        S_ = dict(A)
        out.store = S_
        for k, vb in B.items():
            va = A.get(k, UNDEF)
            if va is vb:
                continue
            if va is UNDEF:
                if k[0] in ('v', 'g', 'c', 'f'):
                    S_[k] = PV(c, UNDEF, vb) if c.op != 'not' else PV(c.args[0], vb, UNDEF)
                else:
                    S_[k] = vb
                continue
            if k[0] == 'l':
                S_[k] = self.merge_list(c, va, vb, sa, sb, out)
            elif k[0] == 'd':
                S_[k] = self.merge_dict(c, va, vb, sa, sb, out)
            else:
                S_[k] = self.merge_val(c, va, vb, sa, sb, out)
        for k, va in A.items():
            if k not in B and k[0] in ('v', 'g', 'c', 'f'):
                S_[k] = PV(c, va, UNDEF) if c.op != 'not' else PV(c.args[0], UNDEF, va)
        return out

    def merge_list(self, c, a, b, sa, sb, out):
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) == len(b):
                return tuple(self.merge_val(c, x, y, sa, sb, out) for x, y in zip(a, b))
        na = a.node if isinstance(a, SymList) else mk('list', *[self.node(x, sa) for x in a], rank=None)
        nb = b.node if isinstance(b, SymList) else mk('list', *[self.node(x, sb) for x in b], rank=None)
        return SymList(phi(c, na, nb))

    def merge_dict(self, c, a, b, sa, sb, out):
        ka, kb = [k for k, _ in a], [k for k, _ in b]
        da, db = dict(a), dict(b)
        res = []
        for k in ka:
            if k in db:
                res.append((k, self.merge_val(c, da[k], db[k], sa, sb, out)))
            else:
                res.append((k, PV(c, da[k], UNDEF)))
        for k in kb:
            if k not in da:
                res.append((k, PV(c, UNDEF, db[k])))
        return tuple(res)

    def residual(self, st, base):
        r = st.pc[len(base):]
        c = TRUE
        for n, p in r:
            c = land(c, n if p else lnot(n))
        return c

    def merge_many(self, items, base):
        """items: list of (State, Value or None); returns (State, Value)"""
        if not items:
            return None, None
        if len(items) == 1:
            return items[0]
        # structured tree merge on the first differing condition
        st0 = items[0][0]
        cond = self.residual(st0, base)
        rest_st, rest_v = self.merge_many(items[1:], base)
        m = self.merge(cond, st0, rest_st, base)
        v0 = items[0][1]
        if v0 is None and rest_v is None:
            v = None
        else:
            v = self.merge_val(cond, v0, rest_v, st0, rest_st, m)
        return m, v

    # ---------------------------------------------------------- statements
    def exec_block(self, stmts, st, fr):
        out = Out(st)
        for s in stmts:
            if out.normal is None:
                break
            st = out.normal
            save = self.cur
            self.cur = s
            try:
                o = self.exec_stmt(s, st, fr)
            except PyRaise:
                o = Out(None)
            self.cur = save
            out.normal = o.normal
            out.rets += o.rets
            out.brks += o.brks
            out.conts += o.conts
        return out

    def exec_stmt(self, s, st, fr):
        intime()
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.event('unsupported', type(s).__name__)
            return Out(st)
        return m(s, st, fr)

    def s_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return Out(st)
        self.ev(s.value, st, fr)
        return Out(st)

    def s_Pass(self, s, st, fr):
        return Out(st)

    def s_Global(self, s, st, fr):
        if fr.globals is not None:
            fr.globals.update(s.names)
        return Out(st)

    def s_Nonlocal(self, s, st, fr):
        fr.nonlocals.update(s.names)
        return Out(st)

    def s_Assign(self, s, st, fr):
        v = self.ev(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr)
        return Out(st)

    def s_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, fr), st, fr)
        return Out(st)

    def s_AugAssign(self, s, st, fr):
        t = s.target
        opname = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, st, fr)
            rhs = self.ev(s.value, st, fr)
            r = self.aug(cur, opname, rhs, st, fr)
            if r is not None:
                self.store_name(t.id, r, st, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st, fr)
            name = mangle(t.attr, fr.cls)
            cur = self.getattr(o, name, st, fr)
            rhs = self.ev(s.value, st, fr)
            r = self.aug(cur, opname, rhs, st, fr)
            if r is not None:
                self.setattr(o, name, r, st, fr)
            elif isinstance(self.class_member_kind(o, name, st), PropV):
                self.setattr(o, name, cur, st, fr)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st, fr)
            ix = self.ev_index(t.slice, st, fr)
            cur = self.subscript(o, ix, st, fr)
            rhs = self.ev(s.value, st, fr)
            if isinstance(cur, (ListV, DictV)):
                r = self.aug(cur, opname, rhs, st, fr)
                if r is not None:
                    self.setsub(o, ix, r, st, fr)
            else:
                r = self.binop(opname, self.node(cur, st), self.node(rhs, st), st)
                self.setsub(o, ix, r, st, fr)
        return Out(st)

    def aug(self, cur, opname, rhs, st, fr):
        """in-place when the target is mutable; returns value to rebind or None"""
        if isinstance(cur, ListV):
            if opname == 'Add':
                a = st.store[('l', cur.loc)]
                b = self.iter_items(rhs, st)
                if b is not None and not isinstance(a, SymList):
                    st.store[('l', cur.loc)] = a + tuple(b)
                else:
                    st.store[('l', cur.loc)] = SymList(mk('extend', self.node(cur, st), self.node(rhs, st), rank=None))
                return cur
        if isinstance(cur, Arr):
            n = self.read_arr(st, cur)
            r = self.binop(opname, n, self.node(rhs, st), st)
            rn = self.node(r, st)
            if n.rank is not None and n.rank >= 1:
                self.write_arr(st, cur, None, rn)
                return cur
            if n.rank is None:
                self.event('maybe_inplace', cur.loc)
                st.store[('h', cur.loc)] if False else None
            return self.wrap(st, rn)
        if isinstance(cur, PV):
            la, lb = cur.a, cur.b
            ra = self.aug_under(cur.c, True, la, opname, rhs, st, fr)
            rb = self.aug_under(cur.c, False, lb, opname, rhs, st, fr)
            return self.merge_val(cur.c, ra, rb, st, st, st)
        return self.binop_v(opname, cur, rhs, st, fr)

    def aug_under(self, c, pol, cur, opname, rhs, st, fr):
        if isinstance(cur, Undef):
            return cur
        if isinstance(cur, Arr):
            n = self.read_arr(st, cur)
            rn = self.node(self.binop(opname, n, self.node(rhs, st), st), st)
            if n.rank is not None and n.rank >= 1:
                new = phi(c, rn, n) if pol else phi(c, n, rn)
                self.write_arr(st, cur, None, new)
                return cur
            return self.wrap(st, rn)
        return self.binop_v(opname, cur, rhs, st, fr)

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, st, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st, fr)
            self.setattr(o, mangle(t.attr, fr.cls), v, st, fr)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st, fr)
            ix = self.ev_index(t.slice, st, fr)
            if isinstance(o, Ext):
                self.event('effect', 'setting', o.name + '[]')
            self.setsub(o, ix, v, st, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, st, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr)
        else:
            self.event('unsupported', 'assign:' + type(t).__name__)

    def unpack(self, elts, v, st, fr):
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        items = self.iter_items(v, st)
        if isinstance(v, PV) and items is None:
            ia, ib = self.iter_items(v.a, st), self.iter_items(v.b, st)
            if ia is not None and ib is not None and len(ia) == len(ib) == n:
                items = [self.merge_val(v.c, x, y, st, st, st) for x, y in zip(ia, ib)]
        if items is not None:
            if star:
                i = star[0]
                k = len(items) - (n - 1)
                if k < 0:
                    self.event('unpack_mismatch', n, len(items))
                    self.raise_(st, fr, S('ValueError'), True)
                seq = list(items[:i]) + [self.new_list(st, items[i:i + k])] + list(items[i + k:])
            else:
                if len(items) != n:
                    self.event('unpack_mismatch', n, len(items))
                    self.raise_(st, fr, S('ValueError'), True)
                seq = items
        else:
            seq = []
            base = v
            x = self.node(v, st) if isinstance(v, Node) else None
            if x is not None and x.rank == 0 and (x is NONE or x.op in ('num', 'add', 'mul', 'pow', 'exp', 'el') or x.op == 'sym' and x.attr[2] not in ('any', 'str')):
                self.event('operand', 'a number is unpacked')
                self.raise_(st, fr, S('TypeError'), True)
            for i in range(n):
                if isinstance(base, Arr):
                    seq.append(self.subscript(base, num(i), st, fr))
                else:
                    seq.append(self.wrap(st, getitem(self.node(base, st), num(i))))
        for e, x in zip(elts, seq):
            self.assign(e, x, st, fr)

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                k = self.name_key(t.id, st, fr)
                st.store.pop(k, None)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, st, fr)
                if isinstance(o, Obj):
                    st.store.pop(('f', o.oid, mangle(t.attr, fr.cls)), None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, st, fr)
                ix = self.ev_index(t.slice, st, fr)
                if isinstance(o, DictV):
                    kn = self.node(ix, st)
                    self.live(o, st)
                    self.set_items(o, [(k, v) for k, v in st.store[('d', o.loc)] if k is not kn], st)
        return Out(st)

    def s_Return(self, s, st, fr):
        v = self.ev(s.value, st, fr) if s.value is not None else NONE
        o = Out(None)
        o.rets.append((st, v))
        return o

    def s_Break(self, s, st, fr):
        o = Out(None)
        o.brks.append(st)
        return o

    def s_Continue(self, s, st, fr):
        o = Out(None)
        o.conts.append(st)
        return o

    def s_Raise(self, s, st, fr):
        exc = S('reraise')
        if s.exc is not None:
            v = self.ev(s.exc, st, fr)
            exc = v
        self.raise_(st, fr, exc)

    def s_Assert(self, s, st, fr):
        c = self.truth(self.ev(s.test, st, fr), st)
        d = self.decide(c, st)
        if d is True:
            return Out(st)
        if d is False:
            self.raise_(st, fr, XObj('exc', 'AssertionError'))
        bad = State(dict(st.store), st.pc + ((c, False),))
        r = Raise(bad, XObj('exc', 'AssertionError'), self.site())
        r.cond = bad.pc
        fr.raises.append(r)
        st.pc = st.pc + ((c, True),)
        return Out(st)

    def s_If(self, s, st, fr):
        c = self.truth(self.ev(s.test, st, fr), st)
        self.branches.add((fr.module, getattr(s, 'lineno', 0)))
        d = self.decide(c, st)
        if d is True:
            return self.exec_block(s.body, st, fr)
        if d is False:
            return self.exec_block(s.orelse, st, fr)
        base = st.pc
        sa = State(dict(st.store), base + ((c, True),))
        sb = State(st.store, base + ((c, False),))
        oa = self.exec_block(s.body, sa, fr)
        ob = self.exec_block(s.orelse, sb, fr)
        return self.join_out(c, oa, ob, base)

    def join_out(self, c, oa, ob, base):
        out = Out(None)
        out.rets = oa.rets + ob.rets
        out.brks = oa.brks + ob.brks
        out.conts = oa.conts + ob.conts
        na, nb = oa.normal, ob.normal
        if na is None or nb is None:
            out.normal = na if na is not None else nb
            return out
        ra, rb = self.residual(na, base), self.residual(nb, base)
        covered = lor(ra, rb)
        simple = (len(na.pc) == len(base) + 1 and len(nb.pc) == len(base) + 1)
        partial = bool(oa.rets or ob.rets or oa.brks or ob.brks or oa.conts or ob.conts)
        if simple:
            pc = base
        else:
            # facts common to both sides plus whatever held on either
            cov = self._simp_or(ra, rb, c)
            pc = base if cov.op == 'bool' else base + ((cov, True),)
        out.normal = self.merge(c, na, nb, pc)
        return out

    def _simp_or(self, ra, rb, c):
        """or(and(c,x), and(not c,y)) simplified"""
        def strip(r, lit):
            if r is lit:
                return TRUE
            if r.op == 'and':
                l = strip(r.args[0], lit)
                rr = strip(r.args[1], lit)
                return land(l, rr)
            return r
        x, y = strip(ra, c), strip(rb, lnot(c))
        if x is TRUE and y is TRUE:
            return TRUE
        if x is TRUE:
            return lor(c, y)
        if y is TRUE:
            return lor(lnot(c), x)
        return phi(c, x, y)

    def s_FunctionDef(self, s, st, fr):
        fn = self.make_fn(s, st, fr)
        v = fn
        for d in reversed(s.decorator_list):
            dv = self.ev(d, st, fr)
            v = self.call(dv, [v], {}, st, fr)
        self.store_name(s.name, v, st, fr)
        return Out(st)

    s_AsyncFunctionDef = s_FunctionDef

    def make_fn(self, s, st, fr, name=None):
        a = s.args
        defaults = [self.ev(d, st, fr) for d in a.defaults]
        kwd = {}
        for arg, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kwd[arg.arg] = self.ev(d, st, fr)
        nm = name or getattr(s, 'name', '<lambda>')
        q = nm if fr.qual in ('', '<module>') else (fr.qual + '.' + nm)
        parent = fr
        fr.captured = True
        return Fn(nm, s, fr.module, parent, fr.cls, defaults, kwd, q)

    def s_ClassDef(self, s, st, fr):
        bases = [self.ev(b, st, fr) for b in s.bases]
        q = s.name if fr.qual in ('', '<module>') else fr.qual + '.' + s.name
        cls = Cls(s.name, fr.module, bases, s)
        cls.qual = '%s.%s' % (fr.module, q)
        cf = Frame(('c', cls.qual), fr.module, cls=s.name, parent=fr if fr.qual != '<module>' else None, qual=q)
        cf.iscls = True
        self.stack.append(cf)
        try:
            out = self.exec_block(s.body, st, cf)
        finally:
            self.stack.pop()
        if out.normal is None:
            fr.raises += cf.raises
            raise PyRaise()
        st.take(out.normal)
        v = cls
        for d in reversed(s.decorator_list):
            dv = self.ev(d, st, fr)
            if not isinstance(dv, Ext):
                v = self.call(dv, [v], {}, st, fr)
        self.store_name(s.name, v, st, fr)
        return Out(st)

    def s_Import(self, s, st, fr):
        for a in s.names:
            v = self.do_import(st, fr, a.name)
            if a.asname:
                self.store_name(a.asname, v, st, fr)
            else:
                root = a.name.split('.')[0]
                self.store_name(root, ModV(root) if self.is_internal(root) else Ext(root), st, fr)
        return Out(st)

    def s_ImportFrom(self, s, st, fr):
        if s.module == '__future__':
            return Out(st)
        mod = s.module or ''
        if s.level:
            path, tree, ispkg = self.modules[fr.module]
            parts = fr.module.split('.')
            drop = s.level - 1 if ispkg else s.level
            parts = parts[:len(parts) - drop] if drop else parts
            mod = '.'.join(parts + ([mod] if mod else []))
        base = self.do_import(st, fr, mod)
        for a in s.names:
            nm = a.asname or a.name
            if a.name == '*':
                if isinstance(base, ModV):
                    for k in list(st.store):
                        if k[0] == 'g' and k[1] == base.name and not k[2].startswith('_'):
                            self.store_name(k[2], st.store[k], st, fr)
                continue
            if isinstance(base, ModV):
                k = ('g', base.name, a.name)
                if k in st.store:
                    v = st.store[k]
                else:
                    v = self.load_module(base.name + '.' + a.name, st)
                    if v is None:
                        self.event('import_unresolved', base.name + '.' + a.name)
                        self.raise_(st, fr, S('ImportError'), True)
            else:
                full = base.name + '.' + a.name
                self.extnames.setdefault(full, set()).add(self.site())
                v = Ext(full)
            self.store_name(nm, v, st, fr)
        return Out(st)

    def s_Try(self, s, st, fr):
        saved = fr.raises
        saved0 = list(saved)
        fr.raises = []
        entry = st.copy()
        nev = len(self.events)
        o = self.exec_block(s.body, st, fr)
        mine = fr.raises
        fr.raises = saved
        out = Out(o.normal)
        out.rets, out.brks, out.conts = list(o.rets), list(o.brks), list(o.conts)
        normals = []
        if o.normal is not None and s.orelse:
            o2 = self.exec_block(s.orelse, o.normal, fr)
            out.rets += o2.rets
            out.brks += o2.brks
            out.conts += o2.conts
            out.normal = o2.normal
        caught = []
        for r in mine:
            h = self.match_handler(s.handlers, r, entry, fr)
            if h is None:
                fr.raises.append(r)
            else:
                caught.append((h, r))
        # handlers for exceptions of external calls: analysed as a possible
        # alternative from the entry state, guarded by an opaque condition
        def run_handler(h, hst, exc):
            if h.name:
                self.store_name(h.name, exc if isinstance(exc, Val) else XObj('exc', 'Exception'), hst, fr)
            return self.exec_block(h.body, hst, fr)
        outs = []
        for h, r in caught:
            hst = r.st.copy()
            outs.append((run_handler(h, hst, r.exc), r.st.pc))
        self.try_external(s, entry, fr, outs, run_handler, o)
        for oh, pc in outs:
            out.rets += oh.rets
            out.brks += oh.brks
            out.conts += oh.conts
            if oh.normal is not None:
                normals.append(oh.normal)
        allst = ([out.normal] if out.normal is not None else []) + normals
        if len(allst) > 1:
            base = entry.pc
            m, _ = self.merge_many([(x, None) for x in (normals + ([out.normal] if out.normal is not None else []))], base)
            out.normal = m
        elif allst:
            out.normal = allst[0]
        nret = len(out.rets)
        if s.finalbody:
            if out.normal is not None:
                o3 = self.exec_block(s.finalbody, out.normal, fr)
                out.normal = o3.normal
                out.rets += o3.rets
            for lst in (out.rets[:nret], out.brks, out.conts):
                for x in lst:
                    x = x[0] if isinstance(x, tuple) else x
                    if isinstance(x, State):
                        of = self.exec_block(s.finalbody, State(x.store, x.pc), fr)
                        if of.normal is not None:
                            x.take(of.normal)
            for r in fr.raises[len(saved0):]:
                of = self.exec_block(s.finalbody, State(r.st.store, r.st.pc), fr)
                if of.normal is not None:
                    r.st.take(of.normal)
        return out

    s_TryStar = s_Try

    def try_external(self, s, entry, fr, outs, run_handler, o):
        """handlers that nothing in the repository raises into: an external call may"""
        hit = {id(h) for h in s.handlers}
        used = set()
        for h in s.handlers:
            if self.config.get('explore_handlers', True) and not self._is_import_try(s) and fr.module not in self.sources:
                c = mk('sym', attr=('raised@%s:%s:%d' % (fr.module, fr.qual, s.handlers.index(h)), 0, 'bool'))
                if any(x for x in outs):
                    pass
                d = self._dec(c, self._facts(entry))
                if d is False:
                    continue
                if self.config.get('no_external_raise'):
                    continue
                hst = State(dict(entry.store), entry.pc + ((c, True),))
                outs.append((run_handler(h, hst, XObj('exc', 'external')), hst.pc))

    def _is_import_try(self, s):
        return any(isinstance(x, (ast.Import, ast.ImportFrom)) for x in s.body)

    def match_handler(self, handlers, r, st, fr):
        cls = r.exc.cls if isinstance(r.exc, Obj) else r.exc if isinstance(r.exc, Cls) else None
        if isinstance(r.exc, XObj):
            cls = self.exc_classes.get(self.exc_name(r.exc))
        tries = [self.exc_name(r.exc)]
        if cls is not None:
            tries = [c.name for c in cls.mro] + [self.exc_name(b) for c in cls.mro for b in c.bases if not isinstance(b, Cls)]
        for h in handlers:
            if h.type is None or any(self.handler_takes(h, name) for name in tries):
                return h
        return None

    def handler_takes(self, h, name):
        import builtins
        t = h.type
        names = [ast.unparse(e).split('.')[-1] for e in (t.elts if isinstance(t, ast.Tuple) else [t])]
        if name in names or 'Exception' in names or 'BaseException' in names:
            return True
        e = getattr(builtins, name, None)
        for n2 in names:
            f = getattr(builtins, n2, None)
            if isinstance(e, type) and isinstance(f, type) and issubclass(e, f):
                return True
        return False

    def exc_name(self, exc):
        if isinstance(exc, Node) and exc.op == 'str':
            return exc.attr
        if isinstance(exc, XObj) and exc.kind == 'exc':
            return exc.data
        if isinstance(exc, Ext):
            return exc.name.split('.')[-1]
        if isinstance(exc, Obj):
            return exc.cls.name
        if isinstance(exc, Cls):
            return exc.name
        return 'Exception'

    def s_With(self, s, st, fr):
        for it in s.items:
            v = self.ev(it.context_expr, st, fr)
            if isinstance(v, Obj):
                v = self.call(self.getattr(v, '__enter__', st, fr), [], {}, st, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, fr)
        return self.exec_block(s.body, st, fr)

    def s_Match(self, s, st, fr):
        self.event('unsupported', 'match')
        return Out(st)

    # --------------------------------------------------------------- loops
    def iter_items(self, v, st):
        """concrete list of item values, or None"""
        if isinstance(v, TupV):
            return list(v.items)
        if isinstance(v, (ListV, SetV)):
            c = st.store[('l', v.loc)]
            return None if isinstance(c, SymList) else list(c)
        if isinstance(v, DictV):
            return [self.wrap(st, k) for k, _ in st.store[('d', v.loc)]]
        if isinstance(v, XObj):
            if v.kind == 'range':
                a, b, s = v.data
                a, b, s = intval(a), intval(b), intval(s)
                if None in (a, b, s) or s == 0:
                    return None
                r = range(a, b, s)
                if len(r) > self.max_unroll:
                    return None
                return [num(i) for i in r]
            if v.kind == 'enumerate':
                it = self.iter_items(v.data[0], st)
                if it is None:
                    return None
                s0 = intval(v.data[1])
                if s0 is None:
                    return None
                return [TupV([num(i + s0), x]) for i, x in enumerate(it)]
            if v.kind == 'zip':
                its = [self.iter_items(x, st) for x in v.data]
                if any(i is None for i in its):
                    return None
                return [TupV(t) for t in zip(*its)]
            if v.kind == 'items':
                return [TupV([self.wrap(st, k), x]) for k, x in st.store[('d', v.data.loc)]]
            if v.kind == 'keys':
                return [self.wrap(st, k) for k, x in st.store[('d', v.data.loc)]]
            if v.kind == 'values':
                return [x for k, x in st.store[('d', v.data.loc)]]
            if v.kind == 'reversed':
                it = self.iter_items(v.data, st)
                return None if it is None else it[::-1]
            if v.kind == 'map':
                return None
        if isinstance(v, Node) and v.op == 'str':
            return [S(c) for c in v.attr]
        if isinstance(v, Node) and v.op in ('tuple', 'list'):
            return [self.wrap(st, a) for a in v.args]
        if isinstance(v, Arr):
            n = self.read_arr(st, v)
            if n.op in ('tuple', 'list', 'stack') and len(n.args) <= self.max_unroll:
                if n.op == 'list' and n.rank == 1 or True:
                    return [self.subscript(v, num(i), st, None) for i in range(len(n.args))]
            sh = shape_of(n)
            if sh.op == 'tuple' and sh.args:
                k = intval(sh.args[0])
                if k is not None and 0 <= k <= self.max_unroll:
                    return [self.subscript(v, num(i), st, None) for i in range(k)]
        return None

    def sym_elem(self, v, iv, st, fr):
        """(element value for symbolic position iv, length node)"""
        if isinstance(v, XObj):
            if v.kind == 'range':
                a, b, s = v.data
                el = add(a, mul(s, iv))
                ln = sub(b, a) if intval(s) == 1 else mk('rangelen', a, b, s, rank=0)
                return el, ln
            if v.kind == 'enumerate':
                e, ln = self.sym_elem(v.data[0], iv, st, fr)
                return TupV([add(v.data[1], iv), e]), ln
            if v.kind == 'zip':
                es, lns = [], []
                for x in v.data:
                    items = self.iter_items(x, st)
                    e, ln = self.sym_elem(x, iv, st, fr)
                    es.append(e)
                    lns.append(ln)
                return TupV(es), lns[0]
            if v.kind == 'reversed':
                e, ln = self.sym_elem(v.data, iv, st, fr)
                n = self.node(v.data, st) if not isinstance(v.data, XObj) else None
                if isinstance(v.data, XObj) and v.data.kind == 'range':
                    a, b, s = v.data.data
                    return sub(sub(b, s), mul(s, iv)), ln
        if isinstance(v, Arr):
            n = self.read_arr(st, v)
            return self.subscript(v, iv, st, fr), length_of(n)
        n = self.node(v, st)
        return self.wrap(st, getitem(n, iv)), mk('len', n)

    def s_For(self, s, st, fr):
        it = self.ev(s.iter, st, fr)
        items = self.iter_items(it, st)
        if items is not None:
            return self.unrolled(s, items, st, fr)
        return self.sym_loop(s, st, fr, it)

    def unrolled(self, s, items, st, fr):
        out = Out(None)
        cur = st
        base = st.pc
        brks = []
        for x in items:
            if cur is None:
                break
            try:
                self.assign(s.target, x, cur, fr)
            except PyRaise:
                cur = None
                break
            b0 = cur.pc
            o = self.exec_block(s.body, cur, fr)
            out.rets += o.rets
            brks += o.brks
            cont = o.conts + ([o.normal] if o.normal is not None else [])
            if len(cont) > 1:
                m, _ = self.merge_many([(x_, None) for x_ in cont], b0)
                if not (o.rets or o.brks):
                    m.pc = b0
                else:
                    c = FALSE
                    for x_ in cont:
                        c = lor(c, self.residual(x_, b0))
                    m.pc = b0 if c.op == 'bool' else b0 + ((c, True),)
                cur = m
            else:
                cur = cont[0] if cont else None
        if cur is not None and s.orelse:
            o = self.exec_block(s.orelse, cur, fr)
            cur = o.normal
            out.rets += o.rets
            out.brks += o.brks
            out.conts += o.conts
        ends = brks + ([cur] if cur is not None else [])
        if len(ends) > 1:
            m, _ = self.merge_many([(x_, None) for x_ in ends], base)
            if not out.rets:
                m.pc = base
            out.normal = m
        else:
            out.normal = ends[0] if ends else None
            if out.normal is not None and not out.rets and not brks:
                pass
        return out

    def s_While(self, s, st, fr):
        n = self.config.get('unroll_while', 0)
        if n:
            r = self.unrolled_while(s, st, fr, n)
            if r is not None:
                return r
        return self.sym_loop(s, st, fr, None)

    def unrolled_while(self, s, st, fr, limit):
        """loops whose condition folds to a constant on each of the first iterations"""
        out = Out(None)
        cur = st.copy()
        nev, ner = len(self.events), len(fr.raises)
        base = st.pc
        for k in range(limit + 1):
            try:
                c = self.truth(self.ev(s.test, cur, fr), cur)
            except PyRaise:
                c = None
            v = None
            if c is not None:
                v = bool(c.attr) if c.op == 'bool' else self.decide(c, cur)
                if v is None and _ind_hook[0]:
                    v = _ind_hook[0](c)
            if v is False:
                out.normal = cur
                return out
            if v is None or k == limit:
                break
            b0 = cur.pc
            o = self.exec_block(s.body, cur, fr)
            cont = o.conts + ([o.normal] if o.normal is not None else [])
            if o.brks and not cont and not o.rets and all(b.pc[:len(b0)] == b0 for b in o.brks):
                if len(o.brks) > 1:
                    m, _ = self.merge_many([(x_, None) for x_ in o.brks], base)
                else:
                    m = o.brks[0]
                m.pc = base
                out.normal = m
                return out
            if o.rets or o.brks or not cont:
                break
            if len(cont) > 1:
                m, _ = self.merge_many([(x_, None) for x_ in cont], b0)
                m.pc = b0
                cur = m
            else:
                cur = cont[0]
                cur.pc = b0
        del self.events[nev:]
        del fr.raises[ner:]
        return None

    def sym_loop(self, s, st, fr, it):
        self.fcounter += 1
        lid = self.fcounter
        iv = mk('iv', attr=lid)
        base = st.pc
        entry = st.copy()
        mods = []
        saved_raises = fr.raises
        result = None
        nev = len(self.events)
        for attempt in range(10):
            del self.events[nev:]
            fr.raises = []
            hst = State(dict(entry.store), base)
            for k in mods:
                hst.store[k] = self.mu_value(lid, k, entry, hst)
            header = State(dict(hst.store), base)
            body_st = hst
            exit_st = None
            try:
                if it is None:
                    c = self.truth(self.ev(s.test, body_st, fr), body_st)
                    header = State(dict(body_st.store), base)
                    elem_len = None
                else:
                    e, elem_len = self.sym_elem(it, iv, body_st, fr)
                    c = mk('more', iv, elem_len, attr=lid, rank=0)
                    self.assign(s.target, e, body_st, fr)
                d = self.decide(c, body_st)
                if d is False:
                    fr.raises = saved_raises + fr.raises
                    return self._loop_else(s, header, fr)
                body_st.pc = base + ((c, True),) if c.op != 'bool' else base
                o = self.exec_block(s.body, body_st, fr)
            except PyRaise:
                o = Out(None)
                c = TRUE
                elem_len = None
            conts = o.conts + ([o.normal] if o.normal is not None else [])
            end = None
            bpc = base + ((c, True),) if c.op != 'bool' else base
            if conts:
                end, _ = self.merge_many([(x, None) for x in conts], bpc)
            changed = set()
            for x in ([end] if end is not None else []):
                for k, v0 in header.store.items():
                    v1 = x.store.get(k)
                    if v1 is not None and not (v1 is v0 or same(v1, v0)):
                        if k in mods and isinstance(v1, Node) and isinstance(v0, Node):
                            continue
                        if k not in mods:
                            changed.add(k)
            result = (o, end, header, c, elem_len, conts, bpc)
            if not changed:
                break
            mods += sorted(changed, key=repr)
        inner_raises = fr.raises
        fr.raises = saved_raises + inner_raises
        o, end, header, c, elem_len, conts, bpc = result
        lp = Loop(lid, 'for' if it is not None else 'while', self.site(), fr.qual)
        lp.cond, lp.iter, lp.node = c, elem_len, s
        lp.brk = o.brks
        lp.end, lp.header, lp.conts = end, header, conts
        lp.body_pc = bpc
        for k in mods:
            lp.keys[k] = (entry.store.get(k), header.store.get(k), end.store.get(k) if end is not None else None)
        self.loops[lid] = lp
        # exit state
        out = Out(None)
        out.rets = o.rets
        exits = []
        ex = State(dict(header.store), base)
        if end is not None:
            for k, v in end.store.items():
                if k not in ex.store and k[0] in ('v', 'f', 'h', 'l', 'd'):
                    ex.store[k] = v
            if it is not None:
                # loop variable after the loop
                pass
        if it is None:
            if c.op != 'bool':
                ex.pc = base + ((lnot(c), True),) if False else base + ((c, False),)
                exits.append(ex)
            elif c.attr is False:
                exits.append(ex)
        else:
            exits.append(ex)
        if not o.brks and not o.rets and end is not None:
            self.close_forms(lp, ex, entry, iv, it, st, fr)
            if it is not None:
                ex.pc = base
        brks = []
        for b in o.brks:
            bb = State(dict(b.store), b.pc)
            brks.append(bb)
        if s.orelse and exits:
            oe = self.exec_block(s.orelse, exits[0], fr)
            out.rets += oe.rets
            out.brks += oe.brks
            out.conts += oe.conts
            exits = [oe.normal] if oe.normal is not None else []
        allx = brks + exits
        if len(allx) > 1:
            m, _ = self.merge_many([(x, None) for x in allx], base)
            if not out.rets:
                m.pc = base
            out.normal = m
        else:
            out.normal = allx[0] if allx else None
        return out

    def _loop_else(self, s, st, fr):
        if s.orelse:
            return self.exec_block(s.orelse, st, fr)
        return Out(st)

    def mu_value(self, lid, k, entry, hst):
        v0 = entry.store.get(k)
        if isinstance(v0, Node):
            return mk('mu', attr=(lid, k, v0.rank))
        if isinstance(v0, Arr):
            n = self.read_arr(entry, v0)
            loc = self.fresh()
            hst.store[('h', loc)] = mk('mu', attr=(lid, k, n.rank))
            self.lococc[loc] = (self.phase, self.site())
            return Arr(loc)
        if k[0] == 'l':
            return SymList(mk('mu', attr=(lid, k, None)))
        if isinstance(v0, TupV):
            return TupV([mk('mu', attr=(lid, k + (i,), self.node(x, entry).rank)) if isinstance(x, (Node, Arr)) else x
                         for i, x in enumerate(v0.items)])
        if k[0] == 'd':
            return v0
        if isinstance(v0, PV):
            return mk('mu', attr=(lid, k, None))
        return v0 if v0 is not None else mk('mu', attr=(lid, k, None))

    def close_forms(self, lp, ex, entry, iv, it, st, fr):
        """recognise accumulations and element-wise fills"""
        from . import loopforms
        loopforms.close(self, lp, ex, entry, iv, it)

    # ---------------------------------------------------------------- names
    def name_key(self, name, st, fr):
        name = mangle(name, fr.cls)
        if fr.globals is None or fr.qual == '<module>':
            return ('g', fr.module, name)
        if fr.iscls:
            return ('c', '%s.%s' % (fr.module, fr.qual), name)
        if name in fr.globals:
            return ('g', fr.module, name)
        if name in fr.nonlocals:
            p = fr.parent
            while p is not None and not p.iscls and p.qual != '<module>':
                k = ('v', p.fid, name)
                if k in st.store:
                    return k
                p = p.parent
        return ('v', fr.fid, name)

    def store_name(self, name, v, st, fr):
        st.store[self.name_key(name, st, fr)] = v

    def load_name(self, name, st, fr):
        name = mangle(name, fr.cls)
        f = fr
        first = True
        while f is not None:
            if f.qual == '<module>' or f.globals is None:
                break
            if f.iscls:
                if first:
                    k = ('c', '%s.%s' % (f.module, f.qual), name)
                    if k in st.store:
                        return st.store[k]
            else:
                if name in f.globals:
                    break
                k = ('v', f.fid, name)
                if k in st.store:
                    return self.defined(st.store[k], name)
                if first and f.localnames is not None and name in f.localnames and name not in f.nonlocals:
                    self.event('unbound_local', name)
                    self.raise_(st, fr, S('UnboundLocalError'), True)
            first = False
            f = f.parent
        k = ('g', fr.module, name)
        if k in st.store:
            return self.defined(st.store[k], name)
        import builtins
        if hasattr(builtins, name) or name in HARNESS and fr.module in self.sources:
            return Ext('builtins.' + name)
        self.event('unresolved_name', name)
        self.raise_(st, fr, S('NameError'), True)

    def defined(self, v, name):
        if isinstance(v, PV):
            if isinstance(v.a, Undef):
                self.event('maybe_unbound', name)
                return self.defined(v.b, name)
            if isinstance(v.b, Undef):
                self.event('maybe_unbound', name)
                return self.defined(v.a, name)
        return v

    # ----------------------------------------------------------- attributes
    def class_lookup(self, cls, name, st, after=None):
        mro = cls.mro
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else mro
        for c in mro:
            k = ('c', c.qual, name)
            if k in st.store:
                return st.store[k], c
        return None, None

    def class_member_kind(self, o, name, st):
        if isinstance(o, Obj):
            return self.class_lookup(o.cls, name, st)[0]
        return None

    def getattr(self, o, name, st, fr, default=None):
        if isinstance(o, PV):
            if isinstance(o.a, Undef):
                return self.getattr(o.b, name, st, fr, default)
            if isinstance(o.b, Undef):
                return self.getattr(o.a, name, st, fr, default)
            return self.split(o, st, fr, lambda x, s2: self.getattr(x, name, s2, fr, default))
        if isinstance(o, Obj):
            k = ('f', o.oid, name)
            m, c = self.class_lookup(o.cls, name, st)
            if isinstance(m, PropV):
                if m.fget is None or m.fget is NONE:
                    self.event('unresolved_attr', o.cls.qual, name)
                    self.raise_(st, fr, S('AttributeError'), True)
                return self.call(m.fget, [o], {}, st, fr)
            if k in st.store:
                return self.defined(st.store[k], name)
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                return self.obj_dict(o, st)
            if m is not None:
                return self.bind(m, o, c)
            g, gc = self.class_lookup(o.cls, '__getattr__', st)
            if g is not None:
                return self.call(self.bind(g, o, gc), [S(name)], {}, st, fr)
            for b in o.cls.mro:
                for x in b.bases:
                    if isinstance(x, Ext) and x.name not in ('builtins.object',):
                        return XM(o, name)
            if name in ('__init__', '__str__', '__repr__', '__eq__', '__hash__'):
                return XM(o, name)
            if default is not None:
                return default
            # a stand-in written by the specification need not have everything
            stub = o.cls.qual.split('.')[0] in self.sources or any(o.cls.qual.startswith(x + '.') for x in self.sources)
            self.event('stub_attr' if stub and fr.module not in self.sources and self.class_lookup(o.cls, 'COMPLETE', st)[0] is None else 'unresolved_attr',
                       o.cls.qual, name)
            self.raise_(st, fr, S('AttributeError'), True)
        if isinstance(o, Cls):
            m, c = self.class_lookup(o, name, st)
            if m is not None:
                if isinstance(m, StaticV):
                    return BM(o, m.fn) if m.kind == 'class' else m.fn
                return self.defined(m, name) if isinstance(m, PV) else m
            if name == '__name__':
                return S(o.name)
            if name == '__mro__' or name == '__bases__':
                return TupV(o.bases)
            if name in ('__init__', '__new__', '__doc__', '__module__'):
                return XM(o, name)
            if any(isinstance(b, Ext) and b.name != 'builtins.object' for x in o.mro for b in x.bases):
                return XM(o, name)
            if default is not None:
                return default
            self.event('unresolved_attr', o.qual, name)
            self.raise_(st, fr, S('AttributeError'), True)
        if isinstance(o, ModV):
            k = ('g', o.name, name)
            if k in st.store:
                return self.defined(st.store[k], name)
            p, _ = self.find_module(o.name + '.' + name)
            if p and (o.name + '.' + name) in self.modstate:
                return ModV(o.name + '.' + name)
            if default is not None:
                return default
            self.event('unresolved_attr', o.name, name)
            self.raise_(st, fr, S('AttributeError'), True)
        if isinstance(o, SuperV):
            m, c = self.class_lookup(o.self.cls if isinstance(o.self, Obj) else o.self, name, st, after=o.after)
            if m is None:
                return XM(o, name)
            if isinstance(m, PropV):
                return self.call(m.fget, [o.self], {}, st, fr)
            return self.bind(m, o.self, c)
        if isinstance(o, Ext):
            full = o.name + '.' + name
            self.extnames.setdefault(full, set()).add(self.site())
            return self.models.ext_value(full)
        if isinstance(o, BM):
            if name == '__self__':
                return o.self
            if name == '__func__':
                return o.fn
            if name == '__name__':
                return S(o.fn.name)
            return XM(o, name)
        if isinstance(o, PropV):
            if name == 'setter':
                return XM(o, 'setter')
            if name == 'getter':
                return XM(o, 'getter')
            return XM(o, name)
        if isinstance(o, Fn):
            if name in ('__name__',):
                return S(o.name)
            if not name.startswith('__') and default is None and name not in self.fn_attrs:
                self.event('unresolved_attr', 'function ' + str(o.name), name)
                self.raise_(st, fr, S('AttributeError'), True)
            return XM(o, name)
        return self.models.value_attr(self, o, name, st, fr)

    def obj_dict(self, o, st):
        d = self.new_dict(st, ())
        st.store[('dof', d.loc)] = o.oid
        return self.live(d, st)

    def live(self, d, st):
        """the attribute dictionary of an object is its attributes"""
        oid = st.store.get(('dof', d.loc))
        if oid is not None:
            st.store[('d', d.loc)] = tuple((S(k[2]), v) for k, v in list(st.store.items()) if k[0] == 'f' and k[1] == oid)
        return d

    def set_items(self, d, items, st):
        items = tuple(items)
        oid = st.store.get(('dof', d.loc))
        if oid is not None:
            new = {k.attr: v for k, v in items if k.op == 'str'}
            for k in [k for k in st.store if k[0] == 'f' and k[1] == oid and k[2] not in new]:
                del st.store[k]
            for k, v in new.items():
                st.store[('f', oid, k)] = v
        st.store[('d', d.loc)] = items

    def bind(self, m, o, c):
        if isinstance(m, Fn):
            return BM(o, m)
        if isinstance(m, StaticV):
            if m.kind == 'static':
                return m.fn
            return BM(o.cls if isinstance(o, Obj) else o, m.fn)
        if isinstance(m, PV):
            return self.defined(m, '')
        return m

    def setattr(self, o, name, v, st, fr):
        if isinstance(o, Obj):
            m, c = self.class_lookup(o.cls, name, st)
            if isinstance(m, PropV):
                if m.fset is None or m.fset is NONE:
                    self.event('readonly_attr', o.cls.qual, name)
                    self.raise_(st, fr, S('AttributeError'), True)
                self.call(m.fset, [o, v], {}, st, fr)
                return
            sa, sc = self.class_lookup(o.cls, '__setattr__', st)
            st.store[('f', o.oid, name)] = v
        elif isinstance(o, Cls):
            self.event('write_class', o.qual, name)
            st.store[('c', o.qual, name)] = v
        elif isinstance(o, ModV):
            self.event('write_module', o.name, name)
            st.store[('g', o.name, name)] = v
        elif isinstance(o, PV):
            for pol, x in ((True, o.a), (False, o.b)):
                if isinstance(x, Obj):
                    k = ('f', x.oid, name)
                    old = st.store.get(k, UNDEF)
                    cc = o.c
                    st.store[k] = self.merge_val(cc, v if pol else old, old if pol else v, st, st, st)
        elif isinstance(o, Ext):
            self.event('write_external', o.name, name)
            self.event('effect', 'setting', o.name + '.' + name)
        elif isinstance(o, Arr):
            if name in ('real', 'imag'):
                if self.real_array(st, o):
                    if name == 'imag':
                        self.event('readonly_attr', 'ndarray', name)
                    else:
                        self.write_arr(st, o, None, self.node(v, st))
                else:
                    self.write_arr(st, Arr(o.loc, o.path + (S('.' + name),)), None, self.node(v, st))
            elif name == 'shape':
                st.store[('h', o.loc)] = mk('reshape', self.read_arr(st, o), self.node(v, st), rank=None)
            else:
                st.store[('f', 'A%d' % o.loc, name)] = v
        else:
            self.fn_attrs.add(name)
            self.event('setattr_unknown', repr(type(o)), name)

    def split(self, pv, st, fr, f):
        """evaluate f on both alternatives and merge"""
        d = self.decide(pv.c, st)
        if d is True:
            return f(pv.a, st)
        if d is False:
            return f(pv.b, st)
        base = st.pc
        sa = State(dict(st.store), base + ((pv.c, True),))
        sb = State(dict(st.store), base + ((pv.c, False),))
        ra = rb = None
        try:
            ra = f(pv.a, sa)
        except PyRaise:
            pass
        try:
            rb = f(pv.b, sb)
        except PyRaise:
            pass
        if ra is None and rb is None:
            raise PyRaise()
        if ra is None:
            st.take(sb)
            return rb
        if rb is None:
            st.take(sa)
            return ra
        m = self.merge(pv.c, sa, sb, base)
        v = self.merge_val(pv.c, ra, rb, sa, sb, m)
        st.take(m)
        return v

    # ---------------------------------------------------------- subscripts
    def ev_index(self, s, st, fr):
        if isinstance(s, ast.Slice):
            f = lambda e: NONE if e is None else self.node(self.ev(e, st, fr), st)
            return mk('slice', f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple) and any(isinstance(e, ast.Slice) for e in s.elts):
            return tup([self.node(self.ev_index(e, st, fr), st) for e in s.elts])
        return self.ev(s, st, fr)

    def subscript(self, o, ix, st, fr):
        if isinstance(o, PV):
            if isinstance(o.a, Undef):
                return self.subscript(o.b, ix, st, fr)
            if isinstance(o.b, Undef):
                return self.subscript(o.a, ix, st, fr)
            return self.split(o, st, fr, lambda x, s2: self.subscript(x, ix, s2, fr))
        if isinstance(o, (TupV, ListV)):
            items = o.items if isinstance(o, TupV) else st.store[('l', o.loc)]
            ixn = self.node(ix, st)
            if isinstance(items, SymList):
                return self.wrap(st, getitem(items.node, ixn))
            if ixn.op == 'slice':
                b = [None if a.op == 'none' else intval(a) for a in ixn.args]
                if all(a.op == 'none' or intval(a) is not None for a in ixn.args):
                    r = items[slice(*b)]
                    return TupV(r) if isinstance(o, TupV) else self.new_list(st, r)
                return self.wrap(st, getitem(self.node(o, st), ixn))
            k = intval(ixn)
            if k is not None:
                if -len(items) <= k < len(items):
                    return items[k]
                if fr is not None:
                    self.event('index_range', k, len(items))
                    self.raise_(st, fr, S('IndexError'), True)
            if ixn.op == 'phi':
                a = self.subscript(o, ixn.args[1], st, fr)
                b = self.subscript(o, ixn.args[2], st, fr)
                return self.merge_val(ixn.args[0], a, b, st, st, st)
            return self.wrap(st, getitem(self.node(o, st), ixn))
        if isinstance(o, DictV):
            return self.dict_get(o, self.node(ix, st), st, fr)
        if isinstance(o, Arr):
            ixn = self.node(ix, st)
            base = self.read_arr(st, o)
            if base.op == 'tuple':
                k = intval(ixn)
                if k is not None and k < len(base.args):
                    return self.wrap(st, base.args[k])
            first = intval(ixn.args[0] if ixn.op == 'tuple' and ixn.args else ixn)
            if first is not None and fr is not None and base.rank and ixn.op in ('num', 'tuple'):
                n = intval(arrays.length_of(base))
                if n is not None and not -n <= first < n:
                    self.event('index_range', first, n)
                    self.raise_(st, fr, S('IndexError'), True)
            r = getitem(base, ixn)
            if r.rank == 0:
                return r
            if self.is_view_index(ixn):
                return Arr(o.loc, o.path if arrays.is_full(ixn) else o.path + (ixn,))
            return self.wrap(st, r)
        if isinstance(o, Obj):
            m = self.getattr(o, '__getitem__', st, fr)
            return self.call(m, [ix], {}, st, fr)
        return self.wrap(st, getitem(self.node(o, st), self.node(ix, st)))

    def is_view_index(self, ix):
        ixs = ix.args if ix.op == 'tuple' else (ix,)
        for i in ixs:
            if i.op in ('slice', 'none'):
                continue
            if i.op == 'const' and i.attr == 'Ellipsis':
                continue
            if i.rank == 0 and not arrays.is_boolean(i):
                continue
            return False
        return True

    def dict_get(self, d, k, st, fr, default=None):
        self.live(d, st)
        items = st.store[('d', d.loc)]
        res = None
        for kk, v in items:      # later entries override
            if isinstance(v, PV) and isinstance(v.a, Undef) != isinstance(v.b, Undef):
                pass
            e = cmp_('eq', kk, k)
            e = self.norm_cond(e, st)
            if e.op == 'bool':
                if e.attr:
                    res = v
                continue
            if res is None:
                res = PV(e, v, UNDEF)
            else:
                res = self.merge_val(e, v, res, st, st, st)
        if res is None or isinstance(res, Undef):
            if default is not None:
                return default
            if fr is not None:
                self.event('key_missing', show(k))
                self.raise_(st, fr, S('KeyError'), True)
            return mk('undefvar')
        return self._fill_undef(res, default)

    def _fill_undef(self, v, default):
        if isinstance(v, PV):
            a = self._fill_undef(v.a, default)
            b = self._fill_undef(v.b, default)
            if isinstance(a, Undef):
                return b if default is None else PV(v.c, default, b)
            if isinstance(b, Undef):
                return a if default is None else PV(v.c, a, default)
            if isinstance(a, Node) and isinstance(b, Node):
                return phi(v.c, a, b)
            return PV(v.c, a, b)
        return v

    def norm_cond(self, e, st):
        d = self.decide(e, st)
        return e if d is None else boolean(d)

    def setsub(self, o, ix, v, st, fr):
        if isinstance(o, PV):
            if isinstance(o.a, Undef):
                return self.setsub(o.b, ix, v, st, fr)
            if isinstance(o.b, Undef):
                return self.setsub(o.a, ix, v, st, fr)
            return self.split(o, st, fr, lambda x, s2: (self.setsub(x, ix, v, s2, fr), NONE)[1])
        if isinstance(o, Arr):
            ixn = self.node(ix, st)
            vn = self.node(v, st)
            self.write_arr(st, o, ixn, vn)
            return
        if isinstance(o, ListV):
            items = st.store[('l', o.loc)]
            ixn = self.node(ix, st)
            k = intval(ixn)
            if not isinstance(items, SymList) and k is not None and -len(items) <= k < len(items):
                l = list(items)
                l[k] = v
                st.store[('l', o.loc)] = tuple(l)
            elif not isinstance(items, SymList) and arrays.is_full(ixn) and self.iter_items(v, st) is not None:
                st.store[('l', o.loc)] = tuple(self.iter_items(v, st))
            else:
                st.store[('l', o.loc)] = SymList(setitem(self.node(o, st), ixn, self.node(v, st)))
            return
        if isinstance(o, DictV):
            kn = self.node(ix, st)
            self.live(o, st)
            items = st.store[('d', o.loc)]
            new = [(k, x) for k, x in items if k is not kn] + [(kn, v)]
            if any(k is kn for k, x in items):
                new = [(k, v if k is kn else x) for k, x in items]
            self.set_items(o, new, st)
            return
        if isinstance(o, Obj):
            m = self.getattr(o, '__setitem__', st, fr)
            self.call(m, [ix, v], {}, st, fr)
            return
        self.event('setitem_unknown', repr(type(o)))

    # --------------------------------------------------------- expressions
    def ev(self, e, st, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            self.event('unsupported', type(e).__name__)
            return self.wrap(st, mk('unk', attr=('expr', type(e).__name__, self.fresh()), rank=None))
        save = self.cur
        if hasattr(e, 'lineno'):
            self.cur = e
            core.CURSITE[0] = (fr.module, fr.qual, e.lineno)
        try:
            return m(e, st, fr)
        finally:
            self.cur = save

    def e_Constant(self, e, st, fr):
        v = e.value
        if v is None:
            return NONE
        if isinstance(v, bool):
            return boolean(v)
        if isinstance(v, (int, float, complex)):
            return num(v)
        if isinstance(v, str):
            return S(v)
        if isinstance(v, bytes):
            return mk('ext', attr='bytes:%r' % v)
        if v is Ellipsis:
            return const('Ellipsis')
        return NONE

    def e_Name(self, e, st, fr):
        return self.load_name(e.id, st, fr)

    def e_Attribute(self, e, st, fr):
        o = self.ev(e.value, st, fr)
        return self.getattr(o, mangle(e.attr, fr.cls), st, fr)

    def e_Subscript(self, e, st, fr):
        o = self.ev(e.value, st, fr)
        return self.subscript(o, self.ev_index(e.slice, st, fr), st, fr)

    def e_Slice(self, e, st, fr):
        return self.ev_index(e, st, fr)

    def e_Tuple(self, e, st, fr):
        return TupV(self.ev_seq(e.elts, st, fr))

    def e_List(self, e, st, fr):
        return self.new_list(st, self.ev_seq(e.elts, st, fr))

    def e_Set(self, e, st, fr):
        return self.new_set(st, self.ev_seq(e.elts, st, fr))

    def ev_seq(self, elts, st, fr):
        r = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st, fr)
                it = self.iter_items(v, st)
                if it is None:
                    r.append(self.wrap(st, mk('star', self.node(v, st), rank=None)))
                else:
                    r += it
            else:
                r.append(self.ev(x, st, fr))
        return r

    def e_Dict(self, e, st, fr):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.ev(v, st, fr)
                if isinstance(d, DictV):
                    items += list(st.store[('d', d.loc)])
                continue
            kn = self.node(self.ev(k, st, fr), st)
            vv = self.ev(v, st, fr)
            items = [(a, b) for a, b in items if a is not kn] + [(kn, vv)]
        return self.new_dict(st, items)

    def e_JoinedStr(self, e, st, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(S(v.value))
            else:
                x = self.node(self.ev(v.value, st, fr), st)
                if v.conversion == 114:
                    parts.append(mk('repr', x, rank=0))
                elif v.format_spec is not None:
                    parts.append(mk('fmt', x, self.node(self.ev(v.format_spec, st, fr), st)))
                else:
                    parts.append(self.models.to_str(x))
        return self.models.strcat(parts)

    def e_UnaryOp(self, e, st, fr):
        v = self.ev(e.operand, st, fr)
        op = type(e.op).__name__
        if op == 'Not':
            return lnot(self.truth(v, st))
        if isinstance(v, PV):
            v = self.wrap(st, self.node(v, st))
        n = self.node(v, st)
        if op == 'USub':
            return self.wrap(st, neg(n))
        if op == 'UAdd':
            return self.wrap(st, n)
        if arrays.is_boolean(n):
            return self.wrap(st, lnot(n))
        return self.wrap(st, mk('el', n, attr='invert'))

    def e_BinOp(self, e, st, fr):
        a = self.ev(e.left, st, fr)
        b = self.ev(e.right, st, fr)
        return self.binop_v(type(e.op).__name__, a, b, st, fr)

    def binop_v(self, op, a, b, st, fr):
        if isinstance(a, PV) and not self._numeric(a, st):
            return self.split(a, st, fr, lambda x, s2: self.binop_v(op, x, b, s2, fr))
        if isinstance(b, PV) and not self._numeric(b, st):
            return self.split(b, st, fr, lambda x, s2: self.binop_v(op, a, x, s2, fr))
        if isinstance(a, (ListV, TupV)) and isinstance(b, (ListV, TupV)) and op == 'Add':
            ia, ib = self.iter_items(a, st), self.iter_items(b, st)
            if ia is not None and ib is not None:
                return TupV(ia + ib) if isinstance(a, TupV) else self.new_list(st, ia + ib)
        if op == 'Mult':
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (ListV, TupV)):
                    k = intval(self.node(y, st)) if isinstance(y, Node) else None
                    ix = self.iter_items(x, st)
                    if k is not None and ix is not None and k * len(ix) < 200:
                        return TupV(ix * k) if isinstance(x, TupV) else self.new_list(st, ix * k)
        if isinstance(a, Obj):
            nm = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'Div': '__truediv__', 'Mod': '__mod__', 'Pow': '__pow__'}.get(op)
            if nm:
                return self.call(self.getattr(a, nm, st, fr), [b], {}, st, fr)
        na, nb = self.node(a, st), self.node(b, st)
        if (na is NONE or nb is NONE) and not (op == 'Mod' and arrays.kind_of(na) == 's') and not isinstance(b, Obj):
            self.event('operand', 'None in ' + op)
            self.raise_(st, fr, S('TypeError'), True)
        if op == 'Add':
            for x, y in ((na, nb), (nb, na)):
                if x.op == 'str' and (y.op == 'num' or y.op == 'sym' and y.attr[2] not in ('any', 'str')):
                    self.event('operand', 'text and number in Add')
                    self.raise_(st, fr, S('TypeError'), True)
        return self.binop(op, na, nb, st)

    def _numeric(self, v, st):
        if isinstance(v, PV):
            return self._numeric(v.a, st) and self._numeric(v.b, st)
        return isinstance(v, (Node, Arr))

    def binop(self, op, a, b, st):
        """on Nodes; returns Value"""
        if op == 'Add' and ('s' in (arrays.kind_of(a), arrays.kind_of(b))):
            return self.models.strcat([a, b])
        if op == 'Mod' and arrays.kind_of(a) == 's':
            if a.op == 'str' and b.op != 'tuple':
                v = b.attr if b.op == 'str' else intval(b)
                if v is not None:
                    try:
                        return S(a.attr % v)
                    except (TypeError, ValueError):
                        pass
            return mk('fmt', a, b)
        if op == 'Add':
            r = add(a, b)
        elif op == 'Sub':
            r = sub(a, b)
        elif op == 'Mult':
            r = mul(a, b)
        elif op == 'Div':
            r = div(a, b)
        elif op == 'Pow':
            r = power(a, b)
        elif op == 'MatMult':
            r = mk('call', a, b, attr=('numpy.matmul', ()), rank=None)
        elif op == 'FloorDiv':
            r = self.models.floordiv(a, b)
        elif op == 'Mod':
            r = mk('mod', a, b)
            if isnum(a) and isnum(b) and intval(a) is not None and intval(b):
                r = num(intval(a) % intval(b))
            elif intval(b) and self.models.is_integer(a) and self.models.floordiv(a, b).op != 'floordiv' and not isnum(a):
                r = num(0)
        elif op in ('RShift', 'LShift'):
            k = intval(b)
            if k is not None:
                r = self.models.floordiv(a, num(2 ** k)) if op == 'RShift' else mul(a, num(2 ** k))
            else:
                r = mk('el', a, b, attr=op)
        elif op in ('BitAnd', 'BitOr'):
            if arrays.is_boolean(a) and arrays.is_boolean(b):
                r = (mk('and', a, b) if op == 'BitAnd' else mk('or', a, b))
            else:
                r = mk('el', a, b, attr=op)
        elif op == 'BitXor':
            r = mk('xor', a, b)
        else:
            r = mk('el', a, b, attr=op)
        return self.wrap(st, r)

    def e_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)
        res = None
        saved = st.pc
        conds = []
        vals = []
        for i, x in enumerate(e.values):
            v = self.ev(x, st, fr)
            t = self.truth(v, st)
            d = self.decide(t, st)
            vals.append((v, t))
            if d is not None and d != isand:
                break            # short circuit
            if d is not None and i < len(e.values) - 1:
                vals.pop()
                continue
            if d is None:
                st.pc = st.pc + ((t, isand),)
        st.pc = saved
        # value semantics: fold from the right
        v, t = vals[-1]
        allbool = all(isinstance(x, Node) and (arrays.is_boolean(x)) for x, _ in vals)
        if allbool:
            r = t if True else None
            for x, t2 in reversed(vals[:-1]):
                r = land(t2, r) if isand else lor(t2, r)
            d = None
            return r
        r = v
        for x, t2 in reversed(vals[:-1]):
            if isand:
                r = self.merge_val(t2, r, x, st, st, st)
            else:
                r = self.merge_val(t2, x, r, st, st, st)
        return r

    def e_Compare(self, e, st, fr):
        left = self.ev(e.left, st, fr)
        res = None
        for op, rhs in zip(e.ops, e.comparators):
            right = self.ev(rhs, st, fr)
            c = self.compare(type(op).__name__, left, right, st, fr)
            res = c if res is None else land(res, c)
            left = right
        if isinstance(res, Node) and (res.rank == 0 or res.op == 'bool'):
            return res
        return self.wrap(st, res) if res.rank is None or res.rank >= 1 else res

    def compare(self, op, a, b, st, fr):
        if op in ('Is', 'IsNot'):
            r = self.is_(a, b, st)
            return r if op == 'Is' else lnot(r)
        if op in ('In', 'NotIn'):
            r = self.contains(a, b, st)
            return r if op == 'In' else lnot(r)
        if isinstance(a, PV) and not self._numeric(a, st):
            return phi(a.c, self.compare(op, a.a, b, st, fr), self.compare(op, a.b, b, st, fr))
        if isinstance(b, PV) and not self._numeric(b, st):
            return phi(b.c, self.compare(op, a, b.a, st, fr), self.compare(op, a, b.b, st, fr))
        if op in ('Eq', 'NotEq'):
            if isinstance(a, (Cls, Ext, Fn, ModV)) or isinstance(b, (Cls, Ext, Fn, ModV)):
                if not (isinstance(a, Ext) and self.models.is_const_ext(a.name)) and not (isinstance(b, Ext) and self.models.is_const_ext(b.name)):
                    r = self.is_(a, b, st)
                    return r if op == 'Eq' else lnot(r)
            if isinstance(a, Obj) and isinstance(b, Obj):
                m, _ = self.class_lookup(a.cls, '__eq__', st)
                if m is not None:
                    r = self.truth(self.call(BM(a, m), [b], {}, st, fr), st)
                else:
                    r = boolean(a.oid == b.oid)
                return r if op == 'Eq' else lnot(r)
        x, y = self.node(a, st), self.node(b, st)
        if op == 'Eq':
            return cmp_('eq', x, y)
        if op == 'NotEq':
            return cmp_('ne', x, y)
        if op == 'Lt':
            return cmp_('lt', x, y)
        if op == 'LtE':
            return cmp_('le', x, y)
        if op == 'Gt':
            return cmp_('lt', y, x)
        if op == 'GtE':
            return cmp_('le', y, x)

    def is_(self, a, b, st):
        if isinstance(a, PV):
            if isinstance(a.a, Undef):
                return self.is_(a.b, b, st)
            if isinstance(a.b, Undef):
                return self.is_(a.a, b, st)
            return phi(a.c, self.is_(a.a, b, st), self.is_(a.b, b, st))
        if isinstance(b, PV):
            return phi(b.c, self.is_(a, b.a, st), self.is_(a, b.b, st))
        for x, y in ((a, b), (b, a)):
            if isinstance(y, Node) and y.op == 'none':
                if isinstance(x, Node):
                    return self._none_test(x)
                if isinstance(x, Arr):
                    n = self.read_arr(st, x)
                    if n.rank is not None and n.rank >= 1:
                        return FALSE
                    return self._none_test(n)
                return FALSE
        if isinstance(a, Node) and isinstance(b, Node):
            if a is b:
                return TRUE
            if a.op == 'bool' and b.op == 'bool':
                return boolean(a.attr == b.attr)
            ka, kb = arrays.kind_of(a), arrays.kind_of(b)
            if b.op == 'bool':
                if a.op in ('num', 'str', 'none'):
                    return FALSE
                if arrays.is_boolean(a):
                    return a if b.attr else lnot(a)
                return mk('is', a, b)
            if ka is not None and kb is not None and ka != kb:
                return FALSE
            if a.op == 'num' and b.op == 'num':
                return boolean(a.attr[:2] == b.attr[:2])
            if a.op == 'str' and b.op == 'str':
                return boolean(a.attr == b.attr)
            return mk('is', a, b)
        if isinstance(a, (Cls, Ext, Fn, ModV, Obj, ListV, DictV, Arr, TupV, BM)) and isinstance(b, (Cls, Ext, Fn, ModV, Obj, ListV, DictV, Arr, TupV, BM)):
            return boolean(same(a, b) or a is b)
        if isinstance(a, Node) and a.op == 'typeof' or isinstance(b, Node) and b.op == 'typeof':
            return mk('is', self.node(a, st), self.node(b, st))
        if isinstance(a, Node) and a.op in ('sym', 'getitem', 'attr', 'call', 'uf', 'mu', 'phi', 'mtype') or \
                isinstance(b, Node) and b.op in ('sym', 'getitem', 'attr', 'call', 'uf', 'mu', 'phi', 'mtype'):
            return mk('is', self.node(a, st), self.node(b, st))
        return FALSE

    def _none_test(self, n):
        if n.op == 'none':
            return TRUE
        if n.op == 'phi':
            return phi(n.args[0], self._none_test(n.args[1]), self._none_test(n.args[2]))
        if n.op == 'sym' and n.attr[2] == 'any':
            return mk('is', n, NONE)
        if n.op == 'mu':
            i = self._mu_maybe_none(n)
            return i
        if n.op in ('attr', 'unk', 'apply', 'undefvar') or (n.op == 'getitem' and n.rank is None):
            return mk('is', n, NONE)
        return FALSE

    def _mu_maybe_none(self, n):
        return mk('is', n, NONE)

    def contains(self, a, b, st):
        an = self.node(a, st)
        if isinstance(b, PV):
            return phi(b.c, self.contains(a, b.a, st), self.contains(a, b.b, st))
        if isinstance(b, XObj) and b.kind in ('keys',):
            b = b.data
        if isinstance(b, DictV):
            r = FALSE
            self.live(b, st)
            for k, v in st.store[('d', b.loc)]:
                e = self.norm_cond(cmp_('eq', k, an), st)
                if isinstance(v, PV) and isinstance(v.a, Undef):
                    e = land(lnot(v.c), e)
                elif isinstance(v, PV) and isinstance(v.b, Undef):
                    e = land(v.c, e)
                r = lor(r, e)
            return r
        items = self.iter_items(b, st)
        if items is not None and not (isinstance(b, Node) and b.op == 'str'):
            r = FALSE
            for x in items:
                r = lor(r, cmp_('eq', self.node(x, st), an))
            return r
        bn = self.node(b, st)
        if an.op == 'str' and bn.op == 'str':
            return boolean(an.attr in bn.attr)
        return mk('in', an, bn)

    def e_IfExp(self, e, st, fr):
        c = self.truth(self.ev(e.test, st, fr), st)
        d = self.decide(c, st)
        if d is True:
            return self.ev(e.body, st, fr)
        if d is False:
            return self.ev(e.orelse, st, fr)
        return self.split(PV(c, True, False), st, fr,
                          lambda x, s2: self.ev(e.body if x else e.orelse, s2, fr))

    def e_Lambda(self, e, st, fr):
        return self.make_fn(e, st, fr, '<lambda>')

    def e_NamedExpr(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        self.assign(e.target, v, st, fr)
        return v

    def e_Starred(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def _comp(self, e, st, fr):
        """list of values or None; evaluated for concrete iterables"""
        res = []
        def rec(gens, st_):
            if not gens:
                res.append(self.ev(e.elt, st_, fr) if not isinstance(e, ast.DictComp) else
                           TupV([self.ev(e.key, st_, fr), self.ev(e.value, st_, fr)]))
                return True
            g = gens[0]
            it = self.ev(g.iter, st_, fr)
            items = self.iter_items(it, st_)
            if items is None:
                return False
            for x in items:
                self.assign(g.target, x, st_, fr)
                ok = True
                for c in g.ifs:
                    t = self.truth(self.ev(c, st_, fr), st_)
                    d = self.decide(t, st_)
                    if d is None:
                        return False
                    ok = ok and d
                if ok and not rec(gens[1:], st_):
                    return False
            return True
        if rec(e.generators, st):
            return res
        return None

    def e_ListComp(self, e, st, fr):
        r = self._comp(e, st, fr)
        if r is not None:
            return self.new_list(st, r)
        return self._symcomp(e, st, fr)

    def _symcomp(self, e, st, fr):
        if len(e.generators) == 1 and not isinstance(e, ast.DictComp):
            g = e.generators[0]
            it = self.ev(g.iter, st, fr)
            self.fcounter += 1
            iv = mk('iv', attr=self.fcounter)
            el, ln = self.sym_elem(it, iv, st, fr)
            self.assign(g.target, el, st, fr)
            conds = [self.truth(self.ev(c, st, fr), st) for c in g.ifs]
            body = self.node(self.ev(e.elt, st, fr), st)
            from . import loopforms
            if not conds:
                return self.new_list(st, SymList(loopforms.make_map(self, ln, body, iv)))
            c = TRUE
            for x in conds:
                c = land(c, x)
            return self.new_list(st, SymList(mk('filtermap', ln, body, c, attr=self.fcounter, rank=None)))
        return self.new_list(st, SymList(mk('unk', attr=('comp', self.fresh()), rank=None)))

    def e_SetComp(self, e, st, fr):
        r = self._comp(e, st, fr)
        return self.new_set(st, r if r is not None else SymList(mk('unk', attr=('comp', self.fresh()), rank=None)))

    def e_GeneratorExp(self, e, st, fr):
        return self.e_ListComp(e, st, fr)

    def e_DictComp(self, e, st, fr):
        r = self._comp(e, st, fr)
        if r is not None:
            return self.new_dict(st, [(self.node(t.items[0], st), t.items[1]) for t in r])
        self.event('unsupported', 'dictcomp')
        return self.new_dict(st, [])

    # --------------------------------------------------------------- calls
    def e_Call(self, e, st, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and ('v', fr.fid, 'super') not in st.store:
            return self.do_super(e, st, fr)
        f = self.ev(e.func, st, fr)
        args = []
        starred = False
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, fr)
                it = self.iter_items(v, st)
                if it is None:
                    n = self.node(v, st)
                    self.event('star_opaque')
                    args.append(self.wrap(st, mk('star', n, rank=None)))
                else:
                    args += it
            else:
                args.append(self.ev(a, st, fr))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, st, fr)
            if k.arg is None:
                if isinstance(v, DictV):
                    for kk, vv in st.store[('d', v.loc)]:
                        if kk.op == 'str':
                            kw[kk.attr] = vv
                else:
                    self.event('star_opaque')
            else:
                kw[k.arg] = v
        self.callsites.add((fr.module, fr.qual, getattr(e, 'lineno', 0), getattr(e, 'col_offset', 0)))
        save = self.cur
        self.cur = e
        try:
            return self.call(f, args, kw, st, fr)
        finally:
            self.cur = save

    def do_super(self, e, st, fr):
        args = [self.ev(a, st, fr) for a in e.args]
        if len(args) >= 2:
            return SuperV(args[1], args[0])
        f = fr
        while f is not None and (f.cls is None or f.fn is None):
            f = f.parent
        fn = f.fn
        a0 = fn.node.args.args[0].arg
        s = st.store.get(('v', f.fid, a0))
        ck = ('g', f.module, f.cls)
        c = st.store.get(ck)
        return SuperV(s, c)

    def call(self, f, args, kw, st, fr):
        if isinstance(f, PV):
            if isinstance(f.a, Undef):
                return self.call(f.b, args, kw, st, fr)
            if isinstance(f.b, Undef):
                return self.call(f.a, args, kw, st, fr)
            return self.split(f, st, fr, lambda x, s2: self.call(x, args, kw, s2, fr))
        if isinstance(f, Fn):
            return self.call_fn(f, args, kw, st, fr)
        if isinstance(f, BM):
            if isinstance(f.fn, Fn):
                return self.call_fn(f.fn, [f.self] + list(args), kw, st, fr)
            return self.call(f.fn, [f.self] + list(args), kw, st, fr)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw, st, fr)
        if isinstance(f, StaticV):
            return self.call(f.fn, args, kw, st, fr)
        if isinstance(f, Obj):
            m = self.getattr(f, '__call__', st, fr)
            return self.call(m, args, kw, st, fr)
        if isinstance(f, Ext):
            return self.models.call_ext(self, f.name, args, kw, st, fr)
        if isinstance(f, XM):
            return self.models.call_method(self, f.self, f.name, args, kw, st, fr)
        if isinstance(f, XObj):
            return self.models.call_xobj(self, f, args, kw, st, fr)
        if isinstance(f, Node) and f.op == 'none' or isinstance(f, (TupV, ListV, DictV)) or (isinstance(f, Node) and f.op in ('num', 'str', 'bool')):
            self.event('not_callable', repr(f))
            self.raise_(st, fr, S('TypeError'), True)
        return self.models.call_value(self, f, args, kw, st, fr)

    def instantiate(self, cls, args, kw, st, fr):
        for c in cls.mro:
            for b in c.bases:
                if isinstance(b, Ext) and b.name.startswith('builtins.') and b.name.endswith(('Error', 'Exception', 'Warning')):
                    self.exc_classes[cls.name] = cls
                    return XObj('exc', cls.name)
        oid = self.fresh()
        o = Obj(oid, cls)
        self.lococc[oid] = (self.phase, self.site())
        m, c = self.class_lookup(cls, '__init__', st)
        if m is not None:
            self.call(self.bind(m, o, c), args, kw, st, fr)
        elif args or kw:
            self.event('bad_args', cls.qual, 'takes no arguments')
            self.raise_(st, fr, S('TypeError'), True)
        return o

    def bind_args(self, fn, args, kw, st, fr):
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs] + [x.arg for x in a.args]
        env = {}
        args = list(args)
        if len(args) > len(names):
            if a.vararg is None:
                self.event('bad_args', fn.qual, 'takes %d positional arguments, got %d' % (len(names), len(args)))
                self.raise_(st, fr, S('TypeError'), True)
            env[a.vararg.arg] = TupV(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            env[a.vararg.arg] = TupV([])
        for n, v in zip(names, args):
            env[n] = v
        extra = []
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in env and k in names:
                self.event('bad_args', fn.qual, 'multiple values for ' + k)
                self.raise_(st, fr, S('TypeError'), True)
            if k in names or k in kwonly:
                env[k] = v
            elif a.kwarg is not None:
                extra.append((S(k), v))
            else:
                self.event('bad_args', fn.qual, 'unexpected keyword ' + k)
                self.raise_(st, fr, S('TypeError'), True)
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.new_dict(st, extra)
        nd = len(fn.defaults)
        for n, d in zip(names[len(names) - nd:], fn.defaults):
            if n not in env:
                env[n] = d
        for n, d in fn.kwdefaults.items():
            if n not in env:
                env[n] = d
        for n in names + kwonly:
            if n not in env:
                self.event('bad_args', fn.qual, 'missing argument ' + n)
                self.raise_(st, fr, S('TypeError'), True)
        return env

    def call_fn(self, fn, args, kw, st, fr):
        full = '%s:%s' % (fn.module, fn.qual)
        if full in self.overrides:
            return self.overrides[full](self, fn, args, kw, st, fr)
        depth = sum(1 for f in self.stack if f.fn is fn)
        env = self.bind_args(fn, args, kw, st, fr)
        if depth >= 3 or len(self.stack) > 80:
            self.event('recursion', fn.qual)
            return self.wrap(st, mk('call', *[self.node(x, st) for x in env.values()], attr=('rec:' + fn.qual, ()), rank=None))
        self.calls += 1
        self.visited.add(full)
        if self.trace is not None:
            self.trace.append(full)
        nf = Frame(self.fresh(), fn.module, cls=fn.cls, parent=fn.frame if fn.frame.qual != '<module>' else None, qual=fn.qual, fn=fn)
        if any(True for _ in ()):
            pass
        for k, v in env.items():
            st.store[('v', nf.fid, mangle(k, fn.cls))] = v
        save = self.cur
        self.stack.append(nf)
        try:
            if isinstance(fn.node, ast.Lambda):
                try:
                    v = self.ev(fn.node.body, st, nf)
                finally:
                    fr.raises += nf.raises
                if not nf.captured:
                    self.drop_frame(st, nf)
                return v
            if nf.localnames is None:
                nf.localnames = _locals_of(fn.node)
            base = st.pc
            if _is_generator(fn.node):
                self.event('unsupported', 'generator')
                return self.new_list(st, SymList(mk('unk', attr=('gen', self.fresh()), rank=None)))
            try:
                o = self.exec_block(fn.node.body, State(st.store, base), nf)
            except PyRaise:
                o = Out(None)
            fr.raises += nf.raises
            items = list(o.rets)
            if o.normal is not None:
                items.append((o.normal, NONE))
            if not items:
                raise PyRaise()
            if len(items) == 1:
                m, v = items[0]
            else:
                m, v = self.merge_many(items, base)
            if nf.raises and len(items) >= 1:
                c = FALSE
                for s_, _ in items:
                    c = lor(c, self.residual(s_, base))
                m = State(m.store, base if c.op == 'bool' else base + ((c, True),))
            else:
                m = State(m.store, base)
            if not nf.captured:
                self.drop_frame(m, nf)
            st.take(m)
            return v
        finally:
            self.stack.pop()
            self.cur = save

    def drop_frame(self, st, nf):
        names = [k for k in st.store if k[0] == 'v' and k[1] == nf.fid]
        for k in names:
            del st.store[k]

    # -------------------------------------------------------- entry points
    def boot(self, name, source, inject=None, st=None):
        """interpret a client module (harness) against the repository source"""
        st = st or self.st
        self.sources[name] = source
        for k, v in (inject or {}).items():
            st.store[('g', name, k)] = v
        self.phase = 'client'
        m = self.load_module(name, st)
        return m

    def get(self, name, var, st=None):
        st = st or self.st
        return st.store.get(('g', name, var))

    def top(self):
        fr = Frame(('m', '<top>'), '<top>', qual='<module>')
        fr.globals = None
        return fr


def _strip_coding(t):
    lines = t.split('\n', 2)
    for i in range(min(2, len(lines))):
        if 'coding' in lines[i] and lines[i].lstrip().startswith('#'):
            lines[i] = '#'
    return '\n'.join(lines)


_lc = {}


def _locals_of(fnode):
    r = _lc.get(id(fnode))
    if r is not None and r[0] is fnode:
        return r[1]
    names = set()

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            names.add(n.name)

        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_ClassDef(self, n):
            names.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Store):
                names.add(n.id)

        def visit_Global(self, n):
            for x in n.names:
                names.discard(x)

        def visit_Import(self, n):
            for a in n.names:
                names.add((a.asname or a.name).split('.')[0])

        def visit_ImportFrom(self, n):
            for a in n.names:
                names.add(a.asname or a.name)
    v = V()
    for s in fnode.body:
        v.visit(s)
    for s in ast.walk(fnode):
        if isinstance(s, ast.Global):
            for x in s.names:
                names.discard(x)
    _lc[id(fnode)] = (fnode, names)
    return names


_gc = {}


def _is_generator(fnode):
    r = _gc.get(id(fnode))
    if r is not None and r[0] is fnode:
        return r[1]
    res = False

    def rec(n):
        nonlocal res
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
                continue
            if isinstance(c, (ast.Yield, ast.YieldFrom)):
                res = True
            rec(c)
    rec(fnode)
    _gc[id(fnode)] = (fnode, res)
    return res

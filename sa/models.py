"""Semantics of the external vocabulary the repository uses (builtins, numpy,
scipy, pyfftw, ...).  Nothing external is executed: a call becomes a node of
the value graph, a write into a modelled buffer, or a recorded effect.  An
external function without a model is a pure opaque node of its arguments.
"""
import ast
from .core import *
from .values import *
from . import arrays, calculus
from .arrays import is_boolean, getitem, setitem, where, cmp_, shape_of, length_of, bcast

EW1 = {'sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'sinh', 'cosh', 'tanh', 'arcsinh', 'arccosh', 'arctanh', 'sinc',
       'floor', 'ceil', 'isnan', 'isfinite', 'isinf', 'sign', 'rint', 'log10', 'log2', 'log1p', 'expm1', 'trunc', 'fix',
       'deg2rad', 'rad2deg', 'radians', 'degrees', 'nan_to_num', 'cbrt', 'isreal', 'iscomplex', 'signbit'}
CONST = {'numpy.pi': 'pi', 'math.pi': 'pi', 'scipy.pi': 'pi', 'scipy.constants.pi': 'pi', 'numpy.e': 'e', 'math.e': 'e',
         'numpy.inf': 'inf', 'numpy.Inf': 'inf', 'math.inf': 'inf', 'numpy.nan': 'nan', 'numpy.NaN': 'nan', 'math.nan': 'nan',
         'scipy.constants.c': 'c', 'scipy.constants.speed_of_light': 'c',
         'scipy.constants.h': 'h', 'scipy.constants.Planck': 'h', 'scipy.constants.hbar': 'hbar',
         'scipy.constants.epsilon_0': 'eps0', 'scipy.constants.mu_0': 'mu0', 'scipy.constants.e': 'qe'}
DT = {'complex128': 'complex128', 'complex': 'complex128', 'complex_': 'complex128', 'cdouble': 'complex128', 'complex64': 'complex64',
      'csingle': 'complex64', 'float64': 'float64', 'float': 'float64', 'double': 'float64', 'float_': 'float64', 'float32': 'float32',
      'single': 'float32', 'int': 'int', 'int64': 'int', 'int32': 'int', 'intp': 'int', 'bool': 'bool', 'bool_': 'bool', 'uint8': 'int',
      'uint64': 'int', 'c16': 'complex128', 'f8': 'float64', 'D': 'complex128', 'd': 'float64'}


def nf_equal(a, b):
    from . import nf
    try:
        return nf.equal(a, b)
    except nf.Blowup:
        return False


class Bad(Exception):
    pass


def const_node(name):
    """node for an external constant or None"""
    c = CONST.get(name)
    if c == 'hbar':
        return div(const('h'), mul(num(2), PI))
    if c is not None:
        return const(c)
    if name in ('numpy.newaxis',):
        return NONE
    return None


def ext_value(full):
    n = const_node(full)
    return n if n is not None else Ext(full)


def ext_node(name):
    n = const_node(name)
    return n if n is not None else mk('ext', attr=name)


def is_const_ext(name):
    return name in CONST


def elem_dtype(n, d=30):
    """element type of an array whose origin settles it"""
    if n.op in ('uf', 'sym') and n.rank:
        return {'cplx': 'complex128', 'real': 'float64', 'pos': 'float64'}.get(n.attr[2])
    if n.op in ('fft', 'ifft'):
        return 'complex128'
    if d < 0:
        return None
    o = n.op
    if o == 'num':
        return 'weakc' if n.attr[1] else 'weak'
    if o == 'const':
        return 'weak'
    if o in ('sym', 'uf'):
        return {'cplx': 'weakc', 'real': 'weak', 'pos': 'weak', 'int': 'weak', 'posint': 'weak'}.get(n.attr[2])
    if o in ('add', 'mul', 'pow', 'neg', 'exp', 'sqrt', 'conj', 'phi', 'where', 'setitem', 'roll', 'fftshift', 'ifftshift') and n.args:
        a = n.args[-2:] if o in ('phi', 'where') else n.args[:1] if o in ('setitem', 'roll', 'fftshift', 'ifftshift', 'conj') else n.args
        ts = [elem_dtype(x, d - 1) for x in a]
        if None in ts:
            return None
        if 'complex128' in ts or 'weakc' in ts and 'float64' in ts:
            return 'complex128'
        return 'float64' if 'float64' in ts else 'weakc' if 'weakc' in ts else 'weak'
    if o in ('abs', 'real', 'imag', 'angle') and n.args:
        t = elem_dtype(n.args[0], d - 1)
        return {'complex128': 'float64', 'float64': 'float64', 'weak': 'weak', 'weakc': 'weak'}.get(t)
    return None


def arr_dtype(eng, st, o):
    """element type of an array object: recorded at its creation, else what its value settles"""
    if not isinstance(o, Arr):
        return None
    d = st.store.get(('t', o.loc))
    if isinstance(d, str):
        return d
    d = elem_dtype(eng.node(o, st))
    return d if d in ('complex128', 'float64') else None


def nan_when(n, d=20):
    """condition under which a real scalar formula has no value (root of a negative number, arccos outside -1..1), or None"""
    if d < 0:
        return None
    if n.op in ('uf', 'num', 'sym'):
        return FALSE if arrays.is_real(n) else None
    if n.op == 'const':
        return FALSE
    if n.op in ('add', 'mul', 'neg', 'sub', 'pow') or n.op == 'el' and n.attr in ('arccos', 'arcsin'):
        r = FALSE
        for a in n.args:
            c = nan_when(a, d - 1) if a.op != 'pow' or a.args[1].op == 'num' else None
            if c is None:
                return None
            r = lor(r, c)
        if n.op == 'pow' and n.args[1].op == 'num' and n.args[1].attr[0].denominator != 1:
            r = lor(r, cmp_('lt', n.args[0], ZERO))
        if n.op == 'el':
            r = lor(r, lor(cmp_('lt', n.args[0], num(-1)), cmp_('lt', ONE, n.args[0])))
        return r
    if n.op in ('where', 'phi') and len(n.args) == 3:
        a, b = nan_when(n.args[1], d - 1), nan_when(n.args[2], d - 1)
        return None if a is None or b is None else a if a is b else where(n.args[0], a, b)
    return None


def plain(n, d=20):
    """arithmetic without division or roots on scalar symbols, which stand for finite numbers"""
    if d < 0:
        return False
    if n.op == 'num':
        return True
    if n.op == 'sym':
        return n.rank == 0
    if n.op in ('add', 'mul', 'neg', 'sub'):
        return all(plain(a, d - 1) for a in n.args)
    if n.op == 'pow':
        b, e = n.args
        return plain(b, d - 1) and e.op == 'num' and (e.attr[0] > 0 and e.attr[0].denominator == 1 or b.op == 'sym' and b.attr[2] in ('pos', 'posint'))
    if n.op in ('max', 'min', 'maximum', 'minimum', 'phi', 'where', 'call'):
        return n.op != 'call' and all(plain(a, d - 1) for a in n.args[-2:])
    return False


def is_integer(n, d=20):
    if d < 0:
        return False
    o = n.op
    if o == 'num':
        return n.attr[1] == 0 and n.attr[0].denominator == 1
    if o == 'sym':
        return n.attr[2] in ('int', 'posint')
    if o in ('iv', 'bv', 'len', 'int', 'bool', 'argmin', 'argmax'):
        return True
    if o in ('add', 'mul'):
        return all(is_integer(a, d - 1) for a in n.args)
    if o in ('floordiv', 'mod', 'phi'):
        return all(is_integer(a, d - 1) for a in n.args[-2:])
    if o == 'pow':
        return is_integer(n.args[0], d - 1) and n.args[1].op == 'num' and is_integer(n.args[1]) and n.args[1].attr[0] >= 0
    if o in ('arange', 'iota'):
        return all(is_integer(a, d - 1) for a in n.args)
    if o == 'getitem':
        return n.args[0].op == 'shape' or is_integer(n.args[0], d - 1)
    if o == 'call':
        return n.attr[0] in ('argmin', 'argmax')
    return False


# ------------------------------------------------------------------ strings
def to_str(n):
    if n.op == 'str' or arrays.kind_of(n) == 's':
        return n
    if n.op == 'num' and n.attr[1] == 0 and n.attr[2] == 'i':
        return S(str(int(n.attr[0])))
    if n.op == 'none':
        return S('None')
    if n.op == 'bool':
        return S(str(n.attr))
    if n.op == 'phi':
        return phi(n.args[0], to_str(n.args[1]), to_str(n.args[2]))
    return mk('tostr', n)


def strcat(parts):
    flat = []
    for p in parts:
        for q in (p.args if p.op == 'strcat' else (p,)):
            if q.op == 'str' and q.attr == '':
                continue
            if flat and q.op == 'str' and flat[-1].op == 'str':
                flat[-1] = S(flat[-1].attr + q.attr)
            else:
                flat.append(q)
    if not flat:
        return S('')
    if len(flat) == 1:
        return flat[0]
    return mk('strcat', *flat)


def fmt_percent(f, args):
    """'%s_%s' % (a, b) with plain specifiers -> strcat, else None"""
    import re
    parts, i, k = [], 0, 0
    for m in re.finditer(r'%(%|[srd]|r)', f):
        parts.append(S(f[i:m.start()]))
        i = m.end()
        if m.group(1) == '%':
            parts.append(S('%'))
            continue
        if k >= len(args):
            return None
        a = args[k]
        k += 1
        if m.group(1) == 'd' and not is_integer(a):
            return None
        if m.group(1) == 'r' and arrays.kind_of(a) != 'n':
            return None
        parts.append(to_str(a))
    parts.append(S(f[i:]))
    if k != len(args) or '%' in re.sub(r'%(%|[srd])', '', f):
        return None
    return strcat(parts)


def floordiv(a, b):
    ia, ib = intval(a), intval(b)
    if ia is not None and ib:
        return num(ia // ib)
    if ib and is_integer(a):
        m = arrays.monomial(a)
        if m and (m[0]/ib).denominator == 1 and m[1]:
            q = num(m[0]/ib)
            for f in m[1]:
                q = mul(q, f)
            return q
    return mk('floordiv', a, b)


# -------------------------------------------------------------------- utils
def _kwpop(args, kw, names, defaults=()):
    """positional/keyword binding for a modelled function; unknown keywords raise Bad"""
    out = list(args)
    kw = dict(kw)
    for n in names[len(out):]:
        out.append(kw.pop(n, None))
    if kw or len(out) > len(names):
        raise Bad()
    return out


def dtype_of(v):
    if v is None or v is NONE:
        return None
    if isinstance(v, Node) and v.op == 'str':
        return DT.get(v.attr)
    if isinstance(v, Ext):
        return DT.get(v.name.split('.')[-1])
    return None


def _shape_node(eng, v, st):
    n = eng.node(v, st)
    if n.op == 'list':
        n = tup(n.args)
    if n.op == 'tuple' and n.args or n.op == 'shape':
        return n
    if n.op == 'call' or n.rank != 0:
        return n
    return tup([n])


def _shape_rank(sh):
    if sh.op == 'tuple':
        return len(sh.args)
    if sh.op == 'shape':
        return sh.args[0].rank
    return None


def N_(eng, a, st):
    return eng.node(a, st)


def opaque(eng, name, args, kw, st, rank=None):
    ns = [eng.node(a, st) for a in args] + [eng.node(kw[k], st) for k in sorted(kw)]
    return mk('call', *ns, attr=(name, tuple(sorted(kw)), rank))


def _axis(n):
    return intval(n) if n is not None and n is not NONE else None


def elements(x, n=None):
    """the elements of a rank-1 array built from lists of known length, or None"""
    if x.op == 'list' and x.rank == 1:
        return list(x.args)
    if x.rank != 1 or x.op not in ('mul', 'add', 'lt', 'eq', 'and', 'or', 'not', 'xor', 'abs', 'truth', 'cast', 'el'):
        return None
    cols = []
    n = None
    for a in x.args:
        if a.rank == 1:
            e = elements(a)
            if e is None or n is not None and len(e) != n or len(e) > 64:
                return None
            n = len(e)
            cols.append(e)
        elif a.rank == 0:
            cols.append(None)
        else:
            return None
    if n is None:
        return None
    return [rebuild(x, [a if col is None else col[k] for a, col in zip(x.args, cols)]) for k in range(n)]


def _boolean(x):
    if x.op == 'mul' and all(is_boolean(a) for a in x.args):
        r = TRUE
        for a in x.args:
            r = land(r, _boolean(a))
        return r
    return x


def _reduce(eng, op, a, axis, st, kind=None):
    x = eng.node(a, st)
    if x.rank == 0:
        return x if op != 'mean' else x
    k = None
    if axis is not None and axis is not NONE:
        k = intval(eng.node(axis, st))
        if k is None:
            return mk('call', x, eng.node(axis, st), attr=(op, (), None))
        if x.rank is not None and k < 0:
            k += x.rank
        if x.rank == 1:
            k = None
        elif op in ('sum', 'mean') and x.args and (x.op == 'planes' and k == x.attr or x.op in ('list', 'stack') and k == 0 and x.rank == 3):
            r = x.args[0]
            for y in x.args[1:]:
                r = add(r, y)
            return mul(r, num(Fraction(1, len(x.args)))) if op == 'mean' else r
        elif x.rank is not None:
            r = mk('call', x, num(k), attr=(op, ('axis',), x.rank - 1))
            return r
        else:
            return mk('call', x, num(k), attr=(op, ('axis',), None))
    if op in ('sum', 'trapz', 'max', 'min', 'mean', 'prod', 'any', 'all', 'argmin', 'argmax', 'std', 'median'):
        if op in ('any', 'all') and x.rank == 1 and is_boolean(x):
            els = elements(x)
            if els is not None:
                r = FALSE if op == 'any' else TRUE
                for y in els:
                    r = lor(r, _boolean(y)) if op == 'any' else land(r, _boolean(y))
                return r
        if x.op == 'list' and x.rank == 1 and op == 'sum':
            r = ZERO
            for y in x.args:
                r = add(r, y)
            return r
        if op in ('sum', 'max', 'min', 'mean', 'any', 'all'):
            return mk(op, x)
        return mk('call', x, attr=(op, (), 0))
    return mk('call', x, attr=(op, (), 0))


def _write_out(eng, out, v, st):
    if isinstance(out, Arr):
        eng.write_arr(st, out, None, v)
        return out
    return None


# ------------------------------------------------------------- call: externals
SETTINGS = {'os.chdir', 'os.putenv', 'os.umask', 'os.environ.update', 'os.environ.setdefault', 'os.environ.pop', 'os.setuid', 'os.nice',
            'warnings.filterwarnings', 'warnings.simplefilter', 'warnings.resetwarnings', 'logging.basicConfig', 'logging.disable',
            'sys.setrecursionlimit', 'sys.setswitchinterval', 'gc.disable', 'gc.enable', 'gc.set_threshold', 'gc.freeze',
            'numpy.seterr', 'numpy.seterrcall', 'numpy.setbufsize', 'numpy.set_printoptions', 'numpy.set_string_function',
            'matplotlib.use', 'matplotlib.rc', 'matplotlib.rcdefaults', 'matplotlib.pyplot.switch_backend', 'matplotlib.pyplot.rc',
            'matplotlib.pyplot.ion', 'matplotlib.pyplot.ioff', 'matplotlib.interactive', 'atexit.register', 'scipy.special.seterr',
            'sys.path.append', 'sys.path.insert'}


def call_ext(eng, name, args, kw, st, fr):
    if name in SETTINGS or name.startswith(('locale.set', 'signal.signal', 'faulthandler.', 'readline.')):
        eng.event('effect', 'setting', name)
    elif name in ('sys.exit', 'os._exit', 'os.abort', 'os.kill', 'builtins.exit', 'builtins.quit', 'exit', 'quit'):
        eng.event('effect', 'exit', name)
    ov = eng.ext_overrides.get(name)
    if ov is not None:
        return ov(eng, args, kw, st, fr)
    if name.startswith('builtins.'):
        return call_builtin(eng, name[9:], args, kw, st, fr)
    # distribute over condition-dependent non-numeric arguments
    for i, a in enumerate(args):
        if isinstance(a, PV) and not eng._numeric(a, st) and not _has_undef(a):
            def go(x, s2, i=i):
                return call_ext(eng, name, list(args[:i]) + [x] + list(args[i + 1:]), kw, s2, fr)
            return eng.split(a, st, fr, go)
    root = name.split('.')[0]
    try:
        if root in ('numpy', 'scipy', 'math', 'cmath'):
            r = call_numpy(eng, name, list(args), dict(kw), st, fr)
            if r is not None:
                return r
        elif root == 'pyfftw':
            r = call_pyfftw(eng, name, list(args), dict(kw), st, fr)
            if r is not None:
                return r
    except Bad:
        eng.event('model_args', name)
    if root in ('matplotlib', 'pylab', 'mpl_toolkits'):
        eng.event('effect', 'plot', name)
        return XObj('plt', name)
    if root == 'tables':
        eng.event('effect', 'file', name)
        return XObj('h5', name)
    if root in ('logging', 'warnings'):
        eng.event('effect', 'log', name)
        return XObj('log', name) if root == 'logging' else NONE
    if root in ('time', 'datetime'):
        eng.event('effect', 'clock', name)
    if root in ('shutil', 'subprocess', 'tempfile', 'socket', 'urllib') or name in (
            'os.remove', 'os.mkdir', 'os.makedirs', 'os.system', 'os.rename', 'os.unlink', 'os.chdir', 'os.rmdir', 'os.putenv', 'io.open'):
        eng.event('effect', 'file', name)
    if name in ('os.path.join', 'os.path.basename', 'os.path.dirname', 'os.path.splitext', 'os.path.normpath') and not kw:
        ns = [N_(eng, a, st) for a in args]
        if all(x.op == 'str' for x in ns):
            import posixpath
            r = getattr(posixpath, name.split('.')[-1])(*[x.attr for x in ns])
            return TupV([S(x) for x in r]) if isinstance(r, tuple) else S(r)
    if root == 'gc':
        return NONE
    if root == 'sys' and name == 'sys.exit':
        eng.raise_(st, fr, XObj('exc', 'SystemExit'))
    if root == 'copy':
        if name == 'copy.deepcopy':
            return deepcopy(eng, args[0], st, {})
        return shallow(eng, args[0], st)
    if root == 'random':
        return eng.wrap(st, rng_draw(eng, st, name, [], 0))
    if name == 'functools.partial':
        return XObj('partial', (args[0], tuple(args[1:]), tuple(sorted(kw.items()))))
    if root == 'functools' or root == 'contextlib':
        return args[0] if args else NONE
    if root == 'operator':
        f = name.split('.')[1]
        ops = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mult', 'truediv': 'Div', 'pow': 'Pow'}
        if f in ops:
            return eng.binop_v(ops[f], args[0], args[1], st, fr)
    if name == 'collections.OrderedDict' or name == 'collections.defaultdict':
        return eng.new_dict(st, [])
    if name == 'collections.namedtuple':
        return XObj('namedtuple', 'nt')
    return eng.wrap(st, opaque(eng, name, args, kw, st))


def _has_undef(v):
    return isinstance(v, PV) and (isinstance(v.a, Undef) or isinstance(v.b, Undef) or _has_undef(v.a) or _has_undef(v.b))


# ---------------------------------------------------------------- builtins
def call_builtin(eng, f, args, kw, st, fr):
    W = lambda n: eng.wrap(st, n)
    N = lambda v: eng.node(v, st)
    if f.endswith(('Error', 'Exception', 'Warning')) or f in ('StopIteration', 'KeyboardInterrupt', 'SystemExit'):
        return XObj('exc', f)
    if f in ('isinstance', 'type', 'hasattr', 'getattr', 'setattr', 'len', 'callable', 'int', 'float', 'str', 'id', 'issubclass', 'list', 'tuple',
             'bool', 'hash', 'iter', 'enumerate', 'zip', 'sorted', 'repr', 'abs', 'sum', 'min', 'max', 'range', 'reversed', 'complex', 'dict', 'set'):
        for i, a in enumerate(args):
            if isinstance(a, PV) and not (f in ('abs', 'float', 'int', 'str', 'min', 'max', 'bool', 'complex') and eng._numeric(a, st)):
                if _has_undef(a):
                    args = list(args)
                    args[i] = eng.defined(a, f)
                    continue
                def go(x, s2, i=i):
                    return call_builtin(eng, f, list(args[:i]) + [x] + list(args[i + 1:]), kw, s2, fr)
                return eng.split(a, st, fr, go)
    if f == 'range' or f == 'xrange':
        ns = [N(a) for a in args]
        if len(ns) == 1:
            return XObj('range', (num(0), ns[0], num(1)))
        if len(ns) == 2:
            return XObj('range', (ns[0], ns[1], num(1)))
        return XObj('range', tuple(ns))
    if f == 'enumerate':
        start = args[1] if len(args) > 1 else kw.get('start', ZERO)
        return XObj('enumerate', (args[0], N(start)))
    if f == 'zip':
        return XObj('zip', tuple(args))
    if f == 'reversed':
        return XObj('reversed', args[0])
    if f == 'iter':
        return args[0]
    if f == 'map':
        its = [eng.iter_items(a, st) for a in args[1:]]
        if all(i is not None for i in its):
            return eng.new_list(st, [eng.call(args[0], list(t), {}, st, fr) for t in zip(*its)])
        return W(opaque(eng, 'map', args, kw, st))
    if f == 'filter':
        return W(opaque(eng, 'filter', args, kw, st))
    if f == 'len':
        a = args[0]
        it = eng.iter_items(a, st) if not isinstance(a, (Arr,)) else None
        if it is not None:
            return num(len(it))
        if isinstance(a, Obj):
            return eng.call(eng.getattr(a, '__len__', st, fr), [], {}, st, fr)
        n = N(a)
        if n.op == 'str':
            return num(len(n.attr))
        return length_of(n)
    if f == 'int':
        n = N(args[0])
        return W(_int(n))
    if f == 'round':
        n = N(args[0])
        if len(args) > 1:
            return W(mk('el', n, N(args[1]), attr='round'))
        if is_integer(n):
            return W(n)
        return W(mk('round', n))
    if f == 'float':
        n = N(args[0])
        if n.op == 'str':
            try:
                return num(float(n.attr))
            except ValueError:
                eng.raise_(st, fr, XObj('exc', 'ValueError'), True)
        if n.rank == 0 and arrays.kind_of(n) == 'n':
            return n
        return mk('cast', n, attr='float64') if n.rank == 0 else mk('cast', getitem(n, ZERO) if n.rank == 1 else n, attr='float64')
    if f == 'complex':
        ns = [N(a) for a in args]
        return W(ns[0] if len(ns) == 1 else add(ns[0], mul(num(1j), ns[1])))
    if f == 'bool':
        return eng.truth(args[0], st)
    if f in ('str', 'unicode'):
        return to_str(N(args[0])) if args else S('')
    if f == 'repr':
        n = N(args[0])
        return to_str(n) if arrays.kind_of(n) == 'n' else mk('repr', n, rank=0)
    if f == 'format':
        return mk('fmt', *[N(a) for a in args])
    if f == 'abs':
        return W(mk_abs(N(args[0])))
    if f == 'pow':
        return W(power(N(args[0]), N(args[1])))
    if f == 'divmod':
        a, b = N(args[0]), N(args[1])
        return TupV([W(floordiv(a, b)), eng.binop('Mod', a, b, st)])
    if f in ('min', 'max'):
        if len(args) == 1:
            items = eng.iter_items(args[0], st)
            if items is None:
                return W(_reduce(eng, f, args[0], None, st))
        else:
            items = args
        ns = [N(a) for a in items]
        r = ns[0]
        for x in ns[1:]:
            if isnum(r) and isnum(x):
                r = x if (numval(x)[0] < numval(r)[0]) == (f == 'min') else r
            elif x is not r:
                c = cmp_('lt', x, r) if f == 'min' else cmp_('lt', r, x)
                r = phi(c, x, r)
        return W(r)
    if f == 'sum':
        items = eng.iter_items(args[0], st)
        if items is not None:
            r = N(args[1]) if len(args) > 1 else ZERO
            for x in items:
                r = add(r, N(x))
            return W(r)
        x = N(args[0])
        if x.rank == 1 or x.op == 'map':
            r = mk('sum', x)
            return W(add(N(args[1]), r) if len(args) > 1 else r)
        return W(opaque(eng, 'sum', args, kw, st))
    if f in ('all', 'any'):
        items = eng.iter_items(args[0], st)
        if items is not None:
            r = TRUE if f == 'all' else FALSE
            for x in items:
                t = eng.truth(x, st)
                r = land(r, t) if f == 'all' else lor(r, t)
            return r
        return W(mk(f, N(args[0])))
    if f == 'print':
        eng.event('effect', 'print')
        return NONE
    if f == 'input':
        eng.event('effect', 'input')
        return mk('sym', attr=('input', 0, 'str'))
    if f == 'isinstance':
        return isinst(eng, args[0], args[1], st)
    if f == 'issubclass':
        a, b = args
        if isinstance(a, Cls) and isinstance(b, Cls):
            return boolean(b in a.mro)
        return mk('isinst', N(a), N(b))
    if f == 'type':
        return typeof(eng, args[0], st)
    if f == 'callable':
        a = args[0]
        if isinstance(a, (Fn, BM, Cls, XM, Ext, XObj)):
            return TRUE
        if isinstance(a, Node) and a.op not in ('sym', 'mu', 'call', 'getitem', 'attr', 'unk'):
            return boolean(a.op in ('lam', 'fn'))
        if isinstance(a, (Arr, TupV, ListV, DictV)):
            return FALSE
        return mk('truth', mk('attr', N(a), attr='callable'))
    if f == 'getattr':
        nm = N(args[1])
        if nm.op == 'str':
            return eng.getattr(args[0], nm.attr, st, fr, args[2] if len(args) > 2 else None)
        return W(opaque(eng, 'getattr', args, kw, st))
    if f == 'setattr':
        nm = N(args[1])
        if nm.op == 'str':
            eng.setattr(args[0], nm.attr, args[2], st, fr)
        else:
            eng.event('dynamic_setattr')
        return NONE
    if f == 'delattr':
        nm = N(args[1])
        if nm.op == 'str' and isinstance(args[0], Obj):
            st.store.pop(('f', args[0].oid, nm.attr), None)
        return NONE
    if f == 'hasattr':
        nm = N(args[1])
        if nm.op == 'str' and isinstance(args[0], (Obj, Cls, ModV)):
            o = args[0]
            if isinstance(o, Obj):
                if ('f', o.oid, nm.attr) in st.store:
                    v = st.store[('f', o.oid, nm.attr)]
                    if isinstance(v, PV) and isinstance(v.a, Undef):
                        return lnot(v.c)
                    if isinstance(v, PV) and isinstance(v.b, Undef):
                        return v.c
                    return TRUE
                return boolean(eng.class_lookup(o.cls, nm.attr, st)[0] is not None)
            if isinstance(o, Cls):
                return boolean(eng.class_lookup(o, nm.attr, st)[0] is not None)
            return boolean(('g', o.name, nm.attr) in st.store)
        return mk('truth', opaque(eng, 'hasattr', args, kw, st, 0))
    if f == 'property':
        a = list(args) + [None] * 4
        return PropV(a[0] if a[0] is not None else kw.get('fget'), a[1] if a[1] is not None else kw.get('fset'), a[2])
    if f == 'staticmethod':
        return StaticV(args[0], 'static')
    if f == 'classmethod':
        return StaticV(args[0], 'class')
    if f == 'list':
        if not args:
            return eng.new_list(st, ())
        items = eng.iter_items(args[0], st)
        if items is not None:
            return eng.new_list(st, items)
        n = N(args[0]) if not isinstance(args[0], XObj) else None
        if n is None and args[0].kind == 'range':
            a, b, s = args[0].data
            n = mk('arange', a, b, s)
        return eng.new_list(st, SymList(n if n is not None else mk('unk', attr=('list', eng.fresh()), rank=None)))
    if f == 'tuple':
        items = eng.iter_items(args[0], st) if args else []
        if items is not None:
            return TupV(items)
        return W(N(args[0]))
    if f in ('set', 'frozenset'):
        items = eng.iter_items(args[0], st) if args else []
        return eng.new_set(st, items if items is not None else SymList(N(args[0])))
    if f == 'dict':
        items = []
        if args:
            a = args[0]
            if isinstance(a, DictV):
                items = list(st.store[('d', a.loc)])
            else:
                it = eng.iter_items(a, st)
                if it is None:
                    return eng.new_arr(st, N(a)) if not kw else W(opaque(eng, 'dict', args, kw, st))
                for p in it:
                    k, v = eng.iter_items(p, st)
                    items.append((N(k), v))
        items += [(S(k), v) for k, v in kw.items()]
        return eng.new_dict(st, items)
    if f == 'sorted':
        items = eng.iter_items(args[0], st)
        if items is not None:
            ns = [N(x) for x in items]
            if all(isnum(x) and numval(x)[1] == 0 for x in ns) and not kw:
                return eng.new_list(st, sorted(ns, key=lambda x: numval(x)[0]))
            if all(x.op == 'str' for x in ns) and not kw:
                return eng.new_list(st, sorted(ns, key=lambda x: x.attr))
        return eng.new_list(st, SymList(opaque(eng, 'sorted', args, kw, st, 1)))
    if f == 'locals':
        items = []
        for k, v in st.store.items():
            if k[0] == 'v' and k[1] == fr.fid:
                items.append((S(k[2]), v))
        return eng.new_dict(st, items)
    if f == 'globals':
        return eng.new_dict(st, [(S(k[2]), v) for k, v in st.store.items() if k[0] == 'g' and k[1] == fr.module])
    if f == 'vars':
        if args and isinstance(args[0], Obj):
            return eng.obj_dict(args[0], st)
        return eng.new_dict(st, [])
    if f == 'hash':
        return mk('hash', N(args[0]), rank=0)
    if f == 'id':
        return mk('ident', N(args[0]), rank=0)
    if f == 'object':
        return XObj('object', eng.fresh())
    if f == 'slice':
        ns = [N(a) for a in args]
        if len(ns) == 1:
            ns = [NONE, ns[0]]
        while len(ns) < 3:
            ns.append(NONE)
        return mk('slice', *ns)
    if f == 'open':
        mode = N(args[1]) if len(args) > 1 else N(kw['mode']) if 'mode' in kw else S('r')
        eng.event('effect', 'file-read' if mode.op == 'str' and not any(c in mode.attr for c in 'wax+') else 'file', 'open')
        return XObj('file', N(args[0]))
    if f == 'next':
        items = eng.iter_items(args[0], st)
        if items:
            return items[0]
        return W(opaque(eng, 'next', args, kw, st))
    if f in ('exit', 'quit'):
        eng.raise_(st, fr, XObj('exc', 'SystemExit'))
    # ---- harness vocabulary
    if f == 'UF':                      # UF('name', *args, rank=, typ=)
        nm = N(args[0]).attr
        r = intval(N(kw['rank'])) if 'rank' in kw else max([N(a).rank or 0 for a in args[1:]] + [0])
        t = N(kw['typ']).attr if 'typ' in kw else 'cplx'
        xs = [N(a) for a in args[1:]]
        if 'len' in kw:
            return W(mk('uf', *(xs + [N(kw['len'])]), attr=(nm, r, t, 'len')))
        if r and sum(1 for x in xs if x.rank) == 1 and 'like' in kw:
            return W(mk('uf', *xs, attr=(nm, r, t, 'like')))
        return W(mk('uf', *xs, attr=(nm, r, t)))
    if f == 'SYM':                     # SYM('name', rank, typ[, length])
        nm = N(args[0]).attr
        if not isinstance(nm, str):
            raise Bad('name of a symbol')
        r = intval(N(args[1])) if len(args) > 1 else 0
        t = N(args[2]).attr if len(args) > 2 else 'real'
        n = mk('sym', *[N(a) for a in args[3:]], attr=(nm, r, t))
        if r and len(args) > 3:
            return eng.new_arr(st, n, {'cplx': 'complex128', 'pos': 'float64', 'real': 'float64'}.get(t))
        return W(n)
    if f == 'observe':
        eng.observed.append((N(args[0]).attr, [N(a) for a in args[1:]], st.pc))
        return NONE
    if f == 'EQ':                      # EQ('label', observed, specified)
        eng.observed.append(('eq', N(args[0]).attr, [N(a) for a in args[1:]], st.pc, eng.site()))
        return NONE
    if f == 'HOLDS':                   # HOLDS('label', condition)
        eng.observed.append(('holds', N(args[0]).attr, [eng.truth(args[1], st)], st.pc, eng.site()))
        return NONE
    if f == 'MARK':                    # MARK('label'): position in the event log and a store snapshot
        eng.observed.append(('mark', N(args[0]).attr, (len(eng.events), dict(st.store)), st.pc, eng.site()))
        return NONE
    if f == 'VALUE':                   # VALUE('label', v): hand a value to the host-side rule
        eng.observed.append(('value', N(args[0]).attr, list(args[1:]), st.pc, eng.site(), st))
        return NONE
    if f == 'SHARES':                  # do two values share mutable storage?
        return boolean(bool(reach(eng, args[0], st) & reach(eng, args[1], st)))
    if f == 'RENAME':                  # RENAME(value, old, new, old, new…): the value with some inputs exchanged for others
        ns = [N(a) for a in args[1:]]
        return W(subst(N(args[0]), dict(zip(ns[::2], ns[1::2]))))
    if f == 'STORED':                  # raw field of an object, bypassing properties
        k = ('f', args[0].oid, N(args[1]).attr)
        return st.store.get(k, NONE)
    if f == 'object.__init__':
        return NONE
    eng.event('unmodelled_builtin', f)
    return W(opaque(eng, f, args, kw, st))


def reach(eng, v, st, seen=None):
    """mutable cells reachable from a value"""
    seen = set() if seen is None else seen
    def go(v):
        if isinstance(v, Arr):
            seen.add(v.loc)
        elif isinstance(v, TupV):
            for x in v.items:
                go(x)
        elif isinstance(v, PV):
            go(v.a)
            go(v.b)
        elif isinstance(v, (ListV, SetV)):
            if v.loc not in seen:
                seen.add(v.loc)
                c = st.store.get(('l', v.loc), ())
                for x in (c if not isinstance(c, SymList) else ()):
                    go(x)
        elif isinstance(v, DictV):
            if v.loc not in seen:
                seen.add(v.loc)
                for k, x in st.store.get(('d', v.loc), ()):
                    go(x)
        elif isinstance(v, Obj):
            if ('o', v.oid) not in seen:
                seen.add(('o', v.oid))
                for k in list(st.store):
                    if k[0] == 'f' and k[1] == v.oid:
                        go(st.store[k])
    go(v)
    return seen


def _int(n):
    if is_integer(n):
        return n
    if n.op == 'num' and n.attr[1] == 0:
        v = n.attr[0]
        return num(int(v))
    if n.op == 'str':
        try:
            return num(int(n.attr))
        except ValueError:
            pass
    if n.op == 'phi':
        return phi(n.args[0], _int(n.args[1]), _int(n.args[2]))
    return mk('int', n)


def mk_abs(n):
    if n.op == 'num' and n.attr[1] == 0:
        return cnum(abs(n.attr[0]), n.attr[1], n.attr[2])
    if arrays.is_nonneg(n) and n.rank == 0:
        return n
    if n.op == 'abs':
        return n
    return mk('abs', n)


def mk_conj(n):
    if n.op == 'num':
        return cnum(n.attr[0], -n.attr[1], n.attr[2])
    if n.op == 'conj':
        return n.args[0]
    if n.rank == 0 and arrays.is_real(n):
        return n
    return mk('conj', n)


def mk_real(n):
    if n.op == 'num':
        return cnum(n.attr[0], Fraction(0), 'f')
    return mk('real', n)


def mk_imag(n):
    if n.op == 'num':
        return cnum(n.attr[1], Fraction(0), 'f')
    return mk('imag', n)


def mk_exp(n):
    if n.op == 'num' and n.attr[:2] == (0, 0):
        return ONE
    return mk('exp', n)


def typeof(eng, a, st):
    if isinstance(a, Obj):
        return a.cls
    if isinstance(a, Arr):
        n = eng.read_arr(st, a)
        if n.rank is not None and n.rank >= 1:
            return Ext('numpy.ndarray')
        return eng.wrap(st, mk('typeof', n, rank=0))
    if isinstance(a, ListV):
        return Ext('builtins.list')
    if isinstance(a, TupV):
        return Ext('builtins.tuple')
    if isinstance(a, DictV):
        return Ext('builtins.dict')
    if isinstance(a, Node):
        k = arrays.kind_of(a)
        if k == 's':
            return Ext('builtins.str')
        if a.op == 'none':
            return Ext('builtins.NoneType')
        if arrays.is_boolean(a):
            return Ext('builtins.bool')
        if a.op == 'num':
            return Ext({'i': 'builtins.int', 'f': 'builtins.float', 'c': 'builtins.complex'}[a.attr[2]])
        if a.op == 'sym' and a.attr[2] in ('int', 'posint'):
            return Ext('builtins.int')
        if k == 'n' and a.rank == 0:
            return Ext('builtins.float')
        return mk('typeof', a, rank=0)
    return mk('typeof', eng.node(a, st), rank=0)


def isinst(eng, a, c, st):
    cs = eng.iter_items(c, st) if isinstance(c, (TupV, ListV)) else [c]
    r = FALSE
    for k in cs:
        r = lor(r, _isinst1(eng, a, k, st))
    return r


def _isinst1(eng, a, c, st):
    if isinstance(c, Cls):
        if isinstance(a, Obj):
            return boolean(c in a.cls.mro)
        if isinstance(a, Node) and a.op in ('sym', 'mu', 'call', 'getitem', 'attr'):
            return mk('isinst', a, mk('ext', attr='class:' + c.qual))
        return FALSE
    if isinstance(c, Ext):
        nm = c.name.split('.')[-1]
        if isinstance(a, Obj):
            return boolean(nm == 'object')
        if isinstance(a, Arr):
            n = eng.read_arr(st, a)
            if n.rank is not None and n.rank >= 1:
                return boolean(nm in ('ndarray', 'object', 'Iterable', 'Sized'))
            return mk('isinst', n, mk('ext', attr=c.name))
        if isinstance(a, ListV):
            return boolean(nm in ('list', 'object', 'Iterable', 'Sequence', 'Sized'))
        if isinstance(a, TupV):
            return boolean(nm in ('tuple', 'object', 'Iterable', 'Sequence', 'Sized'))
        if isinstance(a, DictV):
            return boolean(nm in ('dict', 'object', 'Mapping'))
        if isinstance(a, (Fn, BM)):
            return boolean(nm in ('FunctionType', 'Callable', 'object'))
        if isinstance(a, Node):
            k = arrays.kind_of(a)
            if k == 's':
                return boolean(nm in ('str', 'basestring', 'unicode', 'object', 'string_types'))
            if a.op == 'none':
                return FALSE
            if a.op == 'num':
                t = a.attr[2]
                return boolean((nm in ('int', 'Integral', 'integer', 'int64') and t == 'i') or (nm in ('float', 'floating', 'float64') and t == 'f') or
                               (nm in ('complex', 'complexfloating') and t == 'c') or nm in ('Number', 'object') or (nm == 'Real' and t in 'if'))
            if a.op == 'bool':
                return boolean(nm in ('bool', 'int', 'object', 'Number', 'bool_'))
            if k == 'n' and a.rank == 0:
                if nm in ('ndarray', 'list', 'tuple', 'str', 'dict', 'basestring'):
                    return FALSE
                if nm in ('Number', 'object'):
                    return TRUE
                if a.op == 'sym' and a.attr[2] in ('int', 'posint'):
                    return boolean(nm in ('int', 'Integral', 'integer', 'Real'))
                if a.op == 'sym' and a.attr[2] in ('pos', 'real'):
                    return boolean(nm in ('float', 'floating', 'Real')) if nm in ('float', 'floating', 'Real', 'int', 'complex') else mk('isinst', a, mk('ext', attr=c.name))
            return mk('isinst', a, mk('ext', attr=c.name))
    return mk('isinst', eng.node(a, st), eng.node(c, st))


# ------------------------------------------------------------------- copying
def deepcopy(eng, v, st, memo):
    if isinstance(v, Arr):
        k = ('A', v.loc, v.path)
        if k not in memo:
            if v.path:
                memo[k] = eng.new_arr(st, eng.read_arr(st, v), st.store.get(('t', v.loc)))
            else:
                memo[k] = eng.new_arr(st, st.store[('h', v.loc)], st.store.get(('t', v.loc)))
        return memo[k]
    if isinstance(v, Obj):
        if ('O', v.oid) in memo:
            return memo[('O', v.oid)]
        o = Obj(eng.fresh(), v.cls)
        memo[('O', v.oid)] = o
        for k, x in list(st.store.items()):
            if k[0] == 'f' and k[1] == v.oid:
                st.store[('f', o.oid, k[2])] = deepcopy(eng, x, st, memo)
        return o
    if isinstance(v, (ListV, SetV)):
        k = ('L', v.loc)
        if k not in memo:
            c = st.store[('l', v.loc)]
            n = type(v)(eng.fresh())
            memo[k] = n
            st.store[('l', n.loc)] = c if isinstance(c, SymList) else tuple(deepcopy(eng, x, st, memo) for x in c)
        return memo[k]
    if isinstance(v, DictV):
        k = ('D', v.loc)
        if k not in memo:
            n = DictV(eng.fresh())
            memo[k] = n
            st.store[('d', n.loc)] = tuple((a, deepcopy(eng, x, st, memo)) for a, x in st.store[('d', v.loc)])
        return memo[k]
    if isinstance(v, TupV):
        return TupV([deepcopy(eng, x, st, memo) for x in v.items])
    if isinstance(v, PV):
        return PV(v.c, deepcopy(eng, v.a, st, memo), deepcopy(eng, v.b, st, memo))
    return v


def shallow(eng, v, st):
    if isinstance(v, Arr):
        return eng.new_arr(st, eng.read_arr(st, v), st.store.get(('t', v.loc)))
    if isinstance(v, Obj):
        o = Obj(eng.fresh(), v.cls)
        for k, x in list(st.store.items()):
            if k[0] == 'f' and k[1] == v.oid:
                st.store[('f', o.oid, k[2])] = x
        return o
    if isinstance(v, ListV):
        return eng.new_list(st, st.store[('l', v.loc)])
    if isinstance(v, SetV):
        return eng.new_set(st, st.store[('l', v.loc)])
    if isinstance(v, DictV):
        return eng.new_dict(st, st.store[('d', v.loc)])
    if isinstance(v, PV):
        return PV(v.c, shallow(eng, v.a, st), shallow(eng, v.b, st))
    return v


# ----------------------------------------------------------------------- rng
RNGKEY = ('g', '<rng>', 'state')


def rng_draw(eng, st, dist, params, rank, key=RNGKEY, size=NONE):
    s = st.store.get(key)
    if s is None:
        s = mk('rng0', attr=str(key[2]))
    eng.event('effect', 'rng', dist)
    # draws of one kind are numbered among themselves: which kind is drawn first does not matter
    root, k = s, 0
    while root.op == 'rngnext':
        k += root.attr == dist
        root = root.args[0]
    n = mk('rand', root, size, *params, attr=(dist, k, rank))
    st.store[key] = mk('rngnext', s, attr=dist)
    return n


def call_random(eng, f, args, kw, st, fr, key=RNGKEY):
    N = lambda v: eng.node(v, st)
    if f == 'seed':
        a = args[0] if args else kw.get('seed', NONE)
        eng.event('effect', 'rngseed')
        n = N(a)
        fresh = mk('rng0', attr='reseed%d' % eng.fresh())
        if n.op == 'none':
            st.store[key] = fresh
        else:
            isn = eng.is_(n, NONE, st)
            st.store[key] = phi(isn, fresh, mk('rngseed', n)) if isn.op != 'bool' else (fresh if isn.attr else mk('rngseed', n))
        return NONE
    if f in ('default_rng', 'RandomState', 'Generator'):
        a = args[0] if args else kw.get('seed', NONE)
        if isinstance(a, XObj):
            return a
        k = ('g', '<rng>', 'gen%d' % eng.fresh())
        n = N(a)
        fresh = mk('rng0', attr=k[2])
        isn = eng.is_(n, NONE, st)
        st.store[k] = fresh if isn is TRUE else (mk('rngseed', n) if isn is FALSE else phi(isn, fresh, mk('rngseed', n)))
        return XObj('rng', k)
    size = kw.get('size')
    params = []
    if f in ('rand', 'randn'):
        shp = [N(a) for a in args]
        rank = len(shp)
        sz = tup(shp) if shp else NONE
        dist = 'uniform' if f == 'rand' else 'normal'
    else:
        order = {'normal': ('loc', 'scale', 'size'), 'uniform': ('low', 'high', 'size'), 'random': ('size',), 'random_sample': ('size',),
                 'standard_normal': ('size',), 'randint': ('low', 'high', 'size'), 'poisson': ('lam', 'size'), 'exponential': ('scale', 'size')}.get(f)
        if order is None:
            order = tuple('p%d' % i for i in range(len(args))) + ('size',)
        d = dict(zip(order, args))
        d.update(kw)
        size = d.pop('size', None)
        sz = _shape_node(eng, size, st) if size is not None and size is not NONE else NONE
        rank = 0 if sz is NONE else _shape_rank(sz)
        dist = {'random': 'uniform', 'random_sample': 'uniform', 'standard_normal': 'normal'}.get(f, f)
        dfl = {'normal': (('loc', ZERO), ('scale', ONE)), 'uniform': (('low', ZERO), ('high', ONE))}.get(dist)
        if dfl:
            a, b = [N(d.pop(k, v)) for k, v in dfl]
            x = rng_draw(eng, st, dist, [N(d[k]) for k in sorted(d)], rank if sz is not NONE else max(a.rank or 0, b.rank or 0), key, sz)
            if dist == 'uniform':
                b = sub(b, a)
            if b is not ONE:
                x = mul(b, x)
            return eng.wrap(st, x if a is ZERO else add(a, x))
        params += [N(d[k]) for k in sorted(d)]
    return eng.wrap(st, rng_draw(eng, st, dist, params, rank, key, sz))


# --------------------------------------------------------------------- numpy
REQ = object()
SIGS = {    # required parameters, then optional ones with their defaults
    'interp1d': [('x', REQ), ('y', REQ), ('kind', 'linear'), ('axis', -1), ('copy', True), ('bounds_error', None), ('fill_value', None), ('assume_sorted', False)],
    'InterpolatedUnivariateSpline': [('x', REQ), ('y', REQ), ('w', None), ('bbox', REQ), ('k', 3), ('ext', 0), ('check_finite', False)],
    'UnivariateSpline': [('x', REQ), ('y', REQ), ('w', None), ('bbox', REQ), ('k', 3), ('s', None), ('ext', 0), ('check_finite', False)],
    'CubicSpline': [('x', REQ), ('y', REQ), ('axis', 0), ('bc_type', 'not-a-knot'), ('extrapolate', None)],
    'map_coordinates': [('input', REQ), ('coordinates', REQ), ('output', None), ('order', 3), ('mode', 'constant'), ('cval', 0), ('prefilter', True)],
    'convolve': [('a', REQ), ('v', REQ), ('mode', 'full')],
    'correlate': [('a', REQ), ('v', REQ), ('mode', 'valid')],
    'polyfit': [('x', REQ), ('y', REQ), ('deg', REQ), ('rcond', None), ('full', False), ('w', None), ('cov', False)],
    'minimize': [('fun', REQ), ('x0', REQ), ('args', ()), ('method', None), ('jac', None), ('hess', None), ('hessp', None), ('bounds', None)],
    'simpson': [('y', REQ), ('x', None), ('dx', 1), ('axis', -1)],
    'simps': [('y', REQ), ('x', None), ('dx', 1), ('axis', -1)],
    'trapz': [('y', REQ), ('x', None), ('dx', 1), ('axis', -1)],
    'trapezoid': [('y', REQ), ('x', None), ('dx', 1), ('axis', -1)],
    'unwrap': [('p', REQ), ('discont', None), ('axis', -1)],
    'linspace': [('start', REQ), ('stop', REQ), ('num', 50), ('endpoint', True), ('retstep', False)],
    'genfromtxt': [('fname', REQ), ('dtype', float)],
}
OPAQUE_SIG = {'interp1d', 'InterpolatedUnivariateSpline', 'UnivariateSpline', 'CubicSpline', 'map_coordinates', 'convolve', 'correlate', 'polyfit'}


def by_signature(eng, name, args, kw, st):
    """the same call with required parameters positional and defaults left out"""
    f = name.split('.')[-1]
    sig = SIGS.get(f)
    if sig is None or name == 'scipy.signal.correlate' or name == 'scipy.signal.convolve' or len(args) > len(sig):
        return args, kw
    d = dict(sig)

    def default(k, v):
        w = d.get(k, REQ)
        if w is REQ:
            return False
        if w is None:
            return v is NONE
        n = v if isinstance(v, Node) else None
        if n is None:
            return False
        if isinstance(w, bool):
            return n.op == 'bool' and n.attr is w
        if isinstance(w, str):
            return n.op == 'str' and n.attr == w
        return isinstance(w, int) and n.op == 'num' and n.attr[0] == w and n.attr[1] == 0
    args, kw = list(args), dict(kw)
    for k, w in sig[len(args):]:
        if w is not REQ or k not in kw:
            break
        args.append(kw.pop(k))
    nreq = next((i for i, x in enumerate(sig) if x[1] is not REQ), len(sig))
    if f in OPAQUE_SIG:
        for (k, w), v in zip(sig[nreq:], args[nreq:]):
            if k in kw:
                return args, kw
            kw[k] = v
        args = args[:nreq]
    for k in list(kw):
        if default(k, kw[k]):
            del kw[k]
    while len(args) > nreq and default(sig[len(args) - 1][0], args[-1]):
        args.pop()
    return args, kw


def call_numpy(eng, name, args, kw, st, fr):
    args, kw = by_signature(eng, name, args, kw, st)
    W = lambda n: eng.wrap(st, n)
    N = lambda v: eng.node(v, st)
    parts = name.split('.')
    f = parts[-1]
    sub = '.'.join(parts[:-1])
    if sub == 'numpy.random' or sub == 'numpy.random.mtrand':
        return call_random(eng, f, args, kw, st, fr)
    if name == 'scipy.constants.value':
        n = N(args[0])
        if n.op == 'str':
            m = {'speed of light in vacuum': 'c', 'Planck constant': 'h', 'electric constant': 'eps0', 'vacuum electric permittivity': 'eps0',
                 'mag. constant': 'mu0'}.get(n.attr)
            if m:
                return const(m)
        return W(mk('call', n, attr=(name, (), 0)))
    out = kw.pop('out', None)
    if out is NONE:
        out = None
    if isinstance(out, TupV) and len(out.items) == 1:
        out = out.items[0]

    def fin(n):
        if out is not None:
            r = _write_out(eng, out, n, st)
            if r is not None:
                return r
        return W(n)

    if sub in ('numpy', 'math', 'cmath', 'scipy', 'numpy.core', 'numpy.lib.scimath'):
        if sub == 'numpy' and f in DT and f not in ('D', 'd', 'c16', 'f8') and args:
            return cast_call(eng, args[0], DT[f], st)
        r = np_elementwise(eng, f, args, kw, st, fr, N)
        if r is not None:
            return fin(r)
    if sub in ('numpy.fft', 'scipy.fftpack', 'scipy.fft', 'pyfftw.interfaces.numpy_fft'):
        return np_fft(eng, f, sub, args, kw, st, fr, fin, N)
    if sub == 'numpy':
        r = np_array(eng, f, args, kw, st, fr, fin, N, out)
        if r is not None:
            return r
    if name == 'numpy.linalg.norm':
        x = N(args[0])
        if len(args) == 1 and not kw and x.rank == 1:
            return W(power(mk('sum', power(mk_abs(x), num(2))), num(Fraction(1, 2))))
        return W(opaque(eng, name, args, kw, st, 0 if len(args) == 1 and not kw else None))
    if f in ('trapz', 'trapezoid') and sub in ('scipy.integrate', 'numpy'):
        return np_trapz(eng, args, kw, st, N, W)
    if f in ('simps', 'simpson'):
        return W(opaque(eng, 'simpson', args, kw, st, 0))
    if name in ('scipy.special.factorial', 'scipy.misc.factorial', 'math.factorial', 'scipy.math.factorial'):
        n = N(args[0])
        k = intval(n)
        if k is not None and 0 <= k < 200:
            import math
            return num(math.factorial(k))
        return W(mk('el', n, attr='factorial'))
    if sub.startswith('scipy.interpolate') and f in ('interp1d', 'InterpolatedUnivariateSpline', 'UnivariateSpline', 'CubicSpline', 'splrep', 'PchipInterpolator'):
        kw.pop('copy', None)
        kw.pop('assume_sorted', None)
        ns = [N(a) for a in args] + [N(kw[k]) for k in sorted(kw)]
        return mk('fnobj', *ns, attr=(f, tuple(sorted(kw))), rank=0)
    if name == 'scipy.integrate.quad':
        eng.event('external_callback', name)
        if len(args) >= 3 and 'args' not in kw:
            x = calculus.fresh(eng)
            try:
                body = N(eng.call(args[0], [x], {}, st, fr))
                lo, hi = N(args[1]), N(args[2])
                if body.rank == 0 and lo.rank == 0 and hi.rank == 0 and not any(b.op == 'const' and b.attr == 'inf' for e in (lo, hi) for b in walk(e)):
                    v = sub_(calculus.antiderivative(body, x, hi), calculus.antiderivative(body, x, lo))
                    return TupV([v, mk('call', body, attr=('quad error', (), 0))])
            except calculus.NoCalc:
                pass
        return W(mk('call', *([N(a) for a in args] + [N(kw[k]) for k in sorted(kw)]), attr=(name, tuple(sorted(kw)), 1)))
    if name in ('scipy.misc.derivative', 'scipy.misc.common.derivative'):
        eng.event('external_callback', name)
        fn, x0, dx, n, fa, order = _kwpop(args, kw, ['func', 'x0', 'dx', 'n', 'args', 'order'])
        k = 1 if n is None else intval(N(n))
        o = 3 if order is None else intval(N(order))
        x0n = N(x0)
        extra = eng.iter_items(fa, st) if fa is not None else []
        if k is not None and o is not None and k >= 0 and extra is not None:
            if o < k + 1 or o % 2 == 0:
                eng.raise_(st, fr, XObj('exc', 'ValueError'))
            f = lambda z: N(eng.call(fn, [z] + list(extra), {}, st, fr))
            try:
                if x0n.rank == 0:
                    return W(calculus.nth(eng, f, x0n, k))
                if x0n.rank == 1:
                    eng.fcounter += 1
                    iv = mk('iv', attr=eng.fcounter)
                    from . import loopforms
                    return W(loopforms.make_map(eng, length_of(x0n), calculus.nth(eng, f, getitem(x0n, iv), k), iv, x0n))
            except calculus.NoCalc:
                pass
        return W(opaque(eng, name, args, kw, st, x0n.rank))
    if f == 'map_coordinates' and sub.startswith('scipy.ndimage') and len(args) == 2 and not kw:
        co = eng.iter_items(args[1], st)
        co = [N(c) for c in co] if co is not None else None
        if co and all(c.rank == co[0].rank for c in co):
            return W(mk('call', *([N(args[0])] + co), attr=('map_coordinates', (), co[0].rank)))
    if name == 'scipy.signal.savgol_filter':
        x, wl, po, dv, dl, ax, mode, cv = _kwpop(args, kw, ['x', 'window_length', 'polyorder', 'deriv', 'delta', 'axis', 'mode', 'cval'])
        xn = N(x)
        k = 0 if dv is None else intval(N(dv))
        w, o = intval(N(wl)), intval(N(po))
        if None not in (k, w, o):
            if o >= w:
                eng.raise_(st, fr, XObj('exc', 'ValueError'))
            if xn.rank == 1 and k > o:
                return W(mul(num(0), xn))
            if xn.rank == 1 and ax is None:
                q = calculus.fresh(eng)
                eng.fcounter += 1
                iv = mk('iv', attr=eng.fcounter)
                try:
                    r = calculus.index_function(xn, q)
                    for _ in range(k):
                        r = calculus.ddx(r, q)
                    from . import loopforms
                    body, d = loopforms.bind(div(subst(r, {q: iv}), power(num(1) if dl is None else N(dl), num(k))), iv)
                    return W(mk('map', length_of(xn), body, attr=d))
                except calculus.NoCalc:
                    pass
        return W(opaque(eng, name, args, kw, st, xn.rank))
    return None


def cast_call(eng, a, dt, st):
    n = eng.node(a, st)
    if n.rank == 0:
        if dt == 'float64' and arrays.kind_of(n) == 'n' and arrays.is_real(n):
            return n
        if dt == 'int':
            return eng.wrap(st, _int(n))
        if dt == 'complex128':
            return n
        return mk('cast', n, attr=dt)
    return eng.new_arr(st, n, dt)


def np_trapz(eng, args, kw, st, N, W):
    y, x, dx, axis = _kwpop(args, kw, ['y', 'x', 'dx', 'axis'])
    yn = N(y)
    if yn.rank not in (0, 1) or (axis is not None and yn.rank != 1):
        if axis is not None and axis is not NONE and not (yn.rank == 1):
            ns = [yn] + ([N(x)] if x is not None and x is not NONE else []) + ([N(dx)] if dx is not None else []) + [N(axis)]
            return W(mk('call', *ns, attr=('trapz', (x is not None, dx is not None), None if yn.rank is None else yn.rank - 1)))
    if x is not None and x is not NONE:
        return W(mk('trapz', yn, N(x)))
    r = mk('trapz', yn)
    if dx is not None and dx is not NONE:
        r = mul(N(dx), r)
    return W(r)


def np_elementwise(eng, f, args, kw, st, fr, N):
    """elementwise functions -> node or None"""
    kw = dict(kw)
    kw.pop('dtype', None)
    if f in ('add', 'subtract', 'multiply', 'divide', 'true_divide', 'power', 'float_power', 'floor_divide', 'mod', 'remainder', 'fmod', 'pow') and len(args) >= 2:
        a, b = N(args[0]), N(args[1])
        if len(args) > 2:
            raise Bad()
        if f == 'add':
            return add(a, b)
        if f == 'subtract':
            return sub(a, b)
        if f == 'multiply':
            return mul(a, b)
        if f in ('divide', 'true_divide'):
            return div(a, b)
        if f in ('power', 'float_power', 'pow'):
            return power(a, b)
        if f == 'floor_divide':
            return floordiv(a, b)
        return mk('mod', a, b)
    if not args:
        return None
    if f in ('exp', 'sqrt', 'log', 'abs', 'absolute', 'fabs', 'conj', 'conjugate', 'real', 'imag', 'angle', 'negative', 'positive', 'square', 'reciprocal',
             'log10', 'exp2', 'around', 'round', 'round_', 'phase') or f in EW1:
        if kw.get('where') is not None:
            raise Bad()
        x = N(args[0])
        if x.op == 'list' or x.op == 'tuple':
            x = mk('list', *x.args)
        if f == 'exp':
            return mk_exp(x)
        if f == 'sqrt':
            return power(x, num(Fraction(1, 2)))
        if f == 'log':
            if len(args) > 1:
                return div(mk('log', x), mk('log', N(args[1])))
            return mk('log', x)
        if f in ('isnan', 'isinf') and plain(x):
            return FALSE
        if f == 'isnan' and x.op == 'el' and x.attr in ('arccos', 'arcsin') and x.rank == 0:
            r = nan_when(x)
            if r is not None:
                return r
        if f in ('log10', 'log2'):
            if x.op == 'num' and x.attr[:2] == (1, 0):
                return ZERO
            return div(mk('log', x), mk('log', num(10 if f == 'log10' else 2)))
        if f in ('abs', 'absolute', 'fabs'):
            return mk_abs(x)
        if f in ('conj', 'conjugate'):
            return mk_conj(x)
        if f == 'real':
            return mk_real(x)
        if f == 'imag':
            return mk_imag(x)
        if f in ('angle', 'phase'):
            deg = args[1] if len(args) > 1 else kw.get('deg')
            r = mk('el', x, attr='angle')
            if deg is not None and deg is not FALSE:
                r = mul(r, div(num(180), PI))
            return r
        if f == 'negative':
            return neg(x)
        if f == 'positive':
            return x
        if f == 'square':
            return power(x, num(2))
        if f == 'expm1':
            return sub(mk_exp(x), ONE)
        if f == 'log1p':
            return mk('log', add(ONE, x))
        if f == 'reciprocal':
            return inv(x)
        if f == 'exp2':
            return power(num(2), x)
        if f in ('deg2rad', 'radians'):
            return mul(x, div(PI, num(180)))
        if f in ('rad2deg', 'degrees'):
            return mul(x, div(num(180), PI))
        if f in ('floor', 'ceil', 'rint', 'trunc', 'fix', 'round', 'around', 'round_'):
            if is_integer(x):
                return x
            if f == 'floor':
                if x.op == 'num':
                    import math
                    return num(Fraction(math.floor(x.attr[0])), 'f')
                return mk('floor', x)
            if f in ('rint', 'round', 'around', 'round_') and len(args) == 1:
                return mk('round', x)
            return mk('el', x, attr=f)
        if f == 'sign' and x.op == 'num' and x.attr[1] == 0:
            return num((x.attr[0] > 0) - (x.attr[0] < 0))
        if x.op == 'num' and x.attr[:2] == (0, 0):
            if f in ('sin', 'tan', 'sinh', 'tanh', 'arcsin', 'arctan', 'sign'):
                return ZERO
            if f in ('cos', 'cosh', 'sinc'):
                return ONE
        return mk('el', x, attr=f)
    if f in ('arctan2', 'hypot', 'copysign', 'nextafter', 'logaddexp', 'heaviside') and len(args) == 2:
        if f == 'arctan2':
            a, b = N(args[0]), N(args[1])
            if a.op == 'imag' and b.op == 'real' and a.args[0] is b.args[0]:
                return mk('el', a.args[0], attr='angle')
        a, b = N(args[0]), N(args[1])
        if f == 'copysign':
            return where(cmp_('lt', b, ZERO), neg(mk_abs(a)), mk_abs(a))
        if f == 'hypot':
            return power(add(power(a, num(2)), power(b, num(2))), num(Fraction(1, 2)))
        if f == 'logaddexp':
            return mk('log', add(mk_exp(a), mk_exp(b)))
        return mk('el', a, b, attr=f)
    if f in ('maximum', 'minimum', 'fmax', 'fmin') and len(args) == 2:
        a, b = N(args[0]), N(args[1])
        c = cmp_('lt', a, b)
        return where(c, b, a) if f in ('maximum', 'fmax') else where(c, a, b)
    if f == 'clip':
        a, lo, hi = _kwpop(args, kw, ['a', 'a_min', 'a_max'])
        x = N(a)
        if lo is not None and lo is not NONE:
            x = where(cmp_('lt', x, N(lo)), N(lo), x)
        if hi is not None and hi is not NONE:
            x = where(cmp_('lt', N(hi), x), N(hi), x)
        return x
    if f in ('less', 'greater', 'less_equal', 'greater_equal', 'equal', 'not_equal') and len(args) == 2:
        a, b = N(args[0]), N(args[1])
        return {'less': lambda: cmp_('lt', a, b), 'greater': lambda: cmp_('lt', b, a), 'less_equal': lambda: cmp_('le', a, b),
                'greater_equal': lambda: cmp_('le', b, a), 'equal': lambda: cmp_('eq', a, b), 'not_equal': lambda: cmp_('ne', a, b)}[f]()
    if f == 'logical_and':
        return mk('and', N(args[0]), N(args[1]))
    if f == 'logical_or':
        return mk('or', N(args[0]), N(args[1]))
    if f == 'logical_not':
        return lnot(N(args[0]))
    return None


def np_fft(eng, f, sub, args, kw, st, fr, fin, N):
    kw = {k: v for k, v in kw.items() if k not in ('overwrite_x', 'workers')}
    if f in ('fft', 'ifft'):
        x, n, axis, norm = _kwpop(args, kw, ['a' if sub == 'numpy.fft' else 'x', 'n', 'axis', 'norm'])
        if n is not None and n is not NONE:
            raise Bad()
        xn = N(x)
        k = intval(N(axis)) if axis is not None and axis is not NONE else -1
        if axis is not None and k is None:
            return eng.wrap(st, mk('call', xn, N(axis), attr=(f, ('axis',), xn.rank)))
        k = _normaxis(k, xn.rank)
        r = mk(f, xn, attr=k)
        if norm is not None and norm is not NONE:
            r = mk('call', r, N(norm), attr=('fftnorm', (), xn.rank))
        return fin(r)
    if f in ('fftshift', 'ifftshift'):
        x, axes = _kwpop(args, kw, ['x', 'axes'])
        xn = N(x)
        if axes is None or axes is NONE:
            if xn.rank is not None and xn.rank != 1:
                return fin(mk('perm', xn, attr=(f, 'all')))
            return fin(mk('perm', xn, attr=(f, 0)))
        an = N(axes)
        ks = [intval(a) for a in an.args] if an.op in ('tuple', 'list') else [intval(an)]
        if None in ks:
            return fin(mk('call', xn, an, attr=(f, ('axes',), xn.rank)))
        for k in ks:
            xn = mk('perm', xn, attr=(f, _normaxis(k, xn.rank)))
        return fin(xn)
    if f in ('fftfreq', 'rfftfreq'):
        n, d = _kwpop(args, kw, ['n', 'd'])
        dn = N(d) if d is not None else ONE
        if f == 'fftfreq':
            nn = N(n)
            # standard-order bins k/(n d); expressed as the order permutation of the centred ramp
            half = floordiv(nn, num(2))
            ramp = mk('arange', neg(half), sub_(nn, half), ONE)
            return fin(mul(mk('perm', ramp, attr=('ifftshift', 0)), inv(mul(nn, dn))))
    return eng.wrap(st, opaque(eng, sub + '.' + f, args, kw, st, None))


def sub_(a, b):
    return add(a, neg(b))


def _normaxis(k, rank):
    if rank == 1 and k in (0, -1):
        return 0
    if rank is not None and k < 0:
        return k + rank
    return k


def np_array(eng, f, args, kw, st, fr, fin, N, out):
    W = lambda n: eng.wrap(st, n)
    if f in ('zeros', 'ones', 'empty', 'ndarray', 'full'):
        if f == 'full':
            shape, fill, dt, order = _kwpop(args, kw, ['shape', 'fill_value', 'dtype', 'order'])
        else:
            shape, dt, order = _kwpop(args, kw, ['shape', 'dtype', 'order']) if f != 'ndarray' else (_kwpop(args, kw, ['shape', 'dtype', 'buffer', 'offset', 'strides', 'order'])[:2] + [None])
        sh = _shape_node(eng, shape, st)
        d = dtype_of(dt) or ('float64' if dt is None and f != 'full' else None)
        if f in ('empty', 'ndarray'):
            n = mk('undef', sh, attr=(eng.fresh(), _shape_rank(sh)))
        else:
            n = mk('bcast', ZERO if f == 'zeros' else ONE if f == 'ones' else N(fill), sh)
        a = eng.new_arr(st, n)
        if d:
            st.store[('t', a.loc)] = d
        return a
    if f in ('zeros_like', 'ones_like', 'empty_like', 'full_like'):
        if f == 'full_like':
            x, fill, dt, order = _kwpop(args, kw, ['a', 'fill_value', 'dtype', 'order'])
        else:
            x, dt, order = _kwpop(args, kw, ['a', 'dtype', 'order'])
        xn = N(x)
        if xn.rank == 0:
            return W(ZERO if f == 'zeros_like' else ONE if f == 'ones_like' else N(fill) if f == 'full_like' else mk('undef', attr=(eng.fresh(), 0)))
        sh = shape_of(xn)
        n = mk('undef', sh, attr=(eng.fresh(), xn.rank)) if f == 'empty_like' else mk('bcast', ZERO if f == 'zeros_like' else ONE if f == 'ones_like' else N(fill), sh)
        a = eng.new_arr(st, n)
        d = dtype_of(dt) or (st.store.get(('t', x.loc)) if isinstance(x, Arr) else None)
        if d:
            st.store[('t', a.loc)] = d
        return a
    if f in ('copy', 'array', 'asarray', 'asanyarray', 'ascontiguousarray', 'atleast_1d', 'asfarray'):
        x = args[0]
        dt = args[1] if len(args) > 1 and f != 'copy' else kw.get('dtype')
        d = dtype_of(dt)
        cp = kw.get('copy')
        if f in ('asarray', 'asanyarray', 'ascontiguousarray', 'atleast_1d') or (cp is FALSE):
            if isinstance(x, Arr) and (d is None or arr_dtype(eng, st, x) == d):
                return x
        if isinstance(x, PV):
            return eng.split(x, st, fr, lambda y, s2: np_array(eng, f, [y] + args[1:], kw, s2, fr, lambda n: eng.wrap(s2, n), lambda v: eng.node(v, s2), None))
        n = N(x)
        if n.op == 'tuple':
            n = mk('list', *n.args)
        if n.rank == 0 and n.op not in ('list', 'tuple'):
            if f == 'atleast_1d':
                return W(mk('list', n))
            return n if d is None else cast_call(eng, n, d, st)
        if isinstance(x, Arr) and d is None:
            d = st.store.get(('t', x.loc))
        a = eng.new_arr(st, n, d if isinstance(d, str) else None)
        return a
    if f in ('linspace',):
        a, b, n, endpoint, retstep = _kwpop(args, {k: v for k, v in kw.items() if k != 'dtype'}, ['start', 'stop', 'num', 'endpoint', 'retstep'])
        ep = endpoint is None or endpoint is TRUE
        if endpoint is not None and endpoint not in (TRUE, FALSE):
            raise Bad()
        nn = N(n) if n is not None else num(50)
        r = mk('linspace', N(a), N(b), nn, attr=ep)
        if retstep is TRUE:
            den = sub_(nn, ONE) if ep else nn
            return TupV([W(r), W(div(sub_(N(b), N(a)), den))])
        return W(r)
    if f == 'arange':
        kw.pop('dtype', None)
        a = [N(x) for x in args]
        if kw:
            d = dict(zip(['start', 'stop', 'step'], a))
            d.update({k: N(v) for k, v in kw.items()})
            a = [d.get('start', ZERO), d.get('stop'), d.get('step', ONE)]
            if a[1] is None:
                a = [ZERO, d['start'], ONE]
        elif len(a) == 1:
            a = [ZERO, a[0], ONE]
        elif len(a) == 2:
            a = a + [ONE]
        iv = [intval(x) for x in a]
        if None not in iv and iv[2] != 0 and 0 < len(range(*iv)) <= eng.max_unroll:
            return W(mk('list', *[num(i) for i in range(*iv)]))
        return W(mk('arange', *a))
    if f in ('hstack', 'concatenate', 'append', 'r_'):
        if f == 'append':
            items = [args[0], args[1]]
        else:
            items = eng.iter_items(args[0], st)
        if items is None or (len(args) > 1 and f != 'append') or kw:
            return W(opaque(eng, 'numpy.' + f, args, kw, st))
        ns = []
        for x in items:
            n = N(x)
            if n.op == 'tuple':
                n = mk('list', *n.args)
            if n.rank == 0:
                n = mk('list', n)
            ns.append(n)
        if all(n.rank == 1 for n in ns):
            if all(n.op == 'list' for n in ns):
                return W(mk('list', *[y for n in ns for y in n.args]))
            flat = []
            for n in ns:
                flat += list(n.args) if n.op == 'hstack' else [n]
            return W(mk('hstack', *flat))
        return W(opaque(eng, 'numpy.hstack', args, kw, st))
    if f in ('vstack', 'stack', 'row_stack'):
        items = eng.iter_items(args[0], st)
        ax = intval(N(kw['axis'])) if 'axis' in kw else 0
        if items is not None and ax == 0:
            ns = [N(x) for x in items]
            ns = [mk('list', *n.args) if n.op == 'tuple' else n for n in ns]
            if all(n.rank == 1 for n in ns):
                return W(mk('stack', *ns))
            if all(n.rank == 2 for n in ns) and f == 'stack':
                return W(mk('planes', *ns, attr=0))
        elif items is not None and ax in (2, -1) and f == 'stack':
            ns = [N(x) for x in items]
            if ns and all(n.rank == 2 for n in ns):
                return W(mk('planes', *ns, attr=2))
        return W(opaque(eng, 'numpy.' + f, args, kw, st))
    if f == 'dstack':
        items = eng.iter_items(args[0], st)
        ns = []
        for x in items or ():
            n = N(x)
            ns += list(n.args) if n.op == 'planes' and n.attr == 2 else [n]
        if ns and all(n.rank == 2 for n in ns):
            return W(mk('planes', *ns, attr=2))
        return W(opaque(eng, 'numpy.dstack', args, kw, st))
    if f == 'column_stack':
        items = eng.iter_items(args[0], st)
        if items is not None:
            ns = [N(x) for x in items]
            if all(n.rank == 1 for n in ns):
                return W(mk('transpose', mk('stack', *ns)))
        return W(opaque(eng, 'numpy.' + f, args, kw, st))
    if f == 'transpose' and len(args) == 1 and not kw:
        return transpose(eng, args[0], st)
    if f in ('flip', 'flipud') and len(args) == 1:
        return eng.subscript(args[0], mk('slice', NONE, NONE, num(-1)), st, fr)
    if f == 'where':
        if len(args) == 3:
            return W(where(N(args[0]), N(args[1]), N(args[2])))
        return TupV([W(mk('call', N(args[0]), attr=('nonzero', (), 1)))])
    if f in ('trapz', 'trapezoid'):
        return np_trapz(eng, args, kw, st, N, W)
    if f in ('sum', 'mean', 'max', 'min', 'amax', 'amin', 'prod', 'any', 'all', 'argmin', 'argmax', 'std', 'median', 'nansum', 'nanmax', 'nanmin'):
        f = {'amax': 'max', 'amin': 'min'}.get(f, f)
        ax = args[1] if len(args) > 1 else kw.get('axis')
        r = _reduce(eng, f, args[0], ax, st)
        return fin(r)
    if f == 'cumsum':
        return fin(mk('cumsum', N(args[0])))
    if f == 'unwrap':
        return W(mk('unwrap', N(args[0])))
    if f == 'roll':
        a, s, axis = _kwpop(args, kw, ['a', 'shift', 'axis'])
        an = N(a)
        if an.rank == 1 or axis is None:
            return W(mk('roll', an, N(s)))
        return W(mk('call', an, N(s), N(axis), attr=('roll', (), an.rank)))
    if f == 'diff':
        a, n, axis = _kwpop(args, kw, ['a', 'n', 'axis'])
        an = N(a)
        k = intval(N(n)) if n is not None else 1
        if an.rank == 1 and k is not None and 0 <= k <= 4:
            r = an
            for _ in range(k):
                r = sub_(getitem(r, mk('slice', ONE, NONE, NONE)), getitem(r, mk('slice', NONE, num(-1), NONE)))
            return W(r)
        return W(mk('call', an, attr=('diff', (k,), an.rank)))
    if f == 'gradient':
        ns = [N(a) for a in args]
        return W(mk('call', *ns, attr=('gradient', tuple(sorted(kw)), ns[0].rank if ns[0].rank == 1 else None)))
    if f in ('shape',):
        return value_attr(eng, args[0], 'shape', st, fr)
    if f in ('size',) and len(args) == 1:
        return value_attr(eng, args[0], 'size', st, fr)
    if f == 'ndim':
        return value_attr(eng, args[0], 'ndim', st, fr)
    if f == 'iscomplexobj':
        n = N(args[0])
        if arrays.is_real(n):
            return FALSE
        return mk('truth', mk('call', n, attr=('iscomplexobj', (), 0)))
    if f == 'isscalar':
        return boolean(N(args[0]).rank == 0)
    if f == 'polyfit':
        kw.pop('full', None)
        ns = [N(a) for a in args] + [N(kw[k]) for k in sorted(kw)]
        return W(mk('call', *ns, attr=('polyfit', tuple(sorted(kw)), 1)))
    if f == 'poly1d':
        return mk('fnobj', N(args[0]), attr=('poly1d', ()), rank=0)
    if f == 'polyval':
        p = N(args[0])
        if p.op == 'fnobj' and p.attr[0] == 'poly1d':
            p = p.args[0]
        return W(mk('polyval', p, N(args[1])))
    if f == 'polyder':
        p = N(args[0])
        m = intval(N(args[1])) if len(args) > 1 else intval(N(kw['m'])) if 'm' in kw else 1
        if p.op == 'fnobj' and p.attr[0] == 'poly1d':
            return mk('fnobj', mk('call', p.args[0], attr=('polyder', (m,), 1)), attr=('poly1d', ()), rank=0)
        return W(mk('call', p, attr=('polyder', (m,), 1)))
    if f in ('correlate', 'convolve'):
        a, v, mode = _kwpop(args, kw, ['a', 'v', 'mode'])
        m = N(mode) if mode is not None else S('valid' if f == 'correlate' else 'full')
        x, y = N(a), N(v)
        L, L2 = (length_of(n) if n.rank == 1 else None for n in (x, y))
        if L is not None and L2 is not None and m.op == 'str' and m.attr in ('same', 'full') and (L is L2 or nf_equal(L, L2)):
            # sums over shifts of two arrays of one length: the transform of the arrays padded with as many zeros
            two = mul(num(2), L)
            half = mk('floordiv', L, num(2))
            one = lambda g, n: N(call_ext(eng, 'numpy.fft.' + g, [W(n)], {}, st, fr))
            px, py = (one('fft', setitem(mk('bcast', ZERO, tup([two])), mk('slice', NONE, L, NONE), n)) for n in (x, y))
            if f == 'correlate':
                r = one('fftshift', one('ifft', mul(px, mk('conj', py))))
                lo, hi = (sub(L, half), sub(two, half)) if m.attr == 'same' else (ONE, two)
            else:
                r = one('ifft', mul(px, py))
                lo = mk('floordiv', sub(L, ONE), num(2)) if m.attr == 'same' else ZERO
                hi = add(lo, L) if m.attr == 'same' else sub(two, ONE)
            r = getitem(r, mk('slice', lo, hi, NONE))
            return W(mk('real', r) if arrays.is_real(x) and arrays.is_real(y) else r)
        return W(mk('call', x, y, m, attr=(f, (), 1)))
    if f == 'meshgrid' and not kw and len(args) == 2:
        a, b = N(args[0]), N(args[1])
        la, lb = length_of(a), length_of(b)
        return TupV([W(mk('rowrep', a, lb, rank=2)), W(mk('colrep', b, la, rank=2))])
    if f == 'outer' and len(args) == 2:
        a, b = N(args[0]), N(args[1])
        return W(mul(mk('colrep', a, length_of(b), rank=2), mk('rowrep', b, length_of(a), rank=2)))
    if f == 'interp':
        x, xp, fp = [N(a) for a in args[:3]]
        return W(mk('apply', mk('fnobj', xp, fp, *[N(a) for a in args[3:]] + [N(kw[k]) for k in sorted(kw)], attr=('np.interp', tuple(sorted(kw))), rank=0), x, attr=('interp', (), x.rank)))
    if f == 'vectorize':
        return XObj('vectorize', args[0])
    if f == 'finfo' or f == 'iinfo':
        return XObj('finfo', dtype_of(args[0]) if args else None)
    if f in ('reshape', 'ravel', 'squeeze', 'resize', 'tile', 'repeat'):
        return W(opaque(eng, 'numpy.' + f, args, kw, st))
    if f in ('savetxt', 'save', 'savez', 'tofile'):
        eng.event('effect', 'file', 'numpy.' + f)
        eng.event('written', [N(a) for a in args])
        return NONE
    if f in ('loadtxt', 'genfromtxt', 'load', 'fromfile'):
        eng.event('effect', 'file-read', 'numpy.' + f)
        up = kw.get('unpack') is TRUE
        n = opaque(eng, 'numpy.' + f, args, kw, st, 2)
        return W(n)
    if f in ('dot', 'inner', 'vdot'):
        a, b = N(args[0]), N(args[1])
        if a.rank == 1 and b.rank == 1:
            return W(mk('sum', mul(mk_conj(a) if f == 'vdot' else a, b)))
        if 0 in (a.rank, b.rank) and f == 'dot':
            return W(mul(a, b))
    if f in ('seterr', 'set_printoptions', 'errstate'):
        return NONE
    if f in ('dtype',):
        d = dtype_of(args[0])
        return S(d) if d else W(opaque(eng, 'numpy.dtype', args, kw, st, 0))
    if f == 'array_equal':
        a, b = N(args[0]), N(args[1])
        if a is b and a.op != 'opaque':
            return TRUE
        if a.op == 'none' or b.op == 'none':
            if a.op == b.op or (a.op == 'none' or arrays.is_real(a) or a.rank) and (b.op == 'none' or arrays.is_real(b) or b.rank):
                return boolean(a.op == b.op)
        elif 'str' in (a.op, b.op):
            if a.op == b.op or (arrays.is_real(a) if b.op == 'str' else arrays.is_real(b)):
                return FALSE
        elif a.rank == 0 and b.rank == 0 and arrays.is_real(a) and arrays.is_real(b):
            return cmp_('eq', a, b)
        return mk('truth', mk('call', N(args[0]), N(args[1]), attr=('array_equal', (), 0)))
    if f in ('allclose', 'isclose'):
        return mk('truth', mk('call', *[N(a) for a in args[:2]], attr=('allclose', (), 0)))
    if f == 'copyto':
        eng.write_arr(st, args[0], None, N(args[1]))
        return NONE
    if f in ('searchsorted', 'digitize'):
        ns = [N(a) for a in args]
        return W(mk('call', *ns, attr=(f, tuple(sorted(kw)), ns[1].rank)))
    if f in ('nonzero', 'flatnonzero'):
        n = mk('call', N(args[0]), attr=('nonzero', (), 1))
        return W(n) if f == 'flatnonzero' else TupV([W(n)])
    if f == 'ix_':
        return TupV(args)
    return None


def transpose(eng, a, st):
    n = eng.node(a, st)
    if n.rank in (0, 1):
        return a if isinstance(a, (Arr, Node)) else eng.wrap(st, n)
    return eng.wrap(st, n.args[0] if n.op == 'transpose' else mk('transpose', n))


# -------------------------------------------------------------------- pyfftw
def call_pyfftw(eng, name, args, kw, st, fr):
    f = name.split('.')[-1]
    N = lambda v: eng.node(v, st)
    if f in ('empty_aligned', 'zeros_aligned', 'ones_aligned', 'n_byte_align_empty'):
        sh = _shape_node(eng, args[0], st)
        dt = args[1] if len(args) > 1 else kw.get('dtype')
        n = mk('undef', sh, attr=(eng.fresh(), _shape_rank(sh))) if f.endswith('empty') or f == 'empty_aligned' else mk('bcast', ZERO if 'zeros' in f else ONE, sh)
        a = eng.new_arr(st, n)
        st.store[('t', a.loc)] = dtype_of(dt) or 'float64'
        return a
    if f == 'FFTW':
        inp, outp = args[0], args[1]
        d = N(kw['direction']) if 'direction' in kw else (N(args[3]) if len(args) > 3 else S('FFTW_FORWARD'))
        eng.event('effect_local', 'fftw')
        return XObj('fftw', (inp, outp, d.attr if d.op == 'str' else '?'))
    if 'interfaces' in name and f in ('fft', 'ifft', 'fftshift', 'ifftshift'):
        return np_fft(eng, f, 'numpy.fft', args, {k: v for k, v in kw.items() if k in ('axis', 'n', 'axes')}, st, fr, lambda n: eng.wrap(st, n), N)
    return None


def call_fftw(eng, x, args, kw, st, fr):
    inp, outp, d = x.data
    a = list(args)
    if a or 'input_array' in kw:
        src = a[0] if a else kw['input_array']
        if src is not NONE:
            eng.write_arr(st, inp, None, eng.node(src, st))
    if len(a) > 1 or 'output_array' in kw:
        outp = a[1] if len(a) > 1 else kw['output_array']
    n = eng.read_arr(st, inp)
    norm = kw.get('normalise_idft', TRUE)
    if d == 'FFTW_FORWARD':
        r = mk('fft', n, attr=0)
    elif d == 'FFTW_BACKWARD':
        r = mk('ifft', n, attr=0)
        if norm is FALSE:
            r = mul(length_of(n), r)
    else:
        r = mk('call', n, attr=('fftw:' + d, (), n.rank))
    eng.write_arr(st, outp, None, r)
    return outp


# ------------------------------------------------------------ other callables
def call_xobj(eng, f, args, kw, st, fr):
    if f.kind == 'fftw':
        return call_fftw(eng, f, args, kw, st, fr)
    if f.kind == 'vectorize':
        xs = [eng.node(a, st) for a in args]
        if len(xs) == 1 and xs[0].rank == 1:
            eng.fcounter += 1
            iv = mk('iv', attr=eng.fcounter)
            el = getitem(xs[0], iv)
            r = eng.call(f.data, [el], {}, st, fr)
            from . import loopforms
            return eng.wrap(st, loopforms.make_map(eng, length_of(xs[0]), eng.node(r, st), iv, xs[0]))
        if all(x.rank == 0 for x in xs):
            return eng.call(f.data, args, kw, st, fr)
        return eng.wrap(st, mk('apply', eng.node(f.data, st), *xs, attr=('vectorize', (), xs[0].rank if len(xs) == 1 else None)))
    if f.kind == 'partial':
        fn, a0, k0 = f.data
        k = dict(k0)
        k.update(kw)
        return eng.call(fn, list(a0) + list(args), k, st, fr)
    if f.kind == 'plt':
        eng.event('effect', 'plot', f.data)
        return f
    if f.kind in ('log', 'h5', 'exc'):
        return f
    if f.kind == 'pycall':
        return f.data(eng, args, kw, st, fr)
    return eng.wrap(st, mk('unk', attr=('xobjcall:' + f.kind, eng.fresh()), rank=None))


FN_EW = {'interp1d', 'InterpolatedUnivariateSpline', 'UnivariateSpline', 'CubicSpline', 'poly1d', 'PchipInterpolator'}


def call_value(eng, f, args, kw, st, fr):
    n = eng.node(f, st)
    ns = [eng.node(a, st) for a in args] + [eng.node(kw[k], st) for k in sorted(kw)]
    if n.op == 'fnobj':
        if n.attr[0] == 'poly1d' and len(ns) == 1:
            return eng.wrap(st, mk('polyval', n.args[0], ns[0]))
        return eng.wrap(st, mk('apply', n, *ns, attr=(n.attr[0], tuple(sorted(kw)), ns[0].rank if ns else None)))
    if n.op == 'sym' and n.attr[2] == 'any' and n.attr[0].startswith('fn:'):
        # harness-supplied opaque function: declared rank after the colon
        p = n.attr[0].split(':')
        r = int(p[2]) if len(p) > 2 else 0
        return eng.wrap(st, mk('uf', *ns, attr=(p[1], r, p[3] if len(p) > 3 else 'real')))
    if n.op == 'phi':
        a = call_value(eng, n.args[1], args, kw, st, fr)
        b = call_value(eng, n.args[2], args, kw, st, fr)
        return eng.merge_val(n.args[0], a, b, st, st, st)
    if n.op == 'lam' and len(n.attr) == len(ns) and not kw:
        return eng.wrap(st, subst(n.args[0], {mk('bv', attr=a): x for a, x in zip(n.attr, ns)}))
    eng.event('call_opaque', show(n, 2))
    return eng.wrap(st, mk('apply', n, *ns, attr=('?', tuple(sorted(kw)), None)))


# ------------------------------------------------------------ attributes
def value_attr(eng, o, name, st, fr):
    if isinstance(o, (Arr, Node)) and not (isinstance(o, Node) and o.op in ('str',)):
        n = eng.node(o, st)
        if name == 'real':
            if isinstance(o, Arr) and n.rank:
                return o if eng.real_array(st, o) else Arr(o.loc, o.path + (S('.real'),))
            return mk_real(n) if n.rank == 0 else eng.wrap(st, mk_real(n))
        if name == 'imag':
            if isinstance(o, Arr) and n.rank and not eng.real_array(st, o):
                return Arr(o.loc, o.path + (S('.imag'),))
            return eng.wrap(st, mk_imag(n))
        if name == 'T':
            return transpose(eng, o, st)
        if name == 'shape':
            sh = shape_of(n)
            if sh.op == 'tuple':
                return TupV(list(sh.args))
            if n.rank is not None:
                return TupV([getitem(sh, num(i)) for i in range(n.rank)])
            return sh
        if name == 'size':
            if n.rank == 1:
                return length_of(n)
            if n.rank == 0:
                return ONE
            return mk('call', n, attr=('size', (), 0))
        if name == 'ndim':
            if n.rank is not None:
                return num(n.rank)
            return mk('call', n, attr=('ndim', (), 0))
        if name == 'dtype':
            d = st.store.get(('t', o.loc)) if isinstance(o, Arr) else None
            d = d if isinstance(d, str) else elem_dtype(n)
            return S(d) if isinstance(d, str) and not d.startswith('weak') else mk('call', n, attr=('dtype', (), 0))
        if name in ('flat',):
            return o
        if name in ('x', 'fun', 'success', 'message', 'y', 't', 'status', 'eps', 'c', 'coeffs', 'coef') and n.op in ('call', 'attr', 'fnobj', 'apply'):
            if n.op == 'fnobj' and n.attr[0] == 'poly1d' and name in ('c', 'coeffs', 'coef'):
                return eng.wrap(st, n.args[0])
            return eng.wrap(st, mk('attr', n, attr=name, rank=None))
        if n.op == 'none':
            eng.event('none_attr', name)
            eng.raise_(st, fr, S('AttributeError'), True)
        if name in ARRMETH:
            return XM(o, name)
        if name in ('w_hz',) or n.op in ('call', 'attr', 'apply', 'unk', 'sym', 'getitem', 'mu', 'phi', 'uf', 'fnobj'):
            if n.op == 'sym' and n.attr[2] != 'any' or n.op in ('uf',) or array_call(n) and name not in NDATTR and name not in ARRMETH:
                eng.event('unresolved_attr', 'value', name)
                eng.raise_(st, fr, S('AttributeError'), True)
            return XM(o, name) if False else eng.wrap(st, mk('attr', n, attr=name, rank=None)) if name not in METHLIKE else XM(o, name)
        if n.op == 'none':
            eng.event('none_attr', name)
            eng.raise_(st, fr, S('AttributeError'), True)
        eng.event('unresolved_attr', 'value:' + n.op, name)
        eng.raise_(st, fr, S('AttributeError'), True)
    if isinstance(o, XObj):
        if o.kind == 'finfo':
            if name == 'eps' and o.data in ('float64', 'complex128', 'float32', 'complex64'):
                return num(Fraction(1, 2 ** (52 if o.data in ('float64', 'complex128') else 23)))
            return const({'eps': 'eps', 'max': 'realmax', 'tiny': 'tiny', 'min': 'realmin'}.get(name, name))
        if o.kind == 'fftw':
            if name in ('input_array',):
                return o.data[0]
            if name in ('output_array',):
                return o.data[1]
        if o.kind == 'exc' and name in ('args', 'message'):
            return TupV([])
        if o.kind == 'rng':
            return XM(o, name)
        if o.kind in ('h5', 'plt', 'file', 'log', 'object', 'namedtuple'):
            return XM(o, name)
        return XM(o, name)
    if isinstance(o, (TupV, ListV, SetV, DictV)):
        ok = {TupV: ('index', 'count'), ListV: LISTMETH, SetV: SETMETH, DictV: DICTMETH}[type(o)]
        if name in ok or name.startswith('__'):
            return XM(o, name)
        eng.event('unresolved_attr', type(o).__name__, name)
        eng.raise_(st, fr, S('AttributeError'), True)
    if isinstance(o, Node) and o.op == 'str':
        return XM(o, name)
    return XM(o, name)


ARRMETH = {'copy', 'conj', 'conjugate', 'tolist', 'transpose', 'sum', 'mean', 'max', 'min', 'astype', 'fill', 'flatten', 'ravel', 'reshape',
           'argmin', 'argmax', 'any', 'all', 'dot', 'item', 'std', 'prod', 'cumsum', 'squeeze', 'clip', 'round', 'sort', 'view', 'resize', 'tofile',
           'strip', 'split', 'lower', 'upper', 'format', 'join', 'startswith', 'endswith', 'replace', 'index', 'find', 'encode', 'append', 'close', 'is_integer',
           'keys', 'items', 'values', 'get', 'repeat', 'swapaxes', 'nonzero', 'dump', 'trace', 'diagonal'}
METHLIKE = {'append', 'close', 'flush', 'read', 'write', 'keys', 'values', 'items', 'get', 'update', 'setdefault'}
LISTMETH = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'index', 'count', 'sort', 'reverse', 'copy'}
SETMETH = {'add', 'discard', 'remove', 'update', 'union', 'intersection', 'difference', 'copy', 'pop', 'clear', 'issubset', 'issuperset'}
DICTMETH = {'keys', 'values', 'items', 'get', 'update', 'pop', 'setdefault', 'copy', 'clear', 'has_key', 'iteritems', 'fromkeys', 'popitem'}


NDATTR = {'T', 'argpartition', 'argsort', 'base', 'byteswap', 'choose', 'compress', 'ctypes', 'cumprod', 'data', 'dumps', 'flags', 'flat', 'getfield',
          'itemset', 'itemsize', 'nbytes', 'newbyteorder', 'partition', 'ptp', 'put', 'searchsorted', 'setfield', 'setflags', 'shape', 'strides', 'take',
          'tobytes', 'tostring', 'var', 'real', 'imag', 'size', 'ndim', 'dtype', 'denominator', 'numerator', 'bit_length', 'as_integer_ratio', 'hex'}
ARRAYFN = {'argmin', 'argmax', 'argsort', 'gradient', 'trapz', 'polyfit', 'polyval', 'interp', 'convolve', 'correlate', 'sum', 'mean', 'dot', 'searchsorted',
           'diff', 'cumsum', 'unwrap', 'where', 'nonzero', 'digitize', 'count_nonzero'}


def array_call(n):
    """a call whose result is certainly a number or an array"""
    return n.op == 'call' and isinstance(n.attr, tuple) and isinstance(n.attr[0], str) and n.attr[0].split('.')[-1] in ARRAYFN and n.rank is not None


def call_method(eng, o, name, args, kw, st, fr):
    N = lambda v: eng.node(v, st)
    W = lambda n: eng.wrap(st, n)
    if isinstance(o, PropV):
        if name == 'setter':
            return PropV(o.fget, args[0], o.fdel)
        if name == 'getter':
            return PropV(args[0], o.fset, o.fdel)
        if name == 'deleter':
            return PropV(o.fget, o.fset, args[0])
    if isinstance(o, (Obj, Cls, SuperV)):
        if name in ('__init__', '__setattr__', '__init_subclass__'):
            if name == '__setattr__' and isinstance(o, (Obj, SuperV)):
                tgt = o.self if isinstance(o, SuperV) else o
                nm = N(args[0])
                if nm.op == 'str' and isinstance(tgt, Obj):
                    st.store[('f', tgt.oid, nm.attr)] = args[1]
            return NONE
        if name == '__new__':
            return Obj(eng.fresh(), args[0]) if args and isinstance(args[0], Cls) else NONE
        eng.event('ext_method', getattr(o, 'cls', o), name)
        if isinstance(o, Obj):
            eng.event('effect', 'file', 'base-class.' + name)
        return W(mk('call', *[N(a) for a in args], attr=('extmeth.' + name, (), None)))
    if isinstance(o, XObj):
        if o.kind == 'rng':
            return call_random(eng, name, args, kw, st, fr, key=o.data)
        if o.kind == 'fftw':
            if name == '__call__':
                return call_fftw(eng, o, args, kw, st, fr)
            if name == 'execute':
                call_fftw(eng, o, [], {}, st, fr)
                return NONE
            if name == 'update_arrays':
                eng.event('unmodelled', 'fftw.update_arrays')
                return NONE
        if o.kind == 'plt':
            eng.event('effect', 'plot', name)
            return o
        if o.kind == 'h5':
            eng.event('effect', 'file', 'h5.' + name)
            if args and name in ('append', 'create_carray', 'create_array', 'create_earray'):
                eng.event('written', [N(a) for a in args])
            return o
        if o.kind == 'log':
            eng.event('effect', 'log', name)
            return o
        if o.kind == 'file':
            if name == 'read' or name == 'readlines':
                return W(mk('call', o.data, attr=('filecontents', (), 0)))
            if name in ('write', 'writelines'):
                eng.event('effect', 'file', 'write')
                return NONE
            if name == '__enter__':
                return o
            return NONE
        return W(mk('unk', attr=('xmeth:' + o.kind + '.' + name, eng.fresh()), rank=None))
    if isinstance(o, ListV):
        return list_method(eng, o, name, args, kw, st, fr)
    if isinstance(o, SetV):
        k = ('l', o.loc)
        c = st.store[k]
        if name == 'add':
            if isinstance(c, SymList):
                return NONE
            if not any(same(x, args[0]) or (isinstance(x, Node) and x is args[0]) for x in c):
                st.store[k] = c + (args[0],)
            return NONE
        if name == 'copy':
            return eng.new_set(st, c)
        eng.event('unmodelled', 'set.' + name)
        return NONE
    if isinstance(o, DictV):
        return dict_method(eng, o, name, args, kw, st, fr)
    if isinstance(o, TupV):
        if name == 'index':
            for i, x in enumerate(o.items):
                if same(x, args[0]) or N(x) is N(args[0]):
                    return num(i)
        return W(opaque(eng, 'tuple.' + name, args, kw, st, 0))
    if isinstance(o, Node) and arrays.kind_of(o) == 's':
        return str_method(eng, o, name, args, kw, st, fr)
    if isinstance(o, (Arr, Node)):
        return arr_method(eng, o, name, args, kw, st, fr)
    if isinstance(o, (BM, Fn)):
        if name == '__call__':
            return eng.call(o, args, kw, st, fr)
    return W(mk('unk', attr=('meth:' + name, eng.fresh()), rank=None))


def list_method(eng, o, name, args, kw, st, fr):
    k = ('l', o.loc)
    c = st.store[k]
    N = lambda v: eng.node(v, st)
    if isinstance(c, SymList):
        if name == 'append':
            st.store[k] = SymList(mk('append', c.node, N(args[0]), rank=None))
            return NONE
        if name == 'copy':
            return eng.new_list(st, c)
        if name in ('extend', 'insert', 'remove', 'pop', 'sort', 'reverse', 'clear'):
            st.store[k] = SymList(mk('listop', c.node, *[N(a) for a in args], attr=name, rank=None)) if name != 'clear' else ()
            return eng.wrap(st, mk('call', c.node, attr=('list.' + name, (), None)))
        return eng.wrap(st, opaque(eng, 'list.' + name, [c] + list(args), kw, st))
    if name == 'append':
        st.store[k] = c + (args[0],)
        return NONE
    if name == 'extend':
        it = eng.iter_items(args[0], st)
        st.store[k] = c + tuple(it) if it is not None else SymList(mk('extend', N(o), N(args[0]), rank=None))
        return NONE
    if name == 'insert':
        i = intval(N(args[0]))
        if i is not None:
            l = list(c)
            l.insert(i, args[1])
            st.store[k] = tuple(l)
            return NONE
    if name == 'pop':
        i = intval(N(args[0])) if args else -1
        if i is not None and c and -len(c) <= i < len(c):
            l = list(c)
            v = l.pop(i)
            st.store[k] = tuple(l)
            return v
    if name == 'reverse':
        st.store[k] = c[::-1]
        return NONE
    if name == 'copy':
        return eng.new_list(st, c)
    if name == 'clear':
        st.store[k] = ()
        return NONE
    if name == 'index':
        for i, x in enumerate(c):
            if N(x) is N(args[0]):
                return num(i)
    if name == 'sort':
        st.store[k] = SymList(mk('listop', N(o), attr='sort', rank=None))
        return NONE
    return eng.wrap(st, opaque(eng, 'list.' + name, [o] + list(args), kw, st))


def dict_method(eng, o, name, args, kw, st, fr):
    k = ('d', o.loc)
    N = lambda v: eng.node(v, st)
    eng.live(o, st)
    if name in ('keys', 'iterkeys'):
        return XObj('keys', o)
    if name in ('values', 'itervalues'):
        return XObj('values', o)
    if name in ('items', 'iteritems'):
        return XObj('items', o)
    if name == 'get':
        return eng.dict_get(o, N(args[0]), st, fr, args[1] if len(args) > 1 else NONE)
    if name in ('has_key', '__contains__'):
        return eng.contains(args[0], o, st)
    if name == 'update':
        src = list(args[:1])
        items = []
        if src:
            if isinstance(src[0], DictV):
                eng.live(src[0], st)
                items = list(st.store[('d', src[0].loc)])
            else:
                it = eng.iter_items(src[0], st) or []
                items = [(N(eng.iter_items(p, st)[0]), eng.iter_items(p, st)[1]) for p in it]
        items += [(S(a), b) for a, b in kw.items()]
        for a, b in items:
            eng.setsub(o, a, b, st, fr)
        return NONE
    if name == 'copy':
        return eng.new_dict(st, st.store[k])
    if name == 'clear':
        eng.set_items(o, (), st)
        return NONE
    if name == 'setdefault':
        kn = N(args[0])
        c = eng.contains(kn, o, st)
        d = eng.decide(c, st)
        if d is True:
            return eng.dict_get(o, kn, st, fr)
        if d is False:
            eng.setsub(o, kn, args[1] if len(args) > 1 else NONE, st, fr)
            return args[1] if len(args) > 1 else NONE
        cur = eng.dict_get(o, kn, st, fr, UNDEF)
        v = eng.merge_val(c, cur, args[1] if len(args) > 1 else NONE, st, st, st)
        eng.setsub(o, kn, v, st, fr)
        return v
    if name == 'pop':
        v = eng.dict_get(o, N(args[0]), st, fr, args[1] if len(args) > 1 else None)
        eng.set_items(o, [(a, b) for a, b in st.store[k] if a is not N(args[0])], st)
        return v
    return eng.wrap(st, opaque(eng, 'dict.' + name, [o] + list(args), kw, st))


def str_method(eng, o, name, args, kw, st, fr):
    N = lambda v: eng.node(v, st)
    ns = [N(a) for a in args]
    if o.op == 'str':
        s = o.attr
        if all(n.op in ('str', 'num') for n in ns) and not kw and name in ('lower', 'upper', 'strip', 'startswith', 'endswith', 'replace', 'find', 'split',
                                                                            'lstrip', 'rstrip', 'title', 'capitalize', 'isdigit', 'count'):
            a = [n.attr if n.op == 'str' else int(n.attr[0]) for n in ns]
            r = getattr(s, name)(*a)
            if isinstance(r, bool):
                return boolean(r)
            if isinstance(r, int):
                return num(r)
            if isinstance(r, list):
                return eng.new_list(st, [S(x) for x in r])
            return S(r)
        if name == 'join':
            items = eng.iter_items(args[0], st)
            if items is not None:
                parts = []
                for i, x in enumerate(items):
                    if i:
                        parts.append(o)
                    parts.append(N(x))
                return strcat(parts)
        if name == 'format':
            import re
            toks = re.split(r'(\{[^{}]*\})', s)
            parts, k = [], 0
            for t in toks:
                m = re.match(r'^\{(\d*|[A-Za-z_]\w*)(!r|!s)?\}$', t)
                if m:
                    key = m.group(1)
                    if key == '':
                        v = ns[k] if k < len(ns) else None
                        k += 1
                    elif key.isdigit():
                        v = ns[int(key)] if int(key) < len(ns) else None
                    else:
                        v = N(kw[key]) if key in kw else None
                    if v is None or (m.group(2) == '!r' and arrays.kind_of(v) != 'n'):
                        parts = None
                        break
                    parts.append(to_str(v))
                elif t.startswith('{'):
                    parts = None
                    break
                else:
                    parts.append(S(t))
            if parts is not None:
                return strcat(parts)
    return mk('fmt', o, *ns) if name == 'format' else eng.wrap(st, mk('call', o, *ns, attr=('str.' + name, (), 0)))


def arr_method(eng, o, name, args, kw, st, fr):
    N = lambda v: eng.node(v, st)
    W = lambda n: eng.wrap(st, n)
    n = N(o)
    if name == 'copy':
        return eng.new_arr(st, n, _tstr(st, o)) if n.rank != 0 else n
    if name in ('conj', 'conjugate'):
        return W(mk_conj(n))
    if name == 'tolist':
        if n.rank == 0:
            return n
        if n.op == 'list':
            return eng.new_list(st, [W(a) for a in n.args])
        return eng.new_list(st, SymList(n))
    if name == 'transpose':
        return transpose(eng, o, st)
    if name in ('sum', 'mean', 'max', 'min', 'prod', 'any', 'all', 'argmin', 'argmax', 'std'):
        ax = args[0] if args else kw.get('axis')
        return W(_reduce(eng, name, o, ax, st))
    if name == 'astype':
        d = dtype_of(args[0] if args else kw.get('dtype'))
        if n.rank == 0:
            return cast_call(eng, n, d, st) if d else n
        if kw.get('copy') is FALSE and isinstance(o, Arr) and arr_dtype(eng, st, o) == d:
            return o
        return eng.new_arr(st, n, d)
    if name == 'fill':
        eng.write_arr(st, o, None, N(args[0]))
        return NONE
    if name in ('flatten', 'ravel', 'squeeze'):
        if n.rank == 1:
            return eng.new_arr(st, n, _tstr(st, o)) if name == 'flatten' else o
        return W(opaque(eng, 'numpy.' + name, [o] + list(args), kw, st))
    if name in ('round', 'clip', 'dot', 'cumsum'):
        return call_numpy(eng, 'numpy.' + name, [o] + list(args), dict(kw), st, fr)
    if name == 'item' and n.rank == 0:
        return n
    if name in ('sort', 'resize') and isinstance(o, Arr):
        st.store[('h', o.loc)] = mk('call', n, attr=('inplace.' + name, (), n.rank))
        return NONE
    if name == 'reshape':
        return W(opaque(eng, 'numpy.reshape', [o] + list(args), kw, st))
    if name == 'view' and not args:
        return o
    if name in ('keys', 'values', 'items'):
        return W(mk('call', n, attr=('dict.' + name, (), 1)))
    if name == 'get':
        return W(getitem(n, N(args[0])))
    if name in ('tofile', 'dump'):
        eng.event('effect', 'file', name)
        return NONE
    if name in ('append', 'update', 'write', 'close', 'flush'):
        eng.event('opaque_method', name)
        return NONE
    return W(mk('call', n, *[N(a) for a in args], attr=('meth.' + name, tuple(sorted(kw)), None)))


def _tstr(st, o):
    d = st.store.get(('t', o.loc)) if isinstance(o, Arr) else None
    return d if isinstance(d, str) else None

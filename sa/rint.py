"""Random interpretation of value-graph terms (after Gulwani & Necula).

Two extracted terms whose normal forms differ are evaluated, as formulas, at
random points of their symbols.  The repository is not run: only the term that
the abstract interpreter extracted is evaluated, and library functions are the
ideal mathematical ones (or uninterpreted).  It is used in one direction only,
to withdraw an alarm about two differently written but identical formulas.
"""
import hashlib
import os
import random
import time
import sys
from fractions import Fraction
from .core import *
from . import arrays

DIG = 110
_mp = [None]


def mp():
    if _mp[0] is None:
        try:
            import mpmath
        except ImportError:
            sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
            try:
                import mpmath
            except ImportError:
                _mp[0] = False
                return False
        mpmath.mp.dps = DIG
        _mp[0] = mpmath
    return _mp[0]


class Unk(Exception):
    pass


class Discard(Exception):
    """the sample lies outside the domain of the formula"""


INTERP = ('interp1d', 'InterpolatedUnivariateSpline', 'CubicSpline', 'PchipInterpolator', 'np.interp')


def _h(*k):
    return hashlib.sha256(repr(k).encode()).digest()


class Eval(object):
    def __init__(self, seed, consts=None, opaque=()):
        self.m = mp()
        self.opaque = opaque
        self.seed = seed
        self.wide = 0
        self.memo = {}
        self.conds = {}
        self.env = {}
        self.envdep = {}

    def rnd(self, *k):
        return random.Random(_h(self.seed, *k))

    # ------------------------------------------------------------- helpers
    def real(self, r, lo=-1.5, hi=1.5):
        v = r.uniform(lo, hi)
        return self.m.mpf(v) + self.m.mpf(r.random()) * self.m.mpf(10) ** -18

    def scale(self, r):
        """symbols of very different size, so that no summand dominates in all samples"""
        if self.wide:
            return self.m.mpf(10) ** r.randint(-self.wide, self.wide)
        return self.m.mpf(10) ** r.randint(-9, 9) if r.random() < 0.4 else 1

    def implicit(self, n, k, outcomes):
        """an operation that chooses between its operands: abs, maximum, sign, ..."""
        self.conds.setdefault((n, k), set()).update(outcomes)

    def samp(self, typ, r):
        if typ in ('pos',):
            return self.real(r, 0.4, 2.3) * self.scale(r)
        if typ == 'nonneg':
            return self.real(r, 0.0, 2.3) * self.scale(r)
        if typ == 'posint':
            return r.choice((1, 2, 3, 4, 5))
        if typ == 'int':
            return r.choice((-3, -2, -1, 0, 1, 2, 3, 4))
        if typ == 'cplx':
            return self.m.mpc(self.real(r), self.real(r))
        if typ == 'bool':
            return r.random() < 0.5
        if typ == 'real':
            return self.real(r) * self.scale(r)
        if typ in ('str', 'any'):
            return ('opaque', r.random())
        raise Unk('type ' + str(typ))

    def fold(self, vals):
        """deterministic digest of values, stable under rounding at 1e-25"""
        out = []
        for v in vals:
            if isinstance(v, list):
                out.append(self.fold(v))
            elif isinstance(v, (str, bytes)) or v is None or isinstance(v, tuple):
                out.append(repr(v))
            else:
                z = self.m.mpc(v)
                out.append((self.m.nstr(self.m.chop(z.real, 1e-28), 24), self.m.nstr(self.m.chop(z.imag, 1e-28), 24)))
        return _h(out).hex()

    def isreal(self, v):
        return not isinstance(v, self.m.mpc)

    def shape(self, v):
        s = []
        while isinstance(v, list):
            s.append(len(v))
            if not v:
                break
            v = v[0]
        return tuple(s)

    def ew(self, f, *vs):
        if not any(isinstance(v, list) for v in vs):
            return f(*vs)
        r = max(len(self.shape(v)) for v in vs)
        if r == 1:
            ls = {len(v) for v in vs if isinstance(v, list)} - {1}
            if len(ls) > 1:
                raise Unk('shape mismatch')
            n = ls.pop() if ls else 1
            return [f(*[(v[0] if len(v) == 1 else v[i]) if isinstance(v, list) else v for v in vs]) for i in range(n)]
        # align trailing axes
        tops = [v if len(self.shape(v)) == r else None for v in vs]
        ls = {len(v) for v in tops if v is not None} - {1}
        if len(ls) > 1:
            raise Unk('shape mismatch')
        n = ls.pop() if ls else 1
        return [self.ew(f, *[v if t is None else (t[0] if len(t) == 1 else t[i]) for v, t in zip(vs, tops)]) for i in range(n)]

    def numv(self, v):
        if isinstance(v, bool):
            return int(v)
        if v is None or isinstance(v, (str, tuple)):
            raise Unk('not a number')
        return v

    def isint(self, v):
        """exact integer value or None"""
        if isinstance(v, (bool, int)):
            return int(v)
        if isinstance(v, list) or v is None or isinstance(v, (str, tuple)):
            return None
        z = self.m.mpc(v)
        if abs(z.imag) > 1e-25:
            return None
        r = self.m.nint(z.real)
        return int(r) if abs(z.real - r) < self.m.mpf(10) ** -28 * (1 + abs(r)) else None

    def toint(self, v):
        k = self.isint(v)
        if k is None:
            raise Unk('not an integer')
        return k

    def re(self, v):
        if isinstance(v, self.m.mpc):
            if abs(v.imag) > self.m.mpf(10) ** -25 * (1 + abs(v.real)):
                raise Unk('ordering of complex values')
            return v.real
        return self.numv(v)

    def cond(self, n, v):
        """record a condition's outcomes"""
        s = self.conds.setdefault(n, set())
        def go(x):
            if isinstance(x, list):
                for y in x:
                    go(y)
            else:
                s.add(bool(x))
        go(v)

    # ---------------------------------------------------------------- eval
    def ev(self, n):
        if n.id in self.memo:
            return self.memo[n.id]
        f = getattr(self, 'o_' + n.op, None)
        if f is None:
            v = self.opaque(n)
        else:
            v = f(n)
        self.chk(v)
        if not self.env or not self.bound(n):
            self.memo[n.id] = v
        return v

    def bound(self, n):
        r = self.envdep.get(n.id)
        if r is None:
            r = self.envdep[n.id] = n.op in ('iv', 'bv') or any(self.bound(a) for a in n.args)
        return r

    def chk(self, v):
        if isinstance(v, list):
            for x in v:
                self.chk(x)
        elif isinstance(v, (self.m.mpf, self.m.mpc)):
            if self.m.isnan(v) or self.m.isinf(v):
                raise Discard()

    def opaque(self, n):
        """uninterpreted: a random function of the arguments"""
        if n.op in ('mu', 'iv', 'bv', 'rand', 'undef') or n.rank is None:
            if n.op in ('mu', 'rand') and n.rank == 0:
                return self.real(self.rnd('node', n.id))
            if n.op == 'rand' and n.rank == 1:
                return [self.real(self.rnd('node', n.attr, n.args[0].id, i)) for i in range(self.length(n))]
            raise Unk(n.op)
        return self.fn((n.op, n.attr), [self.ev(a) for a in n.args], n)

    def fn(self, key, vals, n, like=None):
        d = self.fold(vals)
        typ = 'real' if arrays.is_real(n) else 'cplx'
        if n.op == 'uf':
            typ = n.attr[2]
        if n.rank == 0:
            return self.samp(typ, self.rnd(repr(key), d))
        if n.rank == 1:
            k = len(like) if isinstance(like, list) else self.length(n)
            return [self.samp(typ, self.rnd(repr(key), d, i)) for i in range(k)]
        raise Unk('rank of ' + n.op)

    def length(self, n):
        ln = arrays.length_of(n)
        if ln.op == 'len':
            raise Unk('length')
        return self.toint(self.ev(ln))

    # constants and symbols
    def o_num(self, n):
        re, im = n.attr[0], n.attr[1]
        m = self.m
        def f(x):
            return int(x) if x.denominator == 1 else m.mpf(x.numerator) / x.denominator
        if im == 0:
            return f(re)
        return m.mpc(f(re), f(im))

    def o_bool(self, n):
        return n.attr

    def o_str(self, n):
        return n.attr

    def o_none(self, n):
        return None

    def o_const(self, n):
        m = self.m
        if n.attr == 'pi':
            return +m.pi
        if n.attr == 'e':
            return +m.e
        if n.attr == 'c':
            return 299792458
        h = m.mpf('0.83457198')
        if n.attr == 'h':
            return h
        if n.attr == 'hbar':
            return h / (2 * m.pi)
        if n.attr in ('nan', 'inf', '-inf'):
            raise Discard()
        return self.real(self.rnd('const', n.attr), 0.5, 2.0)

    def o_sym(self, n):
        name, rank, typ = n.attr
        shape = [self.toint(self.ev(a)) for a in n.args]
        if rank and len(shape) != rank:
            if rank == 1 and not shape:
                shape = [5]
            else:
                raise Unk('shape of ' + str(name))
        if any(s <= 0 for s in shape):
            raise Discard()
        def go(k, ix):
            if k == rank:
                return self.samp(typ, self.rnd('sym', str(name), ix))
            return [go(k + 1, ix + (i,)) for i in range(shape[k])]
        return go(0, ())

    # arithmetic
    def o_add(self, n):
        a, b = [self.ev(x) for x in n.args]
        return self.ew(lambda x, y: self.numv(x) + self.numv(y), a, b)

    def o_mul(self, n):
        a, b = [self.ev(x) for x in n.args]
        return self.ew(lambda x, y: self.numv(x) * self.numv(y), a, b)

    def o_pow(self, n):
        a, b = [self.ev(x) for x in n.args]
        return self.ew(self.pw, a, b)

    def pw(self, x, y):
        x, y = self.numv(x), self.numv(y)
        k = self.isint(y)
        if x == 0:
            if k is not None and k >= 0:
                return 0 if k else 1
            if k is not None:
                raise Discard()
            return 0
        if k is not None:
            if isinstance(x, int) and k < 0:
                x = self.m.mpf(x)
            return x ** k
        if self.isreal(x) and x < 0:
            raise Discard()
        return self.m.power(x, y)

    def u(self, n, f):
        return self.ew(lambda x: f(self.numv(x)), self.ev(n.args[0]))

    def o_exp(self, n):
        def f(x):
            if abs(self.m.mpc(x).real) > 60:
                raise Discard()         # beyond the working precision once it is added to anything
            return self.m.exp(x)
        return self.u(n, f)

    def o_log(self, n):
        def f(x):
            if x == 0 or (self.isreal(x) and x < 0):
                raise Discard()
            return self.m.log(x)
        return self.u(n, f)

    def o_abs(self, n):
        def f(x):
            if self.isreal(x):
                self.implicit(n, 'sign', {x > 0} if x != 0 else {True, False})
            else:
                self.implicit(n, 'sign', {True, False})
            return abs(x)
        return self.u(n, f)

    def o_conj(self, n):
        return self.u(n, lambda x: x if self.isreal(x) else self.m.conj(x))

    def o_real(self, n):
        return self.u(n, lambda x: x if self.isreal(x) else x.real)

    def o_imag(self, n):
        return self.u(n, lambda x: 0 if self.isreal(x) else x.imag)

    def o_sqrt(self, n):
        def f(x):
            if self.isreal(x) and x < 0:
                raise Discard()
            return self.m.sqrt(x)
        return self.u(n, f)

    def o_phase(self, n):
        return self.u(n, self.m.arg)

    def o_el(self, n):
        m = self.m
        def dom(f, ok):
            def g(x):
                if self.isreal(x) and not ok(x):
                    raise Discard()
                return f(x)
            return g
        T = {'sin': m.sin, 'cos': m.cos, 'tan': m.tan, 'sinh': m.sinh, 'cosh': m.cosh, 'tanh': m.tanh, 'arctan': m.atan,
             'arcsin': dom(m.asin, lambda x: abs(x) <= 1), 'arccos': dom(m.acos, lambda x: abs(x) <= 1), 'angle': m.arg,
             'arcsinh': m.asinh, 'arccosh': dom(m.acosh, lambda x: x >= 1), 'arctanh': dom(m.atanh, lambda x: abs(x) < 1),
             'sinc': lambda x: m.sin(m.pi * x) / (m.pi * x) if x != 0 else m.mpf(1), 'absolute': abs, 'sign': m.sign,
             'log10': dom(m.log10, lambda x: x > 0), 'log2': dom(lambda x: m.log(x, 2), lambda x: x > 0), 'log1p': lambda x: m.log(1 + x),
             'expm1': lambda x: m.exp(x) - 1, 'square': lambda x: x * x, 'reciprocal': lambda x: 1 / m.mpmathify(x), 'cbrt': m.cbrt,
             'exp2': lambda x: m.mpf(2) ** x, 'deg2rad': lambda x: x * m.pi / 180, 'radians': lambda x: x * m.pi / 180,
             'rad2deg': lambda x: x * 180 / m.pi, 'degrees': lambda x: x * 180 / m.pi,
             'isnan': lambda x: False, 'isinf': lambda x: False, 'isfinite': lambda x: True, 'ceil': lambda x: int(m.ceil(self.re(x)))}
        B = {'hypot': lambda x, y: m.sqrt(x * x + y * y), 'arctan2': lambda y, x: m.atan2(y, x), 'maximum': lambda x, y: max(self.re(x), self.re(y)),
             'minimum': lambda x, y: min(self.re(x), self.re(y)), 'fmax': lambda x, y: max(self.re(x), self.re(y)),
             'fmin': lambda x, y: min(self.re(x), self.re(y)), 'power': self.pw}
        if n.attr in T and len(n.args) == 1:
            if n.attr in ('sign', 'absolute'):
                def h(x):
                    if self.isreal(x):
                        self.implicit(n, n.attr, {x > 0} if x != 0 else {True, False})
                    return T[n.attr](x)
                return self.u(n, h)
            return self.u(n, T[n.attr])
        if n.attr in B and len(n.args) == 2:
            a, b = [self.ev(x) for x in n.args]
            def g(x, y):
                if n.attr in ('maximum', 'minimum', 'fmax', 'fmin'):
                    x, y = self.re(x), self.re(y)
                    self.implicit(n, 'max' if n.attr in ('maximum', 'fmax') else 'min', {x > y} if x != y else {True, False})
                return B[n.attr](self.numv(x), self.numv(y))
            return self.ew(g, a, b)
        vals = [self.ev(x) for x in n.args]
        if str(n.attr) not in self.opaque:
            raise Unk('function ' + str(n.attr))
        typ = 'real' if arrays.is_real(n) else 'cplx'
        return self.ew(lambda *v: self.samp(typ, self.rnd('el', str(n.attr), self.fold(v))), *vals)

    def o_cast(self, n):
        if n.attr in ('float64', 'float', 'float32'):
            return self.u(n, lambda x: x if self.isreal(x) else x.real)
        if n.attr in ('int', 'int64', 'int32'):
            return self.u(n, self.trunc)
        return self.ev(n.args[0])

    def trunc(self, x):
        k = self.isint(x)
        return k if k is not None else int(self.re(x))

    def flo(self, x):
        k = self.isint(x)
        return k if k is not None else int(self.m.floor(self.re(x)))

    def o_int(self, n):
        return self.u(n, self.trunc)

    def o_floor(self, n):
        return self.u(n, self.flo)

    def o_round(self, n):
        return self.u(n, lambda x: self.isint(x) if self.isint(x) is not None else int(self.m.nint(self.re(x))))

    def o_floordiv(self, n):
        a, b = [self.ev(x) for x in n.args]
        return self.ew(self.fdiv, a, b)

    def fdiv(self, x, y):
        x, y = self.numv(x), self.numv(y)
        if y == 0:
            raise Discard()
        if isinstance(x, int) and isinstance(y, int):
            return x // y
        return self.flo(self.re(x) / self.re(y))

    def o_mod(self, n):
        a, b = [self.ev(x) for x in n.args]
        if isinstance(a, (str, tuple)):
            raise Unk('format')
        return self.ew(lambda x, y: self.numv(x) - self.numv(y) * self.fdiv(x, y), a, b)

    # conditions
    def cmp(self, n, f):
        a, b = [self.ev(x) for x in n.args]
        v = self.ew(f, a, b)
        self.cond(n, v)
        return v

    def near(self, x, y):
        d = abs(self.m.mpc(x) - self.m.mpc(y))
        return d < self.m.mpf(10) ** -28 * (1 + abs(self.m.mpc(x)))

    def o_lt(self, n):
        return self.cmp(n, lambda x, y: self.re(x) < self.re(y) and not self.near(x, y))

    def o_le(self, n):
        return self.cmp(n, lambda x, y: self.re(x) <= self.re(y) or self.near(x, y))

    def eqv(self, x, y):
        if any(v is None or isinstance(v, (str, tuple)) for v in (x, y)):
            return repr(x) == repr(y)
        return self.near(x, y)

    def o_eq(self, n):
        return self.cmp(n, self.eqv)

    def o_ne(self, n):
        return self.cmp(n, lambda x, y: not self.eqv(x, y))

    def o_is(self, n):
        a, b = [self.ev(x) for x in n.args]
        if isinstance(a, list) or isinstance(b, list):
            if a is None or b is None:
                self.cond(n, False)
                return False
            raise Unk('identity')
        v = self.eqv(a, b)
        self.cond(n, v)
        return v

    def o_not(self, n):
        return self.ew(lambda x: not x, self.ev(n.args[0]))

    def o_and(self, n):
        a, b = [self.ev(x) for x in n.args]
        return self.ew(lambda x, y: bool(x) and bool(y), a, b)

    def o_or(self, n):
        a, b = [self.ev(x) for x in n.args]
        return self.ew(lambda x, y: bool(x) or bool(y), a, b)

    def o_truth(self, n):
        v = self.ev(n.args[0])
        if isinstance(v, (list, tuple)):
            raise Unk('truth')
        self.cond(n, bool(v))
        return bool(v)

    def o_all(self, n):
        def go(v):
            return all(go(x) for x in v) if isinstance(v, list) else bool(v)
        return go(self.ev(n.args[0]))

    def o_any(self, n):
        def go(v):
            return any(go(x) for x in v) if isinstance(v, list) else bool(v)
        return go(self.ev(n.args[0]))

    def o_phi(self, n):
        c = self.ev(n.args[0])
        if isinstance(c, (list, tuple)):
            raise Unk('condition')
        self.cond(n.args[0], bool(c))
        return self.ev(n.args[1] if c else n.args[2])

    def o_where(self, n):
        c, a, b = [self.ev(x) for x in n.args]
        return self.ew(lambda p, x, y: x if p else y, c, a, b)

    # arrays
    def o_bcast(self, n):
        v = self.ev(n.args[0])
        sh = n.args[1]
        dims = self.dims(sh)
        def full(v, dims):
            if not dims:
                if isinstance(v, list):
                    raise Unk('broadcast')
                return v
            s = self.shape(v)
            if len(s) < len(dims):
                x = full(v, dims[1:])
                return [x for _ in range(dims[0])]
            if len(v) not in (1, dims[0]):
                raise Unk('broadcast')
            return [full(v[0] if len(v) == 1 else v[i], dims[1:]) for i in range(dims[0])]
        if len(self.shape(v)) > len(dims):
            raise Unk('broadcast')
        return full(v, dims)

    def dims(self, sh):
        if sh.op == 'tuple':
            d = [self.toint(self.ev(a)) for a in sh.args]
        elif sh.op == 'shape':
            d = list(self.shape(self.ev(sh.args[0])))
        elif sh.rank == 0 and sh.op not in ('phi',):
            d = [self.toint(self.ev(sh))]
        else:
            raise Unk('shape')
        if any(x <= 0 for x in d):
            raise Discard()
        return d

    def o_iota(self, n):
        return list(range(self.pos(self.ev(n.args[0]))))

    def pos(self, v):
        k = self.toint(v)
        if k <= 0:
            raise Discard()
        if k > 64:
            raise Unk('long array')
        return k

    def o_linspace(self, n):
        a, b, k = [self.ev(x) for x in n.args]
        k = self.pos(k)
        if n.attr not in (True, False):
            raise Unk('linspace')
        d = k - 1 if n.attr else k
        if d == 0:
            return [a]
        return [a + (b - a) * self.m.mpf(i) / d for i in range(k)]

    def o_arange(self, n):
        v = [self.ev(x) for x in n.args]
        a, b, s = (0, v[0], 1) if len(v) == 1 else (v[0], v[1], v[2] if len(v) > 2 else 1)
        q = (b - a) / (self.m.mpf(s) if isinstance(s, int) else s)
        k = -self.flo(-q)
        if k <= 0:
            raise Discard()
        if k > 64:
            raise Unk('long array')
        return [a + s * i for i in range(k)]

    def vec(self, v):
        if not isinstance(v, list) or len(self.shape(v)) != 1:
            raise Unk('vector')
        return v

    def dft(self, v, sign):
        N = len(v)
        w = [self.m.expjpi(self.m.mpf(2 * k * sign) / N) for k in range(N)]
        return [self.m.fsum(v[j] * w[(j * k) % N] for j in range(N)) for k in range(N)]

    def axis(self, f, v, ax):
        """apply a vector function along an axis of a rank 1 or 2 value"""
        r = len(self.shape(v))
        if r == 1 and ax in (0, -1, 'all'):
            return f(v)
        if r == 2 and ax in (1, -1):
            return [f(x) for x in v]
        if r == 2 and ax == 0:
            return [list(t) for t in zip(*[f(list(c)) for c in zip(*v)])]
        raise Unk('axis')

    def o_fft(self, n):
        return self.axis(lambda v: self.dft(v, -1), self.ev(n.args[0]), n.attr)

    def o_ifft(self, n):
        return self.axis(lambda v: [x / len(v) for x in self.dft(v, 1)], self.ev(n.args[0]), n.attr)

    def o_perm(self, n):
        name, ax = n.attr
        def f(v):
            k = (len(v) + 1) // 2 if name == 'fftshift' else len(v) // 2
            return v[k:] + v[:k]
        v = self.ev(n.args[0])
        if ax == 'all' and len(self.shape(v)) == 2:
            return self.axis(f, self.axis(f, v, 0), 1)
        if name not in ('fftshift', 'ifftshift'):
            raise Unk('permutation')
        return self.axis(f, v, ax)

    def o_roll(self, n):
        v = self.vec(self.ev(n.args[0]))
        k = self.toint(self.ev(n.args[1])) % len(v)
        return v[-k:] + v[:-k] if k else list(v)

    def o_flip(self, n):
        if n.attr is not None:
            raise Unk('flip')
        return self.vec(self.ev(n.args[0]))[::-1]

    def o_trapz(self, n):
        y = self.ev(n.args[0])
        if len(self.shape(y)) != 1:
            raise Unk('trapz')
        if len(n.args) > 1:
            x = self.vec(self.ev(n.args[1]))
            return self.m.fsum((x[i + 1] - x[i]) * (y[i] + y[i + 1]) / self.m.mpf(2) for i in range(len(y) - 1))
        return self.m.fsum((y[i] + y[i + 1]) / self.m.mpf(2) for i in range(len(y) - 1))

    def flat(self, v):
        return [y for x in v for y in self.flat(x)] if isinstance(v, list) else [v]

    def red(self, n, f):
        if n.attr is not None:
            raise Unk('axis')
        v = self.ev(n.args[0])
        if not isinstance(v, list):
            return v
        return f([self.numv(x) for x in self.flat(v)])

    def o_sum(self, n):
        return self.red(n, lambda v: self.m.fsum(v))

    def o_mean(self, n):
        return self.red(n, lambda v: self.m.fsum(v) / len(v))

    def o_max(self, n):
        return self.red(n, lambda v: max(self.re(x) for x in v))

    def o_min(self, n):
        return self.red(n, lambda v: min(self.re(x) for x in v))

    def o_cumsum(self, n):
        v = self.vec(self.ev(n.args[0]))
        out, s = [], 0
        for x in v:
            s = s + self.numv(x)
            out.append(s)
        return out

    def o_unwrap(self, n):
        v = self.vec(self.ev(n.args[0]))
        out = [v[0]]
        two = 2 * self.m.pi
        for i in range(1, len(v)):
            d = v[i] - v[i - 1]
            out.append(out[-1] + d - two * self.m.nint(d / two))
        return out

    def o_map(self, n):
        k = self.pos(self.ev(n.args[0]))
        return self.each(n.attr, k, n.args[1])

    def each(self, d, k, body):
        old = self.env.get('b%d' % d)
        out = []
        for i in range(k):
            self.env['b%d' % d] = i
            out.append(self.ev(body))
        if old is None:
            del self.env['b%d' % d]
        else:
            self.env['b%d' % d] = old
        return out

    def o_bigsum(self, n):
        k = self.toint(self.ev(n.args[0]))
        if k < 0 or k > 64:
            raise Unk('bigsum')
        t = 0
        for v in self.each(n.attr, k, n.args[1]):
            t = self.ew(lambda x, y: x + y, t, v)
        return t

    def o_iv(self, n):
        if n.attr in self.env:
            return self.env[n.attr]
        raise Unk('loop index')

    def o_len(self, n):
        v = self.ev(n.args[0])
        if not isinstance(v, list):
            raise Unk('len')
        return len(v)

    def o_tuple(self, n):
        return ('tuple',) + tuple(self.key(self.ev(a)) for a in n.args)

    def key(self, v):
        if isinstance(v, list) or isinstance(v, (self.m.mpf, self.m.mpc, int, bool)):
            return self.fold([v])
        return v

    def o_list(self, n):
        return [self.ev(a) for a in n.args]

    o_stack = o_list

    def o_hstack(self, n):
        out = []
        for a in n.args:
            v = self.ev(a)
            out += self.vec(v) if isinstance(v, list) else [v]
        return out

    def o_transpose(self, n):
        v = self.ev(n.args[0])
        return v if len(self.shape(v)) == 1 else [list(t) for t in zip(*v)]

    def o_rowrep(self, n):
        v = self.ev(n.args[0])
        return [list(v) for _ in range(self.toint(self.ev(n.args[1])))]

    def o_colrep(self, n):
        v = self.ev(n.args[0])
        k = self.toint(self.ev(n.args[1]))
        return [[x] * k for x in v]

    def index(self, v, i):
        """index positions: int, or list of ints"""
        L = len(v)
        if i.op == 'slice':
            a = [None if x.op == 'none' else self.toint(self.ev(x)) for x in i.args]
            return list(range(*slice(*a).indices(L)))
        k = self.ev(i)
        if isinstance(k, list):
            if k and isinstance(k[0], bool):
                if len(k) != L:
                    raise Unk('mask')
                return [j for j in range(L) if k[j]]
            k = [self.toint(x) for x in k]
            if any(not -L <= j < L for j in k):
                raise Discard()
            return [j % L for j in k]
        k = self.toint(k)
        if not -L <= k < L:
            raise Discard()
        return k % L

    def o_getitem(self, n):
        v = self.ev(n.args[0])
        ix = n.args[1].args if n.args[1].op == 'tuple' else (n.args[1],)
        if n.args[0].op == 'tuple' or isinstance(v, tuple):
            raise Unk('getitem')
        return self.get(v, list(ix))

    def get(self, v, ix):
        if not ix:
            return v
        if ix[0].op == 'none':
            return [self.get(v, ix[1:])]
        if not isinstance(v, list):
            raise Unk('index')
        if ix[0].op == 'str':
            raise Unk('index')
        k = self.index(v, ix[0])
        if isinstance(k, list):
            if sum(1 for i in ix if i.op not in ('slice', 'none')) > 1:
                raise Unk('fancy')
            return [self.get(v[j], ix[1:]) for j in k]
        return self.get(v[k], ix[1:])

    def o_setitem(self, n):
        x, i, v = n.args
        a = self.ev(x)
        if len(self.shape(a)) != 1 or i.op == 'tuple':
            raise Unk('setitem')
        a = list(a)
        w = self.ev(v)
        k = self.index(a, i)
        if isinstance(k, list):
            if isinstance(w, list) and len(w) != len(k):
                if len(w) != 1:
                    raise Discard()
                w = w[0]
            for p, j in enumerate(k):
                a[j] = w[p] if isinstance(w, list) else w
        else:
            if isinstance(w, list):
                raise Unk('setitem')
            a[k] = w
        return a

    def o_polyval(self, n):
        pn = n.args[0]
        co = [self.ev(a) for a in pn.args] if pn.op in ('tuple', 'list') else self.vec(self.ev(pn))
        def f(x):
            t = 0
            for k in co:
                t = t * x + k
            return t
        return self.ew(f, self.ev(n.args[1]))

    def o_apply(self, n):
        fo = n.args[0]
        vals = [self.ev(a) for a in n.args[1:]]
        if fo.op in ('fnobj',):
            k = ('fnobj', str(fo.attr), self.fold([self.ev(a) for a in fo.args]))
        else:
            k = ('fn', fo.id)
        typ = 'real' if arrays.is_real(n) else 'cplx'
        if fo.op == 'fnobj' and len(vals) == 1 and len(fo.args) >= 2 and fo.attr[0] in INTERP:
            xs, ys = self.ev(fo.args[0]), self.ev(fo.args[1])
            if isinstance(xs, list) and isinstance(ys, list) and len(xs) == len(ys):
                def f(v):
                    for x, y in zip(xs, ys):
                        if self.near(x, v):
                            return y
                    return self.samp(typ, self.rnd('apply', n.attr[:1], k, self.fold([v])))
                return self.ew(f, vals[0])
        return self.ew(lambda *v: self.samp(typ, self.rnd('apply', n.attr[:1], k, self.fold(v))), *vals)

    def o_uf(self, n):
        vals = [self.ev(a) for a in n.args]
        if n.attr[0].startswith('pw_'):
            return self.ew(lambda *v: self.samp(n.attr[2], self.rnd('uf', n.attr[0], self.fold(v))), *vals)
        return self.fn(('uf', n.attr[0]), vals, n)

    def o_call(self, n):
        nm = n.attr[0] if isinstance(n.attr, tuple) else n.attr
        vals = [self.ev(a) for a in n.args]
        if nm in ('argmax', 'argmin') and len(vals) == 1 and len(self.shape(vals[0])) == 1:
            v = [self.re(x) for x in vals[0]]
            return v.index(max(v) if nm == 'argmax' else min(v))
        if nm == 'gradient' and len(vals) == 1 and len(self.shape(vals[0])) == 1:
            v = vals[0]
            if len(v) < 2:
                raise Discard()
            h = self.m.mpf(2)
            return [v[1] - v[0]] + [(v[i + 1] - v[i - 1]) / h for i in range(1, len(v) - 1)] + [v[-1] - v[-2]]
        if n.rank is None:
            raise Unk('call ' + str(nm))
        return self.fn(('call', str(n.attr)), vals, n)


def compare(ev, a, b):
    """largest relative difference"""
    m = ev.m
    if isinstance(a, list) != isinstance(b, list):
        # a constant array equals its constant value
        a, b = (a, [b] * len(a)) if isinstance(a, list) else ([a] * len(b), b)
    if isinstance(a, list):
        if len(a) != len(b):
            return False
        if ev.shape(a) != ev.shape(b):
            return len(ev.shape(a)) != len(ev.shape(b)) and all(compare(ev, x, y) for x, y in zip(a, b))
        fa, fb = ev.flat(a), ev.flat(b)
    else:
        fa, fb = [a], [b]
    if any(x is None or isinstance(x, (str, tuple)) for x in fa + fb):
        return all(repr(x) == repr(y) for x, y in zip(fa, fb))
    sc = max([abs(m.mpc(x)) for x in fa + fb] + [m.mpf(10) ** -300])
    tol = sc * m.mpf(10) ** -25 + m.mpf(10) ** -80
    return all(abs(m.mpc(x) - m.mpc(y)) <= tol for x, y in zip(fa, fb))


def elnames(n):
    out, todo, seen = set(), [n], set()
    while todo:
        x = todo.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'el':
            out.add(str(x.attr))
        todo.extend(x.args)
    return out


def agree(a, b, pc=(), samples=12, tries=60, seed='s'):
    """(True|False|None, unflipped condition outcomes)

    True: equal at every sample.  None: could not be evaluated often enough."""
    if not mp():
        return None, {}
    got = never = 0
    conds = {}
    opaque = elnames(a) & elnames(b)    # functions unknown here may stand for themselves when both sides use them
    for t in range(tries):
        intime()
        e = Eval('%s%d' % (seed, t), opaque=opaque)
        try:
            ok = True
            for c, pol in pc:
                if bool(e.ev(c)) != pol:
                    ok = False
                    break
            if not ok:
                never += 1
                continue
            e.conds = {}
            x, y = e.ev(a), e.ev(b)
        except (Discard, ZeroDivisionError, OverflowError):
            continue
        except Unk:
            return None, {}
        except (TypeError, ValueError, AttributeError, IndexError, RecursionError):
            return None, {}
        for k, s in e.conds.items():
            conds.setdefault(k, set()).update(s)
        if not compare(e, x, y):
            return False, {}
        got += 1
        if got >= samples:
            break
    if not got and never:
        # the points never meet the path condition: formulas that agree everywhere agree there too, others are left open
        r, left = agree(a, b, (), samples, tries, seed)
        return (True, left) if r else (None, {})
    if got < 4:
        return None, {}
    def unflipped():
        return {k: next(iter(s)) for k, s in conds.items() if len(s) == 1 and (isinstance(k, tuple) or k.op not in ('bool',))}
    left = unflipped()
    # look for points where a condition that never changed does: more points, of other sizes
    t0 = time.time()
    for t in range(240 if left else 0):
        if not left or time.time() - t0 > 20:
            break
        intime()
        e = Eval('%sh%d' % (seed, t), opaque=opaque)
        e.wide = (0, 3, 18)[t % 3]
        try:
            e.conds = {}
            new = False
            for k, old in left.items():
                if isinstance(k, tuple):
                    e.ev(k[0])
                    new = new or any(v != old for v in e.conds.get(k, ()))
                else:
                    new = new or bool(e.ev(k)) != old
            if not new or any(bool(e.ev(c)) != pol for c, pol in pc):
                continue
            x, y = e.ev(a), e.ev(b)
        except (Discard, ZeroDivisionError, OverflowError, Unk, TypeError, ValueError, AttributeError, IndexError, RecursionError):
            continue
        if not compare(e, x, y):
            return False, {}
        for k, s in e.conds.items():
            conds.setdefault(k, set()).update(s)
        left = unflipped()
    return True, left

"""Normal form of value-graph nodes.

Numeric nodes are mapped to Laurent polynomials over interned atoms, with
Gaussian-rational coefficients; exponentials, conjugation, Fourier transforms,
circular shifts, linear functionals, indicator functions (where / joins) have
rewrite rules that are valid for every value of the atoms.  Two nodes with the
same normal form denote the same value for every input.
"""
from fractions import Fraction
from .core import *
from . import core, arrays
from .arrays import length_of

F0, F1 = Fraction(0), Fraction(1)
MAXTERMS = 6000


class Blowup(Exception):
    pass


# ------------------------------------------------------------------- atoms
class Atom(object):
    __slots__ = ('id', 'kind', 'data', 'kids', 'rank', 'real', 'nonneg', 'pos', 'integer', 'taint', 'node', 'lin')


_ATAB = {}
_ATOMS = []


def atom(kind, data=None, kids=(), rank=0, real=False, nonneg=False, pos=False, integer=False, taint=False, node=None):
    if kids and kind != 'poly':
        kids = tuple(pcanon(k) for k in kids)
    key = (kind, data, tuple(k.key() for k in kids))
    a = _ATAB.get(key)
    if a is None:
        a = Atom()
        a.id = len(_ATOMS)
        a.kind, a.data, a.kids, a.rank = kind, data, tuple(kids), rank
        a.pos = pos
        a.nonneg = nonneg or pos
        a.real = real or a.nonneg or integer
        a.integer = integer
        a.taint = taint or any(k.tainted() for k in kids)
        a.node = node
        _ATAB[key] = a
        _ATOMS.append(a)
    return a


# -------------------------------------------------------------- polynomials
class P(object):
    __slots__ = ('t', '_k', '_taint')

    def __init__(self, t):
        self.t = t
        self._k = None
        self._taint = None

    def key(self):
        if self._k is None:
            self._k = frozenset(self.t.items())
        return self._k

    def tainted(self):
        if self._taint is None:
            self._taint = any(_ATOMS[i].taint for m in self.t for i, e in m)
        return self._taint

    def __eq__(self, o):
        return isinstance(o, P) and self.t == o.t

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return pshow(self)


def pconst(re, im=F0):
    re = Fraction(re)
    im = Fraction(im)
    if re == 0 and im == 0:
        return P({})
    return P({(): (re, im)})


P0, P1, PM1, PI_ = P({}), pconst(1), pconst(-1), pconst(0, 1)


def patom(a, e=F1):
    return P({((a.id, Fraction(e)),): (F1, F0)})


def padd(a, b):
    if not a.t:
        return b
    if not b.t:
        return a
    if len(a.t) < len(b.t):
        a, b = b, a
    t = dict(a.t)
    for m, (re, im) in b.t.items():
        c = t.get(m)
        if c is None:
            t[m] = (re, im)
        else:
            r2, i2 = c[0] + re, c[1] + im
            if r2 == 0 and i2 == 0:
                del t[m]
            else:
                t[m] = (r2, i2)
    return P(t)


def pscale(a, re, im=F0):
    re = Fraction(re)
    im = Fraction(im)
    if re == 0 and im == 0:
        return P0
    if im == 0:
        if re == 1:
            return a
        return P({m: (c[0] * re, c[1] * re) for m, c in a.t.items()})
    return P({m: (c[0] * re - c[1] * im, c[0] * im + c[1] * re) for m, c in a.t.items()})


def pneg(a):
    return pscale(a, -1)


def psub(a, b):
    return padd(a, pneg(b))


def cmulc(a, b):
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


SPECIAL = {'exp', 'ind', 'poly', 'abs', 'unit', 'prime'}


def mono_mul(m1, m2):
    """-> (mono, None) or (None, P) when the product needs re-expansion"""
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    d = dict(m1)
    special = False
    for i, e in m2:
        if i in d:
            s = d[i] + e
            k = _ATOMS[i].kind
            if k in SPECIAL or k == 'exp':
                special = True
            if s == 0:
                del d[i]
            else:
                d[i] = s
        else:
            d[i] = e
    exps = [i for i in d if _ATOMS[i].kind == 'exp']
    if len(exps) > 1:
        rk = [_ATOMS[i].rank for i in exps]
        if len(set(rk)) != len(rk):
            special = True
    if not special:
        for i in d:
            if _ATOMS[i].kind == 'ind' and _ATOMS[i].data and len(d) > 1:
                special = True
                break
    if not special:
        return tuple(sorted(d.items())), None
    return None, rebuild_mono(d)


def rebuild_mono(d):
    plain = {}
    expo = None
    extra = P1
    for i, e in d.items():
        a = _ATOMS[i]
        if a.kind == 'exp':
            if e.denominator == 1 or allreal(a.kids[0]):
                q = pscale(a.kids[0], e)
                expo = q if expo is None else padd(expo, q)
            else:
                plain[i] = e
        elif a.kind == 'ind':
            if e > 0:
                plain[i] = F1
            else:
                plain[i] = e
        elif a.kind == 'poly' and e > 0 and e >= 1:
            k = int(e)   # floor
            q = a.kids[0]
            for _ in range(k):
                extra = pmul(extra, q)
            r = e - k
            if r:
                plain[i] = r
        elif a.kind == 'abs' and (e >= 2 or e <= -1):
            k = (e // 2)
            x = a.kids[0]
            extra = pmul(extra, ppow_int(pmul(x, pconj(x)), int(k)))
            r = e - 2 * k
            if r:
                plain[i] = r
        elif a.kind == 'prime' and (e >= 1 or e < 0):
            k = e // 1
            extra = pscale(extra, Fraction(a.data) ** int(k))
            r = e - k
            if r:
                plain[i] = r
        else:
            plain[i] = e
    base = P({tuple(sorted(plain.items())): (F1, F0)})
    base = ind_simplify(base)
    if extra is not P1:
        base = pmul_raw(base, extra)
    if expo is not None:
        base = pmul_exp(base, expo)
    return base


def ind_simplify(p):
    """products of index indicators"""
    out = {}
    for m, c in p.t.items():
        ats = [(_ATOMS[i], e) for i, e in m if _ATOMS[i].kind == 'ind' and _ATOMS[i].data and _ATOMS[i].data[0] == 'at']
        dead = False
        for x in range(len(ats)):
            for y in range(x):
                a, b = ats[x][0], ats[y][0]
                if a.data[1] != b.data[1] and a.data[1] is not None and b.data[1] is not None \
                        and (a.data[1] >= 0) == (b.data[1] >= 0):
                    dead = True
        if not dead:
            out[m] = c
    return P(out)


def pmul_raw(a, b):
    return pmul(a, b)


def pmul_exp(base, expo):
    """base * exp(expo)"""
    if any(_ATOMS[i].kind == 'exp' for m in base.t for i, x in m):
        out = P0
        for m, c in base.t.items():
            ex = expo
            rest = []
            for i, x in m:
                if _ATOMS[i].kind == 'exp' and (x.denominator == 1 or allreal(_ATOMS[i].kids[0])):
                    ex = padd(ex, pscale(_ATOMS[i].kids[0], x))
                else:
                    rest.append((i, x))
            if len(rest) == len(m):
                out = padd(out, _pmul_exp(P({m: c}), expo))
            else:
                out = padd(out, _pmul_exp(P({tuple(rest): c}), ex))
        return out
    return _pmul_exp(base, expo)


def _pmul_exp(base, expo):
    e = mkexp(expo)
    out = P0
    for m, c in base.t.items():
        for m2, c2 in e.t.items():
            d = dict(m)
            for i, x in m2:
                if i in d:
                    d[i] = d[i] + x
                    if d[i] == 0:
                        del d[i]
                else:
                    d[i] = x
            # exp() of log terms may have produced ordinary atoms that combine
            if any(_ATOMS[i].kind in ('poly', 'abs', 'prime') and not (0 < x < 1) for i, x in d.items()):
                noexp = {i: x for i, x in d.items() if _ATOMS[i].kind != 'exp'}
                ex = {i: x for i, x in d.items() if _ATOMS[i].kind == 'exp'}
                q = rebuild_mono(noexp)
                for m3, c3 in q.t.items():
                    dd = dict(m3)
                    dd.update(ex)
                    out = padd(out, P({tuple(sorted(dd.items())): cmulc(cmulc(c, c2), c3)}))
                continue
            out = padd(out, P({tuple(sorted(d.items())): cmulc(c, c2)}))
    return out


def pmul(a, b):
    if not a.t or not b.t:
        return P0
    if len(a.t) == 1 and () in a.t:
        return pscale(b, *a.t[()])
    if len(b.t) == 1 and () in b.t:
        return pscale(a, *b.t[()])
    if len(a.t) * len(b.t) > MAXTERMS * 4:
        raise Blowup()
    if len(a.t) * len(b.t) > 50:
        intime()
    t = {}
    ext = None
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m, q = mono_mul(m1, m2)
            c = cmulc(c1, c2)
            if q is None:
                o = t.get(m)
                if o is None:
                    t[m] = c
                else:
                    s = (o[0] + c[0], o[1] + c[1])
                    if s[0] == 0 and s[1] == 0:
                        del t[m]
                    else:
                        t[m] = s
            else:
                q = pscale(q, *c)
                ext = q if ext is None else padd(ext, q)
    r = P(t)
    if ext is not None:
        r = padd(r, ext)
    if len(r.t) > MAXTERMS:
        raise Blowup()
    return r


def ppow_int(a, k):
    if k == 0:
        return P1
    if k < 0:
        return ppow_int(pinv(a), -k)
    r = None
    base = a
    while k:
        if k & 1:
            r = base if r is None else pmul(r, base)
        k >>= 1
        if k:
            base = pmul(base, base)
    return r


def const_of(p):
    """(re, im) when p is a constant"""
    if not p.t:
        return (F0, F0)
    if len(p.t) == 1 and () in p.t:
        return p.t[()]
    return None


def prank(p):
    r = 0
    for m in p.t:
        for i, e in m:
            k = _ATOMS[i].rank
            if k is None:
                return None
            if k > r:
                r = k
    return r


def mrank(m):
    r = 0
    for i, e in m:
        k = _ATOMS[i].rank
        if k is None:
            return 9
        if k > r:
            r = k
    return r


def allreal(p):
    for m, (re, im) in p.t.items():
        if im != 0:
            break
        for i, e in m:
            a = _ATOMS[i]
            if not a.real or (e.denominator != 1 and not a.nonneg):
                break
        else:
            continue
        break
    else:
        return True
    return pconj(p) == p


def mono_pos(m, c):
    if c[1] != 0 or c[0] <= 0:
        return False
    for i, e in m:
        a = _ATOMS[i]
        if a.pos:
            continue
        return False
    return True


def mono_nonneg(m, c):
    if c[1] != 0 or c[0] < 0:
        return False
    rest = {}
    for i, e in m:
        a = _ATOMS[i]
        if a.nonneg:
            continue
        if a.real and e.denominator == 1 and e % 2 == 0:
            continue
        rest[i] = e
    if not rest:
        return True
    # x * conj(x) pairs
    for i, e in list(rest.items()):
        if i not in rest:
            continue
        cj = pconj(patom(_ATOMS[i]))
        if len(cj.t) == 1:
            (mm, cc), = cj.t.items()
            if cc == (F1, F0) and len(mm) == 1 and mm[0][1] == 1 and mm[0][0] in rest and rest[mm[0][0]] == e and mm[0][0] != i:
                del rest[i]
                del rest[mm[0][0]]
    return not rest


def ppos(p):
    return bool(p.t) and all(mono_nonneg(m, c) for m, c in p.t.items()) and any(mono_pos(m, c) for m, c in p.t.items())


def pnonneg(p):
    return all(mono_nonneg(m, c) for m, c in p.t.items()) or _poly_int_nonneg(p)


def _poly_int_nonneg(p):
    # N - k with N a positive integer symbol >= k? not assumed
    return False


def pinteger(p):
    for m, (re, im) in p.t.items():
        if im != 0 or re.denominator != 1:
            return False
        for i, e in m:
            if not _ATOMS[i].integer or e.denominator != 1 or e < 0:
                return False
    return True


def peven(p):
    return all(c[0].denominator == 1 and c[0] % 2 == 0 for c in p.t.values()) and pinteger(p)


# ------------------------------------------------------- indicators / split
def scalar_inds(p):
    s = []
    for m in p.t:
        for i, e in m:
            if _ATOMS[i].kind == 'ind' and i not in s:
                s.append(i)
    return s


def psubst_ind(p, i, val):
    t = {}
    out = P0
    for m, c in p.t.items():
        hit = [e for j, e in m if j == i]
        if hit:
            if not val:
                continue
            m = tuple((j, e) for j, e in m if j != i)
        o = t.get(m)
        if o is None:
            t[m] = c
        else:
            s = (o[0] + c[0], o[1] + c[1])
            if s == (0, 0):
                del t[m]
            else:
                t[m] = s
    return P(t)


def split_apply(p, f, depth=0):
    """apply a pointwise non-linear f to p, case-splitting on indicator atoms"""
    s = scalar_inds(p)
    if not s:
        return f(p)
    if depth > 6:
        raise Blowup()
    i = s[0]
    a = psubst_ind(p, i, True)
    b = psubst_ind(p, i, False)
    fa = split_apply(a, f, depth + 1)
    fb = split_apply(b, f, depth + 1)
    I = patom(_ATOMS[i])
    return padd(pmul(I, fa), pmul(psub(P1, I), fb))


# ------------------------------------------------------------- conj and abs
def pconj(p):
    out = P0
    for m, (re, im) in p.t.items():
        q = pconst(re, -im)
        plain = []
        for i, e in m:
            a = _ATOMS[i]
            if a.real:
                plain.append((i, e))
            else:
                q = pmul(q, ppow_frac_atom(aconj(a), e))
        if plain:
            q = pmul(q, P({tuple(plain): (F1, F0)}))
        out = padd(out, q)
    return out


def ppow_frac_atom(p, e):
    if e == 1:
        return p
    if e.denominator == 1:
        return ppow_int(p, int(e))
    return ppow(p, e)


def aconj(a):
    if a.real:
        return patom(a)
    if a.kind == 'conj':
        return a.kids[0]
    if a.kind == 'exp':
        return mkexp(pconj(a.kids[0]))
    if a.kind == 'poly':
        return ppow(pconj(a.kids[0]), F1)
    if a.kind == 'embed':
        return pembed(pconj(a.kids[0]), *a.kids[1:])
    return patom(atom('conj', None, (patom(a),), rank=a.rank))


def pabs(p):
    return split_apply(p, _pabs)


def _pabs(p):
    if not p.t:
        return P0
    if pnonneg(p):
        return p
    if pnonneg(pneg(p)):
        return pneg(p)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        r = pabs_const(c)
        for i, e in m:
            a = _ATOMS[i]
            if a.nonneg:
                q = patom(a, e)
            elif a.kind == 'exp':
                x = a.kids[0]
                q = mkexp(pscale(pscale(padd(x, pconj(x)), Fraction(1, 2)), e))
            elif a.kind == 'unit':
                q = P1
            elif a.real and e.denominator == 1 and e % 2 == 0:
                q = patom(a, e)
            elif e.denominator == 1 and e % 2 == 0:
                q = ppow_int(pmul(patom(a), pconj(patom(a))), int(e) // 2)
            else:
                q = rebuild_mono({abs_atom(patom(a), a.rank).id: e})
            r = pmul(r, q)
        return r
    c, m, q = content(p)
    am = _pabs(P({m: c})) if (m or c != (F1, F0)) else P1
    if pnonneg(q):
        return pmul(am, q)
    if len(q.t) <= 6 and not allreal(q):
        k = const_of(pcanon(pmul(q, pconj(q))))
        if k is not None and k[1] == 0 and k[0] > 0:
            return pmul(am, ppow(pconst(k[0]), Fraction(1, 2)))
        if len(q.t) == 2 and all(_ATOMS[i].real for m in q.t for i, e in m) and sorted((c[0] == 0, c[1] == 0) for c in q.t.values()) == [(False, True), (True, False)]:
            return pmul(am, ppow(pmul(q, pconj(q)), Fraction(1, 2)))
    # modulus via canonical representative among q, conj q
    qc = pconj(q)
    if qc != q:
        c2, m2, q2 = content(qc)
        if q2 != q and _before(q2, q) and pabs_const(c2) is P1 and not m2:
            q = q2
    return pmul(am, patom(abs_atom(q, prank(q))))


def _before(a, b):
    return sorted((tuple(m), c) for m, c in a.t.items()) < sorted((tuple(m), c) for m, c in b.t.items())


def abs_atom(p, rank):
    return atom('abs', None, (p,), rank=rank, nonneg=True)


def pabs_const(c):
    if c[1] == 0:
        return pconst(abs(c[0]))
    if c[0] == 0:
        return pconst(abs(c[1]))
    return ppow(pconst(c[0] * c[0] + c[1] * c[1]), Fraction(1, 2))


# ------------------------------------------------------- content / inversion
def _vec(m):
    d = {}
    for i, e in m:
        a = _ATOMS[i]
        if a.kind == 'exp':
            for mm, cc in a.kids[0].t.items():
                d[(1, tuple(mm))] = (cc[0] * e, cc[1] * e)
        else:
            d[(0, i)] = (e, F0)
    return d


def _cmp_vec(a, b):
    """translation-invariant total order"""
    ks = sorted(set(a) | set(b))
    for k in ks:
        x = a.get(k, (F0, F0))
        y = b.get(k, (F0, F0))
        d = (x[0] - y[0], x[1] - y[1])
        if d != (0, 0):
            return 1 if d > (0, 0) else -1
    return 0


def content(p):
    """p = c * m * q with q canonical (pivot coefficient 1, pivot monomial 1)"""
    items = list(p.t.items())
    best = None
    for m, c in items:
        v = _vec(m)
        if best is None or _cmp_vec(v, best[0]) > 0:
            best = (v, m, c)
    m, c = best[1], best[2]
    if not m and c == (F1, F0):
        return c, (), p
    q = pmul(p, pinv_mono(m, c))
    return c, m, q


def pinv_mono(m, c):
    d = c[0] * c[0] + c[1] * c[1]
    k = (c[0] / d, -c[1] / d)
    r = pconst(*k)
    if not m:
        return r
    simple = {}
    q = P1
    for i, e in m:
        a = _ATOMS[i]
        if a.kind == 'exp':
            q = pmul(q, mkexp(pscale(a.kids[0], -e)))
        else:
            simple[i] = -e
    if simple:
        q = pmul(rebuild_mono(simple), q)
    return pmul(r, q)


def pinv(p):
    return split_apply(p, _pinv)


def _pinv(p):
    if not p.t:
        return patom(atom('inf', None, (), real=True))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        return pinv_mono(m, c)
    f = clear_den(p)
    if f is not None:
        num, den = f
        return pmul(_expand_den(den), _pinv(num))
    c, m, q = content(p)
    r = pinv_mono(m, c)
    return pmul(r, patom(poly_atom(q), -1))


_CANON = {}


def pcanon(p):
    """one common denominator, exact quotients taken"""
    den = {}
    for m in p.t:
        for i, e in m:
            if e < 0 and _ATOMS[i].kind == 'poly' and e.denominator == 1:
                den[i] = max(den.get(i, 0), int(-e))
    if not den or len(p.t) > 60:
        return p
    r = _CANON.get(p)
    if r is None:
        r = _CANON[p] = _pcanon(p, den)
    return r


def clear_den(p):
    """p = num / prod(den) with integer powers of polynomial atoms, or None"""
    den = {}
    for m in p.t:
        for i, e in m:
            if e < 0 and _ATOMS[i].kind == 'poly' and e.denominator == 1:
                den[i] = max(den.get(i, 0), int(-e))
    if not den or len(p.t) > 60:
        return None
    q = pcanon(p)
    num, left = q, {}
    for i in den:
        k = max([int(-dict(m).get(i, F0)) for m in q.t] + [0])
        if k:
            left[i] = k
    for i, k in left.items():
        out = P0
        for m, c in num.t.items():
            d = dict(m)
            d[i] = d.get(i, F0) + k
            if d[i] == 0:
                del d[i]
            out = padd(out, pscale(rebuild_mono(d), *c))
        num = out
    if any(_ATOMS[i].kind == 'poly' and e < 0 and e.denominator == 1 for m in num.t for i, e in m):
        return None
    return num, left


def _expand_den(den):
    r = P1
    for i, k in den.items():
        for _ in range(k):
            r = pmul(r, _ATOMS[i].kids[0])
    return r


def _pcanon(p, den):
    num = p
    for i, k in den.items():
        out = P0
        for m, c in num.t.items():
            d = dict(m)
            d[i] = d.get(i, F0) + k
            if d[i] == 0:
                del d[i]
            out = padd(out, pscale(rebuild_mono(d), *c))
            if len(out.t) > 300:
                return p
        num = out
    if any(_ATOMS[i].kind == 'poly' and e < 0 and e.denominator == 1 for m in num.t for i, e in m):
        return p
    res = P1
    for i in sorted(den):
        k = den[i]
        while k:
            q = pdivide(num, _ATOMS[i].kids[0])
            if q is None:
                break
            num, k = q, k - 1
        if k:
            res = pmul(res, patom(_ATOMS[i], -k))
    return pmul(num, res)


def pdivide(a, q):
    """a / q when exact; q has leading term 1"""
    out = P0
    if not a.t:
        return out
    for _ in range(len(a.t) + 12):
        best = None
        for m, c in a.t.items():
            v = _vec(m)
            if best is None or _cmp_vec(v, best[0]) > 0:
                best = (v, m, c)
        t = P({best[1]: best[2]})
        out = padd(out, t)
        a = psub(a, pmul(t, q))
        if not a.t:
            return out
        if len(a.t) > 300:
            return None
    return None


def poly_atom(q):
    return atom('poly', None, (q,), rank=prank(q), real=allreal(q), nonneg=pnonneg(q), pos=ppos(q))


def _factor(n):
    out = {}
    n = abs(n)
    d = 2
    while d * d <= n and d < 2000000:
        while n % d == 0:
            out[d] = out.get(d, 0) + 1
            n //= d
        d += 1 if d == 2 else 2
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


_FACT = {}


def factor(n):
    r = _FACT.get(n)
    if r is None:
        r = _FACT[n] = _factor(n)
    return r


def prat_pow(c, e):
    """positive rational c ** e"""
    f = {}
    for b, s in ((c.numerator, 1), (c.denominator, -1)):
        if b != 1:
            for p_, k in factor(b).items():
                f[p_] = f.get(p_, F0) + s * k
    r = P1
    for p_, k in f.items():
        x = k * e
        w = x // 1
        if w:
            r = pscale(r, Fraction(p_) ** int(w))
        if x - w:
            r = pmul(r, patom(atom('prime', p_, (), pos=True), x - w))
    return r


def ppow(p, e):
    """p ** e, rational e"""
    e = Fraction(e)
    if e == 0:
        return P1
    if e.denominator == 1:
        return ppow_int(p, int(e))
    return split_apply(p, lambda q: _ppow(q, e))


def _ppow(p, e):
    if not p.t:
        return P0 if e > 0 else patom(atom('inf', None, (), real=True))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        r = P1
        cc = (F1, F0)
        if c[1] == 0 and c[0] > 0:
            r = prat_pow(c[0], e)
        elif c[1] == 0 and c[0] < 0:
            r = prat_pow(-c[0], e)
            cc = (-F1, F0)
        else:
            # |c| out when it is rational
            n2 = c[0] * c[0] + c[1] * c[1]
            sq = prat_pow(n2, Fraction(1, 2))
            k = const_of(sq)
            if k is not None:
                r = prat_pow(k[0], e)
                cc = (c[0] / k[0], c[1] / k[0])
            else:
                cc = c
        left = []
        for i, x in m:
            a = _ATOMS[i]
            if a.nonneg and a.kind != 'exp':
                r = pmul(r, rebuild_mono({i: x * e}))
            elif a.kind == 'exp' and allreal(a.kids[0]):
                r = pmul(r, mkexp(pscale(a.kids[0], x * e)))
            elif a.real and x.denominator == 1 and x % 2 == 0:
                r = pmul(r, rebuild_mono({abs_atom(patom(a), a.rank).id: x * e}))
            else:
                left.append((i, x))
        # x*conj(x) -> |x|^2
        left = dict(left)
        for i in list(left):
            if i not in left:
                continue
            a = _ATOMS[i]
            if a.real:
                continue
            cj = pconj(patom(a))
            if len(cj.t) == 1:
                (mm, k2), = cj.t.items()
                if k2 == (F1, F0) and len(mm) == 1 and mm[0][1] == 1 and mm[0][0] != i and left.get(mm[0][0]) == left[i]:
                    x = left[i]
                    base = a if a.kind != 'conj' else _ATOMS[mm[0][0]]
                    del left[mm[0][0]]
                    del left[i]
                    r = pmul(r, rebuild_mono({abs_atom(patom(base), a.rank).id: 2 * x * e}))
        if left:
            q = P({tuple(sorted(left.items())): cc})
            if len(left) == 1 and cc == (F1, F0):
                (i, x), = left.items()
                if x == 1:
                    return pmul(r, patom(_ATOMS[i], e))
            return pmul(r, root_atom(q, e))
        if cc == (F1, F0):
            return r
        if cc == (-F1, F0) and e == Fraction(1, 2):
            return pscale(r, 0, 1)
        return pmul(r, root_atom(P({(): cc}), e))
    f = clear_den(p)
    if f is not None:
        num, den = f
        if all(_ATOMS[i].nonneg for i in den):
            r = _ppow(num, e)
            for i, k in den.items():
                r = pmul(r, patom(_ATOMS[i], -k * e))
            return r
    c, m, q = content(p)
    # keep c*m positive part outside
    if ppos(P({m: c})) or (pnonneg(P({m: c})) and pnonneg(q)):
        r = _ppow(P({m: c}), e)
        a = poly_atom(q)
        return pmul(r, rebuild_mono({a.id: e}) if e > 0 else _neg_frac(a, e))
    if pnonneg(P({m: (-c[0], -c[1])})):
        r = _ppow(P({m: (-c[0], -c[1])}), e)
        a = poly_atom(pneg(q))
        return pmul(r, _neg_frac(a, e) if e < 0 else rebuild_mono({a.id: e}))
    if c[1] == 0:
        k = prat_pow(abs(c[0]), e)
        p = pscale(p, 1 / abs(c[0]))
        return pmul(k, root_atom(p, e))
    return root_atom(p, e)


def _neg_frac(a, e):
    # Q^e, e<0 fractional: Q^(frac) * Q^(-n)
    k = e // 1
    r = e - k
    return P({((a.id, e),): (F1, F0)}) if False else pmul(P({((a.id, r),): (F1, F0)}), P({((a.id, Fraction(k)),): (F1, F0)})) \
        if False else P({((a.id, e),): (F1, F0)})


def root_atom(p, e):
    """opaque (p)^e for p with unknown sign"""
    k = e // 1
    r = e - k
    a = poly_atom(p)
    out = P({((a.id, r),): (F1, F0)})
    if k:
        out = pmul(out, ppow_int(p, int(k)))
    return out


# ------------------------------------------------------------- exponentials
def mkexp(p):
    if not p.t:
        return P1
    return split_apply(p, _mkexp)


def _mkexp(p):
    out = P1
    groups = {}
    for m, c in p.t.items():
        # multiples of i*pi/2
        if len(m) == 1 and m[0][1] == 1:
            a = _ATOMS[m[0][0]]
            if a.kind == 'const' and a.data == 'pi' and c[0] == 0 and (2 * c[1]).denominator == 1:
                k = int(2 * c[1]) % 4
                out = pmul(out, [P1, PI_, PM1, pneg(PI_)][k])
                continue
            if a.kind == 'log' and c[1] == 0 and (c[0].denominator == 1 or pnonneg(a.kids[0])):
                out = pmul(out, ppow(a.kids[0], c[0]))
                continue
            if a.kind == 'el' and a.data in ('arcsin', 'arccos', 'arctan', 'arctan2') and c[0] == 0 and c[1].denominator == 1:
                k = int(c[1])
                v = a.kids[0]
                if a.data == 'arctan2':
                    x = a.kids[1]
                    r = ppow(padd(pmul(v, v), pmul(x, x)), Fraction(-1, 2))
                    re, im = pmul(x, r), pmul(v, r)
                elif a.data == 'arctan':
                    re = ppow(padd(P1, pmul(v, v)), Fraction(-1, 2))
                    im = pmul(v, re)
                else:
                    w = ppow(psub(P1, pmul(v, v)), Fraction(1, 2))
                    re, im = (w, v) if a.data == 'arcsin' else (v, w)
                out = pmul(out, ppow_int(padd(re, pmul(PI_ if k > 0 else pneg(PI_), im)), abs(k)))
                continue
            if a.kind == 'unwrap' and c[0] == 0 and c[1].denominator == 1:
                out = pmul(out, mkexp(pscale(a.kids[0], 0, c[1])))
                continue
            if a.kind == 'angle' and c[0] == 0 and c[1].denominator == 1:
                x = a.kids[0]
                u = pmul(x, pinv(pabs(x)))
                out = pmul(out, ppow_int(u, int(c[1])))
                continue
        if len(m) >= 2 and c[0] == 0:
            # exp(2 pi i n) with n integer valued
            rest = tuple((i, e) for i, e in m if not (_ATOMS[i].kind == 'const' and _ATOMS[i].data == 'pi' and e == 1))
            if len(rest) == len(m) - 1 and (c[1] / 2).denominator == 1 and pinteger(P({rest: (F1, F0)})):
                continue
        r = mrank(m)
        groups.setdefault(r, {})[m] = c
    for r in sorted(groups):
        q = P(groups[r])
        rl = allreal(q)
        a = atom('exp', None, (q,), rank=r if r != 9 else None, real=rl, pos=rl)
        out = _mul_exp_atom(out, a)
    return out


def _mul_exp_atom(p, a):
    t = {}
    for m, c in p.t.items():
        d = dict(m)
        if any(_ATOMS[i].kind == 'exp' and _ATOMS[i].rank == a.rank for i in d):
            return pmul(p, patom(a))
        d[a.id] = F1
        t[tuple(sorted(d.items()))] = c
    return P(t)


def plog(p):
    return split_apply(p, _plog)


def _plog(p):
    c = const_of(p)
    if c is not None and c[1] == 0 and c[0] > 0:
        out = P0
        for b, s in ((c[0].numerator, 1), (c[0].denominator, -1)):
            if b != 1:
                for q, k in factor(b).items():
                    out = padd(out, pscale(patom(atom('log', None, (pconst(q),), real=True, pos=q > 1)), s * k))
        return out
    if len(p.t) == 1:
        (m, cc), = p.t.items()
        out = P0
        rest = {}
        if cc[1] == 0 and cc[0] > 0:
            out = _plog(pconst(cc[0]))
            cc = (F1, F0)
        for i, e in m:
            a = _ATOMS[i]
            if a.kind == 'exp' and allreal(a.kids[0]):
                out = padd(out, pscale(a.kids[0], e))
            elif a.kind == 'prime':
                out = padd(out, pscale(_plog(pconst(a.data)), e))
            elif a.pos:
                out = padd(out, pscale(patom(atom('log', None, (patom(a),), rank=a.rank, real=True)), e))
            elif a.nonneg and len(m) == 1:
                out = padd(out, pscale(patom(atom('log', None, (patom(a),), rank=a.rank, real=True)), e))
            else:
                rest[i] = e
        if rest or cc != (F1, F0):
            q = P({tuple(sorted(rest.items())): cc})
            out = padd(out, patom(atom('log', None, (q,), rank=prank(q), real=pnonneg(q))))
        return out
    c, m, q = content(p)
    if ppos(P({m: c})) and (c != (F1, F0) or m):
        return padd(_plog(P({m: c})), patom(atom('log', None, (q,), rank=prank(q), real=pnonneg(q))))
    return patom(atom('log', None, (p,), rank=prank(p), real=pnonneg(p)))


# --------------------------------------------- homomorphic maps over leaves
POINTWISE = {'exp', 'poly', 'abs', 'log', 'angle', 'el', 'conj', 'cond', 'papply', 'ppolyval', 'puf', 'cint'}


def hom(p, leaf, mrk=1):
    """apply a structure map (shift / index) to every array leaf of p"""
    out = P0
    for m, c in p.t.items():
        q = pconst(*c)
        keep = []
        for i, e in m:
            a = _ATOMS[i]
            if a.rank == 0:
                keep.append((i, e))
                continue
            q = pmul(q, ppow_frac_atom(hom_atom(a, leaf), e) if e != 1 else hom_atom(a, leaf))
        if keep:
            q = pmul(q, P({tuple(keep): (F1, F0)}))
        out = padd(out, q)
    return out


def hom_atom(a, leaf):
    k = a.kind
    f = lambda p: hom(p, leaf)
    if k == 'exp':
        return mkexp(f(a.kids[0]))
    if k == 'poly':
        return f(a.kids[0])
    if k == 'abs':
        return pabs(f(a.kids[0]))
    if k == 'conj':
        return pconj(f(a.kids[0]))
    if k == 'log':
        return plog(f(a.kids[0]))
    if k == 'angle':
        return mkangle(f(a.kids[0]))
    if k == 'el':
        return mkel(a.data, [f(x) for x in a.kids])
    if k == 'cint':
        return pint(f(a.kids[0]), a.data)
    if k == 'ppolyval':
        return mkpolyval(a.kids[:-1], f(a.kids[-1]))
    if k == 'papply':
        return mkapply(a.data, [f(x) for x in a.kids])
    if k == 'puf':
        return mkpuf(a.data, [f(x) for x in a.kids])
    if k == 'ind' and not a.data:
        pass
    if k == 'ind' and a.data and a.data[0] == 'rel':
        return mkind_rel(a.data[1], f(a.kids[0]))
    return leaf(a)


# --------------------------------------------------------------- shifts
def inverse_perm(d):
    name, ax = d
    if name == 'S':
        return d
    return ('ifftshift' if name == 'fftshift' else 'fftshift', ax)


def impulse(k, L):
    """indicator of index k (mod L) of an array of length L"""
    if len(L.t) == 1:
        (m, c), = L.t.items()
        if m in k.t and k.t[m][1] == 0 and c[1] == 0:
            k = psub(k, pscale(L, k.t[m][0] / c[0] // 1))
    kc = const_of(k)
    if kc is not None and kc[1] == 0 and kc[0].denominator == 1 and kc[0] >= 0:
        return patom(atom('ind', ('at', int(kc[0])), (L,), rank=1, real=True, nonneg=True, integer=True))
    return patom(atom('ind', ('pos',), (k, L), rank=1, real=True, nonneg=True, integer=True))


def impulse_at(a):
    """(index, length) of an impulse atom"""
    if a.kind == 'ind' and a.data and a.data[0] == 'pos':
        return a.kids
    if a.kind == 'ind' and a.data and a.data[0] == 'at':
        return pconst(a.data[1]), a.kids[0]
    return None


def pperm(p, d):
    def leaf(a):
        if a.kind == 'perm' and a.data == inverse_perm(d):
            return a.kids[0]
        if a.kind == 'ind' and d == ('S', 0):
            kl = impulse_at(a)
            if kl and peven(kl[1]):
                return impulse(padd(kl[0], pscale(kl[1], Fraction(1, 2))), kl[1])
        if a.kind == 'ind':
            return patom(atom('ind', ('perm', d, a.id), (), rank=a.rank, real=True, nonneg=True, integer=True))
        return patom(atom('perm', d, (patom(a),), rank=a.rank, real=a.real, nonneg=a.nonneg, pos=a.pos, integer=a.integer))
    return hom(p, leaf)


def proll(p, k):
    if not k.t:
        return p

    def leaf(a):
        if a.kind == 'roll':
            return proll(a.kids[0], padd(a.kids[1], k))
        return patom(atom('roll', None, (patom(a), k), rank=a.rank, real=a.real, nonneg=a.nonneg, pos=a.pos, integer=a.integer))
    return hom(p, leaf)


# -------------------------------------------------------------- indexing
def _nonneg_const(n):
    k = intval(n)
    return k is not None and k >= 0


def pgetitem(p, ix, rank):
    """ix: index node"""
    def leaf(a):
        if a.rank is None:
            return patom(atom('getitem', (ix, rank), (patom(a),), rank=rank, real=a.real, nonneg=a.nonneg, pos=a.pos, integer=a.integer))
        i = ix
        if i.op == 'tuple' and a.rank < len(i.args) and all(z.op != 'none' for z in i.args):
            sub = i.args[len(i.args) - a.rank:]
            i = sub[0] if len(sub) == 1 else tup(sub)
            if arrays.is_full(i):
                return patom(a)
        elif i.op == 'tuple' and any(z.op == 'none' for z in i.args):
            return patom(atom('getitem', (('ixk',) + tuple(ckey(z) for z in i.args), rank), (patom(a),), rank=rank, real=a.real, nonneg=a.nonneg, pos=a.pos, integer=a.integer))
        r = mk('getitem', mk('sym', attr=('_', a.rank, 'any')), i).rank
        if a.kind == 'iota':
            n = a.kids[0]
            if i.rank == 0 and i.op not in ('slice', 'tuple'):
                k = intval(i)
                q = nf(i)
                if k is not None and k < 0:
                    return padd(n, q)
                return q
            if i.op == 'slice':
                lo, hi, st = i.args
                s = intval(st) if st.op != 'none' else 1
                if s == -1 and lo.op == 'none' and hi.op == 'none':
                    return psub(psub(n, P1), patom(a))
                if s == 1:
                    def bnd(b, d):
                        if b.op == 'none':
                            return d
                        q = nf(b)
                        c = const_of(q)
                        if c is not None and c[0] < 0:
                            return padd(n, q)
                        return q
                    l = bnd(lo, P0)
                    h = bnd(hi, n)
                    return padd(l, patom(atom('iota', None, (psub(h, l),), rank=1, real=True, nonneg=True, integer=True)))
        if a.kind == 'perm' and a.data[0] == 'S' and i.op == 'slice' and (i.args[2].op == 'none' or intval(i.args[2]) == 1) \
                and i.args[0].op != 'none' and i.args[1].op != 'none':
            # part of one half of a counting array whose halves were swapped
            (m, c), = a.kids[0].t.items() if len(a.kids[0].t) == 1 else ((None, None),)
            if m is not None and len(m) == 1 and m[0][1] == 1 and c == (F1, F0) and _ATOMS[m[0][0]].kind == 'iota':
                half = pscale(_ATOMS[m[0][0]].kids[0], Fraction(1, 2))
                l, h = nf(i.args[0]), nf(i.args[1])
                if pnonneg(l) and (pnonneg(psub(half, h)) or not psub(half, h).t or pnonneg(psub(l, half)) or not psub(l, half).t):
                    st = padd(l, half) if pnonneg(psub(half, h)) or not psub(half, h).t else psub(l, half)
                    return padd(st, patom(atom('iota', None, (psub(h, l),), rank=1, real=True, nonneg=True, integer=True)))
        if a.kind == 'list' and i.rank == 0:
            k = intval(i)
            if k is not None and -len(a.kids) <= k < len(a.kids):
                return a.kids[k]
        if a.kind == 'ind' and a.data and a.data[0] == 'at' and i.rank == 0 and i.op not in ('slice', 'tuple'):
            k = intval(i)
            if k is not None and a.data[1] is not None and (k >= 0) == (a.data[1] >= 0):
                return P1 if k == a.data[1] else P0
        if a.kind in ('embed', 'ind') and i.op == 'slice' and (a.kind == 'embed' or a.data and a.data[0] == 'rng' and a.kids) \
                and (i.args[2].op == 'none' or intval(i.args[2]) == 1) and i.args[0].op != 'none' and i.args[1].op != 'none':
            lo, hi = a.kids[-2:]
            l, h = nf(i.args[0]), nf(i.args[1])
            if not psub(lo, l).t and not psub(hi, h).t and pnonneg(l) and const_of(h) is None:
                return a.kids[0] if a.kind == 'embed' else P1
            if const_of(h) is None and pnonneg(l) and (pnonneg(psub(l, hi)) or pnonneg(psub(lo, h))):
                return P0
        if a.kind == 'ind' and a.data and a.data[0] == 'rng' and a.kids and i.rank == 0 and _nonneg_const(i):
            lo, hi = a.kids
            c0, c1 = const_of(lo), const_of(hi)
            k = intval(i)
            if c0 is not None and k < c0[0]:
                return P0
        return patom(atom('getitem', (i if not isinstance(i, Node) else ixkey(i), r), (patom(a),), rank=r, real=a.real, nonneg=a.nonneg, pos=a.pos, integer=a.integer))
    return hom(p, leaf)


class _IxNode(object):
    pass


def ixkey(i):
    """index nodes are kept as nodes (canonicalised through their normal forms)"""
    k = ckey(i)
    r = _IXTAB.get(k)
    if r is None:
        r = _IXTAB[k] = i
    return r


_IXTAB = {}


# ------------------------------------------------------------ conditions
def const_sign(p):
    """sign of a sum of rational multiples of roots of primes and powers of pi (None: something else in it, or too close to zero)"""
    import decimal
    if not p.t or len(p.t) > 40:
        return None
    with decimal.localcontext() as ctx:
        ctx.prec = 80
        pi = decimal.Decimal('3.14159265358979323846264338327950288419716939937510582097494459230781640628620899862803482534211706798')
        tot, mag = decimal.Decimal(0), decimal.Decimal(0)
        for m, (re, im) in p.t.items():
            if im != 0:
                return None
            v = decimal.Decimal(re.numerator) / decimal.Decimal(re.denominator)
            for i, e in m:
                a = _ATOMS[i]
                if a.kind == 'prime' and isinstance(a.data, int):
                    b = decimal.Decimal(a.data)
                elif a.kind == 'const' and a.data == 'pi':
                    b = pi
                else:
                    return None
                if abs(e) > 1000:
                    return None
                v *= b ** (decimal.Decimal(e.numerator) / decimal.Decimal(e.denominator))
            tot += v
            mag += abs(v)
        if abs(tot) <= mag * decimal.Decimal('1e-50'):
            return None
        return 1 if tot > 0 else -1


def mkind_rel(rel, d):
    """indicator of d > 0 ('gt') or d == 0 ('eq')"""
    c = const_of(d)
    if c is not None and c[1] == 0:
        return P1 if (c[0] > 0 if rel == 'gt' else c[0] == 0) else P0
    if c is None:
        c = const_sign(d)
        if c is not None:
            return P1 if rel == 'gt' and c > 0 else P0
    if scalar_inds(d):
        return split_apply(d, lambda q: mkind_rel(rel, q))
    d = pcanon(d)
    cc, m, q = content(d)
    # strip positive factors
    if rel == 'eq':
        keep = tuple((i, e) for i, e in m if not _ATOMS[i].pos and e > 0)
        if not keep and len(q.t) == 1:
            return P0
        q2 = pmul(P({keep: (F1, F0)}), q) if keep else q
        # orientation: content() already fixes the sign
        if ppos(q2) or ppos(pneg(q2)):
            return P0
        return patom(atom('ind', ('rel', 'eq'), (q2,), rank=prank(q2), real=True, nonneg=True, integer=True))
    if cc[1] != 0:
        q2 = d
    else:
        keep = tuple((i, e) for i, e in m if not _ATOMS[i].pos)
        s = 1 if cc[0] > 0 else -1
        q2 = pscale(pmul(P({keep: (F1, F0)}), q) if keep else q, s)
    if ppos(q2):
        return P1
    if pnonneg(pneg(q2)):
        return P0
    r = prefix_ind(q2)
    if r is not None:
        return r
    return patom(atom('ind', ('rel', 'gt'), (q2,), rank=prank(q2), real=True, nonneg=True, integer=True))


def zero_position(y):
    """position of the unique zero of |x0 + dx*k| over k = 0..n-1"""
    if len(y.t) != 1:
        return None
    (m, c), = y.t.items()
    s, ar = _split_scalar(m)
    if c[1] != 0 or c[0] <= 0 or len(ar) != 1 or not all(_ATOMS[i].pos for i, e in s):
        return None
    a, e = _ATOMS[ar[0][0]], ar[0][1]
    if a.kind == 'iota' and e > 0:
        return P0
    if a.kind != 'abs' or e <= 0:
        return None
    af = affine_iota(a.kids[0])
    if af is None:
        return None
    x0, dx, n = af
    if not (ppos(dx) or ppos(pneg(dx))):
        return None
    try:
        t = pmul(x0, pinv(pneg(dx)))
    except Blowup:
        return None
    if pinteger(t) and pnonneg(t) and ppos(psub(n, t)):
        return t
    return None


def prefix_ind(d):
    """indicator of x0 + dx*k > 0 over positions k = 0..n-1, as the indicator of a leading run"""
    if prank(d) != 1:
        return None
    af = affine_iota(d)
    if af is None:
        return None
    x0, dx, n = af
    up = ppos(dx)
    if not up and not ppos(pneg(dx)):
        return None
    try:
        t = pmul(x0, pinv(pneg(dx)))     # crossing position
    except Blowup:
        return None
    if not pinteger(t):
        return None
    m = padd(t, P1) if up else t         # up: k > t ; down: k < t
    if not (pnonneg(m) and pnonneg(psub(n, m))):
        return None
    if not m.t:
        return P1 if up else P0
    if not psub(n, m).t:
        return P0 if up else P1
    I = patom(atom('ind', ('rng',), (P0, m), rank=1, real=True, nonneg=True, integer=True))
    return psub(P1, I) if up else I


def ind(n):
    """polynomial of a boolean node"""
    o = n.op
    if o == 'bool':
        return P1 if n.attr else P0
    if o == 'not':
        return psub(P1, ind(n.args[0]))
    if o == 'and':
        return pmul(ind(n.args[0]), ind(n.args[1]))
    if o == 'or':
        a, b = ind(n.args[0]), ind(n.args[1])
        return psub(padd(a, b), pmul(a, b))
    if o == 'mul':
        return pmul(ind(n.args[0]), ind(n.args[1]))
    if o == 'xor':
        a, b = ind(n.args[0]), ind(n.args[1])
        return psub(padd(a, b), pscale(pmul(a, b), 2))
    if o in ('phi', 'where'):
        c = ind(n.args[0])
        return padd(pmul(c, ind(n.args[1])), pmul(psub(P1, c), ind(n.args[2])))
    if o == 'lt':
        return mkind_rel('gt', psub(nf(n.args[1]), nf(n.args[0])))
    if o == 'bcast':
        return ind(n.args[0])
    if o == 'eq':
        a, b = n.args
        if isnumeric(a) and isnumeric(b):
            return mkind_rel('eq', psub(nf(a), nf(b)))
        ka, kb = ckey(a), ckey(b)
        if ka == kb:
            return P1
        k = tuple(sorted([ka, kb], key=_keyorder))
        return patom(atom('ind', ('eqk', k), (), real=True, nonneg=True, integer=True, taint=deep_taint(n)))
    if o == 'truth':
        a = n.args[0]
        if isnumeric(a) and a.rank == 0 and a.op not in ('sym', 'call', 'attr', 'unk', 'uf', 'getitem', 'mu'):
            return psub(P1, mkind_rel('eq', nf(a)))
        return patom(atom('ind', ('truth', ckey(a)), (), rank=n.rank or 0, real=True, nonneg=True, integer=True, taint=deep_taint(n)))
    return patom(atom('ind', ('b', ckey_raw(n)), (), rank=n.rank or 0, real=True, nonneg=True, integer=True, taint=deep_taint(n)))


_KO = {}


def _keyorder(k):
    r = _KO.get(k)
    if r is None:
        r = _KO[k] = len(_KO)
    return r


# ------------------------------------------------------- other functions
def mkangle(p):
    def f(q):
        if not q.t or ppos(q):
            return P0
        if len(q.t) == 1:
            (m, c), = q.t.items()
            m2 = []
            for i, e in m:
                a = _ATOMS[i]
                if a.pos or (a.nonneg and a.kind != 'ind'):
                    continue
                m2.append((i, e))
            n2 = c[0] * c[0] + c[1] * c[1]
            sq = const_of(prat_pow(n2, Fraction(1, 2)))
            if sq is not None:
                c = (c[0] / sq[0], c[1] / sq[0])
            q = P({tuple(m2): c})
        else:
            c, m, r = content(q)
            keep = tuple((i, e) for i, e in m if not _ATOMS[i].pos)
            k = c
            if c[1] == 0:
                k = (F1 if c[0] > 0 else -F1, F0)
            q = pmul(P({keep: k}), r)
        return patom(atom('angle', None, (q,), rank=prank(q), real=True))
    return split_apply(p, f)


def mkel(name, kids):
    if len(kids) == 1 and scalar_inds(kids[0]) and prank(kids[0]) is not None:
        return split_apply(kids[0], lambda q: mkel(name, [q]))
    x = kids[0]
    if name in ('sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh', 'sinc'):
        j = PI_
        if name == 'sinc':
            if not x.t:
                return P1
            if _before(pneg(x), x):
                x = pneg(x)
            return patom(atom('el', 'sinc', (x,), rank=prank(x), real=allreal(x)))
        y = pmul(j, x) if name in ('sin', 'cos', 'tan') else x
        ep, em = mkexp(y), mkexp(pneg(y))
        s, c = pscale(psub(ep, em), Fraction(1, 2)), pscale(padd(ep, em), Fraction(1, 2))
        if name == 'sinh':
            return s
        if name in ('cosh', 'cos'):
            return c
        if name == 'sin':
            return pscale(s, 0, -1)
        if name == 'tanh':
            return pmul(s, pinv(c))
        return pmul(pscale(s, 0, -1), pinv(c))
    if name in ('arcsin', 'arctan', 'arcsinh', 'arctanh') and not x.t:
        return P0
    if name == 'factorial':
        c = const_of(x)
        if c is not None and c[1] == 0 and c[0].denominator == 1 and 0 <= c[0] <= 40:
            r = 1
            for i in range(2, int(c[0]) + 1):
                r *= i
            return pconst(r)
    if name in ('deg2rad', 'radians'):
        return pmul(x, pscale(patom(PIATOM), Fraction(1, 180)))
    if name in ('rad2deg', 'degrees'):
        return pmul(x, pscale(patom(PIATOM, -1), 180))
    if name == 'sign' and ppos(x):
        return P1
    if name == 'sign' and const_of(x) is not None and const_of(x)[1] == 0:
        c = const_of(x)[0]
        return pconst((c > 0) - (c < 0))
    real = all(allreal(k) for k in kids) and name not in ('arccosh', 'arctanh')
    rk = [prank(k) for k in kids]
    a = atom('el', name, kids, rank=None if None in rk else max(rk), real=real,
             pos=name in ('factorial',), integer=name in ('factorial', 'isnan', 'isfinite', 'isinf', 'sign'))
    return patom(a)


def mkpolyval(coefs, x):
    """polynomial with explicit coefficients (highest first) or opaque"""
    if len(coefs) != 1 or True:
        r = P0
        for c in coefs:
            r = padd(pmul(r, x), c)
        return r


def mkapply(data, kids):
    rk = [prank(k) for k in kids]
    return patom(atom('papply', data, kids, rank=None if None in rk else max(rk), taint=data[2], real=data[3]))


def mkpuf(data, kids):
    rk = [prank(k) for k in kids]
    return patom(atom('puf', data, kids, rank=None if None in rk else max(rk), real=data[1] in arrays.REAL_TYP,
                      pos=data[1] == 'pos', nonneg=data[1] == 'nonneg'))


def pint(p, how):
    if pinteger(p):
        return p
    if prank(p) == 0 and len(p.t) > 1:
        # integer part moves out
        ip = {m: c for m, c in p.t.items() if pinteger(P({m: c}))}
        rest = P({m: c for m, c in p.t.items() if m not in ip})
        if ip and how == 'floor':
            return padd(P(ip), pint(rest, how))
    if how == 'floor' and const_of(p) is not None and const_of(p)[1] == 0:
        return pconst(const_of(p)[0].numerator // const_of(p)[0].denominator)
    if how == 'int' and const_of(p) is not None and const_of(p)[1] == 0:
        return pconst(int(const_of(p)[0]))
    if how == 'int' and pnonneg(p):
        return pint(p, 'floor')
    if how in ('round', 'int') and _before(pneg(p), p):
        return pneg(pint(pneg(p), how))
    return patom(atom('cint', how, (p,), rank=prank(p), integer=True, nonneg=pnonneg(p) and how != 'floor' or pnonneg(p)))


PIATOM = atom('const', 'pi', (), pos=True)


# ------------------------------------------------- linear operators
def _split_scalar(m):
    sc = tuple((i, e) for i, e in m if _ATOMS[i].rank == 0)
    ar = tuple((i, e) for i, e in m if _ATOMS[i].rank != 0)
    return sc, ar


def linear(p, f):
    """sum over monomials: scalar factors pulled out, f(array monomial) -> P"""
    out = P0
    for m, c in p.t.items():
        sc, ar = _split_scalar(m)
        out = padd(out, pmul(P({sc: c}), f(ar)))
    return out


def pfft(p, kind, ax, lenp=None):
    other = 'ifft' if kind == 'fft' else 'fft'

    def f(ar):
        if len(ar) == 1 and ar[0][1] == 1:
            a = _ATOMS[ar[0][0]]
            if a.kind == other and a.data == ax:
                return a.kids[0]
            kl = impulse_at(a)
            if kl and a.rank == 1 and lenp and not psub(lenp, kl[1]).t:
                k, L = kl
                io = patom(atom('iota', None, (L,), rank=1, real=True, nonneg=True, integer=True))
                e = mkexp(pmul(pmul(pscale(patom(PIATOM), 0, -2 if kind == 'fft' else 2), pmul(k, pinv(L))), io))
                return e if kind == 'fft' else pmul(pinv(L), e)
        q = P({ar: (F1, F0)})
        r = prank(q)
        if not ar and lenp and lenp.t and ax in (0, -1):
            d = impulse(P0, lenp)
            return pmul(lenp, d) if kind == 'fft' else d
        return patom(atom(kind, ax, (q,) if ar else (q, lenp or P0), rank=r if ar else 1))
    return linear(p, f)


def perm_canon(ar):
    """shift-invariant functionals: canonical representative of an array monomial"""
    q = P({ar: (F1, F0)})
    ds = set()
    for a in deep_atoms(q):
        if a.kind == 'perm':
            ds.add(a.data)
    best = q
    for d in sorted(ds):
        q2 = pperm(q, inverse_perm(d))
        if _weight(q2) < _weight(best) or (_weight(q2) == _weight(best) and _before(q2, best)):
            best = q2
    return best


def _weight(p):
    return sum(1 for a in deep_atoms(p) if a.kind == 'perm')


def deep_atoms(p):
    seen = set()
    stack = [p]
    out = []
    while stack:
        q = stack.pop()
        for m in q.t:
            for i, e in m:
                if i not in seen:
                    seen.add(i)
                    a = _ATOMS[i]
                    out.append(a)
                    stack.extend(a.kids)
    return out


def affine_iota(p):
    """p = x0 + dx*iota(n) -> (x0, dx, n) with scalar x0, dx"""
    x0, dx, n = P0, P0, None
    for m, c in p.t.items():
        sc, ar = _split_scalar(m)
        if not ar:
            x0 = padd(x0, P({m: c}))
        elif len(ar) == 1 and ar[0][1] == 1 and _ATOMS[ar[0][0]].kind == 'iota':
            n = _ATOMS[ar[0][0]].kids[0]
            dx = padd(dx, P({sc: c}))
        else:
            return None
    if n is None:
        return None
    return x0, dx, n


# ------------------------------------------------------------ node -> P
NONNUM = {'str', 'none', 'tuple', 'slice', 'strcat', 'tostr', 'fmt', 'obj', 'ext', 'fn', 'lam', 'dict', 'fnobj', 'boundm', 'typeof',
          'repr', 'undefvar', 'bv'}
BOOLN = {'lt', 'eq', 'not', 'and', 'or', 'is', 'in', 'truth', 'isinst', 'xor', 'all', 'any'}
def ramp_len(a):
    if a.kind == 'iota':
        return a.kids[0]
    if a.kind in ('rowrep', 'colrep') and len(a.kids[0].t) == 1:
        (m, c), = a.kids[0].t.items()
        if len(m) == 1 and m[0][1] == 1 and c == (F1, F0) and _ATOMS[m[0][0]].kind == 'iota':
            return _ATOMS[m[0][0]].kids[0]
    return None


def ramp_end(y, o):
    """the smallest or largest sample of an equally spaced grid"""
    base, slope, io = {}, {}, None
    for m, c in y.t.items():
        s, ar = _split_scalar(m)
        if not ar:
            base[m] = c
        elif len(ar) == 1 and ar[0][1] == 1 and io in (None, ar[0][0]) and ramp_len(_ATOMS[ar[0][0]]) is not None:
            io = ar[0][0]
            slope[s] = c
        else:
            return None
    if io is None:
        return None
    b = P(slope)
    up = 1 if ppos(b) else -1 if ppos(pscale(b, -1)) else 0
    if not up:
        return None
    if (o == 'min') == (up > 0):
        return P(base)
    return padd(P(base), pmul(b, psub(ramp_len(_ATOMS[io]), P1)))


KNOWN_CALLS = {'trapz', 'map_coordinates', 'gradient', 'diff', 'nonzero', 'argmax', 'argmin', 'argsort', 'sort', 'polyfit', 'polyder', 'convolve', 'correlate',
               'searchsorted', 'roll', 'fftshift', 'ifftshift', 'fft', 'ifft', 'std', 'var', 'median', 'size', 'ndim', 'dtype', 'nonzero',
               'filecontents', 'where', 'sum', 'max', 'min', 'mean', 'cumsum', 'norm'}


def isnumeric(n):
    if n.op in NONNUM or n.op == 'none':
        return False
    if n.op == 'phi' or n.op == 'where':
        return isnumeric(n.args[1]) and isnumeric(n.args[2])
    if n.op == 'sym':
        return n.attr[2] not in ('str', 'any')
    if n.op == 'list':
        return all(isnumeric(a) for a in n.args)
    if n.op in ('input', 'rng0', 'rngseed', 'rngnext', 'hash', 'ident'):
        return False
    return True


def is_taint(n):
    return n.op in ('unk', 'undef', 'mu', 'more', 'filtermap', 'attr', 'append', 'extend', 'listop') or \
        (n.op == 'call' and (not isinstance(n.attr, tuple) or _callname(n.attr[0]) not in KNOWN_CALLS)) or \
        (n.op == 'iv' and not (isinstance(n.attr, str) and n.attr.startswith('b')))


def _callname(x):
    return str(x).split('.')[-1].split(':')[-1]


_NF = {}
_CK = {}


def reset():
    _NF.clear()
    _CONG.clear()
    _CK.clear()


def nf(n):
    r = _NF.get(n.id)
    if r is None:
        intime()
        r = _nf(n)
        _NF[n.id] = r
    return r


def ckey(n):
    """hashable canonical key of any node"""
    r = _CK.get(n.id)
    if r is not None:
        return r
    if n.op in BOOLN:
        r = ('B', ind(n).key())
    elif n.op in ('tuple', 'slice', 'strcat', 'tostr', 'fmt', 'dict', 'fnobj', 'boundm', 'typeof', 'repr', 'lam'):
        r = (n.op, n.attr) + tuple(ckey(a) for a in n.args)
    elif n.op in NONNUM or not isnumeric(n):
        if n.op in ('phi', 'where'):
            c = ind(n.args[0])
            r = ('phi', c.key(), ckey(n.args[1]), ckey(n.args[2]))
            if len(c.t) == 2 and c.t.get(()) == (F1, F0):
                r = ('phi', psub(P1, c).key(), ckey(n.args[2]), ckey(n.args[1]))
        else:
            r = ckey_raw(n)
    else:
        r = ('P', nf(n).key())
    _CK[n.id] = r
    return r


def ckey_raw(n):
    return (n.op, n.attr) + tuple(ckey(a) for a in n.args)


def opaque(n, kind='op'):
    real = arrays.is_real(n)
    kids = []
    return patom(atom(kind, ckey_raw(n), tuple(kids), rank=n.rank, real=real, nonneg=arrays.is_nonneg(n), pos=arrays.is_pos(n),
                      integer=n.op in ('len', 'iota') or n.op == 'sym' and n.attr[2] in ('int', 'posint', 'bool'),
                      taint=is_taint(n) or deep_taint(n), node=n))


_DT = {}


def deep_taint(n):
    r = _DT.get(n.id)
    if r is None:
        r = _DT[n.id] = is_taint(n) or any(deep_taint(a) for a in n.args)
    return r


def _len(n):
    return nf(length_of(n))


def pembed(V, lo, hi):
    """V placed at positions lo..hi of a longer array of zeros"""
    real = lambda q: allreal(q)
    def leaf(ar):
        if not ar:
            return patom(atom('ind', ('rng',), (lo, hi), rank=1, real=True, nonneg=True, integer=True))
        if len(ar) == 1 and ar[0][1] == 1 and _ATOMS[ar[0][0]].kind == 'embed':
            q, l, h = _ATOMS[ar[0][0]].kids
            return patom(atom('embed', None, (q, padd(lo, l), padd(lo, h)), rank=1, real=allreal(q)))
        q = P({ar: (F1, F0)})
        return patom(atom('embed', None, (q, lo, hi), rank=1, real=allreal(q)))
    return linear(V, leaf)


def _nf(n):
    o = n.op
    if o == 'num':
        return pconst(n.attr[0], n.attr[1])
    if o == 'bool' or o in BOOLN:
        return ind(n)
    if o == 'const':
        if n.attr == 'c':
            return pconst(299792458)
        if n.attr == 'pi':
            return patom(PIATOM)
        if n.attr == 'e':
            return mkexp(P1)
        if n.attr == 'hbar':
            return pscale(pmul(patom(atom('const', 'h', (), pos=True)), patom(PIATOM, -1)), Fraction(1, 2))
        return patom(atom('const', n.attr, (), pos=arrays.is_pos(n), real=True))
    if o == 'sym':
        t = n.attr[2]
        return patom(atom('sym', n.attr, tuple(nf(a) for a in n.args), rank=n.rank, pos=t in ('pos', 'posint'), nonneg=t == 'nonneg',
                          real=t in arrays.REAL_TYP, integer=t in ('int', 'posint', 'bool'), node=n))
    if o == 'add':
        return padd(nf(n.args[0]), nf(n.args[1]))
    if o == 'mul':
        return pmul(nf(n.args[0]), nf(n.args[1]))
    if o == 'pow':
        b, e = nf(n.args[0]), nf(n.args[1])
        c = const_of(e)
        if c is not None and c[1] == 0:
            if abs(c[0]) > 64:
                return opaque(n)
            return ppow(b, c[0])
        # symbolic exponent: exp(e * log b)
        cb = const_of(b)
        if cb is not None and not (cb[1] == 0 and cb[0] > 0):
            if cb == (F0, F0):
                return opaque(n)
        return mkexp(pmul(e, plog(b)))
    if o == 'exp':
        return mkexp(nf(n.args[0]))
    if o == 'log':
        return plog(nf(n.args[0]))
    if o == 'abs':
        return pabs(nf(n.args[0]))
    if o == 'conj':
        return pconj(nf(n.args[0]))
    if o == 'real':
        p = nf(n.args[0])
        return pscale(padd(p, pconj(p)), Fraction(1, 2))
    if o == 'imag':
        p = nf(n.args[0])
        return pscale(psub(p, pconj(p)), 0, Fraction(-1, 2))
    if o == 'sqrt':
        return ppow(nf(n.args[0]), Fraction(1, 2))
    if o == 'phase':
        return mkangle(nf(n.args[0]))
    if o == 'el':
        if n.attr == 'angle':
            return mkangle(nf(n.args[0]))
        if n.attr == 'absolute':
            return pabs(nf(n.args[0]))
        if n.attr in ('reciprocal',):
            return pinv(nf(n.args[0]))
        if n.attr in ('expm1',):
            return psub(mkexp(nf(n.args[0])), P1)
        if n.attr in ('log1p',):
            return plog(padd(nf(n.args[0]), P1))
        if n.attr in ('floor_divide',):
            return pint(pmul(nf(n.args[0]), pinv(nf(n.args[1]))), 'floor')
        return mkel(n.attr, [nf(a) for a in n.args])
    if o == 'cast':
        p = nf(n.args[0])
        if n.attr in ('complex128', 'complex64', 'complex'):
            return p
        if n.attr in ('float64', 'float', 'float32'):
            if allreal(p):
                return p
            return pscale(padd(p, pconj(p)), Fraction(1, 2))
        if n.attr in ('int', 'int64', 'int32'):
            return pint(p, 'int')
        return opaque(n)
    if o == 'int':
        return pint(nf(n.args[0]), 'int')
    if o == 'floor':
        return pint(nf(n.args[0]), 'floor')
    if o == 'round':
        return pint(nf(n.args[0]), 'round')
    if o == 'floordiv':
        return pint(pmul(nf(n.args[0]), pinv(nf(n.args[1]))), 'floor')
    if o == 'mod':
        if not isnumeric(n.args[0]):
            return opaque(n)
        a, b = nf(n.args[0]), nf(n.args[1])
        q = pint(pmul(a, pinv(b)), 'floor')
        return psub(a, pmul(b, q))
    if o == 'where' or o == 'phi':
        if not isnumeric(n):
            return opaque(n)
        c = ind(n.args[0])
        return padd(pmul(c, nf(n.args[1])), pmul(psub(P1, c), nf(n.args[2])))
    if o == 'bcast':
        return nf(n.args[0])
    if o in ('fft', 'ifft'):
        return pfft(nf(n.args[0]), o, n.attr, _len(n.args[0]))
    if o == 'perm':
        name, ax = n.attr
        x = n.args[0]
        L = _len(x) if x.rank == 1 else (nf(arrays.getitem(arrays.shape_of(x), num(ax))) if isinstance(ax, int) else P1)
        if peven(L):
            name = 'S'
        return pperm(nf(x), (name, ax))
    if o == 'roll':
        L = _len(n.args[0])
        k = nf(n.args[1])
        p = nf(n.args[0])
        if n.args[0].rank == 1 and L.t:
            for j in (-2, -1, 1, 2):
                if k == pscale(L, j):
                    return p
            if peven(L) and k in (pscale(L, Fraction(1, 2)), pscale(L, Fraction(-1, 2))):
                return pperm(p, ('S', 0))
        return proll(p, k)
    if o == 'iota':
        return patom(atom('iota', None, (nf(n.args[0]),), rank=1, real=True, nonneg=True, integer=True))
    if o == 'linspace':
        a, b, m = [nf(x) for x in n.args]
        k = patom(atom('iota', None, (m,), rank=1, real=True, nonneg=True, integer=True))
        if n.attr not in (True, False):
            return opaque(n)
        den = psub(m, P1) if n.attr else m
        return padd(a, pmul(pmul(psub(b, a), pinv(den)), k))
    if o == 'arange':
        a = [nf(x) for x in n.args]
        a0, b0, s0 = (P0, a[0], P1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else P1)
        L = pmul(psub(b0, a0), pinv(s0))
        if not pinteger(L):
            L = pneg(pint(pneg(L), 'floor'))
        return padd(a0, pmul(s0, patom(atom('iota', None, (L,), rank=1, real=True, nonneg=True, integer=True))))
    if o == 'trapz':
        y = nf(n.args[0])
        sc = P1
        extra = ()
        if len(n.args) > 1:
            x = nf(n.args[1])
            af = affine_iota(x)
            if af is not None:
                sc = af[1]
            else:
                extra = (x,)
        return pmul(sc, linear(y, lambda ar: patom(atom('trapz', None, (P({ar: (F1, F0)}),) + extra, rank=0 if n.args[0].rank == 1 else None,
                                                        real=allreal(P({ar: (F1, F0)})), nonneg=not extra and pnonneg(P({ar: (F1, F0)}))))))
    if o in ('sum', 'mean') and n.attr is None and n.args[0].rank is not None:
        y = nf(n.args[0])
        x = n.args[0]
        L = _len(x) if x.rank == 1 else patom(atom('op', ('size', ckey(arrays.shape_of(x)))))

        def f(ar):
            if not ar:
                return L
            if len(ar) == 1 and impulse_at(_ATOMS[ar[0][0]]):
                return P1
            em = [_ATOMS[i] for i, e in ar if _ATOMS[i].kind == 'embed']
            if em and all(_ATOMS[i].kind == 'embed' and e.denominator == 1 and e > 0 for i, e in ar) and len({a.kids[1:] for a in em}) == 1:
                q = P1
                for i, e in ar:
                    q = pmul(q, ppow_int(_ATOMS[i].kids[0], int(e)))
                lo, hi = em[0].kids[1:]
                return linear(q, lambda s: patom(atom('sum', None, (perm_canon(s),), rank=0, real=allreal(P({s: (F1, F0)})),
                                                      nonneg=pnonneg(P({s: (F1, F0)})))) if s else psub(hi, lo))
            q = perm_canon(ar)
            return patom(atom('sum', None, (q,), rank=0, real=allreal(q), nonneg=pnonneg(q), pos=False))
        r = linear(y, f)
        return r if o == 'sum' else pmul(r, pinv(L))
    if o in ('max', 'min') and n.attr is None:
        y = nf(n.args[0])

        def g(y):
            sc = P1
            sign = 1
            e = ramp_end(y, o)
            if e is not None:
                return e
            if len(y.t) == 1:
                (m, c), = y.t.items()
                s, ar = _split_scalar(m)
                if not ar:
                    return y
                keep = [(i, e) for i, e in s if not _ATOMS[i].pos]
                if c[1] == 0:
                    sc = pmul(pconst(abs(c[0])), P({tuple((i, e) for i, e in s if _ATOMS[i].pos): (F1, F0)}))
                    y = P({tuple(sorted(tuple(keep) + ar)): (F1 if c[0] > 0 else -F1, F0)})
                if not keep and c[1] == 0 and c[0] > 0:
                    y = perm_canon(ar)
            return pmul(sc, patom(atom(o, None, (y,), rank=0, real=allreal(y), nonneg=pnonneg(y), pos=ppos(y))))
        if any(_ATOMS[i].rank == 0 for i in scalar_inds(y)):
            return split_scalar_apply(y, g)
        return g(y)
    if o == 'bigsum':
        ln, body = n.args
        b = nf(body)
        bv = mk('iv', attr='b%d' % n.attr)
        bid = nf(bv)
        ba = _ATOMS[list(bid.t)[0][0][0]]
        out = P0
        for m, c in b.t.items():
            indep, dep = [], []
            for i, e in m:
                (dep if depends(_ATOMS[i], ba, bv) else indep).append((i, e))
            if not dep:
                out = padd(out, pmul(P({m: c}), nf(ln)))
                continue
            d = P({tuple(dep): (F1, F0)})
            out = padd(out, pmul(P({tuple(indep): c}), patom(atom('bigsum', n.attr, (nf(ln), d), rank=prank(d), real=allreal(d)))))
        return out
    if o == 'prim':
        return nf_prim(n)
    if o == 'map':
        return patom(atom('map', n.attr, tuple(nf(a) for a in n.args), rank=1, real=allreal(nf(n.args[1]))))
    if o == 'getitem':
        x, i = n.args
        if not isnumeric(x):
            return opaque(n)
        p = nf(x)
        if x.rank is None:
            return pgetitem(p, i, n.rank)
        if i.op == 'slice' or (i.rank == 0 and i.op not in ('tuple', 'str', 'none')):
            # mixed ranks: scalar index of a rank-2 expression with rank-1 factors keeps those factors
            if x.rank == 2 and i.op != 'slice':
                return hom_rank(p, i, 2)
            if x.rank == 2 and i.args[1].op != 'none' and (i.args[2].op == 'none' or intval(i.args[2]) == 1):
                return hom_rows(p, mk('slice', num(0) if i.args[0].op == 'none' else i.args[0], i.args[1], i.args[2]))
            if x.rank == 1:
                if i.op == 'slice' and (i.args[2].op == 'none' or intval(i.args[2]) == 1) and 'none' in (i.args[0].op, i.args[1].op):
                    i = mk('slice', num(0) if i.args[0].op == 'none' else i.args[0],
                           arrays.length_of(x) if i.args[1].op == 'none' else i.args[1], i.args[2])
                return pgetitem(p, i, n.rank)
        if i.op == 'tuple' and len(i.args) == x.rank and all(z.rank == 0 and z.op not in ('none', 'tuple') for z in i.args):
            return pgetitem(p, i, n.rank)
        if arrays.is_boolean(i) or True:
            return linear_getitem(p, i, n)
    if o == 'setitem':
        x, i, v = n.args
        if x.rank == 1 and isnumeric(x) and isnumeric(v):
            X = nf(x)
            V = nf(v)
            k = intval(i)
            L = _len(x)
            if k is not None:
                I = patom(atom('ind', ('at', k), (L,), rank=1, real=True, nonneg=True, integer=True))
                return padd(X, pmul(I, psub(V, X)))
            if i.rank == 0 and v.rank == 0 and i.op not in ('slice', 'tuple', 'none', 'str') and isnumeric(i) and not X.t:
                return pmul(impulse(nf(i), L), V)
            if i.op == 'slice' and (i.args[2].op == 'none' or intval(i.args[2]) == 1):
                lo = P0 if i.args[0].op == 'none' else nf(i.args[0])
                hi = L if i.args[1].op == 'none' else nf(i.args[1])
                if not lo.t and not psub(hi, L).t and v.rank == 1:
                    return V
                I = patom(atom('ind', ('rng',), (lo, hi), rank=1, real=True, nonneg=True, integer=True))
                if v.rank == 0:
                    return padd(X, pmul(I, psub(V, X)))
                return padd(psub(X, pmul(I, X)), pembed(V, lo, hi))
        return opaque(n)
    if o == 'list':
        if n.rank == 1 and isnumeric(n):
            ks = [nf(a) for a in n.args]
            return patom(atom('list', None, ks, rank=1, real=all(allreal(k) for k in ks), nonneg=all(pnonneg(k) for k in ks),
                              pos=all(ppos(k) for k in ks)))
        return opaque(n)
    if o == 'polyval':
        pn = n.args[0]
        x = nf(n.args[1])
        if pn.op in ('list', 'tuple'):
            return mkpolyval([nf(a) for a in pn.args], x)
        q = nf(pn)
        return linear_scalar(q, lambda ar: patom(atom('ppv', None, (P({ar: (F1, F0)}), x), rank=prank(x), real=allreal(q) and allreal(x))))
    if o == 'apply':
        kids = [nf(a) for a in n.args[1:]]
        fo = n.args[0]
        if fo.op == 'fnobj' and len(kids) == 1 and len(fo.args) >= 2 and fo.attr[0] in (
                'interp1d', 'InterpolatedUnivariateSpline', 'CubicSpline', 'PchipInterpolator', 'np.interp') and isnumeric(fo.args[0]) and isnumeric(fo.args[1]) \
                and n.rank and nf(fo.args[0]) == kids[0]:
            return nf(fo.args[1])       # interpolation at its own nodes
        return mkapply((n.attr[0], ckey(fo), deep_taint(fo), arrays.is_real(n)), kids)
    if o == 'call' and n.attr[0] == 'map_coordinates' and all(isnumeric(a) for a in n.args):
        return patom(atom('mapc', None, [nf(a) for a in n.args], rank=n.rank, real=arrays.is_real(n.args[0])))
    if o == 'unwrap' and n.rank in (1, 2):
        q = nf(n.args[0])
        return patom(atom('unwrap', None, (q,), rank=n.rank, real=True))
    if o == 'uf':
        if all(isnumeric(a) for a in n.args):
            kids = [nf(a) for a in n.args]
            if n.attr[0].startswith('pw_'):
                return mkpuf((n.attr[0], n.attr[2]), kids)
            return patom(atom('uf', n.attr, kids, rank=n.rank, real=n.attr[2] in arrays.REAL_TYP, pos=n.attr[2] == 'pos',
                              nonneg=n.attr[2] == 'nonneg', node=n))
        return opaque(n)
    if o == 'len':
        return patom(atom('len', ckey(n.args[0]), (), integer=True, nonneg=True, taint=deep_taint(n)))
    if o == 'shape':
        return opaque(n)
    if o == 'transpose':
        x = n.args[0]
        if x.rank == 1:
            return nf(x)
        return linear(nf(x), lambda ar: patom(atom('T', None, (P({ar: (F1, F0)}),), rank=x.rank))) if x.rank == 2 and mono_uniform(nf(x), 2) else opaque(n)
    if o in ('rowrep', 'colrep'):
        def leaf(a):
            return patom(atom(o, nf(n.args[1]).key(), (patom(a),), rank=2, real=a.real, nonneg=a.nonneg, pos=a.pos, integer=a.integer))
        return hom(nf(n.args[0]), leaf)
    if o == 'hstack':
        if all(isnumeric(a) for a in n.args):
            pos, out = P0, P0
            full = [a for a in n.args if _len(a).t]
            if len(full) == 1 and full[0].rank == 1:
                return nf(full[0])
            for a in n.args:
                V = nf(a)
                end = padd(pos, _len(a))
                out = padd(out, pembed(V, pos, end))
                pos = end
            return out
        return opaque(n)
    if o == 'call' and n.attr[0] in ('gradient',) and len(n.args) == 1 and n.rank == 1:
        return linear(nf(n.args[0]), _gradient)
    if o == 'call' and n.attr[0] in ('gradient',) and len(n.args) == 2 and n.args[1].rank == 0:
        return pmul(pinv(nf(n.args[1])), linear(nf(n.args[0]), _gradient))
    if o == 'call' and isinstance(n.attr, tuple) and n.attr[0] in ('argmax', 'argmin') and len(n.args) == 1:
        y = nf(n.args[0])
        if n.attr[0] == 'argmin':
            k = zero_position(y)
            if k is not None:
                return k
        if len(y.t) == 1:
            (m, c), = y.t.items()
            s, ar = _split_scalar(m)
            if ar and c[1] == 0 and c[0] > 0 and all(_ATOMS[i].pos for i, e in s):
                y = P({ar: (F1, F0)})
        return patom(atom('op', (n.attr[0],), (y,), rank=0, integer=True, nonneg=True))
    if o == 'iv':
        return patom(atom('iv', n.attr, (), rank=0, integer=True, nonneg=True, taint=is_taint(n)))
    if o == 'mu':
        return opaque(n)
    return opaque(n)


def nf_prim(n):
    """antiderivative, linear in the integrand; powers of the variable integrate exactly"""
    from .calculus import bound
    bv = bound(n.attr)
    ba = _ATOMS[list(nf(bv).t)[0][0][0]]
    x = nf(n.args[1])
    out = P0
    for m, c in nf(n.args[0]).t.items():
        indep, dep = [], []
        for i, e in m:
            (dep if depends(_ATOMS[i], ba, bv) else indep).append((i, e))
        k = P({tuple(indep): c})
        if not dep:
            out = padd(out, pmul(k, x))
        elif len(dep) == 1 and dep[0][0] == ba.id:
            e = dep[0][1]
            out = padd(out, pmul(k, plog(x) if e == -1 else pscale(ppow(x, e + 1), 1 / (e + 1))))
        else:
            d = P({tuple(dep): (F1, F0)})
            out = padd(out, pmul(k, mkpuf(('prim', 'real' if allreal(d) else 'cplx', n.attr, pcanon_key(d)), [x])))
    return out


def pcanon_key(p):
    return tuple(sorted((m, c) for m, c in p.t.items()))


def _gradient(ar):
    if not ar:
        return P0
    if len(ar) == 1 and ar[0][1] == 1 and _ATOMS[ar[0][0]].kind == 'iota':
        return P1
    q = P({ar: (F1, F0)})
    return patom(atom('gradient', None, (q,), rank=1, real=allreal(q)))


def split_scalar_apply(p, f, depth=0):
    s = [i for i in scalar_inds(p) if _ATOMS[i].rank == 0]
    if not s or depth > 6:
        return f(p)
    i = s[0]
    I = patom(_ATOMS[i])
    return padd(pmul(I, split_scalar_apply(psubst_ind(p, i, True), f, depth + 1)),
                pmul(psub(P1, I), split_scalar_apply(psubst_ind(p, i, False), f, depth + 1)))


def mono_uniform(p, r):
    return all(mrank(m) == r and all(_ATOMS[i].rank in (0, r) for i, e in m) for m in p.t)


def linear_scalar(q, f):
    return linear(q, f)


def linear_getitem(p, i, n):
    """index that is not pushed through products: linear in scalar factors only"""
    ik = ixkey(i)

    def f(ar):
        if not ar:
            return P1
        q = P({ar: (F1, F0)})
        return patom(atom('getitem2', (ik.id if isinstance(ik, Node) else ik,), (q,), rank=n.rank, real=allreal(q), nonneg=pnonneg(q)))
    return linear(p, f)


def hom_rows(p, i):
    """some rows of an elementwise expression of two-dimensional arrays"""
    lo, hi = nf(i.args[0]), nf(i.args[1])

    def leaf(a):
        if a.rank != 2:
            return patom(a)
        if a.kind == 'rowrep':
            return patom(atom('rowrep', psub(hi, lo).key(), a.kids, rank=2, real=a.real, nonneg=a.nonneg, pos=a.pos, integer=a.integer))
        if a.kind == 'colrep':
            return hom(pgetitem(a.kids[0], i, 1), lambda b: patom(atom('colrep', a.data, (patom(b),), rank=2, real=b.real, nonneg=b.nonneg, pos=b.pos, integer=b.integer)))
        return patom(atom('getitem2', ('rows', lo.key(), hi.key()), (patom(a),), rank=2, real=a.real, nonneg=a.nonneg, pos=a.pos, integer=a.integer))
    return hom(p, leaf)


def hom_rank(p, i, r):
    def leaf(a):
        if a.rank == r:
            return patom(atom('getitem', (ixkey(i), r - 1), (patom(a),), rank=r - 1, real=a.real, nonneg=a.nonneg, pos=a.pos, integer=a.integer)) \
                if not (a.kind == 'rowrep') else a.kids[0]
        return patom(a)
    return hom2(p, leaf)


def hom2(p, leaf):
    return hom(p, leaf)


_DEP = {}


def depends(a, ba, bv):
    k = (a.id, ba.id)
    r = _DEP.get(k)
    if r is None:
        r = a is ba or any(depends(_ATOMS[i], ba, bv) for q in a.kids for m in q.t for i, e in m) or \
            (a.node is not None and any(y is bv for y in walk(a.node))) or (a.kind in ('getitem', 'getitem2') and _ixdep(a, bv))
        _DEP[k] = r
    return r


def _ixdep(a, bv):
    d = a.data[0]
    return isinstance(d, Node) and any(y is bv for y in walk(d))


# ------------------------------------------------------------- zero test
def is_zero(p, depth=0):
    if not p.t:
        return True
    if depth > 12:
        return False
    # clear polynomial denominators
    den = {}
    for m in p.t:
        for i, e in m:
            a = _ATOMS[i]
            if a.kind == 'poly' and e < 0:
                den[i] = min(den.get(i, F0), e)
    if den:
        i = max(den, key=lambda j: j)
        k = -(den[i] // 1)
        out = {}
        for m, c in p.t.items():
            d = dict(m)
            d[i] = d.get(i, F0) + k
            if d[i] == 0:
                del d[i]
            for m2, c2 in pscale(rebuild_mono_keep(d), *c).t.items():
                o = out.get(m2)
                if o is not None:
                    c2 = (o[0] + c2[0], o[1] + c2[1])
                if c2[0] == 0 and c2[1] == 0:
                    del out[m2]
                else:
                    out[m2] = c2
            if len(out) > 4 * MAXTERMS:
                raise Blowup()
        return is_zero(P(out), depth + 1)
    return False


def rebuild_mono_keep(d):
    """rebuild, keeping negative polynomial powers"""
    return rebuild_mono(d)


def difference(a, b):
    return psub(nf(a), nf(b))


def eq_implied(c):
    """component equalities implied by an equality condition node"""
    out = []
    if c.op == 'eq':
        a, b = c.args
        out.append((a, b))
        if a.op == 'strcat' and b.op == 'strcat':
            out.extend(_strcat_pairs(a, b))
        if a.op == 'tostr' and b.op == 'tostr':
            out.append((a.args[0], b.args[0]))
    if c.op == 'and':
        out += eq_implied(c.args[0]) + eq_implied(c.args[1])
    if c.op == 'is':
        out.append((c.args[0], c.args[1]))
    return out


def _strcat_pairs(a, b):
    """strcat of separable parts: str(number) pieces separated by literals containing a
    character that cannot occur in a number's decimal form"""
    def parts(n):
        r = []
        for x in n.args:
            if x.op == 'str' and r and r[-1].op == 'str':
                r[-1] = S(r[-1].attr + x.attr)
            else:
                r.append(x)
        return r
    pa, pb = parts(a), parts(b)
    if len(pa) != len(pb):
        return []
    sep = lambda n: n.op == 'str' and any(ch not in '0123456789+-.eEjinfa()' for ch in n.attr)
    prev = None
    for x, y in zip(pa, pb):
        if (x.op == 'str') != (y.op == 'str'):
            return []
        if x.op == 'str' and x.attr != y.attr:
            return []
        if x.op != 'str' and prev is not None and not sep(prev):
            return []
        prev = x
    return [(x.args[0] if x.op == 'tostr' else x, y.args[0] if y.op == 'tostr' else y) for x, y in zip(pa, pb) if x.op != 'str']


def _cond_atoms(c, out, seen):
    if c in seen:
        return
    seen.add(c)
    if c.op in ('and', 'or', 'not', 'phi'):
        for x in c.args:
            _cond_atoms(x, out, seen)
    elif c.op in ('eq', 'is') and c.rank == 0 and c not in out:
        out.append(c)


def strong_conds(*ns):
    """scalar (in)equality conditions on which the values branch"""
    out, seen = [], set()
    done = set()
    for n in ns:
        for x in walk(n):
            if x.op in ('phi', 'where') and x not in done:
                done.add(x)
                _cond_atoms(x.args[0], out, seen)
    return out


def solve(a, b):
    """(symbol, value) such that a == b exactly when symbol == value, or None"""
    for u, v in ((a, b), (b, a)):
        if u.op in ('sym', 'mu') and not any(x is u for x in walk(v)):
            return u, v
    if not (isnumeric(a) and isnumeric(b)) or a.rank or b.rank:
        return None
    try:
        p, q = nf(a), nf(b)
    except Blowup:
        return None
    if len(p.t) != 1 or len(q.t) != 1:
        return None
    r = pmul(q, pinv(p))
    if len(r.t) != 1:
        return None
    (m, co), = r.t.items()
    if co[1] != 0:
        return None
    ats = [(_ATOMS[i], e) for i, e in m]
    if any(x.node is None for x, e in ats):
        return None
    for x, e in ats:
        s = x.node
        if s.op != 'sym' or e not in (1, -1):
            continue
        if any(any(y is s for y in walk(o.node)) for o, _ in ats if o is not x):
            continue
        # 1 == co * s^e * rest
        k = num(co[0])
        for o, f in ats:
            if o is not x:
                k = mul(k, power(o.node, num(f)))
        return s, (k if e == -1 else power(k, num(-1)))
    return None


def simplify_under(nodes, c, val):
    """substitute condition c by val (and what it implies) in nodes"""
    r = [subst(x, {c: boolean(val)}) for x in nodes]
    if val:
        for a, b in eq_implied(c):
            for u, v in ((a, b), (b, a)):
                if u.op not in ('num', 'str', 'none', 'bool') and v.op in ('num', 'str', 'none', 'bool'):
                    r = [subst(x, {u: v}) for x in r]
                    break
            else:
                sv = solve(a, b)
                if sv:
                    r = [subst(x, {sv[0]: sv[1]}) for x in r]
    return r


DEPTH = 14


def _split(a, b):
    """first condition whose two cases both change the values"""
    for c in strong_conds(a, b):
        x = simplify_under([a, b], c, True)
        y = simplify_under([a, b], c, False)
        if x[0] is a and x[1] is b:
            continue
        return c, x, y
    return None


_CONG = {}


def congruent(a, b, limit=60, depth=0):
    """equal by congruence: the same operation on equal operands, all the way down to small differing parts"""
    if a is b:
        return True
    k = (a.id, b.id)
    if k in _CONG:
        return _CONG[k]
    _CONG[k] = False
    r = False
    if a.op == b.op and a.attr == b.attr and a.rank == b.rank and len(a.args) == len(b.args) and a.args:
        xs, ys = list(a.args), list(b.args)
        if a.op in ('add', 'mul'):
            for x in a.args:
                for j, y in enumerate(ys):
                    if x is y:
                        del ys[j]
                        xs.remove(x)
                        break
        r = all(congruent(x, y, limit, depth) for x, y in zip(xs, ys))
    if not r and depth < 4 and 'phi' in (a.op, b.op):
        s = _split(a, b)
        r = bool(s) and congruent(*s[1], limit, depth + 1) and congruent(*s[2], limit, depth + 1)
    if not r and isnumeric(a) and isnumeric(b) and size_upto(a, limit) < limit and size_upto(b, limit) < limit:
        try:
            r = equal(a, b)
        except Blowup:
            pass
    _CONG[k] = r
    return r


def size_upto(n, limit):
    seen = {n.id}
    todo = [n]
    while todo and len(seen) < limit:
        for x in todo.pop().args:
            if x.id not in seen:
                seen.add(x.id)
                todo.append(x)
    return len(seen)


def equal(a, b, depth=0):
    """True: proved equal for all inputs.  False: not proved."""
    if a is b:
        return True
    if size_upto(a, 30) >= 30 and congruent(a, b):
        return True
    if not (isnumeric(a) and isnumeric(b)):
        if ckey(a) == ckey(b):
            return True
        if a.op == b.op and a.op in ('tuple', 'list', 'strcat', 'tostr') and len(a.args) == len(b.args):
            if all(equal(x, y, depth) for x, y in zip(a.args, b.args)):
                return True
    else:
        try:
            if is_zero(difference(a, b)):
                return True
        except Blowup:
            return False
    if depth < DEPTH:
        s = _split(a, b)
        if s:
            return equal(*s[1], depth=depth + 1) and equal(*s[2], depth=depth + 1)
        if not (isnumeric(a) and isnumeric(b)) and (a.op == 'phi' or b.op == 'phi'):
            c = a.args[0] if a.op == 'phi' else b.args[0]
            x, y = simplify_under([a, b], c, True), simplify_under([a, b], c, False)
            if x[0] is not a or x[1] is not b:
                return equal(*x, depth=depth + 1) and equal(*y, depth=depth + 1)
    return False


def has_undef(n):
    """a term of the value is uninitialised memory, unconditionally"""
    if not isnumeric(n) or not any(x.op == 'undef' for x in walk(n)):
        return False
    try:
        p = nf(n)
    except Blowup:
        return False
    for m in p.t:
        ats = [_ATOMS[i] for i, e in m]
        if any(a.kind == 'op' and a.data[0] == 'undef' for a in ats) and not any(a.kind == 'ind' for a in ats):
            return True
    return False


def _weak_eq(c):
    """the condition equates numeric expressions that substitution cannot use"""
    for a, b in eq_implied(c):
        if a is b or a.op in ('num', 'str', 'none', 'bool') or b.op in ('num', 'str', 'none', 'bool'):
            continue
        if not solve(a, b):
            return True
    return False


def verdict(a, b):
    """'equal' | 'differs' | 'undecided'"""
    if a is b or size_upto(a, 30) >= 30 and congruent(a, b):
        return 'equal'
    g = generalise(a, b)
    if g is not None:
        try:
            if _verdict(g[0], g[1], 0, False) == 'equal':
                return 'equal'
        except (Blowup, RecursionError):
            pass
    try:
        if g is not None and branches(*g) and by_cases(*g):
            return 'equal'
    except (Blowup, RecursionError):
        pass
    try:
        v = _verdict(a, b, 0, False)
        return 'equal' if v == 'differs' and g is None and branches(a, b) and by_cases(a, b) else v
    except (Blowup, RecursionError):
        pass
    try:
        return coarse(*(g or (a, b)))
    except (Blowup, RecursionError):
        return 'undecided'


def branches(*ns):
    """scalar comparisons on which the values branch, those of plain values first"""
    found = []
    for n in ns:
        for x in walk(n):
            if x.op == 'phi':
                q = [x.args[0]]
                while q:
                    y = q.pop()
                    if y.op in ('and', 'or', 'not'):
                        q.extend(y.args)
                    elif y.op == 'lt' and y.rank == 0 and y not in found:
                        found.append(y)
    found.sort(key=lambda y: any(x.op == 'phi' for x in walk(y)))
    return found


def by_cases(a, b, depth=8):
    """equal in every combination of outcomes of the scalar comparisons they branch on"""
    if not (isnumeric(a) and isnumeric(b)):
        return False
    found = branches(a, b)
    if not found:
        return is_zero(difference(a, b))
    if depth == 0:
        return False
    i0 = ind(found[0])
    same = {y for y in found if ind(y) == i0}
    return all(by_cases(subst(a, {y: boolean(v) for y in same}), subst(b, {y: boolean(v) for y in same}), depth - 1) for v in (True, False))


def coarse(a, b):
    """verdict on a pair too large to normalise: large radicands become symbols, one per distinct normal form.
    Equal radicands get equal symbols, so 'equal' stands; 'differs?' is to be confirmed by evaluation."""
    if not (isnumeric(a) and isnumeric(b)):
        return 'undecided'
    m, keys, free = {}, {}, {}

    def bound(n):
        r = free.get(n.id)
        if r is None:
            r = free[n.id] = n.op in ('iv', 'bv', 'mu') or any(bound(x) for x in n.args)
        return r

    def visit(n, seen):
        if n.id in seen:
            return
        seen.add(n.id)
        for x in n.args:
            visit(x, seen)
        if n.op != 'pow' or not isnum(n.args[1]) or bound(n.args[0]) or n.args[0].rank not in (0, 1):
            return
        v = numval(n.args[1])
        x = n.args[0]
        if v[1] or v[0].denominator == 1 and v[0] > 0 or x.op in ('sym', 'num', 'el', 'pow'):
            return
        x2 = subst(x, m)
        k = (nf(x2), x.rank)
        s = keys.get(k)
        if s is None:
            ln = () if x.rank == 0 else (arrays.length_of(x),)
            s = keys[k] = mk('sym', *ln, attr=('$r%d' % len(keys), x.rank, _gtype(x)))
        m[x] = s
        if x2 is not x:
            m[x2] = s
    seen = set()
    visit(a, seen)
    visit(b, seen)
    memo = {}
    x, y = subst(a, m, memo), subst(b, m, memo)
    v = _verdict(x, y, 0, False)
    return 'differs?' if v == 'differs' else v


def _gtype(n):
    if arrays.is_pos(n):
        return 'pos'
    if n.op == 'pow' and isnum(n.args[1]) and numval(n.args[1])[:2] == (Fraction(1, 2), 0):
        return 'nonneg'
    return 'real' if arrays.is_real(n) else 'cplx'


def generalise(a, b):
    """large terms both sides share, replaced by the same free symbols: equal afterwards implies equal before"""
    if a is b or not (isnumeric(a) and isnumeric(b)):
        return None
    xs = {n.id: n for n in walk(a)}
    ys = {n.id for n in walk(b)}
    if len(xs) + len(ys) < 60:
        return None
    size, free = {}, {}

    def info(n):
        r = size.get(n.id)
        if r is None:
            k, f = 1, n.op in ('iv', 'bv', 'mu')
            for x in n.args:
                kk, ff = info(x)
                k, f = k + kk, f or ff
            r = size[n.id] = (min(k, 10 ** 6), f)
        return r
    m = {}
    stack, seen = [a], set()
    while stack:
        n = stack.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.id in ys and n.rank in (0, 1) and n.op in ('add', 'mul', 'pow', 'exp', 'el', 'log', 'abs') and isnumeric(n):
            k, f = info(n)
            ln = () if n.rank == 0 else (arrays.length_of(n),)
            if not f and k >= 12 and not any(x is n for y in ln for x in walk(y)):
                m[n] = mk('sym', *ln, attr=('$g%d' % n.id, n.rank, _gtype(n)))
                continue
        stack.extend(n.args)
    if not m:
        return None
    memo = {}
    return subst(a, m, memo), subst(b, m, memo)


def _verdict(a, b, depth, weak):
    if a is b:
        return 'equal'
    numeric = isnumeric(a) and isnumeric(b)
    d = None
    if numeric:
        d = difference(a, b)
        if is_zero(d):
            return 'equal'
    elif equal(a, b, DEPTH):
        return 'equal'
    s = _split(a, b)
    if s:
        if depth >= DEPTH:
            return 'undecided'
        c, x, y = s
        v = _verdict(x[0], x[1], depth + 1, weak or _weak_eq(c))
        if v == 'differs':
            return v
        w = _verdict(y[0], y[1], depth + 1, weak)
        return 'differs' if w == 'differs' else 'undecided' if 'undecided' in (v, w) else 'equal'
    if not numeric:
        if equal(a, b):
            return 'equal'
        return 'undecided' if weak or deep_taint(a) or deep_taint(b) else 'differs'
    if not weak and d.tainted() and not deep_taint(b) and search_only(a):
        return 'differs'
    return 'undecided' if weak or d.tainted() else 'differs'


SEARCH = {'minimize', 'minimize_scalar', 'fmin', 'fminbound', 'brent', 'brentq', 'fsolve', 'root', 'curve_fit', 'leastsq'}


def search_only(a):
    """the only unknowns in the value are results of numerical searches: it cannot be a plain formula"""
    seen, q, found = set(), [a], False
    while q:
        n = q.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.op == 'call' and isinstance(n.attr, tuple) and _callname(n.attr[0]) in SEARCH:
            found = True
            continue
        if n.op in ('attr', 'getitem') and n.args[0].op == 'call' and is_taint(n.args[0]):
            q.append(n.args[0])
            continue
        if is_taint(n):
            return False
        q.extend(n.args)
    return found


# ------------------------------------------------------------- printing
def ashow(a, depth=4):
    if a.kind == 'sym':
        return str(a.data[0])
    if a.kind in ('const',):
        return str(a.data)
    if depth <= 0:
        return '..'
    if a.node is not None and a.kind == 'op':
        return show(a.node, 4)
    ks = ', '.join(pshow(k, depth - 1) for k in a.kids)
    d = '' if a.data is None or isinstance(a.data, frozenset) else '<%s>' % (_dshow(a.data),)
    return '%s%s(%s)' % (a.kind, d, ks)


def _dshow(d):
    if isinstance(d, Node):
        return show(d, 3)
    if isinstance(d, tuple):
        return ','.join(_dshow(x) for x in d)[:60]
    if isinstance(d, frozenset):
        return '..'
    return str(d)[:40]


def pshow(p, depth=4, maxterms=8):
    if not p.t:
        return '0'
    parts = []
    for m, (re, im) in list(p.t.items())[:maxterms]:
        def f(x):
            return str(x.numerator) if x.denominator == 1 and abs(x) < 10 ** 7 else ('%.6g' % float(x))
        c = f(re) if im == 0 else (f(im) + 'j' if re == 0 else '(%s+%sj)' % (f(re), f(im)))
        fs = [ashow(_ATOMS[i], depth) + ('' if e == 1 else '^%s' % e) for i, e in m]
        s = '*'.join(([c] if c != '1' or not fs else []) + fs)
        parts.append(s)
    if len(p.t) > maxterms:
        parts.append('... %d terms' % len(p.t))
    return ' + '.join(parts)


# ------------------------------------------------------------ array hooks
_BUSY = [0]


def _eqh(a, b):
    if a.op in NONNUM or b.op in NONNUM or _BUSY[0] > 3:
        return False
    _BUSY[0] += 1
    try:
        return is_zero(difference(a, b))
    except (Blowup, RecursionError):
        return False
    finally:
        _BUSY[0] -= 1


def _sub_nonneg(a, b):
    """a - b provably >= 0"""
    try:
        return pnonneg(difference(a, b))
    except (Blowup, RecursionError):
        return False


def _disj(i, j):
    for s in (i, j):
        if s.args[2].op != 'none' and intval(s.args[2]) != 1:
            return False
        for b in s.args[:2]:
            k = intval(b)
            if k is not None and k < 0:
                return False
    def before(x, y):
        # x.stop <= y.start
        if x.args[1].op == 'none' or y.args[0].op == 'none':
            return False
        return _sub_nonneg(y.args[0], x.args[1])
    return before(i, j) or before(j, i)


arrays._eq_hook[0] = _eqh
arrays._disjoint_hook[0] = _disj


def _const_cond(c):
    try:
        q = ind(c)
    except (Blowup, RecursionError):
        return None
    return True if q == P1 else False if not q.t else None


from . import engine as _engine
_engine._ind_hook[0] = _const_cond

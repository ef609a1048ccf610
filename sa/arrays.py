"""array-level smart constructors: indexing, functional update, shapes"""
from .core import *
from . import core


BOOLOPS = {'lt', 'le', 'eq', 'ne', 'not', 'and', 'or', 'bool', 'is', 'in', 'truth', 'isinst', 'xor', 'all', 'any'}
BOOL_EL = {'isnan', 'isfinite', 'isinf', 'iscomplexobj', 'logical_and', 'logical_or', 'logical_not'}


def is_boolean(n):
    if n.op in BOOLOPS:
        return True
    if n.op == 'el' and n.attr in BOOL_EL:
        return True
    if n.op == 'sym' and n.attr[2] == 'bool':
        return True
    if n.op == 'bcast':
        return is_boolean(n.args[0])
    if n.op == 'getitem':
        return is_boolean(n.args[0])
    if n.op == 'where':
        return is_boolean(n.args[1]) and is_boolean(n.args[2])
    if n.op == 'phi':
        return is_boolean(n.args[1]) and is_boolean(n.args[2])
    if n.op == 'mul':      # (a<b)*(c<d)
        return all(is_boolean(a) for a in n.args)
    return False


def shape_of(x):
    if x.op == 'bcast':
        return x.args[1]
    if x.op == 'setitem':
        return shape_of(x.args[0])
    if x.op == 'undef' and x.args:
        return x.args[0]
    if x.op in ('fft', 'ifft', 'perm', 'conj', 'abs', 'neg', 'real', 'imag', 'exp', 'cast', 'unwrap', 'roll', 'cumsum'):
        return shape_of(x.args[0])
    if x.op in core.EW and x.args:
        rs = [a for a in x.args if a.rank]
        if rs:
            m = max(a.rank for a in rs)
            c = [a for a in rs if a.rank == m]
            for a in c:
                s = shape_of(a)
                if s.op != 'shape':
                    return s
            return shape_of(c[0])
    if x.op == 'linspace':
        return tup([x.args[2]])
    if x.op == 'call' and x.attr[0] == 'map_coordinates':
        return shape_of(x.args[1])
    if x.op == 'rowrep' and x.args[0].rank == 1:
        return tup([x.args[1], length_of(x.args[0])])
    if x.op == 'colrep' and x.args[0].rank == 1:
        return tup([length_of(x.args[0]), x.args[1]])
    if x.op == 'sym' and x.args:
        return tup(x.args)
    if x.op == 'list' and x.rank == 1:
        return tup([num(len(x.args))])
    if x.op == 'map':
        return tup([x.args[0]])
    if x.op == 'iota':
        return tup([x.args[0]])
    if x.op == 'arange':
        lo, hi = (ZERO, x.args[0]) if len(x.args) == 1 else x.args[:2]
        d = sub(lo, hi)
        if len(x.args) > 2 and x.args[2] is not ONE:
            d = div(d, x.args[2])
        k = intval(d)
        return tup([num(-k) if k is not None else neg(mk('floor', d))])
    if x.op == 'rand' and x.args[1].op != 'none':
        return x.args[1] if x.args[1].op == 'tuple' else tup([x.args[1]])
    if x.op == 'polyval':
        return shape_of(x.args[1])
    if x.op == 'apply' and x.rank and len(x.args) == 2:
        return shape_of(x.args[1])
    if x.op == 'hstack':
        ls = [length_of(a) for a in x.args]
        if not any(l.op == 'len' for l in ls):
            t = ls[0]
            for l in ls[1:]:
                t = add(t, l)
            return tup([t])
    if x.op == 'getitem' and x.args[1].op == 'slice' and x.args[0].rank == 1:
        lo, hi, st = x.args[1].args
        if st.op == 'none' or intval(st) == 1:
            l = 0 if lo.op == 'none' else intval(lo)
            h = 0 if hi.op == 'none' else intval(hi)
            n = length_of(x.args[0])
            if l is not None and l >= 0 and h is not None and h <= 0 and (hi.op == 'none' or h < 0) and n.op != 'len':
                k = intval(n)
                if k is not None:
                    return tup([num(max(0, k - l + h))])
                return tup([add(n, num(h - l))])
            a, b, m = monomial(ZERO if lo.op == 'none' else lo), monomial(n if hi.op == 'none' else hi), monomial(n)
            if a and b and m and m[0] > 0 and a[0] >= 0 and b[0] >= 0 and (a[1] == m[1] or not a[0]) and (b[1] == m[1] or not b[0]):
                # bounds and length are multiples of one positive number
                q = max(min(b[0], m[0]) - min(a[0], m[0]), 0)
                r = num(q)
                for f in m[1]:
                    r = mul(r, f)
                return tup([r])
            if l is not None and h is not None and hi.op != 'none' and l >= 0 and h >= 0 and intval(n) is not None:
                return tup([num(max(0, min(h, intval(n)) - l))])
        elif intval(st) == -1 and lo.op == 'none' and hi.op == 'none':
            return shape_of(x.args[0])
    if x.op == 'call' and isinstance(x.attr, tuple) and x.attr[0] == 'gradient' and x.rank == 1:
        return shape_of(x.args[0])
    if x.op == 'call' and isinstance(x.attr, tuple) and x.attr[0] == 'polyfit' and len(x.args) >= 3 and not x.attr[1]:
        d = intval(x.args[2])
        return tup([num(d + 1) if d is not None else add(x.args[2], ONE)])
    if x.op == 'uf' and x.attr[0].startswith('pw_') and x.rank == 1:
        for a in x.args:
            if a.rank == 1:
                return shape_of(a)
    if x.op == 'uf' and len(x.attr) > 3:
        if x.attr[3] == 'len':
            return tup([x.args[-1]])
        return shape_of(next(a for a in x.args if a.rank))
    if x.op == 'phi':
        a, b = shape_of(x.args[1]), shape_of(x.args[2])
        if a is b:
            return a
    return mk('shape', x)


def monomial(n):
    """(coefficient, factors) of a multiple of a product of positive whole symbols, or None"""
    c, fs, st = Fraction(1), [], [n]
    while st:
        x = st.pop()
        if x.op == 'mul':
            st += list(x.args)
        elif x.op == 'num' and x.attr[1] == 0:
            c *= x.attr[0]
        elif x.op == 'sym' and x.attr[1] == 0 and x.attr[2] == 'posint':
            fs.append(x)
        else:
            return None
    return c, tuple(sorted(fs, key=lambda f: f.id))


def length_of(x):
    s = shape_of(x)
    if s.op == 'tuple' and s.args:
        return s.args[0]
    if x.op in ('tuple', 'list'):
        return num(len(x.args))
    if s.op != 'shape' and s.rank == 0 and s.op != 'tuple':
        return s
    return mk('len', x)


def _bound(s):
    return s.args[0], s.args[1], s.args[2]


_disjoint_hook = [None]


def disjoint(i, j):
    """provably non-overlapping indices"""
    vi, vj = intval(i), intval(j)
    if vi is not None and vj is not None:
        if vi == vj:
            return False
        return (vi >= 0) == (vj >= 0)
    if i.op == 'tuple' and j.op == 'tuple' and len(i.args) == len(j.args):
        return any(disjoint(a, b) for a, b in zip(i.args, j.args))
    if i.op == 'slice' and j.op == 'slice' and _disjoint_hook[0]:
        return _disjoint_hook[0](i, j)
    return False


def _int_slice(s):
    """(lo, hi) of a slice with constant nonnegative bounds and unit step"""
    if s.op != 'slice' or not (s.args[2].op == 'none' or intval(s.args[2]) == 1):
        return None
    lo = 0 if s.args[0].op == 'none' else intval(s.args[0])
    hi = intval(s.args[1]) if s.args[1].op != 'none' else None
    return (lo, hi) if lo is not None and hi is not None and 0 <= lo <= hi else None


def same_index(i, j):
    if i is j:
        return True
    if i.op == 'slice' and j.op == 'slice':
        return all(_same_bound(a, b) for a, b in zip(i.args, j.args))
    if i.op == 'tuple' and j.op == 'tuple' and len(i.args) == len(j.args):
        return all(same_index(a, b) for a, b in zip(i.args, j.args))
    if i.rank == 0 and j.rank == 0 and _eq_hook[0]:
        return _eq_hook[0](i, j)
    return False


_eq_hook = [None]


def _same_bound(a, b):
    if a is b:
        return True
    za = a.op == 'none' or intval(a) == 0
    zb = b.op == 'none' or intval(b) == 0
    if za and zb:
        return True
    if a.op == 'none' or b.op == 'none':
        return False
    return bool(_eq_hook[0] and _eq_hook[0](a, b))


def is_full(i):
    return i is FULLSLICE or (i.op == 'slice' and i.args[1].op == 'none' and
                              (i.args[0].op == 'none' or intval(i.args[0]) == 0) and
                              (i.args[2].op == 'none' or intval(i.args[2]) == 1)) or \
        (i.op == 'const' and i.attr == 'Ellipsis')


def row_index(i):
    """trailing full slices select nothing: x[k, :] is x[k]"""
    if i.op == 'tuple' and len(i.args) >= 2 and i.args[-1].op == 'slice' and is_full(i.args[-1]) \
            and not any(a.op == 'const' and a.attr == 'Ellipsis' for a in i.args):
        a = list(i.args)
        while len(a) > 1 and a[-1].op == 'slice' and is_full(a[-1]):
            a.pop()
        return a[0] if len(a) == 1 else tup(a)
    return i


def _from_const(s):
    """first index of a slice lo: or lo:hi with a constant lo >= 0"""
    if s.op != 'slice' or not (s.args[2].op == 'none' or intval(s.args[2]) == 1):
        return None
    lo = 0 if s.args[0].op == 'none' else intval(s.args[0])
    return lo if lo is not None and lo >= 0 else None


def getitem(x, i):
    if is_full(i):
        return x
    if x.op == 'setitem':
        i = row_index(i)
    if x.op in ('tuple', 'list'):
        k = intval(i)
        if k is not None and -len(x.args) <= k < len(x.args):
            return x.args[k]
        if i.op == 'slice':
            b = [None if a.op == 'none' else intval(a) for a in i.args]
            if all(a.op == 'none' or intval(a) is not None for a in i.args):
                return mk(x.op, *x.args[slice(*b)])
    if x.op == 'map':
        k, n = intval(i), intval(x.args[0])
        if k is not None and n is not None and -n <= k < n:
            return subst(x.args[1], {mk('iv', attr='b%d' % x.attr): num(k % n)})
    if x.op == 'setitem':
        if same_index(x.args[1], i):
            v = x.args[2]
            r = mk('getitem', x.args[0], i).rank
            if v.rank == 0 and r not in (0, None):
                return mk('bcast', v, mk('shape', mk('getitem', x.args[0], i)))
            return v
        if disjoint(x.args[1], i):
            return getitem(x.args[0], i)
        b = _int_slice(x.args[1])
        if b and intval(i) is not None and intval(i) >= 0 and x.args[2].rank is not None:
            if not b[0] <= intval(i) < b[1]:
                return getitem(x.args[0], i)
            if x.args[2].rank == x.rank:
                return getitem(x.args[2], num(intval(i) - b[0]))
            if x.args[2].rank == 0 and x.rank == 1:
                return x.args[2]
    if x.op == 'shape':
        y = shape_of(x.args[0])
        if y is not x:
            return getitem(y, i)
    if x.op == 'bcast' and x.args[0].rank == 0:
        r = mk('getitem', x, i).rank
        if r == 0:
            return x.args[0]
        return mk('bcast', x.args[0], mk('shape', mk('getitem', x, i)))
    if x.op == 'phi':
        return phi(x.args[0], getitem(x.args[1], i), getitem(x.args[2], i))
    if i.op == 'phi' and i.rank == 0:
        return phi(i.args[0], getitem(x, i.args[1]), getitem(x, i.args[2]))
    if x.op == 'getitem' and x.args[1].op == 'slice' and intval(i) is not None and intval(i) >= 0 \
            and x.args[1].args[2].op == 'none':
        lo = x.args[1].args[0]
        if lo.op == 'none' or (intval(lo) is not None and intval(lo) >= 0):
            return getitem(x.args[0], num(int((intval(lo) or 0) if lo.op != 'none' else 0) + intval(i)))
    if x.op == 'getitem' and x.rank == 2 and x.args[0].rank == 2 and x.args[1].op == 'tuple' and len(x.args[1].args) == 2 \
            and x.args[1].args[0].op == 'slice' and x.args[1].args[0].args[2].op == 'none':
        # row k of rows lo: of some columns
        j = row_index(i)
        lo, hi = x.args[1].args[0].args[:2]
        lo = 0 if lo.op == 'none' else intval(lo)
        if intval(j) is not None and intval(j) < 0 and lo is not None and lo >= 0:
            n = intval(length_of(x.args[0]))
            if n is not None:
                rows = range(n)[lo:n if hi.op == 'none' else intval(hi)] if hi.op == 'none' or intval(hi) is not None else ()
                if len(rows) >= -intval(j):
                    return getitem(x.args[0], tup([num(rows[intval(j)]), x.args[1].args[1]]))
        if intval(j) is not None and intval(j) >= 0 and lo is not None and lo >= 0:
            return getitem(x.args[0], tup([num(lo + intval(j)), x.args[1].args[1]]))
    if x.op == 'setitem' and x.rank == 2 and i.op == 'tuple' and len(i.args) == 2 and intval(i.args[0]) is not None \
            and intval(x.args[1]) is not None and intval(i.args[0]) >= 0 and intval(x.args[1]) >= 0:
        # some columns of a row stored before
        if intval(i.args[0]) != intval(x.args[1]):
            return getitem(x.args[0], i)
        if x.args[2].rank == 1:
            return getitem(x.args[2], i.args[1])
    if x.op == 'cast' and (x.rank or 0) >= 2:
        r = getitem(x.args[0], i)
        if not (r.op == 'getitem' and r.args[0] is x.args[0]):
            return mk('cast', r, attr=x.attr)
    if x.op == 'getitem' and x.rank == 1 and x.args[0].rank == 1 and x.args[1].op == 'slice' and intval(x.args[1].args[2]) == -1 \
            and x.args[1].args[0].op == 'none' and x.args[1].args[1].op == 'none' and intval(i) is not None:
        k, n = intval(i), length_of(x.args[0])
        if k < 0:
            return getitem(x.args[0], num(-1 - k))
        if n.op != 'len':
            return getitem(x.args[0], add(n, num(-1 - k)))
    if x.op == 'stack':
        k = intval(i)
        if k is not None and -len(x.args) <= k < len(x.args):
            return x.args[k]
        j = row_index(i)
        if j.op == 'slice' and all(a.op == 'none' or intval(a) is not None for a in j.args):
            r = x.args[slice(*[None if a.op == 'none' else intval(a) for a in j.args])]
            if r:
                return mk('stack', *r)
    if x.op == 'getitem' and i.op == 'tuple' and len(i.args) == 2 and intval(i.args[1]) is not None and intval(i.args[1]) >= 0 \
            and x.args[1].op == 'tuple' and len(x.args[1].args) == 2 and is_full(x.args[1].args[0]) and _from_const(x.args[1].args[1]) is not None:
        # one of some columns of a table
        return getitem(x.args[0], tup([i.args[0], num(_from_const(x.args[1].args[1]) + intval(i.args[1]))]))
    if x.op == 'transpose' and intval(i) is not None and x.args[0].op == 'getitem' and x.args[0].args[1].op == 'tuple' \
            and len(x.args[0].args[1].args) == 2 and all(a.op == 'slice' for a in x.args[0].args[1].args):
        return getitem(x.args[0], tup([mk('slice', NONE, NONE, NONE), i]))
    if x.op == 'transpose' and intval(i) is not None and x.args[0].rank == 2 and x.args[0].op in ('sym', 'uf', 'call', 'setitem'):
        return getitem(x.args[0], tup([mk('slice', NONE, NONE, NONE), i]))
    if x.op == 'transpose' and i.op == 'tuple' and len(i.args) == 2 and x.args[0].rank == 2:
        y = getitem(x.args[0], tup([i.args[1], i.args[0]]))
        return mk('transpose', y) if y.rank == 2 and y.op != 'transpose' else y.args[0] if y.rank == 2 else y
    if i.op == 'tuple' and len(i.args) >= 2 and x.op in ('stack', 'list') and x.rank and x.rank >= 2 and intval(i.args[0]) is not None:
        return getitem(getitem(x, i.args[0]), i.args[1] if len(i.args) == 2 else tup(i.args[1:]))
    if x.op == 'shape' and x.args[0].rank == 1 and intval(i) in (0, -1):
        return mk('len', x.args[0])
    return mk('getitem', x, i)


def bcast(v, like):
    """v assigned over the whole of array 'like'"""
    if v.rank == 0:
        return mk('bcast', v, shape_of(like))
    if v.rank is not None and like.rank is not None and v.rank < like.rank:
        return mk('bcast', v, shape_of(like))
    return v


def setitem(x, i, v):
    if is_full(i):
        return bcast(v, x)
    if i.op == 'tuple' and all(is_full(a) for a in i.args):
        return bcast(v, x)
    i = row_index(i)
    if is_boolean(i) and (i.rank is None or i.rank >= 1):
        if v.op == 'getitem' and v.args[1] is i:
            v = v.args[0]
        return where(i, v, x)
    if x.op == 'setitem' and same_index(x.args[1], i):
        return setitem(x.args[0], i, v)
    if v.op == 'getitem' and v.args[0] is x and v.args[1] is i:
        return x
    if x.op == 'setitem' and x.rank == 1 and complement(x.args[1], i):
        # the two writes cover the array: what was there before does not matter
        z = bcast(ZERO, x.args[0])
        if v is ZERO:
            return mk('setitem', z, x.args[1], x.args[2])
        if x.args[2] is ZERO:
            return mk('setitem', z, i, v)
        return mk('setitem', mk('setitem', z, x.args[1], x.args[2]), i, v)
    return mk('setitem', x, i, v)


def complement(i, j):
    """[:k] and [k:]"""
    if i.op != 'slice' or j.op != 'slice' or any(a.args[2] is not NONE and a.args[2] is not ONE for a in (i, j)):
        return False
    for a, b in ((i, j), (j, i)):
        if (a.args[0] is NONE or a.args[0] is ZERO) and b.args[1] is NONE and a.args[1] is b.args[0] and a.args[1] is not NONE:
            return True
    return False


def where(c, a, b):
    if c.op == 'bool':
        return a if c.attr else b
    if a is b:
        return a
    if c.op == 'not':
        return where(c.args[0], b, a)
    if c.op == 'bcast' and c.args[0].op == 'bool':
        return a if c.args[0].attr else b
    if a.op == 'where' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'where' and b.args[0] is c:
        b = b.args[2]
    return mk('where', c, a, b)


core.REBUILD['getitem'] = lambda n, a: getitem(*a)
core.REBUILD['setitem'] = lambda n, a: setitem(*a)
core.REBUILD['where'] = lambda n, a: where(*a)


_STRS = ('str', 'strcat', 'tostr')
_NUMCH = '0123456789+-.eEjinfa()'


def _streq(a, b):
    """equality of strings built from decimal forms and separating literals, as
    equality of the components; None when the decomposition is not unique"""
    if a.op == 'tostr' and b.op == 'tostr':
        return cmp_('eq', a.args[0], b.args[0])

    def parts(n):
        r = []
        for x in (n.args if n.op == 'strcat' else (n,)):
            if x.op == 'str' and r and r[-1].op == 'str':
                r[-1] = S(r[-1].attr + x.attr)
            elif not (x.op == 'str' and x.attr == ''):
                r.append(x)
        return r
    pa, pb = parts(a), parts(b)
    conds = []
    for end in (-1, 0):
        # strip what both share at either end
        while pa and pb:
            x, y = pa[end], pb[end]
            if x is y:
                pa.pop(end)
                pb.pop(end)
                continue
            if x.op == 'str' and y.op == 'str':
                u, v = x.attr, y.attr
                k = 0
                while k < min(len(u), len(v)) and (u[-1 - k] == v[-1 - k] if end else u[k] == v[k]):
                    k += 1
                if k < min(len(u), len(v)):
                    return FALSE
                for ps, w in ((pa, u), (pb, v)):
                    w = w[:len(w) - k] if end else w[k:]
                    if w:
                        ps[end] = S(w)
                    else:
                        ps.pop(end)
                continue
            break
    if not pa and not pb:
        return TRUE
    if len(pa) != len(pb):
        return None
    prev = True
    for x, y in zip(pa, pb):
        if (x.op == 'str') != (y.op == 'str'):
            return None
        if x.op == 'str':
            if x.attr != y.attr:
                return None
            prev = any(ch not in _NUMCH for ch in x.attr)
            continue
        if not prev:
            return None
        prev = False
        if x is not y:
            if x.op != 'tostr' or y.op != 'tostr':
                return None
            conds.append(cmp_('eq', x.args[0], y.args[0]))
    r = TRUE
    for q in conds:
        r = land(r, q)
    return r


def cmp_(op, a, b):
    """op in lt le eq ne"""
    if isnum(a) and isnum(b):
        x, y = numval(a), numval(b)
        if op == 'eq':
            return boolean(x[:2] == y[:2])
        if op == 'ne':
            return boolean(x[:2] != y[:2])
        if x[1] == 0 and y[1] == 0:
            return boolean(x[0] < y[0] if op == 'lt' else x[0] <= y[0])
    if a.op == 'str' and b.op == 'str':
        if op == 'eq':
            return boolean(a.attr == b.attr)
        if op == 'ne':
            return boolean(a.attr != b.attr)
    if op in ('eq', 'ne'):
        kinds = [_kind(a), _kind(b)]
        if None not in kinds and kinds[0] != kinds[1] and a.rank == 0 and b.rank == 0:
            return boolean(op == 'ne')
        if a.op == 'none' and b.op == 'none':
            return boolean(op == 'eq')
        if op == 'eq' and a.op in _STRS and b.op in _STRS:
            r = _streq(a, b)
            if r is not None:
                return r
        if a.op == 'phi' and a.rank == 0 and b.op in ('num', 'str', 'none', 'bool', 'strcat'):
            return _phib(a.args[0], cmp_(op, a.args[1], b), cmp_(op, a.args[2], b))
        if b.op == 'phi' and b.rank == 0 and a.op in ('num', 'str', 'none', 'bool', 'strcat'):
            return _phib(b.args[0], cmp_(op, a, b.args[1]), cmp_(op, a, b.args[2]))
    if a is b and a.rank == 0:
        return boolean(op in ('le', 'eq'))
    if a is b and op in ('le', 'eq') and False:
        return TRUE
    if op == 'ne':
        return lnot(cmp_('eq', a, b))
    if op == 'eq':
        if a.op == 'tuple' and b.op == 'tuple':
            if len(a.args) != len(b.args):
                return FALSE
            r = TRUE
            for x, y in zip(a.args, b.args):
                r = land(r, cmp_('eq', x, y))
            return r
        if a.id > b.id:
            a, b = b, a
        return mk('eq', a, b)
    # sign knowledge on constants vs positive symbols
    if op in ('lt', 'le'):
        s = _signfold(op, a, b)
        if s is not None:
            return boolean(s)
    if op == 'le':
        return lnot(mk('lt', b, a))
    return mk(op, a, b)


def _phib(c, a, b):
    return phi(c, a, b)


def is_pos(n):
    """strictly positive scalar, by structure"""
    o = n.op
    if o in ('num',):
        return n.attr[1] == 0 and n.attr[0] > 0
    if o == 'sym':
        return n.attr[2] in ('pos', 'posint')
    if o == 'const':
        return n.attr in ('pi', 'c', 'eps0', 'h', 'eps', 'inf', 'e')
    if o == 'mul':
        return all(is_pos(a) for a in n.args)
    if o == 'add':
        return all(is_pos(a) for a in n.args)
    if o == 'pow':
        return is_pos(n.args[0]) and is_real(n.args[1])
    if o in ('cast', 'int') and o == 'cast':
        return is_pos(n.args[0])
    if o == 'exp':
        return is_real(n.args[0])
    if o == 'phi':
        return is_pos(n.args[1]) and is_pos(n.args[2])
    if o == 'bcast':
        return is_pos(n.args[0])
    if o == 'mu' and len(n.attr) > 3:
        return n.attr[3] == 'pos'
    return False


REAL_TYP = {'pos', 'real', 'int', 'posint', 'bool', 'nonneg'}


def is_real(n, depth=40):
    o = n.op
    if depth <= 0:
        return False
    d = depth - 1
    if o == 'num':
        return n.attr[1] == 0
    if o == 'sym':
        return n.attr[2] in REAL_TYP
    if o in ('const', 'bool', 'len', 'iv', 'bv', 'rand', 'arange', 'linspace', 'iota', 'abs', 'real', 'imag', 'shape', 'angle', 'int',
             'floor', 'round', 'lt', 'le', 'eq', 'ne', 'not', 'and', 'or'):
        if o == 'linspace':
            return all(is_real(a, d) for a in n.args)
        return True
    if o in ('add', 'mul', 'cast', 'phi', 'where', 'exp', 'conj', 'perm', 'unwrap', 'roll', 'sum', 'trapz', 'max', 'min', 'mean',
             'setitem', 'bcast', 'cumsum', 'mod', 'floordiv', 'poly1dval', 'transpose', 'stack'):
        if o == 'cast' and n.attr in ('float', 'int'):
            return True
        args = n.args
        if o in ('phi', 'where'):
            args = n.args[1:]
        elif o == 'setitem':
            args = (n.args[0], n.args[2])
        elif o == 'bcast':
            args = n.args[:1]
        elif o == 'roll':
            args = n.args[:1]
        return all(is_real(a, d) for a in args)
    if o == 'getitem':
        return is_real(n.args[0], d)
    if o == 'pow':
        if not (is_real(n.args[0], d) and is_real(n.args[1], d)):
            return False
        e = n.args[1]
        if isnum(e) and numval(e)[0].denominator == 1:
            return True
        return is_nonneg(n.args[0])
    if o == 'log':
        return is_pos(n.args[0])
    if o == 'el':
        if n.attr == 'angle':
            return True
        return all(is_real(a, d) for a in n.args)
    if o == 'uf':
        return n.attr[2] in REAL_TYP
    if o == 'call':
        f = n.attr[0] if isinstance(n.attr, tuple) else n.attr
        if f == 'scipy.integrate.quad':
            return True
        if f in ('polyfit', 'polyder', 'polyint', 'gradient', 'diff', 'poly1d'):
            return all(is_real(a, d) for a in n.args if a.rank)
        return False
    if o in ('polyval', 'prim'):
        return all(is_real(a, d) for a in n.args)
    if o == 'apply':
        return n.args[0].op == 'fnobj' and all(is_real(a, d) for a in n.args[0].args if arrays_numeric(a)) and all(is_real(a, d) for a in n.args[1:])
    if o == 'map':
        return is_real(n.args[1], d)
    return False


def arrays_numeric(n):
    return n.op not in ('str', 'none', 'bool', 'tuple')


def is_nonneg(n):
    if is_pos(n):
        return True
    o = n.op
    if o == 'num':
        return n.attr[1] == 0 and n.attr[0] >= 0
    if o in ('abs', 'len', 'iv'):
        return True
    if o in ('mul', 'add'):
        return all(is_nonneg(a) for a in n.args)
    if o == 'pow':
        e = n.args[1]
        if isnum(e) and numval(e)[0].denominator == 1 and numval(e)[0] % 2 == 0 and is_real(n.args[0]):
            return True
        return is_nonneg(n.args[0]) and is_real(e)
    if o in ('sum', 'trapz', 'max', 'min', 'mean', 'perm', 'bcast', 'cast', 'roll'):
        return is_nonneg(n.args[0])
    if o == 'getitem':
        return is_nonneg(n.args[0])
    if o == 'sym':
        return n.attr[2] == 'nonneg'
    if o == 'where' or o == 'phi':
        return is_nonneg(n.args[1]) and is_nonneg(n.args[2])
    return False


def _signfold(op, a, b):
    if isnum(a) and numval(a)[1] == 0 and numval(a)[0] <= 0 and is_pos(b):
        return True           # 0 < pos , -1 <= pos
    if isnum(b) and numval(b)[1] == 0 and numval(b)[0] <= 0 and is_pos(a):
        return False          # pos < 0 / pos <= 0
    if isnum(b) and numval(b)[:2] == (0, 0) and op == 'lt' and is_nonneg(a):
        return False
    return None


def _kind(n):
    o = n.op
    if o in ('num', 'bool'):
        return 'n'
    if o in ('str', 'strcat', 'tostr', 'fmt'):
        return 's'
    if o == 'none':
        return '0'
    if o == 'sym':
        t = n.attr[2]
        if t == 'str':
            return 's'
        if t in ('pos', 'real', 'cplx', 'int', 'posint', 'bool'):
            return 'n'
        return None
    if o in ('add', 'mul', 'pow', 'abs', 'const', 'exp', 'log', 'len', 'cast', 'el'):
        return 'n'
    if o == 'tuple':
        return 't'
    if o in ('getitem', 'uf', 'sum', 'trapz', 'int', 'round', 'floor', 'linspace', 'arange', 'fft', 'ifft', 'bcast', 'setitem',
             'perm', 'conj', 'real', 'imag', 'max', 'min', 'mean', 'mod', 'floordiv', 'where'):
        if o == 'getitem':
            return None
        return 'n'
    if o == 'obj':
        return 'o%s' % (n.attr,)
    return None


kind_of = _kind

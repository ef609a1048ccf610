"""Exact calculus on value-graph terms: derivatives and antiderivatives of scalar expressions.

Numerical differentiation and quadrature calls are interpreted as the exact
operator they approximate (documented modelling assumption)."""
from .core import *
from . import arrays
from .arrays import where


class NoCalc(Exception):
    pass


def fresh(eng, like=None):
    eng.fcounter += 1
    t = 'pos' if like is not None and arrays.is_pos(like) else 'real'
    return mk('sym', attr=('$q%d' % eng.fcounter, 0, t))


def ddx(n, x, memo=None):
    """derivative of the term n with respect to the term x (an atom of n)"""
    memo = {} if memo is None else memo
    dep = {}

    def occ(y):
        r = dep.get(y.id)
        if r is None:
            r = dep[y.id] = y is x or any(occ(a) for a in y.args)
        return r

    def go(y):
        if y is x:
            return ONE
        if not occ(y):
            return ZERO
        r = memo.get(y.id)
        if r is None:
            r = memo[y.id] = rule(y)
        return r

    def el(name, u):
        one = ONE
        if name == 'sin':
            return mk('el', u, attr='cos')
        if name == 'cos':
            return neg(mk('el', u, attr='sin'))
        if name == 'tan':
            return power(mk('el', u, attr='cos'), num(-2))
        if name == 'sinh':
            return mk('el', u, attr='cosh')
        if name == 'cosh':
            return mk('el', u, attr='sinh')
        if name == 'tanh':
            return power(mk('el', u, attr='cosh'), num(-2))
        if name == 'arcsin':
            return power(sub(one, power(u, num(2))), num(Fraction(-1, 2)))
        if name == 'arccos':
            return neg(power(sub(one, power(u, num(2))), num(Fraction(-1, 2))))
        if name == 'arctan':
            return inv(add(one, power(u, num(2))))
        raise NoCalc(name)

    def rule(y):
        o, a = y.op, y.args
        if o == 'add':
            return add(go(a[0]), go(a[1]))
        if o == 'mul':
            return add(mul(go(a[0]), a[1]), mul(a[0], go(a[1])))
        if o == 'pow':
            b, e = a
            if not occ(e):
                return mul(mul(e, power(b, sub(e, ONE))), go(b))
            if not occ(b):
                return mul(mul(y, mk('log', b)), go(e))
            return mul(y, add(mul(go(e), mk('log', b)), mul(mul(e, go(b)), inv(b))))
        if o == 'exp':
            return mul(y, go(a[0]))
        if o == 'log':
            return div(go(a[0]), a[0])
        if o == 'sqrt':
            return div(go(a[0]), mul(num(2), y))
        if o == 'el' and len(a) == 1:
            return mul(el(y.attr, a[0]), go(a[0]))
        if o == 'where':
            return where(a[0], go(a[1]), go(a[2]))
        if o == 'phi':
            return phi(a[0], go(a[1]), go(a[2]))
        if o in ('cast', 'real') and arrays.is_real(a[0]):
            return go(a[0])
        if o == 'sum' and y.attr is None:
            return mk('sum', go(a[0]))
        if o == 'conj' and arrays.is_real(a[0]):
            return go(a[0])
        if o == 'uf' and len(a) == 1 and y.attr[0].startswith('pw_'):
            t = 'cplx' if y.attr[2] == 'cplx' else 'real'
            return mul(mk('uf', a[0], attr=('pw_D' + y.attr[0][3:], y.attr[1], t) + y.attr[3:]), go(a[0]))
        if o == 'polyval' and not occ(a[0]) and a[0].op == 'list':
            c = a[0].args
            k = len(c) - 1
            d = ZERO
            for i, ci in enumerate(c[:-1]):
                d = add(mul(d, a[1]), mul(num(k - i), ci))
            return mul(d, go(a[1]))
        if o == 'prim' and not occ(a[0]):
            return mul(subst(a[0], {bound(y.attr): a[1]}), go(a[1]))
        raise NoCalc(o)
    return go(n)


def bound(d):
    return mk('sym', attr=('$b%d' % d, 0, 'real'))


def antiderivative(body, x, at):
    """node for F(at), F an antiderivative of body with respect to x"""
    d = 1 + max([-1] + [y.attr for y in walk(body) if y.op == 'prim'])
    return mk('prim', subst(body, {x: bound(d)}), at, attr=d)


def nth(eng, f, x0, n):
    """n-th derivative at the scalar x0 of the callable f (node -> node)"""
    x = fresh(eng, x0)
    r = f(x)
    if r.rank != 0:
        raise NoCalc('rank')
    for _ in range(n):
        r = ddx(r, x)
    return subst(r, {x: x0})


def index_function(n, q):
    """scalar function of the (continuous) index q that the rank-1 term n samples"""
    memo = {}

    def go(y):
        if y.rank == 0:
            return y
        r = memo.get(y.id)
        if r is None:
            r = memo[y.id] = rule(y)
        return r

    def rule(y):
        o, a = y.op, y.args
        if o == 'iota':
            return q
        if o == 'linspace' and all(b.rank == 0 for b in a):
            return add(a[0], mul(sub(a[1], a[0]), div(q, sub(a[2], ONE) if y.attr is not False else a[2])))
        if o in ('add', 'mul', 'pow', 'exp', 'log', 'sqrt', 'el', 'cast', 'lt', 'le', 'eq', 'ne', 'not', 'and', 'or'):
            return rebuild(y, [go(b) for b in a])
        if o in ('where', 'phi'):
            return phi(*[go(b) for b in a])
        if o == 'uf' and y.attr[0].startswith('pw_'):
            return mk('uf', *[go(b) for b in a], attr=(y.attr[0], 0) + y.attr[2:3])
        if o == 'bcast' and a[0].rank == 0:
            return a[0]
        raise NoCalc(o)
    return go(n)

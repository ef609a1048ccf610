"""Hash-consed value-graph nodes (the IR every analysis works on).

A node is (op, args, attr).  Nodes are immutable and structurally shared, so
node identity is value-number identity.  Nothing here executes repository code.
"""
from fractions import Fraction

import os
import time


class TimeUp(BaseException):
    """the time set aside for one check is used up: what is left stays undecided"""


DEADLINE = time.monotonic() + float(os.environ.get('VERIF_DEADLINE', '600'))


def intime():
    if time.monotonic() > DEADLINE:
        raise TimeUp()


_TAB = {}
_COUNT = [0]
CURSITE = [None]


class Node(object):
    __slots__ = ('op', 'args', 'attr', 'id', 'rank', 'site')

    def __repr__(self):
        return show(self)


def mk(op, *args, **kw):
    attr = kw.get('attr')
    key = (op, attr, tuple(a.id for a in args))
    n = _TAB.get(key)
    if n is None:
        n = Node()
        n.op, n.args, n.attr = op, args, attr
        _COUNT[0] += 1
        n.id = _COUNT[0]
        n.site = CURSITE[0]
        n.rank = kw['rank'] if 'rank' in kw else _rank(n)
        _TAB[key] = n
    return n


def node_count():
    return _COUNT[0]


EW = {'add', 'mul', 'pow', 'neg', 'exp', 'log', 'abs', 'conj', 'real', 'imag', 'el', 'lt', 'le',
      'eq', 'ne', 'not', 'and', 'or', 'where', 'floordiv', 'mod', 'shr', 'cast', 'perm', 'phase', 'xor',
      'sqrt', 'int', 'floor', 'round', 'bitnot', 'prim'}


def _rank(n):
    op = n.op
    if op == 'num' or op in ('str', 'none', 'bool', 'const', 'ext', 'lam', 'tostr', 'strcat', 'fmt',
                             'is', 'in', 'truth', 'len', 'isinst', 'slice', 'tuple', 'iv', 'bv', 'fn', 'obj', 'all', 'any'):
        return 0
    if op == 'sym':
        return n.attr[1]
    if op in EW:
        return join_rank(n.args)
    if op == 'phi':
        a, b = n.args[1], n.args[2]
        if a.op == 'undefvar':
            return b.rank
        if b.op == 'undefvar':
            return a.rank
        return a.rank if a.rank == b.rank else (None if None in (a.rank, b.rank) else max(a.rank, b.rank))
    if op in ('fft', 'ifft', 'cumsum', 'unwrap', 'roll'):
        return n.args[0].rank
    if op == 'setitem':
        return n.args[0].rank
    if op == 'bcast':
        sh = n.args[1]
        if sh.op == 'tuple':
            return len(sh.args)
        if sh.op == 'shape':
            return sh.args[0].rank
        return 1 if sh.rank == 0 else None
    if op in ('linspace', 'arange', 'iota', 'map'):
        return 1
    if op == 'getitem':
        r = n.args[0].rank
        ix = n.args[1]
        if r is None:
            return None
        ixs = ix.args if ix.op == 'tuple' else (ix,)
        for i in ixs:
            if i.op == 'slice':
                continue
            if i.op == 'none':
                r += 1
                continue
            if i.rank == 0:
                r -= 1
            elif i.rank is None:
                return None
            else:
                # boolean mask or fancy index
                r = r - 1 + 1
        return max(r, 0)
    if op in ('sum', 'trapz', 'max', 'min', 'mean'):
        return 0 if n.attr is None else None
    if op == 'shape':
        return 0
    if op == 'undef':
        return n.attr[1]
    if op == 'rand':
        return n.attr[2]
    if op == 'mu':
        return n.attr[2]
    if op == 'bigsum':
        return n.args[1].rank
    if op == 'uf':
        return n.attr[1]
    if op in ('call', 'apply', 'unk'):
        return n.attr[2] if isinstance(n.attr, tuple) and len(n.attr) > 2 else None
    if op == 'planes':
        return 3
    if op == 'stack':
        r = join_rank(n.args)
        return None if r is None else r + 1
    if op == 'list':
        r = join_rank(n.args)
        return None if r is None else r + 1
    if op in ('hstack', 'transpose', 'flip'):
        r = join_rank(n.args)
        return r if r is None or op != 'hstack' else max(r, 1)
    if op == 'polyval':
        return n.args[1].rank
    if op in ('dict', 'repr', 'more', 'rangelen', 'boundm', 'rng0', 'rngseed', 'rngnext'):
        return 0
    return None


def join_rank(args):
    r = 0
    for a in args:
        if a.rank is None:
            return None
        if a.rank > r:
            r = a.rank
    return r


# ---------------------------------------------------------------- constants
def num(v, t=None):
    """v: int, float, complex or Fraction"""
    if isinstance(v, bool):
        return mk('bool', attr=v)
    if isinstance(v, Fraction):
        return mk('num', attr=(v, Fraction(0), t or ('i' if v.denominator == 1 and t is None else 'f')))
    if isinstance(v, int):
        return mk('num', attr=(Fraction(v), Fraction(0), t or 'i'))
    if isinstance(v, float):
        if v != v:
            return mk('const', attr='nan')
        if v in (float('inf'), float('-inf')):
            return mk('const', attr='inf' if v > 0 else '-inf')
        return mk('num', attr=(Fraction(repr(v)), Fraction(0), t or 'f'))
    if isinstance(v, complex):
        return mk('num', attr=(Fraction(repr(v.real)), Fraction(repr(v.imag)), 'c'))
    raise TypeError(v)


def cnum(re, im, t='c'):
    return mk('num', attr=(re, im, t))


NONE = mk('none')
TRUE = mk('bool', attr=True)
FALSE = mk('bool', attr=False)
ZERO = num(0)
ONE = num(1)
MONE = num(-1)


def S(s):
    return mk('str', attr=s)


def boolean(b):
    return TRUE if b else FALSE


def const(name):
    return mk('const', attr=name)


PI = const('pi')
FULLSLICE = mk('slice', NONE, NONE, NONE)


def sym(name, rank=0, typ='real'):
    """typ: pos | real | cplx | int | posint | str | any | bool"""
    return mk('sym', attr=(name, rank, typ))


def isnum(n):
    return n.op == 'num' or n.op == 'bool'


def numval(n):
    if n.op == 'bool':
        return (Fraction(int(n.attr)), Fraction(0), 'i')
    return n.attr


def intval(n):
    """python int of a constant integer node, or None"""
    if n.op == 'bool':
        return int(n.attr)
    if n.op == 'num' and n.attr[1] == 0 and n.attr[0].denominator == 1:
        return int(n.attr[0])
    return None


_TP = {'i': 0, 'f': 1, 'c': 2}


def _jt(a, b):
    return a if _TP[a] >= _TP[b] else b


# ------------------------------------------------------- smart constructors
def add(a, b):
    if isnum(a) and isnum(b):
        x, y = numval(a), numval(b)
        return cnum(x[0] + y[0], x[1] + y[1], _jt(x[2], y[2]))
    if isnum(a) and numval(a)[:2] == (0, 0) and b.rank is not None:
        return b
    if isnum(b) and numval(b)[:2] == (0, 0) and a.rank is not None:
        return a
    return mk('add', a, b)


def mul(a, b):
    if isnum(a) and isnum(b):
        x, y = numval(a), numval(b)
        return cnum(x[0] * y[0] - x[1] * y[1], x[0] * y[1] + x[1] * y[0], _jt(x[2], y[2]))
    if isnum(a) and numval(a)[:2] == (1, 0):
        return b
    if isnum(b) and numval(b)[:2] == (1, 0):
        return a
    return mk('mul', a, b)


def neg(a):
    if a.op == 'bool' or a.op == 'num':
        x = numval(a)
        return cnum(-x[0], -x[1], x[2])
    return mul(MONE, a)


def sub(a, b):
    if a is b and a.rank == 0 and a.op not in ('rand',):
        return ZERO if isnum(a) and numval(a)[2] == 'i' else num(Fraction(0), 'f')
    return add(a, neg(b))


def inv(a):
    if isnum(a):
        x = numval(a)
        d = x[0] * x[0] + x[1] * x[1]
        if d != 0:
            return cnum(x[0] / d, -x[1] / d, _jt(x[2], 'f'))
    return mk('pow', a, MONE)


def div(a, b):
    return mul(a, inv(b)) if not (isnum(b) and numval(b)[:2] == (1, 0)) else a


def power(a, b):
    bi = numval(b) if isnum(b) else None
    if bi is not None and bi[1] == 0:
        if bi[0] == 1:
            return a
        if bi[0] == 0 and a.rank == 0:
            return ONE
        if isnum(a) and bi[0].denominator == 1 and abs(bi[0]) <= 4096:
            k = int(bi[0])
            x = numval(a)
            if not (k < 0 and x[0] == 0 and x[1] == 0):
                re, im = Fraction(1), Fraction(0)
                for _ in range(abs(k)):
                    re, im = re * x[0] - im * x[1], re * x[1] + im * x[0]
                t = x[2] if k >= 0 else _jt(x[2], 'f')
                r = cnum(re, im, t)
                return r if k >= 0 else inv(r)
    return mk('pow', a, b)


def lnot(a):
    if a.op == 'bool':
        return boolean(not a.attr)
    if a.op == 'not':
        return a.args[0]
    return mk('not', a)


def land(a, b):
    if a.op == 'bool':
        return b if a.attr else FALSE
    if b.op == 'bool':
        return a if b.attr else FALSE
    if a is b:
        return a
    return mk('and', a, b)


def lor(a, b):
    if a.op == 'bool':
        return TRUE if a.attr else b
    if b.op == 'bool':
        return TRUE if b.attr else a
    if a is b:
        return a
    if lnot(a) is b:
        return TRUE
    return mk('or', a, b)


def phi(c, a, b):
    if a is b:
        return a
    if c.op == 'bool':
        return a if c.attr else b
    if c.op == 'not':
        return phi(c.args[0], b, a)
    if a.op == 'bool' and b.op == 'bool':
        return c if a.attr else lnot(c)
    # nested on the same condition
    if a.op == 'phi' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'phi' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk('phi', c, a, b)


def tup(items):
    return mk('tuple', *items)


def undefvar():
    return mk('undefvar')


def show(n, depth=6):
    o = n.op
    if o == 'num':
        r, i, t = n.attr
        def f(x):
            return str(x.numerator) if x.denominator == 1 else ('%.6g' % float(x))
        if i == 0:
            return f(r)
        if r == 0:
            return f(i) + 'j'
        return '(%s+%sj)' % (f(r), f(i))
    if o in ('str', 'bool'):
        return repr(n.attr)
    if o == 'const':
        return n.attr
    if o == 'none':
        return 'None'
    if o == 'sym':
        return n.attr[0]
    if depth <= 0:
        return '..'
    a = [show(x, depth - 1) for x in n.args]
    if o == 'add':
        return '(%s + %s)' % tuple(a)
    if o == 'mul':
        return '%s*%s' % tuple(a)
    if o == 'pow':
        return '%s**%s' % tuple(a)
    if o == 'getitem':
        return '%s[%s]' % tuple(a)
    if o == 'slice':
        return ':'.join('' if x == 'None' else x for x in a[:2])
    if o == 'phi':
        return '(%s ? %s : %s)' % tuple(a)
    lab = o if n.attr is None else '%s<%s>' % (o, n.attr if not isinstance(n.attr, tuple) else ','.join(map(str, n.attr)))
    return '%s(%s)' % (lab, ', '.join(a))


def walk(n):
    seen = set()
    stack = [n]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        stack.extend(x.args)


def rebuild(n, args):
    """same op with new args, through the smart constructors"""
    o = n.op
    if o == 'add':
        return add(*args)
    if o == 'mul':
        return mul(*args)
    if o == 'pow':
        return power(*args)
    if o == 'phi':
        return phi(*args)
    if o == 'not':
        return lnot(*args)
    if o == 'and':
        return land(*args)
    if o == 'or':
        return lor(*args)
    if o in REBUILD:
        return REBUILD[o](n, args)
    if o in ('lam', 'undef', 'rand', 'mu', 'uf', 'sym'):
        return mk(o, *args, attr=n.attr, rank=n.rank)
    return mk(o, *args, attr=n.attr)


REBUILD = {}


def subst(n, m, memo=None):
    """replace nodes per mapping m (node -> node)"""
    if memo is None:
        memo = {}
    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        r = m.get(x)
        if r is None:
            if not x.args:
                r = x
            else:
                na = [go(a) for a in x.args]
                if all(p is q for p, q in zip(na, x.args)):
                    r = x
                else:
                    r = rebuild(x, na)
                    if r is not x and r in m:
                        r = m[r]
        memo[x.id] = r
        return r
    import sys
    sys.setrecursionlimit(20000)
    return go(n)

"""Closed forms for loops: element-wise fills, accumulations, maps."""
from .core import *
from .values import *
from . import arrays
from .arrays import getitem, setitem, shape_of, length_of


def occurs(n, x):
    return any(y is x for y in walk(n))


def _depth(n):
    d = -1
    for y in walk(n):
        if y.op in ('bigsum', 'map'):
            d = max(d, y.attr)
    return d + 1


def bind(body, iv):
    """alpha-canonical bound index: (body', level)"""
    d = _depth(body)
    b = mk('iv', attr='b%d' % d)
    return subst(body, {iv: b}), d


EWOPS = {'add', 'mul', 'pow', 'exp', 'log', 'abs', 'conj', 'real', 'imag', 'el', 'lt', 'eq', 'not', 'and', 'or', 'where', 'cast', 'mod',
         'floordiv', 'phi', 'int', 'floor', 'round', 'prim'}


def vectorise(body, iv, ln, src=None):
    """array whose iv-th element is body(iv), as pointwise array expression, or None"""
    ok = [True]
    memo = {}

    def go(n):
        if n is iv:
            return mk('iota', ln)
        r = memo.get(n.id)
        if r is not None:
            return r
        if not n.args or not occurs(n, iv):
            r = n
            if n.rank != 0 and n.rank is not None and n.op not in ('fn', 'lam'):
                ok[0] = False
        elif n.op == 'getitem' and n.args[1] is iv and not occurs(n.args[0], iv) and n.args[0].rank == 1:
            r = n.args[0]
        elif n.op in EWOPS or (n.op in ('uf',)) or (n.op == 'polyval' and not occurs(n.args[0], iv)) or \
                (n.op == 'apply' and n.args[0].op == 'fnobj' and not occurs(n.args[0], iv)):
            if n.rank != 0:
                ok[0] = False
                r = n
            elif n.op == 'polyval':
                r = mk('polyval', n.args[0], go(n.args[1]))
            elif n.op == 'apply':
                xs = [go(a) for a in n.args[1:]]
                r = mk('apply', n.args[0], *xs, attr=n.attr[:2] + (1,))
            elif n.op == 'uf':
                r = mk('uf', *[go(a) for a in n.args], attr=(n.attr[0], 1, n.attr[2]))
            elif n.op == 'phi':
                r = arrays.where(*[go(a) for a in n.args])
            else:
                r = rebuild(n, [go(a) for a in n.args])
        else:
            ok[0] = False
            r = n
        memo[n.id] = r
        return r
    r = go(body)
    if not ok[0]:
        return None
    if r.rank == 0:
        r = mk('bcast', r, tup([ln]))
    return r


def make_map(eng, ln, body, iv, src=None):
    v = vectorise(body, iv, ln)
    if v is not None:
        return v
    b, d = bind(body, iv)
    return mk('map', ln, b, attr=d)


def make_sum(ln, body, iv):
    """sum over iv in range(ln) of body"""
    if not occurs(body, iv):
        return mul(ln, body)
    k = intval(ln)
    if k is not None and k <= 64:
        r = ZERO
        for i in range(k):
            r = add(r, subst(body, {iv: num(i)}))
        return r
    if body.rank == 0:
        v = vectorise(body, iv, ln)
        if v is not None:
            return mk('sum', v)
    b, d = bind(body, iv)
    return mk('bigsum', ln, b, attr=d)


def _val(eng, v, st):
    try:
        return eng.node(v, st)
    except Exception:
        return None


def while_counter(eng, lp):
    """while loop with a unit-step counter: returns (iv-substitution key, length node, start) or None"""
    c = lp.cond
    if c is None or c.op != 'lt':
        return None
    i, n = c.args
    if i.op != 'mu' or i.attr[0] != lp.lid:
        return None
    for k, (v0, h, v1) in lp.keys.items():
        if h is i and isinstance(v1, Node) and isinstance(v0, Node):
            step = v1
            if step is add(i, ONE) or step is add(ONE, i):
                if any(y.op == 'mu' and y.attr[0] == lp.lid for y in walk(n)):
                    return None
                return k, i, v0, sub(n, v0), n
    return None


def close(eng, lp, ex, entry, iv, it):
    """replace mu values of the exit state by closed forms where recognised"""
    end = lp.end
    if end is None:
        return
    ctr = None
    if it is None:
        w = while_counter(eng, lp)
        if w is None:
            return
        ck, cmu, c0, ln, stop = w
        fcn = {cmu: add(c0, iv)}
    else:
        ln = lp.iter
        fcn = {}
        ck = None
        if ln is None:
            return
    muset = {}
    for k, (v0, h, v1) in lp.keys.items():
        if k[0] == 'h' or isinstance(h, Node):
            hn = h if isinstance(h, Node) else None
            if hn is not None and hn.op == 'mu':
                muset[k] = hn
        elif isinstance(h, Arr):
            hn = lp.header.store.get(('h', h.loc))
            if hn is not None and hn.op == 'mu':
                muset[k] = hn
    results = {}
    cand = {}
    for k, hmu in muset.items():
        v0, h, v1 = lp.keys[k]
        if k == ck:
            continue
        n0 = v0 if isinstance(v0, Node) else (_val(eng, v0, entry) if v0 is not None else None)
        n1 = v1 if isinstance(v1, Node) else (_val(eng, v1, end) if v1 is not None else None)
        if n0 is None or n1 is None:
            continue
        n1 = subst(n1, fcn) if fcn else n1
        cand[k] = (hmu, n0, n1)
    # element fills: setitem(mu, iv, e) where other reads of mu are at iv only
    fill = {}
    for k, (hmu, n0, n1) in cand.items():
        if n1.op == 'setitem' and n1.args[0] is hmu:
            fill[k] = n1
    submap = {}
    for k, n1 in fill.items():
        hmu, n0, _ = cand[k]
        idx = n1.args[1]
        submap[mk('getitem', hmu, idx)] = getitem(n0, idx)
    othermus = lambda n, allowed=(): any(y.op == 'mu' and y.attr[0] == lp.lid and y not in allowed for y in walk(n))
    for k, n1 in fill.items():
        hmu, n0, _ = cand[k]
        idx, e = n1.args[1], n1.args[2]
        e = subst(e, submap)
        if othermus(e) or othermus(idx):
            continue
        r = fill_form(n0, idx, e, iv, ln)
        if r is not None:
            results[k] = r
    for k, (hmu, n0, n1) in cand.items():
        if k in results:
            continue
        n1 = subst(n1, submap)
        r = accum_form(hmu, n0, n1, iv, ln, othermus)
        if r is not None:
            results[k] = r
        elif not othermus(n1) and not occurs(n1, iv) and n1.op != 'setitem':
            # loop-invariant assignment: exists only if at least one iteration ran
            pass
    for k, r in results.items():
        v = ex.store.get(k)
        if k[0] == 'h':
            ex.store[k] = r
        elif isinstance(v, Node) or isinstance(lp.keys[k][1], Node):
            ex.store[k] = r if r.rank == 0 else eng.wrap(ex, r)
        else:
            ex.store[k] = eng.wrap(ex, r)
    if ck is not None:
        ex.store[ck] = stop


def fill_form(n0, idx, e, iv, ln):
    if idx is iv:
        v = vectorise(e, iv, ln)
        if v is None:
            b, d = bind(e, iv)
            v = mk('map', ln, b, attr=d)
        if length_of(n0) is ln or n0.op == 'undef' and False:
            return arrays.bcast(v, n0)
        return setitem(n0, mk('slice', NONE, ln, NONE), v)
    # column fill  A[:, iv] = e  or row fill A[iv] / A[iv, :]
    if idx.op == 'tuple':
        pos = [i for i, a in enumerate(idx.args) if a is iv]
        rest = [a for i, a in enumerate(idx.args) if i not in pos]
        if len(pos) == 1 and all(arrays.is_full(a) for a in rest) and not any(occurs(a, iv) for a in rest):
            b, d = bind(e, iv)
            return mk('fillaxis', n0, ln, b, attr=(pos[0], d), rank=n0.rank)
    return None


def accum_form(hmu, n0, n1, iv, ln, othermus):
    """n1 = mu + f(iv)  (any add tree)"""
    terms = []

    def flat(n):
        if n.op == 'add':
            flat(n.args[0])
            flat(n.args[1])
        else:
            terms.append(n)
    flat(n1)
    hits = [t for t in terms if t is hmu]
    if len(hits) != 1:
        return None
    rest = [t for t in terms if t is not hmu]
    if any(othermus(t) for t in rest):
        return None
    body = None
    for t in rest:
        body = t if body is None else add(body, t)
    if body is None:
        return n0
    return add(n0, make_sum(ln, body, iv))

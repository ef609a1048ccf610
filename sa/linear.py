"""Linear facts over value-graph quantities: case paths of gated values and a
Fourier-Motzkin entailment test used for loop invariants."""
from fractions import Fraction
from .core import *
from . import nf


def lt_atoms(*ns):
    """scalar comparison atoms occurring in gates of the values"""
    out, seen = [], set()

    def go(c):
        if c in seen:
            return
        seen.add(c)
        if c.op in ('and', 'or', 'not', 'phi'):
            for x in c.args:
                go(x)
        elif c.op not in ('bool',) and c.rank in (0, None) and c not in out:
            out.append(c)
    for n in ns:
        for x in walk(n):
            if x.op in ('phi', 'where'):
                go(x.args[0])
    return out


def _nodes(n):
    return sum(1 for _ in walk(n))


def paths(nodes, facts=(), limit=400, depth=0):
    """all (facts, nodes) case combinations of the gates in nodes; contradictory combinations dropped"""
    out = []
    stack = [(list(nodes), list(facts))]
    while stack:
        ns, fs = stack.pop()
        ats = lt_atoms(*(ns + [a for c, v in fs for a in c.args if c.op == 'lt']))
        if not ats:
            out.append((fs, ns))
            if len(out) > limit:
                return None
            continue
        c = min(ats, key=_nodes)
        for val in (True, False):
            f2 = [(f if f is c else nf.simplify_under([f], c, val)[0], v) for f, v in fs]
            if any(f.op == 'bool' and bool(f.attr) != v for f, v in f2):
                continue
            f2 = [x for x in f2 if x[0].op != 'bool'] + [(c, val)]
            if c.op == 'lt' and not feasible([x for x in map(fact, f2) if x is not None]):
                continue
            stack.append((nf.simplify_under(ns, c, val), f2))
    return out


def fact(cv):
    """(P, strict) meaning P > 0 or P >= 0"""
    c, v = cv
    if c.op == 'lt' and nf.isnumeric(c.args[0]) and nf.isnumeric(c.args[1]):
        try:
            d = nf.psub(nf.nf(c.args[1]), nf.nf(c.args[0]))
        except nf.Blowup:
            return None
        return (d, True) if v else (nf.pneg(d), False)
    return None


def _lin(p):
    """polynomial as {monomial: rational}, None if complex"""
    r = {}
    for m, (re, im) in p.t.items():
        if im != 0:
            return None
        r[m] = re
    return r


def feasible(fs, pos=()):
    """may all facts hold together? (over the reals, monomials as unknowns)"""
    rows = []
    monos = set()
    for p, strict in fs:
        l = _lin(p)
        if l is None:
            continue
        rows.append((l, strict))
        monos |= set(l)
    for m in monos:
        if m and nf.mono_pos(m, (Fraction(1), Fraction(0))):
            rows.append(({m: Fraction(1)}, True))
        elif m and nf.mono_nonneg(m, (Fraction(1), Fraction(0))):
            rows.append(({m: Fraction(1)}, False))
    for v in [m for m in monos if m]:
        up, dn, rest = [], [], []
        for l, s in rows:
            k = l.get(v, 0)
            (up if k > 0 else dn if k < 0 else rest).append((l, s))
        if len(up) * len(dn) > 2000:
            return True
        for a, sa in up:
            for b, sb in dn:
                ka, kb = a[v], -b[v]
                n = {}
                for m in set(a) | set(b):
                    x = a.get(m, 0) / ka + b.get(m, 0) / kb
                    if x:
                        n[m] = x
                if not (sa or sb) and not n:
                    continue
                rest.append((n, sa or sb))
        rows = rest
        uniq = {}
        for l, s in rows:
            k = tuple(sorted(l.items(), key=repr))
            uniq[k] = uniq.get(k, False) or s
        rows = [(dict(k), s) for k, s in uniq.items()]
    for l, s in rows:
        c = l.get((), Fraction(0))
        if c < 0 or (s and c == 0):
            return False
    return True


def entails(fs, goal, strict=False):
    """facts imply goal >= 0 (or > 0)"""
    return not feasible(list(fs) + [(nf.pneg(goal), not strict)])

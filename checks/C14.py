"""The mixing integrator is the order-8 method it claims: order conditions of the tableau read off the extracted step."""
from fractions import Fraction
from sa import nf
from sa.core import *

F = Fraction

def trees(n, _m={}):
    """rooted trees with n nodes as sorted tuples of subtrees"""
    if n not in _m:
        out = set()
        def forests(k, least):
            if k == 0:
                yield ()
                return
            for s in range(1, k + 1):
                for t in trees(s):
                    if least is None or (s, t) >= least:
                        for rest in forests(k - s, (s, t)):
                            yield ((s, t),) + rest
        for f in forests(n - 1, None):
            out.add(tuple(t for _, t in f))
        _m[n] = sorted(out)
    return _m[n]

def size(t):
    return 1 + sum(size(s) for s in t)

def gamma(t):
    g = size(t)
    for s in t:
        g *= gamma(s)
    return g

def name(t):
    return '[' + ''.join(name(s) for s in t) + ']'


class Tableau(object):
    """explicit Runge-Kutta method recovered from the value graph of one step"""
    def __init__(self, x, h, y):
        self.x, self.h, self.y = x, h, y
        self.stages = []        # (atom, c, {stage: a})
        self.index = {}
        self.problems = []

    def parse(self, p, hpow=1, th=None):
        """p = y*q0 + h^hpow * sum w_j f_j * th^k -> (coefficient of y per k, {k: {stage: weight}})"""
        hy, = [i for (m, c) in nf.nf(self.h).t.items() for i, e in m]
        yy, = [i for (m, c) in nf.nf(self.y).t.items() for i, e in m]
        tt = None
        if th is not None:
            tt, = [i for (m, c) in nf.nf(th).t.items() for i, e in m]
        base, w = {}, {}
        for m, c in p.t.items():
            if c[1] != 0:
                return None
            d = dict(m)
            k = d.pop(tt, F(0)) if tt is not None else F(0)
            hp = d.pop(hy, F(0))
            if len(d) != 1:
                return None
            (i, e), = d.items()
            if e != 1:
                return None
            if i == yy and hp == 0:
                base[k] = base.get(k, F(0)) + c[0]
                continue
            a = nf._ATOMS[i]
            if hp != hpow or a.kind != 'uf' or a.data[0] != 'f':
                return None
            j = self.stage(i)
            if j is None:
                return None
            w.setdefault(k, {})[j] = c[0]
        return base, w

    def stage(self, i):
        if i in self.index:
            return self.index[i]
        a = nf._ATOMS[i]
        xa, ya = a.kids[0], a.kids[1]
        d = nf.psub(xa, nf.nf(self.x))
        hh = nf.nf(self.h)
        c = None
        if not d.t:
            c = F(0)
        else:
            q = nf.pmul(d, nf.pinv(hh))
            c = nf.const_of(q)
            c = c[0] if c is not None and c[1] == 0 else None
        r = self.parse(ya)
        if c is None or r is None or set(r[0]) - {0} or set(r[1]) - {0} or r[0].get(0) != 1:
            return None
        j = len(self.stages)
        self.stages.append((a, c, r[1].get(0, {})))
        self.index[i] = j
        return j

    def phi(self, t, memo):
        """elementary weight vector"""
        v = memo.get(t)
        if v is None:
            v = [1.0] * len(self.stages)
            for s in t:
                u = self.phi(s, memo)
                for i, (_, c, a) in enumerate(self.stages):
                    v[i] *= sum(float(x) * u[j] for j, x in a.items())
            memo[t] = v
        return v


SRC = '''
import numpy as np
from pynlo.util.ode_solve.dopr853 import StepperDopr853
n = SYM('n', 0, 'posint')
y = SYM('y', 1, 'cplx', n)
x = SYM('x', 0, 'real'); h = SYM('h', 0, 'real'); th = SYM('th', 0, 'real')
at = SYM('at', 0, 'pos'); rt = SYM('rt', 0, 'pos')
class Rhs:
    def deriv(self, x, y, dydx):
        dydx[:] = UF('f', x, y, rank=1, typ='cplx', len=n)
class Con:
    hnext = 0
    def __init__(self, answers):
        self.answers = answers
        self.errs = []
    def success(self, err, h):
        self.errs.append(err)
        q = self.answers[len(self.errs) - 1]
        self.hnext = 7*h
        return q is None, h if q is None else q*h
r = Rhs()
def stepper(y, x, answers, dense=True):
    d0 = np.zeros(n, dtype=complex)
    r.deriv(x, y, d0)
    s = StepperDopr853(y.copy(), d0, x, at, rt, dense)
    s.con = Con(answers)
    return s
s = stepper(y, x, [None])
s.step(h, r)
ynew = s.y + 0
klast = s.dydx + 0
err = s.con.errs[0]
EQ('position after a step', s.x, x + h)
EQ('previous position', s.xold, x)
EQ('length of the step', s.hdid, h)
EQ('derivative handed to the next step', klast, UF('f', x + h, ynew, rank=1, typ='cplx', len=n))
mid = s.dense_out(x + th*h, h)
EQ('dense output at the start', s.dense_out(x, h), y)
EQ('dense output at the end', s.dense_out(x + h, h), ynew)
u = stepper(y, x, [None], False)
u.step(h, r)
EQ('step without dense output', u.y, ynew)
'''
ERR = SRC + '''
e3 = s.yerr + 0
e5 = s.yerr2 + 0
sk = at + rt*np.maximum(np.abs(y), np.abs(ynew))
E3 = np.sum((np.abs(e3)/sk)**2)
E5 = np.sum((np.abs(e5)/sk)**2)
den = E5 + 0.01*E3
if den <= 0:
    den = 1.0
EQ('error measure', err, np.abs(h)*E5*np.sqrt(1/(den*n)))
'''
RETRY = SRC + '''
q = SYM('q', 0, 'pos')
w = stepper(y, x, [q, None])
w.step(h, r)
v = stepper(y, x, [None])
v.step(q*h, r)
EQ('a rejected attempt leaves no trace in the value', w.y, v.y)
EQ('nor in the derivative', w.dydx, v.dydx)
EQ('the accepted length is reported', w.hdid, q*h)
EQ('the position moves by the accepted length', w.x, x + q*h)
EQ('next length comes from the controller', w.hnext, 7*q*h)
# a second step starts where the first ended
w.con = Con([None])
w.step(h, r)
z = stepper(v.y, x + q*h, [None])
z.step(h, r)
EQ('second step', w.y, z.y)
EQ('position after the second step', w.x, x + q*h + h)
EQ('dense output of the second step', w.dense_out(x + q*h + th*h, h), z.dense_out(x + q*h + th*h, h))
'''
CTRL = '''
import numpy as np
from pynlo.util.ode_solve.dopr853_controller import Controller
e = SYM('e', 0, 'pos'); h = SYM('h', 0, 'real'); g = SYM('g', 0, 'real')
def limited(e):
    s = 0.9*e**(-1/8.)
    if s < 0.333:
        s = 0.333
    if s > 6.0:
        s = 6.0
    return s
big = 0.9*e**(-1/8.)
lowered = max(big, 0.333)
c = Controller()
ok, h1 = c.success(e, h)
good = e <= 1
EQ('accepted exactly when the error is at most 1', ok, good)
EQ('length kept or reduced', h1, h if good else h*lowered)
first = c.hnext + 0
EQ('next length after acceptance', first if good else 0, h*limited(e) if good else 0)
f = SYM('f', 0, 'pos')
ok, h2 = c.success(f, g)
fine = f <= 1
second = c.hnext + 0
grow = limited(f)
EQ('no growth right after a refusal', second if fine else 0, (g*grow if good else g*min(grow, 1.0)) if fine else 0)
c.success(0.0, h)
c.success(0.0, h)
EQ('an acceptance ends the refusal', c.hnext, 6.0*h)
c = Controller()
ok, h1 = c.success(1, h)
EQ('error at the limit is accepted', ok, True)
c = Controller()
ok, h1 = c.success(0.0, h)
EQ('no error is accepted', ok, True)
EQ('no error grows by the largest factor', c.hnext, 6.0*h)
'''
TOL = 2e-12

def run(chk):
    rule = 'order condition of the extracted tableau'
    where = 'pynlo.util.ode_solve.dopr853:StepperDopr853.dy'
    p = chk.prog('step', SRC)
    if p is not None:
        tableau(chk, p, rule, where)
    p = chk.prog('error', ERR, soft=True)
    if p is not None:
        estimators(chk, p, rule, where)
    chk.prog('retry', RETRY, unroll_while=4)
    chk.prog('controller', CTRL)
    chk.floor(250)


def tableau(chk, p, rule, where):
    T = Tableau(p.node('x'), p.node('h'), p.node('y'))
    r = T.parse(nf.nf(p.node('ynew')))
    if r is None:
        chk.undecided('tableau', rule, 'the step is not a recognisable explicit Runge-Kutta formula')
    else:
        b = r[1].get(0, {})
        chk.expect(r[0] == {0: 1}, 'the step starts from the current value', rule, where, 'coefficient of y is %s' % r[0])
        for i, (at, c, a) in enumerate(T.stages):
            chk.expect(abs(float(sum(a.values()) - c)) < TOL, 'stage %d: abscissa is the sum of its row' % i, rule, where,
                       'row sum %.15g, abscissa %.15g' % (float(sum(a.values())), float(c)))
        memo = {}
        for k in range(1, 9):
            for t in trees(k):
                v = sum(float(w) * T.phi(t, memo)[j] for j, w in b.items())
                chk.expect(abs(v - 1.0 / gamma(t)) < TOL, 'order %d: tree %s' % (k, name(t)), rule, where,
                           'weighted sum %.15g, must be 1/%d' % (v, gamma(t)))
        # dense output of order 7
        r = T.parse(nf.nf(p.node('mid')), th=p.node('th'))
        if r is None:
            chk.undecided('dense output', rule, 'not a polynomial in the position')
        else:
            dw = where.replace('.dy', '.prepare_dense')
            chk.expect({k: v for k, v in r[0].items() if abs(v) > TOL} == {0: 1}, 'dense output starts from the current value', rule, dw, str(r[0]))
            memo = {}
            for k in range(1, 8):
                for t in trees(k):
                    ph = T.phi(t, memo)
                    bad = []
                    for e in set(r[1]) | {F(k)}:
                        v = sum(float(w) * ph[j] for j, w in r[1].get(e, {}).items())
                        want = 1.0 / gamma(t) if e == k else 0.0
                        if abs(v - want) > 2e-10:
                            bad.append('power %s: %.12g instead of %.12g' % (e, v, want))
                    chk.expect(not bad, 'dense output of order %d: tree %s' % (k, name(t)), rule, dw, '; '.join(bad))


def estimators(chk, p, rule, where):
    try:
        T = Tableau(p.node('x'), p.node('h'), p.node('y'))
        b = T.parse(nf.nf(p.node('ynew')))[1][0]
        got = {}
        for nm, order in (('e3', 3), ('e5', 5)):
            w = T.parse(nf.nf(p.node(nm)), hpow=0)
            if w is None:
                chk.undecided('estimator of order %d' % order, rule, 'not linear in the stages')
                continue
            w = w[1].get(0, {})
            memo = {}
            for k in range(1, order + 1):
                for t in trees(k):
                    v = sum(float(b.get(j, 0) - w.get(j, 0)) * T.phi(t, memo)[j] for j in set(b) | set(w))
                    chk.expect(abs(v - 1.0 / gamma(t)) < TOL, 'embedded order %d: tree %s' % (order, name(t)), rule, where,
                               'weighted sum %.15g, must be 1/%d' % (v, gamma(t)))
            for t in trees(order + 1)[:1]:
                v = sum(float(w.get(j, 0)) * T.phi(t, memo)[j] for j in w)
                chk.expect(abs(v) > 1e-6, 'embedded order %d estimates the next order' % order, rule, where, 'estimate vanishes')
    except Exception as e:
        if type(e).__name__ not in ('Broken', 'KeyError', 'TypeError', 'AttributeError'):
            raise
        chk.undecided('error estimators', rule, 'internal anchors not found')

"""The ODE driver ends exactly at the requested point and saves on the requested grid."""

HEAD = '''
import numpy as np
from pynlo.util.ode_solve.steppers import ODEint, Output
n = SYM('n', 0, 'posint')
y0 = SYM('y0', 1, 'cplx', n)
at = SYM('at', 0, 'pos'); rt = SYM('rt', 0, 'pos')
calls = []
asked = []
class Rhs:
    def deriv(self, x, y, dydx):
        calls.append(x)
        dydx[:] = UF('f', x, y, rank=1, typ='cplx', len=n)
plan = []
made = []
class Stepper:
    def __init__(self, yy, dydx, x, atol, rtol, dense):
        self.y = yy; self.dydx = dydx; self.x = x; self.xold = x
        self.hdid = 0.0; self.hnext = 0.0; self.k = 0
        self.tols = (atol, rtol)
        self.neqn = len(yy); self.n = len(yy)
        made.append(self)
    def step(self, h, rhs):
        asked.append((self.x, h))
        kept, grow = plan[self.k] if self.k < len(plan) else (1, 1)
        self.k += 1
        self.hdid = h*kept
        self.y = UF('step', self.y, self.x, self.hdid, rank=1, typ='cplx', len=n)
        self.xold = self.x
        self.x = self.x + self.hdid
        self.hnext = self.hdid*grow
        self.last = self.hdid
    def dense_out(self, x, h):
        return UF('dense', self.y, self.xold, h, x, rank=1, typ='cplx', len=n)
ODEint.MAXSTP = 14
def want(x1, x2, h1, plan, nsaves):
    """positions and values of the accepted steps and of the saves for a schedule"""
    x = x1; y = y0; h = abs(h1) if x2 > x1 else -abs(h1)
    xs = [x1]; ys = [y0]; sx = [x1]; sy = [y0]
    k = 1
    for kept, grow in plan:
        if ((x + h*1.0001) - x2)/(x2 - x1) > 0:
            h = x2 - x
        did = h*kept
        y = UF('step', y, x, did, rank=1, typ='cplx', len=n)
        old = x
        x = x + did
        xs.append(x); ys.append(y)
        for j in range(1, nsaves):
            q = x1 + (x2 - x1)*j/nsaves
            if (x - q)*(x2 - x1) > 0 and (q - old)*(x2 - x1) >= 0:
                sx.append(q); sy.append(UF('dense', y, old, did, q, rank=1, typ='cplx', len=n))
        if x == x2:
            break
        h = did*grow
    sx.append(x2); sy.append(y)
    return xs, ys, sx, sy
'''
RUN = '''
plan = %(plan)s
x1 = %(x1)s; x2 = %(x2)s; h1 = %(h1)s
xs, ys, sx, sy = want(x1, x2, h1, plan, %(ns)d)
'''
DENSE = RUN + '''
out = Output(%(ns)d)
start = y0.copy()
ode = ODEint(start, x1, x2, at, rt, h1, 0.0, out, Stepper, Rhs(), True)
ode.integrate()
s = made[0]
EQ('ends at the requested point', s.x, x2)
EQ('final value', s.y, ys[len(ys) - 1])
EQ('final value is returned', start, ys[len(ys) - 1])
EQ('number of steps', len(asked), len(xs) - 1)
EQ('tolerances', s.tols, (at, rt))
EQ('derivative at the start', calls[0], x1)
EQ('number of saves', out.count, %(ns)d + 1)
for k in range(len(xs) - 1):
    EQ('each step starts where the last one ended', asked[k][0], xs[k])
for k in range(%(ns)d + 1):
    EQ('save position', out.xsave[k], x1 + (x2 - x1)*k/%(ns)d)
    EQ('saved value', out.ysave[k], sy[k])
'''
PLAIN = RUN + '''
out = Output(%(arg)s)
start = y0.copy()
ode = ODEint(start, x1, x2, at, rt, h1, 0.0, out, Stepper, Rhs(), False)
ode.integrate()
s = made[0]
EQ('ends at the requested point', s.x, x2)
EQ('final value', s.y, ys[len(ys) - 1])
EQ('final value is returned', start, ys[len(ys) - 1])
EQ('number of steps', len(asked), len(xs) - 1)
''' 
EVERY = '''
EQ('every accepted step is saved once', out.count, len(xs))
for k in range(len(xs)):
    EQ('position of a saved step', out.xsave[k], xs[k])
    EQ('value of a saved step', out.ysave[k], ys[k])
'''

REFUSE = '''
def outcome(out, hmin, steps, dense=True):
    ODEint.MAXSTP = steps
    start = y0.copy()
    ode = ODEint(start, 0, 8, at, rt, 1, hmin, out, Stepper, Rhs(), dense)
    try:
        ode.integrate()
        return 'done'
    except Exception:
        return 'refused'
plan = [(1, 1)]*8
EQ('enough steps', outcome(Output(4), 0.0, 8), 'done')
EQ('too many steps', outcome(Output(4), 0.0, 7), 'refused')
plan = [(0.5, 0.25)]*20
EQ('step below the smallest allowed', outcome(Output(4), 0.1, 14), 'refused')
EQ('dense saves without dense output', outcome(Output(0), 0.0, 8), 'refused')
'''

CASES = [
    # name, x1, x2, h1, schedule (part of the step kept, growth)
    ('full steps', '2', '6', '1', '[(1, 1)]*4'),
    ('one long step', '0', '3', '50', '[(1, 1)]'),
    ('reductions and growth', '1', '9', '4', '[(0.5, 1), (0.25, 2), (1, 3), (0.5, 1), (1, 4), (1, 1)]'),
    ('backwards', '9', '1', '4', '[(0.5, 1), (0.25, 2), (1, 3), (0.5, 1), (1, 4), (1, 1)]'),
    ('across zero', '-3', '5', '-8', '[(0.5, 0.25), (1, 8), (1, 1)]'),
    ('backwards in full steps', '3', '-1', '1', '[(1, 1)]*4'),
]

def run(chk):
    for nm, x1, x2, h1, plan in CASES:
        for ns in (1, 4, 8):
            chk.prog('%s, %d saves' % (nm, ns), HEAD + DENSE % dict(x1=x1, x2=x2, h1=h1, plan=plan, ns=ns), soft=True, unroll_while=30)
        chk.prog('%s, saving nothing' % nm, HEAD + PLAIN % dict(x1=x1, x2=x2, h1=h1, plan=plan, ns=1, arg='None'), soft=True, unroll_while=30)
        chk.prog('%s, saving every step' % nm, HEAD + PLAIN % dict(x1=x1, x2=x2, h1=h1, plan=plan, ns=1, arg='0') + EVERY, soft=True, unroll_while=30)
        chk.prog('%s, many saves' % nm, HEAD + DENSE.replace('start = y0', 'out.kmax = 2\nstart = y0') % dict(x1=x1, x2=x2, h1=h1, plan=plan, ns=8), soft=True, unroll_while=30)
        chk.prog('%s, many steps' % nm, HEAD + PLAIN.replace('start = y0', 'out.kmax = 1\nstart = y0') % dict(x1=x1, x2=x2, h1=h1, plan=plan, ns=1, arg='0') + EVERY,
                 soft=True, unroll_while=30)
    chk.prog('refusals', HEAD + REFUSE, soft=True, unroll_while=30)
    chk.floor(200)

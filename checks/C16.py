"""Propagation covers exactly the requested distance."""
from .common import PULSE
from .C05 import IMPORTS
from .C08 import STUB_FIBER
from sa import nf, linear
from sa.core import *

HEAD = PULSE + IMPORTS + STUB_FIBER + '''
K = SYM('K', 0, 'real')
SSFM.Advance = lambda self, A, dz, direction: A*np.exp(1j*K*dz*direction)
SSFM.CalculateLocalError = lambda self: UF('delta', self.Af+0, self.Ac+0, rank=0, typ='real')
dz0 = SYM('dz0', 0, 'pos')
L = SYM('L', 0, 'pos')
s = SSFM(dz=dz0)
'''

def adaptive(chk, p, name, direction):
    """inductive invariants of the adaptive loop"""
    eng = p.eng
    A0, K = p.node('A0'), p.node('K')
    RULE = 'loop invariant'
    loops = [lp for lp in eng.loops.values() if lp.cond is not None and lp.site[0].startswith('pynlo') and
             any(e is A0 or nf.equal(e, A0) for e, h, d in lp.keys.values() if e is not None and e.rank == 1)]
    if len(loops) != 1 or loops[0].brk not in (None, False) and loops[0].brk:
        return chk.undecided('%s: accounting' % name, RULE, 'stepping loop not recognised')
    lp = loops[0]
    where = 'pynlo.interactions.FourWaveMixing.SSFM:%s' % lp.qual
    hdr = {h: (e, d) for e, h, d in lp.keys.values() if h is not None}
    fields = [(e, h, d) for e, h, d in lp.keys.values() if e is not None and e.rank == 1 and (e is A0 or nf.equal(e, A0))]
    rem = [sub(c.args[1], c.args[0]) for c in walk(lp.cond) if c.op == 'lt']
    if not rem or not fields:
        return chk.undecided('%s: accounting' % name, RULE, 'loop condition is not a distance comparison')
    at_entry = lambda n: subst(n, {h: e for h, (e, d) in hdr.items()})
    at_end = lambda n: subst(n, {h: d for h, (e, d) in hdr.items()})
    L = p.node('L')
    found = None
    bad = []
    for r in rem:
        for e, h, d in fields:
            inv = [nf.psub(nf.nf(at_entry(r)), nf.nf(L))]
            if inv[0].t:
                bad.append('starts with distance %s to go, requested %s' % (show(at_entry(r), 4), show(L)))
                continue
            ok = True
            ps = linear.paths([d, at_end(r)])
            if ps is None:
                continue
            for fs, (dv, rv) in ps:
                ik = nf.pscale(nf.nf(K), 0, direction)
                lhs = nf.pmul(nf.nf(dv), nf.mkexp(nf.pmul(ik, nf.nf(rv))))
                rhs = nf.pmul(nf.nf(h), nf.mkexp(nf.pmul(ik, nf.nf(r))))
                if not nf.is_zero(nf.psub(lhs, rhs)):
                    ok = False
                    bad.append('one iteration turns the field into %s while the distance left becomes %s (path: %s)' % (
                        nf.pshow(nf.nf(dv))[:200], nf.pshow(nf.nf(rv)), '; '.join('%s%s' % ('' if v else 'not ', show(c, 3)[:60]) for c, v in fs)))
                    break
            if ok:
                found = (r, h)
    chk.expect(found is not None, '%s: field and distance left stay in step' % name, RULE, where, '; '.join(bad[:2]))
    if not found:
        return
    r = found[0]
    rend = at_end(r)
    # accepted step length as a multiple of a loop variable
    cands = [h for h in hdr if h.rank == 0 and nf.isnumeric(h)]
    proved, why = False, []
    step = None
    for fs, (rv,) in linear.paths([rend]):
        q = nf.psub(nf.nf(r), nf.nf(rv))
        if not q.t:
            continue
        step = q if step is None else step
        if nf.psub(q, step).t:
            step = False
    if not step:
        return chk.undecided('%s: no overshoot' % name, RULE, 'accepted step is not uniform')
    hs = [h for h in cands if any(nf._ATOMS[i].node is h for m in step.t for i, _ in m)]
    dpos = [(nf.nf(h), True) for h in hs if not any(h is x for x in walk(r))]
    # I: step > 0 and (r > 0 -> step <= r)
    def subst_step(vals):
        q = step
        out = nf.P0
        for m, c in q.t.items():
            t = nf.P({(): c})
            for i, e in m:
                nd = nf._ATOMS[i].node
                t = nf.pmul(t, nf.ppow(nf.nf(vals[nd]) if nd in vals else nf.patom(nf._ATOMS[i]), e))
            out = nf.padd(out, t)
        return out
    allok = True
    for which, f in (('entry', at_entry), ('iteration', at_end)):
        ps = linear.paths([f(h) for h in hs] + [f(r)])
        if ps is None:
            return chk.undecided('%s: no overshoot' % name, RULE, 'too many paths')
        for fs, ns in ps:
            facts = [x for x in map(linear.fact, fs) if x is not None]
            if which == 'iteration':
                facts += [(nf.nf(r), True), (nf.psub(nf.nf(r), step), False)] + dpos
            rv = nf.nf(ns[-1])
            facts.append((rv, True))
            sv = subst_step(dict(zip(hs, ns)))
            if not linear.feasible(facts):
                continue
            if not linear.entails(facts, nf.psub(rv, sv)):
                allok = False
                why.append('%s: next step %s may exceed the distance left %s (path: %s)' % (which, nf.pshow(sv), nf.pshow(rv), '; '.join(
                    '%s%s' % ('' if v else 'not ', show(c, 3)[:60]) for c, v in fs)))
            elif not linear.entails(facts, sv, strict=True) and not all(
                    c[1] == 0 and c[0] > 0 and all(nf._ATOMS[i].pos or nf._ATOMS[i].node in hs for i, _ in m) for m, c in sv.t.items()):
                allok = False
                why.append('%s: next step %s may be zero or negative' % (which, nf.pshow(sv)))
    chk.expect(allok, '%s: no overshoot' % name, RULE, where, '; '.join(why[:2]))

def run(chk):
    for direction in (1, -1):
        nm = 'forward' if direction > 0 else 'backward'
        p = chk.prog(nm, HEAD + '''
s.setup_fftw(p, f, None)
s.load_fiber_parameters(p, f, None)
A0 = s.A + 0
s.integrate_over_dz(L, %d)
''' % direction, soft=True, no_external_raise=True)
        if p is not None and p.eng.get(p.name, 'A0') is not None:
            adaptive(chk, p, nm, direction)
    for n in (1, 2, 3):
        chk.prog('%d output steps' % n, HEAD.replace("SSFM.Advance = lambda self, A, dz, direction: A*np.exp(1j*K*dz*direction)\n", '') + '''
seen = []
def whole(self, delta_z, direction=1):
    seen.append(delta_z)
    self.A[:] = UF('adv', self.A, delta_z, rank=1, typ='cplx', like=1)
SSFM.integrate_over_dz = whole
f.length = L
def F(v): return np.fft.ifftshift(np.fft.ifft(np.fft.fftshift(v)))
def adv(v): return np.fft.ifftshift(UF('adv', np.fft.fftshift(v), L/%(n)d, rank=1, typ='cplx', like=1))
z, AW, AT, out = s.propagate(p, f, %(n)d)
EQ('number of stretches', len(seen), %(n)d)
EQ('positions', z, np.linspace(0, L, %(n)d + 1))
t0 = p.AT
''' % dict(n=n) + ''.join('''
EQ('stretch %(i)d', seen[%(i)d], L/%(n)d)
t%(j)d = adv(t%(i)d)
EQ('field after stretch %(i)d', AT[:, %(i)d], t%(j)d)
EQ('spectrum after stretch %(i)d', AW[:, %(i)d], F(t%(j)d))
''' % dict(i=i, j=i + 1, n=n) for i in range(n)) + '''
EQ('field of the output pulse', out.AT, t%(n)d)
EQ('spectrum of the output pulse', out.AW, F(t%(n)d))
EQ('output window', out.time_window_ps, Tw)
EQ('output grid', out.W_mks, p.W_mks)
EQ('output repetition rate', out.frep_MHz, fr)
''' % dict(n=n), soft=True, no_external_raise=True)
    chk.floor(12)

"""Adaptive step control: discard, keep, extrapolate and resize by the measured error."""
from .C16 import HEAD
from sa import nf, linear
from sa.core import *

SRC = HEAD.replace("A*np.exp(1j*K*dz*direction)", "UF('S', A, dz, direction, rank=1, typ='cplx', like=1)").replace(
    "SSFM.CalculateLocalError = lambda self: UF('delta', self.Af+0, self.Ac+0, rank=0, typ='real')\n", '').replace(
    's = SSFM(dz=dz0)', "tol = SYM('tol', 0, 'pos')\ns = SSFM(dz=dz0, local_error=tol)") + '''
s.setup_fftw(p, f, None)
s.load_fiber_parameters(p, f, None)
A0 = s.A + 0
s.integrate_over_dz(L)
def S(A, h): return UF('S', A, h, 1, rank=1, typ='cplx', like=1)
H = SYM('H', 1, 'cplx', N)
hh = SYM('hh', 0, 'pos')
fine = S(S(H, hh), hh)
coarse = S(H, 2*hh)
kept = (16*fine - coarse)/15
err = np.linalg.norm(fine - coarse)/np.linalg.norm(fine)
abserr = np.linalg.norm(fine - coarse)
'''

def run(chk):
    p = chk.prog('adaptive step', SRC, soft=True, no_external_raise=True)
    RULE = 'path rule'
    und = lambda why: chk.undecided('adaptive step: control', RULE, why)
    if p is None or p.eng.get(p.name, 'abserr') is None:
        return und('stepping loop not reached')
    eng = p.eng
    A0 = p.node('A0')
    loops = [lp for lp in eng.loops.values() if lp.cond is not None and lp.site[0].startswith('pynlo') and
             any(e is not None and e.rank == 1 and nf.equal(e, A0) for e, h, d in lp.keys.values())]
    if len(loops) != 1 or loops[0].brk:
        return und('stepping loop not recognised')
    lp = loops[0]
    where = 'pynlo.interactions.FourWaveMixing.SSFM:%s' % lp.qual
    (h, d), = [(h, d) for e, h, d in lp.keys.values() if e is not None and e.rank == 1 and nf.equal(e, A0)][:1]
    # the step variable: argument of the advance operator
    ufs = [x for x in walk(d) if x.op == 'uf' and x.args and x.args[0] is h]
    hs = [hh for e, hh, dd in lp.keys.values() if hh is not None and hh.rank == 0 and any(nf.equal(u.args[1], hh) for u in ufs)]
    if len(hs) != 1:
        return und('step variable not recognised')
    hv = hs[0]
    dz_end = [dd for e, x, dd in lp.keys.values() if x is hv][0]
    inst = lambda v: nf.nf(subst(p.node(v), {p.node('H'): h, p.node('hh'): hv}))
    fine, kept, err, aerr = inst('fine'), inst('kept'), inst('err'), inst('abserr')
    tol = nf.nf(p.node('tol'))
    rem = [sub(c.args[1], c.args[0]) for c in walk(lp.cond) if c.op == 'lt']
    if len(rem) != 1:
        return und('distance left not recognised')
    r = rem[0]
    rend = subst(r, {x: dd for e, x, dd in lp.keys.values() if x is not None})
    ps = linear.paths([d, dz_end, rend])
    if not ps:
        return und('too many paths')
    bad = {k: [] for k in ('value', 'discard', 'keep', 'shrink', 'grow')}
    half = nf.psub(nf.nf(hv), nf.pconst(*map(nf.Fraction, ('2e-12', 0))))
    nk = nd = 0
    for fs, (v, dz, rv) in ps:
        facts = [x for x in map(linear.fact, fs) if x is not None]
        facts.append((nf.nf(hv), True))
        zero = any(c.op == 'eq' and val for c, val in fs)
        e = aerr if zero else err
        path = '; '.join('%s%s' % ('' if b else 'not ', show(c, 3)[:60]) for c, b in fs)
        V, D = nf.nf(v), nf.nf(dz)
        moved = nf.psub(nf.nf(rv), nf.nf(r)).t
        if not moved:
            nd += 1
            if nf.psub(V, nf.nf(h)).t:
                bad['value'].append('a discarded step changes the field to %s' % nf.pshow(V)[:200])
            if not linear.entails(facts, nf.psub(e, nf.pscale(tol, 2)), strict=True):
                bad['discard'].append('step discarded although the error may be within twice the tolerance (path: %s)' % path)
            if nf.psub(D, nf.pscale(nf.nf(hv), nf.Fraction(1, 2))).t:
                bad['discard'].append('step retried with %s' % nf.pshow(D))
            continue
        nk += 1
        if not nf.is_zero(nf.psub(V, kept)):
            bad['value'].append('accepted field is %s' % nf.pshow(V)[:300])
        small = linear.entails(facts, nf.pneg(half))
        if not small and not linear.entails(facts, nf.psub(nf.pscale(tol, 2), e)):
            bad['keep'].append('step kept although the error may exceed twice the tolerance (path: %s)' % path)
        clamped = not nf.psub(nf.pscale(D, 2), nf.nf(rv)).t
        if clamped:
            continue
        q = nf.pmul(D, nf.pinv(nf.nf(hv)))
        fac = [(m, c) for m, c in q.t.items()]
        if len(fac) != 1 or any(nf._ATOMS[i].kind != 'prime' for i, _ in fac[0][0]):
            bad['grow'].append('next step is %s' % nf.pshow(D))
            continue
        ratio = float(fac[0][1][0])
        for i, x in fac[0][0]:
            ratio *= float(nf._ATOMS[i].data) ** float(x)
        if ratio > 1 + 1e-12 and not linear.entails(facts, nf.psub(nf.pscale(tol, nf.Fraction(1, 2)), e)):
            bad['grow'].append('step grows by %g although the error may exceed half the tolerance (path: %s)' % (ratio, path))
        if ratio < 1 - 1e-12 and not linear.entails(facts, nf.psub(e, tol)):
            bad['shrink'].append('step shrinks by %g although the error may be below the tolerance (path: %s)' % (ratio, path))
        if abs(ratio - 1) < 1e-12:
            floor = small or any(len(P.t) == 2 and P.t.get((), (0, 0))[0] > 0 and any(
                nf._ATOMS[i].node is hv for m, c in P.t.items() if c[0] < 0 for i, _ in m) for P, _ in facts)
            if not linear.entails(facts, nf.psub(e, nf.pscale(tol, nf.Fraction(1, 2)))):
                bad['grow'].append('step stays although the error may be below half the tolerance (path: %s)' % path)
            if not floor and not linear.entails(facts, nf.psub(tol, e)):
                bad['shrink'].append('step stays although the error may exceed the tolerance (path: %s)' % path)
    names = {'value': 'kept field is the extrapolated one, discarded field the old one', 'discard': 'only too large an error discards a step, retried at half size',
             'keep': 'too large an error never kept above the smallest step', 'shrink': 'step shrinks exactly above the tolerance',
             'grow': 'step grows exactly below half the tolerance'}
    for k, t in names.items():
        chk.expect(not bad[k], 'adaptive step: ' + t, RULE, where, '; '.join(bad[k][:2]))
    chk.expect(nk > 0 and nd > 0, 'adaptive step: both outcomes exist', RULE, where, '%d keeping and %d discarding paths' % (nk, nd))
    chk.floor(1)

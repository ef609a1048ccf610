"""Every name, attribute and package function the source refers to exists, and calls inside the package fit their callees."""
import glob
import os
from sa import resolve
from sa.check import Broken, REPO


def run(chk):
    site = glob.glob('/opt/venv/lib/python3*/site-packages')
    P = resolve.Package(REPO, site)
    if P.counts['files'] < 10:
        raise Broken('only %d source files found under src/pynlo' % P.counts['files'])
    probs = P.check()
    chk.funcs |= P.funcs
    chk.sites |= P.sites
    chk.programs = P.counts['files']
    bad = {}
    for p in probs:
        bad.setdefault(p.label, []).append(p)
    hit = {p.where.split(' ')[-1] for p in probs}
    for label, ps in sorted(bad.items()):
        chk.violation(label, 'resolution', '; '.join(p.where for p in ps[:6]), ps[0].what)
    for f in sorted(P.funcs):
        chk.ok('%s resolves' % f, 'resolution') if f.split(':')[-1] not in hit else None
    for m in sorted(P.mods):
        chk.ok('%s parses' % m, 'parse')
    chk.rules.update({'names looked up': P.counts['names'], 'attributes looked up': P.counts['attributes'],
                      'package calls matched with their callee': P.counts['calls'], 'imports looked up': P.counts['imports']})
    chk.floor(100)

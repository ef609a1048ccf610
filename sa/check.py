"""Check driver: runs specification programs through the analyser, compares
normal forms, applies host-side rules, writes evidence, reports violations."""
import ast
import json
import os
import sys
import time
import hashlib
from .core import *
from .values import *
from . import engine as E, nf, arrays, rint

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Broken(Exception):
    """the analysis lost an anchor or cannot work: error exit, no verdict"""


class Prog(object):
    def __init__(self, chk, name, source, **config):
        self.chk, self.name, self.source = chk, name, source
        overrides = config.pop('overrides', {})
        ext = config.pop('ext_overrides', {})
        self.eng = eng = E.Engine(REPO, config)
        eng.overrides.update(overrides)
        eng.ext_overrides.update(ext)
        nf.reset()
        t = time.time()
        eng.boot(name, source)
        self.wall = time.time() - t
        chk.note_engine(eng)
        self.marks = {}
        for o in eng.observed:
            if o[0] == 'mark':
                self.marks.setdefault(o[1], []).append(o[2])
        self.labels = _labels(source)

    def value(self, var):
        v = self.eng.get(self.name, var)
        if v is None:
            raise Broken('harness %s: no value for %s (%s)' % (self.name, var, self.failure()))
        return v

    def node(self, var):
        return self.eng.node(self.value(var), self.eng.st)

    def values(self, label):
        return [o for o in self.eng.observed if o[0] == 'value' and o[1] == label]

    def failure(self):
        for ev in reversed(self.eng.events):
            if ev[0] in FATAL:
                return '%s %s' % (ev[0], ' '.join(map(str, ev[3:])))
        return 'abstract execution did not reach it'

    def events(self, kinds, start=None, end=None):
        a = self.marks[start][0][0] if start else 0
        b = self.marks[end][0][0] if end else None
        return [ev for ev in self.eng.events[a:b] if ev[0] in kinds]


FATAL = ('unresolved_attr', 'unresolved_name', 'bad_args', 'import_unresolved', 'none_attr', 'unbound_local', 'not_callable',
         'unpack_mismatch', 'operand', 'index_range', 'key_missing', 'readonly_attr', 'model_args')
ANCHOR = ('unresolved_attr', 'unresolved_name', 'import_unresolved', 'bad_args')


def _labels(src):
    out = set()
    for n in ast.walk(ast.parse(src)):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('EQ', 'HOLDS') and n.args and isinstance(n.args[0], ast.Constant):
            out.add(n.args[0].value)
    return out


class Check(object):
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.items = []         # (status, label, construct, detail)
        self.funcs = set()
        self.sites = set()
        self.branches = 0
        self.programs = 0
        self.nodes = 0
        self.rules = {}
        self.errors = []
        self.floors = {}

    # ------------------------------------------------------------ recording
    def note_engine(self, eng):
        self.programs += 1
        self.funcs |= {q for q in eng.visited if not _harness_q(q, eng)}
        self.sites |= eng.callsites
        self.branches += len(eng.branches)

    def ok(self, label, rule):
        self.items.append(('ok', label, None, None))
        self.rules[rule] = self.rules.get(rule, 0) + 1

    def undecided(self, label, rule, detail=''):
        self.items.append(('undecided', label, None, detail))
        self.rules[rule] = self.rules.get(rule, 0) + 1

    def violation(self, label, rule, construct, detail):
        self.items.append(('violation', label, construct, detail))
        self.rules[rule] = self.rules.get(rule, 0) + 1

    def expect(self, cond, label, rule, construct, detail):
        if cond:
            self.ok(label, rule)
        else:
            self.violation(label, rule, construct, detail)

    # ------------------------------------------------------------- programs
    def prog(self, name, source, anchors='', soft=False, **config):
        """interpret a specification program and decide its EQ / HOLDS obligations"""
        try:
            p = Prog(self, name, source, **config)
        except (Exception, TimeUp) as e:
            # a construct the interpreter cannot follow: no verdict on this program
            for lab in sorted(_labels(source)) or ['analysis']:
                self.undecided('%s: %s' % (name, lab), 'reaches', 'interpretation stopped: %s %s' % (type(e).__name__, str(e)[:200]))
            return None
        # did the harness itself lose an anchor?
        for ev in p.eng.events:
            if ev[0] in ANCHOR and ev[1][0] == name and not (ev[0] == 'unresolved_attr' and (
                    str(ev[3]).startswith('value') or str(ev[3]).startswith(name + '.'))):
                if soft:
                    for lab in sorted(p.labels) or ['anchor']:
                        self.undecided('%s: %s' % (name, lab), 'reaches', 'internal anchor vanished: %s' % ' '.join(map(str, ev[3:])))
                    return p
                self.errors.append('program %s: public anchor vanished: %s' % (name, ' '.join(map(str, (ev[0],) + ev[1] + ev[3:]))))
                return p
            if ev[0] == 'import_unresolved' and ev[1][0] != name and not str(ev[3]).startswith('pynlo.'):
                pass
        seen = set()
        for o in p.eng.observed:
            if o[0] not in ('eq', 'holds'):
                continue
            seen.add(o[1])
            before = len(self.items)
            try:
                self.decide(p, o, anchors)
            except (Exception, TimeUp) as e:
                del self.items[before:]
                self.undecided('%s: %s' % (name, o[1]), 'reaches', 'comparison stopped: %s %s' % (type(e).__name__, str(e)[:200]))
        missing = p.labels - seen
        if missing:
            why = self.explain_abort(p)
            for m in sorted(missing):
                if why[0]:
                    self.violation('%s: %s' % (name, m), 'reaches', why[1], 'the operation cannot complete: ' + why[2])
                else:
                    self.undecided('%s: %s' % (name, m), 'reaches', why[2])
        elif any(ev[0] in ('module_raises', 'module_aborts') and ev[3] == name for ev in p.eng.events):
            # every obligation was met at least once (in a loop), but the program did not get to its end
            why = self.explain_abort(p)
            if why[0]:
                self.violation(name + ': runs to its end', 'reaches', why[1], 'the operation cannot complete: ' + why[2])
            else:
                self.undecided(name + ': runs to its end', 'reaches', why[2])
        return p

    def explain_abort(self, p):
        for ev in p.eng.events:
            if ev[0] in FATAL and ev[1][0] != p.name:
                return True, '%s:%s' % (ev[1][0], ev[1][1]), '%s %s (line %s), reached through %s' % (
                    ev[0], ' '.join(map(str, ev[3:])), ev[1][2], ' > '.join(ev[2]))
        repo = {str(q).split(':')[-1] for q in p.eng.visited if not _harness_q(q, p.eng)}
        for ev in p.eng.events:
            if ev[0] in FATAL and ev[1][0] == p.name:
                via = [q for q in ev[2] if str(q) in repo]
                return True, via[-1] if via else 'specification program %s' % p.name, '%s %s (line %s of the specification), reached through %s' % (
                    ev[0], ' '.join(map(str, ev[3:])), ev[1][2], ' > '.join(ev[2]))
        r = p.eng.raises_log[-1] if p.eng.raises_log else None
        for ev in p.eng.events:
            if ev[0] == 'module_raises' and ev[3] == p.name:
                lr = getattr(p.eng, 'last_raise', None)
                if lr is not None and lr.site[0] != p.name:
                    return True, '%s:%s' % (lr.site[0], lr.site[1]), 'raises %s unconditionally at line %s' % (p.eng.exc_name(lr.exc), lr.site[2])
                if lr is not None and lr.via and not lr.implicit:
                    return True, '%s:%s' % lr.via[-1], 'what it asks for raises %s (line %s of the specification), reached through %s' % (
                        p.eng.exc_name(lr.exc), lr.site[2], ' > '.join(q for _, q in lr.via))
                return False, None, 'specification program stopped'
        return False, None, 'specification program did not reach this obligation'

    def decide(self, p, o, anchors):
        kind, label, data, pc = o[:4]
        lab = '%s: %s' % (p.name, label)
        if kind == 'holds':
            c = data[0]
            for a, pol in pc:
                c = nf.simplify_under([c], a, pol)[0]
            try:
                q = nf.ind(c)
            except nf.Blowup:
                return self.undecided(lab, 'holds', 'expression too large')
            if q == nf.P1:
                return self.ok(lab, 'holds')
            if q.tainted() or nf.deep_taint(c):
                return self.undecided(lab, 'holds', 'depends on unmodelled operations: ' + show(c, 4))
            return self.violation(lab, 'holds', self.construct(p, [c], anchors), 'condition is not always true: ' + show(c, 5)[:600])
        a, b = data
        for c, pol in pc:
            a, b = nf.simplify_under([a, b], c, pol)
        if nf.has_undef(a):
            return self.violation(lab, 'equal', self.construct(p, [a], anchors), 'value contains uninitialised memory: ' + show(a, 5)[:400])
        v = nf.verdict(a, b)
        if v == 'equal':
            return self.ok(lab, 'equal')
        if v == 'differs?':
            try:
                v = 'undecided' if nf.deep_taint(a) or nf.deep_taint(b) or rint.agree(a, b, pc, samples=4, tries=1500)[0] is not False else 'differs'
            except (nf.Blowup, RecursionError):
                v = 'undecided'
        if v == 'undecided':
            return self.undecided(lab, 'equal', 'observed %s ; specified %s' % (show(a, 4)[:200], show(b, 4)[:200]))
        if self.same_formula(a, b, pc):
            return self.undecided(lab, 'equal', 'normal forms differ but the terms agree at random points: observed %s ; specified %s' % (
                show(a, 4)[:200], show(b, 4)[:200]))
        try:
            sa, sb = (nf.pshow(nf.nf(x)) if nf.isnumeric(x) else show(x, 5) for x in (a, b))
        except nf.Blowup:
            sa, sb = show(a, 5), show(b, 5)
        self.violation(lab, 'equal', self.construct(p, [a], anchors, [b]), 'computed %s ; specified %s' % (sa[:700], sb[:700]))

    def same_formula(self, a, b, pc):
        """the two terms are the same function in every case that random points distinguish, and equal in the cases they never reach"""
        if not (nf.isnumeric(a) and nf.isnumeric(b)):
            return False
        try:
            r, stuck = rint.agree(a, b, pc)
            if not r:
                return False
            for c, val in stuck.items():
                if not any(x.op in ('sym', 'uf', 'rand', 'call', 'iv', 'bv', 'unk', 'mu', 'bool') for x in walk(c[0] if isinstance(c, tuple) else c)):
                    continue        # a comparison of constants has only this outcome
                if isinstance(c, tuple):
                    # an abs, sign, max or min that chose the same way in every sample: take the other choice
                    n, k = c
                    if k in ('max', 'min'):
                        o = n.args[1] if val == (k == 'max') else n.args[0]
                    elif k == 'sign' and n.op == 'el':
                        o = num(-1 if val else 1)
                    else:
                        o = mul(num(-1 if val else 1), n.args[0])
                    x, y = subst(a, {n: o}), subst(b, {n: o})
                else:
                    x, y = nf.simplify_under([a, b], c, not val)
                if nf.verdict(x, y) != 'equal' and rint.agree(x, y, pc)[0] is not True:
                    return False
            return True
        except (nf.Blowup, RecursionError):
            return False

    def construct(self, p, nodes, anchors, minus=()):
        """repository functions that built the offending value, outermost first"""
        skip = set()
        for m in minus:
            skip |= {x.id for x in walk(m)}
        order, seen = [], set()
        q = list(nodes)
        i = 0
        while i < len(q) and i < 4000:
            n = q[i]
            i += 1
            if n.id in seen:
                continue
            seen.add(n.id)
            s = n.site
            if s and s[0].startswith('pynlo') and n.id not in skip:
                c = '%s:%s' % (s[0], s[1])
                if c not in order:
                    order.append(c)
            q.extend(n.args)
        if anchors:
            return anchors if not order else anchors + ' (value built in ' + ', '.join(order[:3]) + ')'
        return ', '.join(order[:3]) or 'specification program %s' % p.name

    # -------------------------------------------------------------- verdict
    def floor(self, n):
        """minimum number of obligations this check must have decided"""
        self.floors['obligations'] = n

    def finish(self):
        known = load_known(self.pid)
        viol, kf = [], []
        for st, label, construct, detail in self.items:
            if st != 'violation':
                continue
            k = next((x for x in known if x['obligation'] == label), None)
            (kf if k else viol).append((label, construct, detail, k))
        n = len(self.items)
        und = [x for x in self.items if x[0] == 'undecided']
        if n and len(und) == n:
            self.errors.append('every obligation is undecided')
        if n < self.floors.get('obligations', 1) and not und:
            self.errors.append('only %d obligations generated, expected at least %d' % (n, self.floors.get('obligations', 1)))
        status = 1 if viol else (2 if self.errors else 0)
        out = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')
        os.makedirs(out, exist_ok=True)
        rep = os.path.join(out, self.pid + '.violations.json')
        ev = {
            'property': self.pid, 'tier': os.environ.get('VERIF_TIER', 'quick') if os.environ.get('VERIF_TIER') in ('quick', 'thorough') else 'quick',
            'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
            'coverage': {
                'obligations': n, 'proved': sum(1 for x in self.items if x[0] == 'ok'), 'undecided': len(und),
                'violations': len(viol), 'known_findings': len(kf),
                'programs': self.programs, 'functions_analysed': len(self.funcs), 'call_sites': len(self.sites),
                'branches': self.branches, 'value_graph_nodes': E.node_count() if hasattr(E, 'node_count') else 0,
                'rules': dict(self.rules),
                'functions': sorted(self.funcs)[:400],
                'obligation_labels': [x[1] for x in self.items][:400],
                'explanation': 'Specification programs over the public API are interpreted abstractly together with the repository source '
                               '(value graph with gated joins, closed-form loops); each obligation compares the normal form of what the '
                               'source computes with an independently written specification, or applies a dataflow rule to the same graph. '
                               'Nothing from the repository is executed. Counts are measured on this run.',
            },
            'wall_s': round(time.time() - self.t0, 3),
            'violations': len(viol),
            'assumptions': ASSUME,
        }
        with open(os.path.join(out, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for label, construct, detail, k in kf:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        for x in und:
            print('undecided: %s: %s' % (x[1], (x[3] or '')[:300]))
        if viol:
            with open(rep, 'w') as f:
                json.dump([{'obligation': l, 'construct': c, 'detail': d} for l, c, d, _ in viol], f, indent=1)
            for l, c, d, _ in viol:
                print('violation: [%s]\n    at %s\n    %s' % (l, c, d[:1500]))
            print('VIOLATION property=%s replay=%s' % (self.pid, rep))
        elif os.path.exists(rep):
            os.unlink(rep)
        for e in self.errors:
            print('ANALYSIS ERROR: ' + e)
        print('%s: %d obligations, %d proved, %d undecided, %d known, %d violations; %d functions, %d call sites; %.1fs' % (
            self.pid, n, sum(1 for x in self.items if x[0] == 'ok'), len(und), len(kf), len(viol), len(self.funcs), len(self.sites),
            time.time() - self.t0))
        return status


ASSUME = ['numpy/scipy/pyfftw/python library functions behave as documented (modelled, not analysed)',
          'real arithmetic: floating-point rounding is not modelled',
          'numeric symbols of kind pos are finite and > 0']


def _harness_q(q, eng):
    return str(q).split(':')[0] in eng.sources


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [x for x in json.load(open(p)).get('findings', []) if x['property'] == pid]

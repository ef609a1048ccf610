#!/usr/bin/env python3
"""Development tool: writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PB = 'src/pynlo/light/PulseBase.py'
DP = 'src/pynlo/light/DerivedPulses.py'
FFT = 'src/pynlo/util/pynlo_ffts.py'
FIB = 'src/pynlo/media/fibers/fiber.py'
JFL = 'src/pynlo/media/fibers/JSONFiberLoader.py'
CAL = 'src/pynlo/media/fibers/calculators.py'
XB = 'src/pynlo/media/crystals/CrystalContainer.py'
PPLN = 'src/pynlo/media/crystals/XTAL_PPLN.py'
AGGS = 'src/pynlo/media/crystals/XTAL_AgGaS.py'
AGGSE = 'src/pynlo/media/crystals/XTAL_AgGaSe2.py'
SSFM = 'src/pynlo/interactions/FourWaveMixing/SSFM.py'
DFG = 'src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py'
FLD = 'src/pynlo/interactions/ThreeWaveMixing/'
BEAM = 'src/pynlo/light/beam.py'
HV = 'src/pynlo/light/high_V_waveguide.py'
TC = 'src/pynlo/devices/grating_compressor.py'
ODE = 'src/pynlo/util/ode_solve/'
RW = 'src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py'
TECH = ('abstract interpretation of the source to a gated value graph, global value numbering against an independently '
        'written specification program')
NOTE = ('Sound for every symbolic input of the listed operation sequences, up to the models of numpy/scipy calls and real (not '
        'floating-point) arithmetic; an obligation the normal forms cannot settle is reported as undecided and raises no alarm.')

P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, technique=TECH, level='other', note=NOTE, na=None):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech], 'observe_at': observe, 'hook_needed': None}}
    if state:
        d['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in state]
    P.append((d, technique, level, note, na))

exec(open(os.path.join(V, 'tools', 'table.py')).read())

P.sort(key=lambda r: r[0]['id'])
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for d, *_ in P:
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
m = {'version': 1, 'setup_cmd': '/usr/local/bin/python3 -B setup_check.py',
     'checks': [{'property': d['id'], 'quick_cmd': '/usr/local/bin/python3 -B run.py ' + d['id'], 'technique': t, 'level': l, 'level_note': n,
                 'evidence_file': 'evidence/%s.json' % d['id'],
                 'thorough_cmd': '/usr/local/bin/python3 -B run.py ' + d['id']} for d, t, l, n, na in P if not na],
     'not_applicable': [{'property': d['id'], 'reason': na} for d, t, l, n, na in P if na],
     'notes': 'Source analysis only (Python standard library, no solver). A disagreement between two extracted formulas is re-evaluated at random points before it is reported, which can only withdraw an alarm; nothing from /repo is imported or executed by any check.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties,', len(m['checks']), 'claimed')

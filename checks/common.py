"""Shared preludes of specification programs (interpreted abstractly, never run)."""

PULSE = '''
import numpy as np
from pynlo.light.PulseBase import Pulse
M = SYM('M', 0, 'posint')
Tw = SYM('Tw', 0, 'pos')
wl = SYM('wl', 0, 'pos')
def mk(N, Tw, wl, A, fr=None):
    p = Pulse(frep_MHz=fr) if fr is not None else Pulse()
    p.set_NPTS(N)
    p.set_time_window_ps(Tw)
    p.set_center_wavelength_nm(wl)
    if A is not None:
        p.set_AW(A)
    return p
N = 2*M
A = SYM('A', 1, 'cplx', N)
fr = SYM('fr', 0, 'pos')
c = 299792458.0
'''

PULSE_READS = ['NPTS', 'time_window_ps', 'center_wavelength_nm', 'frep_MHz', 'AW', 'AT', 'T_ps', 'W_mks', 'wl_nm', 'W_THz']
FIBER_READS = ['@.length', '@.get_gamma()', '@.get_gain(p)', '@.get_betas(p)', '@.fibertype']
# arguments accepted by the constructors' "not mks" assertions
CW_GOOD = '''
wb = SYM('wb', 0, 'real')**2 + 2
Tb = SYM('Tb', 0, 'real')**2 + 2
'''


def text_files():
    """stand-ins for the text-file functions: what is written to a name is what is read from it; other files are unknown real tables"""
    from sa.core import mk
    from sa import models
    store = {}

    def save(eng, args, kw, st, fr):
        eng.event('effect', 'file', 'numpy.savetxt')
        name, x = (eng.node(a, st) for a in args[:2])
        store[name.id] = (x, {k: eng.node(v, st).id for k, v in kw.items() if k in ('delimiter',)})
        return models.NONE

    def load(eng, args, kw, st, fr):
        eng.event('effect', 'file-read', 'numpy.genfromtxt')
        name = eng.node(args[0], st)
        opts = {k: eng.node(v, st).id for k, v in kw.items() if k in ('delimiter',)}
        skip = []
        for k in kw:
            n = eng.node(kw[k], st)
            if k in ('skiprows', 'skip_header'):
                if n.op != 'num' or n.attr[0] != 0:
                    skip.append('skip=%d' % n.id)
            elif k == 'dtype' and getattr(kw[k], 'name', '') == 'builtins.float':
                pass
            elif k not in ('delimiter', 'unpack'):
                skip.append('%s=%d' % (k, n.id))
        if name.id in store and store[name.id][1] == opts and not skip:
            x = store[name.id][0]
        else:
            x = mk('sym', attr=('file%d.%s' % (name.id, ','.join(sorted(skip) + ['%s=%d' % q for q in sorted(opts.items())])), 2, 'real'))
        up = kw.get('unpack')
        return eng.wrap(st, mk('transpose', x) if up is not None and eng.node(up, st).op == 'bool' and eng.node(up, st).attr else x)
    return {'numpy.savetxt': save, 'numpy.genfromtxt': load, 'numpy.loadtxt': load}

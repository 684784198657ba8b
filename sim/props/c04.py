"""Every time step respects the CFL condition and is as large as it can be."""
import numpy as np

from .. import decks, timing
from ..common import *
from .c03 import shrinks, REAL, STUB, gen as gen03

ID = 'C04'
QUICK = (2400, 40)
THOROUGH = (60000, 800)
RULE = ('the scripted and real histories of C03; every time step is compared with the step the CFL condition allows '
        'for the state it starts from and with the distance to the next output; a run whose allowed step collapses must end '
        'with an error.')
MEASURE = 'distinct sequences of step classes (full step / cut by an output / zero)'


def gen(rng):
    s = gen03(rng)
    while s['kind'] == 'main':
        s = gen03(rng)
    if rng.random() < 0.06:
        return collapse(rng, s)
    return s


def collapse(rng, s):
    """The signal speed grows beyond all bounds, or the deck asks for next to no progress."""
    d = s['deck']
    s.pop('via', None)
    if s['kind'] == 'script' and len(decks.fields(d)) == 3:
        k = rng.choice([1, 2, 5])
        base = s['speeds'][0]
        s['speeds'] = [base] * k
        s['then'] = base * 10.0 ** rng.choice([20, 24, 30])
        d['T'] = d['cfl'] * timing.size(s) / decks.cells(d) / (base * (2 * d['order'] + 1)) * (k + rng.uniform(1, 20))
        s['start'] = [0, d['T'] * rng.choice([0.0, 0.0, 0.3, 2.0])]
        d['nout'] = rng.choice([2, 3])
        s['steps'] = k
    else:
        d['cfl'] *= 10.0 ** -rng.choice([22, 25, 40])
        s['steps'] = 0
    s['collapse'] = True
    return s


def run(s, ctx):
    d = s['deck']
    L = timing.observe(s, ctx)
    if s.get('collapse'):
        ctx.count('time step collapsed')
        if L.status == 'livelock':
            raise Violation('stuck', 'the run of %r goes on without progress: %s' % (d, L.exc))
        if L.ok:
            raise Violation('jump', 'the run of %r reports success, which takes more steps than it made' % d)
        ctx.sig('collapse', s['kind'], s['steps'])
        return
    if L.status == 'livelock':
        raise Violation('stuck', 'the run makes no progress: %s' % L.exc)
    if L.status != 'exit':
        raise Inconclusive(L.brief())
    if L.code != 0:
        if s['kind'] == 'script':
            raise Violation('failed', 'the integration of %r failed: %s' % (s, L.exc))
        raise Inconclusive(L.brief())
    rec, snaps, bad, dx, n, t = L.rec
    dx0 = timing.size(s) / decks.cells(d)
    if not abs(dx - dx0) <= 1e-12 * dx0:
        raise Violation('dx', 'cell size %r instead of %r' % (dx, dx0))
    times = np.linspace(L.t0, L.tf, d['nout'])
    eps = 1e-13 * max(abs(L.tf), abs(L.t0)) + 1e-12 * d['T']
    classes = []
    for (n1, t1, v, *_), (n2, t2, *_2) in zip(rec, rec[1:]):
        dt = t2 - t1
        allowed = dx0 * d['cfl'] / (v * (2 * d['order'] + 1))
        if n2 != n1 + 1:
            raise Violation('count', 'step number goes from %d to %d' % (n1, n2))
        if dt < -eps:
            raise Violation('backwards', 'time goes from %r to %r' % (t1, t2))
        if dt > allowed * (1 + 1e-9) + eps:
            raise Violation('cfl', 'step %d from t=%r takes dt=%r, the CFL condition allows %r (wave speed %r)'
                            % (n1, t1, dt, allowed, v))
        later = times[times > t1 + eps]
        room = (later[0] - t1) if len(later) else 0.0
        best = min(allowed, room)
        if dt < best * (1 - 1e-9) - eps:
            # a first arrival exactly at an output may be followed by a step of length zero
            at_output = np.any(np.abs(times - t1) <= eps) and abs(dt) <= eps
            if not at_output:
                raise Violation('small-step', 'step %d from t=%r takes dt=%r although %r is allowed and the next '
                                'output is %r away' % (n1, t1, dt, allowed, room))
        classes.append('z' if abs(dt) <= eps else 'f' if dt > allowed * (1 - 1e-9) - eps else 'c')
    ctx.count('steps', len(rec) - 1)
    for c, name in (('f', 'full'), ('c', 'cut'), ('z', 'zero')):
        ctx.count('probe %s steps' % name, classes.count(c))
    ctx.sig(''.join(classes))

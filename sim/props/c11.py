"""A uniform flow stays uniform."""
import numpy as np

from .. import decks, history
from ..common import *

ID = 'C11'
QUICK = (800, 45)
THOROUGH = (20000, 800)
RULE = ('uniform states (sub- and supersonic, both directions, at rest, light and heavy gases) in every combination of '
        'scheme, Riemann solver, order, limiter, sensors, enhancement and boundary condition, through histories of '
        'integrations, reloads, copies and crashes; checked at every step and snapshot.')
MEASURE = 'distinct (deck family, state, history shape)'


def gen(rng):
    d = decks.gen(rng, steps=(2, 12), cells_range=(2, 12), nouts=(2,), limit=0.6, orders=(0, 1, 2, 2, 3, 4, 5),
                  systems=('advection', 'euler', 'euler', 'euler'))
    if rng.random() < 0.4:
        # (the schemes with many stages amplify rounding errors at larger steps)
        d['cfl'] = rng.choice([0.1, 0.6]) if d['rk'] not in ('rk10', 'rk12', 'rk14') and d['order'] <= 5 else 0.1
    if d['system'] == 'euler':
        state = [10.0 ** rng.uniform(-2, 2), rng.choice([0.0, 1.0, -1.0, 3.5, -7.0, rng.uniform(-2, 2)]),
                 10.0 ** rng.uniform(-2, 2)]
        c = np.sqrt(decks.gamma(d) * state[2] / state[0])
        if rng.random() < 0.5:
            state[1] *= float(c)
        v = abs(state[1]) + float(c)
    else:
        state = [rng.choice([0.0, 1.0, -3.0, rng.uniform(-5, 5), 1e6])]
        v = 1.0
    d['T'] = d['cfl'] * decks.length(d) / decks.cells(d) / (v * (2 * d['order'] + 1)) * rng.uniform(2, 10)
    s = {'deck': d, 'init': [{'kind': 'uniform', 'state': state}], 'speed': v}
    s['segs'], s['crashes'] = history.gen_segs(rng, d, most=3, crash=0.2)
    s['origin'] = history.gen_origin(rng)
    return s


def run(s, ctx):
    d = s['deck']
    nf = len(decks.fields(d))
    f = history.modify(s['init'], d)
    want = f(np.zeros((nf, decks.cells(d), d['order'] + 1)))
    scale = np.maximum(np.max(np.abs(want), axis=(1, 2)), 1e-3 * np.max(np.abs(want)))
    scale = np.maximum(scale, 1e-12)
    if nf == 3:
        # momentum and its flux noise scale with the pressure and the energy
        scale[1] = max(scale[1], scale[2] / s['speed'])

    def observers(sol, dd, w):
        def on_step(q):
            dev = np.max(np.abs(interior(q.u, nf) - want), axis=(1, 2)) / scale
            w.notes.append((q.n - s['origin'][0], float(q.t), float(np.max(dev))))
        return on_step, None
    tr = history.play(s, ctx, observers)
    if tr.failed is not None:
        if tr.failed.status == 'exit':
            raise Violation('failed', 'uniform flow %r, deck %r: %s' % (s['init'][-1:], d, tr.failed.brief()))
        raise Inconclusive(tr.failed.brief())
    ctx.count('steps checked', len(tr.notes))
    ctx.sig(d['system'], d['rk'], d['order'], d.get('riemann'), d.get('limiting'), d.get('enhance'), d['ic'].split()[0],
            [g['how'] for g in s['segs']])
    worst = 0.0
    for n, t, dev in tr.notes:
        worst = max(worst, dev if dev == dev else float('inf'))
        if not dev <= 1e-11 * (5 + n):
            raise Violation('disturbed', 'the uniform flow %r of deck %r deviates by %.3g at step %d (t=%r)'
                            % (s['init'][-1]['state'], d, dev, n, t))
    for i, snaps in enumerate(tr.segs):
        for sn in snaps:
            dev = float(np.max(np.max(np.abs(sn['U'] - want), axis=(1, 2)) / scale))
            if not dev <= 1e-11 * (5 + sn['n']):
                raise Violation('disturbed', 'a snapshot of the uniform flow of deck %r deviates by %.3g' % (d, dev))


def valid(s):
    return bool(s.get('init')) and bool(s.get('segs'))


shrinks = history.shrinks

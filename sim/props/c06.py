"""A run resumed from a snapshot continues the run that wrote it."""
import os
import numpy as np

from .. import decks, history
from ..common import *
from ..engine import put
from .c12 import compare, scales

ID = 'C06'
QUICK = (900, 50)
THOROUGH = (20000, 800)
RULE = ('a generated deck advanced through several integrations once in one undisturbed process and once with reloads '
        'in fresh processes, copies, crashes at arbitrary I/O events and resumption from the last whole snapshot, with '
        'short reads and writes; each continued solution must start exactly from its snapshot, and all snapshots and step counts must agree.')
MEASURE = 'distinct event logs of interrupted histories'
ASSUME = ['agreement to 1e-9 of the field scale (the mesh spacing is recomputed on loading, so the last bits may differ)',
          'cases where the undisturbed run itself changes by more when its data are perturbed by 1e-13 are not decided']


def gen(rng):
    d = decks.gen(rng, steps=(2, 10), cells_range=(3, 14), orders=(0, 1, 1, 2, 2, 3, 4), nouts=(2,),
                  dyadic=rng.random() < 0.4, inits=True)
    s = {'deck': d, 'init': []}
    while True:
        s['segs'], s['crashes'] = history.gen_segs(rng, d, most=5, crash=0.5)
        if s['crashes'] or any(g['how'] in ('reload', 'copy') for g in s['segs']):
            break
    if rng.random() < 0.3:
        s['init'] = [{'kind': 'noise', 'seed': rng.randrange(1 << 30), 'amp': rng.choice([0.01, 0.1])}]
    if rng.random() < 0.4:
        s['io'] = io_shape(rng)
    s['origin'] = history.gen_origin(rng)
    return s


def straight(s, ctx, extra=None):
    t = dict(s)
    if extra:
        t['init'] = list(s.get('init') or []) + extra
    tr = history.play(t, ctx, straight=True)
    if tr.failed is not None:
        raise Inconclusive('the undisturbed run does not complete: %s' % tr.failed.brief())
    return [[(x['n'], x['t'], x['U'], None) for x in seg] for seg in tr.segs]


def run(s, ctx):
    d = s['deck']
    ref = straight(s, ctx)
    tr = history.play(s, ctx)
    if tr.failed is not None:
        L = tr.failed
        if L.status == 'exit':
            raise Violation('failed', 'the interrupted history of %r fails: %s' % (d, L.brief()))
        raise Inconclusive(L.brief())
    for p, k, q in tr.joins:
        for f in decks.fields(d):
            a, b = decks.slurp(os.path.join(p, decks.fname(f, k))), decks.slurp(os.path.join(q, decks.fname(f, 0)))
            if a != b:
                raise Violation('join', '%r: a solution continued from a snapshot starts from something else: %s' % (
                    d, diff_files({f: a}, {f: b})))
        ctx.count('continuations compared')
    worst, text = compare(s, tr, ref, 0)
    ctx.count('snapshots compared', sum(len(x) for x in tr.segs))
    ctx.sig([L.log_digest for L in tr.lives])
    if worst > 1e-9:
        spread = 0.0
        for k in range(4):
            other = straight(s, ctx, [{'kind': 'noise', 'seed': k, 'amp': 1e-13}])
            for a, b in zip(ref, other):
                for x, y in zip(a, b):
                    spread = max(spread, float(np.max(np.abs(x[2] - y[2]) / scales(x[2], d))))
        if worst > max(1e-9, 1000 * spread):
            raise Violation('trajectory', '%r: relative difference %.3g; %s (undisturbed run)' % (d, worst, text))
        raise Inconclusive('ill-conditioned: difference %.3g, spread %.3g' % (worst, spread))
    for i, (snaps, row) in enumerate(zip(tr.segs, ref)):
        for k, (a, b) in enumerate(zip(snaps, row)):
            if not abs(a['t'] - b[1]) <= 1e-9 * max(1.0, abs(b[1])):
                raise Violation('time', 'segment %d output %d is at t=%r instead of %r' % (i, k, a['t'], b[1]))
            if abs(a['n'] - b[0]) > sum(1 for g in s['segs']) * 8 + 4 or (i == 0 and k == 0 and a['n'] != b[0]):
                raise Violation('count', 'segment %d output %d is step %d instead of %d' % (i, k, a['n'], b[0]))


shrinks = history.shrinks

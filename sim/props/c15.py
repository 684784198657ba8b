"""No place and no direction is special."""
import numpy as np

from .. import decks, history
from ..common import *
from ..engine import put
from .c12 import compare

ID = 'C15'
QUICK = (700, 50)
THOROUGH = (16000, 800)
RULE = ('a periodic run whose initial data are shifted by some cells must give the shifted result; an Euler run whose '
        'data are mirrored must give the mirrored result (also on open domains); generated decks with limiter, '
        'sensors, enhancement, disturbed data, through histories of integrations, reloads, copies, crashes.')
MEASURE = 'distinct (deck family, symmetry, history shape)'
ASSUME = ['agreement to 1e-9 of the field scale; cases where perturbing the data by 1e-13 changes the result by more '
          'are not decided']


def gen(rng):
    kind = rng.choice(['shift', 'shift', 'mirror'])
    ics = ['sinewave', 'ictest', 'entrpyw', 'acsticw'] if kind == 'shift' else None
    d = decks.gen(rng, steps=(2, 10), cells_range=(2, 12), nouts=(2,), limit=0.6, enhance=0.4,
                  ics=ics, systems=('advection', 'euler', 'euler') if kind == 'shift' else ('euler',), inits=True)
    if kind == 'mirror' and d['ic'].startswith('shuoshe'):
        d['ic'] = 'entrpyw %d' % decks.cells(d)
        d.pop('units', None)
        d['T'] = decks.dt0(d) * rng.uniform(2, 8)
    if d.get('riemann') == 'godunov' and kind == 'mirror':
        d['riemann'] = rng.choice(['roe', 'rusanov'])
    if kind == 'mirror' and d.get('thresholds'):
        # the published shock criterion looks at one family of waves only: leave the decision to the contact sensor
        d['thresholds'] = rng.choice([[-1.0, 0.05], [d['thresholds'][0], 0.9], [d['thresholds'][0], 0.9]])
    s = {'kind': kind, 'deck': d, 'init': []}
    s['init'].append({'kind': 'noise', 'seed': rng.randrange(1 << 30), 'amp': rng.choice([0.02, 0.1, 0.2])})
    s['by'] = rng.randrange(1, decks.cells(d)) if kind == 'shift' else 0
    s['segs'], s['crashes'] = history.gen_segs(rng, d, most=3, crash=0.2)
    s['origin'] = history.gen_origin(rng)
    return s


def run(s, ctx):
    d = s['deck']
    op = {'kind': 'roll', 'cells': s['by']} if s['kind'] == 'shift' else {'kind': 'mirror'}
    t = history.modify([op], d, units=False)
    plain = history.play(s, ctx)
    if plain.failed is not None:
        raise Inconclusive(plain.failed.brief())
    other = dict(s)
    other['init'] = list(s.get('init') or []) + [op]
    moved = history.play(other, ctx)
    ctx.sig(s['kind'], d['system'], d['rk'], d['order'], d.get('riemann'), d.get('limiting'), d.get('enhance'),
            [g['how'] for g in s['segs']])
    ctx.count(s['kind'] + ' histories')
    if moved.failed is not None:
        if spread(s, ctx, plain) < 1e-9:
            raise Violation('failed', 'deck %r: the %sed run fails: %s' % (d, s['kind'], moved.failed.brief()))
        raise Inconclusive('ill-conditioned')
    ref = [[(x['n'], x['t'], t(x['U']), None) for x in seg] for seg in plain.segs]
    worst, text = compare(s, moved, ref, 0)
    if worst > 1e-9:
        sp = spread(s, ctx, plain)
        if worst > max(1e-9, 1000 * sp):
            raise Violation(s['kind'], '%r (%s by %s): relative difference %.3g; %s' % (d, s['kind'], s['by'], worst, text))
        raise Inconclusive('ill-conditioned: difference %.3g, spread %.3g' % (worst, sp))


def spread(s, ctx, plain):
    out = 0.0
    for k in range(4):
        p = dict(s)
        p['init'] = list(s.get('init') or []) + [{'kind': 'noise', 'seed': k, 'amp': 1e-13}]
        tr = history.play(p, ctx, forbid_crash=True)
        if tr.failed is not None:
            return float('inf')
        ref = [[(x['n'], x['t'], x['U'], None) for x in seg] for seg in plain.segs]
        out = max(out, compare(s, tr, ref, 0)[0])
    return out


def valid(s):
    # keep the data generic: exact ties are no statement about symmetry
    return bool(s.get('init')) and bool(s.get('segs')) and \
        sum(g['T'] for g in s['segs']) > 0.05 * decks.dt0(s['deck'])


def shrinks(s):
    yield from history.shrinks(s)
    if s['by'] > 1:
        yield put(s, ('by',), 1)

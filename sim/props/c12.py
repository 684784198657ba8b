"""The trajectory is that of the scheme, whatever the history of outputs, restarts and crashes."""
import numpy as np

from .. import decks, history, refmodel
from ..common import *
from ..engine import put

ID = 'C12'
QUICK = (640, 60)
THOROUGH = (20000, 800)
RULE = ('generated decks (both systems, all schemes, Riemann solvers, limiter, sensors, enhancement, orders 0-5) with '
        'original or disturbed initial data, run through a history of integrations, reloads in new processes, '
        'in-memory continuations, copies, crashes and resumptions; every snapshot is compared with an independent '
        'implementation of the discretisation.')
MEASURE = 'distinct (deck family, history shape, number of steps)'
ASSUME = ['rounding: comparison to 1e-8 of the field scale (godunov: 1e-5, its iteration tolerance is 1e-6)',
          'cases where perturbations of 1e-13 in the model itself change the result by more than the tolerance are '
          'not decided']


def gen(rng):
    rk = rng.choice(['rk3', 'rk4', 'rk5', 'rk6', 'low_storage_rk4', '', 'rk3', 'rk8', 'rk10', 'rk12', 'rk14'])
    slow = rk in ('rk8', 'rk10', 'rk12', 'rk14')
    d = decks.gen(rng, steps=(1, 2.5) if slow else (1, 6), cells_range=(3, 8) if slow else (3, 14), rks=[rk], orders=(0, 1, 1, 2, 2, 3, 4, 5), nouts=(2,), inits=True)
    s = {'deck': d, 'init': []}
    s['segs'], s['crashes'] = history.gen_segs(rng, d, most=3)
    if rng.random() < 0.4:
        s['init'] = [{'kind': 'noise', 'seed': rng.randrange(1 << 30), 'amp': rng.choice([0.01, 0.05, 0.1])}]
    if rng.random() < 0.3:
        s['io'] = io_shape(rng)
    s['origin'] = history.gen_origin(rng)
    return s


def reference(s, k=0, per=0.0):
    """Snapshots of the model: [[(n, t, U, flags)]]; raises Inconclusive if it breaks down."""
    d = s['deck']
    f = history.modify(s.get('init'), d)

    def mod(U):
        if f is not None:
            U = f(U)
        if k:
            g = np.random.RandomState(k)
            U = U * (1 + per * g.uniform(-1, 1, U.shape)) + 0.1 * per * g.uniform(-1, 1, U.shape) * decks.unit(d)
        return U
    try:
        r = refmodel.Ref(d, modify=mod, node_shift=per * (k % 3 - 1) if k else 0.0)
        out = []
        t = 0.0
        for g in s['segs']:
            end = t + g['T']
            times = np.linspace(t, end, g['nout'])
            row = [(r.n, r.t, r.U.copy(), r.flags.copy())]
            for _ in r.advance(times[1:]):
                row.append((r.n, r.t, r.U.copy(), r.flags.copy()))
            out.append(row)
            t = end
        return out, r
    except (refmodel.NoConvergence, ValueError, ZeroDivisionError, OverflowError, TypeError, FloatingPointError) as e:
        raise Inconclusive('the model breaks down: %r' % (e,))


def scales(U, d):
    """The size of the fields, for relative differences."""
    u = decks.unit(d)
    m = np.max(np.abs(U / u), axis=(1, 2))
    return np.maximum(np.maximum(m, 1e-2 * np.max(m)), 1e-12)[:, None, None] * u


def compare(s, tr, ref, tol):
    """(worst error, description) over all snapshots."""
    d = s['deck']
    worst, text = 0.0, ''
    for i, (snaps, row) in enumerate(zip(tr.segs, ref)):
        for k, (sn, (n, t, U, flags)) in enumerate(zip(snaps, row)):
            scale = scales(U, d)
            if sn['U'].shape != U.shape:
                return float('inf'), 'snapshot of shape %r instead of %r' % (sn['U'].shape, U.shape)
            err = np.abs(sn['U'] - U) / scale
            e = float(np.max(err))
            if not e <= worst:
                at = np.unravel_index(np.argmax(err), err.shape)
                worst = e if e == e else float('inf')
                text = 'segment %d output %d (n=%d, t=%.6g): %s, cell %d, mode %d is %r instead of %r' % (
                    i, k, sn['n'], sn['t'], decks.fields(d)[at[0]], at[1], at[2],
                    float(sn['U'][at]), float(U[at]))
    return worst, text


def run(s, ctx):
    d = s['deck']
    ref, model = reference(s)
    tr = history.play(s, ctx)
    if tr.failed is not None:
        L = tr.failed
        if L.status == 'exit':
            spread_guard(s, ref)
            raise Violation('failed', 'the run of %r fails: %s' % (d, L.brief()))
        raise Inconclusive(L.brief())
    tol = 1e-5 if d.get('riemann') == 'godunov' and d['system'] == 'euler' else 1e-8
    worst, text = compare(s, tr, ref, tol)
    ctx.count('snapshots compared', sum(len(x) for x in tr.segs))
    ctx.sig(d['system'], d['rk'], d['order'], d.get('riemann'), d.get('limiting'), d.get('enhance'), d['ic'].split()[0],
            [g['how'] for g in s['segs']], model.n)
    ctx.count('ic ' + d['ic'].split()[0])
    ctx.count('rk ' + (d['rk'] or 'default'))
    if d.get('limiting'):
        ctx.count('limited runs')
    if d.get('enhance'):
        ctx.count('enhanced runs')
    if worst > tol:
        spread = spread_guard(s, ref)
        if worst > max(tol, 1000 * spread):
            raise Violation('trajectory', '%r: error %.3g; %s' % (d, worst, text))
        raise Inconclusive('ill-conditioned: difference %.3g, spread of the model %.3g' % (worst, spread))
    for i, (snaps, row) in enumerate(zip(tr.segs, ref)):
        x = np.linspace(*bounds(d), decks.cells(d) + 1)
        xc = 0.5 * (x[1:] + x[:-1])
        for k, (sn, (n, t, U, flags)) in enumerate(zip(snaps, row)):
            if not np.max(np.abs(sn['xc'] - xc)) <= 1e-11 * np.max(np.abs(x)):
                raise Violation('mesh', 'segment %d output %d: cell centers are off' % (i, k))
            if not abs(sn['t'] - t) <= 1e-9 * max(1.0, abs(t)):
                raise Violation('time', 'segment %d output %d is at t=%r instead of %r' % (i, k, sn['t'], t))


def spread_guard(s, ref):
    """How far the model itself spreads under perturbations of rounding size."""
    spread = 0.0
    for k in range(1, 4):
        other, _ = reference(s, k, 1e-13)
        for a, b in zip(ref, other):
            for x, y in zip(a, b):
                U, V = x[2], y[2]
                spread = max(spread, float(np.max(np.abs(U - V) / scales(U, s['deck']))))
    return spread


def bounds(d):
    L = decks.length(d)
    return {8.0: (-4.0, 4.0), 10.0: (0.0, 10.0)}.get(L, (-1.0, 1.0))


shrinks = history.shrinks

"""What is conserved stays conserved over every history."""
import numpy as np

from .. import decks, history
from ..common import *
from ..engine import put

ID = 'C10'
QUICK = (900, 50)
THOROUGH = (20000, 800)
RULE = ('generated decks with original or strongly disturbed data on periodic domains (all schemes, limiter, '
        'enhancement) and wave-free ends on open domains, through histories of integrations, reloads, copies, crashes; '
        'the integrals of all conserved fields are checked at every step, stage and snapshot.')
MEASURE = 'distinct (deck family, history shape, number of steps)'


def gen(rng):
    kind = rng.choice(['periodic', 'periodic', 'periodic', 'open'])
    if kind == 'periodic':
        d = decks.gen(rng, steps=(2, 12), cells_range=(2, 14), nouts=(2,), ics=['sinewave', 'ictest', 'entrpyw', 'acsticw'],
                      limit=0.6, orders=(0, 1, 1, 2, 2, 3, 4, 5), inits=True, units=0.25)
        s = {'kind': kind, 'deck': d, 'init': [{'kind': 'noise', 'seed': rng.randrange(1 << 30),
                                                'amp': rng.choice([0.0, 0.02, 0.1, 0.25])}]}
    else:
        d = decks.gen(rng, steps=(0.5, 2.9), cells_range=(96, 120), nouts=(2,), systems=('euler',),
                      ics=['scktube', 'simplew'], limit=0.5, orders=(0, 1, 1, 2, 3), rks=['rk3', 'rk4', 'low_storage_rk4'], wide=0)
        w = d['ic'].split()
        if w[0] == 'scktube':
            w[2] = repr(round(0.3 * float(w[2]), 3))
            d['ic'] = ' '.join(w)
        s = {'kind': kind, 'deck': d, 'init': []}
    s['segs'], s['crashes'] = history.gen_segs(rng, d, most=4 if kind == 'periodic' else 2,
                                               crash=0.3 if kind == 'periodic' else 0.1)
    if kind == 'open':
        for g in s['segs']:
            g['nout'] = 2
    s['origin'] = history.gen_origin(rng)
    return s


def totals(U, dx):
    return [float(dx * np.sum(U[k, :, 0])) for k in range(U.shape[0])]


def run(s, ctx):
    d = s['deck']
    nf = len(decks.fields(d))
    dx = decks.length(d) / decks.cells(d)
    periodic = s['kind'] == 'periodic'
    one = decks.unit(d)

    def observers(sol, dd, w):
        def on_step(q):
            U = interior(q.u, nf) / one
            w.notes.append(('step', q.n, float(q.t), totals(U, dx), float(np.max(np.abs(U))),
                            U[:, 0].tolist(), U[:, -1].tolist()))

        def on_stage(obs, q, r):
            R = interior(r, nf) / one
            tot = np.abs(np.sum(R[:, :, 0], axis=1))
            if periodic and np.all(np.isfinite(R)):
                size = float(np.max(np.abs(R))) * R.shape[1] + 1e-3
                if np.max(tot) > 1e-11 * size:
                    w.notes.append(('stage', q.n, float(np.max(tot)), size))
        return on_step, on_stage
    tr = history.play(s, ctx, observers)
    if tr.failed is not None:
        raise Inconclusive(tr.failed.brief())
    steps = [x for x in tr.notes if x[0] == 'step']
    stages = [x for x in tr.notes if x[0] == 'stage']
    first = steps[0]
    nmax = max(x[1] for x in steps) - first[1] + 1
    scale = max(x[4] for x in steps)
    ctx.count('steps checked', len(steps))
    ctx.sig(d['system'], d['rk'], d['order'], d.get('riemann'), d.get('limiting'), d.get('enhance'), s['kind'],
            [g['how'] for g in s['segs']], nmax)
    if not np.isfinite(scale) or scale > 1e6:
        raise Inconclusive('unstable run')
    tol = 1e-12 * scale * decks.length(d) * (10 + nmax)
    if stages:
        st = stages[0]
        raise Violation('stage', 'the increments of a stage of %r (step %d) do not sum to zero: %.3g of %.3g'
                        % (d, st[1], st[2], st[3]))
    if periodic:
        for x in steps:
            for k, (a, b) in enumerate(zip(x[3], first[3])):
                if not abs(a - b) <= tol:
                    raise Violation('drift', 'total %s of %r goes from %r to %r by step %d (t=%r)'
                                    % (decks.fields(d)[k], d, b, a, x[1], x[2]))
        for i, snaps in enumerate(tr.segs):
            for sn in snaps:
                for k, (a, b) in enumerate(zip(totals(sn['U'] / one, dx), first[3])):
                    if not abs(a - b) <= tol:
                        raise Violation('drift', 'total %s in a snapshot of segment %d of %r is %r instead of %r'
                                        % (decks.fields(d)[k], i, d, a, b))
        return
    g = decks.gamma(d)
    # information travels by one cell per stage, by one more where a limiter looks at the neighbors
    reach = (2 if d.get('limiting') else 1) * decks.RKS[d['rk']] * (nmax - 1) + 2
    if reach > int(0.34 * decks.cells(d)):
        raise Inconclusive('waves may reach the boundary')

    def flux(U):
        rho, m, E = (c[0] for c in U)
        v = m / rho
        p = (g - 1) * (E - 0.5 * m * v)
        return [m, m * v + p, (E + p) * v]
    fl, fr = flux(first[5]), flux(first[6])
    ctx.count('open histories decided')
    for x in steps:
        for k, (a, b) in enumerate(zip(x[3], first[3])):
            want = b + (x[2] - first[2]) * (d['units'][1] if d.get('units') else 1.0) * (fl[k] - fr[k])
            if not abs(a - want) <= tol + 1e-12 * (abs(fl[k]) + abs(fr[k])):
                raise Violation('balance', 'total %s of %r is %r at t=%r, the flow through the ends gives %r'
                                % (decks.fields(d)[k], d, a, x[2], want))


shrinks = history.shrinks

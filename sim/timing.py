"""Shared by C03 and C04: runs with arbitrary histories of the time step."""
import math
import os
import numpy as np

from . import decks, life, watch
from .common import *


def gen(rng):
    kind = rng.choice(['script', 'script', 'script', 'script', 'ties', 'real', 'main'])
    if kind in ('real', 'main'):
        d = decks.gen(rng, steps=(1, 12), cells_range=(3, 12), nouts=(2, 3, 4, 7, 12))
        if rng.random() < 0.2:
            d['cfl'] = rng.choice([0.5, 0.6, 0.75, 0.9, 1.0])
        s = {'kind': kind, 'deck': d}
        if kind == 'real':
            s['start'] = start(rng, d)
            via(rng, s)
        return s
    rk = rng.choice(['rk3', 'rk4', 'rk4', 'low_storage_rk4', 'low_storage_rk4', 'rk5', 'rk6', 'rk8', 'rk14', ''])
    if kind == 'ties':
        n = rng.choice([2, 4, 8, 16])
        d = {'system': 'advection', 'rk': rk, 'ic': 'sinewave %d' % n, 'order': rng.choice([0, 0, 1, 2]),
             'cfl': rng.choice([0.5, 0.25, 0.125, 1.0]), 'nout': rng.choice([2, 3, 5, 9])}
        dt = 2.0 / n * d['cfl'] / (2 * d['order'] + 1)
        per = rng.choice([0.5, 1, 1, 2, 3, 0.25, 0.1])
        d['T'] = dt * per * (d['nout'] - 1)
        s = {'kind': 'script', 'deck': d, 'speeds': [1.0], 'cells': [0]}
        s['start'] = rng.choice([[0, 0.0], [3, 1.0], [7, 0.5]])
        return s
    g3 = rng.random() < 0.3
    n = rng.choice([2, 3, 5, 8])
    if rng.random() < 0.04:
        n = rng.choice([33, 64, 100, 129, 257, 512, rng.randint(20, 600)])
    ic = 'simplew %d' % n if g3 else rng.choice(['entrpyw %d' % n, 'acsticw %d' % n,
                                                 'scktube %d 0.0 1 0 1 1 0 1' % n])
    base = 10.0 ** rng.uniform(-3, 4)
    spread = rng.choice([1.0, 1.5, 4.0, 30.0])
    if rng.random() < 0.15:
        base = 10.0 ** rng.uniform(4, 9)
    speeds = [base * spread ** rng.uniform(0, 1) for _ in range(rng.choice([1, 2, 3, 8]))]
    d = {'system': 'euler', 'rk': rk, 'ic': ic, 'order': rng.choice([0, 1, 2, 3, 5]),
         'cfl': rng.choice([0.05, 0.3, 0.5, 1.0, 0.9]), 'riemann': 'roe',
         'nout': rng.choice([2, 2, 3, 5, 10, 10, 25])}
    if rng.random() < 0.3:
        d['thresholds'] = [0.1, 0.1]
    dt = d['cfl'] * decks.length(d) / n / (max(speeds) * (2 * d['order'] + 1))
    if dt < 1e-11:                       # (a step below 1e-14 ends a run)
        speeds = [v * dt / 1e-11 for v in speeds]
        dt = 1e-11
    d['T'] = dt * rng.choice([0.01, 0.5, 1, 3, 12, 30]) * rng.uniform(0.5, 1.5)
    s = {'kind': 'script', 'deck': d, 'speeds': speeds, 'cells': [rng.choice([0, n - 1, rng.randrange(n)]) for _ in range(3)]}
    s['start'] = start(rng, d)
    via(rng, s)
    if rng.random() < 0.12:
        # a domain of another size (and speeds to match)
        s['scale'] = f = 10.0 ** rng.choice([-9, -6, -4, -3, -2, 2, 4, 6])
        s['speeds'] = [v * f for v in s['speeds']]
    return s


def size(s):
    """The length of the domain."""
    return decks.length(s['deck']) * s.get('scale', 1.0)


def via(rng, s):
    """The solution comes from a snapshot, loaded into an object made for another mesh."""
    d = s['deck']
    if rng.random() < 0.3 and not d.get('thresholds') and not d.get('enhance'):
        s['via'] = [rng.choice([2, 3, decks.cells(d), 2 * decks.cells(d), 29]), rng.choice([d['order'], 0, 1, 3])]


def through(w, d, sol, how):
    w.quiet = True
    os.mkdir('via')
    os.chdir('via')
    sol.printer(5, 0.0)
    ic = d['ic'].split()
    other = decks.build(dict(d, ic=' '.join([ic[0], str(how[0])] + ic[2:]), order=how[1]))[0]
    other.loader(5)
    other.apply_bc()
    os.chdir('..')
    w.quiet = False
    return other


def start(rng, d):
    if rng.random() < 0.5:
        return [0, 0.0]
    return [rng.choice([1, 40, 999999]), d['T'] * rng.choice([0.1, 1.0, 3.0, 17.0])]


def observe(s, ctx):
    """Run the scenario; returns dict(status..., steps=[(n, t, vmax)], snaps=[...])."""
    d = s['deck']
    root = ctx.dir()
    nf = len(decks.fields(d))
    g = decks.gamma(d)
    n0, t0 = s.get('start', [0, 0.0])
    tf = t0 + d['T']
    speeds = s.get('speeds')
    if s.get('then'):
        speeds = speeds + [s['then']] * 3000
    vmin = min(s['speeds']) * 0.2 if s.get('speeds') and nf == 3 else decks.vmax0(d) * 8
    dtmin = d['cfl'] * size(s) / decks.cells(d) / (2 * d['order'] + 1) / \
        (max(s['speeds']) if s.get('speeds') and nf == 3 else vmin)
    limit = int((3 * d['T'] / dtmin + 2 * d['nout'] + 50) * decks.RKS.get(d['rk'], 4))
    if s.get('collapse'):
        limit = (s['steps'] + 100) * decks.RKS.get(d['rk'], 4)

    def body(w):
        import dg1d.rk as rk
        rec = []

        def on_step(sol):
            rec.append((sol.n, float(sol.t), watch.wave_speed(sol.u, nf, g),
                        interior(sol.u, nf).copy()))
        if s['kind'] == 'script':
            sol, dk = decks.build(d)
            sol.apply_bc()
            if s.get('scale'):
                f = s['scale']
                sol.x, sol.xc, sol.dx = sol.x * f, sol.xc * f, sol.dx * f
                sol.scaled_minv = sol.basis.minv * 2.0 / sol.dx
            if s.get('via'):
                sol = through(w, d, sol, s['via'])
            inner = watch.Script(sol, nf, g, speeds, s['cells'], d['cfl'])
            if nf == 3:
                inner.start()
            limiter = watch.Free()
        else:
            sol, dk, inner, limiter = decks.start(d)
            if s.get('via'):
                sol = through(w, d, sol, s['via'])
                inner, limiter = decks.arm(sol, dk)
        sol.n, sol.t, dk.finaltime = n0, t0, tf
        obs = watch.Watch(inner, sol, on_step)
        rk.integrate(sol, dk, obs, limiter)
        obs.finish()
        snaps, bad = read_back(w, d, rec)
        return [r[:3] for r in rec], snaps, bad, float(sol.dx), sol.n, float(sol.t)

    if s['kind'] == 'main':
        L = main_life(ctx, d, root, budget=limit)
        L.rec = None
    else:
        L = ctx.life(body, root, {}, budget=limit)
        L.rec = L.payload
    ctx.sim_time += d['T']
    L.root, L.tf, L.t0, L.n0 = root, tf, t0, n0
    return L


def read_back(w, d, rec):
    """Inside the life: compare every snapshot with the recorded state of its step."""
    w.quiet = True
    snaps, bad = [], []
    states = {(r[0], r[1]): r[3] for r in rec}
    k = 0
    while True:
        names = [decks.fname(f, k) for f in decks.fields(d)]
        if not all(os.path.exists(n) for n in names):
            break
        head, xc, out = decks.read_snapshot('.', d, k)
        snaps.append((head['n'], head['t']))
        want = states.get((head['n'], head['t']))
        if want is None:
            bad.append('snapshot %d claims n=%d, t=%r, which is no step of the run' % (k, head['n'], head['t']))
        else:
            for i, f in enumerate(decks.fields(d)):
                if out[f].shape != want[i].shape or not np.array_equal(out[f], want[i]):
                    bad.append('snapshot %d does not hold the %s of step %d' % (k, f, head['n']))
        k += 1
    w.quiet = False
    return snaps, bad

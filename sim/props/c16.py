"""The integrator follows its Runge-Kutta scheme for any operator, also one that depends on time."""
import math
import numpy as np

from .. import decks, life, watch
from ..common import *
from ..engine import put
from ..refmodel import table

ID = 'C16'
QUICK = (2400, 45)
THOROUGH = (40000, 800)
RULE = ('rk.integrate drives an operator that depends on time and on the state (coupled, non-autonomous, generated '
        'coefficients) through arbitrary output schedules, starting times and schemes, in one or several consecutive '
        'integrations; every snapshot and the final state are compared with an independent Runge-Kutta model.')
MEASURE = 'distinct (scheme, sequence of steps between outputs, number of integrations)'
REAL = 'dg1d integrator, solution, printer'
STUB = 'the spatial operator is a generated function of state and time; the limiter does nothing'
ASSUME = ['Runge-Kutta tables as published (rk_tables.json; order conditions verified by `python -m sim tables`)']


def gen(rng):
    d = {'system': rng.choice(['advection', 'advection', 'euler']),
         'rk': rng.choice(['rk3', 'rk4', 'rk5', 'rk6', 'rk8', 'rk10', 'rk12', 'rk14', 'low_storage_rk4',
                           'low_storage_rk4', '', 'unknown']),
         'order': rng.choice([0, 1, 2, 4]), 'cfl': rng.choice([0.2, 0.5, 1.0]), 'riemann': 'roe',
         'nout': rng.choice([2, 2, 3, 5, 9])}
    n = rng.randint(2, 6)
    d['ic'] = ('sinewave %d' if d['system'] == 'advection' else 'entrpyw %d') % n
    d['T'] = decks.dt0(d) * rng.uniform(0.3, 8)
    s = {'deck': d, 'op': {'w': rng.uniform(0.2, 3), 'lam': rng.uniform(-1.5, 1.0), 'f': rng.uniform(-2, 2),
                           'quad': rng.choice([0.0, 0.3]), 'mix': rng.choice([0.0, 0.4])},
         'start': rng.choice([[0, 0.0], [0, 0.0], [5, 0.7], [12, 11.0], [int(10 ** rng.uniform(0, 6)), round(rng.uniform(-3, 20), 3)],
                              [rng.choice([10, 16, 32, 50, 64, 100, 128, 256, 500, 1000, 1024, 10000]) - rng.randint(1, 3), rng.choice([0.0, 1.0, 2.5])]]),
         'storage': rng.choice(['new', 'new', 'own', 'kept']),
         'again': [{'T': d['T'] * rng.uniform(0.2, 1.5), 'nout': rng.choice([2, 3])} for _ in range(rng.choice([0, 0, 1, 2]))]}
    if rng.random() < 0.3:
        # an operator which changes much within one step
        g = rng.uniform(0.3, 1.2) / decks.dt0(d)
        for k in ('w', 'lam', 'f'):
            s['op'][k] *= g
        s['op']['lam'] = -abs(s['op']['lam']) * rng.choice([1, 0.3, -0.3])
    if euler_modes(d) and rng.random() < 0.25:
        # the same on a time scale of milliseconds to picoseconds
        base = 10.0 ** rng.uniform(2, 9)
        s['base'] = base = max(1.0, min(base, decks.dt0(d) / 1e-11))
        d['T'] /= base
        for sg in s['again']:
            sg['T'] /= base
        s['start'] = [s['start'][0], rng.choice([0.0, 0.0, d['T'], 7 * d['T']])]
    return s


def euler_modes(d):
    return d['system'] == 'euler' and d['order'] > 0


def f(op, y, t):
    """The generated operator on interior coefficients (field, cell, mode)."""
    r = op['lam'] * math.cos(op['w'] * t) * y + op['f'] * np.sin(op['w'] * t + np.arange(y.size)).reshape(y.shape)
    if op['mix']:
        r = r + op['mix'] * np.roll(y, 1, axis=1)
    if op['quad']:
        r = r + op['quad'] * np.sin(3 * y)
    return r


class Op:
    """An operator which returns new arrays, its own array (reused in every
    call, as dg.DG does with the fluxes), or arrays it keeps: one per
    (state, time), whose values are relied upon later."""

    def __init__(self, op, nf, euler, storage, base=1):
        self.op, self.nf, self.base = op, nf, base
        self.euler = euler
        self.storage = storage
        self.own = None
        self.kept = {}

    def residual(self, sol):
        life.tick()
        if self.storage == 'own':
            if self.own is None or self.own.shape != sol.u.shape:
                self.own = np.zeros(sol.u.shape)
            r = self.own
            r.fill(0)
        elif self.storage == 'kept':
            key = (float(sol.t), sol.u.tobytes())
            if key in self.kept:
                return self.kept[key][0]
            r = np.zeros(sol.u.shape)
        else:
            r = np.zeros(sol.u.shape)
        y = interior(sol.u, self.nf)
        k = self.base * f(self.op, y, self.base * float(sol.t))
        if self.euler:
            k[:, :, 0] = 0            # leave the averages (and the wave speed) alone
        for i in range(self.nf):
            r[:, self.nf + i:sol.u.shape[1] - self.nf:self.nf] = k[i].T
        if self.storage == 'kept':
            self.kept[key] = (r, r.copy())
        return r

    def disturbed(self):
        return sum(not np.array_equal(r, c, equal_nan=True) for r, c in self.kept.values())


def run(s, ctx):
    d = s['deck']
    nf = len(decks.fields(d))
    euler = nf == 3
    root = ctx.dir()
    segs = [{'T': d['T'], 'nout': d['nout']}] + s['again']
    limit = 20000
    base = s.get('base', 1)

    def body(w):
        import dg1d.rk as rk
        sol, dk = decks.build(d)
        if base != 1:                 # waves as fast as that
            sol.u[:, 1::3] *= base
            sol.u[:, 2::3] *= base ** 2
            sol.u[1:] = np.linspace(-1, 1, sol.u[1:].size).reshape(sol.u[1:].shape)
        sol.apply_bc()
        sol.n, sol.t = s['start']
        y0 = interior(sol.u, nf).copy()
        out = []
        op = Op(s['op'], nf, euler, s.get('storage', 'new'), base)
        for i, sg in enumerate(segs):
            dk.finaltime = sol.t + sg['T']
            dk.nout = sg['nout']
            rk.integrate(sol, dk, op, watch.Free())
            w.quiet = True
            snaps = []
            for k in range(sg['nout']):
                head, xc, data = decks.read_snapshot('.', d, k)
                snaps.append((head['n'], head['t'], np.array([data[x] for x in decks.fields(d)])))
            w.quiet = False
            out.append((sol.n, float(sol.t), interior(sol.u, nf).copy(), snaps))
        return y0, out, op.disturbed()
    L = ctx.life(body, root, {}, budget=limit)
    if L.status != 'exit' or not L.ok:
        if L.status == 'livelock' or L.status == 'exit':
            raise Violation('failed', 'integrating %r: %s' % (s, L.brief()))
        raise Inconclusive(L.brief())
    y, out, disturbed = L.payload
    if disturbed:
        raise Violation('operator', 'integrating changes %d of the arrays the operator returned: %r' % (disturbed, s))

    def modes(y):
        return y if base == 1 else y[:, :, 1:]
    b, a = table(d['rk'] if d['rk'] in decks.RKS else '')
    c = [sum(r) for r in a]
    n, t = s['start']
    dtc = decks.length(d) / decks.cells(d) * d['cfl'] / (2 * d['order'] + 1)
    nf_ = 3 if euler else 1
    v = 1.0
    if euler:
        q = y[:, :, 0]
        vel = q[1] / q[0]
        v = float(np.max(np.abs(vel) + np.sqrt(1.4 * 0.4 * (q[2] - 0.5 * q[1] * vel) / q[0])))
    dtc /= v

    def rhs(yy, tt):
        k = base * f(s['op'], yy, base * tt)
        if euler:
            k[:, :, 0] = 0
        return k

    def scheme(eps, seed=7):
        """The states at the outputs of all integrations; each rounding
        error is imitated by a disturbance of relative size eps."""
        noise = np.random.RandomState(seed)

        def r(z):
            return z * (1 + eps * noise.standard_normal(np.shape(z))) if eps else z
        y, (n, t) = y_start, s['start']
        res = []
        for sg, got in zip(segs, out):
            t_end = t + sg['T']
            times = np.linspace(t, t_end, sg['nout'])
            rows = []
            for k, tout in enumerate(times):
                done = k == 0
                while not done:
                    dt = dtc
                    if dt > tout - t:
                        dt, done = tout - t, True
                    K = []
                    for j in range(len(b)):
                        st = y.copy()
                        for m in range(j):
                            st = st + a[j][m] * K[m]
                        K.append(r(dt) * rhs(r(st), r(t + c[j] * dt)))
                    y = r(y + sum(bj * kj for bj, kj in zip(b, K)))
                    t += dt
                    n += 1
                rows.append((n, t, y))
            res.append(rows)
            t = got[1]
        return res
    y_start = y
    want = scheme(0)
    if not all(np.all(np.isfinite(r[2])) for rows in want for r in rows):
        raise Inconclusive('the generated operator blows up')
    if base != 1:                     # the averages stay as they are
        for rows, got in zip(want, out):
            for (_, _, y), ys in zip([r for r in rows] + [rows[-1]], [x[2] for x in got[3]] + [got[2]]):
                if not np.array_equal(y[:, :, 0], ys[:, :, 0]):
                    raise Violation('trajectory', 'the cell averages, which nothing changes, change: %r' % (d,))
        ctx.count('runs on a small time scale')
    scale = max([1.0] + [float(np.max(np.abs(modes(r[2])))) for rows in want for r in rows])
    noisy = None
    for i, (rows, (nn, tt, yy, snaps)) in enumerate(zip(want, out)):
        states = [(k,) + sn for k, sn in enumerate(snaps)] + [(len(rows) - 1, nn, tt, yy)]
        for k, ns, ts, ys in states:
            n, t, y = rows[k]
            err = float(np.max(np.abs(modes(ys - y))))
            if not err <= 5e-14 * scale:
                # how much of that is rounding, amplified by the operator?
                noisy = noisy or [scheme(1e-15, seed) for seed in range(4)]
                own = max(float(np.max(np.abs(modes(z[i][k][2] - y)))) for z in noisy)
                if not err <= 5e-14 * scale + 20 * own:
                    raise Violation('trajectory', 'integration %d, output %d (n=%d, t=%r) of %r differs from the scheme by %.3g'
                                    % (i, k, ns, ts, d, err))
                ctx.count('states compared up to amplified rounding')
            if not abs(ts - t) <= 1e-9 * (max(1, abs(t)) if base == 1 else abs(t)):
                raise Violation('trajectory', 'integration %d, output %d is at t=%r instead of %r' % (i, k, ts, t))
        ctx.count('snapshots compared', len(snaps))
    ctx.sim_time += t
    ctx.sig(d['rk'], n, len(segs), d['nout'])


def shrinks(s):
    for k in ('quad', 'mix', 'lam', 'f'):
        if s['op'][k]:
            yield put(s, ('op', k), 0.0)
    if s.get('storage', 'new') != 'new':
        yield put(s, ('storage',), 'new')
    if s['start'] != [0, 0.0]:
        yield put(s, ('start',), [0, 0.0])

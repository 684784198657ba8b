"""Limiting depends on the present state of a cell's neighborhood and on nothing else."""
import math
import numpy as np

from .. import decks, history, life, refmodel
from ..common import *
from ..engine import put

ID = 'C14'
QUICK = (900, 50)
THOROUGH = (20000, 800)
RULE = ('one limiter and one solution are driven through a generated history of states (noise, jumps, spikes, uniform, '
        'real time steps, own results again, solutions copied or reloaded, limitings interrupted by an allocation '
        'failure); after every limiting: same result as with fresh objects, averages kept, unflagged cells untouched, '
        'changes two or more cells away without effect, flags and values those of an independent model; and complete '
        'runs whose sensor files must be the flags of the snapshots they accompany.')
MEASURE = 'distinct (deck family, sequence of operations, flags reached)'
ASSUME = ['agreement to 1e-9 of the field scale; states where perturbations of 1e-12 change the flags or the result are '
          'not compared with the model']


def gen(rng):
    kind = rng.choice(['history', 'history', 'history', 'files'])
    for _ in range(200):
        d = decks.gen(rng, steps=(1, 8), cells_range=(3, 14), orders=(1, 1, 2, 2, 3, 4, 5), nouts=(2, 3, 5), limit=1.0,
                      rks=['rk3', 'rk4', 'low_storage_rk4', 'rk5'])
        if d.get('limiting'):
            break
    d['thresholds'] = rng.choice([[-1.0, 0.05], [0.05, 0.05], [0.01, 0.01], [0.003, 0.003], [0.2, 0.1], [0.05, -1.0], [0.6, 0.01]])
    if d.get('riemann') == 'godunov':
        d['riemann'] = 'roe'
    s = {'kind': kind, 'deck': d}
    if kind == 'files':
        s['plan'] = {'io': io_shape(rng)}
        return s
    ops = []
    for _ in range(rng.randint(2, 8)):
        k = rng.choice(['noise', 'noise', 'jump', 'jump', 'spike', 'spike', 'uniform', 'again', 'step', 'step', 'copy',
                        'reload', 'interrupt'])
        ops.append({'op': k, 'seed': rng.randrange(1 << 30), 'amp': rng.choice([1e-3, 0.05, 0.2, 0.4]),
                    'cell': rng.randrange(decks.cells(d)), 'mode': rng.randrange(d['order'] + 1),
                    'at': rng.randint(1, 400), 'other': rng.random() < 0.4})
        if d['system'] == 'euler' and rng.random() < 0.3:
            ops[-1]['units'] = decks.gen_units(rng, d)
        if d['system'] == 'euler' and rng.random() < 0.2:
            ops[-1]['thin'] = [10.0 ** rng.uniform(-3, 0), 10.0 ** rng.uniform(-4, 0)]
    s['ops'] = ops
    return s


def state(o, nf, N, p, g):
    """A physical state (field, cell, mode) with moderate variation."""
    r = np.random.RandomState(o['seed'])
    k = o['op']
    U = np.zeros((nf, N, p + 1))
    if nf == 1:
        U[0, :, 0] = r.uniform(-1, 1)
    else:
        rho, v, q = r.uniform(0.5, 2), r.uniform(-1, 1), r.uniform(0.5, 2)
        prim = np.array([[rho, v, q]] * N)
        if k == 'jump':
            c = o['cell']
            prim[c:] = [r.uniform(0.3, 2), r.uniform(-1, 1), r.uniform(0.3, 2)]
        if k == 'spike':
            prim[o['cell']] = [r.uniform(0.3, 2), r.uniform(-1, 1), r.uniform(0.3, 2)]
        if k == 'noise':
            prim = prim + o['amp'] * r.uniform(-1, 1, prim.shape)
        if o.get('thin'):
            # low density or pressure in some cells
            prim[r.uniform(size=N) < 0.5] *= [o['thin'][0], 1.0, o['thin'][1]]
        U[0, :, 0] = prim[:, 0]
        U[1, :, 0] = prim[:, 0] * prim[:, 1]
        U[2, :, 0] = prim[:, 2] / (g - 1) + 0.5 * prim[:, 0] * prim[:, 1] ** 2
    if nf == 1:
        if k == 'jump':
            U[0, o['cell']:, 0] = r.uniform(-1, 1)
        if k == 'spike':
            U[0, o['cell'], 0] += r.uniform(-1, 1)
        if k == 'noise':
            U[0, :, 0] += o['amp'] * r.uniform(-1, 1, N)
    if k != 'uniform':
        for m in range(1, p + 1):
            U[:, :, m] = o['amp'] * r.uniform(-1, 1, (nf, N)) / (1 + m) ** 2
    if nf == 3 and o.get('units'):
        a, b = o['units']
        U = U * np.array([a, a * b, a * b * b]).reshape(3, 1, 1)
    return U


def run(s, ctx):
    if s['kind'] == 'files':
        return run_files(s, ctx)
    d = s['deck']
    nf = len(decks.fields(d))
    N, p, g = decks.cells(d), d['order'], decks.gamma(d)
    root = ctx.dir()

    def fresh(U):
        sol, dk = decks.build(d)
        history.put_interior(sol, U)
        sol.apply_bc()
        lim = decks.arm(sol, dk)[1]
        lim.limit(sol)
        return interior(sol.u, nf), np.array(sol.sensors.sensors[1:-1])

    def body(w):
        import dg1d.rk
        sol, dk = decks.build(d)
        sol.apply_bc()
        solver, lim = decks.arm(sol, dk)
        bad, seen = [], []
        for i, o in enumerate(s['ops']):
            k = o['op']
            if k == 'copy':
                sol = sol.copy()
                history.put_interior(sol, state(dict(o, op='noise'), nf, N, p, g))
            elif k == 'reload':
                w.quiet = True
                sol.printer(70 + i, 0.0)
                w.quiet = False
                sol.loader(70 + i)
            elif k == 'again':
                pass
            elif k == 'step':
                r = np.array(solver.residual(sol))
                A = interior(sol.u, nf)
                R = interior(r, nf)
                dt = 0.2 * np.min(np.abs(A[:, :, 0]) + 0.1) / (np.max(np.abs(R)) + 1.0)
                history.put_interior(sol, A + dt * R)
            elif k == 'interrupt':
                history.put_interior(sol, state(dict(o, op='noise'), nf, N, p, g))
                hook = life.Lines(w, at={o['at']: 'memory'})
                hook.enable()
                try:
                    lim.limit(sol)
                except MemoryError:
                    w.count('limiting interrupted')
                finally:
                    hook.disable()
                history.put_interior(sol, state(dict(o, op='jump', seed=o['seed'] + 1), nf, N, p, g))
            else:
                history.put_interior(sol, state(o, nf, N, p, g))
            before = interior(sol.u, nf).copy()
            if not physical(before, nf, g):
                break
            meta = (sol.n, float(sol.t), sol.N_E, float(sol.dx))
            lim.limit(sol)
            after = interior(sol.u, nf).copy()
            flags = np.array(sol.sensors.sensors[1:-1])       # (a copy)
            seen.append((k, before, after, flags))
            where = 'limiting %d (%s)' % (i, k)
            if meta != (sol.n, float(sol.t), sol.N_E, float(sol.dx)):
                bad.append(('meta', '%s changes more than the coefficients' % where))
            scale = size_of(before)
            kept = np.array(sol.u)
            sol.apply_bc()
            if not np.array_equal(kept, sol.u):
                bad.append(('ghosts', '%s leaves ghost cells which do not belong to the limited solution' % where))
            if o.get('other'):
                # a copy, used elsewhere, is none of this solution's business
                c = sol.copy()
                history.put_interior(c, state(dict(o, op=['noise', 'jump', 'uniform'][o['seed'] % 3], seed=o['seed'] + 3), nf, N, p, g))
                c.apply_bc()
                lim.limit(c)
                w.count('copies limited')
                if not np.array_equal(kept, sol.u) or not np.array_equal(flags, sol.sensors.sensors[1:-1]):
                    bad.append(('copy', '%s: limiting a copy afterwards changes the %s of the original' % (
                        where, 'coefficients' if not np.array_equal(kept, sol.u) else 'flags')))
            B, fl = fresh(before)
            if not np.array_equal(fl, flags):
                bad.append(('memory', '%s flags cells %s, with fresh objects %s' % (where, flags.tolist(), fl.tolist())))
            elif not np.all(np.abs(B - after) <= 1e-12 * scale):
                bad.append(('memory', '%s gives another result than with fresh objects (by %.3g)'
                            % (where, np.max(np.abs(B - after)))))
            if not np.all(np.abs(after[:, :, 0] - before[:, :, 0]) <= 1e-12 * scale[:, :, 0]):
                bad.append(('average', '%s changes the average of a cell by %.3g' % (
                    where, np.max(np.abs(after[:, :, 0] - before[:, :, 0])))))
            for e in range(N):
                if flags[e] == 0 and not np.array_equal(after[:, e], before[:, e]):
                    bad.append(('unflagged', '%s changes cell %d, which is not flagged' % (where, e)))
                    break
            # a change elsewhere
            c = o['cell']
            V = before.copy()
            rr = np.random.RandomState(o['seed'] + 7)
            V[:, c] = V[:, c] * (1 + 0.05 * rr.uniform(-1, 1, V[:, c].shape))
            if physical(V, nf, g):
                W, fw = fresh(V)
                for e in range(N):
                    far = min(abs(e - c), N - abs(e - c))
                    if far >= 2 and (fw[e] != flags[e] or not np.all(np.abs(W[:, e] - after[:, e]) <= 1e-12 * scale[:, 0])):
                        bad.append(('local', '%s: a change in cell %d changes cell %d of %d' % (where, c, e, N)))
                        break
        w.notes += bad
        return seen
    L = ctx.life(body, root, {})
    if not L.ok:
        raise Violation('failed', 'limiting %r fails: %s' % (d, L.brief()))
    seen = L.payload
    for kind, text in L.notes:
        raise Violation(kind, '%r: %s' % (d, text))
    for k, before, after, flags in seen:
        ctx.count('limitings')
        ctx.count('cells flagged', int(np.count_nonzero(flags)))
        ctx.sig(d['system'], p, N, d['thresholds'], k, flags.tolist())
        m = model(d, before)
        if m is None:
            ctx.count('not compared with the model')
            continue
        ctx.count('compared with the model')
        U, fl = m
        if not np.array_equal(fl, flags):
            raise Violation('flags', '%r: flags %s, the model has %s for averages %s'
                            % (d, flags.tolist(), fl.tolist(), before[:, :, 0].tolist()))
        err = np.abs(U - after) / size_of(before)
        if not np.max(err) <= 1e-9:
            at = np.unravel_index(np.argmax(err), err.shape)
            raise Violation('value', '%r: limiting gives %r in field %d, cell %d, mode %d, the model %r'
                            % (d, float(after[at]), at[0], at[1], at[2], float(U[at])))
    if not seen:
        raise Inconclusive('no physical state')


def size_of(U):
    """The size of every field."""
    s = np.max(np.abs(U), axis=(1, 2)) + 1e-300
    if len(s) == 3:
        s[1] = max(s[1], (s[0] * s[2]) ** 0.5)
    return s[:, None, None]


def physical(U, nf, g):
    if not np.all(np.isfinite(U)):
        return False
    if nf == 1:
        return True
    a = U[:, :, 0]
    return bool(np.all(a[0] > 1e-4 * np.max(a[0])) and np.all((g - 1) * (a[2] - 0.5 * a[1] ** 2 / a[0]) > 1e-6 * a[2]))


def model(d, U):
    """(limited, flags) of the model, None where they are ill-conditioned."""
    r = refmodel.Ref(dict(d, limiting=None))
    r.limiting = True
    out = r.limit(U), r.flags.copy()
    scale = size_of(U)
    for k in range(3):
        g = np.random.RandomState(k)
        V = r.limit(U * (1 + 1e-12 * g.uniform(-1, 1, U.shape)) + 1e-13 * scale * g.uniform(-1, 1, U.shape))
        if not np.array_equal(r.flags, out[1]) or not np.all(np.abs(V - out[0]) <= 1e-10 * scale):
            return None
    return out


def run_files(s, ctx):
    d = s['deck']
    root = ctx.dir()
    L = main_life(ctx, d, root, s['plan'], budget=resid_budget(d))
    if not L.ok:
        raise Inconclusive(L.brief())
    ctx.sim_time += d['T']
    nf, g = len(decks.fields(d)), decks.gamma(d)
    n = 0
    for k in range(d['nout']):
        head, xc, out = decks.read_snapshot(root, d, k)
        h, a = decks.parse(decks.slurp(os.path.join(root, decks.fname('sensor', k))))
        U = np.array([out[f] for f in decks.fields(d)])
        if (h['n'], h['t']) != (head['n'], head['t']) or not np.array_equal(a[:, 0], xc) or a.shape != (len(xc), 2):
            raise Violation('sensor-file', 'sensor file %d of %r does not belong to the snapshot of the fields' % (k, d))
        if not physical(U, nf, g):
            continue
        V = U[:, :, :1] * np.ones(d['order'] + 1)
        V[:, :, 1:] = 0           # flags depend on the averages only
        m = model(d, V)
        if m is None:
            continue
        n += 1
        ctx.sig(d['system'], d['order'], d['thresholds'], 'file', m[1].tolist())
        if not np.array_equal(m[1], a[:, 1]):
            raise Violation('sensor-file', 'sensor file %d of %r holds %s, the flags of the snapshot are %s'
                            % (k, d, a[:, 1].tolist(), m[1].tolist()))
    ctx.count('sensor files compared', n)
    if not n:
        raise Inconclusive('no well-conditioned snapshot')


def shrinks(s):
    for i in range(len(s.get('ops', []))):
        if len(s['ops']) > 1:
            yield put(s, ('ops',), s['ops'][:i] + s['ops'][i + 1:])


def valid(s):
    return bool(s['deck'].get('limiting')) and (s['kind'] == 'files' or bool(s['ops'])) and \
        all(o['cell'] < decks.cells(s['deck']) and o['mode'] <= s['deck']['order'] for o in s.get('ops', []))

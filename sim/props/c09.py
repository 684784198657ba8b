"""A solution that is no longer finite never passes as a result."""
import numpy as np

from .. import decks, history, life, watch
from ..common import *
from ..engine import put

ID = 'C09'
QUICK = (1300, 50)
THOROUGH = (30000, 800)
RULE = ('runs that go wrong: unstable CFL numbers, strong jumps, vacuum data, and corruptions injected while the run '
        'proceeds (NaN, infinities, flipped bits in a stage increment, in the state between steps, in the initial '
        'data or in a snapshot that is loaded); no step may start from, no file may hold, and no success may hide a '
        'value that is not finite.')
MEASURE = 'distinct (corruption, place, step at which the run ends)'
REAL = 'all of dg1d'
STUB = 'the spatial operator is the real one, wrapped to corrupt one increment'

WEIGHTED = ('rk4', 'low_storage_rk4', '')      # every stage has a non-zero weight


def gen(rng):
    kind = rng.choice(['blowup', 'blowup', 'stage', 'stage', 'state', 'initial', 'snapshot'])
    d = decks.gen(rng, steps=(2, 8), cells_range=(3, 12), nouts=(2, 3, 5))
    s = {'kind': kind, 'deck': d}
    if kind == 'blowup':
        d['cfl'] = rng.choice([0.9, 1.5, 3.0, 10.0, 40.0, 1000.0])
        d['T'] = d['T'] * rng.choice([1, 5, 30, 100])
        d['order'] = rng.choice([1, 2, 3, 4])
        d['rk'] = rng.choice(['rk3', 'rk4', 'low_storage_rk4', 'rk6'])
        if rng.random() < 0.4 and d['system'] == 'euler':
            n = decks.cells(d)
            r = lambda: rng.choice([1.0, 1e-3, 1e3, 0.0, -1.0, 5.0, 1e-12, 100.0, 1e10])
            d['ic'] = 'scktube %d 0.05 %r %r %r %r %r %r' % (n, abs(r()), r(), r(), abs(r()) or 1.0, r(), r())
        s['main'] = rng.random() < 0.4
        return s
    s['at'] = rng.randint(0, 40)
    s['row'] = rng.randint(0, 4)
    s['col'] = rng.randint(0, 60)
    s['value'] = rng.choice(['nan', 'nan', 'inf', '-inf', 'flip62', 'flip61', 'flip55', 'flip63', 'huge'])
    if kind in ('initial', 'snapshot'):
        s['value'] = rng.choice(['nan', 'inf', '-inf'])
    return s


def corrupt(a, row, col, value, nf):
    """Corrupt one interior coefficient of a; returns whether it became non-finite."""
    n = a.shape[1] - 2 * nf
    i, j = row % a.shape[0], nf + col % n
    if value in ('nan', 'inf', '-inf'):
        a[i, j] = float(value)
    elif value == 'huge':
        a[i, j] = 1e308
    else:
        x = np.array([a[i, j]])
        x.view(np.uint64)[0] ^= np.uint64(1 << int(value[4:]))
        a[i, j] = x[0]
    return not np.isfinite(a[i, j])


def nonfinite_file(data):
    """Does a snapshot hold something that is not a finite number?"""
    for l in data.decode('ascii', 'replace').split('\n'):
        if l.startswith('#') or not l:
            continue
        for x in l.split(','):
            try:
                if not np.isfinite(float(x)):
                    return True
            except ValueError:
                return True
    return False


def run(s, ctx):
    d = s['deck']
    nf = len(decks.fields(d))
    root = ctx.dir()
    kind = s['kind']
    exp = {}

    def body(w):
        import dg1d.rk as rk
        state = {'evals': 0, 'hit': 0, 'nonfinite': False}

        def on_step(sol):
            if state.pop('grace', False):
                return          # (this one starts from what was corrupted)
            if state['started'] and not np.all(np.isfinite(sol.u)):
                w.notes.append('a step starts (or the run ends) at n=%d, t=%r with values that are not finite' % (sol.n, sol.t))
            state['started'] = True

        def corrupt_after_output(sol):
            # between two steps, right after an output: where the state of the solution is nowhere else
            printer = sol.printer

            def output(nout, dt):
                printer(nout, dt)
                if nout == s['at'] % (d['nout'] - 1) and not state['hit']:
                    state['hit'] = 1
                    bad = corrupt(sol.u, s['row'], s['col'], s['value'], nf)
                    state['grace'] = True
                    w.count('corruption:state:%s' % s['value'])
                    w.notes.append(('hit', bad))
            sol.printer = output

        def on_stage(obs, sol, r):
            k = state['evals']
            state['evals'] += 1
            if kind == 'stage' and k == s['at']:
                r = np.array(r)
                bad = corrupt(r, s['row'], s['col'], s['value'], nf)
                w.count('corruption:stage:%s' % s['value'])
                w.notes.append(('hit', bad))
                return r
        state['started'] = True
        if kind == 'snapshot':
            sol, dk, solver, limiter = decks.start(d)
            corrupt(sol.u, s['row'], s['col'], s['value'], nf)
            bad = not np.all(np.isfinite(interior(sol.u, nf)))
            w.quiet = True
            sol.printer(50, 0.0)
            w.quiet = False
            sol, dk = decks.build(d)
            sol.loader(50)
            for f in decks.fields(d) + (['sensor'] if d.get('thresholds') else []):
                os.remove(decks.fname(f, 50))
            sol.apply_bc()
            solver, limiter = decks.arm(sol, dk)
            w.count('corruption:snapshot:%s' % s['value'])
            w.notes.append(('hit', bad))
        else:
            sol, dk, solver, limiter = decks.start(d)
            if kind == 'initial':
                corrupt(sol.u, s['row'], s['col'], s['value'], nf)
                w.count('corruption:initial:%s' % s['value'])
                w.notes.append(('hit', True))
        if kind in ('initial', 'snapshot'):
            state['started'] = False
        if kind == 'state':
            corrupt_after_output(sol)
        obs = watch.Watch(solver, sol, on_step, on_stage)
        if kind in ('initial', 'snapshot'):
            obs.on_step = lambda q: w.notes.append('a step starts from values that are not finite') \
                if not np.all(np.isfinite(q.u)) else None
        rk.integrate(sol, dk, obs, limiter)
        state['end'] = True
        obs.finish()
        return sol.n, float(sol.t), bool(np.all(np.isfinite(sol.u)))
    nb = resid_budget(d, 20)
    if kind == 'blowup' and s.get('main'):
        L = main_life(ctx, d, root, budget=nb)
    else:
        L = ctx.life(body, root, {}, budget=nb)
    ctx.sim_time += d['T']
    hits = [x for x in L.notes if isinstance(x, tuple)]
    steps = [x for x in L.notes if isinstance(x, str)]
    for n, data in decks.read_all(root).items():
        if nonfinite_file(data):
            raise Violation('file', 'the run of %r (%s) writes %s with values that are not finite' % (d, L.brief(), n))
    if steps:
        raise Violation('step', 'the run of %r: %s' % (d, steps[0]))
    ctx.sig(kind, s.get('value'), L.status, L.code, L.resid)
    if L.status == 'livelock':
        if kind == 'blowup':
            raise Inconclusive('time step collapsed')
        if any(h[1] for h in hits):
            raise Violation('stuck', 'the run of %r does not end after a value became non-finite' % d)
        raise Inconclusive('time step collapsed after the corruption')
    ctx.count('ended with success' if L.ok else 'ended with failure')
    if L.ok:
        want = decks.output_names(d)
        have = decks.dat_files(root)
        if sorted(have) != sorted(want):
            raise Violation('success', 'the run of %r reports success with outputs %s' % (d, have[:8]))
        if L.payload is not None and not L.payload[2]:
            raise Violation('success', 'the run of %r reports success with a solution that is not finite' % d)
        sure = any(h[1] for h in hits) and (kind != 'stage' or d['rk'] in WEIGHTED)
        if sure:
            raise Violation('success', 'the run of %r reports success although a value became %s (%s)'
                            % (d, s['value'], kind))

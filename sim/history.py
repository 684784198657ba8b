"""Histories: a simulation advanced in several integrations, with reloads from snapshots in
new processes, continuation in memory, copies, crashes and resumption from what is on disk."""
import os
import numpy as np

from . import decks, life, watch
from .common import *
from .engine import HarnessError


# ------------------------------------------------------------------ initial data
def modify(init, d, units=True):
    """A function that changes the initial coefficients (field, cell, mode)."""
    units = units and d.get('units') and not d['ic'].startswith('scktube')
    if not init and not units:
        return None

    def go(U):
        U = np.array(U)
        for it in init or []:
            if it['kind'] == 'noise':
                r = np.random.RandomState(it['seed'])
                a = it['amp']
                scale = np.max(np.abs(U), axis=(1, 2))[:, None]
                if d['system'] == 'euler':
                    scale = np.minimum(U[0, :, :1].T, U[2, :, :1].T) * np.ones((3, 1))
                for m in range(U.shape[2]):
                    U[:, :, m] += a * scale * r.uniform(-1, 1, U.shape[:2]) / (1 + m) ** 2
            elif it['kind'] == 'uniform':
                q = it['state']
                U[:] = 0
                if d['system'] == 'euler':
                    g = decks.gamma(d)
                    U[:, :, 0] = np.array([q[0], q[0] * q[1], q[2] / (g - 1) + 0.5 * q[0] * q[1] ** 2])[:, None]
                else:
                    U[0, :, 0] = q[0]
            elif it['kind'] == 'roll':
                U = np.roll(U, it['cells'], axis=1)
            elif it['kind'] == 'mirror':
                U = U[:, ::-1, :] * (-1.0) ** np.arange(U.shape[2])
                if d['system'] == 'euler':
                    U = U * np.array([1.0, -1.0, 1.0])[:, None, None]
            elif it['kind'] == 'middle':
                # disturb only the middle cells
                r = np.random.RandomState(it['seed'])
                N = U.shape[1]
                lo, hi = N // 2 - it['half'], N // 2 + it['half']
                for m in range(U.shape[2]):
                    U[:, lo:hi, m] += it['amp'] * U[:, lo:hi, 0] * r.uniform(-1, 1, (U.shape[0], hi - lo)) / (1 + m) ** 2 \
                        if m else it['amp'] * U[:, lo:hi, 0] * r.uniform(-1, 1, (U.shape[0], hi - lo))
        return U * decks.unit(d) if units else U
    return go


def put_interior(sol, U):
    nf = U.shape[0]
    for k in range(nf):
        sol.u[:, nf + k:sol.u.shape[1] - nf:nf] = U[k].T


def begin(d, init):
    """As decks.start, with modified initial data."""
    sol, dk = decks.build(d)
    f = modify(init, d)
    if f is not None:
        put_interior(sol, f(interior(sol.u, len(decks.fields(d)))))
    sol.apply_bc()
    solver, limiter = decks.arm(sol, dk)
    limiter.limit(sol)
    return sol, dk, solver, limiter


# ------------------------------------------------------------------ scenarios
def gen_segs(rng, d, most=4, crash=0.35):
    """Split a run into segments."""
    n = rng.choice([1, 2, 2, 3, most])
    segs = []
    left = d['T']
    for i in range(n):
        T = left / n * rng.uniform(0.4, 1.6) if n > 1 else left
        segs.append({'T': T, 'nout': rng.choice([2, 2, 3, 5]),
                     'how': 'start' if i == 0 else rng.choice(['reload', 'reload', 'same', 'copy'])})
    if rng.random() < decks.WIDE:
        rng.choice(segs)['nout'] = rng.choice([11, 12, 20, 33, 64, 101])
    crashes = []
    if rng.random() < crash:
        for _ in range(rng.choice([1, 1, 2])):
            crashes.append({'at': rng.randint(1, 60), 'do': 'crash', 'when': rng.choice(['before', 'after', 'torn']),
                            'frac': rng.choice([0.0, 0.3, 0.9])})
    return segs, crashes


def gen_origin(rng):
    """Step number and time at which the history begins."""
    if rng.random() < 0.7:
        return [0, 0.0]
    if rng.random() < 0.5:
        return [int(10 ** rng.uniform(0, 6)), round(rng.uniform(-2, 20), rng.choice([0, 1, 3]))]
    return [rng.choice([10, 16, 32, 50, 64, 100, 128, 256, 500, 1000, 1024, 10000]) - rng.randint(1, 3),
            rng.choice([0.0, 1.0, 2.5])]


class Trace:
    """What happened: segs[i].snaps = [snapshot dict], notes = observations."""

    def __init__(self):
        self.segs = []
        self.notes = []
        self.final = None
        self.lives = []
        self.failed = None
        self.joins = []       # (directory, k, directory, 0): the second was written by a solution continued from the first


def complete(root, d, k):
    try:
        return decks.read_snapshot(root, d, k)
    except (FileNotFoundError, decks.BadFile):
        return None


def snapshot(root, d, k):
    head, xc, out = decks.read_snapshot(root, d, k)
    s = {'n': head['n'], 't': head['t'], 'bc': (head['bc_l'], head['bc_r']), 'xc': xc,
         'U': np.array([out[f] for f in decks.fields(d)])}
    return s


def play(s, ctx, observers=None, plan=None, forbid_crash=False, straight=False):
    """Execute the history.  observers(sol, d, world) -> (on_step, on_stage).
    straight: one process, everything continued in memory, no crashes."""
    d = s['deck']
    segs = s['segs']
    n0, t0 = s.get('origin') or [0, 0.0]
    ends = [t0 + float(x) for x in np.cumsum([g['T'] for g in segs])]
    top = ctx.dir()
    crashes = [] if (forbid_crash or straight) else list(s.get('crashes', []))
    tr = Trace()
    dirs = [os.path.join(top, 'seg%d' % i) for i in range(len(segs))]
    for p in dirs:
        os.makedirs(p)
    pieces = [[(p, 0, g['nout'] - 1, 0)] for p, g in zip(dirs, segs)]   # (dir, first k, last k, snapshot offset)
    # a job: list of (segment index, dir, nout, T_end) in one process, from a source
    todo = []
    for i, g in enumerate(segs):
        job = (i, dirs[i], g['nout'], ends[i])
        if i and g['how'] == 'reload' and not straight:
            todo.append([('end', i - 1), [job]])
        elif i:
            todo[-1][1].append(job)
        else:
            todo.append([('start',), [job]])
    resumes = 0
    where = {i: (dirs[i], segs[i]['nout'] - 1) for i in range(len(segs))}   # where the last snapshot of a segment is
    while todo:
        source, jobs = todo.pop(0)
        origin = source
        if source[0] == 'end':
            source = ('load',) + where[source[1]]
        pl = dict(plan or {})
        io = dict(s.get('io') or {})
        if crashes:
            io['faults'] = [crashes.pop(0)]
        if io:
            pl['io'] = io

        def body(w, source=source, jobs=jobs):
            import dg1d.rk as rk
            if source[0] == 'start':
                sol, dk, solver, limiter = begin(d, s.get('init'))
                sol.n, sol.t = n0, t0
            else:
                sol, dk = decks.build(d)
                os.chdir(source[1])
                sol.loader(source[2])
                os.chdir(top)
                sol.apply_bc()
                solver, limiter = decks.arm(sol, dk)
            for i, p, nout, end in jobs:
                if segs[i]['how'] == 'copy':
                    sol = sol.copy()
                if segs[i].get('fresh'):
                    solver, limiter = decks.arm(sol, dk)
                os.chdir(p)
                dk.finaltime, dk.nout = end, nout
                if observers is not None:
                    on_step, on_stage = observers(sol, d, w)
                    obs = watch.Watch(solver, sol, on_step, on_stage)
                    rk.integrate(sol, dk, obs, limiter)
                    obs.finish()
                else:
                    rk.integrate(sol, dk, solver, limiter)
            return sol.n, float(sol.t), interior(sol.u, len(decks.fields(d)))
        L = ctx.life(body, top, pl, budget=resid_budget(d, 80))
        tr.lives.append(L)
        tr.notes += L.notes
        if L.status == 'livelock':
            raise Violation('stuck', 'a segment of %r does not end: %s' % (d, L.exc))
        if L.status == 'crash':
            ctx.count('crashes survived')
            resumes += 1
            # find the last complete snapshot of this process
            back = None
            for idx in range(len(jobs) - 1, -1, -1):
                i, p, nout, end = jobs[idx]
                for k in range(nout - 1, -1, -1):
                    if complete(p, d, k) is not None:
                        back = (idx, k)
                        break
                if back:
                    break
            if back is None:
                todo.insert(0, [origin, jobs])
                continue
            idx, k = back
            i, p, nout, end = jobs[idx]
            rest = jobs[idx + 1:]
            ctx.count('resumed from a snapshot')
            if k < nout - 1:
                q = p + 'r%d' % resumes
                os.makedirs(q)
                a, first, last, off = pieces[i][-1]
                pieces[i][-1] = (a, first, k, off)
                pieces[i].append((q, 1, nout - 1 - k, off + k))
                where[i] = (q, nout - 1 - k)
                tr.joins.append((p, k, q))
                todo.insert(0, [('load', p, k), [(i, q, nout - k, end)] + rest])
            elif rest:
                todo.insert(0, [('load', p, k), rest])
            continue
        if not L.ok:
            tr.failed = L
            return tr
        tr.final = L.payload
    for i in range(len(segs)):
        if i:
            tr.joins.append(where[i - 1] + (dirs[i],))
        snaps = []
        for p, first, last, off in pieces[i]:
            for k in range(first, last + 1):
                try:
                    x = snapshot(p, d, k)
                    x['n'], x['t'] = x['n'] - n0, x['t'] - t0
                    snaps.append(x)
                except (FileNotFoundError, decks.BadFile) as e:
                    raise Violation('unreadable', 'segment %d of a successful run of %r: %s' % (i, d, e))
        tr.segs.append(snaps)
    ctx.sim_time += ends[-1] - t0
    ctx.count('segments', len(segs))
    ctx.count('reloads', sum(1 for g in segs if g['how'] == 'reload'))
    return tr


def shrinks(s):
    from .engine import put
    segs = s['segs']
    if s.get('crashes'):
        yield put(s, ('crashes',), [])
    if s.get('io'):
        yield put(s, ('io',), {})
    for i in range(len(segs)):
        if len(segs) > 1:
            new = [dict(g) for g in segs[:i] + segs[i + 1:]]
            new[0]['how'] = 'start'
            yield put(s, ('segs',), new)
        if segs[i]['nout'] > 2:
            yield put(s, ('segs', i, 'nout'), 2)
        if segs[i]['how'] in ('reload', 'copy') and i:
            yield put(s, ('segs', i, 'how'), 'same')
        yield put(s, ('segs', i, 'T'), segs[i]['T'] * 0.5)
    if s.get('origin', [0, 0.0]) != [0, 0.0]:
        yield put(s, ('origin',), [0, 0.0])
    for i, it in enumerate(s.get('init') or []):
        yield put(s, ('init',), s['init'][:i] + s['init'][i + 1:])

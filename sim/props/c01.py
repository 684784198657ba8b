"""Runs that share one process do not disturb each other."""
import hashlib
import sys

import numpy as np
import os

from .. import decks, life
from ..common import *

ID = 'C01'
QUICK = (700, 45)
THOROUGH = (9000, 800)
RULE = ('2-3 solver threads in one simulated process, preempted by a recorded schedule of (thread, quantum) at dg1d '
        'line (or bytecode) events; each builds its own deck, or starts from a copy of a common parent, or reloads a '
        'snapshot and continues; every thread must produce exactly what it produces alone.')
MEASURE = 'distinct interleavings (executed sequence of context switches) of distinct workloads'
ASSUME = ['each simulated thread has its own working directory (set at every context switch)',
          'preemption happens between line/bytecode events of dg1d code, not inside numpy calls']


def variant(rng, d):
    """A deck close to d: shares sizes, differs in something that must not leak."""
    e = dict(d)
    what = rng.choice(['T', 'cells', 'riemann', 'thresholds', 'ic', 'order', 'rk', 'enhance', 'cfl', 'nout'])
    if what == 'T':
        e['T'] = d['T'] * rng.choice([0.5, 0.8, 1.3])
    elif what == 'cells':
        w = d['ic'].split()
        w[1] = str(max(3, int(w[1]) + rng.choice([-1, 1, 2])))
        e['ic'] = ' '.join(w)
    elif what == 'riemann' and d['system'] == 'euler':
        e['riemann'] = rng.choice(['roe', 'rusanov', 'godunov'])
    elif what == 'thresholds' and d.get('thresholds'):
        e['thresholds'] = [rng.choice([0.2, 0.001, -1.0]), rng.choice([0.3, 0.001])]
    elif what == 'ic' and d['system'] == 'euler':
        n = d['ic'].split()[1]
        e['ic'] = rng.choice(['entrpyw ' + n, 'simplew ' + n, 'acsticw ' + n])
        e['T'] = round(decks.dt0(e) * rng.uniform(1, 3), 6)
    elif what == 'order' and not d.get('enhance'):
        e['order'] = max(1 if d.get('limiting') else 0, d['order'] + rng.choice([-1, 1]))
        e['T'] = round(decks.dt0(e) * rng.uniform(1, 3), 6)
    elif what == 'rk':
        e['rk'] = rng.choice(['rk3', 'rk4', 'low_storage_rk4', 'rk6'])
    elif what == 'enhance' and d['order'] > 0:
        e['enhance'] = rng.choice(['icb 0', 'icb 0 1'])
    elif what == 'cfl':
        e['cfl'] = d['cfl'] * 0.7
    elif what == 'nout':
        e['nout'] = d['nout'] + 1
    return e


def gen(rng):
    n = rng.choice([2, 2, 2, 3])
    g = dict(steps=(1, 3), cells_range=(3, 7), nouts=(2, 2, 3),
             rks=['rk3', 'rk4', 'rk4', 'low_storage_rk4', 'low_storage_rk4', 'rk6', 'rk5'], enhance=0.35)
    first = decks.gen(rng, **g)
    nodes = []
    family = rng.random() < 0.2
    for i in range(n):
        if i and rng.random() < 0.6:
            d = variant(rng, nodes[0]['deck'])
        else:
            d = decks.gen(rng, **g) if i else first
        nodes.append({'deck': d, 'what': rng.choice(['run', 'run', 'run', 'reload', 'deckfile', 'copy', 'byhand'])})
    s = {'nodes': nodes, 'opcodes': rng.random() < 0.1}
    twins = not family and rng.random() < 0.35
    if twins:
        # runs of the same shape and settings, which would share whatever is stored by shape or setting
        g = dict(g, rks=['rk3', 'rk4', 'low_storage_rk4'])
        want = rng.choice(['enhance', 'enhance', 'limiting', 'limiting', 'any'])
        while True:
            first = decks.gen(rng, **g)
            if want == 'any' or first.get(want):
                break
        for k, nd in enumerate(nodes):
            nd['deck'] = dict(first)
            nd['scale'] = 1 + 0.25 * k
            nd['what'] = rng.choice(['run', 'run', 'reload', 'copy', 'byhand', 'byhand'])
    if family:
        s['family'] = True
        for nd in nodes[1:]:
            d = dict(first)
            d['cfl'] = first['cfl'] * rng.choice([1, 0.5, 0.8])
            d['T'] = first['T'] * rng.choice([1, 0.5, 1.5])
            d['rk'] = rng.choice(['rk4', 'low_storage_rk4', first['rk']])
            nd['deck'] = d
        for nd in nodes:
            nd['what'] = 'child'
    style = rng.random()
    sched = []
    if twins and rng.random() < 0.6:                       # in step, a few lines each
        s['schedule'] = [[k % n, rng.choice([1, 1, 2, 3, 5, 7, 11, 40])] for k in range(rng.choice([2, 7, 30]) * n)]
        s['cycle'] = True
        return s
    if style < 0.15:                                       # one after the other
        order = list(range(n))
        rng.shuffle(order)
        sched = [[k, 1 << 40] for k in order]
    else:
        scale = rng.choice([3, 30, 300, 300, 2000, 6000])
        for _ in range(rng.choice([5, 20, 80, 200])):
            sched.append([rng.randrange(n), max(1, int(rng.expovariate(1.0 / scale)))])
    s['schedule'] = sched
    s['cycle'] = style >= 0.15 and rng.random() < 0.6
    return s


def outcome(sol):
    return (sol.n, float(sol.t), hashlib.sha256(sol.u.tobytes()).hexdigest())


def node_body(node, parent=None):
    """The work of one thread (runs in its own directory)."""
    import dg1d.rk as rk
    import dg1d.deck as deckmod
    d = node['deck']

    def run():
        what = node['what']
        if what == 'child':
            sol = parent.copy()
            _, dk = decks.deck_only(d)
            solver, limiter = decks.arm(sol, dk)
            limiter.limit(sol)
        elif what == 'deckfile':
            dk = deckmod.Deck()
            dk.parser('deck.inp')
            sol = decks.solution_of(dk)
            sol.apply_bc()
            solver, limiter = decks.arm(sol, dk)
            limiter.limit(sol)
        else:
            sol, dk = decks.build(d)
            if node.get('scale'):
                sol.u *= node['scale']
            sol.apply_bc()
            solver, limiter = decks.arm(sol, dk)
            limiter.limit(sol)
        if what == 'byhand':
            # explicit steps of a user, on the solution itself
            for _ in range(12):
                dt = rk.cfl_time_step(sol, d['cfl'] / 4)
                sol.u += dt * solver.residual(sol)
                sol.t += dt
                sol.apply_bc()
                limiter.limit(sol)
                if not np.all(np.isfinite(sol.u)):
                    sys.exit('not finite')
            sol.printer(0, dt)
            return outcome(sol)
        if what == 'copy':
            twin = sol.copy()
            twin.u *= 1.5
            twin.t += 1
            twin.bc_l = 'zerograd'
            if getattr(twin, 'issensing', False):
                twin.sensors.sensors += 1
        rk.integrate(sol, dk, solver, limiter)
        if what == 'reload':
            other, _ = decks.build(d)
            other.loader(d['nout'] - 1)
            other.apply_bc()
            dk2 = decks.build(d)[1]
            dk2.finaltime = other.t + 0.7 * d['T']
            solver, limiter = decks.arm(other, dk2)
            rk.integrate(other, dk2, solver, limiter)
            return outcome(sol) + outcome(other)
        return outcome(sol)
    return run


def budget(s):
    return sum(resid_budget(nd['deck']) for nd in s['nodes'])


def run(s, ctx):
    nodes = s['nodes']
    solo = []
    for nd in nodes:
        root = ctx.dir()
        decks.write(nd['deck'], root)
        parent_deck = nodes[0]['deck']

        def body(w, nd=nd):
            parent = decks.start_parent(parent_deck) if s.get('family') else None
            return node_body(nd, parent)()
        L = ctx.life(body, root, {}, budget=budget(s))
        solo.append((L.status, L.code, L.exc, L.payload, decks.read_all(root)))
        ctx.sim_time += nd['deck']['T']
        if L.status not in ('exit',):
            raise Inconclusive('solo run: %s' % L.brief())
    root = ctx.dir()
    dirs = []
    for i, nd in enumerate(nodes):
        p = os.path.join(root, 'node%d' % i)
        os.makedirs(p)
        decks.write(nd['deck'], p)
        dirs.append(p)

    def together(w):
        parent = decks.start_parent(nodes[0]['deck']) if s.get('family') else None
        before = outcome(parent) if parent is not None else None
        sched = life.Sched(w, s['schedule'], dirs, cycle=s.get('cycle', False))
        results = sched.run([node_body(nd, parent) for nd in nodes], opcodes=s.get('opcodes'))
        for r in results:
            if r[0] == 'harness':
                raise seams.HarnessError(r[2])
        os.chdir(root)
        return results, sched.switches, sched.counts, before, (outcome(parent) if parent is not None else None)
    L = ctx.life(together, root, {}, budget=2 * budget(s), wall=120)
    if L.status == 'livelock':
        raise Violation('stuck', 'the runs no longer terminate when they share a process: %s' % L.exc)
    if not L.ok:
        raise Violation('crash', 'the shared process ended with %s' % L.brief())
    results, switches, counts, before, after = L.payload
    ctx.count('context switches', switches)
    ctx.count('line events', sum(counts))
    ctx.sig(L.log_digest, counts)
    ctx.note(repr(results))
    for i, (r, ref) in enumerate(zip(results, solo)):
        if tuple(r[:2]) != tuple(ref[:2]):
            raise Violation('outcome', 'run %d ends with %r (%s) when it shares the process, alone with %r (%s)'
                            % (i, r[:2], r[2], ref[:2], ref[2]))
        if r[3] != ref[3]:
            raise Violation('state', 'run %d (deck %r) ends in a different state when it shares the process: '
                            'n, t = %r instead of %r' % (i, nodes[i]['deck'], r[3] and r[3][:2], ref[3] and ref[3][:2]))
        diff = diff_files(ref[4], decks.read_all(dirs[i]))
        if diff:
            raise Violation('files', 'run %d (deck %r) writes different output when it shares the process: %s'
                            % (i, nodes[i]['deck'], diff))
    if before != after:
        raise Violation('parent', 'advancing copies changed the solution they were copied from')


def shrinks(s):
    if len(s['nodes']) > 2:
        for k in range(len(s['nodes'])):
            c = put(s, ('nodes',), s['nodes'][:k] + s['nodes'][k + 1:])
            c['schedule'] = [[a - (a > k), q] for a, q in s['schedule'] if a != k]
            yield c
    if s.get('cycle'):
        yield put(s, ('cycle',), False)
    if s.get('opcodes'):
        yield put(s, ('opcodes',), False)
    for k, nd in enumerate(s['nodes']):
        if nd['what'] not in ('run', 'child'):
            yield put(s, ('nodes', k, 'what'), 'run')


from ..engine import put  # noqa: E402

"""A run needs no more memory, files or work the longer it goes on."""
import gc
import os
import resource
import shutil
import sys
import threading
import tracemalloc
import urllib.parse

from .. import decks, history, seams, watch
from ..common import *
from ..engine import put

ID = 'C18'
QUICK = (700, 45)
THOROUGH = (12000, 800)
RULE = ('long integrations with many outputs, and long lives of one process which builds, advances, copies, saves, '
        'reloads and drops (also after a failure) solutions again and again, with few file descriptors to spare; '
        'memory held by dg1d after garbage collection, open files, threads, lines of code per step and I/O operations '
        'per output are sampled along the way and must not keep growing.')
MEASURE = 'distinct (deck, kind of life)'
REAL = 'all of dg1d'
STUB = 'none (standard output goes nowhere)'
ASSUME = ['growth below 5 bytes per time step (of more than a thousand), 1.5 kB per output and 6 kB per round of a process is not counted']


def gen(rng):
    kind = rng.choice(['steps', 'steps', 'outputs', 'outputs', 'cycles', 'cycles', 'cycles', 'long'])
    d = decks.gen(rng, steps=(1, 2), cells_range=(3, 6), nouts=(2, 3), orders=(0, 1, 1, 2))
    if rng.random() < 0.6:
        d.pop('limiting', None)
    if d['rk'] in ('rk10', 'rk12', 'rk14', 'rk8'):
        d['rk'] = rng.choice(['rk3', 'rk4', 'rk5', 'rk6', 'low_storage_rk4'])
    s = {'kind': kind, 'deck': d, 'spare': rng.choice([2, 4, 8])}
    if kind == 'steps':
        d['T'] = decks.dt0(d) * rng.randint(50, 90)
        d['nout'] = rng.choice([2, 3, 7])
    elif kind == 'long':
        d = decks.gen(rng, steps=(1, 2), cells_range=(2, 3), nouts=(2,), orders=(0, 1), sensors=0.1)
        d['rk'] = rng.choice(['rk3', 'rk4', 'low_storage_rk4', 'low_storage_rk4'])
        d['nout'] = 2
        if d.get('riemann') == 'godunov':
            d['riemann'] = 'rusanov'
        if rng.random() < 0.7:
            d.pop('limiting', None)
        d['T'] = decks.dt0(d) * rng.randint(1000, 1600)
        s['deck'] = d
    elif kind == 'outputs':
        d.pop('limiting', None)
        ic = d['ic'].split()
        d['ic'] = ' '.join([ic[0], str(rng.randint(24, 40))] + ic[2:])
        d['nout'] = rng.choice([20, 30, 40])
        d['T'] = decks.dt0(d) * rng.uniform(3, 25)
    else:
        s['what'] = rng.sample(['integrate', 'copy', 'copies', 'load', 'again', 'fail', 'keep', 'keep'], rng.choice([1, 2, 3]))
        s['n'] = rng.choice([8, 10])
        s['others'] = [decks.gen(rng, steps=(1, 2), cells_range=(3, 6), nouts=(2,), orders=(0, 1))
                       for _ in range(rng.choice([0, 0, 1]))]
    return s


STOP_AFTER = 6
MEASURED = True      # a growth of memory that is not seen again when replayed is no violation


def clear(res):
    return res['kind'] != 'memory' or 'clear growth' in res['stats']


class Null:
    def write(self, s):
        return len(s)

    def flush(self):
        pass


class Forget(list):
    def append(self, x):
        pass


HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB = os.path.dirname(os.__file__)
# the harness itself, and what tracing needs
MINE = (HERE + os.sep, tracemalloc.__file__) + tuple(os.path.join(LIB, n) for n in ('linecache.py', 'traceback.py', 'threading.py',
                                                                                                    'pathlib.py'))
# (pathlib interns the parts of every path, and CPython 3.12 never forgets an interned string)


def held():
    """Bytes held by allocations of dg1d and what it calls."""
    urllib.parse.clear_cache()       # numpy's DataSource, bounded
    if gc.isenabled() and 0 < gc.get_threshold()[0] < 100000:
        gc.collect()                 # as would happen by itself, sooner or later
    return sum(t[1] for t in tracemalloc.take_snapshot().traces._traces if not t[2][0][0].startswith(MINE))


def files():
    return len(os.listdir('/proc/self/fd')) - 1


def few(spare):
    """From now on hardly any more file can be open at the same time."""
    soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
    top = max(int(x) for x in os.listdir('/proc/self/fd'))
    resource.setrlimit(resource.RLIMIT_NOFILE, (top + 1 + spare, hard))


class Lines:
    """Counts executed lines of dg1d."""

    def __init__(self):
        self.n = 0

    def glob(self, frame, event, arg):
        from ..life import PKG
        return self.loc if frame.f_code.co_filename.startswith(PKG) else None

    def loc(self, frame, event, arg):
        if event == 'line':
            self.n += 1
        return self.loc


def run(s, ctx):
    d = s['deck']
    root = ctx.dir()

    def long_run(w):
        import dg1d.rk as rk
        sys.stdout = Null()
        w.log = Forget()
        sol, dk, solver, limiter = decks.start(d)
        few(s['spare'])
        lines = Lines()
        rec = []
        seen = [0]
        tracemalloc.start()
        if s['kind'] == 'long':
            every = max(1, int(d['T'] / decks.dt0(d) / 9))

            def on_step(q):
                seen[0] += 1
                if seen[0] % every == 0:
                    rec.append((seen[0], q.n, held(), files(), threading.active_count(), 0, 0))
            rk.integrate(sol, dk, watch.Watch(solver, sol, on_step), limiter)
            tracemalloc.stop()
            return rec

        def on_step(q):
            seen[0] += 1
            sys.settrace(None)
            io, nl = w.nmut + w.nread + w.asked, lines.n
            if s['kind'] == 'outputs' or seen[0] % 5 == 0:
                rec.append((seen[0], q.n, held() if seen[0] % 5 == 0 else None, files(), threading.active_count(), io, nl))
            sys.settrace(lines.glob)
        obs = watch.Watch(solver, sol, on_step)
        sys.settrace(lines.glob)
        try:
            rk.integrate(sol, dk, obs, limiter)
        finally:
            sys.settrace(None)
            tracemalloc.stop()
        return rec

    def cycles(w):
        import dg1d.rk as rk
        sys.stdout = Null()
        w.log = Forget()
        few(s['spare'] + 4)
        rec = []
        kept = [decks.start(dd) for dd in [d] + s['others']]
        tracemalloc.start()
        for j in range(s['n']):
            if 'keep' in s['what']:
                for k in kept:
                    on_and_on(k)
            for dd in [d] + s['others']:
                for what in sorted(set(s['what']) - {'keep'}):
                    cycle(w, dd, what)
            rec.append((j, j, held(), files(), threading.active_count(), 0, 0))
        tracemalloc.stop()
        return rec

    def on_and_on(objects):
        # the same objects, saved, loaded and advanced again and again
        import dg1d.rk as rk
        sol, dk, solver, limiter = objects
        for _ in range(4):
            sol.printer(3, 0.0)
            sol.loader(3)
            sol.apply_bc()
        dk.finaltime = sol.t + 0.3 * d['T']
        rk.integrate(sol, dk, solver, limiter)

    def cycle(w, dd, what):
        import dg1d.rk as rk
        sol, dk, solver, limiter = decks.start(dd)
        if what == 'fail':
            sol.u[0, -1 - len(decks.fields(dd))] = float('nan')
        if what == 'copies':
            for _ in range(5):
                sol = sol.copy()
            return
        if what == 'copy':
            sol = sol.copy()
            solver, limiter = decks.arm(sol, dk)
        if what == 'load':
            sol.printer(3, 0.0)
            other, dk2 = decks.build(dd)
            other.loader(3)
            other.apply_bc()
            return
        dk.finaltime = sol.t + dk.finaltime
        try:
            rk.integrate(sol, dk, solver, limiter)
            if what == 'again':
                for _ in range(3):
                    dk.finaltime += dd['T']
                    rk.integrate(sol, dk, solver, limiter)
        except (SystemExit, FloatingPointError):
            pass
    L = ctx.life(cycles if s['kind'] == 'cycles' else long_run, root, {}, budget=resid_budget(d, 400))
    shutil.rmtree(root)
    ctx.sim_time += d['T'] * (s.get('n') or 1)
    ctx.sig(s['kind'], sorted(d.items(), key=str), s.get('what'))
    if L.status == 'exit' and not L.ok and 'Too many open files' in L.exc:
        raise Violation('files', 'a %s life of %r runs out of files: %s' % (s['kind'], d, L.exc))
    if L.status != 'exit' or not L.ok:
        raise Inconclusive(L.brief())
    rec = L.payload
    if len(rec) < 6:
        raise Inconclusive('short run')
    ctx.note(repr([(r[0], r[1], r[5], r[6]) for r in rec]))
    ctx.note(repr(sorted(s.items(), key=str)))
    ctx.count('samples', len(rec))
    half = rec[len(rec) // 3:]
    mem = [(r[0], r[2]) for r in half if r[2] is not None]
    unit, bound = {'steps': ('time step', 100), 'outputs': ('step with output', 1500),
                   'cycles': ('round', 6000), 'long': ('time step', 5)}[s['kind']]
    if len(mem) >= 3:
        grow = [(b[1] - a[1]) / (b[0] - a[0]) for a, b in zip(mem, mem[1:])]
        rate = sorted(grow)[min(1, len(grow) - 1)]          # a leak grows (nearly) all the time
        total = sorted(grow)[len(grow) // 2]                # (not the mean: one table growing once is no leak)
        ctx.count('memory compared')
        if rate > 0.7 * bound and total > bound:
            if rate > bound and total > 1.5 * bound:
                ctx.count('clear growth')
            raise Violation('memory', 'the memory held grows by %d bytes per %s in a %s life of %r'
                            % (total, unit, s['kind'] + ' ' + ','.join(s.get('what', [])), d))
    for k, name in ((3, 'open files'), (4, 'threads')):
        if half[-1][k] > half[0][k] + 1 and half[-1][k] >= max(r[k] for r in half):
            raise Violation('files' if k == 3 else 'threads', 'the number of %s grows from %d to %d in a %s life of %r'
                            % (name, half[0][k], half[-1][k], s['kind'], d))
    if s['kind'] in ('steps', 'outputs'):
        def cost(k, part):
            a, b = part[0], part[-1]
            return (b[k] - a[k]) / (b[0] - a[0])
        n = len(rec)
        first, last = rec[:n // 3 + 1], rec[-(n // 3 + 1):]
        for k, name, slack in ((6, 'lines executed', 400 if d.get('thresholds') or d.get('riemann') == 'godunov' else 60),
                               (5, 'I/O operations', 20)):
            a, b = cost(k, first), cost(k, last)
            big = 6.0 if slack == 400 else 2.0
            if b > big * a + slack:
                raise Violation('work', 'the number of %s per step grows from %.1f to %.1f in a %s life of %r'
                                % (name, a, b, s['kind'], d))
        if s['kind'] == 'outputs' and d.get('riemann') != 'godunov' and not d.get('thresholds'):
            # the steps that end with an output
            io = [b[5] - a[5] for a, b in zip(rec, rec[1:])]
            out = [b[6] - a[6] for a, b, i in zip(rec, rec[1:], io) if i > 0 and b[0] == a[0] + 1]
            if len(out) >= 12:
                m = len(out) // 3
                a, b = sorted(out[:m])[m // 2], sorted(out[-m:])[m // 2]
                ctx.count('outputs compared')
                if b > 1.15 * a + 15:
                    raise Violation('work', 'an output late in the run costs %d lines instead of %d in %r' % (b, a, d))
        ctx.count('work compared')


def shrinks(s):
    for k in list(s.get('what', []))[1:]:
        yield put(s, ('what',), [x for x in s['what'] if x != k])
    if s.get('others'):
        yield put(s, ('others',), [])

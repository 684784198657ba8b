"""One simulated process ("life"): fork, run a body inside a World, die or report.

A life is a real fork, so a crash (os._exit) loses exactly what a killed process loses:
every Python-level buffer and all memory; only what reached the (simulated) disk survives,
and a restart begins from pristine module state.
"""
import errno
import hashlib
import io
import os
import resource
import pickle
import runpy
import select
import signal
import sys
import threading
import time
import traceback

from . import seams
from .seams import World, BudgetExceeded, HarnessError

REPO = os.path.realpath(os.environ.get('DG1D_REPO', '/repo'))
PKG = os.path.join(REPO, 'dg1d') + os.sep
CODE = (PKG, os.path.join(REPO, 'advection_convergence') + os.sep)

_wall = seams.REAL.get('time.monotonic', time.monotonic)


def short(name):
    return name[len(PKG):] if name.startswith(PKG) else name[len(REPO) + 1:]


class Life:
    """What is known about a finished life."""

    def __init__(self, d):
        self.__dict__.update(d)

    @property
    def ok(self):
        return self.status == 'exit' and self.code == 0

    def brief(self):
        s = '%s code=%s' % (self.status, self.code)
        if self.exc:
            s += ' (%s)' % self.exc
        return s


# ------------------------------------------------------------------ line events
class Lines:
    """Counts the line events of dg1d code and acts at some of them.

    at: {line number in the sequence: action}; action is 'memory', 'interrupt', 'crash'.
    """

    def __init__(self, world, at=None, budget=None, opcodes=False, sched=None, record=False, place=None):
        self.world = world
        self.places = {} if record else None      # (file, line) -> times executed
        self.place = place                        # (file, line, occurrence, action)
        self.seen = 0
        self.at = at or {}
        self.budget = budget
        self.n = 0
        self.opcodes = opcodes
        self.sched = sched

    def enable(self):
        sys.settrace(self._global)

    def disable(self):
        sys.settrace(None)

    def _global(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(CODE):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self._local

    def _local(self, frame, event, arg):
        if event == 'line' or event == 'opcode':
            self.n += 1
            if self.sched is not None:
                self.sched.tick()
            if self.places is not None:
                key = (short(frame.f_code.co_filename), frame.f_lineno)
                self.places[key] = self.places.get(key, 0) + 1
            if self.place is not None and frame.f_lineno == self.place[1] \
                    and short(frame.f_code.co_filename) == self.place[0]:
                self.seen += 1
                if self.seen == self.place[2]:
                    self._act(self.place[3], frame)
            if self.at and self.n in self.at:
                self._act(self.at[self.n], frame)
            if self.budget is not None and self.n > self.budget:
                raise BudgetExceeded('%d line events' % self.n)
        return self._local

    def _act(self, action, frame):
        w = self.world
        w.log.append(('line-fault', action, self.n))
        if action == 'crash':
            w.count('crash:at-line')
            w.die()
        w.count('line:%s' % action)
        if action == 'memory':
            raise MemoryError('simulated allocation failure')
        if action == 'interrupt':
            handler = signal.getsignal(signal.SIGINT)
            if callable(handler) and handler is not signal.default_int_handler:
                return handler(signal.SIGINT, frame)      # dg1d's own
            raise KeyboardInterrupt()
        if action == 'term':
            handler = signal.getsignal(signal.SIGTERM)
            if not callable(handler):
                w.die()
            return handler(signal.SIGTERM, frame)
        raise HarnessError('unknown line action %r' % action)


# ------------------------------------------------------------------ scheduler
class Sched:
    """Cooperative scheduler over real threads parked on locks: one runs at a time and
    the recorded schedule decides which, and for how many line events."""

    def __init__(self, world, schedule, dirs, cycle=False):
        self.world = world
        self.schedule = [tuple(s) for s in schedule]
        self.dirs = dirs
        self.n = len(dirs)
        self.cycle = cycle and any(q > 0 for _, q in self.schedule)
        self.locks = [threading.Lock() for _ in range(self.n)]
        for l in self.locks:
            l.acquire()
        self.done = [False] * self.n
        self.started = [False] * self.n
        self.current = None
        self.left = 0
        self.pos = 0
        self.switches = 0
        self.trail = []
        self.all_done = threading.Lock()
        self.all_done.acquire()
        self.ident = {}

    def _next(self):
        if self.cycle and self.pos >= len(self.schedule) and any(
                not self.done[w] for w, q in self.schedule if w < self.n and q > 0):
            self.pos = 0
        while self.pos < len(self.schedule):
            who, q = self.schedule[self.pos]
            self.pos += 1
            if who < self.n and not self.done[who] and q > 0:
                return who, q
        for who in range(self.n):
            if not self.done[who]:
                return who, 1 << 60
        return None, 0

    def _give(self, who, q):
        if who != self.current:
            self.switches += 1
        self.current = who
        self.left = q
        self.trail.append((who, q))
        self.world.log.append(('run', '', who))
        os.chdir(self.dirs[who])

    def tick(self):
        self.left -= 1
        if self.left > 0:
            return
        me = self.current
        who, q = self._next()
        self._give(who, q)
        if who != me:
            self.locks[who].release()
            self.locks[me].acquire()

    def finished(self, me):
        self.done[me] = True
        who, q = self._next()
        if who is None:
            self.all_done.release()
            return
        self._give(who, q)
        self.locks[who].release()

    def run(self, bodies, opcodes=False, budget=None):
        """bodies[i]() -> payload; returns the list of (status, code, exc, payload)."""
        results = [None] * self.n
        counts = [0] * self.n

        def main(i):
            self.locks[i].acquire()
            lines = Lines(self.world, opcodes=opcodes, sched=self, budget=budget)
            try:
                lines.enable()
                try:
                    results[i] = guarded(bodies[i])
                finally:
                    lines.disable()
            finally:
                counts[i] = lines.n
                self.finished(i)
        threads = [threading.Thread(target=main, args=(i,), daemon=True) for i in range(self.n)]
        for t in threads:
            t.start()
        who, q = self._next()
        self._give(who, q)
        self.locks[who].release()
        self.all_done.acquire()
        for t in threads:
            t.join()
        self.counts = counts
        return results


def guarded(body):
    """Run body; classify how it ended: (status, code, exc, payload)."""
    try:
        return ('exit', 0, '', body())
    except SystemExit as e:
        if e.code is None or e.code == 0:
            return ('exit', 0, 'SystemExit(%r)' % (e.code,), None)
        code = e.code if isinstance(e.code, int) else 1
        return ('exit', code, 'SystemExit: %s' % str(e.code).strip()[:200], None)
    except BudgetExceeded as e:
        return ('livelock', None, str(e), None)
    except HarnessError:
        return ('harness', None, traceback.format_exc()[-3000:], None)
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        if not any(f.filename.startswith(CODE) for f in tb):
            return ('harness', None, traceback.format_exc()[-3000:], None)
        where = [f for f in tb if f.filename.startswith(CODE)][-1]
        return ('exit', 1, '%s: %s [%s:%s]' % (type(e).__name__, str(e)[:160],
                                              os.path.basename(where.filename), where.name), None)


def run_main(deck='deck.inp', call='-d'):
    """Body: the shipped program, as the user starts it."""
    old = sys.argv
    sys.argv = [os.path.join(REPO, 'dg1d', 'main.py')]
    if call == 'none' and deck == 'deck.inp':
        pass
    elif call in ('--deck=', '-d='):
        sys.argv += [('--deck=' if call == '--deck=' else '-d') + deck]
    else:
        sys.argv += ['-d' if call == 'none' else call, deck]
    try:
        g = runpy.run_path(sys.argv[0], run_name='__main__')
        g.clear()
    finally:
        sys.argv = old
    return None


def step_budget(limit):
    """Bound the number of residual evaluations (a livelocked run must not hang us)."""
    import dg1d.dg as dg
    real = dg.DG.residual
    n = [0]

    def count():
        n[0] += 1
        if n[0] > limit:
            raise BudgetExceeded('%d residual evaluations' % n[0])

    def residual(self, *a, **k):
        count()
        return real(self, *a, **k)
    dg.DG.residual = residual
    global tick
    tick = count
    return n


def tick():
    """Stand-ins for the spatial operator call this once per evaluation."""


def run_life(body, root, plan=None, lines=None, invariant=None, wall=60.0, budget=200000,
             setup=None):
    """Fork a life.  body(world) runs in root; returns a Life.

    lines: None or {'at': {n: action}}, {'place': (file, line, occurrence, action)}, {'record': True}, {'count': True}.
    invariant(world): called after every mutating I/O event; returns a problem or None.
    """
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        status = 99
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            _child(body, root, plan or {}, lines, invariant, w, budget, setup)
            status = 0
        except BaseException:
            try:
                _send(w, {'status': 'harness', 'exc': traceback.format_exc()[-3000:]})
            except BaseException:
                pass
        finally:
            seams.REAL.get('os._exit', os._exit)(status)
    os.close(w)
    data = b''
    deadline = _wall() + wall
    timed_out = False
    while True:
        left = deadline - _wall()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            timed_out = True
            break
        chunk = os.read(r, 1 << 16)
        if not chunk:
            break
        data += chunk
    if timed_out:
        os.kill(pid, signal.SIGKILL)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    base = dict(status='harness', code=None, exc='', payload=None, log_digest='', fired={},
                nmut=0, nread=0, lines=0, out='', problems=[], nlog=0, resid=0, notes=[], places=None, probed=[])
    if timed_out:
        if lines is None or not lines.get('budget'):
            # decide deterministically whether it makes progress at all
            l2 = dict(lines or {})
            l2['budget'] = 4000000
            again = run_life(body, root, plan, l2, invariant, wall=wall * 4, budget=budget, setup=setup)
            if again.status == 'livelock':
                return again
        base['exc'] = 'wall timeout after %g s' % wall
        base['status'] = 'timeout'
        return Life(base)
    if not data:
        base['exc'] = 'life ended without a report (wait status %r)' % (st,)
        return Life(base)
    base.update(pickle.loads(data))
    return Life(base)


def _send(fd, obj):
    data = pickle.dumps(obj)
    while data:
        n = seams.REAL['os.write'](fd, data)
        data = data[n:]


def _child(body, root, plan, lines, invariant, fd, budget, setup):
    os.chdir(root)
    os.environ['HOME'] = os.path.join(os.path.realpath(root), 'home')
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    world = World(root, plan)
    seams.enter(world)
    out = seams.SimOut(world)
    problems = []
    if invariant is not None:
        def after(wd):
            p = invariant(wd)
            if p and len(problems) < 5:
                problems.append((wd.nmut, p))
        world.after_mut = after
    real_out, real_err = sys.stdout, sys.stderr
    sys.stdout = out
    sys.stderr = io.StringIO()
    hook = None
    if lines is not None:
        hook = Lines(world, at=lines.get('at'), budget=lines.get('budget'), record=lines.get('record'),
                     place=lines.get('place'))

    def report(status, code, exc, payload):
        h = hashlib.sha256()
        for e in world.log:
            h.update(repr(e).encode())
        return {'status': status, 'code': code, 'exc': exc, 'payload': payload,
                'log_digest': h.hexdigest(), 'nlog': len(world.log), 'fired': world.fired,
                'nmut': world.nmut, 'nread': world.nread, 'lines': hook.n if hook else 0,
                'out': out.text()[-20000:], 'problems': problems, 'resid': count[0],
                'notes': world.notes, 'probed': sorted(world.probed),
                'places': sorted(hook.places.items()) if hook and hook.places is not None else None}

    def crash():
        world.quiet = True
        _send(fd, report('crash', World.CRASH_STATUS, '', None))
    world.on_crash = crash

    def leave_at_once(status):
        if hook is not None:
            hook.disable()
        _send(fd, report('exit', status, 'os._exit', None))
    world.on_exit = leave_at_once
    sys.stdin = seams.standard_input(plan.get('stdin', ''))
    count = step_budget(budget)
    if setup is not None:
        setup(world)
    if hook is not None:
        hook.enable()
    result = guarded(lambda: body(world))
    if hook is not None:
        hook.disable()
    seams.finalize_files()
    rep = report(*result)
    seams.leave()
    sys.stdout, sys.stderr = real_out, real_err
    _send(fd, rep)

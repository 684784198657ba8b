"""Exactly the requested outputs, at the requested times."""
import numpy as np

from .. import decks, timing
from ..common import *
from ..engine import put

ID = 'C03'
QUICK = (2400, 40)
THOROUGH = (60000, 800)
RULE = ('runs of the integrator whose wave speed (hence time step) follows an arbitrary scripted history, started at '
        'arbitrary n and t, with any number of outputs, plus time steps that divide the output interval exactly and '
        'real runs; non-trivial: at least one time step and two outputs.')
MEASURE = 'distinct sequences of (steps between outputs)'
REAL = 'dg1d integrator, solution, printer, sensors and (kinds real/main) everything else'
STUB = 'in kind "script" the spatial operator is a scripted one and the limiter does nothing'


def gen(rng):
    return timing.gen(rng)


def run(s, ctx):
    d = s['deck']
    L = timing.observe(s, ctx)
    if L.status == 'livelock':
        raise Violation('stuck', 'the integration does not end within %s' % L.exc)
    if L.status != 'exit':
        raise Inconclusive(L.brief())
    if L.code != 0:
        if s['kind'] == 'script':
            raise Violation('failed', 'the integration of %r failed: %s' % (s, L.exc))
        raise Inconclusive(L.brief())
    want = sorted(decks.output_names(d))
    have = decks.dat_files(L.root)
    if have != want:
        extra = sorted(set(have) - set(want))
        missing = sorted(set(want) - set(have))
        raise Violation('names', '%d outputs requested: missing %s, unexpected %s' % (d['nout'], missing[:4], extra[:4]))
    times = np.linspace(L.t0, L.tf, d['nout'])
    tol = 1e-11 * max(abs(L.tf), 1e-300) + 1e-9 * d['T']
    last = -1
    ns = []
    for k in range(d['nout']):
        head, xc, out = decks.read_snapshot(L.root, d, k)
        ns.append(head['n'])
        if not abs(head['t'] - times[k]) <= tol:
            raise Violation('time', 'output %d of %d is at time %r instead of %r' % (k, d['nout'], head['t'], times[k]))
        if head['n'] < last or (k == 0 and head['n'] != L.n0):
            raise Violation('step-number', 'output %d is labelled step %d (previous output: %d)' % (k, head['n'], last))
        last = head['n']
        if d.get('thresholds'):
            h2, a = decks.parse(decks.slurp(os.path.join(L.root, decks.fname('sensor', k))))
            if (h2['n'], h2['t']) != (head['n'], head['t']):
                raise Violation('time', 'the sensor output %d is labelled n=%d, t=%r' % (k, h2['n'], h2['t']))
    if L.rec is not None:
        rec, snaps, bad, dx, n, t = L.rec
        if bad:
            raise Violation('content', bad[0])
        if len(snaps) != d['nout']:
            raise Violation('names', '%d readable snapshots' % len(snaps))
        if not abs(t - L.tf) <= tol:
            raise Violation('end', 'the solution is left at t=%r instead of %r' % (t, L.tf))
        if n != ns[-1]:
            raise Violation('end', 'the solution is left at step %d, its last output at step %d' % (n, ns[-1]))
        ctx.count('steps', len(rec) - 1)
        ctx.count('outputs', d['nout'])
        for i in range(1, len(rec)):
            if rec[i][1] == rec[i - 1][1]:
                ctx.count('probe zero-length step')
    ctx.sig(tuple(np.diff(ns)))


def shrinks(s):
    if s.get('speeds') and len(s['speeds']) > 1:
        for k in range(len(s['speeds'])):
            yield put(s, ('speeds',), s['speeds'][:k] + s['speeds'][k + 1:])
        yield put(s, ('speeds',), [1.0])
    if s.get('via'):
        yield put(s, ('via',), None)
    if s.get('start') not in (None, [0, 0.0]):
        yield put(s, ('start',), [0, 0.0])

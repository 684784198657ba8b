"""A crash at any instant leaves only whole snapshots, and a rerun repairs everything."""
import os

from .. import decks, history
from ..common import *
from ..engine import put

ID = 'C07'
QUICK = (700, 50)
THOROUGH = (16000, 800)
RULE = ('the shipped program killed before, after or in the middle of an I/O system call or at an arbitrary line of '
        'its code, up to three times, in a clean directory or over the results of an earlier run; after every I/O '
        'event and after every death each visible snapshot file must be whole; a final rerun must produce what an '
        'undisturbed run does.')
MEASURE = 'distinct crash instants (event log and line count at death)'
ASSUME = ['crash model: the process dies (kill, power cut of the process, exit of the batch job); data handed to the '
          'operating system survives, data in process buffers is lost']


def gen(rng):
    d = decks.gen(rng, steps=(1, 4), cells_range=(3, 24), nouts=(2, 3, 4))
    s = {'deck': d, 'crashes': [], 'old': None, 'io': {}}
    for _ in range(rng.choice([1, 1, 2, 3])):
        if rng.random() < 0.75:
            s['crashes'].append({'at': rng.randint(1, 80), 'when': rng.choice(['before', 'after', 'torn', 'torn']),
                                 'frac': rng.choice([0.0, 0.1, 0.5, 0.9, 0.99])})
            if rng.random() < 0.2:
                # something fails before
                s['crashes'][-1]['error'] = [rng.choice(['rename', 'rename', 'write', 'close', 'open-write']),
                                             ERRNOS[rng.choice(['ENOSPC', 'EIO', 'EACCES'])], rng.random() < 0.5]
                s['crashes'][-1]['at'] = rng.randint(1, 40)
        else:
            s['crashes'].append({'line': int(10 ** rng.uniform(0.5, 4.5))})
    if rng.random() < 0.5:
        e = dict(d)
        e['T'] = d['T'] * rng.choice([0.5, 1.0, 2.0])
        e['cfl'] = d['cfl'] * rng.choice([0.7, 1.0])
        e['nout'] = rng.choice([2, 3, 5])
        if rng.random() < 0.5:
            o = decks.gen(rng, steps=(1, 3), cells_range=(3, 24), nouts=(2, 3, 4), systems=(d['system'],))
            e = rng.choice([o, dict(e, order=o['order'], ic=o['ic'], limiting=None, enhance=None, T=o['T'], cfl=o['cfl'])])
            e = {k: v for k, v in e.items() if v is not None}
        s['old'] = e
    if rng.random() < 0.5:
        s['io'] = io_shape(rng)
        s['io'].pop('short_read', None)
    return s


def run(s, ctx):
    d = s['deck']
    base, new = baseline(ctx, d)
    if base.status != 'exit':
        raise Inconclusive(base.brief())
    root = ctx.dir()
    old = {}
    if s['old']:
        L = main_life(ctx, s['old'], root, budget=resid_budget(s['old']))
        if L.status != 'exit':
            raise Inconclusive('old run: %s' % L.brief())
        old = decks.read_all(root)
    allowed = {}
    for files in (old, new):
        for n, data in files.items():
            allowed.setdefault(n, set()).add(data)
    names = set(new) | set(old)

    def whole():
        """Problem with a visible snapshot file, or None."""
        for n, data in decks.read_all(root).items():
            if n not in allowed:
                return 'a file %s appeared which no complete run writes' % n
            if data not in allowed[n]:
                return '%s is visible with %d of %d bytes%s' % (
                    n, len(data), max(len(x) for x in allowed[n]), ' (other contents)')
        return None

    def invariant(w):
        return whole()
    decks.write(d, root)
    for c in s['crashes']:
        plan = {'io': dict(s['io']), 'exdev': True}
        lines = None
        if 'line' in c:
            lines = {'at': {c['line']: 'crash'}}
        else:
            plan['io']['faults'] = [{'at': c['at'], 'do': 'crash', 'when': c['when'], 'frac': c['frac']}]
            if c.get('error'):
                kind, no, once = c['error']
                plan['io']['faults'].append({'at': 1, 'sticky': True, 'once': once, 'kinds': [kind], 'do': 'error', 'errno': no})
        L = main_life(ctx, d, root, plan, write=False, lines=lines, invariant=invariant, budget=resid_budget(d))
        ctx.sig(L.log_digest, L.lines)
        ctx.count('deaths' if L.status == 'crash' else 'survived')
        if L.status == 'livelock':
            raise Violation('stuck', 'the run of %r does not end' % d)
        if L.problems:
            raise Violation('torn', 'during the run of %r, after I/O event %d: %s' % (d, L.problems[0][0], L.problems[0][1]))
        p = whole()
        if p:
            raise Violation('torn', 'after the death (%s) of the run of %r: %s' % (
                'line %s' % c.get('line') if 'line' in c else '%s I/O event %d' % (c['when'], c['at']), d, p))
        for n in set(old) - set(decks.read_all(root)):
            if n not in new:
                raise Violation('lost', '%s of an earlier run disappeared' % n)
            raise Violation('lost', 'after the death the earlier %s is gone and no new one is there' % n)
    L = main_life(ctx, d, root, {'io': dict(s['io'])}, write=False, invariant=invariant, budget=resid_budget(d))
    if L.problems:
        raise Violation('torn', 'during the rerun of %r: %s' % (d, L.problems[0][1]))
    if (L.status, L.code) != (base.status, base.code):
        raise Violation('rerun', 'the rerun ends with %s, an undisturbed run with %s' % (L.brief(), base.brief()))
    want = dict(old)
    want.update(new)
    diff = diff_files(want, decks.read_all(root))
    if diff:
        raise Violation('rerun', 'after a rerun of %r: %s' % (d, diff))


def shrinks(s):
    if s['old']:
        yield put(s, ('old',), None)
    if s['io']:
        yield put(s, ('io',), {})
    for k, c in enumerate(s['crashes']):
        if c.get('error'):
            yield put(s, ('crashes', k, 'error'), None)
        for a in (1, 2, c.get('at', 0) // 2, c.get('at', 0) - 1):
            if 'at' in c and 0 < a < c['at']:
                yield put(s, ('crashes', k, 'at'), a)

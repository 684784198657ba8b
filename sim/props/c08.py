"""A failed system call, allocation or an interrupt never passes as success."""
from .. import decks
from ..common import *
from ..engine import put

ID = 'C08'
QUICK = (1400, 60)
THOROUGH = (20000, 800)
RULE = ('the shipped program with one or more injected failures: ENOSPC, EIO, EDQUOT, EACCES, EMFILE, EROFS on open, '
        'write (also after a partial write), close, rename or read, once or from then on; failing allocation or '
        'interrupt at an arbitrary moment, or at an arbitrary line of the code (each line equally likely); standard output on a full disk; git unavailable.  If the program reports '
        'success every output must be there and right; in any case every snapshot file must be whole.')
MEASURE = 'distinct event logs and line counts'


def gen(rng):
    d = decks.gen(rng, steps=(1, 4), cells_range=(3, 24), nouts=(2, 3, 4))
    s = {'deck': d, 'plan': {'io': io_shape(rng) if rng.random() < 0.4 else {}}, 'lines': {}}
    io = s['plan']['io']
    kind = rng.choice(['io', 'io', 'io', 'io', 'line', 'place', 'place', 'place', 'stdout', 'read', 'two', 'chain'])
    faults = []
    if kind in ('io', 'two'):
        for _ in range(1 if kind == 'io' else 2):
            f = {'at': rng.randint(1, 70), 'do': 'error',
                 'errno': ERRNOS[rng.choice(['ENOSPC', 'ENOSPC', 'EIO', 'EDQUOT', 'EACCES', 'EMFILE', 'EROFS'])]}
            if rng.random() < 0.4:
                f['sticky'] = True
            if rng.random() < 0.4:
                f['partial'] = rng.choice([0.01, 0.5, 0.99])
            if rng.random() < 0.5:
                f['kinds'] = [rng.choice(['write', 'close', 'rename', 'open-write'])]
                f['sticky'] = rng.random() < 0.7
                if f['sticky']:
                    f['at'] = rng.randint(1, 40)
            faults.append(f)
    if kind == 'chain':
        # what is done about a failure fails as well
        faults.append({'at': 1, 'sticky': True, 'kinds': [rng.choice(['rename', 'write', 'close', 'open-write'])], 'do': 'error',
                       'errno': ERRNOS[rng.choice(['ENOSPC', 'EIO', 'EACCES', 'EDQUOT'])],
                       'then': {'do': 'error', 'errno': ERRNOS[rng.choice(['ENOSPC', 'EIO'])], 'partial': rng.choice([0.01, 0.5, 0.99]),
                                'kinds': [rng.choice(['write', 'write', 'close', 'rename', 'open-write', 'unlink'])]}})
        if rng.random() < 0.3:
            faults[0].update(at=rng.randint(1, 60))
        if rng.random() < 0.3:
            faults[0]['once'] = True
    if kind == 'read':
        faults.append({'class': 'read', 'at': rng.randint(1, 4), 'do': 'error', 'errno': ERRNOS['EIO']})
    if kind in ('line', 'two'):
        s['lines'] = {'n': int(10 ** rng.uniform(0.5, 4.5)), 'do': rng.choice(['memory', 'memory', 'interrupt', 'interrupt', 'term'])}
    if kind == 'place' or kind == 'two' and rng.random() < 0.5:
        s['lines'] = {'places': [[round(rng.random(), 4), rng.choice(['first', 'first', 'last', round(rng.random(), 3)]),
                                  rng.choice(['memory', 'memory', 'memory', 'interrupt', 'interrupt', 'term'])]
                                 for _ in range(8 if kind == 'place' else 1)]}
    if kind == 'stdout':
        s['plan']['stdout_fail'] = rng.randint(1, 60)
    if rng.random() < 0.1:
        s['plan']['git'] = rng.choice(['missing', 'noproc', 'fail'])
    io['faults'] = faults
    s['plan']['exdev'] = rng.random() < 0.5
    return s


def run(s, ctx):
    d = s['deck']
    base, new = baseline(ctx, d, lines={'record': True} if 'places' in s['lines'] else None)
    if base.status != 'exit':
        raise Inconclusive(base.brief())
    if 'places' in s['lines']:
        for frac, occ, do in s['lines']['places']:
            name, line, k = pick_place(base.places, frac, occ)
            ctx.sig('place', name, line)
            once(s, ctx, base, new, {'place': (name, line, k, do)})
    elif s['lines']:
        once(s, ctx, base, new, {'at': {s['lines']['n']: s['lines']['do']}})
    else:
        once(s, ctx, base, new, None)


def once(s, ctx, base, new, lines):
    d = s['deck']
    root = ctx.dir()
    L = main_life(ctx, d, root, s['plan'], lines=lines, budget=resid_budget(d))
    ctx.sig(L.log_digest, L.lines)
    hit = any(k.startswith(('error:', 'line:', 'spawn:')) for k in L.fired)
    ctx.count('runs hit by a fault' if hit else 'runs the fault missed')
    if L.status == 'livelock':
        raise Violation('stuck', 'after %s the run of %r does not end' % (L.fired, d))
    files = decks.read_all(root)
    at = ' (%s at %s:%d, execution %d)' % (lines['place'][3], *lines['place'][:3]) if lines and 'place' in lines else ''
    faults = ', '.join(k for k in sorted(L.fired) if not k.startswith(('dirty', 'short', 'clock'))) + at
    if L.code == 0:
        ctx.count('reported success')
        if base.code != 0:
            raise Violation('success', 'the run of %r succeeds with %s, undisturbed it fails (%s)' % (d, faults, base.brief()))
        diff = diff_files(new, files)
        if diff:
            raise Violation('success', 'the run of %r reports success in spite of %s, but %s' % (d, faults, diff))
        return
    ctx.count('reported failure')
    if not hit and base.code == 0:
        raise Violation('failure', 'the run of %r fails without any fault: %s' % (d, L.brief()))
    if base.code == 0 and set(k for k in L.fired if k.startswith(('error:', 'line:', 'spawn:'))) <= {
            'spawn:ENOENT', 'spawn:EAGAIN', 'spawn:exit128'}:
        raise Violation('failure', 'the run of %r fails because git is not there: %s' % (d, L.brief()))
    for n, data in files.items():
        if n not in new:
            raise Violation('torn', 'after %s there is a file %s which no complete run writes' % (faults, n))
        if new[n] != data:
            raise Violation('torn', 'after %s the file %s holds %d of %d bytes or other contents' % (
                faults, n, len(data), len(new[n])))


def shrinks(s):
    io = s['plan'].get('io', {})
    for k in ('short_write', 'short_read', 'bufsize'):
        if k in io:
            p = dict(io)
            del p[k]
            yield put(s, ('plan', 'io'), p)
    for k in list(s['plan']):
        if k not in ('io',):
            p = dict(s['plan'])
            del p[k]
            yield put(s, ('plan',), p)
    if s['lines']:
        yield put(s, ('lines',), {})
        if len(s['lines'].get('places', [])) > 1:
            for x in s['lines']['places']:
                yield put(s, ('lines', 'places'), [x])
    for i, f in enumerate(io.get('faults', [])):
        for k in ('partial', 'sticky', 'kinds'):
            if k in f:
                g = dict(f)
                del g[k]
                yield put(s, ('plan', 'io', 'faults', i), g)
        for a in (1, 2, f['at'] // 2, f['at'] - 1):
            if 0 < a < f['at']:
                yield put(s, ('plan', 'io', 'faults', i, 'at'), a)

"""The output depends on the deck alone."""
import json
import os
import random

from .. import decks, engine, life
from ..common import *
from ..engine import put

ID = 'C02'
QUICK = (420, 50)
THOROUGH = (9000, 800)
IRREPRODUCIBLE_IS_VIOLATION = True
RULE = ('one deck run in a clean environment and again in a disturbed one: directory with leftovers, clock set wrong, '
        'jumping or running backwards, other entropy and garbage in fresh allocations, another machine (environment variables, processors, names), git missing or failing, earlier '
        '(also failed or interrupted) runs in the same process, another hash seed in a fresh interpreter, short '
        'writes and reads, deck elsewhere; every output file must be the same to the byte and no bystander touched.')
MEASURE = 'distinct event logs of disturbed runs'


def gen(rng):
    d = decks.gen(rng, steps=(1, 5), cells_range=(3, 10))
    s = {'deck': d, 'plan': {}, 'dirty': [], 'history': [], 'deckpath': 'deck.inp'}
    plan = s['plan']
    on = lambda p: rng.random() < p
    if on(0.5):
        plan['clock'] = clock(rng)
    if on(0.5):
        plan['entropy'] = rng.randrange(1 << 30)
    if on(0.4):
        plan['git'] = rng.choice(['missing', 'noproc', 'fail', 'v9.9'])
    if on(0.4):
        plan['io'] = io_shape(rng)
    if on(0.5):
        plan['machine'] = rng.randrange(1 << 30)
    if on(0.5):
        for _ in range(rng.randint(1, 4)):
            s['dirty'].append(leftover(rng, d))
    if on(0.5):
        for _ in range(rng.randint(1, 3)):
            h = {'deck': decks.gen(rng, steps=(1, 3), cells_range=(3, 6), nouts=(2, 3)),
                 'end': rng.choice(['ok', 'ok', 'interrupt', 'memory', 'broken-deck'])}
            if on(0.3):
                h['deck'] = dict(d)
            if on(0.4):
                e = dict(d)
                w = e['ic'].split()
                e['ic'] = ' '.join([w[0], str(max(2, int(w[1]) - rng.randint(1, 3)))] + w[2:])
                h['deck'] = e
            h['at'] = rng.randint(1, 8000)
            h['here'] = on(0.3)
            s['history'].append(h)
    if on(0.3):
        plan['stdin'] = rng.choice(['0\n', 'q\n', 'cfl 0.01\n', '#order\n0\n#Courant-Friedrichs-Lewy condition\n0.01\n', 'deck.inp\n', 'no\n' * 100])
    if on(0.15):
        s['hashseed'] = rng.randrange(1, 100000)
        s['history'] = []
    s['plant'] = rng.randrange(1, 1 << 30) if on(0.6) else 0
    if on(0.3):
        s['deckpath'] = rng.choice(['sub/deck.inp', 'my deck.inp', '../other.inp'])
    return s


def leftover(rng, d):
    kind = rng.choice(['stale', 'stale', 'tmp', 'garbage', 'bystander', 'bystander', 'partial'])
    f = rng.choice(decks.fields(d) + ['sensor'] + rng.choice([[], ['u', 'rho', 'rhou', 'E']]))
    k = rng.randrange(0, d['nout'] + 3)
    return [kind, f, k, rng.randrange(1 << 20)]


def make_dirty(root, s):
    """Leftovers of earlier use; returns {name: bytes}."""
    out = {}
    for kind, f, k, seed in s['dirty']:
        r = random.Random(seed)
        name = decks.fname(f, k)
        if kind == 'stale':
            data = b'# n=7, t=3.000000000000000000e+00, bc_l=periodic, bc_r=periodic\n# xc, u0\n' + \
                b''.join(b'%.18e,%.18e\n' % (r.random(), r.random()) for _ in range(r.randint(1, 200)))
        elif kind == 'tmp':
            name += '.tmp'
            data = b'x' * r.randint(0, 20000)
        elif kind == 'garbage':
            data = bytes(r.randrange(256) for _ in range(r.randint(0, 4000)))
        elif kind == 'partial':
            data = b'# n=7, t=3.0'
        else:
            name = r.choice(['notes.txt', 'u.dat', 'rho.dat', 'data.csv', 'constants.py', 'u0000000001.dat.bak',
                             'rho00000000012.dat', 'numpy_notes', 'restart.inp', '.hidden', 'deck.inp.local', 'local.inp',
                             'deck.inp~', 'default.inp', 'mine.tmp', 'scratch.tmp', 'core', 'E.npy', 'x.pyc', 'dg1d.cfg', '.dg1drc', 'logfile', 'STOP', 'cfl'])
            data = bytes(r.randrange(256) for _ in range(r.randint(0, 300)))
        if r.random() < 0.05 and kind == 'bystander':
            name = 'dir_' + name
        with open(os.path.join(root, name), 'wb') as fh:
            fh.write(data)
        out[name] = data
    return out


def plant(base, root, target, seed):
    """Files that the clean run asked for in vain."""
    r = random.Random(seed)
    n = 0
    for name in base.probed:
        for top in {root, os.path.dirname(target)}:
            p = os.path.normpath(os.path.join(top, name))
            if name.endswith('.tmp') or os.path.lexists(p):
                continue
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w') as f:
                f.write(r.choice(['', '0', '1\n', '0.01\n', '#order\n0\n#Courant-Friedrichs-Lewy condition\n0.01\n',
                                  'cfl = 0.01\norder = 0\nthresholds = [0, 0]\n', '{"cfl": 0.01, "order": 0}\n',
                                  '[dg1d]\ncfl = 0.01\norder = 0\n', 'what is this?\n',
                                  '# n=3, t=1.0, bc_l=periodic, bc_r=periodic\n# xc, u0\n0.5,1.0\n']))
            n += 1
    return n


def disturbed(s, where):
    """Body of the disturbed life (cwd = where)."""
    def body(w):
        for i, h in enumerate(s['history']):
            sub = where if h['here'] else os.path.join(where, 'earlier%d' % i)
            os.makedirs(sub, exist_ok=True)
            os.chdir(sub)
            name = 'hist%d.inp' % i
            with_text = decks.text(h['deck'])
            if h['end'] == 'broken-deck':
                with_text = with_text.replace('#order\n', '#order\nnone')
            w.quiet = True
            with open(name, 'w') as f:
                f.write(with_text)
            w.quiet = False
            hook = None
            if h['end'] in ('interrupt', 'memory'):
                hook = life.Lines(w, at={h['at']: h['end']})
                hook.enable()
            try:
                life.guarded(lambda: life.run_main(name))
            finally:
                if hook:
                    hook.disable()
            if h['here']:
                # what the earlier run left here is its own business
                w.quiet = True
                for n in os.listdir('.'):
                    if n.endswith('.dat') or n.endswith('.tmp'):
                        os.remove(n)
                os.remove(name)
                w.quiet = False
                dirty = make_dirty_quiet(w, where, s)
            os.chdir(where)
        w.fired['history'] = w.fired.get('history', 0) + len(s['history'])
        life.run_main(s['deckpath'])
    return body


def make_dirty_quiet(w, where, s):
    w.quiet = True
    try:
        return make_dirty(where, s)
    finally:
        w.quiet = False


def run(s, ctx):
    d = s['deck']
    base, files = baseline(ctx, d)
    if base.status != 'exit':
        raise Inconclusive('baseline: %s' % base.brief())
    top = ctx.dir()
    root = os.path.join(top, 'run')
    os.makedirs(root)
    target = os.path.normpath(os.path.join(root, s['deckpath']))
    os.makedirs(os.path.dirname(target), exist_ok=True)
    dirty = make_dirty(root, s)
    with open(target, 'w') as f:
        f.write(decks.text(d))
    if s.get('plant'):
        ctx.count('env planted file', plant(base, root, target, s['plant']))
    nb = resid_budget(d) + sum(resid_budget(h['deck']) for h in s['history'])
    if s.get('hashseed') is not None:
        job = os.path.join(top, 'job.json')
        with open(job, 'w') as f:
            json.dump({'deckpath': s['deckpath'], 'plan': s['plan'], 'root': root, 'budget': nb}, f)
        p = engine.fresh(['one_life', job], hashseed=s['hashseed'])
        ctx.count('fault hash-seed')
        out = p.stdout.decode()
        if 'LIFE ' not in out:
            raise engine.HarnessError(out[-2000:])
        status, code = json.loads(out.split('LIFE ', 1)[1].splitlines()[0])
        ctx.lives += 1
        brief = '%s %s' % (status, code)
    else:
        L = ctx.life(disturbed(s, root), root, s['plan'], budget=nb, wall=90)
        status, code, brief = L.status, L.code, L.brief()
        ctx.sig(L.log_digest)
    for k in ('clock', 'git', 'machine'):
        if k in s['plan']:
            ctx.count('env ' + k)
    for x in s['dirty']:
        ctx.count('env leftover ' + x[0])
    for h in s['history']:
        ctx.count('env history ' + h['end'])
    if status == 'livelock':
        raise Violation('stuck', 'the disturbed run of %r does not end' % d)
    if (code == 0) != (base.code == 0):
        raise Violation('outcome', 'the disturbed run ends with %s, the clean one with %s' % (brief, base.brief()))
    now = decks.read_all(root)
    want = dict(files)
    for n, data in dirty.items():
        if n not in want and n.endswith('.dat'):
            want[n] = data
    diff = diff_files(want, now)
    if diff:
        raise Violation('output', 'deck %r: %s' % (d, diff))
    for n, data in dirty.items():
        if n in files or n.endswith('.dat.tmp'):
            continue
        p = os.path.join(root, n)
        if not os.path.exists(p) or decks.slurp(p) != data:
            raise Violation('bystander', 'the run touched %s' % n)
    if decks.slurp(target) != decks.text(d).encode():
        raise Violation('bystander', 'the run changed its deck')


def shrinks(s):
    for k in list(s['plan']):
        p = dict(s['plan'])
        del p[k]
        yield put(s, ('plan',), p)
    if s.get('hashseed') is not None:
        yield put(s, ('hashseed',), None)
    if s.get('plant'):
        yield put(s, ('plant',), 0)
    if s['deckpath'] != 'deck.inp':
        yield put(s, ('deckpath',), 'deck.inp')
    for k, h in enumerate(s['history']):
        if h['end'] != 'ok':
            yield put(s, ('history', k, 'end'), 'ok')

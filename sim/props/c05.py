"""Snapshots give back exactly what was written."""
import os
import struct
import numpy as np

from .. import decks, life
from ..common import *
from ..engine import put

ID = 'C05'
QUICK = (3000, 60)
THOROUGH = (50000, 800)
RULE = ('sequences of save / load / advance / damage operations on several solutions sharing a directory, with short '
        'writes and reads, tiny buffers and failing reads; after every load the solution is compared to the bit with '
        'the one saved under that number; saved values are random bit patterns over the whole double range.')
MEASURE = 'distinct event logs'


def gen(rng):
    d = decks.gen(rng, steps=(1, 3), cells_range=(2, 12), orders=(0, 1, 2, 3, 4, 6), nouts=(2,), limit=0.2)
    s = {'deck': d, 'plan': {'io': io_shape(rng), 'entropy': rng.randrange(1, 1 << 20)}, 'ops': [], 'pick': rng.randrange(3)}
    e = dict(d)
    if rng.random() < 0.4:                 # a second family: other mesh and order
        w = d['ic'].split()
        e = dict(d, ic=' '.join([w[0], str(rng.randint(2, 12))] + w[2:]), order=rng.choice([1, 2, 3, 5]))
        e.pop('enhance', None)
        e.pop('thresholds', None)
        e.pop('limiting', None)
        if rng.random() < 0.4:             # as many cells and coefficients
            e['ic'] = ' '.join([w[0], str(decks.cells(d))] + w[2:])
            if rng.random() < 0.5:
                e['order'] = d['order']
    s['deck2'] = e
    if rng.random() < 0.4:                 # another domain than that of the initial condition
        a = rng.choice([0.0, -1.0, 0.1, 3.0, -1e3, rng.uniform(-2, 2)])
        s['domain'] = [a, a + rng.choice([1.0, 2.0, 0.3, 1e-3, 40.0, rng.uniform(0.1, 5)])]
    nops = rng.choice([2, 3, 5, 9, 14])
    for i in range(nops):
        op = rng.choice(['save', 'save', 'load', 'load', 'fill', 'damage', 'readfail', 'reuse', 'foreign', 'foreign',
                         'badbc', 'spoil', 'spoil', 'again'])
        if i == 0:
            op = 'save'
        if i == nops - 1:
            op = 'load'
        k = rng.choice([0, 0, 1, 2, 7, 99, 123456])
        s['ops'].append([op, rng.choice([0, 1]), k, rng.randrange(1 << 30)])
    return s


def fill(rng, sol, nf, style):
    """Random interior coefficients; returns nothing."""
    n = sol.u.shape[1] - 2 * nf
    shape = (sol.u.shape[0], n)
    if style == 0:                                  # any finite double
        bits = rng.integers(0, 1 << 63, size=shape, dtype=np.uint64) * 2 + rng.integers(0, 2, size=shape, dtype=np.uint64)
        a = bits.view(np.float64).copy()
        a[~np.isfinite(a)] = 0.0
    elif style == 1:                                # ordinary values
        a = rng.standard_normal(shape)
    elif style == 2:                                # extreme and special values
        pool = np.array([0.0, -0.0, 5e-324, -5e-324, 2.2250738585072014e-308, 1.7976931348623157e308,
                         -1.7976931348623157e308, 1.0, 1 + 2 ** -52, 1 - 2 ** -53, 0.1, 1e22, 1e23, 9007199254740993.0])
        a = rng.choice(pool, size=shape)
    elif style == 4:                                # physical states
        if not hasattr(sol, 'original'):
            sol.original = sol.u[:, nf:-nf].copy()
        a = sol.original * (1 + 0.01 * rng.standard_normal(shape))
    else:                                           # close to 1: last-bit differences matter
        a = 1.0 + rng.integers(-4, 5, size=shape) * 2.0 ** -52
    sol.u[:, nf:-nf] = a
    sol.bc_l, sol.bc_r = [('periodic', 'periodic'), ('zerograd', 'zerograd'), ('periodic', 'zerograd'),
                          ('zerograd', 'periodic')][int(rng.integers(0, 4))]
    sol.n = int(rng.integers(0, 10 ** int(rng.integers(1, 9))))
    sol.t = float(rng.choice([0.0, 0.1, 1 / 3, 1e-300, 12345.678, float(rng.random())]))


def image(sol, nf):
    return (sol.n, float(sol.t).hex(), sol.bc_l, sol.bc_r, sol.u[:, nf:-nf].tobytes(), sol.u.shape, sol.xc.tobytes(),
            int(sol.N_E), int(sol.basis.p))


def alike(d):
    """Whether a solution of this deck has all it needs in its snapshot and system."""
    return not d.get('enhance') and not d['ic'].startswith('simplew')


def foreign(dd, which, seed):
    import dg1d.solution as solution
    d = dict(dd[which])
    for k in ('enhance', 'limiting', 'thresholds'):
        d.pop(k, None)
    w = d['ic'].split()
    if seed % 2:
        return solution.Solution('empty', d['system'], [0, 1, 2, 3, d['order']][seed % 5], d.get('riemann', 'roe'))
    d['ic'] = ' '.join([w[0], str(2 + seed % 11)] + w[2:])
    if seed % 3:
        d['order'] = 1 + seed % 4
    return decks.build(d)[0]


def move(sol, domain):
    """Give a solution another domain."""
    sol.x, sol.dx = np.linspace(domain[0], domain[1], sol.N_E + 1, retstep=True)
    sol.xc = (sol.x[1:] + sol.x[:-1]) * 0.5
    sol.scaled_minv = sol.basis.minv * 2.0 / sol.dx


SPOILS = ['n', 't', 't', 'swap', 'mesh', 'mesh', 'mesh', 'mesh', 'letter', 'column', 'row', 'empty', 'header']


def spoil(kind, names, who, read, image, others, seed):
    """Damage one field (number `who`) of a snapshot; returns the new contents, or None if it does not apply.

    others: the images of other snapshots and their contents for this field."""
    data = read(names[who])
    lines = data.split(b'\n')
    top = 0
    while lines[top].startswith(b'#'):
        top += 1
    head, rows = b'\n'.join(lines[:top]), lines[top:]
    multi = len(names) > 1
    if kind == 'n' and multi:
        old = b'n=%d,' % image[0]
        new = b'n=%d,' % (image[0] + 1 if seed % 2 else image[0] * 10 + 1)
        return data.replace(old, new, 1) if old in head else None
    if kind == 't' and multi:
        t = head.split(b't=', 1)[1].split(b',', 1)[0] if b't=' in head else b''
        for i in range(len(t) - 1, -1, -1):
            if t[i:i + 1].isdigit():
                new = t[:i] + (b'%d' % ((int(t[i:i + 1]) + 1) % 10)) + t[i + 1:]
                if float(new) == float(t):
                    continue
                return data.replace(b't=' + t, b't=' + new, 1)
    if kind == 'swap' and multi and image[2] != image[3]:
        a, b = image[2].encode(), image[3].encode()
        return data.replace(b'bc_l=' + a, b'bc_l=@', 1).replace(b'bc_r=' + b, b'bc_r=' + a, 1).replace(
            b'bc_l=@', b'bc_l=' + b, 1)
    if kind == 'mesh' and multi and others:
        # a field of another mesh or order, from the same instant
        return data.split(b'\n', 1)[0] + b'\n' + others[seed % len(others)].split(b'\n', 1)[1]
    if kind == 'letter':
        # not a number any more
        j = seed % (len(rows) - 1)
        cols = rows[j].split(b',')
        k = (seed >> 8) % len(cols)
        x = cols[k]
        i = (seed >> 16) % len(x)
        cols[k] = [x[:i] + b'x' + x[i + 1:], b'?', b'', x + b'O'][(seed >> 4) % 4]
        rows[j] = b','.join(cols)
        return head + b'\n' + b'\n'.join(rows)
    if kind == 'column':
        j = seed % (len(rows) - 1)
        if len(rows) < 3 or rows[j].count(b',') < 2:
            return None
        rows[j] = rows[j].rsplit(b',', 1)[0]
        return head + b'\n' + b'\n'.join(rows)
    if kind == 'row' and multi and len(rows) > 3:
        del rows[seed % (len(rows) - 1) if seed & 64 else [0, len(rows) - 2][seed >> 7 & 1]]
        return head + b'\n' + b'\n'.join(rows)
    if kind == 'empty':
        return b''
    if kind == 'header':
        return head + b'\n'
    return None


NAMES = ['step number', 'time', 'left boundary condition', 'right boundary condition', 'coefficients', 'shape',
         'cell centers', 'number of cells', 'order']


def body_of(s):
    dd = [s['deck'], s['deck2']]
    nf = len(decks.fields(s['deck']))

    def body(w):
        sols = [decks.build(d)[0] for d in dd]
        if s.get('domain'):
            move(sols[1], s['domain'])
        for x in sols:
            x.apply_bc()
        target = [decks.build(d)[0] for d in dd]         # re-used for loading
        model = {}                                       # number -> (image, which, mesh) or 'damaged'
        bad = []
        stats = {}

        def count(k):
            stats[k] = stats.get(k, 0) + 1
        mesh = [(x.x.copy(), float(x.dx)) for x in sols]
        for op, who, k, seed in s['ops']:
            rng = np.random.default_rng(seed)
            x = sols[who]
            if op == 'fill':
                fill(rng, x, nf, int(rng.integers(0, 5)))
            elif op == 'save':
                fill(rng, x, nf, int(rng.integers(0, 5)))
                x.printer(k, 0.1)
                model[k] = (image(x, nf), who)
                count('saves')
            elif op == 'damage' and model.get(k, 'damaged') != 'damaged':
                f = decks.fields(s['deck'])
                name = decks.fname(f[int(rng.integers(0, len(f)))], k)
                w.quiet = True
                if rng.random() < 0.5 or len(f) == 1:
                    os.remove(name)
                    model[k] = 'damaged'
                else:
                    # one field comes from another instant
                    others = [m for m in model if m != k and model[m] != 'damaged' and model[k] != 'damaged'
                              and model[m][0][:4] != model[k][0][:4]]
                    if others:
                        with open(decks.fname(f[-1], others[0]), 'rb') as fh:
                            data = fh.read()
                        with open(decks.fname(f[-1], k), 'wb') as fh:
                            fh.write(data)
                        model[k] = 'damaged'
                        count('mixed')
                w.quiet = False
            elif op == 'spoil' and model.get(k, 'damaged') != 'damaged':
                w.quiet = True
                names = [decks.fname(f, k) for f in decks.fields(s['deck'])]
                i = seed % len(names)

                def read(name):
                    with open(name, 'rb') as fh:
                        return fh.read()
                im = model[k][0]
                kind = SPOILS[(seed >> 10) % len(SPOILS)]
                others = [read(decks.fname(decks.fields(s['deck'])[i], m)) for m in sorted(model)
                          if model[m] != 'damaged' and (model[m][0][5] != im[5] or model[m][0][6] != im[6])]
                new = spoil(kind, names, i, read, im, others, seed >> 3)
                if new is not None and new != read(names[i]):
                    with open(names[i], 'wb') as fh:
                        fh.write(new)
                    model[k] = 'damaged'
                    count('damage: ' + kind)
                w.quiet = False
            elif op == 'badbc' and model.get(k, 'damaged') != 'damaged':
                # well-formed, but with a boundary condition nobody knows
                w.quiet = True
                for f in decks.fields(s['deck']):
                    name = decks.fname(f, k)
                    with open(name, 'rb') as fh:
                        data = fh.read()
                    head, rest = data.split(b'\n', 1)
                    side = [b'bc_l=', b'bc_r='][(seed >> 8) % 2]
                    a, b = head.split(side, 1)
                    tail = b',' + b.split(b',', 1)[1] if b',' in b else b''
                    side_text = [b'wall', b'none', b'Periodic', b'reflecting', b''][seed % 5]
                    with open(name, 'wb') as fh:
                        fh.write(a + side + side_text + tail + b'\n' + rest)
                w.quiet = False
                y = decks.build(dd[model[k][1]])[0]

                def use():
                    y.loader(k)
                    y.apply_bc()
                if life.guarded(use)[1] == 0:
                    bad.append(('accepted', 'snapshot %d names an unknown boundary condition (%s%s) but is used '
                                'without complaint' % (k, side.decode(), side_text.decode())))
                count('unknown boundary conditions')
                w.quiet = True
                for f in decks.fields(s['deck']):
                    os.remove(decks.fname(f, k))
                w.quiet = False
                del model[k]
            elif op in ('load', 'reuse', 'readfail', 'foreign', 'again'):
                if op == 'again':
                    # a snapshot that was loaded is written anew, with as many bytes
                    known = sorted(m for m in model if model[m] != 'damaged')
                    if not known:
                        continue
                    k = known[seed % len(known)]
                    im, who = model[k]
                    x = sols[who]
                    decks.build(dd[who])[0].loader(k)
                    x.n, x.t, x.bc_l, x.bc_r = im[0], float.fromhex(im[1]), im[2], im[3]
                    x.u[:, nf:-nf] = np.frombuffer(im[4]).reshape(x.u.shape[0], -1)
                    x.u = np.roll(x.u[::-1] if seed & 1 else x.u, nf * (seed % 3), axis=1)
                    x.printer(k, 0.1)
                    model[k] = (image(x, nf), who)
                    count('overwritten after loading')
                if k not in model and model and op in ('load', 'foreign'):
                    k = sorted(model)[seed % len(model)]
                which = model[k][1] if k in model and model[k] != 'damaged' else who
                if op == 'foreign':
                    # an object made for another mesh and order, or for no mesh at all
                    y = foreign(dd, which, seed)
                else:
                    # (re-used objects may have held another mesh)
                    y = target[which if seed % 3 else 1 - which] if op == 'reuse' else decks.build(dd[which])[0]
                if op == 'readfail':
                    w.faults = [{'class': 'read', 'at': w.nread + 1 + int(rng.integers(0, 8)), 'do': 'error',
                                 'errno': ERRNOS['EIO']}]
                fired = dict(w.fired)
                r = life.guarded(lambda: y.loader(k))
                failed_read = w.fired != fired and any(a.startswith('error:') and w.fired[a] != fired.get(a, 0)
                                                       for a in w.fired)
                w.faults = []
                if r[0] == 'harness':
                    raise seams.HarnessError(r[2])
                good = r[1] == 0
                if k not in model or model[k] == 'damaged':
                    count('damaged loads')
                    if good:
                        bad.append(('accepted', 'snapshot %d is missing, mixed or damaged but was loaded without complaint' % k))
                    continue
                if not good:
                    if not failed_read:
                        bad.append(('rejected', 'loading snapshot %d failed: %s' % (k, r[2])))
                    else:
                        count('failed reads')
                    continue
                count('loads')
                im, src = model[k]
                got = image(y, nf)
                for name, p, q in zip(NAMES, im, got):
                    if p != q:
                        bad.append(('changed', 'snapshot %d: the %s came back different%s' % (
                            k, name, '' if isinstance(p, bytes) else ' (%r, was %r)' % (q, p))))
                        break
                ex, edx = mesh[src]
                if y.x.shape != ex.shape or np.max(np.abs(y.x - ex)) > 1e-12 * np.max(np.abs(ex)) or (
                        abs(y.dx - edx) > 1e-12 * edx + 1e-15 * np.max(np.abs(ex))):
                    bad.append(('mesh', 'snapshot %d: the mesh came back different' % k))
                if not bad and (op == 'foreign' and alike(dd[src]) or op == 'load' and (s['pick'] + k) % 3 == 0):
                    # what is loaded must also behave like what was saved
                    z = decks.build(dd[src])[0]
                    z.u[:, nf:-nf] = np.frombuffer(im[4]).reshape(z.u.shape[0], -1)
                    z.bc_l, z.bc_r = im[2:4]
                    if s.get('domain') and src == 1:
                        move(z, s['domain'])
                    import dg1d.dg as dg
                    ra = life.guarded(lambda: dg.DG(z).residual(z)[:, nf:-nf].copy())
                    A = ra[3]
                    if A is not None and np.all(np.isfinite(A)):
                        B = dg.DG(y).residual(y)[:, nf:-nf]
                        count('residuals compared')
                        tol = (1e-9 + 1e-14 * np.max(np.abs(ex)) / edx) * np.maximum(np.max(np.abs(A)), 1e-300)
                        if not np.all(np.abs(A - B) <= tol):
                            bad.append(('behaviour', 'snapshot %d: the loaded solution has another residual' % k))
        return bad, stats
    return body


def run(s, ctx):
    root = ctx.dir()
    L = ctx.life(body_of(s), root, s['plan'])
    if not L.ok:
        if L.status == 'exit':
            raise Violation('failed', 'saving failed: %s' % L.brief())
        raise Inconclusive(L.brief())
    bad, stats = L.payload
    for k, v in stats.items():
        ctx.count(k, v)
    ctx.sig(L.log_digest)
    if bad:
        raise Violation(*bad[0])


def shrinks(s):
    if s['plan'].get('io'):
        yield put(s, ('plan',), {})
    if s['deck2'] != s['deck']:
        yield put(s, ('deck2',), s['deck'])

"""Generated input decks (the workload) and helpers to run and read them."""
import math
import os
import numpy as np

RKS = {'rk3': 3, 'rk4': 4, 'rk5': 6, 'rk6': 7, 'rk8': 13, 'rk10': 17, 'rk12': 25,
       'rk14': 35, 'low_storage_rk4': 4, '': 4}
TITLES = [('system', 'PDE system'), ('rk', 'RK scheme'), ('riemann', 'riemann solver'),
          ('ic', 'initial condition'), ('nout', 'number of outputs'), ('T', 'final time'),
          ('cfl', 'Courant-Friedrichs-Lewy condition'), ('order', 'order'),
          ('limiting', 'limiting'), ('enhance', 'enhancement'),
          ('thresholds', 'sensor thresholds')]
DEFAULTS = dict(system='advection', rk='', riemann='roe', ic='sinewave', nout=10, T=1,
                cfl=0.5, order=1, limiting='', enhance='', thresholds=[])


def value_text(d, key):
    v = d[key]
    if key == 'thresholds':
        return ' '.join(repr(float(x)) for x in v)
    if isinstance(v, float):
        return repr(v)
    return str(v)


def text(d):
    out = ''
    for key, title in TITLES:
        if key in d and d[key] not in ('', [], None):
            out += '#%s\n%s\n' % (title, value_text(d, key))
    return out


def write(d, root, name='deck.inp'):
    from .seams import REAL
    with REAL['open'](os.path.join(root, name), 'w') as f:
        f.write(text(d))
    return name


def length(d):
    name = d['ic'].split()[0]
    return {'simplew': 8.0, 'shuoshe': 10.0}.get(name, 2.0)


def cells(d):
    return int(d['ic'].split()[1])


def gamma(d):
    return 3.0 if d['ic'].split()[0] == 'simplew' else 1.4


def unit(d):
    """The size of one in every field (shape (fields, 1, 1))."""
    a, b = d.get('units') or (1.0, 1.0)
    return np.array([a, a * b, a * b * b][:len(fields(d))]).reshape(-1, 1, 1)


def gen_units(rng, d):
    """Other units of density and velocity (or simply states of another size)."""
    a, b = 10.0 ** rng.uniform(*rng.choice([(-4, 3), (-4, 3), (-15, 9)])), 10.0 ** rng.uniform(-2, 2)
    if d.get('riemann') == 'godunov':
        a = rng.uniform(1, 10) / b ** 2           # its iteration has an absolute tolerance
    return [float('%.4g' % a), float('%.4g' % b)]


def vmax0(d):
    """An upper estimate of the initial wave speed."""
    name = d['ic'].split()[0]
    if d['system'] == 'advection':
        return 1.0
    b = d['units'][1] if d.get('units') else 1.0
    if name == 'entrpyw':
        return b * (1 + math.sqrt(1.4 / 0.8))
    if name == 'acsticw':
        return b * 1.001
    if name == 'simplew':
        return b * 1.0
    if name == 'shuoshe':
        return b * 2.629369 + b * math.sqrt(1.4 * 10.333333 / 3.857143)
    q = [float(x) for x in d['ic'].split()[2:]]
    out = 0.0
    for rho, v, p in (q[1:4], q[4:7]):
        # (vacuum and unphysical states only occur where no bound is needed)
        out = max(out, abs(v) + math.sqrt(1.4 * abs(p) / rho) if rho > 0 else 1.0)
    return out or 1.0


def dt0(d):
    return d['cfl'] * length(d) / cells(d) / (vmax0(d) * (2 * d['order'] + 1))


def fields(d):
    return ['rho', 'rhou', 'E'] if d['system'] == 'euler' else ['u']


def fname(field, k):
    return '%s%010d.dat' % (field, k)


def snapshot_names(d, k):
    n = [fname(f, k) for f in fields(d)]
    if d.get('thresholds'):
        n.append(fname('sensor', k))
    return n


def output_names(d):
    return [n for k in range(d['nout']) for n in snapshot_names(d, k)]


def gen(rng, steps=(2, 10), cells_range=(4, 20), orders=(0, 1, 1, 2, 2, 3, 4), nouts=(2, 2, 3, 4, 5),
        systems=('advection', 'euler', 'euler'), rks=None, ics=None, limit=0.5, enhance=0.3,
        cfls=(0.2, 0.3, 0.45), sensors=0.3, dyadic=False, smooth=False, wide=None, units=0.12, inits=False):
    """A deck whose run takes about `steps` time steps."""
    d = {}
    d['system'] = rng.choice(systems)
    d['rk'] = rng.choice(rks or ['rk3', 'rk4', 'rk4', 'rk5', 'rk6', 'rk8', 'rk10', 'rk12', 'rk14',
                                 'low_storage_rk4', 'low_storage_rk4', ''])
    n = rng.randint(*cells_range)
    if dyadic:
        n = rng.choice([c for c in (2, 4, 8, 16, 32) if cells_range[0] <= c <= cells_range[1]])
    d['order'] = rng.choice(orders)
    d['cfl'] = rng.choice(cfls)
    if d['system'] == 'advection':
        name = rng.choice([i for i in (ics or ['sinewave', 'ictest']) if i in ('sinewave', 'ictest')] or ['sinewave'])
        d['ic'] = '%s %d' % (name, n)
    else:
        d['riemann'] = rng.choice(['roe', 'rusanov', 'godunov'])
        pool = [i for i in (ics or ['entrpyw', 'acsticw', 'simplew', 'simplew', 'scktube', 'scktube', 'shuoshe'])
                if i not in ('sinewave', 'ictest')] or ['entrpyw']
        if smooth:
            pool = [i for i in pool if i not in ('scktube', 'shuoshe')] or ['entrpyw']
        name = rng.choice(pool)
        d['ic'] = '%s %d' % (name, n)
        if name == 'scktube':
            q = list(tube(rng))
            if rng.random() < units:
                a, b = d['units'] = gen_units(rng, d)
                q = [q[0]] + [float('%.6g' % (x * f)) for x, f in zip(q[1:], 2 * [a, b, a * b * b])]
            d['ic'] += ' ' + ' '.join('%r' % x for x in q)
        elif inits and rng.random() < units:
            d['units'] = gen_units(rng, d)
        if name == 'shuoshe' and rng.random() < 0.7:
            d['order'] = min(d['order'], 1)
    shocky = d['ic'].split()[0] in ('scktube', 'shuoshe')
    if d['order'] > 0 and rng.random() < (0.85 if shocky else limit):
        d['limiting'] = 'adaptive_hr'
    if d.get('limiting') or rng.random() < sensors:
        d['thresholds'] = [rng.choice([0.01, 0.05, 0.2, 0.003, -1.0]), rng.choice([0.01, 0.05, 0.2, -1.0])]
    if d['order'] > 0 and not shocky and rng.random() < enhance:
        modes = sorted(rng.sample(range(d['order'] + 1), rng.choice([1, 1, 1, 2, 2, 2, 3]) if d['order'] > 1 else rng.randint(1, 2)))
        if 0 not in modes and rng.random() < 0.75:
            modes[0] = 0
        modes = sorted(set(modes))
        if rng.random() < 0.4:
            modes = modes[::-1]
        d['enhance'] = 'icb ' + ' '.join(str(m) for m in modes)
        d['cfl'] = min(d['cfl'], 0.2)
    if shocky:
        d['cfl'] = min(d['cfl'], 0.3)
    d['nout'] = rng.choice(nouts)
    d['T'] = float('%.6g' % (dt0(d) * rng.uniform(*steps)))
    if rng.random() < (WIDE if wide is None else wide):
        widen(rng, d, nouts)
    return d


WIDE = float(os.environ.get('SIM_WIDE', '0.04'))


def widen(rng, d, nouts):
    """Sizes out of the ordinary: many cells, high orders, many outputs, many steps."""
    w = d['ic'].split()
    slow = {'rk10': 'rk3', 'rk12': 'rk4', 'rk14': 'low_storage_rk4', 'rk8': ''}
    kind = rng.choice(['cells', 'order', 'nout', 'steps', 'steps'])
    if kind == 'cells':
        n = rng.choice([33, 64, 100, 101, 128, 129, 256, 257, 300, rng.randint(25, 400)])
        if d['order'] > 2:
            d['order'] = 1
            d.pop('enhance', None)
        if d.get('limiting') and n > 128:
            n = 128
        d['ic'] = ' '.join([w[0], str(n)] + w[2:])
        d['rk'] = slow.get(d['rk'], d['rk'])
        d['T'] = dt0(d) * rng.uniform(0.5, 3)
    elif kind == 'order':
        if w[0] in ('scktube', 'shuoshe'):
            return
        d['order'] = rng.choice([5, 6, 7, 8])
        d['ic'] = ' '.join([w[0], str(min(cells(d), 5))] + w[2:])
        d['cfl'] = min(d['cfl'], 0.2)
        d.pop('enhance', None)
        d['T'] = dt0(d) * rng.uniform(1, 4)
    elif kind == 'nout':
        if max(nouts) == 2:
            return
        d['nout'] = rng.choice([11, 12, 16, 33, 64, 100, 101, 102, 130])
    else:
        d['ic'] = ' '.join([w[0], str(min(cells(d), 6))] + w[2:])
        d['rk'] = slow.get(d['rk'], d['rk'])
        d['order'] = min(d['order'], 2)
        if d.get('enhance'):
            d['enhance'] = 'icb 0'
            d['order'] = max(1, d['order'])
        d['T'] = dt0(d) * rng.choice([30, 65, 101, 130, 257]) * rng.uniform(0.98, 1.02)
    d['T'] = float('%.6g' % d['T'])


def tube(rng):
    """Riemann data: diaphragm, left and right primitive states."""
    famous = [(0.0, 1.0, 0.0, 1.0, 0.125, 0.0, 0.1), (-0.4, 1.0, 0.75, 1.0, 0.125, 0.0, 0.1),
              (0.0, 1.0, -1.0, 0.8, 1.0, 1.0, 0.8), (0.0, 1.4, 0.0, 1.0, 1.0, 0.0, 1.0),
              (-0.2, 5.99924, 19.5975, 460.894, 5.99242, -6.19633, 46.0950),
              (0.1, 0.125, 0.0, 0.1, 1.0, 0.0, 1.0), (0.0, 1.0, 3.0, 1.0, 0.5, 3.0, 0.6),
              (0.0, 0.5, -3.0, 0.6, 1.0, -3.0, 1.0)]
    if rng.random() < 0.5:
        return rng.choice(famous)
    r = lambda a, b: round(rng.uniform(a, b), 4)
    pL, pR = r(0.2, 2.0), r(0.2, 2.0)
    return (r(-0.5, 0.5), r(0.2, 2.0), r(-1.0, 1.0), pL, r(0.2, 2.0), r(-1.0, 1.0), pR)


# ------------------------------------------------------------------ building through the API
def build(d):
    """Solution and deck, set up as the shipped program does."""
    dk = deck_only(d)[1]
    return solution_of(dk), dk


def deck_only(d):
    import dg1d.deck as deck
    full = dict(DEFAULTS)
    full.update({k: v for k, v in d.items() if v not in (None,)})
    dk = deck.Deck()
    dk.system, dk.rk, dk.riemann = full['system'], full['rk'], full['riemann']
    dk.ic, dk.nout, dk.finaltime = full['ic'], full['nout'], full['T']
    dk.cfl, dk.order, dk.limiting = full['cfl'], full['order'], full['limiting']
    dk.enhance, dk.sensor_thresholds = full['enhance'], list(full['thresholds'])
    return None, dk


def solution_of(dk):
    import dg1d.solution as solution
    return solution.Solution(dk.ic, dk.system, dk.order, dk.riemann, dk.enhance, dk.sensor_thresholds)


def start_parent(d):
    sol, _ = build(d)
    sol.apply_bc()
    return sol


def arm(sol, dk):
    import dg1d.dg as dg
    import dg1d.limiting as limiting
    return dg.DG(sol), limiting.Limiter(dk.limiting, sol)


def start(d):
    sol, dk = build(d)
    sol.apply_bc()
    solver, limiter = arm(sol, dk)
    limiter.limit(sol)
    return sol, dk, solver, limiter


# ------------------------------------------------------------------ reading files (independently of loader)
class BadFile(Exception):
    pass


def parse(data):
    """Parse the bytes of a snapshot file strictly: (header dict, array)."""
    try:
        s = data.decode('ascii')
    except UnicodeDecodeError:
        raise BadFile('not ascii')
    if not s.endswith('\n'):
        raise BadFile('no final newline')
    lines = s[:-1].split('\n')
    if len(lines) < 3 or not lines[0].startswith('#') or not lines[1].startswith('#'):
        raise BadFile('header missing')
    head = {}
    for part in lines[0][1:].split(','):
        if '=' not in part:
            raise BadFile('bad header %r' % lines[0])
        a, b = part.split('=', 1)
        head[a.strip()] = b.strip()
    try:
        h = {'n': int(head['n']), 't': float(head['t']), 'bc_l': head['bc_l'], 'bc_r': head['bc_r']}
    except (KeyError, ValueError):
        raise BadFile('bad header %r' % lines[0])
    h['columns'] = [c.strip() for c in lines[1][1:].split(',')]
    rows = []
    for l in lines[2:]:
        try:
            rows.append([float(x) for x in l.split(',')])
        except ValueError:
            raise BadFile('bad row %r' % l[:80])
    if len({len(r) for r in rows}) != 1:
        raise BadFile('ragged rows')
    return h, np.array(rows)


def slurp(path):
    from .seams import REAL
    with REAL['open'](path, 'rb') as f:
        return f.read()


def dat_files(root):
    return sorted(n for n in os.listdir(root) if n.endswith('.dat'))


def read_all(root, names=None):
    return {n: slurp(os.path.join(root, n)) for n in (names or dat_files(root))
            if os.path.exists(os.path.join(root, n))}


def read_snapshot(root, d, k):
    """(header, x, {field: (N_E, N_s)}) of snapshot k."""
    out, head, xc = {}, None, None
    for f in fields(d):
        h, a = parse(slurp(os.path.join(root, fname(f, k))))
        if head is not None and (h['n'], h['t']) != (head['n'], head['t']):
            raise BadFile('headers of the fields of snapshot %d differ' % k)
        head, xc = h, a[:, 0]
        out[f] = a[:, 1:]
    return head, xc, out

"""A run does what its deck says, however the deck is laid out or delivered."""
import os

from .. import decks, life, seams
from ..common import *
from ..engine import put

ID = 'C13'
QUICK = (1000, 50)
THOROUGH = (24000, 800)
RULE = ('generated problems written as input decks in arbitrary layouts (sections permuted, repeated, left to their '
        'defaults; comments, unknown sections, blank lines, blanks at line ends, CRLF, no final newline), by hand or by '
        'write_deck under short writes and disk errors, read in pieces, with read errors, or cut off after a section '
        'title; the shipped program must do exactly what the same settings given through the API do, or fail without '
        'any output.')
MEASURE = 'distinct (layout, faults, deck family)'
REAL = 'all of dg1d, numpy, Python file buffering and decoding'

COMMENTS = ['# a comment', '', '   ', '## ---------------', '#author\nsomebody', '# numbers: 1 2 3',
            'free text before a section', '#notes\n42', '#\n', '!fortran style',
            # words of the sections, which are none without the mark
            'a high order run', 'limiting and enhancement are explained in the paper', 'the final time follows',
            'order', 'RK scheme: see below', '// sensor thresholds', '# order matters', 'initial condition',
            'PDE system', '* number of outputs *', '#Order of accuracy', '#ORDER\n7', '#Limiting the slopes', '#Final Time\n9', '#Enhancement', '#RK Scheme\nrk9', '#Riemann Solver',
            '# order\n5', '#  final time\n8', '#pde system\nnone', 'the riemann solver is a choice', '3', 'limiting',
            # comments with letters outside ASCII, and long ones
            '# Gr\u00f6\u00dfe der Zellen \u2014 \u0394x', 'long line', 'many lines', 'very many lines']
LONG = {'long line': '# ' + 9000 * '-', 'many lines': '\n'.join('# line %d of the notes on this case' % i for i in range(300)),
        'very many lines': '\n'.join('line %d: nothing to see here, order and limiting follow' % i for i in range(1600))}
SEPARATORS = [' ', ' ', '  ', '\t', ' \t ', '     ']
DEFAULTS = {'system': 'advection', 'rk': '', 'riemann': 'roe', 'nout': 10, 'T': 1.0, 'cfl': 0.5, 'order': 1,
            'limiting': '', 'enhance': '', 'thresholds': []}


def gen(rng):
    d = decks.gen(rng, steps=(1, 4), cells_range=(3, 12), nouts=(2, 2, 3, 4))
    # some sections take their default values and are left out
    omit = []
    if rng.random() < 0.5:
        for k in rng.sample(['rk', 'riemann', 'cfl', 'order', 'nout', 'T', 'system'], rng.randint(1, 3)):
            if k == 'system' and (d['system'] == 'euler' or d['ic'].split()[0] not in ('sinewave', 'ictest')):
                continue
            if k == 'order' and d.get('enhance'):
                continue
            if k == 'T' and decks.cells(d) * (2 * d['order'] + 1) > 24:
                continue
            if k == 'cfl' and d.get('enhance'):
                continue
            if k == 'T' and d['ic'].split()[0] in ('scktube', 'shuoshe'):
                continue
            d[k] = DEFAULTS[k]
            omit.append(k)
    if d['order'] == 0:
        d.pop('limiting', None)
    if 'cfl' not in omit and rng.random() < 0.15:
        d['cfl'] = rng.choice([0.6, 0.75, 0.9, 1.0, 1.5])
    s = {'deck': d, 'omit': omit, 'kind': rng.choice(['layout', 'layout', 'layout', 'pieces', 'pieces', 'readfail',
                                                      'cut', 'write_deck', 'write_deck', 'bad', 'bad'])}
    keys = [k for k, _ in decks.TITLES if k in d and d[k] not in ('', [], None) and k not in omit]
    if d['rk'] == '' and 'rk' in keys:
        keys.remove('rk')
    rng.shuffle(keys)
    s['keys'] = keys
    s['extra'] = [[rng.randrange(len(keys) + 1), rng.choice(COMMENTS)] for _ in range(rng.choice([0, 1, 2, 5]))]
    s['repeat'] = rng.choice(keys) if rng.random() < 0.25 else ''
    s['blanks'] = rng.choice(['', '', ' ', '\t', '   '])
    s['sep'] = rng.choice(SEPARATORS)
    s['number'] = rng.choice(['', '', '+', ' ', '0', 'e'])
    s['eol'] = rng.choice(['\n', '\n', '\n', '\r\n', '\r'])
    # sections which are there, but say nothing
    s['empty'] = [[k, rng.choice(['', '', '  '])] for k in ('rk', 'riemann', 'limiting', 'enhance')
                  if k not in keys and rng.random() < 0.12 and d.get(k, DEFAULTS[k]) in ('', 'roe')]
    s['final'] = rng.random() < 0.7
    s['name'] = rng.choice(['deck.inp', 'deck.inp', 'in/my deck.inp', 'other', 'in/-x', 'Deck.INP'])
    s['call'] = rng.choice(['-d', '-d', '--deck', '--deck=', '-d=', 'none'])
    s['io'] = io_shape(rng)
    if s['kind'] == 'readfail':
        s['io']['faults'] = [{'class': 'read', 'at': rng.randint(1, 3), 'do': 'error',
                              'errno': ERRNOS[rng.choice(['EIO', 'EACCES', 'EMFILE'])]}]
    if s['kind'] == 'cut':
        s['cut'] = rng.choice([k for k, _ in decks.TITLES])
    if s['kind'] == 'bad':
        k = rng.choice([k for k in keys if k in ('nout', 'T', 'cfl', 'order', 'thresholds', 'ic')])
        more = {'nout': ['2.5', '3 4'], 'order': ['1.5', '1 1'], 'T': ['0.1 0.2', '1 s'], 'cfl': ['0.1 0.2', '1/4']}
        more = {k: v + [('\udcff2', '1\udce9', '\x002')[len(k) % 3], '\udc93' + v[0][0]] for k, v in more.items()}
        words = ['abc', '1..5', '0x', 'one two', '--3']
        s['bad'] = [k, rng.choice(more[k] if k in more and rng.random() < 0.6 else words) if k != 'ic' else
                    rng.choice(['nosuchthing 8', 'sinewav 8', 'entropyw 10', 'sinewave eight', 'scktube 8 a b c d e f g',
                                'entrpyw'])]
    if s['kind'] == 'write_deck' and rng.random() < 0.5:
        s['fault'] = {'at': rng.randint(1, 6), 'do': 'error', 'errno': ERRNOS[rng.choice(['ENOSPC', 'EIO', 'EDQUOT', 'EACCES'])],
                      'sticky': True, 'partial': rng.choice([0.0, 0.5])}
    return s


def spelled(s, key):
    """The value in one of the spellings which mean the same."""
    v = decks.value_text(s['deck'], key)
    how = s.get('number', '')
    if key in ('ic', 'thresholds', 'enhance'):
        v = s.get('sep', ' ').join(v.split())
    if key in ('nout', 'order', 'T', 'cfl') and how:
        if how == 'e':
            if key in ('T', 'cfl') and float('%.17e' % float(v)) == float(v):
                v = '%.17e' % float(v)
        else:
            v = how + v
    if key in ('thresholds', 'nout', 'order') and how == ' ':
        v = '\t' + v
    return v


def other(key, v):
    """A different value, to be overruled by a later section."""
    return {'system': 'advection', 'rk': 'rk3', 'riemann': 'rusanov', 'ic': 'sinewave 4', 'nout': '3', 'T': '0.125',
            'cfl': '0.0625', 'order': '2', 'limiting': 'none', 'enhance': 'icb 0', 'thresholds': '0.5 0.5'}[key]


def layout(s):
    d = s['deck']
    titles = dict(decks.TITLES)
    parts = ['#%s\n%s' % (titles[k], v) for k, v in s.get('empty', [])]
    for i, k in enumerate(s['keys']):
        parts += [LONG.get(c, c) for at, c in s['extra'] if at == i]
        if s['kind'] == 'cut' and i == len(s['keys']) - 1:
            parts.append('#%s' % titles[k])
            break
        v = spelled(s, k)
        if s['kind'] == 'bad' and s['bad'][0] == k:
            v = s['bad'][1]
        if s['repeat'] == k and s['kind'] != 'bad':
            parts.insert(0, '#%s\n%s' % (titles[k], other(k, v)))
        parts.append('#%s%s\n%s%s' % (titles[k], s['blanks'], v, s['blanks']))
    else:
        parts += [LONG.get(c, c) for at, c in s['extra'] if at >= len(s['keys'])]
    text = '\n'.join(parts) + ('\n' if s['final'] else '')
    return text.replace('\n', s['eol'])


def run(s, ctx):
    d = s['deck']
    if s['kind'] == 'cut' and s['keys']:
        s = dict(s)
        k = s['cut']
        s['keys'] = [x for x in s['keys'] if x != k] + [k]
    # what the settings mean, without any deck file
    root = ctx.dir()

    def api(w):
        import dg1d.rk as rk
        sol, dk, solver, limiter = decks.start(d)
        rk.integrate(sol, dk, solver, limiter)
    base = ctx.life(api, root, {}, budget=resid_budget(d))
    if base.status != 'exit':
        raise Inconclusive(base.brief())
    want = decks.read_all(root)
    ctx.sim_time += d['T']

    root = ctx.dir()
    os.makedirs(os.path.join(root, 'in'))
    text = layout(s)
    plan = {'io': s['io']}
    name = s['name']
    if s['kind'] == 'write_deck':
        name = 'in/deck.inp'
        titles = dict(decks.TITLES)
        defs = [[titles[k], decks.value_text(d, k)] for k in s['keys']]
        p = {'io': dict(s['io'], faults=[s['fault']] if s.get('fault') else [])}

        def write(w):
            import dg1d.deck as deck
            return deck.write_deck('in', defs)
        L = ctx.life(write, root, p)
        hit = any(k.startswith('error:') for k in L.fired)
        path = os.path.join(root, name)
        if not L.ok:
            if not hit:
                raise Violation('write_deck', 'write_deck fails without any fault: %s' % L.brief())
            ctx.count('write_deck failed loudly')
            ctx.sig('write-fail', L.log_digest)
            return
        exact = ''.join('#%s\n%s\n' % (a, b) for a, b in defs).encode()
        if os.path.join(root, str(L.payload)) != path or not os.path.exists(path):
            raise Violation('write_deck', 'write_deck returns %r, which is not the deck' % (L.payload,))
        if hit and decks.slurp(path) != exact:
            raise Violation('write_deck', 'write_deck reports success after %s with %d of %d bytes written'
                            % (L.fired, len(decks.slurp(path)), len(exact)))
        ctx.count('decks written by write_deck')
    else:
        with seams.REAL['open'](os.path.join(root, name), 'wb') as f:
            f.write(text.encode('utf-8', 'surrogateescape'))
    L = ctx.life(lambda w: life.run_main(name, s.get('call', '-d')), root, plan, budget=resid_budget(d))
    got = decks.read_all(root)
    ctx.sig(s['kind'], s.get('call'), s['blanks'], s.get('sep'), s.get('number'), s['eol'], s['final'], len(s['extra']), bool(s['repeat']), tuple(s['omit']),
            tuple(s['keys']))
    ctx.count('decks of kind ' + s['kind'])
    if s['kind'] in ('cut', 'bad') or (s['kind'] == 'readfail' and any(k.startswith('error:') for k in L.fired)):
        what = {'cut': 'cut off after a section title', 'bad': 'with the meaningless value %r' % (s.get('bad'),),
                'readfail': 'which can not be read'}[s['kind']]
        if L.status == 'livelock' or L.code == 0:
            raise Violation('accepted', 'a deck %s is run without complaint: %r' % (what, text))
        if got:
            raise Violation('accepted', 'a deck %s produces outputs (%s): %r' % (what, sorted(got)[:3], text))
        ctx.count('refused loudly')
        return
    if L.code != base.code or L.status != base.status:
        raise Violation('outcome', 'deck %r: the program ends with %s, the same settings with %s' % (text, L.brief(), base.brief()))
    diff = diff_files(want, got)
    if diff:
        raise Violation('settings', 'deck %r does not do what its settings do: %s' % (text, diff))


def shrinks(s):
    for k, v in (('repeat', ''), ('blanks', ''), ('eol', '\n'), ('final', True), ('name', 'deck.inp'), ('sep', ' '), ('number', ''), ('extra', []), ('empty', []), ('io', {})):
        if s.get(k) != v and not (k == 'io' and s['kind'] == 'readfail'):
            yield put(s, (k,), v)
    if s.get('fault'):
        yield put(s, ('fault',), None)
    if s['keys'] != sorted(s['keys']):
        yield put(s, ('keys',), sorted(s['keys']))


def valid(s):
    return bool(s['keys'])

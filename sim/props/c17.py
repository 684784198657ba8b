"""The convergence study has run every case it announces, or fails."""
import os
import runpy
import shlex
import shutil
import subprocess
import sys

from .. import decks, life, seams
from ..common import *
from ..engine import put

ID = 'C17'
QUICK = (1200, 45)
THOROUGH = (20000, 800)
RULE = ('the convergence study (advection_convergence/run.py) started in an arbitrary directory, over the remains of '
        'earlier studies, while some of the runs it starts fail (exit status, killed, not started, slow, much output '
        'on standard error), system calls of the study fail, or the study itself is killed at an arbitrary I/O event or '
        'line and started again.  A study which reports success has, in a directory per order and resolution, the deck '
        'of this case and exactly the results and log of one complete run of it; nothing else is touched.')
MEASURE = 'distinct event logs of the study'
REAL = 'advection_convergence/run.py, dg1d/deck.py, file layers; in part of the scenarios the solver for small cases'
STUB = 'the solver processes (imitated: parse the deck, write its outputs and log, fail on request); subprocess.Popen'

SCRIPT = os.path.join(life.REPO, 'advection_convergence', 'run.py')


def gen(rng):
    s = {'start': rng.choice(['here', 'here', 'spaces', 'deep', 'link']), 'left': [], 'plan': {'io': {}}, 'case': None}
    if rng.random() < 0.5:
        s['left'] = rng.sample(['same', 'other', 'file', 'order', 'stale', 'deck', 'cut'], rng.choice([1, 2, 3]))
    kind = rng.choice(['none', 'case', 'case', 'case', 'io', 'io', 'line', 'crash', 'chatty', 'slow', 'remove'])
    if kind == 'case':
        s['case'] = {'i': rng.randint(0, 4), 'how': rng.choice(['exit', 'exit', 'late', 'kill', 'spawn']),
                     'code': rng.choice([1, 1, 2, 120, 255])}
    if kind == 'chatty':
        s['case'] = {'i': rng.randint(0, 4), 'how': 'chatty', 'code': 0}
    if kind == 'slow':
        s['slow'] = rng.choice([1, 2, 5, 30])
    if kind == 'remove':
        # what is there can not be removed
        s['left'] = sorted(set(s['left']) - {'order'} | {rng.choice(['same', 'stale'])})
        s['plan']['io'] = {'faults': [{'at': rng.choice([1, 1, 2, 3]), 'do': 'error', 'sticky': True,
                                       'kinds': [rng.choice(['unlink', 'rmdir'])], 'errno': ERRNOS[rng.choice(['EACCES', 'EIO'])]}]}
    if kind == 'io':
        f = {'at': rng.randint(1, 60), 'do': 'error',
             'errno': ERRNOS[rng.choice(['ENOSPC', 'ENOSPC', 'EIO', 'EACCES', 'EMFILE'])]}
        if rng.random() < 0.4:
            f['sticky'] = True
        if rng.random() < 0.5:
            f['kinds'] = [rng.choice(['write', 'close', 'mkdir', 'open-write'])]
        s['plan']['io'] = {'faults': [f]}
    if kind == 'line':
        s['line'] = [int(10 ** rng.uniform(0.5, 2.5)), rng.choice(['memory', 'interrupt'])]
    if kind == 'crash':
        s['crash'] = [{'at': rng.randint(1, 50), 'when': rng.choice(['before', 'after', 'torn']), 'frac': 0.5}
                      for _ in range(rng.choice([1, 1, 2]))]
    if rng.random() < 0.3:
        s['plan']['io'].update({'short_write': rng.choice([0.2, 0.9]), 'bufsize': rng.choice([1, 7, 64])})
    if kind != 'line' and rng.random() < 0.04:
        s['real'] = True
    s['entropy'] = rng.randrange(1, 1 << 20)
    return s


class Solver:
    """Imitates the solver processes the study starts."""

    def __init__(self, w, s, real):
        self.w, self.s, self.real = w, s, real
        self.n = 0
        self.patience = s.get('slow', 0)

    def __call__(self, args, rest, kw):
        """A process is started; returns what happens when it is waited for."""
        w = self.w
        i = self.n
        self.n += 1
        case = self.s['case']
        how = case['how'] if case and case['i'] == i else None
        if how == 'spawn':
            w.count('child:EAGAIN')
            raise BlockingIOError(errno.EAGAIN, 'Resource temporarily unavailable')
        shell = kw.get('shell') or False
        words = shlex.split(args) if isinstance(args, str) else [os.fspath(x) for x in args]
        if isinstance(args, str) and not shell:
            words = [args]
        if shell and not isinstance(args, str):
            words = shlex.split(words[0])
        cwd = os.path.join(os.getcwd(), kw.get('cwd') or '.')
        prog = words.pop(0)
        if os.path.basename(prog).startswith('python') or prog == sys.executable:
            while words and words[0].startswith('-'):
                if words.pop(0) in ('-W', '-X'):
                    words.pop(0)
            prog = words.pop(0) if words else ''
            direct = False
        else:
            direct = True
        path = os.path.realpath(os.path.join(cwd, prog))
        out = kw.get('stdout')
        if out is not None and not isinstance(out, int):
            out.flush()
            out = out.fileno()
        fd = os.dup(out) if isinstance(out, int) and out >= 0 else None
        piped = kw.get('stdout') == subprocess.PIPE or kw.get('stderr') == subprocess.PIPE
        if path != os.path.join(life.REPO, 'dg1d', 'main.py') or direct and not os.access(path, os.X_OK):
            w.notes.append(('no-program', i, ' '.join([prog] + words)))
            if direct and not shell:
                raise FileNotFoundError(2, 'No such file or directory', prog)
            return lambda reading: self.done(fd, 127 if direct else 2, '')
        deck = 'deck.inp'
        while words:
            a = words.pop(0)
            if a in ('-d', '--deck') and words:
                deck = words.pop(0)
            elif a.startswith('--deck='):
                deck = a[7:]
            elif a.startswith('-d'):
                deck = a[2:]
            else:
                return lambda reading: self.done(fd, 2, '')
        return lambda reading: self.run(i, how, fd, piped, cwd, deck, reading)

    def done(self, fd, code, out):
        if fd is not None:
            data = out.encode()
            while data:
                data = data[seams.REAL['os.write'](fd, data):]
            os.close(fd)
        return code, out

    def run(self, i, how, fd, piped, cwd, deck, reading):
        w = self.w
        case = self.s['case']
        quiet, w.quiet = w.quiet, True
        here = os.getcwd()
        try:
            os.chdir(cwd)
            if how in ('exit', 'kill'):
                w.count('child:%s' % how)
                w.notes.append(('failed', i))
                return self.done(fd, -9 if how == 'kill' else case['code'], 'Parsing the deck file.\n')
            if how == 'chatty':
                w.count('child:chatty')
                if piped and not reading:
                    raise seams.BudgetExceeded('the study waits for a process that waits for the study to read its output')
            try:
                import dg1d.deck as deckmod
                d = deckmod.Deck()
                out, sys.stdout = sys.stdout, seams.io.StringIO()
                try:
                    d.parser(deck)
                finally:
                    sys.stdout = out
            except Exception as e:
                w.notes.append(('failed', i))
                return self.done(fd, 1, '%s: %s\n' % (type(e).__name__, e))
            cells = int(d.ic.split()[1])
            if self.real and cells <= 4:
                L = life.run_life(lambda w2: life.run_main(deck), cwd, {}, budget=200000)
                w.notes.append(('real', i, L.status, L.code))
                return self.done(fd, L.code if L.status == 'exit' else 1, L.out)
            text = ['Code version:  imitation\n']
            for k in range(d.nout):
                if how == 'late' and k == 3:
                    w.count('child:late')
                    w.notes.append(('failed', i))
                    return self.done(fd, case['code'], ''.join(text))
                with open('u%010d.dat' % k, 'w') as f:
                    f.write('imitation of output %d of %s\n' % (k, settings(d)))
                text.append('Solution written to file at step %7d\n' % k)
            text.append('Elapsed time 0:00:01 (or 1.0 seconds)\n')
            return self.done(fd, 0, ''.join(text))
        finally:
            os.chdir(here)
            w.quiet = quiet


def settings(d):
    return [d.system, d.rk, d.ic, d.nout, d.finaltime, d.cfl, d.order, d.enhance]


def study(ctx, s, base, root, clean=False, extra=None):
    """One start of the study in directory root (below base)."""
    plan = {'io': dict(s['plan']['io']), 'entropy': s['entropy']}
    lines = None
    if clean:
        plan['io'].pop('faults', None)
        s = dict(s, case=None)
    elif extra:
        plan['io']['faults'] = [extra]
    elif s.get('line'):
        lines = {'at': {s['line'][0]: s['line'][1]}}

    def body(w):
        w.children = Solver(w, s, s.get('real'))
        os.chdir(root)
        rmtree = shutil.rmtree

        def guard(path, *a, **k):
            p = os.path.realpath(path)
            if not p.startswith(os.path.realpath(root) + os.sep):
                w.notes.append(('outside', p))
                raise PermissionError(errno.EACCES, 'Permission denied', p)
            return rmtree(path, *a, **k)
        shutil.rmtree = guard
        sys.path.insert(0, os.path.dirname(SCRIPT))
        old, sys.argv = sys.argv, [SCRIPT]
        try:
            runpy.run_path(SCRIPT, run_name='__main__')
        finally:
            sys.argv = old
        return w.children.n
    return ctx.life(body, base, plan, lines=lines, budget=200000)


def tree(root):
    out = {}
    for top, dirs, files in os.walk(root):
        for n in files:
            p = os.path.join(top, n)
            with open(p, 'rb') as f:
                out[os.path.relpath(p, root)] = f.read()
    return out


def place(s, base):
    root = os.path.join(base, {'spaces': 'my study; 1', 'deep': 'a/b/c'}.get(s['start'], 'study'))
    os.makedirs(root)
    if s['start'] == 'link':
        os.symlink(root, os.path.join(base, 'alias'))
        return os.path.join(base, 'alias')
    return root


def announced(files):
    """The cases of a study: {directory: deck settings}."""
    return sorted(os.path.dirname(n) for n in files if os.path.basename(n) == 'deck.inp')


def run(s, ctx):
    base = ctx.dir()
    root = place(dict(s, start='here'), base)
    L = study(ctx, dict(s, plan={'io': {}}), base, root, clean=True)
    if L.status == 'livelock':
        raise Violation('stuck', 'the undisturbed study does not end: %s' % L.exc)
    want = tree(root)
    where = announced(want)
    if not L.ok or not where:
        raise Violation('failed', 'the undisturbed study (%s) has run %d cases: %s' % (L.brief(), len(where), L.notes[:2]))
    noise = {n for n in want if os.path.basename(n) == 'logfile'} if s.get('real') else set()
    for c in where:
        check_case(want, c, root, s)
    extra = sorted(n for n in want if os.path.dirname(n) not in where)
    if extra:
        raise Violation('extra', 'the undisturbed study leaves %s' % extra[:3])
    shutil.rmtree(base)

    base = ctx.dir()
    root = place(s, base)
    keep = leftovers(s, root, where)
    for c in s.get('crash', []):
        L = study(ctx, s, base, root, extra={'at': c['at'], 'do': 'crash', 'when': c['when'], 'frac': c['frac']})
        ctx.count('deaths of the study' if L.status == 'crash' else 'survived')
        ctx.sig(L.log_digest)
    L = study(ctx, s, base, root, clean=bool(s.get('crash')))
    ctx.sig(L.log_digest, L.status, L.code)
    if L.status == 'livelock':
        raise Violation('stuck', 'the study does not end: %s (%r)' % (L.exc, s))
    for x in L.notes:
        if x[0] == 'outside':
            raise Violation('outside', 'the study removes %s' % x[1])
    have = tree(root)
    for n, data in keep.items():
        if have.get(n) != data:
            raise Violation('bystander', 'the study %s %s, which is none of its files'
                            % ('changes' if n in have else 'removes', n))
    failed = [x for x in L.notes if x[0] in ('failed', 'no-program')]
    hit = any(k.startswith(('error:', 'line:', 'child:EAGAIN', 'child:slow')) for k in L.fired)
    if L.ok:
        ctx.count('studies with success')
        if failed:
            raise Violation('success', 'the study reports success although run %s failed (%r)' % (failed[0][1], s['case']))
        for n in keep:
            have.pop(n, None)
            want.pop(n, None)
        if any(k.startswith(('error:unlink', 'error:rmdir')) for k in L.fired):
            # what can not be removed may stay, but not in the directory of a case
            have = {n: v for n, v in have.items() if os.path.dirname(n) in where}
        diff = diff_files({n: v for n, v in want.items() if n not in noise},
                          {n: v for n, v in have.items() if n not in noise})
        if diff:
            raise Violation('results', 'the study reports success, but compared to an undisturbed one: %s (%s)'
                            % (diff, ', '.join(sorted(L.fired))))
    else:
        ctx.count('studies with failure')
        if not hit and not failed and not blocked(s):
            raise Violation('failed', 'the study fails without any fault: %s' % L.brief())
    ctx.count('cases', len(where))


def blocked(s):
    return 'order' in s['left']


def check_case(files, c, root, s):
    """Directory c holds the deck, results and log of one run of that deck."""
    import dg1d.deck as deckmod
    import io
    import contextlib
    d = deckmod.Deck()
    with contextlib.redirect_stdout(io.StringIO()):
        d.parser(os.path.join(root, c, 'deck.inp'))
    order, res = c.split(os.sep)[-2:]
    if str(d.order) != order or d.ic.split()[:2] != ['sinewave', res] or d.system != 'advection':
        raise Violation('case', 'directory %s holds the case %r' % (c, settings(d)))
    names = ['u%010d.dat' % k for k in range(d.nout)]
    here = sorted(os.path.basename(n) for n in files if os.path.dirname(n) == c)
    if here != sorted(names + ['deck.inp', 'logfile']):
        raise Violation('case', 'after a successful study directory %s holds %s' % (c, here))
    log = files[os.path.join(c, 'logfile')].decode()
    if log.count('Elapsed time') != 1 or log.count('Solution written') != d.nout:
        raise Violation('case', 'the log of %s is not that of one complete run: %r' % (c, log[:200]))
    if not s.get('real'):
        for k, n in enumerate(names):
            if files[os.path.join(c, n)].decode() != 'imitation of output %d of %s\n' % (k, settings(d)):
                raise Violation('case', '%s/%s does not belong to the deck of its directory' % (c, n))


def leftovers(s, root, where):
    """What is in the directory already; returns the files that must stay as they are."""
    keep = {'notes.txt': b'mine\n', '17/4/u0000000000.dat': b'another order\n', 'u0000000000.dat': b'mine too\n'}
    put_ = {}
    order = where[0].split(os.sep)[0]
    for k in s['left']:
        if k == 'same':
            put_['%s/u0000000000.dat' % where[0]] = b'older result\n'
            put_['%s/logfile' % where[-1]] = b'Elapsed time 0:00:09 (or 9.0 seconds)\n'
        elif k == 'other':
            put_['%s/999/u0000000010.dat' % order] = b'a resolution that is not asked for\n'
        elif k == 'stale':
            put_['%s/u0000000099.dat' % where[0]] = b'an output that is not asked for\n'
        elif k == 'file':
            put_['%s/notes' % order] = b'x'
        elif k == 'deck':
            keep['deck.inp'] = b'#order\n3\n'
        elif k == 'cut':
            put_['%s/deck.inp' % where[-1]] = b'#PDE system\nadv'
        elif k == 'order':
            put_[order] = b'a file in the way\n'
    if 'order' in s['left']:
        put_ = {order: put_[order]}
    for n, data in dict(keep, **put_).items():
        p = os.path.join(root, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(data)
    return keep


def shrinks(s):
    for k in list(s['left']):
        yield put(s, ('left',), [x for x in s['left'] if x != k])
    if s['start'] != 'here':
        yield put(s, ('start',), 'here')
    if s['case']:
        yield put(s, ('case',), None)
    io = s['plan']['io']
    for k in list(io):
        yield put(s, ('plan', 'io'), {x: v for x, v in io.items() if x != k})
    for k in ('crash', 'line', 'real', 'slow'):
        if s.get(k):
            yield {x: v for x, v in s.items() if x != k}
    for i, f in enumerate(io.get('faults', [])):
        for a in (1, 2, f['at'] // 2, f['at'] - 1):
            if 0 < a < f['at']:
                yield put(s, ('plan', 'io', 'faults', i, 'at'), a)

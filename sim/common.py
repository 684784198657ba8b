"""Workloads shared by the property modules."""
import errno
import os
import shutil
import numpy as np

from . import decks, life, seams
from .engine import Inconclusive, Violation

ERRNOS = {'ENOSPC': errno.ENOSPC, 'EIO': errno.EIO, 'EACCES': errno.EACCES, 'EMFILE': errno.EMFILE,
          'EDQUOT': errno.EDQUOT, 'EROFS': errno.EROFS}


def main_life(ctx, d, root, plan=None, deck='deck.inp', write=True, **k):
    """The shipped program on deck d in root."""
    if write:
        decks.write(d, root, deck)
    return ctx.life(lambda w: life.run_main(deck), root, plan, **k)


def expected_steps(d):
    return d['T'] / decks.dt0(d) + d['nout'] + 10


def resid_budget(d, factor=60):
    return int(factor * expected_steps(d) * decks.RKS.get(d['rk'], 4)) + 2000


def baseline(ctx, d, need_ok=False, **k):
    """The undisturbed run of deck d: (Life, {file: bytes})."""
    root = ctx.dir()
    L = main_life(ctx, d, root, budget=resid_budget(d), **k)
    ctx.sim_time += d['T']
    files = decks.read_all(root)
    shutil.rmtree(root)
    if need_ok and not L.ok:
        raise Inconclusive('baseline run does not complete: %s' % L.brief())
    if L.ok:
        missing = [n for n in decks.output_names(d) if n not in files]
        if missing:
            raise Violation('incomplete-success', 'the undisturbed run of %r succeeds without writing %s'
                            % (d, ', '.join(missing)))
    return L, files


def pick_place(places, frac, occ):
    """A line of the program, each one executed being equally likely, and one of its executions."""
    (name, line), count = places[min(len(places) - 1, int(frac * len(places)))]
    return name, line, {'first': 1, 'last': count}.get(occ) or 1 + int(occ * (count - 1))


def interior(u, nf):
    """(field, cell, mode) from a solution's coefficient array."""
    return np.array([u[:, nf + k:u.shape[1] - nf:nf].T for k in range(nf)])


def diff_files(a, b):
    """First difference between two {name: bytes}, or None."""
    for n in sorted(set(a) | set(b)):
        if n not in a:
            return 'unexpected file %s' % n
        if n not in b:
            return 'missing file %s' % n
        if a[n] != b[n]:
            la, lb = a[n].split(b'\n'), b[n].split(b'\n')
            for i, (x, y) in enumerate(zip(la, lb)):
                if x != y:
                    return '%s line %d: %r instead of %r' % (n, i + 1, y[:120], x[:120])
            return '%s: %d lines instead of %d' % (n, len(lb), len(la))
    return None


def io_shape(rng):
    """A random but harmless shape of the I/O: short writes/reads, buffer sizes."""
    io = {'seed': rng.randrange(1 << 30)}
    if rng.random() < 0.5:
        io['short_write'] = rng.choice([0.1, 0.5, 0.9])
    if rng.random() < 0.5:
        io['short_read'] = rng.choice([0.1, 0.5, 0.9])
    if rng.random() < 0.6:
        io['bufsize'] = rng.choice([1, 7, 64, 200, 1000, 4096])
    return io


def clock(rng):
    c = {'start': rng.choice([0.0, 1.0e9, 2147483640.0, 951782399.0, rng.uniform(1, 4e9)])}
    n = rng.randint(1, 4)
    c['jumps'] = [rng.choice([0.001, 1.0, 0.0, -0.5, -3600.0, 86400.0, 1e7, -1e6]) for _ in range(n)]
    if c['start'] + min(0, sum(min(0, j) for j in c['jumps'])) * 50 < 0:
        c['start'] += 1.5e9
    return c

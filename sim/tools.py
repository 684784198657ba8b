"""Side commands: python -m sim <name> ..."""
import json
import os
import sys

import numpy as np

from . import decks, engine, life


def setup():
    """Check that the framework and the tree can be used (nothing is built)."""
    from . import refmodel
    for pid in engine.PROPS:
        engine.load(pid)
    tables()
    return 0


def one_life(job):
    with open(job) as f:
        j = json.load(f)
    L = life.run_life(lambda w: life.run_main(j['deckpath']), j['root'], j['plan'], budget=j['budget'])
    if L.status == 'harness':
        print(L.exc)
        return 3
    print('LIFE ' + json.dumps([L.status, L.code]))
    return 0


# ------------------------------------------------------------------ Runge-Kutta tables of the model
def trees(n, _memo={}):
    """Rooted trees of order n as sorted tuples of children."""
    if n == 1:
        return [()]
    if n not in _memo:
        found = set()

        def forests(left, cap):
            """Multisets of trees with `left` vertices, none larger than cap = (order, index)."""
            if left == 0:
                yield ()
                return
            for m in range(min(left, cap[0]), 0, -1):
                ts = trees(m)
                for i, t in enumerate(ts):
                    if (m, i) <= cap:
                        for rest in forests(left - m, (m, i)):
                            yield (t,) + rest
        for f in forests(n - 1, (n - 1, 10 ** 9)):
            found.add(tuple(sorted(f)))
        _memo[n] = sorted(found)
    return _memo[n]


def order_of(t):
    return 1 + sum(order_of(c) for c in t)


def density(t):
    d = order_of(t)
    for c in t:
        d *= density(c)
    return d


def tables():
    """The tables of the reference model satisfy the order conditions of their schemes."""
    from .refmodel import table
    import functools
    bad = 0
    for name, q, full in (('rk3', 3, 3), ('rk4', 4, 4), ('rk5', 5, 5), ('rk6', 6, 6), ('rk8', 8, 8), ('rk10', 10, 9),
                          ('rk12', 12, 9), ('rk14', 14, 9)):
        b, a = table(name)
        s = len(b)
        b = np.array([float(x) for x in b])
        A = np.zeros((s, s))
        for i in range(s):
            for j in range(min(i, len(a[i]))):
                A[i, j] = float(a[i][j])

        memo = {}

        def phi(t):
            if t not in memo:
                v = np.ones(s)
                for c in t:
                    v = v * (A @ phi(c))
                memo[t] = v
            return memo[t]
        worst, n = 0.0, 0
        for m in range(1, full + 1):
            for t in trees(m):
                worst = max(worst, abs(b @ phi(t) - 1.0 / density(t)))
                n += 1
        c = A.sum(axis=1)
        for k in range(q):
            worst = max(worst, abs(b @ c ** k - 1.0 / (k + 1)))
            n += 1
        ok = worst < 1e-11
        bad += not ok
        print('%-5s %2d stages, %d order conditions (all trees to order %d, quadrature to %d): worst defect %.2g %s'
              % (name, s, n, full, q, worst, 'ok' if ok else 'WRONG'))
    return 1 if bad else 0


# ------------------------------------------------------------------ is the simulator deterministic?
def selftest(n='12', *pids):
    """Every scenario twice, with other numbers of workers and in other interpreters: same digests."""
    n = int(n)
    bad = 0
    for pid in (pids or engine.PROPS):
        mod = engine.load(pid)
        runs = []
        for workers in (1, 8, 3):
            runs.append({i: (r['digest'], r['verdict']) for i, r in engine.batch(mod, 77, n, workers, 600)})
        diff = [i for i in range(n) if len({r.get(i) for r in runs}) != 1]
        bad += len(diff)
        print('%s: %d scenarios, 3 times, workers 1/8/3: %s' % (pid, n, 'identical' if not diff else 'DIFFERENT: %s' % diff))
        sys.stdout.flush()
    return 1 if bad else 0

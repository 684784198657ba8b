"""Seeded search: generate scenarios, run them in forked workers, minimise and replay
failures, write the evidence file."""
import collections
import hashlib
import importlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from . import seams
from .seams import HarnessError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12',
         'C13', 'C14', 'C15', 'C16', 'C17', 'C18']


def wall():
    return seams.REAL.get('time.monotonic', time.monotonic)()


def load(pid):
    return importlib.import_module('sim.props.' + pid.lower())


def scratch():
    base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
    return tempfile.mkdtemp(prefix='dg1dsim.', dir=base)


class Ctx:
    """What a property module may use while it runs one scenario."""

    def __init__(self, root):
        self.root = root
        self.n = 0
        self.stats = collections.Counter()     # fault kinds fired, probes
        self.sim_time = 0.0                    # simulated (physical and clock) time
        self.digest = hashlib.sha256()
        self.lives = 0
        self.sigs = set()

    def dir(self, name=None):
        self.n += 1
        d = os.path.join(self.root, name or 'd%d' % self.n)
        os.makedirs(d)
        return d

    def life(self, body, root, plan=None, **k):
        from . import life
        L = life.run_life(body, root, plan, **k)
        self.lives += 1
        for kind, n in L.fired.items():
            self.stats['fault ' + kind] += n
        self.note('%s %s %s %d' % (L.status, L.code, L.log_digest, L.lines))
        if L.status == 'harness':
            raise HarnessError(L.exc)
        return L

    def note(self, s):
        self.digest.update(s.encode() + b'\n')

    def sig(self, *parts):
        """Count a distinct state/interleaving reached."""
        self.sigs.add(hashlib.sha256(repr(parts).encode()).hexdigest()[:16])

    def count(self, kind, n=1):
        self.stats[kind] += n


class Violation(Exception):
    def __init__(self, kind, text):
        Exception.__init__(self, text)
        self.kind = kind
        self.text = text


class Inconclusive(Exception):
    """The scenario does not decide the property (ill-conditioned data, unstable scheme)."""


def run_scenario(mod, scen):
    """Returns a result dict; deterministic for a given scenario and tree."""
    root = scratch()
    ctx = Ctx(root)
    res = {'verdict': 'ok', 'kind': '', 'text': ''}
    try:
        mod.run(scen, ctx)
    except Violation as v:
        res.update(verdict='violation', kind=v.kind, text=v.text)
    except Inconclusive as v:
        res.update(verdict='inconclusive', kind='', text=str(v))
    except Exception:
        res.update(verdict='harness', text=traceback.format_exc()[-4000:])
    finally:
        os.chdir('/')
        shutil.rmtree(root, ignore_errors=True)
    ctx.note(res['verdict'] + res['kind'])
    res.update(stats=dict(ctx.stats), sim_time=ctx.sim_time, digest=ctx.digest.hexdigest(),
               lives=ctx.lives, sigs=sorted(ctx.sigs))
    return res


def scenario(mod, seed, i):
    rng = random.Random('%s/%s/%d' % (mod.ID, seed, i))
    s = mod.gen(rng)
    s['property'] = mod.ID
    s['seed'] = '%s/%d' % (seed, i)
    return s


# ------------------------------------------------------------------ parallel batch
def batch(mod, seed, count, workers, cap, stop_after=3, indices=None, emit=None):
    """Run scenarios 0..count-1 of a seed; yields (i, result). Stops at the time cap."""
    indices = list(range(count)) if indices is None else indices
    start = wall()
    nfail = [0]
    procs = {}
    r_to_pid = {}
    for w in range(workers):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                for j, i in enumerate(indices):
                    if j % workers != w:
                        continue
                    if wall() - start > cap:
                        break
                    res = run_scenario(mod, scenario(mod, seed, i))
                    data = pickle.dumps((i, res))
                    _put(wr, len(data).to_bytes(8, 'little') + data)
            except BaseException:
                try:
                    data = pickle.dumps((-1, {'verdict': 'harness', 'kind': '', 'text': traceback.format_exc(),
                                              'stats': {}, 'sim_time': 0, 'digest': '', 'lives': 0, 'sigs': []}))
                    _put(wr, len(data).to_bytes(8, 'little') + data)
                except BaseException:
                    pass
            finally:
                os._exit(0)
        os.close(wr)
        procs[r] = [pid, b'']
    try:
        while procs:
            ready, _, _ = select.select(list(procs), [], [], 1.0)
            for r in ready:
                chunk = os.read(r, 1 << 20)
                if not chunk:
                    os.close(r)
                    os.waitpid(procs[r][0], 0)
                    del procs[r]
                    continue
                buf = procs[r][1] + chunk
                while len(buf) >= 8:
                    n = int.from_bytes(buf[:8], 'little')
                    if len(buf) < 8 + n:
                        break
                    i, res = pickle.loads(buf[8:8 + n])
                    buf = buf[8 + n:]
                    if res['verdict'] == 'violation':
                        nfail[0] += 1
                    yield i, res
                if r in procs:
                    procs[r][1] = buf
            if nfail[0] >= stop_after:
                break
    finally:
        for r, (pid, _) in procs.items():
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
            os.close(r)
            try:
                os.waitpid(pid, 0)
            except OSError:
                pass


def _put(fd, data):
    while data:
        n = seams.REAL['os.write'](fd, data)
        data = data[n:]


# ------------------------------------------------------------------ minimisation
def size(s):
    return len(json.dumps(s))


def generic_shrinks(s):
    """Smaller variants of a scenario: lists lose members, decks get simpler, numbers shrink."""
    from . import decks
    for path, v in list(walk(s)):
        if path and path[-1] in ('property', 'seed', 'kind'):
            continue
        if isinstance(v, list) and v and isinstance(v[0], (list, dict)):
            if len(v) > 2:
                h = len(v) // 2
                yield put(s, path, v[:h])
                yield put(s, path, v[h:])
            for k in range(len(v)):
                yield put(s, path, v[:k] + v[k + 1:])
        if isinstance(v, dict) and 'ic' in v and 'order' in v:
            for d in simpler_decks(v):
                yield put(s, path, d)


def simpler_decks(d):
    from . import decks

    def with_(**k):
        e = dict(d)
        for a, b in k.items():
            if b is None:
                e.pop(a, None)
            else:
                e[a] = b
        return e
    if d.get('enhance'):
        yield with_(enhance=None)
    if d.get('limiting'):
        yield with_(limiting=None, thresholds=None)
    if d.get('thresholds') and not d.get('limiting'):
        yield with_(thresholds=None)
    w = d['ic'].split()
    n = int(w[1])
    for m in sorted({2, 4, n // 2, n - 1}):
        if 2 <= m < n:
            yield with_(ic=' '.join([w[0], str(m)] + w[2:]))
    if d['order'] > 1 and not d.get('enhance'):
        yield with_(order=1)
        yield with_(order=d['order'] - 1)
    if d['nout'] > 2:
        yield with_(nout=2)
        yield with_(nout=d['nout'] - 1)
    if d['rk'] not in ('rk4', 'low_storage_rk4', 'rk3'):
        yield with_(rk='rk3')
        yield with_(rk='rk4')
    for f in (0.3, 0.6):
        T = float('%.3g' % (d['T'] * f))
        if 0.02 * decks.dt0(d) < T < d['T'] * 0.9:
            yield with_(T=T)


def walk(v, path=()):
    yield path, v
    if isinstance(v, dict):
        for k in sorted(v):
            yield from walk(v[k], path + (k,))
    elif isinstance(v, list):
        for i, x in enumerate(v):
            if isinstance(x, (dict, list)):
                yield from walk(x, path + (i,))


def put(s, path, value):
    s = json.loads(json.dumps(s))
    if not path:
        return value
    c = s
    for p in path[:-1]:
        c = c[p]
    c[path[-1]] = value
    return s


def minimise(mod, scen, kind, seconds=40, same=None):
    start = wall()
    best = scen
    tried = set()
    improved = True
    n = 0
    while improved and wall() - start < seconds:
        improved = False
        cands = list(mod.shrinks(best)) if hasattr(mod, 'shrinks') else []
        cands += list(generic_shrinks(best))
        for c in cands:
            if wall() - start > seconds:
                break
            if hasattr(mod, 'valid') and not mod.valid(c):
                continue
            key = json.dumps(c, sort_keys=True)
            if key in tried:
                continue
            tried.add(key)
            n += 1
            try:
                res = run_isolated(mod, c)
            except Exception:
                continue
            if res['verdict'] == 'violation' and res['kind'] == kind and getattr(mod, 'clear', lambda r: True)(res):
                best = c
                improved = True
                break
    return best, n


def run_isolated(mod, scen):
    """Run one scenario in a forked process (so that nothing leaks between candidates)."""
    out = None
    for i, res in batch_one(mod, scen):
        out = res
    if out is None:
        raise HarnessError('no result')
    return out


def batch_one(mod, scen):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            data = pickle.dumps(run_scenario(mod, scen))
            _put(w, data)
        finally:
            os._exit(0)
    os.close(w)
    data = b''
    while True:
        c = os.read(r, 1 << 20)
        if not c:
            break
        data += c
    os.close(r)
    os.waitpid(pid, 0)
    if data:
        yield 0, pickle.loads(data)


# ------------------------------------------------------------------ replay
def replay_path(pid, scen, kind):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(json.dumps(scen, sort_keys=True).encode()).hexdigest()[:10]
    return os.path.join(d, '%s-%s-%s.json' % (pid, ''.join(c if c.isalnum() else '-' for c in kind)[:40], h))


def fresh(args, hashseed=None, timeout=600):
    env = dict(os.environ)
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    if hashseed is not None:
        env['PYTHONHASHSEED'] = str(hashseed)
    with subprocess_real():
        return subprocess.run([sys.executable, '-W', 'ignore', '-m', 'sim'] + args, cwd=VERIF, env=env,
                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)


class subprocess_real:
    def __enter__(self):
        assert seams.WORLD is None

    def __exit__(self, *a):
        pass


# ------------------------------------------------------------------ findings
def known_findings():
    out = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:'):
                # finding: property=C05 kind=<kind> match=<substring> :: what fails
                head, _, what = l[len('finding:'):].partition('::')
                f = dict(x.split('=', 1) for x in head.split())
                f['what'] = what.strip()
                out.append(f)
    return out


def is_known(pid, scen, res):
    for f in known_findings():
        if f.get('property') == pid and f.get('kind') == res['kind'] and \
                f.get('match', '') in json.dumps(scen, sort_keys=True).replace(' ', ''):
            return f
    return None


# ------------------------------------------------------------------ the check
def check(pid, tier, seed, workers=None, count=None, cap=None):
    mod = load(pid)
    workers = workers or int(os.environ.get('SIM_WORKERS', min(8, os.cpu_count() or 1)))
    n_q, cap_q = mod.QUICK
    n_t, cap_t = getattr(mod, 'THOROUGH', (n_q * 25, 780))
    count = count or (n_q if tier == 'quick' else n_t)
    cap = cap or (cap_q if tier == 'quick' else cap_t)
    print('property=%s tier=%s VERIF_SEED=%s tree=%s' % (pid, tier, seed, os.environ.get('DG1D_REPO', '/repo')))
    sys.stdout.flush()
    t0 = wall()
    done = collections.Counter()
    stats = collections.Counter()
    sigs, nontrivial = set(), set()
    lives, sim_time = 0, 0.0
    fails, harness, samples, inconclusive = [], [], [], []
    digest = {}
    for i, res in batch(mod, seed, count, workers, cap, getattr(mod, "STOP_AFTER", 3)):
        done[res['verdict']] += 1
        stats.update(res['stats'])
        sigs.update(res['sigs'])
        lives += res['lives']
        sim_time += res['sim_time']
        digest[i] = res['digest']
        if res['verdict'] == 'harness':
            harness.append((i, res))
        elif res['verdict'] == 'violation':
            fails.append((i, res))
        elif res['verdict'] == 'inconclusive':
            inconclusive.append((i, res))
        if i >= 0 and res['verdict'] in ('ok', 'violation'):
            if len(samples) < 4:
                samples.append({'index': i, 'scenario': scenario(mod, seed, i), 'verdict': res['verdict']})
            nontrivial.add(res['digest'])
    search_s = wall() - t0
    code = 0
    violations = []
    seen = set()
    notes = []
    tries = collections.Counter()
    unproven = {}
    for i, res in sorted(fails, key=lambda f: (not getattr(mod, 'clear', lambda r: True)(f[1]), f[0])):
        if res['kind'] in seen or tries[res['kind']] >= 3:
            continue
        scen = scenario(mod, seed, i)
        if is_known(pid, scen, res):
            continue
        tries[res['kind']] += 1
        path, text, ok = report(mod, pid, scen, res, seed)
        if ok:
            seen.add(res['kind'])
            violations.append({'kind': res['kind'], 'replay': path, 'seed': '%s/%d' % (seed, i), 'what': text})
            print('VIOLATION property=%s replay=%s' % (pid, path))
            print('  %s: %s' % (res['kind'], text[:1000]))
            code = 1
        else:
            notes.append('scenario %d: %s (%s) did not replay in a fresh process' % (i, res['kind'], res['text'][:500]))
            unproven.setdefault(res['kind'], notes[-1])
        sys.stdout.flush()
        if len(violations) >= 2:
            break
    for kind, note in unproven.items():
        if kind not in seen:
            print('%s %s' % ('HARNESS' if not getattr(mod, 'MEASURED', False) else 'UNCONFIRMED', note))
            if code == 0 and not getattr(mod, 'MEASURED', False):
                code = 2
    for f in known_findings():
        if f.get('property') == pid:
            print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    if harness and code == 0:
        print('HARNESS error in scenario %d\n%s' % (harness[0][0], harness[0][1]['text']))
        code = 2
    decided = done['ok'] + done['violation']
    if code == 0 and (decided == 0 or done['inconclusive'] > 0.6 * (decided + done['inconclusive'])):
        print('HARNESS: only %d of %d scenarios decided the property; e.g. %s' % (
            decided, sum(done.values()), inconclusive[0][1]['text'] if inconclusive else ''))
        code = 2
    total = wall() - t0
    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith('fault ')}
    probes = {k: v for k, v in sorted(stats.items()) if not k.startswith('fault ')}
    cov = {
        'evaluations': sum(done.values()),
        'distinct_nontrivial': len(nontrivial),
        'rule': mod.RULE + '  Two scenarios count as distinct when the digests of their event logs and outcomes '
                           'differ; inconclusive scenarios are not counted.',
        'samples': samples,
        'scenario_seeds': '%s/%s/0 .. %s/%s/%d' % (pid, seed, pid, seed, count - 1),
        'verdicts': dict(done),
        'simulated_processes': lives,
        'scenarios_per_hour': int(sum(done.values()) / max(search_s, 1e-9) * 3600),
        'simulated_processes_per_hour': int(lives / max(search_s, 1e-9) * 3600),
        'simulated_time_covered': sim_time,
        'simulated_time_unit': 'physical time units of the simulated PDE runs (sum over runs)',
        'faults_injected': faults,
        'probes': probes,
        'distinct_states': len(sigs),
        'distinct_states_measure': getattr(mod, 'MEASURE', 'digest of the event log of each simulated process'),
        'batch_digest': hashlib.sha256(repr(sorted(digest.items())).encode()).hexdigest()[:16],
        'workers': workers,
        'real_components': getattr(mod, 'REAL', 'all of dg1d (imported from the working tree), numpy, Python file buffering'),
        'stubbed_components': getattr(mod, 'STUB', 'system-call layer of the disk (fault-injecting FileIO over a scratch '
                                                    'directory), clock, entropy, stdout, git'),
        'notes': notes,
    }
    ev = {'property': pid, 'tier': tier, 'seed': int(seed), 'level': 'exploration', 'coverage': cov,
          'assumptions': getattr(mod, 'ASSUME', []), 'wall_s': round(total, 2), 'violations': len(violations)}
    ev['coverage']['violations'] = violations
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
        f.write('\n')
    print('%s: %s scenarios %s, %d lives, %.1f s, exit %d' % (pid, sum(done.values()), dict(done), lives, total, code))
    if faults:
        print('  faults: ' + ', '.join('%s=%d' % kv for kv in faults.items()))
    if probes:
        print('  probes: ' + ', '.join('%s=%d' % kv for kv in probes.items()))
    return code


def report(mod, pid, scen, res, seed):
    """Minimise, write the replay file, replay it in a fresh interpreter."""
    try:
        best, tried = minimise(mod, scen, res['kind'])
    except Exception:
        best, tried = scen, 0
        print('HARNESS minimisation failed\n' + traceback.format_exc())
    stable = getattr(mod, 'IRREPRODUCIBLE_IS_VIOLATION', False)
    for cand in (best, scen):
        path = replay_path(pid, cand, res['kind'])
        r = run_isolated(mod, cand)
        if r['verdict'] != 'violation':
            continue
        doc = {'property': pid, 'kind': r['kind'], 'what': r['text'], 'digest': r['digest'],
               'hashseed': os.environ.get('PYTHONHASHSEED', ''), 'scenario': cand,
               'found': {'VERIF_SEED': seed, 'scenario': scen['seed']}, 'minimisation_runs': tried}
        with open(path, 'w') as f:
            json.dump(doc, f, indent=1)
            f.write('\n')
        p = fresh(['replay', path])
        if p.returncode == 1:
            return path, r['text'], True
        if os.environ.get('SIM_DEBUG'):
            print(p.stdout.decode()[-3000:])
    if stable:
        path = replay_path(pid, scen, res['kind'])
        with open(path, 'w') as f:
            json.dump({'property': pid, 'kind': res['kind'], 'what': res['text'], 'digest': res['digest'],
                       'scenario': scen, 'note': 'the tree itself is not reproducible'}, f, indent=1)
        return path, res['text'], True
    return '', res['text'], False


def replay(path, verbose=True):
    with open(path) as f:
        doc = json.load(f)
    mod = load(doc['property'])
    res = run_scenario(mod, doc['scenario'])
    same = res['digest'] == doc.get('digest')
    print('replay of %s: %s %s' % (path, res['verdict'], res['kind']))
    print('  ' + res['text'][:2000])
    print('  event log digest %s (%s)' % (res['digest'][:16], 'identical' if same else 'differs from the recorded one'))
    if res['verdict'] == 'violation' and res['kind'] == doc['kind']:
        print('VIOLATION property=%s replay=%s' % (doc['property'], path))
        return 1
    return 2 if res['verdict'] == 'harness' else 0

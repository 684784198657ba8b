"""The seams: every source of nondeterminism or failure dg1d meets goes through here.

install() must run before numpy and dg1d are imported, so that every reference they
capture (numpy keeps its own reference to io.open, for example) is ours.  Without an
active World all seams pass straight through to the real functions.

Seams owned by the simulator
  disk       open()/io.open() on files below the world's root: a FileIO subclass under
             Python's real buffering layers, so short writes, short reads, torn writes,
             errors and crashes happen at the "system call" level; plus the os.* calls
             that change the file system.  The files themselves live in a scratch
             directory: what a crash leaves there is what the disk kept.
  clock      time.time, time_ns, monotonic, perf_counter, process_time, sleep,
             datetime.now/utcnow/today.
  entropy    random, numpy.random (global state), os.urandom, contents of numpy.empty.
  processes  subprocess.Popen (the "git describe" of the banner).
  machine    environment variables asked for by dg1d, processors, process id, names.
  stdout     captured; may fail like a log file on a full disk.
"""
import atexit
import builtins
import errno as errno_mod
import glob
import io
import os
import platform
import random
import shutil
import socket
import subprocess
import sys
import time
import datetime

PKG = os.path.join(os.path.realpath(os.environ.get('DG1D_REPO', '/repo')), 'dg1d') + os.sep
REAL = {}
WORLD = None  # the active world (one per simulated process)


class BudgetExceeded(BaseException):
    """The simulated process used up its step budget (livelock)."""


class HarnessError(Exception):
    """Something the simulator itself got wrong: never reported as a violation."""


# ------------------------------------------------------------------ the world
class World:
    """All environment decisions of one simulated process."""

    CRASH_STATUS = 137

    def __init__(self, root, plan=None):
        plan = plan or {}
        self.root = os.path.realpath(root)
        self.plan = plan
        self.log = []            # event log: (kind, path, detail)
        self.nmut = 0            # mutating I/O events so far
        self.nread = 0           # reading I/O events so far
        self.nout = 0            # stdout writes so far
        self.fired = {}          # fault kind -> times it actually happened
        self.after_mut = None    # invariant run after every mutating event
        self.on_crash = None     # called right before the process dies
        self.on_exit = None      # called when dg1d leaves by os._exit
        self.notes = []          # what the harness recorded (survives a crash of the life)
        self.quiet = False       # true while the harness itself touches the disk
        io_plan = plan.get('io', {})
        self.faults = [dict(f) for f in io_plan.get('faults', [])]
        self.short_write = io_plan.get('short_write', 0.0)
        self.short_read = io_plan.get('short_read', 0.0)
        self.bufsize = int(io_plan.get('bufsize', 8192))
        self.shape = random.Random(io_plan.get('seed', 0))
        # clock
        c = plan.get('clock', {})
        self.now = float(c.get('start', 1.0e9))
        self.jumps = list(c.get('jumps', [])) or [0.001]
        self.nclock = 0
        self.mono = 100.0
        # entropy
        self.entropy = int(plan.get('entropy', 1))
        self.rng = random.Random(self.entropy)
        self.dirty = random.Random(self.entropy + 17)
        # processes
        self.git = plan.get('git', 'ok')
        self.children = None     # imitates other programs: (args, rest, keywords) -> exit status
        # the machine: environment variables dg1d asks for, processors, names, load
        self.machine = plan.get('machine')
        # file times: as coarse as those of the file system; other file systems can not be renamed into
        self.grain = random.Random(self.entropy + 3).choice([2.0, 2.0, 1.0, 0.01, 1e-6])
        self.exdev = bool(plan.get('exdev'))
        # names of files that were asked for but are not there
        self.probed = set()
        self.asked = 0           # questions to the file system: files looked up, entries listed

    # -- bookkeeping
    def count(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    def inside(self, path):
        if self.quiet or not isinstance(path, (str, bytes, os.PathLike)):
            return False
        p = os.fspath(path)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.join(os.getcwd(), p)
        p = os.path.normpath(p)
        return p.startswith(self.root + os.sep)

    def rel(self, path):
        p = os.fspath(path)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return os.path.relpath(os.path.normpath(os.path.join(os.getcwd(), p)), self.root)

    def die(self):
        self.count('crash')
        if self.on_crash is not None:
            self.on_crash()
        REAL.get('os._exit', os._exit)(self.CRASH_STATUS)

    def missed(self, path):
        if len(self.probed) < 50 and self.inside(path):
            self.probed.add(self.rel(path))

    # -- disk events
    def _match(self, cls, index, kind, path):
        for f in self.faults:
            if f.get('class', 'mut') != cls:
                continue
            if f.get('kinds') and kind not in f['kinds']:
                continue
            if index == f['at'] or (f.get('sticky') and index >= f['at']):
                return f
        return None

    def refused(self, errnos):
        """The error with which every next write will fail, if there is one."""
        for f in self.faults:
            if f['do'] == 'error' and f.get('sticky') and f.get('errno') in errnos and self.nmut + 1 >= f['at'] \
                    and f.get('class', 'mut') == 'mut' and (not f.get('kinds') or 'open-write' in f['kinds']):
                return f['errno']
        return None

    def begin(self, cls, kind, path, size=0):
        """A system call is about to happen; returns (fault, index)."""
        if cls == 'mut':
            self.nmut += 1
            index = self.nmut
        else:
            self.nread += 1
            index = self.nread
        rel = self.rel(path)
        self.now += 1e-4
        self.log.append((kind, rel, size))
        f = self._match(cls, index, kind, rel)
        if f is None:
            return None
        if f.get('then'):
            # what fails next, after this
            self.faults.append(dict(f['then'], at=index + 1, sticky=True, once=True))
            f['then'] = None
        if f.get('once'):
            self.faults.remove(f)
        if f['do'] == 'error':
            if f.get('errno') == errno_mod.ENOSPC and kind in ('open-read', 'read', 'unlink', 'close'):
                return None      # a full disk does not fail these
            name = errno_mod.errorcode.get(f['errno'], str(f['errno']))
            self.count('error:%s:%s' % (kind, name))
            if f.get('partial') and kind == 'write' and size > 1:
                return {'do': 'partial', 'n': max(1, int(size * f['partial'])), 'errno': f['errno']}
            if kind == 'close':
                return {'do': 'close-error', 'errno': f['errno']}
            raise OSError(f['errno'], os.strerror(f['errno']), rel)
        if f['do'] == 'crash':
            if f.get('when') == 'before':
                self.count('crash:before-%s' % kind)
                self.die()
            return {'do': 'crash', 'when': f.get('when', 'after'), 'frac': f.get('frac', 0.5), 'kind': kind}
        raise HarnessError('unknown fault %r' % (f,))

    def end(self, fault):
        """The mutating system call is done."""
        if fault is not None and fault['do'] == 'crash':
            self.count('crash:%s-%s' % (fault['when'], fault['kind']))
            self.die()
        if self.after_mut is not None:
            self.quiet = True
            try:
                self.after_mut(self)
            finally:
                self.quiet = False

    def stamp(self, fd):
        """A file that was written has the simulated time."""
        try:
            at = int(self.now / self.grain) * self.grain
            os.utime(fd, (at, at))
        except OSError:
            pass

    # -- clock
    def tick_clock(self):
        j = self.jumps[self.nclock % len(self.jumps)]
        self.nclock += 1
        self.now += j
        if j < 0 or j > 60:
            self.count('clock-jump')
        self.mono += abs(j) if abs(j) < 10 else 0.001
        self.log.append(('clock', '', self.nclock))
        return self.now


# ------------------------------------------------------------------ disk
class SimRaw(io.FileIO):
    """A file of the simulated disk."""

    def __init__(self, path, mode, world):
        self._w = world
        self._p = os.path.join(os.getcwd(), os.fspath(path))
        self._wr = mode != 'rb'
        fault = world.begin('mut' if self._wr else 'read',
                            'open-write' if self._wr else 'open-read', self._p)
        try:
            super().__init__(path, mode)
        except FileNotFoundError:
            world.missed(self._p)
            raise
        if self._wr:
            world.end(fault)

    def write(self, b):
        w = self._w
        if w.quiet:
            return super().write(b)
        data = bytes(b)
        n = len(data)
        fault = w.begin('mut', 'write', self._p, n)
        if fault is not None and fault['do'] == 'partial':
            super().write(data[:fault['n']])
            raise OSError(fault['errno'], os.strerror(fault['errno']), self._p)
        if fault is not None and fault['do'] == 'crash' and fault['when'] == 'torn':
            k = int(n * fault['frac'])
            if k:
                super().write(data[:k])
            w.end(fault)
        if w.short_write and n > 1 and w.shape.random() < w.short_write:
            n = w.shape.randrange(1, n)
            w.count('short-write')
        done = super().write(data[:n])
        w.end(fault)
        return done

    def readinto(self, b):
        w = self._w
        if w.quiet:
            return super().readinto(b)
        w.begin('read', 'read', self._p, len(b))
        m = memoryview(b)
        if w.short_read and len(m) > 1 and w.shape.random() < w.short_read:
            m = m[:w.shape.randrange(1, min(len(m), 200))]
            w.count('short-read')
        return super().readinto(m)

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        buf = bytearray(size)
        n = self.readinto(buf)
        return bytes(buf[:n])

    def readall(self):
        out = []
        while True:
            buf = bytearray(4096)
            n = self.readinto(buf)
            if not n:
                return b''.join(out)
            out.append(bytes(buf[:n]))

    def truncate(self, size=None):
        fault = self._w.begin('mut', 'truncate', self._p)
        r = super().truncate(size)
        self._w.end(fault)
        return r

    def close(self):
        if self.closed:
            return
        w = self._w
        if w.quiet or not self._wr:
            super().close()
            return
        fault = None
        try:
            fault = w.begin('mut', 'close', self._p)
        finally:
            w.stamp(self.fileno())
            super().close()
        if fault is not None and fault['do'] == 'close-error':
            raise OSError(fault['errno'], os.strerror(fault['errno']), self._p)
        w.end(fault)


OPEN_FILES = []
AT_EXIT = []


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
    w = WORLD
    if w is None or opener is not None or not w.inside(file):
        return REAL['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    modes = set(mode)
    raw_mode = ''.join(c for c in 'rwax+' if c in modes) + 'b'
    raw = SimRaw(file, raw_mode, w)
    result = raw
    try:
        binary = 'b' in modes
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = w.bufsize if buffering < 2 else buffering
        if '+' in modes:
            buf = io.BufferedRandom(raw, size)
        elif modes & set('wax'):
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        result = buf
        if not binary:
            text = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
            if w.bufsize < 8192:
                text._CHUNK_SIZE = max(1, w.bufsize)
            text.mode = mode
            result = text
        if modes & set('wax+'):
            import weakref
            OPEN_FILES.append(weakref.ref(result))
        return result
    except BaseException:
        result.close()
        raise


def finalize_files():
    """What the end of the interpreter does: wait for threads, call exit handlers, flush and close files."""
    import gc
    import threading
    for f in reversed(getattr(threading, '_threading_atexits', [])):    # (thread pools finish their work)
        f()
    for th in threading.enumerate():
        if th is not threading.current_thread() and not th.daemon:
            th.join(20)
    while AT_EXIT:
        func, a, k = AT_EXIT.pop()
        try:
            func(*a, **k)
        except Exception:
            pass   # reported on stderr only
    gc.collect()
    for ref in list(OPEN_FILES):
        f = ref()
        if f is not None and not f.closed:
            try:
                f.close()
            except Exception:
                pass   # "Exception ignored in ..."


def _wrap_os(name, kind, npaths=1):
    real = getattr(os, name)
    REAL['os.' + name] = real

    def call(*a, **k):
        w = WORLD
        if w is None or not a or not any(w.inside(p) for p in a[:npaths]):
            return real(*a, **k)
        if npaths == 2 and w.exdev and not all(w.inside(p) for p in a[:2]):
            w.count('error:%s:EXDEV' % kind)
            raise OSError(errno_mod.EXDEV, os.strerror(errno_mod.EXDEV), os.fspath(a[0]), None, os.fspath(a[1]))
        fault = w.begin('mut', kind, a[npaths - 1])
        r = real(*a, **k)
        w.end(fault)
        return r
    call.__name__ = name
    setattr(os, name, call)


# ------------------------------------------------------------------ processes
def command(args):
    return args if isinstance(args, str) else ' '.join(os.fspath(x) for x in args)


class FakePopen:
    """Stands in for the processes dg1d starts: git, and what the harness imitates."""
    _child = None
    reading = False
    patience = 0            # how often a slow child is not yet done when asked

    def __init__(self, args, *a, **k):
        w = WORLD
        if w is None:
            raise HarnessError('subprocess outside a world')
        cmd = command(args)
        w.log.append(('spawn', '', cmd.replace(w.root, '.')))
        self.args = args
        self.returncode = None
        text = k.get('universal_newlines') or k.get('text') or k.get('encoding')
        if not cmd.startswith('git') and w.children is not None:
            # a process the harness knows how to imitate
            self._child = w.children(args, a, k)
            self.patience = getattr(w.children, 'patience', 0)
            self._text = text
            self._out = '' if text else b''
            self.stdout = self.stderr = self.stdin = None
            self.pid = 4243
            return
        if not cmd.startswith('git'):
            # a tool that fails
            self._status, self._out = 1, '' if text else b''
            self.stdout, self.stderr = (io.StringIO(), io.StringIO()) if text else (io.BytesIO(), io.BytesIO())
            self.stdin = None
            self.pid = 4244
            return
        if w.git == 'missing':
            w.count('spawn:ENOENT')
            raise FileNotFoundError(2, 'No such file or directory', 'git')
        if w.git == 'noproc':
            w.count('spawn:EAGAIN')
            raise BlockingIOError(errno_mod.EAGAIN, 'Resource temporarily unavailable', 'git')
        out = ''
        if w.git == 'fail':
            w.count('spawn:exit128')
            self._status = 128
        else:
            self._status = 0
            out = 'sim-' + str(w.git) + '\n'
        self.stdout = io.StringIO(out) if text else io.BytesIO(out.encode())
        self.stderr = io.StringIO('') if text else io.BytesIO(b'')
        self.stdin = None
        self.pid = 4242
        self._out = out if text else out.encode()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.wait()

    def communicate(self, input=None, timeout=None):
        self.reading = True
        self.wait(timeout)
        return self._out, self._out[:0]

    def wait(self, timeout=None):
        if self._child is not None:
            if self.patience and timeout is not None:
                # still running
                self.patience -= 1
                time.sleep(timeout)
                WORLD.count('child:slow')
                raise subprocess.TimeoutExpired(self.args, timeout)
            child, self._child = self._child, None
            self._status, out = child(self.reading)
            self._out = out if self._text else out.encode()
        self.returncode = self._status
        return self.returncode

    def poll(self):
        if self._child is not None and self.patience:
            self.patience -= 1
            WORLD.count('child:slow')
            return None
        return self.wait()

    def kill(self, sig=9):
        if self._child is not None:
            self._child, self._status = None, -sig
            WORLD.notes.append(('failed', 'killed by the study'))

    def terminate(self):
        self.kill(15)

    def send_signal(self, sig):
        self.kill(sig)


# ------------------------------------------------------------------ clock
def _clock(name, value):
    real = getattr(time, name)
    REAL['time.' + name] = real

    def call():
        w = WORLD
        return real() if w is None else value(w)
    setattr(time, name, call)


class SimDateTime(datetime.datetime):
    @classmethod
    def now(cls, tz=None):
        w = WORLD
        return cls.fromtimestamp(REAL['time.time']() if w is None else w.tick_clock(), tz)

    @classmethod
    def utcnow(cls):
        return cls.now()

    @classmethod
    def today(cls):
        return cls.now()


# ------------------------------------------------------------------ stdout
class SimOut(io.TextIOBase):
    """Captured standard output of the simulated process."""

    def __init__(self, world):
        self.w = world
        self.parts = []

    def writable(self):
        return True

    def write(self, s):
        w = self.w
        w.nout += 1
        at = w.plan.get('stdout_fail')
        if at is not None and w.nout >= at:
            w.count('error:stdout:ENOSPC')
            raise OSError(errno_mod.ENOSPC, 'No space left on device', '<stdout>')
        self.parts.append(s)
        return len(s)

    def flush(self):
        pass

    def text(self):
        return ''.join(self.parts)


# ------------------------------------------------------------------ install
def install():
    """Put the seams in place (once, before numpy is imported)."""
    if REAL:
        return
    if 'numpy' in sys.modules or 'dg1d' in sys.modules:
        raise HarnessError('seams must be installed before numpy is imported')
    REAL['open'] = io.open
    REAL['os.urandom'] = os.urandom
    REAL['Popen'] = subprocess.Popen
    builtins.open = sim_open
    io.open = sim_open
    for name, kind, n in [('replace', 'rename', 2), ('rename', 'rename', 2), ('renames', 'rename', 2),
                          ('remove', 'unlink', 1), ('unlink', 'unlink', 1), ('link', 'link', 2),
                          ('symlink', 'link', 2), ('truncate', 'truncate', 1),
                          ('mkdir', 'mkdir', 1), ('rmdir', 'rmdir', 1)]:
        _wrap_os(name, kind, n)

    # raw descriptors: os.open/os.write/os.fsync on files of the simulated disk
    fds = {}
    real_open, real_write, real_close, real_fsync = os.open, os.write, os.close, os.fsync
    REAL.update({'os.open': real_open, 'os.write': real_write, 'os.close': real_close})

    def os_open(path, flags, mode=0o777, *, dir_fd=None):
        w = WORLD
        wr = flags & (os.O_WRONLY | os.O_RDWR)
        if w is None or dir_fd is not None or not w.inside(path):
            return real_open(path, flags, mode, dir_fd=dir_fd)
        p = os.path.join(os.getcwd(), os.fspath(path))
        fault = w.begin('mut' if wr else 'read', 'open-write' if wr else 'open-read', p)
        fd = real_open(path, flags, mode)
        fds[fd] = p
        if wr:
            w.end(fault)
        return fd

    def os_write(fd, data):
        w = WORLD
        p = fds.get(fd)
        if w is None or p is None or w.quiet:
            return real_write(fd, data)
        data = bytes(data)
        n = len(data)
        fault = w.begin('mut', 'write', p, n)
        if fault is not None and fault['do'] == 'partial':
            real_write(fd, data[:fault['n']])
            raise OSError(fault['errno'], os.strerror(fault['errno']), p)
        if fault is not None and fault['do'] == 'crash' and fault['when'] == 'torn':
            real_write(fd, data[:int(n * fault['frac'])])
            w.end(fault)
        if w.short_write and n > 1 and w.shape.random() < w.short_write:
            n = w.shape.randrange(1, n)
            w.count('short-write')
        r = real_write(fd, data[:n])
        w.end(fault)
        return r

    def os_close(fd):
        if fds.pop(fd, None) is not None and WORLD is not None:
            WORLD.stamp(fd)
        return real_close(fd)

    def os_fsync(fd):
        w = WORLD
        if w is None or fd not in fds:
            return real_fsync(fd)
        fault = w.begin('mut', 'fsync', fds[fd])
        w.end(fault)
    os.open, os.write, os.close, os.fsync = os_open, os_write, os_close, os_fsync

    def asking(mod, name):
        real = getattr(mod, name)
        REAL['%s.%s' % (mod.__name__, name)] = real

        def f(path, *a, **k):
            if WORLD is not None and not WORLD.quiet:
                WORLD.asked += 1
            try:
                return real(path, *a, **k)
            except FileNotFoundError:
                if WORLD is not None:
                    WORLD.missed(path)
                raise
        setattr(mod, name, f)
        for known in (os.supports_dir_fd, os.supports_fd, os.supports_follow_symlinks):
            if real in known:
                known.add(f)
    asking(os, 'stat')
    asking(os, 'lstat')
    real_glob = glob.iglob

    def iglob(pattern, *a, **k):
        if WORLD is not None and isinstance(pattern, str):
            WORLD.missed(pattern.replace('**', 'more').replace('*', '7').replace('?', '7'))
        return real_glob(pattern, *a, **k)
    glob.iglob = iglob
    glob.glob = lambda *a, **k: list(iglob(*a, **k))

    shutil._USE_CP_SENDFILE = False        # copies go through our files

    # what runs when the interpreter ends
    REAL['atexit.register'] = atexit.register

    def register(func, *a, **k):
        if WORLD is None or not asked_by_dg1d():
            return REAL['atexit.register'](func, *a, **k)
        AT_EXIT.append((func, a, k))
        return func
    atexit.register = register

    # clock
    _clock('time', lambda w: w.tick_clock())
    _clock('time_ns', lambda w: int(w.tick_clock() * 1e9))
    mono = lambda w: (w.tick_clock(), w.mono)[1]
    for n in ('monotonic', 'perf_counter', 'process_time', 'thread_time'):
        _clock(n, mono)
    for n in ('monotonic_ns', 'perf_counter_ns', 'process_time_ns'):
        _clock(n, lambda w: int(mono(w) * 1e9))
    REAL['time.sleep'] = time.sleep

    def sleep(s):
        w = WORLD
        if w is None:
            return REAL['time.sleep'](s)
        w.now += s
        w.mono += s
        w.log.append(('sleep', '', s))
    time.sleep = sleep
    REAL['datetime'] = datetime.datetime
    datetime.datetime = SimDateTime

    # entropy
    def urandom(n):
        w = WORLD
        if w is None:
            return REAL['os.urandom'](n)
        return bytes(w.rng.randrange(256) for _ in range(n))
    os.urandom = urandom
    random._urandom = urandom

    # machine
    real_getitem = os._Environ.__getitem__

    def getitem(self, key):
        w = WORLD
        if w is None or w.machine is None or not asked_by_dg1d():
            return real_getitem(self, key)
        w.count('environment-variable')
        return random.Random('%s/%s' % (w.machine, key)).choice(['1', '0', 'yes', '', '7', 'debug', '0.25', '/tmp'])
    os._Environ.__getitem__ = getitem

    def machine(mod, name, pick):
        real = getattr(mod, name)
        REAL['%s.%s' % (mod.__name__, name)] = real

        def f(*a, **k):
            w = WORLD
            if w is None or w.machine is None or not asked_by_dg1d():
                return real(*a, **k)
            w.count('machine')
            return pick(random.Random('%s/%s' % (w.machine, name)))
        setattr(mod, name, f)
    machine(os, 'cpu_count', lambda r: r.choice([1, 2, 7, 64]))
    machine(os, 'getpid', lambda r: r.randrange(2, 1 << 20))
    machine(os, 'getloadavg', lambda r: (r.uniform(0, 90),) * 3)
    machine(socket, 'gethostname', lambda r: r.choice(['a', 'node017', 'zeus']))
    machine(platform, 'node', lambda r: r.choice(['a', 'node017', 'zeus']))

    # questions about the disk answer as the disk will behave
    REAL['os.access'] = os.access

    def access(path, mode, *a, **k):
        w = WORLD
        ok = REAL['os.access'](path, mode, *a, **k)
        if w is None or not asked_by_dg1d() or not mode & os.W_OK:
            return ok
        bad = w.refused({errno_mod.EACCES, errno_mod.EROFS})
        if bad:
            w.count('error:access:' + errno_mod.errorcode[bad])
        return ok and not bad
    os.access = access

    def space(mod, name, full):
        real = getattr(mod, name)
        REAL['%s.%s' % (mod.__name__, name)] = real

        def f(*a, **k):
            r = real(*a, **k)
            w = WORLD
            if w is not None and asked_by_dg1d() and w.refused({errno_mod.ENOSPC, errno_mod.EDQUOT}):
                w.count('error:%s:ENOSPC' % name)
                return full(r)
            return r
        setattr(mod, name, f)
    space(shutil, 'disk_usage', lambda r: type(r)(r.total, r.total, 0))
    space(os, 'statvfs', lambda r: os.statvfs_result([0 if i in (3, 4) else x for i, x in enumerate(r)][:10]))

    # the order of the entries of a directory
    real_listdir = os.listdir
    REAL['os.listdir'] = real_listdir

    def listdir(path='.'):
        names = real_listdir(path)
        w = WORLD
        if w is not None and isinstance(path, str) and w.inside(os.path.join(path, '_')):
            names.sort()
            w.asked += len(names)
            random.Random(w.entropy + len(names)).shuffle(names)
        return names
    os.listdir = listdir
    real_scandir = os.scandir
    REAL['os.scandir'] = real_scandir

    class Entries(list):
        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def close(self):
            pass

        def __iter__(self):
            while self:
                yield self.pop(0)

        def __next__(self):
            if not self:
                raise StopIteration
            return self.pop(0)

    def scandir(path='.'):
        w = WORLD
        if w is None or not isinstance(path, str) or not w.inside(os.path.join(path, '_')):
            return real_scandir(path)
        with real_scandir(path) as it:
            out = sorted(it, key=lambda e: e.name)
        w.asked += len(out)
        random.Random(w.entropy + len(out)).shuffle(out)
        return Entries(out)
    os.scandir = scandir

    # processes
    class Popen(subprocess.Popen):
        def __new__(cls, *a, **k):
            w = WORLD
            if w is None:
                return super().__new__(cls)
            cmd = command(a[0] if a else k['args'])
            if cmd.startswith('git') or w.children is not None:
                return FakePopen(*a, **k)
            # another tool (mv, cp, ...): started for real, on our disk, unless it fails
            try:
                w.begin('mut', 'spawn', os.path.join(w.root, 'tool'))
            except OSError:
                if w.shape.random() < 0.3:
                    raise
                return FakePopen(*a, **k)
            w.count('tool')
            return super().__new__(cls)
    subprocess.Popen = Popen
    real_system = os.system
    REAL['os.system'] = real_system

    def system(cmd):
        w = WORLD
        if w is None:
            return real_system(cmd)
        try:
            fault = w.begin('mut', 'spawn', os.path.join(w.root, 'tool'))
        except OSError:
            return 256
        w.count('tool')
        r = real_system(cmd)
        w.end(fault)
        return r
    os.system = system
    shutil._USE_CP_SENDFILE = False      # (copies go through our files)

    # the quick way out: no exit handlers, nothing flushed
    REAL['os._exit'] = os._exit

    def quick_exit(status):
        w = WORLD
        if w is not None and w.on_exit is not None and asked_by_dg1d():
            w.on_exit(status)
        REAL['os._exit'](status)
    os._exit = quick_exit


def asked_by_dg1d():
    """Does the call come from dg1d (and not from a library)?"""
    f = sys._getframe(2)
    while f is not None:
        name = f.f_code.co_filename
        if name.startswith(PKG):
            return True
        if os.path.basename(name) not in ('os.py', '_collections_abc.py', '<frozen os>', '<frozen _collections_abc>'):
            return False
        f = f.f_back
    return False


def install_numpy():
    """Seams inside numpy (after it is imported)."""
    import numpy as np
    if 'np.empty' in REAL:
        return
    REAL['np.empty'] = np.empty
    REAL['np.empty_like'] = np.empty_like

    def foul(a):
        w = WORLD
        if w is not None and isinstance(a, np.ndarray) and a.size:
            v = w.dirty.choice([float('nan'), 1e300, -7.25e4, 3.0, 0.125])
            if a.dtype.kind in 'fc':
                a.fill(v)
            elif a.dtype.kind in 'iu':
                a.fill(int(w.dirty.randrange(1, 100)))
            w.count('dirty-allocation')
        return a

    def empty(*a, **k):
        return foul(REAL['np.empty'](*a, **k))

    def empty_like(*a, **k):
        return foul(REAL['np.empty_like'](*a, **k))
    np.empty = empty
    np.empty_like = empty_like


def standard_input(text):
    """What the process finds on its standard input."""
    r, w = os.pipe()
    REAL['os.write'](w, text.encode())
    os.close(w)
    os.dup2(r, 0)
    os.close(r)
    return REAL['open'](0, closefd=False)


def enter(world):
    """Make world the environment of this process."""
    global WORLD
    import numpy as np
    WORLD = world
    random.seed(world.entropy)
    np.random.seed(world.entropy & 0x7fffffff)
    return world


def leave():
    global WORLD
    WORLD = None

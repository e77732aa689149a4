"""The simulator: file system seam with faults, crashes and power loss, simulated processes, clock, scheduler.

Everything below one directory (the world) goes through the seam: builtins.open / io.open (a raw file class whose
reads, writes, seeks and closes are events), the os functions that look at or change files, fsync, getpid and the
clocks.  Files are real files, so code that hands descriptors to C keeps working.  Each operation is one numbered
event: it advances the simulated clock, may meet a fault, and is a point where another simulated process may be
scheduled.  A "process" is a fresh instance of the pyowc modules with its own random state and process number."""
import builtins
import collections
import errno
import gc
import hashlib
import importlib.abc
import importlib.machinery
import io
import os
import random
import shutil
import stat as stat_mod
import sys
import tempfile
import threading
import time
import traceback

import numpy as np

DEBUG = bool(os.environ.get('VERIF_DEBUG'))

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = os.path.join(REPO, 'pyowc')


class SimCrash(BaseException):
    """the simulated process is dead: nothing it does has an effect any more"""


class Budget(BaseException):
    """a simulated run used more events than allowed"""


# ------------------------------------------------------------------------------------------ real functions
class Real:
    open = staticmethod(io.open)
    os_open, os_read, os_write, os_close = os.open, os.read, os.write, os.close
    stat, lstat, replace, rename, unlink, remove = os.stat, os.lstat, os.replace, os.rename, os.unlink, os.remove
    fsync, fdatasync, truncate, ftruncate = os.fsync, os.fdatasync, os.truncate, os.ftruncate
    mkdir, rmdir, listdir, scandir, access = os.mkdir, os.rmdir, os.listdir, os.scandir, os.access
    link, symlink, chmod, utime = os.link, os.symlink, os.chmod, os.utime
    getpid, urandom = os.getpid, os.urandom


def real_bytes(path):
    try:
        with Real.open(path, 'rb') as f:
            return f.read()
    except FileNotFoundError:
        return None


# ------------------------------------------------------------------------------------------ pyowc instances
class _CodeCache(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Finds pyowc in the repository (and nowhere else) and keeps its compiled code, so that a fresh instance of
    the modules is cheap.  No byte code is written."""

    def __init__(self):
        self.code = {}

    def _path(self, name):
        rel = name.split('.')
        base = os.path.join(REPO, *rel)
        if os.path.isdir(base) and os.path.isfile(os.path.join(base, '__init__.py')):
            return os.path.join(base, '__init__.py'), True
        if os.path.isfile(base + '.py'):
            return base + '.py', False
        return None, False

    def find_spec(self, name, path=None, target=None):
        if name != 'pyowc' and not name.startswith('pyowc.'):
            return None
        if name in self.code:
            filename, package, _ = self.code[name]
        else:
            filename, package = self._path(name)
            if filename is None:
                return None
        spec = importlib.machinery.ModuleSpec(name, self, origin=filename, is_package=package)
        spec.has_location = True
        if package:
            spec.submodule_search_locations = [os.path.dirname(filename)]
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        name = module.__name__
        if name not in self.code:
            filename, package = self._path(name)
            with Real.open(filename, 'rb') as f:
                self.code[name] = (filename, package, compile(f.read(), filename, 'exec', dont_inherit=True))
        exec(self.code[name][2], module.__dict__)  # pylint: disable=exec-used

    def get_source(self, name):
        return None


CODE = _CodeCache()


def install_finder():
    if CODE not in sys.meta_path:
        sys.meta_path.insert(0, CODE)


def pyowc_names():
    return [n for n in sys.modules if n == 'pyowc' or n.startswith('pyowc.')]


def fresh_instance():
    """a new instance of all pyowc modules; returns {name: module}"""
    for n in pyowc_names():
        del sys.modules[n]
    import pyowc  # noqa  pylint: disable=import-outside-toplevel
    import pyowc.calibration  # noqa
    import pyowc.configuration  # noqa
    import pyowc.plot.dashboard  # noqa
    return {n: sys.modules[n] for n in pyowc_names()}


def all_code():
    """all code objects of pyowc (functions, nested functions, lambdas)"""
    out, todo = [], [c[2] for c in CODE.code.values()]
    while todo:
        c = todo.pop()
        out.append(c)
        todo.extend(k for k in c.co_consts if hasattr(k, 'co_code'))
    return out


# ------------------------------------------------------------------------------------------ processes
class Proc:
    """one simulated process"""

    def __init__(self, kernel, pid, np_seed, py_seed):
        self.kernel, self.pid = kernel, pid
        self.dead = False
        self.np_state = np.random.RandomState(np_seed).get_state()
        self.py_state = random.Random(py_seed).getstate()
        self.modules = None
        self.done = False
        self.name_seq = random.Random(py_seed ^ 0x5bd1e995)
        self.gate = threading.Semaphore(0)
        self.outcome = None

    def ensure(self):
        if self.modules is None:
            self.modules = fresh_instance()

    def enter(self):
        for n in pyowc_names():
            del sys.modules[n]
        if self.modules is not None:
            sys.modules.update(self.modules)
        np.random.set_state(self.np_state)
        random.setstate(self.py_state)

    def leave(self):
        self.np_state = np.random.get_state()
        self.py_state = random.getstate()


class _TempNames:
    """names for the tempfile module: decided by the simulator"""

    def __init__(self, kernel):
        self.kernel = kernel

    def __iter__(self):
        return self

    def __next__(self):
        p = self.kernel.current
        rng = p.name_seq if p is not None else self.kernel.rng
        return ''.join(rng.choice('abcdefghijklmnopqrstuvwxyz0123456789_') for _ in range(8))


# ------------------------------------------------------------------------------------------ files
class SimFileIO(io.FileIO):
    """raw file of the world: each system call is an event"""

    def __init__(self, kernel, path, mode, closefd=True, opener=None, fd=None):
        self._k = kernel
        self._path = path
        self._owner = kernel.current
        self._limit = None
        self._opened = False
        writing = any(c in mode for c in 'wax+')
        if fd is None:
            existed = kernel.exists(path)
            op = 'open_w' if writing else 'open_r'
            fault = kernel.event(op, path)
            kernel.raise_fault(fault, path)
            if fault and fault['kind'] == 'truncate':
                self._limit = fault['arg']
            if writing:
                kernel.before_change(path)
            super().__init__(path, mode, closefd, opener)
            self._opened = True
            if writing:
                kernel.note_change('create' if not existed else ('truncate' if 'w' in mode else 'append'), path)
        else:
            super().__init__(fd, mode, closefd)
            self._opened = True
        self._writing = writing
        kernel.fds[self.fileno()] = path
        kernel.open_files[id(self)] = path

    def _dead(self):
        return self._owner is not None and self._owner.dead

    def _clip(self, n):
        """how many bytes may be read at the current position, given a truncated file"""
        if self._limit is None:
            return n
        left = max(0, self._limit - super().tell())
        return left if n is None or n < 0 else min(n, left)

    def _read_event(self, n):
        k = self._k
        if self._dead():
            raise SimCrash()
        fault = k.event('read', self._path)
        k.raise_fault(fault, self._path)
        if fault and fault['kind'] == 'short' and n is not None and n > 1:
            n = 1 + fault['arg'] % (n - 1)
        return self._clip(n)

    def readinto(self, buf):
        view = memoryview(buf).cast('B')
        n = self._read_event(len(view))
        return super().readinto(view[:n])

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        return super().read(self._read_event(size))

    def readall(self):
        out = b''
        while True:
            part = super().read(self._read_event(1 << 20))
            if not part:
                return out
            out += part

    def write(self, data):
        k = self._k
        view = memoryview(data).cast('B')
        if self._dead():
            return len(view)
        fault = k.event('write', self._path, size=len(view))
        if fault:
            kind = fault['kind']
            if kind in ('short', 'torn') and len(view) > 1:
                n = 1 + fault['arg'] % (len(view) - 1)
                k.before_change(self._path)
                done = super().write(view[:n])
                k.note_change('write', self._path)
                if kind == 'torn':
                    k.kill(k.current, fault)
                return done
            k.raise_fault(fault, self._path)
        k.before_change(self._path)
        done = super().write(view)
        k.note_change('write', self._path)
        return done

    def seek(self, pos, whence=0):
        if not self._dead() and self._opened:
            fault = self._k.event('seek', self._path)
            self._k.raise_fault(fault, self._path)
        if whence == 2 and self._limit is not None:
            return super().seek(max(0, min(self._limit, super().seek(0, 2)) + pos))
        return super().seek(pos, whence)

    def truncate(self, size=None):
        if self._dead():
            return size
        fault = self._k.event('truncate', self._path)
        self._k.raise_fault(fault, self._path)
        self._k.before_change(self._path)
        out = super().truncate(size)
        self._k.note_change('truncate', self._path)
        return out

    def close(self):
        if self.closed:
            return
        k = self._k
        if self._opened:
            k.fds.pop(self.fileno(), None)
            k.open_files.pop(id(self), None)
        super().close()
        if self._opened and not self._dead() and self._writing:
            fault = k.event('close_w', self._path)
            k.raise_fault(fault, self._path)

    def __del__(self):
        try:
            k = self._k
            if not self.closed and self._opened:
                k.fds.pop(self.fileno(), None)
                k.open_files.pop(id(self), None)
                io.FileIO.close(self)
        except Exception:  # pylint: disable=broad-except
            pass


ERRNO = {'EIO': errno.EIO, 'ENOSPC': errno.ENOSPC, 'EACCES': errno.EACCES, 'EMFILE': errno.EMFILE,
         'ESTALE': errno.ESTALE, 'EROFS': errno.EROFS, 'EDQUOT': errno.EDQUOT, 'ETIMEDOUT': errno.ETIMEDOUT}

TOPS = {'climatology': 'clim', 'constants': 'const', 'float_source': 'source', 'float_mapped': 'mapped',
        'float_calib': 'calib', 'float_plots': 'plots'}


class Kernel:
    """one simulated world and what happens in it"""

    def __init__(self, root, seed, max_events=400000):
        self.root = os.path.abspath(root)
        self.seed = seed
        self.rng = random.Random(seed)
        self.clock_rng = random.Random(seed ^ 0x9e3779b9)
        self.now = 1.7e9 + self.clock_rng.random() * 1e6
        self.sim_start = self.now
        self.advanced = 0.0
        self.n = 0
        self.max_events = max_events
        self.hash = hashlib.sha256()
        self.tail = collections.deque(maxlen=60)
        self.stats = collections.Counter()
        self.fired = []
        self.faults = []
        self.armed = False
        self.current = None
        self.procs = []
        self.fds = {}
        self.open_files = {}
        self.changed = []            # (event, kind, relative path, process number)
        self.watch = {}              # absolute path -> list of contents seen (bytes or None)
        self.journal = []            # metadata operations not known durable (for power loss)
        self.synced = {}             # path -> durable content (bytes) or None if created and never synced
        self.counting = None         # Counter of (op, class) while tracing
        self.trace = None
        self.sched = None
        self.installed = False
        self.orig = {}
        self.running = False
        self.jumps = None               # what is added to the wall clock whenever it is read
        self.line_target = None
        self.line_count = 0
        self.line_seen = set()
        self.line_new = False
        self.line_exc = None
        self.line_fired = False

    # -------------------------------------------------------------------- names
    def mine(self, path):
        if isinstance(path, int):
            return self.fds.get(path)
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.abspath(p)
        if p == self.root or p.startswith(self.root + '/'):
            return p
        return None

    def rel(self, path):
        return path[len(self.root) + 1:]

    def cls(self, path):
        rel = self.rel(path)
        if rel.endswith('constants/tbase.int'):
            return 'topo'
        parts = rel.split('/')
        if parts[0] == 'side' and len(parts) > 2:
            parts = parts[2:]
        return TOPS.get(parts[0], 'other')

    def exists(self, path):
        try:
            Real.lstat(path)
            return True
        except OSError:
            return False

    # -------------------------------------------------------------------- events
    def event(self, op, path, size=None):
        """one file operation is about to happen; returns the fault it meets, if any"""
        p = self.current
        if p is not None and p.dead:
            raise SimCrash()
        if p is None:
            return None
        if self.sched is not None:
            self.sched.point(self)
            p = self.current
            if p.dead:
                raise SimCrash()
        self.n += 1
        if self.n > self.max_events:
            raise Budget('more than %d events' % self.max_events)
        dt = self.clock_rng.choice((1e-5, 1e-4, 1e-3, 0.02))
        self.now += dt
        self.advanced += dt
        cls = self.cls(path)
        rel = self.rel(path)
        line = '%d %d %s %s %s' % (self.n, p.pid, op, rel, '' if size is None else size)
        self.hash.update(line.encode())
        self.tail.append(line)
        self.stats['op:' + op] += 1
        if self.counting is not None:
            self.counting[(op, cls)] += 1
        if self.trace is not None:
            self.trace.append((op, cls, rel))
        if not self.armed:
            return None
        for f in self.faults:
            if f.get('spent') or (f.get('proc') is not None and f['proc'] != p.pid):
                continue
            if f['ops'] and op not in f['ops']:
                continue
            if f['cls'] and cls not in f['cls']:
                continue
            f['seen'] = f.get('seen', 0) + 1
            if f['seen'] <= f['nth']:
                continue
            if f['seen'] > f['nth'] + f.get('count', 1):
                f['spent'] = True
                continue
            return self.fire(f, op, cls, rel)
        return None

    def fire(self, f, op, cls, rel):
        kind = f['kind']
        self.stats['fault:%s' % kind] += 1
        self.fired.append({'kind': kind, 'op': op, 'cls': cls, 'path': rel, 'event': self.n})
        self.hash.update(('fault %s' % kind).encode())
        self.tail.append('   fault %s' % kind)
        if kind == 'stall':
            self.now += 30 + f['arg'] % 3600
            self.advanced += 30 + f['arg'] % 3600
            return None
        if kind == 'clock_back':
            self.now -= f['arg'] % 100000
            return None
        if kind in ('kill', 'power'):
            self.kill(self.current, f)
        return f

    def raise_fault(self, fault, path):
        if not fault:
            return
        kind = fault['kind']
        if kind in ERRNO:
            raise OSError(ERRNO[kind], os.strerror(ERRNO[kind]), path)
        if kind == 'memory':
            raise MemoryError('simulated')
        if kind == 'interrupt':
            raise KeyboardInterrupt()

    def arm(self, faults):
        """faults for the next stretch of execution"""
        self.faults = [dict(f, seen=0, spent=False) for f in faults]
        self.armed = True

    def disarm(self):
        self.armed = False
        self.faults = []

    # -------------------------------------------------------------------- durability
    def before_change(self, path):
        """called before the content of a file is changed"""
        if path not in self.synced:
            self.synced[path] = real_bytes(path)

    def note_change(self, kind, path, extra=None):
        p = self.current
        self.changed.append((self.n, kind, self.rel(path), p.pid if p else 0))
        if kind in ('create', 'write', 'truncate', 'append'):
            self.stamp(path)
        if kind == 'create':
            self.journal.append(('create', path, None, None))
        self.look()

    def stamp(self, path, when=None):
        """the times of a file are those of the simulated clock"""
        try:
            Real.utime(path, (self.now if when is None else when,) * 2)
        except OSError:
            pass

    def look(self):
        """record what a reader would see of the watched files, after a change"""
        for path, seen in self.watch.items():
            now = real_bytes(path)
            if not seen or seen[-1] != now:
                seen.append(now)

    def do_rename(self, src, dst, func):
        before_dst, before_src = real_bytes(dst), real_bytes(src)
        func(src, dst)
        self.journal.append(('rename', src, dst, before_dst))
        self.synced_move(src, dst, before_src, before_dst)
        self.note_change('rename', dst)
        self.changed.append((self.n, 'rename-from', self.rel(src), self.current.pid if self.current else 0))

    def synced_move(self, src, dst, before_src, before_dst):
        if src in self.synced:
            self.synced[dst] = self.synced.pop(src)
            if self.synced[dst] is None:
                self.synced[dst] = b''
        else:
            self.synced.pop(dst, None)

    def do_unlink(self, path, func):
        before = real_bytes(path)
        func(path)
        self.journal.append(('unlink', path, None, before))
        self.note_change('unlink', path)

    def do_sync(self, path):
        if os.path.isdir(path):
            self.journal = [j for j in self.journal if os.path.dirname(j[2] or j[1]) != path]
            return
        self.synced[path] = real_bytes(path)

    def settle(self):
        """time passes: the operating system writes back what is not on disk yet"""
        self.now += 120
        self.advanced += 120
        self.journal, self.synced = [], {}

    def kill(self, proc, fault):
        """the process (or the machine) stops here"""
        if fault['kind'] == 'power':
            for q in self.procs:
                q.dead = True
            self.power_loss(random.Random(fault['arg']))
        if proc is not None:
            proc.dead = True
        raise SimCrash()

    def power_loss(self, rng):
        """what is not durable may be lost: a suffix of the directory changes, and unsynced data"""
        keep = rng.randint(0, len(self.journal))
        if rng.random() < 0.4:
            keep = len(self.journal)
        data = {p: s for p, s in self.synced.items()}
        for kind, a, b, before in reversed(self.journal[keep:]):
            if kind == 'create':
                if self.exists(a):
                    Real.unlink(a)
                data.pop(a, None)
            elif kind == 'unlink':
                if before is not None:
                    self._put(a, before)
            elif kind == 'rename':
                now = real_bytes(b)
                if now is not None:
                    self._put(a, now)
                    if b in data:
                        data[a] = data.pop(b)
                if before is None:
                    if self.exists(b):
                        Real.unlink(b)
                else:
                    self._put(b, before)
        for path, durable in data.items():
            now = real_bytes(path)
            if now is None or now == durable:
                continue
            durable = durable or b''
            choice = rng.randrange(4)
            if choice == 0:
                new = durable
            elif choice == 1:
                new = now[:rng.randint(0, len(now))]
            elif choice == 2:
                cut = rng.randint(0, len(now))
                new = now[:cut] + b'\0' * (len(now) - cut)
            else:
                new = now
            self._put(path, new)
            self.stats['power:data-lost'] += new != now
        self.journal, self.synced = [], {}
        self.look()

    def _put(self, path, data):
        if self.exists(path):
            Real.unlink(path)
        with Real.open(path, 'wb') as f:
            f.write(data)

    # -------------------------------------------------------------------- the seam
    def sim_open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True,
                 opener=None):
        path = self.mine(file)
        if path is None or self.current is None:
            return Real.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if self.current.dead:
            raise SimCrash()
        binary = 'b' in mode
        rawmode = ''.join(c for c in mode if c in 'rwax+')
        raw = SimFileIO(self, path, rawmode, closefd, opener, fd=file if isinstance(file, int) else None)
        try:
            if buffering == 0:
                if not binary:
                    raise ValueError("can't have unbuffered text I/O")
                return raw
            size = buffering if buffering > 1 else 8192
            if '+' in rawmode:
                buf = io.BufferedRandom(raw, size)
            elif rawmode == 'r':
                buf = io.BufferedReader(raw, size)
            else:
                buf = io.BufferedWriter(raw, size)
            if binary:
                return buf
            text = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
            text.mode = mode
            return text
        except BaseException:
            raw.close()
            raise

    def _wrap1(self, name, op, change=None):
        real = getattr(Real, name)

        def wrapper(path, *args, **kw):
            mine = None if kw.get('dir_fd') is not None else self.mine(path)
            if mine is None or self.current is None:
                return real(path, *args, **kw)
            self.raise_fault(self.event(op, mine), mine)
            if change == 'unlink':
                return self.do_unlink(mine, real)
            if change:
                self.before_change(mine) if change == 'truncate' else None
                out = real(path, *args, **kw)
                self.note_change(change, mine)
                return out
            return real(path, *args, **kw)
        return wrapper

    def _wrap2(self, name):
        real = getattr(Real, name)

        def wrapper(src, dst, **kw):
            a, b = self.mine(src), self.mine(dst)
            if (a is None and b is None) or self.current is None:
                return real(src, dst, **kw)
            self.raise_fault(self.event('rename', b or a), b or a)
            if a is None or b is None:
                out = real(src, dst)
                self.note_change('rename', b or a)
                return out
            return self.do_rename(a, b, real)
        return wrapper

    def _os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        mine = None if dir_fd is not None else self.mine(path)
        if mine is None or self.current is None:
            return Real.os_open(path, flags, mode, dir_fd=dir_fd)
        writing = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))
        existed = self.exists(mine)
        self.raise_fault(self.event('open_w' if writing else 'open_r', mine), mine)
        if writing:
            self.before_change(mine)
        fd = Real.os_open(path, flags, mode)
        self.fds[fd] = mine
        if writing:
            self.note_change('create' if not existed else ('truncate' if flags & os.O_TRUNC else 'append'), mine)
        return fd

    def _os_write(self, fd, data):
        path = self.fds.get(fd)
        if path is None or self.current is None:
            return Real.os_write(fd, data)
        fault = self.event('write', path, len(data))
        if fault and fault['kind'] in ('short', 'torn') and len(data) > 1:
            self.before_change(path)
            n = Real.os_write(fd, bytes(data)[:1 + fault['arg'] % (len(data) - 1)])
            self.note_change('write', path)
            if fault['kind'] == 'torn':
                self.kill(self.current, fault)
            return n
        self.raise_fault(fault, path)
        self.before_change(path)
        n = Real.os_write(fd, data)
        self.note_change('write', path)
        return n

    def _os_read(self, fd, n):
        path = self.fds.get(fd)
        if path is None or self.current is None:
            return Real.os_read(fd, n)
        fault = self.event('read', path)
        self.raise_fault(fault, path)
        if fault and fault['kind'] == 'short' and n > 1:
            n = 1 + fault['arg'] % (n - 1)
        return Real.os_read(fd, n)

    def _os_close(self, fd):
        self.fds.pop(fd, None)
        return Real.os_close(fd)

    def _fsync(self, name):
        real = getattr(Real, name)

        def wrapper(fd):
            num = fd if isinstance(fd, int) else fd.fileno()
            path = self.fds.get(num)
            if path is None or self.current is None:
                return real(fd)
            self.raise_fault(self.event('fsync', path), path)
            self.do_sync(path)
            return None
        return wrapper

    def install(self):
        """put the seam in place (for the life of this operating system process)"""
        self.installed = True
        builtins.open = self.sim_open
        io.open = self.sim_open
        os.open, os.read, os.write, os.close = self._os_open, self._os_read, self._os_write, self._os_close
        os.stat = self._wrap1('stat', 'stat')
        os.lstat = self._wrap1('lstat', 'stat')
        os.access = self._wrap1('access', 'stat')
        os.listdir = self._wrap1('listdir', 'list')
        os.scandir = self._wrap1('scandir', 'list')
        os.unlink = self._wrap1('unlink', 'unlink', 'unlink')
        os.remove = self._wrap1('remove', 'unlink', 'unlink')
        os.mkdir = self._wrap1('mkdir', 'mkdir', 'mkdir')
        os.rmdir = self._wrap1('rmdir', 'rmdir', 'rmdir')
        os.truncate = self._wrap1('truncate', 'truncate', 'truncate')
        os.chmod = self._wrap1('chmod', 'chmod', 'chmod')
        os.utime = self._wrap1('utime', 'utime', 'utime')
        os.replace, os.rename = self._wrap2('replace'), self._wrap2('rename')
        os.link, os.symlink = self._wrap2('link'), self._wrap2('symlink')
        os.fsync, os.fdatasync = self._fsync('fsync'), self._fsync('fdatasync')
        os.getpid = lambda: self.current.pid if self.current is not None else Real.getpid()
        time.time = lambda: self.tick()
        time.monotonic = time.perf_counter = time.process_time = lambda: self.tick(False)
        time.time_ns = lambda: int(self.tick() * 1e9)
        time.monotonic_ns = time.perf_counter_ns = lambda: int(self.tick(False) * 1e9)
        time.sleep = self.sim_sleep
        shutil._USE_CP_SENDFILE = False  # pylint: disable=protected-access
        shutil._fastcopy_sendfile = None  # pylint: disable=protected-access
        tempfile._name_sequence = _TempNames(self)  # pylint: disable=protected-access
        tempfile._get_candidate_names = lambda: tempfile._name_sequence  # pylint: disable=protected-access

    def tick(self, wall=True):
        """the simulated clocks (the wall clock may be set back, the other one never is)"""
        self.advanced += 1e-4
        self.now += 1e-4
        if wall and self.jumps is not None:
            self.now += self.jumps()
        return self.now if wall else self.advanced

    def sim_sleep(self, secs):
        if secs != secs:
            raise ValueError('Invalid value NaN (not a number)')
        if secs < 0:
            raise ValueError('sleep length must be non-negative')
        if secs > 9.2e9:
            raise OverflowError('timestamp out of range for platform time_t')
        self.now += secs
        self.advanced += secs
        if self.sched is not None and self.current is not None:
            self.sched.point(self)

    # -------------------------------------------------------------------- processes
    def spawn(self, np_seed=None):
        pid = 4000 + 7 * len(self.procs)
        p = Proc(self, pid, self.rng.randrange(1 << 31) if np_seed is None else np_seed, self.rng.randrange(1 << 31))
        self.procs.append(p)
        return p

    def run(self, proc, func):
        """run func() in a simulated process; returns (status, value or exception)"""
        prev = self.current
        if prev is not None:
            prev.leave()
        proc.enter()
        self.current = proc
        try:
            proc.ensure()
            self.running = True
            try:
                return 'ok', func()
            except SimCrash:
                return 'crash', None
            except Budget:
                raise
            except BaseException as e:  # pylint: disable=broad-except
                if DEBUG:
                    traceback.print_exception(e)
                e.__traceback__ = None
                e.__context__ = None
                return 'error', e
        finally:
            self.running = False
            proc.leave()
            self.current = prev
            if prev is not None:
                prev.enter()
            gc.collect(0)

    # -------------------------------------------------------------------- interrupts at lines of pyowc
    TOOL = 4

    def lines_on(self, target=None, exc=KeyboardInterrupt, new=False):
        """count the lines of pyowc that are executed; at line number `target` raise exc

        With `new`, only those lines count which have not been executed before in this run."""
        mon = sys.monitoring
        self.line_seen = set()
        self.line_new = new
        self.line_count, self.line_target, self.line_exc, self.line_fired = 0, target, exc, False
        if mon.get_tool(self.TOOL) is None:
            mon.use_tool_id(self.TOOL, 'verif')
        mon.register_callback(self.TOOL, mon.events.LINE, self._line)
        for c in all_code():
            mon.set_local_events(self.TOOL, c, mon.events.LINE)

    def _line(self, code, line):
        if not self.running:
            return
        if (id(code), line) in self.line_seen:
            if self.line_new:
                return
        else:
            self.line_seen.add((id(code), line))
        self.line_count += 1
        if self.line_target is not None and self.line_count == self.line_target and not self.line_fired:
            self.line_fired = True
            kind = 'line:%s' % self.line_exc.__name__
            self.stats['fault:%s' % kind] += 1
            self.fired.append({'kind': kind, 'op': 'line', 'cls': os.path.basename(code.co_filename),
                               'path': '%s:%d' % (code.co_name, line), 'event': self.n})
            self.hash.update(kind.encode())
            self.tail.append('   %s in %s line %d' % (kind, code.co_name, line))
            if self.line_exc is SimCrash:
                self.current.dead = True
            raise self.line_exc()

    def lines_off(self):
        mon = sys.monitoring
        for c in all_code():
            mon.set_local_events(self.TOOL, c, 0)
        return self.line_count

    def digest(self):
        return self.hash.hexdigest()[:16]


# ------------------------------------------------------------------------------------------ scheduler
class Scheduler:
    """Runs several simulated processes, each in a thread of its own, one at a time.

    At every file operation the running process may be preempted.  Decisions come from a seeded generator, or from
    an explicit list of preemptions {point number: process index} (minimised replays)."""

    def __init__(self, kernel, seed, rate, preempt=None):
        self.kernel, self.rng, self.rate = kernel, random.Random(seed), rate
        self.preempt = preempt
        self.points = 0
        self.taken = []
        self.tasks = []
        self.error = None
        self.main = threading.Semaphore(0)

    def point(self, kernel):
        self.points += 1
        alive = [i for i, t in enumerate(self.tasks) if not t['done']]
        cur = self.cur
        nxt = cur
        if self.preempt is not None:
            nxt = self.preempt.get(self.points, cur)
            if nxt not in alive:
                nxt = cur
        elif len(alive) > 1 and self.rng.random() < self.rate:
            nxt = self.rng.choice([i for i in alive if i != cur])
        if nxt != cur:
            self.taken.append((self.points, nxt))
            self.switch(cur, nxt)

    def switch(self, cur, nxt):
        k = self.kernel
        if not self.tasks[cur]['done']:
            k.current.leave()
        self.cur = nxt
        k.stats['switches'] += 1
        k.hash.update(('switch %d' % nxt).encode())
        k.tail.append('   switch to worker %d' % nxt)
        t = self.tasks[nxt]
        t['proc'].enter()
        k.current = t['proc']
        t['gate'].release()
        if not self.tasks[cur]['done']:
            self.tasks[cur]['gate'].acquire()

    def run(self, jobs):
        """jobs: list of (proc, func).  Returns the list of (status, value)."""
        k = self.kernel
        self.tasks = [{'proc': p, 'func': f, 'done': False, 'gate': threading.Semaphore(0), 'out': None}
                      for p, f in jobs]
        for p, _ in jobs:
            k.run(p, lambda: None)          # modules are loaded before the race starts
        threads = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(len(jobs))]
        k.sched = self
        for th in threads:
            th.start()
        self.cur = 0
        self.tasks[0]['proc'].enter()
        k.current = self.tasks[0]['proc']
        self.tasks[0]['gate'].release()
        self.main.acquire()
        k.sched = None
        k.current = None
        for th in threads:
            th.join()
        if self.error is not None:
            raise self.error
        return [t['out'] for t in self.tasks]

    def _body(self, i):
        t = self.tasks[i]
        t['gate'].acquire()
        try:
            t['out'] = ('ok', t['func']())
        except SimCrash:
            t['out'] = ('crash', None)
        except Budget as e:
            self.error = e
            t['out'] = ('budget', None)
        except BaseException as e:  # pylint: disable=broad-except
            e.__traceback__ = None
            e.__context__ = None
            t['out'] = ('error', e)
        t['done'] = True
        t['proc'].leave()
        alive = [j for j, u in enumerate(self.tasks) if not u['done']]
        if alive:
            nxt = alive[0] if self.preempt is not None else self.rng.choice(alive)
            self.points += 1
            if self.preempt is not None:
                want = self.preempt.get(self.points)
                nxt = want if want in alive else nxt
            self.taken.append((self.points, nxt))
            self.switch(i, nxt)
        else:
            self.main.release()

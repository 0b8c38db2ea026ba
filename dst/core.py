"""The simulated world: file system, clock, random source, stdout, processes.

install() replaces the operating-system entry points Python code can reach
(open, os.*, time.*, random.*, subprocess.*) by dispatchers.  With no Sim
active every dispatcher calls the real function; with one active, every
path below VROOT (and every relative path) lives in an in-memory file
system, and every other *mutating* call is refused and recorded as an escape.

install() must run before pythonbmp is imported, so that names it binds with
"from os import mkdir" are the dispatchers.
"""
import builtins
import errno as E
import io
import os
import posixpath
import random as _random_mod
import stat as S
import subprocess as _sp
import sys
import threading
import time as _time_mod
import zlib
from collections import Counter

VROOT = '/simfs'
REAL = {}                 # real functions, for the harness's own use
SIM = None                # active Sim, or None
FD_BASE = 1 << 20


class SimCrash(BaseException):
    """The simulated process died here; only what reached the disk survives."""


class SimInterrupt(KeyboardInterrupt):
    """A Ctrl-C delivered at a chosen point."""


class StepBudget(BaseException):
    """The operation ran past its step budget (no progress)."""


ERR = {n: getattr(E, n) for n in ('EIO', 'ENOSPC', 'EACCES', 'EDQUOT', 'EMFILE',
                                  'EROFS', 'ENOENT', 'EISDIR', 'EPIPE', 'EEXIST',
                                  'EFBIG', 'EPERM', 'ENOTDIR')}


def oserr(name, path=None):
    n = ERR[name]
    if path is None:
        return OSError(n, os.strerror(n))
    return OSError(n, os.strerror(n), path)


class Inode:
    __slots__ = ('data', 'mode', 'mtime', 'ino', 'nlink', 'times')
    _next = 100

    def __init__(self, data=b'', mode=0o644, mtime=0):
        self.data = bytearray(data)
        self.mode = mode
        self.mtime = mtime
        Inode._next += 1
        self.ino = Inode._next
        self.nlink = 1
        self.times = None          # (access, change) times of their own

    def stat(self):
        a, c = self.times or (self.mtime, self.mtime)
        t = (a, self.mtime, c)
        return os.stat_result((S.S_IFREG | self.mode, self.ino, 7, self.nlink, 0, 0, len(self.data),
                               *[k // 10 ** 9 for k in t], *[k / 1e9 for k in t], *t))


class SimRaw(io.RawIOBase):
    """Raw file over an Inode; io.Buffered* of the real library sits on top."""

    def __init__(self, sim, path, inode, readable, writable, append, fd):
        super().__init__()
        self._sim, self._path, self._ino = sim, path, inode
        self._r, self._w, self._a = readable, writable, append
        self._pos = 0
        self._fd = fd
        self._sticky = None
        self.bare = False             # opened with os.open
        self.name = path
        self.mode = 'rb+' if readable and writable else ('wb' if writable else 'rb')
        sim.fs.open_handles[fd] = self

    def _chk(self):
        if self.closed:
            raise ValueError('I/O operation on closed file.')

    def readable(self):
        self._chk()
        return self._r

    def writable(self):
        self._chk()
        return self._w

    def seekable(self):
        self._chk()
        return True

    def fileno(self):
        self._chk()
        return self._fd

    def isatty(self):
        return False

    def tell(self):
        self._chk()
        return self._pos

    def seek(self, off, whence=0):
        self._chk()
        self._sim.event('seek', self._path)
        if whence == 0:
            p = off
        elif whence == 1:
            p = self._pos + off
        else:
            p = len(self._ino.data) + off
        if p < 0:
            raise OSError(E.EINVAL, 'Invalid argument')
        self._pos = p
        return p

    def readinto(self, b):
        self._chk()
        if not self._r:
            raise io.UnsupportedOperation('not readable')
        sim = self._sim
        n = len(b)
        f = sim.event('read', self._path)
        avail = max(0, min(n, len(self._ino.data) - self._pos))
        if f:
            do = f['do']
            if do == 'short':
                if avail > 1:
                    avail = max(1, min(avail - 1, int(avail * f.get('frac', .5))))
                    sim.fire(f)
            elif do == 'truncate':
                cut = int(len(self._ino.data) * f.get('frac', .5))
                del self._ino.data[cut:]
                sim.fire(f)
                sim.tampered.add(self._path)
                avail = max(0, min(n, len(self._ino.data) - self._pos))
            elif do == 'crash':
                sim.fire(f)
                sim.crash()
            else:
                sim.fire(f)
                raise oserr(do, self._path)
        elif sim.fs.max_io and avail > sim.fs.max_io:
            avail = sim.fs.max_io
            sim.probe('knob-short-read')
        b[:avail] = self._ino.data[self._pos:self._pos + avail]
        self._pos += avail
        return avail

    def write(self, b):
        self._chk()
        if not self._w:
            raise io.UnsupportedOperation('not writable')
        sim = self._sim
        b = bytes(b)
        n = len(b)
        if self._sticky:
            sim.event('write', self._path, nofault=True)
            raise oserr(self._sticky, self._path)
        f = sim.event('write', self._path)
        k = n
        after = None
        if f:
            do = f['do']
            part = min(n, max(0, int(n * f.get('frac', .5))))
            if do == 'short':
                if n > 1:
                    k = max(1, min(n - 1, part))
                    sim.fire(f)
            elif do == 'crash':
                sim.fire(f)
                k = part
                after = 'crash'
            else:
                sim.fire(f)
                self._sticky = do
                k = part
                if k == 0:
                    raise oserr(do, self._path)
        elif sim.fs.max_io and n > sim.fs.max_io:
            k = sim.fs.max_io
            sim.probe('knob-short-write')
        d = self._ino.data
        if self._a:
            self._pos = len(d)
        if self._pos > len(d):
            d.extend(b'\0' * (self._pos - len(d)))
        d[self._pos:self._pos + k] = b[:k]
        self._pos += k
        self._ino.mtime = sim.clock
        if k:
            sim.fs.mutated(self._path, 'write', k)
        if after:
            sim.crash()
        return k

    def truncate(self, size=None):
        self._chk()
        if not self._w:
            raise io.UnsupportedOperation('truncate')
        self._sim.event('truncate', self._path)
        if size is None:
            size = self._pos
        d = self._ino.data
        if size < len(d):
            del d[size:]
        else:
            d.extend(b'\0' * (size - len(d)))
        self._sim.fs.mutated(self._path, 'truncate', size)
        return size

    def close(self):
        if self.closed:
            return
        sim = self._sim
        sim.fs.open_handles.pop(self._fd, None)
        super().close()
        if sim.crashed:
            return
        f = sim.event('close', self._path)
        if f and self._w:
            do = f['do']
            sim.fire(f)
            if do == 'crash':
                sim.crash()
            # delayed write-back fails at close: the tail never reached the disk
            if f.get('frac') is not None and self._ino.data:
                cut = int(len(self._ino.data) * f['frac'])
                del self._ino.data[cut:]
            raise oserr(do, self._path)

    def __del__(self):
        # a forgotten handle: drop silently, accounting already saw it
        try:
            self._sim.fs.open_handles.pop(self._fd, None)
        except Exception:
            pass


class SimDirEntry:
    def __init__(self, fs, d, name, path):
        self.name, self._fs, self._full = name, fs, path
        self.path = d.rstrip('/') + '/' + name if d != '.' else './' + name

    def __fspath__(self):
        return self.path

    def is_dir(self, *, follow_symlinks=True):
        return self._full in self._fs.dirs

    def is_file(self, *, follow_symlinks=True):
        return self._full in self._fs.files

    def is_symlink(self):
        return False

    def is_junction(self):
        return False

    def inode(self):
        return self._fs.stat_of(self._full).st_ino

    def stat(self, *, follow_symlinks=True):
        return self._fs.do_stat(self._full)

    def __repr__(self):
        return f'<SimDirEntry {self.name!r}>'


class _Scan:
    def __init__(self, it):
        self._it = iter(it)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        self._it = iter(())


class SimFS:
    def __init__(self, sim, bufsize=8192, max_io=0):
        self.sim = sim
        self.files = {}
        self.dirs = {VROOT, VROOT + '/work'}
        self.cwd = VROOT + '/work'
        self.bufsize = bufsize
        self.max_io = max_io          # swarm knob: longest single raw read/write
        self.open_handles = {}
        self.next_fd = FD_BASE
        self.mutations = []           # (event, what, path)
        self.noperm = set()           # paths that refuse writing
        self.dirorder = None          # optional permutation seed of directory listings
        self.roots = (VROOT,)         # absolute paths that belong to the simulated disk
        self.dirmtime = 0
        self.noread = set()           # directories that cannot be listed

    # -- harness side -----------------------------------------------------
    def put(self, path, data, mtime=None):
        path = self.norm(path)
        self.files[path] = Inode(data, mtime=self.sim.clock if mtime is None else mtime)

    def get(self, path):
        f = self.files.get(self.norm(path))
        return None if f is None else bytes(f.data)

    def snapshot(self):
        return {p: bytes(i.data) for p, i in self.files.items()}

    def mutated(self, path, what, arg=None):
        self.mutations.append((self.sim.ev, what, path))
        self.sim.log.append(('mut', what, path, arg))
        if self.sim.on_mutation:
            self.sim.on_mutation(path, what)

    # -- path handling ----------------------------------------------------
    def norm(self, p):
        p = os.fspath(p)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not p.startswith('/'):
            p = self.cwd + '/' + p
        p = posixpath.normpath(p)
        return p if not p.startswith('//') else p[1:]

    def mine(self, p):
        """Is this path inside the simulated disk?"""
        if isinstance(p, int):
            return p >= FD_BASE
        try:
            n = self.norm(p)
        except (TypeError, ValueError):
            return False
        return any(n == r or n.startswith(r + '/') for r in self.roots)

    def parent_ok(self, p):
        d = posixpath.dirname(p)
        if d in self.dirs:
            return
        if d in self.files:
            raise oserr('ENOTDIR', p)
        raise FileNotFoundError(E.ENOENT, os.strerror(E.ENOENT), p)

    # -- system calls -----------------------------------------------------
    def stat_of(self, n):
        if n in self.files:
            return self.files[n].stat()
        if n in self.dirs:
            return os.stat_result((S.S_IFDIR | 0o755, zlib.crc32(n.encode()) & 0xffff, 7, 2, 0, 0, 4096,
                                   *[self.dirmtime // 10 ** 9] * 3, *[self.dirmtime / 1e9] * 3, *[self.dirmtime] * 3))
        raise FileNotFoundError(E.ENOENT, os.strerror(E.ENOENT), n)

    def do_stat(self, p):
        n = self.norm(p)
        f = self.sim.event('stat', n)
        if f:
            if f['do'] == 'crash':
                self.sim.fire(f)
                self.sim.crash()
            self.sim.fire(f)
            raise oserr(f['do'], n)
        r = self.stat_of(n)
        g = self.sim.late('stat', n)
        if g and g['do'] == 'vanish' and n in self.files:
            self.sim.fire(g)
            del self.files[n]
            self.sim.tampered.add(n)
        return r

    def open_raw(self, p, read, write, create, excl, trunc, append):
        sim = self.sim
        n = self.norm(p)
        kind = 'openw' if (write or create) else 'openr'
        f = sim.event(kind, n)
        if f:
            sim.fire(f)
            if f['do'] == 'crash':
                sim.crash()
            if f['do'] == 'ENOENT' and n in self.files:
                del self.files[n]
                sim.tampered.add(n)
            raise oserr(f['do'], n)
        if sim.crashed:
            raise SimCrash
        if n in self.dirs:
            raise oserr('EISDIR', n)
        self.parent_ok(n)
        ino = self.files.get(n)
        if ino is None:
            if not create:
                raise FileNotFoundError(E.ENOENT, os.strerror(E.ENOENT), n)
            if n in self.noperm:
                raise oserr('EACCES', n)
            ino = Inode(mtime=sim.clock)
            self.files[n] = ino
            self.mutated(n, 'create')
        else:
            if create and excl:
                raise FileExistsError(E.EEXIST, os.strerror(E.EEXIST), n)
            if (write or trunc) and n in self.noperm:
                raise oserr('EACCES', n)
            if trunc and ino.data:
                ino.data.clear()
                ino.mtime = sim.clock
                self.mutated(n, 'truncate', 0)
        fd = self.next_fd
        self.next_fd += 1
        raw = SimRaw(sim, n, ino, read, write, append, fd)
        if append:
            raw._pos = len(ino.data)
        g = sim.late(kind, n)
        if g and g['do'] == 'crash-after':
            sim.fire(g)
            sim.crash()
        return raw

    def rename(self, a, b, noreplace=False):
        a, b = self.norm(a), self.norm(b)
        f = self.sim.event('rename', b)
        if f:
            self.sim.fire(f)
            if f['do'] == 'crash':
                self.sim.crash()
            raise oserr(f['do'], b)
        self.parent_ok(b)
        if a in self.files:
            if b in self.dirs:
                raise oserr('EISDIR', b)
            self.files[b] = self.files.pop(a)
            self.mutated(a, 'rename-from')
            self.mutated(b, 'rename-to')
        elif a in self.dirs:
            if b in self.dirs or b in self.files:
                raise oserr('EEXIST', b)
            for d in [x for x in self.dirs if x == a or x.startswith(a + '/')]:
                self.dirs.discard(d)
                self.dirs.add(b + d[len(a):])
            for x in [x for x in self.files if x.startswith(a + '/')]:
                self.files[b + x[len(a):]] = self.files.pop(x)
            self.mutated(b, 'rename-to')
        else:
            raise FileNotFoundError(E.ENOENT, os.strerror(E.ENOENT), a)

    def unlink(self, p):
        n = self.norm(p)
        f = self.sim.event('unlink', n)
        if f:
            self.sim.fire(f)
            if f['do'] == 'crash':
                self.sim.crash()
            raise oserr(f['do'], n)
        if n in self.dirs:
            raise oserr('EISDIR', n)
        if n not in self.files:
            raise FileNotFoundError(E.ENOENT, os.strerror(E.ENOENT), n)
        del self.files[n]
        self.mutated(n, 'unlink')

    def mkdir(self, p):
        n = self.norm(p)
        f = self.sim.event('mkdir', n)
        if f:
            self.sim.fire(f)
            if f['do'] == 'crash':
                self.sim.crash()
            if f['do'] == 'EEXIST':
                self.dirs.add(n)
                self.sim.tampered.add(n)
            raise oserr(f['do'], n)
        if n in self.dirs or n in self.files:
            raise FileExistsError(E.EEXIST, os.strerror(E.EEXIST), n)
        self.parent_ok(n)
        self.dirs.add(n)
        self.mutated(n, 'mkdir')

    def rmdir(self, p):
        n = self.norm(p)
        self.sim.event('rmdir', n)
        if n not in self.dirs:
            raise FileNotFoundError(E.ENOENT, os.strerror(E.ENOENT), n)
        if any(x.startswith(n + '/') for x in list(self.files) + list(self.dirs)):
            raise OSError(E.ENOTEMPTY, os.strerror(E.ENOTEMPTY), n)
        self.dirs.discard(n)
        self.mutated(n, 'rmdir')

    def names(self, n):
        if n in self.noread:
            raise oserr('EACCES', n)
        if n not in self.dirs:
            raise FileNotFoundError(E.ENOENT, os.strerror(E.ENOENT), n)
        out = set()
        for x in list(self.files) + list(self.dirs):
            if x.startswith(n + '/'):
                out.add(x[len(n) + 1:].split('/')[0])
        out = sorted(out)
        if self.dirorder is not None:
            _random_mod.Random(f'{self.dirorder}:{n}').shuffle(out)
        return out

    def listdir(self, p='.'):
        n = self.norm(p)
        self.sim.event('listdir', n)
        return self.names(n)

    def scandir(self, p='.'):
        n = self.norm(p)
        self.sim.event('listdir', n)
        return _Scan([SimDirEntry(self, os.fspath(p), x, n + '/' + x) for x in self.names(n)])


class SimStdout(io.TextIOBase):
    encoding = 'utf-8'
    errors = 'strict'

    def __init__(self, sim):
        self._sim = sim

    def writable(self):
        return True

    def isatty(self):
        return False

    def write(self, s):
        f = self._sim.event('stdout', 'stdout')
        if f:
            self._sim.fire(f)
            do = f['do']
            if do == 'crash':
                self._sim.crash()
            if do == 'interrupt':
                raise SimInterrupt()
            raise oserr(do)
        self._sim.out.append(s)
        return len(s)

    def flush(self):
        pass


class SimRandom(_random_mod.Random):
    """Random source whose outcomes the scenario decides."""

    def __init__(self, seed, mode='uniform'):
        self.mode = mode
        self.draws = 0
        self.rec = None               # list that collects the numbers handed out
        self.base = _random_mod.Random(seed)
        super().__init__(0)

    def random(self):
        v = self._random()
        if self.rec is not None:
            self.rec.append(v)
        return v

    def _random(self):
        self.draws += 1
        m = self.mode
        u = self.base.random()
        if m == 'lo':
            return 0.0
        if m == 'hi':
            return 1.0 - 2.0 ** -53
        if m == 'edge':
            c = self.base.random()
            if c < .3:
                return 0.0
            if c < .6:
                return 1.0 - 2.0 ** -53
            if c < .75:
                return [0.01, 0.85, 0.86, 0.93, 0.92, 0.5][int(u * 6)]
        if m == 'sticky':
            # long runs of one value
            if self.base.random() < .05 or not hasattr(self, '_st'):
                self._st = u
            return self._st
        return u

    def getrandbits(self, k):
        self.draws += 1
        m = self.mode
        if m == 'lo':
            return 0
        if m == 'hi':
            # randrange rejects out-of-range values: answer high but not for ever
            v = (1 << k) - 1
            self._hi = getattr(self, '_hi', 0) + 1
            return v if self._hi % 3 else self.base.getrandbits(k)
        if m == 'edge' and self.base.random() < .5:
            return 0 if self.base.random() < .5 else (1 << k) - 1 if self.base.random() < .5 \
                else self.base.getrandbits(k)
        return self.base.getrandbits(k)

    def seed(self, *a, **k):
        if hasattr(self, 'base') and a:
            self.base.seed(*a, **k)


class Sim:
    def __init__(self, bufsize=8192, max_io=0, rand=(0, 'uniform'), tick=1000):
        self.ev = 0
        self.clock = 1_000_000_000
        self.clock0 = self.clock
        self.tick = tick
        self.clock_plan = None
        self.clock_reads = []
        self.log = []
        self.out = []
        self.fired = []
        self.fault_counts = Counter()
        self.call_counts = Counter()
        self.probes = Counter()
        self.escapes = []
        self.tampered = set()
        self.crashed = False
        self.faults = []
        self.step_counts = Counter()
        self.on_mutation = None
        self.on_event = None
        self.sched = None
        self.spawn = None             # handler of subprocess calls
        self.spawned = []
        self.moved = []               # working directories calls left behind
        self.keepenv = False
        self.fs = SimFS(self, bufsize, max_io)
        self.rng = SimRandom(*rand)
        self.stdout = SimStdout(self)

    # ---- faults ----------------------------------------------------------
    def arm(self, faults):
        self.faults = [dict(f, _left=f.get('n', 0)) for f in (faults or [])]
        self.step_counts = Counter()

    def disarm(self):
        self.faults = []

    def fire(self, f):
        self.fired.append({k: v for k, v in f.items() if not k.startswith('_')})
        self.fault_counts[f"{f['k']}:{f['do']}"] += 1
        self.log.append(('fault', f['k'], f['do']))
        f['_left'] = -1

    def event(self, kind, path=None, nofault=False):
        """Every call into the simulated world passes here."""
        if self.crashed:
            raise SimCrash()
        self.ev += 1
        self.clock += self.tick
        self.call_counts[kind] += 1
        self.step_counts[kind] += 1
        self.log.append((kind, path))
        if self.sched is not None:
            self.sched.yield_point('io')
        if self.on_event:
            self.on_event(kind, path)
        if nofault:
            return None
        hit = None
        for f in self.faults:
            if f['k'] == kind and f['_left'] >= 0 and f['do'] not in ('vanish', 'crash-after'):
                if f.get('path') and f['path'] not in (path or ''):
                    continue
                if f['_left'] == 0:
                    if hit is None:
                        hit = f
                else:
                    f['_left'] -= 1
        return hit

    def late(self, kind, path):
        """Faults that act right after the call succeeded."""
        for f in self.faults:
            if f['k'] == kind and f['do'] in ('vanish', 'crash-after') and f['_left'] >= 0:
                if f.get('path') and f['path'] not in (path or ''):
                    continue
                if f['_left'] == 0:
                    return f
                f['_left'] -= 1
        return None

    def crash(self):
        self.crashed = True
        raise SimCrash()

    def restart(self):
        """A new process: open handles and buffers are gone, the disk stays."""
        self.crashed = False
        for h in list(self.fs.open_handles.values()):
            try:
                h._fd = -1
                io.RawIOBase.close(h)
            except BaseException:
                pass
        self.fs.open_handles.clear()
        self.faults = []

    def probe(self, name, n=1):
        self.probes[name] += n

    def read_clock(self):
        if self.crashed:
            raise SimCrash()
        if self.clock_plan:
            self.clock += self.clock_plan.pop(0)
        else:
            self.clock += self.tick
        self.clock_reads.append(self.clock)
        return self.clock


# --------------------------------------------------------------------------
def active(sim):
    """Context manager: make sim the world."""
    class _A:
        def __enter__(self):
            global SIM
            self.old = SIM
            self.so = sys.stdout
            SIM = sim
            sys.stdout = sim.stdout
            return sim

        def __exit__(self, *a):
            global SIM
            SIM = self.old
            sys.stdout = self.so
            return False
    return _A()


def _sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None,
              closefd=True, opener=None):
    sim = SIM
    if sim is None:
        return REAL['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    if isinstance(file, int):
        if file < FD_BASE:
            return REAL['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    elif not sim.fs.mine(file):
        if any(c in mode for c in 'wax+'):
            sim.escapes.append(('open', str(file), mode))
            raise PermissionError(E.EACCES, 'outside the simulated disk', str(file))
        return REAL['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    m = set(mode)
    if m - set('rwaxb+t') or sum(c in m for c in 'rwax') != 1:
        raise ValueError(f'invalid mode: {mode!r}')
    text = 'b' not in m
    upd = '+' in m
    rd = 'r' in m or upd
    wr = any(c in m for c in 'wax') or upd
    if isinstance(file, int):
        raw = sim.fs.open_handles.get(file)
        if raw is None:
            raise OSError(E.EBADF, os.strerror(E.EBADF))
    elif opener is not None:
        fl = os.O_RDWR if upd else (os.O_WRONLY if wr else os.O_RDONLY)
        if 'w' in m:
            fl |= os.O_CREAT | os.O_TRUNC
        if 'a' in m:
            fl |= os.O_CREAT | os.O_APPEND
        if 'x' in m:
            fl |= os.O_CREAT | os.O_EXCL
        fd = opener(file, fl | os.O_CLOEXEC)
        raw = sim.fs.open_handles.get(fd)
        if raw is None:
            raise OSError(E.EBADF, os.strerror(E.EBADF))
    else:
        raw = sim.fs.open_raw(file, rd, wr, any(c in m for c in 'wax'), 'x' in m, 'w' in m, 'a' in m)
    if buffering == 0:
        if text:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    size = sim.fs.bufsize if buffering in (-1, 1) else buffering
    if upd:
        b = io.BufferedRandom(raw, size)
    elif wr:
        b = io.BufferedWriter(raw, size)
    else:
        b = io.BufferedReader(raw, size)
    if not text:
        return b
    t = io.TextIOWrapper(b, encoding or 'utf-8', errors, newline)
    t.mode = mode
    return t


def _mutator(name, simfn, npath=1):
    real = getattr(os, name)
    REAL['os.' + name] = real

    def w(*a, **k):
        sim = SIM
        if sim is None:
            return real(*a, **k)
        if not all(sim.fs.mine(x) for x in a[:npath]):
            sim.escapes.append((name, str(a[:npath])))
            raise PermissionError(E.EACCES, 'outside the simulated disk', str(a[0]))
        return simfn(sim, *a, **k)
    w.__name__ = name
    setattr(os, name, w)


def _reader(name, simfn, default=None):
    real = getattr(os, name)
    REAL['os.' + name] = real

    def w(*a, **k):
        sim = SIM
        if sim is None:
            return real(*a, **k)
        p = a[0] if a else (k.get('path', default))
        if p is None:
            p = '.'
        if not sim.fs.mine(p):
            return real(*a, **k)
        return simfn(sim, *((p,) + tuple(a[1:])), **{x: y for x, y in k.items() if x != 'path'})
    w.__name__ = name
    setattr(os, name, w)


def _fdcall(name, simfn):
    real = getattr(os, name)
    REAL['os.' + name] = real

    def w(fd, *a, **k):
        sim = SIM
        if sim is None or not isinstance(fd, int) or fd < FD_BASE:
            return real(fd, *a, **k)
        h = sim.fs.open_handles.get(fd)
        if h is None:
            raise OSError(E.EBADF, os.strerror(E.EBADF))
        return simfn(sim, h, *a, **k)
    w.__name__ = name
    setattr(os, name, w)


def _os_open(sim, path, flags, mode=0o777, *, dir_fd=None):
    acc = flags & 3
    raw = sim.fs.open_raw(path, acc in (0, 2), acc in (1, 2), bool(flags & os.O_CREAT),
                          bool(flags & os.O_EXCL), bool(flags & os.O_TRUNC),
                          bool(flags & os.O_APPEND))
    raw.bare = True
    return raw._fd


def _fd_read(sim, h, n):
    b = bytearray(n)
    k = h.readinto(b)
    return bytes(b[:k])


def _fd_stat(sim, h):
    return h._ino.stat()


def _pread(sim, h, n, off):
    p = h._pos
    h._pos = off
    r = _fd_read(sim, h, n)
    h._pos = p
    return r


def _pwrite(sim, h, b, off):
    p = h._pos
    h._pos = off
    r = h.write(b)
    h._pos = p
    return r


class SimLock:
    """threading.Lock that parks the simulated caller instead of the process."""
    _re = False

    def __init__(self):
        self._l = REAL['Lock']()
        self._owner = None
        self._n = 0

    def acquire(self, blocking=True, timeout=-1):
        me = REAL['get_ident']()
        if self._re and self._owner == me:
            self._n += 1
            return True
        sim = SIM
        sched = sim.sched if sim is not None else None
        if sched is None or not sched.is_member():
            ok = self._l.acquire(blocking, timeout)
        else:
            sched.yield_point('lock')
            ok = self._l.acquire(False)
            spins = 0
            while not ok and blocking:
                spins += 1
                if timeout is not None and timeout >= 0 and spins > 50:
                    return False
                sched.blocked()
                ok = self._l.acquire(False)
        if ok:
            self._owner = me
            self._n = 1
        return ok

    def release(self):
        if self._re:
            if self._owner != REAL['get_ident']():
                raise RuntimeError('cannot release un-acquired lock')
            self._n -= 1
            if self._n:
                return
        self._owner = None
        self._l.release()

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner == REAL['get_ident']()

    def _at_fork_reinit(self):
        self._l = REAL['Lock']()


class SimRLock(SimLock):
    _re = True


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    REAL['open'] = builtins.open
    builtins.open = _sim_open
    io.open = _sim_open

    # os: paths
    REAL['os.open'] = os.open

    def w_open(path, flags, mode=0o777, *, dir_fd=None):
        sim = SIM
        if sim is None:
            return REAL['os.open'](path, flags, mode, dir_fd=dir_fd)
        if not sim.fs.mine(path):
            if flags & 3 or flags & os.O_CREAT:
                sim.escapes.append(('os.open', str(path)))
                raise PermissionError(E.EACCES, 'outside the simulated disk', str(path))
            return REAL['os.open'](path, flags, mode, dir_fd=dir_fd)
        return _os_open(sim, path, flags, mode)
    os.open = w_open
    _mutator('mkdir', lambda s, p, *a, **k: s.fs.mkdir(p))
    _mutator('rmdir', lambda s, p, *a, **k: s.fs.rmdir(p))
    _mutator('unlink', lambda s, p, *a, **k: s.fs.unlink(p))
    _mutator('remove', lambda s, p, *a, **k: s.fs.unlink(p))
    _mutator('rename', lambda s, a, b, **k: s.fs.rename(a, b), 2)
    _mutator('replace', lambda s, a, b, **k: s.fs.rename(a, b), 2)

    def nosup(s, *a, **k):
        raise OSError(E.ENOTSUP, os.strerror(E.ENOTSUP))
    for nm in ('link', 'symlink'):
        _mutator(nm, nosup, 2)

    def trunc(s, p, size):
        if isinstance(p, int):
            return s.fs.open_handles[p].truncate(size)
        raw = s.fs.open_raw(p, False, True, False, False, False, False)
        raw.truncate(size)
        raw.close()
    _mutator('truncate', trunc)

    def chmod(s, p, mode, **k):
        s.event('chmod', s.fs.norm(p))
        n = s.fs.norm(p)
        if n in s.fs.files:
            s.fs.files[n].mode = mode & 0o7777
        elif n not in s.fs.dirs:
            raise FileNotFoundError(E.ENOENT, os.strerror(E.ENOENT), n)
    _mutator('chmod', chmod)
    _mutator('utime', lambda s, p, *a, **k: None)
    _mutator('chown', lambda s, p, *a, **k: None)

    def wstat(s, p, *a, **k):
        if isinstance(p, int):
            return _fd_stat(s, s.fs.open_handles[p])
        return s.fs.do_stat(p)
    _reader('stat', wstat)
    _reader('lstat', wstat)
    _reader('listdir', lambda s, p='.': s.fs.listdir(p))
    _reader('scandir', lambda s, p='.': s.fs.scandir(p))

    def readlink(s, p, **k):
        raise OSError(E.EINVAL, os.strerror(E.EINVAL))
    _reader('readlink', readlink)

    def access(s, p, mode, **k):
        n = s.fs.norm(p)
        if n not in s.fs.files and n not in s.fs.dirs:
            return False
        return not (mode & os.W_OK and n in s.fs.noperm)
    _reader('access', access)
    REAL['os.getcwd'] = os.getcwd

    def getcwd():
        if SIM is None:
            return REAL['os.getcwd']()
        f = SIM.event('getcwd', SIM.fs.cwd)
        if f:
            SIM.fire(f)
            raise oserr(f['do'])
        return SIM.fs.cwd
    os.getcwd = getcwd
    REAL['os.chdir'] = os.chdir

    def chdir(p):
        if SIM is None:
            return REAL['os.chdir'](p)
        n = SIM.fs.norm(p)
        if n not in SIM.fs.dirs:
            raise FileNotFoundError(E.ENOENT, os.strerror(E.ENOENT), n)
        SIM.fs.cwd = n
    os.chdir = chdir

    # os: descriptors
    _fdcall('close', lambda s, h: h.close())
    _fdcall('read', _fd_read)
    _fdcall('write', lambda s, h, b: h.write(b))
    _fdcall('pread', _pread)
    _fdcall('pwrite', _pwrite)
    _fdcall('lseek', lambda s, h, o, w=0: h.seek(o, w))
    _fdcall('fsync', lambda s, h: s.event('fsync', h._path) and None)
    _fdcall('fdatasync', lambda s, h: s.event('fsync', h._path) and None)
    _fdcall('fstat', _fd_stat)
    _fdcall('ftruncate', lambda s, h, n: h.truncate(n) and None)
    _fdcall('fchmod', lambda s, h, m: None)
    _fdcall('isatty', lambda s, h: False)
    _fdcall('sendfile', nosup)
    for nm in ('system', 'popen', 'execv', 'execve', 'fork', 'kill'):
        REAL['os.' + nm] = getattr(os, nm)

    def noshell(nm):
        def w(*a, **k):
            if SIM is None:
                return REAL['os.' + nm](*a, **k)
            SIM.escapes.append((nm, str(a)))
            raise PermissionError(E.EACCES, 'outside the simulation')
        return w
    for nm in ('system', 'popen', 'execv', 'execve', 'kill'):
        setattr(os, nm, noshell(nm))

    # clocks
    for nm in ('time', 'monotonic', 'perf_counter', 'process_time', 'thread_time'):
        REAL[nm] = getattr(_time_mod, nm)
        REAL[nm + '_ns'] = getattr(_time_mod, nm + '_ns')

        def mk(nm=nm):
            def f():
                return REAL[nm]() if SIM is None else SIM.read_clock() / 1e9

            def g():
                return REAL[nm + '_ns']() if SIM is None else SIM.read_clock()
            return f, g
        f, g = mk()
        setattr(_time_mod, nm, f)
        setattr(_time_mod, nm + '_ns', g)
    REAL['sleep'] = _time_mod.sleep

    def sleep(s):
        if SIM is None:
            return REAL['sleep'](s)
        SIM.clock += int(s * 1e9)
    _time_mod.sleep = sleep

    # randomness
    for nm in ('random', 'randint', 'randrange', 'uniform', 'choice', 'choices', 'sample',
               'shuffle', 'getrandbits', 'gauss', 'normalvariate', 'triangular', 'betavariate',
               'expovariate', 'randbytes', 'seed'):
        REAL['random.' + nm] = getattr(_random_mod, nm)

        def mkr(nm=nm):
            real = REAL['random.' + nm]

            def w(*a, **k):
                sim = SIM
                if sim is None or sim.rng is None:
                    return real(*a, **k)
                return getattr(sim.rng, nm)(*a, **k)
            w.__name__ = nm
            return w
        setattr(_random_mod, nm, mkr())
    REAL['Random'] = _random_mod.Random
    REAL['os.urandom'] = os.urandom

    def urandom(n):
        sim = SIM
        if sim is None or sim.rng is None:
            return REAL['os.urandom'](n)
        return bytes(sim.rng.base.getrandbits(8) for _ in range(n))
    os.urandom = urandom

    # processes
    for nm in ('check_output', 'run', 'call', 'check_call', 'Popen'):
        REAL['sp.' + nm] = getattr(_sp, nm)

        def mks(nm=nm):
            def w(*a, **k):
                sim = SIM
                if sim is None:
                    return REAL['sp.' + nm](*a, **k)
                if sim.spawn is None:
                    sim.escapes.append(('subprocess.' + nm, str(a)))
                    raise PermissionError(E.EACCES, 'outside the simulation')
                return sim.spawn(nm, *a, **k)
            return w
        if nm != 'Popen':
            setattr(_sp, nm, mks())

    class SimPopen(_sp.Popen):
        def __init__(self, *a, **k):
            if SIM is not None and SIM.spawn is not None:
                self.args, self.stdin, self.stdout, self.stderr, self.pid = a[0], None, None, None, 99
                self._out, self.returncode = SIM.spawn('Popen', *a, **k)
                return
            if SIM is not None:
                SIM.escapes.append(('subprocess.Popen', str(a)))
                raise PermissionError(E.EACCES, 'outside the simulation')
            super().__init__(*a, **k)

        def communicate(self, *a, **k):
            return (self._out, None) if hasattr(self, '_out') else super().communicate(*a, **k)

        def wait(self, *a, **k):
            return self.returncode if hasattr(self, '_out') else super().wait(*a, **k)

        def poll(self):
            return self.returncode if hasattr(self, '_out') else super().poll()

        def __exit__(self, *a):
            return None if hasattr(self, '_out') else super().__exit__(*a)

        def __del__(self, *a):
            if not hasattr(self, '_out') and hasattr(self, '_child_created'):
                super().__del__()
    _sp.Popen = SimPopen

    # locks
    REAL['Lock'] = threading.Lock
    REAL['RLock'] = threading.RLock
    REAL['get_ident'] = threading.get_ident
    threading.Lock = SimLock
    threading.RLock = SimRLock


def load_library(repo=None):
    """Import pythonbmp from the repository's working tree."""
    repo = repo or os.environ.get('VERIF_REPO', '/repo')
    install()
    import warnings
    warnings.simplefilter('ignore')
    sys.dont_write_bytecode = True
    if repo not in sys.path:
        sys.path.insert(0, repo)
    import pythonbmp
    here = os.path.realpath(os.path.dirname(pythonbmp.__file__))
    want = os.path.realpath(os.path.join(repo, 'pythonbmp'))
    if here != want:
        raise RuntimeError(f'pythonbmp came from {here}, not {want}')
    import importlib
    for f in sorted(os.listdir(want)):
        if f.endswith('.py') and f != '__init__.py':
            importlib.import_module('pythonbmp.' + f[:-3])
    return sys.modules['pythonbmp.BITMAPlib']

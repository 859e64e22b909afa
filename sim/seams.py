"""Seams: everything nondeterministic that craterstats (and the libraries it calls) can observe is routed
through the SIM object of the current simulated process. install() must run before craterstats is imported.

Outside a simulated session (SIM.active False) every seam passes straight through.
"""
import builtins, errno, hashlib, io, os, random, shutil, stat, sys, tempfile, time, uuid

REAL = {}            # original callables by name
T0 = 1_700_000_000.0


class SimViolation(BaseException):
    """Raised inside a session when the simulator itself observes a broken liveness rule (e.g. deadlock)."""


class Sim:
    def __init__(self):
        self.active = False
        self.reset()

    def reset(self):
        self.root = None            # scratch directory of the run
        self.allowed = ()           # further prefixes that may be written without being events
        self.repo = None
        self.is_worker = False
        self.pid = 1000
        self.cpu = 8
        self.now = 0.0              # virtual seconds since session start
        self.clock0 = T0
        self.entropy = random.Random(0)
        self.events = []            # (kind, relpath, detail)
        self.faults = {}            # event index -> list of fault dicts
        self.sticky = []            # faults that stay active
        self.fired = []             # faults that really fired
        self.calls = 0              # function entries counted
        self.call_faults = {}
        self.call_crc = 0
        self.escapes = []
        self.short_io = None        # random.Random deciding legal short reads / writes, or None
        self.short_count = 0
        self.bufsize = None
        self.lock = None            # lock-step channel
        self.obs = {}
        self.adv = None             # adversarial draws
        self.draws = None           # recorder of poisson draws
        self.pool = None            # pool settings
        self.kill = None            # callable performing a simulated kill
        self.encoding = None        # text encoding of the simulated locale (None: that of the real one)
        self.dirorder = None        # seed of the simulated directory listing order

    # -- events -----------------------------------------------------------------------------------
    def event(self, kind, path='', detail=0):
        """Pass one numbered event. Returns a fault dict that the caller has to act out, or None."""
        if not self.active or self.is_worker:
            return None
        i = len(self.events)
        self.events.append((kind, path, detail))
        if self.lock is not None and kind != 'pool':
            self.lock(i, kind, path)
        todo = None
        for f in self.faults.get(i, ()):
            if f.get('sticky'):
                self.sticky.append(f)
            todo = self._act(f, kind, path, i) or todo
        if todo is None:
            for f in self.sticky:
                if kind in f['kinds'] and (not f.get('path') or (path in f['path'] if isinstance(f['path'], list) else f['path'] == path)):
                    todo = self._act(f, kind, path, i)
                    break
        return todo

    def _act(self, f, kind, path, i):
        act = f['act']
        self.fired.append((act, kind, path, i))
        if act == 'kill':
            self.kill()
        if act == 'interrupt':
            raise KeyboardInterrupt('simulated')
        if act == 'memory':
            raise MemoryError('simulated')
        if act == 'clock':
            self.now += f.get('by', 3600.0)
            return None
        if act in ('torn', 'short'):
            if kind == 'write':
                return f
            act = 'enospc'
            if kind in ('read', 'readall', 'stat', 'chdir', 'pool'):
                return None
        if act in ERR:
            return f
        raise AssertionError(act)

    def fail(self, f, path):
        code = ERR.get(f['act'], errno.ENOSPC)
        raise OSError(code, os.strerror(code), path)

    def digest(self):
        h = hashlib.sha256()
        for e in self.events:
            h.update(repr(e).encode())
        h.update(repr((self.calls if self.call_faults else 0, self.call_crc)).encode())
        return h.hexdigest()[:16]

    # -- paths ------------------------------------------------------------------------------------
    def classify(self, path):
        """('root', rel) scratch file; ('repo', rel) installed file; ('free', p) ignored; ('out', p) elsewhere"""
        try:
            p = os.fspath(path)
        except TypeError:
            return 'free', ''
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.normpath(os.path.join(REAL['getcwd'](), p))
        for a in self.allowed:
            if p == a or p.startswith(a + '/'):
                return 'free', p
        if p == self.root or p.startswith(self.root + '/'):
            rel = os.path.relpath(p, self.root)
            return 'root', rel
        if self.repo and p.startswith(self.repo + '/'):
            return 'repo', 'REPO/' + os.path.relpath(p, self.repo)
        if p in ('/dev/null', '/dev/tty') or p.startswith(('/dev/urandom', '/proc/self')):
            return 'free', p
        return 'out', p

    def escape(self, op, path):
        self.escapes.append([op, str(path)])
        raise PermissionError(errno.EACCES, 'write outside the scratch directory refused by the simulator', str(path))


ERR = {'enospc': errno.ENOSPC, 'eio': errno.EIO, 'eacces': errno.EACCES, 'emfile': errno.EMFILE,
       'enoent': errno.ENOENT, 'erofs': errno.EROFS, 'eagain': errno.EAGAIN, 'edquot': errno.EDQUOT,
       'torn': errno.ENOSPC}

SIM = Sim()


# ---------------------------------------------------------------------------------------- files
class SimRaw(io.FileIO):
    def __init__(self, file, mode='r', closefd=True, opener=None, rel='?', kind='root'):
        self._rel, self._kind, self._torn = rel, kind, False
        self._reading = 'r' in mode and '+' not in mode
        f = SIM.event('open', rel, mode)
        if f:
            SIM.fail(f, str(file))
        super().__init__(file, mode, closefd, opener)

    def write(self, b):
        b = memoryview(b).cast('B')
        f = SIM.event('write', self._rel, len(b))
        if f:
            if f['act'] == 'short' and len(b) > 1:
                return super().write(b[:max(1, len(b) // 2)])
            if f['act'] == 'torn' and len(b) > 1 and not self._torn:
                # as the system call does it: part is accepted, the next attempt fails
                self._torn = True
                return super().write(b[:max(1, min(len(b) - 1, int(len(b) * f.get('frac', .5))))])
            if f['act'] != 'short':
                SIM.fail(f, self._rel)
        if self._torn:
            self._torn = False
            SIM.fail({'act': 'enospc'}, self._rel)
        if SIM.active and SIM.short_io is not None and len(b) > 1 and SIM.short_io.random() < .5:
            SIM.short_count += 1
            return super().write(b[:SIM.short_io.randint(1, len(b) - 1)])
        return super().write(b)

    def _cut(self, n):
        if SIM.active and SIM.short_io is not None and n > 1 and SIM.short_io.random() < .5:
            SIM.short_count += 1
            return SIM.short_io.randint(1, min(n, 97))
        return n

    def readinto(self, b):
        f = SIM.event('read', self._rel)
        if f:
            SIM.fail(f, self._rel)
        mv = memoryview(b).cast('B')
        return super().readinto(mv[:self._cut(len(mv))])

    def read(self, n=-1):
        if n is None or n < 0:
            return self.readall()
        f = SIM.event('read', self._rel)
        if f:
            SIM.fail(f, self._rel)
        return super().read(self._cut(n))

    def readall(self):
        out = []
        while True:
            chunk = self.read(4096)
            if not chunk:
                return b''.join(out)
            out.append(chunk)

    def close(self):
        if not self.closed and not self._reading:
            f = SIM.event('close', self._rel)
            super().close()
            if f:
                SIM.fail(f, self._rel)
        else:
            super().close()


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if not SIM.active or isinstance(file, int):
        return REAL['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    where, rel = SIM.classify(file)
    writing = any(c in mode for c in 'wax+')
    if where in ('out', 'repo') and writing:
        SIM.escape('open ' + mode, file)
    if where in ('free', 'out') or (where == 'repo' and rel.endswith('.ttf')):
        return REAL['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    modes = set(mode)
    if modes - set('axrwb+tU') or len(mode) > len(modes) or sum(c in modes for c in 'xrwa') != 1 or {'t', 'b'} <= modes:
        return REAL['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)  # raises the usual error
    binary = 'b' in modes
    if binary and (encoding is not None or errors is not None or newline is not None) or (buffering == 0 and not binary):
        return REAL['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    rmode = ''.join(c for c in 'xrwa' if c in modes) + ('+' if '+' in modes else '')
    raw = SimRaw(file, rmode, closefd, opener, rel, where)
    try:
        if buffering == 0:
            return raw
        size = SIM.bufsize or io.DEFAULT_BUFFER_SIZE
        if buffering > 1:
            size = buffering
        if '+' in modes:
            buf = io.BufferedRandom(raw, size)
        elif modes & set('wax'):
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if binary:
            return buf
        if SIM.encoding and encoding in (None, 'locale'):
            encoding = SIM.encoding
        text = io.TextIOWrapper(buf, io.text_encoding(encoding), errors, newline, buffering == 1)
        text.mode = mode
        return text
    except BaseException:
        raw.close()
        raise


def _os_wrapper(name, npaths, write=True):
    real = getattr(os, name)
    REAL[name] = real

    def wrapper(*a, **k):
        if not SIM.active:
            return real(*a, **k)
        base = next((k[x] for x in ('dir_fd', 'src_dir_fd', 'dst_dir_fd') if k.get(x) is not None), None)
        if base is not None:
            base = os.readlink(f'/proc/self/fd/{base}')
            paths = [os.path.join(base, os.fspath(p)) for p in a[:npaths]]
            for p in paths:
                where, rel = SIM.classify(p)
                if write and where in ('out', 'repo'):
                    SIM.escape(name, p)
            return real(*a, **k)
        paths = list(a[:npaths]) + ([k['dst']] if 'dst' in k else [])
        rels = []
        for p in paths:
            if isinstance(p, int):
                return real(*a, **k)
            where, rel = SIM.classify(p)
            if where == 'free':
                return real(*a, **k)
            if write and where in ('out', 'repo'):
                SIM.escape(name, p)
            rels.append(rel)
        if len(rels) == 2 and name != 'symlink' and rels[0].startswith('tmp/') != rels[1].startswith('tmp/'):
            raise OSError(errno.EXDEV, os.strerror(errno.EXDEV), str(paths[0]), None, str(paths[1]))     # the directory for temporary files is another file system
        f = SIM.event(name, '>'.join(rels))
        if f:
            SIM.fail(f, str(paths[0]))
        return real(*a, **k)
    wrapper.__name__ = name
    setattr(os, name, wrapper)


def _listdir(path='.'):
    r = REAL['os.listdir'](path)
    if SIM.active and SIM.dirorder is not None:
        r.sort(key=str)
        random.Random(SIM.dirorder).shuffle(r)
    return r


class _Scan:
    def __init__(self, path):
        with REAL['os.scandir'](path) as it:
            r = sorted(it, key=lambda e: str(e.name))
        random.Random(SIM.dirorder).shuffle(r)
        self.it = iter(r)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.it = iter(())


def _scandir(path='.'):
    return _Scan(path) if SIM.active and SIM.dirorder is not None else REAL['os.scandir'](path)


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    if not SIM.active or isinstance(path, int):
        return REAL['os.open'](path, flags, mode, dir_fd=dir_fd)
    where, rel = SIM.classify(path)
    writing = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
    if writing and where in ('out', 'repo'):
        SIM.escape('os.open', path)
    if where in ('root', 'repo'):
        f = SIM.event('open', rel, 'fd')
        if f:
            SIM.fail(f, str(path))
    return REAL['os.open'](path, flags, mode, dir_fd=dir_fd)


def _fd_rel(fd):
    try:
        where, rel = SIM.classify(os.readlink(f'/proc/self/fd/{fd}'))
    except OSError:
        return None
    return rel if where == 'root' else None


def _os_write(fd, data):
    if SIM.active and not SIM.is_worker:
        rel = _fd_rel(fd)
        if rel is not None:
            f = SIM.event('write', rel, len(data))
            if f:
                if f['act'] == 'torn':
                    REAL['os.write'](fd, bytes(data)[:len(data) // 2])
                if f['act'] == 'short':
                    return REAL['os.write'](fd, bytes(data)[:max(1, len(data) // 2)])
                SIM.fail(f, rel)
    return REAL['os.write'](fd, data)


def _os_fsync(fd):
    if SIM.active and not SIM.is_worker:
        rel = _fd_rel(fd if isinstance(fd, int) else fd.fileno())
        if rel is not None:
            f = SIM.event('fsync', rel)
            if f:
                SIM.fail(f, rel)
    return REAL['os.fsync'](fd)


# ---------------------------------------------------------------------------------------- clock and entropy
def _clock(base):
    def f():
        if not SIM.active:
            return REAL['clock:' + base]()
        SIM.now += 1e-4
        t = (SIM.clock0 if base in ('time', 'time_ns') else 100.0) + SIM.now
        return int(t * 1e9) if base.endswith('_ns') else t
    return f


def _sleep(s):
    if not SIM.active:
        return REAL['sleep'](s)
    if s < 0:
        raise ValueError('sleep length must be non-negative')
    from . import pool
    pool.advance(SIM.now + s)


def _urandom(n):
    if not SIM.active:
        return REAL['urandom'](n)
    return SIM.entropy.randbytes(n)


class _Names:
    def __iter__(self):
        return self

    def __next__(self):
        return 'tmp%08x' % SIM.entropy.getrandbits(32)


# ---------------------------------------------------------------------------------------- numpy draws
def _install_numpy():
    import numpy as np
    REAL['np.uniform'], REAL['np.poisson'] = np.random.uniform, np.random.poisson

    def uniform(low=0.0, high=1.0, size=None):
        v = REAL['np.uniform'](low, high, size)
        if SIM.active and SIM.adv is not None:
            v = SIM.adv.uniform(low, high, v)
        return v

    def poisson(lam=1.0, size=None):
        v = REAL['np.poisson'](lam, size)
        if SIM.active and SIM.adv is not None:
            v = SIM.adv.poisson(lam, v)
        if SIM.active and SIM.draws is not None:
            a, b = np.broadcast_arrays(lam, v)
            SIM.draws.extend((float(x), int(y)) for x, y in zip(a.ravel(), b.ravel()))
        return v
    np.random.uniform, np.random.poisson = uniform, poisson


def seed_process(entropy_seed):
    """Give the current process the generator states a fresh interpreter would have, from simulated entropy."""
    import numpy as np
    SIM.entropy = random.Random(entropy_seed)
    random.seed(SIM.entropy.getrandbits(64))
    np.random.seed(SIM.entropy.getrandbits(32))
    tempfile._name_sequence = _Names()


# ---------------------------------------------------------------------------------------- call events
TOOL = 4


def _codes(src_prefix):
    """Every code object of the functions defined under src_prefix, nested ones included."""
    import gc, types
    todo = [f.__code__ for f in gc.get_objects() if isinstance(f, types.FunctionType) and f.__code__.co_filename.startswith(src_prefix)]
    seen = {}
    while todo:
        c = todo.pop()
        if id(c) not in seen:
            seen[id(c)] = c
            todo += [k for k in c.co_consts if isinstance(k, types.CodeType)]
    return seen.values()


def enable_calls(src_prefix, fine=False):
    """Number every entry of a function defined under src_prefix; faults in SIM.call_faults fire there.
    fine: also every call such a function makes of anything else: entry if that is Python, return if it is built in
    (the points where CPython looks for pending signals)."""
    import types, zlib
    mon = sys.monitoring
    mon.use_tool_id(TOOL, 'sim')

    def point(name):
        n = SIM.calls
        SIM.calls = n + 1
        SIM.call_crc = zlib.crc32(name.encode(), SIM.call_crc)
        f = SIM.call_faults.get(n)
        if f is not None:
            SIM._act(f, 'call', name, n)

    def on_start(code, offset):
        if not code.co_filename.startswith(src_prefix):
            return mon.DISABLE
        if SIM.active and not SIM.is_worker:
            point(code.co_qualname)

    def on_call(code, offset, callee, arg0):
        if SIM.active and not SIM.is_worker:
            f = callee.__func__ if isinstance(callee, types.MethodType) else callee
            if isinstance(f, types.FunctionType) and not f.__code__.co_filename.startswith(src_prefix):
                point(code.co_qualname + '>' + f.__code__.co_qualname)

    def on_return(code, offset, callee, arg0):
        if SIM.active and not SIM.is_worker:
            point(code.co_qualname + '<' + getattr(callee, '__qualname__', type(callee).__name__))
    mon.register_callback(TOOL, mon.events.PY_START, on_start)
    mon.set_events(TOOL, mon.events.PY_START)
    if fine:
        mon.register_callback(TOOL, mon.events.CALL, on_call)
        mon.register_callback(TOOL, mon.events.C_RETURN, on_return)
        for c in _codes(src_prefix):
            mon.set_local_events(TOOL, c, mon.events.CALL)


def disable_calls():
    mon = sys.monitoring
    if mon.get_tool(TOOL):
        mon.set_events(TOOL, 0)
        mon.free_tool_id(TOOL)


def _broken_down(name, real, secs):
    local = time.localtime

    def f(*a):
        if SIM.active and len(a) == secs:
            a += (local(time.time()),) if name in ('strftime', 'asctime') else (time.time(),)
        return real(*a)
    f.__name__ = name
    return f


def _datetime():
    import datetime as dt
    real, realdate = dt.datetime, dt.date

    class Meta(type):
        def __instancecheck__(cls, o):
            return isinstance(o, real)

        def __subclasscheck__(cls, o):
            return issubclass(o, real)

    class datetime(real, metaclass=Meta):
        @classmethod
        def now(cls, tz=None):
            return real.fromtimestamp(time.time(), tz)

        @classmethod
        def utcnow(cls):
            return real.fromtimestamp(time.time(), dt.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return real.fromtimestamp(time.time())

    class DateMeta(type):
        def __instancecheck__(cls, o):
            return isinstance(o, realdate)

        def __subclasscheck__(cls, o):
            return issubclass(o, realdate)

    class date(realdate, metaclass=DateMeta):
        @classmethod
        def today(cls):
            return realdate.fromtimestamp(time.time())
    dt.datetime, dt.date = datetime, date


# ---------------------------------------------------------------------------------------- install
def install():
    assert 'craterstats' not in sys.modules
    REAL['open'], REAL['getcwd'] = builtins.open, os.getcwd
    builtins.open = io.open = sim_open
    import _io
    for name, n in (('replace', 2), ('rename', 2), ('renames', 2), ('link', 2), ('symlink', 2), ('remove', 1),
                    ('unlink', 1), ('rmdir', 1), ('mkdir', 1), ('truncate', 1), ('utime', 1), ('chmod', 1)):
        _os_wrapper(name, n)
    REAL['os.open'], os.open = os.open, _os_open
    REAL['os.listdir'], os.listdir = os.listdir, _listdir
    REAL['os.scandir'], os.scandir = os.scandir, _scandir
    REAL['os.write'], os.write = os.write, _os_write
    REAL['os.fsync'], os.fsync = os.fsync, _os_fsync
    shutil._USE_CP_SENDFILE = False
    for base in ('time', 'monotonic', 'perf_counter', 'process_time', 'time_ns', 'monotonic_ns', 'perf_counter_ns'):
        REAL['clock:' + base] = getattr(time, base)
        setattr(time, base, _clock(base))
    REAL['sleep'], time.sleep = time.sleep, _sleep
    for name, secs in (('localtime', 0), ('gmtime', 0), ('ctime', 0), ('strftime', 1), ('asctime', 0)):
        setattr(time, name, _broken_down(name, getattr(time, name), secs))
    _datetime()
    REAL['urandom'], os.urandom = os.urandom, _urandom
    random._urandom = _urandom
    REAL['getpid'] = os.getpid
    os.getpid = lambda: SIM.pid if SIM.active else REAL['getpid']()
    REAL['cpu_count'] = os.cpu_count
    os.cpu_count = lambda: SIM.cpu if SIM.active else REAL['cpu_count']()
    if hasattr(os, 'process_cpu_count'):
        os.process_cpu_count = os.cpu_count
    REAL['affinity'] = os.sched_getaffinity
    os.sched_getaffinity = lambda pid: set(range(SIM.cpu or 1)) if SIM.active else REAL['affinity'](pid)
    from . import pool
    pool.install()
    _install_numpy()

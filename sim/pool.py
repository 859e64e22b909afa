"""Simulated process pool and manager: discrete-event virtual time over real forked worker processes.

Each worker runs one task at a time and blocks at the end of the task and at every access to shared (manager)
state; a blocked worker proceeds only when the seeded scheduler picks its message, so that the only concurrency
is between segments that share nothing. Which worker proceeds, and when, follows from the schedule seed alone.
"""
import concurrent.futures as cf
import concurrent.futures.process as cfp
import builtins, ctypes, os, pickle, random, signal, socket, struct, sys, time, traceback, weakref
import multiprocessing

from .seams import SIM, REAL, SimViolation

PROFILES = ('uniform', 'heavy', 'reverse', 'slow_worker', 'lockstep', 'stall', 'eager')


class PoolSettings:
    """Everything the scheduler needs for one session; made from the plan."""
    def __init__(self, seed=0, profile='uniform', start='fork', faults=(), template=None, late_pickle=True):
        self.rng = random.Random(seed)
        self.profile, self.start, self.late_pickle = profile, start, late_pickle
        self.task_faults = {f['task']: f for f in faults if 'task' in f}       # by global task number
        self.msg_faults = {f['msg']: f for f in faults if 'msg' in f}          # by global message number
        self.spawn_faults = {f['spawn']: f for f in faults if 'spawn' in f}    # by global worker number
        self.ntask = self.nmsg = self.nspawn = 0
        self.template = template        # callable(sock): start a pristine worker on that socket
        self.executors = []
        self.managers = []
        self.order = []                 # completion order: the measure of distinct schedules
        self.computed = 0               # tasks that returned a value
        self.dispatched = []            # (task number, worker) pairs
        self.slow = None
        self.idle = 0                   # sleeps while nothing could happen


def _send(s, obj):
    b = obj if isinstance(obj, bytes) else pickle.dumps(obj)
    s.sendall(struct.pack('<I', len(b)) + b)


def _recv(s):
    def get(n):
        out = bytearray()
        while len(out) < n:
            c = s.recv(n - len(out))
            if not c:
                raise EOFError
            out += c
        return bytes(out)
    return pickle.loads(get(struct.unpack('<I', get(4))[0]))


# ---------------------------------------------------------------------------------------- worker side
WORKER = {'sock': None}


def _failing(fn, args, kw, exc, depth):
    """Call fn, which fails: at once, or where it enters the depth-th function of the package, or at its end."""
    def fail():
        raise OSError(12, 'Cannot allocate memory (simulated)') if exc == 'OSError' else getattr(builtins, exc)('simulated')
    if depth == 0:
        fail()
    mon, n = sys.monitoring, [0]
    src = os.path.dirname(os.path.abspath(sys.modules['craterstats'].__file__))

    def on_start(code, offset):
        if code.co_filename.startswith(src):
            n[0] += 1
            if n[0] >= depth:       # and again, if what was called is tried once more
                fail()
        else:
            return mon.DISABLE
    mon.use_tool_id(4, 'sim-failing')
    mon.register_callback(4, mon.events.PY_START, on_start)
    mon.set_events(4, mon.events.PY_START)
    try:
        fn(*args, **kw)
    finally:
        mon.set_events(4, 0)
        mon.register_callback(4, mon.events.PY_START, None)
        mon.free_tool_id(4)
        mon.restart_events()
    fail()


def worker_main(sock, setup):
    """Body of a worker process. Never returns."""
    try:
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)      # die with the session that owns this worker
        from . import seams
        seams.disable_calls()
        SIM.is_worker = True
        SIM.pid = setup['pid']
        sys.stdout = sys.stderr = open(os.devnull, 'w')
        if setup.get('entropy') is not None:             # fresh interpreter: own generator states
            seams.seed_process(setup['entropy'])
        if setup.get('adv'):
            from . import adversary
            SIM.adv = adversary.make(setup['adv'], setup['pid'])
        from . import observe
        observe.install_worker(setup.get('observe'))
        WORKER['sock'] = sock
        try:
            init = pickle.loads(setup['init'])
            if init[0]:
                init[0](*init[1])
        except BaseException:
            os._exit(70)
        _send(sock, ('ready',))
        while True:
            try:
                msg = _recv(sock)
            except (EOFError, OSError):
                os._exit(0)
            if msg[0] == 'exit':
                os._exit(0)
            _, payload, inject = msg
            try:
                fn, args, kw = pickle.loads(payload)
                r = _failing(fn, args, kw, *inject) if inject else fn(*args, **kw)
                out = pickle.dumps(('done', r, SIM.obs.pop('trial', None)))
            except BaseException as e:                   # as concurrent.futures.process._process_worker does
                tb = traceback.format_exc()
                try:
                    out = pickle.dumps(('error', e, tb, SIM.obs.pop('trial', None)))
                    pickle.loads(out)
                except BaseException:
                    out = pickle.dumps(('error', RuntimeError(repr(e)), tb, None))
            _send(sock, out)
    except BaseException:
        os._exit(71)


def worker_rpc(*msg):
    s = WORKER['sock']
    _send(s, ('rpc',) + msg)
    ok, v = _recv(s)
    if not ok:
        raise v
    return v


# ---------------------------------------------------------------------------------------- parent side
class _Worker:
    def __init__(self, ex, num):
        ps = SIM.pool
        self.num, self.state, self.msg, self.t, self.fut = num, 'idle', None, SIM.now, None
        a, b = socket.socketpair()
        setup = {'pid': SIM.pid * 100 + num + 1, 'adv': SIM.obs.get('adv_spec'), 'observe': SIM.obs.get('observe_spec'),
                 'entropy': SIM.entropy.getrandbits(64) if ex.start != 'fork' else None, 'init': ex.init}
        if ex.start == 'fork':
            self.pid = os.fork()
            if self.pid == 0:
                a.close()
                for e in ps.executors:
                    for w in e.workers:
                        w.sock.close()
                worker_main(b, setup)
            b.close()
        else:
            self.pid = None
            ps.template(b, setup)
            b.close()
        self.sock = a
        try:
            _recv(a)
            self.dead = False
        except EOFError:
            self.dead = True

    def stop(self):
        try:
            self.sock.close()
        except OSError:
            pass
        if self.pid:
            try:
                os.kill(self.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            _, st = os.waitpid(self.pid, 0)
            if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGXCPU:
                SIM.obs['worker_hang'] = SIM.obs.get('worker_hang', 0) + 1
            self.pid = None


class SimFuture(cf.Future):
    def __init__(self, ex):
        super().__init__()
        self._ex = ex

    def result(self, timeout=None):
        _pump(lambda: cf.Future.done(self), timeout)
        return super().result(0)

    def exception(self, timeout=None):
        _pump(lambda: cf.Future.done(self), timeout)
        return super().exception(0)

    def done(self):
        if not super().done():
            _step()
        return super().done()


class SimProcessPoolExecutor(cf.Executor):
    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), *, max_tasks_per_child=None):
        if max_workers is None:
            max_workers = os.cpu_count() or 1
        elif max_workers <= 0:
            raise ValueError('max_workers must be greater than 0')
        ps = SIM.pool
        self.n = max_workers
        self.start = ps.start
        if mp_context is not None and hasattr(mp_context, 'get_start_method'):
            m = mp_context.get_start_method()
            self.start = 'fork' if m == 'fork' else 'spawn'
        self.init = pickle.dumps((initializer, initargs))
        self.workers, self.queue = [], []
        self.broken = None
        self.closed = False
        ps.executors.append(self)

    def _spawn(self):
        ps = SIM.pool
        k = ps.nspawn
        ps.nspawn += 1
        if k in ps.spawn_faults:
            SIM.fired.append(('spawn_fail', 'pool', '', k))
            if self.start == 'fork' or not self.workers:
                # the thread that serves the queue is not started: nothing is pending, shutdown does not wait
                self.broken = 'could not start a worker'
                self.queue = []
                for w in self.workers:
                    w.stop()
                    w.state = 'dead'
            raise BlockingIOError(11, 'Resource temporarily unavailable (simulated)')
        w = _Worker(self, len(self.workers))
        self.workers.append(w)
        if w.dead:
            self._break('A child process terminated abruptly while starting')

    def submit(self, fn, /, *args, **kw):
        if self.broken:
            raise cfp.BrokenProcessPool(self.broken)
        if self.closed:
            raise RuntimeError('cannot schedule new futures after shutdown')
        SIM.event('pool', 'submit')
        f = SimFuture(self)
        ps = SIM.pool
        payload = (fn, args, kw)
        if not ps.late_pickle:
            payload = _try_pickle(payload)
        self.queue.append((ps.ntask, f, payload))
        ps.ntask += 1
        if self.start == 'fork':
            if not self.workers:
                for _ in range(self.n):
                    self._spawn()
        elif len(self.workers) < self.n and not any(w.state == 'idle' for w in self.workers):
            self._spawn()
        if ps.profile == 'eager':
            for _ in range(ps.rng.choice((0, 1, 3, 1 << 20))):
                if not _step():
                    break
        return f

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        return super().map(fn, *iterables, timeout=timeout)

    def shutdown(self, wait=True, *, cancel_futures=False):
        self.closed = True
        if cancel_futures:
            for _, f, _ in self.queue:
                f.cancel()
            self.queue = []
        if wait:
            _pump(lambda: not self.busy(), None)
            self._stop()

    def _stop(self):
        for w in self.workers:
            w.stop()
        if self in SIM.pool.executors:
            SIM.pool.executors.remove(self)
        self.workers = []

    def busy(self):
        return not self.broken and (bool([q for q in self.queue if not q[1].cancelled()]) or any(w.state == 'run' for w in self.workers))

    def _break(self, why):
        self.broken = why
        for w in self.workers:
            if w.fut is not None and not cf.Future.done(w.fut):
                w.fut.set_exception(cfp.BrokenProcessPool(
                    'A process in the process pool was terminated abruptly while the future was running or pending.'))
            w.fut = None
            w.state = 'dead'
            w.msg = None
        for _, f, _ in self.queue:
            if not f.cancelled():
                f.set_exception(cfp.BrokenProcessPool(
                    'A process in the process pool was terminated abruptly while the future was running or pending.'))
        self.queue = []
        for w in self.workers:
            w.stop()

    # -- scheduling -------------------------------------------------------------------------------
    def dispatch(self):
        ps = SIM.pool
        while self.queue and not self.broken:
            idle = [w for w in self.workers if w.state == 'idle']
            if not idle:
                return
            num, fut, payload = self.queue.pop(0)
            if not fut.set_running_or_notify_cancel():
                continue
            w = idle[ps.rng.randrange(len(idle))]
            inject = None
            f = ps.task_faults.get(num) or next((f for f in ps.task_faults.values() if f.get('sticky') and num > f['task']), None)
            if f:
                inject = (f['exc'], f.get('depth', 0))
                ps.failed = getattr(ps, 'failed', 0) + 1
                if ps.failed > 3000:
                    raise SimViolation('trials that keep failing are tried again and again')
                SIM.fired.append(('task_' + inject[0], 'pool', '', num))
            if not isinstance(payload, bytes):
                payload = _try_pickle(payload)
            if isinstance(payload, BaseException):
                fut.set_exception(payload)
                continue
            w.state, w.fut, w.msg, w.num_task = 'run', fut, None, num
            w.t = max(w.t, SIM.now)
            ps.dispatched.append((num, w.num))
            _send(w.sock, ('run', payload, inject))

    def collect(self):
        """Wait until every running worker is blocked; give each new message its virtual time."""
        ps = SIM.pool
        for w in self.workers:
            if w.state == 'run' and w.msg is None:
                try:
                    w.msg = _recv(w.sock)
                except EOFError:
                    w.msg = ('dead',)
                w.t += _duration(ps, w)


def _try_pickle(p):
    try:
        return pickle.dumps(p)
    except BaseException as e:
        return e


def _duration(ps, w):
    r = ps.rng
    p = ps.profile
    if p == 'uniform':
        return r.uniform(.5, 1.5)
    if p == 'heavy':
        return r.paretovariate(1.1)
    if p == 'reverse':
        return 1000.0 / (2 + getattr(w, 'num_task', 0)) + r.random() * .01
    if p == 'slow_worker':
        if ps.slow is None:
            ps.slow = r.randrange(8)
        return (500.0 if w.num == ps.slow % 3 else 1.0) * r.uniform(.9, 1.1)
    if p == 'lockstep':
        return 1.0
    if p == 'eager':        # the workers are faster than the process that feeds them (see submit)
        return r.uniform(.5, 1.5) * 1e-6
    if p == 'stall':
        return r.choice((.1, 1.0, 3600.0))
    raise AssertionError(p)


def _step(limit=None):
    """Let the simulated world do one thing. False if nothing can happen (before virtual time `limit`)."""
    ps = SIM.pool
    ready = []
    for ex in ps.executors:
        ex.dispatch()
        ex.collect()
        ready += [(w.t, i, w.num, w, ex) for i, e in enumerate([ex]) for w in ex.workers if w.state == 'run' and w.msg and not _blocked(w)]
    if not ready:
        return False
    t = min(r[0] for r in ready)
    best = [r for r in ready if r[0] <= t + 1e-9]
    _, _, _, w, ex = best[ps.rng.randrange(len(best))] if len(best) > 1 else best[0]
    if limit is not None and w.t > limit:
        return False
    SIM.now = max(SIM.now, w.t)
    SIM.event('pool', 'message')
    k = ps.nmsg
    ps.nmsg += 1
    f = ps.msg_faults.get(k)
    if f:
        SIM.fired.append(('worker_death', 'pool', '', k))
        ex._break('worker killed')
        return True
    msg, w.msg = w.msg, None
    if msg[0] == 'dead':
        ex._break('worker died')
    elif msg[0] == 'rpc':
        try:
            SIM.obs['rpc_from'] = w.num
            v = (True, _manager_call(*msg[1:]))
        except BaseException as e:
            v = (False, e)
        SIM.obs.pop('rpc_from')
        _send(w.sock, v)
    elif msg[0] == 'done':
        fut, w.fut, w.state = w.fut, None, 'idle'
        ps.order.append(w.num_task)
        ps.computed += max(1, sum('m' in t for t in msg[2] or ()))      # a task may hold several trials
        if msg[2] is not None and SIM.obs.get('observe_spec'):
            SIM.obs.setdefault('trials', []).extend((w.num_task, t) for t in msg[2])
        fut.set_result(msg[1])
    elif msg[0] == 'error':
        fut, w.fut, w.state = w.fut, None, 'idle'
        ps.order.append(w.num_task)
        if msg[3] is not None and SIM.obs.get('observe_spec'):
            SIM.obs.setdefault('trials', []).extend((w.num_task, t) for t in msg[3])
        e = msg[1]
        e.__cause__ = cfp._RemoteTraceback(msg[2]) if isinstance(e, Exception) else None
        fut.set_exception(e)
    else:
        raise AssertionError(msg)
    return True


def _pump(done, timeout):
    limit = None if timeout is None else SIM.now + timeout
    SIM.event('pool', 'wait')
    n = 0
    while not done():
        if not _step(limit):
            if limit is not None:
                SIM.now = limit
                raise TimeoutError()
            raise SimViolation('deadlock: waiting for a result that nothing can produce')
        n += 1
        if n > 200000:
            raise SimViolation('no progress: more than 200000 scheduling steps in one wait')


def advance(t):
    """time.sleep under simulation: let work proceed until virtual time t."""
    ps = SIM.pool
    while SIM.now < t:
        if not ps or not _step(t):
            break
        ps.idle = 0
    if ps and not any(ex.busy() for ex in ps.executors):        # nobody else is at work
        ps.idle += 1
        if ps.idle > 20000:
            raise SimViolation('no progress: the process keeps sleeping although nothing can happen')
    SIM.now = max(SIM.now, t)


def drain():
    """What the interpreter does at exit: wait for executors nobody shut down."""
    for ex in list(SIM.pool.executors):
        ex.shutdown(wait=True)


def kill_all():
    for ex in list(SIM.pool.executors) if SIM.pool else []:
        for w in ex.workers:
            w.stop()


def _wait(fs, timeout=None, return_when=cf.ALL_COMPLETED):
    fs = set(fs)
    for f in fs:
        if isinstance(f, _ThreadFuture):
            f._run()

    def ok():
        d = [f for f in fs if cf.Future.done(f)]
        if return_when == cf.FIRST_COMPLETED:
            return bool(d) or not fs
        if return_when == cf.FIRST_EXCEPTION and any(not f.cancelled() and cf.Future.exception(f, 0) for f in d):
            return True
        return len(d) == len(fs)
    try:
        _pump(ok, timeout)
    except TimeoutError:
        pass
    d = {f for f in fs if cf.Future.done(f)}
    return cf._base.DoneAndNotDoneFutures(d, fs - d)


def _as_completed(fs, timeout=None):
    pending = list(dict.fromkeys(fs))
    for f in pending:
        if isinstance(f, _ThreadFuture):
            f._run()
    while pending:
        _pump(lambda: any(cf.Future.done(f) for f in pending), timeout)
        now = [f for f in pending if cf.Future.done(f)]
        for f in now:
            pending.remove(f)
            yield f


# ---------------------------------------------------------------------------------------- manager
OBJECTS = {}


def _manager_call(mid, oid, method, args, kw):
    if (mid, oid) not in OBJECTS:
        raise EOFError('manager is shut down')
    o = OBJECTS[(mid, oid)]
    if method == '__getvalue__':
        return o.value
    if method == '__setvalue__':
        o.value = args[0]
        return None
    return getattr(o, method)(*args, **kw)


class SimProxy:
    def __init__(self, mid, oid):
        self.__dict__.update(_mid=mid, _oid=oid)

    def __reduce__(self):
        return (type(self), (self._mid, self._oid))

    def _call(self, method, *a, **k):
        if SIM.is_worker:
            return worker_rpc(self._mid, self._oid, method, a, k)
        return _manager_call(self._mid, self._oid, method, a, k)

    @property
    def value(self):
        return self._call('__getvalue__')

    @value.setter
    def value(self, v):
        self._call('__setvalue__', v)

    def get(self, *a, **k):
        return self._call('get', *a, **k)

    def set(self, v):
        self._call('__setvalue__', v)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **k: self._call(name, *a, **k)

    def __len__(self): return self._call('__len__')
    def __getitem__(self, i): return self._call('__getitem__', i)
    def __setitem__(self, i, v): return self._call('__setitem__', i, v)
    def __delitem__(self, i): return self._call('__delitem__', i)
    def __contains__(self, i): return self._call('__contains__', i)
    def __iter__(self): return iter(list(self._call('copy')))
    def __enter__(self): return self._call('__enter__')
    def __exit__(self, *a): return self._call('__exit__', *a)


class _Value:
    def __init__(self, v): self.value = v
    def get(self): return self.value
    def set(self, v): self.value = v


class _Lock:
    """A worker that wants a lock somebody else holds is not scheduled; the parent lets the others proceed."""
    def __init__(self, again=False):
        self.owner, self.held, self.again = None, 0, again

    def free(self, who):
        return not self.held or self.again and self.owner == who

    def acquire(self, blocking=True, timeout=None):
        who = SIM.obs.get('rpc_from')
        if not self.free(who):
            if blocking and timeout is None and who is None:
                while not self.free(who):
                    if not _step():
                        raise SimViolation('deadlock: a lock is never released')
            else:
                return False
        self.owner, self.held = who, self.held + 1
        return True

    def release(self):
        if not self.held:
            raise RuntimeError('release unlocked lock')
        self.held -= 1

    def locked(self): return bool(self.held)
    def __enter__(self): return self.acquire()
    def __exit__(self, *a): self.release()


def _blocked(w):
    """waiting for a lock held elsewhere"""
    m = w.msg
    if m[0] != 'rpc':
        return False
    o = OBJECTS.get((m[1], m[2]))
    return isinstance(o, _Lock) and not o.free(w.num) and (m[3] == '__enter__' or m[3] == 'acquire' and not m[4] and not m[5])


class SimManager:
    count = 0

    def __init__(self):
        SIM.event('pool', 'manager')
        SimManager.count += 1
        self.mid, self.n = SimManager.count, 0
        SIM.pool.managers.append(weakref.ref(self))     # its process ends when nothing refers to it any more
        self.ended = False

    def _new(self, o):
        self.n += 1
        OBJECTS[(self.mid, self.n)] = o
        return SimProxy(self.mid, self.n)

    def Value(self, typecode, value, lock=True): return self._new(_Value(value))
    def list(self, *a): return self._new(list(*a))
    def dict(self, *a, **k): return self._new(dict(*a, **k))
    def Lock(self): return self._new(_Lock())
    def RLock(self): return self._new(_Lock(True))

    def Queue(self, maxsize=0):
        import queue
        return self._new(queue.Queue(maxsize))

    def Event(self):
        import threading
        return self._new(threading.Event())

    def shutdown(self):
        self.ended = True
        for k in [k for k in OBJECTS if k[0] == self.mid]:
            del OBJECTS[k]

    def __enter__(self): return self
    def __exit__(self, *a): self.shutdown()


def managers():
    """Managers whose process is running"""
    return [m for m in (w() for w in SIM.pool.managers) if m is not None and not m.ended]


class SimPool:
    """multiprocessing.Pool over the simulated executor"""
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        self.ex = SimProcessPoolExecutor(processes, mp_context=context, initializer=initializer, initargs=initargs)

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        return _Async([self.ex.submit(func, *args, **kwds)], lambda r: r[0], callback, error_callback)

    def _many(self, fs, callback=None, error_callback=None):
        return _Async(fs, list, callback, error_callback)

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._many([self.ex.submit(func, e) for e in iterable], callback, error_callback)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._many([self.ex.submit(func, *e) for e in iterable], callback, error_callback)

    def apply(self, func, args=(), kwds={}): return self.apply_async(func, args, kwds).get()
    def map(self, func, iterable, chunksize=None): return self.map_async(func, iterable).get()
    def starmap(self, func, iterable, chunksize=None): return self.starmap_async(func, iterable).get()

    def imap(self, func, iterable, chunksize=1):
        fs = [self.ex.submit(func, e) for e in iterable]
        return (f.result() for f in fs)

    def imap_unordered(self, func, iterable, chunksize=1):
        fs = [self.ex.submit(func, e) for e in iterable]
        return (f.result() for f in _as_completed(fs))

    def close(self): self.ex.closed = True
    def join(self): self.ex.shutdown()

    def terminate(self):
        self.ex.closed, self.ex.queue = True, []
        self.ex._stop()

    def __enter__(self): return self
    def __exit__(self, *a): self.terminate()


class _Async:
    def __init__(self, fs, shape, callback, error_callback):
        self.fs, self.shape = fs, shape
        left = [len(fs)]

        def one(f):
            left[0] -= 1
            e = None if f.cancelled() else cf.Future.exception(f, 0)
            if e is not None and error_callback:
                error_callback(e)
            elif not left[0] and callback and all(cf.Future.exception(g, 0) is None for g in fs):
                callback(shape([cf.Future.result(g, 0) for g in fs]))
        for f in fs:
            f.add_done_callback(one)

    def ready(self):
        return all(f.done() for f in self.fs)

    def successful(self):
        return all(f.exception() is None for f in self.fs)

    def wait(self, timeout=None):
        _wait(self.fs, timeout)

    def get(self, timeout=None):
        try:
            _pump(lambda: all(cf.Future.done(f) for f in self.fs), timeout)
        except TimeoutError:
            raise multiprocessing.TimeoutError
        return self.shape([f.result() for f in self.fs])


class SimThreadPoolExecutor(cf.Executor):
    """Threads as tasks that run to their end, one after the other, in an order of the scheduler's choice"""
    def __init__(self, max_workers=None, thread_name_prefix='', initializer=None, initargs=()):
        self.n = max_workers or min(32, (os.cpu_count() or 1) + 4)
        self.queue, self.closed = [], False
        if initializer:
            initializer(*initargs)

    def submit(self, fn, /, *args, **kw):
        if self.closed:
            raise RuntimeError('cannot schedule new futures after shutdown')
        f = _ThreadFuture(self)
        self.queue.append((f, fn, args, kw))
        return f

    def _one(self):
        while self.queue:
            f, fn, args, kw = self.queue.pop(SIM.pool.rng.randrange(min(self.n, len(self.queue))))
            if f.set_running_or_notify_cancel():
                try:
                    f.set_result(fn(*args, **kw))
                except BaseException as e:
                    f.set_exception(e)
                return True
        return False

    def shutdown(self, wait=True, *, cancel_futures=False):
        self.closed = True
        while not cancel_futures and self._one():
            pass


class _ThreadFuture(cf.Future):
    def __init__(self, ex):
        super().__init__()
        self._ex = ex

    def _run(self):
        while not super().done() and self._ex._one():
            pass

    def result(self, timeout=None):
        self._run()
        return super().result(timeout)

    def exception(self, timeout=None):
        self._run()
        return super().exception(timeout)

    def done(self):
        self._run()
        return super().done()


def install():
    real_exec, real_mgr, real_wait, real_asc = cf.ProcessPoolExecutor, multiprocessing.Manager, cf.wait, cf.as_completed
    cf.ProcessPoolExecutor = cfp.ProcessPoolExecutor = SimProcessPoolExecutor
    multiprocessing.Manager = SimManager
    base = multiprocessing.context.BaseContext
    base.Manager = lambda ctx: SimManager()
    base.Pool = lambda ctx, processes=None, initializer=None, initargs=(), maxtasksperchild=None: SimPool(
        processes, initializer, initargs, maxtasksperchild, None if isinstance(ctx, multiprocessing.context.DefaultContext) else ctx)
    multiprocessing.Pool = multiprocessing.context._default_context.Pool
    import concurrent.futures.thread as cft
    cf.ThreadPoolExecutor = cft.ThreadPoolExecutor = SimThreadPoolExecutor
    cf.wait = lambda fs, timeout=None, return_when=cf.ALL_COMPLETED: _wait(fs, timeout, return_when)
    cf.as_completed = lambda fs, timeout=None: _as_completed(fs, timeout)
    REAL.update(executor=real_exec, manager=real_mgr, wait=real_wait, as_completed=real_asc)

"""Sessions: one simulated operating-system process of the user, forked from the pristine run process, with its
own seams, fault plan, clock and entropy. Only the scratch directory outlives it."""
import gc, hashlib, io, os, pickle, random, resource, select, signal, socket, struct, sys, tempfile, time, traceback

from . import seams, pool
from .seams import SIM, REAL, SimViolation

CPU_LIMIT = 60
MEMORY_LIMIT = 3 << 30
WALL_LIMIT = 240
OUT_OF_MEMORY = 97       # exit status of a session that used all memory
STATS = {'chain': '', 'sessions': 0, 'simtime': 0.0, 'events': 0, 'fired': {}, 'orders': set(), 'fingerprints': set()}


class HarnessError(Exception):
    pass


class Result:
    """Outcome of a session. status: 0, 1, 2, 130 (interrupted), 137 (killed), 'hang', 'crash', 'liveness'"""
    def __init__(self, d):
        self.__dict__.update(d)

    @property
    def ok(self):
        return self.status == 0


class S:
    """What a session body gets: ways to run commands as a user would."""
    def __init__(self):
        self.log = []

    def cli(self, argv):
        """The console script: sys.exit(main())"""
        import craterstats.cli as cli
        sys.argv = ['craterstats'] + list(argv)
        sys.exit(cli.main())

    def command(self, argv):
        """One of several commands in the same process. Returns (status, stdout)."""
        import craterstats.cli as cli
        old = sys.stdout
        sys.stdout = io.StringIO()
        try:
            try:
                st = _code(cli.main(list(argv)))
            except SystemExit as e:
                st = _code(e.code)
            except KeyboardInterrupt:
                st = 130
            except (SimViolation, HarnessError):
                raise
            except BaseException:
                st = 1
            gc.collect()
            text = sys.stdout.getvalue()
        finally:
            sys.stdout = old
        self.log.append((st, text))
        return st, text


def _code(c):
    if c is None:
        return 0
    if isinstance(c, int):
        return c & 255
    return 1


def _child(chan, body, spec, root):
    sys.stdin = io.StringIO('')
    out, err = io.StringIO(), io.StringIO()
    null = REAL['os.open'](os.devnull, os.O_RDWR)
    os.dup2(null, 1)
    os.environ.get("SIM_TB") or os.dup2(null, 2)
    sys.stdout, sys.stderr = out, err
    resource.setrlimit(resource.RLIMIT_CPU, (spec.get('cpu_limit', CPU_LIMIT), CPU_LIMIT * 4))
    resource.setrlimit(resource.RLIMIT_DATA, (MEMORY_LIMIT, MEMORY_LIMIT))
    os.chdir(os.path.join(root, spec.get('cwd', 'w')))
    SIM.reset()
    SIM.root, SIM.allowed = root, tuple(spec.get('allowed', ())) + (os.environ['MPLCONFIGDIR'],)
    SIM.repo = os.environ['VERIF_REPO']
    SIM.pid = spec.get('pid', 4000)
    SIM.cpu = spec.get('cpu', 4)
    SIM.clock0 = seams.T0 + spec.get('clock', 0)
    for f in spec.get('faults', ()):
        SIM.faults.setdefault(f['at'], []).append(f)
    for f in spec.get('sticky', ()):
        SIM.sticky.append(f)
    for f in spec.get('call_faults', ()):
        SIM.call_faults[f['at']] = f
    if spec.get('short_io') is not None:
        SIM.short_io = random.Random(spec['short_io'])
    SIM.bufsize = spec.get('bufsize')
    SIM.dirorder = spec.get('dirorder')
    if spec.get('observe'):
        SIM.obs['observe_spec'] = spec['observe']
    if spec.get('adv'):
        from . import adversary
        SIM.obs['adv_spec'] = spec['adv']
        if not spec['adv'].get('workers_only'):
            SIM.adv = adversary.make(spec['adv'], 0)
    if spec.get('draws'):
        SIM.draws = []
    for k, v in spec.get('env', {}).items():
        os.environ[k] = v
    for k in spec.get('unset', ()):
        os.environ.pop(k, None)
    SIM.encoding = spec.get('encoding')
    os.makedirs(root + '/tmp', exist_ok=True)
    tempfile.tempdir = root + '/tmp'
    seams.seed_process(spec.get('entropy', 1))

    def template(sock, setup):
        chan.sendall(_frame(('spawn', setup)))
        socket.send_fds(chan, [b'x'], [sock.fileno()])
        _read(chan)
    ps = dict(spec.get('pool', {}))
    SIM.pool = pool.PoolSettings(template=template, **ps)
    if spec.get('lock'):
        def lock(i, kind, path):
            chan.sendall(_frame(('ev', i, kind, path)))
            _read(chan)
        SIM.lock = lock
    s = S()

    def finish(status, value=None, tb=''):
        SIM.active = False
        seams.disable_calls()
        obs = {k: v for k, v in SIM.obs.items() if k not in ('adv_spec', 'observe_spec')}
        d = dict(status=status, value=value, out=out.getvalue(), err=err.getvalue(), tb=tb, events=SIM.events,
                 fired=SIM.fired, escapes=SIM.escapes, simtime=SIM.now, order=tuple(SIM.pool.order), computed=SIM.pool.computed,
                 ntask=SIM.pool.ntask, nmsg=SIM.pool.nmsg, nspawn=SIM.pool.nspawn, calls=SIM.calls, obs=obs, log=s.log, draws=SIM.draws,
                 shorts=SIM.short_count, digest=SIM.digest(), call_faults=bool(spec.get('call_faults')))
        pool.kill_all()
        try:
            b = _frame(('result', d))
        except MemoryError:
            raise
        except Exception as e:
            d['value'], d['obs'], d['tb'] = None, {}, 'unpicklable result: ' + repr(e)
            d['status'] = 'harness'
            b = _frame(('result', d))
        chan.sendall(b)
        os._exit(0)
    SIM.kill = lambda: finish(137, spec.get('partial') and spec['partial']())
    if spec.get('count_calls') or spec.get('call_faults'):
        seams.enable_calls(SIM.repo + '/src/craterstats', spec.get('grain') == 'fine')
    gc.disable()        # collections happen at fixed points only: files left open are closed there
    SIM.active = True
    status, value, tb = 0, None, ''

    def run():
        return body(s)
    try:
        try:
            value = run()
        except SystemExit as e:
            status = _code(e.code)
            if isinstance(e.code, str):
                err.write(e.code + '\n')
        except SimViolation as e:
            status, tb = 'liveness', str(e)
        except KeyboardInterrupt:
            status, tb = 130, traceback.format_exc()
        except HarnessError:
            status, tb = 'harness', traceback.format_exc()
        except BaseException:
            status, tb = 1, traceback.format_exc()
            err.write(tb)
        # interpreter exit: executors are joined, unreachable files are flushed and closed
        try:
            pool.drain()
        except SimViolation as e:
            status, tb = 'liveness', str(e)
        except BaseException:
            tb += traceback.format_exc()
        run = None
        try:
            gc.collect()
        except BaseException:
            pass
        sys.last_value = None
    finally:
        finish(status, value, tb)


def _frame(o):
    b = pickle.dumps(o)
    return struct.pack('<I', len(b)) + b


def _read(sock, deadline=None):
    def get(n):
        o = bytearray()
        while len(o) < n:
            if deadline is not None:
                r, _, _ = select.select([sock], [], [], max(0, deadline - REAL['clock:monotonic']()))
                if not r:
                    raise TimeoutError
            c = sock.recv(n - len(o))
            if not c:
                raise EOFError
            o += c
        return bytes(o)
    return pickle.loads(get(struct.unpack('<I', get(4))[0]))


class Live:
    """Parent-side handle of a running session."""
    def __init__(self, ctx, body, spec):
        self.spec = spec
        a, b = socket.socketpair()
        a.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 1 << 20)
        self.pid = os.fork()
        if self.pid == 0:
            try:
                a.close()
                _child(b, body, spec, ctx.root)
            except MemoryError:
                os._exit(OUT_OF_MEMORY)
            except BaseException:
                os.write(2, traceback.format_exc().encode())
            finally:
                os._exit(99)
        b.close()
        self.chan, self.kids, self.result = a, [], None
        self.deadline = REAL['clock:monotonic']() + WALL_LIMIT

    def next(self):
        """Next message that concerns the caller: ('ev', i, kind, path) or ('result', Result)"""
        while True:
            try:
                m = _read(self.chan, self.deadline)
            except TimeoutError:
                self._timeout()
                return self._done({'status': 'stuck'})
            except EOFError:
                _, st = os.waitpid(self.pid, 0)
                self.pid = None
                if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGXCPU:
                    return self._done({'status': 'hang'})
                if os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL):
                    return self._done({'status': 'crash', 'tb': f'signal {os.WTERMSIG(st)}'})
                if os.WIFEXITED(st) and os.WEXITSTATUS(st) == OUT_OF_MEMORY:
                    return self._done({'status': 'hang', 'tb': 'memory use grew without bound'})
                raise HarnessError(f'session ended without result: status {st}')
            if m[0] == 'spawn':
                fds = socket.recv_fds(self.chan, 1, 1)[1]
                pid = os.fork()
                if pid == 0:
                    try:
                        self.chan.close()
                        SIM.reset()
                        SIM.active = True
                        SIM.root = '/nonexistent'
                        SIM.allowed = ('/',)
                        SIM.cpu = self.spec.get('cpu', 4)
                        resource.setrlimit(resource.RLIMIT_DATA, (MEMORY_LIMIT, MEMORY_LIMIT))
                        pool.worker_main(socket.socket(fileno=fds[0]), m[1])
                    finally:
                        os._exit(98)
                os.close(fds[0])
                self.kids.append(pid)
                self.chan.sendall(_frame('ok'))
                continue
            if m[0] == 'result':
                return self._done(m[1])
            return m

    def go(self):
        self.chan.sendall(_frame('go'))

    def _timeout(self):
        cpu = _cpu_of_group()
        os.kill(self.pid, signal.SIGKILL)
        if cpu > 20:
            raise HarnessError(f'session exceeded the wall limit after {cpu:.0f} s of computing')

    def _done(self, d):
        base = dict(status=None, value=None, out='', err='', tb='', events=[], fired=[], escapes=[], simtime=0, order=(), computed=0,
                    ntask=0, nmsg=0, nspawn=0, calls=0, obs={}, log=[], draws=None, shorts=0, digest='', call_faults=False)
        base.update(d)
        self.chan.close()
        if self.pid:
            os.waitpid(self.pid, 0)
        for k in self.kids:
            try:
                os.kill(k, signal.SIGKILL)
            except ProcessLookupError:
                pass
            _, st = os.waitpid(k, 0)
        r = Result(base)
        if r.status == 'harness':
            raise HarnessError(r.tb)
        if r.status == 'stuck':
            r.tb = 'the process waited for something that cannot happen'
        self.result = r
        STATS['sessions'] += 1
        STATS['simtime'] += r.simtime
        STATS['events'] += len(r.events)
        for f in r.fired:
            STATS['fired'][f[0]] = STATS['fired'].get(f[0], 0) + 1
        if r.shorts:
            STATS['fired']['short_io'] = STATS['fired'].get('short_io', 0) + r.shorts
        if r.order:
            STATS['orders'].add(hash(r.order) & 0xffffffffffff)
        STATS['fingerprints'].add(r.digest)
        STATS['chain'] = hashlib.sha256(repr((STATS['chain'], r.digest, r.status, r.out, r.order, r.fired)).encode()).hexdigest()[:24]
        return ('result', r)


def _cpu_of_group():
    """CPU seconds used by our process group (processes we started)."""
    total, tick = 0.0, os.sysconf('SC_CLK_TCK')
    pg = os.getpgrp()
    for p in REAL['os.listdir']('/proc'):
        if p.isdigit():
            try:
                if os.getpgid(int(p)) != pg or int(p) == os.getpid():
                    continue
                with REAL['open'](f'/proc/{p}/stat') as f:
                    t = f.read().rsplit(')', 1)[1].split()
                total += (int(t[11]) + int(t[12])) / tick
            except (OSError, ProcessLookupError):
                pass
    return total


def run(ctx, body, **spec):
    m = Live(ctx, body, spec).next()
    assert m[0] == 'result', m
    return m[1]


def run_concurrent(ctx, sessions, choose):
    """Lock-step execution of several sessions. Each blocks before every file event; choose(ready) names the one
    that proceeds, ready being {index: (event number, kind, path)}. Returns (results, trace)."""
    live = {i: Live(ctx, b, dict(spec, lock=True, pid=4000 + i)) for i, (b, spec) in enumerate(sessions)}
    results, ready, trace = [None] * len(sessions), {}, []

    def advance(i):
        m = live[i].next()
        if m[0] == 'result':
            results[i] = m[1]
            ready.pop(i, None)
        else:
            ready[i] = m[1:]
    for i in live:
        advance(i)
    while ready:
        i = choose(dict(ready))
        trace.append((i,) + tuple(ready[i]))
        del ready[i]
        live[i].go()
        advance(i)
    return results, trace

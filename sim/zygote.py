"""Process that imports the code under test once (under one interpreter hash seed) and forks one process per run.

Reads JSON jobs from stdin, one per line: {"mod": check module, "fn": function, "arg": {...}, "root": dir}
Writes one JSON line per job."""
import gc, importlib, json, os, select, shutil, signal, subprocess, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx:
    def __init__(self, root, helpers):
        self.root, self.helpers = root, helpers

    def session(self, body, **spec):
        from . import session
        return session.run(self, body, **spec)

    def concurrent(self, sessions, choose):
        from . import session
        return session.run_concurrent(self, sessions, choose)

    def other(self, hashseed, mod, fn, arg):
        """Run fn in a process with another hash seed; same root directory."""
        from . import session
        h = self.helpers[hashseed % len(self.helpers)]
        h.stdin.write((json.dumps({'mod': mod, 'fn': fn, 'arg': arg, 'root': self.root, 'keep': True}) + '\n').encode())
        h.stdin.flush()
        r = json.loads(h.stdout.readline())
        if 'error' in r:
            raise session.HarnessError('helper: ' + r['error'])
        st = r['stats']
        session.STATS['chain'] += st['chain']
        session.STATS['sessions'] += st['sessions']
        session.STATS['simtime'] += st['simtime']
        session.STATS['events'] += st['events']
        for k, v in st['fired'].items():
            session.STATS['fired'][k] = session.STATS['fired'].get(k, 0) + v
        return r['result']

    def reset(self):
        """Empty the scratch directory (same path)."""
        if os.path.isdir(self.root):
            shutil.rmtree(self.root)
        os.makedirs(self.root + '/w')


def start(python, hashseed, scratch, repo, helpers=()):
    env = {k: v for k, v in os.environ.items() if not k.startswith(('PYTHON', 'CONDA', 'MPL'))}
    env.update(PYTHONHASHSEED=str(hashseed), PYTHONPATH=f'{repo}/src:{VERIF}', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
               OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1', SOURCE_DATE_EPOCH='1700000000',
               MPLCONFIGDIR=scratch + '/mpl', VERIF_REPO=repo, HOME=scratch + '/home', LC_ALL='C.UTF-8', TZ='UTC',
               SIM_HELPERS=','.join(map(str, helpers)), SIM_SCRATCH=scratch, COLUMNS='80')
    env.pop('PYTHONSTARTUP', None)
    def no_aslr():
        try:
            import ctypes
            ctypes.CDLL(None).personality(0x0040000)
        except Exception:
            pass
    return subprocess.Popen([python, '-s', '-m', 'sim.zygote'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd=VERIF, preexec_fn=no_aslr)


def prepare():
    from . import seams
    seams.install()
    from .checks import cli
    cli.HERE = cli.installation()
    import craterstats, craterstats.cli  # noqa: F401
    src = os.path.realpath(craterstats.__file__)
    assert src.startswith(os.path.realpath(os.environ['VERIF_REPO']) + '/'), src
    import matplotlib.figure
    import matplotlib.backends.backend_agg, matplotlib.backends.backend_svg, matplotlib.backends.backend_pdf  # noqa: F401
    import PIL.Image, PIL.PngImagePlugin, PIL.TiffImagePlugin  # noqa: F401
    import scipy.spatial, shapefile  # noqa: F401
    real = matplotlib.figure.Figure.savefig

    def savefig(self, fname, *a, dpi=None, **k):
        return real(self, fname, *a, dpi=min(dpi, 72) if isinstance(dpi, (int, float)) else 72, **k)
    matplotlib.figure.Figure.savefig = savefig
    import matplotlib.font_manager
    matplotlib.font_manager.fontManager
    from . import checks
    for f in sorted(os.listdir(os.path.dirname(checks.__file__))):
        if f.endswith('.py') and f != '__init__.py':
            importlib.import_module('sim.checks.' + f[:-3])


def child(job, w, helpers):
    from . import session
    import random
    os.setpgid(0, 0)
    ctx = Ctx(job['root'], helpers)
    try:
        if not job.get('keep'):
            ctx.reset()
        r = {'result': getattr(importlib.import_module('sim.checks.' + job['mod']), job['fn'])(ctx, job['arg'])}
    except BaseException:
        r = {'error': traceback.format_exc()}
    st = session.STATS
    r['stats'] = {**st, 'orders': sorted(st['orders']), 'fingerprints': sorted(st['fingerprints'])}
    with os.fdopen(w, 'wb') as f:
        f.write(json.dumps(r, default=_plain).encode())
    os._exit(0)


def _plain(o):
    import numpy as np
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (set, frozenset)):
        return sorted(o)
    return repr(o)


def main():
    out = os.fdopen(os.dup(1), 'wb')
    os.dup2(2, 1)
    scratch = os.environ['SIM_SCRATCH']
    prepare()
    helpers = [start(sys.executable, int(h), scratch, os.environ['VERIF_REPO']) for h in os.environ['SIM_HELPERS'].split(',') if h]
    gc.collect()
    gc.freeze()
    out.write(b'{"ready":1}\n')
    out.flush()
    for h in helpers:
        h.stdout.readline()
    for line in sys.stdin.buffer:
        job = json.loads(line)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                child(job, w, helpers)
            finally:
                os._exit(97)
        os.close(w)
        data, end = bytearray(), time.monotonic() + job.get('timeout', 800)
        timeout = False
        while True:
            ok, _, _ = select.select([r], [], [], max(0, end - time.monotonic()))
            if not ok:
                timeout = True
                break
            c = os.read(r, 1 << 16)
            if not c:
                break
            data += c
        os.close(r)
        try:
            os.killpg(pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        os.waitpid(pid, 0)
        if timeout:
            res = json.dumps({'error': 'run timed out', 'timeout': True}).encode()
        else:
            res = bytes(data) or json.dumps({'error': 'run process died'}).encode()
        if not job.get('keep') and os.path.isdir(job['root']):
            shutil.rmtree(job['root'], ignore_errors=True)
        out.write(res + b'\n')
        out.flush()
    for h in helpers:
        h.stdin.close()
        h.wait()


if __name__ == '__main__':
    from sim import zygote      # one module object under its importable name
    zygote.main()

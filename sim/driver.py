"""python -m sim.driver PROPERTY [quick|thorough]

Derives job plans from VERIF_SEED, runs them in simulation processes, minimises and replays what fails."""
import hashlib, importlib, json, os, queue, random, select, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = os.environ.get('VERIF_PYTHON') or '/opt/venv/bin/python'
REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
HARD_CAP = 700          # seconds of exploration after which no further job is issued


class Farm:
    def __init__(self, hashes, helpers=()):
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        self.base = tempfile.mkdtemp(prefix='cstsim-', dir=base)
        os.makedirs(self.base + '/home')
        src = os.environ.get('MPLCONFIGDIR', '/opt/mplconfig')
        if os.path.isdir(src):
            shutil.copytree(src, self.base + '/mpl')
        else:
            os.makedirs(self.base + '/mpl')
        from . import zygote
        self.hashes = hashes
        self.z = [zygote.start(PYTHON, h, self.base, REPO, helpers) for h in hashes]
        self.busy = [None] * len(self.z)
        for z in self.z:
            line = z.stdout.readline()
            if b'ready' not in line:
                self.close()
                raise RuntimeError('simulation process did not start (does the package import?)')

    def call(self, i, mod, fn, arg):
        """Blocking call on zygote i."""
        self.send(i, mod, fn, arg)
        return self.recv(i)

    def send(self, i, mod, fn, arg):
        # the same directory name everywhere, so that no run can depend on which process executed it
        root = f'{self.base}/z{i:02d}'
        self.z[i].stdin.write((json.dumps({'mod': mod, 'fn': fn, 'arg': arg, 'root': root}) + '\n').encode())
        self.z[i].stdin.flush()

    def recv(self, i):
        line = self.z[i].stdout.readline()
        if not line:
            return {'error': 'simulation process ended'}
        return json.loads(line)

    def close(self):
        for z in self.z:
            try:
                z.stdin.close()
            except OSError:
                pass
        for z in self.z:
            try:
                z.wait(5)
            except subprocess.TimeoutExpired:
                z.kill()
                z.wait()
        shutil.rmtree(self.base, ignore_errors=True)


def known():
    p = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(p):
        with open(p) as f:
            return [e for e in json.load(f) if isinstance(e, dict)]
    return []


def generic_shrink(plan):
    """Simpler plans: drop list elements anywhere, forget optional knobs."""
    def walk(node, path):
        if isinstance(node, dict):
            for k in sorted(node):
                yield from walk(node[k], path + [k])
        elif isinstance(node, list):
            if path and path[-1] in ('faults', 'ops', 'steps', 'sessions', 'events', 'interrupts', 'cmds', 'sticky', 'order', 'choices'):
                if len(node) > 3:
                    yield path, node[:len(node) // 2]
                    yield path, node[len(node) // 2:]
                for i in range(len(node)):
                    yield path, node[:i] + node[i + 1:]
            for i, v in enumerate(node):
                if isinstance(v, (dict, list)):
                    yield from walk(v, path + [i])
    for path, val in walk(plan, []):
        p = json.loads(json.dumps(plan))
        n = p
        for k in path[:-1]:
            n = n[k]
        n[path[-1]] = val
        yield p


def minimise(farm, i, mod, fn, v, module, budget=45):
    end = time.monotonic() + budget
    best, tried = v, 0
    shr = getattr(module, 'shrink', None)
    changed = True
    while changed and time.monotonic() < end:
        changed = False
        for cand in (list(shr(best['plan'])) if shr else []) + list(generic_shrink(best['plan'])):
            if time.monotonic() > end:
                break
            tried += 1
            r = farm.call(i, mod, fn, cand)
            hit = next((w for w in r.get('result', {}).get('violations', []) if w['kind'] == v['kind']), None)
            if hit and len(json.dumps(hit['plan'])) < len(json.dumps(best['plan'])):
                best, changed = hit, True
                break
    return best, tried


def main(argv):
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.monotonic()
    index = importlib.import_module('sim.index')
    entry = index.CHECKS[prop]
    rng = random.Random(f'{prop}:{seed}')
    print(f'{prop} tier={tier} VERIF_SEED={seed} repo={REPO}', flush=True)
    hashes = [0 if k == 0 else rng.randrange(1, 1 << 31) for k in range(entry.get('zygotes', 8))]
    helpers = [rng.randrange(1, 1 << 31) for _ in range(entry.get('helpers', 0))]
    farm = Farm(hashes, helpers)
    mod, fn = entry['mod'], entry.get('fn', 'run')
    jobs = list(entry['jobs'](random.Random(f'{prop}:{seed}:jobs'), tier))
    nz = len(farm.z)
    queues = [[(k, j) for k, j in enumerate(jobs) if k % nz == i] for i in range(nz)]
    results, errors, violations = {}, [], []
    agg = {'sessions': 0, 'simtime': 0.0, 'events': 0, 'fired': {}}
    orders, prints = set(), set()
    cases, samples, probes = [], [], {}
    first = [None]
    lock = threading.Lock()
    cap = float(os.environ.get('SIM_CAP', HARD_CAP if tier == 'quick' else 6 * 3600))
    det = {'reruns': 0, 'divergences': 0}

    kf = [e for e in known() if e['property'] == prop]

    def listed(v):
        return next((e for e in kf if e['kind'] == v['kind'] and e.get('sig', v.get('sig')) == v.get('sig')), None)

    def add(k, i, job, r):
        with lock:
            if 'error' in r:
                errors.append((k, r['error']))
                return
            st = r['stats']
            agg['sessions'] += st['sessions']
            agg['simtime'] += st['simtime']
            agg['events'] += st['events']
            for f, n in st['fired'].items():
                agg['fired'][f] = agg['fired'].get(f, 0) + n
            orders.update(st['orders'])
            prints.update(st['fingerprints'])
            res = r['result']
            cases.extend(res.get('cases', []))
            for p, n in res.get('probes', {}).items():
                probes[p] = probes.get(p, 0) + n
            if len(samples) < 6 and res.get('sample'):
                samples.append(res['sample'])
            for v in res.get('violations', []):
                violations.append((k, i, v))
                if first[0] is None and listed(v) is None:
                    first[0] = time.monotonic()
            results[k] = hashlib.sha256(json.dumps([st['chain'], res], sort_keys=True).encode()).hexdigest()

    def work(i):
        for k, job in queues[i]:
            if time.monotonic() - t0 > cap or (first[0] and time.monotonic() - first[0] > 10):
                return
            add(k, i, job, farm.call(i, mod, fn, job))
    threads = [threading.Thread(target=work, args=(i,)) for i in range(nz)]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    explored = time.monotonic() - t0
    # determinism: repeat a sample of the runs and compare their complete event logs
    if first[0] is None and not errors:
        for i in range(min(nz, 2 if tier == 'quick' else 8)):
            k, job = queues[i][0]
            if k in results:
                r = farm.call(i, mod, fn, job)
                det['reruns'] += 1
                if 'error' in r or hashlib.sha256(json.dumps([r['stats']['chain'], r['result']], sort_keys=True).encode()).hexdigest() != results[k]:
                    det['divergences'] += 1
    code, nviol = 0, 0
    seen = {}
    for k, i, v in sorted(violations, key=lambda e: e[0]):
        e = listed(v)
        if e:
            if e['kind'] not in seen:
                print(f"KNOWN-FINDING: property={prop} {e['what']}")
                seen[e['kind']] = 'known'
            continue
        nviol += 1
        if v['kind'] in seen or len([s for s in seen.values() if s != 'known']) >= 3:
            continue
        seen[v['kind']] = 'new'
        module = importlib.import_module('sim.index')
        best, tried = minimise(farm, i, mod, fn, v, entry.get('shrinker'), 45 if len(seen) == 1 else 15)
        path = write_replay(prop, seed, farm.hashes[i], helpers, mod, fn, best, tried)
        if not replay(path, quiet=True):
            path = write_replay(prop, seed, farm.hashes[i], helpers, mod, fn, v, 0)
            if not replay(path, quiet=True):
                print(f'NOT REPRODUCED in a fresh process: {v["kind"]}: {v["detail"][:2500]}')
                code = code or 2
                continue
            best = v
        print(f'  {best["kind"]}: {best["detail"][:1500]}')
        print(f'VIOLATION property={prop} replay={path}', flush=True)
        code = 1
    farm.close()
    if errors:
        for k, e in errors[:3]:
            print(f'HARNESS ERROR in job {k}: {json.dumps(jobs[k])[:300]}\n{e}', file=sys.stderr)
        if code == 0:
            code = 2
    done = len(results)
    if code == 0 and done < len(jobs) and done < entry.get('floor', 8):
        print(f'only {done} of {len(jobs)} jobs could be run', file=sys.stderr)
        code = 2
    wall = time.monotonic() - t0
    nontrivial = {c['key'] for c in cases if c.get('nt', True)}
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': entry.get('level', 'exploration'), 'wall_s': round(wall, 2), 'violations': nviol,
        'coverage': {
            'evaluations': len(cases), 'distinct_nontrivial': len(nontrivial), 'rule': entry['rule'],
            'samples': samples or [jobs[0]],
            'jobs_run': done, 'jobs_planned': len(jobs),
            'simulated_processes': agg['sessions'], 'file_and_pool_events': agg['events'],
            'simulated_runs_per_hour': round(len(cases) / max(explored, 1e-9) * 3600),
            'seeds_per_hour': round(done / max(explored, 1e-9) * 3600),
            'simulated_seconds': round(agg['simtime'], 1),
            'fault_kinds_fired': dict(sorted(agg['fired'].items())),
            'distinct_completion_orders': len(orders),
            'distinct_event_logs': len(prints),
            'distinct_measure': 'completion order of trials at the pool seam; digest of the complete file/pool event log of a simulated process',
            'probes': dict(sorted(probes.items())),
            'hash_seeds': hashes + helpers,
            'determinism_reruns': det['reruns'], 'determinism_divergences': det['divergences'],
            'real_code': entry.get('real', 'all of src/craterstats, numpy, scipy, shapely, spherely, pyproj, pyshp, matplotlib, argparse'),
            'stubs': entry.get('stubs', 'process pool and manager (workers are real forked processes under a simulated scheduler), clocks, entropy, '
                                        'pid, processor count, file operations at the io.FileIO/os level; image resolution reduced to 72 dpi'),
        },
        'assumptions': entry.get('assumptions', []) + ['process crash model: what was handed to the operating system survives, buffered data is lost; '
                                                      'power loss is not simulated'],
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f'{prop}: {len(cases)} simulated runs ({len(nontrivial)} distinct), {agg["sessions"]} processes, {done}/{len(jobs)} jobs, '
          f'faults {agg["fired"]}, probes {probes}, rerun divergences {det["divergences"]}/{det["reruns"]}, {wall:.0f} s')
    return code


def write_replay(prop, seed, h, helpers, mod, fn, v, tried):
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{prop}-{hashlib.sha256(json.dumps(v["plan"], sort_keys=True).encode()).hexdigest()[:10]}.json')
    with open(path, 'w') as f:
        json.dump({'property': prop, 'verif_seed': seed, 'hash': h, 'helpers': helpers, 'mod': mod, 'fn': fn, 'kind': v['kind'],
                   'detail': v['detail'], 'plan': v['plan'], 'minimisation_attempts': tried}, f, indent=1)
    return path


def replay(path, quiet=False):
    """Re-run a replay file in a fresh process. True if the same violation appears."""
    with open(path) as f:
        d = json.load(f)
    farm = Farm([d['hash']], d['helpers'])
    try:
        r = farm.call(0, d['mod'], d['fn'], d['plan'])
    finally:
        farm.close()
    if 'error' in r:
        if not quiet:
            print(r['error'])
        return False
    for v in r['result'].get('violations', []):
        if v['kind'] == d['kind']:
            if not quiet:
                print(f'{v["kind"]}: {v["detail"]}')
                print(f'same detail as recorded: {v["detail"] == d["detail"]}')
            return True
    return False


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))

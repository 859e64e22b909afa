"""Randomness analysis: scheduling, freshness, crash consistency, accumulation, progress, concurrent users."""
import json, os, random

import numpy as np

from .. import data, faults, geom, pool
from ..data import BadFile

FILE = 'w/a_ra.txt'
MIN_COUNT = {'m2cnd': 3, 'sdaa': 4}
REGION_NAMES = ('box', 'north', 'wide', 'tri', 'hole', 'antarctic', 'sliver', 'bulge', 'dip', 'anti', 'anti2', 'tip', 'holes')


def source(plan):
    return data.ra_source(plan['seed'], plan.get('region', 'box'), plan.get('big', False))


def setup(ctx, plan):
    ctx.reset()
    data.put(ctx.root, {'w/a.scc': source(plan)})


def craters(plan):
    """[(diam, lon, lat)] as written in the source."""
    rows, on = [], False
    for line in source(plan).split('\n'):
        if line.startswith('crater = {'):
            on = True
        elif on and line.strip() and line[0] != '}':
            rows.append(tuple(map(float, line.split())))
    return rows


def bins(plan):
    """{bin label: [(lon, lat)]} of root-2 bins"""
    out = {}
    for d, x, y in craters(plan):
        k = np.floor(np.log2(d) * 2) / 2
        out.setdefault(f'{k:.3g}', []).append((x, y))
    return out


def expected_bins(plan, measure):
    return {b for b, p in bins(plan).items() if len(p) >= MIN_COUNT[measure]}


def cmd(trials, measures=None, extra=(), img='svg'):
    c = ['-ra', 'a.scc', '-trials', str(trials), '-select', '0', '-f', img]
    if measures:
        c += ['-measure', measures]
    return c + list(extra)


def readf(ctx, rel=FILE):
    p = os.path.join(ctx.root, rel)
    return data.read_ra(p) if os.path.exists(p) else None


def describe(r):
    return f'status {r.status}, fired {r.fired}, message {(r.err or r.tb)[-300:]!r}'


def V(kind, detail, plan, **change):
    return {'kind': kind, 'detail': detail, 'plan': {**plan, **change}}


def same(a, b):
    return a is not None and b is not None and set(a['measures']) == set(b['measures']) and all(data.ra_same(a, b, m) for m in a['measures'])


def score_close(a, b):
    if a == b:
        return True
    try:
        a, b = float(a), float(b)
    except ValueError:
        return False
    return abs(a - b) <= 2e-3 * max(1, abs(a)) or (a != a and b != b)


def close_m(a, b, m):
    """Same recorded results of measure m; scores may differ in the last digit (trials are recorded with 7 digits and read back)."""
    if m not in a['measures'] or m not in b['measures'] or a['measures'][m] != b['measures'][m]:
        return False
    x, y = ({k: v for k, v in f['scores'][m].items() if v != '-'} for f in (a, b))
    return set(x) == set(y) and all(score_close(x[k], y[k]) for k in x)


def close(a, b):
    return a is not None and b is not None and set(a['measures']) == set(b['measures']) and all(close_m(a, b, m) for m in a['measures'])


def restore(ctx, snap):
    ctx.reset()
    data.put(ctx.root, {k: v[1] for k, v in snap.items() if v[0] == 'file'})


def diff(a, b):
    if a is None or b is None:
        return 'no file on one side'
    for m in sorted(set(a['measures']) | set(b['measures'])):
        if m not in a['measures'] or m not in b['measures']:
            return f'{m} missing on one side'
        x, y = a['measures'][m], b['measures'][m]
        if x['n'] != y['n']:
            return f'{m}: {x["n"]} and {y["n"]} trials'
        if set(x['trials']) != set(y['trials']):
            return f'{m}: bins {sorted(x["trials"])} and {sorted(y["trials"])}'
        for b_ in x['trials']:
            if x['trials'][b_] != y['trials'][b_]:
                i = next(i for i, (u, v) in enumerate(zip(x['trials'][b_], y['trials'][b_])) if u != v)
                srt = sorted(x['trials'][b_]) == sorted(y['trials'][b_])
                return f'{m} bin {b_}: trial {i} is {x["trials"][b_][i]} and {y["trials"][b_][i]}' + (' (same values in another order)' if srt else '')
        if a['scores'][m] != b['scores'][m]:
            return f'{m}: scores {a["scores"][m]} and {b["scores"][m]}'
    return 'no difference'


def complete(f, plan, where):
    """Every recorded measure is complete for its stated number of trials (the parser checked the counts)."""
    for m in f['measures']:
        if m in MIN_COUNT and set(f['measures'][m]['trials']) != expected_bins(plan, m):
            return f'{where}: {m} records bins {sorted(f["measures"][m]["trials"])}, the count has {sorted(expected_bins(plan, m))}'
    return None


# ------------------------------------------------------------------------------------------- C01
def c01_jobs(rng, tier):
    n = 64 if tier == 'quick' else 2400
    for k in range(n):
        runs = []
        for _ in range(5):
            runs.append({'cpu': rng.choice((1, 2, 3, 4, 5, 8, 16)), 'start': rng.choice(('fork', 'fork', 'spawn')), 'profile': rng.choice(pool.PROFILES),
                         'pool': rng.randrange(1 << 30), 'hash': rng.choice((None, None, 0, 1)), 'entropy': rng.randrange(1 << 30),
                         'clock': rng.choice((0, 10 ** 7, -10 ** 8)), 'dirorder': rng.randrange(99), 'via': rng.choice(('cli', 'cli', 'object', 'listener')), 'before': rng.choice((0, 0, 0, 4))})
        p = {'seed': rng.randrange(1 << 30), 'region': rng.choice(REGION_NAMES), 'trials': rng.choice((6, 9, 13)),
             'measures': rng.choice(('m2cnd', 'sdaa', 'm2cnd,sdaa', None)), 'runs': runs, 'big': rng.random() < .3}
        if k % 8 == 3:      # many trials: batches, periods and limits of a larger analysis
            p.update(trials=rng.choice((40, 70, 130)), measures='m2cnd', runs=runs[:2], big=False)
            runs[0]['cpu'], runs[1]['cpu'] = rng.sample((1, 2, 3, 5, 8, 16), 2)
        if k % 16 == 11:    # many craters
            p.update(trials=rng.choice((3, 5)), measures='m2cnd', runs=runs[:3], big='dense', region=rng.choice(('box', 'north', 'wide', 'hole')))
        yield p


def one_analysis(ctx, arg):
    plan, run = arg['plan'], arg['run']
    setup(ctx, plan)
    if run.get('before'):       # a smaller analysis came first
        ctx.session(lambda s: s.cli(cmd(min(run['before'], plan['trials'] - 1), plan['measures'])), cpu=run['cpu'], pool={'seed': run['pool'] + 1, 'profile': run['profile'], 'start': run['start']})
    body = lambda s: s.cli(cmd(plan['trials'], plan['measures']))
    if run.get('via', 'cli') != 'cli':      # as the graphical front end does
        body = analyse(plan, [(plan['trials'], m) for m in sorted((plan['measures'] or 'm2cnd,sdaa').split(','))], Listener if run['via'] == 'listener' else None)
    r = ctx.session(body, cpu=run['cpu'], entropy=run['entropy'], clock=run['clock'], dirorder=run['dirorder'],
                    pool={'seed': run['pool'], 'profile': run['profile'], 'start': run['start']})
    try:
        f = readf(ctx)
        bad = None
    except BadFile as e:
        f, bad = None, str(e)
    return {'status': r.status, 'file': f, 'bad': bad, 'err': describe(r), 'order': list(r.order)}


BASE_RUN = {'cpu': 1, 'start': 'fork', 'profile': 'lockstep', 'pool': 0, 'hash': None, 'entropy': 7, 'clock': 0, 'dirorder': 0, 'via': 'cli', 'before': 0}


def c01(ctx, plan):
    out, cases = [], []
    base = one_analysis(ctx, {'plan': plan, 'run': BASE_RUN})
    if base['status'] or base['file'] is None:
        return {'violations': [V('undisturbed analysis fails', f'one worker: {base["err"]} {base["bad"]}', plan, runs=[])], 'cases': []}
    for run in plan['runs']:
        a = {'plan': plan, 'run': run}
        r = one_analysis(ctx, a) if run['hash'] is None else ctx.other(run['hash'], 'ra', 'one_analysis', a)
        cases.append({'key': json.dumps([run['cpu'], run['start'], run['profile'], r['order']]), 'nt': r['order'] != sorted(r['order']) or run['hash'] is not None})
        if r['status'] or r['file'] is None:
            out.append(V('analysis fails under another schedule', f'{run}: {r["err"]} {r["bad"]}', plan, runs=[run]))
        elif not same(base['file'], r['file']):
            out.append(V('results depend on the schedule', f'{run} against one worker: {diff(base["file"], r["file"])}', plan, runs=[run]))
    return {'violations': out, 'cases': cases, 'sample': plan['runs'][0],
            'probes': {'completed out of order': sum(c['nt'] for c in cases)}}


def c01_shrink(plan):
    for k, v in (('measures', 'm2cnd'), ('trials', 6), ('big', False), ('region', 'box')):
        if plan.get(k) != v:
            yield {**plan, k: v}
    for i, r in enumerate(plan['runs']):
        for k, v in BASE_RUN.items():
            if r.get(k) != v:
                yield {**plan, 'runs': plan['runs'][:i] + [{**r, k: v}] + plan['runs'][i + 1:]}


# ------------------------------------------------------------------------------------------- API session
def analyse(plan, steps, listener=None, observe=False):
    """Body of a session that drives the analysis object as the graphical front end does."""
    def body(s):
        import craterstats as cst
        q = listener() if listener else None
        ra = cst.Randomnessanalysis('a.scc', out=plan.get('out'), progress_queue=q)
        rep = []
        for trials, measure in steps:
            n0 = len(q.log) if q else 0
            try:
                ra.run_montecarlo(trials, measure)
                st = 'ok'
            except KeyboardInterrupt:
                st = 'KeyboardInterrupt'
            except Exception as e:
                st = type(e).__name__ + ': ' + str(e)[:100]
            m = ra.montecarlo.get(measure)
            if m is not None and st == 'ok':
                ra.calculate_stats()
                ra.write()
            rep.append({'st': st, 'n': m and int(m['n_trials']), 'trials': m and {b: [float(x) for x in v] for b, v in m.get('trials', {}).items()},
                        'others': sorted(ra.montecarlo), 'computed': _computed(), 'log': q.log[n0:] if q else None,
                        'stats': {b: (float(t.m0), float(t.n_sigma)) for b, t in m['stats'].items()} if m and 'stats' in m else None})
        return rep
    return body


def _computed():
    from ..seams import SIM
    return SIM.pool.computed


# ------------------------------------------------------------------------------------------- C02
def c02_jobs(rng, tier):
    n = 160 if tier == 'quick' else 6000
    for k in range(n):
        uniform, long = k % 10 == 0, k % 20 == 7
        if long:        # many cheap trials: streams that repeat after a while
            yield {'seed': rng.randrange(1 << 30), 'region': rng.choice(REGION_NAMES[:5]), 'uniform': False, 'long': True, 'trials': rng.choice((300, 530) if k % 40 == 7 else (1030,)),
                   'n': 4, 'measures': 'm2cnd', 'cpu': rng.choice((1, 3, 9, 16)), 'start': 'fork', 'profile': rng.choice(pool.PROFILES), 'pool': rng.randrange(1 << 30)}
            continue
        yield {'seed': rng.randrange(1 << 30), 'd0': rng.choice((1.0, 1.0, .03125, .125, .5)), 'region': (('tiny',) + REGION_NAMES + ('two',))[k // 10 % 15] if uniform else rng.choice(REGION_NAMES), 'uniform': uniform,
               'trials': (160 if tier == 'quick' else 400) if uniform else rng.choice((7, 12, 16)), 'n': rng.choice((70, 80)) if uniform else rng.choice((4, 5, 6, 9)),
               'measures': rng.choice(('m2cnd', 'sdaa')), 'cpu': rng.choice((1, 2, 3, 5, 9)), 'start': rng.choice(('fork', 'spawn')),
               'profile': rng.choice(pool.PROFILES), 'pool': rng.randrange(1 << 30), 'before': 0 if uniform else rng.choice((0, 0, 0, 5))}


def c02_source(plan):
    # bins with the same number of craters, so that a stream that ignores the bin would repeat itself
    n = plan['n']
    b = [(.125, n)] if plan.get('uniform') else [(1.0, n), (2.0, n)][:2 if plan['trials'] < 1000 else 1] if plan.get('long') else [(1.0, n), (2 ** .5, n), (2.0, n), (2 * 2 ** .5, n + 1)]
    if 'd0' in plan and not plan.get('uniform'):
        b = [(d * plan['d0'], k) for d, k in b]
    return data.scc(plan['region'], b, plan['seed'])


def c02(ctx, plan):
    ctx.reset()
    data.put(ctx.root, {'w/a.scc': c02_source(plan)})
    if plan.get('before'):      # fewer trials are recorded already
        ctx.session(analyse(plan, [(plan['before'], plan['measures'])]), cpu=2, pool={'seed': plan['pool'] + 1})
    r = ctx.session(analyse(plan, [(plan['trials'], plan['measures'])]), cpu=plan['cpu'], observe={'points': True},
                    pool={'seed': plan['pool'], 'profile': plan['profile'], 'start': plan['start']})
    cases = [{'key': json.dumps([plan['cpu'], plan['start'], list(r.order)]), 'nt': True}]
    out = []
    if r.status or not r.value or r.value[0]['st'] != 'ok':
        return {'violations': [V('undisturbed analysis fails', describe(r) + str(r.value and r.value[0]['st']), plan)], 'cases': cases}
    tr = r.value[0]['trials']
    seen, last, tol = {}, None, 0 if plan.get('long') else 1e-11     # a moved or mirrored copy has the same value but for rounding
    for x, b, i in sorted((x, b, i) for b, v in tr.items() for i, x in enumerate(v)):
        last = last if last is not None and x - last <= tol * x else x
        seen.setdefault(last, []).append((b, i))
    rep = [w for w in seen.values() if len(w) > 1]
    within = [w for w in rep if len({b for b, _ in w}) < len(w)]
    across = [w for w in rep if len({b for b, _ in w}) > 1]
    if within:
        out.append(V('trials repeated within a bin', f'{len(within)} values occur more than once, e.g. (bin, trial) {within[0][:4]}', plan))
    if len(across) > 1:
        out.append(V('trial series copied between bins', f'{len(across)} values shared, e.g. (bin, trial) {across[0][:4]}', plan))
    if plan.get('before'):      # trials read back have seven digits
        for b, v in tr.items():
            q = sorted(v)
            same = sum(y - x <= 6e-7 * y for x, y in zip(q, q[1:]))
            if same > 2:
                out.append(V('trials repeated within a bin', f'{same} values of bin {b} occur more than once after an analysis extended an earlier one', plan))
    pts, confs = [], {}
    for task, t in r.obs.get('trials', []):
        if 'pts' in t:
            pts += t['pts']
            confs.setdefault((t.get('diam'), tuple(sorted(t['pts']))), []).append(task)
    dup = [c for c in confs.values() if len(c) > 1]
    if dup:
        out.append(V('trials repeated within a bin', f'identical configurations of one bin in tasks {dup[0]}', plan))
    probes = {'trials recorded': sum(len(v) for v in tr.values()), 'points observed': len(pts)}
    if plan['uniform'] and len(pts) > 500:
        d = uniformity(plan['region'], pts)
        if d:
            out.append(V('simulated craters not uniform by area', d, plan))
        probes['uniformity tests'] = 1
    return {'violations': out, 'cases': cases, 'probes': probes, 'sample': {k: plan[k] for k in ('region', 'trials', 'n', 'cpu', 'start', 'profile', 'pool')}}


def uniformity(region, pts):
    """Counts in cells (by latitude, longitude and both) against the cells' share of the region's area; 6 sigma."""
    rings = data.REGIONS[region]
    R = geom.Region(rings)
    mid = np.degrees(np.arctan2(R.c[1], R.c[0]))
    turn = lambda x: (np.asarray(x) - mid + 180) % 360 - 180 + mid      # longitudes around the middle of the region
    xs = turn([x for _, p in rings for x, _ in p])
    ys = [y for _, p in rings for _, y in p]
    if region in data.SPHERICAL:
        ys += [min(ys) - 6, max(ys) + 6]
    pad = min(3, .2 * max(max(xs) - min(xs), max(ys) - min(ys)))
    gx, gy = np.linspace(min(xs) - pad, max(xs) + pad, 700), np.linspace(max(min(ys) - pad, -89.9), min(max(ys) + pad, 89.9), 700)
    X, Y = np.meshgrid(gx, gy)
    w = np.where(R.contains(X, Y), np.cos(np.radians(Y)), 0)
    p = np.array(pts)
    p[:, 0] = turn(p[:, 0])
    M = len(p)
    for name, g, c in (('latitude', Y, p[:, 1]), ('longitude', X, p[:, 0])):
        for lo, hi in ((0, .5), (0, .25), (.25, .5), (.5, .75), (.75, 1), (0, .1), (.9, 1)):
            a, b = g[w > 0].min(), g[w > 0].max()
            l, h = a + (b - a) * lo, a + (b - a) * hi
            e = w[(g >= l) & (g < h)].sum() / w.sum()
            if e < .01:
                continue
            o = ((c >= l) & (c < h)).mean()
            sd = np.sqrt(e * (1 - e) / M) + 1e-3
            if abs(o - e) > 6 * sd:
                return f'{region}: {o:.4f} of {M} points at {name} {l:.2f}..{h:.2f}, share of area {e:.4f}'
        # Kolmogorov-Smirnov against the distribution of area (4e-9, plus what the grid may be off)
        q = np.argsort(g[w > 0])
        x, cum = g[w > 0][q], np.cumsum(w[w > 0][q]) / w.sum()
        D = np.abs(np.searchsorted(np.sort(c), x, 'right') / M - cum).max()
        if D > 3.15 / np.sqrt(M) + 4e-3:
            return f'{region}: distribution of {M} points over {name} differs by {D:.4f} from that of the area'
        # no strip of noticeable area stays empty
        u = np.concatenate([[0], np.interp(np.sort(c), x, cum), [1]])
        k = int(np.argmax(np.diff(u)))
        if u[k + 1] - u[k] > 32 / M + 4e-3:
            return f'{region}: no point of {M} in a strip of {name} that holds {u[k + 1] - u[k]:.4f} of the area'
    # both together: quarters of the area by latitude, crossed with quarters by longitude
    cuts = []
    for g in (Y, X):
        q = np.argsort(g[w > 0])
        cum = np.cumsum(w[w > 0][q]) / w.sum()
        cuts.append([g[w > 0][q][np.searchsorted(cum, f)] for f in (.25, .5, .75)])
    cell = lambda x, y: 4 * np.digitize(y, cuts[0]) + np.digitize(x, cuts[1])
    e = np.bincount(cell(X[w > 0], Y[w > 0]), w[w > 0], 16) / w.sum()
    o = np.bincount(cell(p[:, 0], p[:, 1]), minlength=16) / M
    k = np.argmax(np.abs(o - e) / (np.sqrt(e * (1 - e) / M) + 2e-3))
    if abs(o[k] - e[k]) > 6 * np.sqrt(e[k] * (1 - e[k]) / M) + 8e-3:
        return f'{region}: {o[k]:.4f} of {M} points in quarter {k // 4} by latitude and {k % 4} by longitude, share of area {e[k]:.4f}'
    return None


def c02_shrink(plan):
    for k, v in (('cpu', 1), ('start', 'fork'), ('profile', 'lockstep'), ('pool', 0), ('region', 'box')):
        if plan.get(k) != v:
            yield {**plan, k: v}


# ------------------------------------------------------------------------------------------- C03
def c03_jobs(rng, tier):
    n = 600 if tier == 'quick' else 20000
    for k in range(n):
        region = rng.choice(REGION_NAMES)       # and a diameter that leaves it far from saturation
        if k % 25 == 9:         # a long streak of useless numbers
            yield {'seed': rng.randrange(1 << 30), 'region': rng.choice(('box', 'tri', 'hole', 'two')), 'trials': 2, 'measures': 'm2cnd', 'diam': 4.0, 'n': 5,
                   'adv': {'seed': rng.randrange(1 << 30), 'p': 1, 'budget': rng.choice((120, 300, 700)), 'modes': ['fixed']}}
            continue
        yield {'seed': rng.randrange(1 << 30), 'region': region, 'trials': 14, 'measures': ('m2cnd', 'sdaa')[k % 2], 'outside': 0 if region in data.SPHERICAL else rng.choice((0, 0, 0, 1, 2, 3)),
               'diam': rng.choice((1.0, 2.0) if region == 'sliver' else (1.0, 2.0, 8.0, 16.0)), 'n': rng.choice((4, 5, 7, 12, 20)), 'adv': {'seed': rng.randrange(1 << 30), 'p': rng.choice((0, .5, .8, 1)),
                                                                                                'budget': rng.choice((4, 10))}}


def c03_source(plan):
    n, k = plan['n'], plan.get('outside', 0)
    s = data.scc(plan['region'], [(plan['diam'], n), (plan['diam'] * 2 ** .5, 3)], plan['seed'])
    if k:       # craters across the boundary whose centres lie outside, one possibly hidden behind another
        rng = random.Random(plan['seed'])
        pts = [p for _, r in data.REGIONS[plan['region']] for p in r]
        x, y = max(x for x, _ in pts), sum(y for _, y in pts) / len(pts)
        w = x - min(x for x, _ in pts)
        more = [(plan['diam'] * 1.01, x + w * (.02 + rng.uniform(.02, .3) * (i + 1)), y + rng.uniform(-.02, .02) * w) for i in range(k)]
        i = s.index('crater = {diam, lon, lat\n') + len('crater = {diam, lon, lat\n')
        s = s[:i] + ''.join(f'{d:.9g}\t{(a + 180) % 360 - 180:.12f}\t{max(-89.9, min(89.9, b)):.12f}\n' for d, a, b in more) + s[i:]
    return s


def c03(ctx, plan):
    ctx.reset()
    src = c03_source(plan)
    data.put(ctx.root, {'w/a.scc': src})
    adv = {**plan['adv'], 'workers_only': True}
    r = ctx.session(analyse_neighbours(plan), cpu=4, adv=adv, observe={'points': True}, pool={'seed': plan['seed']})
    cases, out = [], []
    if r.status == 'hang' or r.obs.get('worker_hang'):
        return {'violations': [V('trial never completes', 'a trial used more than 60 s of processor time although the unlucky draws had ended', plan)], 'cases': []}
    if r.status or r.value['st'] != 'ok':
        return {'violations': [V('analysis fails for some random numbers', describe(r) + str(r.value and r.value['st']), plan)], 'cases': []}
    rings = data.REGIONS[plan['region']]
    R = geom.Region(rings)
    rad = 1737.4
    for task, t in r.obs.get('trials', []):
        if 'pts' not in t:
            continue
        lon, lat = np.array(t['pts']).T
        cases.append({'key': json.dumps([plan['adv'], plan['region'], task]), 'nt': plan['adv']['p'] > 0})
        bins = {b for b, v in r.value['trials'].items() if t.get('m') in v}     # the bin this was recorded for
        if len(bins) == 1:
            b = bins.pop()
            t['n'], t['diam'] = len(observed(src, b)), 2 ** (round(2 * float(b)) / 2)
        if 'n' not in t:
            continue
        where = f'{plan["region"]}, trial task {task}, n={t["n"]}, d={t["diam"]:.4g}'
        if len(lon) != t['n']:
            out.append(V('wrong number of simulated craters', f'{where}: {len(lon)} craters', plan))
        mg = R.margin(lon, lat)
        if mg.min() < -1e-9:
            out.append(V('simulated crater outside the region', f'{where}: {t["pts"][int(mg.argmin())]}', plan))
        v = geom.vec(lon, lat)
        d = geom.dist(v[:, None], v[None]) * rad
        np.fill_diagonal(d, 1e9)
        if d.min() < t['diam'] / 2 * (1 - 1e-7):
            out.append(V('simulated craters too close', f'{where}: {d.min():.6g} km apart, at least {t["diam"] / 2:.6g} required', plan))
        if 'm' in t:
            e = check_measure(plan['measures'], R, lon, lat, rad, t['m'])
            if e:
                out.append(V(f'{plan["measures"]} of a simulated configuration wrong', f'{where}: {e}', plan))
    # observed configuration
    for b, st in r.value['stats'].items():
        given = r.value['pts'][b]
        pts = given if given is not None else observed(src, b)
        if not pts:
            continue
        lon, lat = np.array(pts).T
        e = check_measure(plan['measures'], R, lon, lat, rad, st['m0'])
        if e:
            out.append(V(f'{plan["measures"]} of the observed configuration wrong', f'bin {b}: {e}', plan))
        want = observed(src, b)
        if len(pts) != len(want) or any(min(abs(x - u) + abs(y - w) for u, w in want) > 1e-7 for x, y in pts) or \
                any(min(abs(x - u) + abs(y - w) for u, w in pts) > 1e-7 for x, y in want):
            out.append(V('wrong craters assigned to a bin', f'bin {b}: {len(pts)} craters, {len(want)} in the count', plan))
        if given is not None and plan['measures'] == 'm2cnd' and st['p2'] is not None:
            nb = geom.vec(*np.array(st['p2']).T)
            got = geom.dist(geom.vec(lon, lat), nb)
            ref = geom.second_nearest(lon, lat)
            if np.abs(got - ref).max() * rad > 1e-5:
                out.append(V('wrong neighbour found', f'bin {b}: distances {(got * rad).round(5).tolist()} against {(ref * rad).round(5).tolist()}', plan))
    return {'violations': out[:3], 'cases': cases, 'probes': {'configurations checked': len(cases)}, 'sample': plan}


def observed(src, b):
    rows, on = [], False
    for line in src.split('\n'):
        if line.startswith('crater = {'):
            on = True
        elif on and line.strip() and line[0] != '}':
            d, x, y = map(float, line.split())
            if f'{np.floor(np.log2(d) * 2) / 2:.3g}' == b:
                rows.append((x, y))
    return rows


def check_measure(kind, R, lon, lat, rad, got):
    if kind == 'm2cnd':
        ref = float(np.mean(geom.second_nearest(lon, lat)) * rad)
        tol = 1e-6 * rad * 1e-2
    elif kind == 'sdaa':
        cells = R.cells(lon, lat) * rad ** 2
        total = R.area() * rad ** 2
        if abs(cells.sum() - total) > 1e-6 * total:
            return None             # the model itself is ill-conditioned here
        ref, tol = float(np.std(cells)), 1e-5 * total
    else:
        return None
    if not abs(got - ref) <= tol + 1e-6 * abs(ref):
        return f'reported {got:.9g}, computed directly {ref:.9g}'
    return None


def analyse_neighbours(plan):
    def body(s):
        import craterstats as cst
        import spherely as sph
        ra = cst.Randomnessanalysis('a.scc')
        st, stats, pts = 'ok', {}, {}
        try:
            ra.run_montecarlo(plan['trials'], plan['measures'])
            ra.calculate_stats()
            for b, t in ra.montecarlo[plan['measures']]['stats'].items():
                try:
                    pts[b] = [(sph.get_x(e), sph.get_y(e)) for e in ra.get_bin_craters(b)[0]]
                except Exception:       # not accessible: the measure is compared with the positions in the count
                    pts[b] = None
                stats[b] = {'m0': float(t.m0), 'p2': [(sph.get_x(e), sph.get_y(e)) for e in t.p2] if plan['measures'] == 'm2cnd' else None}
        except Exception as e:
            st = type(e).__name__ + ': ' + str(e)[:200]
        return {'st': st, 'stats': stats, 'pts': pts, 'trials': {b: [float(x) for x in v] for b, v in ra.montecarlo.get(plan['measures'], {}).get('trials', {}).items()}}
    return body


def c03_shrink(plan):
    for k, v in (('diam', 1.0), ('region', 'box'), ('n', 4)):
        if plan.get(k) != v:
            yield {**plan, k: v}
    for k, v in (('p', 0), ('budget', 4)):
        if plan['adv'][k] != v:
            yield {**plan, 'adv': {**plan['adv'], k: v}}


# ------------------------------------------------------------------------------------------- C04
SECOND = (((6, 'm2cnd'), (9, 'm2cnd')), ((6, 'm2cnd,sdaa'), (9, 'm2cnd,sdaa')), ((6, 'm2cnd'), (6, 'sdaa')), ((6, 'sdaa'), (8, 'm2cnd,sdaa')),
          ((9, 'm2cnd,sdaa'), (6, 'sdaa')), ((6, 'm2cnd,sdaa'), (9, 'sdaa')), ((8, 'sdaa'), (8, None)), ((7, None), (10, None)))
RA_FAULTS = ('kill', 'kill', 'kill', 'interrupt', 'full', 'error', 'torn', 'call', 'task', 'death', 'spawn')


def c04_jobs(rng, tier):
    n = 40 if tier == 'quick' else 3000
    for k in range(n):
        first, second = SECOND[k % len(SECOND)]
        yield {'seed': rng.randrange(1 << 30), 'region': rng.choice(('box', 'north', 'tri', 'hole')), 'first': first, 'second': second, 'pool': rng.randrange(1 << 30),
               'profile': rng.choice(pool.PROFILES), 'cpu': rng.choice((1, 2, 4)), 'bufsize': rng.choice((None, None, 256)), 'big': False,
               'faults': [dict(faults.choose(rng, RA_FAULTS), ra=rng.random() < .55) for _ in range(14)]}


def versions(ctx, body, spec, rel=FILE):
    """Run a writer alone; return (result, distinct contents of the results file it went through)."""
    seen = []
    p = os.path.join(ctx.root, rel)

    def look():
        if os.path.exists(p):
            with open(p, 'rb') as f:
                b = f.read()
            if not seen or seen[-1] != b:
                seen.append(b)

    def choose(ready):
        look()
        return min(ready)
    res, _ = ctx.concurrent([(body, spec)], choose)
    look()
    return res[0], seen


def c04(ctx, plan):
    setup(ctx, plan)
    base = {'cpu': plan['cpu'], 'bufsize': plan['bufsize'], 'pool': {'seed': plan['pool'], 'profile': plan['profile']}}
    c1, c2 = cmd(*plan['first']), cmd(*plan['second'])
    r1 = ctx.session(lambda s: s.cli(c1), **base)
    old, bad = _try(ctx)
    if r1.status or old is None:
        return {'violations': [V('undisturbed analysis fails', f'{describe(r1)} {bad}', plan, faults=[])], 'cases': []}
    start = data.snap(ctx.root)
    pilot = ctx.session(lambda s: s.cli(c2), count_calls=True, **base)
    new, bad = _try(ctx)
    if pilot.status or new is None:
        return {'violations': [V('undisturbed analysis fails', f'{describe(pilot)} {bad}', plan, faults=[])], 'cases': []}
    out, cases = [], []
    for f in plan['faults']:
        restrict = (lambda p: '_ra.txt' in p) if f.get('ra') and f['what'] in ('kill', 'interrupt', 'full', 'error', 'torn') else None
        sp = faults.spec(f, pilot, restrict) or faults.spec(f, pilot)
        if sp is None:
            continue
        restore(ctx, start)
        r = ctx.session(lambda s: s.cli(c2), **faults.merge(base, sp))
        if not r.fired:
            continue
        cases.append({'key': json.dumps([plan['first'], plan['second'], f['what'], r.fired[0][1:], plan['seed'] % 7]), 'nt': True})
        got, bad = _try(ctx)
        where = f'{plan["first"]} then {plan["second"]}, {describe(r)}'
        if got is None:
            out.append(V('results file unreadable or gone after a disturbed analysis', f'{where}: {bad}', plan, faults=[f]))
        else:
            for m in old['measures']:
                if not (m in got['measures'] and (close_m(got, old, m) or close_m(got, new, m))):
                    out.append(V('recorded results damaged by a disturbed analysis', f'{where}: {m} neither old ({diff(old, got)}) nor new ({diff(new, got)})', plan, faults=[f]))
            for m in got['measures']:
                if m not in old['measures'] and not close_m(got, new, m):
                    out.append(V('incomplete results recorded', f'{where}: {m}: {diff(new, got)}', plan, faults=[f]))
        if out:
            break
        if r.status in ('hang', 'stuck', 'liveness', 'crash'):
            out.append(V('analysis does not end', f'{where}: {r.status} {r.tb[-200:]}', plan, faults=[f]))
            break
        r = ctx.session(lambda s: s.cli(c2), **base)
        fin, bad = _try(ctx)
        if r.status or fin is None:
            out.append(V('repeating the analysis fails', f'after {where}: {describe(r)} {bad}', plan, faults=[f]))
        elif not close(fin, new):
            out.append(V('repeating the analysis gives other results', f'after {where}: {diff(new, fin)}', plan, faults=[f]))
        if out:
            break
    return {'violations': out, 'cases': cases, 'sample': {k: plan[k] for k in ('first', 'second', 'faults')}}


def _try(ctx, rel=FILE):
    try:
        f = readf(ctx, rel)
        return f, 'no results file' if f is None else None
    except BadFile as e:
        return None, f'results file invalid: {e}'


# ------------------------------------------------------------------------------------------- C05
class Listener:
    """Progress queue of a front end. Raises at its k-th message if asked to (cancellation)."""
    def __init__(self, cancel=None, exc=KeyboardInterrupt):
        self.log, self.cancel, self.exc, self.computed = [], cancel, exc, []

    def put(self, msg, *a, **k):
        if self.cancel is not None and len(self.log) >= self.cancel:
            self.cancel = None
            raise self.exc('cancelled')
        self.log.append(list(msg))
        self.computed.append(_computed())

    put_nowait = put


def c05_jobs(rng, tier):
    n = 120 if tier == 'quick' else 5000
    for k in range(n):
        a, b = rng.choice(((6, 9), (8, 9), (8, 12), (10, 11), (11, 12)))
        steps = rng.choice(([(a, 'm2cnd'), (b, 'm2cnd')], [(a, 'sdaa'), (b, 'sdaa')], [(b, 'm2cnd'), (a, 'sdaa')], [(b, 'sdaa')], [(b, 'm2cnd')],
                            [(a, 'm2cnd'), (a, 'sdaa'), (b, 'm2cnd')]))
        fs = []
        for _ in range(5):
            f = faults.choose(rng, ('task', 'task', 'death', 'spawn', 'cancel', 'interrupt', 'call', 'cli'))
            f['inner'] = rng.choice(('task', 'death', 'interrupt', 'call'))
            f['fail_step'] = rng.randrange(len(steps))
            f['exc_cancel'] = rng.choice(('KeyboardInterrupt', 'RuntimeError', 'BrokenPipeError'))
            fs.append(f)
        yield {'seed': rng.randrange(1 << 30), 'region': rng.choice(('box', 'north', 'tri', 'hole')), 'steps': steps, 'pool': rng.randrange(1 << 30),
               'profile': rng.choice(pool.PROFILES), 'cpu': rng.choice((1, 3, 4, 9)), 'start': rng.choice(('fork', 'spawn')), 'big': False, 'faults': fs}


def c05_body(plan, cancel=None, exc='KeyboardInterrupt', retry=True):
    """All steps in turn; a failing one is followed by inspection, then by calculate_stats/write of what the object claims, then asked again."""
    import builtins
    E = getattr(builtins, exc)

    def body(s):
        import craterstats as cst
        q = Listener(cancel, E) if cancel is not None else None
        rep = []

        def look(ra):
            return {m: {'n': int(v['n_trials']), 'trials': {b: [float(x) for x in t] for b, t in v.get('trials', {}).items()}} for m, v in ra.montecarlo.items()}

        def save(ra):
            ra.calculate_stats()
            ra.write()
        try:
            ra = cst.Randomnessanalysis('a.scc', progress_queue=q)
        except (KeyboardInterrupt, Exception):
            ra = cst.Randomnessanalysis('a.scc', progress_queue=q)
        for trials, measure in plan['steps']:
            st = 'ok'
            try:
                ra.run_montecarlo(trials, measure)
            except KeyboardInterrupt:
                st = 'KeyboardInterrupt'
            except Exception as e:
                st = type(e).__name__
            if st != 'ok':
                rep.append({'step': [trials, measure], 'st': st, 'obj': look(ra)})
                try:
                    if ra.montecarlo:
                        save(ra)
                except (KeyboardInterrupt, Exception) as e:
                    rep[-1]['save'] = repr(e)
                if ra.montecarlo and 'save' not in rep[-1]:
                    with open('a_ra.txt', 'rb') as f:
                        rep[-1]['file'] = f.read()
                try:
                    ra.run_montecarlo(trials, measure)
                except (KeyboardInterrupt, Exception) as e:
                    rep.append({'step': [trials, measure], 'st': 'again ' + repr(e), 'obj': look(ra)})
                    continue
            try:
                save(ra)
            except (KeyboardInterrupt, Exception):
                save(ra)
            with open('a_ra.txt', 'rb') as f:
                rep.append({'step': [trials, measure], 'st': 'ok', 'obj': look(ra), 'file': f.read()})
        return rep
    return body


def c05_truth(plan, obj, where, full):
    """What the object presents: every measure complete for its stated number, values those of the undisturbed run."""
    for m, v in obj.items():
        if set(v['trials']) != expected_bins(plan, m):
            return f'{where}: object presents {m} with {v["n"]} trials for bins {sorted(v["trials"])}, the count has {sorted(expected_bins(plan, m))}'
        for b, t in v['trials'].items():
            if len(t) != v['n']:
                return f'{where}: object presents {m} with {v["n"]} trials, bin {b} holds {len(t)}'
            ref = full.get((m, v['n']))
            if ref is not None and not np.allclose(t, ref[b], rtol=1e-6, atol=0):
                return f'{where}: {m} with {v["n"]} trials: values of bin {b} were never computed by that analysis'
    return None


def c05(ctx, plan):
    out, cases = [], []
    setup(ctx, plan)
    base = {'cpu': plan['cpu'], 'pool': {'seed': plan['pool'], 'profile': plan['profile'], 'start': plan['start']}}
    clean = data.snap(ctx.root)
    pilot = ctx.session(c05_body(plan), count_calls=True, **base)
    ref, bad = _try(ctx)
    if pilot.status or ref is None or any(e['st'] != 'ok' for e in pilot.value):
        return {'violations': [V('undisturbed analysis fails', f'{describe(pilot)} {bad} {pilot.value and [e["st"] for e in pilot.value]}', plan, faults=[])], 'cases': []}
    full = {}
    for e in pilot.value:
        for m, v in e['obj'].items():
            full[(m, v['n'])] = v['trials']
    # a listener changes the number of messages, not of tasks
    nlog = sum((1 + t) * len(expected_bins(plan, m)) for t, m in plan['steps'])
    argv = None
    for f in plan['faults']:
        restore(ctx, clean)
        if f['what'] == 'cli':
            argv = cmd(plan['steps'][-1][0], 'm2cnd,sdaa')
            v = c05_cli(ctx, plan, base, f, argv, clean, cases)
            out += v
        else:
            if f['what'] == 'cancel':
                sp, body = {}, c05_body(plan, int(f['u'] * nlog), f['exc_cancel'])
            else:
                sp, body = faults.spec(f, pilot), c05_body(plan)
                if sp is None:
                    continue
            r = ctx.session(body, **faults.merge(base, sp))
            if f['what'] != 'cancel' and not r.fired:
                continue
            where = f'steps {plan["steps"]}, {f["what"]} {r.fired}'
            if r.status in ('hang', 'stuck', 'liveness', 'crash'):
                out.append(V('analysis does not end', f'{where}: {r.status} {r.tb[-200:]}', plan, faults=[f]))
                break
            if r.status and f['what'] in ('interrupt', 'call'):
                continue        # the interruption hit a place outside the steps
            if r.status:
                out.append(V('failed analysis leaves an unusable object', f'{where}: {describe(r)}', plan, faults=[f]))
                break
            cases.append({'key': json.dumps([plan['steps'], f['what'], r.fired and r.fired[0][3], plan['seed'] % 11]), 'nt': any(e['st'] != 'ok' for e in r.value)})
            for e in r.value:
                bad = c05_truth(plan, e['obj'], f'{where}, step {e["step"]} {e["st"]}', full)
                if bad:
                    out.append(V('object presents trials that were not computed', bad, plan, faults=[f]))
                if 'file' in e:
                    try:
                        t = data.parse_ra(e['file'])
                        bad = complete(t, plan, where)
                    except BadFile as x:
                        bad = f'{where}: {x}'
                    if bad:
                        out.append(V('results file presents an incomplete measure', f'{bad} (step {e["step"]} {e["st"]})', plan, faults=[f]))
                if e['st'] == 'ok':
                    m = e['obj'].get(e['step'][1])
                    if not m or m['n'] < e['step'][0]:
                        out.append(V('asking again does not compute what is missing', f'{where}: after step {e["step"]} the object holds {m and m["n"]} trials', plan, faults=[f]))
                elif e['st'].startswith('again'):
                    out.append(V('failed analysis leaves an unusable object', f'{where}: {e["st"]}', plan, faults=[f]))
                elif e.get('save'):
                    out.append(V('failed analysis leaves an unusable object', f'{where}: writing what is recorded fails: {e["save"]}', plan, faults=[f]))
            fin, bad = _try(ctx)
            if not out and (fin is None or not close(fin, ref)):
                out.append(V('asking again does not compute what is missing', f'{where}: final file {bad or diff(ref, fin)}', plan, faults=[f]))
        if out:
            break
    return {'violations': out[:3], 'cases': cases, 'sample': plan}


def c05_cli(ctx, plan, base, f, argv, clean, cases):
    pilot = ctx.session(lambda s: s.cli(argv), count_calls=True, **base)
    ref, bad = _try(ctx)
    if pilot.status or ref is None:
        return [V('undisturbed analysis fails', f'{describe(pilot)} {bad}', plan, faults=[f])]
    sp = faults.spec({**f, 'what': f['inner']}, pilot)
    if sp is None:
        return []
    restore(ctx, clean)
    r = ctx.session(lambda s: s.cli(argv), **faults.merge(base, sp))
    if not r.fired:
        return []
    cases.append({'key': json.dumps(['cli', f['inner'], r.fired[0][3], plan['seed'] % 11]), 'nt': True})
    where = f'{" ".join(argv)}, {describe(r)}'
    got, bad = _try(ctx)
    if got is None and os.path.exists(os.path.join(ctx.root, FILE)):
        return [V('results file presents an incomplete measure', f'{where}: {bad}', plan, faults=[f])]
    if got is not None:
        bad = complete(got, plan, where)
        if not bad and any(not close_m(got, ref, m) for m in got['measures']):
            bad = f'{where}: {diff(ref, got)}'
        if bad:
            return [V('results file presents an incomplete measure', bad, plan, faults=[f])]
    r = ctx.session(lambda s: s.cli(argv), **base)
    fin, bad = _try(ctx)
    if r.status or fin is None or not close(fin, ref):
        return [V('asking again does not compute what is missing', f'after {where}: {describe(r)} {bad or diff(ref, fin)}', plan, faults=[f])]
    return []


# ------------------------------------------------------------------------------------------- C06
def c06_jobs(rng, tier):
    n = 96 if tier == 'quick' else 4000
    for k in range(n):
        ops = []
        for _ in range(rng.choice((3, 4, 5, 6))):
            ops.append({'via': rng.choice(('cli', 'cli', 'api', 'fail')), 'trials': rng.choice((6, 7, 9, 10, 11, 12, 13)), 'measures': rng.choice(('m2cnd', 'sdaa', 'm2cnd,sdaa', 'sdaa,m2cnd')),
                        'what': rng.choice(('kill', 'task', 'death', 'interrupt', 'full')), 'u': rng.random(), 'cpu': rng.choice((1, 4)), 'pool': rng.randrange(1 << 30), 'beside': rng.random() < .35})
        ops[0]['beside'] = True
        yield {'seed': rng.randrange(1 << 30), 'region': rng.choice(('box', 'north', 'tri', 'hole', 'wide', 'anti', 'tip', 'bulge')), 'ops': ops, 'big': rng.random() < .3,
               'layout': rng.choice(('here', 'here', 'elsewhere', 'named', 'both', 'both')), 'name': rng.choice(('a', 'a', 'site.v2', 'two words'))}


def c06(ctx, plan):
    """Model: recorded = {measure: number of trials}; every later file must refine it."""
    ctx.reset()
    name = plan['name']
    away = plan['layout'] in ('elsewhere', 'both')
    data.put(ctx.root, {('in/' if away else 'w/') + f'{name}.scc': source(plan)})
    named = plan['layout'] == 'named'
    extra = ['-o', 'res'] if named else []
    out, cases, known = [], [], {}
    m0 = direct_measures(plan)
    for i, op in enumerate(plan['ops']):
        ms = op['measures'].split(',')
        # results are recorded in the working directory; ones beside the crater count serve while there are none
        at = 'in' if plan['layout'] == 'both' and op.get('beside') else 'w'
        src = f'../in/{name}.scc' if away and at == 'w' else f'{name}.scc'
        # an output name keeps its own stem
        rel = 'w/res_ra.txt' if named else f'{at}/{name}_ra.txt'
        model, prev = known.get(at) or away and known.get('in') or ({}, None)
        c = ['-ra', src, '-trials', str(op['trials']), '-measure', op['measures'], '-select', '0', '-f', 'svg'] + extra
        spec = {'cwd': at, 'cpu': op['cpu'], 'pool': {'seed': op['pool']}, 'observe': {'points': False}}
        if op['via'] == 'api':
            r = ctx.session(api_op(src, 'res' if named else None, op['trials'], ms), **spec)
        elif op['via'] == 'fail':
            start = data.snap(ctx.root)
            pilot = ctx.session(lambda s: s.cli(c), **spec)
            restore(ctx, start)
            sp = faults.spec({'what': op['what'], 'u': op['u'], 'at_write': True, 'act': 'enospc', 'frac': .5, 'exc': 'MemoryError'}, pilot)
            r = ctx.session(lambda s: s.cli(c), **faults.merge(spec, sp or {}))
        else:
            r = ctx.session(lambda s: s.cli(c), **spec)
        where = f'operation {i} ({op["via"]} {op["trials"]} {op["measures"]}, recorded before {model}, {describe(r)})'
        got, bad = _try(ctx, rel)
        done = not r.status and op['via'] != 'fail' or op['via'] == 'fail' and r.status == 0
        if op['via'] != 'fail' and r.status:
            out.append(V('undisturbed analysis fails', where, plan, ops=plan['ops'][:i + 1]))
            break
        if got is None and at not in known and not done:
            continue
        if got is None and (model or done):
            out.append(V('recorded results lost', f'{where}: {bad}', plan, ops=plan['ops'][:i + 1]))
            break
        cases.append({'key': json.dumps([plan['layout'], name, sorted(model.items()), op['via'], op['trials'], op['measures']]), 'nt': i > 0})
        if got is None:
            continue
        for m in list(got['measures']):
            n = got['measures'][m]['n']
            if m not in model and m not in ms:
                out.append(V('a measure that was not requested was analysed', f'{where}: {m} recorded', plan))
            if m in model and n < model[m]:
                out.append(V('recorded results lost', f'{where}: {m} holds {n} trials', plan))
            if m in model and (m not in ms or op['trials'] <= model[m]) and got['measures'][m] != prev['measures'][m]:
                out.append(V('recorded trials altered', f'{where}: {m}: {diff(prev, got)}', plan))
            if done and m in ms and n < op['trials']:
                out.append(V('fewer trials recorded than requested', f'{where}: {m} holds {n} trials', plan))
        for m in model:
            if m not in got['measures']:
                out.append(V('recorded results lost', f'{where}: {m} is gone', plan))
        if done:
            for m in ms:
                if m not in got['measures']:
                    out.append(V('requested measure not recorded', f'{where}: {m}', plan))
        bad = complete(got, plan, where)
        if bad:
            out.append(V('results file presents an incomplete measure', bad, plan))
        out += check_scores(plan, got, m0, where)
        ran = {t['measure'] for _, t in r.obs.get('trials', []) if 'measure' in t}
        if ran - set(ms):
            out.append(V('a measure that was not requested was analysed', f'{where}: trials of {sorted(ran - set(ms))} were run', plan))
        if op['via'] == 'cli':
            imgs = [f for f in os.listdir(os.path.join(ctx.root, at)) if f.endswith('.svg')]
            for m in ms:
                if not any(m in f for f in imgs):
                    out.append(V('requested measure not plotted', f'{where}: images {imgs}', plan))
        if out:
            break
        known[at] = {m: v['n'] for m, v in got['measures'].items()}, got
    return {'violations': [dict(v) for v in out[:3]], 'cases': cases, 'sample': {k: plan[k] for k in ('layout', 'ops')}}


def api_op(src, o, trials, ms):
    def body(s):
        import craterstats as cst
        ra = cst.Randomnessanalysis(src, out=o)
        for m in ms:
            ra.run_montecarlo(trials, m)
        ra.calculate_stats()
        ra.write()
    return body


def direct_measures(plan):
    R = geom.Region(data.REGIONS[plan['region']])
    rad, out = 1737.4, {}
    for b, p in bins(plan).items():
        lon, lat = np.array(p).T
        if len(p) >= 3:
            out['m2cnd', b] = float(np.mean(geom.second_nearest(lon, lat)) * rad)
        if len(p) >= 4:
            c = R.cells(lon, lat) * rad ** 2
            if abs(c.sum() - R.area() * rad ** 2) <= 1e-6 * R.area() * rad ** 2:
                out['sdaa', b] = float(np.std(c))
    return out


def check_scores(plan, f, m0, where):
    for m in f['measures']:
        for b, t in f['measures'][m]['trials'].items():
            if (m, b) not in m0:
                continue
            t = np.array([float(x) for x in t])
            sd = np.std(t)
            if not sd > 1e-6 * abs(np.mean(t)):
                continue
            want, got = (m0[m, b] - np.mean(t)) / sd, float(f['scores'][m][b])
            if not abs(want - got) <= 2e-3 * max(1, abs(want)) + 1e-5 * abs(np.mean(t)) / sd:
                return [V('score disagrees with recorded trials and positions', f'{where}: {m} bin {b}: recorded {got}, computed {want:.6g}', plan)]
    return []


# ------------------------------------------------------------------------------------------- C07
def c07_jobs(rng, tier):
    n = 120 if tier == 'quick' else 5000
    for k in range(n):
        kind = rng.choice(('ra', 'ra', 'ra', 'age'))
        p = {'kind': kind, 'seed': rng.randrange(1 << 30), 'region': rng.choice(('box', 'tri', 'hole')), 'pool': rng.randrange(1 << 30), 'profile': rng.choice(pool.PROFILES),
             'cpu': rng.choice((1, 2, 5, 16)), 'start': rng.choice(('fork', 'spawn')), 'steps': [(rng.choice((5, 8, 11)), m) for m in rng.choice((('m2cnd',), ('sdaa',), ('m2cnd', 'sdaa'), ('m2cnd', 'm2cnd'), ('sdaa', 'sdaa'), ('m2cnd', 'sdaa', 'm2cnd')))],
             'ns': rng.choice((3, 4, 5)), 'again': rng.random() < .4, 'faults': []}
        for m in ('m2cnd', 'sdaa'):     # a measure that comes again does so with more trials
            p['steps'] = [(5 + 4 * sum(e[1] == m for e in p['steps'][:j]) if t[1] == m and sum(e[1] == m for e in p['steps']) > 1 else t[0], t[1]) for j, t in enumerate(p['steps'])]
        if k % 6 == 2:      # more steps than a percentage has
            if kind == 'ra':
                p.update(region='box', profile=rng.choice(('uniform', p['profile'])), steps=[(rng.choice((101, 117, 140)), 'm2cnd')])
            else:
                p.update(ns=3, pd=rng.choice(('34x1', '40x1', '45x1')))
        for _ in range(5):
            f = faults.choose(rng, ('task', 'death', 'cancel', 'cancel', 'none') if kind == 'ra' else ('cancel', 'cancel', 'call', 'none'))
            f['exc_cancel'] = rng.choice(('KeyboardInterrupt', 'RuntimeError'))
            f['pool'] = rng.randrange(1 << 30)
            p['faults'].append(f)
        yield p


def c07_ra_body(plan, listen, cancel=None, exc='KeyboardInterrupt'):
    import builtins
    E = getattr(builtins, exc)

    def body(s):
        import craterstats as cst
        q = Listener(cancel, E) if listen else None
        ra = cst.Randomnessanalysis('a.scc', progress_queue=q)
        rep = []
        for trials, m in plan['steps']:
            n0, c0 = len(q.log) if q else 0, _computed()
            st = 'ok'
            try:
                ra.run_montecarlo(trials, m)
            except (KeyboardInterrupt, Exception) as e:
                st = type(e).__name__
            rep.append({'st': st, 'log': q.log[n0:] if q else [], 'computed': [c - c0 for c in q.computed[n0:]] if q else [],
                        'trials': {b: [float(x) for x in t] for b, t in ra.montecarlo[m]['trials'].items()} if m in ra.montecarlo and st == 'ok' else None})
            if st != 'ok':
                break
        return rep
    return body


def c07_age_body(plan, listen, cancel=None, exc='KeyboardInterrupt'):
    import builtins
    E = getattr(builtins, exc)

    def body(s):
        cps = age_plotset(plan['ns'], print_dimensions=plan.get('pd', '7.5x7.5'))
        q = Listener(cancel, E) if listen else None
        rep = []
        while len(rep) < (2 if listen and plan['again'] else 1):
            n0, st, g = len(q.log) if q else 0, 'ok', None
            try:
                g = cps.compute_age_area(progress_queue=q) if listen else cps.compute_age_area()
            except (KeyboardInterrupt, Exception) as e:
                st = type(e).__name__
            rep.append({'st': st, 'log': q.log[n0:] if q else [], 'grid': g and {k: (v.tolist() if hasattr(v, 'tolist') else v) for k, v in g.items()}})
        return rep
    return body


def age_plotset(ns, dmin=1.0, cs='Moon, Neukum (1983)', ef=None, **settings):
    """An uncertainty plot set."""
    import craterstats as cst
    fns = cst.Functionslist().functions
    d = next(e for e in fns['chronology_system'] if e['name'] == cs)
    s = {'presentation': 'uncertainty', 'min_diameter': dmin, 'n_samples': ns, 'global_area': 3.79e7, 'print_dimensions': '7.5x7.5', 'legend': 'f', 'chronology_system': cs,
         'xrange': cst.DEFAULT_XRANGE['uncertainty'], 'yrange': cst.DEFAULT_YRANGE['uncertainty'], 'cf': cst.Chronologyfn(fns, d['cf']), 'pf': cst.Productionfn(fns, d['pf'])}
    if ef:
        s['ef'] = cst.Productionfn(fns, ef, equilibrium=True)
    cps = cst.Craterplotset({**s, **settings})
    cps.calculate_time_axis_params()
    return cps


def progress_ok(steps, total, completed):
    """steps: [(i, total)]"""
    if any(t != total for _, t in steps):
        return f'total given as {sorted({t for _, t in steps})}, should be {total}'
    if [i for i, _ in steps] != list(range(1, len(steps) + 1)):
        return f'steps reported as {[i for i, _ in steps]}'
    if completed and len(steps) != total:
        return f'completed, but the last step reported is {len(steps)} of {total}'
    if not completed and len(steps) >= total:
        return f'not completed, but all {total} steps were reported'
    return None


def check_log(plan, e, trials, measure):
    """Log of one analysis step against the model: for each bin one announcement, then steps 1..total."""
    want = [(b, len(p)) for b, p in sorted(bins(plan).items(), key=lambda t: float(t[0])) if len(p) >= MIN_COUNT[measure]]
    groups = []
    for msg in e['log']:
        if msg[0] == 'log':
            groups.append((msg[1], []))
        elif msg[0] == 'progress':
            if not groups:
                return 'progress reported before any bin was announced'
            groups[-1][1].append((int(msg[1]), int(msg[2])))
        else:
            return f'unknown message {msg}'
    if len(groups) > len(want) or e['st'] == 'ok' and len(groups) != len(want):
        return f'{len(groups)} bins announced ({[g[0] for g in groups]}), the count has {want}'
    pos = 0
    for k, (text, steps) in enumerate(groups):
        b, n = want[k]
        nums = [float(x) for x in __import__('re').findall(r'(?<![\w.])-?\d+(?:\.\d+)?', text)]
        if measure not in text or float(n) not in nums:
            return f'bin {b} with {n} craters of {measure} announced as {text!r}'
        last = k == len(groups) - 1
        # a failure between two bins leaves the last announced bin complete
        bad = progress_ok(steps, trials, e['st'] == 'ok' or not last or len(groups) < len(want) and len(steps) == trials)
        if bad:
            return f'bin {b}: {bad}'
        pos += 1
        for j, _ in steps:
            done = e['computed'][pos] - k * trials
            if done < j:
                return f'bin {b}: step {j} reported when {done} trials of the bin had been computed'
            pos += 1
    return None


def c07(ctx, plan):
    out, cases = [], []
    setup(ctx, plan)
    clean = data.snap(ctx.root)
    base = {'cpu': plan['cpu'], 'pool': {'seed': plan['pool'], 'profile': plan['profile'], 'start': plan['start']}}
    body = c07_ra_body if plan['kind'] == 'ra' else c07_age_body
    ref = ctx.session(body(plan, False), count_calls=True, **base)
    if ref.status or plan['kind'] == 'ra' and any(e['st'] != 'ok' for e in ref.value) or plan['kind'] == 'age' and ref.value[0]['st'] != 'ok':
        return {'violations': [V('undisturbed analysis fails', describe(ref) + str(ref.value), plan, faults=[])], 'cases': []}
    nlog = sum((1 + t) * len(expected_bins(plan, m)) for t, m in plan['steps'])
    if plan['kind'] == 'age':
        nlog = len(ref.value[0]['grid']['kk'])
    for f in plan['faults']:
        restore(ctx, clean)
        cancel = int(f['u'] * nlog) if f['what'] == 'cancel' else None
        sp = {} if f['what'] in ('cancel', 'none') else faults.spec(f, ref)
        if sp is None:
            continue
        spec = faults.merge({**base, 'pool': {**base['pool'], 'seed': f['pool']}}, sp)
        r = ctx.session(body(plan, True, cancel, f['exc_cancel']), **spec)
        where = f'{f["what"]} {r.fired}'
        cases.append({'key': json.dumps([plan['kind'], f['what'], r.fired and r.fired[0][3], cancel, list(r.order)]), 'nt': f['what'] != 'none' or list(r.order) != sorted(r.order)})
        if r.status:
            if f['what'] != 'call':
                out.append(V('analysis with a listener fails', f'{where}: {describe(r)} {r.status}', plan, faults=[f]))
            continue
        if plan['kind'] == 'ra':
            for (trials, m), e, e0 in zip(plan['steps'], r.value, ref.value):
                bad = check_log(plan, e, trials, m)
                if bad:
                    out.append(V('progress report wrong', f'{where}, {m}, {trials} trials, ended {e["st"]}: {bad}', plan, faults=[f]))
                if e['st'] == 'ok' and e['trials'] != e0['trials']:
                    out.append(V('results differ with a listener', f'{where}, {m}', plan, faults=[f]))
                if e['st'] != 'ok' and f['what'] == 'none':
                    out.append(V('analysis with a listener fails', f'{where}: {e["st"]}', plan, faults=[f]))
        else:
            for k, e in enumerate(r.value):     # evaluated once, or twice by the same plot set
                bad = progress_ok([(int(m[1]), int(m[2])) for m in e['log'] if m[0] == 'progress'], nlog, e['st'] == 'ok')
                if bad:
                    out.append(V('progress report wrong', f'{where}, age-area grid, evaluation {k + 1}, ended {e["st"]}: {bad}', plan, faults=[f]))
                if k == 0 and e['st'] == 'ok' and not same_grid(e['grid'], ref.value[0]['grid']):
                    out.append(V('results differ with a listener', f'{where}, age-area grid', plan, faults=[f]))
        if out:
            break
    return {'violations': out[:2], 'cases': cases, 'sample': plan}


def same_grid(a, b):
    return set(a) == set(b) and all(np.array_equal(np.array(a[k], float), np.array(b[k], float), equal_nan=True) for k in a)


# ------------------------------------------------------------------------------------------- C19
def c19_jobs(rng, tier):
    n = 96 if tier == 'quick' else 4000
    for k in range(n):
        kind = ('read', 'plot', 'two', 'read', 'two', 'second')[k % 6]
        a = rng.choice((6, 7))
        yield {'kind': kind, 'seed': rng.randrange(1 << 30), 'region': rng.choice(('box', 'tri')), 'first': (a, rng.choice(('m2cnd', 'm2cnd,sdaa', 'sdaa'))),
               'write': (a + 3, rng.choice(('m2cnd', 'm2cnd,sdaa', 'sdaa'))), 'write2': (a + rng.choice((1, 3, 5)), rng.choice(('m2cnd', 'm2cnd,sdaa', 'sdaa'))),
               'bufsize': rng.choice((None, 64, 300)), 'empty': rng.random() < .2, 'choices': [rng.randrange(1 << 30) for _ in range({'read': 8, 'plot': 4, 'two': 3, 'second': 3}[kind])],
               'pool': rng.randrange(1 << 30)}


def read_body(s):
    import craterstats as cst
    ra = cst.Randomnessanalysis('a.scc')
    cc = cst.Cratercount('a.scc')
    return {'ra': {m: {'n': int(v['n_trials']), 'trials': {b: [float(x) for x in t] for b, t in v['trials'].items()}} for m, v in ra.montecarlo.items()},
            'cc': {k: list(v) for k, v in cc.n_sigma.items()} if cc.n_sigma else None}


def as_read(f):
    """What a reader of file f must see."""
    return {m: {'n': v['n'], 'trials': {b: [float(x) for x in t] for b, t in v['trials'].items()}} for m, v in f['measures'].items()}


PLOT = ['-p', 'source=a.scc', '-f', 'svg', '-o', 'plot', '-ra_show', '1', '-legend', 'na']


def c19(ctx, plan):
    setup(ctx, plan)
    out, cases = [], []
    base = {'bufsize': plan['bufsize'], 'pool': {'seed': plan['pool']}}
    if not plan['empty']:
        r1 = ctx.session(lambda s: s.cli(cmd(*plan['first'])), pool={'seed': 1})
        if r1.status or _try(ctx)[0] is None:
            return {'violations': [V('undisturbed analysis fails', describe(r1), plan, choices=[])], 'cases': []}
    start = data.snap(ctx.root)
    old = _try(ctx)[0]
    w1 = cmd(*plan['write'])
    rw, contents = versions(ctx, lambda s: s.cli(w1), base)
    try:
        vers = [data.parse_ra(b) for b in contents]
    except BadFile as e:
        return {'violations': [V('reader sees partial results', f'writer alone exposes an invalid file at some point: {e}', plan, choices=[])], 'cases': []}
    if rw.status or not vers:
        return {'violations': [V('undisturbed analysis fails', describe(rw), plan, choices=[])], 'cases': []}
    new = vers[-1]
    end = data.snap(ctx.root)

    def ok_m(f, m):
        return (old is not None and close_m(f, old, m)) or close_m(f, new, m) or any(close_m(f, v, m) for v in vers)
    if plan['kind'] in ('read', 'second'):
        allowed = ([as_read(old)] if old else [{}]) + [as_read(v) for v in vers]
    plots = None
    if plan['kind'] == 'plot':
        plots = {}
        for b in ([None] if plan['empty'] else []) + contents + ([start['w/a_ra.txt'][1]] if not plan['empty'] else []):
            ctx.reset()
            data.put(ctx.root, {'w/a.scc': source(plan), **({FILE: b} if b else {})})
            r = ctx.session(lambda s: s.cli(PLOT))
            p = os.path.join(ctx.root, 'w/plot.svg')
            if r.status or not os.path.exists(p):
                return {'violations': [V('undisturbed plot fails', describe(r), plan, choices=[])], 'cases': []}
            plots[data.canon('plot.svg', data.snap(ctx.root)['w/plot.svg'])] = 1
    w2 = cmd(*plan['write2'])
    new2 = None
    if plan['kind'] == 'two':
        restore(ctx, start)
        r2, c2 = versions(ctx, lambda s: s.cli(w2), base)
        if r2.status:
            return {'violations': [V('undisturbed analysis fails', describe(r2), plan, choices=[])], 'cases': []}
        new2 = data.parse_ra(c2[-1])
    for ch in plan['choices']:
        restore(ctx, start)
        rng = random.Random(ch)
        seen = {'bad': None, 'n': 0}

        def look():
            p = os.path.join(ctx.root, FILE)
            seen['n'] += 1
            if os.path.exists(p):
                try:
                    data.read_ra(p)
                except BadFile as e:
                    seen['bad'] = seen['bad'] or str(e)
        if plan['kind'] in ('read', 'plot'):
            body2 = read_body if plan['kind'] == 'read' else (lambda s: s.cli(PLOT))
        elif plan['kind'] == 'second':
            body2 = read_body
        else:
            body2 = lambda s: s.cli(w2)
        mode = rng.choice(('park', 'park', 'random', 'park2'))
        at = rng.random()
        ra_ev = rng.random() < .7

        def choose(ready):
            look()
            if len(ready) == 1:
                return next(iter(ready))
            if mode == 'random':
                return rng.choice(sorted(ready))
            if mode == 'park2':                             # the second goes first, is held at one of its own events
                k = st['second']
                if k == int(at * 12):
                    return 0
                st['second'] += 1
                return 1
            _, kind, path = ready[0]                        # hold the writer at one of its events, run the other
            st['first'] += 1
            if st['hold']:
                return 1
            hit = ('_ra.txt' in path and kind in ('write', 'close', 'replace', 'rename', 'open')) if ra_ev else True
            if hit:
                st['seen'] += 1
                if st['seen'] > at * nhit:
                    st['hold'] = True
                    return 1
            return 0
        st = {'first': 0, 'second': 0, 'hold': False, 'seen': 0}
        nhit = sum(1 for e in rw.events if ('_ra.txt' in e[1] and e[0] in ('write', 'close', 'replace', 'rename', 'open')) or not ra_ev and e[0] != 'pool')
        res, trace = ctx.concurrent([(lambda s: s.cli(w1), base), (body2, {**base, 'pool': {'seed': plan['pool'] + 1}})], choose)
        cases.append({'key': json.dumps([plan['kind'], [(t[0], t[2]) for t in trace]][:2]), 'nt': True})
        where = f'{plan["kind"]}, first {plan["first"] if not plan["empty"] else None}, writer {plan["write"]}, other {plan["write2"]}, {mode}'
        final, bad = _try(ctx)
        for i, r in enumerate(res):
            if r.status:
                out.append(V('a concurrent user fails', f'{where}: process {i}: {describe(r)}', plan, choices=[ch]))
        if seen['bad']:
            out.append(V('reader sees partial results', f'{where}: at some point the file was invalid: {seen["bad"]}', plan, choices=[ch]))
        if final is None:
            out.append(V('concurrent analyses leave an invalid file', f'{where}: {bad}', plan, choices=[ch]))
        elif plan['kind'] != 'two':
            if not close(final, new):
                out.append(V('concurrent reader disturbs the writer', f'{where}: {diff(new, final)}', plan, choices=[ch]))
        else:
            for m in set(final['measures']) | set(old['measures'] if old else ()):
                if m not in final['measures']:
                    out.append(V('recorded results lost', f'{where}: {m}', plan, choices=[ch]))
                elif not (ok_m(final, m) or close_m(final, new2, m)):
                    out.append(V('concurrent analyses leave a mixture', f'{where}: {m}: {diff(new, final)}; {diff(new2, final)}', plan, choices=[ch]))
            done = [set((plan['write'], plan['write2'])[i][1].split(',')) <= set(final['measures']) for i in (0, 1)]
            if not any(done):
                out.append(V('concurrent analyses leave a mixture', f'{where}: measures {sorted(final["measures"])} are complete for neither', plan, choices=[ch]))
        if plan['kind'] in ('read', 'second') and res[1].status == 0:
            if not any(same_view(res[1].value['ra'], a) for a in allowed):
                out.append(V('reader sees partial results', f'{where}: reader got { {m: v["n"] for m, v in res[1].value["ra"].items()} }', plan, choices=[ch]))
        if plan['kind'] == 'plot' and res[1].status == 0:
            s = data.snap(ctx.root).get('w/plot.svg')
            if s is None or data.canon('plot.svg', s) not in plots:
                out.append(V('reader sees partial results', f'{where}: the plot matches neither the previous nor the new results', plan, choices=[ch]))
        if out:
            break
    return {'violations': out[:2], 'cases': cases, 'sample': {k: plan[k] for k in ('kind', 'first', 'write', 'write2', 'bufsize')}}


def same_view(a, b):
    return set(a) == set(b) and all(a[m]['n'] == b[m]['n'] and set(a[m]['trials']) == set(b[m]['trials']) and
                                    all(np.allclose(a[m]['trials'][k], b[m]['trials'][k], rtol=1e-6, atol=0) for k in a[m]['trials']) for m in a)

"""Objects used as a program would: several plot sets and analyses on shared crater counts, redrawing, uncertainty grids."""
import copy, io, json, math, random

from .. import commands, data
from ..seams import SIM

CUT = 'interrupt'


def V(kind, detail, plan, **change):
    return {'kind': kind, 'detail': detail, 'plan': {**plan, **change}}


def setup(ctx, plan):
    ctx.reset()
    data.put(ctx.root, commands.inputs(plan['seed']))


def plain(v):
    """A value as nested plain data; floats exactly."""
    import numpy as np
    if isinstance(v, dict):
        return {str(k): plain(e) for k, e in sorted(v.items(), key=lambda t: str(t[0]))}
    if isinstance(v, np.ndarray):
        return plain(v.tolist())
    if isinstance(v, (list, tuple)):
        return [plain(e) for e in v]
    if isinstance(v, (set, frozenset)):
        return sorted(map(str, v))
    if isinstance(v, np.generic):
        v = v.item()
    if isinstance(v, float):
        return v.hex() if v == v else 'nan'
    if v is None or isinstance(v, (int, str, bool)):
        return v
    return str(v)


# ------------------------------------------------------------------------------------------- building objects
SOURCES = ('a.diam', 'in/b.diam', 's.scc', 't.stat', 'p_CRATER.shp', 'q.scc', '../other/c 1.diam', 'sub/y.diam')
SYSTEMS = ('Moon, Neukum (1983)', 'Mars, Ivanov (2001)', 'Mars, Neukum-Ivanov (2001)', 'Mars, Hartmann 2004 iteration', 'Moon, Neukum et al. (2001)')
BINNINGS = ('pseudo-log', '20/decade', '10/decade', 'x2', 'root-2', '4th root-2')
RANGES = (['0', 'inf'], ['.15', '.6'], ['.2', '.5'], ['.1', '1'], [.2, .7], ['b1', 'b-1'], ['b2', 'b4'], ['0', '.4'], ['.25', 'inf'])
DATA_PR = ('cumulative', 'differential', 'R-plot', 'Hartmann')


def gen_set(rng, pres=DATA_PR):
    pr = rng.choice(pres)
    s = {'presentation': pr, 'title': rng.choice(('', 'One|two', 'T')), 'legend': rng.choice(('fnacr', 'fnacrN', 'nA', 'cr', 'naprcN', 'A', 'Aa')), 'ref_diameter': rng.choice((1., 1., 10.)),
         'invert': rng.choice((0, 0, 1)), 'isochrons': rng.choice((None, None, '1,3.5', '2a,3hs')), 'pt_size': rng.choice((9., 9., 7.)), 'print_dimensions': rng.choice(('7.5x7.5', '10x8', '2')),
         'style': rng.choice(('natural', 'natural', 'root-2')), 'mu': rng.choice((1, 0)), 'sig_figs': rng.choice((3, 2)), 'ra_show': rng.choice((1, 1, 0)), 'bins': rng.choice((0, 0, 0, 1)),
         'text_halo': rng.choice((0, 1)), 'randomness': 0, 'ra_offset': rng.choice((0., 0., 3.))}
    return {'cs': rng.choice(SYSTEMS), 'ef': rng.choice((None, None, 'Lunar equilibrium (Trask, 1966)', 'Hartmann (1984)')), 'ep': rng.choice((None, None, 'Moon, Wilhelms (1987)', 'Mars, Michael (2013)')), 'settings': s}


def gen_plot(rng, types=('data', 'data', 'c-fit', 'd-fit', 'poisson', 'b-poisson'), nsrc=6, none=.12):
    t = rng.choice(types)
    p = {'src': rng.randrange(nsrc), 'type': t, 'name': rng.choice(('', '', 'N', 'two words')), 'range': copy.deepcopy(rng.choice(RANGES + ((['0', 'inf'],) * 4 if t == 'data' else ()))), 'binning': rng.choice(BINNINGS) if rng.random() > none else 'none',
         'snap': rng.choice((1, 1, 0)), 'resurf': rng.choice((0, 0, 1)), 'resurf_showall': rng.choice((0, 0, 1)), 'isochron': rng.choice((0, 0, 1)), 'psym': rng.randrange(12),
         'colour': rng.choice(('#000000', '#a00000', '#0050c8')), 'error_bars': rng.choice((1, 1, 0)), 'age_left': rng.choice((0, 0, 1)), 'hide': rng.choice((0,) * 8 + (1,)),
         'show_age': rng.choice((1, 1, 0)), 'offset_age': rng.choice((['0', '0'], ['1', '-2'])) if rng.random() < .5 else [0., 1.]}
    if t != 'data' and rng.random() < .9:      # mostly ranges that hold craters
        p['range'] = copy.deepcopy(rng.choice(RANGES[1:5] if p['src'] not in (2, 5) else (['1', '4'], ['.9', '2.5'], [1., 2.9])))
    if t == 'b-poisson' and rng.random() < .8:
        p['src'], p['range'] = 2, [.9, 4.]
    return p


class World:
    """Objects of one simulated process, made on demand. fresh: every request gets objects of its own."""
    def __init__(self, plan):
        import craterstats as cst
        self.cst, self.plan = cst, plan
        self.fns = cst.Functionslist().functions
        self.counts, self.sets, self.plots, self.given, self.parts = {}, {}, {}, [], {}

    def give(self, obj, what):
        """Remember an object handed to the code, to see later whether it was altered."""
        self.given.append((what, obj, repr(obj)))
        return obj

    def altered(self):
        return [f'{w}: was {r}, now {o!r}' for w, o, r in self.given if repr(o) != r]

    def count(self, i):
        if i not in self.counts:
            self.counts[i] = self.cst.Cratercount(SOURCES[i])
        return self.counts[i]

    def part(self, key, make):
        if key not in self.parts:
            self.parts[key] = make()
        return self.parts[key]

    def cset(self, k):
        if k not in self.sets:
            cst, d = self.cst, self.plan['sets'][k]
            sysd = next(e for e in self.fns['chronology_system'] if e['name'] == d['cs'])
            pf = self.part(('pf', sysd['pf']), lambda: cst.Productionfn(self.fns, sysd['pf']))
            cf = self.part(('cf', sysd['cf']), lambda: cst.Chronologyfn(self.fns, sysd['cf']))
            pr = d['settings']['presentation']
            s = {**d['settings'], 'cf': cf, 'pf': pf, 'xrange': list(cst.DEFAULT_XRANGE[pr]), 'yrange': list(cst.DEFAULT_YRANGE[pr]), 'chronology_system': d['cs']}
            if d.get('ef'):
                s['ef'] = self.part(('ef', d['ef']), lambda: cst.Productionfn(self.fns, d['ef'], equilibrium=True))
            if d.get('ep'):
                s['ep'] = self.part(('ep', d['ep'], d['cs']), lambda: cst.Epochs(self.fns, d['ep'], pf, cf))
            s.update(d.get('extra', {}))
            cps = cst.Craterplotset(self.give(s, 'settings of a plot set'))
            self.sets[k] = cps
        return self.sets[k]

    def cplot(self, j):
        if j not in self.plots:
            d = dict(self.plan['plots'][j])
            src = d.pop('src')
            d['source'], d['cratercount'] = SOURCES[src], self.count(src)
            d['range'], d['offset_age'] = list(d['range']), list(d['offset_age'])
            self.plots[j] = self.cst.Craterplot(self.give(d, 'settings of a plot'))
        return self.plots[j]


def attempt(f):
    """Outcome of an operation as plain data."""
    try:
        return ['ok', plain(f())]
    except KeyboardInterrupt:
        return ['interrupted']
    except SystemExit as e:
        return ['exit', str(e)]
    except Exception as e:
        import os, traceback
        if os.environ.get('SIM_TB'):
            os.write(2, (traceback.format_exc() + '\n').encode())
        return ['raise', type(e).__name__, str(e)]


# ------------------------------------------------------------------------------------------- C14
def c14_jobs(rng, tier):
    n = 420 if tier == 'quick' else 20000
    for _ in range(n):
        nsrc = rng.choice((1, 2, 2, 3))
        srcs = rng.sample(range(7), nsrc)
        sets = [gen_set(rng) for _ in range(2)]
        plots = [dict(gen_plot(rng), src=rng.choice(srcs)) for _ in range(rng.choice((2, 3, 4)))]
        ops = []
        for _ in range(rng.randint(8, 16)):
            ops.append(c14_op(rng, srcs, len(plots)))
        # most histories are disturbed somewhere
        for o in ops:
            if rng.random() < .35:
                o['cut'] = rng.random() if rng.random() < .6 else 1 - rng.random() * .08
                o['again'] = rng.random() < .6
        yield {'seed': rng.randrange(1 << 30), 'sets': sets, 'plots': plots, 'ops': ops, 'grain': rng.choice(('fine', 'fine', 'call'))}


def c14_op(rng, srcs, nplots):
    k = rng.choice(('plot', 'age', 'age', 'age', 'range', 'range', 'data', 'data', 'data', 'table', 'table', 'bins', 'rebin', 'rebin', 'stat', 'decode', 'pdf', 'auto', 'legend', 'draw'))
    if k == 'draw' and rng.random() < .5:
        k = 'age'
    o = {'op': k, 'set': rng.randrange(2), 'plot': rng.randrange(nplots), 'src': rng.choice(srcs)}
    if k in ('data', 'bins', 'rebin', 'stat', 'decode'):
        o['binning'] = rng.choice(BINNINGS + (('none',) if k == 'rebin' else ()))
    if k == 'data':
        o.update(pres=rng.choice(DATA_PR + ('incremental',)), range=rng.choice((None, [.15, .6], [0., math.inf], [.2, .5])), resurf=rng.choice((0, 0, 1)), showall=rng.choice((0, 0, 1)), pf=rng.random() < .7)
        if o['resurf']:
            o['range'], o['pf'] = o['range'] or [.15, .6], True
    if k == 'decode':
        o.update(range=copy.deepcopy(rng.choice(RANGES)), snap=rng.choice((0, 1)))
    if k == 'bins':
        o.update(d=[round(rng.uniform(.05, 3), 3) for _ in range(4)], offset=rng.choice((0., .5)), expand=rng.choice((True, False)))
    if k == 'rebin':
        o['offset'] = rng.choice((0., 0., .5, .25)) if o['binning'] not in ('none',) else 0.
    if k in ('table', 'auto', 'draw'):
        o['plots'] = rng.sample(range(nplots), rng.randint(1, nplots))
    return o


def perform(w, o):
    """Run one operation on the objects of world w; returns its observable result."""
    cst = w.cst
    k = o['op']
    if k == 'plot':
        w.plots.pop(o['plot'], None)            # a further plot with the same settings
        cp = w.cplot(o['plot'])
        return {'range': cp.range, 'name': cp.name, 'source': cp.source}
    if k == 'age':
        cp, cps = w.cplot(o['plot']), w.cset(o['set'])
        if cp.type == 'data':
            return cp.range
        cp.calculate_age(cps)
        return {'t': cp.t, 'a0': cp.a0, 'n': cp.n, 'n_event': cp.n_event, 'n_d': cp.n_d, 'bins': getattr(cp, 'bin_range', None) if cp.type in ('c-fit', 'd-fit') else None, 'range': cp.range}
    if k == 'range':
        return w.cplot(o['plot']).get_data_range(w.cset(o['set']))
    if k == 'data':
        return w.count(o['src']).getplotdata(o['pres'], o['binning'], range=w.give(copy.copy(o['range']), 'range'), resurfacing=o['resurf'], showall=o['showall'], pf=w.cset(o['set']).pf if o['pf'] else None)
    if k == 'decode':
        return w.count(o['src']).decode_range(w.give(copy.copy(o['range']), 'range'), o['binning'], o['snap'])
    if k == 'bins':
        return w.count(o['src']).generate_bins(o['binning'], w.give(list(o['d']), 'diameters'), offset=o['offset'], expand=o['expand'])
    if k == 'rebin':
        cc = w.count(o['src'])
        if cc.prebinned:
            return None
        cc.apply_binning(o['binning'], o['offset'])
        return cc.binned
    if k == 'stat':
        w.count(o['src']).WriteStatFile('out.stat', o['binning'])
        with open('out.stat') as f:
            return f.read()
    if k == 'pdf':
        cc, cps = w.count(o['src']), w.cset(o['set'])
        if o['src'] == 3:                       # binned data: ranges are given by bins
            return None
        r = w.give([.1, .8], 'range')
        p = cst.Craterpdf(cps.pf, cps.cf, cc, r)
        q = cst.Craterpdf(cps.pf, cps.cf, cc, r, k=3)
        return {'k': p.k, 't': p.median1sigma(), 'p': p.calculate_sequence_probability(q)}
    cps = w.cset(o['set'])
    if k == 'legend':
        cp = w.cplot(o['plot'])
        if cp.type != 'data':
            cp.calculate_age(cps)
        return cp.make_legend_label(cps) if cp.type != 'data' or w.counts else None
    cps.craterplot = [w.cplot(j) for j in o['plots']]
    if k == 'table':
        return cps.create_summary_table()
    cps.autoscale()
    if k == 'auto':
        return {'x': cps.xrange, 'y': cps.yrange}
    cps.draw()
    return picture(cps)


def picture(cps, fmt='svg'):
    b = io.BytesIO()
    cps.fig.savefig(b, format=fmt, dpi=500, transparent=False)
    return data.canon('x.' + fmt, ('file', b.getvalue()))


def c14_body(plan, ncalls=None):
    def body(s):
        w = World(plan)
        out, calls, altered = [], [], []
        for i, o in enumerate(plan['ops']):
            c0 = SIM.calls
            cut = o.get('cut')
            if ncalls is not None and cut is not None and ncalls[i]:
                at = c0 + min(int(cut * ncalls[i]), ncalls[i] - 1)
                SIM.call_faults[at] = {'act': CUT}
            else:
                at = None
            nf = len(SIM.fired)
            res = [attempt(lambda: perform(w, o))]
            SIM.call_faults.pop(at, None)
            calls.append(SIM.calls - c0)
            hit = SIM.fired[nf:]
            if hit and o.get('again'):
                res.append(attempt(lambda: perform(w, o)))
            out.append((res, hit))
            bad = w.altered()
            if bad:
                altered.append((i, bad[0]))
                w.given.clear()
        return out, calls, altered
    return body


def c14_fresh(plan, o):
    def body(s):
        return attempt(lambda: perform(World(plan), o))
    return body


def c14(ctx, plan):
    bad, cases, probes = [], [], {}
    setup(ctx, plan)
    clean = data.snap(ctx.root)
    ops = plan['ops']
    memo = {}

    def fresh(o):
        k = json.dumps({a: b for a, b in o.items() if a not in ('cut', 'again')})
        if k not in memo:
            r = ctx.session(c14_fresh(plan, o))
            if r.status:
                memo[k] = ['end', r.status, (r.err or r.tb)[-200:]]
            else:
                memo[k] = r.value
        return memo[k]
    p = ctx.session(c14_body(plan), count_calls=True, grain=plan['grain'])
    runs = [(p, 'undisturbed')]
    if p.status == 0 and any(o.get('cut') is not None for o in ops):
        runs.append((ctx.session(c14_body(plan, p.value[1]), count_calls=True, grain=plan['grain']), 'interrupted'))
    for r, how in runs:
        if r.status:
            bad.append(V('process ends', f'{how}: status {r.status} {(r.err or r.tb)[-300:]}', plan))
            break
        out, calls, altered = r.value
        for i, b in altered:
            bad.append(V('argument-altered', f'{how}, operation {i} {ops[i]}: {b}', plan, ops=ops[:i + 1]))
        trail = []
        for i, (o, (results, hit)) in enumerate(zip(ops, out)):
            want = fresh(o)
            if want[0] == 'end':
                bad.append(V('process ends', f'alone: {o}: {want}', plan, ops=[o]))
                break
            cases.append({'key': json.dumps([o['op'], plan['seed'], i, how, [h[2:4] for h in hit]]), 'nt': i > 0})
            if want[0] == 'raise':
                probes['alone_raises'] = probes.get('alone_raises', 0) + 1
            for res in results:
                if res == ['interrupted'] and hit:
                    probes['interrupted'] = probes.get('interrupted', 0) + 1
                    continue
                if res[0] == 'exit' and hit and res != want:
                    probes['interrupt_became_exit'] = probes.get('interrupt_became_exit', 0) + 1
                    continue
                if res != want:
                    bad.append(V('differs', f'{how}, operation {i}: {json.dumps(o)}\n after {[(x["op"], x.get("binning")) for x in ops[:i]]}'
                                            f'{"; interrupted at " + str([h[2] for _, h0 in out[:i + 1] for h in h0]) if how != "undisturbed" else ""}\n gives {str(res)[:400]}\n alone {str(want)[:400]}',
                                 plan, ops=ops[:i + 1]))
                    break
            if bad:
                break
        if bad:
            break
    return {'violations': bad[:1], 'cases': cases, 'probes': probes, 'sample': {'sources': sorted({SOURCES[o['src']] for o in ops}), 'ops': [o['op'] for o in ops]}}


# ------------------------------------------------------------------------------------------- C15
KINDS15 = ('data',) * 6 + ('sequence', 'sequence', 'chronology', 'rate', 'uncertainty', 'map', 'ra', 'ra')


def gen_set15(rng):
    kind = rng.choice(KINDS15)
    s = gen_set(rng, DATA_PR if kind == 'data' else (kind,) if kind in ('sequence', 'chronology', 'rate', 'uncertainty', 'map') else ('sdaa',))
    if kind in ('map', 'ra'):
        s['settings']['print_dimensions'] = rng.choice(('7.5x7.5', '2'))
    if kind == 'sequence':
        s['settings'].update(legend=rng.choice(('A', 'Aa', 'Acr')), print_dimensions='10x8')
    if kind == 'uncertainty':
        s['settings'].update(min_diameter=rng.choice((.15, 1.)), n_samples=rng.choice((4, 6)), global_area=rng.choice((3.79e7, 1e5)), print_dimensions=rng.choice(('7.5x7.5', '8x5')))
    s['kind'], s['plots'] = kind, []
    if kind in ('data', 'sequence'):
        for _ in range(rng.randint(1, 4)):
            p = gen_plot(rng, ('data', 'data', 'c-fit', 'd-fit', 'poisson') if kind == 'data' else ('poisson', 'poisson', 'd-fit', 'c-fit'), 7 if kind == 'data' else 2, none=.04)
            if p['type'] == 'data' and p['src'] not in (2, 5):
                p['range'] = copy.deepcopy(rng.choice(RANGES[:5]))
            if kind == 'data' and p['type'] == 'data' and rng.random() < .3:        # with recorded randomness results
                p.update(src=5, range=['0', 'inf'], binning=rng.choice(BINNINGS), hide=0)
            if kind == 'sequence':
                p['range'] = copy.deepcopy(rng.choice(RANGES[1:5]))
            s['plots'].append(p)
    if kind in ('map', 'ra'):
        s['src'] = rng.choice(('s.scc', 'q.scc')) if kind == 'map' else 'q.scc'
    return s


def c15_ops(rng, s):
    """Operations a set supports."""
    if s['kind'] == 'data':
        return ['image'] * 4 + ['draw', 'save', 'table', 'table', 'scale', 'file', 'csv']
    if s['kind'] == 'sequence':
        return ['image'] * 4 + ['draw', 'save', 'table', 'file', 'csv']
    return ['image'] * 4 + ['draw', 'save', 'file']


def c15_jobs(rng, tier):
    n = 100 if tier == 'quick' else 6000
    for _ in range(n):
        sets = [gen_set15(rng) for _ in range(rng.choice((1, 2, 2, 3)))]
        ops = []
        for _ in range(rng.randint(5, 9)):
            k = rng.randrange(len(sets))
            o = {'set': k, 'do': rng.choice(c15_ops(rng, sets[k])), 'fmt': rng.choice(('svg',) * 5 + ('png', 'pdf'))}
            if sets[k]['kind'] == 'uncertainty':
                o['what'] = rng.choice(('k', 'err', 'age'))
            if sets[k]['kind'] == 'ra':
                o['what'] = [rng.choice(('m2cnd', 'sdaa')), rng.choice((None, None, [1], [0, 2], [0]))]
            if rng.random() < .3:
                o['cut'] = rng.random()
                if o['do'] in ('file', 'csv'):
                    o['disk'] = rng.choice((None, 'enospc', 'eio'))
            ops.append(o)
        yield {'seed': rng.randrange(1 << 30), 'sets': sets, 'plots': [], 'ops': ops, 'share': rng.random() < .5, 'grain': rng.choice(('fine', 'call', 'call'))}


class World15(World):
    def __init__(self, plan):
        super().__init__(plan)
        self.ready, self.extra = {}, {}

    def get(self, k):
        """The plot set k, set up as far as its drawing needs."""
        if k in self.ready:
            return self.ready[k]
        cst, d = self.cst, self.plan['sets'][k]
        cps = self.cset(k)
        if d['plots']:
            cpl = []
            for p in d['plots']:
                p = dict(p)
                src = p.pop('src')
                p['source'], p['range'], p['offset_age'] = SOURCES[src], list(p['range']), list(p['offset_age'])
                p['cratercount'] = self.count(src) if self.plan['share'] else cst.Cratercount(SOURCES[src])
                cpl.append(cst.Craterplot(p))
            cps.craterplot = cpl
        if d['kind'] == 'data':
            cps.autoscale()
        if d['kind'] == 'uncertainty':
            import numpy as np
            np.random.seed(7)
            cps.calculate_time_axis_params()
            self.extra[k] = cps.compute_age_area()
        if d['kind'] == 'map':
            self.extra[k] = cst.Spatialcount(d['src'])
        if d['kind'] == 'ra':
            ra = cst.Randomnessanalysis(d['src'])
            for m in ('m2cnd', 'sdaa'):
                ra.run_montecarlo(4 if m == 'm2cnd' else 3, m)      # recorded: only read
            ra.calculate_stats()
            self.extra[k] = ra
        self.ready[k] = cps
        return cps

    def draw(self, k, o):
        cps, d = self.get(k), self.plan['sets'][k]
        if d['kind'] == 'map':
            cps.create_map_plotspace()
            self.extra[k].plot(cps, grid=True)
        elif d['kind'] == 'ra':
            m, sel = o['what']
            if sel == [0]:
                self.extra[k].plot_n_sigma(cps, m)
            else:
                self.extra[k].plot_montecarlo_split(cps, m, selection=sel)
        else:
            cps.draw()
            if d['kind'] == 'uncertainty':
                cps.age_area_plot(o['what'], self.extra[k])
        return cps


def perform15(w, o, drawn):
    """drawn: what each set's figure currently shows completely (None if it is not complete)."""
    k, do = o['set'], o['do']
    cps = w.get(k)
    if do == 'table':
        return cps.create_summary_table()
    if do == 'csv':
        st = cps.create_summary_table(f_out='t.csv')
        if st is None:
            return None
        with open('t.csv', encoding='utf-8-sig') as f:
            return f.read()
    if do == 'scale':
        cps.autoscale()
        return {'x': cps.xrange, 'y': cps.yrange}
    if do != 'save' or drawn.get(k) is None or drawn[k] != o.get('what'):
        drawn[k] = None
        w.draw(k, o)
        drawn[k] = o.get('what', 'all')
    if do == 'draw':
        return None
    if do == 'file':
        cps.fig.savefig('o.' + o['fmt'], dpi=500, transparent=False)
        with open('o.' + o['fmt'], 'rb') as f:
            return data.canon('o.' + o['fmt'], ('file', f.read()))
    return picture(cps, o['fmt'])


def c15_body(plan, pilot=None):
    def body(s):
        w = World15(plan)
        for k in range(len(plan['sets'])):
            attempt(lambda: w.get(k))
        out, counts, drawn = [], [], {}
        for i, o in enumerate(plan['ops']):
            c0, e0 = SIM.calls, len(SIM.events)
            at = ev = None
            if pilot is not None and o.get('cut') is not None:
                nc, ne = pilot[i]
                if o.get('disk'):
                    if ne:
                        ev = e0 + int(o['cut'] * ne)
                        SIM.faults[ev] = [{'at': ev, 'act': o['disk']}]
                elif nc:
                    at = c0 + int(o['cut'] * nc)
                    SIM.call_faults[at] = {'act': CUT}
            nf = len(SIM.fired)
            res = attempt(lambda: perform15(w, o, drawn))
            SIM.call_faults.pop(at, None)
            SIM.faults.pop(ev, None)
            counts.append((SIM.calls - c0, len(SIM.events) - e0))
            out.append((res, SIM.fired[nf:]))
        return out, counts
    return body


def c15_fresh(plan, o):
    def body(s):
        w = World15(plan)
        return attempt(lambda: perform15(w, o, {}))
    return body


def c15(ctx, plan):
    bad, cases, probes, memo = [], [], {}, {}
    setup(ctx, plan)
    ops = plan['ops']

    def fresh(o):
        key = json.dumps({a: b for a, b in o.items() if a not in ('cut', 'disk')})
        if key not in memo:
            r = ctx.session(c15_fresh(plan, o))
            memo[key] = r.value if r.status == 0 else ['end', r.status, (r.err or r.tb)[-300:]]
        return memo[key]
    p = ctx.session(c15_body(plan), count_calls=True, grain=plan['grain'])
    runs = [(p, 'undisturbed')]
    if p.status == 0 and any(o.get('cut') is not None for o in ops):
        runs.append((ctx.session(c15_body(plan, p.value[1]), count_calls=True, grain=plan['grain']), 'disturbed'))
    for r, how in runs:
        if r.status:
            bad.append(V('process ends', f'{how}: status {r.status} {(r.err or r.tb)[-300:]}', plan))
            break
        for i, (o, (res, hit)) in enumerate(zip(ops, r.value[0])):
            want = fresh(o)
            cases.append({'key': json.dumps([plan['seed'], i, how, [h[2:4] for h in hit]]), 'nt': i > 0})
            key = res[0] if res[0] != 'raise' else 'raise ' + str(res[1:])[:60]
            probes[key] = probes.get(key, 0) + 1
            if hit and res[0] != 'ok':
                continue
            if res != want:
                bad.append(V('differs', f'{how}, operation {i}: {o["do"]} {o.get("what", "")} of set {o["set"]} ({plan["sets"][o["set"]]["kind"]}, {plan["sets"][o["set"]]["settings"]["presentation"]})\n after '
                                        f'{[(x["do"], x["set"]) for x in ops[:i]]}; disturbed at {[h[:3] for _, h0 in r.value[0][:i + 1] for h in h0]}\n gives {str(res)[:500]}\n first time {str(want)[:500]}',
                             plan, ops=ops[:i + 1]))
                break
        if bad:
            break
    return {'violations': bad, 'cases': cases, 'probes': probes, 'sample': {'sets': [(s['kind'], s['settings']['presentation']) for s in plan['sets']], 'ops': [(o['do'], o['set']) for o in ops]}}


# ------------------------------------------------------------------------------------------- C17
def c17_jobs(rng, tier):
    n = 500 if tier == 'quick' else 20000
    for job in range(n):
        grids = []
        for _ in range(rng.choice((1, 1, 2))):
            dmin = rng.choice((.05, .15, .5, 1., 3., 10.))
            grids.append({'cs': rng.choice(SYSTEMS), 'dmin': dmin, 'ns': rng.choice((2, 3, 4, 6, 8)), 'dims': rng.choice(('7.5x7.5', '8x5', '5x8', '4', '12x4')),
                          'x': rng.choice(([4.2, 1e-2], [4.2, .5], [4., 1.], [4.5, 0.], [4.2, 1e-4], [3.9, 3.5])), 'y': rng.choice(([-2., 8.], [0., 6.], [3., 4.], [-2., 2.], [5., 8.]))})
        ops = []
        for _ in range(rng.choice((1, 2, 3))):
            o = {'grid': rng.randrange(len(grids)), 'listen': rng.random() < .5, 'entropy': rng.randrange(1 << 30)}
            if rng.random() < .45:
                o['stop'] = rng.choice(('cancel', 'cut'))
                o['u'] = rng.random()
                o['exc'] = rng.choice(('KeyboardInterrupt', 'RuntimeError'))
                o['listen'] = o['listen'] or o['stop'] == 'cancel'
            ops.append(o)
        yield {'grids': grids, 'ops': ops, 'adv': {'seed': rng.randrange(1 << 30), 'p': rng.choice((0., .3, .7, 1.)), 'budget': 10 ** 6}, 'grain': rng.choice(('fine', 'call'))}
        if job % 40 == 20:         # undisturbed draws, judged by their distribution
            yield {'dist': {'cs': rng.choice(SYSTEMS), 'dmin': rng.choice((.15, .5, 1., 3.)), 'ns': rng.choice((30, 50)), 'dims': '7.5x7.5', 'x': [4.2, 1e-2], 'y': rng.choice(([0., 6.], [-2., 8.], [2., 5.]))},
                   'entropy': rng.randrange(1 << 30), 'listen': rng.random() < .5}


class Cancel:
    """Progress listener that gives up at one message."""
    def __init__(self, at, exc):
        self.n, self.at, self.exc = 0, at, exc

    def put(self, m, *a, **k):
        self.n += 1
        if self.at is not None and self.n > self.at:
            raise self.exc('cancelled')


def c17_set(g):
    from . import ra
    return ra.age_plotset(g['ns'], g['dmin'], g['cs'], print_dimensions=g['dims'], xrange=list(g['x']), yrange=list(g['y']))


def c17_body(plan, pilot=None):
    def body(s):
        import builtins
        import numpy as np
        sets, out = {}, []
        for i, o in enumerate(plan['ops']):
            k = o['grid']
            if k not in sets:
                sets[k] = c17_set(plan['grids'][k])
            np.random.seed(o['entropy'] & 0xffffffff)
            q, at, c0, d0 = None, None, SIM.calls, len(SIM.draws)
            if o['listen']:
                q = Cancel(None, None)
            if pilot and o.get('stop') == 'cancel':
                q = Cancel(int(o['u'] * pilot[i]['messages']), getattr(builtins, o['exc']))
            if pilot and o.get('stop') == 'cut':
                at = c0 + int(o['u'] * pilot[i]['calls'])
                SIM.call_faults[at] = {'act': CUT}
            try:
                g = sets[k].compute_age_area(progress_queue=q) if q else sets[k].compute_age_area()
                st, grid = 'ok', None if g is None else {a: b.tolist() if hasattr(b, 'tolist') else b for a, b in g.items()}
            except KeyboardInterrupt:
                st, grid = 'KeyboardInterrupt', None
            except Exception as e:
                st, grid = type(e).__name__, str(e)
            SIM.call_faults.pop(at, None)
            c = sets[k]
            out.append({'st': st, 'grid': grid, 'draws': SIM.draws[d0:], 'calls': SIM.calls - c0, 'messages': q.n if q else 0,
                        'axis': [float(c.t_min), float(c.t_crossover), float(c.t_max), float(c.xfrac_linear)]})
        return out
    return body


def c17_cells(g, axis, cells):
    """Expected number, uncertainty and ratio of cells (i, j, k), each evaluated on its own in a fresh process and by
    an independent calculation."""
    def body(s):
        import craterstats as cst
        import numpy as np
        fns = cst.Functionslist().functions
        d = next(e for e in fns['chronology_system'] if e['name'] == g['cs'])
        cf, pf = cst.Chronologyfn(fns, d['cf']), cst.Productionfn(fns, d['pf'])
        r = [g['dmin'], 1000.]
        x = np.linspace(-10, 5, 30001)
        t = cf.t(a0=cf.a0(1.) + x)
        dt = np.gradient(t)
        n1 = pf.evaluate('cumulative', r, a0=cf.a0(1.))
        logphi = np.log(np.maximum(cf.phi(t), 1e-300))
        out = []
        for la, ly, k in reversed(cells):
            lam = pf.evaluate('cumulative', r, a0=cf.a0(10 ** la))
            lam = float((lam[0] - lam[1]) * 10 ** ly)
            cc = cst.Cratercount()
            cc.diam, cc.area = [math.sqrt(r[0] * r[1])], 10 ** ly
            with np.errstate(all='ignore'):
                p = cst.Craterpdf(pf, cf, cc, list(r), k=k, bcc=False, n_samples=2000)
                m = p.median1sigma()
                err, ratio = float(np.sqrt(m[2] / m[1]) - 1), float(m[0] / 10 ** la)
            model = None
            if k <= 400:
                L = (n1[0] - n1[1]) * 10 ** x * 10 ** ly
                w = k * np.log(L) - L + logphi
                w = np.exp(w - w.max()) * dt
                c = np.cumsum(w) / w.sum()
                if c[0] < 1e-3 and c[-2] < 1 - 1e-3 or c[0] < 1e-3 and w[-1] < 1e-6 * w.max():
                    f = [float(np.interp(v, c, t)) for v in (.5, .158655, .841345)]
                    model = [math.sqrt(f[2] / f[1]) - 1, f[0] / 10 ** la]
            out.append([lam, 0. if err != err else err, 1. if ratio != ratio else ratio, model])
        return out[::-1]
    return body


def c17_axes(g, e):
    """Ages and areas of the cells, from the size of the grid and the axes of the plot."""
    import numpy as np
    t0, tc, t1, lin = e['axis']
    kk = e['grid']['kk']
    nx, ny = len(kk), len(kk[0])
    nlin = round(nx * lin)
    if t0 <= 0 and nx > nlin:
        return None, None
    log = np.linspace(np.log10(t0), np.log10(tc), nx - nlin) if nx > nlin else []
    age = np.concatenate((log, np.log10(np.linspace(tc, t1, nlin + 1)[1:])))
    return age, np.linspace(g['y'][0], g['y'][1], ny)


def near(a, b, rel):
    return a == b or (a != a and b != b) or abs(a - b) <= rel * max(abs(a), abs(b), 1e-300)


def c17_dist(ctx, plan):
    """Counts of a large grid follow Poisson distributions with the expected numbers given, independently of each other.
    Each criterion is exceeded by chance less than once in 10^9 runs."""
    import numpy as np
    from scipy.special import pdtr, ndtri
    g = plan['dist']
    ctx.reset()

    def body(s):
        q = Cancel(None, None) if plan['listen'] else None
        r = c17_set(g).compute_age_area(progress_queue=q) if q else c17_set(g).compute_age_area()
        return r['kk'].tolist(), r['lm'].tolist()
    r = ctx.session(body, entropy=plan['entropy'])
    if r.status:
        return {'violations': [V('incomplete', f'evaluation of {g}: {r.status} {(r.err or r.tb)[-300:]}', plan)], 'cases': []}
    k, lam = map(np.array, r.value)
    rng = np.random.Generator(np.random.PCG64(plan['entropy']))
    use = (lam > .05) & (lam < 1e5)
    u = np.clip(pdtr(k - 1, lam) * (k > 0) + rng.random(k.shape) * (pdtr(k, lam) - pdtr(k - 1, lam) * (k > 0)), 1e-15, 1 - 1e-15)
    n = int(use.sum())
    why, where = None, f'{g}, {n} cells with random counts'
    if n >= 50:
        v = np.sort(u[use])
        ks = max(np.max(np.arange(1, n + 1) / n - v), np.max(v - np.arange(n) / n)) * np.sqrt(n)
        if ks > 3.3:
            why = f'counts are not distributed as their expected numbers say (Kolmogorov-Smirnov {ks:.2f})'
        z = np.where(use, ndtri(u), 0)
        for name, a, b, m in (('age', z[1:], z[:-1], use[1:] & use[:-1]), ('area', z[:, 1:], z[:, :-1], use[:, 1:] & use[:, :-1])):
            c = float((a * b).sum() / np.sqrt(max(m.sum(), 1)))
            if m.sum() >= 50 and abs(c) > 7.5:
                why = f'counts of cells neighbouring in {name} depend on each other ({c:.1f} standard deviations)'
    bad = [V('distribution', f'{where}: {why}', plan)] if why else []
    return {'violations': bad, 'cases': [{'key': json.dumps([g['cs'], g['dmin'], g['ns'], plan['entropy']]), 'nt': n >= 50}], 'probes': {'cells judged by distribution': n}, 'sample': plan}


def c17(ctx, plan):
    if 'dist' in plan:
        return c17_dist(ctx, plan)
    import numpy as np
    ctx.reset()
    bad, cases, probes = [], [], {}

    def one(what, r, pilot):
        if r.status:
            bad.append(V('process ends', f'{what}: {r.status} {(r.err or r.tb)[-300:]}', plan))
            return
        for i, (o, e) in enumerate(zip(plan['ops'], r.value)):
            g = plan['grids'][o['grid']]
            where = f'{what}, evaluation {i} of {g}'
            stopped = pilot and o.get('stop')
            probes[e['st']] = probes.get(e['st'], 0) + 1
            if e['st'] != 'ok':
                if not stopped and (pilot is None or pilot[i]['st'] == 'ok'):
                    alone = ctx.session(c17_body({**plan, 'ops': [{k: v for k, v in o.items() if k != 'stop'}]}), draws=True, adv=plan['adv'], count_calls=True)
                    if alone.status == 0 and alone.value[0]['st'] == 'ok':
                        bad.append(V('incomplete', f'{where} ended with {e["st"]} {e["grid"]}', plan, ops=plan['ops'][:i + 1]))
                        return
                continue
            if stopped and o['stop'] == 'cancel':
                bad.append(V('cancel-ignored', f'{where}: cancelled by {o["exc"]} at message {int(o["u"] * pilot[i]["messages"])} of {pilot[i]["messages"]} but a grid was returned', plan, ops=plan['ops'][:i + 1]))
                return
            if e['grid'] is None:
                bad.append(V('no grid', f'{where} ended without a grid', plan, ops=plan['ops'][:i + 1]))
                return
            why = judge(g, e)
            if why:
                bad.append(V('cell', f'{where}: {why}', plan, ops=plan['ops'][:i + 1]))
                return

    def judge(g, e):
        G = e['grid']
        nx, ny = len(G['kk']), len(G['kk'][0])
        for n in ('zz', 'ee', 'lm', 'kk'):
            if len(G[n]) != nx or any(len(c) != ny for c in G[n]):
                return f'{n} has another shape than kk'
        if (G['nsx'], G['nsy']) != (nx, ny):
            return f'grid of {nx}x{ny} reported as {G["nsx"]}x{G["nsy"]}'
        age, area = c17_axes(g, e)
        if age is None or len(age) != nx:
            return None
        pool = {}
        for lam, k in e['draws']:
            pool.setdefault(round(math.log(lam), 7) if lam > 0 else None, []).append(k)
        cells = [(float(age[i]), float(area[j]), int(G['kk'][i][j])) for i in range(nx) for j in range(ny)]
        r = ctx.session(c17_cells(g, e['axis'], cells))
        if r.status:
            return f'a cell cannot be evaluated alone: {(r.err or r.tb)[-200:]}'
        for n, (lam, err, ratio, model) in enumerate(r.value):
            i, j = divmod(n, ny)
            k, zz, ee, lm = G['kk'][i][j], G['zz'][i][j], G['ee'][i][j], G['lm'][i][j]
            cell = f'cell ({i},{j}) of {nx}x{ny}, age {10 ** age[i]:.4g} Ga, area 10^{area[j]:.3g} km2, expected number {lam:.6g}, count {k:g}'
            probes['cells'] = probes.get('cells', 0) + 1
            cases.append({'key': json.dumps([g['cs'], g['dmin'], round(lam, 6), k]), 'nt': abs(k - lam) > .5})
            if k != int(k) or k < 0:
                return f'{cell}: not a count'
            if not near(lm, lam, 1e-9):
                return f'{cell}: expected number given as {lm!r}'
            if lm >= 1e5:
                if abs(k - lam) > 1:
                    return f'{cell}: large expected number not used as the count'
            elif e['draws']:
                own = pool.get(round(math.log(lm), 7) if lm > 0 else None) or []
                if k not in own:
                    return f'{cell}: count drawn for this expected number was {own}'
                own.remove(k)
            if not near(zz, err, 1e-7) or not near(ee, ratio, 1e-7):
                return f'{cell}: uncertainty {zz!r} and ratio {ee!r}, evaluated alone {err!r} and {ratio!r}'
            if model:
                probes['model_cells'] = probes.get('model_cells', 0) + 1
                if abs(math.log1p(zz) - math.log1p(model[0])) > .03 or abs(math.log(max(ee, 1e-300)) - math.log(model[1])) > .04:
                    return f'{cell}: uncertainty {zz:.4g} and ratio {ee:.4g}, independent calculation {model[0]:.4g} and {model[1]:.4g}'
        left = sum(map(len, pool.values()))
        if left:
            probes['unused_draws'] = probes.get('unused_draws', 0) + left
        return None
    sp = {'draws': True, 'adv': plan['adv'], 'count_calls': True, 'grain': plan['grain']}
    p = ctx.session(c17_body(plan), **sp)
    one('undisturbed', p, None)
    if not bad and p.status == 0 and any(o.get('stop') for o in plan['ops']):
        # after a stopped evaluation the same one is asked for again
        one('disturbed', ctx.session(c17_body(plan, p.value), **sp), p.value)
        ops = []
        for o in plan['ops']:
            ops += [o] if not o.get('stop') else [o, {**o, 'stop': None, 'listen': False}]
        again = {**plan, 'ops': ops}
        p2 = ctx.session(c17_body(again), **sp)
        if not bad and p2.status == 0:
            saved, plan['ops'] = plan['ops'], ops
            one('disturbed and repeated', ctx.session(c17_body(again, p2.value), **sp), p2.value)
            plan['ops'] = saved
    return {'violations': bad[:1], 'cases': cases, 'probes': probes, 'sample': {'grids': plan['grids'], 'ops': [(o.get('stop'), o['listen']) for o in plan['ops']]}}

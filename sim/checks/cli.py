"""Command line: failing disks, killed commands, sequences of commands, environments."""
import json, os, random, re

from .. import commands, data, faults, pool
from . import ra


def V(kind, detail, plan, **change):
    return {'kind': kind, 'detail': detail, 'plan': {**plan, **change}}


def setup(ctx, plan):
    ctx.reset()
    data.put(ctx.root, commands.inputs(plan['seed']))
    base = plan.get('cmd', {}).get('base')
    if base and plan['cmd']['kind'] != 'i':       # files of the user's under names that merely begin like the output name
        b = commands._w(base)
        data.put(ctx.root, {b + e: f'{e}, not an output of this command\n' for e in ('_notes.csv', '-old.svg', '2.diam', '.dat', ' copy.cs', '.bak')})


def sweep(ctx, plan):
    """Development aid: which generated commands fail undisturbed?"""
    out = []
    rng = random.Random(plan['seed'])
    for i in range(plan['n']):
        c = commands.gen(rng, i, plan.get('kinds', commands.KINDS))
        setup(ctx, plan)
        import time
        t0 = time.perf_counter()
        r = ctx.session(lambda S: S.cli(c['argv']))
        t1 = time.perf_counter() - t0
        miss = [p for p in c['promises'] if not os.path.exists(os.path.join(ctx.root, p))]
        out.append([c['kind'], round(t1, 2), r.status, miss, ' '.join(c['argv']) if r.status or miss else '', (r.err or r.tb)[-700:] if r.status else ''])
    return {'violations': [], 'out': out}


BAD_END = ('hang', 'crash', 'liveness', 'stuck')
ANNOUNCE = ('written to', 'Merged file', 'path to functions')


def execute(ctx, cmd, **sp):
    if 'which' in cmd:
        return ctx.session(_demo_body(cmd['which']), **sp)
    return ctx.session(lambda S: S.cli(cmd['argv']), **sp)


def state(ctx, skip=()):
    s = data.snap(ctx.root, ('tmp',) + tuple(skip))
    return {k: v for k, v in s.items() if not k.endswith('.tmp')}


def canonical(ctx, s):
    return data.canon_all(s, ctx.root)


def differences(base, now, only=None):
    """Names under which two fingerprint maps differ."""
    return sorted(k for k in set(base) | set(now) if (only is None or k in only) and base.get(k) != now.get(k))


def show(cmd):
    return 'craterstats ' + ' '.join(cmd['argv']) + (f' (items {cmd["which"]})' if 'which' in cmd else '')


def failure(r):
    return f'status {r.status}; fired {[tuple(f) for f in r.fired][:3]}; message {(r.err or r.tb).strip()[-200:]!r}'


def pilot_of(ctx, plan, cmd, **sp):
    """Undisturbed run: (result, fingerprints before, fingerprints after)"""
    setup(ctx, plan)
    before = canonical(ctx, state(ctx))
    r = execute(ctx, cmd, entropy=plan.get('entropy', 1), **sp)
    return r, before, canonical(ctx, state(ctx))


def unkept(cmd, after):
    return [p for p in cmd['promises'] if p not in after or after[p].startswith('INVALID')]


# ------------------------------------------------------------------------------------------- C08
def c08_jobs(rng, tier):
    n = 140 if tier == 'quick' else 4000
    for i in range(n):
        cmd = commands.gen(rng, i, commands.KINDS + ('user', 'demo'))
        yield {'seed': rng.randrange(1 << 30), 'entropy': rng.randrange(1 << 30), 'cmd': cmd,
               'faults': [dict(faults.choose(rng, ('full', 'error', 'error', 'torn')), short=rng.randrange(1 << 20) if rng.random() < .15 else None,
                               buf=rng.choice((None, None, 512))) for _ in range(3 if cmd['kind'] in ('unc', 'demo') else 8)]}


def c08(ctx, plan):
    cmd, bad, cases, probes = plan['cmd'], [], [], {}
    bs = base_spec(ctx, cmd)
    pilots = {}

    def pilot(buf):
        if buf not in pilots:
            pilots[buf] = pilot_of(ctx, plan, cmd, bufsize=buf, **bs)
        return pilots[buf]
    p, before, after = pilot(None)
    if p.status != 0:
        return {'violations': [], 'cases': [], 'probes': {'undisturbed_failure': 1}}
    miss = unkept(cmd, after)
    if miss:
        bad.append(V('incomplete', f'{show(cmd)}\nends successfully without a valid {miss[0]}', plan, faults=[]))
    for f in plan['faults']:
        p, before, after = pilot(f['buf'])
        if p.status != 0:
            continue
        add = faults.spec(f, p, skip=('.tif',))
        if add is None:
            probes['no_such_point'] = probes.get('no_such_point', 0) + 1
            continue
        setup(ctx, plan)
        r = execute(ctx, cmd, **faults.merge({'entropy': plan['entropy'], 'bufsize': f['buf'], **bs}, add))
        now = canonical(ctx, state(ctx))
        cases.append({'key': json.dumps([cmd['argv'], f['what'], f['act'], [e[1:4] for e in r.fired[:1]]]), 'nt': bool(r.fired)})
        wrong = [k for k in differences(after, now) if before.get(k) != after.get(k)]
        if r.status in BAD_END:
            bad.append(V('no-end', f'{show(cmd)}\n{failure(r)}', plan, faults=[f]))
        elif r.status == 0 and wrong:
            k = wrong[0]
            bad.append(V('false-success', f'{show(cmd)}\nsucceeded but {k} is {"missing" if k not in now else "not what an undisturbed run writes"}; fired {r.fired[:2]}; '
                                          f'output {r.out[-200:]!r}', plan, faults=[f]))
        elif r.status != 0 and wrong:
            probes['failed_with_status'] = probes.get('failed_with_status', 0) + 1
            said = [l for l in r.out.split('\n') if any(a in l for a in ANNOUNCE) and l in p.out.split('\n')]
            if said and not (cmd['kind'] == 'demo'):
                bad.append(V('false-announcement', f'{show(cmd)}\nannounced {said[0]!r} but {wrong[0]} is not complete; {failure(r)}', plan, faults=[f]))
        if f.get('short') is not None:      # legal short writes and reads change nothing
            setup(ctx, plan)
            r = execute(ctx, cmd, entropy=plan['entropy'], short_io=f['short'], **bs)
            now = canonical(ctx, state(ctx))
            cases.append({'key': json.dumps([cmd['argv'], 'short', f['short']])})
            d = differences(after, now)
            if r.status != 0 or d:
                bad.append(V('short-io', f'{show(cmd)}\nwith short reads and writes: {d[:2]} {failure(r)}', plan, faults=[f]))
        if len(bad) >= 2:
            break
    return {'violations': bad, 'cases': cases, 'probes': probes, 'sample': {'argv': cmd['argv'], 'faults': plan['faults'][:2]}}


# ------------------------------------------------------------------------------------------- C09
def base_spec(ctx, cmd):
    return {'env': {'CONDA_PREFIX': ctx.root + '/conda'}} if cmd['kind'] == 'user' else {}


def c09_jobs(rng, tier):
    n = 120 if tier == 'quick' else 4000
    kinds = ('kill', 'kill', 'interrupt', 'full', 'error', 'torn', 'read', 'call', 'call', 'memory', 'task', 'tasks', 'death')
    for i in range(n):
        cmd = commands.gen(rng, i, commands.KINDS + ('user', 'ra', 'ra', 'demo', 'demo'))
        yield {'seed': rng.randrange(1 << 30), 'entropy': rng.randrange(1 << 30), 'cmd': cmd,
               'runs': [{'faults': [dict(faults.choose(rng, kinds if cmd['kind'] == 'ra' else kinds[:-3]), buf=rng.choice((None, None, 512)))
                                    for _ in range(rng.choice((1, 1, 2, 3)))]} for _ in range(2 if cmd['kind'] in ('unc', 'demo') else 4)]}


def images_of(cmd, names):
    """Outputs of a randomness analysis that may differ in the last printed digit when recorded results are reused."""
    return {k for k in names if cmd['kind'] == 'ra' and not k.endswith('.cs')}


def c09(ctx, plan):
    cmd, bad, cases, probes = plan['cmd'], [], [], {}
    bs = base_spec(ctx, cmd)
    pilots = {}

    def pilot(buf, calls):
        if (buf, calls) not in pilots:
            pilots[buf, calls] = pilot_of(ctx, plan, cmd, bufsize=buf, count_calls=calls, **bs)
        return pilots[buf, calls]
    p, before, after = pilot(None, False)
    if p.status != 0:
        return {'violations': [], 'cases': [], 'probes': {'undisturbed_failure': 1}}       # e.g. no crater in the range to fit
    made = {k for k in after if before.get(k) != after[k]}
    loose = images_of(cmd, made)
    kept = {k for k in before if k not in made}
    ra_file = next((k for k in made if k.endswith('_ra.txt')), None)
    truth = data.read_ra(os.path.join(ctx.root, ra_file)) if ra_file else None
    for run in plan['runs']:
        setup(ctx, plan)
        fired, ends = [], []
        for f in run['faults']:
            pp = pilot(f['buf'], f['what'] == 'call')[0]
            add = faults.spec(f, pp, skip=('.tif',))
            if add is None:
                probes['no_such_point'] = probes.get('no_such_point', 0) + 1
                continue
            r = execute(ctx, cmd, **faults.merge({'entropy': plan['entropy'], 'bufsize': f['buf'], **bs}, add))
            fired += [e[:3] for e in r.fired[:1]]
            ends.append(r.status)
            if r.status in BAD_END:
                bad.append(V('no-end', f'{show(cmd)}\n{failure(r)}', plan, runs=[run]))
        r = execute(ctx, cmd, entropy=plan['entropy'], **bs)
        now = canonical(ctx, state(ctx))
        cases.append({'key': json.dumps([cmd['argv'], [(f['what'], f['act']) for f in run['faults']], fired]), 'nt': any(e != 0 for e in ends)})
        story = f'{show(cmd)}\nearlier attempts ended {ends} ({fired}); then '
        if r.status != 0:
            bad.append(V('cannot-rerun', story + failure(r), plan, runs=[run]))
        else:
            d = [k for k in sorted(made - loose) if now.get(k) != after[k]]
            inv = [k for k in sorted(loose) if k not in now or now[k].startswith('INVALID')]
            lost = [k for k in sorted(kept) if now.get(k) != before[k]]
            if d or inv:
                k = (d or inv)[0]
                bad.append(V('differs', story + f'running it again leaves {k} {"missing" if k not in now else "different from an undisturbed run"}', plan, runs=[run]))
            if lost:
                bad.append(V('lost', story + f'{lost[0]} was {"removed" if lost[0] not in now else "changed"}', plan, runs=[run]))
            if ra_file and not inv:
                try:
                    got = data.read_ra(os.path.join(ctx.root, ra_file))
                    if not ra.close(got, truth):
                        bad.append(V('differs', story + 'running it again records other results', plan, runs=[run]))
                except data.BadFile as e:
                    bad.append(V('differs', story + f'the recorded results are invalid: {e}', plan, runs=[run]))
        if len(bad) >= 2:
            break
    return {'violations': bad, 'cases': cases, 'probes': probes, 'sample': {'argv': cmd['argv'], 'runs': plan['runs'][:1]}}


# ------------------------------------------------------------------------------------------- C10
SAMPLE = '%sample%/'


def c10_jobs(rng, tier):
    n = 150 if tier == 'quick' else 5000
    for i in range(n):
        k = rng.random()
        if k < .45:
            cmd = commands.gen(rng, i, commands.KINDS + ('user', 'ra', 'shp', 'stat', 'demo'))
        elif k < .8:
            cmd = commands.gen(rng, i, commands.KINDS + ('ra',), where='default')
        elif k < .9:        # a directory as output
            cmd = commands.gen(rng, i, ('plot', 'csv', 'chron', 'ra', 'stat', 'shp', 'map', 'seq'), where='default')
            d = rng.choice(('sub', 'sub/', '../other'))
            cmd['argv'] = ['-o', d] + cmd['argv']
            cmd['dir'] = commands._w(d).rstrip('/')
        else:               # installed samples; settings from a command file named like the output
            cmd = rng.choice(INSTALLED)
            cmd = {'kind': 'sample', 'argv': list(cmd), 'base': None, 'promises': []}
        yield {'seed': rng.randrange(1 << 30), 'entropy': rng.randrange(1 << 30), 'cmd': cmd,
               'faults': [dict(faults.choose(rng, ('kill', 'interrupt', 'full', 'error', 'torn', 'read', 'call', 'memory', 'memory')), buf=rng.choice((None, None, 512)))
                          for _ in range(3 if cmd['kind'] in ('unc', 'demo') else 6)]}


INSTALLED = [['-inc', 'a.cs', '-p', 'source=a.diam,type=poisson,range=[.15,.6]'], ['-f', 'csv', '-inc', 'a.cs', '-p', 'source=a.diam,type=poisson,range=[.15,.6]'],
             ['-cs', 'n83', '-f', 'csv', 'svg', '-p', 'source=%sample%/Pickering.scc', '-p', 'type=poisson,range=[.2,.7]'],
             ['--convert', 'stat', '%sample%/Pickering.scc'], ['--convert', 'svg', '%sample%/c1.scc'], ['--convert', 'scc', '%sample%/ejecta01_CRATER.shp'],
             ['--convert', 'shp', '%sample%/c2.scc'], ['-ra', '%sample%/c1.scc', '-trials', '3', '-f', 'svg'], ['-m', '%sample%/e1.diam', '%sample%/e3.diam'],
             ['-f', 'svg', '-p', 'source=%sample%/CE-6 8-km vicinity.scc', '-p', 'type=poisson,range=[.12,.2]']]
_installed = {}


def meta(root):
    """Everything about the files under root that a user could notice."""
    out = {}
    for k, v in data.snap(root, ('tmp',)).items():
        st = os.lstat(os.path.join(root, k))
        out[k] = v + ((st.st_mode,) if v[0] == 'dir' else (st.st_mode, st.st_mtime_ns))
    return out


HERE = None      # the installation before the package was imported


def installation():
    top, out = os.environ['VERIF_REPO'] + '/src', {}
    for d, dirs, files in os.walk(top):
        dirs[:] = [x for x in dirs if x != '__pycache__']
        for x in files:
            st = os.lstat(os.path.join(d, x))
            out[os.path.join(d, x)] = (st.st_mode, st.st_size, st.st_mtime_ns)
    return out


def tmpname(k):
    b = os.path.basename(k)
    return b.startswith('.') or 'tmp' in b.lower() or b.endswith('~')


def may_write(cmd, k):
    d, b = os.path.split(k)
    if 'which' in cmd and k == 'w/demo':
        return True
    if cmd['kind'] == 'user':
        want, prefix = 'conda/etc', 'config_functions_user'
    elif cmd.get('dir'):
        want, prefix = cmd['dir'], ''
    elif cmd['base'] is None:
        want, prefix = 'w', ''
    else:
        want, prefix = os.path.split(commands._w(cmd['base']))
    return d == want and (b.startswith(prefix) or tmpname(k))


def c10(ctx, plan):
    cmd, bad, cases, probes = plan['cmd'], [], [], {}
    bs = base_spec(ctx, cmd)
    here = HERE or installation()
    pilots = {}

    def prepare():
        setup(ctx, plan)
        data.put(ctx.root, {'w/a.cs': '-cs ni2001\n-f csv\n'})
        return meta(ctx.root)

    def judge(r, before, f):
        now = meta(ctx.root)
        said = f'{show(cmd)}\n{failure(r)}: '
        ch = dict(faults=[] if f is None else [f])
        own = {'w/a.cs'} if cmd['base'] is None and 'a.cs' not in cmd['argv'] else set()      # an earlier output of the same name
        for k in sorted(before):
            if now.get(k) != before[k] and k not in own:
                what = 'removed' if k not in now else 'changed' if now[k][:2] != before[k][:2] else 'touched'
                bad.append(V('input-modified', said + f'{k} was {what}', plan, **ch))
                return
        for k in sorted(set(now) - set(before)):
            if not may_write(cmd, k.rstrip('/')):
                bad.append(V('stray-file', said + f'{k} was created', plan, **ch))
                return
        if r.escapes:
            bad.append(V('escape', said + f'tried to write elsewhere: {r.escapes[:2]}', plan, **ch))
        if installation() != here:
            bad.append(V('installation', said + 'installed files changed', plan, **ch))

    def pilot(buf, calls):
        if (buf, calls) not in pilots:
            before = prepare()
            r = execute(ctx, cmd, entropy=plan['entropy'], bufsize=buf, count_calls=calls, **bs)
            judge(r, before, None)
            pilots[buf, calls] = r
        return pilots[buf, calls]
    p = pilot(None, False)
    cases.append({'key': json.dumps(cmd['argv']), 'nt': True})
    if p.status != 0:
        probes['undisturbed_failure'] = 1
    for f in plan['faults']:
        add = faults.spec(f, pilot(f['buf'], f['what'] == 'call'))
        if add is None:
            continue
        before = prepare()
        r = execute(ctx, cmd, **faults.merge({'entropy': plan['entropy'], 'bufsize': f['buf'], **bs}, add))
        cases.append({'key': json.dumps([cmd['argv'], f['what'], f['act'], [e[1:4] for e in r.fired[:1]]]), 'nt': bool(r.fired)})
        judge(r, before, f)
        if bad:
            break
    return {'violations': bad, 'cases': cases, 'probes': probes, 'sample': {'argv': cmd['argv'], 'faults': plan['faults'][:2]}}


# ------------------------------------------------------------------------------------------- C11
def c11_jobs(rng, tier):
    n = 150 if tier == 'quick' else 5000
    kinds = tuple(k for k in commands.KINDS if k != 'unc') + ('shp', 'scc', 'map', 'i')
    for i in range(n):
        yield {'seed': rng.randrange(1 << 30), 'entropy': rng.randrange(1 << 30), 'cmd': commands.gen(rng, i, kinds), 'short': rng.randrange(1 << 20),
               'faults': [{'path': rng.random(), 'at': rng.random(), 'how': rng.choice(('once', 'open', 'from', 'all', 'group')), 'act': rng.choice(('eio', 'eacces', 'enoent', 'emfile'))}
                          for _ in range(7)]}


def c11(ctx, plan):
    cmd, bad, cases, probes = plan['cmd'], [], [], {}
    p, before, after = pilot_of(ctx, plan, cmd)
    if p.status != 0:
        return {'violations': [], 'cases': [], 'probes': {'undisturbed_failure': 1}}
    ra_file = next((k for k in after if k.endswith('_ra.txt') and k not in before), None)
    truth = data.read_ra(os.path.join(ctx.root, ra_file)) if ra_file else None
    reads = {}
    for i, e in enumerate(p.events):
        if faults.reading(e) and (e[1] in before or e[1].startswith('REPO/') and 'functions' in e[1]):
            reads.setdefault(e[1], []).append(i)
    paths = sorted(reads)
    for f in plan['faults'] + [None]:
        if f is None:
            add, what = {'short_io': plan['short']}, 'short reads and writes'
        else:
            path = faults._pick(paths, f['path'])
            ev = reads[path]
            if f['how'] == 'once':
                k = faults._pick([i for i in ev if p.events[i][0] != 'open'] or ev, f['at'])
                add = {'faults': [{'at': k, 'act': f['act'] if f['act'] != 'enoent' else 'eio'}]}
            elif f['how'] == 'open':
                k = faults._pick([i for i in ev if p.events[i][0] == 'open'] or ev, f['at'])
                add = {'faults': [{'at': k, 'act': f['act']}]}
            else:
                group = [q for q in paths if f['how'] == 'group' and os.path.splitext(q)[1] == os.path.splitext(path)[1]] or [path]     # all inputs of one kind
                ev = sorted(i for q in group for i in reads[q])
                k = faults._pick(ev, f['at']) if f['how'] == 'from' else ev[0]
                path = ' and '.join(group)
                add = {'faults': [{'at': k, 'act': f['act'], 'sticky': True, 'kinds': ('open', 'read'), 'path': group}]}
            what = f'{f["act"]} on {path} ({p.events[k][0]} {k})'
        setup(ctx, plan)
        r = execute(ctx, cmd, entropy=plan['entropy'], **add)
        now = canonical(ctx, state(ctx))
        cases.append({'key': json.dumps([cmd['argv'], what]), 'nt': bool(r.fired or r.shorts)})
        story = f'{show(cmd)}\nwith {what} (ended {r.status} {(r.err or r.tb).strip()[-150:]!r}): '
        ch = dict(faults=[f] if f else [])
        if r.status in BAD_END:
            bad.append(V('no-end', story + 'no regular end', plan, **ch))
            continue
        new = [k for k in sorted(now) if now[k] != before.get(k)]
        wrong = [k for k in new if now[k] != after.get(k)]
        if truth and r.status != 0:
            wrong = [k for k in wrong if not k.endswith('_ra.txt')]
            if ra_file in now:
                try:
                    got = data.read_ra(os.path.join(ctx.root, ra_file))
                    if any(not ra.close_m(got, truth, m) for m in got['measures']):
                        wrong.append(ra_file)
                except data.BadFile:
                    wrong.append(ra_file)
        if wrong:
            bad.append(V('other-result', story + f'{wrong[0]} differs from what the complete input gives', plan, **ch))
        elif r.status == 0 and [k for k in after if now.get(k) != after[k]]:
            k = [k for k in after if now.get(k) != after[k]][0]
            bad.append(V('false-success', story + f'{k} is missing', plan, **ch))
        elif f is None and r.status != 0:
            bad.append(V('short-io', story + 'failed', plan, **ch))
        elif r.status == 0 and f:
            probes['not_needed'] = probes.get('not_needed', 0) + 1
        if len(bad) >= 2:
            break
    return {'violations': bad, 'cases': cases, 'probes': probes, 'sample': {'argv': cmd['argv'], 'faults': plan['faults'][:2]}}


def dev(ctx, plan):
    """Development aid: one command."""
    setup(ctx, plan)
    r = ctx.session(lambda S: S.cli(plan['argv']))
    return {'violations': [], 'out': [r.status, r.out[-1500:], (r.err or r.tb)[-2500:]]}


# ------------------------------------------------------------------------------------------- C12
CONF = 'conda/etc/config_functions_user.txt'
USERFN = """chronology_system={
  body='Moon'
  name='%(n)s'
  cf='Moon, Neukum (1983)'
  pf='%(n)s'
}

production={
   name='%(n)s'
   coefficients=*[%(c)s,-3.6269,0.43662,0.79347,0.086468,-0.26485,-0.066382,0.037923,0.010596,-0.0022496,-0.00051797,0.0000397]
   range=[.01,300.]
}
"""
# a file which also defines functions under names of built-in ones: commands using the built-in names keep their outputs
SHADOW = """
production={
   name='Mars, Ivanov (2001)'
   coefficients=*[-2.5339,-3.2,0.3,0.6,0.08,-0.2,-0.06,0.03,0.01,-0.002,-0.0005,0.00003]
   range=[.1,30.]
}
chronology={
    name='Mars, Hartmann & Neukum (2001)'
    coefficients=[5.44E-13,6.93E0,0,8.38E-3]
}
"""
TWELVE = {'uf A.txt': ('Alpha system', -2.5), '../other/ufB.txt': ('Beta system', -2.1), "it's; #1.txt": ('Gamma system', -2.3), '../other/d  d/\u00fcser.fn': ('Delta system', -2.2)}
NAMES = [v[0] for v in TWELVE.values()]
PATHS = list(TWELVE) + ['empty.txt', 'missing.txt', 'nodir/missing.txt']


def c12_content(path, how):
    """Content of a user functions file in a given state, and whether its system is: present (True), absent (False) or either (None)."""
    if path not in TWELVE:
        return ('', False) if path == 'empty.txt' else (None, False)
    t = USERFN % dict(zip('nc', TWELVE[path]))
    kind, _, x = how.partition(':')
    if kind == 'valid':
        return {'0': t, '1': '\n# user functions\n' + t, '2': '\ufeff' + t.replace('\n', '\r\n'), '3': t.rstrip('\n') + ' ; end'}[x or '0'].encode(), True
    if kind == 'shadow':
        return (SHADOW + t).encode(), True
    if kind == 'truncated':
        return t.encode()[:int(x)], None
    if kind == 'garbage':
        return {'0': b'\xff\xfe\x00\x81 no text at all \x9d\n=\n', '1': b'chronology_system={\n}\n', '2': b"chronology_system='x'\nequilibrium=*[1,2]\nepochs={a, b\n 1 2\n\n}\n", '3': b"}}}\n{{{{ \"\n'\n=\n"}[x], None
    return ('', False) if kind == 'empty' else (None, False)


def c12_plot(cs, out):
    return ['-cs', cs, '-f', 'csv', 'svg', '-o', out, '-p', 'source=a.diam,type=poisson,range=[.15,.6]']


def c12_jobs(rng, tier):
    n = 150 if tier == 'quick' else 5000
    state = lambda: rng.choice(('missing', 'empty', 'valid:%d' % rng.randrange(4), 'valid:0', 'shadow', 'truncated:%d' % rng.randrange(1, 330), 'truncated:%d' % rng.randrange(1, 330), 'garbage:%d' % rng.randrange(4)))
    for i in range(n):
        ops = []
        where = lambda: rng.choice(('w', 'w/sub', 'other'))
        for _ in range(rng.choice((3, 4, 6))):
            k = rng.random()
            if k < .5:
                ops.append({'op': 'set', 'path': rng.choice(PATHS[:4] if rng.random() < .8 else PATHS), 'cwd': rng.choice(('w', 'w', 'w/sub')), 'abs': rng.random() < .4,
                            'faults': [faults.choose(rng, ('kill', 'kill', 'interrupt', 'full', 'error', 'torn', 'call', 'memory'))] if rng.random() < .7 else []})
            elif k < .66:
                last = [o['path'] for o in ops if o['op'] == 'set' and o['path'] in TWELVE]
                ops.append({'op': 'file', 'path': last[-1] if last and rng.random() < .7 else rng.choice(PATHS[:4]), 'to': state()})
            else:
                ops.append({'op': 'use', 'cwd': where(), 'faults':
                            [{'path': rng.choice(('conf', 'file')), 'how': rng.choice(('open', 'read', 'all')), 'act': rng.choice(('eio', 'eacces', 'enoent'))}] if rng.random() < .4 else []})
            if ops[-1]['op'] != 'use' and rng.random() < .7:
                ops.append({'op': 'use', 'cwd': where(), 'faults': []})
        yield {'seed': rng.randrange(1 << 30), 'entropy': rng.randrange(1 << 30), 'ops': ops, 'plot': rng.random() < .6,
               'cs': rng.choice(('ni2001', 'Mars, Neukum-Ivanov (2001)', 'n83', 'ida'))}


def c12(ctx, plan):
    """
    Model: the setting is one of a set of possible absolute paths (None: never set); the content of the file it names
    says whether its system has to be listed. Built-in entries are listed, and built-in plots unchanged, in every state.
    """
    bad, cases, probes = [], [], {}
    env = {'env': {'CONDA_PREFIX': ctx.root + '/conda'}}

    def listing(cwd='w', **sp):
        return ctx.session(lambda S: S.cli(['-lcs']), cwd=cwd, **{**env, **sp})

    def plotted(cs, out, **sp):
        r = ctx.session(lambda S: S.cli(c12_plot(cs, out)), **{**env, **sp})
        return r, {k: v for k, v in canonical(ctx, state(ctx)).items() if k.startswith(f'w/{out}.')}
    setup(ctx, plan)
    builtin = listing()
    listed = builtin.out.split('\n')
    cs = plan['cs']
    setup(ctx, plan)
    base, want_plot = plotted(cs, 'built in')
    lines = set(listed)
    if builtin.status != 0 or base.status != 0:
        return {'violations': [V('no-listing', failure(builtin) + failure(base), plan, ops=[])], 'cases': []}
    # the simulated history
    world = {}

    def put(path, how):
        c, has = c12_content(path, how)
        rel = os.path.normpath(os.path.join('w', path))
        world.pop(rel, None)
        if c is not None:
            world[rel] = (c, has, TWELVE[path][0] if path in TWELVE else None)
    for x in PATHS:
        put(x, 'valid:0')
    possible, story, raw = {None}, [], None

    def enter():
        setup(ctx, plan)
        data.put(ctx.root, {k: v[0] for k, v in world.items()})
        if raw is not None:
            data.put(ctx.root, raw)

    def leave():
        s = data.snap(ctx.root + '/conda')
        return {'conda/' + k: v[1] for k, v in s.items() if v[0] == 'file'}

    def expected(p):
        """Sets of user systems that may be listed if the setting is p."""
        _, has, name = world.get(p, (None, False, None))
        return {True: [[name]], False: [[]], None: [[], [name]]}[has]
    for n, o in enumerate(plan['ops']):
        ch = dict(ops=plan['ops'][:n + 1])
        if o['op'] == 'file':
            put(o['path'], o['to'])
            story.append(f'{o["path"]} becomes {o["to"]}')
            continue
        enter()
        if o['op'] == 'set':
            rel = os.path.normpath(os.path.join('w', o['path']))
            full = os.path.join(ctx.root, rel)
            arg = full if o['abs'] else os.path.relpath(full, os.path.join(ctx.root, o['cwd']))
            body = lambda S: S.cli(['--functions_user', arg])
            add = {}
            if o['faults']:
                f = o['faults'][0]
                pil = ctx.session(body, cwd=o['cwd'], count_calls=f['what'] == 'call', **env)
                enter()
                add = faults.spec(f, pil) or {}
            r = ctx.session(body, cwd=o['cwd'], **faults.merge(env, add))
            story.append(f'set {o["path"]} from {o["cwd"]} (status {r.status}, {r.fired[:1]})')
            if r.status in BAD_END:
                bad.append(V('no-end', '; '.join(story) + failure(r), plan, **ch))
                break
            if r.status == 0 or full in r.out.replace('\n', ''):       # reported
                possible = {rel}
            elif not add:
                bad.append(V('cannot-set', '; '.join(story) + ': ' + failure(r), plan, **ch))
                break
            else:
                possible = possible | {rel}
            raw = leave()
            cases.append({'key': json.dumps([n, o, [e[:3] for e in r.fired[:1]]]), 'nt': bool(r.fired)})
            continue
        # use
        add, f = {}, (o['faults'] or [None])[0]
        if f:
            pick = (lambda p: p == CONF) if f['path'] == 'conf' else (lambda p: os.path.normpath(p) in possible)
            pil = listing(o['cwd'])
            ev = [i for i, e in enumerate(pil.events) if faults.reading(e) and pick(e[1])]
            if f['how'] != 'all':
                ev = [i for i in ev if (pil.events[i][0] == 'open') == (f['how'] == 'open')]
            if ev:
                add = {'faults': [{'at': ev[0], 'act': f['act'] if f['how'] != 'read' else 'eio', 'sticky': f['how'] == 'all', 'kinds': ('open', 'read'), 'path': pil.events[ev[0]][1]}]}
            enter()
        r = listing(o['cwd'], **add)
        story.append(f'-lcs from {o["cwd"]} ({r.fired[:1]})')
        cases.append({'key': json.dumps([n, o, sorted(map(str, possible)), sorted((k, v[1]) for k, v in world.items())], default=str), 'nt': bool(r.fired) or len(possible) > 1 or possible != {None}})
        where = '; '.join(story) + ': '
        if r.status != 0:
            bad.append(V('disabled', where + 'listing fails: ' + failure(r), plan, **ch))
            break
        if not lines <= set(r.out.split('\n')):
            bad.append(V('disabled', where + f'built-in entries not listed: {sorted(lines - set(r.out.split(chr(10))))[:3]}', plan, **ch))
            break
        seen = [x for x in NAMES if x in r.out.split('\n')]
        ok = {p for p in possible if seen in expected(p)}
        if not r.fired:
            if not ok:
                bad.append(V('wrong-setting', where + f'lists user systems {seen}, possible settings were {sorted(map(str, possible))}', plan, **ch))
                break
            possible = ok
        elif not any(set(seen) <= set(x) for p in possible for x in expected(p)):
            bad.append(V('wrong-setting', where + f'lists {seen}', plan, **ch))
            break
        if plan['plot'] and n == max(i for i, x in enumerate(plan['ops']) if x['op'] == 'use'):
            enter()
            r, now = plotted(cs, 'built in', **add)
            if r.status != 0 or now != want_plot:
                bad.append(V('disabled', where + 'a plot using only built-in functions fails or differs: ' + failure(r), plan, **ch))
            only = list(possible)[0] if len(possible) == 1 else None
            if not r.fired and only and expected(only) == [[name := world.get(only, (0, 0, 0))[2]]]:      # the setting is used by other commands as well
                enter()
                r, now = plotted(name, 'user')
                probes['user_plot'] = 1
                if r.status != 0 or not {'w/user.csv', 'w/user.svg'} <= set(now):
                    bad.append(V('wrong-setting', where + f'a plot using {name} fails: ' + failure(r) + str(sorted(now)), plan, **ch))
    return {'violations': bad, 'cases': cases, 'probes': probes, 'sample': {'ops': plan['ops'][:3]}}


# ------------------------------------------------------------------------------------------- C13
INVALID = [['-cs', 'nonsense', '-p', 'source=a.diam'], ['-p', 'source=missing.diam'], ['--nooption'], ['-f', 'gif', '-p', 'source=a.diam'], ['-i', 'nofile.cs'], ['-i', 'sub/bad.cs'],
           ['-p', 'source=bad.diam'], ['-ra', 'missing.scc'], ['--convert', 'stat', 'missing.diam'], ['-m', 's.scc'], ['-p', 'source=a.diam,colour=nocolour'],
           ['-inc', 'sub/bad.cs'], ['-p', 'source=a.diam,type=c-fit,range=[200,300]', '-o', 'e'], ['-pr', 'seq', '-xrange', 'x', 'y', '-p', 'source=a.diam']]
INFO = [['-lcs'], ['-lpc'], ['-v'], ['-about'], ['-lcs', '-v']]


def chain(rng):
    """Commands that use what earlier ones left, which then changes."""
    src = rng.choice(('conv.stat', 'r.scc', 'mg.diam', 'cv.scc', 'xx.cs'))

    def plot(out, s, *more):
        return {'kind': 'plot', 'argv': ['-o', out, '-f', 'svg', 'csv', '-cs', rng.choice(commands.CS[:4]), '-p', f'source={s},type=data'] + (['-p', 'type=poisson,range=[%s,%s]' % rng.choice(((.15, .6), (1, 2.8)))] if rng.random() < .6 else []) + list(more)}
    if src == 'conv.stat':
        make = [{'kind': 'stat', 'argv': ['-o', 'conv', '--convert', 'stat', q]} for q in rng.sample(('a.diam', 's.scc', 'in/b.diam'), 2)]
    elif src == 'r.scc':
        make = [{'kind': 'ra', 'argv': ['-ra', 'r.scc', '-trials', n, '-measure', m, '-f', 'svg', '-select', '0']} for n, m in zip(rng.sample(('4', '6', '7'), 2), rng.choice((('m2cnd', 'sdaa'), ('sdaa', 'sdaa'), ('m2cnd', 'm2cnd'))))]
    elif src == 'mg.diam':
        make = [{'kind': 'merge', 'argv': ['-o', 'mg', '-m'] + q} for q in rng.sample((['s.scc', 'in/m.scc'], ['s.scc', 'q.scc'], ['a.diam', 'in/b.diam']), 2)]
    elif src == 'cv.scc':
        make = [{'kind': 'scc', 'argv': ['-o', 'cv', '--convert', 'scc', q]} for q in rng.sample(('p_CRATER.shp', 'z [3]_CRATER.shp', 'g_CRATER.shp'), 2)]
    else:
        a, b = rng.sample(('a.diam', 's.scc', 'q.scc', 'in/b.diam'), 2)
        return [plot('xx', a, '-title', 'first'), {'kind': 'i', 'argv': ['-i', 'xx.cs']}, plot('xx', b, '-invert', '1'), {'kind': 'i', 'argv': ['-i', 'xx.cs']}]
    return [make[0], plot('p1', src), make[1], plot(rng.choice(('p1', 'p2')), src)]


def with_and_without(rng):
    """A command, then the same one without some of its settings."""
    c = commands.gen(rng, 0, ('plot', 'plot', 'seq', 'chron', 'inc', 'csv'), formats=None)
    argv, rest = list(c['argv']), []
    k = 0
    while k < len(argv):        # an option with its values
        n = k + 1
        while n < len(argv) and not re.match(r'--?[a-zA-Z]', argv[n]):
            n += 1
        g = argv[k:n]
        if g[0].split('=')[0] in ('-p', '-f', '-o', '-pr') or rng.random() < .35:
            rest += g if g[0] != '-o' else ['-o', 'without']
        k = n
    one, two = {'kind': c['kind'], 'argv': argv}, {'kind': c['kind'], 'argv': rest + ([] if '-o' in rest else ['-o', 'without'])}
    return [one, two] if rng.random() < .7 else [two, one, dict(two, argv=[x.replace('without', 'again') for x in two['argv']])]


def c13_jobs(rng, tier):
    n = 100 if tier == 'quick' else 4000
    for i in range(n):
        cmds = []
        for j in range(rng.choice((3, 4, 5))):
            k = rng.random()
            if k < .2:
                cmds.append({'kind': 'invalid', 'argv': rng.choice(INVALID)})
            elif k < .27:
                cmds.append({'kind': 'info', 'argv': rng.choice(INFO)})
            elif k < .31:
                cmds.append({'kind': 'unc', 'argv': commands.gen(rng, j, ('unc',))['argv']})
            else:
                c = commands.gen(rng, j, tuple(x for x in commands.KINDS if x != 'unc') + ('plot', 'i', 'i', 'ra'))
                cmds.append({'kind': c['kind'], 'argv': c['argv']})
        if rng.random() < .25:      # the same command again
            cmds.append(dict(rng.choice(cmds)))
        if rng.random() < .25:
            cmds = chain(rng)
        elif rng.random() < .3:
            cmds = with_and_without(rng)
        yield {'seed': rng.randrange(1 << 30), 'entropy': rng.randrange(1 << 30), 'cmds': cmds, 'api': False,
               'faults': [dict(faults.choose(rng, ('call', 'call', 'interrupt', 'error', 'memory', 'read')))] if rng.random() < .6 else []}
    for i in range(2 if tier == 'quick' else 40):
        yield {'seed': 1, 'entropy': rng.randrange(1 << 30), 'demo': sorted(rng.sample((0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 13, 14, 15, 16, 17, 20, 21), 3))}


def plain(text):
    return re.sub(r'\x1b\[[0-9;]*m', '', text)      # console highlighting


def sequence(S, root, cmds):
    """Runs the commands, recording after each what changed on disk."""
    from ..seams import SIM
    out, last = [], None

    def look():
        SIM.active = False
        try:
            return data.snap(root, ('tmp',))
        finally:
            SIM.active = True
    last = look()
    for c in cmds:
        cwd = os.getcwd()
        st, text = S.command(c['argv'])
        now = look()
        out.append({'status': st, 'text': plain(text), 'cwd': os.path.relpath(os.getcwd(), cwd), 'new': {k: v for k, v in now.items() if last.get(k) != v}, 'gone': [k for k in last if k not in now]})
        last = now
    return out


def c13(ctx, plan):
    if 'demo' in plan:
        return c13_demo(ctx, plan)
    bad, cases, probes = [], [], {}
    extra = {'w/bad.diam': 'area = 3\ncrater = {diameter\nxx yy\n', 'w/sub/bad.cs': '-cs ni2001 -p source=../a.diam --nonsense 3\n'}

    def start():
        setup(ctx, plan)
        data.put(ctx.root, extra)
    sp = {'entropy': plan['entropy'], 'cpu_limit': 200}
    body = lambda S: sequence(S, ctx.root, plan['cmds'])
    for f in plan['faults'][:1]:
        start()
        pil = ctx.session(body, count_calls=f['what'] == 'call', **sp)
        sp = faults.merge(sp, faults.spec(f, pil, skip=('.tif',)) or {})
    start()
    r = ctx.session(body, **sp)
    if r.value is None:
        return {'violations': [V('no-end', f'sequence of {[show(c) for c in plan["cmds"]]}: {failure(r)}', plan)], 'cases': []}
    start()
    disk = {k: v for k, v in data.snap(ctx.root, ('tmp',)).items()}
    names = [show(c) for c in plan['cmds']]
    disturbed = None
    if r.fired:         # which command did the fault hit? the first that ends differently than it would alone is excused
        disturbed = 'pending'
    for n, (c, o) in enumerate(zip(plan['cmds'], r.value)):
        restore_all(ctx, disk)
        a = ctx.session(lambda S: S.command(c['argv']), entropy=plan['entropy'])
        alone = data.snap(ctx.root, ('tmp',))
        was = dict(disk)
        for k in o['gone']:
            disk.pop(k, None)
        disk.update(o['new'])
        st, text = a.value if a.value is not None else (a.status, '')
        text = plain(text)
        x, y = (canonical(ctx, {k: v for k, v in d.items() if not k.endswith('.tmp')}) for d in (disk, alone))
        d = differences(x, y)
        if c['kind'] == 'unc':
            d = [k for k in d if k.rsplit('.', 1)[-1] not in ('svg', 'png', 'pdf', 'tif')]
        moved = o['cwd'] != '.'
        excused = False
        if (o['status'] != st or d or o['text'] != text or moved) and disturbed == 'pending':
            disturbed, excused = n, True
        key = json.dumps([n, names[:n + 1], [e[:3] for e in r.fired[:1]] if disturbed == n else []])
        cases.append({'key': key, 'nt': n > 0})
        if excused and not moved:
            continue
        story = f'commands in one process: {names[:n + 1]}' + (f', command {disturbed} disturbed by {r.fired[0]}' if isinstance(disturbed, int) else '') + ': the last one '
        ch = dict(cmds=plan['cmds'][:n + 1])
        if moved:
            bad.append(V('moved', story + f'leaves the process in directory {o["cwd"]}', plan, **ch))
        elif o['status'] != st:
            bad.append(V('influenced', story + f'ends with status {o["status"]}, alone with {st}', plan, **ch))
        elif d:
            k = d[0]
            bad.append(V('influenced', story + f'leaves {k} {"missing" if k not in x else "although alone it does not" if k not in y else "different from what it is when run alone"}', plan, **ch))
        elif o['text'] != text and c['kind'] in ('info', 'plot', 'csv', 'seq', 'chron', 'i', 'inc'):
            bad.append(V('influenced', story + f'prints {o["text"][-200:]!r}, alone {text[-200:]!r}', plan, **ch))
        if bad:
            break
        disk_keep = was
    return {'violations': bad, 'cases': cases, 'probes': probes, 'sample': {'cmds': names, 'faults': plan['faults']}}


def restore_all(ctx, disk):
    ctx.reset()
    for k, v in disk.items():
        if v[0] == 'dir':
            os.makedirs(os.path.join(ctx.root, k), exist_ok=True)
    data.put(ctx.root, {k: v[1] for k, v in disk.items() if v[0] == 'file'})


def c13_demo(ctx, plan):
    import shlex
    bad, cases = [], []
    ctx.reset()
    r = ctx.session(_demo_body(plan['demo']), cpu_limit=200)
    if r.status != 0:
        import craterstats.cli as cli
        if not hasattr(cli, 'demo'):
            return {'violations': [], 'cases': [], 'probes': {'no_demo': 1}}
        return {'violations': [V('influenced', f'demonstration {plan["demo"]} fails: {failure(r)}', plan)], 'cases': []}
    got = state(ctx)
    for k in sorted(got):
        if not k.endswith('.cs'):
            continue
        argv = shlex.split(got[k][1].decode())
        ctx.reset()
        os.makedirs(ctx.root + '/w/demo')
        a = ctx.session(lambda S: S.command(argv))
        one = state(ctx)
        mine = {f: v for f, v in got.items() if f.startswith(k[:9 + len('-demo')]) or f.startswith(k[:-3])}
        x, y = canonical(ctx, mine), canonical(ctx, {f: v for f, v in one.items() if v[0] == 'file'})
        x = {f: v for f, v in x.items() if not f.endswith('/')}
        d = differences(x, y)
        cases.append({'key': k, 'nt': True})
        if d and not any(t in ' '.join(argv) for t in ('uncertainty',)):
            bad.append(V('influenced', f'in the demonstration, {" ".join(argv)} leaves {d} different from when it is run alone', plan))
            break
    return {'violations': bad, 'cases': cases, 'probes': {}, 'sample': plan}


def _demo_body(which):
    def body(S):
        import craterstats.cli as cli
        cli.demo(d=which)
    return body


# ------------------------------------------------------------------------------------------- C16
def c16_jobs(rng, tier):
    n = 110 if tier == 'quick' else 4000
    kinds = tuple(k for k in commands.KINDS if k != 'unc') + ('plot', 'seq', 'i', 'inc', 'ra')
    for i in range(n):
        fs = rng.sample(('svg', 'png', 'pdf', 'tif', 'csv'), rng.choice((2, 3, 4, 5))) if rng.random() < .6 else None
        cmd = commands.gen(rng, i, kinds, fs if fs is None else [f for f in fs if f != 'csv'] or ['svg'], where=rng.choice(('any', 'any', 'default')))
        if fs and 'csv' in fs and '-f' in cmd['argv'] and cmd['kind'] in ('plot', 'seq', 'inc'):
            cmd['argv'].insert(cmd['argv'].index('-f') + rng.choice((1, 2)), 'csv')
        vs = []
        for _ in range(3):
            v = {'hash': rng.choice((None, 0, 1, 2, 2)), 'cpu': rng.choice((1, 2, 3, 64, None)), 'clock': rng.choice((0, -8e8, 3e8, 86400 * 37, 1e3)), 'dirorder': rng.choice((None, rng.randrange(99))),
                 'pid': rng.choice((2, 77, 4000, 99999)), 'jump': rng.choice((None, None, -7200.0, 3600.0)), 'ju': rng.random(), 'entropy': rng.randrange(1 << 30), 'order': rng.randrange(99)}
            vs.append(v)
        yield {'seed': rng.randrange(1 << 30), 'entropy': rng.randrange(1 << 30), 'cmd': cmd, 'steps': vs, 'alone': rng.random() < .5}


def c16_run(ctx, a):
    """One command in one environment; also executed in processes with other hash seeds."""
    setup(ctx, a)
    r = ctx.session(lambda S: S.cli(a['argv']), **a['spec'])
    return [r.status, plain(r.out), canonical(ctx, state(ctx)), len(r.events), failure(r)]


def split_formats(argv):
    if '-f' not in argv:
        return None
    a = argv.index('-f') + 1
    b = a
    while b < len(argv) and argv[b] in ('svg', 'png', 'pdf', 'tif', 'csv'):
        b += 1
    return argv[:a], argv[a:b], argv[b:]


def c16(ctx, plan):
    cmd, bad, cases, probes = plan['cmd'], [], [], {}
    base = c16_run(ctx, {'seed': plan['seed'], 'argv': cmd['argv'], 'spec': {'entropy': plan['entropy']}})
    if base[0] != 0:
        return {'violations': [], 'cases': [], 'probes': {'undisturbed_failure': 1}}
    parts = split_formats(cmd['argv'])

    def compare(got, what, drop, **ch):
        d = [k for k in differences(base[2], got[2]) if not (drop and k.endswith('.cs'))]
        story = f'{show(cmd)}\n{what}: '
        if got[0] != base[0]:
            bad.append(V('differs', story + f'ends with {got[4]}', plan, **ch))
        elif d:
            k = d[0]
            bad.append(V('differs', story + f'{k} is {"missing" if k not in got[2] else "additional" if k not in base[2] else "different"}', plan, **ch))
        elif got[1] != base[1]:
            bad.append(V('differs', story + f'prints {got[1][-200:]!r} instead of {base[1][-200:]!r}', plan, **ch))
    for v in plan['steps']:
        argv = list(cmd['argv'])
        if parts and v['order'] % 3 and len(parts[1]) > 1:
            fs = list(parts[1])
            random.Random(v['order']).shuffle(fs)
            argv = parts[0] + fs + (fs[:1] if v['order'] % 7 == 0 else []) + parts[2]
        sp = {'entropy': v['entropy'], 'cpu': v['cpu'], 'clock': v['clock'], 'dirorder': v['dirorder'], 'pid': v['pid']}
        if v['jump']:
            sp['faults'] = [{'at': int(v['ju'] * base[3]), 'act': 'clock', 'by': v['jump']}]
        a = {'seed': plan['seed'], 'argv': argv, 'spec': sp}
        got = c16_run(ctx, a) if v['hash'] is None else ctx.other(v['hash'], 'cli', 'c16_run', a)
        cases.append({'key': json.dumps([argv, v]), 'nt': True})
        compare(got, f'in the environment {v}', argv != cmd['argv'], steps=[v], alone=False)
    if plan['alone'] and parts and len(parts[1]) > 1:
        for f in parts[1]:
            got = c16_run(ctx, {'seed': plan['seed'], 'argv': parts[0] + [f] + parts[2], 'spec': {'entropy': plan['entropy']}})
            cases.append({'key': json.dumps([cmd['argv'], f])})
            mine = {k: x for k, x in base[2].items() if k.endswith('.' + f)}
            only = {k: x for k, x in got[2].items() if k.endswith('.' + f)}
            d = differences(mine, only)
            if got[0] != 0 or d:
                bad.append(V('alone', f'{show(cmd)}\nformat {f} requested alone: {d[:2]} differ, {got[4]}', plan, steps=[]))
    return {'violations': bad[:2], 'cases': cases, 'probes': probes, 'sample': {'argv': cmd['argv'], 'environments': plan['steps'][:2]}}


# ------------------------------------------------------------------------------------------- C18
ELSEWHERE = {'kind': 'elsewhere', 'argv': ['-o', 'sub/e', '-f', 'csv', '-p', 'source=a.diam,type=poisson,range=[.15,.6]'], 'base': 'sub/e', 'promises': ['w/sub/e.csv', 'w/sub/e.cs']}


ODD_TITLES = ('Café "x"', "it's $\\mu$", 'a  b', ' first', 'last ', 'A/', 'one\ttab', 'a "b c" d', 'x \\# y', '50% # of', "''", 'a `b`', '$HOME $(x)', '!1 *', 'x;y', '{a} [b]', 'Größe & Alter', "'a' \"b\"",
          'a=b', '.', '~', '@set.txt', '%sample%', 'a,b', '"', '1,3', '7', 'two | lines', '#1', 'Unit #2 # b', '<b>', 'x -pr y', '-5', '-x', '-p', 'e\u0301')
ODD_NAMES = ("it's", 'a "b"', 'x#1', 'n%20', 'a  b', '$x', 'é', 'a;b', "#1 o'b", '[1]', '7', 'a=b', '@a', 'q,r')


def odd_words(rng, cmd, i):
    """Words that a command file has to quote."""
    a = cmd['argv']
    if cmd['kind'] in ('plot', 'inc', 'chron', 'csv', 'map', 'ra'):
        t = ODD_TITLES[i % len(ODD_TITLES)]
        for k, x in enumerate(a):
            if x.startswith('-title'):
                del a[k:k + (1 if '=' in x else 2)]
                break
        if cmd['kind'] in ('plot', 'inc', 'chron'):
            a += ['-title=' + t] if t[0] == '-' or rng.random() < .2 else ['-title', t]
    if cmd['kind'] != 'ra' and rng.random() < .5 and '/' not in cmd['base']:
        old, new = cmd['base'], ODD_NAMES[i // 2 % len(ODD_NAMES)]
        cmd['base'] = new
        a[a.index('-o') + 1] = new
        cmd['promises'] = [p.replace(old, new, 1) for p in cmd['promises']]


def c18_jobs(rng, tier):
    n = 110 if tier == 'quick' else 4000
    yield {'seed': 1, 'entropy': 1, 'cmd': ELSEWHERE, 'steps': [{'cwd': 'w', 'how': 'rel', 'enc': None, 'hash': None, 'entropy': 1}], 'other': None, 'faults': []}
    for i in range(n):
        cmd = commands.gen(rng, i, ('plot', 'plot', 'plot', 'csv', 'seq', 'chron', 'map', 'ra', 'inc'), where='here') if rng.random() < .8 else absolute(rng, i)
        if i % 2 and '%ROOT%' not in str(cmd['argv']):
            odd_words(rng, cmd, i // 2)
        other = None
        if rng.random() < .5:
            o = commands.gen(rng, i, ('plot', 'csv', 'chron'), where='here')
            o['argv'][o['argv'].index('-o') + 1] = cmd['argv'][cmd['argv'].index('-o') + 1]
            other = o['argv']
        yield {'seed': rng.randrange(1 << 30), 'entropy': rng.randrange(1 << 30), 'cmd': cmd, 'other': other,
               'steps': [{'cwd': rng.choice(('w', 'w/sub', 'other', '.')), 'how': rng.choice(('rel', 'abs', 'dot')), 'enc': rng.choice((None, None, 'latin-1', 'cp1252')),
                          'hash': rng.choice((None, None, 0, 1)), 'entropy': rng.randrange(1 << 30), 'clock': rng.choice((0, 1e7))} for _ in range(3)],
               'faults': [dict(faults.choose(rng, ('kill', 'interrupt', 'full', 'error', 'torn', 'call', 'memory')), buf=rng.choice((None, 64)))] if rng.random() < .8 else []}


def absolute(rng, i):
    """Absolute names throughout, output in another directory."""
    cmd = commands.gen(rng, i, ('plot', 'csv', 'seq'), where='here')
    name = cmd['base']
    cmd['argv'] = [a.replace('source=', 'source=%ROOT%/w/') if a.startswith('source=') else a for a in cmd['argv']]
    cmd['argv'][cmd['argv'].index('-o') + 1] = '%ROOT%/other/' + name
    cmd['base'] = '../other/' + name
    cmd['promises'] = [p.replace('w/', 'other/', 1) for p in cmd['promises']]
    return cmd


def c18_view(ctx):
    """Fingerprints; tables quote the name of the crater count as it was given, which is absolute when run from a command file."""
    s = state(ctx)
    pre = (ctx.root + '/w/').encode()
    return canonical(ctx, {k: ('file', v[1].replace(pre, b'')) if k.endswith('.csv') else v for k, v in s.items()})


def c18_step(ctx, a):
    r = ctx.session(lambda S: S.cli(a['argv']), **a['spec'])
    return [r.status, failure(r)]


def c18(ctx, plan):
    cmd, bad, cases, probes = plan['cmd'], [], [], {}
    argv = [a.replace('%ROOT%', ctx.root) for a in cmd['argv']]
    cs = next(p for p in cmd['promises'] if p.endswith('.cs'))
    setup(ctx, plan)
    before = c18_view(ctx)
    r = ctx.session(lambda S: S.cli(argv), entropy=plan['entropy'])
    raw = data.snap(ctx.root, ('tmp',))
    first = c18_view(ctx)
    if r.status != 0:
        return {'violations': [], 'cases': [], 'probes': {'undisturbed_failure': 1}}
    if cs not in first:
        return {'violations': [V('not-saved', f'{show(cmd)}\nno command file {cs}', plan)], 'cases': []}
    out = {k: v for k, v in first.items() if before.get(k) != v and k != cs}
    loose = images_of(cmd, out)
    kind = 'output-elsewhere' if cmd['kind'] == 'elsewhere' else 'differs'

    def rerun(story, **ch):
        """Rerun the saved command in several ways; everything it made must come back."""
        for v in plan['steps']:
            for k in out:
                if os.path.exists(os.path.join(ctx.root, k)):
                    os.remove(os.path.join(ctx.root, k))
            full = os.path.join(ctx.root, cs)
            here = os.path.join(ctx.root, v['cwd'])
            name = full if v['how'] == 'abs' else os.path.relpath(full, here)
            if v['how'] == 'dot' and '/' not in name:
                name = './' + name
            a = {'argv': ['-i', name], 'spec': {'cwd': v['cwd'], 'encoding': v['enc'], 'entropy': v['entropy'], 'clock': v.get('clock', 0)}}
            st, why = c18_step(ctx, a) if v['hash'] is None else ctx.other(v['hash'], 'cli', 'c18_step', a)
            now = c18_view(ctx)
            cases.append({'key': json.dumps([argv, v, story])})
            where = f'{show(cmd)}\n{story}the saved file, run as -i {name} in {v["cwd"]} ({v["enc"] or "utf-8"} locale), '
            d = [k for k in sorted(out) if (now.get(k) != out[k] if k not in loose else k not in now or now[k].startswith('INVALID'))]
            if st != 0:
                bad.append(V(kind, where + 'fails: ' + why, plan, **ch))
            elif d:
                bad.append(V(kind, where + f'leaves {d[0]} {"missing" if d[0] not in now else "different"}', plan, **ch))
            elif now.get(cs) != first[cs]:
                bad.append(V(kind, where + 'changes the saved file', plan, **ch))
            if bad:
                return
    rerun('', faults=[], other=None)
    if not bad and plan['faults'] and cmd['kind'] != 'elsewhere':
        f = plan['faults'][0]
        second = plan['other'] or argv
        restore_all(ctx, raw)
        sp = {'entropy': plan['entropy'], 'bufsize': f['buf']}
        pil = ctx.session(lambda S: S.cli(second), count_calls=f['what'] == 'call', **sp)
        after2 = c18_view(ctx)
        other_cs = after2.get(cs)
        want2 = {k: v for k, v in after2.items() if first.get(k) != v and k != cs}
        # half of the disturbances hit the command file itself
        add = faults.spec(f, pil, paths=(lambda p: '.cs' in p) if f['u'] * 1000 % 2 < 1.3 else None, skip=('.tif',)) if pil.status == 0 else None
        if add:
            restore_all(ctx, raw)
            r = ctx.session(lambda S: S.cli(second), **faults.merge(sp, add))
            now = c18_view(ctx).get(cs)
            cases.append({'key': json.dumps([argv, second, f['what'], r.fired[:1]]), 'nt': bool(r.fired)})
            story = f'{show(cmd)}\nthen {" ".join(second)} disturbed: {failure(r)}: '
            if r.status == 0 and now != other_cs:
                bad.append(V('not-saved', story + f'{cs} is not the command file of the second command', plan))
            elif now == other_cs != first[cs] and r.status != 0 and second != argv:       # replaced: then the outputs must be those of the new command
                have = c18_view(ctx)
                odd = [k for k in sorted(want2) if k not in have or have[k].startswith('INVALID') or have[k] != want2[k]]
                if odd:
                    bad.append(V('destroyed', story + f'{cs} is the command file of the second command, but {odd[0]} is not its output', plan))
            elif now not in (first[cs], other_cs):
                bad.append(V('destroyed', story + f'{cs} is {"missing" if now is None else "neither the old nor the new one"}', plan))
            elif r.status != 0 and second == argv:
                rerun('after an attempt to run it again failed, ')
    return {'violations': bad[:2], 'cases': cases, 'probes': probes, 'sample': {'argv': argv, 'steps': plan['steps'][:2]}}


# ------------------------------------------------------------------------------------------- C20
def c20_jobs(rng, tier):
    n = 110 if tier == 'quick' else 5000
    kinds = ('full', 'error', 'error', 'torn', 'torn', 'interrupt', 'memory', 'call', 'read')
    for i in range(n):
        p = {'seed': rng.randrange(1 << 30), 'entropy': rng.randrange(1 << 30), 'cpu': rng.choice((1, 2, 3, 5, 9)), 'start': rng.choice(('fork', 'fork', 'spawn')),
             'profile': rng.choice(pool.PROFILES), 'pool': rng.randrange(1 << 30)}
        if rng.random() < .4:        # an analysis, by command or as the graphical front end does
            p['cmd'] = commands.gen(rng, i, ('ra',))
            kinds_ = kinds[1:] + ('task', 'tasks', 'tasks', 'tasks', 'death', 'death', 'spawn', 'death') + ('cancel',) * 3
            p['api'] = rng.random() < .4
            p['trials'], p['measure'] = rng.choice((8, 12)), rng.choice(('m2cnd', 'sdaa'))
        else:
            p['cmd'] = commands.gen(rng, i, commands.KINDS + ('user', 'demo'))
            p['api'], kinds_ = False, kinds
        p['faults'] = [dict(faults.choose(rng, kinds_), buf=rng.choice((None, None, 512)), exc_cancel=rng.choice(('KeyboardInterrupt', 'RuntimeError', 'BrokenPipeError')))
                       for _ in range(3 if p['cmd']['kind'] in ('unc', 'demo') else 5)]
        yield p


def remains(root, before):
    """What a command that has ended left in its process."""
    import gc, signal, threading
    from ..seams import SIM
    out = []
    SIM.active = False
    try:
        gc.collect()
        for ex in SIM.pool.executors:
            if ex.broken:
                continue
            n = sum(not f.cancelled() for _, f, _ in ex.queue)
            if n > ex.n:
                out.append(f'{n} trials of the ended command are still going to be computed')
            elif not ex.closed and ex.workers and held(ex):
                out.append(f'{len(ex.workers)} worker processes are still kept')
        alive = [m for m in pool.managers() if m.mid not in before['managers']]
        if alive:
            out.append(f'{len(alive)} processes for shared progress are still running')
        t = [x.name for x in threading.enumerate() if x not in before['threads'] and x.is_alive() and not x.daemon]
        if t:
            out.append(f'threads {t} are still running')
        if os.getcwd() != before['cwd']:
            out.append(f'the process was moved from {os.path.relpath(before["cwd"], root)} to {os.path.relpath(os.getcwd(), root)}')
        if signal.getsignal(signal.SIGINT) is not before['sigint']:
            out.append('interrupts are handled in another way')
        if len(figures()) > len(before['figures']):
            out.append(f'{len(figures()) - len(before["figures"])} drawings are kept for ever')
        o = open_files(root)
        if o - before['open'] and not SIM.fired:        # (a library object that could not be set up may keep its files)
            out.append(f'{sorted(o - before["open"])} is still open')
    finally:
        SIM.active = True
    return out


def held(ex):
    """Does anything but the simulator and pending results refer to the executor?"""
    import gc, types
    from ..seams import SIM
    for r in gc.get_referrers(ex):
        if r is SIM.pool.executors or isinstance(r, types.FrameType) or isinstance(r, dict) and r.get('_ex') is ex:
            continue
        return True
    return False


def open_files(root):
    from ..seams import REAL
    out = set()
    for fd in REAL['os.listdir']('/proc/self/fd'):
        try:
            p = os.readlink('/proc/self/fd/' + fd)
        except OSError:
            continue
        if p.startswith(root + '/'):
            out.add(os.path.relpath(p, root))
    return out


def names_in(root):
    from ..seams import SIM
    was, SIM.active = SIM.active, False
    try:
        return {k for k, v in data.snap(root).items() if v[0] == 'file'}
    finally:
        SIM.active = was


def figures():
    import matplotlib.pyplot as plt
    return plt.get_fignums()


def present():
    import signal, threading
    return {'figures': figures(), 'managers': {m.mid for m in pool.managers()}, 'threads': threading.enumerate(), 'cwd': os.getcwd(), 'sigint': signal.getsignal(signal.SIGINT)}


def c20_body(plan, root, cancel=None, exc='KeyboardInterrupt', again=False):
    """The command, what it leaves behind, and (again) the same command once more in the same process."""
    import builtins
    cmd = plan['cmd']

    def body(S):
        def once(cancel=None):
            if plan['api']:
                import craterstats as cst
                q = ra.Listener(cancel, getattr(builtins, exc))
                try:
                    x = cst.Randomnessanalysis('r.scc', progress_queue=q)
                    x.run_montecarlo(plan['trials'], plan['measure'])
                    x.calculate_stats()
                    x.write()
                    return 0, len(q.log)
                except (KeyboardInterrupt, Exception):
                    return 1, 0
            if 'which' not in cmd:
                return S.command(cmd['argv'])[0], 0
            try:
                _demo_body(cmd['which'])(S)
                return 0, 0
            except (KeyboardInterrupt, Exception, SystemExit):
                return 1, 0
        b = {**present(), 'open': open_files(root)}
        v = dict(zip(('st', 'nmsg'), once(cancel)))
        v['rem'] = remains(root, b)
        v['files'] = names_in(root)
        if again:
            v['again'] = once()[0]
            v['rem2'] = remains(root, b)
        return v
    return body


def c20(ctx, plan):
    cmd, bad, cases, probes = plan['cmd'], [], [], {}
    bs = base_spec(ctx, cmd)
    sp = {'entropy': plan['entropy'], 'cpu': plan['cpu'], 'pool': {'seed': plan['pool'], 'profile': plan['profile'], 'start': plan['start']}, **bs}
    said = (f'analysis through the object ({plan["trials"]} {plan["measure"]})' if plan['api'] else show(cmd)) + f' with {plan["cpu"]} processors ({plan["start"]})\n'
    pilots = {}

    def judge(r, names, f):
        ch = dict(faults=[] if f is None else [f])
        v = r.value
        if r.status in BAD_END or v is None:
            bad.append(V('no-end', said + failure(r) + f' {r.tb[-200:]}', plan, **ch))
            return
        x = {'st': v['st'], 'fired': [tuple(e) for e in r.fired][:3]}
        if v['rem']:
            bad.append(V('left-behind', said + f'{x}: {v["rem"][0]} after it ended', plan, **ch))
        elif v.get('rem2'):
            bad.append(V('left-behind', said + f'{x}, repeated: {v["rem2"][0]} after it ended', plan, **ch))
        elif v.get('again', 0) != 0:
            bad.append(V('cannot-continue', said + f'{x}: the same command once more in the same process ends with status {v["again"]}; {failure(r)}', plan, **ch))
        else:
            extra = sorted(names)
            if extra:
                bad.append(V('left-behind', said + f'{x}: file {extra[0]} is left', plan, **ch))

    def pilot(buf, calls):
        if (buf, calls) not in pilots:
            setup(ctx, plan)
            before = data.snap(ctx.root)
            r = ctx.session(c20_body(plan, ctx.root), bufsize=buf, count_calls=calls, **sp)
            pilots[buf, calls] = r, before, data.snap(ctx.root)
        return pilots[buf, calls]
    p, before, after = pilot(None, False)
    judge(p, (), None)
    if bad or p.value['st'] != 0:
        return {'violations': bad, 'cases': [], 'probes': {'undisturbed_failure': 1}}
    temp = {k for k in after if k not in before and after[k][0] == "file" and (k.startswith('tmp/') or k.endswith('.tmp'))}
    if temp:
        bad.append(V('left-behind', said + f'file {sorted(temp)[0]} is left', plan, faults=[]))
    cases.append({'key': json.dumps([cmd['argv'], cmd.get('which'), plan['api'], plan['cpu'], plan['start']]), 'nt': plan['api'] or cmd['kind'] == 'ra'})
    for f in plan['faults']:
        if bad:
            break
        p = pilot(f['buf'], f['what'] == 'call')[0]
        cancel, add = None, {}
        if f['what'] == 'cancel':
            if not plan['api'] or not p.value['nmsg']:
                continue
            cancel = int(f['u'] * p.value['nmsg'])
        else:
            add = faults.spec(f, p, skip=('.tif',))
            if add is None:
                continue
        setup(ctx, plan)
        r = ctx.session(c20_body(plan, ctx.root, cancel, f['exc_cancel'], again=f['what'] not in ('full', 'tasks')), **faults.merge({**sp, 'bufsize': f['buf']}, add))
        names = set(names_in(ctx.root) | (r.value['files'] if r.value else set())) - set(before) - set(after)
        if any(e[1] in ('remove', 'unlink', 'rmdir') for e in r.fired):       # it was the removal itself that failed
            names = set()
        cases.append({'key': json.dumps([cmd['argv'], cmd.get('which'), f['what'], f['act'], cancel, [e[:4] for e in r.fired[:1]]]), 'nt': bool(r.fired) or cancel is not None})
        judge(r, names, f)
    return {'violations': bad, 'cases': cases, 'probes': probes, 'sample': {'argv': cmd['argv'], 'faults': plan['faults'][:2]}}


# ------------------------------------------------------------------------------------------- C21
SETTINGS = [['--functions_user', '/some/path/user functions.txt'], ['--functions_user', 'uf.txt'], ['-lcs'], ['-lcs']]


def c21_jobs(rng, tier):
    n = 100 if tier == 'quick' else 5000
    twice = ['ra', 'merge', 'shp', 'stat', 'map', 'csv', 'ra', 'plot', 'seq', 'unc', 'i']
    for i in range(n):
        p = {'seed': rng.randrange(1 << 30), 'entropy': rng.randrange(1 << 30), 'cpu': rng.choice((1, 2, 4))}
        where = rng.choice(('here', 'here', 'any'))
        if i % 8 == 7:          # the user functions are set while others use them
            cs = [{'kind': 'user', 'argv': a, 'base': None, 'promises': []} for a in rng.sample(SETTINGS, 2)] + [commands.gen(rng, 2, ('csv', 'plot', 'i'), where=where)]
            rng.shuffle(cs)
        elif i % 8 in (1, 3, 5):   # two analyses, or the same kind of command twice
            k = twice[0]
            twice.append(twice.pop(0))
            cs = [commands.gen(rng, j, (k,), where=where) for j in range(2)]
        else:
            cs = [commands.gen(rng, j, commands.KINDS + ('demo',) if j == 0 else commands.KINDS, where=where) for j in range(rng.choice((2, 2, 3)))]
        p['cmds'] = cs
        p['runs'] = [{'choice': rng.randrange(1 << 30), 'mode': rng.choice(('park', 'park', 'meet', 'random', 'bursts')), 'fault': None} for _ in range(5)]
        for r in p['runs'][3:]:
            r['fault'] = dict(faults.choose(rng, ('kill', 'kill', 'interrupt', 'full', 'error', 'read', 'torn')), who=rng.randrange(len(cs)))
        yield p


def c21_chooser(run, pilots):
    """park: one command is held at one of its file operations (mostly ones that change something) while the others run; meet: two
    commands are brought to chosen operations of theirs, then the second goes first; random; bursts of a few operations."""
    rng = random.Random(run['choice'])
    n = len(pilots)
    order = rng.sample(range(n), n)
    target = {}
    for i in order:
        ev = [k for k, e in enumerate(pilots[i].events) if e[0] != 'pool' and (rng.random() < .1 or faults.writing(e) and not e[1].startswith('REPO/'))] or [0]
        target[i] = rng.choice(ev)
    st = {'done': {i: 0 for i in range(n)}, 'burst': [None, 0], 'released': set()}

    def choose(ready):
        if run['mode'] == 'random':
            return rng.choice(sorted(ready))
        if run['mode'] == 'bursts':
            if st['burst'][1] <= 0 or st['burst'][0] not in ready:
                st['burst'] = [rng.choice(sorted(ready)), rng.choice((1, 2, 5, 30, 200))]
            st['burst'][1] -= 1
            return st['burst'][0]
        held = order[:1] if run['mode'] == 'park' else order[:2]
        for i in order:        # ready[i][0] is the number of the operation the command is about to do
            if i in ready and i in held and i not in st['released'] and ready[i][0] < target[i]:
                return i
        for i in [i for i in order if i not in held] + held[::-1]:
            if i in ready:
                st['released'].add(i)
                return i
    return choose


def c21(ctx, plan):
    bad, cases, probes = [], [], {}
    env = {'CONDA_PREFIX': ctx.root + '/conda'}
    uf = USERFN % dict(zip('nc', TWELVE['uf A.txt']))

    def enter():
        setup(ctx, {'seed': plan['seed']})
        data.put(ctx.root, {'w/uf.txt': uf})

    def body(c):
        return _demo_body(c['which']) if 'which' in c else lambda S: S.cli(c['argv'])

    def spec(i):
        return {'env': env, 'entropy': plan['entropy'] + i, 'cpu': plan['cpu'], 'pool': {'seed': plan['entropy'] + i}}
    cmds, alone, taken = [], [], {}
    for c in plan['cmds']:
        enter()
        before = canonical(ctx, state(ctx))
        r = ctx.session(body(c), **spec(len(cmds)))
        now = canonical(ctx, state(ctx))
        made = {k: now.get(k) for k in differences(before, now)}
        if r.status in BAD_END:
            return {'violations': [V('no-end', show(c) + '\n' + failure(r), plan, runs=[])], 'cases': []}
        if r.status != 0 or set(made) & set(taken) and c['kind'] != 'user':
            probes['skipped'] = probes.get('skipped', 0) + 1
            continue
        taken.update(made)
        cmds.append(c)
        alone.append((r, made))
    if len(cmds) < 2:
        return {'violations': [], 'cases': [], 'probes': probes}
    names = [show(c) for c in cmds]
    settings = [x for c in cmds if c['kind'] == 'user' for x in c['argv'][1:]]

    def said(r):        # which setting is in force, and so whether its file can be read, depends on the moment
        return [l for l in plain(r.out).split('\n') if not (settings and any(x in l for x in settings) and 'path to functions' not in l)]
    pilots = [r for r, _ in alone]
    for run in plan['runs']:
        f = run['fault']
        specs = [spec(i) for i in range(len(cmds))]
        if f:
            who = f['who'] % len(cmds)
            add = faults.spec(f, pilots[who], skip=('.tif',))
            if add is None:
                continue
            specs[who] = faults.merge(specs[who], add)
        enter()
        res, trace = ctx.concurrent([(body(c), s) for c, s in zip(cmds, specs)], c21_chooser(run, pilots))
        now = canonical(ctx, state(ctx))
        changed = {k: now.get(k) for k in differences(before, now)}
        temp = [k for k, v in data.snap(ctx.root).items() if v[0] == 'file' and k.endswith('.tmp')]
        x = 0
        switches = []
        for a, b in zip(trace, trace[1:]):
            if a[0] != b[0]:
                switches.append((a[0], a[1], b[0], b[1]))
        cases.append({'key': json.dumps([names, run['mode'], switches[:40], f and f['what']]), 'nt': bool(switches)})
        where = f'{run["mode"]}: ' + ' & '.join(names) + (f' ({f["what"]} in number {who + 1}: {res[who].fired[:1]})' if f else '') + '\n'
        ch = dict(runs=[run])
        expected, optional = {}, {}
        for i, (r, (p, made)) in enumerate(zip(res, alone)):
            hit = f and i == who
            if r.status in BAD_END:
                bad.append(V('no-end', where + f'number {i + 1}: ' + failure(r), plan, **ch))
            elif not hit and r.status != p.status:
                bad.append(V('fails', where + f'number {i + 1} succeeds alone: ' + failure(r), plan, **ch))
            elif not hit and cmds[i]['argv'] != ['-lcs'] and said(r) != said(p):
                bad.append(V('differs', where + f'number {i + 1} reports {plain(r.out)[-200:]!r}, alone {plain(p.out)[-200:]!r}', plan, **ch))
            elif not hit and cmds[i]['argv'] == ['-lcs'] and not set(p.out.split('\n')) <= set(r.out.split('\n')):
                bad.append(V('differs', where + f'number {i + 1} does not list all built-in entries', plan, **ch))
            (optional if hit else expected).update(made)
        if bad:
            break
        conf = [k for k in changed if k.startswith('conda/')]
        want = {k: v for k, v in expected.items() if not k.startswith('conda/')}
        wrong = [k for k in want if changed.get(k) != want[k]]
        stray = [k for k in changed if k not in want and k not in optional and k not in conf]
        if wrong:
            bad.append(V('differs', where + f'{wrong[0]} is {"missing" if wrong[0] not in changed else "not what the command writes alone"}', plan, **ch))
        elif stray or temp and not f:
            bad.append(V('stray', where + f'{(stray or temp)[0]} was {"changed" if stray and stray[0] in before else "left"}', plan, **ch))
        elif len(settings) and not (f and cmds[who]['kind'] == 'user' and not conf):
            # the setting is one of those given
            ok = {v for c, (p, m) in zip(cmds, alone) if c['kind'] == 'user' for k, v in m.items() if k.startswith('conda/')}
            if not conf or any(changed[k] not in ok for k in conf):
                bad.append(V('differs', where + f'the setting of the user functions is {[changed[k] for k in conf]}', plan, **ch))
        if bad:
            break
    return {'violations': bad[:2], 'cases': cases, 'probes': probes, 'sample': {'argv': [c['argv'] for c in cmds], 'runs': plan['runs'][:2]}}

"""Generated user commands. Every command is valid: without faults it succeeds on a correct tree.

A command is a dict: kind, argv, out (base of its output names relative to w/, or None for default naming),
promises (files that must exist after success, relative to the run directory), wdir (directory of its outputs)."""
import random

from . import data

CS = ('n83', 'neukumivanov', 'ni2001', 'hartmanndaubar2016', 'Moon, Neukum et al. (2001)', 'mars, iva', 'ida', 'Mercury, Neukum et al. (2001)')
EF = (None, None, 'trask', 'hart84')
EP = (None, None, 'mars', 'wilhelms', 'moon')
IMG = ('svg', 'svg', 'png', 'pdf', 'tif')
RECORDED = '''# Randomness analysis
version = 3.6.10
source = "q.scc"
#
n_sigma = {bin, m2cnd, sdaa
0           \t  -0.6506\t   0.0166
0.5         \t    1.346\t-0.002878
1           \t     -1.4\t        -
}
#
m2cnd = {
n_trials = 4
trials  = {index, 0, 0.5, 1
0           \t79.0476     \t43.34388    \t106.3387    
1           \t49.71839    \t39.82394    \t78.03791    
2           \t53.89959    \t33.17455    \t84.79568    
3           \t54.9743     \t32.96912    \t21.63757    
}
}
#
sdaa = {
n_trials = 3
trials  = {index, 0, 0.5
0           \t1010.569    \t1265.075    
1           \t1891.155    \t964.3855    
2           \t677.6423    \t916.0893    
}
}'''
SHP = ['ejecta01_CRATER' + e for e in ('.shp', '.dbf', '.shx', '.prj', '.cpg')] + ['ejecta01_AREA' + e for e in ('.shp', '.dbf', '.shx', '.prj', '.cpg')]


def inputs(seed, shp=True):
    """Input files of a run. w/ is the working directory, w/in and other/ hold sources."""
    rng = random.Random(seed)
    f = {'w/a.diam': data.diam(seed, 40), 'w/in/b.diam': data.diam(seed + 1, 50, 80.0, True), 'w/s.scc': data.ra_source(seed, rng.choice(('box', 'tri', 'hole'))),
         'w/in/m.scc': data.ra_source(seed + 2), 'other/c 1.diam': data.diam(seed + 3, 30, 200.0), "w/in/d's (2).diam": data.diam(seed + 7, 35, 60.0), 'w/t.stat': data.sample('sample.stat'),
         'w/q.scc': data.scc('box', [(1.0, 5), (1.42, 5), (2.0, 3), (3.0, 2)], seed), 'w/q_ra.txt': RECORDED,
         'w/in/v.scc': data.scc('box', [(1.0, 5), (1.42, 5), (2.0, 3), (3.0, 2)], seed + 5), 'w/in/v_ra.txt': RECORDED.replace('q.scc', 'v.scc'),
         'w/r.scc': data.ra_source(seed + 4), 'w/keep.csv': 'an earlier output\n', 'w/sub/keep.svg': '<svg/>\n',
         'w/set.txt': '# settings\n-cs ni2001\n-ef trask\n-invert 1\n', 'other/set2.txt': '-mu 0\n-legend naN\n'}
    f['conda/etc/.keep'] = ''
    if shp:
        for n in SHP:
            f['w/' + n.replace('ejecta01', 'p')] = data.sample(n)
            if 'CRATER' in n:
                f['w/' + n.replace('ejecta01', 'z [3]')] = data.sample(n)
        for e, b in data.geographic('ejecta01_AREA', .001).items():      # a pair whose parts are in different projections
            f['w/z [3]_AREA.' + e] = b
        for n in ('CRATER', 'AREA'):        # a pair in geographic coordinates
            for e, b in data.geographic('ejecta01_' + n).items():
                f[f'w/g_{n}.{e}'] = b
    f['w/x.cs'] = '-cs ni2001\n-title "From a file|second line"\n-f svg csv\n-p source=a.diam,psym=o\n-p type=poisson,range=[.15,.6]'
    f['other/y.cs'] = '# comment\n-cs n83 -pr cumul\n-f csv svg\n-p "source=c 1.diam"\n-p type=c-fit,range=[.15,.6]\n'
    for k in rng.sample(('w/a.diam', 'w/in/b.diam', 'w/in/m.scc', 'w/t.stat', 'w/set.txt', 'other/set2.txt', 'w/x.cs', 'other/y.cs', 'w/q_ra.txt', 'w/in/v_ra.txt'), 3) if seed % 3 else ():     # text files of other systems
        f[k] = (b'\xef\xbb\xbf' if rng.random() < .5 else b'') + (f[k].encode() if isinstance(f[k], str) else f[k]).replace(b'\r\n', b'\n').replace(b'\n', b'\r\n')
    return f


DATA = (('a.diam', .12, .5), ('in/b.diam', .12, .5), ('s.scc', 1, 2.8), ('t.stat', .13, .5), ('../other/c 1.diam', .12, .5), ("in/d's (2).diam", .12, .5), ('q.scc', 1, 2.8), ('in/m.scc', 1., 2.8), ('in/v.scc', 1., 2.8))


def _plots(rng, seq=False, fits=True, n=None):
    out, fit = [], False
    for _ in range(n or rng.choice((1, 1, 2, 3))):
        src, lo, hi = rng.choice(DATA if not seq else DATA[:3])
        first = ['source=' + src]
        if rng.random() < .5:
            first.append('psym=' + rng.choice(('o', 'fo', 's', 'tri', '*4', 'x')))
        if rng.random() < .4 and not src.endswith('.stat'):
            first.append('binning=' + rng.choice(('root-2', '10/decade', '20/decade', 'x2', 'pseudo-log', '4th root-2')))
        elif not src.endswith('.stat'):
            first.append('binning=pseudo-log')
        else:
            first.append('binning=pseudo-log')
        if rng.random() < .3:
            first.append('name=' + rng.choice(('Area 1', "it's", 'A "b"', 'x=1') [:2]))
        if rng.random() < .3:
            first.append('colour=' + rng.choice(('red', 'blue', '#123456', 'green2')))
        if rng.random() < .2:
            first.append('error_bars=0')
        if seq:
            first.append(f'range=[{lo},{hi}]')
            first.append('type=' + rng.choice(('poisson', 'poisson', 'c-fit', 'd-fit')))
            fit = True
            out += ['-p', ','.join(first)]
            continue
        if 'type' not in ''.join(first):
            first.append('type=data')
        if rng.random() < .08:
            first.append('hide=' + rng.choice('10'))
        out += ['-p', ','.join(first)]
        if fits and rng.random() < .75:
            types = ['poisson', 'c-fit', 'd-fit'] + (['b-poisson'] if src.endswith('.scc') else [])
            t = rng.choice(types)
            e = ['type=' + t, f'range=[{lo},{hi}]']
            if rng.random() < .3:
                e.append('isochron=1')
            if rng.random() < .3:
                e.append('offset_age=[%d,%d]' % (rng.randint(-4, 4), rng.randint(-4, 4)))
            if t == 'c-fit' and rng.random() < .4:
                e.append('resurf=1')
            if rng.random() < .2:
                e.append('snap=0')
            if rng.random() < .2:
                e.append('age_left=1')
            if rng.random() < .1:
                e.append('show_age=0')
            if 'resurf=1' in e and rng.random() < .3:
                e.append('resurf_showall=1')
            out += ['-p', ','.join(e)]
            fit = True
    return out, fit


def _misc(rng):
    o = []
    if rng.random() < .5:
        t = rng.choice(('A title', 'Two|lines', 'Café "x"', "it's $\\mu$", 'a - b', '#1', 'Unit #2 # b'))
        o += ['-title=' + t] if rng.random() < .15 else ['-title', t]
    for opt, vals in (('-isochrons', ('1,3', '1,3.7a,4s')), ('-legend', ('fnaN', '0', 'nacrp')), ('-style', ('root-2', 'natural')), ('-mu', ('0', '1')), ('-invert', ('1',)),
                      ('-pt_size', ('7', '11')), ('-sf', ('2', '3')), ('-ref_diameter', ('1', '10')), ('-tight', ('1',)), ('-transparent', ('1',)), ('-pd', ('6x6', '2'))):
        if rng.random() < .13:
            o += [opt, rng.choice(vals)]
    if rng.random() < .1:
        o += ['-b']
    for opt, vals in (('-text_halo', ('0', '1')), ('-ra_show', ('0', '1')), ('-ra_offset', ('3', '-2')), ('--font', ('DejaVu Sans', 'Open Sans', 'No Such Font'))):
        if rng.random() < .07:
            o += [opt, rng.choice(vals)]
    return o


def _formats(rng, csv=True, n=None):
    pool = list(dict.fromkeys(IMG)) + (['csv'] if csv else [])
    return rng.sample(pool, n or rng.choice((1, 1, 2, 3)))


def _out(rng, i, kind, where='any'):
    """(options, base name relative to w/ or None)"""
    if where == 'default':
        return [], None
    k = rng.random()
    if where == 'here':
        k = .9 if k > .8 else 0
    name = f'{kind}{i}'
    if k < .6:
        return ['-o', name], name
    if k < .75:
        return ['-o', 'sub/' + name], 'sub/' + name
    if k < .85:
        return ['-o', '../other/' + name], '../other/' + name
    return ['-o', name + ' v1'], name + ' v1'


def _w(p):
    return p[3:] if p.startswith('../') else 'w/' + p


DEMOS = (0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 13, 15, 16, 17, 18, 21)
KINDS = ('plot', 'plot', 'plot', 'csv', 'seq', 'chron', 'unc', 'stat', 'scc', 'shp', 'map', 'merge', 'ra', 'i', 'inc')


def gen(rng, i=0, kinds=KINDS, formats=None, where='any'):
    kind = rng.choice(kinds)
    opt, base = _out(rng, i, kind, where)
    base = base or 'r'
    prom = []
    if kind in ('plot', 'csv', 'seq', 'chron', 'inc'):
        argv = []
        fit = False
        if kind == 'csv':
            fs = ['csv']
        elif formats:
            fs = list(formats)
        else:
            fs = _formats(rng, csv=kind != 'chron')
        if kind == 'inc':
            argv += ['-inc', rng.choice(('set.txt', '../other/set2.txt'))]
        if rng.random() < .8:
            argv += ['-cs', rng.choice(CS[:4] if kind == 'seq' else CS)]
        if kind == 'plot' or kind == 'csv' or kind == 'inc':
            pr = rng.choice(('cumulative', 'differential', 'rplot', 'hartmann', 'diff', None))
            if pr:
                argv += ['-pr', pr]
            ef, ep = rng.choice(EF), rng.choice(EP)
            if ef:
                argv += ['-ef', ef]
            if ep and pr != 'hartmann':
                argv += ['-ep', ep]
            if rng.random() < .12:
                argv += ['-xrange', '-3', rng.choice('23')]
            if rng.random() < .12:
                argv += ['-yrange', rng.choice(('-5', '-7')), rng.choice('13')]
        elif kind == 'seq':
            argv += ['-pr', 'seq', '-xrange', '4.2', rng.choice(('1', '.01'))]
        else:
            argv += ['-pr', rng.choice(('chronology', 'rate'))]
            if rng.random() < .2:
                argv += ['-xrange', '3', rng.choice(('0', '.5'))]
            if rng.random() < .2:
                argv += ['-yrange', rng.choice(('-6', '-7')), rng.choice('01')]
            ep = rng.choice(EP)
            if ep:
                argv += ['-ep', ep]
        if where in ('any', 'default') and rng.random() < .15:     # formats by extension of the output name, or the default one
            if where == 'any' and rng.random() < .6:
                fs = [rng.choice(('svg', 'pdf', 'tif', 'png') if kind != 'csv' else ('csv',))]
                opt, base = ['-o', f'{base}.{fs[0]}'], base
            else:
                fs = ['png']
            fopt = []
        else:
            fopt = ['-f'] + fs
        argv += _misc(rng) + opt
        if kind == 'chron' and '-style' in argv:
            k = argv.index('-style')
            del argv[k:k + 2]
        argv += fopt
        if kind != 'chron':
            pl, fit = _plots(rng, kind == 'seq')
            if kind == 'csv' and not fit:
                src, lo, hi = DATA[0]
                pl += ['-p', f'source={src},type=poisson,range=[{lo},{hi}]']
                fit = True
            argv += pl
        prom = [f'{base}.{f}' for f in fs if f != 'csv' or fit] + [base + '.cs']
    elif kind == 'unc':
        fs = list(formats or rng.sample(('svg', 'png', 'pdf'), 1))
        argv = ['-pr', 'uncertainty', '-cs', rng.choice(CS[:4]), '-d_min', rng.choice(('0.15', '1')), '-ns', rng.choice(('5', '7'))] + opt + ['-f'] + fs
        prom = [f'{base}_{t}.{f}' for f in fs for t in ('k', 'err', 'age')] + [base + '.cs']
    elif kind == 'stat':
        argv = opt + ['--convert', 'stat', rng.choice(('a.diam', 's.scc', 'p_CRATER.shp', 'z [3]_CRATER.shp', 'g_CRATER.shp'))]
        prom = [base + '.stat']
    elif kind == 'scc':
        argv = opt + ['--convert', 'scc', rng.choice(('p_CRATER.shp', 'z [3]_CRATER.shp', 'g_CRATER.shp'))]
        prom = [base + '.scc']
    elif kind == 'shp':
        argv = opt + ['--convert', 'shp', rng.choice(('s.scc', 'in/m.scc'))]
        prom = [f'{base}_{t}.{e}' for t in ('CRATER', 'AREA') for e in ('shp', 'dbf', 'shx', 'prj', 'qml')]
    elif kind == 'map':
        f = rng.choice(formats or ('svg', 'png', 'pdf'))
        argv = _misc(rng)[:2] * 0 + opt + ['--convert', f, rng.choice(('s.scc', 'in/m.scc', 'p_CRATER.shp', 'z [3]_CRATER.shp', 'g_CRATER.shp'))]
        prom = [f'{base}_map.{f}', f'{base}_map.cs']
    elif kind == 'merge':
        argv = opt + ['-m', 's.scc', 'in/m.scc'] + (['q.scc'] if rng.random() < .5 else [])
        prom = [base + '.diam']
    elif kind == 'ra':
        fs = list(formats or rng.sample(('svg', 'png'), 1))
        ms = rng.choice((['m2cnd'], ['m2cnd', 'sdaa'], ['sdaa']))
        n0 = rng.random() < .8
        argv = ['-ra', rng.choice(('r.scc', 'r.scc', 'in/v.scc')), '-trials', rng.choice(('4', '6')), '-measure', ','.join(ms)] + opt + (['-select', '0'] if n0 else []) + ['-f'] + fs
        b = base + '_ra'
        prom = [f'{b}-{m}{"-n_sigma" if n0 else ""}.{f}' for f in fs for m in ms] + [b + '.txt', b + '.cs']
        if formats is None and where != 'default' and rng.random() < .2:
            argv += ['csv', '-p', 'source=q.scc', '-p', 'type=poisson,range=[1,2.8]']
            prom.append(base + '.csv')
        else:
            base = b
    elif kind == 'demo':
        which = rng.sample(DEMOS, rng.choice((1, 1, 2)))
        return {'kind': kind, 'argv': ['-demo'], 'which': which, 'base': None, 'dir': 'w/demo', 'promises': [f'w/demo/{i:02d}-demo' + ('_map.cs' if i == 8 else '.cs') for i in which]}
    elif kind == 'user':
        argv, base = ['--functions_user', rng.choice(('/some/path/user functions.txt', 'rel/uf.txt'))], None
        prom = ['../conda/etc/config_functions_user.txt']
    elif kind == 'i':
        if rng.random() < .5:
            argv, base = ['-i', 'x.cs'], 'x'
            prom = ['x.svg', 'x.csv']
        else:
            argv, base = ['-i', '../other/y.cs'], '../other/y'
            prom = ['../other/y.svg', '../other/y.csv']
    if where == 'default' and kind not in ('i', 'user'):
        base, prom = None, []
    return {'kind': kind, 'argv': argv, 'base': base, 'promises': [_w(p) for p in prom]}

"""Inputs for workloads, fingerprints of outputs, and an independent parser of the results file."""
import hashlib, io, math, os, random, re, zlib

SAMPLE = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'src/craterstats/sample')


# ------------------------------------------------------------------------------------------- inputs
def ring(lon0, lon1, lat0, lat1, n=1):
    """Counter-clockwise box boundary, edges divided n times, closed."""
    p = [(lon0 + (lon1 - lon0) * i / n, lat0) for i in range(n)] + [(lon1, lat0 + (lat1 - lat0) * i / n) for i in range(n)] + \
        [(lon1 - (lon1 - lon0) * i / n, lat1) for i in range(n)] + [(lon0, lat1 - (lat1 - lat0) * i / n) for i in range(n)]
    return p + p[:1]


REGIONS = {
    # name: (rings [(tag, points)], containment box)
    'box': [('ext', ring(10, 14, -2, 2))],
    'north': [('ext', ring(-30, -10, 55, 65, 4))],
    'wide': [('ext', ring(-60, 60, -40, 50, 12))],
    'tri': [('ext', [(40, 10), (46, 10), (40, 16), (40, 10)])],
    'hole': [('ext', ring(100, 106, -20, -14)), ('int', ring(102, 104, -18, -16)[::-1])],
    'two': [('ext', ring(10, 12, 0, 3)), ('ext', ring(14, 17, 0, 3))],
    'antarctic': [('ext', ring(20, 50, -78, -70, 6))],
    'sliver': [('ext', [(5, 0), (9, 4), (9, 4.25), (5, .25), (5, 0)])],
    'tiny': [('ext', ring(-33.27, -32.96, 20.04, 20.33))],
    # edges along great circles that leave the range of the vertices, both sides of 180 degrees, a vertex at the pole, several parts with several holes
    'bulge': [('ext', [(-40, 50), (20, 50), (20, 62), (-40, 62), (-40, 50)])],
    'dip': [('ext', [(100, -40), (160, -40), (160, -28), (100, -28), (100, -40)])],
    'anti': [('ext', [((x + 180) % 360 - 180, y) for x, y in ring(174, 186, -30, -24)])],
    'anti2': [('ext', [((x + 180) % 360 - 180, y) for x, y in ring(a, a + 4, 10, 16)]) for a in (174, 182)],
    'tip': [('ext', [(20, 82), (80, 82), (50, 90), (20, 82)])],
    'holes': [('ext', ring(0, 12, 0, 6)), ('int', ring(2, 4, 2, 4)[::-1]), ('int', ring(7, 9, 2, 4)[::-1]), ('ext', ring(20, 24, 0, 6)), ('int', ring(21, 23, 1, 4)[::-1])],
}
SPHERICAL = ('bulge', 'dip', 'anti', 'anti2', 'tip')      # not to be looked at in longitude and latitude


def inside(rings, lon, lat):
    """Even-odd test in lon/lat (edges are short or along parallels with subdivisions: margin left to the caller)."""
    r = False
    for _, p in rings:
        for (x0, y0), (x1, y1) in zip(p, p[1:]):
            if (y0 > lat) != (y1 > lat) and lon < (x1 - x0) * (lat - y0) / (y1 - y0) + x0:
                r = not r
    return r


def craters_in(rings, bins, seed, spherical=False):
    """bins: list of (diameter, count). Points well inside the region."""
    rng = random.Random(seed)
    if spherical:
        from . import geom
        R = geom.Region(rings)
        xs, ys = (math.degrees(math.atan2(R.c[1], R.c[0])) + t for t in (-50, 50)), (-88, 88)
        xs = list(xs)
        test = lambda x, y: all(R.contains(x + a, y + b) for a in (-.02, 0, .02) for b in (-.02, 0, .02))
    else:
        xs = [x for _, p in rings for x, _ in p]
        ys = [y for _, p in rings for _, y in p]
        test = lambda x, y: all(inside(rings, x + a, y + b) for a in (-.02, 0, .02) for b in (-.02, 0, .02))
    out = []
    for d, n in bins:
        k = 0
        while k < n:
            x, y = rng.uniform(min(xs), max(xs)), rng.uniform(min(ys), max(ys))
            if test(x, y):
                out.append((d * rng.uniform(1.02, 1.35), (x + 180) % 360 - 180 if spherical else x, y))
                k += 1
    rng.shuffle(out)
    return out


def scc(region, bins, seed, radius=1737.4):
    rings = REGIONS[region]
    s = ['# Spatial crater count', '#', f'a_axis_radius = {radius} <km>', 'coordinate_system_name = unknown', '#',
         'Total_area = 12345.6 <km^2>', 'Perimeter = 456.7 <km>', '#', 'unit_boundary = {vertex, sub_area, tag, lon, lat']
    v = 1
    for i, (tag, pts) in enumerate(rings, 1):
        for x, y in pts:
            s.append(f'{v}\t{i}\t{tag}\t{x:.12f}\t{y:.12f}')
            v += 1
    s += ['}', '#', 'crater = {diam, lon, lat']
    s += [f'{d:.9g}\t{x:.12f}\t{y:.12f}' for d, x, y in craters_in(rings, bins, seed, region in SPHERICAL)]
    return '\n'.join(s + ['}', ''])


def ra_source(seed, region='box', big=False):
    """A crater count with a few diameter bins, some below the count needed for analysis."""
    rng = random.Random(seed)
    bins, d = [], 2.0 ** rng.choice((0, 1, 0, 1, 0, 1, -.5, -2.5, -5))
    counts = rng.sample((4, 5, 6, 8), 2 + bool(big))
    if rng.random() < .3:       # bins not distinguished by their counts
        counts = counts[:1] * len(counts)
    for n in counts + [rng.choice((2, 3))]:
        bins.append((d, n + (rng.choice((60, 110)) if big == 'dense' else rng.choice((4, 9)) if big else 0)))
        d *= 2 ** .5
    return scc(region, bins, seed)


def sample(name):
    with open(os.path.join(SAMPLE, name), 'rb') as f:
        return f.read()


_geo = {}


def geographic(name, factor=None):
    """{extension: content} of sample shapefile name rewritten in geographic coordinates (same datum), or, given a factor, in a projection with another unit of length."""
    if (name, factor) not in _geo:
        import shapefile
        m = re.search(r'GEOGCS\[.*?\]\]\s*,\s*PRIMEM\[.*?\]\s*,\s*UNIT\[.*?\]\s*\]', sample(name + '.prj').decode())[0]
        k = math.degrees(1 / float(re.search(r'SPHEROID\[".*?",([\d.]+)', m)[1])) if factor is None else factor      # the samples: equirectangular in metres, about longitude 0
        src = shapefile.Reader(shp=io.BytesIO(sample(name + '.shp')), dbf=io.BytesIO(sample(name + '.dbf')), shx=io.BytesIO(sample(name + '.shx')))
        f = {e: io.BytesIO() for e in ('shp', 'shx', 'dbf')}
        w = shapefile.Writer(**f)
        w.fields = list(src.fields)[1:] if src.fields[0][0] == 'DeletionFlag' else list(src.fields)
        for r in src.iterShapeRecords():
            parts = list(r.shape.parts) + [len(r.shape.points)]
            w.record(*r.record)
            w.poly([[(x * k, y * k) for x, y in r.shape.points[a:b]] for a, b in zip(parts, parts[1:])])
        w.close()
        prj = m if factor is None else sample(name + '.prj').decode().replace('UNIT["Meter",1.0]', f'UNIT["Other",{1 / factor!r}]')
        _geo[name, factor] = {**{e: b.getvalue() for e, b in f.items()}, 'prj': prj.encode()}
    return _geo[name, factor]


def put(root, files):
    for rel, b in files.items():
        p = os.path.join(root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(b if isinstance(b, bytes) else b.encode())
        os.utime(p, (1.6e9, 1.6e9))     # conversions quote the time stamp of their source


def diam(seed, n=60, area=100.0, frac=False):
    rng = random.Random(seed)
    s = ['# test', f'area = {area}', '#', 'crater = {diameter' + (', fraction' if frac else '')]
    for _ in range(n):
        d = .1 * (1 - rng.random()) ** (-1 / 2.2)
        s.append(f'{d:.6g}' + (f' {rng.uniform(.3, 1):.4g}' if frac else ''))
    return '\n'.join(s + ['}', ''])


# ------------------------------------------------------------------------------------------- snapshots
def snap(root, skip=()):
    """{relative path: content or marker} of everything under root."""
    out = {}
    for d, dirs, files in os.walk(root):
        dirs.sort()
        for x in dirs:
            p = os.path.join(d, x)
            rel = os.path.relpath(p, root)
            if os.path.islink(p):
                out[rel] = ('link', os.readlink(p))
            elif not any(rel == s or rel.startswith(s + '/') for s in skip):
                out[rel + '/'] = ('dir',)
        for x in files:
            p = os.path.join(d, x)
            rel = os.path.relpath(p, root)
            if any(rel == s or rel.startswith(s + '/') for s in skip):
                continue
            if os.path.islink(p):
                out[rel] = ('link', os.readlink(p))
            else:
                with open(p, 'rb') as f:
                    out[rel] = ('file', f.read())
    return out


_canon = {}


def canon(rel, content, root=''):
    """Fingerprint of a file's content, free of what may legitimately differ (clock, random identifiers)."""
    if content[0] != 'file':
        return repr(content)
    b = content[1]
    key = (rel, hashlib.sha256(b).digest(), root)
    if key not in _canon:
        try:
            _canon[key] = _fingerprint(rel, b, root)
        except Exception as e:
            _canon[key] = f'INVALID {type(e).__name__} ' + hashlib.sha256(b).hexdigest()[:16]
    return _canon[key]


def _fingerprint(rel, b, root):
    ext = rel.rsplit('.', 1)[-1].lower() if '.' in os.path.basename(rel) else ''
    h = hashlib.sha256()
    if ext in ('png', 'tif', 'tiff', 'jpg'):
        import PIL.Image
        with PIL.Image.open(io.BytesIO(b)) as im:
            im.load()
            h.update(repr((im.size, im.mode)).encode() + im.convert('RGBA').tobytes())
        if ext == 'png' and not b.endswith(b'IEND\xaeB`\x82'):
            raise ValueError('truncated')
    elif ext == 'svg':
        t = b.decode()
        if not t.rstrip().endswith('</svg>'):
            raise ValueError('truncated')
        names = {}
        for m in re.finditer(r'\bid="([^"]+)"', t):
            names.setdefault(m[1], f'i{len(names)}')
        t = re.sub(r'(\bid="|url\(#|href="#)([^")]+)', lambda m: m[1] + names.get(m[2], m[2]), t)
        t = re.sub(r'<dc:date>.*?</dc:date>', '', t)
        h.update(t.encode())
    elif ext == 'pdf':
        if not b.rstrip().endswith(b'%%EOF'):
            raise ValueError('truncated')
        b = re.sub(rb'/CreationDate \(.*?\)', b'', b)
        b = re.sub(rb'(?s)startxref.*', b'', re.sub(rb'(?s)\nxref\n.*?trailer', b'\ntrailer', b))
        h.update(b)
    elif ext == 'dbf':
        h.update(b[:1] + b[4:])
    elif ext in ('csv', 'cs', 'txt', 'diam', 'scc', 'stat', 'prj', 'qml'):
        h.update(b.replace(root.encode(), b'<ROOT>') if root else b)
    else:
        h.update(b)
    return h.hexdigest()[:24]


def canon_all(s, root=''):
    return {k: canon(k, v, root) for k, v in s.items()}


# ------------------------------------------------------------------------------------------- results file
class BadFile(Exception):
    pass


def parse_ra(text):
    """Strict parser of a results file, written from the documented layout, not from the code.
    Returns {'scores': {measure: {bin: text or '-'}}, 'measures': {measure: {'n': N, 'trials': {bin: [text]}}}}"""
    if isinstance(text, bytes):
        try:
            text = text.decode('utf-8-sig')
        except UnicodeDecodeError:
            raise BadFile('not text')
    lines = [e for e in text.split('\n') if e.strip() and not e.lstrip().startswith('#')]
    i, out = 0, {'scores': {}, 'measures': {}, 'head': {}}

    def need(c, what):
        if not c:
            raise BadFile(what)
    while i < len(lines):
        m = re.match(r'^(\w+)\s*=\s*(.*)$', lines[i])
        need(m, f'unexpected line {lines[i][:40]!r}')
        key, val = m[1], m[2]
        if key == 'n_sigma':
            cols = [e.strip() for e in val.lstrip('{').split(',')]
            need(val.startswith('{') and cols[0] == 'bin', 'score table header')
            rows = []
            i += 1
            while True:
                need(i < len(lines), 'score table not closed')
                if lines[i].strip() == '}':
                    break
                r = lines[i].split()
                need(len(r) == len(cols), 'score row with wrong number of values')
                rows.append(r)
                i += 1
            for c, name in enumerate(cols[1:], 1):
                out['scores'][name] = {r[0]: r[c] for r in rows}
            need(len({r[0] for r in rows}) == len(rows), 'repeated bin in score table')
        elif val.strip() == '{':
            need(key not in out['measures'], 'measure recorded twice')
            i += 1
            need(i < len(lines), 'measure block cut off')
            m2 = re.match(r'^\s*n_trials\s*=\s*(\d+)\s*$', lines[i])
            need(m2, 'number of trials missing')
            n = int(m2[1])
            i += 1
            need(i < len(lines), 'measure block cut off')
            m3 = re.match(r'^\s*trials\s*=\s*\{\s*index\s*,?(.*)$', lines[i])
            need(m3, 'trials table missing')
            cols = [e.strip() for e in m3[1].split(',') if e.strip()]
            trials = {c: [] for c in cols}
            need(len(trials) == len(cols), 'repeated bin in trials table')
            i += 1
            k = 0
            while True:
                need(i < len(lines), 'trials table not closed')
                if lines[i].strip() == '}':
                    break
                r = lines[i].split()
                need(len(r) == len(cols) + 1, 'trial row with wrong number of values')
                need(r[0] == str(k), 'trial index out of order')
                for c, v in zip(cols, r[1:]):
                    float(v)
                    trials[c].append(v)
                k += 1
                i += 1
            need(k == n, f'{k} trial rows for n_trials = {n}')
            i += 1
            need(i < len(lines) and lines[i].strip() == '}', 'measure block not closed')
            out['measures'][key] = {'n': n, 'trials': trials}
        else:
            out['head'][key] = val
        i += 1
    for m in out['measures']:
        need(m in out['scores'], 'measure without scores')
    for m, sc in out['scores'].items():
        need(m in out['measures'], 'scores without trials')
        need({b for b, v in sc.items() if v != '-'} == set(out['measures'][m]['trials']), 'bins of scores and trials differ')
    return out


def read_ra(path):
    try:
        with open(path, 'rb') as f:
            return parse_ra(f.read())
    except BadFile:
        raise
    except (ValueError, IndexError) as e:
        raise BadFile(repr(e))


def ra_same(a, b, measure):
    """Both files record the same results of a measure."""
    return measure in a['measures'] and measure in b['measures'] and a['measures'][measure] == b['measures'][measure] and \
        {k: v for k, v in a['scores'][measure].items() if v != '-'} == {k: v for k, v in b['scores'][measure].items() if v != '-'}

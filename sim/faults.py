"""Turns abstract fault choices of a plan into concrete faults of a session, using the event counts of an
undisturbed pilot run of the same command on the same tree."""

FS = ('open', 'write', 'close', 'replace', 'rename', 'remove', 'unlink', 'mkdir', 'rmdir', 'chmod', 'utime', 'truncate', 'link', 'symlink', 'fsync')


def _pick(seq, u):
    return seq[min(int(u * len(seq)), len(seq) - 1)] if seq else None


def writing(e):
    kind, path, detail = e
    if kind == 'open':
        return isinstance(detail, str) and any(c in detail for c in 'wax+')
    return kind in FS


def reading(e):
    kind, path, detail = e
    return kind in ('read', 'readall') or kind == 'open' and not writing(e)


def choose(rng, kinds):
    """An abstract fault: where along the run (u), what, and details."""
    return {'what': rng.choice(kinds), 'u': rng.random(), 'at_write': rng.random() < .6, 'act': rng.choice(('enospc', 'eio', 'edquot', 'eacces', 'emfile', 'erofs')),
            'frac': rng.choice((.02, .5, .97)), 'exc': rng.choice(('MemoryError', 'OSError', 'ValueError', 'RuntimeError', 'ZeroDivisionError', 'TimeoutError')), 'depth': rng.choice((0, 0, 1, 2, 3, 5, 9, 20, 50))}


def spec(f, pilot, paths=None, skip=()):
    """Session options that realise fault f, or None if the pilot has no such point.
    paths: optional predicate restricting the file events; skip: path suffixes never hit by disk errors."""
    ev = [(i, e) for i, e in enumerate(pilot.events) if paths is None or e[0] == 'pool' or paths(e[1])]
    wr = [i for i, e in ev if writing(e) and not e[1].startswith('REPO/')]
    soft = [i for i in wr if not pilot.events[i][1].endswith(tuple(skip) or ('\0',))]
    what = f['what']
    if what in ('kill', 'interrupt'):
        k = _pick(wr if f['at_write'] and wr else [i for i, _ in ev], f['u'])
        return None if k is None else {'faults': [{'at': k, 'act': what}]}
    if what == 'full':          # disk full from some point on
        k = _pick(soft, f['u'])
        if k is None:
            return None
        act = f['act'] if f['act'] in ('enospc', 'edquot', 'eio') else 'enospc'
        return {'faults': [{'at': k, 'act': act, 'sticky': True, 'kinds': ('write', 'mkdir', 'fsync')}]}
    if what == 'error':         # one failing operation
        k = _pick(soft, f['u'])
        return None if k is None else {'faults': [{'at': k, 'act': f['act']}]}
    if what == 'torn':
        k = _pick([i for i in soft if pilot.events[i][0] == 'write'], f['u'])
        return None if k is None else {'faults': [{'at': k, 'act': 'torn', 'frac': f['frac']}]}
    if what == 'read':          # one failing read or open for reading
        k = _pick([i for i, e in ev if reading(e)], f['u'])
        return None if k is None else {'faults': [{'at': k, 'act': f['act'] if f['act'] in ('eio', 'eacces', 'emfile') else 'eio'}]}
    if what == 'memory':
        k = _pick([i for i, _ in ev], f['u'])
        return None if k is None else {'faults': [{'at': k, 'act': 'memory'}]}
    if what == 'call':          # user interrupt at entry of some function of the package
        return None if not pilot.calls else {'call_faults': [{'at': int(f['u'] * pilot.calls), 'act': 'interrupt'}]}
    if what in ('task', 'tasks'):       # one failing trial, or every one from there on
        return None if not pilot.ntask else {'pool': {'faults': [{'task': int(f['u'] * pilot.ntask), 'exc': f['exc'], 'depth': f.get('depth', 0), 'sticky': what == 'tasks'}]}}
    if what == 'death':
        return None if not pilot.nmsg else {'pool': {'faults': [{'msg': int(f['u'] * pilot.nmsg)}]}}
    if what == 'spawn':
        return None if not pilot.nspawn else {'pool': {'faults': [{'spawn': int(f['u'] * pilot.nspawn)}]}}
    raise AssertionError(what)


def merge(base, add):
    out = dict(base)
    for k, v in add.items():
        out[k] = {**out.get(k, {}), **v} if k == 'pool' else v
    return out

"""Legal but unlucky random draws. Every value stays inside the range asked for; after `budget` calls the
adversary stops, so that bounded progress can be demanded."""
import random


class Adversary:
    MODES = ('none', 'dup', 'cluster', 'edge', 'lattice', 'same', 'half')

    def __init__(self, spec, salt):
        self.rng = random.Random(f"{spec['seed']}:{salt}")
        self.modes = spec.get('modes') or self.MODES
        self.budget = spec.get('budget', 12)
        self.p = spec.get('p', .7)
        self.calls = 0
        self.used = {}
        self.fix = (self.rng.random(), self.rng.random())

    def uniform(self, lo, hi, v):
        import numpy as np
        self.calls += 1
        if not isinstance(v, np.ndarray) or v.ndim != 1 or len(v) == 0 or self.calls > self.budget or not (np.isscalar(lo) and np.isscalar(hi)):
            return v
        r = self.rng
        mode = r.choice(self.modes) if r.random() < self.p else 'none'
        self.used[mode] = self.used.get(mode, 0) + 1
        n, span = len(v), hi - lo
        if mode == 'none':
            return v
        v = v.copy()
        if mode == 'dup':
            for i in range(1, n):
                if r.random() < .4:
                    v[i] = v[r.randrange(i)]
        elif mode == 'cluster':
            c = lo + span * r.random()
            w = span * 10 ** r.uniform(-6, -1)
            v = c + (v - lo) / span * w - w / 2
        elif mode == 'edge':
            for i in range(n):
                if r.random() < .3:
                    v[i] = lo if r.random() < .5 else hi - span * 1e-12
        elif mode == 'lattice':
            k = r.randint(2, 40)
            v = lo + np.floor((v - lo) / span * k) / k * span
        elif mode == 'same':
            v[:] = v[0]
        elif mode == 'fixed':       # the same place in every batch: outside the region, or on top of the one crater there is
            v[:] = lo + span * self.fix[self.calls % 2]
        elif mode == 'half':
            a = r.choice((0.0, .5))
            v = lo + ((v - lo) / span * .5 + a) * span
        if mode != 'half':
            # never exactly degenerate: sets of exactly coplanar points have probability zero
            v = v + span * np.array([r.uniform(-1e-5, 1e-5) for _ in range(n)])
            v = np.where(v < lo, 2 * lo - v, v)
            v = np.where(v >= hi, 2 * hi - v, v)
        return np.clip(v, lo + span * 1e-12, np.nextafter(hi, lo))

    def poisson(self, lam, v):
        self.calls += 1
        if getattr(v, 'ndim', 0) or self.calls > self.budget:
            return v
        r = self.rng
        if r.random() >= self.p:
            return v
        k = r.choice((0, 1, 2, int(v), int(v) + 1, int(lam * 2) + 1, int(lam), max(0, int(lam) - 1), r.randint(0, 8)))
        self.used[k] = self.used.get(k, 0) + 1
        if lam <= 0:
            return v
        return type(v)(k)


def make(spec, salt):
    return Adversary(spec, salt)

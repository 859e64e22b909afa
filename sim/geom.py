"""Brute-force spherical geometry, independent of spherely, HEALPix and SphericalVoronoi."""
import math
import numpy as np


def vec(lon, lat):
    lon, lat = np.radians(np.asarray(lon, float)), np.radians(np.asarray(lat, float))
    return np.stack([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)], -1)


def dist(a, b):
    """Angular distance of unit vectors (accurate for small and large angles)."""
    return 2 * np.arcsin(np.clip(np.linalg.norm(a - b, axis=-1) / 2, 0, 1))


class Region:
    """Mapped region inside a hemisphere, in gnomonic projection about its middle (great circles are straight)."""
    def __init__(self, rings):
        import shapely
        v = [vec(*zip(*p)) for _, p in rings]
        c = np.concatenate(v).mean(0)
        self.c = c / np.linalg.norm(c)
        e = np.cross([0, 0, 1.0], self.c)
        if np.linalg.norm(e) < 1e-6:
            e = np.array([1.0, 0, 0])
        self.e = e / np.linalg.norm(e)
        self.n = np.cross(self.c, self.e)
        p = None
        for (tag, _), x in zip(rings, v):
            q = shapely.Polygon(self.plane(x))
            if tag == 'ext':
                p = q if p is None else p.union(q)
            else:
                p = p.difference(q)
        self.poly = p
        shapely.prepare(p)

    def plane(self, v):
        d = v @ self.c
        return np.stack([v @ self.e / d, v @ self.n / d], -1)

    def margin(self, lon, lat):
        """Positive inside, negative outside; magnitude ~ distance to the boundary in radians (near the middle)."""
        import shapely
        q = self.plane(vec(lon, lat))
        pts = shapely.points(q[..., 0], q[..., 1])
        d = shapely.distance(self.poly.boundary, pts)
        return np.where(shapely.contains(self.poly, pts), d, -d)

    def contains(self, lon, lat):
        import shapely
        v = vec(lon, lat)
        front = v @ self.c > 1e-3
        q = self.plane(np.where(front[..., None], v, self.c))
        return front & shapely.contains_xy(self.poly, q[..., 0], q[..., 1])

    def area(self, poly=None):
        """Spherical area (unit radius) of a planar (gnomonic) polygon with straight edges."""
        poly = self.poly if poly is None else poly
        if poly.is_empty:
            return 0.0
        if hasattr(poly, 'geoms'):
            return sum(self.area(g) for g in poly.geoms if g.geom_type in ('Polygon', 'MultiPolygon'))
        return abs(self._ring(poly.exterior)) - sum(abs(self._ring(r)) for r in poly.interiors)

    def _ring(self, ring):
        q = np.asarray(ring.coords)[:, :2]
        v = self.c + q[:, :1] * self.e + q[:, 1:] * self.n
        v /= np.linalg.norm(v, axis=1)[:, None]
        a, b = v[:-1], v[1:]
        c = v.mean(0)
        c /= np.linalg.norm(c)
        num = np.einsum('ij,ij->i', np.cross(a, b), np.broadcast_to(c, a.shape))
        den = 1 + a @ c + b @ c + np.einsum('ij,ij->i', a, b)
        return float(np.sum(2 * np.arctan2(num, den)))

    def cells(self, lon, lat):
        """Areas (unit radius) of the Voronoi cells of the points, cut to the region."""
        import shapely
        v = vec(lon, lat)
        minx, miny, maxx, maxy = self.poly.bounds
        big = 10 * (1 + max(abs(minx), abs(miny), abs(maxx), abs(maxy)))
        out = []
        for i in range(len(v)):
            cell = shapely.box(minx - .1, miny - .1, maxx + .1, maxy + .1)
            for j in range(len(v)):
                if i == j:
                    continue
                w = v[i] - v[j]     # points closer to i: x . w > 0, in the plane a x + b y + c > 0
                a, b, c = w @ self.e, w @ self.n, w @ self.c
                h = math.hypot(a, b)
                if h == 0:
                    continue
                x0, y0 = -a * c / h ** 2, -b * c / h ** 2
                dx, dy, nx, ny = -b / h, a / h, a / h, b / h
                s = big + math.hypot(x0, y0)
                cell = cell.intersection(shapely.Polygon([(x0 - s * dx, y0 - s * dy), (x0 + s * dx, y0 + s * dy),
                                                          (x0 + s * dx + s * nx, y0 + s * dy + s * ny), (x0 - s * dx + s * nx, y0 - s * dy + s * ny)]))
                if cell.is_empty:
                    break
            out.append(self.area(cell.intersection(self.poly)))
        return np.array(out)


def second_nearest(lon, lat):
    """Angular distance of each point to its second-nearest other point."""
    v = vec(lon, lat)
    d = dist(v[:, None], v[None])
    d.sort(axis=1)
    return d[:, 2]


def measure(kind, rings, lon, lat, radius):
    if kind == 'm2cnd':
        return float(np.mean(second_nearest(lon, lat)) * radius)
    r = Region(rings)
    return float(np.std(r.cells(lon, lat)) * radius ** 2)

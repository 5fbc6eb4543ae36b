"""Independent spherical geometry (numpy and plane polygons in gnomonic projection) and writers of spatial files."""
import numpy as np
import shapely as shp
from shapely.geometry import Polygon, MultiPolygon
from shapely.ops import unary_union


def vec(lon, lat):
    lon, lat = np.radians(lon), np.radians(lat)
    return np.stack([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)], -1)


def lonlat(v):
    v = np.asarray(v)
    return np.degrees(np.arctan2(v[..., 1], v[..., 0])), np.degrees(np.arctan2(v[..., 2], np.hypot(v[..., 0], v[..., 1])))


def dist(a, b):
    """angle between unit vectors"""
    return np.arctan2(np.linalg.norm(np.cross(a, b), axis=-1), np.sum(a * b, -1))


def frame(c):
    """orthonormal east, north at unit vector c"""
    e = np.cross([0., 0., 1.], c)
    if np.linalg.norm(e) < 1e-9:
        e = np.array([0., 1., 0.])
    e = e / np.linalg.norm(e)
    return e, np.cross(c, e)


def destination(c, az, r):
    """points at angle r in direction az (radians) from unit vector c"""
    e, n = frame(c)
    az, r = np.broadcast_arrays(np.asarray(az, float), np.asarray(r, float))
    return np.cos(r)[..., None] * c + np.sin(r)[..., None] * (np.sin(az)[..., None] * e + np.cos(az)[..., None] * n)


def ring_area(V, c):
    """absolute area (steradian) of the ring of unit vectors V (open); c a point near it"""
    W = np.roll(V, -1, axis=0)
    num = np.sum(np.cross(V - c, W - c) * c, -1)    # = c . (V x W) without loss for small rings
    den = 1 + V @ c + W @ c + np.sum(V * W, -1)
    return abs(np.sum(2 * np.arctan2(num, den)))


def ring_length(V):
    return float(np.sum(dist(V, np.roll(V, -1, axis=0))))


def ring_moment(V):
    """integral of the unit vector over the region of the ring, up to orientation"""
    W = np.roll(V, -1, axis=0)
    c = V.mean(0)
    flat = np.cross(V - c, W - c)       # sums to that of V x W, without loss for small rings
    n = np.cross(V, W)
    t = dist(V, W)
    s = np.linalg.norm(n, axis=-1)
    f = np.where(t < 1e-3, t * t / 6 + 7 * t ** 4 / 360, np.where(s > 0, t / np.where(s > 0, s, 1) - 1, 0))
    return .5 * np.sum(flat + f[:, None] * n, 0)


class Gnomonic:
    """great circles about c become straight lines"""

    def __init__(self, c):
        self.c = np.asarray(c, float)
        self.e, self.n = frame(self.c)

    def xy(self, v):
        v = np.asarray(v)
        w = v @ self.c
        return np.stack([v @ self.e / w, v @ self.n / w], -1)

    def v(self, xy):
        xy = np.asarray(xy)
        v = self.c + xy[..., :1] * self.e + xy[..., 1:2] * self.n
        return v / np.linalg.norm(v, axis=-1)[..., None]

    def ring(self, co):
        """unit vectors of plane ring coordinates (closed)"""
        return self.v(np.asarray(co)[:-1, :2])

    def area(self, g):
        """spherical area of a plane geometry"""
        if g.is_empty:
            return 0.
        if g.geom_type == 'Polygon':
            return ring_area(self.ring(g.exterior.coords), self._near(g.exterior.coords)) - sum(
                ring_area(self.ring(r.coords), self._near(r.coords)) for r in g.interiors)
        return sum(self.area(x) for x in g.geoms if x.geom_type in ('Polygon', 'MultiPolygon', 'GeometryCollection'))

    def _near(self, co):
        return self.v(np.asarray(co)[0, :2])

    def length(self, g):
        if g.geom_type == 'Polygon':
            return sum(ring_length(self.ring(r.coords)) for r in [g.exterior, *g.interiors])
        return sum(self.length(x) for x in g.geoms)

    def centroid(self, g):
        """unit vector of area centroid"""
        t = np.zeros(3)
        for p in (g.geoms if hasattr(g, 'geoms') else [g]):
            for r, s in [(p.exterior, 1)] + [(x, -1) for x in p.interiors]:
                q = ring_moment(self.ring(r.coords))
                t += s * (q if q @ self._near(r.coords) > 0 else -q)
        return t / np.linalg.norm(t)


# ---- random regions ---------------------------------------------------------------------------------
def star(rng, n, r0, r1, smooth=False):
    """plane star-shaped ring about the origin"""
    while True:
        az = (np.arange(n) + rng.uniform(0, .85, n)) * 2 * np.pi / n + rng.uniform(0, 6)
        if np.max(np.diff(np.r_[az, az[0] + 2 * np.pi])) < 2.8:
            break
    r = rng.uniform(r0, r1, n)
    if smooth:
        r = (r0 + r1) / 2 * (1 + .25 * np.sin(3 * az + rng.uniform(0, 6)))
    p = np.c_[r * np.sin(az), r * np.cos(az)]
    return p[::-1] if rng.random() < .5 else p


class Region:
    """rings: list of sub-areas, each [shell, hole, ...] of unit vector arrays (open); plane: MultiPolygon in gnomonic projection"""
    def __init__(self, G, plane):
        self.G, self.plane = G, plane
        self.rings = [[G.ring(r.coords) for r in [p.exterior, *p.interiors]] for p in plane.geoms]

    def area(self):
        return self.G.area(self.plane)

    def length(self):
        return self.G.length(self.plane)


def region(rng, size=None, parts=None, holes=True, where=None, nv=None):
    """random region of angular radius up to size (degrees); None centre chosen with 180 meridian and poles favoured"""
    size = 10 ** rng.uniform(-1.5, 1.5) if size is None else size
    t = np.tan(np.radians(min(size, 55.)))
    if where == 'box':      # nearly a rectangle of longitude and latitude
        w, h = rng.uniform(.3, min(max(size, 1.), 6.), 2)
        lon, lat = rng.uniform(-180, 180), rng.uniform(-35, 35)
        if rng.random() < .3:
            lon, lat = 180 + rng.uniform(-.5, .5) * w, rng.uniform(-8, 8)
        G = Gnomonic(vec(lon, lat))
        q = np.array([[-1, -1], [1, -1], [1, 1], [-1, 1]]) * [w / 2, h / 2] + rng.uniform(-.012, .012, (4, 2)) * [w, h]
        return Region(G, MultiPolygon([Polygon(G.xy(vec(lon + q[:, 0], lat + q[:, 1])))]))
    where = where if where is not None else str(rng.choice(['any', 'any', '180', 'pole', 'zero']))
    if where == 'pole':
        lat = (90 - rng.uniform(0, size * 1.2)) * rng.choice([-1, 1])
        lon = rng.uniform(-180, 180)
    else:
        lat = np.degrees(np.arcsin(rng.uniform(-.95, .95)))
        lon = {'any': rng.uniform(-180, 180), '180': 180 + rng.uniform(-1, 1) * size, 'zero': rng.uniform(-1, 1) * size}[where]
    G = Gnomonic(vec(lon, lat))
    k = (1 + (rng.random() < .35) + (rng.random() < .15)) if parts is None else parts
    for _ in range(50):
        P = []
        for i in range(k):
            s = t if k == 1 else t * .42
            c = np.zeros(2) if k == 1 else t * .55 * np.array([np.sin(2 * np.pi * i / k + .3), np.cos(2 * np.pi * i / k + .3)])
            shell = star(rng, nv or (int(rng.integers(3, 16)) if rng.random() < .8 else 60), s * .45, s, rng.random() < .2) + c
            p = Polygon(shell)
            H = []
            if holes and rng.random() < .4:
                for _ in range(int(rng.choice([1, 2, 2, 4, 8]))):
                    h = Polygon(star(rng, int(rng.integers(3, 9)), s * .05, s * .2) + c + rng.uniform(-.25, .25, 2) * s)
                    if p.buffer(-s * .02).contains(h) and all(h.disjoint(x.buffer(s * .02)) for x in H):
                        H.append(h)
            P.append(Polygon(p.exterior.coords, [h.exterior.coords for h in H]))
            if H and rng.random() < .4:     # island within a hole
                h = H[0]
                o = h.representative_point()
                q = shp.affinity.scale(h, .4, .4, origin=o)
                if h.contains(q):
                    z = shp.affinity.scale(q, .4, .4, origin=o)     # with a hole itself
                    P.append(Polygon(q.exterior.coords, [z.exterior.coords] if rng.random() < .5 and q.contains(z) else []))
        M = MultiPolygon(P)
        if M.is_valid and M.area > 0:
            return Region(G, M)
    raise RuntimeError('no region')


def circle(c, d, n=72, phase=0.):
    """rim of crater of diameter d (angle) about unit vector c"""
    return destination(c, np.linspace(0, 2 * np.pi, n, endpoint=False) + phase, d / 2)


def place(rng, R, n, inside=True):
    """n random unit vectors in (or around) region R, roughly uniform"""
    x0, y0, x1, y1 = R.plane.bounds
    w, h = x1 - x0, y1 - y0
    L = []
    while len(L) < n:
        p = np.array([rng.uniform(x0 - (0 if inside else .15 * w), x1 + (0 if inside else .15 * w)), rng.uniform(y0 - (0 if inside else .15 * h), y1 + (0 if inside else .15 * h))])
        if not inside or R.plane.contains(shp.Point(p)):
            L.append(R.G.v(p))
    return np.array(L)


# ---- files ----------------------------------------------------------------------------------------
def scc(rng, R, radius, craters, area=None, per=None, fractions=None, wrap=False, ids=None, repeat=False, key='a_axis_radius'):
    """text of .scc file; craters = list of (diameter km, unit vector)"""
    B, sub = [], 0
    rings = [(r, 'ext' if j == 0 else 'int') for part in R.rings for j, r in enumerate(part)]
    for k, (r, tag) in enumerate(rings):
        i = k + 1 if ids is None else ids[k]
        lon, lat = lonlat(np.vstack([r, r[:1]]))
        if wrap:
            lon = lon % 360
        for x, y in zip(lon, lat):
            B.append((i, tag, float(x), float(y)))
            if repeat and rng.random() < .1:
                B.append(B[-1])
    if ids is not None and rng.random() < .5:   # in order of number rather than of nesting
        B.sort(key=lambda b: b[0])
    t = ['# Spatial crater count', '#', key + f' = {float(radius)!r} <km>', 'coordinate_system_name = Sphere', 'unit_boundary = {vertex, sub_area, tag, lon, lat', '#']
    t += [f'{i + 1}\t{s}\t{g}\t{x!r}\t{y!r}' for i, (s, g, x, y) in enumerate(B)] + ['}', '#']
    t += [f'Total_area = {float(R.area() * radius ** 2 if area is None else area)!r} <km^2>']
    if per is not False:
        t += [f'Perimeter = {float(R.length() * radius if per is None else per)!r} <km>']
    t += ['#', 'crater = {diam, fraction, lon, lat, topo_scale_factor' if fractions is not None else 'crater = {diam, lon, lat']
    for k, (d, v) in enumerate(craters):
        lon, lat = lonlat(v)
        lon = lon % 360 if wrap else lon
        t.append('\t'.join([repr(float(d))] + ([repr(float(fractions[k]))] if fractions is not None else []) + [repr(float(lon)), repr(float(lat))] + (['1'] if fractions is not None else [])))
    return '\n'.join(t + ['}', ''])


def lonlat_ring(r, wrap=False, contiguous=False):
    lon, lat = lonlat(np.vstack([r, r[:1]]))
    if contiguous:
        lon = np.unwrap(lon, period=360)
    elif wrap:
        lon = lon % 360
    return lon, lat


def clockwise(xy):
    x, y = np.asarray(xy).T
    return np.sum((np.roll(x, -1) - x) * (np.roll(y, -1) + y)) > 0


def write_shp(name, polys, wkt, project=None, fields=None):
    """polygon shapefile; polys = list of records, each a list of rings [(shell?, unit vectors)]"""
    import shapefile
    w = shapefile.Writer(name)
    w.field('tag', 'C', 20)
    lon0 = None
    for rec in polys:
        parts = []
        for outer, r in rec:
            lon, lat = lonlat_ring(r, contiguous=True)
            if lon0 is None:
                lon0 = lon[0]
            lon = lon + 360 * np.round((lon0 - np.mean(lon)) / 360)     # all rings of the file in the same turn
            if abs(lon[-1] - lon[0]) > 1:
                lon, lat = lonlat_ring(r)   # about a pole
            x, y = (lon, lat) if project is None else project(lon, lat)
            p = np.c_[x, y]
            if abs(lon[-1] - lon[0]) < 1e-6:    # closed exactly
                p[-1] = p[0]
            if clockwise(p[:-1]) != outer:
                p = p[::-1]
            parts.append(p.tolist())
        w.poly(parts)
        w.record('standard')
    w.close()
    with open(name[:-4] + '.prj' if name.endswith('.shp') else name + '.prj', 'w') as f:
        f.write(wkt)


def read_shp(name):
    """list of records (list of rings of (lon, lat))"""
    import shapefile
    with shapefile.Reader(name) as r:
        return [[np.array(s.points[a:b]) for a, b in zip(s.parts, list(s.parts[1:]) + [len(s.points)])] for s in r.shapes()]


def read_dbf(name):
    """list of attribute records"""
    import shapefile
    with shapefile.Reader(name) as r:
        return [x.as_dict() for x in r.records()]


def clip(poly, a, b, c):
    """part of convex polygon (list of (x, y)) with a + b x + c y >= 0"""
    out = []
    n = len(poly)
    for i in range(n):
        p, q = poly[i], poly[(i + 1) % n]
        fp, fq = a + b * p[0] + c * p[1], a + b * q[0] + c * q[1]
        if fp >= 0:
            out.append(p)
        if (fp >= 0) != (fq >= 0):
            t = fp / (fp - fq)
            out.append((p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1])))
    return out


def voronoi_areas(R, P):
    """spherical areas of the parts of region R nearest to each of the unit vectors P"""
    G = R.G
    x0, y0, x1, y1 = R.plane.bounds
    A = []
    for i in range(len(P)):
        poly = [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]
        D = P[i] - P
        for j in np.argsort(np.sum(D * D, 1))[1:]:
            d = D[j]
            poly = clip(poly, float(d @ G.c), float(d @ G.e), float(d @ G.n))
            if len(poly) < 3:
                break
        A.append(G.area(Polygon(poly).intersection(R.plane)) if len(poly) >= 3 else 0.)
    return np.array(A)

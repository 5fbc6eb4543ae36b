"""Monitors of spatial counts: geometry on the sphere, conversion, fractions, random configurations, randomness analysis."""
import inspect
import json
import os
import pickle
import re

import numpy as np
import pyproj
import shapely as shp
from scipy.optimize import brentq
from shapely.geometry import MultiPolygon, Polygon
from shapely.ops import unary_union

import craterstats as cst
from . import gen
from . import sphere as sp
from .cliutil import run, listing
from .core import case, scratch, quiet, Skip, Inconclusive

RADII = [1737.4, 3396.19, 2439.7, 252.1, 470., 6051.8, 100., 1821.6]


def pick(rng, L):
    return L[int(rng.integers(len(L)))]


def geographic(R):
    """WKT of geographic coordinates on a sphere of R km"""
    return f'GEOGCS["GCS_X",DATUM["D_X",SPHEROID["X",{R * 1e3!r},0.0]],PRIMEM["Reference_Meridian",0.0],UNIT["Degree",0.0174532925199433]]'


def projected(rng, R, c):
    """(WKT, transform lon,lat -> x,y) of a map projection suitable near unit vector c"""
    lon0, lat0 = (float(x) for x in sp.lonlat(c))
    k = pick(rng, ['laea', 'sinu', 'eqc', 'stere', 'moll', 'aeqd'])
    p = {'laea': f'+proj=laea +lat_0={lat0:.3f} +lon_0={lon0:.3f}', 'sinu': f'+proj=sinu +lon_0={lon0:.3f}', 'eqc': f'+proj=eqc +lat_ts={lat0:.2f} +lon_0={lon0:.3f}',
         'stere': f'+proj=stere +lat_0={lat0:.3f} +lon_0={lon0:.3f}', 'moll': f'+proj=moll +lon_0={lon0:.3f}', 'aeqd': f'+proj=aeqd +lat_0={lat0:.3f} +lon_0={lon0:.3f}'}[k]
    crs = pyproj.CRS.from_proj4(p + f' +R={R * 1e3!r} +units=m +no_defs')
    wkt = crs.to_wkt('WKT1_ESRI')
    crs = pyproj.CRS.from_wkt(wkt)
    t = pyproj.Transformer.from_crs(crs.geodetic_crs, crs, always_xy=True)
    return k, wkt, t.transform


def span(R):
    """does the region enclose a pole, or lie close to one"""
    lat = np.concatenate([sp.lonlat(r)[1] for part in R.rings for r in part])
    pole = any(R.G.c[2] * s > .2 and R.plane.convex_hull.contains(shp.Point(R.G.xy(np.array([0, 0, float(s)])))) for s in (1, -1))
    return pole, np.max(abs(lat))


def crater_set(rng, R, radius, n, rel=None, inside=True, apart=False):
    """[(diameter km, centre unit vector)] with sizes relative to the region"""
    size = np.sqrt(R.area() / np.pi)
    P = sp.place(rng, R, n, inside)
    d = size * 10 ** rng.uniform(pick(rng, [-3, -3, -5]), -.5, n) if rel is None else size * rel * rng.uniform(.8, 1.2, n)
    d = np.maximum(d, 1e-3 / radius)
    return [(float(x * radius), p) for x, p in zip(d, P)]


def crater_polygon(radius, d, c, n):
    return sp.circle(c, d / radius, n)


def diam_of(A, radius):
    """spherical diameter (km) of cap of A steradian"""
    return 2 * radius * 2 * np.arcsin(np.sqrt(A / (4 * np.pi)))


def shp_pair(rng, name, R, radius, craters, proj=None, split=None):
    """write crater and area shapefiles; returns vertex arrays of craters"""
    wkt, tr = (geographic(radius), None) if proj is None else proj[1:]
    nv = int(pick(rng, [24, 36, 72, 100, 180]))
    C = [crater_polygon(radius, d, c, nv) for d, c in craters]
    if proj is None and rng.random() < .3:
        pass
    sp.write_shp(name[0], [[(True, c)] for c in C], wkt, tr)
    recs = [[(j == 0, r) for j, r in enumerate(part)] for part in R.rings]
    if split is None:
        split = rng.random() < .6
    if not split:       # one record with all parts
        recs = [[x for r in recs for x in r]]
    sp.write_shp(name[1], recs, wkt, tr)
    return C


def usable(R, geo=True):
    pole, lat = span(R)
    if pole or lat > 89:
        raise Skip


# ======================================================================================== C26
@case('C26', quick=1040, thorough=9000, needs=('scc-holes', 'scc-parts', 'scc-180', 'scc-pole'))
def scc_geometry(m, rng):
    R = sp.region(rng)
    radius = pick(rng, RADII)
    craters = crater_set(rng, R, radius, int(rng.integers(1, 25)))
    nr = sum(len(p) for p in R.rings)
    ids = None
    if rng.random() < .3:
        ids = [int(x) for x in rng.choice(np.arange(1, pick(rng, [nr + 1, nr + 1, 40 + nr])), nr, replace=False)]
    with scratch():
        fr = rng.uniform(.01, 1, len(craters)).round(4) if rng.random() < .5 else None
        t = sp.scc(rng, R, radius, craters, fractions=fr, wrap=rng.random() < .3, ids=ids, repeat=rng.random() < .3, key=pick(rng, ['a_axis_radius', 'a_axis_radius', 'a-axis radius', 'a_axis radius']))
        gen.write('a.scc', t)
        m.note(text=t)
        with quiet() as (o, e):
            s = m.call(cst.Spatialcount, 'a.scc')
        m.close(s.area, R.area() * radius ** 2, 'area', rtol=2e-9 + 1e-15 / R.area())
        m.close(s.perimeter, R.length() * radius, 'perimeter', rtol=1e-9)
        m.close(s.planetary_radius, radius, 'radius')
        got = sorted(zip(s.diam, s.fraction, *sp.vec(s.lon, s.lat).T.tolist()))
        want = sorted(zip([d for d, _ in craters], [1.] * len(craters) if fr is None else fr, *np.array([v for _, v in craters]).T.tolist()))
        m.close(got, want, 'craters', rtol=1e-12, atol=1e-12)
        m.check(list(s.diam) == sorted(s.diam), 'order')
    if any(len(p) > 1 for p in R.rings):
        m.event('scc-holes')
    if len(R.rings) > 1:
        m.event('scc-parts')
    if span(R)[0]:
        m.event('scc-pole')
    elif np.ptp(np.concatenate([sp.lonlat(r)[0] for p in R.rings for r in p])) > 300:
        m.event('scc-180')
    m.sig(round(R.area(), 12), nr, radius)
    m.sample(dict(parts=[len(p) for p in R.rings], area=s.area, perimeter=s.perimeter))


@case('C26', quick=440, thorough=3500, needs=('shp-geographic', 'shp-projected', 'shp-holes', 'shp-parts', 'shp-wide-180'))
def shp_geometry(m, rng):
    wide = rng.random() < .3   # few corners, far apart in longitude, to both sides of the 180 meridian
    if wide:
        R = sp.region(rng, size=rng.uniform(14, 45), where='180', nv=int(rng.integers(3, 7)), parts=1)
    else:
        R = sp.region(rng, size=10 ** rng.uniform(-1.5, 1.2))
    usable(R)
    radius = pick(rng, RADII)
    craters = crater_set(rng, R, radius, int(rng.integers(1, 14)))
    proj = None
    if wide or rng.random() < .5:
        proj = projected(rng, radius, R.G.c)
    pair = pick(rng, [('s_CRATER.shp', 's_AREA.shp'), ('CRATER_s.shp', 'AREA_s.shp'), ('a b_CRATER.shp', 'a b_AREA.shp')])
    with scratch():
        C = shp_pair(rng, pair, R, radius, craters, proj)
        m.note(radius=radius, craters=craters, rings=R.rings, projection=proj and proj[0])
        with quiet():
            s = m.call(cst.Spatialcount, pair[0])
            cc = m.call(cst.Cratercount, pair[0])
        m.close(s.area, R.area() * radius ** 2, 'area', rtol=3e-8 + 1e-15 / R.area())
        m.close(s.perimeter, R.length() * radius, 'perimeter', rtol=3e-8)
        m.close(s.planetary_radius, radius, 'radius', rtol=1e-12)
        m.close([cc.area, cc.perimeter], [s.area, s.perimeter], 'count-differs')
        exp = []
        for (d, c), v in zip(craters, C):
            G = sp.Gnomonic(c)
            frac = overlap(R, G, v)
            if 0 < frac < 1e-6:
                raise Skip
            if frac > 0:
                A = sp.ring_area(v, c)
                exp.append((diam_of(A, radius), *c, A))
        exp.sort(key=lambda x: (x[1], x[0]))
        got = sorted(zip(s.diam, *sp.vec(s.lon, s.lat).T.tolist()), key=lambda x: (x[1], x[0])) if s.diam else []
        m.check(len(got) == len(exp), 'craters-kept', lambda: f'{len(got)} expected {len(exp)}')
        m.check(sorted(s.diam) == sorted(cc.diam), 'count-differs')
        exp.sort(key=lambda x: x[0])
        got.sort(key=lambda x: x[0])
        for g, e in zip(got, exp):
            m.close(g[0], e[0], 'diameter', rtol=3e-7 + 1e-14 / (e[0] / radius) + (1e-6 if proj else 0))
            k = min(range(len(exp)), key=lambda i: np.sum((np.array(exp[i][1:4]) - g[1:]) ** 2))
            m.check(sp.dist(np.array(exp[k][1:4]), np.array(g[1:])) < 1e-9 + 2e-3 * exp[k][0] / radius, 'position', lambda: f'{g} {exp[k]}')
    m.event('shp-projected' if proj else 'shp-geographic')
    if wide and any(len(p) > 1 for p in R.rings):
        m.event('shp-wide-180')
    if any(len(p) > 1 for p in R.rings):
        m.event('shp-holes')
    if len(R.rings) > 1:
        m.event('shp-parts')
    m.sig(round(R.area(), 12), len(R.rings), radius, proj and proj[0])


def overlap(R, G, v):
    """fraction of the area of crater with rim vertices v within R"""
    c = Polygon(G.xy(v))
    P = [Polygon(G.xy(r[0]), [G.xy(h) for h in r[1:]]) for r in R.rings] if np.all(np.concatenate([r for p in R.rings for r in p]) @ G.c > .05) else None
    if P is None:   # too far apart for one projection: clip in the region's own
        G = R.G
        if np.any(v @ G.c < .05):
            return 0.
        c = Polygon(G.xy(v))
        P = list(R.plane.geoms)
    A = G.area(c)
    x = sum(G.area(c.intersection(p)) for p in P)
    return min(x / A, 1.)


# ======================================================================================== C28
def lf_exact(af):
    """penetration (in diameters) of a straight boundary into a circle of which the fraction af lies inside"""
    if af <= 0 or af >= 1:
        return float(min(max(af, 0), 1))
    return brentq(lambda x: (2 * np.arccos(1 - 2 * x) - np.sin(2 * np.arccos(1 - 2 * x))) / (2 * np.pi) - af, 0, 1, xtol=1e-13)


def lf_bounds(af, w=.0105):
    """interval of values interpolated linearly between penetrations no more than w apart"""
    x = lf_exact(af)
    a = lambda q: (2 * np.arccos(1 - 2 * q) - np.sin(2 * np.arccos(1 - 2 * q))) / (2 * np.pi)
    # largest error of linear interpolation over any interval of width w containing x
    e = 0.
    for k in np.linspace(0, 1, 21):
        lo = min(max(x - k * w, 0), 1 - w)
        a0, a1 = a(lo), a(lo + w)
        e = max(e, abs(lo + w * (af - a0) / (a1 - a0) - x))
    return x, e


@case('C28', quick=1, thorough=1)
def transform(m, rng):
    """area fraction to penetration fraction, all over"""
    t = m.call(cst.fractional_crater_transform)
    af = np.r_[0, np.sort(rng.random(3000)), np.geomspace(1e-9, .01, 300), 1 - np.geomspace(1e-9, .01, 300), 1]
    af = np.sort(af)
    lf = np.asarray(m.call(t.af2lf, af))
    for x, y in zip(af, lf):
        e, tol = lf_bounds(x)
        m.check(abs(y - e) <= tol + 1e-9, 'transform', lambda: f'{x}: {y} expected {e}+-{tol}')
        m.event('transform-points')
    m.check(np.all(np.diff(lf) >= 0) and lf[0] == 0 and lf[-1] == 1, 'transform')
    m.sig('transform')


@case('C28', quick=390, thorough=4000, needs=('fraction-partial', 'fraction-outside', 'fraction-inside', 'boundary-through-centre'))
def fractions(m, rng):
    """craters across the boundary of a shapefile area count with the penetrated fraction of their diameter, those outside not"""
    R = sp.region(rng, size=10 ** rng.uniform(-1.2, 1.1))
    usable(R)
    radius = pick(rng, RADII)
    size = np.sqrt(R.area() / np.pi)
    n = int(rng.integers(3, 14))
    craters = []
    segs = [(a, b) for p in R.rings for r in p for a, b in zip(r, np.roll(r, -1, axis=0))]
    for _ in range(n):
        d = max(size * 10 ** rng.uniform(-2, -.4), 1e-4 / radius)
        k = rng.random()
        if k < .7:      # about the boundary
            a, b = segs[int(rng.integers(len(segs)))]
            f = rng.uniform(0, 1)
            c = a * (1 - f) + b * f
            c /= np.linalg.norm(c)
            if rng.random() < .7:
                c = sp.destination(c, rng.uniform(0, 2 * np.pi), rng.uniform(0, .7) * d)
            else:
                m.event('boundary-through-centre')
        else:
            c = sp.place(rng, R, 1, k < .85)[0]
        craters.append((float(d * radius), c))
    proj = projected(rng, radius, R.G.c) if rng.random() < .4 else None
    with scratch():
        C = shp_pair(rng, ('s_CRATER.shp', 's_AREA.shp'), R, radius, craters, proj)
        m.note(radius=radius, craters=craters, rings=R.rings, projection=proj and proj[0])
        with quiet():
            s = m.call(cst.Spatialcount, 's_CRATER.shp')
            cc = m.call(cst.Cratercount, 's_CRATER.shp')
        got = [(d, f, sp.vec(x, y)) for d, f, x, y in zip(s.diam, s.fraction, s.lon, s.lat)]
        m.check(sorted(zip(s.diam, s.fraction)) == sorted(zip(cc.diam, cc.fraction)), 'count-differs')
        used = set()
        for (d, c), v in zip(craters, C):
            af = overlap(R, sp.Gnomonic(c), v)
            A = sp.ring_area(v, c)
            D = diam_of(A, radius)
            k = [i for i, g in enumerate(got) if i not in used and abs(g[0] / D - 1) < 1e-5 and sp.dist(g[2], c) < 1e-9 + 1e-2 * d / radius]
            if af < 1e-9:
                if af == 0:
                    m.event('fraction-outside')
                if k and af == 0:
                    # must belong to another, equal crater
                    m.check(len(k) < 1 or len(got) <= sum(overlap(R, sp.Gnomonic(c2), v2) > 0 for (_, c2), v2 in zip(craters, C)), 'outside-counted', lambda: f'{d} {c} {got[k[0]]}')
                continue
            m.check(len(k) >= 1, 'crater-lost', lambda: f'diameter {d} at {sp.lonlat(c)} area fraction {af}: {got}')
            g = got[k[0]]
            used.add(k[0])
            if af > 1 - 1e-9:
                m.check(g[1] > 1 - 2e-3, 'fraction-inside', lambda: f'{g[1]} for {af}')
                if abs(af - 1) < 1e-13:
                    m.event('fraction-inside')
            else:
                e, tol = lf_bounds(af)
                m.check(abs(g[1] - e) <= tol + 1e-6 + 5e-3 * min(1, 1e-5 / (af * (1 - af))), 'fraction', lambda: f'{g[1]} for area fraction {af}: expected {e} +- {tol}')
                m.event('fraction-partial')
        m.check(len(used) == len(got), 'outside-counted', lambda: f'{len(got)} craters, {len(used)} touch the area')
    m.sig(round(R.area(), 12), len(craters), radius, proj and proj[0])


# ---- recording of randomness analysis ---------------------------------------------------------------
import fcntl
import sys

ra_mod = sys.modules['craterstats.Randomnessanalysis']


def trial_args(sg, a, k):
    """(self_pp, d_min, number, index) of a call of run_trial"""
    v = sg.bind(*a, **k).arguments
    names = ('self_pp', 'b', 'n', 'trial_index')
    return [v[x] for x in names] if set(names) <= set(v) else list(v.values())[:4]


class Log:
    """every evaluated configuration, from whatever process: (trial or None, bin d_min, n, measure, value, lon, lat, extra)"""

    def __init__(self, name):
        self.name = os.path.abspath(name)
        for f in ('evaluate_randomness', 'run_trial'):
            if not hasattr(ra_mod, f):
                raise Inconclusive(f'no {f}() to observe')

    def __enter__(self):
        import spherely as sph
        self.ev, self.rt = ra_mod.evaluate_randomness, ra_mod.run_trial
        cur = [None]
        name, pid0 = self.name, os.getpid()

        se = inspect.signature(self.ev)

        def evaluate(*a, **k):
            r = self.ev(*a, **k)
            v = se.bind(*a, **k).arguments
            self_pp, pts = [v[x] for x in ('self_pp', 'pts')] if {'self_pp', 'pts'} <= set(v) else list(v.values())[:2]
            lon = [float(sph.get_x(p)) for p in pts]
            lat = [float(sph.get_y(p)) for p in pts]
            extra = None
            if cur[0] is None:
                extra = [sph.to_wkb(q) for q in r[1]]
            b = pickle.dumps((cur[0], self_pp.measure, float(r[0]), lon, lat, extra, os.getpid()))
            with open(name, 'ab') as f:
                fcntl.flock(f, fcntl.LOCK_EX)
                f.write(len(b).to_bytes(8, 'little') + b)
            return r

        sg = inspect.signature(self.rt)

        def trial(*a, **k):
            v = trial_args(sg, a, k)[1:]
            cur[0] = (float(v[0]), int(v[1]), int(v[2]))
            try:
                return self.rt(*a, **k)
            finally:
                cur[0] = None
        trial.__module__, trial.__qualname__, trial.__name__ = self.rt.__module__, self.rt.__qualname__, self.rt.__name__
        trial.__wrapped__ = self.rt      # keeps the signature
        ra_mod.evaluate_randomness, ra_mod.run_trial = evaluate, trial
        return self

    def __exit__(self, *a):
        ra_mod.evaluate_randomness, ra_mod.run_trial = self.ev, self.rt

    def read(self, reset=True):
        L = []
        if os.path.exists(self.name):
            with open(self.name, 'rb') as f:
                while True:
                    h = f.read(8)
                    if len(h) < 8:
                        break
                    L.append(pickle.loads(f.read(int.from_bytes(h, 'little'))))
            if reset:
                os.remove(self.name)
        return L


def from_wkb(b):
    try:
        return shp.from_wkb(b, on_invalid="fix")
    except Exception:
        import spherely as sph
        raise RuntimeError(f'{sph.from_wkb(b)}')


class cpus:
    """the machine has n processors"""

    def __init__(self, n):
        self.n = n

    def __enter__(self):
        self.old = os.cpu_count
        os.cpu_count = lambda: self.n

    def __exit__(self, *a):
        os.cpu_count = self.old


def ra_source(rng, m, name='u.scc', size=None, nmax=40, bins=2, shapefile=False, crowd=None, **k):
    """area and craters in a few root-2 bins; (region, radius, craters)"""
    R = sp.region(rng, size=10 ** rng.uniform(-1., 1.65) if size is None else size, **k)
    if shapefile:
        usable(R)
    radius = pick(rng, RADII)
    # crater size small against spacing, so that discs fit
    n = [int(rng.integers(3, nmax + 1)) for _ in range(int(rng.integers(1, bins + 1)))]
    k0 = np.floor(2 * np.log2(np.sqrt(R.area()) * radius / np.sqrt(max(n)) * (10 ** rng.uniform(-2, -.75) if crowd is None else crowd)))
    craters = []
    P = sp.place(rng, R, sum(n))
    i = 0
    for j, c in enumerate(n):
        lo = 2 ** ((k0 + 2 * j) / 2)
        for _ in range(c):
            u = rng.uniform(.02, .98) if rng.random() < .75 else float(pick(rng, [rng.uniform(.002, .02), rng.uniform(.98, .998)]))
            craters.append((float(lo * 2 ** (.5 * u)), P[i]))
            i += 1
    craters = [craters[i] for i in rng.permutation(len(craters))]
    if shapefile:
        shp_pair(rng, (name.replace('.shp', '_CRATER.shp'), name.replace('.shp', '_AREA.shp')), R, radius, craters, None)
    else:
        gen.write(name, sp.scc(rng, R, radius, craters, fractions=[1.] * len(craters) if rng.random() < .5 else None, wrap=rng.random() < .2))
    return R, radius, craters


def brute(R, radius, measure, P):
    if measure == 'm2cnd':
        D = np.sort(sp.dist(P[:, None, :], P[None, :, :]), 1)
        return float(np.mean(D[:, 2])) * radius
    return float(np.std(sp.voronoi_areas(R, P))) * radius ** 2


def by_bin(craters):
    """{k: craters with 2^(k/2) <= d < 2^((k+1)/2)}"""
    B = {}
    for d, v in craters:
        B.setdefault(int(np.floor(2 * np.log2(d) + 1e-12)), []).append((d, v))
    return B


def montecarlo(m, rng, name, trials, measures, log):
    with quiet():
        ra = m.call(cst.Randomnessanalysis, name)
        with log, cpus(2):
            for x in measures:
                m.call(ra.run_montecarlo, trials, x)
            m.call(ra.calculate_stats)
    return ra, log.read()


def within(m, R, P):
    """all points lie within the region"""
    hull = R.plane.buffer(1e-9 * max(R.plane.bounds[2] - R.plane.bounds[0], 1e-3))
    ok = P @ R.G.c > .1
    ok[ok] = shp.contains_xy(hull, *R.G.xy(P[ok]).T)
    m.check(np.all(ok), 'outside-area', lambda: f'{int(np.sum(~ok))} of {len(P)} points, as {[[float(v) for v in sp.lonlat(q)] for q in P[~ok][:5]]}')


# ======================================================================================== C29
@case('C29', quick=80, thorough=900, needs=('configurations', 'points', 'pairs', 'bins-compared'))
def configurations(m, rng):
    """every random configuration has the right number of separate discs within the area"""
    with scratch():
        R, radius, craters = ra_source(rng, m, where=None if rng.random() < .85 else 'box')
        trials = int(rng.integers(2, 16))
        measure = pick(rng, ['m2cnd', 'sdaa'])
        m.note(rings=R.rings, radius=radius, craters=craters, trials=trials, measure=measure)
        ra, L = montecarlo(m, rng, 'u.scc', trials, [measure], Log('log'))
        B = by_bin(craters)
        T = [x for x in L if x[0] is not None]
        want = sorted((k, i) for k, c in B.items() if len(c) >= {'m2cnd': 3, 'sdaa': 4}[measure] for i in range(trials))
        got = sorted((int(round(2 * np.log2(x[0][0]))), x[0][2]) for x in T)
        m.check(got == want, 'trials-run', lambda: f'{got[:20]} expected {want[:20]}')
        hull = R.plane.buffer(1e-9 * max(R.plane.bounds[2] - R.plane.bounds[0], 1e-3))
        for (b, n, i), _, value, lon, lat, _, _ in T:
            k = int(round(2 * np.log2(b)))
            m.check(len(lon) == len(B[k]), 'number', lambda: f'{len(lon)} craters in trial {i}, {len(B[k])} in bin {b}')
            P = sp.vec(lon, lat)
            w = P @ R.G.c
            m.check(np.all(w > .1) and all(hull.contains(shp.Point(q)) for q in R.G.xy(P)), 'outside-area', lambda: f'trial {i}: {[(x, y) for x, y, q in zip(lon, lat, P) if not hull.contains(shp.Point(R.G.xy(q)))]}')
            D = sp.dist(P[:, None], P[None]) * radius + np.eye(len(P)) * 1e9
            m.check(D.min() > b / 2 * (1 - 1e-9), 'overlap', lambda: f'trial {i}: {D.min()} apart for diameter {b}')
            m.event('configurations')
            m.event('points', len(P))
            m.event('pairs', len(P) * (len(P) - 1) // 2)
        # trials differ from each other
        m.check(len({tuple(x[3]) for x in T}) == len(T), 'repeated-configuration', lambda: f'{len(T)} trials, {len({tuple(x[3]) for x in T})} distinct')
        # nor do they share positions, also between bins
        for j in (3, 4):
            v = [y for x in T for y in x[j]]
            m.check(len(set(v)) == len(v), 'repeated-position', lambda: f'{len(v) - len(set(v))} of {len(v)} repeated')
        if len(B) > 1:
            m.event('bins-compared')
    m.sig(round(R.area(), 12), trials, measure, len(craters))


@case('C29', quick=10, thorough=80, needs=('crowded-configurations',))
def crowded(m, rng):
    """discs keep apart also where they are large against the cells of the sky grid (many trials)"""
    with scratch():
        R, radius, craters = ra_source(rng, m, nmax=7, bins=1, crowd=rng.uniform(.55, .9), parts=1)
        if len(craters) < 3:
            raise Skip
        trials = int(rng.integers(900, 2000))
        m.note(rings=R.rings, radius=radius, craters=craters, trials=trials)
        ra, L = montecarlo(m, rng, 'u.scc', trials, ['m2cnd'], Log('log'))
        T = [x for x in L if x[0] is not None]
        m.check(len(T) == trials, 'trials-run', lambda: f'{len(T)} of {trials}')
        within(m, R, sp.vec(*np.array([x[3:5] for x in T]).transpose(1, 0, 2).reshape(2, -1)))
        for (b, n, i), _, value, lon, lat, _, _ in T:
            m.check(len(lon) == len(craters), 'number', lambda: f'{len(lon)} craters in trial {i}, {len(craters)} in bin {b}')
            P = sp.vec(lon, lat)
            D = sp.dist(P[:, None], P[None]) * radius + np.eye(len(P)) * 1e9
            m.check(D.min() > b / 2 * (1 - 1e-9), 'overlap', lambda: f'trial {i}: {D.min()} apart for diameter {b}')
        m.event('crowded-configurations', len(T))
        m.check(len({tuple(x[3]) for x in T}) == len(T), 'repeated-configuration')
    m.sig(round(R.area(), 12), trials, len(craters))


@case('C29', quick=46, thorough=340, needs=('uniform-tests', 'points', 'edge-strips', 'about-pole', 'boxes'))
def uniform(m, rng):
    """the positions are uniform over the area on the sphere"""
    with scratch():
        kind = pick(rng, ['any', 'few', 'pole', 'box'])
        w = {'any': {}, 'few': dict(nv=int(rng.integers(3, 6)), parts=1), 'pole': dict(where='pole', nv=int(rng.integers(3, 9)), parts=1), 'box': dict(where='box')}[kind]
        R, radius, craters = ra_source(rng, m, size=rng.uniform(12, 55), nmax=60, bins=1, **w)
        if span(R)[0]:
            m.event('about-pole')
        if kind == 'box':
            m.event('boxes')
        # tiny craters: exclusion is negligible
        n = int(rng.integers(20, 60))
        d = 2 ** (np.floor(2 * np.log2(1e-4 * radius * np.sqrt(R.area()))) / 2) * 1.1
        craters = [(d, v) for v in sp.place(rng, R, n)]
        gen.write('u.scc', sp.scc(rng, R, radius, craters))
        trials = 100
        m.note(rings=R.rings, radius=radius, n=n)
        ra, L = montecarlo(m, rng, 'u.scc', trials, ['m2cnd'], Log('log'))
        P = np.concatenate([sp.vec(x[3], x[4]) for x in L if x[0] is not None])
        m.check(len(P) == trials * n, 'number')
        within(m, R, P)
        m.event('points', len(P))
        A = R.area()
        X = R.G.xy(P)
        x0, y0, x1, y1 = R.plane.bounds
        S = 4 * max(x1 - x0, y1 - y0)
        tests = []
        for j in range(12):     # part of the area on one side of a great circle, or within a strip
            q = X[int(rng.integers(len(X)))]
            th = rng.uniform(0, 2 * np.pi)
            tests.append((q, np.array([np.cos(th), np.sin(th)]), S if j % 2 else rng.uniform(.1, .4) * (x1 - x0), 1))
        for r in R.rings:       # along the edges
            V = R.G.xy(r[0])
            E = sorted(zip(V, np.roll(V, -1, axis=0)), key=lambda e: -np.linalg.norm(e[1] - e[0]))
            for a, b in E[:8]:
                t = (b - a) / np.linalg.norm(b - a)
                u = np.array([-t[1], t[0]])
                if np.mean((V - a) @ u) < 0:
                    u = -u
                for h in (.03, .08, .2):
                    tests.append((a, u, h * (x1 - x0), 0))
                    m.event('edge-strips')
        for q, u, h, own in tests:
            v = np.array([-u[1], u[0]])
            box = Polygon([q - S * v, q + S * v, q + S * v + h * u, q - S * v + h * u])
            p = R.G.area(R.plane.intersection(box)) / A
            if not 1e-3 < p < 1 - 1e-3:
                continue
            t = (X - q) @ u
            # exclude the chosen point itself
            k = int(np.sum((t > 0) & (t < h)))
            n = len(X) - own
            z = (k - p * n) / np.sqrt(p * (1 - p) * n)
            m.check(abs(z) < 6.5, 'not-uniform', lambda: f'{k} of {n} points in {p} of the area ({z:.1f} sigma)')
            m.event('uniform-tests')
    m.sig(round(R.area(), 12), kind, len(craters))


# ======================================================================================== C30
@case('C30', quick=180, thorough=1500, needs=('measure-m2cnd', 'measure-sdaa', 'actual', 'neighbours', 'cells'))
def measures(m, rng):
    """the measures of actual and random configurations are those of brute force"""
    with scratch():
        R, radius, craters = ra_source(rng, m, nmax=30)
        trials = int(10 ** rng.uniform(.4, 1.3))
        measure = pick(rng, ['m2cnd', 'sdaa'])
        m.note(rings=R.rings, radius=radius, craters=craters, trials=trials, measure=measure)
        ra, L = montecarlo(m, rng, 'u.scc', trials, [measure], Log('log'))
        B = by_bin(craters)
        for t, what, value, lon, lat, extra, _ in L:
            P = sp.vec(lon, lat)
            e = brute(R, radius, measure, P)
            m.close(value, e, 'measure-' + measure, rtol=1e-6 if measure == 'm2cnd' else 3e-6, atol=1e-9 * R.area() * radius ** 2, msg=f'{t}')
            m.event('measure-' + measure)
            if t is None:
                k = [k for k, c in B.items() if len(c) == len(P) and np.allclose(sorted(map(tuple, P)), sorted(tuple(v) for _, v in c), atol=1e-9)]
                m.check(len(k) == 1, 'actual-craters', lambda: f'{len(P)} craters match no bin')
                m.event('actual')
                if measure == 'm2cnd':
                    D = sp.dist(P[:, None], P[None])
                    Q = sp.vec(*np.array([(q.x, q.y) for q in map(from_wkb, extra)]).T)
                    for i in range(len(P)):
                        m.close(sp.dist(P[i], Q[i]), np.sort(D[i])[2], 'neighbour', rtol=1e-9, atol=1e-12)
                        m.event('neighbours')
                else:
                    A = sp.voronoi_areas(R, P)
                    for i in range(len(P)):
                        g = from_wkb(extra[i])
                        polys = [p for p in getattr(g, 'geoms', [g]) if p.geom_type == 'Polygon' and not p.is_empty]
                        a = 0.
                        for p in polys:
                            rings = [sp.vec(*np.array(r.coords)[:-1, :2].T) for r in [p.exterior, *p.interiors]]
                            a += sp.ring_area(rings[0], R.G.c) - sum(sp.ring_area(r, R.G.c) for r in rings[1:])
                        m.close(a, A[i], 'cell', rtol=1e-6, atol=1e-9 * R.area())
                        m.event('cells')
    m.sig(round(R.area(), 12), trials, measure, len(craters))


# ---- own reader of .scc and _ra.txt ------------------------------------------------------------------
def parse_scc(text):
    """(header values, boundary rows, crater rows)"""
    H, T, cur = {}, {}, None
    for ln in text.split('\n'):
        ln = ln.strip()
        if not ln or ln.startswith('#'):
            continue
        if cur is not None:
            if ln == '}':
                cur = None
            else:
                T[cur][1].append(ln.split())
            continue
        k, v = ln.split('=', 1)
        if v.strip().startswith('{'):
            cur = k.strip()
            T[cur] = ([x.strip() for x in v.strip()[1:].split(',')], [])
        else:
            H[k.strip()] = v.strip()
    return H, {k: [dict(zip(c, r)) for r in rows] for k, (c, rows) in T.items()}


def rings_of(rows):
    """[(tag, [(lon, lat)])] in order of sub areas"""
    out = {}
    for r in rows:
        out.setdefault(r['sub_area'], (r['tag'], []))[1].append((float(r['lon']), float(r['lat'])))
    return list(out.values())


def same_ring(a, b, tol):
    """closed rings of lon/lat equal up to starting point and direction"""
    a, b = sp.vec(*np.array(a).T), sp.vec(*np.array(b).T)

    def opened(v):
        return v[:-1] if sp.dist(v[0], v[-1]) < tol else v
    a, b = opened(a), opened(b)
    if len(a) != len(b):
        return False
    k = int(np.argmin(sp.dist(b, a[0])))
    f = np.roll(b, -k, axis=0)
    g = np.roll(b[::-1], -(len(b) - 1 - k), axis=0)
    return bool(np.all(sp.dist(a, f) < tol) or np.all(sp.dist(a, g) < tol))


def match_rings(m, got, R, what, tol=1e-9):
    """got: list of parts, each list of rings in lon/lat"""
    want = [[np.array(sp.lonlat(r)).T for r in part] for part in R.rings]
    m.check(sorted(len(p) for p in got) == sorted(len(p) for p in want), what, lambda: f'parts {[len(p) for p in got]} expected {[len(p) for p in want]}')
    left = list(range(len(got)))
    for part in want:
        k = [i for i in left if same_ring(part[0], got[i][0], tol)]
        m.check(len(k) >= 1, what, lambda: f'no part with shell {part[0][:3]}')
        hit = next((i for i in k if len(got[i]) == len(part) and all(any(same_ring(h, g, tol) for g in got[i][1:]) for h in part[1:])), None)
        m.check(hit is not None, what, lambda: f'holes of part {part[0][:3]}')
        left.remove(hit)
        m.event('rings', len(part))


# ======================================================================================== C27
def out_option(rng, default, ext, dirs=True):
    """(arguments, base name without extension)"""
    k = pick(rng, ['default', 'default', 'name', 'ext', 'dir', 'path'])
    if k == 'name':
        return pick(rng, [(['-o', 'res 1'], 'res 1'), (['-o', 'out'], 'out')])
    if k == 'ext':
        return ['-o', 'res.' + ext], 'res'
    if k == 'dir':
        os.mkdir('od')
        return ['-o', 'od'], 'od/' + default
    if k == 'path':
        os.mkdir('od')
        return ['-o', 'od/r'], 'od/r'
    return [], default


@case('C27', quick=210, thorough=2000, needs=('scc-to-shp', 'back-to-scc', 'rings', 'holes'))
def scc_to_shp(m, rng):
    R = sp.region(rng, size=10 ** rng.uniform(-1.5, 1.3))
    usable(R)
    radius = pick(rng, RADII)
    craters = crater_set(rng, R, radius, int(rng.integers(1, 15)))
    craters = [(d, v) for d, v in craters if d / radius < .3]
    if not craters:
        raise Skip
    stem = pick(rng, ['u', 'unit 3', 'a.b-c'])
    with scratch():
        src = stem + '.scc'
        gen.write(src, sp.scc(rng, R, radius, craters, fractions=rng.uniform(.1, 1, len(craters)) if rng.random() < .4 else None, wrap=rng.random() < .2))
        before = listing()
        oa, base = out_option(rng, stem, 'shp')
        args = ['--convert', pick(rng, ['shp', '.shp']), src] + oa
        m.note(args=args, text=before[src].decode())
        m.call(run, args, catch=())
        after = listing()
        want = {f'{base}_{k}.{e}' for k in ('CRATER', 'AREA') for e in ('shp', 'shx', 'dbf', 'prj', 'qml')}
        m.check(set(after) - set(before) == want, 'conversion-files', lambda: f'{args}: {sorted(set(after) - set(before))} expected {sorted(want)}')
        m.check(after[src] == before[src], 'input-changed')
        for k in ('CRATER', 'AREA'):
            crs = pyproj.CRS.from_wkt(after[f'{base}_{k}.prj'].decode())
            m.check(crs.is_geographic, 'projection')
            m.close([crs.ellipsoid.semi_major_metre, crs.ellipsoid.semi_minor_metre], [round(radius * 1e3)] * 2, 'radius')
        A = sp.read_shp(f'{base}_AREA.shp')
        parts = []
        for rec in A:       # records of one part each, or several
            for ring in rec:
                if clockwise_shell(ring):
                    parts.append([ring])
                else:
                    parts[-1].append(ring)
        match_rings(m, parts, R, 'area-outline')
        C = sp.read_shp(f'{base}_CRATER.shp')
        m.check(len(C) == len(craters), 'crater-count', lambda: f'{len(C)} outlines of {len(craters)} craters')
        T = sp.read_dbf(f'{base}_CRATER.shp')
        for (d, c), rec, t in zip(sorted(craters, key=lambda x: x[0]), C, T):
            m.close(float(t['Diam_km']), d, 'attributes', rtol=1e-9, atol=6e-7, msg='diameter')
            m.check(sp.dist(sp.vec(float(t['x_coord']), float(t['y_coord'])), c) < 1e-9, 'attributes', lambda: f'{t} of crater at {sp.lonlat(c)}')
            v = sp.vec(*rec[0][:, :2].T)
            r = sp.dist(v, c)
            tol = 2e-3 + .5 * (d / radius) ** 2 + 3e-9 / (d / radius)
            m.check(len(rec) == 1 and len(v) >= 20 and np.all(abs(r * radius / (d / 2) - 1) < tol), 'crater-outline', lambda: f'diameter {d}: radii {r * radius} of {sp.lonlat(c)}')
            m.event('outlines')
        m.event('scc-to-shp')
        if any(len(p) > 1 for p in R.rings):
            m.event('holes')
        # and back
        a2 = ['--convert', 'scc', base + '_CRATER.shp', '-o', 'back']
        m.call(run, a2, catch=())
        check_scc(m, 'back.scc', R, round(radius * 1e3) / 1e3, craters, 2e-3, base)
        m.event('back-to-scc')
    m.sig(round(R.area(), 12), len(craters), radius, oa)


def clockwise_shell(ring):
    x = np.unwrap(np.asarray(ring)[:-1, 0], period=360)
    return sp.clockwise(np.c_[x, np.asarray(ring)[:-1, 1]])


def check_scc(m, fn, R, radius, craters, dtol, base):
    with open(fn) as f:
        text = f.read()
    H, T = parse_scc(text)
    m.close(float(H['a_axis_radius'].split()[0]), radius, 'radius', rtol=6e-6)
    m.close(float(H['Total_area'].split()[0]), R.area() * radius ** 2, 'stated-area', rtol=6e-6)
    m.close(float(H['Total_perimeter'].split()[0]), R.length() * radius, 'stated-perimeter', rtol=6e-6)
    parts = []
    for tag, ring in rings_of(T['unit_boundary']):
        if tag == 'ext':
            parts.append([ring])
        else:
            parts[-1].append(ring)
    match_rings(m, parts, R, 'area-outline')
    rows = T['crater']
    exp = []
    for d, c in craters:
        G = sp.Gnomonic(c)
        v = sp.circle(c, d / radius, 100)
        af = overlap(R, G, v)
        if 0 < af < 1e-4:
            raise Skip
        if af > 0:
            exp.append((d, c, af))
    m.check(len(rows) == len(exp), 'crater-count', lambda: f'{len(rows)} expected {len(exp)}')
    got = [(float(r['diam']), sp.vec(float(r['lon']), float(r['lat'])), float(r['fraction'])) for r in rows]
    for d, c, af in exp:
        k = [i for i, g in enumerate(got) if abs(g[0] / d - 1) < dtol + .1 * (d / radius) ** 2 and sp.dist(g[1], c) * radius < (2e-3 + (d / radius)) * d + 1e-9 * radius]
        m.check(len(k) >= 1, 'crater-lost', lambda: f'diameter {d} at {sp.lonlat(c)}')
        g = got.pop(k[0])
        e, tol = lf_bounds(min(max(af, 0), 1))
        m.check(abs(g[2] - e) <= tol + 5e-3, 'fraction', lambda: f'{g[2]} for area fraction {af}: expected {e}')
        m.event('craters')


@case('C27', quick=180, thorough=1500, needs=('shp-to-scc', 'shp-to-stat', 'rings'))
def shp_to_scc(m, rng):
    R = sp.region(rng, size=10 ** rng.uniform(-1.5, 1.1))
    usable(R)
    radius = pick(rng, RADII)
    craters = crater_set(rng, R, radius, int(rng.integers(1, 12)))
    proj = projected(rng, radius, R.G.c) if rng.random() < .4 else None
    pair, stem = pick(rng, [(('s_CRATER.shp', 's_AREA.shp'), 's'), (('CRATER_s.shp', 'AREA_s.shp'), 's'), (('my unit_CRATER.shp', 'my unit_AREA.shp'), 'my unit')])
    with scratch():
        C = shp_pair(rng, pair, R, radius, craters, proj)
        eff = [(diam_of(sp.ring_area(v, c), radius), c) for (d, c), v in zip(craters, C)]
        before = listing()
        m.note(radius=radius, craters=craters, rings=R.rings, projection=proj and proj[0])
        fmt = pick(rng, ['scc', 'scc', 'stat'])
        oa, base = out_option(rng, stem, fmt)
        args = ['--convert', fmt, pair[0]] + oa
        rec = m.call(run, args, catch=())
        after = listing()
        m.check(set(after) - set(before) == {f'{base}.{fmt}'}, 'conversion-files', lambda: f'{args}: {sorted(set(after) - set(before))} expected {base}.{fmt}')
        m.check(all(after[k] == before[k] for k in before), 'input-changed')
        if fmt == 'scc':
            check_scc(m, base + '.scc', R, radius, eff, 1e-6, base)
            with quiet():
                a, b = m.call(cst.Cratercount, base + '.scc'), m.call(cst.Cratercount, pair[0])
            m.close([a.area, a.perimeter], [b.area, b.perimeter], 'count-differs', rtol=6e-6)
            m.close(sorted(a.diam), sorted(b.diam), 'count-differs', rtol=1e-6)
            m.close(sorted(a.fraction), sorted(b.fraction), 'count-differs', rtol=6e-3)
        else:
            with quiet():
                a, b = m.call(cst.Cratercount, base + '.stat'), m.call(cst.Cratercount, pair[0])
                p, q = m.call(a.getplotdata, 'cumulative', 'pseudo-log'), m.call(b.getplotdata, 'cumulative', 'pseudo-log')
            m.close(np.asarray(p['y']), np.asarray(q['y']), 'count-differs', rtol=2e-3)
            m.close(np.asarray(p['d']), np.asarray(q['d']), 'count-differs', rtol=2e-3)
        m.event('shp-to-' + fmt)
    m.sig(round(R.area(), 12), len(craters), radius, fmt, oa, proj and proj[0])


# ======================================================================================== C36
def centroid(R):
    c = np.zeros(3)
    for part in R.rings:
        for j, r in enumerate(part):
            v = sp.ring_moment(r)
            if v @ R.G.c < 0:
                v = -v
            c += v if j == 0 else -v
    return c / np.linalg.norm(c)


class Ortho:
    """orthographic projection (km)"""

    def __init__(self, c, radius):
        self.c, self.R = c, radius
        self.e, self.n = sp.frame(c)

    def xy(self, v):
        return np.stack([v @ self.e, v @ self.n], -1) * self.R

    def vec(self, x, y):
        x, y = np.asarray(x, float) / self.R, np.asarray(y, float) / self.R
        return x[..., None] * self.e + y[..., None] * self.n + np.sqrt(np.maximum(1 - x * x - y * y, 0))[..., None] * self.c


def subpaths(path):
    v = np.asarray(path.vertices)
    if path.codes is None:
        return [v]
    k = [i for i, c in enumerate(path.codes) if c == 1] + [len(v)]
    out = []
    for a, b in zip(k, k[1:]):
        w = v[a:b]
        c = path.codes[a:b]
        out.append(w[(c == 1) | (c == 2)])
    return [w for w in out if len(w) > 2]


def check_map(m, ax, R, radius, craters, O, grid=True):
    """area outline, crater rims and limits of a map; returns remaining lines"""
    m.check(ax.get_aspect() in (1, 1., 'equal'), 'aspect')
    rings = [(f, w) for c in ax.collections if (f := c.get_facecolor()) is not None for p in c.get_paths() for w in subpaths(p)]
    want = [O.xy(r) for part in R.rings for r in part]
    left = list(range(len(rings)))
    tol = 1e-6 * np.ptp(np.concatenate(want), axis=0).max() + 1e-9 * radius
    for w in want:
        def same(g):
            g = g[np.linalg.norm(g - np.roll(g, 1, axis=0), axis=1) > tol]
            if len(g) != len(w):
                return False
            k = int(np.argmin(np.linalg.norm(g - w[0], axis=1)))
            f = np.roll(g, -k, axis=0)
            b = np.roll(f[::-1], 1, axis=0)
            return bool(np.all(np.linalg.norm(f - w, axis=1) < tol) or np.all(np.linalg.norm(b - w, axis=1) < tol))
        hit = next((i for i in left if same(rings[i][1])), None)
        m.check(hit is not None, 'map-outline', lambda: f'outline {w[:3]} not among {[rings[i][1][:3] for i in left][:6]}')
        left.remove(hit)
        m.event('map-outlines')
    lines = [(np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float), ln) for ln in ax.lines]
    rims, rest = [], []
    for x, y, ln in lines:
        rim = len(x) > 8 and np.all(np.isfinite(x) & np.isfinite(y)) and np.hypot(x[0] - x[-1], y[0] - y[-1]) <= 1e-3 * (np.ptp(x) + np.ptp(y))
        if rim:      # complete parallels are grid lines
            rim = np.ptp(sp.lonlat(O.vec(x, y))[1]) > 1e-9
        (rims if rim else rest).append((x, y, ln))
    m.check(len(rims) == len(craters), 'map-craters', lambda: f'{len(rims)} rims for {len(craters)} craters')
    V = [O.vec(x, y) for x, y, _ in rims]
    free = set(range(len(V)))
    for d, c in craters:
        t = 2e-3 + .5 * (d / radius) ** 2 + 3e-9 / (d / radius)

        dev = {i: np.max(abs(sp.dist(V[i], c) * radius / (d / 2) - 1)) for i in free}
        hit = min(dev, key=dev.get) if dev and min(dev.values()) < t else None
        m.check(hit is not None, 'map-crater', lambda: f'no rim of diameter {d} about {sp.lonlat(c)}')
        free.discard(hit)
        m.event('map-rims')
    allx = np.concatenate([w[:, 0] for w in want] + [x for x, _, _ in rims])
    ally = np.concatenate([w[:, 1] for w in want] + [y for _, y, _ in rims])
    x0, x1 = ax.get_xlim()
    y0, y1 = ax.get_ylim()
    m.check(x0 <= allx.min() and x1 >= allx.max() and y0 <= ally.min() and y1 >= ally.max(), 'map-limits', lambda: f'{(x0, x1, y0, y1)} do not contain {allx.min(), allx.max(), ally.min(), ally.max()}')
    m.check(x1 - x0 < 2 * np.ptp(allx) and y1 - y0 < 2 * np.ptp(ally), 'map-limits', lambda: f'{(x0, x1, y0, y1)} for {allx.min(), allx.max(), ally.min(), ally.max()}')
    return rest


def check_grid(m, ax, rest, O):
    lab = {'lon': [], 'lat': []}
    for t in ax.texts:
        s = t.get_text()
        m.check(s.endswith('°'), 'grid-label', lambda: repr(s))
        lab['lat' if t.get_ha() == 'right' else 'lon'].append((float(s[:-1]), *t.get_position()))
    got = {'lon': [], 'lat': []}
    for x, y, ln in rest:
        ok = np.isfinite(x) & np.isfinite(y)
        v = O.vec(x[ok], y[ok])
        lon, lat = sp.lonlat(v)
        if len(v) < 2:
            got['lost'] = got.get('lost', 0) + 1
        elif np.ptp(lat) < 1e-6:
            got['lat'].append((float(lat[0]), v))
        else:
            g = np.radians(lon[np.argmin(abs(lat))])     # plane through the poles
            m.check(np.all(abs(v @ np.array([-np.sin(g), np.cos(g), 0])) < 1e-7), 'grid-line', lambda: f'neither parallel nor meridian: {lon[:5]} {lat[:5]}')
            got['lon'].append((float(np.degrees(g)), v))
    for k in ('lon', 'lat'):
        m.check(len(got[k]) == len(lab[k]), 'grid-labels', lambda: f'{k}: {len(got[k])} lines, {len(lab[k])} labels, {got.get("lost")} lines outside the projection')
        for q, *_ in lab[k]:
            m.check(any(abs((q - g + 180) % 360 - 180) < 2e-5 for g, _ in got[k]), 'grid-labels', lambda: f'label {q} of {k}: lines {[g for g, _ in got[k]]}')
            m.event('grid-labels')
        x0, x1 = ax.get_xlim()
        y0, y1 = ax.get_ylim()
        inside = [g for g, v in got[k] if np.any((q := O.xy(v))[:, 0].clip(x0, x1) == q[:, 0]) and np.any((q[:, 0] >= x0) & (q[:, 0] <= x1) & (q[:, 1] >= y0) & (q[:, 1] <= y1))]
        m.check(len(inside) >= 1, 'grid-absent', lambda: f'no {k} line within the map: {[g for g, _ in got[k]]}')


@case('C36', quick=480, thorough=3500, needs=('map-rims', 'map-outlines', 'grid-labels', 'map-scc', 'map-shp'))
def maps(m, rng):
    R = sp.region(rng, size=10 ** rng.uniform(-1.5, 1.5))
    radius = pick(rng, RADII)
    use_shp = rng.random() < .3
    craters = crater_set(rng, R, radius, int(rng.integers(1, 25)))
    craters = [(d, c) for d, c in craters if d / radius < .3]
    c = centroid(R)
    if use_shp:
        usable(R)
    if not craters or min(r.min() for r in [v @ c for p in R.rings for v in p]) < .3 or min(c @ v for _, v in craters) < .3:
        raise Skip
    with scratch():
        if use_shp:
            src, area = pick(rng, [('u_CRATER.shp', 'u_AREA.shp'), ('CRATER_u.shp', 'AREA_u.shp')])
            C = shp_pair(rng, (src, area), R, radius, craters, None)
            craters = [(diam_of(sp.ring_area(v, q), radius), q) for (d, q), v in zip(craters, C)]
            craters = [(d, q) for d, q in craters if overlap(R, sp.Gnomonic(q), sp.circle(q, d / radius, 100)) > 0]
        else:
            gen.write('u.scc', sp.scc(rng, R, radius, craters, wrap=rng.random() < .2))
            src = 'u.scc'
        before = listing()
        fmt = pick(rng, ['svg', 'png', 'pdf'])
        m.note(radius=radius, craters=craters, rings=R.rings, src=src)
        oa, base = out_option(rng, 'u', fmt)
        args = ['--convert', fmt, src] + oa
        if rng.random() < .3:
            args += ['-pd', pick(rng, ['8', '10x14', '20x12'])]
        rec = m.call(run, args, catch=())
        after = set(listing()) - set(before)
        m.check(after == {f'{base}_map.{fmt}', f'{base}_map.cs'}, 'map-files', lambda: f'{args}: {after} expected {base}_map.{fmt}')
        m.check(len(rec.save) == 1, 'map-files')
        fig = rec.save[0][2]
        m.check(len(fig.axes) == 1, 'map-axes')
        O = Ortho(c, radius)
        rest = check_map(m, fig.axes[0], R, radius, craters, O)
        if max(abs(sp.lonlat(v)[1]).max() for p in R.rings for v in p) < 70:
            check_grid(m, fig.axes[0], rest, O)
        m.event('map-shp' if use_shp else 'map-scc')
    m.sig(round(R.area(), 12), len(craters), radius, oa)


def craters_of_shp(name, radius):
    """(diameter of the circle of the same area, centre) of every outline"""
    out = []
    for rec in sp.read_shp(name):
        v = sp.vec(*np.asarray(rec[0])[:-1, :2].T)
        c = v.mean(0)
        c /= np.linalg.norm(c)
        q = sp.ring_moment(v)
        q = q if q @ c > 0 else -q
        out.append((diam_of(sp.ring_area(v, c), radius), q / np.linalg.norm(q)))
    return out

"""Seeded input generators shared by the monitors (independent of the code under test)."""
import numpy as np

PSEUDO = [1., 1.1, 1.2, 1.3, 1.4, 1.5, 1.7, 2., 2.5, 3., 3.5, 4., 4.5, 5., 6., 7., 8., 9.]
BINNINGS = ['pseudo-log', '20/decade', '10/decade', 'x2', 'root-2', '4th root-2', 'none']
PRESENT = ['cumulative', 'differential', 'R-plot', 'Hartmann', 'incremental']


def series(binning, lo, hi, offset=0.):
    """documented boundaries of a binning covering [lo,hi] with at least two spare bins at either side"""
    if binning == 'pseudo-log':
        e0, e1 = int(np.floor(np.log10(lo))) - 1, int(np.floor(np.log10(hi))) + 2
        return np.array([float(f'{a}e{e}') for e in range(e0, e1 + 1) for a in PSEUDO])
    ratio = {'x2': 2., 'root-2': 2. ** .5, '4th root-2': 2. ** .25, '10/decade': 10. ** .1, '20/decade': 10. ** .05}[binning]
    k0, k1 = int(np.floor(np.log(lo) / np.log(ratio))) - 3, int(np.ceil(np.log(hi) / np.log(ratio))) + 3
    return ratio ** (np.arange(k0, k1 + 1) - offset)


def off_edges(d, rel=1e-7):
    """move values lying too close to any boundary of any binning"""
    d = np.array(d, dtype=float)
    for _ in range(5):
        bad = np.zeros(len(d), bool)
        for b in BINNINGS[:-1]:
            e = series(b, d.min(), d.max())
            i = np.clip(np.searchsorted(e, d), 1, len(e) - 1)
            bad |= np.minimum(abs(e[i] / d - 1), abs(d / e[i - 1] - 1)) < rel
        if not bad.any():
            break
        d[bad] *= 1 + 3.7 * rel
    return d


def diameters(rng, n=None, edges=False, lo=None, hi=None):
    """crater diameters in km: power law, log-uniform, clustered, gappy or duplicated"""
    n = int(rng.integers(2, 80)) if n is None else n
    dmin = 10 ** rng.uniform(-2.5, 1.) if lo is None else lo
    kind = rng.integers(0, 5)
    if kind == 0:
        d = dmin * rng.uniform(1e-4, 1, n) ** (-1 / rng.uniform(1.5, 3.8))
    elif kind == 1:
        d = dmin * 10 ** rng.uniform(0, rng.uniform(.2, 2.5), n)
    elif kind == 2:  # two separated populations: empty bins between
        d = np.where(rng.random(n) < .6, dmin * 10 ** rng.uniform(0, .3, n), dmin * 10 ** rng.uniform(1.2, 1.7, n))
    elif kind == 3:  # cluster within one or two bins
        d = dmin * 10 ** rng.uniform(0, .06, n)
    else:
        d = rng.choice(dmin * 10 ** rng.uniform(0, 1.2, max(2, n // 3)), n)  # duplicates
    d = np.clip(d, 1e-3, 900. if hi is None else hi)
    if len(np.unique(d)) < 2:
        d = dmin * 10 ** rng.uniform(0, 1., n)
    if edges:
        k = rng.random(n) < .4
        dec = 10. ** rng.integers(-2, 2, n)
        e = rng.choice(PSEUDO, n) * dec
        e2 = 2. ** (rng.integers(-16, 20, n) / 4)
        e3 = 10. ** (rng.integers(-40, 40, n) / 20)
        pick = rng.integers(0, 3, n)
        d = np.where(k, np.choose(pick, [e, e2, e3]), d)
        d = np.array([float(f'{x:.6g}') if rng.random() < .5 else x for x in d])
        return np.clip(d, 1e-3, 900.)
    return off_edges(d)


def fractions(rng, n, mode=None):
    mode = rng.integers(0, 4) if mode is None else mode
    if mode == 0:
        return np.ones(n)
    if mode == 3:  # one or two craters across the boundary, perhaps only just
        f = np.ones(n)
        f[rng.integers(0, n, int(rng.integers(1, 3)))] = 1 - 10 ** rng.uniform(-4, -.05)
        return f
    f = np.where(rng.random(n) < .5, 1., rng.uniform(.01, 1, n))
    return f


def num(rng, v, exact=True):
    """one of many textual notations of a positive number; reads back as exactly the same double if exact"""
    r = repr(float(v))
    forms = [r, f'{v:.17g}', f'{v:.16e}', f'{v:.17E}', '+' + r, r + ' ' if False else r]
    if 1e-4 < v < 1e6:
        forms.append(f'{v:.25f}'.rstrip('0') if v < 1 else f'{v:.20f}')
        if v < 1 and r.startswith('0.'):
            forms.append(r[1:])
    forms = [f for f in forms if float(f) == float(v)]
    return str(rng.choice(forms))


def area(rng):
    return float(10 ** rng.uniform(-1, 6))


def diam_text(rng, d, f=None, a=100., per=None, extra=True, plain=False, ref=None):
    """text of a .diam file with arbitrary comments, spacing, column order and row order as given"""
    cols = ['diameter'] + (['fraction'] if f is not None else []) + (['reference_area'] if ref is not None else [])
    data = dict(diameter=d, fraction=f, reference_area=ref)
    if not plain and extra and rng.random() < .4:
        cols += ['lon', 'lat']
        data['lon'], data['lat'] = rng.uniform(-180, 180, len(d)), rng.uniform(-90, 90, len(d))
    if not plain and rng.random() < .5:
        cols = [cols[i] for i in rng.permutation(len(cols))]
    N = (lambda v: repr(float(v))) if plain else (lambda v: num(rng, v) if v > 0 else repr(float(v)))
    cm = (lambda: '') if plain else (lambda: str(rng.choice(['', '# comment = 3', '; note', '#', '#crater = {diameter'])) + '\n')
    sep = ' ' if plain else str(rng.choice([' ', '\t', '   ', ' \t ']))
    head = [('area', a)] if a is not None else []
    if per is not None:
        head.append(('perimeter', per))
    if not plain and rng.random() < .5:
        head = head[::-1]
    t = cm()
    for k, v in head:
        t += f'{k}{str(rng.choice(["=", " = ", " ="]))}{N(v)}\n' + cm()
    t += 'crater' + ('=' if rng.random() < .5 else ' = ') + '{' + (', ' if rng.random() < .5 else ',').join(cols) + '\n'
    for i in range(len(d)):
        if not plain and rng.random() < .1:
            t += str(rng.choice(['# inserted\n', '; inserted\n', '\n', '   \n']))
        row = sep.join(N(data[c][i]) for c in cols)
        if not plain and rng.random() < .1:
            row = '  ' + row + ' ; trailing'
        t += row + '\n'
    t += '}' + ('\n' if rng.random() < .5 else '')
    if not plain and rng.random() < .2:
        t = t.replace('\n', '\r\n')
    if not plain and rng.random() < .15:
        t = '\ufeff' + t
    return t


def scc_text(rng, d, f=None, a=100., per=None, lon=None, lat=None, boundary=None, radii=(1737.4,) * 3, units=True, exact=True,
             per_tag=None):
    """text of an .scc file; boundary = list of (sub_area, tag, lon, lat) rows"""
    n = len(d)
    lon = rng.uniform(-20, 20, n) if lon is None else lon
    lat = rng.uniform(-20, 20, n) if lat is None else lat
    t = '# Spatial crater count\n#\n# Ellipsoid axes:\n'
    for ax, r in zip('abc', radii):
        t += f'{ax}_axis_radius = {r!r} <km>\n'
    t += 'coordinate_system_name = unknown\n#\n# area_shapes:\nunit_boundary = {vertex,sub_area,tag,lon,lat\n#\n'
    if boundary is None:
        boundary = [(1, 'ext', x, y) for x, y in ((-21, -21), (21, -21), (21, 21), (-21, 21), (-21, -21))]
    for i, (s, tag, x, y) in enumerate(boundary):
        t += f'{i + 1}\t{s}\t{tag}\t{x!r}\t{y!r}\n'
    t += '}\n#\n'
    u = ' <km^2>' if units else ''
    N = lambda v: num(rng, v).lstrip('+')
    t += f'Total_area = {N(a)}{u}\n'
    if per is not None:
        tag = str(rng.choice(['Perimeter', 'Total_perimeter'])) if per_tag is None else per_tag
        t += f'{tag} = {N(per)}' + (' <km>' if units else '') + '\n'
    cols = ['diam'] + (['fraction'] if f is not None else []) + ['lon', 'lat']
    t += '#\n# crater_diameters:\ncrater = {' + ','.join(cols) + '\n'
    sep = str(rng.choice(['\t', ' ', '  ']))
    for i in range(n):
        row = [num(rng, d[i])] + ([num(rng, f[i])] if f is not None else []) + [repr(float(lon[i])), repr(float(lat[i]))]
        t += sep.join(row) + '\n'
    return t + '}\n'


def write(name, text):
    with open(name, 'w', encoding='utf-8', newline='') as fh:
        fh.write(text)


def count_object(cst, d, f=None, a=100., per=None):
    """a crater count made through the public reader from exact text"""
    write('g_.diam', diam_text(None_rng, d, f, a, per, plain=True))
    return cst.Cratercount('g_.diam')


class _R:  # deterministic stand-in generator for plain files
    def random(self):
        return 0.


None_rng = _R()


# ---- reference binning -------------------------------------------------------------------------
class Ref:
    """independent binning and presentation model of a crater list"""

    def __init__(self, d, f, a, binning, offset=0.):
        d, f = np.asarray(d, float), np.asarray(f, float)
        self.a, self.binning, self.d = a, binning, d
        if binning == 'none':
            q = np.lexsort((f, d))
            self.lo = self.hi = self.mean = d[q]
            self.n, self.ne = f[q], np.ones(len(d))
            self.w = np.zeros(len(d))
        else:
            e = series(binning, d.min(), d.max(), offset)
            idx = np.searchsorted(e, d, side='right') - 1
            u = np.unique(idx)
            self.lo, self.hi = e[u], e[u + 1]
            self.mean, self.w = np.sqrt(self.lo * self.hi), self.hi - self.lo
            self.n = np.array([f[idx == k].sum() for k in u])
            self.ne = np.array([(idx == k).sum() for k in u], float)
        self.nc = np.array([self.n[i:].sum() for i in range(len(self.n))])
        self.nce = np.array([self.ne[i:].sum() for i in range(len(self.n))])

    def bias(self, cum=None):
        """ratio of mean density in bin to density at its centre for the given cumulative function / slope -3"""
        b = self.hi / self.lo
        if cum is None:
            k = np.full(len(b), -3.)
        else:
            k = np.log(cum(self.hi) / cum(self.lo)) / np.log(b)
        g = np.sqrt(b) - 1 / np.sqrt(b)
        return (b ** (k / 2) - b ** (-k / 2)) / (g * k)

    def xy(self, pres, cum=None):
        a = self.a
        if pres == 'cumulative':
            return self.lo, self.nc / a, self.nc / a / np.sqrt(self.nce)
        if pres == 'incremental':
            y = self.n / a
        elif pres == 'Hartmann':
            y = self.n / a * self.mean * (2 ** .25 - 2 ** -.25) / self.w
        elif pres == 'differential':
            y = self.n / a / self.w
        elif pres == 'R-plot':
            y = self.mean ** 3 * self.n / a / self.w
        err = y / np.sqrt(self.ne)
        if pres == 'differential':
            y = y / self.bias(cum)
        return self.mean, y, err

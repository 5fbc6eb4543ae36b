"""Monitors of production, chronology, equilibrium and epoch models, fits and their selection."""
import os
import re

import numpy as np
from scipy.integrate import quad

import craterstats as cst
import craterstats.cli
from . import gen
from .core import case, scratch, quiet, Skip, REPO

_D = {}


def defs():
    """independent reading of the supplied function definitions"""
    if _D:
        return _D
    t = open(os.path.join(os.path.dirname(cst.__file__), 'config', 'functions.txt'), encoding='utf-8-sig').read()
    t = '\n'.join(x for x in t.splitlines() if not x.lstrip().startswith('#'))
    for kind in ('chronology_system', 'production', 'chronology', 'equilibrium', 'epochs'):
        L = []
        for mt in re.finditer(r'(?ms)^\s*%s\s*=\s*\{\s*$(.*?)^\s*\}\s*$' % kind, t):
            body = mt.group(1)
            e = {}
            for k in ('name', 'cf', 'pf', 'body', 'type'):
                x = re.search(r'(?m)^\s*%s\s*=\s*(["\'])(.*)\1' % k, body)
                if x:
                    e[k] = x.group(2).rstrip('"')
            for k in ('coefficients', 'range', 'H', 'time', 'density', 'ref_diameter', 'xrange', 'yrange'):
                x = re.search(r'(?ms)^\s*%s\s*=\s*\*?\[(.*?)\]' % k, body)
                if x:
                    e[k] = [float(v) for v in x.group(1).replace('\n', ' ').split(',')]
            x = re.search(r'(?m)^\s*index_1km\s*=\s*(\d+)', body)
            if x:
                e['index_1km'] = int(x.group(1))
            x = re.search(r'(?ms)^\s*epoch\s*=\s*\*?\[(.*?)\]', body)
            if x:
                e['epoch'] = [v.strip(" '\n") for v in x.group(1).split(',')]
            e['code'] = 'n1_code' in body
            L.append(e)
        _D[kind] = L
    return _D


_F = {}


def funcs():
    if not _F:
        _F['f'] = cst.Functionslist().functions
    return _F['f']


def get_pf(m, name, eq=False):
    k = ('pf', name, eq)
    if k not in _F:
        _F[k] = m.call(cst.Productionfn, funcs(), name, equilibrium=eq)
    return _F[k]


def get_cf(m, name):
    k = ('cf', name)
    if k not in _F:
        _F[k] = m.call(cst.Chronologyfn, funcs(), name)
    return _F[k]


def C10poly(c, a0, d):
    x = np.log10(np.asarray(d, float))
    r = np.zeros_like(x) + a0
    for i, k in enumerate(c[1:], 1):
        r = r + k * x ** i
    return r


def n1(c, t):
    return c[0] * (np.exp(c[1] * np.asarray(t, float)) - 1) + c[3] * np.asarray(t, float)


def pick(rng, L):
    return L[int(rng.integers(0, len(L)))]


def prod(rng, poly=None):
    L = [e for e in defs()['production'] if poly is None or ('coefficients' in e) == poly]
    return pick(rng, L)


# ======================================================================================== C10
@case('C10', quick=2500, thorough=20000)
def polynomial_forms(m, rng):
    eq = rng.random() < .15
    e = pick(rng, defs()['equilibrium']) if eq else prod(rng, True)
    pf = get_pf(m, e['name'], eq)
    lo, hi = e.get('range', [1e-4, 2e3])
    c = e['coefficients']
    n = int(rng.integers(1, 30))
    d = np.sort(10 ** rng.uniform(np.log10(lo), np.log10(hi), n))
    a0 = float(rng.uniform(-9, 2)) if rng.random() < .8 else pick(rng, [0., -1., c[0]])
    m.note(pf=e['name'], d=d, a0=a0)
    ev = lambda p, z, a=a0: np.asarray(m.call(pf.evaluate, p, z, a), float)
    C = ev('cumulative', d)
    m.close(np.log10(C), C10poly(c, a0, d), 'cumulative-polynomial', rtol=1e-9, atol=1e-9, msg=e['name'])
    m.close(ev('cumulative', np.array([1.])), [10 ** a0], 'a0-is-density-at-1km', rtol=1e-9)
    # differential = minus derivative of cumulative (five-point stencil of the reference curve)
    h = 1e-3
    f = lambda z: 10 ** C10poly(c, a0, z)
    dd = lambda s: f(d * np.exp(s * h))
    F = -(8 * (dd(1) - dd(-1)) - (dd(2) - dd(-2))) / (12 * h) / d
    m.close(ev('differential', d), F, 'differential-is-minus-derivative', rtol=1e-6, atol=1e-7 * float(np.max(f(d) / d) * 1e-3), msg=e['name'])
    Fc = ev('differential', d)
    m.close(ev('R-plot', d), Fc * d ** 3, 'R-is-density-times-cube', rtol=1e-9)
    m.close(ev('Hartmann', d), Fc * d * (2 ** .25 - 2 ** -.25), 'Hartmann-is-root2-increment', rtol=1e-9)
    # scaling with a0
    s = float(rng.uniform(-3, 3))
    for p in ('cumulative', 'differential', 'R-plot', 'Hartmann'):
        m.close(ev(p, d, a0 + s), ev(p, d) * 10 ** s, 'a0-scaling', rtol=1e-8, msg=p)
        m.close(ev(p, float(d[0])), ev(p, d)[0], 'scalar-array', rtol=1e-12)
        q = m.call(pf.evaluate, p, d)  # default: the function's own a0
        m.close(q, ev(p, d, c[0]), 'default-a0', rtol=1e-10)
    # integral of differential between two diameters = difference of cumulative
    x0, x1 = sorted(10 ** rng.uniform(np.log10(lo), np.log10(hi), 2))
    I = quad(lambda z: float(pf.evaluate('differential', np.array([np.exp(z)]), a0)[0]) * np.exp(z), np.log(x0), np.log(x1),
             epsrel=1e-9, limit=200)[0]
    m.close(I, float(ev('cumulative', x0) - ev('cumulative', x1)), 'integral-of-differential', rtol=1e-5,
            atol=1e-9 * float(ev('cumulative', x0)))
    m.sig(e['name'], n, round(a0, 2))
    m.sample(dict(pf=e['name'], d=d[:4].tolist(), a0=a0, C=C[:4].tolist()))


@case('C10', quick=1000, thorough=8000)
def tabular_forms(m, rng):
    e = prod(rng, False)
    pf = get_pf(m, e['name'])
    h, i1 = np.array(e['H']), e['index_1km']
    a0 = float(rng.uniform(-6, 1))
    k = np.arange(len(h))
    dmin = 2. ** ((k - i1) / 2)
    mean = dmin * 2 ** .25
    cum = np.array([h[i:].sum() for i in k])
    cum = cum / cum[i1] * 10 ** a0
    inc = cum - np.append(cum[1:], 0)
    m.note(pf=e['name'], a0=a0)
    ev = lambda p, z: np.asarray(m.call(pf.evaluate, p, z, a0), float)
    m.close(ev('cumulative', dmin), cum, 'tabular-cumulative', rtol=1e-8, msg=e['name'])
    m.close(ev('Hartmann', mean), inc, 'tabular-increment', rtol=1e-8, msg=e['name'])
    n = int(rng.integers(1, 40))
    d = np.sort(10 ** rng.uniform(np.log10(mean[0]), np.log10(mean[-1]), n))
    F = ev('differential', d)
    m.close(ev('R-plot', d), F * d ** 3, 'R-is-density-times-cube', rtol=1e-8)
    s = float(rng.uniform(-3, 3))
    for p in ('cumulative', 'differential', 'R-plot', 'Hartmann'):
        y = ev(p, d)
        m.check(np.all(np.isfinite(y)) and np.all(y > 0), 'density-not-positive', lambda: f'{p} {y}')
        m.close(m.call(pf.evaluate, p, d, a0 + s), y * 10 ** s, 'a0-scaling', rtol=1e-8, msg=p)
    m.check(np.all(np.diff(ev('cumulative', d)) <= 0), 'cumulative-increases', '')
    # differential at bin centre: increment / width with the binning bias of the local slope removed
    kk = np.append(np.log(cum[:-1] / cum[1:]), np.nan) / np.log(2 ** .5)
    kk[-1] = kk[-2]
    b = np.sqrt(2.)
    bc = (b ** (kk / 2) - b ** (-kk / 2)) / ((b ** .5 - b ** -.5) * kk)
    m.close(ev('differential', mean), inc / (mean * (2 ** .25 - 2 ** -.25)) / bc, 'tabular-differential', rtol=1e-7, msg=e['name'])
    m.sig(e['name'], n, round(a0, 2))


@case('C10', quick=1000, thorough=6000)
def curves(m, rng):
    """every plotted curve lies on the function, within its range, and decreases in the cumulative form"""
    e = prod(rng)
    pf = get_pf(m, e['name'])
    c = e.get('coefficients')
    lo, hi = (float(x) for x in pf.range)
    if c:
        m.close([lo, hi], e.get('range', [1e-4, 2e3]), 'validity-range', rtol=1e-6)
    a0 = float(rng.uniform(-8, 1))
    p = str(rng.choice(['cumulative', 'differential', 'R-plot', 'Hartmann']))
    rg = None if rng.random() < .4 else sorted(10 ** rng.uniform(np.log10(lo) - 1, np.log10(hi) + 1, 2))
    kw = {} if rg is None else dict(range=rg)
    m.note(pf=e['name'], a0=a0, presentation=p, range=rg)
    r = m.call(pf.getplotdata, p, a0, **kw)
    w = np.clip(np.array(rg if rg is not None else [lo, hi]), lo, hi)
    d = np.asarray(r['d'])
    m.close([d[0], d[-1]], w, 'curve-span', rtol=1e-6)
    m.check(np.all(np.diff(d) >= 0) and len(d) > 50, 'curve-order', '')
    m.close(r['y'], m.call(pf.evaluate, p, d, a0), 'curve-on-function', rtol=1e-10)
    y = np.asarray(r['y'], float)
    if c:  # some published polynomials turn over inside their stated range: demand what the polynomial itself does
        yr = 10 ** C10poly(c, a0, d)
        if p == 'cumulative':
            m.close(y, yr, 'curve-on-function', rtol=1e-4)  # range held in single precision
            dec = np.diff(np.log(yr)) < -1e-7
            m.check(np.all(np.diff(y)[dec] < 0), 'cumulative-increases', f'{e["name"]}')
        pos = np.append((np.diff(np.log(yr)) < -1e-7) & (np.diff(d) > 0), False)
        pos[1:] &= pos[:-1]
        pos[0] = False
        m.check(np.all(y[pos] > 0), 'density-negative', e['name'])
    else:
        m.check(np.all(y > 0), 'density-negative', e['name'])
        m.check(p != 'cumulative' or np.all(np.diff(y) <= 0), 'cumulative-increases', e['name'])
    # isochron cut by equilibrium: keeps exactly the part below 80 % of equilibrium
    q = pick(rng, defs()['equilibrium'])
    ef = get_pf(m, q['name'], True)
    iso = m.call(pf.getisochron, p, a0, ef)
    iso0 = m.call(pf.getisochron, p, a0, None)
    d0 = np.asarray(iso0['d'])
    y_eq = np.asarray(m.call(ef.evaluate, p, d0))
    y0 = np.asarray(iso0['y'])
    # compared only inside both validity ranges, where curves are densities, and where the ratio is not steep on the sampling scale
    elo, ehi = (float(x) for x in ef.range)
    ok = (y0 > 0) & (y_eq > 0) & (d0 > elo * 1.1) & (d0 < ehi / 1.1)
    with np.errstate(all='ignore'):
        ratio = np.where(ok, y0 / (.8 * y_eq), 1.)
        ok &= np.abs(np.gradient(np.log(np.abs(ratio) + 1e-300), np.log(d0))) < 15
    ratio = np.where(ok, ratio, 1.)
    kept = np.isin(np.asarray(iso0['d']), np.asarray(iso['d']))
    m.check(not np.any(kept & (ratio > 1.25)), 'isochron-above-equilibrium', e['name'])
    m.check(not np.any(~kept & (ratio < .8)), 'isochron-cut-below-equilibrium', e['name'])
    m.event('equilibrium-cuts', int((~kept).sum() > 0))
    m.sig(e['name'], p, q['name'], rg is None, int((~kept).sum()) // 20)


# ======================================================================================== C11
@case('C11', quick=3000, thorough=20000)
def chronology(m, rng):
    e = pick(rng, [x for x in defs()['chronology'] if not x['code']])
    cf = get_cf(m, e['name'])
    c = e['coefficients']
    n = int(rng.integers(2, 40))
    t = np.sort(np.where(rng.random(n) < .5, rng.uniform(1e-3, 4.98, n), 10 ** rng.uniform(-7, .69, n)))
    m.note(cf=e['name'], t=t)
    N = np.asarray(m.call(cf.N1, t))
    m.close(N, n1(c, t), 'N1', rtol=1e-9, msg=e['name'])
    m.check(np.all(np.diff(N) >= 0) and np.all(N > 0), 'N1-not-increasing', e['name'])
    m.close(m.call(cf.a0, t), np.log10(n1(c, t)), 'a0-of-age', rtol=1e-9, atol=1e-10)
    m.close(m.call(cf.phi, t), c[0] * c[1] * np.exp(c[1] * t) + c[3], 'rate-is-derivative', rtol=1e-9, msg=e['name'])
    # age of density inverts density of age
    back = np.asarray(m.call(cf.t, n1=n1(c, t)))
    m.close(back, t, 'age-inverts-density', rtol=2e-3, atol=1e-4, msg=e['name'])
    back = np.asarray(m.call(cf.t, a0=np.log10(n1(c, t))))
    m.close(back, t, 'age-inverts-a0', rtol=2e-3, atol=1e-4, msg=e['name'])
    m.close(float(m.call(cf.t, a0=float(np.log10(n1(c, t[0]))))), t[0], 'age-inverts-a0', rtol=2e-3, atol=1e-4)
    # arbitrary densities: ages between 0 and 5, never decreasing with density
    a = np.sort(np.append(rng.uniform(-16, 3, 40), [0., -1., 1.]))  # density of exactly one included
    T = np.asarray(m.call(cf.t, a0=a))
    for x, y in [(x, y) for x, y in zip(a, T) if x in (-1, 0, 1)] + [(a[3], T[3])]:
        m.close(float(m.call(cf.t, a0=float(x))), y, 'age-of-single-density', rtol=1e-9)
        m.close(float(np.asarray(m.call(cf.t, a0=np.array([x]))).ravel()[0]), y, 'age-of-single-density', rtol=1e-9)
        m.close(float(m.call(cf.t, n1=float(10 ** x))), y, 'age-of-single-density', rtol=1e-6, atol=1e-9)
    m.check(np.all(np.diff(T) >= 0) and T.min() >= 0 and T.max() <= 5, 'age-not-monotone', lambda: f'{a} {T}')
    m.close(m.call(cf.t, n1=n1(c, 5.) * np.array([1., 1.5, 1e3])), [5., 5., 5.], 'age-saturates', rtol=1e-9)
    m.close(m.call(cf.t, n1=0.), 0., 'age-of-zero', rtol=0, atol=1e-12)
    m.sig(e['name'], n, round(t[0], 3))
    m.sample(dict(cf=e['name'], t=t[:4].tolist(), N1=N[:4].tolist()))


@case('C11', quick=360, thorough=1000)
def chronology_curves(m, rng):
    e = pick(rng, [x for x in defs()['chronology'] if not x['code']])
    cf = get_cf(m, e['name'])
    c = e['coefficients']
    phi, lin = bool(rng.random() < .5), bool(rng.random() < .5)
    t, y = m.call(cf.getplotdata, phi=phi, linear=lin)
    m.close(t[-1], 5., 'curve-span', rtol=1e-9)
    m.check(np.all(np.diff(t) > 0) and t[0] < 1e-6, 'curve-order', '')
    m.close(y, c[0] * c[1] * np.exp(c[1] * t) + c[3] if phi else n1(c, t), 'curve-on-function', rtol=1e-8, atol=1e-22, msg=e['name'])
    m.sig(e['name'], phi, lin)


@case('C11', quick=720, thorough=2000)
def epochs(m, rng):
    """epoch boundaries: ordered, named, and those given as densities date to ages reproducing these densities"""
    e = pick(rng, defs()['epochs'])
    body = e['name'].split(',')[0]
    S = [s for s in defs()['chronology_system'] if s['body'] == body and s['name'] != "Vesta, Marchi & O'Brien (2014)"]
    s = pick(rng, S)
    pf, cf = get_pf(m, s['pf']), get_cf(m, s['cf'])
    ep = m.call(cst.Epochs, funcs(), e['name'], pf, cf)
    m.check(list(ep.epoch) == e['epoch'], 'epoch-names', lambda: f'{ep.epoch} {e["epoch"]}')
    t = np.array([float(x) for x in ep.time])
    m.check(len(t) == len(e['epoch']) and t[0] == 0 and np.all(np.diff(t) > 0), 'epoch-order', lambda: f'{s["name"]} {t}')
    if 'time' in e:
        m.close(t, e['time'], 'epoch-times', rtol=1e-12)
    else:
        # expected: N(D) = density/1e6 km2 at reference diameter; evaluate the isochron of the decoded age
        for x, D, N in zip(t[1:], e['ref_diameter'], e['density']):
            a0 = float(m.call(cf.a0, x))
            m.close(float(m.call(pf.evaluate, 'cumulative', D, a0)), N / 1e6, 'epoch-density', rtol=4e-3, msg=f'{s["name"]} {x}')
            m.event('epoch-densities')
    m.sig(e['name'], s['name'])


# ======================================================================================== C12
def _parse(args):
    return craterstats.cli.get_parser().parse_args(args)


def _cps(args):
    dflt = __import__('copy').deepcopy(cst.DEFAULTS)
    return craterstats.cli.construct_cps_dict(_parse(args), dflt['set'], funcs())


def subseq(a, b):
    it = iter(b.lower())
    return all(ch in it for ch in a.lower())


def _abbr(rng, name):
    """a subsequence of name"""
    k = int(rng.integers(1, len(name) + 1))
    s = ''.join(name[i] for i in sorted(rng.choice(len(name), k, replace=False)))
    s = s.strip()
    return s if rng.random() < .5 else ''.join(c.upper() if rng.random() < .5 else c.lower() for c in s)


@case('C12', quick=1600, thorough=15000)
def select_system(m, rng):
    opt, key = pick(rng, [('-cs', 'chronology_system'), ('-ef', 'equilibrium'), ('-ep', 'epochs')])
    names = [e['name'] for e in defs()[key]]
    full = rng.random() < .3
    nm = pick(rng, names)
    v = nm if full else _abbr(rng, nm)
    if not v or v.startswith('-'):
        raise Skip
    if full and rng.random() < .3:
        v = v.upper()
    match = [x for x in names if subseq(v, x)]
    best = min(len(x) for x in match)
    ok = [x for x in match if len(x) == best]
    args = [opt, v]
    m.note(args=args)
    if key == 'epochs' and rng.random() < .8:
        args += ['-cs', pick(rng, [s['name'] for s in defs()['chronology_system'] if s['body'] == nm.split(',')[0]])]
    mech = 'selection-crash'
    if "Vesta, Marchi & O'Brien (2014)" in ([ok[0]] if key == 'chronology_system' else args):
        mech = 'obrien-chronology-unusable'
    m.check(not full or ok == [nm], 'full-name-not-unique', nm)
    c = m.call(_cps, args, mech=mech)
    m.check(c[key] in ok, 'wrong-entry-selected', lambda: f'{args} selected {c[key]!r}, expected {ok}')
    if key == 'chronology_system':
        s = next(x for x in defs()['chronology_system'] if x['name'] == c[key])
        m.check((c['pf'].name, c['cf'].name) == (s['pf'], s['cf']), 'wrong-functions',
                lambda: f'{s} gives {c["pf"].name}, {c["cf"].name}')
        ga = {'Moon': 3.79e7, 'Mars': 1.44e8, 'Mercury': 7.48e7}.get(s['body'])
        if ga:
            m.close(c['global_area'], ga, 'global-area', rtol=1e-9)
    if key == 'equilibrium':
        m.check(c['ef'].name == c[key], 'wrong-functions', '')
        e = next(x for x in defs()['equilibrium'] if x['name'] == c[key])
        m.close(np.log10(c['ef'].evaluate('cumulative', np.array([.1, 1., 3.]))), C10poly(e['coefficients'], e['coefficients'][0], [.1, 1., 3.]),
                'equilibrium-value', rtol=1e-9, atol=1e-9)
    if key == 'epochs':
        m.check(c['ep'].name == c[key], 'wrong-functions', '')
    m.sig(key, full, c[key], len(v))
    m.sample(dict(args=args, selected=c[key]))


_PLOTKEYS = {
    'colour': ['Black', 'Red', 'Green', 'Blue', 'Yellow', 'Violet', 'Grey', 'blue1', 'blue2', 'blue3', 'blue4', 'brown1', 'brown2', 'brown3',
               'brown4', 'green1', 'green2', 'green3', 'orange', 'pink1', 'pink2', 'pink3', 'purple1', 'purple2', 'red1', 'red2', 'red3',
               'teal1', 'teal2', 'yellow1', 'yellow2', 'yellow-green'],
    'psym': ['square', 'circle', 'star4', 'triangle', 'star5', 'diagonal cross', 'cross', 'point', 'inverted triangle', 'filled square',
             'filled circle', 'filled star4', 'filled triangle', 'filled star5', 'filled inverted triangle'],
    'binning': gen.BINNINGS,
    'type': ['data', 'differential-fit', 'cumulative-fit', 'poisson', 'buffered-poisson'],
}
_PSHORT = ['s', 'o', '*4', '^', '*', 'x', '+', '.', 'v', 'fs', 'fo', 'f*4', 'f^', 'f*', 'fv']
_TSHORT = ['data', 'd-fit', 'c-fit', 'poisson', 'b-poisson']


def _plot(args, pres='differential'):
    dflt = __import__('copy').deepcopy(cst.DEFAULTS)
    a = _parse(args)
    return craterstats.cli.construct_plot_dicts(a, dflt['plot'], dict(presentation=pres))


@case('C12', quick=1600, thorough=15000)
def select_plot_item(m, rng):
    key = pick(rng, list(_PLOTKEYS))
    names = _PLOTKEYS[key]
    i = int(rng.integers(0, len(names)))
    mode = rng.random()
    if key == 'psym' and mode < .3:
        v, ok = _PSHORT[i], [i]
    else:
        v = names[i] if mode < .6 else _abbr(rng, names[i])
        if key == 'psym' and v in _PSHORT:
            ok = [_PSHORT.index(v)]
        else:
            mt = [j for j, x in enumerate(names) if subseq(v, x)]
            best = min(len(names[j]) for j in mt)
            ok = [j for j in mt if len(names[j]) == best]
    if not v or v[0] in '#-' or ',' in v or '=' in v:
        raise Skip
    kk = key if rng.random() < .5 else {'colour': 'col', 'psym': 'psy', 'binning': 'bin', 'type': 'type'}[key]
    with scratch():
        gen.write('a.diam', 'area = 10.\nperimeter = 3.\ncrater = {diameter\n1.\n2.\n}\n')
        p = m.call(_plot, ['-p', f'source=a.diam,{kk}={v}'])[0]
    got = p[key]
    want = [names[j] for j in ok] if key == 'binning' else [_TSHORT[j] for j in ok] if key == 'type' else ok
    m.check(got in want, 'wrong-item-selected', lambda: f'{kk}={v}: {got!r}, expected {want}')
    m.sig(key, v.lower(), str(got))


@case('C12', quick=1000, thorough=6000)
def select_presentation(m, rng):
    names = ['cumulative', 'differential', 'R-plot', 'Hartmann', 'chronology', 'rate', 'sequence', 'uncertainty', 'map', 'sdaa', 'm2cnd']
    nm = pick(rng, names)
    v = nm if rng.random() < .3 else _abbr(rng, nm)
    if not v or v.startswith('-'):
        raise Skip
    match = [x for x in names if subseq(v, x)]
    m.note(v=v)
    if len(match) == 1:
        c = m.call(_cps, ['-pr', v])
        m.check(c['presentation'] == match[0], 'wrong-presentation', lambda: f'{v}: {c["presentation"]}')
    else:   # ambiguous: refused with a message
        try:
            c = _cps(['-pr', v])
        except SystemExit as e:
            m.check(bool(e.code) and e.code != 0, 'silent-exit', repr(e.code))
        except Exception as e:
            m.fail('selection-crash', f'{v}: {type(e).__name__} {e}')
        else:
            m.fail('ambiguous-accepted', f'-pr {v} accepted as {c["presentation"]}, candidates {match}')
        m.event('ambiguous-refused')
    m.sig('pr', v.lower(), len(match))


@case('C12', quick=800, thorough=4000)
def select_invalid(m, rng):
    kind = int(rng.integers(0, 8))
    junk = ''.join(rng.choice(list('qzxjkw#@!?*([{)|\\^$+'), int(rng.integers(2, 8)))) + 'qq'
    with scratch():
        gen.write('a.diam', 'area = 10.\ncrater = {diameter\n1.\n2.\n}\n')
        try:
            with quiet():
                if kind <= 2:
                    args = [['-cs', '-ef', '-ep'][kind], junk]
                    r = _cps(args)
                elif kind == 3:
                    args = ['-pr', junk]
                    r = _cps(args)
                else:
                    key = ['colour', 'psym', 'binning', 'type'][kind - 4]
                    if key == 'colour' and rng.random() < .5:
                        junk = '#' + pick(rng, ['12345', '1234567', 'gggggg', ''])
                    args = ['-p', f'source=a.diam,{key}={junk}']
                    r = _plot(args)
        except SystemExit as e:
            m.check(bool(e.code) and e.code != 0, 'silent-exit', f'{args} {e.code!r}')
        except Exception as e:
            m.fail('selection-crash', f'{args}: {type(e).__name__} {e}')
        else:
            m.fail('invalid-name-accepted', f'{args}')
    m.sig('invalid', kind, junk)


# ======================================================================================== C13
@case('C13', quick=3000, thorough=25000)
def fit(m, rng):
    e = prod(rng)
    pf = get_pf(m, e['name'])
    lo, hi = (float(x) for x in pf.range)
    p = str(rng.choice(['cumulative', 'differential']))
    n = int(rng.integers(1, 25))
    a0 = float(rng.uniform(-8, 1))
    d = np.sort(10 ** rng.uniform(np.log10(lo), np.log10(hi), n))
    if len(np.unique(d)) < n:
        raise Skip
    y0 = np.asarray(pf.evaluate(p, d, a0), float)
    k = rng.integers(1, 500, n)
    m.note(pf=e['name'], presentation=p, d=d, a0=a0)
    if np.any(y0 <= 0) or not np.all(np.isfinite(y0)):
        raise Skip
    err = y0 / np.sqrt(k)
    r = np.asarray(m.call(pf.fit, dict(presentation=p, d=d, y=y0, err=err)), float)
    m.check(r.shape == (3,), 'fit-shape', str(r))
    m.close(r[0], a0, 'fit-recovers-isochron', rtol=0, atol=1e-5, msg=e['name'])
    # noisy: between extreme single-point solutions, equivariant under scaling, error bracket of first point
    y = y0 * 10 ** rng.normal(0, .15, n)
    err = y / np.sqrt(k)
    r = np.asarray(m.call(pf.fit, dict(presentation=p, d=d, y=y, err=err)), float)
    res = np.log10(y / y0) + a0
    m.check(res.min() - 1e-5 <= r[0] <= res.max() + 1e-5, 'fit-outside-points', lambda: f'{r[0]} {res}')
    m.check(r[1] < r[0] < r[2], 'fit-errors-unordered', lambda: f'{r}')
    s = float(rng.uniform(-3, 3))
    r2 = np.asarray(m.call(pf.fit, dict(presentation=p, d=d, y=y * 10 ** s, err=err * 10 ** s)), float)
    m.close(r2, r + s, 'fit-scaling', rtol=0, atol=2e-4, msg=e['name'])
    # relative error of first point is kept: +-0.98 sigma
    m.close([10 ** (r[0] - r[1]), 10 ** (r[2] - r[0])], [1 / (1 - .98 / np.sqrt(k[0])), 1 + .98 / np.sqrt(k[0])], 'fit-error-size',
            rtol=1e-6)
    if n > 1:
        q = rng.permutation(n)
        w = np.asarray(m.call(pf.fit, dict(presentation=p, d=d[q], y=y[q], err=err[q])), float)
        m.close(w[0], r[0], 'fit-order-dependent', rtol=0, atol=1e-5)
        # optimal for the function's own weights: weighted residual vanishes (weight ~ y, resp. err)
        wt = y if p == 'cumulative' else err
        m.close(r[0], np.sum(wt * res) / np.sum(wt), 'fit-weighted-mean', rtol=0, atol=1e-4, msg=e['name'])
    m.sig(e['name'], p, n, round(a0, 1))
    m.sample(dict(pf=e['name'], presentation=p, n=n, a0=a0, fit=r.tolist()))


@case('C13', quick=750, thorough=5000)
def fit_through_plot(m, rng):
    """age from a fitted overplot: of a population following an isochron exactly, is the isochron's age"""
    s = pick(rng, [x for x in defs()['chronology_system'] if x['name'] != "Vesta, Marchi & O'Brien (2014)"])
    pf, cf = get_pf(m, s['pf']), get_cf(m, s['cf'])
    lo, hi = (float(x) for x in pf.range)
    b = str(rng.choice(gen.BINNINGS[:-1]))
    e = gen.series(b, lo, hi)
    e = e[(e > lo * 1.02) & (e < hi / 1.02)]
    n = int(rng.integers(3, 12))
    if len(e) < n + 2:
        raise Skip
    i0 = int(rng.integers(0, len(e) - n - 1))
    t = float(rng.uniform(.05, 4.5))
    a0 = float(cf.a0(t))
    C = np.asarray(pf.evaluate('cumulative', e, a0), float)
    mean = np.sqrt(e[1:] * e[:-1])
    w = C[:-1] - C[1:]
    if np.any(w <= 0):
        raise Skip
    # one weighted crater per bin reproduces the incremental density; a further one holds the remainder above the last boundary
    area = 1. / w.max()
    with scratch():
        gen.write('x.diam', gen.diam_text(rng, np.append(mean, e[-1] * 1.0001), np.append(w, C[-1]) * area, area, plain=True))
        if C[-1] * area > 1 or np.any(w * area > 1):
            raise Skip
        cc = m.call(cst.Cratercount, 'x.diam')
        cp = m.call(cst.Craterplot, cratercount=cc, range=[repr(float(e[i0] * 1.0001)), repr(float(e[i0 + n] / 1.0001))], type='c-fit', binning=b)
        cps = type('S', (), dict(pf=pf, cf=cf, ref_diameter=1.))
        m.call(cp.calculate_age, cps)
    m.close(cp.a0[0], a0, 'isochron-age-recovered', rtol=0, atol=2e-3, msg=f'{s["name"]} {b}')
    m.close(cp.t[0], t, 'isochron-age-recovered', rtol=8e-3, atol=2e-4, msg=f'{s["name"]} {b}')
    m.close(cp.t[0], float(cf.t(a0=cp.a0[0])), 'age-of-fit', rtol=1e-9)
    m.check(cp.t[1] <= cp.t[0] <= cp.t[2], 'age-errors-unordered', str(cp.t))
    m.close(cp.n_d, float(pf.evaluate('cumulative', 1., cp.a0[0])), 'N-reference', rtol=1e-9)
    m.sig(s['name'], b, n, round(t, 1))


@case('C13', quick=1250, thorough=8000, needs=('single-crater-start',))
def fit_of_data(m, rng):
    """both kinds of fit on counted data in every binning: finite, ordered limits about the weighted solution"""
    s = pick(rng, [x for x in defs()['chronology_system'] if x['name'] != "Vesta, Marchi & O'Brien (2014)"])
    pf, cf = get_pf(m, s['pf']), get_cf(m, s['cf'])
    lo, hi = (float(x) for x in pf.range)
    n = int(pick(rng, [1, 2, 3, 5, 8, 20, 60, 200]))
    lg = np.log10(lo) + .2, min(np.log10(hi), 2.5) - .2
    d0 = 10 ** rng.uniform(lg[0], lg[1] - .4)
    d = gen.off_edges(np.clip(d0 * rng.random(n) ** (-1 / rng.uniform(1.2, 4)), d0, 10 ** lg[1]))
    b = str(rng.choice(gen.BINNINGS[:-1]))
    kind = pick(rng, ['c-fit', 'd-fit', 'd-fit'])
    area = 10 ** rng.uniform(-2, 8)
    r = [d0 / 3, 10 ** lg[1] * 2] if rng.random() < .5 else [float(np.quantile(d, rng.uniform(0, .6))) / 1.3, 10 ** lg[1] * 2]
    m.note(system=s['name'], d=d, area=area, binning=b, kind=kind, range=r)
    with scratch():
        gen.write('x.diam', gen.diam_text(rng, d, np.ones(n), area, plain=True))
        cc = m.call(cst.Cratercount, 'x.diam')
        cp = m.call(cst.Craterplot, cratercount=cc, range=[f'{x:.12g}' for x in r], type=kind, binning=b)
        cps = type('S', (), dict(pf=pf, cf=cf, ref_diameter=1.))
        p = m.call(cc.getplotdata, {'c-fit': 'cumulative', 'd-fit': 'differential'}[kind], b, range=cp.range, pf=pf)
        if not len(p['d']) or p['d'][0] <= lo or p['d'][-1] >= hi:
            raise Skip
        m.call(cp.calculate_age, cps)
    y, dd, err = (np.asarray(p[k], float) for k in ('y', 'd', 'err'))
    a = np.asarray(cp.a0, float)
    t = np.asarray(cp.t, float)
    m.check(np.all(np.isfinite(a)) and np.all(np.isfinite(t)), 'fit-limits-not-finite', lambda: f'a0 {a} t {t} {s["name"]} {kind} {b}')
    m.check(a[1] < a[0] < a[2], 'fit-errors-unordered', str(a))
    m.check(t[1] <= t[0] <= t[2], 'age-errors-unordered', str(t))
    f = np.log10(np.asarray(pf.evaluate(p['presentation'], dd, 0.), float))
    wt = y if kind == 'c-fit' else err
    want = np.sum(wt * (np.log10(y) - f)) / np.sum(wt)
    m.close(a[0], want, 'fit-weighted-mean', rtol=0, atol=2e-4, msg=f'{s["name"]} {b}')
    e = .98 * err[0] / y[0]
    m.close(10 ** (a[2] - a[0]), 1 + e, 'fit-error-size', rtol=1e-5)
    if e < .97:
        m.close(10 ** (a[1] - a[0]), 1 - e, 'fit-error-size', rtol=1e-5)
    else:
        m.event('single-crater-start')
        m.check(a[1] < a[0] - 1, 'fit-error-size', lambda: f'lower limit {a[1]} of {a[0]} with one crater in the first bin')
    m.sig(s['name'], b, kind, n, round(d0, 2))


# ======================================================================================== C14
@case('C14', quick=1500, thorough=10000)
def resurfacing(m, rng):
    e = prod(rng)
    pf = get_pf(m, e['name'])
    lo, hi = (float(x) for x in pf.range)
    lo = max(lo, .02)
    hi = min(hi, 100.)
    b = str(rng.choice(gen.BINNINGS[:-1]))
    span = float(rng.uniform(.3, .8))
    d0 = 10 ** rng.uniform(np.log10(lo) + .1, np.log10(hi) - span - .7)
    n = int(rng.integers(10, 150))
    d = d0 * rng.random(n) ** (-1 / rng.uniform(2, 3.5))
    d = np.append(d, d0 * 10 ** span * rng.random(n // 8) ** (-1 / 2.2))  # older population surviving at large diameter
    d = gen.off_edges(np.clip(d, lo, hi))
    f = gen.fractions(rng, len(d), mode=int(rng.integers(0, 2)))
    area = 10 ** rng.uniform(-3, 8)
    ref = gen.Ref(d, f, area, b)
    m.note(pf=e['name'], d=d, f=f, area=area, binning=b)
    with scratch():
        gen.write('x.diam', gen.diam_text(rng, d, f, area, plain=True))
        cc = m.call(cst.Cratercount, 'x.diam')
        r = [float(x) for x in m.call(cc.decode_range, [repr(d0 * 1.001), repr(d0 * 10 ** span)], b, 1)]
        s = (ref.mean > r[0]) & (ref.mean < r[1])
        if s.sum() < 2:
            raise Skip
        p0 = m.call(cc.getplotdata, 'cumulative', b, range=list(r))
        p = m.call(cc.getplotdata, 'cumulative', b, range=list(r), resurfacing=1, pf=pf)
        pd = m.call(cc.getplotdata, 'differential', b, range=list(r), pf=pf)
        pa = m.call(cc.getplotdata, 'cumulative', b, range=list(r), resurfacing=1, pf=pf, showall=1)
        m.close(p['d'], p0['d'], 'resurf-points', rtol=1e-12)
        adj = np.asarray(p['y']) - np.asarray(p0['y'])
        scale = np.asarray(p0['y'])
        m.close(adj, np.full(len(adj), adj[0]), 'resurf-not-constant', rtol=1e-7, atol=1e-12 * scale.max())
        # the corrected counts fall on their own isochron at the largest diameter
        bad_fit = np.any(np.asarray(p['y']) <= 0)
        if bad_fit:
            m.event('correction-exceeds-data')
            raise Skip
        a0 = m.call(pf.fit, dict(presentation='cumulative', d=np.asarray(p['d']), y=np.asarray(p['y']), err=np.asarray(p['err'])))[0]
        C = float(pf.evaluate('cumulative', p['d'][-1], a0))
        m.close(C, float(p['y'][-1]), 'resurf-inconsistent', rtol=.02, msg=f'{e["name"]} {b}')
        # independent of unit of area
        k = 10 ** float(rng.uniform(-4, 4))
        gen.write('y.diam', gen.diam_text(rng, d, f, area * k, plain=True))
        c2 = m.call(cst.Cratercount, 'y.diam')
        p2 = m.call(c2.getplotdata, 'cumulative', b, range=list(r), resurfacing=1, pf=pf)
        m.close(np.asarray(p2['y']) * k, p['y'], 'resurf-scale-dependent', rtol=2e-3)
        m.close(np.asarray(pa['y'])[-len(adj):], p['y'], 'resurf-showall', rtol=1e-9)
        m.check(len(pa['y']) == int((ref.mean < r[1]).sum()), 'resurf-showall', '')
        m.close(pd['y'], m.call(m.call(cst.Cratercount, 'x.diam').getplotdata, 'differential', b, range=list(r), pf=pf)['y'],
                'resurf-alters-differential', rtol=1e-9)
        # a count already on the isochron needs no correction
    m.sig(e['name'], b, int(s.sum()), round(np.log10(area), 1))
    m.sample(dict(pf=e['name'], binning=b, range=r, adj=float(adj[0]), y=np.asarray(p['y'])[:3].tolist()))


@case('C14', quick=400, thorough=2000)
def resurf_none_needed(m, rng):
    e = prod(rng)
    pf = get_pf(m, e['name'])
    lo, hi = (float(x) for x in pf.range)
    b = str(rng.choice(gen.BINNINGS[:-1]))
    g = gen.series(b, lo, hi)
    g = g[(g > lo * 1.02) & (g < hi / 1.02)]
    if len(g) < 8:
        raise Skip
    C = np.asarray(pf.evaluate('cumulative', g), float)
    w = C[:-1] - C[1:]
    mean = np.sqrt(g[1:] * g[:-1])
    area = 1 / max(w.max(), C[-1])
    i0 = int(rng.integers(0, len(g) - 6))
    i1 = i0 + int(rng.integers(3, min(12, len(g) - i0 - 1) + 1)) if len(g) - i0 - 1 > 3 else i0 + 3
    m.note(pf=e['name'], binning=b, i=(i0, i1))
    with scratch():
        gen.write('x.diam', gen.diam_text(rng, np.append(mean, g[-1] * 1.0001), np.append(w, C[-1]) * area, area, plain=True))
        cc = m.call(cst.Cratercount, 'x.diam')
        r = [float(g[i0]), float(g[i1])]
        p0 = m.call(cc.getplotdata, 'cumulative', b, range=list(r))
        p = m.call(cc.getplotdata, 'cumulative', b, range=list(r), resurfacing=1, pf=pf)
        # fractions written in the file are rounded: how far is this population from the isochron?
        dev = float(np.max(np.abs(np.asarray(p0['y']) / np.asarray(pf.evaluate('cumulative', np.asarray(p0['d']))) - 1)))
        m.close(p['y'], p0['y'], 'resurf-on-isochron', rtol=2e-3 + 10 * dev, msg=f'{e["name"]} {b} {dev}')
    m.sig('none', e['name'], b, i0)

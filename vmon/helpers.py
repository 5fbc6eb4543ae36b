"""Monitors of the simulated crater log (script) and of the formatting of numbers and names."""
import csv
import io
import os
import re

import numpy as np

import craterstats as cst
import craterstats.gm as gm
from . import gen
from .core import case, scratch, quiet, Skip, REPO
from .models import defs, get_pf, get_cf, pick

SCRIPT = os.path.join(REPO, 'scripts', 'generate_simulated_crater_log.py')


def load(rng=None, **sub):
    """the script as edited by a user: constants given in its first lines replaced"""
    with open(SCRIPT, encoding='utf-8') as f:
        t = f.read()
    done = set()
    for k, (pat, new) in sub.items():
        t2, n = re.subn(pat, lambda _: new, t)
        if n:
            t = t2
            done.add(k)
    ns = {'__name__': 'simulated_log', '__file__': SCRIPT}
    exec(compile(t, SCRIPT, 'exec'), ns)
    return ns, done


def monotone(e):
    return not (e['name'].startswith('Vesta'))


# ======================================================================================== C34
@case('C34', quick=600, thorough=4000)
def inverse(m, rng):
    """the inverse of a production function returns the diameter of a given frequency"""
    ns, _ = load()
    e = pick(rng, [x for x in defs()['production'] if monotone(x)])
    pf = cst.Productionfn(cst.Functionslist().functions, e['name'])
    lo, hi = (float(x) for x in pf.range)
    if rng.random() < .5:
        lo = float(10 ** rng.uniform(np.log10(lo), np.log10(hi) - .3))
        pf.range = [lo, hi] if rng.random() < .5 else np.array([lo, hi])
    for _ in range(6):
        d = float(10 ** rng.uniform(np.log10(lo) + 1e-3, np.log10(hi) - 1e-3))
        m.note(pf=e['name'], d=d, range=[lo, hi])
        y = float(pf.evaluate('cumulative', d))
        if not y > 0:
            raise Skip
        x = float(np.ravel(m.call(ns['pf_inverse'], pf, y))[0])
        m.close(float(pf.evaluate('cumulative', x)), y, 'inverse-frequency', rtol=1e-5, msg=e['name'])
        if float(pf.evaluate('cumulative', d * .999)) > y * 1.0005 > 1.001 * float(pf.evaluate('cumulative', d * 1.001)):   # (some functions have level parts)
            m.event('strict')
            m.close(x, d, 'inverse-diameter', rtol=1e-4, msg=e['name'])
    m.sig(e['name'], round(np.log10(d), 2), lo)


@case('C34', quick=96, thorough=700, needs=('impacts',))
def simulate(m, rng):
    """times and diameters of a log are a Poisson process with the rate and sizes of the system"""
    T, area, dmin, name, mode = (-1., 0.), 100., .05, 'Moon, Neukum (1983)', True
    s = pick(rng, [x for x in defs()['chronology_system'] if x['name'] not in ("Vesta, Marchi & O'Brien (2014)",) and not x['name'].startswith('Vesta')])
    P, C = s['pf'], s['cf']
    pf, cf = get_pf(m, P), get_cf(m, C)
    lo, hi = (float(x) for x in pf.range)
    t0 = float(np.round(rng.uniform(.2, 4.2), 2))
    t1 = float(np.round(t0 * rng.uniform(0, .8), 2)) if rng.random() < .7 else 0.
    dm = float(f'{10 ** rng.uniform(np.log10(max(lo, .02)), np.log10(min(hi, 30.)) - .8):.3g}')
    dm = max(dm, lo * 1.01)
    ratio = float(pf.evaluate('cumulative', dm) / pf.evaluate('cumulative', 1.)) if lo <= 1 <= hi else None
    if ratio is None:
        raise Skip
    n = float(rng.uniform(150, 700))
    mean = (float(cf.N1(t0)) - float(cf.N1(t1))) * ratio
    ar = float(f'{n / mean:.5g}')
    poisson = rng.random() < .8
    ns, done = load(
        T=(r't_interval\s*=\s*\[[^\]]*\]', f't_interval = [{-t0!r},{-t1!r}]'),
        area=(r'(?m)^(\s*)area\s*=\s*100\.', f'    area = {ar!r}'),
        mode=(r'poisson_intervals\s*=\s*True', f'poisson_intervals = {poisson!r}'),
        pf=(r'(?m)^(\s*)pf\s*=\s*cst\.Productionfn\([^)]*\)[^)\n]*\)', f'    pf = cst.Productionfn(cst.PATH+"config/functions.txt", {P!r})'),
        cf=(r'(?m)^(\s*)cf\s*=\s*cst\.Chronologyfn\([^)]*\)[^)\n]*\)', f'    cf = cst.Chronologyfn(cst.PATH+"config/functions.txt", {C!r})'),
        dmin=(r'diameter_range\[0\]\s*=\s*\.05', f'diameter_range[0] = {dm!r}'))
    if done == {'T', 'area', 'mode', 'pf', 'cf', 'dmin'}:
        m.event('edited')
    elif not {'T', 'area', 'mode', 'pf', 'cf', 'dmin'} & done:    # script as supplied
        t0, t1, ar, dm, poisson = 1., 0., 100., .05, True
        pf, cf = get_pf(m, name), get_cf(m, name)
        hi = float(pf.range[1])
    else:
        ns, done = load()
        t0, t1, ar, dm, poisson = 1., 0., 100., .05, True
        pf, cf = get_pf(m, name), get_cf(m, name)
        hi = float(pf.range[1])
    m.note(interval=[-t0, -t1], area=ar, dmin=dm, system=s['name'], poisson=poisson, edited=sorted(done))
    old = np.random.default_rng
    seed = int(rng.integers(2 ** 32))
    np.random.seed(seed)
    np.random.default_rng = lambda *a: old(seed)
    try:
        with quiet() as (o, _):
            m.call(ns['main'])
    finally:
        np.random.default_rng = old
    rows = []
    for x in o.getvalue().splitlines():
        w = x.split()
        if len(w) == 3 and re.fullmatch(r'\d+', w[0]):
            rows.append([float(v) for v in w])
    rows = np.array(rows).reshape(-1, 3)
    k = np.arange(1, len(rows) + 1)
    m.check(np.array_equal(rows[:, 0], k), 'event-numbers', lambda: str(rows[:5, 0]))
    t, d = rows[:, 1], rows[:, 2]
    m.event('impacts', len(t))
    m.check(np.all(np.diff(t) >= 0), 'times-not-increasing', lambda: str(t[:20]))
    m.check(np.all((t >= -t0 - 1e-6) & (t <= -t1 + 1e-6)), 'time-outside-interval', lambda: f'{t.min()} {t.max()} {t0} {t1}')
    m.check(np.all((d >= dm - 6e-5) & (d <= hi + 6e-5)), 'diameter-outside-range', lambda: f'{d.min()} {d.max()} {dm} {hi}')
    N = lambda x: np.asarray(pf.evaluate('cumulative', x, 0.), float)
    rate = float(N(dm) / N(1.)) * ar
    L = rate * (float(cf.N1(t0)) - np.asarray(cf.N1(-t), float))         # expected number before each event
    total = rate * (float(cf.N1(t0)) - float(cf.N1(t1)))
    n = len(t)
    g = np.diff(np.append(0., L))
    if poisson:
        z = (n - total) / np.sqrt(total)
        m.check(abs(z) < 6.5, 'number-of-impacts', lambda: f'{n} expected {total} {s["name"]} {t0} {t1}')
        m.sample(dict(z=z, n=n, total=total))
        ks(m, 1 - np.exp(-g), 'intervals-not-poisson')
        ks(m, L / total, 'impact-times', slack=.02)
    else:
        m.close(n, total, 'number-of-impacts', rtol=.05, atol=3)
        g2 = rate * np.diff(np.append(-t0, t)) * np.asarray(cf.phi(-np.append(-t0, t)[:-1]), float)     # rate may fall much within an interval
        m.close(np.where(abs(g2 - 1) < abs(g - 1), g2, g), np.ones(n), 'mean-interval', rtol=.25, atol=1e-6 * rate * float(cf.phi(t0)) * 3)
    m.event('intervals', n)
    # sizes: frequency of each diameter is uniform between that of the limits (printing precision 1e-4 km)
    u = (N(np.clip(d, dm, hi)) - N(hi)) / (N(dm) - N(hi))
    ks(m, u, 'sizes', slack=float(np.max(np.abs(N(np.clip(dm + 1e-4, dm, hi)) / N(dm) - 1))) + .003)
    r = np.corrcoef(u[:-1], u[1:])[0, 1], np.corrcoef(u, g)[0, 1]
    m.check(np.all(np.abs(r) < 6.5 / np.sqrt(n)), 'not-independent', lambda: f'correlation {r} of {n}')
    m.sig(s['name'], round(t0, 1), round(np.log10(dm), 1), poisson)


def ks(m, u, mech, slack=.01):
    """Kolmogorov distance of u from uniform, limit exceeded with p < 1e-9"""
    u = np.sort(u)
    n = len(u)
    if n < 20:
        return
    D = max(np.max(np.arange(1, n + 1) / n - u), np.max(u - np.arange(n) / n))
    m.check(D < 3.3 / np.sqrt(n) + slack, mech, lambda: f'distribution distance {D} of {n}')


# ======================================================================================== C35
NUM = r'-?\d+(?:\.\d+)?'


def digits_of(s):
    """significant figures a decimal string may claim: (shown digits from first non-zero, decimal places)"""
    s = s.lstrip('-')
    dec = len(s.split('.')[1]) if '.' in s else 0
    return len(s.replace('.', '').lstrip('0')), dec


def rounded(m, s, v, sf, what):
    """s is v written with sf significant figures, without exponent"""
    m.check(re.fullmatch(NUM, s) is not None, 'not-a-number', f'{what}: {s!r} for {v!r}')
    x = float(s)
    if v == 0:
        m.check(x == 0, 'rounding', f'{what}: {s} for 0')
        return
    e = int(np.floor(np.log10(abs(v)) + 1e-12))
    tol = .5 * 10. ** (e - sf + 1)
    m.check(abs(x - v) <= tol * (1 + 1e-9) + 1e-13 * abs(v), 'rounding', lambda: f'{what}: {s} for {v!r}, {sf} figures')
    n, dec = digits_of(s)
    m.check(n >= sf and (dec == 0 or n in (sf, sf + 1)), 'figures', lambda: f'{what}: {s} for {v!r}, {sf} figures')
    if dec == 0 and n > sf:        # figures beyond the precision are zeros
        m.check(set(s.lstrip('-')[sf:]) <= {'0'}, 'figures', lambda: f'{what}: {s} for {v!r}, {sf} figures')
    m.event('numbers')


def number(rng, lo=-9, hi=9):
    v = 10 ** rng.uniform(lo, hi)
    k = rng.integers(0, 5)
    if k == 0:
        v = float(f'{v:.1g}')
    elif k == 1:
        v = float(f'{v:.2g}') * (1 - 10. ** -rng.integers(2, 8))
    elif k == 2:
        v = float(10. ** np.round(np.log10(v)))
    return float(v)


@case('C35', quick=2000, thorough=20000)
def sigfigs(m, rng):
    v = number(rng, -12, 12) * float(rng.choice([1, 1, 1, -1]))
    sf = int(rng.integers(1, 7))
    m.note(v=v, sf=sf)
    s = m.call(gm.sigfigs, v if rng.random() < .5 else np.float64(v), sf)
    rounded(m, s, v, sf, 'sigfigs')
    w = [number(rng) for _ in range(int(rng.integers(1, 4)))]
    r = m.call(gm.sigfigs, [list, tuple, np.array][int(rng.integers(3))](w), sf)
    m.check(list(r) == [gm.sigfigs(x, sf) for x in w], 'sequence', f'{w} {r}')
    m.sig('s', sf, f'{v:.4g}')


@case('C35', quick=2000, thorough=20000)
def scientific(m, rng):
    """mantissa, exponent, error limits and unit of a displayed quantity"""
    v = number(rng, -12, 12)
    sf = int(rng.integers(2, 5))
    unit = pick(rng, [None, 'km-2', 'km2'])
    kw = dict(sf=sf)
    if unit:
        kw['unit'] = unit
    if rng.random() < .2:
        kw['force'] = True
    err = rng.random() < .6
    if err:
        e1, e2 = v * (1 + 10 ** rng.uniform(-3, .5)), v * (1 - 10 ** rng.uniform(-3, -.05))
        kw.update(e1=e1, e2=e2)
    m.note(v=v, **kw)
    s = m.call(gm.scientific_notation, v, **kw)
    mt = re.fullmatch(r'\$(?P<v>' + NUM + r')(?:\^\{\+(?P<p>' + NUM + r')\}_\{-(?P<n>' + NUM + r')\})?(?:\\cdot10\^\{(?P<e>-?\d+)\})?(?P<u>\$ km\$\^\{-?2\})?\$', s)
    m.check(mt is not None, 'notation', f'{s!r} for {v!r} {kw}')
    k = int(mt['e'] or 0)
    rounded(m, mt['v'], v / 10. ** k, sf, 'value')
    m.check((mt['e'] is not None) or (.01 * (1 - 1e-9) < v < 1e4 * (1 + 1e-9)), 'missing-exponent', f'{s} {v!r}')
    if mt['e'] is not None:
        m.check(1 <= float(mt['v']) < 10, 'mantissa', f'{s} {v!r}')
    m.check(not (mt['e'] is not None and .0101 < v < 9990 and 'force' not in kw), 'needless-exponent', f'{s} {v!r}')
    m.check((mt['u'] or '') == {None: '', 'km-2': '$ km$^{-2}', 'km2': '$ km$^{2}'}[unit], 'unit', f'{s} {unit}')
    m.check((mt['p'] is not None) == err, 'limits-missing', s)
    if err:
        rounded(m, mt['p'], (e1 - v) / 10. ** k, sf - 1, 'plus')
        rounded(m, mt['n'], (v - e2) / 10. ** k, sf - 1, 'minus')
    x = m.call(gm.scientific_notation, v, MathML=True, **kw)
    t = re.findall(r'<mtext>([^<]*)</mtext>', x)
    want = [mt['v']] + (['&#x2212;' + mt['n'], '+' + mt['p']] if err else [])
    got = [z for z in re.findall(r'(?:&#x2212;|[+-])?[\d.]+', ' '.join(t if err else [re.sub(r'<math[^>]*>', '', x).split('<')[0]] + t))]
    m.check(got[:len(want)] == want, 'mathml', lambda: f'{x} vs {s}')
    m.check(('<mtext>10</mtext><mtext>%d</mtext>' % k in x) == (mt['e'] is not None), 'mathml', lambda: f'{x} vs {s}')
    m.sig('n', sf, unit, err, f'{v:.3g}')


@case('C35', quick=2000, thorough=20000)
def age(m, rng):
    """age text: value, unit and limits"""
    t = number(rng, -9, .7)
    sf = int(rng.integers(2, 4))
    err = rng.random() < .7
    e1, e2 = (t * 10 ** rng.uniform(-2.5, .3), t * 10 ** rng.uniform(-2.5, -.05)) if err else (0, 0)
    mu = rng.random() < .5
    simple = rng.random() < .2
    ml = rng.random() < .3 and not simple
    kw = dict(mu=mu, MathML=ml) if not simple else dict(simple=True)
    if rng.random() < .2:
        kw['unit'] = pick(rng, ['Ga', 'Ma', 'ka', 'a'])
    if rng.random() < .2:
        kw['no_error'] = True
    m.note(t=t, e1=e1, e2=e2, sf=sf, **kw)
    s = m.call(cst.str_age, t, e1, e2, sf, **kw)
    u = re.search(r'(Ga|Ma|ka|a)(?:</mtext></math>)?$', s)
    m.check(u is not None, 'age-unit', s)
    f = {'Ga': 1, 'Ma': 1e-3, 'ka': 1e-6, 'a': 1e-9}[u[1]]
    if 'unit' in kw:
        m.check(u[1] == kw['unit'], 'age-unit', f'{s} {kw}')
    else:
        m.check(t / f < 1000.001 and (t / f >= 1 - 1e-9 or u[1] == 'a') if u[1] != 'Ga' else t >= 1 - 1e-9, 'age-unit', f'{s} {t!r}')
    if simple:
        v = s.split()[0].split('^')[0]
        m.close(float(v), t / f, 'age-value', rtol=6e-6)
        m.sig('simple', u[1], f'{t:.3g}')
        return
    m.check((('𝜇' in s) or ('&#956;' in s)) == mu, 'mu', s)
    b = s.replace('&#956;', '𝜇').replace('𝜇', '').replace('&#8239;', '').replace('&#x2212;', '-')
    if ml:
        b = re.sub(r'<math[^>]*>', '', b)
        w = re.findall(r'[+-]?\d+(?:\.\d+)?', re.sub(r'<[^>]*>', ' ', b))
        order = (0, 2, 1)
    else:
        w = re.findall(r'[+-]?\d+(?:\.\d+)?', b)
        order = (0, 1, 2)
    n = 3 if err and not kw.get('no_error') else 1
    m.check(len(w) == n, 'age-limits', f'{s} {kw} {e1}')
    rounded(m, w[0], t / f, sf, 'age')
    if n == 3:
        p, q = w[order[1]], w[order[2]]
        m.check(p[0] == '+' and q[0] == '-', 'age-limits', s)
        rounded(m, p[1:], e1 / f, sf - 1, 'plus')
        rounded(m, q[1:], e2 / f, sf - 1, 'minus')
    m.sig('age', u[1], sf, ml, mu, f'{t:.3g}')


@case('C35', quick=2000, thorough=15000)
def ranges(m, rng):
    """diameter ranges and percentiles"""
    a = number(rng, -4, 3)
    b = a * (1 + 10 ** rng.uniform(-1, 2))
    sf = int(rng.integers(2, 4))
    m.note(a=a, b=b, sf=sf)
    s = m.call(gm.diameter_range, pick(rng, [list, tuple, np.array])([a, b]), sf)
    mt = re.fullmatch('(' + NUM + ')\u2013(' + NUM + ')\\s(km|m)', s)
    m.check(mt is not None, 'range-text', repr(s))
    m.check((mt[3] == 'km') == (b >= 1), 'range-unit', f'{s} {a} {b}')
    f = 1 if mt[3] == 'km' else 1000.
    rounded(m, mt[1], a * f, sf, 'from')
    rounded(m, mt[2], b * f, sf, 'to')
    m.check(m.call(gm.diameter_range, [a, np.inf]) == 'unconstrained', 'range-text', 'no upper limit')
    q = 10 ** rng.uniform(-3.9, 1.69)
    p = q if rng.random() < .5 else 100 - q
    x = float(m.call(gm.percentile_sigfigs, p))
    m.check(abs(x - p) <= .0501 * 10. ** np.floor(np.log10(q) + 1e-12), 'percentile', lambda: f'{x} for {p}')
    m.sig('r', sf, f'{a:.3g}', f'{b:.3g}', f'{p:.3g}')


@case('C35', quick=2000, thorough=15000)
def ticks(m, rng):
    """tick values cover the data with few, round steps"""
    lo = float(rng.normal() * 10 ** rng.uniform(-3, 3)) if rng.random() < .8 else 0.
    hi = lo + float(10 ** rng.uniform(-2, 3)) * max(abs(lo), 1e-3) if rng.random() < .7 else lo + float(pick(rng, [1, 2, 3, 5, 10, 50]))
    n = int(rng.integers(3, 12))      # (two ticks cannot cover both sides of a round number)
    m.note(lo=lo, hi=hi, n=n)
    x = np.array([lo, hi]) if rng.random() < .5 else np.append(rng.uniform(lo, hi, 4), [hi, lo])
    t = np.asarray(m.call(gm.ticks, x, n), float)
    m.check(2 <= len(t) <= max(n, 2), 'tick-count', f'{t}')
    st = np.diff(t)
    m.close(st, np.full(len(st), st[0]), 'tick-spacing', rtol=1e-6, atol=1e-9 * max(abs(lo), abs(hi)))
    e = st[0] / 10 ** np.floor(np.log10(st[0] * 1.0000001))
    m.check(min(abs(e - k) for k in (1, 2, 5, 10)) < 1e-5 * max(1, max(abs(lo), abs(hi)) / st[0]), 'tick-step', f'{st[0]}')
    tol = 1e-9 * max(abs(lo), abs(hi), st[0])
    m.check(t[0] <= lo + tol and t[-1] >= hi - tol, 'ticks-not-covering', lambda: f'{t} {lo} {hi}')
    m.check(t[0] > lo - st[0] - tol and t[-1] < hi + st[0] + tol, 'ticks-excessive', lambda: f'{t} {lo} {hi}')
    m.close(t / st[0], np.round(t / st[0]), 'tick-multiples', rtol=0, atol=1e-6 * max(1, abs(t).max() / st[0]))
    m.sig('t', n, f'{lo:.3g}', f'{hi:.3g}')


CH = list('abcXYZ019_- é')


def word(rng, extra='', n=None):
    L = CH + list(extra)
    return ''.join(pick(rng, L) for _ in range(n or int(rng.integers(1, 7)))).strip() or 'w'


@case('C35', quick=2000, thorough=15000)
def names(m, rng):
    """parts of a file name reassemble; quoted strings split to what was quoted; table entries survive a reader"""
    sep = pick(rng, ['/', '/', '\\'])
    k = int(rng.integers(0, 4))
    dirs = [word(rng, '.' if rng.random() < .5 else '') for _ in range(k)]
    path = ''.join(x + sep for x in dirs)
    if rng.random() < .3 and k:
        path = sep + path
    name = word(rng, '.').rstrip('.') or 'n'
    if re.search(r'\.\w{1,4}$', name):
        name += '-x'
    ext = pick(rng, ['', '.scc', '.png', '.c', '.html', '.x_1'])
    f = path + name + ext
    m.note(f=f)
    g = lambda c, **kw: m.call(gm.filename, f, c, **kw)
    m.check(g('pne') == f, 'name-parts', f'{g("pne")!r} for {f!r}')
    m.check((g('p'), g('n'), g('e')) == (path, name, ext), 'name-parts', lambda: f'{(g("p"), g("n"), g("e"))} for {f!r}')
    a, b = word(rng), word(rng)
    m.check(g('pn1e', insert1=a) == path + name + a + ext and g('p2n1', insert1=a, insert2=b) == path + b + name + a, 'name-insert', f'{f!r} {a!r} {b!r}')
    m.check(list(m.call(gm.filename, [f, 'q.txt'], 'n')) == [name, 'q'], 'name-list', f)
    toks, out = [], []
    for _ in range(int(rng.integers(1, 6))):
        q = pick(rng, ['', '"', "'"])
        w = word(rng, ',.=/') if q else word(rng, ',.=/').replace(' ', '')
        w = w or 'w'
        toks.append(w)
        out.append(q + w + q)
    s = pick(rng, [' ', '  ', '\t']).join(out)
    r = m.call(gm.quoted_split, s)
    m.check(r == toks, 'quoted-split', lambda: f'{s!r} -> {r} expected {toks}')
    cells = [word(rng, ',"' if rng.random() < .6 else '') for _ in range(4)]
    cells = [c for c in cells if not (c[0] == '"' or (c[0] == c[-1] and c[0] in '"\'')) and ('"' not in c or ',' in c)]
    if cells:
        line = ','.join(m.call(gm.quote_csv, c) for c in cells)
        back = next(csv.reader(io.StringIO(line)))
        m.check(back == cells, 'quote-csv', lambda: f'{line!r} -> {back} expected {cells}')
    m.sig('f', f, s[:30])

"""Random command lines with a model of what they ask for."""
import numpy as np

import craterstats as cst
from . import gen
from .ages import systems, decreasing, coeff
from .models import get_pf, get_cf, defs, funcs as models_funcs
from .core import Skip

CARRY = ('source', 'psym', 'snap', 'isochron', 'error_bars', 'colour', 'binning')
AGES = ('c-fit', 'd-fit', 'poisson', 'b-poisson')
TYPE_NAMES = {'data': ['data', 'dat'], 'd-fit': ['d-fit', 'differential-fit', 'diff'], 'c-fit': ['c-fit', 'cumulative-fit', 'cumu'],
              'poisson': ['poisson', 'pois'], 'b-poisson': ['b-poisson', 'buffered-poisson', 'buff']}
COLOURS = ['Black', 'Red', 'Green', 'Blue', 'Yellow', 'Violet', 'Grey', 'blue1', 'blue2', 'blue3', 'blue4', 'brown1', 'brown2', 'brown3', 'brown4', 'green1', 'green2',
           'green3', 'orange', 'pink1', 'pink2', 'pink3', 'purple1', 'purple2', 'red1', 'red2', 'teal1', 'teal2', 'yellow1', 'yellow2', 'yellow-green']
SYMBOLS = ['s', 'o', '*4', '^', '*', 'x', '+', '.', 'v', 'fs', 'fo', 'f*4', 'f^', 'f*', 'fv']
HEX = [('#000000', '#ffffff'), ('#a00000', '#ff0000'), ('#008200', '#00ff00'), ('#0050c8', '#5ab4ff'), ('#e1af00', '#ffdc00'), ('#8748bd', '#b464ff'),
       ('#aaaaaa', '#787878'), ('#19426b',) * 2, ('#476788',) * 2, ('#7a91a9',) * 2, ('#a0ccd3',) * 2, ('#533714',) * 2, ('#6b4719',) * 2, ('#7b5c33',) * 2, ('#af9c83',) * 2,
       ('#336b19',) * 2, ('#5d8a49',) * 2, ('#91af83',) * 2, ('#b58000',) * 2, ('#6b1946',) * 2, ('#975e7d',) * 2, ('#ba93a8',) * 2, ('#4c265d',) * 2, ('#876e93',) * 2,
       ('#6b1920',) * 2, ('#7c393f',) * 2, ('#196b64',) * 2, ('#6ba09b',) * 2, ('#b5a200',) * 2, ('#ded68e',) * 2, ('#a8b100',) * 2]
# 'red2' (#8d595e) occupies the slot before teal1 as red3
COLOURS.insert(26, 'red3')
HEX.insert(26, ('#8d595e',) * 2)

DEFAULT = dict(source=None, name='', range=('0', 'inf'), snap=1, type='data', error_bars=1, hide=0, colour=0, psym=1, binning='pseudo-log', age_left=0, show_age=1,
               resurf=0, resurf_showall=0, isochron=0, offset_age=(0., 0.))


def pick(rng, L):
    return L[int(rng.integers(0, len(L)))]


class File:
    pass


def make_file(rng, i, lo, hi, fmts=('diam', 'scc'), per=None, steep=None, sparse=False, frac=True):
    """crater count file with populations inside [lo,hi]"""
    F = File()
    n = int(rng.integers(3, 12)) if sparse else int(rng.integers(8, 90))
    dmin = 10 ** rng.uniform(np.log10(lo), max(np.log10(lo) + .05, np.log10(hi) - 1.5))
    q = rng.uniform(1.8, 3.6)
    u = rng.uniform(0, 1, n)
    F.d = gen.off_edges(np.clip(dmin * (1 - u * (1 - (min(hi, dmin * 40) / dmin) ** -q)) ** (-1 / q), lo, hi), 1e-6)
    if len(np.unique(F.d)) < 3:
        raise Skip
    F.f = gen.fractions(rng, n) if frac and rng.random() < .4 else np.ones(n)
    F.area = gen.area(rng)
    F.per = gen.area(rng) if (rng.random() < .4 if per is None else per) else None
    F.fmt = pick(rng, fmts)
    F.stem = pick(rng, ['', 'unit ', 'Area-', 'x.y_']) + f'{"abcdefgh"[i]}{int(rng.integers(1, 99))}'
    F.path = F.stem + '.' + F.fmt
    ones = np.all(F.f == 1)
    if F.fmt == 'diam':
        gen.write(F.path, gen.diam_text(rng, F.d, None if ones else F.f, F.area, F.per))
    else:
        gen.write(F.path, gen.scc_text(rng, F.d, None if ones else F.f, F.area, F.per))
    return F


def effective(given, pres):
    out = []
    for g in given:
        e = dict(DEFAULT)
        e['type'] = 'poisson' if pres == 'sequence' else 'data'
        if out:
            for k in CARRY:
                e[k] = out[-1][k]
            if 'source' not in g:
                e['type'] = out[-1]['type']
        e.update(g)
        out.append(e)
    return out


def text(rng, g, files, abbreviate=True):
    """-p argument(s) for given keys"""
    parts = []
    for k in [list(g)[i] for i in rng.permutation(len(g))]:
        v = g[k]
        kk = k
        if abbreviate and rng.random() < .25:
            kk = dict(source='src', colour='col', binning='bin', error_bars='error', isochron='iso', offset_age='offset', age_left='left', psym='psy').get(k, k)
        if k == 'colour':
            v = COLOURS[v] if isinstance(v, int) else v
        elif k == 'psym':
            v = SYMBOLS[v]
        elif k == 'type':
            v = pick(rng, TYPE_NAMES[v]) if abbreviate else v
        elif k in ('range', 'offset_age'):
            v = ','.join(str(x) for x in v)
            if rng.random() < .7:
                v = '[' + v + ']'
        parts.append(f'{kk}={v}')
    return ','.join(parts)


def limits(rng, cc_d, binning):
    """range text whose decoded interval holds craters"""
    r = rng.random()
    if r < .2:
        return ('0', 'inf')
    d = np.sort(cc_d)
    i, j = sorted(int(x) for x in rng.integers(0, len(d), 2))
    if j - i < 2:
        i, j = max(0, i - 2), min(len(d) - 1, j + 2)
    a, b = f'{d[i] * .97:.4g}', f'{d[j] * 1.03:.4g}'
    if r < .3:
        return (a, 'inf')
    if r < .4:
        return ('0', b)
    if r < .5 and binning != 'none':
        return (f'b{int(rng.integers(1, 3))}', f'b-{int(rng.integers(1, 3))}')
    return (a, b)


class Scenario:
    pass


def finish(S, rng):
    """effective settings and command arguments"""
    S.eff = effective(S.given, S.pres)
    for e in S.eff:
        e['file'] = next(x for x in S.files if x.path == e['source'])
        if e['type'] == 'b-poisson' and e['file'].per is None:
            raise Skip
    S.plot_args = []
    for g in S.given:
        S.plot_args += ['-p', text(rng, g, S.files)]
    return S


def make(rng, m, pres, n=None, ages=True, types=None, binnings=None, fmts=('diam', 'scc'), system=None, cumulative_none=False):
    S = Scenario()
    S.pres = pres
    S.sys = pick(rng, systems()) if system is None else system
    S.pf, S.cf = get_pf(m, S.sys['pf']), get_cf(m, S.sys['cf'])
    lo, hi = (float(x) for x in S.pf.range)
    lo, hi = max(lo, 1e-2) * 1.02, min(hi, 300.) / 1.02
    if not decreasing(S.sys, S.pf, [lo, hi]):
        raise Skip
    S.files = [make_file(rng, i, lo, hi, fmts) for i in range(int(rng.integers(1, 4)))]
    S.given = []
    n = int(rng.integers(1, 6)) if n is None else n
    for i in range(n):
        g = {}
        if i == 0 or rng.random() < .4:
            F = pick(rng, S.files)
            g['source'] = F.path
        prev = effective(S.given, pres)[-1] if S.given else None
        F = next(x for x in S.files if x.path == (g.get('source') or prev['source']))
        ok = [t for t in (types or ('data',) + AGES) if t != 'b-poisson' or F.per is not None]
        if 'source' in g or rng.random() < .8 or (prev and prev['type'] not in ok):
            g['type'] = pick(rng, ok)
        if 'type' not in g and 'source' in g:
            g['type'] = pick(rng, ok)
        if rng.random() < .4:
            g['binning'] = pick(rng, binnings or gen.BINNINGS[:-1])
        e = effective(S.given + [g], pres)[-1]
        if rng.random() < .5:
            g['range'] = limits(rng, F.d, e['binning'])
        if rng.random() < .25:
            g['name'] = pick(rng, ['Site', 'crater floor', 'A1, eastern', 'rim-3', 'unit (old)', 'N&S', 'é site', 'crater #7']) + f' {i}'
        for k, p in (('snap', .15), ('error_bars', .3), ('hide', .15), ('age_left', .3), ('show_age', .3), ('isochron', .3)):
            if rng.random() < p:
                g[k] = int(rng.random() < .5)
        if e['type'] == 'c-fit' and rng.random() < .3:
            g['resurf'] = 1
            if rng.random() < .4:
                g['resurf_showall'] = 1
        if rng.random() < .5:
            g['colour'] = int(rng.integers(0, len(COLOURS)))
        if rng.random() < .5:
            g['psym'] = int(rng.integers(0, len(SYMBOLS)))
        if rng.random() < .15:
            g['offset_age'] = (float(rng.integers(-9, 9)), float(rng.integers(-9, 9)) / 2)
        if not g:
            g['hide'] = 0
        S.given.append(g)
    return finish(S, rng)


def reference(m, S, e):
    """fresh count object, decoded range and age quantities of one overlay"""
    R = File()
    R.cc = m.call(cst.Cratercount, e['source'])
    R.range = [float(x) for x in m.call(R.cc.decode_range, list(e['range']), e['binning'], e['snap'])]
    return R

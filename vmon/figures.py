"""Monitors of further figures (sequence, chronology, rate, uncertainty) and of axis ranges."""
import os
import re

import numpy as np
from scipy.optimize import brentq

import craterstats as cst
from . import gen
from . import output as out
from . import scenario as sc
from .ages import C_ref, coeff, systems
from .cliutil import run
from .core import case, scratch, Skip
from .models import get_pf, get_cf, n1, defs, funcs

T_DEFAULT = {'sequence': (1e-2, 4.2), 'uncertainty': (1e-5, 4.2)}


def time_axes(fig):
    """(linear axes, logarithmic axes or None): those running backwards"""
    L = [a for a in fig.axes if a.get_xlim()[0] > a.get_xlim()[1]]
    return next((a for a in L if a.get_xscale() == 'linear'), None), next((a for a in L if a.get_xscale() == 'log'), None)


def age_limits(m, lin, log, a, b):
    """the time axes cover the requested ages without gap"""
    lo = log.get_xlim()[1] if log is not None else lin.get_xlim()[1]
    m.check(lo <= max(a, 0) * (1 + 1e-9), 'age-axis-limits', lambda: f'{lo} for {a}-{b}')
    m.check(a < 1e-30 or a >= 1 or lo > a / 10.001, 'age-axis-limits', lambda: f'{lo} for {a}-{b}')
    if log is not None:
        m.close(lin.get_xlim()[1], log.get_xlim()[0], 'age-axis-gap', rtol=1e-9)
        pl, pg = lin.get_position(), log.get_position()
        if pl.width > 1e-6:
            m.close(lin.get_xlim()[0], min(max(b, 3.), 4.5), 'age-axis-limits', rtol=1e-6)
        m.close([pl.x1, pl.y0, pl.y1], [pg.x0, pg.y0, pg.y1], 'age-axis-gap', rtol=1e-9)
    else:
        m.close(lin.get_xlim()[0], max(min(max(b, 3.), 4.5), lin.get_xlim()[1] + .1), 'age-axis-limits', rtol=1e-6)


def hpoly(c):
    """vertices of a fill_between collection"""
    return [p.vertices for p in c.get_paths()]


def epoch_shades(m, ep, shades, invert):
    """shades = [(index of epoch, colour)]: of the grade given in the definition: the higher, the further from the background"""
    import matplotlib.colors as mcol
    import re
    g = {}
    for i, c in shades:
        k = int(re.match(r'\d?', ep.formatting[1 + i])[0] or 0)
        g.setdefault(k, set()).add(mcol.to_hex(c))
    m.check(all(len(x) == 1 for x in g.values()), 'epoch-shade', lambda: f'{ep.name}: {g}')
    L = [sum(mcol.to_rgb(next(iter(g[k])))) * (1 if invert else -1) for k in sorted(g)]
    m.check(all(a < b for a, b in zip(L, L[1:])), 'epoch-shade', lambda: f'{ep.name}: {g}')
    m.event('epoch-shades', len(shades))


def initials(s):
    import re
    return ''.join(w[0] for w in re.split('[ -]', s)).lower()


@case('C20', quick=300, thorough=2500, needs=('violins', 'sequence-fits', 'sequence-names', 'sequence-ages'))
def sequence_figure(m, rng):
    import matplotlib.collections as mc
    import matplotlib.colors as mcol
    with scratch():
        S = sc.make(rng, m, 'sequence', n=int(rng.integers(1, 7)))
        if any(e['binning'] == 'none' for e in S.eff):
            raise Skip
        o, oa = out.options(rng, S)
        if '-legend' in oa:     # letters of this presentation
            i = oa.index('-legend')
            oa[i + 1] = o['legend'] = ''.join(x for x in rng.permutation(list('AacrNf')) if rng.random() < .55) or '0'
        o['halo'] = o['halo'] if '-text_halo' in oa else False
        xr = T_DEFAULT['sequence']
        if rng.random() < .4:
            a = float(sc.pick(rng, [0., 1e-3, .05, .5, 1., 2., 3.2]))
            b = float(sc.pick(rng, [x for x in (1., 3.3, 3.8, 4., 4.4) if x > a]))
            xr = (a, b)
            L = [f'{b:g}', f'{a:g}']
            oa += ['-xrange'] + (L if rng.random() < .6 else L[::-1])
        args = ['-cs', S.sys['name'], '-pr', 'sequence', '-f', 'svg', '-o', 't'] + oa + S.plot_args
        m.note(args=args, data=[(F.path, F.d, F.f, F.area, F.per) for F in S.files])
        out.drawable(m, S)
        if any(e['type'] in sc.AGES and (np.asarray(e['age'].t).min() < 1e-8 or np.asarray(e['age'].t).max() > 4.95) for e in S.eff):
            raise Skip      # at the limits of the ages considered
        rec = m.call(run, args, catch=())
        m.check([x[0] for x in rec.save] == ['t.svg'], 'figure-files', lambda: f'{[x[0] for x in rec.save]}')
        fig = rec.save[0][2]
        lin, log = time_axes(fig)
        m.check(lin is not None, 'time-axis', '')
        age_limits(m, lin, log, *xr)
        shown = [e for e in S.eff if e['type'] in sc.AGES and not e['hide']]
        n = len(shown)
        texts = [(t, t.get_text()) for a in fig.axes for t in a.texts if a not in (lin, log)]
        names = sorted([t for t in texts if t[0].get_horizontalalignment() == 'right'], key=lambda t: -t[0].get_position()[1])
        lab = sorted([t for t in texts if t[0].get_horizontalalignment() == 'left' and t[0].get_position()[0] > 1], key=lambda t: -t[0].get_position()[1])
        dy = [(n - i) / (n + 1) for i in range(n)]
        m.check(len(names) == n, 'sequence-names', lambda: f'{[t[1] for t in names]} for {n}')
        for e, y, (t, s) in zip(shown, dy, names):
            m.check(s == (e['name'] or e['file'].stem), 'sequence-names', lambda: f'{s!r} expected {e["name"] or e["file"].stem!r}')
            m.check(t.get_position()[0] < 0 and abs(t.get_position()[1] - y) < 1e-6, 'sequence-rows', lambda: f'{t.get_position()} expected {y}')
            m.event('sequence-names')
        want = [x for x in 'AacrN' if x in o['legend']]
        m.check(len(lab) == (n if want else 0), 'sequence-labels', lambda: f'{[t[1] for t in lab]} for {n} with {want}')
        for e, y, (t, s) in zip(shown, dy, lab):
            m.check(abs(t.get_position()[1] - y) < 1e-6, 'sequence-rows', lambda: f'{t.get_position()} expected {y}')
            L = s.split('\n')
            m.check(len(L) == len(want), 'sequence-labels', lambda: f'{L} expected {want}')
            for k, q in zip(want, L):
                if k == 'A':
                    out.check_age(m, q, [float(x) for x in e['age'].t], o['sf'], o['mu'], 'sequence label')
                    m.event('sequence-ages')
                else:
                    out.check_legend_item(m, S, o, e, {'a': 'area', 'c': 'count', 'r': 'range', 'N': 'N'}[k], None, q)
        # age distributions and intervals of each row on each axis
        ep = o['ep'] and m.call(cst.Epochs, funcs(), o['ep'], S.pf, S.cf)
        for ax in [x for x in (lin, log) if x is not None]:
            cols = [c for c in ax.collections if isinstance(c, mc.PolyCollection)]
            rest = list(cols)

            def take(test):
                i = next((i for i, c in enumerate(rest) if test(c)), None)
                return None if i is None else rest.pop(i)
            for e, y in zip(shown, dy):
                w0 = .5 / (n + 1)
                t = np.asarray(e['age'].t, float)
                if e['type'] in ('poisson', 'b-poisson'):
                    pdf = e['age'].pdf
                    ts, pp, cdf = (np.asarray(x, float) for x in (pdf.ts, pdf.pdf, pdf.cdf))
                    peak = pp.max()
                    for k, (c0, c1) in enumerate([(.0001, .9999), (.16, .84)]):
                        def fits(c):
                            v = np.concatenate(hpoly(c)) if hpoly(c) else np.zeros((0, 2))
                            if len(v) < 3:
                                return False
                            h = np.abs(v[:, 1] - y)
                            f = np.interp(v[:, 0], ts, pp) / peak
                            q = [v[:, 0].min(), v[:, 0].max()]
                            i = [np.interp(x, ts, np.arange(len(ts))) - np.interp(w, cdf, np.arange(len(ts))) for x, w in zip(q, (c0, c1))]
                            return (np.all(h < w0 * 1.001) and np.all(np.abs(h - .9 * w0 * f) < .02 * w0) and np.all(np.abs(i) < 4)
                                    and (v[:, 1] > y).any() and (v[:, 1] < y).any())
                        c = take(fits)
                        m.check(c is not None, 'violin', lambda: f'no outline {c0}-{c1} at {y} ({e["type"]}, ages {t}) among {len(cols)}')
                        m.check(mcol.to_hex(c.get_edgecolor()[0]) == out.colour(e, o), 'violin-colour', lambda: f'{c.get_edgecolor()} expected {out.colour(e, o)}')
                    step = lambda x: np.interp(x, ts, np.arange(len(ts)))
                    c = take(lambda c: len(hpoly(c)) == 0 or np.all(np.abs(np.concatenate(hpoly(c))[:, 1] - y) <= w0) and np.ptp(np.concatenate(hpoly(c))[:, 0]) < 1e-2 * t[0])
                    if c is not None and hpoly(c):
                        v = np.concatenate(hpoly(c))[:, 0]
                        m.check(abs(step(v.mean()) - step(t[0])) < 4, 'violin-median', lambda: f'marked at {v} for {t}')
                        m.event('violin-medians')
                    m.event('violins')
                else:
                    def fits(c):
                        v = np.concatenate(hpoly(c) or [np.full((1, 2), np.nan)])
                        return np.all(np.abs(v[:, 1] - y) < w0) and abs(v[:, 0].min() - t[1]) < 1e-6 * t[0] and abs(v[:, 0].max() - t[2]) < 1e-6 * t[0]
                    c = take(fits)
                    m.check(c is not None, 'sequence-fit', lambda: f'no interval {t} at {y}')
                    m.check(mcol.to_hex(c.get_edgecolor()[0]) == out.colour(e, o), 'violin-colour', '')
                    ln = [x for x in ax.get_lines() if np.all(np.abs(np.asarray(x.get_ydata(), float) - y) < w0) and np.allclose(x.get_xdata(), t[0], rtol=1e-9)]
                    m.check(len(ln) >= 1, 'sequence-fit', lambda: f'no line at the age {t[0]}')
                    m.event('sequence-fits')
            if ep:
                sh = []
                for i, (a, b) in enumerate(zip(ep.time[1:], ep.time[2:])):
                    def fits(c):
                        v = np.concatenate(hpoly(c) or [np.full((1, 2), np.nan)])
                        return abs(v[:, 0].min() - a) < 1e-9 and abs(v[:, 0].max() - b) < 1e-9 and v[:, 1].min() == 0 and v[:, 1].max() == 1
                    c = take(fits)
                    m.check(c is not None, 'sequence-epoch', lambda: f'no region {a}-{b}')
                    sh.append((i + 1, c.get_facecolor()[0]))
                    m.event('sequence-epochs')
                epoch_shades(m, ep, sh, o['invert'])
                lim = sorted(ax.get_xlim())
                lim[0] = max(lim[0], 1e-9)
                seen = []
                for t in ax.texts:
                    x = float(t.get_position()[0])
                    if lim[0] < x < lim[1] * (1 - 1e-9) and t.get_text():
                        i = [i for i, (a, b) in enumerate(zip(ep.time, list(ep.time[1:]) + [np.inf])) if a <= x <= b and initials(ep.epoch[i]) == t.get_text().lower()]
                        m.check(len(i) == 1, 'sequence-epoch-name', lambda: f'{t.get_text()} at {x} of {list(zip(ep.time, ep.epoch))}')
                        seen += i
                        m.event('sequence-epoch-names')
                inside = [i for i, (a, b) in enumerate(zip(ep.time, list(ep.time[1:]) + [9.])) if lim[0] < a and b < lim[1]]
                m.check(len(set(seen)) == len(seen) and set(inside) <= set(seen), 'sequence-epoch-name', lambda: f'{seen} named, {inside} within {lim}')
            m.check(not [c for c in rest if len(hpoly(c))], 'sequence-invented', lambda: f'{len(rest)} areas not expected')
        flab = [s for _, s in texts if 'CF: ' in s]
        m.check(len(flab) == ('f' in o['legend']), 'function-legend', lambda: f'{flab}')
        if flab:
            want = (['Epochs: ' + o['ep']] if o['ep'] else []) + ['PF: ' + S.sys['pf'], 'CF: ' + S.sys['cf']]
            m.check(flab[0].split('\n') == want, 'function-legend', lambda: f'{flab} expected {want}')
    m.sig(S.sys['name'], [(e['type'], e['binning'], e['hide']) for e in S.eff], o['legend'], xr)
    m.sample(dict(args=args, names=[s for _, s in names], labels=[s for _, s in lab]))


@case('C20', quick=150, thorough=1000, needs=('chronology-curves', 'rate-curves'))
def time_function_figure(m, rng):
    """chronology and rate plots"""
    S = sc.File()
    S.sys = sc.pick(rng, systems())
    S.pf, S.cf = get_pf(m, S.sys['pf']), get_cf(m, S.sys['cf'])
    S.pres = sc.pick(rng, ['chronology', 'rate'])
    phi = S.pres == 'rate'
    o, oa = out.options(rng, S)
    for k in ('-isochrons', '-ef'):
        if k in oa:
            i = oa.index(k)
            del oa[i:i + 2]
    lo, hi = (float(x) for x in S.pf.range)
    if not lo <= o['ref_d'] <= hi or not lo <= 1. <= hi:
        raise Skip
    xr, yr = (4.5, 0), (-6, 3 if phi else 2)
    if rng.random() < .3:
        xr = (float(rng.integers(3, 5)), float(rng.integers(0, 3)))
        oa += ['-xrange', f'{xr[0]:g}', f'{xr[1]:g}']
    with scratch():
        args = ['-cs', S.sys['name'], '-pr', S.pres, '-f', 'svg', '-o', 't'] + oa
        m.note(args=args)
        rec = m.call(run, args, catch=())
        m.check([x[0] for x in rec.save] == ['t.svg'], 'figure-files', lambda: f'{[x[0] for x in rec.save]}')
    ax = rec.save[0][2].axes[0]
    m.close(ax.get_xlim(), xr, 'x-range-respected', rtol=1e-9)
    m.close(np.log10(ax.get_ylim()), yr, 'y-range-respected', rtol=1e-9, atol=1e-9)
    c = coeff(S.sys)
    h = 1e-5
    N = S.pf.evaluate('cumulative', [o['ref_d'], 1.])
    lines = [ln for ln in ax.get_lines() if len(ln.get_xdata()) > 300]
    m.check(len(lines) == (2 if o['ref_d'] != 1 else 1), 'time-curves', lambda: f'{len(lines)} curves for reference diameter {o["ref_d"]}')
    for ln, f in zip(lines, [float(N[0] / N[1]), 1.]):
        t, y = (np.asarray(v, float) for v in ln.get_data())
        s = (t > 1e-4) & (t < 4.99)
        w = np.array([(n1(c, x + h * x) - n1(c, x - h * x)) / (2 * h * x) if phi else n1(c, x) for x in t[s]]) * f
        m.close(y[s], w, 'time-curve-values', rtol=2e-3 if phi else 1e-6, msg=f'{S.pres} x{f}')
        m.check(t.min() < .01 and t.max() > 4.5, 'time-curve-extent', lambda: f'{t.min()}-{t.max()}')
        m.event(S.pres + '-curves')
    lg = [t.get_text() for t in ax.get_legend().get_texts()]
    m.check(sorted(lg) == sorted([] if o['ref_d'] == 1 else [f'N(>{o["ref_d"]:g} km)', 'N(>1 km)']), 'time-legend', lambda: f'{lg} ref {o["ref_d"]}')
    lab = f'N(>{o["ref_d"]:g} km), km$^{{-2}}$'
    m.check(lab in ax.get_ylabel() and ('Ga$^{-1}$' in ax.get_ylabel()) == phi and ('formation rate' in ax.get_ylabel()) == phi, 'y-label', lambda: ax.get_ylabel())
    m.check(ax.get_xlabel() == 'Age, Ga', 'x-label', ax.get_xlabel())
    m.check(ax.get_title() == ('' if not o['title'] else o['title'].replace('|', '\n')), 'title', lambda: repr(ax.get_title()))
    T = [t.get_text() for t in ax.texts]
    flab = [s for s in T if 'CF: ' in s]
    m.check(len(flab) == ('f' in o['legend']), 'function-legend', lambda: f'{T}')
    if flab:
        want = (['Epochs: ' + o['ep']] if o['ep'] else []) + (['PF: ' + S.sys['pf']] if o['ep'] or o['ref_d'] != 1 else []) + ['CF: ' + S.sys['cf']]
        m.check(flab[0].split('\n') == want, 'function-legend', lambda: f'{flab} expected {want}')
    o['halo'] = o['halo'] if '-text_halo' in oa else False
    out.halo(m, ax, o)
    if o['ep']:
        ep = m.call(cst.Epochs, funcs(), o['ep'], S.pf, S.cf)
        for i, t in enumerate(ep.time[1:]):
            v = [ln for ln in ax.get_lines() if np.allclose(ln.get_xdata(), t, rtol=1e-9) and len(ln.get_xdata()) == 2]
            w = (n1(c, t * (1 + h)) - n1(c, t * (1 - h))) / (2 * h * t) if phi else n1(c, t)
            m.check(any(abs(np.max(ln.get_ydata()) / w - 1) < 5e-3 for ln in v), 'epoch-line', lambda: f'epoch boundary at {t}: {[ln.get_data() for ln in v]} expected {w}')
            m.event('epoch-lines')
            q = [x for x in ax.texts if x.get_text().strip() == f'{t:.3g}']
            m.check(any(abs(x.xy[0] - t) < 1e-9 for x in q if hasattr(x, 'xy')), 'epoch-time', lambda: f'{t} not among {T}')
        for e in ep.epoch:
            m.check(any(s == e for s in T), 'epoch-name', lambda: f'{e!r} not in {T}')
        x = [float(next(q for q in ax.texts if q.get_text() == e).get_position()[0]) for e in ep.epoch]
        # beside the middle of the epoch, unless the youngest or oldest
        m.check(all(a - .06 <= p <= b + .06 or p > xr[0] for p, a, b in zip(x, ep.time, list(ep.time[1:]) + [9.])), 'epoch-name-position', lambda: f'{x} for {ep.time}')
        sh = []
        for i, (a, b) in enumerate(zip(ep.time[1:], ep.time[2:])):
            for k in ax.collections:
                v = np.concatenate(hpoly(k) or [np.full((1, 2), np.nan)])
                if abs(v[:, 0].min() - a) < 1e-9 and abs(v[:, 0].max() - b) < 1e-9:
                    sh.append((i + 1, k.get_facecolor()[0]))
                    break
            else:
                m.check(False, 'epoch-region', f'{a}-{b} not filled')
        epoch_shades(m, ep, sh, o['invert'])
    m.sig(S.sys['name'], S.pres, o['ref_d'], o['ep'], o['legend'], xr)
    m.sample(dict(args=args, legend=lg, texts=T))


AREA = {'Moon': 3.79e7, 'Mars': 1.44e8, 'Mercury': 7.48e7}


@case('C20', quick=60, thorough=500, needs=('uncertainty-images', 'saturation-limits', 'globe-limits', 'colour-bars'))
def uncertainty_figure(m, rng):
    s = sc.pick(rng, systems())
    pf = get_pf(m, s['pf'])
    if 'coefficients' not in next(x for x in defs()['production'] if x['name'] == s['pf']):
        raise Skip
    c = coeff(s)
    lo, hi = (float(x) for x in pf.range)
    dmin = float(f'{10 ** rng.uniform(np.log10(lo), np.log10(min(hi, 100.)) - .3):.3g}')
    if dmin < lo:
        raise Skip
    ef = sc.pick(rng, defs()['equilibrium'])['name'] if rng.random() < .7 else None
    a = float(10 ** rng.uniform(-5, -1)) if rng.random() < .7 else float(rng.uniform(0, 2.5))
    b = float(rng.uniform(max(a + .2, 2), 4.5))
    y = (float(rng.integers(-2, 4)), float(rng.integers(7, 10)))
    seed = int(rng.integers(0, 2 ** 31))
    args = ['-pr', 'uncertainty', '-cs', s['name'], '-d_min', f'{dmin:g}', '-ns', str(int(rng.integers(6, 11))), '-xrange', repr(b), repr(a),
            '-yrange', f'{y[0]:g}', f'{y[1]:g}', '-f', 'svg', '-o', 't'] + (['-ef', ef] if ef else []) + (['-pd', '10x6'] if rng.random() < .3 else [])
    m.note(args=args, seed=seed)
    grid = []
    orig = cst.Craterplotset.compute_age_area

    def compute(self, *q, **k):
        r = orig(self, *q, **k)
        grid.append(r)
        return r
    cst.Craterplotset.compute_age_area = compute
    try:
        np.random.seed(seed)
        with scratch():
            rec = m.call(run, args, catch=())
    finally:
        cst.Craterplotset.compute_age_area = orig
    m.check([x[0] for x in rec.save] == ['t_k.svg', 't_err.svg', 't_age.svg'], 'figure-files', lambda: f'{[x[0] for x in rec.save]}')
    m.check(len(grid) == 1, 'grid-computations', len(grid))
    g = {k: np.asarray(grid[0][k], float) for k in ('zz', 'kk', 'ee')}
    T = None
    if ef:
        E = get_pf(m, ef, eq=True)
        try:
            n = float(E.evaluate('cumulative', dmin))
            p = pf.evaluate('cumulative', [dmin, 1.])
            x = n * float(p[1] / p[0])
            if n1(c, 4.99) > x > n1(c, 1e-8):
                T = brentq(lambda t: n1(c, t) - x, 1e-9, 5)
        except ValueError:
            pass
    for fn, _, fig in rec.save:
        im = next((i for ax in fig.axes for i in ax.images), None)
        m.check(im is not None, 'uncertainty-image', fn)
        ax = im.axes
        A = np.ma.filled(im.get_array(), np.nan)[:, ::-1].T        # [age index, area index]
        m.check(A.shape == g['kk'].shape and im.origin == 'lower', 'uncertainty-image-shape', lambda: f'{A.shape}')
        if fn == 't_k.svg':
            m.close(A, np.clip(g['kk'], 0, 8), 'uncertainty-image', rtol=1e-9)
        elif fn == 't_err.svg':
            m.close(A, g['zz'] * 100, 'uncertainty-image', rtol=1e-9)
        else:
            w = np.log10(g['ee'])
            w = np.where(np.abs(w) < np.log10(5) - 1e-9, w, np.nan)
            m.close(A, w, 'uncertainty-image', rtol=1e-9, atol=1e-9)
        m.event('uncertainty-images')
        # colour bar: labels at the colours of their values, and the diameter limit
        bar = im.colorbar.ax
        L = [(float(p), t.get_text().replace('\N{MINUS SIGN}', '-')) for p, t in zip(bar.get_yticks(), bar.get_yticklabels()) if t.get_text()]
        if fn == 't_k.svg':
            m.check([t for _, t in L] == [*'0123456', '7+'], 'colour-bar', lambda: f'{L}')
            for v in range(9):
                m.check(im.cmap(im.norm(v)) == im.cmap(im.norm(L[min(v, 7)][0])), 'colour-bar', lambda: f'{v} craters are not shown in the colour labelled {L[min(v, 7)]}')
        elif fn == 't_age.svg':
            m.check(len(L) > 4, 'colour-bar', lambda: f'{L}')
            for p, t in L:
                m.check(abs(float(t) / 10 ** p - 1) < .03, 'colour-bar', lambda: f'ratio {10 ** p} labelled {t}')
        lbl = bar.get_ylabel() or bar.get_xlabel()
        q = re.search(r'>\s*([0-9.e+-]+)\s*\$?\s*(k?m)\b', lbl)
        m.check(q is not None, 'colour-bar-title', lambda: lbl)
        m.close(float(q[1]) * (1 if q[2] == 'km' else 1e-3), dmin, 'colour-bar-title', rtol=6e-3, msg=lbl)
        m.event('colour-bars')
        lin, log = time_axes(fig)
        age_limits(m, lin, log, a, b)
        m.close(np.log10(lin.get_ylim()), y, 'y-range-respected', rtol=1e-9, atol=1e-9)
        inv = fig.transFigure.inverted()

        def place(t):
            q = lin if log is None or t >= log.get_xlim()[0] else log
            return ax.transAxes.inverted().transform(q.transData.transform((t, 10 ** y[0])))[0]
        txt = {t.get_text(): t for t in ax.texts}
        body = s['body'] if 'body' in s else ''
        area = AREA.get(body)
        if area:
            ye = (np.log10(area) - y[0]) / (y[1] - y[0])
            if 0 < ye < .98:
                m.check('whole globe' in txt, 'globe-limit', lambda: f'{list(txt)} for {body}')
                m.close(txt['whole globe'].get_position()[1], ye, 'globe-limit', rtol=1e-6)
                m.event('globe-limits')
        else:
            m.check('whole globe' not in txt, 'globe-limit', lambda: f'{list(txt)} for {body}')
        if T is not None:
            xe = place(T)
            if .03 < xe < .97 and (log is None) == (log is None):
                m.check('saturation' in txt, 'saturation-limit', lambda: f'{list(txt)}: {T} Ga at {xe}')
                m.close(txt['saturation'].get_position()[0], xe, 'saturation-limit', rtol=0, atol=2e-3, msg=f'T={T}')
                poly = [q for q in ax.patches if len(q.get_xy()) > 3 and q.get_alpha()] if ax.patches else []
                m.check(any(abs(np.max(q.get_xy()[:, 0]) - xe) < 2e-3 or np.any(np.abs(q.get_xy()[:, 0] - xe) < 2e-3) for q in poly), 'saturation-area', lambda: f'{[q.get_xy() for q in poly]}')
                m.event('saturation-limits')
            elif xe < -.01 or xe > 1.01:
                m.check('saturation' not in txt, 'saturation-limit', lambda: f'{T} Ga at {xe}')
        elif not ef:
            m.check('saturation' not in txt, 'saturation-limit', '')
    m.sig(s['name'], dmin, ef, a, b, y)
    m.sample(dict(args=args, T=T))


# ======================================================================================== C21
def decades(lo, hi):
    return int(round(hi - lo))


def points(m, S, e, pres):
    """data values of one overplot in a presentation"""
    return m.call(e['R'].cc.getplotdata, pres, e['binning'], range=list(e['R'].range), resurfacing=1 if e['resurf'] and e['type'] == 'c-fit' else 0,
                  showall=e['resurf_showall'], pf=S.pf)


def frame_size(m, fig, ax, pd, xl, yl, pres, pt):
    """plotting area and page in cm"""
    w, h = np.asarray(fig.get_size_inches()) * 2.54
    b = ax.get_position()
    bw, bh = b.width * w, b.height * h
    nx, ny = max(xl[1] - xl[0], 1), max(yl[1] - yl[0], 1)
    g = .2 * pt
    m.close([b.x0 * w, b.y0 * h], [g, g], 'page-margin', rtol=1e-6)
    m.close(w - bw, 2 * g, 'page-margin', rtol=1e-6)
    m.check(h - bh > 1.9 * g, 'page-margin', lambda: f'{h} {bh}')
    if pres != 'Hartmann':
        m.close(bh / ny * (2 if pres == 'differential' else 1), bw / nx, 'decade-scale', rtol=1e-6, msg='scale of y to x')
    if 'x' in pd:
        A, B = (float(v) for v in pd.split('x'))
        m.check(bw <= A * (1 + 1e-6), 'plot-exceeds-box', lambda: f'{bw} x {bh} cm for {pd}')
        if pres != 'Hartmann':
            m.check(bh <= B * (1 + 1e-6), 'plot-exceeds-box', lambda: f'{bw} x {bh} cm for {pd}')
            m.check(abs(bw - A) < 1e-6 * A or abs(bh - B) < 1e-6 * B, 'plot-smaller-than-box', lambda: f'{bw} x {bh} cm for {pd}')
        else:
            m.close(bw, A, 'plot-smaller-than-box', rtol=1e-6)
        m.event('sized-box')
    else:
        m.close(bw / nx, float(pd), 'cm-per-decade', rtol=1e-6)
        m.event('sized-decade')


def tick_values(m, fig, ax, style, pres, xl):
    """tick labels state the diameter at their positions; minor ticks share the axis"""
    L = [(float(p), t.get_text().replace('$\\,$', ' ').strip()) for p, t in zip(ax.get_xticks(), ax.get_xticklabels())]
    if style == 'natural' and pres != 'Hartmann':
        m.check([p for p, _ in L] == [float(v) for v in range(int(np.ceil(xl[0])), int(np.floor(xl[1])) + 1)], 'tick-positions', lambda: f'{L} on {xl}')
        for p, s in L:
            v, u = s.split()
            m.close(float(v) * {'km': 1., 'm': 1e-3}[u], 10 ** p, 'tick-label', rtol=1e-6, msg=s)
        tw = [a for a in fig.axes if a is not ax and a.get_xscale() == 'log']
        m.check(len(tw) == 1, 'minor-tick-axis', len(tw))
        m.close(np.log10(tw[0].get_xlim()), xl, 'minor-tick-axis', rtol=1e-9, atol=1e-9)
        m.close(np.ravel(tw[0].get_position()), np.ravel(ax.get_position()), 'minor-tick-axis', rtol=1e-9)
    else:
        unit = None
        for p, s in L:
            m.close(2. ** round(p / np.log10(2)), 10 ** p, 'tick-positions', rtol=1e-9)
            q = s.rstrip('km')
            unit = s[len(q):] or unit or ('m' if p < 0 else 'km')
            m.check(unit in ('m', 'km'), 'tick-label', lambda: f'{L}')
            m.check(abs(float(q) * (1e-3 if unit == 'm' else 1) / 10 ** p - 1) < .03, 'tick-label', lambda: f'{s} ({unit}) at {10 ** p}: {L}')
        want = [v for v in (np.log10(2. ** i) for i in range(-10, 11)) if xl[0] <= v <= xl[1]]
        m.close([p for p, _ in L], want, 'tick-positions', rtol=1e-9, atol=1e-9)
    m.event('ticks', len(L))


@case('C21', quick=750, thorough=6000, needs=('boxed', 'hidden-only-excess', 'overplot-without-range', 'sized-box', 'sized-decade', 'ticks', 'bin-labels', 'Hartmann', 'square-x', 'square-y'))
def axis_ranges(m, rng):
    pres = sc.pick(rng, out.SFD)
    with scratch():
        S = sc.make(rng, m, pres, binnings=gen.BINNINGS if rng.random() < .2 else None)
        i = int(rng.integers(0, len(S.eff)))
        if S.eff[i]['type'] == 'data' and rng.random() < .3:    # nothing in range
            S.given[i]['range'] = sc.pick(rng, [('4000', '5000'), ('1e-5', '2e-5'), ('2000', 'inf')])
            sc.finish(S, rng)
        args = ['-cs', S.sys['name'], '-pr', pres, '-f', 'svg', '-o', 't']
        pd = '7.5x7.5'
        if rng.random() < .5:
            pd = sc.pick(rng, [f'{rng.uniform(1, 4):.2f}', f'{rng.uniform(4, 20):.1f}x{rng.uniform(4, 20):.1f}', '12x6', '2'])
            args += ['-pd', pd]
        pt = 9.
        if rng.random() < .3:
            pt = float(sc.pick(rng, [7., 11., 14.]))
            args += ['-pt_size', f'{pt:g}']
        style = sc.pick(rng, ['natural', 'natural', 'root-2'])
        if style != 'natural':
            args += ['-style', style]
        xr = yr = None
        if rng.random() < .25:
            x0 = int(rng.integers(-3, 1))
            xr = (x0, x0 + float(rng.integers(2, 6)) - (.5 if rng.random() < .2 else 0))
            args += ['-xrange', *[f'{v:g}' for v in xr]]
        if rng.random() < .25:
            y0 = int(rng.integers(-9, 1))
            yr = (y0, y0 + int(rng.integers(2, 10)))
            args += ['-yrange', *[str(v) for v in yr]]
        bins = rng.random() < .25
        if bins:
            args.append(sc.pick(rng, ['-b', '--bins']))
        args += S.plot_args
        m.note(args=args, data=[(F.path, F.d, F.f, F.area, F.per) for F in S.files])
        if any(e['binning'] == 'none' and e['type'] in sc.AGES for e in S.eff):
            raise Skip
        out.drawable(m, S)
        rec = m.call(run, args, catch=())
        m.check([x[0] for x in rec.save] == ['t.svg'], 'figure-files', lambda: f'{[x[0] for x in rec.save]}')
        fig = rec.save[0][2]
        ax = fig.axes[0]
        xl, yl = np.asarray(ax.get_xlim(), float), np.log10(ax.get_ylim())
        if pres == 'Hartmann':
            h = next(x for x in defs()['production'] if x['name'] == S.sys['pf'])
            wx = [float(v) for v in (h['xrange'] if 'xrange' in h else (-3.15, 2.56))]
            if 'index_1km' in h:
                wx = np.array([-int(h['index_1km']), len(h['H']) - int(h['index_1km'])]) * np.log10(2) / 2
            wy = [float(v) for v in (h['yrange'] if 'yrange' in h else (-8, 5))]
            m.close(xl, wx, 'standard-range', rtol=1e-9)
            m.close(yl, wy, 'standard-range', rtol=1e-9, atol=1e-9)
            m.event('Hartmann')
        else:
            P = [(e, points(m, S, e, pres)) for e in S.eff if not (e['binning'] == 'none' and pres != 'cumulative')]
            P = [(e, np.log10(p['d']), np.log10(p['y'])) for e, p in P if len(p['d'])]
            vis = [(x, y) for e, x, y in P if not e['hide']]
            if any(not np.all(np.isfinite(y)) for _, _, y in P):
                raise Skip
            my = .6 if pres == 'differential' else .3
            if xr:
                m.close(xl, xr, 'x-range-respected', rtol=1e-9)
            if yr:
                m.close(yl, yr, 'y-range-respected', rtol=1e-9, atol=1e-9)
            if len(P) < len(S.eff):
                m.event('overplot-without-range')
            if P:
                e9 = 1e-9
                ax0, ax1 = min(x.min() for _, x, _ in P), max(x.max() for _, x, _ in P)
                ay0, ay1 = min(y.min() for _, _, y in P), max(y.max() for _, _, y in P)
                bx = np.floor(ax0 - .3 + e9), np.ceil(ax1 + .8 - e9)
                by = np.floor(ay0 - my + e9), np.ceil(ay1 + my - e9)
                nx, ny = decades(*bx), decades(*by)
                if vis and not xr:
                    lo, hi = min(x.min() for x, _ in vis), max(x.max() for x, _ in vis)
                    m.check(xl[0] <= lo - .3 + e9 and xl[1] >= hi + .8 - e9, 'data-outside-x', lambda: f'axis {xl}, visible data {lo}-{hi}')
                if vis and not yr:
                    lo, hi = min(y.min() for _, y in vis), max(y.max() for _, y in vis)
                    m.check(yl[0] <= lo - my + e9 and yl[1] >= hi + my - e9, 'data-outside-y', lambda: f'axis {yl}, visible data {lo}-{hi}')
                near = any(abs(v - round(v)) < 1e-6 for v in (ax0 - .3, ax1 + .8, ay0 - my, ay1 + my))
                full = 2 if pres == 'differential' else 1
                if not near:
                    need = max(nx, -(-ny // full))      # x decades of the smallest frame holding everything
                    # decades
                    if not xr:
                        m.close(xl, np.round(xl), 'whole-decades', rtol=0, atol=1e-9)
                        m.check(decades(*xl) <= need, 'range-too-large', lambda: f'x axis {xl}: {need} decades needed for {bx} {by}')
                        m.check(decades(*xl) == need, 'decades-unequal', lambda: f'{xl} for {bx} {by}')
                        pad = np.array([bx[0] - xl[0], xl[1] - bx[1]])
                        if len(P) == len(vis):
                            m.check(pad.min() >= -e9 and abs(pad[0] - pad[1]) < 1.5, 'padding-unbalanced', lambda: f'{xl} for {bx}')
                    if not yr:
                        m.close(yl, np.round(yl), 'whole-decades', rtol=0, atol=1e-9)
                        m.check(decades(*yl) == need * full, 'decades-unequal', lambda: f'{yl} for {bx} {by}')
                        pad = np.array([by[0] - yl[0], yl[1] - by[1]])
                        if len(P) == len(vis):
                            m.check(pad.min() >= -e9 and abs(pad[0] - pad[1]) < 1.5, 'padding-unbalanced', lambda: f'{yl} for {by}')
                    m.event('square-x' if nx > -(-ny // full) else 'square-y' if nx < -(-ny // full) else 'square')
                m.event('boxed')
                if len(P) > len(vis):
                    m.event('hidden-only-excess')
            elif not xr and not yr:
                m.close(xl, {'cumulative': (-3, 2), 'differential': (-3, 2), 'R-plot': (-2, 3)}[pres], 'default-range', rtol=1e-9)
                m.close(yl, {'cumulative': (-4, 1), 'differential': (-5, 5), 'R-plot': (-4, 1)}[pres], 'default-range', rtol=1e-9, atol=1e-9)
                m.event('nothing-to-show')
        L = sorted((t.get_position()[0], t.get_text().strip()) for t in ax.texts if t.get_rotation() == 90 and t.get_transform() != ax.transAxes)
        e = next((e for e in S.eff if e['type'] == 'data'), None)
        if bins and e and e['binning'] != 'none':
            b = gen.series(e['binning'], *(10. ** xl))
            near = np.any(np.abs(np.log10(b)[:, None] - xl) < 1e-6)
            b = b[(np.log10(b) > xl[0] + 1e-6) & (np.log10(b) < xl[1] - 1e-6)]
            u = np.unique(np.round([p for p, _ in L], 9))
            if not near:
                m.close(u, np.log10(b), 'bin-labels', rtol=1e-8, atol=1e-8)
            for p, t in L:
                q = 10 ** (p - np.floor(p + 1e-9))
                m.check(abs(float(t) - q) <= .0501 or abs(q - 10) < .051 and float(t) == 1, 'bin-label', lambda: f'{t} at {10 ** p}')
            m.event('bin-labels', len(u))
        elif not bins:
            m.check(not L, 'bin-labels', lambda: f'{L[:5]}')
        frame_size(m, fig, ax, pd, xl, yl, pres, pt)
        tick_values(m, fig, ax, style, pres, xl)
        m.sig(S.sys['name'], pres, [float(v) for v in (*xl, *yl)], pd, xr, yr)
        m.sample(dict(args=args, x=[float(v) for v in xl], y=[float(v) for v in yl]))

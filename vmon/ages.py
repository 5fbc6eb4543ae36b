"""Monitors of ages: Poisson posteriors, buffered counts, sequence probabilities, uncertainty grids."""
import os

import numpy as np
from scipy.integrate import quad
from scipy.special import gammainc, gammaincinv, gammaln
from scipy.optimize import brentq

import craterstats as cst
import craterstats.cli
import craterstats.gm as gm
from . import gen
from .core import case, scratch, quiet, Skip
from .models import defs, get_pf, get_cf, pick, n1, C10poly, funcs

TMAX = 5.


def systems():
    return [s for s in defs()['chronology_system'] if s['name'] != "Vesta, Marchi & O'Brien (2014)"]


def coeff(s):
    return next(x for x in defs()['chronology'] if x['name'] == s['cf'])['coefficients']


class Posterior:
    """age posterior of k events of a Poisson process with expectation L(t) = L1 N(t)/N(1): in L it is Gamma(k+1) truncated at L(5 Ga)"""

    def __init__(self, c, L1, k):
        self.c, self.k, self.L1 = c, k, L1
        self.Lm = L1 * n1(c, TMAX) / n1(c, 1.)
        self.norm = gammainc(k + 1, self.Lm)

    def L(self, t):
        return self.L1 * n1(self.c, t) / n1(self.c, 1.)

    def inv(self, L):
        L = min(L, self.Lm * (1 - 1e-12))
        return brentq(lambda t: self.L(t) - L, 0., TMAX, xtol=1e-13, rtol=1e-12)

    def cdf(self, t):
        return gammainc(self.k + 1, self.L(t)) / self.norm

    def t(self, q):
        return self.inv(float(gammaincinv(self.k + 1, q * self.norm)))

    def pdf(self, t):
        c = self.c
        L = self.L(t)
        dL = self.L1 * (c[0] * c[1] * np.exp(c[1] * np.asarray(t)) + c[3]) / n1(c, 1.)
        return np.exp(self.k * np.log(L) - L - gammaln(self.k + 1)) * dL / self.norm

    @property
    def resolved(self):
        return self.norm > 1e-20


def C_ref(s, pf, d, a0):
    """cumulative density from the definition for polynomials (tabular functions: the function's own tabulated interpolation, checked by C10)"""
    e = next(x for x in defs()['production'] if x['name'] == s['pf'])
    if 'coefficients' in e:
        return 10 ** C10poly(e['coefficients'], a0, d)
    return np.asarray(pf.evaluate('cumulative', np.asarray(d, float), a0), float)


def F_ref(s, pf, d, a0):
    e = next(x for x in defs()['production'] if x['name'] == s['pf'])
    if 'coefficients' in e:
        c, x = e['coefficients'], np.log10(d)
        slope = sum(i * c[i] * x ** (i - 1) for i in range(1, len(c)))
        return -slope * 10 ** C10poly(c, a0, d) / d
    return float(pf.evaluate('differential', np.array([d]), a0)[0])


def decreasing(s, pf, r):
    """is the function decreasing (a density) everywhere within the range?"""
    z = np.geomspace(r[0], r[1], 60)
    C = C_ref(s, pf, z, 0.)
    return bool(np.all(np.diff(C) < 0))


def _check_posterior(m, pdf, ref, rng, what, rtol=.011):
    """compare an age distribution with its closed form"""
    g = [.15865525393, .5, .84134474607]
    if not ref.resolved:
        t = np.asarray(m.call(pdf.median1sigma), float)
        m.check(np.all(np.isfinite(t)) and t.min() > 4.5 and t.max() <= 5.001, 'beyond-maximum-age', lambda: f'{what}: {t}')
        m.event('beyond-maximum')
        return
    t = np.asarray(m.call(pdf.median1sigma), float)
    m.check(t.shape == (3,) and t[1] <= t[0] <= t[2] and t[1] >= 0 and t[2] <= TMAX * 1.0001, 'age-triple-order', lambda: f'{what} {t}')
    w = np.array([ref.t(q) for q in g])
    if ref.t(.002) < 1e-8:   # below the resolution in age (10 years)
        raise Skip
    m.close(t, w[[1, 0, 2]], 'age-and-uncertainty', rtol=rtol, atol=1e-9, msg=what)
    q = np.sort(rng.uniform(.002, .998, 8))
    tq = np.asarray(m.call(pdf.t, q), float)
    m.check(np.all(np.diff(tq) >= 0), 'percentiles-unordered', lambda: f'{what} {tq}')
    m.close(tq, [ref.t(x) for x in q], 'percentile', rtol=rtol * 1.3, atol=1e-9, msg=what)
    sd = (w[2] - w[0]) / 2
    if sd > .03 * w[1] and w[1] < 4.6:   # resolved by the table of ages
        cf = np.asarray(m.call(pdf.cumulative_fraction, w), float)
        m.close(cf, g, 'cumulative-fraction', rtol=0, atol=.012 * w[1] / sd + .004, msg=what)
        rp = np.asarray(m.call(pdf.relative_probability, w), float)
        m.close(rp, ref.pdf(w), 'probability-density', rtol=.02 * max(1, w[1] / sd * .3), msg=what)
        x = np.linspace(ref.t(1e-6), ref.t(1 - 1e-6), 20000)
        y = np.asarray(m.call(pdf.relative_probability, x), float)
        m.check(np.all(y >= 0), 'negative-probability', what)
        m.close(np.sum((y[1:] + y[:-1]) / 2 * np.diff(x)), 1., 'normalisation', rtol=0, atol=.04, msg=what)
        m.event('densities')
    m.close([m.call(pdf.cumulative_fraction, 0.), m.call(pdf.cumulative_fraction, 5.)], [0, 1], 'cumulative-ends', rtol=0, atol=1e-3)


def _setup(rng, m):
    s = pick(rng, systems())
    pf, cf = get_pf(m, s['pf']), get_cf(m, s['cf'])
    lo, hi = (float(x) for x in pf.range)
    for _ in range(20):
        span = float(rng.uniform(.1, 2.))
        r0 = 10 ** rng.uniform(np.log10(lo), max(np.log10(lo) + .01, np.log10(hi) - span))
        r = [r0, min(r0 * 10 ** span, hi)]
        if r[1] > r[0] * 1.05 and decreasing(s, pf, r):
            return s, pf, cf, r
    raise Skip


def _k(rng):
    return int(rng.integers(0, 12)) if rng.random() < .5 else int(10 ** rng.uniform(1, 4.5))


# ======================================================================================== C15
@case('C15', quick=4200, thorough=25000, needs=('densities', 'beyond-maximum'))
def posterior(m, rng):
    s, pf, cf, r = _setup(rng, m)
    c = coeff(s)
    k = _k(rng)
    t_true = float(rng.uniform(.01, 4.8)) if rng.random() < .6 else 10 ** rng.uniform(-5, .5)
    a1 = np.log10(n1(c, 1.))
    dens = float(C_ref(s, pf, r[0], a1) - C_ref(s, pf, r[1], a1))
    area = max(k, .7) / dens * n1(c, 1.) / n1(c, t_true)
    if rng.random() < .06:   # counts too dense for any age
        area = k / dens * n1(c, 1.) / n1(c, 5.) * 10 ** rng.uniform(-3, -.3)
    if not 1e-8 < area < 1e14:
        raise Skip
    m.note(system=s['name'], range=r, k=k, area=area, t=t_true)
    ref = Posterior(c, dens * area, k)
    cc = cst.Cratercount()
    cc.area = area
    cc.diam = [float(np.sqrt(r[0] * r[1]))] * k
    forced = rng.random() < .5 or k == 0
    pdf = m.call(cst.Craterpdf, pf, cf, cc, r, **(dict(k=k) if forced else {}))
    m.close(pdf.k, k, 'number-of-craters', rtol=0)
    _check_posterior(m, pdf, ref, rng, f'{s["name"]} k={k} A={area:.4g} r={r}')
    if rng.random() < .3:   # more craters on the same area: older; more area for the same craters: younger
        p2 = m.call(cst.Craterpdf, pf, cf, cc, r, k=k + 1 + k // 10)
        m.check(np.all(np.asarray(p2.median1sigma()) >= np.asarray(pdf.median1sigma()) * (1 - 1e-9)), 'not-older-with-more-craters', s['name'])
        cc.area = area * 1.5
        p3 = m.call(cst.Craterpdf, pf, cf, cc, r, k=k)
        m.check(np.all(np.asarray(p3.median1sigma()) <= np.asarray(pdf.median1sigma()) * (1 + 1e-9)), 'not-younger-with-more-area', s['name'])
    m.sig(s['name'], k, round(np.log10(area), 1))
    m.sample(dict(system=s['name'], k=k, area=area, range=r, age=[float(x) for x in pdf.median1sigma()]))


@case('C15', quick=400, thorough=2000, needs=('on-limit',))
def adjoining_ranges(m, rng):
    """a crater exactly on the limit between two ranges belongs to one of them"""
    s, pf, cf, r = _setup(rng, m)
    d = np.exp(rng.uniform(np.log(r[0]), np.log(r[1]), int(rng.integers(2, 40))))
    mid = float(pick(rng, list(d)))
    if rng.random() < .5:   # a boundary of bins, as ranges are usually given
        e = gen.series('pseudo-log', r[0], r[1])
        e = e[(e > r[0] * 1.01) & (e < r[1] * .99)]
        if not len(e):
            raise Skip
        mid = float(pick(rng, list(e)))
    if not r[0] * 1.001 < mid < r[1] * .999:
        raise Skip
    d = np.append(d, [mid] * int(rng.integers(1, 4)))
    m.note(system=s['name'], d=d, mid=mid, range=r)
    cc = cst.Cratercount()
    cc.area = gen.area(rng)
    cc.diam = sorted((float(x) for x in d), reverse=bool(rng.random() < .5))
    k = [int(m.call(cst.Craterpdf, pf, cf, cc, x).k) for x in ([r[0] * .999, mid], [mid, r[1] * 1.001], [r[0] * .999, r[1] * 1.001])]
    m.close(k[2], len(d), 'number-of-craters', rtol=0)
    m.close(k[0] + k[1], k[2], 'counted-once', rtol=0, msg=f'{s["name"]} limit {mid}')
    m.event('on-limit')
    m.sig('adjoining', s['name'], len(d), mid)


@case('C15', quick=1500, thorough=8000, needs=('binned-counts', 'whole-bins'))
def posterior_of_count(m, rng):
    """through the plot interface: craters read from file, range as typed"""
    s = pick(rng, systems())
    pf, cf = get_pf(m, s['pf']), get_cf(m, s['cf'])
    c = coeff(s)
    lo, hi = (float(x) for x in pf.range)
    d = gen.diameters(rng, n=int(rng.integers(3, 150)), lo=10 ** rng.uniform(np.log10(lo) - .3, np.log10(hi) - .8))
    b = str(rng.choice(gen.BINNINGS[:-1]))
    area = gen.area(rng)
    stat = rng.random() < .2
    with scratch():
        f = gen.fractions(rng, len(d)) if rng.random() < .5 else None
        gen.write('x.diam', gen.diam_text(rng, d, f, area, plain=True))
        cc = m.call(cst.Cratercount, 'x.diam')
        if stat:
            if len(gen.Ref(d, np.ones(len(d)), area, 'pseudo-log').n) < 2:
                raise Skip
            m.call(cc.WriteStatFile, 'x.stat')
            cc = m.call(cst.Cratercount, 'x.stat')
        lim = sorted(10 ** rng.uniform(np.log10(d.min()) - .2, np.log10(d.max()) + .2, 2))
        snap = int(rng.random() < .5)
        cp = m.call(cst.Craterplot, cratercount=cc, range=[f'{x:.6g}' for x in lim], type='poisson', binning=b, snap=snap)
        r = np.clip(np.array([float(x) for x in cp.range]), lo, hi)
        if r[1] <= r[0] * 1.02 or not decreasing(s, pf, r):
            raise Skip
        cps = type('S', (), dict(pf=pf, cf=cf, ref_diameter=float(pick(rng, [1., 10., .1]))))
        if stat:
            ref = gen.Ref(d, np.ones(len(d)), area, 'pseudo-log')
            eps = 1e-3
            sure = (ref.lo >= r[0] * (1 + eps)) & (ref.hi <= r[1] * (1 - eps))
            if snap and len(ref.lo) == len(cc.binned['d_min']):   # snapped limits are boundaries of the table: its bins between them are whole
                on = lambda x, e: np.any(np.abs(np.asarray(e, float) - x) <= 1e-12 * x)
                if on(r[0], cc.binned['d_min']) and on(r[1], cc.binned['d_max']):
                    mid = np.sqrt(np.asarray(cc.binned['d_min'], float) * np.asarray(cc.binned['d_max'], float))
                    sure |= (mid > r[0]) & (mid < r[1])
                    m.event('whole-bins')
            maybe = (ref.lo >= r[0] * (1 - eps)) & (ref.hi <= r[1] * (1 + eps))
            m.event('binned-counts')
            kmin, kmax = int(ref.ne[sure].sum()), int(ref.ne[maybe].sum())
        else:
            kmin = int(((d >= r[0] * (1 + 1e-9)) & (d < r[1] * (1 - 1e-9))).sum())
            kmax = int(((d >= r[0] * (1 - 1e-9)) & (d < r[1] * (1 + 1e-9))).sum())
        m.call(cp.calculate_age, cps)
        m.check(kmin <= cp.n <= kmax and cp.n == cp.n_event, 'number-of-craters', lambda: f'{cp.n} {cp.n_event} expected {kmin}..{kmax}')
        k = int(round(float(cp.n)))
        a1 = np.log10(n1(c, 1.))
        dens = float(C_ref(s, pf, r[0], a1) - C_ref(s, pf, r[1], a1))
        m.note(system=s['name'], d=d, area=area, range=r, k=k, binning=b)
        ref = Posterior(c, dens * area, k)
        _check_posterior(m, cp.pdf, ref, rng, s['name'])
        if ref.resolved and ref.t(.999) < 4.9:
            m.close(cp.t, np.array([ref.t(q) for q in (.5, .15865525, .84134475)]), 'age-and-uncertainty', rtol=.011)
            m.close(cp.a0, np.log10(n1(c, np.asarray(cp.t))), 'a0-of-age', rtol=1e-9, atol=1e-9)
            m.close(cp.n_d, float(pf.evaluate('cumulative', cps.ref_diameter, cp.a0[0])), 'N-reference', rtol=1e-9)
    m.sig('count', s['name'], b, k, stat, snap)


# ======================================================================================== C16
def buffered_lambda(s, pf, c, area, per, r):
    a1 = np.log10(n1(c, 1.))
    f = lambda x: (area + np.exp(x) * per / 2 + np.pi * np.exp(2 * x) / 4) * F_ref(s, pf, np.exp(x), a1) * np.exp(x)
    return quad(f, np.log(r[0]), np.log(r[1]), epsrel=1e-7, limit=400)[0]


@case('C16', quick=1250, thorough=8000, needs=('densities',))
def buffered(m, rng):
    s, pf, cf, r = _setup(rng, m)
    c = coeff(s)
    k = _k(rng)
    t_true = float(rng.uniform(.01, 4.6))
    area = 10 ** rng.uniform(-4, 7)
    per = float(2 * np.sqrt(np.pi * area) * 10 ** rng.uniform(0, 2)) if rng.random() < .9 else 1e-9
    L1 = buffered_lambda(s, pf, c, area, per, r)
    sc = max(k, .7) / (L1 * n1(c, t_true) / n1(c, 1.))
    # rescale to a plausible age: the effective area is not linear in area, so only change k
    k = int(min(1e4, round(L1 * n1(c, t_true) / n1(c, 1.)))) if rng.random() < .7 else k
    m.note(system=s['name'], range=r, k=k, area=area, perimeter=per)
    tab = 'coefficients' not in next(x for x in defs()['production'] if x['name'] == s['pf'])
    with scratch():
        d = np.full(max(k, 1), np.sqrt(r[0] * r[1])) if k < 2000 else None
        if d is not None and k > 0 and rng.random() < .5:   # perimeter from file, through the plot interface
            gen.write('x.diam', gen.diam_text(rng, d, None, area, per, plain=True))
            cc = m.call(cst.Cratercount, 'x.diam')
            cp = m.call(cst.Craterplot, cratercount=cc, range=[repr(float(x)) for x in r], type='b-poisson', snap=0)
            r2 = np.clip(np.array([float(x) for x in cp.range]), *[float(x) for x in pf.range])
            cps = type('S', (), dict(pf=pf, cf=cf, ref_diameter=1.))
            m.call(cp.calculate_age, cps)
            m.close(cp.n, k, 'number-of-craters', rtol=0)
            L1 = buffered_lambda(s, pf, c, area, per, r2)
            pdf = cp.pdf
        else:
            cc = cst.Cratercount()
            cc.area, cc.perimeter, cc.diam = area, per, [1.]
            pdf = m.call(cst.Craterpdf, pf, cf, cc, r, k=k, bcc=True)
    ref = Posterior(c, L1, k)
    if not ref.resolved and ref.norm > 1e-60:
        raise Skip
    lam = float(np.interp(np.log10(n1(c, 1.)) if False else 1., np.asarray(pdf.ts), np.asarray(pdf.lam)))
    m.close(lam, L1, 'buffered-expectation', rtol=.012, msg=s['name'])
    _check_posterior(m, pdf, ref, rng, s['name'] + ' buffered', rtol=.016 if tab else .012)
    # buffering adds area: never older than the unbuffered count
    p0 = m.call(cst.Craterpdf, pf, cf, cc, r, k=k)
    m.check(p0.t(.5) >= pdf.t(.5) * (1 - (.06 if tab else .012)), 'buffered-older', lambda: f'{s["name"]} {p0.t(.5)} {pdf.t(.5)}')
    m.sig(s['name'], k, round(np.log10(area), 1), round(np.log10(per), 1))
    m.sample(dict(system=s['name'], k=k, area=area, perimeter=per, range=r, lam=lam, expected=L1))


@case('C16', quick=150, thorough=400, needs=('refused',))
def buffered_limits(m, rng):
    """tiny craters: same as standard; missing perimeter: refused"""
    s, pf, cf, r = _setup(rng, m)
    k = int(rng.integers(1, 60))
    cc = cst.Cratercount()
    cc.diam, cc.area, cc.perimeter = [1.], 1e9 * r[1] ** 2, 1e3 * r[1]
    a = m.call(cst.Craterpdf, pf, cf, cc, r, k=k, bcc=True)
    b = m.call(cst.Craterpdf, pf, cf, cc, r, k=k)
    tab = 'coefficients' not in next(x for x in defs()['production'] if x['name'] == s['pf'])
    if float(b.t(.001)) > 1e-8:
        m.close(a.median1sigma(), b.median1sigma(), 'buffered-limit', rtol=.08 if tab else 4e-3, msg=s['name'])
    cc.perimeter = None
    try:
        with quiet():
            cst.Craterpdf(pf, cf, cc, r, k=k, bcc=True)
    except SystemExit as e:
        m.check(bool(e.code) and e.code != 0, 'silent-exit', '')
        m.event('refused')
    except Exception as e:
        m.fail('crash', repr(e))
    else:
        m.fail('perimeter-not-required', '')
    m.sig('limit', s['name'], k)


# ======================================================================================== C17
def p_older(A, B):
    """probability that A is older than B (independent posteriors of one chronology)"""
    ua = np.linspace(1e-7, 1 - 1e-7, 4001)
    L = gammaincinv(A.k + 1, ua * A.norm)          # quantiles of A
    LB = L / A.L1 * B.L1                             # same age, expectation on B
    f = gammainc(B.k + 1, LB) / B.norm
    return float(np.sum((f[1:] + f[:-1]) / 2 * np.diff(ua)))


def distant(c, ref, tm):
    """probability, in the joint distribution of equal age, of configurations less likely than the observed; with bounds for 2 % in ages"""
    mean = np.mean(tm)
    P = [Posterior(c, r.L1 * n1(c, t) / n1(c, mean), r.k) for r, t in zip(ref, tm)]
    t = np.unique(np.concatenate([np.linspace(1e-6, TMAX, 20001)] + [np.linspace(max(p.t(1e-9), 1e-6), p.t(1 - 1e-9), 4001) for p in P]))
    lp = np.sum([np.log(np.maximum(p.pdf(t), 1e-300)) for p in P], 0)
    y = np.exp(lp - lp.max())
    dt = np.gradient(t)
    o = sum(np.log(max(float(p.pdf(x)), 1e-300)) for p, x in zip(P, tm))
    w = float(np.sum((y * dt)[lp < o]) / np.sum(y * dt))
    # the density of each at its own median is uncertain by the resolution of the table of ages
    e = sum(abs(np.log(max(float(p.pdf(x * 1.0025)), 1e-300)) - np.log(max(float(p.pdf(x * .9975)), 1e-300))) for p, x in zip(P, tm))
    b = [float(np.sum((y * dt)[lp < o + q]) / np.sum(y * dt)) for q in (-e - .02, e + .02)]
    return w, b[0], b[1]


@case('C17', quick=1500, thorough=10000)
def sequence_probability(m, rng):
    s, pf, cf, r = _setup(rng, m)
    c = coeff(s)
    a1 = np.log10(n1(c, 1.))
    t0 = float(rng.uniform(.02, 4.4))
    P = []
    for i in range(2):
        rr = r if rng.random() < .5 else [r[0], r[0] + (r[1] - r[0]) * .6]
        k = int(10 ** rng.uniform(0, 2.8)) if rng.random() < .8 else int(rng.integers(0, 4))
        dens = float(C_ref(s, pf, rr[0], a1) - C_ref(s, pf, rr[1], a1))
        area = max(k, .7) / dens * n1(c, 1.) / n1(c, t0) * 10 ** rng.normal(0, .7 / np.sqrt(k + 1))
        ref = Posterior(c, dens * area, k)
        cc = cst.Cratercount()
        cc.area = area
        cc.diam = [1.]
        P.append((m.call(cst.Craterpdf, pf, cf, cc, rr, k=k), ref, k, area))
    if not all(p[1].resolved for p in P):
        raise Skip
    m.note(system=s['name'], k=[p[2] for p in P], area=[p[3] for p in P])
    p01 = float(m.call(P[0][0].calculate_sequence_probability, P[1][0]))
    p10 = float(m.call(P[1][0].calculate_sequence_probability, P[0][0]))
    m.check(-1e-9 <= p01 <= 1 + 1e-9 and -1e-9 <= p10 <= 1 + 1e-9, 'not-a-probability', f'{p01} {p10}')
    m.close(p01 + p10, 1., 'not-complementary', rtol=0, atol=2e-3, msg=s['name'])
    m.close(p01, p_older(P[0][1], P[1][1]), 'sequence-probability', rtol=0, atol=8e-3, msg=s['name'])
    m.close(float(m.call(P[0][0].calculate_sequence_probability, P[0][0])), .5, 'self-comparison', rtol=0, atol=2e-3)
    m.sig(s['name'], P[0][2], P[1][2], round(p01, 2))
    m.sample(dict(system=s['name'], k=[p[2] for p in P], p=[p01, p10]))


@case('C17', quick=200, thorough=800, needs=('table-entries', 'simultaneity'))
def sequence_table(m, rng):
    """table written by the command line tool"""
    s, pf, cf, r = _setup(rng, m)
    c = coeff(s)
    a1 = np.log10(n1(c, 1.))
    n = int(rng.integers(2, 5)) if rng.random() < .85 else int(rng.integers(5, 10))
    same = rng.random() < .15
    t0 = float(rng.uniform(.05, 4.))
    dens = float(C_ref(s, pf, r[0], a1) - C_ref(s, pf, r[1], a1))
    args = ['-cs', s['name'], '-pr', str(rng.choice(['sequence', 'differential', 'cumulative'])), '-st', '-o', 'q', '-f', 'csv']
    ref, names = [], []
    with scratch():
        for i in range(n):
            k = int(rng.integers(2, 80))
            area = float(f'{k / dens * n1(c, 1.) / n1(c, t0) * 10 ** rng.normal(0, .7 / np.sqrt(k + 1)):.9g}')
            per = None
            typ = 'poisson'
            L1 = dens * area
            if rng.random() < .25:
                typ, per = 'b-poisson', float(f'{4 * np.sqrt(area):.9g}')
                L1 = buffered_lambda(s, pf, c, area, per, r)
            gen.write(f's{i}.diam', gen.diam_text(rng, np.full(k, np.sqrt(r[0] * r[1])), None, area, per, plain=True))
            hide = rng.random() < .12
            name = f'site {i // 2 if same else i}'
            if not hide:
                ref.append(Posterior(c, L1, k))
                names.append(name)
            args += ['-p', f'source=s{i}.diam,type={typ},name={name},range=[{r[0]!r},{r[1]!r}],snap=0,hide={int(hide)}']
            if rng.random() < .3:
                args += ['-p', f'source=s{i}.diam,type=' + str(rng.choice(['data', 'c-fit' if False else 'data'])) + ',hide=0']
        if rng.random() < .3:
            args += ['-p', 'type=data']
        m.note(args=args)
        if not all(x.resolved for x in ref):
            raise Skip
        with quiet():
            m.call(cst.cli.main, args)
        if len(ref) < 2:
            m.check(not os.path.exists('q_sequence.csv'), 'table-invented', '')
            m.event('no-table')
            return
        m.check(os.path.exists('q_sequence.csv'), 'table-missing', lambda: f'{os.listdir(".")}')
        L = [x.split(',') for x in open('q_sequence.csv', encoding='utf-8-sig').read().splitlines()]
    N = len(ref)
    m.check(L[1][1:] == names, 'table-columns', lambda: f'{L[1]} expected {names}')
    for y in range(N):
        m.check(L[2 + y][0] == names[y], 'table-rows', lambda: f'{L[2 + y]}')
        for x in range(N):
            v = L[2 + y][1 + x]
            if x == y:
                m.check(v == '', 'table-diagonal', v)
                continue
            w = p_older(ref[x], ref[y])
            m.close(float(v), w, 'table-probability', rtol=.06, atol=.012, msg=f'x={x} y={y} of {N}')
            m.event('table-entries')
    tm = [x.t(.5) for x in ref]
    i = next(i for i, x in enumerate(L) if x and x[0].startswith('t_median'))
    m.close([float(x) for x in L[i][1:]], tm, 'table-medians', rtol=.016)
    m.close(float(L[i + 1][1]), np.mean(tm), 'table-mean', rtol=.012)
    # the last line: distributions which the same counts would have if the areas had been such that all medians fell at the mean
    w, lo, hi = distant(c, ref, tm)
    j = next(i for i, x in enumerate(L) if x and x[0].startswith('Probability of more distant'))
    v = float(L[j + 1][1])
    m.check(0 <= v <= 1, 'table-distance', lambda: f'{v}')
    m.sample(dict(distant=v, expected=[w, lo, hi]))
    m.check(lo * .97 - .004 <= v <= hi * 1.03 + .004, 'table-distance', lambda: f'{v} expected {w} ({lo}-{hi})')
    m.event('simultaneity')
    m.sig('table', s['name'], N, [x.k for x in ref])


# ======================================================================================== C33
@case('C33', quick=240, thorough=1200, needs=('cells',))
def uncertainty_grid(m, rng):
    s, pf, cf, r = _setup(rng, m)
    c = coeff(s)
    lo, hi = (float(x) for x in pf.range)
    dmin = float(10 ** rng.uniform(np.log10(lo), np.log10(min(hi, 100.)) - .3))
    if 'coefficients' not in next(x for x in defs()['production'] if x['name'] == s['pf']):
        raise Skip      # the fixed upper limit of 1000 km lies beyond tabulated functions
    if not decreasing(s, pf, [dmin, min(hi, 1000.)]) or hi < 300:
        raise Skip
    xr = sorted(rng.uniform(0., 4.5, 2)) if rng.random() < .6 else [float(10 ** rng.uniform(-5, -.5)), float(rng.uniform(1, 4.5))]
    y0 = float(rng.uniform(-1, 5))
    args = ['-pr', 'uncertainty', '-cs', s['name'], '-d_min', repr(dmin), '-ns', str(int(rng.integers(6, 14))), '-xrange', repr(float(xr[1])), repr(float(xr[0])),
            '-yrange', repr(y0), repr(y0 + float(rng.uniform(1, 5))), '-pd', str(rng.choice(['8x8', '10x6', '6x9', '2']))]
    m.note(args=args)
    a = cst.cli.get_parser().parse_args(args)
    d = cst.cli.construct_cps_dict(a, __import__('copy').deepcopy(cst.DEFAULTS)['set'], funcs())
    cps = m.call(cst.Craterplotset, d)
    m.call(cps.calculate_time_axis_params)
    seed = int(rng.integers(0, 2 ** 31))
    np.random.seed(seed)
    with quiet():
        R = m.call(cps.compute_age_area)
    zz, kk, ee, lm = (np.asarray(R[k]) for k in ('zz', 'kk', 'ee', 'lm'))
    nx, ny = zz.shape
    m.check(kk.shape == ee.shape == lm.shape == (R['nsx'], R['nsy']) == (nx, ny), 'grid-shape', '')
    area = 10 ** np.linspace(float(cps.yrange[0]), float(cps.yrange[1]), ny)
    C1 = float(C_ref(s, pf, dmin, np.log10(n1(c, 1.))) - C_ref(s, pf, 1000., np.log10(n1(c, 1.))))
    # the expectation of each cell is that of its area and of one age per column, ages increasing over the displayed axis
    m.close(lm / lm[:, :1], np.tile(area / area[0], (nx, 1)), 'expectation-area', rtol=1e-6)
    dens = lm[:, 0] / area[0] / C1
    t = np.array([brentq(lambda t: n1(c, t) / n1(c, 1.) - x, 0, 6.) for x in dens])
    m.check(np.all(np.diff(t) > 0), 'ages-unordered', lambda: f'{t}')
    m.close(t[-1], float(cps.t_max if round(nx * cps.xfrac_linear) > 0 else cps.t_crossover), 'age-axis-ends', rtol=6e-3, atol=1e-4, msg=str(args))
    m.check(float(cps.t_min) * .99 - 1e-4 <= t[0] <= max(t[1], float(cps.t_min) * 1.01), 'age-axis-ends', lambda: f'{t} {cps.t_min} {args}')  # to one cell
    nl = round(nx * cps.xfrac_linear)   # uniform steps: logarithmic below, linear above the crossover
    tl = t[nx - nl:]
    if len(tl) > 2:
        m.close(np.diff(tl), np.full(len(tl) - 1, np.mean(np.diff(tl))), 'age-axis-linear', rtol=.03, atol=5e-3)
    tg = t[:nx - nl]
    if len(tg) > 2:
        m.close(np.diff(np.log(tg)), np.full(len(tg) - 1, np.mean(np.diff(np.log(tg)))), 'age-axis-log', rtol=.03, atol=5e-3)
    z = (kk - lm)[lm < 1e5]
    v = lm[lm < 1e5]
    if v.sum() > 30:
        m.check(abs(z.sum()) <= 6 * np.sqrt(v.sum()) + 3, 'counts-biased', lambda: f'sum of counts {kk.sum()} expectation {lm.sum()}')
        chi = np.sum(z[v > .5] ** 2 / v[v > .5])
        n = (v > .5).sum()
        if n > 20:
            m.check(abs(chi - n) < 8 * np.sqrt(2 * n + np.sum(1 / v[v > .5])), 'counts-not-poisson', lambda: f'{chi} {n}')
            m.event('count-statistics')
    m.check(np.all(kk[lm >= 1e5] > 0) and np.all(np.abs(kk - lm)[lm >= 1e5] <= 7 * np.sqrt(lm[lm >= 1e5]) + 1), 'large-counts', '')
    for _ in range(12):
        i, j = int(rng.integers(0, nx)), int(rng.integers(0, ny))
        k = int(kk[i, j])
        ref = Posterior(c, C1 * area[j], k)
        if not ref.resolved or k > 3000 or ref.t(.84134) > 4.9:
            continue
        w = [ref.t(q) for q in (.5, .15865525, .84134475)]
        m.close(ee[i, j], w[0] / t[i], 'measured-over-actual', rtol=.035, msg=f'k={k}')
        m.close(zz[i, j] + 1, np.sqrt(w[2] / w[1]), 'measured-uncertainty', rtol=.03, msg=f'k={k}')
        m.event('cells')
    m.sig(s['name'], nx, ny, round(dmin, 3), round(xr[0], 2))
    m.sample(dict(args=args, k=kk[::3, ::3].tolist()))

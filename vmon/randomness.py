"""Monitors of randomness analysis results: statistics, result file, charts, overlay and reproducibility."""
import os
import re

import numpy as np
import matplotlib.patches as mpatches

import craterstats as cst
from . import gen
from . import sphere as sp
from . import spatial as spt
from .cliutil import run, listing
from .core import case, scratch, Skip, Inconclusive
from .spatial import pick, Log, cpus, ra_source, by_bin, brute, Ortho, centroid, check_map

MIN = {'m2cnd': 3, 'sdaa': 4}


def parse_ra(text):
    """(header, [(bin, {measure: value or None})], {measure: (number of trials, {bin: values})})"""
    H, table, M = {}, [], {}
    cur = measure = cols = None
    for ln in text.split('\n'):
        ln = ln.strip()
        if not ln or ln.startswith('#'):
            continue
        if ln == '}':
            if cur is not None:
                cur = None
            else:
                measure = None
            continue
        if cur == 'n_sigma':
            r = dict(zip(cols, ln.split()))
            table.append((float(r['bin']), {k: None if v == '-' else float(v) for k, v in r.items() if k != 'bin'}))
            continue
        if cur == 'trials':
            r = ln.split()
            if len(r) != len(cols) or int(r[0]) != len(M[measure][1][float(cols[1])] if len(cols) > 1 else []):
                raise ValueError(f'trial row {ln!r} for columns {cols}')
            for c, v in zip(cols[1:], r[1:]):
                M[measure][1][float(c)].append(float(v))
            continue
        k, v = (x.strip() for x in ln.split('=', 1))
        if v.startswith('{'):
            c = [x.strip() for x in v[1:].split(',') if x.strip()]
            if c:
                cur, cols = k, c
                if k == 'trials':
                    for x in c[1:]:
                        M[measure][1][float(x)] = []
            else:
                measure = k
                M[k] = [None, {}]
        elif measure:
            if k == 'n_trials':
                M[measure][0] = int(v)
        else:
            H[k] = v
    return H, table, {k: tuple(v) for k, v in M.items()}


def qualifying(B, measure):
    return sorted(k for k, c in B.items() if len(c) >= MIN[measure])


def scaled(v):
    return np.sign(v) * abs(v) ** .6


def check_file(m, text, B, R, radius, trials, measures, ran=None, src='u.scc'):
    """result file against the craters and the observed trials; {(measure, k): (m0, values, n_sigma, percentile)}"""
    try:
        H, table, M = parse_ra(text)
    except Exception as e:
        m.fail('result-file', f'{e!r}: {text[:600]}')
    m.check(H.get('source', '').strip('"').endswith(src), 'result-source', lambda: H.get('source'))
    want = [x for x in measures if qualifying(B, x)]
    m.check(set(M) == set(want), 'result-measures', lambda: f'{sorted(M)} expected {sorted(want)}')
    bins = sorted({k for x in want for k in qualifying(B, x)})
    m.check([b for b, _ in table] == [k / 2 for k in bins], 'result-bins', lambda: f'{table} expected {[k / 2 for k in bins]}')
    S = {}
    for x in want:
        n, T = M[x]
        m.check(n == trials[x], 'result-trials', lambda: f'{x}: {n} trials, expected {trials[x]}')
        m.check(sorted(T) == [k / 2 for k in qualifying(B, x)], 'result-bins', lambda: f'{x}: {sorted(T)}')
        for k in bins:
            row = dict(table)[k / 2]
            if k not in qualifying(B, x):
                m.check(row[x] is None, 'result-value', lambda: f'{x} of bin {k / 2}: {row[x]} with {len(B.get(k, []))} craters')
                m.event('no-result')
                continue
            v = np.array(T[k / 2])
            m.check(len(v) == n, 'result-trials', lambda: f'{x} bin {k / 2}: {len(v)} of {n}')
            if ran is not None and (x, k) in ran:
                obs = np.array(ran[x, k])
                m.close(v, obs, 'trial-values', rtol=1e-6, msg=f'{x} bin {k / 2}')
                m.event('trials', len(v))
            m0 = brute(R, radius, x, np.array([c for _, c in B[k]]))
            mn, sd = float(np.mean(v)), float(np.std(v))
            if sd < 1e-6 * abs(mn):
                raise Skip
            ns = (m0 - mn) / sd
            m.check(row[x] is not None and abs(row[x] - ns) <= 6e-4 * abs(ns) + 1e-5 * (m0 + mn) / sd + 1e-9, 'n-sigma', lambda: f'{x} bin {k / 2}: {row[x]} expected {ns}')
            below = np.sum(v < m0 * (1 - 2e-6)), np.sum(v < m0 * (1 + 2e-6))
            S[x, k] = (m0, v, ns, tuple(100 * b / n for b in below))
            m.event('n-sigma')
    return S


def number(s):
    """(value, half unit of last digit) of printed number"""
    f = float(s)
    t = s.lower().split('e')
    d = len(t[0].split('.')[1]) if '.' in t[0] else 0
    return f, .5 * 10. ** (-d + (int(t[1]) if len(t) > 1 else 0))


def check_histogram(m, ax, m0, v, pc):
    bars = [p for p in ax.patches if isinstance(p, mpatches.Rectangle)]
    m.check(len(bars) >= 1, 'histogram', lambda: 'no bars')
    e = sorted((p.get_x(), p.get_x() + p.get_width(), p.get_height()) for p in bars)
    lo, hi = e[0][0], e[-1][1]
    w = hi - lo
    m.check(all(abs(a[1] - b[0]) < 1e-6 * w for a, b in zip(e, e[1:])), 'histogram-gaps', lambda: str(e[:5]))
    m.check(lo <= v.min() + 1e-5 * abs(v.min()) and hi >= v.max() - 1e-5 * abs(v.max()), 'histogram-range', lambda: f'{lo, hi}: {v.min(), v.max()}')
    m.check(sum(h for _, _, h in e) == len(v), 'histogram-sum', lambda: f'{sum(h for _, _, h in e)} of {len(v)}')
    t = 2e-6 * max(abs(lo), abs(hi))
    for a, b, h in e:
        m.check(np.sum((v > a + t) & (v < b - t)) <= h <= np.sum((v > a - t) & (v < b + t)), 'histogram-count', lambda: f'{h} in {a}-{b}: {sorted(v)}')
    m.event('histogram-bars', len(e))
    T = [x for x in ax.texts if '%' in x.get_text()]
    m.check(len(T) == 1, 'histogram-text', lambda: str([x.get_text() for x in ax.texts]))
    a, b = T[0].get_text().split('\n')
    m.check(abs(float(a) / m0 - 1) < 6e-3, 'histogram-value', lambda: f'{a} expected {m0}')
    m.close(T[0].get_position()[0], m0, 'histogram-value', rtol=2e-5)
    p, h = number(b.rstrip('%'))
    m.check(pc[0] - h * 1.001 <= p <= pc[1] + h * 1.001, 'percentile', lambda: f'{b} expected {pc}')
    m.event('percentiles')
    mn, sd = v.mean(), v.std()
    X = [np.asarray(ln.get_xdata(), float) for ln in ax.lines]
    vert = [x[0] for x in X if len(x) == 2 and x[0] == x[1]]
    for q in (m0, mn):
        m.check(any(abs(x - q) < 2e-5 * abs(q) for x in vert), 'histogram-marks', lambda: f'{vert}: no line at {q}')
    x0, x1 = ax.get_xlim()
    m.check(x0 <= min(lo, m0) and x1 >= max(hi, m0), 'histogram-limits', lambda: f'{x0, x1}: {lo, hi, m0}')
    band = [c.get_paths()[0].vertices[:, 0] for c in ax.collections if len(c.get_paths())]
    m.check(any(abs(b.min() - (mn - sd)) < 1e-4 * abs(mn) and abs(b.max() - (mn + sd)) < 1e-4 * abs(mn) for b in band), 'histogram-band', lambda: f'{[(b.min(), b.max()) for b in band]} expected {mn - sd, mn + sd}')


def check_chart(m, ax, measure, rows, trials, size=1.):
    """n_sigma chart: rows = [(k, n_sigma)]"""
    L = [(np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)) for ln in ax.lines if ln.get_marker() not in (None, 'None', '')]
    m.check(len(L) == 1, 'chart', lambda: f'{len(L)} lines')
    x, y = L[0]
    m.close(x, [np.log10(2 ** (k / 2 + .25)) for k, _ in rows], 'chart-bins', atol=1e-9)
    e = np.array([scaled(-v if measure == 'sdaa' else v) for _, v in rows])
    m.close(y, e, 'chart-values', rtol=2e-3, atol=2e-3)
    m.event('chart-points', len(x))
    x0, x1 = ax.get_xlim()
    m.check(x0 <= min(x) - .07 and x1 >= max(x) + .07, 'chart-limits')
    bands = sorted((c.get_paths()[0].vertices[:, 1].min(), c.get_paths()[0].vertices[:, 1].max()) for c in ax.collections if len(c.get_paths()))
    m.close(bands, sorted((-scaled(s), scaled(s)) for s in (1, 2, 3)), 'chart-bands', rtol=1e-9)
    T = [t.get_text() for t in ax.texts]
    m.check('clustered' in T and 'separated' in T, 'chart-text', lambda: str(T))
    pos = {t.get_text(): t.get_position()[1] for t in ax.texts}
    m.check(pos['clustered'] < 0 < pos['separated'], 'chart-text')
    m.check(f'{measure}\n{trials} trials' in T, 'chart-text', lambda: str(T))
    zero = next((t.get_position()[1] for t in ax.texts if t.get_text().strip() == '0'), 0.)
    for t in ax.texts:
        if t.get_text().strip().isdigit():
            m.close(abs(t.get_position()[1] - zero), scaled(int(t.get_text())), 'chart-scale', rtol=1e-6, atol=1e-6, msg=f'label {t.get_text()}')
    for p, t in zip(ax.get_xticks(), ax.get_xticklabels()):
        q = re.fullmatch(r'([0-9.]+)\s*(k?m)?', t.get_text().strip())
        if q and x0 <= p <= x1:
            m.check(abs(float(q[1]) * (1e-3 if q[2] == 'm' or p < -.01 else 1) / 10 ** p - 1) < .03, 'chart-ticks', lambda: f'{t.get_text()} at {10 ** p} km')
            m.event('chart-ticks')


def observed(L):
    """{(measure, k): values in trial order}, {(measure, k): number of evaluations}"""
    D = {}
    for t, what, value, lon, *_ in L:
        if t is not None:
            D.setdefault((what, int(round(2 * np.log2(t[0])))), {}).setdefault(t[2], []).append(value)
    return D


# ======================================================================================== C31
@case('C31', quick=100, thorough=900, needs=('n-sigma', 'histogram-bars', 'percentiles', 'chart-points', 'selected', 'all-panels', 'reused', 'repeated', 'added', 'no-result', 'panel-maps', 'panel-links', 'panel-cells', 'script', 'own-name-first', 'beside-source'))
def results(m, rng):
    with scratch():
        use_shp = rng.random() < .2
        u = pick(rng, ['u', 'u', 'a_rab'])
        R, radius, craters = ra_source(rng, m, name=u + ('.shp' if use_shp else '.scc'), nmax=int(pick(rng, [4, 8, 25])), bins=4, shapefile=use_shp, size=10 ** rng.uniform(-1, 1.5))
        src = u + ('_CRATER.shp' if use_shp else '.scc')
        if use_shp:     # outlines have diameter of their polygon
            craters = spt.craters_of_shp(src, radius)
        B = by_bin(craters)
        N = int(10 ** rng.uniform(.35, 1.6))
        measures = pick(rng, [['m2cnd'], ['sdaa'], ['m2cnd', 'sdaa'], ['sdaa', 'm2cnd'], None])
        out = pick(rng, [None, 'r', 'od/r.1-x', 'x_ray', 'od'])
        if out and out[:2] == 'od':
            os.mkdir('od')
        base = ('od/' + u if out == 'od' else out or u) + '_ra'
        args = ['-ra', src, '-trials', str(N), '-f', 'svg'] + (['-measure', ','.join(measures)] if measures else []) + (['-o', out] if out else [])
        measures = measures or ['m2cnd', 'sdaa']
        sel, sarg = None, []
        if rng.random() < .5:
            n = max(len(qualifying(B, x)) for x in measures)
            sel = sorted({int(rng.integers(0, n + 2)) for _ in range(int(rng.integers(1, 4)))})
            sarg = ['-select', pick(rng, [',', ', ']).join(str(s) for s in rng.permutation(sel))]
            if any(qualifying(B, x) and not any(s <= len(qualifying(B, x)) for s in sel) for x in measures):
                sel, sarg = None, []
        m.note(args=args + sarg, rings=R.rings, radius=radius, craters=craters)
        before = listing()

        def analyse(a, ncpu=3):
            log = Log('log')
            with log, cpus(ncpu):
                rec = m.call(run, a, catch=())
            return rec, log.read()
        if not any(qualifying(B, x) for x in measures):
            raise Skip
        rec, L = analyse(args + sarg)
        after = listing()
        want = {base + '.txt'} | {f'{base}-{x}' + ('-n_sigma' if sel == [0] else '') + '.svg' for x in measures if qualifying(B, x)}
        new = set(after) - set(before)
        m.check(want <= new and all(x in want or x.endswith('.cs') for x in new), 'result-files', lambda: f'{args + sarg}: {sorted(new)} expected {sorted(want)}')
        m.check(all(after[k] == before[k] for k in before), 'input-changed')
        obs = observed(L)
        ran = {}
        for key, t in obs.items():
            m.check(sorted(t) == list(range(N)) and all(len(v) == 1 for v in t.values()), 'trials-run', lambda: f'{key}: {sorted(t)} of {N}')
            ran[key] = [t[i][0] for i in range(N)]
        m.check(set(ran) == {(x, k) for x in measures for k in qualifying(B, x)}, 'trials-run', lambda: f'{sorted(ran)}')
        S = check_file(m, after[base + '.txt'].decode(), B, R, radius, {x: N for x in measures}, measures, ran, src)
        figures(m, rec, base, measures, B, S, sel, R, radius, N)
        # further runs: reuse, extend, add a measure
        k = int(rng.integers(0, 6)) if out or rng.random() < .6 else 5
        if u != 'u' and not out and rng.random() < .5:
            k = 4
        if k == 5:      # results of the given name go before those named after the source; those beside the source serve when there are none
            analyse(['-ra', src, '-trials', '2', '-f', 'svg', '-o', 'other'] + (['-measure', ','.join(measures)]))
            if base != u + '_ra':
                t, n2 = u + '_ra', int(rng.integers(2, N + 1))
                have = listing()
                gen.write(u + '_ra.txt', have['other_ra.txt'].decode())
                rec, L = analyse([str(n2) if x == str(N) and args[i - 1] == '-trials' else x for i, x in enumerate(args)])
                m.check(not observed(L), 'rerun', lambda: f'{n2} trials asked for with {N} present: {len(L)} evaluations')
                S2 = check_file(m, listing()[base + '.txt'].decode(), B, R, radius, {x: N for x in measures}, measures, ran, src)
                m.event('own-name-first')
            else:
                os.mkdir('there')
                for f in listing():
                    if f.startswith(u) and not f.endswith(('.svg', '.cs', '_ra.txt')):
                        os.rename(f, 'there/' + f)
                os.rename(u + '_ra.txt', 'there/' + u + '_ra.txt')
                have = listing()
                a = ['there/' + x if x == src else x for x in args]
                rec, L = analyse(a)
                m.check(not observed(L), 'rerun', lambda: f'{a} with results beside the source: {len(L)} evaluations')
                now = listing()
                m.check(now['there/' + u + '_ra.txt'] == have['there/' + u + '_ra.txt'], 'result-files', lambda: 'results beside the source changed')
                m.check(u + '_ra.txt' in now, 'result-files', lambda: f'{a}: {sorted(now)}')
                check_file(m, now[u + '_ra.txt'].decode(), B, R, radius, {x: N for x in measures}, measures, ran, 'there/' + src)
                m.event('beside-source')
        elif k == 4 and '/' not in base:      # the script left by the command
            have = listing()
            rec, L = analyse(['-i', base + '.cs'])
            m.check(not observed(L), 'rerun', lambda: f'script repeated {len(L)} evaluations')
            now = listing()
            m.check(sorted(now) == sorted(have), 'script-files', lambda: f'-i {base}.cs: {sorted(set(now) ^ set(have))}')
            S2 = check_file(m, now[base + '.txt'].decode(), B, R, radius, {x: N for x in measures}, measures, ran, src)
            figures(m, rec, base, measures, B, S2, sel, R, radius, N)
            m.event('script')
        elif k == 0:
            n2 = int(rng.integers(2, N + 1))
            a = [str(n2) if x == str(N) and args[i - 1] == '-trials' else x for i, x in enumerate(args)]
            rec, L = analyse(a)
            m.check(not observed(L), 'rerun', lambda: f'{n2} trials asked for with {N} present: {len(L)} evaluations')
            S2 = check_file(m, listing()[base + '.txt'].decode(), B, R, radius, {x: N for x in measures}, measures, ran, src)
            figures(m, rec, base, measures, B, S2, None, R, radius, N)
            m.event('reused')
        elif k == 1:
            n2 = N + int(rng.integers(1, 10))
            a = [str(n2) if x == str(N) and args[i - 1] == '-trials' else x for i, x in enumerate(args)]
            rec, L = analyse(a)
            ran = {key: [t[i][0] for i in sorted(t)] for key, t in observed(L).items()}
            S2 = check_file(m, listing()[base + '.txt'].decode(), B, R, radius, {x: n2 for x in measures}, measures, ran, src)
            figures(m, rec, base, measures, B, S2, None, R, radius, n2)
            m.event('repeated')
        elif k == 2 and len(measures) == 1:
            other = {'m2cnd': 'sdaa', 'sdaa': 'm2cnd'}[measures[0]]
            n2 = int(10 ** rng.uniform(.35, 1.4))
            a = ['-ra', src, '-trials', str(n2), '-f', 'svg', '-measure', other] + (['-o', out] if out else [])
            rec, L = analyse(a)
            obs = observed(L)
            m.check(all(x == other for x, _ in obs), 'rerun', lambda: str(list(obs)))
            for key, t in obs.items():
                ran[key] = [t[i][0] for i in sorted(t)]
            both = measures + [other]
            S2 = check_file(m, listing()[base + '.txt'].decode(), B, R, radius, {measures[0]: N, other: n2}, both, ran, src)
            figures(m, rec, base, [other], B, S2, None, R, radius, n2)
            m.event('added')
    m.sig(round(R.area(), 12), args, sel, len(craters))


def figures(m, rec, base, measures, B, S, sel, R, radius, N):
    saves = {os.path.relpath(n): f for n, _, f in rec.save}
    O = Ortho(centroid(R), radius)
    front = min(np.min(r @ O.c) for p in R.rings for r in p) > .3
    for x in measures:
        Q = qualifying(B, x)
        if not Q:
            continue
        rows = [(k, S[x, k][2]) for k in Q]
        name = f'{base}-{x}' + ('-n_sigma' if sel == [0] else '') + '.svg'
        m.check(name in saves, 'result-files', lambda: f'{name} not among {sorted(saves)}')
        ax = saves[name].axes
        texts = [[t.get_text() for t in a.texts] for a in ax]
        charts = [a for a, t in zip(ax, texts) if 'clustered' in t]
        hist = [a for a, t in zip(ax, texts) if any('%' in s for s in t)]
        head = [a for a, t in zip(ax, texts) if any('n = ' in s for s in t)]
        chosen = [Q[s - 1] for s in sel if 1 <= s <= len(Q)] if sel else Q
        if sel == [0]:
            chosen = []
        m.check(len(charts) == (0 if sel and 0 not in sel else 1), 'chart', lambda: f'{len(charts)} charts for selection {sel}')
        if charts:
            check_chart(m, charts[0], x, rows, N)
        m.check(len(hist) == len(head) == len(chosen), 'panels', lambda: f'{len(hist)} histograms, {len(head)} titles for bins {chosen}')
        maps = [a for a in ax if a not in charts and a not in hist and a not in head and len(a.collections) and len(a.lines)]
        m.check(len(maps) == len(chosen), 'panels', lambda: f'{len(maps)} maps for bins {chosen}')
        for k, h, t, mp in zip(chosen, hist, head, maps):
            m0, v, ns, pc = S[x, k]
            check_histogram(m, h, m0, v, pc)
            s = t.texts[0].get_text()
            q = re.fullmatch(r'([\d.]+)\W([\d.]+)\W(km|m)\nn = (\d+)', s)
            m.check(q is not None, 'panel-title', lambda: repr(s))
            u = 1. if q[3] == 'km' else 1e-3
            m.check(int(q[4]) == len(B[k]), 'panel-title', lambda: f'{s!r} for {len(B[k])} craters')
            m.close([float(q[1]) * u, float(q[2]) * u], [2 ** (k / 2), 2 ** (k / 2 + .5)], 'panel-title', rtol=.055)
            box = [a.get_position() for a in (h, t, mp)]
            m.check(all(b.x0 >= box[1].x0 - .02 and b.x1 <= box[1].x1 + .02 and b.y0 >= box[1].y0 - .02 and b.y1 <= box[1].y1 + .02 for b in (box[0], box[2])), 'panel-place', lambda: str(box))
            if front:
                check_panel(m, mp, x, R, radius, B[k], O)
        m.event('selected' if sel else 'all-panels')


def check_panel(m, ax, measure, R, radius, craters, O):
    P = np.array([c for _, c in craters])
    rest = check_map(m, ax, R, radius, craters, O)
    m.event('panel-maps')
    if measure == 'm2cnd':
        seg = np.array([[(x[0], y[0]), (x[1], y[1])] for x, y, _ in rest if len(x) == 2])
        m.check(len(seg) == len(P), 'panel-links', lambda: f'{len(seg)} links of {len(P)} craters')
        xy = O.xy(P)
        D = sp.dist(P[:, None], P[None])
        tol = 1e-6 * radius * max(D.max(), 1e-3)
        for i in range(len(P)):
            j = np.argsort(D[i])[2]
            ok = (np.linalg.norm(seg[:, 0] - xy[i], axis=1) < tol) & (np.linalg.norm(seg[:, 1] - xy[j], axis=1) < tol)
            m.check(np.any(ok), 'panel-links', lambda: f'no link from {sp.lonlat(P[i])} to {sp.lonlat(P[j])}')
            m.event('panel-links')
    else:
        n = sum(len(p) for p in R.rings)
        m.check(len(ax.collections) >= n, 'panel-cells')
        A = sp.voronoi_areas(R, P)
        # outlines of the cells: every cell's site within exactly one of them, areas add up
        cells = [sp_ for c in ax.collections for p in c.get_paths() for sp_ in spt.subpaths(p) if c.get_facecolor() is None or len(c.get_facecolor()) == 0 or c.get_facecolor()[0][3] == 0]
        m.check(len(cells) >= len(P), 'panel-cells', lambda: f'{len(cells)} cells of {len(P)} craters')
        from matplotlib.path import Path
        xy = O.xy(P)
        size = np.ptp(xy, axis=0).max()
        inside = np.array([Path(c).contains_points(xy, radius=1e-4 * size) | Path(c).contains_points(xy, radius=-1e-4 * size) for c in cells])
        m.check(np.all(inside.sum(0) >= 1), 'panel-cells', lambda: f'{inside.sum(0)} cells hold the craters')
        m.event('panel-cells', len(cells))


# ---------------------------------------------------------------------------------------- overlay
def ra_text(rng, src, bins, vals, trials):
    """result file in the program's format"""
    t = ['# Randomness analysis', f'version = {cst.__version__}', f'source = "{src}"', '#', 'n_sigma = {bin' + ''.join(f', {x}' for x in vals)]
    for i, k in enumerate(bins):
        t.append(f'{k / 2:<12.3g}' + ''.join(f'\t{v[i]:9.4g}' if v[i] is not None else f'\t{"-":>9}' for v in vals.values()))
    t.append('}')
    for x in vals:
        b = [k for i, k in enumerate(bins) if vals[x][i] is not None]
        t += ['#', f'{x} = {{', f'n_trials = {trials[x]}', 'trials  = {index, ' + ', '.join(f'{k / 2:.3g}' for k in b)]
        t += ['\t'.join([f'{j:<12}'] + [f'{rng.uniform(1, 9):<12.7g}' for _ in b]) for j in range(trials[x])] + ['}', '}']
    return '\n'.join(t) + '\n'


@case('C31', quick=80, thorough=1200, needs=('overlay', 'overlay-points', 'overlay-off', 'overlay-gap', 'overlay-shp', 'overlay-offset', 'overlay-scale'))
def overlay(m, rng):
    """n_sigma from result files beside the sources is shown over the size-frequency plots"""
    with scratch():
        src = []
        V = {}
        sub = ''
        if rng.random() < .3:
            sub = 'd'
            os.mkdir(sub)
        for i in range(int(rng.integers(1, 4))):
            R = sp.region(rng, size=rng.uniform(1, 20))
            radius = pick(rng, spt.RADII)
            k0 = int(rng.integers(-10, 6))
            n = int(rng.integers(6, 50))
            P = sp.place(rng, R, n)
            cr = [(float(2 ** (k0 / 2 + rng.uniform(0.01, 2.99))), p) for p in P]
            stem = os.path.join(sub, f'{"abc"[i]}{int(rng.integers(9))}')
            pair = rng.random() < .25 and not spt.span(R)[0] and spt.span(R)[1] < 85
            if pair:
                f = stem + '_CRATER.shp'
                spt.shp_pair(rng, (f, stem + '_AREA.shp'), R, radius, cr, None)
            else:
                f = stem + '.scc'
                gen.write(f, sp.scc(rng, R, radius, cr))
            src.append(f)
            if rng.random() < .75:
                bins = sorted(rng.choice(np.arange(k0, k0 + 6), size=int(rng.integers(1, 6)), replace=False).tolist())
                vals = {x: [float(f'{rng.normal() * 10 ** rng.uniform(-1, 1.2):.4g}') if rng.random() < .8 else None for _ in bins] for x in pick(rng, [['m2cnd'], ['sdaa'], ['m2cnd', 'sdaa'], ['sdaa', 'm2cnd']])}
                for v in vals.values():
                    if all(q is None for q in v):
                        v[0] = 1.5
                N = int(rng.integers(2, 6))
                N = {x: N if j == 0 or rng.random() < .5 else int(rng.integers(6, 12)) for j, x in enumerate(vals)}
                keep = [i for i in range(len(bins)) if any(v[i] is not None for v in vals.values())]
                bins, vals = [bins[i] for i in keep], {x: [v[i] for i in keep] for x, v in vals.items()}
                at = stem
                if sub and rng.random() < .5:       # written where the analysis ran, which goes before
                    at = os.path.basename(stem)
                    if rng.random() < .5:
                        gen.write(stem + '_ra.txt', ra_text(rng, f, bins, {x: [9.5] * len(bins) for x in vals}, N))
                gen.write(at + '_ra.txt', ra_text(rng, f, bins, vals, N))
                if pair:
                    m.event('overlay-shp')
                V[f] = (bins, vals, N)
        show = pick(rng, [None, None, None, '0', '1'])
        off = int(rng.integers(-9, 20)) if rng.random() < .3 else None
        pres = pick(rng, ['cumulative', 'differential', 'R-plot'])
        plots = []
        args = ['-pr', pres, '-f', 'svg', '-o', 'x'] + ([] if show is None else ['-ra_show', show]) + ([] if off is None else ['-ra_offset', str(off)])
        for f in src:
            for _ in range(1 if rng.random() < .7 else 2):
                ty = pick(rng, ['data', 'data', 'c-fit' if pres != 'differential' else 'd-fit'])
                hide = rng.random() < .15
                plots.append((f, ty, hide))
                args += ['-p', f'source={f},type={ty},hide={int(hide)},colour={len(plots)}' + (',range=[1e-3,1e3]' if ty != 'data' else '')]
        m.note(args=args, results=V)
        rec = m.call(run, args, catch=(SystemExit,))
        if rec.exc is not None or not rec.save:
            raise Skip
        fig = rec.save[0][2]
        ax = [a for a in fig.axes if any(t.get_text() in ('clustered', 'separated') for t in a.texts)]
        shown = [(f, i) for i, (f, ty, hide) in enumerate(plots) if f in V and ty == 'data' and not hide] if show != '0' else []
        if not shown:
            m.check(not ax, 'overlay-unexpected', lambda: f'{args}')
            m.event('overlay-off')
        else:
            m.check(len(ax) == 1, 'overlay-missing', lambda: f'{len(ax)} charts: {args}')
            L = []
            for ln in ax[0].lines:
                x, y = ln.get_xdata(), np.array([np.nan if q is None else float(q) for q in ln.get_ydata()])
                L.append((np.asarray(x, float), y, ln.get_linestyle(), ln.get_color(), ln.get_marker()))
            L = [q for q in L if q[4] not in (None, 'None', '')]
            want = []
            for f, i in shown:
                bins, vals, N = V[f]
                for x in vals:
                    want.append((np.array([np.log10(2 ** (k / 2 + .25)) for k in bins]), np.array([np.nan if v is None else scaled(v) * (-1 if x == 'sdaa' else 1) for v in vals[x]]), x))
            m.check(len(L) == len(want), 'overlay-lines', lambda: f'{len(L)} lines, expected {len(want)}: {args}')
            style = {}
            for x, y, measure in want:
                hit = next((i for i, q in enumerate(L) if len(q[0]) == len(x) and np.allclose(q[0], x, atol=1e-9) and np.allclose(q[1], y, rtol=1e-6, equal_nan=True, atol=1e-9)), None)
                m.check(hit is not None, 'overlay-values', lambda: f'{measure}: {y} at {x} not among {[(q[0], q[1]) for q in L]}')
                q = L.pop(hit)
                style.setdefault(measure, set()).add(q[2])
                m.event('overlay-points', int(np.sum(np.isfinite(y))))
                if np.any(np.isnan(y)):
                    m.event('overlay-gap')
            m.check(all(len(s) == 1 for s in style.values()) and len({*map(tuple, style.values())}) == len(style), 'overlay-styles', lambda: str(style))
            main = next(a for a in fig.axes if a.get_xlabel())
            m.close(ax[0].get_xlim(), main.get_xlim(), 'overlay-axis', rtol=1e-9)
            p, q = ax[0].get_position(), main.get_position()
            m.close([p.x0, p.x1], [q.x0, q.x1], 'overlay-axis', rtol=1e-9)
            T = [t.get_text() for t in ax[0].texts]
            names = {x for f, _ in shown for x in V[f][1]}
            m.check(names <= set(T), 'overlay-legend', lambda: f'{T}')
            q = [re.findall(r'\d+', t) for t in T if t.endswith(' trials')]
            m.check(len(q) == 1 and any({*map(int, q[0])} == {*V[f][2].values()} for f, _ in shown), 'overlay-trials', lambda: f'{T}: trials of the results {[V[f][2] for f, _ in shown]}')
            at = {t.get_text().strip(): t.get_position()[1] for t in ax[0].texts}
            m.check(at['clustered'] < scaled(-3) and at['separated'] > scaled(3), 'overlay-sides', lambda: f'{at}')
            for t in ax[0].texts:
                if t.get_text().strip().isdigit():
                    v = int(t.get_text())
                    m.close(abs(t.get_position()[1] - at['0']), scaled(v), 'overlay-scale', rtol=1e-6, atol=1e-6, msg=f'label {v}')
                    m.event('overlay-scale')
            for x in names & {*style}:
                w = [ln.get_linestyle() for ln in ax[0].lines if ln.get_marker() in (None, 'None', '') and np.allclose(ln.get_ydata(), at[x])]
                m.check(len(w) == 1 and {*w} == style[x], 'overlay-legend', lambda: f'{x}: {w} for lines in {style}')
            if off:
                o = run([v for v in args if v not in ('-ra_offset', str(off))])
                if o.exc is None and args.count(str(off)) == 1:
                    h = []
                    for g in (fig, o.save[0][2]):
                        r = next(a for a in g.axes if any(t.get_text() == 'clustered' for t in a.texts))
                        d = next(a for a in g.axes if a.get_xlabel())
                        h.append(np.log10(d.transData.inverted().transform(g.transFigure.transform((.5, r.get_position().y0)))[1]))
                    m.close(h[0] - h[1], off / 20, 'overlay-offset', rtol=1e-6, atol=1e-6)
                    m.event('overlay-offset')
            m.event('overlay')
    m.sig(args)


# ======================================================================================== C32
class Disturb:
    """delays in, and faults of, trials in worker processes"""

    def __init__(self, seed, delay=0., fault=None):
        self.seed, self.delay, self.fault = seed, delay, fault

    def __enter__(self):
        import time
        self.rt = spt.ra_mod.run_trial
        delay, fault, seed, rt = self.delay, self.fault, self.seed, self.rt

        import inspect
        sg = inspect.signature(rt)

        def run_trial(*a, **k):
            self_pp, _, _, trial_index = spt.trial_args(sg, a, k)
            if delay:
                np.random.rand(trial_index % 7)     # whatever state a worker is in
                time.sleep(delay * ((trial_index * 7919 + os.getpid() * 31 + seed) % 13) / 13)
            if fault and self_pp.measure == fault[0] and trial_index == fault[1]:
                raise RuntimeError('injected fault')
            return rt(*a, **k)
        for k in ('__module__', '__qualname__', '__name__'):
            setattr(run_trial, k, getattr(rt, k))
        run_trial.__wrapped__ = rt      # keeps the signature
        spt.ra_mod.run_trial = run_trial
        return self

    def __exit__(self, *a):
        spt.ra_mod.run_trial = self.rt


def values(text):
    H, table, M = parse_ra(text)
    return {x: (n, {b: tuple(v) for b, v in T.items()}) for x, (n, T) in M.items()}, {b: r for b, r in table}


def same_results(m, a, b, mech, what):
    """trials and deviations, to the precision of the file"""
    (A, ta), (B, tb) = a, b
    m.check(set(A) == set(B) and set(ta) == set(tb), mech, lambda: f'{what}: {sorted(A)} {sorted(ta)} / {sorted(B)} {sorted(tb)}')
    for x in A:
        m.check(A[x][0] == B[x][0] and set(A[x][1]) == set(B[x][1]), mech, lambda: f'{what}: {x} {A[x][0]} trials of {sorted(A[x][1])} / {B[x][0]} of {sorted(B[x][1])}')
        for k in A[x][1]:
            m.close(A[x][1][k], B[x][1][k], mech, rtol=2e-6, msg=f'{what}: {x} bin {k}')
            m.event('trials-compared', len(A[x][1][k]))
    for k in ta:
        for x in ta[k]:
            m.check((ta[k][x] is None) == (tb[k][x] is None), mech, f'{what}: n_sigma')
            if ta[k][x] is not None:
                v = np.array(A[x][1][k])
                m.close(ta[k][x], tb[k][x], mech, rtol=2e-3, atol=1e-5 * abs(v.mean()) / max(v.std(), 1e-12 * abs(v.mean())) + 1e-3, msg=f'{what}: n_sigma {x} bin {k}')


@case('C32', quick=90, thorough=600, needs=('workers', 'delays', 'separate-runs', 'faults', 'resumed', 'trials-compared', 'kept'))
def repeatable(m, rng):
    """the same analysis, however it is scheduled, interrupted and continued, gives the same results"""
    with scratch():
        R, radius, craters = ra_source(rng, m, nmax=int(pick(rng, [5, 12, 30])), bins=2)
        B = by_bin(craters)
        both = ['m2cnd', 'sdaa']
        if not all(qualifying(B, x) for x in both):
            raise Skip
        N = int(10 ** rng.uniform(.4, 1.4))
        text = sp.scc(rng, R, radius, craters)
        m.note(rings=R.rings, radius=radius, craters=craters, trials=N)

        def analyse(d, measures, ncpu, delay=0., fault=None, trials=N):
            if not os.path.isdir(d):
                os.mkdir(d)
                gen.write(f'{d}/u.scc', text)
            np.random.seed(int(rng.integers(1 << 30)))
            np.random.rand(int(rng.integers(0, 700)))
            old = os.getcwd()
            os.chdir(d)
            try:
                with Disturb(int(rng.integers(1000)), delay, fault), Log('log') as log, cpus(ncpu):
                    rec = run(['-ra', 'u.scc', '-trials', str(trials), '-f', 'svg', '-measure', ','.join(measures)], catch=(Exception,))
                L = log.read()
                if rec.exc is not None and not (fault and 'injected fault' in str(rec.exc)):
                    raise rec.exc
                ra = None
                if os.path.exists('u_ra.txt'):
                    with open('u_ra.txt') as f:
                        ra = f.read()
                return ra, rec.exc, L
            finally:
                os.chdir(old)
        ref, _, L0 = m.call(analyse, 'a', both, 2)
        V = values(ref)
        m.event('workers', len({x[-1] for x in L0 if x[0] is not None}))
        k = int(rng.integers(0, 3))
        if k == 0:
            ncpu = int(pick(rng, [3, 5, 9]))
            t, _, L = m.call(analyse, 'b', both[::-1], ncpu, delay=float(pick(rng, [0, .02, .05])))
            same_results(m, V, values(t), 'schedule', f'{ncpu} processors')
            m.event('delays')
            m.event('workers', len({x[-1] for x in L if x[0] is not None}))
        elif k == 1:
            o = both if rng.random() < .5 else both[::-1]
            m.call(analyse, 'b', o[:1], int(pick(rng, [2, 4])))
            t, _, L = m.call(analyse, 'b', o[1:] if rng.random() < .5 else both, int(pick(rng, [2, 4])))
            m.check(all(x[1] == o[1] for x in L if x[0] is not None), 'trials-repeated', lambda: f'{o[0]} run again')
            same_results(m, V, values(t), 'separate-runs', f'{o}')
            m.event('separate-runs')
        else:
            bad = pick(rng, both)
            t, exc, L = m.call(analyse, 'b', both, int(pick(rng, [2, 4])), delay=.01, fault=(bad, int(rng.integers(0, N))))
            m.check(exc is not None, 'fault-hidden', 'analysis ended normally although a trial failed')
            m.event('faults')
            done = {x[1] for x in L if x[0] is None}    # measures of actual craters evaluated: complete
            P = values(t) if t else ({}, {})
            m.check(bad not in P[0], 'partial-results', lambda: f'{bad} in the results although interrupted')
            m.check(done - {bad} <= set(P[0]), 'results-lost', lambda: f'{done} complete, {sorted(P[0])} in the file')
            for x in P[0]:
                m.check(P[0][x][0] == N, 'partial-results', lambda: f'{x}: {P[0][x][0]} of {N}')
                m.event('kept')
            t, _, L = m.call(analyse, 'b', both, int(pick(rng, [2, 4])))
            m.check(all(x[1] == bad or x[1] not in P[0] for x in L if x[0] is not None), 'trials-repeated', lambda: 'completed measure run again')
            same_results(m, V, values(t), 'resumed', f'after fault in {bad}')
            m.event('resumed')
    m.sig(round(R.area(), 12), N, k, len(craters))

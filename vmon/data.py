"""Monitors of crater count data: reading, writing, merging, binning, presentation, range, history."""
import copy
import os

import numpy as np

import craterstats as cst
import craterstats.cli
import craterstats.gm as gm
from . import gen
from .core import case, scratch, quiet, Skip


# ======================================================================================== C01
def _pairs(d, f):
    return sorted((float(a), float(b)) for a, b in zip(d, f))


def _check_list(m, cc, d, f, a, per, what):
    got = _pairs(m.call(lambda: list(cc.diam)), list(cc.fraction))
    want = _pairs(d, f)
    m.check(len(got) == len(want), 'crater-lost-or-invented', lambda: f'{what}: {len(got)} craters read, {len(want)} listed')
    m.check([g[0] for g in got] == [w[0] for w in want], 'diameter-changed', lambda: f'{what}: {got} != {want}')
    m.close([g[1] for g in got], [w[1] for w in want], 'fraction-detached', rtol=1e-15, msg=what)
    m.check(abs(cc.area - a) <= 1e-15 * a, 'area-changed', lambda: f'{what}: area {cc.area!r} expected {a!r}')
    if per is not None:
        m.check(cc.perimeter is not None and abs(cc.perimeter - per) <= 1e-15 * per, 'perimeter-changed',
                lambda: f'{what}: perimeter {cc.perimeter!r} expected {per!r}')
    else:
        m.check(cc.perimeter is None, 'perimeter-invented', lambda: f'{what}: perimeter {cc.perimeter!r} but none in file')


@case('C01', quick=5400, thorough=40000)
def diam_list(m, rng):
    d = gen.diameters(rng, n=int(rng.integers(1, 40)), edges=True) if rng.random() < .9 else np.array([float(rng.uniform(.01, 9))])
    f = gen.fractions(rng, len(d)) if rng.random() < .7 else None
    a, per = gen.area(rng), (gen.area(rng) if rng.random() < .4 else None)
    t = gen.diam_text(rng, d, f, a, per)
    m.note(text=t)
    with scratch():
        name = str(rng.choice(['a.diam', 'some name.diam', 'x.y-1.diam', 'd(1).diam']))
        gen.write(name, t)
        cc = m.call(cst.Cratercount, name)
        _check_list(m, cc, d, f if f is not None else np.ones(len(d)), a, per, 'diam')
        # the plotted counts carry the same craters
        p = m.call(cc.getplotdata, 'incremental', 'none')
        fr = f if f is not None else np.ones(len(d))
        m.close(p['n'], np.sum(fr), 'plotted-count', rtol=1e-12)
        m.close(p['n_event'], len(d), 'plotted-events', rtol=0)
    m.sig(len(d), f is not None, per is not None, '\r' in t, t[0] == '\ufeff', 'lon' in t)
    m.sample(dict(text=t[:600]))


@case('C01', quick=1500, thorough=10000)
def diam_buffered(m, rng):
    d = gen.diameters(rng, n=int(rng.integers(1, 30)), edges=True)
    ref = 10 ** rng.uniform(0, 4, len(d))
    t = gen.diam_text(rng, d, None, None, None, ref=ref)
    m.note(text=t)
    with scratch():
        gen.write('b.diam', t)
        cc = m.call(cst.Cratercount, 'b.diam')
        # cumulative density is the sum of 1/reference area of the larger craters
        m.close(sum(sorted(f / cc.area for f in cc.fraction)), sum(sorted(1 / ref)), 'buffered-density', rtol=1e-12)
        got = _pairs(cc.diam, [f / cc.area for f in cc.fraction])
        want = _pairs(d, 1 / ref)
        m.check([g[0] for g in got] == [w[0] for w in want], 'diameter-changed', 'buffered list')
        m.close([g[1] for g in got], [w[1] for w in want], 'fraction-detached', rtol=1e-14)
        u, i = np.unique(np.sort(d), return_index=True)
        if len(u) == len(d):
            p = m.call(cc.getplotdata, 'cumulative', 'none')
            q = np.argsort(d)
            m.close(p['d'], d[q], 'buffered-plot-diameter', rtol=1e-15)
            m.close(p['y'], np.cumsum((1 / ref)[q][::-1])[::-1], 'buffered-plot-density', rtol=1e-11)
    m.sig(len(d), 'b', t.count('#'))


@case('C01', quick=3000, thorough=20000)
def scc_list(m, rng):
    d = gen.diameters(rng, n=int(rng.integers(1, 40)), edges=True)
    f = gen.fractions(rng, len(d)) if rng.random() < .6 else None
    a, per = gen.area(rng), (gen.area(rng) if rng.random() < .5 else None)
    t = gen.scc_text(rng, d, f, a, per, units=bool(rng.random() < .8))
    m.note(text=t)
    with scratch():
        gen.write('a.scc', t)
        cc = m.call(cst.Cratercount, 'a.scc')
        _check_list(m, cc, d, f if f is not None else np.ones(len(d)), a, per, 'scc')
    m.sig('scc', len(d), f is not None, per is not None, 'e' in t.split('Total_area')[1].split('\n')[0])
    m.sample(dict(text=t[-500:]))


@case('C01', quick=1200, thorough=6000)
def stat_list(m, rng):
    """author's 7-column tables: density and count columns, D ascending"""
    n = int(rng.integers(2, 15))
    e = gen.series('pseudo-log', .05, 5.)
    i0 = int(rng.integers(0, len(e) - n - 1))
    e = e[i0:i0 + n + 1]
    k = rng.integers(1, 60, n)
    if rng.random() < .3:
        k[rng.integers(0, n - 1)] = 0
    nc = np.cumsum(k[::-1])[::-1]
    a = gen.area(rng)
    t = '# Exported stat file\n# Total area = 1.\n'
    for j in range(n):
        t += f'{e[j]:<7.5g} {k[j]:>11d} {k[j] / a:12.5E} {k[j] ** .5 / a:12.5E} {nc[j]:>11d} {nc[j] / a:14.9E} {nc[j] ** .5 / a:12.5E}\n'
        if rng.random() < .1:
            t += '\n'
    m.note(text=t)
    with scratch():
        gen.write('s.stat', t)
        cc = m.call(cst.Cratercount, 's.stat')
        m.close(cc.area, a, 'stat-area', rtol=1e-8)
        q = k > 0
        p = m.call(cc.getplotdata, 'cumulative', 'pseudo-log')
        m.close(p['d'], e[:-1][q], 'stat-cumulative-d', rtol=1e-12)
        m.close(p['y'], nc[q] / a, 'stat-cumulative-y', rtol=1e-8)
        m.close(p['err'], nc[q] ** .5 / a, 'stat-cumulative-err', rtol=1e-8)
        p = m.call(cc.getplotdata, 'incremental', 'pseudo-log')
        m.close(p['y'], k[q] / a, 'stat-incremental-y', rtol=1e-8)
        m.close(p['n'], k.sum(), 'stat-total', rtol=1e-12)
        m.close(p['d'][:-1] if q[-1] else p['d'], np.sqrt(e[:-1] * e[1:])[q][:-1 if q[-1] else None], 'stat-mean-d', rtol=1e-9)
    m.sig('stat', n, i0, k.tolist())


# ======================================================================================== C02
def _mk(m, rng, d, f, a, per=None, name='s.diam'):
    gen.write(name, gen.diam_text(rng, d, f, a, per, plain=True))
    return m.call(cst.Cratercount, name)


@case('C02', quick=2500, thorough=20000)
def stat_export(m, rng):
    d = gen.diameters(rng)
    f = gen.fractions(rng, len(d))
    a = gen.area(rng)
    b = str(rng.choice(gen.BINNINGS[:-1]))
    m.note(d=d, f=f, area=a, binning=b)
    ref = gen.Ref(d, f, a, b)
    if len(ref.n) < 2:
        raise Skip
    with scratch():
        src = str(rng.choice(['diam', 'scc']))
        if src == 'diam':
            cc = _mk(m, rng, d, f, a)
        else:
            gen.write('s.scc', gen.scc_text(rng, d, f, a))
            cc = m.call(cst.Cratercount, 's.scc')
        if rng.random() < .3:  # earlier use with another binning must not leak in
            m.call(cc.getplotdata, 'R-plot', str(rng.choice(gen.BINNINGS)))
        if b == 'pseudo-log' and rng.random() < .5:
            m.call(cc.WriteStatFile, 'o.stat')
        else:
            m.call(cc.WriteStatFile, 'o.stat', b)
        rows = [r.split() for r in open('o.stat', encoding='utf-8').read().splitlines() if r.strip() and not r.startswith('#')]
        m.check(len(rows) == len(ref.n), 'stat-rows', lambda: f'{len(rows)} rows for {len(ref.n)} non-empty bins')
        m.check(all(len(r) == 11 for r in rows), 'stat-columns', lambda: f'{rows}')
        t = np.array(rows, float).T
        s = lambda x: np.sqrt(x)
        cols = [('d_min', ref.lo, 1e-4), ('n', ref.n, 1e-4), ('n_density', ref.n / a, 1e-3), ('n_density_err', ref.n / a / s(ref.n), 1e-3),
                ('ncum', ref.nc, 1e-4), ('ncum_density', ref.nc / a, 1e-3), ('ncum_density_err', ref.nc / a / s(ref.nc), 1e-3),
                ('d_mean', ref.mean, 1e-3), ('n_diff', ref.n / a / ref.w, 1e-3), ('n_diff_err', ref.n / a / ref.w / s(ref.ne), 1e-3),
                ('n_event', ref.ne, 1e-4)]
        for i, (name, want, tol) in enumerate(cols):
            m.close(t[i], want, 'stat-' + name, rtol=tol, msg=name)
        # read back: all presentations agree within printed precision
        c2 = m.call(cst.Cratercount, 'o.stat')
        m.close(c2.area, a, 'reread-area', rtol=2e-3)
        for pres in gen.PRESENT:
            p1, p2 = m.call(cc.getplotdata, pres, b), m.call(c2.getplotdata, pres, 'pseudo-log')
            m.check(len(p1['d']) == len(p2['d']), 'reread-bins', lambda: f'{pres}: {len(p1["d"])} != {len(p2["d"])}')
            m.close(p2['d'], p1['d'], 'reread-d', rtol=3e-3, msg=pres)
            # narrow bins: width comes from the printed boundaries / differential density
            m.close(p2['y'], p1['y'], 'reread-y', rtol=8e-3, msg=pres)
            m.close(p2['err'] / p2['y'], p1['err'] / p1['y'], 'reread-relerr', rtol=4e-3, msg=pres)
            m.close(p2['n'], p1['n'], 'reread-n', rtol=1e-4, msg=pres)
            m.close(p2['n_event'], p1['n_event'], 'reread-events', rtol=1e-4, msg=pres)
            m.event('roundtrips')
    m.sig(b, len(ref.n), bool((f < 1).any()), bool((np.diff(np.log(ref.lo)) > .8).any()))
    m.sample(dict(binning=b, area=a, rows=rows[:3]))


# ======================================================================================== C03
@case('C03', quick=1250, thorough=8000)
def merge(m, rng):
    k = int(rng.integers(2, 5))
    parts = []
    sig6 = rng.random() < .7
    for i in range(k):
        d = gen.diameters(rng, n=int(rng.integers(1, 25)), edges=True)
        if sig6:
            d = np.array([float(f'{x:.6g}') for x in d])
        f = gen.fractions(rng, len(d))
        if sig6:
            f = np.array([float(f'{x:.6g}') for x in f])
        parts.append((d, f, gen.area(rng), gen.area(rng) if rng.random() < .6 else None))
    with scratch():
        names = []
        for i, (d, f, a, per) in enumerate(parts):
            if rng.random() < .5:
                nm = str(rng.choice([f'p{i}.diam', f'p-{i}x.diam']))
                gen.write(nm, gen.diam_text(rng, d, f, a, per))
            else:
                nm = f'p{i}.scc'
                gen.write(nm, gen.scc_text(rng, d, f, a, per))
            names.append(nm)
        order = rng.permutation(k)
        out = str(rng.choice(['m', 'm.diam', 'merged file']))
        given = rng.random() < .8
        args = [str(rng.choice(['-m', '--merge']))] + [f'"{names[i]}"' if rng.random() < .2 else names[i] for i in order] + (['-o', out] if given else [])
        m.note(args=args, parts=[(p[0], p[1], p[2], p[3]) for p in parts])
        with quiet():
            m.call(cst.cli.main, args)
        new = sorted(set(os.listdir('.')) - set(names))
        m.check(len(new) == 1 and new[0].endswith('.diam'), 'merge-output', lambda: f'new files {new}')
        if given:
            m.check(new[0] == gm.filename(out, 'n') + '.diam', 'merge-output-name', lambda: f'{new} for -o {out}')
        else:
            m.check(new[0] == '_'.join(sorted(n.rsplit('.', 1)[0] for n in names)) + '.diam', 'merge-output-name', lambda: f'{new}')
        cc = m.call(cst.Cratercount, new[0])
        got = _pairs(cc.diam, cc.fraction)
        want = _pairs(np.concatenate([p[0] for p in parts]), np.concatenate([p[1] for p in parts]))
        m.check(len(got) == len(want), 'merge-crater-count', lambda: f'{len(got)} craters after merge, {len(want)} before')
        g, w = np.array(got), np.array(want)
        if sig6:
            m.close(g, w, 'merge-craters', rtol=1e-12)
        else:
            m.close(g[:, 0], w[:, 0], 'merge-craters', rtol=1e-5)
            m.close(np.sum(g[:, 1]), np.sum(w[:, 1]), 'merge-fractions', rtol=1e-5)
        m.close(cc.area, sum(p[2] for p in parts), 'merge-area', rtol=1e-12)
        pers = [p[3] for p in parts]
        if all(p is not None for p in pers):
            m.close(-1. if cc.perimeter is None else cc.perimeter, sum(pers), 'merge-perimeter', rtol=1e-12)
            m.event('perimeters-known')
        else:
            m.check(cc.perimeter is None, 'merge-perimeter-invented', lambda: f'perimeter {cc.perimeter} from {pers}')
        for i in range(k):  # sources untouched
            c0 = m.call(cst.Cratercount, names[i])
            m.check(_pairs(c0.diam, c0.fraction) == _pairs(parts[i][0], parts[i][1]), 'merge-source-changed', names[i])
    m.sig(k, len(want), sig6, given, tuple(p is None for p in pers))
    m.sample(dict(args=args, n=[len(p[0]) for p in parts]))


# ======================================================================================== C04
_KEY0, _KEYC = 'abcdefghijklmnopqrstuvwxyzABCXYZ', 'abcdefghijklmnopqrstuvwxyz_0123456789.'


def _key(rng, used):
    while True:
        k = str(rng.choice(list(_KEY0))) + ''.join(rng.choice(list(_KEYC), int(rng.integers(0, 8))))
        if k not in used and k != 'end':
            used.add(k)
            return k


def _word(rng, chars='abcXYZ0189.-+/:&()%'):
    return ''.join(rng.choice(list(chars), int(rng.integers(1, 9))))


def _atom(rng):
    """(text, value) of a simple value"""
    r = rng.integers(0, 5)
    if r == 0:
        w = _word(rng, 'abcXYZ0189.-+/:&%')
        return w, w
    if r == 1:
        w = ' '.join(_word(rng, 'abcXYZ0189.-+/:&%,()') for _ in range(int(rng.integers(1, 4))))
        q = str(rng.choice(['"', "'"]))
        extra = str(rng.choice(['', '; not a comment', ' = x', "it's" if q == '"' else 'say "x"']))
        return q + w + extra + q, w + extra
    if r == 2:
        v = repr(float(10 ** rng.uniform(-9, 9)))
        return v, v
    if r == 3:
        w = [_word(rng, 'abcXYZ0189.-+') for _ in range(int(rng.integers(1, 6)))]
        o, c = ('[', ']') if rng.random() < .7 else ('(', ')')
        sep = str(rng.choice([',', ', ', ' , ', ',\n   ']))
        t = o + sep.join(f"'{x}'" if rng.random() < .3 else x for x in w) + c
        return ('*' if rng.random() < .1 else '') + t, w
    w = ' '.join(_word(rng, 'abcXYZ') for _ in range(int(rng.integers(1, 4))))
    return w, w


def _struct(rng, depth):
    """(text, model) of a structure body"""
    used, t, model = set(), '', {}
    cm = lambda: str(rng.choice(['', '', '# c = 1\n', '; c = 2\n', '\n', '  # }\n', '#{\n']))
    ind = ' ' * int(rng.integers(0, 4))
    for _ in range(int(rng.integers(1, 5))):
        k = _key(rng, used)
        r = rng.random()
        eq = str(rng.choice(['=', ' = ', ' =', '= ']))
        tail = str(rng.choice(['', '  ', ' ; comment = {', ' ;x']))
        if r < .2 and depth > 0:
            rep = int(rng.integers(1, 4)) if rng.random() < .5 else 1
            vals = []
            for _ in range(rep):
                bt, bm = _struct(rng, depth - 1)
                t += f'{ind}{k}{eq}{{\n{bt}{ind}}}\n' + cm()
                vals.append(bm)
            model[k] = vals[0] if rep == 1 else vals
        elif r < .45:
            ncol, nrow = int(rng.integers(1, 5)), int(rng.integers(1, 7))
            cu = set()
            cols = [_key(rng, cu).replace('.', '_') for _ in range(ncol)]
            if len(set(cols)) < ncol:
                cols = [f'c{i}' for i in range(ncol)]
            body = ''
            mod = {c: [] for c in cols}
            sep = str(rng.choice([' ', '\t', '   ']))
            for _ in range(nrow):
                row = []
                full = ncol if rng.random() < .8 else int(rng.integers(1, ncol + 1))
                for j in range(ncol):
                    if j >= full:
                        mod[cols[j]].append('')
                    elif rng.random() < .3:
                        w = _word(rng) + ' ' + _word(rng)
                        row.append(f'"{w}"')
                        mod[cols[j]].append(w)
                    else:
                        w = _word(rng, 'abcXYZ0189.-+')
                        row.append(w)
                        mod[cols[j]].append(w)
                body += str(rng.choice(['', '  '])) + sep.join(row) + tail + '\n' + (cm() if rng.random() < .2 else '')
            t += f'{ind}{k}{eq}{{' + ','.join(cols) + '\n' + body + ind + '}\n' + cm()
            model[k] = mod
        else:
            rep = int(rng.integers(2, 4)) if rng.random() < .15 else 1
            vals = []
            for _ in range(rep):
                at, av = _atom(rng)
                if rep > 1 and isinstance(av, list):
                    at, av = 'w1', 'w1'
                t += f'{ind}{k}{eq}{at}{tail}\n' + cm()
                vals.append(av)
            model[k] = vals[0] if rep == 1 else vals
    return t, model


@case('C04', quick=6000, thorough=60000)
def textstructure(m, rng):
    t, model = _struct(rng, 1)
    m.note(text=t, model=model)
    with scratch():
        if rng.random() < .2:
            t = '\ufeff' + t
        gen.write('t.txt', t)
        s = m.call(gm.read_textstructure, 't.txt')

        def norm(x):
            if isinstance(x, dict):
                return {k: norm(v) for k, v in sorted(x.items())}
            return [norm(e) for e in x] if isinstance(x, (list, tuple)) else x

        m.check(norm(s) == norm(model), 'structure-differs', lambda: f'read {norm(s)}\nwritten {norm(model)}')
    m.sig(repr(sorted((k, type(v).__name__) for k, v in model.items()))[:200], t.count('{'))
    m.event('tags', len(model))
    m.sample(dict(text=t[:500]))


@case('C04', quick=120, thorough=400, needs=('user-functions', 'used-from-elsewhere'))
def user_functions(m, rng):
    """a user's own functions file adds its systems beside those supplied"""
    with scratch() as dd:
        os.makedirs('etc')
        n = int(rng.integers(1, 4))
        t = '# user functions\n'
        names = []
        for i in range(n):
            c = np.round(np.append([-3.], rng.uniform(-3.5, -2.5)), 3)
            names.append(f'User system {i} {int(rng.integers(1, 999))}')
            t += (f"chronology_system={{\n body='Moon'\n name='{names[i]}'\n cf='Moon, Neukum (1983)'\n pf='P{i} (2020)'\n}}\n"
                  f"production={{\n name='P{i} (2020)'\n range=[0.01,100.]\n"
                  f" coefficients=*[{c[0]},{c[1]},-0.1]\n}}\n")
        name = ['my functions.txt', 'uf.txt', 'sub/u f.txt'][int(rng.integers(3))]
        os.makedirs('sub')
        os.makedirs('elsewhere')
        gen.write(name, t.rstrip('\n') if rng.random() < .3 else t)
        base = m.call(cst.Functionslist).functions
        os.environ['CONDA_PREFIX'] = dd
        given = name if rng.random() < .6 else os.path.join(dd, name)
        m.note(text=t, path=given)
        try:
            with quiet():
                m.call(cst.cli.main, ['--functions_user'] + (given.split(' ') if rng.random() < .7 else [given]))
            if rng.random() < .6:
                os.chdir('elsewhere')
                m.event('used-from-elsewhere')
            with quiet() as (o, _):
                fl = m.call(cst.Functionslist).functions
                m.call(cst.cli.main, ['-lcs'])
            m.check(all(x in o.getvalue() for x in names), 'user-functions-not-listed', lambda: o.getvalue()[-300:])
        finally:
            del os.environ['CONDA_PREFIX']
            os.chdir(dd)
        for k in base:
            b = [e['name'] for e in base[k]] if isinstance(base[k], list) else [base[k]['name']]
            g = [e['name'] for e in fl[k]] if isinstance(fl[k], list) else [fl[k]['name']]
            m.check(g[:len(b)] == b, 'supplied-functions-lost', lambda: f'{k}: {g} vs {b}')
        g = [e['name'] for e in fl['chronology_system']]
        m.check(g[-n:] == names, 'user-functions-missing', lambda: f'{g[-n:]} {names}')
        for i in range(n):
            pf = m.call(cst.Productionfn, fl, f'P{i} (2020)')
            e = next(x for x in fl['production'] if x['name'] == f'P{i} (2020)')
            c = [float(x) for x in e['coefficients']]
            d = np.array([.1, 1., 10.])
            x = np.log10(d)
            m.close(m.call(pf.evaluate, 'cumulative', d), 10 ** (c[0] + c[1] * x + c[2] * x * x), 'user-function-value', rtol=1e-9)
        m.event('user-functions', n)
        m.sig('uf', n, names)


# ======================================================================================== C06
@case('C06', quick=4500, thorough=40000)
def binning(m, rng):
    """each crater in exactly one bin of the documented series, craters may lie exactly on boundaries"""
    d = gen.diameters(rng, edges=True)
    f = gen.fractions(rng, len(d))
    a, b = gen.area(rng), str(rng.choice(gen.BINNINGS[:-1]))
    m.note(d=d, f=f, area=a, binning=b)
    with scratch():
        cc = _mk(m, rng, d, f, a)
        cum, inc = (m.call(cc.getplotdata, p, b) for p in ('cumulative', 'incremental'))
        rp = m.call(cc.getplotdata, 'R-plot', b)
    lo = np.asarray(cum['d'])
    hi = inc['d'] ** 2 / lo
    n, ne = inc['y'] * a, (inc['y'] / inc['err']) ** 2
    e = gen.series(b, d.min(), d.max())
    i = np.array([int(np.argmin(abs(np.log(e / x)))) for x in lo])
    m.close(lo, e[i], 'bin-boundary', rtol=1e-9, msg='lower')
    m.check(len(set(i.tolist())) == len(i), 'bin-duplicated', lambda: f'{lo}')
    m.close(hi, e[i + 1], 'bin-boundary', rtol=1e-8, msg='upper')
    m.close(inc['d'] ** 3 * n / a / (hi - lo), rp['y'], 'bin-width', rtol=1e-6)
    # membership: strictly-inside craters are decided, those within 1e-9 of a boundary may fall on either side
    lo_n, hi_n, lo_e, hi_e = (np.zeros(len(lo)) for _ in range(4))
    for x, w in zip(d, f):
        inside = (x > e[i] * (1 + 1e-9)) & (x < e[i + 1] * (1 - 1e-9))
        near = (x > e[i] * (1 - 1e-9)) & (x < e[i + 1] * (1 + 1e-9))
        m.check(near.any(), 'crater-not-in-any-bin', lambda: f'{x} not in {list(zip(lo, hi))}')
        lo_n += w * inside
        hi_n += w * near
        lo_e += inside
        hi_e += near
    m.check(np.all((n > lo_n - 1e-9 * (1 + lo_n)) & (n < hi_n + 1e-9 * (1 + hi_n))), 'bin-count',
            lambda: f'{n} not within {lo_n} {hi_n}')
    m.check(np.all((ne > lo_e - 1e-6 * (1 + lo_e)) & (ne < hi_e + 1e-6 * (1 + hi_e))), 'bin-events',
            lambda: f'{ne} not within {lo_e} {hi_e}')
    m.close(n.sum(), f.sum(), 'conservation-n', rtol=1e-10)
    m.close(ne.sum(), len(d), 'conservation-events', rtol=1e-10)
    m.close(cum['y'] * a, np.cumsum(n[::-1])[::-1], 'cumulative-sum', rtol=1e-10)
    m.close((cum['y'] / cum['err']) ** 2, np.cumsum(ne[::-1])[::-1], 'cumulative-events', rtol=1e-9)
    m.close([cum['n'], cum['n_event']], [f.sum(), len(d)], 'total', rtol=1e-10)
    m.close(cum['bin_range'], [e[i[0]], e[i[-1] + 1]], 'bin-range', rtol=1e-9)
    m.event('boundary-craters', int(sum(np.min(abs(e / x - 1)) < 1e-9 for x in d)))
    m.sig(b, len(lo), len(d), int(i[0]), int(i[-1] - i[0]))
    m.sample(dict(binning=b, d=d[:8].tolist(), bins=lo[:8].tolist(), n=n[:8].tolist()))


@case('C06', quick=2000, thorough=15000)
def company(m, rng):
    """the bin of a crater does not depend on the other craters counted"""
    d = gen.diameters(rng, edges=True)
    if rng.random() < .5:  # extreme craters on boundaries
        d = np.append(d, [float(rng.choice(gen.PSEUDO)) * 10. ** rng.integers(int(np.floor(np.log10(d.max()))) + 1, 4),
                          10. ** rng.integers(-4, int(np.floor(np.log10(d.min()))) + 1)])
    f = gen.fractions(rng, len(d))
    a, b = gen.area(rng), str(rng.choice(gen.BINNINGS[:-1]))
    up = np.sort(d.max() * 10 ** rng.uniform(.4, 2, int(rng.integers(0, 4))))
    down = np.sort(d.min() / 10 ** rng.uniform(.4, 2, int(rng.integers(0 if len(up) else 1, 4))))
    d2, f2 = np.concatenate((down, d, up)), np.concatenate((np.ones(len(down)), f, np.ones(len(up))))
    m.note(d=d, up=up, down=down, f=f, area=a, binning=b)
    with scratch():
        p = m.call(_mk(m, rng, d, f, a).getplotdata, 'incremental', b)
        p2 = m.call(_mk(m, rng, d2, f2, a).getplotdata, 'incremental', b)
    q = (p2['d'] > d.min() / 1.45) & (p2['d'] < d.max() * 1.45)
    m.close(p2['d'][q], p['d'], 'bin-depends-on-other-craters', rtol=1e-9)
    m.close(p2['y'][q], p['y'], 'bin-depends-on-other-craters', rtol=1e-9)
    m.close(p2['err'][q], p['err'], 'bin-depends-on-other-craters', rtol=1e-9)
    m.event('extreme-on-boundary', int(min(abs(gen.series(b, d.max(), d.max()) / d.max() - 1)) < 1e-12))
    m.sig('company', b, len(p['d']), len(up), len(down))


@case('C06', quick=1250, thorough=8000)
def unbinned(m, rng):
    d = gen.diameters(rng, edges=True)
    f = gen.fractions(rng, len(d))
    a = gen.area(rng)
    m.note(d=d, f=f, area=a)
    with scratch():
        cc = _mk(m, rng, d, f, a)
        cum, inc = (m.call(cc.getplotdata, p, 'none') for p in ('cumulative', 'incremental'))
    q = np.argsort(d, kind='stable')
    m.close(cum['d'], d[q], 'unbinned-d', rtol=1e-15)
    m.check(len(cum['y']) == len(d), 'unbinned-count', '')
    # craters of equal diameter may be listed in either order
    u = np.unique(d)
    first = np.searchsorted(d[q], u)
    want = np.array([f[d >= x].sum() for x in u])
    m.close(cum['y'][first] * a, want, 'unbinned-cumulative', rtol=1e-10)
    m.close((cum['y'] / cum['err'])[first] ** 2, [(d >= x).sum() for x in u], 'unbinned-events', rtol=1e-9)
    for x in u[:20]:
        m.close(np.sort(inc['y'][cum['d'] == x]) * a, np.sort(f[d == x]), 'unbinned-fraction', rtol=1e-10)
    m.close([inc['n'], inc['n_event']], [f.sum(), len(d)], 'total', rtol=1e-10)
    m.close(cum['bin_range'], [d.min(), d.max()], 'bin-range', rtol=1e-12)
    m.sig('none', len(d), len(u), bool((f < 1).any()))


@case('C06', quick=1000, thorough=8000)
def offset_bins(m, rng):
    """fractionally offset binnings (used for randomness analysis) keep ratio and contain every crater"""
    d = gen.diameters(rng)
    f = gen.fractions(rng, len(d))
    a, b, off = gen.area(rng), str(rng.choice(gen.BINNINGS[1:-1])), float(rng.choice([0., .25, .5, .75, rng.uniform(0, 1)]))
    m.note(d=d, f=f, area=a, binning=b, offset=off)
    e = gen.series(b, d.min(), d.max(), off)
    if np.min(abs(e[:, None] / d[None, :] - 1)) < 1e-8:
        raise Skip
    with scratch():
        cc = _mk(m, rng, d, f, a)
        m.call(cc.apply_binning, b, offset=off)
        cum, inc = (m.call(cc.getplotdata, p, b) for p in ('cumulative', 'incremental'))
    ref = gen.Ref(d, f, a, b, off)
    m.close(cum['d'], ref.lo, 'offset-boundary', rtol=1e-9)
    m.close(inc['d'], ref.mean, 'offset-mean', rtol=1e-9)
    m.close(inc['y'] * a, ref.n, 'offset-count', rtol=1e-10)
    m.close(inc['n_event'], len(d), 'conservation-events', rtol=1e-10)
    m.sig(b, round(off, 3), len(ref.n))


# ======================================================================================== C07
_PF = {}


def pf_any(rng, tabular=False):
    if not _PF:
        _PF['f'] = cst.Functionslist().functions
        _PF['names'] = []
        for e in _PF['f']['production']:
            try:
                p = cst.Productionfn(_PF['f'], e['name'])
                _PF[e['name']] = p
                _PF['names'].append(e['name'])
            except BaseException:
                pass
    n = str(rng.choice(_PF['names']))
    return n, _PF[n]


@case('C07', quick=4200, thorough=30000)
def presentation(m, rng):
    d = gen.diameters(rng)
    f = gen.fractions(rng, len(d))
    a, b = gen.area(rng), str(rng.choice(gen.BINNINGS))
    ref = gen.Ref(d, f, a, b)
    m.note(d=d, f=f, area=a, binning=b)
    got = {}
    with scratch():
        cc = _mk(m, rng, d, f, a)
        pres = gen.PRESENT if b != 'none' else ['cumulative', 'incremental']
        for p in rng.permutation(pres):
            p = str(p)
            r = m.call(cc.getplotdata, p, b)
            got[p] = r
            if b == 'none' and p == 'incremental' and len(np.unique(d)) < len(d):
                continue
            x, y, err = ref.xy(p)
            if b == 'none' and len(np.unique(d)) < len(d):
                first = np.searchsorted(np.sort(d), np.unique(d))
                m.close(np.asarray(r['y'])[first], y[first], 'density-' + p, rtol=1e-9, msg=b)
                continue
            m.close(r['d'], x, 'diameter-' + p, rtol=1e-9, msg=b)
            m.close(r['y'], y, 'density-' + p, rtol=1e-9, msg=b)
            # 1/sqrt(N) of craters counted (before or after bin bias correction)
            e1, e2 = np.asarray(r['err']), np.asarray(err)
            m.check(len(e1) == len(e2) and (np.allclose(e1, e2, rtol=1e-8, atol=0) or np.allclose(e1, e2 * y / ref.xy(p, lambda z: z ** 0.)[1]
                    if False else e2 / (ref.bias() if p == 'differential' else 1.), rtol=1e-8, atol=0)),
                    'error-' + p, lambda: f'{b} {e1} expected {e2}')
            m.close([r['n'], r['n_event']], [f.sum(), len(d)], 'counts-' + p, rtol=1e-10)
            m.event('presentations')
    m.sig(b, len(ref.n), bool((f < 1).any()))
    m.sample(dict(binning=b, area=a, d=d[:5].tolist(), y={k: v['y'][:3].tolist() for k, v in got.items()}))


@case('C07', quick=1500, thorough=8000)
def bias_correction(m, rng):
    """differential points are corrected with the slope of the production function in the bin"""
    name, pf = pf_any(rng)
    lo, hi = (float(x) for x in pf.range)
    lo, hi = max(lo, 2e-3), min(hi, 300.)
    b = str(rng.choice(gen.BINNINGS[:-1]))
    n = int(rng.integers(3, 60))
    d = gen.off_edges(10 ** rng.uniform(np.log10(lo) + .31, np.log10(hi) - .31, n)) if hi / lo > 6 else None
    if d is None:
        raise Skip
    f = gen.fractions(rng, n)
    a = gen.area(rng)
    m.note(pf=name, d=d, f=f, area=a, binning=b)
    ref = gen.Ref(d, f, a, b)
    C = lambda z: np.asarray(pf.evaluate('cumulative', z), float)
    with np.errstate(all='ignore'):
        x, y, err = ref.xy('differential', C)
        flat = ~np.isfinite(y) | (abs(np.log(C(ref.hi) / C(ref.lo)) / np.log(ref.hi / ref.lo)) < 1e-3)
    with scratch():
        cc = _mk(m, rng, d, f, a)
        r = m.call(cc.getplotdata, 'differential', b, pf=pf)
        r3 = m.call(cc.getplotdata, 'differential', b)
    m.close(r['d'], x, 'diameter-differential', rtol=1e-9)
    m.close(r['y'][~flat], y[~flat], 'bias-corrected', rtol=1e-6, msg=f'{name} {b}')
    m.close(r3['y'], ref.xy('differential')[1], 'bias-corrected-default-slope', rtol=1e-9)
    m.event('bias-bins', int((~flat).sum()))
    m.sig(name, b, len(x))


@case('C07', quick=360, thorough=2000)
def bias_physical(m, rng):
    """a population with exactly the production function's expected number in each bin plots on the function"""
    name, pf = pf_any(rng)
    if 'Hartmann' in name:  # piecewise tables: not smooth enough for this oracle
        raise Skip
    lo, hi = (float(x) for x in pf.range)
    b = str(rng.choice(gen.BINNINGS[:-1]))
    e = gen.series(b, lo, hi)
    e = e[(e > lo * 1.02) & (e < hi / 1.02)]
    if len(e) < 4:
        raise Skip
    C = np.asarray(pf.evaluate('cumulative', e), float)
    mean = np.sqrt(e[1:] * e[:-1])
    w = C[:-1] - C[1:]
    if not np.all(np.isfinite(C)) or np.any(w <= 0):
        raise Skip
    s = w / w.max()
    a = 1.
    m.note(pf=name, binning=b)
    with scratch():
        cc = _mk(m, rng, mean, s, a)
        r = m.call(cc.getplotdata, 'differential', b, pf=pf)
        r2 = m.call(cc.getplotdata, 'cumulative', b)
    F = np.asarray(pf.evaluate('differential', mean), float) / w.max()
    # second-order departure of the function from a power law within a bin
    with np.errstate(all='ignore'):
        x = np.log(e)
        k = np.diff(np.log(C)) / np.diff(x)
        curv = np.abs(np.gradient(k)) * np.diff(x) if len(k) > 2 else np.zeros(len(k))
    ok = (curv < .03) & (np.abs(k) > .3) & (s > 1e-9)
    ok[[0, 1, -2, -1]] = False
    m.close(np.asarray(r['y'])[ok], F[ok], 'corrected-population-on-function', rtol=.06, msg=f'{name} {b}')
    m.close(np.asarray(r2['y']), (C[:-1] - C[-1]) / w.max(), 'cumulative-population', rtol=1e-6, atol=1e-12)
    m.event('physical-bins', int(ok.sum()))
    m.sig(name, b)


# ======================================================================================== C08
@case('C08', quick=6000, thorough=50000, needs=('beyond',))
def range_limits(m, rng):
    d = gen.diameters(rng)
    f = gen.fractions(rng, len(d))
    a, b = gen.area(rng), str(rng.choice(gen.BINNINGS))
    ref = gen.Ref(d, f, a, b)
    snap = int(rng.random() < .7)
    N = len(ref.lo)

    def limit():
        r = rng.random()
        if r < .3:
            k = int(rng.integers(-N - 2, N + 3))
            return f'b{k}', k
        if r < .4:
            return str(rng.choice(['0', 'inf'])), None
        if r < .6 and b != 'none':   # exactly a boundary of the series as typed by a user
            v = float(f'{rng.choice(np.append(ref.lo, ref.hi)):.12g}')
            return repr(v), None
        v = d.min() * (d.max() / d.min()) ** rng.uniform(-.3, 1.3)
        return repr(float(v)), None

    l0, l1 = limit(), limit()
    rg = [l0[0], l1[0]]
    if rng.random() < .2:
        rg = [float(x) if not x.startswith('b') else x for x in rg]
    m.note(d=d, f=f, area=a, binning=b, range=rg, snap=snap)
    with scratch():
        cc = _mk(m, rng, d, f, a)
        r1 = [float(x) for x in m.call(cc.decode_range, list(rg), b, snap)]

        # ---- oracle
        want, isb = [], []
        for t, k in (l0, l1):
            if k is None:
                want.append(float(t))
                isb.append(False)
            else:
                k = max(-N, min(N, k))
                want.append(ref.mean[k - 1 if k > 0 else k])
                isb.append(True)
        order_fixed = want[1] < want[0]
        if order_fixed:
            want[1] = want[0]
        beyond = False
        if b != 'none':
            # bins in force: contiguous run from first to last non-empty bin
            e = gen.series(b, d.min(), d.max())
            e = e[(e > ref.lo[0] * (1 - 1e-9)) & (e < ref.hi[-1] * (1 + 1e-9))]
            if abs(want[0] / e[-1] - 1) < 1e-6 or abs(want[1] / e[0] - 1) < 1e-6:
                beyond = True   # touching the data: not judged
            elif want[0] > e[-1] or want[1] < e[0]:     # nothing to select: taken as given
                if want[1] < e[0] or want[0] > gen.series(b, e[-1] * 1.001, e[-1] * 1.001)[-1] * (1 + 1e-6):   # may reach one boundary further
                    m.close(r1, want, 'range-beyond-data', rtol=1e-9, msg=f'{rg} {b} snap={snap}')
                if np.isfinite(want[0]) and 0 < want[1] > want[0]:
                    m.check(m.call(cc.getplotdata, 'cumulative', b, range=list(r1))['n'] == 0, 'range-beyond-data', lambda: f'{rg} {b}')
                m.event('beyond')
                beyond = True
            if not beyond and want[1] > e[-1] * (1 + 1e-9) and np.isfinite(want[1]):  # may extend to the boundary following all data
                m.check(r1[1] >= want[1] * (1 - 1e-6) and r1[1] <= gen.series(b, want[1], want[1])[-1], 'range-limits',
                        lambda: f'{rg} {b}: {r1}')
                want[1] = r1[1]
            if not beyond and (snap or isb[0]) and want[0] > 0:
                i = np.searchsorted(e, want[0] * (1 + 1e-6), side='right') - 1
                want[0] = e[min(max(i, 0), len(e) - 2)]
            if not beyond and (snap or isb[1]) and want[1] < e[-1] * (1 - 1e-9):
                i = np.searchsorted(e, want[1] * (1 - 1e-6), side='left')
                want[1] = e[max(i, 1)]
        ambiguous = order_fixed and not (isb[0] and isb[1])
        ambiguous = ambiguous or beyond
        if not ambiguous and np.isfinite(want[0]):
            m.close(r1, want, 'range-limits', rtol=3e-6, msg=f'{rg} {b} snap={snap}')
        m.check(r1[1] >= r1[0] * (1 - 1e-9), 'range-inverted', lambda: f'{rg}: {r1}')

        # ---- selection: exactly the bins whose centre lies in the decoded range
        if r1[1] > r1[0]:
            for p in rng.choice(gen.PRESENT if b != 'none' else ['cumulative'], 2):
                p = str(p)
                full = m.call(cc.getplotdata, p, b)
                s = (ref.mean > r1[0]) & (ref.mean < r1[1])
                if np.any(abs(ref.mean / r1[0] - 1) < 1e-9) or np.any(abs(ref.mean / r1[1] - 1) < 1e-9):
                    break
                if not s.any():
                    m.event('empty-selection')
                    break
                r = m.call(cc.getplotdata, p, b, range=list(r1))
                m.close(r['d'], np.asarray(full['d'])[s], 'selected-bins', rtol=1e-12, msg=p)
                m.close(r['y'], np.asarray(full['y'])[s], 'selection-alters-values', rtol=1e-12, msg=p)
                m.close(r['err'], np.asarray(full['err'])[s], 'selection-alters-errors', rtol=1e-12, msg=p)
                m.close([r['n'], r['n_event']], [ref.n[s].sum(), ref.ne[s].sum()], 'selected-count', rtol=1e-9)
                if b != 'none' and snap and r1[0] > 0 and np.isfinite(r1[1]) and r1[1] <= ref.hi[-1] * (1 + 1e-9):
                    m.close(r['bin_range'], r1, 'range-aligned-bin-range', rtol=1e-6, msg=p)
                ra = m.call(cc.getplotdata, p, b, range=list(r1), showall=1)
                m.close(ra['d'], np.asarray(full['d'])[ref.mean < r1[1]], 'showall-bins', rtol=1e-12, msg=p)
                m.event('selections')
        if snap and b != 'none' and r1[0] > 0 and np.isfinite(r1[1]):
            r2 = [float(x) for x in m.call(cc.decode_range, [repr(r1[0]), repr(r1[1])], b, snap)]
            m.close(r2, r1, 'snap-not-idempotent', rtol=1e-6)
    m.sig(b, snap, [x[1] if x[1] is not None else (x[0] if x[0] in ('0', 'inf') else 'v') for x in (l0, l1)], N)
    m.sample(dict(range=rg, binning=b, snap=snap, decoded=r1))


@case('C08', quick=400, thorough=1000)
def range_invalid(m, rng):
    d = gen.diameters(rng)
    with scratch():
        cc = _mk(m, rng, d, None, 1.)
        bad = str(rng.choice(['x', 'b', 'bx', '', '1km', 'b1.5', '--', '1,2', 'B1']))
        rg = [bad, 'inf'] if rng.random() < .5 else ['0', bad]
        m.note(range=rg)
        try:
            with quiet():
                r = cc.decode_range(rg, 'pseudo-log', 1)
        except SystemExit as e:
            m.check(bool(e.code) and e.code != 0, 'range-error-silent', repr(e.code))
        except Exception as e:
            m.fail('range-error-crash', f'{rg}: {type(e).__name__} {e}')
        else:
            m.fail('invalid-range-accepted', f'{rg} decoded as {r}')
        m.sig('bad', rg)


# ======================================================================================== C09
@case('C09', quick=1600, thorough=15000)
def history(m, rng):
    """any history of requests on one count object: each answer equals that of a fresh object"""
    d = gen.diameters(rng)
    f = gen.fractions(rng, len(d))
    a = gen.area(rng)
    name, pf = pf_any(rng)
    txt = gen.diam_text(rng, d, f, a, None, plain=True)
    q = rng.permutation(len(d))
    txt2 = gen.diam_text(rng, d[q], f[q], a, None)   # same craters, other row order and layout
    stat = rng.random() < .2
    hist = []
    with scratch():
        gen.write('h.diam', txt)
        gen.write('k.diam', txt2)
        if stat:
            if len(gen.Ref(d, f, a, 'pseudo-log').n) < 2:
                raise Skip
            m.call(m.call(cst.Cratercount, 'h.diam').WriteStatFile, 'h.stat')
        fn, fn2 = ('h.stat', 'h.stat') if stat else ('h.diam', 'k.diam')
        cc = m.call(cst.Cratercount, fn)
        bs = [str(x) for x in rng.choice(gen.BINNINGS, 3)]
        for step in range(int(rng.integers(3, 12))):
            b = bs[int(rng.integers(0, 3))]
            op = int(rng.integers(0, 5))
            pres = str(rng.choice(gen.PRESENT if b != 'none' else ['cumulative', 'incremental']))
            fresh = m.call(cst.Cratercount, fn if rng.random() < .5 else fn2)
            if op <= 1:
                kw = dict(pf=pf) if pres == 'differential' and rng.random() < .5 else {}
                args = (pres, b)
                if op == 1:
                    lo, hi = sorted(10 ** rng.uniform(np.log10(d.min()), np.log10(d.max()), 2))
                    mean = gen.Ref(d, f, a, 'pseudo-log' if stat else b).mean
                    kw['range'] = [float(lo) * .8, float(hi) * 1.25]
                    if not ((mean > kw['range'][0] * 1.001) & (mean < kw['range'][1] * .999)).any():
                        continue
                    if rng.random() < .2:
                        kw['range'][0] = 0.
                    if rng.random() < .2:
                        kw['range'][1] = np.inf
                if pres == 'cumulative' and not stat and b != 'none' and rng.random() < .4:
                    kw.update(pf=pf, resurfacing=1, showall=int(rng.random() < .3))
                    kw.setdefault('range', [0., np.inf])
                keep = copy.deepcopy(kw.get('range'))
                with np.errstate(all='ignore'):
                    r, r0 = m.call(cc.getplotdata, *args, **kw), m.call(fresh.getplotdata, *args, **copy.copy(kw))
                m.check(kw.get('range') == keep, 'argument-modified', lambda: f'range {keep} -> {kw["range"]}')
                for k in ('d', 'y', 'err', 'n', 'n_event', 'bin_range'):
                    if b == 'none' and k in ('y', 'err') and len(np.unique(d)) < len(d):
                        continue
                    m.close(r[k], r0[k], 'history-dependent-' + k, rtol=1e-10, msg=f'{hist} then {args} {kw}')
                if rng.random() < .3 and len(r['y']):   # a caller altering its result must not affect later answers
                    r['y'] = np.asarray(r['y'])
                    try:
                        r['y'] *= 7.
                    except ValueError:
                        pass
                hist.append(f'{pres}/{b}')
            elif op == 2:
                rg = ['b1', 'b-1'] if rng.random() < .5 else [repr(float(d.min())), repr(float(d.max()))]
                m.close(m.call(cc.decode_range, list(rg), b, 1), m.call(fresh.decode_range, list(rg), b, 1),
                        'history-dependent-range', rtol=1e-12, msg=str(hist))
                hist.append('range/' + b)
            elif op == 3 and b != 'none' and (stat or len(gen.Ref(d, f, a, b).n) > 1):
                m.call(cc.WriteStatFile, 'o1.stat', b)
                m.call(fresh.WriteStatFile, 'o2.stat', b)
                t1, t2 = (np.array([x.split() for x in open(o).read().splitlines() if x[:1] not in ('#', '')], float)
                          for o in ('o1.stat', 'o2.stat'))
                m.close(t1, t2, 'history-dependent-stat', rtol=2e-3, msg=str(hist))
                hist.append('stat/' + b)
            m.event('history-steps')
        m.note(d=d, f=f, area=a, history=hist)
    m.sig(tuple(hist))
    m.sample(dict(history=hist))

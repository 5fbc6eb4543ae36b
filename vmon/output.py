"""Monitors of the command line tool: refusals, summary tables, text, drawn figures, axis ranges, replay, options, files, history."""
import os
import shutil

import numpy as np

import craterstats as cst
import craterstats.cli as cli
import craterstats.gm as gm
from . import gen
from .cliutil import run, listing, fmt, mk_diam
from .core import case, scratch, quiet, Skip

SAMPLE = os.path.join(os.path.dirname(os.path.abspath(cst.__file__)), 'sample')


def pick(rng, L):
    return L[int(rng.integers(0, len(L)))]


# ======================================================================================== C05
def _diam_parts(rng, n=None):
    d = gen.diameters(rng, n=n or int(rng.integers(3, 20)))
    return [fmt(x) for x in d], d


def _bad_diam(rng):
    """text of a .diam file which is definitely not a crater count; (label, bytes)"""
    ds, d = _diam_parts(rng)
    area = 'area = 100.'
    head, cols = [area], 'crater = {diameter'
    rows = list(ds)
    k = int(pick(rng, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 15, 16]))
    j = int(rng.integers(0, len(rows)))
    junk = pick(rng, ['abc', '1.2.3', '1,5', '--1', '1e', '0x1F', '1_000_'])
    lab = None
    if k == 0:
        head, lab = [], 'no-area'
    elif k == 1:
        head, lab = [f'area = {pick(rng, ["0", "0.", "0e5", "-0.0"])}'], 'zero-area'
    elif k == 2:
        head, lab = [f'area = {pick(rng, ["-100.", "-1e-3"])}'], 'negative-area'
    elif k == 3:
        head, lab = [f'area = {pick(rng, ["nan", "inf", "-inf", "1e999"])}'], 'nonfinite-area'
    elif k == 4:
        head, lab = [f'area = {junk}'], 'text-area'
    elif k == 5:
        cols, lab = 'crater = {' + pick(rng, ['radius', 'd', 'Dia']), 'no-diameter-column'
    elif k == 6:
        rows[j], lab = junk, 'text-diameter'
    elif k == 7:
        rows[j], lab = pick(rng, ['0', '0.0', '-0.', '0e3']), 'zero-diameter'
    elif k == 8:
        rows[j], lab = '-' + rows[j], 'negative-diameter'
    elif k == 9:
        rows[j], lab = pick(rng, ['nan', 'inf', '1e999']), 'nonfinite-diameter'
    elif k in (10, 11):
        cols, lab = 'crater = {diameter,fraction', 'bad-fraction'
        fr = [f'{x:.3f}' for x in rng.uniform(.1, 1, len(rows))]
        fr[j] = pick(rng, ['1.01', '2', '1e3', '1.0000001'] if k == 10 else ['-.1', '-1', '-1e-3'])
        rows = [f'{a} {b}' for a, b in zip(rows, fr)]
    elif k == 12:
        cols, lab = 'crater = {lon,diameter,fraction', 'short-row'
        rows = [f'1. {a} .5' for a in rows]
        rows[j] = ' '.join(rows[j].split()[:int(rng.integers(1, 3))])
    elif k == 14:
        return 'empty-file', pick(rng, [b'', b'\n\n', b'# only comment\n', b'   '])
    elif k == 15:
        return 'no-table', (area + '\n').encode()
    else:
        return 'binary', bytes(rng.integers(0, 256, int(rng.integers(20, 400))).astype(np.uint8)) + b'\xff\xfe\x80'
    return lab, ('\n'.join(head + [cols] + rows + ['}']) + '\n').encode()


def _bad_scc(rng):
    d = gen.diameters(rng, n=int(rng.integers(3, 15)))
    t = gen.scc_text(rng, d, None, 123., None)
    k = int(rng.integers(0, 8))
    i = t.index('Total_area')
    head, tail = t[:i], t[i:]
    area, rest = tail.split('\n', 1)
    pre, rows = rest.split('crater = {', 1)
    colname, body = rows.split('\n', 1)
    lines = body.rstrip().rstrip('}').rstrip('\n').split('\n')
    j = int(rng.integers(0, len(lines)))

    def setd(v):
        p = lines[j].split()
        lines[j] = '\t'.join([v] + p[1:])
    lab = ['no-area', 'zero-area', 'text-area', 'text-diameter', 'zero-diameter', 'no-diameter-column', 'nonfinite-diameter', 'negative-diameter'][k]
    if k == 0:
        area = '# nothing'
    elif k == 1:
        area = 'Total_area = 0. <km^2>'
    elif k == 2:
        area = 'Total_area = unknown'
    elif k == 3:
        setd('abc')
    elif k == 4:
        setd('0.0')
    elif k == 5:
        colname = colname.replace('diam', 'radius')
    elif k == 6:
        setd(pick(rng, ['nan', 'inf']))
    else:
        setd('-1.5')
    return lab, (head + area + '\n' + pre + 'crater = {' + colname + '\n' + '\n'.join(lines) + '\n}\n').encode()


def _bad_stat(rng):
    n = int(rng.integers(3, 9))
    e = gen.series('pseudo-log', .1, 5.)[3:3 + n]
    k = rng.integers(1, 40, n)
    nc = np.cumsum(k[::-1])[::-1]
    a = 50.
    rows = [[f'{e[i]:.4g}', f'{k[i]}', f'{k[i] / a:.3e}', f'{k[i] ** .5 / a:.3e}', f'{nc[i]}', f'{nc[i] / a:.6e}', f'{nc[i] ** .5 / a:.3e}'] for i in range(n)]
    q = int(rng.integers(0, 5))
    j = int(rng.integers(0, n))
    lab = ['few-columns', 'text-cell', 'empty-file', 'nonpositive-diameter', 'single-row'][q]
    if q == 0:
        rows = [r[:int(rng.integers(1, 6))] for r in rows]
    elif q == 1:
        rows[j][int(pick(rng, [0, 1, 4, 5]))] = pick(rng, ['abc', '1,2', '--'])
    elif q == 2:
        return lab, pick(rng, [b'', b'# nothing here\n'])
    elif q == 3:
        rows[j][0] = pick(rng, ['0', '-1.', 'nan'])
    else:
        rows = rows[:1]
    return lab, ('# stat\n' + '\n'.join('  '.join(r) for r in rows) + '\n').encode()


def _refused(m, rng, args, name, label, must_name=True, cwd_before=None):
    before = listing() if cwd_before is None else cwd_before
    try:
        with quiet() as (o, e):
            cli.main(list(args))
    except SystemExit as x:
        m.check(x.code not in (None, 0), 'silent-exit', lambda: f'{label}: exit code {x.code!r} from {args}')
        if must_name:
            m.check(isinstance(x.code, str) and os.path.basename(name) in x.code, 'message-names-file', lambda: f'{label}: message {x.code!r} does not name {name}')
    except Exception as x:
        if must_name:
            m.fail('traceback', f'{label}: {type(x).__name__}: {x} instead of a message naming {name}')
    else:
        m.fail('invalid-accepted', f'{label}: {args} accepted; output {o.getvalue()[:300]!r}; files {sorted(set(listing()) - set(before))}')
    after = listing()
    m.check(sorted(after) == sorted(before), 'output-created', lambda: f'{label}: new files {sorted(set(after) - set(before))}')
    m.check(after == before, 'input-changed', label)
    m.event('refused')
    m.event('refused:' + label)


@case('C05', quick=2500, thorough=15000, needs=('refused',))
def invalid_file(m, rng):
    with scratch():
        gen.write('good.diam', gen.diam_text(rng, gen.diameters(rng, n=5), None, 77., plain=True))
        k = rng.random()
        if k < .5:
            label, b = _bad_diam(rng)
            name = 'bad one.diam' if rng.random() < .2 else 'bad1.diam'
        elif k < .75:
            label, b = _bad_scc(rng)
            name = 'bad1.scc'
        else:
            label, b = _bad_stat(rng)
            name = 'bad1.stat'
        with open(name, 'wb') as h:
            h.write(b)
        m.note(bytes=b[:2000], label=label)
        base = os.path.splitext(name)[1]
        use = int(rng.integers(0, 5))
        if use == 1 and (base == '.stat' or ' ' in name):
            use = 0
        if use == 2 and base != '.diam':
            use = 0
        if use <= 0:
            args = ['-p', f'source={name}']
        elif use == 1:   # merge: each in either order
            args = ['-m'] + (['good.diam', name] if rng.random() < .5 else [name, 'good.diam']) + (['-o', 'merged'] if rng.random() < .5 else [])
        elif use == 2:
            args = ['--convert', 'stat', name]
        elif use == 3:
            args = ['-f', 'csv', '-o', 'x', '-p', 'source=good.diam', '-p', f'source={name},type=poisson,range=[1,10]']
        else:
            args = ['-f', 'csv', '-p', f'source={name},type={pick(rng, ["data", "c-fit", "d-fit", "poisson"])}']
        if use == 0 and rng.random() < .5:
            args = ['-f', 'csv'] + args
        m.note(args=args)
        _refused(m, rng, args, name, base + ':' + label)
    m.sig(base, label, use, len(b))
    m.sample(dict(label=label, args=args, text=b[:300].decode('latin-1')))


@case('C05', quick=400, thorough=1200)
def unusable_source(m, rng):
    with scratch():
        t = gen.diam_text(rng, gen.diameters(rng, n=5), None, 77., plain=True)
        k = int(rng.integers(0, 7))
        gen.write('good.diam', t)
        if k == 0:
            name, lab = pick(rng, ['c.txt', 'c.csv', 'c.dia', 'c.diamx', 'c.DAT']), 'extension'
            gen.write(name, t)
        elif k == 1:
            name, lab = 'missing.' + pick(rng, ['diam', 'scc', 'stat']), 'missing'
        elif k == 2:
            name, lab = 'dir.' + pick(rng, ['diam', 'scc', 'stat']), 'directory'
            os.mkdir(name)
        elif k == 3:
            name, lab = 'no/such/dir/x.diam', 'missing-dir'
        elif k == 4:
            name, lab = 'broken_CRATER.shp', 'broken-shp'
            with open(name, 'wb') as h:
                h.write(bytes(rng.integers(0, 256, 200).astype(np.uint8)))
        elif k == 5:
            name, lab = 'lone_CRATER.shp', 'missing-shp'
        else:
            name, lab = pick(rng, ['g.stat', 'g.scc']), 'wrong-format'
            gen.write(name, t)
        args = ['-f', 'csv', '-p', f'source={name}'] if rng.random() < .7 else ['-f', 'csv', '-p', 'source=good.diam', '-p', f'source={name}']
        m.note(args=args, lab=lab)
        _refused(m, rng, args, name, lab)
    m.sig(lab, name, len(args))


@case('C05', quick=2000, thorough=15000, needs=('mutant-refused', 'mutant-accepted'))
def mutated_file(m, rng):
    """random damage: refused by name, or a well-formed count"""
    d = gen.diameters(rng, n=int(rng.integers(2, 12)))
    f = gen.fractions(rng, len(d)) if rng.random() < .5 else None
    ext = pick(rng, ['diam', 'scc', 'stat'])
    with scratch():
        if ext == 'diam':
            b = gen.diam_text(rng, d, f, 50., 9. if rng.random() < .4 else None).encode()
        elif ext == 'scc':
            b = gen.scc_text(rng, d, f, 50., None).encode()
        else:
            mk_diam(rng, 's.diam', gen.diameters(rng, n=30), None)
            m.call(m.call(cst.Cratercount, 's.diam').WriteStatFile, 's.stat')
            b = open('s.stat', 'rb').read()
        for _ in range(int(rng.integers(1, 4))):
            L = b.split(b'\n')
            q = int(rng.integers(0, 8))
            i = int(rng.integers(0, max(len(b), 1)))
            if q == 0:
                b = b[:i]
            elif q == 1:
                b = b[:i] + bytes([int(rng.integers(0, 256))]) + b[i + 1:]
            elif q == 2:
                b = b[:i] + b[i + 1:]
            elif q == 3:
                L.pop(int(rng.integers(0, len(L))))
                b = b'\n'.join(L)
            elif q == 4:
                j = int(rng.integers(0, len(L)))
                L.insert(j, L[int(rng.integers(0, len(L)))])
                b = b'\n'.join(L)
            elif q == 5:
                b = b[:i] + pick(rng, [b'{', b'}', b'=', b'"', b',', b'#', b'-', b'e', b' ', b'\n', b'nan', b'\x00', b'[']) + b[i:]
            elif q == 6:
                j = int(rng.integers(0, len(L)))
                w = L[j].split()
                if w:
                    w[int(rng.integers(0, len(w)))] = pick(rng, [b'0', b'-1', b'nan', b'x', b'1e400', b''])
                L[j] = b' '.join(w)
                b = b'\n'.join(L)
            else:
                L = [L[int(k)] for k in rng.permutation(len(L))]
                b = b'\n'.join(L)
            if not b:
                break
        name = 'mut.' + ext
        with open(name, 'wb') as h:
            h.write(b)
        m.note(bytes=b[:3000])
        try:
            with quiet():
                cc = cst.Cratercount(name)
        except SystemExit as x:
            m.check(isinstance(x.code, str) and name in x.code, 'message-names-file', lambda: f'message {x.code!r}')
            m.event('mutant-refused')
        except Exception as x:
            m.fail('traceback', f'{type(x).__name__}: {x} reading damaged {ext} file')
        else:
            m.event('mutant-accepted')
            m.check(0 < cc.area < np.inf, 'accepted-area', lambda: f'area {cc.area}')
            if not cc.prebinned:
                m.check(len(cc.diam) == len(cc.fraction), 'accepted-lengths', lambda: f'{len(cc.diam)} diameters, {len(cc.fraction)} fractions')
                m.check(all(0 < x < np.inf for x in cc.diam), 'accepted-diameters', lambda: f'{cc.diam}')
            else:
                m.check(all(0 < x < np.inf for x in cc.binned['d_min']), 'accepted-diameters', lambda: f'{cc.binned["d_min"]}')
    m.sig(ext, len(b), b[:40])


_BADOPT = [
    ['-nonexistent'], ['-f', 'gif'], ['-f'], ['-mu', '2'], ['-invert', 'x'], ['-style', 'other'], ['-sf', '4'], ['-sf', 'x'], ['-xrange', '1'], ['-xrange', 'a', 'b'],
    ['-yrange', '-3', 'q'], ['-pt_size', 'big'], ['-ref_diameter', 'big'], ['-i', 'none.cs'], ['-inc', 'none.txt'], ['-m', 'good.diam'],
    ['-n_samples', 'x'], ['-trials', '1.5'], ['-transparent', '5'], ['-text_halo', 'no'], ['-tight', '-1'], ['-d_min', 'x'], ['-convert', 'stat'], ['-cs', 'zzzqqq'],
    ['-pr', 'zzqq'], ['-ef', 'zzqq'], ['-ep', 'zzqq'],
    ['-pt_size', '-5'], ['-pt_size', '0'], ['-ref_diameter', '0'], ['-ref_diameter', '-1'], ['-ref_diameter', 'nan'], ['-pd', 'axb'], ['-pd', '10x'], ['-pd', '10x5x3'], ['-pd', 'x'],
    ['-yrange', 'nan', '3'], ['-xrange', '-3', 'inf'], ['-pr', 'uncertainty', '-ns', '4', '-d_min', '0'], ['-pr', 'uncertainty', '-ns', '4', '-d_min', '-1'], ['-ra_offset', '1.5'], ['-ra_show', '2'], ['-sf', '0'], ['-title'],
]
_FORMATS = [['csv'], ['csv', 'svg'], ['svg', 'csv']]
_BADOPT += [['-f', 'csv', 'svg', '-p', f'source=good.diam,type={t},range=[{r}]'] for t in ('c-fit', 'd-fit') for r in ('500,600', '.001,.002', '1e5,inf')]
_BADPLOT = ['source=good.diam,range', 'good.diam', 'source=good.diam,nokey=3', 'type=poisson', 'name=x', 'source=good.diam,range=[a,b]', 'source=good.diam,range=[1,2,3]',
            'source=good.diam,range=[]', 'source=good.diam,range=[1]', 'source=good.diam,range=[b1,bx]', 'source=good.diam,snap=x', 'source=good.diam,hide=yes',
            'source=good.diam,offset_age=[a,1]', 'source=good.diam,type=zzq', 'source=good.diam,binning=zzq', 'source=good.diam,psym=zzq', 'source=good.diam,colour=zzq',
            'source=good.diam,colour=#12', 'source=good.diam,type=b-poisson,range=[1,2]', 'source=good.diam,error_bars=', 'source=good.diam,resurf=q',
            'source=good.diam,age_left=1.5', 'source=good.diam,isochron=', 'source=good.diam,show_age=no']


@case('C05', quick=800, thorough=1500)
def bad_option(m, rng):
    with scratch():
        d = np.concatenate([rng.uniform(.5, 3, 20), [1.2, 1.4, 1.7]])
        gen.write('good.diam', gen.diam_text(rng, d, None, 77., plain=True))
        if rng.random() < .55:
            bad = list(pick(rng, _BADOPT))
            good = ['-p', 'source=good.diam']
            args = bad + good if rng.random() < .5 and bad[-1] not in ('-f', '1') else good + bad
        else:
            p = pick(rng, _BADPLOT)
            args = ['-p', p]
            if p.startswith('source') and rng.random() < .5:
                args = ['-p', 'source=good.diam'] + args
        if '-f' not in args:
            args = ['-f', *pick(rng, _FORMATS)] + args
        m.note(args=args)
        _refused(m, rng, args, '', 'option ' + ' '.join(args[-2:]), must_name=False)
    m.sig(tuple(args))


# ======================================================================================== C19
import re  # noqa: E402

_NUM = r'-?\d+(?:\.\d+)?'
_UN = {'Ga': 1., 'Ma': 1e-3, 'ka': 1e-6, 'a': 1e-9}


def ulp(v, n):
    """half a unit in the n-th significant digit of v"""
    return .5 * 10. ** (np.floor(np.log10(abs(v))) - n + 1) * (1 + 1e-6) if v else .5 * 10. ** (1 - n)


def near(v, w, n, slack=0.):
    """decimal v is w rounded to n significant digits"""
    return abs(v - w) <= ulp(w, n) + slack + 1e-12 * abs(w)


def latex_sci(s):
    """$v^{+a}_{-b}\\cdot10^{e} km$^{-2}$ -> (v, a, b, unit)"""
    x = re.fullmatch(rf'\$({_NUM})(?:\^\{{\+({_NUM})\}}_\{{-({_NUM})\}})?(?:\\cdot10\^\{{(-?\d+)\}})?(?:\$ km\$\^\{{(-?\d)\}})?\$', s)
    if not x:
        return None
    e = 10. ** int(x[4] or 0)
    return float(x[1]) * e, None if x[2] is None else float(x[2]) * e, None if x[3] is None else float(x[3]) * e, x[5], int(x[4] or 0)


def mathml(s):
    """-> (mu?, v, a, b, exponent, unit text)"""
    x = re.fullmatch(rf'<math xmlns="http://www.w3.org/1998/Math/MathML">(<mi>&#956;</mi>)?'
                     rf'(?:<msubsup><mtext>({_NUM})</mtext><mtext>&#x2212;({_NUM})</mtext><mtext>\+({_NUM})</mtext></msubsup>|({_NUM}))'
                     rf'(?:<mo>&#183;</mo><msup><mtext>10</mtext><mtext>(-?\d+)</mtext></msup>)?'
                     rf'(?:<msup><mtext>&#8239;km</mtext><mtext>(-?\d)</mtext></msup>|<mtext>&#8239;(\w+)</mtext>)?</math>', s)
    if not x:
        return None
    e = 10. ** int(x[6] or 0)
    v = float(x[2] if x[2] is not None else x[5])
    return (bool(x[1]), v * e, None if x[4] is None else float(x[4]) * e, None if x[3] is None else float(x[3]) * e, int(x[6] or 0),
            ('km', x[7]) if x[7] else x[8])


def age_text(s):
    """$<mu>v^{+a}_{-b}$ Ga -> (mu?, v, a, b, unit factor) in Ga"""
    x = re.fullmatch(rf'\$(𝜇)?({_NUM})(?:\^\{{\+({_NUM})\}}_\{{-({_NUM})\}})?\$ (Ga|Ma|ka|a)', s)
    if not x:
        return None
    u = _UN[x[5]]
    return bool(x[1]), float(x[2]) * u, None if x[3] is None else float(x[3]) * u, None if x[4] is None else float(x[4]) * u, u


def check_age(m, s, t, sf, mu, what, xml=False):
    """s shows age t[0] with errors up to t[2] and down to t[1], sf digits"""
    p = mathml(s) if xml else age_text(s)
    m.check(p is not None, 'age-text-form', lambda: f'{what}: {s!r}')
    if xml:
        m.check(p[5] in _UN and p[4] == 0, 'age-text-form', lambda: f'{what}: {s!r}')
        u = _UN[p[5]]
        p = (p[0], p[1] * u, None if p[2] is None else p[2] * u, None if p[3] is None else p[3] * u, u)
    m.check(p[0] == bool(mu), 'age-text-mu', lambda: f'{what}: {s!r} mu={mu}')
    m.check(near(p[1] / p[4], t[0] / p[4], sf), 'age-text-value', lambda: f'{what}: {s!r} for {t[0]!r} Ga')
    m.check(t[0] / p[4] >= 1 - 1e-9 or p[4] == 1e-9, 'age-text-unit', lambda: f'{what}: {s!r} for {t[0]!r} Ga')
    m.check(p[4] == 1 or t[0] / p[4] < 1000 * (1 + 1e-9), 'age-text-unit', lambda: f'{what}: {s!r} for {t[0]!r} Ga')
    if t[2] - t[0] > 0:
        m.check(p[2] is not None, 'age-text-errors', lambda: f'{what}: no errors shown in {s!r}')
        m.check(near(p[2] / p[4], (t[2] - t[0]) / p[4], sf - 1), 'age-text-upper-error', lambda: f'{what}: {s!r} for {t}')
        m.check(near(p[3] / p[4], (t[0] - t[1]) / p[4], sf - 1), 'age-text-lower-error', lambda: f'{what}: {s!r} for {t}')
    m.event('age-texts')


def check_density(m, s, v, hi, lo, unit, what, sf=3, xml=False):
    p = mathml(s) if xml else latex_sci(s)
    m.check(p is not None, 'density-text-form', lambda: f'{what}: {s!r}')
    if xml:
        u = p[5][1] if p[5] else None
        p = (p[1], p[2], p[3], u, p[4])
    m.check(near(p[0], v, sf), 'density-text-value', lambda: f'{what}: {s!r} for {v!r}')
    m.check(p[3] == unit, 'density-text-unit', lambda: f'{what}: {s!r}')
    if hi is None:
        m.check(p[1] is None, 'density-text-errors', lambda: f'{what}: {s!r}')
    else:
        m.check(p[1] is not None, 'density-text-errors', lambda: f'{what}: {s!r}')
        m.check(near(p[1], hi - v, sf - 1, 1e-9 * abs(v)), 'density-text-upper-error', lambda: f'{what}: {s!r} for {v!r} +{hi - v!r}')
        m.check(near(p[2], v - lo, sf - 1, 1e-9 * abs(v)), 'density-text-lower-error', lambda: f'{what}: {s!r} for {v!r} -{v - lo!r}')


def range_text(s):
    """-> (lo, hi) in km or None for unconstrained"""
    if s == 'unconstrained':
        return 'unconstrained'
    x = re.fullmatch(rf'({_NUM})–({_NUM}) (km|m)', s)
    if not x:
        return None
    u = 1. if x[3] == 'km' else 1e-3
    return float(x[1]) * u, float(x[2]) * u, u


def check_range(m, s, lo, hi, what, sf=2):
    p = range_text(s)
    m.check(p is not None, 'range-text-form', lambda: f'{what}: {s!r}')
    if not np.isfinite(hi):
        m.check(p == 'unconstrained', 'range-text-value', lambda: f'{what}: {s!r} for {lo}-{hi}')
        return
    m.check(p != 'unconstrained', 'range-text-value', lambda: f'{what}: {s!r} for {lo}-{hi}')
    m.check(near(p[0] / p[2], lo / p[2], sf) and near(p[1] / p[2], hi / p[2], sf), 'range-text-value', lambda: f'{what}: {s!r} for {lo!r}-{hi!r}')
    m.check((p[2] == 1.) == (hi >= 1), 'range-text-unit', lambda: f'{what}: {s!r} for {lo!r}-{hi!r}')


def _value(rng, lo=-9, hi=9):
    v = 10 ** rng.uniform(lo, hi)
    k = rng.random()
    if k < .3:      # few digits
        v = float(f'{v:.{int(rng.integers(0, 4))}e}')
    elif k < .5:    # just at a carry
        e = 10. ** int(rng.integers(lo, hi))
        v = e * float(pick(rng, [.9949, .9951, .99949, .99951, .949, .951, .999999, 1., 1.0000001, .9999949, 9.949, 9.951, 9.9949, 9.9951]))
    return float(v)


@case('C19', quick=16000, thorough=150000)
def number_text(m, rng):
    v = _value(rng)
    if rng.random() < .15:
        v = -v
    n = int(rng.integers(1, 6))
    s = m.call(gm.sigfigs, v, n)
    m.note(v=v, n=n, s=s)
    m.check(re.fullmatch(_NUM, s) is not None, 'number-text-form', lambda: f'{s!r}')
    m.check(near(float(s), v, n), 'number-text-value', lambda: f'{v!r} with {n} digits: {s!r}')
    digs = s.lstrip('-').replace('.', '').lstrip('0')
    m.check(len(digs) >= n and set(digs[n + 1:]) <= {'0'}, 'number-text-digits', lambda: f'{v!r} with {n} digits: {s!r}')
    L = m.call(gm.sigfigs, [v, 2 * v], n)
    m.check(L[0] == s and near(float(L[1]), 2 * v, n), 'number-text-list', lambda: f'{L}')
    m.sig('n', n, int(np.floor(np.log10(abs(v)))), v < 0, round(abs(v) / 10 ** np.floor(np.log10(abs(v))), 3))


@case('C19', quick=16000, thorough=150000, needs=('age-texts',))
def age_strings(m, rng):
    t0 = min(_value(rng, -9, 1), 5.)
    sf = int(rng.integers(2, 4))
    rel = 10 ** rng.uniform(-3, -.2, 2)
    t = [t0, t0 * (1 - rel[0]), t0 * (1 + rel[1])]
    mu = bool(rng.random() < .5)
    m.note(t=t, sf=sf, mu=mu)
    s = m.call(cst.str_age, t[0], t[2] - t[0], t[0] - t[1], sf, mu=mu)
    check_age(m, s, t, sf, mu, 'latex')
    s = m.call(cst.str_age, t[0], t[2] - t[0], t[0] - t[1], sf, mu=mu, MathML=True)
    check_age(m, s, t, sf, mu, 'MathML', xml=True)
    s = m.call(cst.str_age, t[0], simple=True)
    x = re.fullmatch(r'(\S+) (Ga|Ma|ka|a)', s)
    m.check(x is not None and abs(float(x[1]) * _UN[x[2]] / t0 - 1) < 6e-6, 'simple-age', lambda: f'{s!r} for {t0!r}')
    s = m.call(cst.str_age, t[0], t[2] - t[0], t[0] - t[1], sf, no_error=True)
    p = age_text(s)
    m.check(p is not None and p[2] is None and near(p[1] / p[4], t0 / p[4], sf), 'age-no-error', lambda: f'{s!r} for {t}')
    u = pick(rng, list(_UN))
    s = m.call(cst.str_age, t[0], sf=sf, unit=u)
    p = age_text(s)
    m.check(p is not None and p[4] == _UN[u] and near(p[1] / p[4], t0 / p[4], sf), 'age-forced-unit', lambda: f'{s!r} for {t}')
    m.sig('t', sf, mu, f'{t0:.2e}')
    m.sample(dict(t=t, s=s))


@case('C19', quick=16000, thorough=150000)
def density_strings(m, rng):
    v = _value(rng, -12, 9)
    err = rng.random() < .6
    rel = 10 ** rng.uniform(-3, -.1, 2)
    hi, lo = (v * (1 + rel[0]), v * (1 - rel[1])) if err else (None, None)
    sf = int(rng.integers(2, 5))
    unit = pick(rng, [None, 'km-2', 'km2'])
    want = {None: None, 'km-2': '-2', 'km2': '2'}[unit]
    m.note(v=v, hi=hi, lo=lo, unit=unit, sf=sf)
    for xml in (False, True):
        kw = dict(sf=sf, unit=unit, MathML=xml)
        s = m.call(gm.scientific_notation, v, hi, lo, **kw) if err else m.call(gm.scientific_notation, v, **kw)
        check_density(m, s, v, hi, lo, want, 'MathML' if xml else 'latex', sf=sf, xml=xml)
    s = m.call(gm.scientific_notation, v, sf=sf, force=True)
    p = latex_sci(s)
    m.check(p is not None and near(p[0], v, sf) and 1 <= round(p[0] / 10. ** p[4], 9) < 10, 'density-forced-exponent', lambda: f'{s!r} for {v!r}')
    m.sig('d', sf, err, unit, f'{v:.1e}')


@case('C19', quick=6000, thorough=40000)
def range_strings(m, rng):
    lo = min(_value(rng, -3, 3), 900.)
    hi = lo * 10 ** rng.uniform(0, 2.5) if rng.random() < .9 else np.inf
    if rng.random() < .1:
        lo = 0.
    m.note(lo=lo, hi=hi)
    a = pick(rng, [[lo, hi], (lo, hi), np.array([lo, hi])])
    s = m.call(gm.diameter_range, a)
    check_range(m, s, lo, hi, 'range')
    # percentiles as printed for randomness analyses: same precision at either end
    n = int(10 ** rng.uniform(.7, 4.5))
    k = int(rng.integers(0, n + 1)) if rng.random() < .5 else int(pick(rng, [0, 1, 2, n - 2, n - 1, n]))
    p = float(np.clip(k, 0, n)) / n * 100
    s = m.call(gm.percentile_sigfigs, p)
    q = float(s)
    tail = min(p, 100 - p) if p >= 50 else p
    m.check(abs(q - p) <= ulp(tail, 2) * (1 + 1e-6) + 1e-9 if tail > 1e-9 else q == round(p), 'percentile-text', lambda: f'{p!r}: {s!r}')
    m.check((q == 100) == (k == n), 'percentile-extreme', lambda: f'{p!r}: {s!r}')
    m.check((q == 0) == (k == 0), 'percentile-extreme', lambda: f'{p!r}: {s!r}')
    m.sig('r', f'{lo:.1e}', f'{hi:.1e}', s)


# ======================================================================================== C18
import csv  # noqa: E402
import io  # noqa: E402
from . import scenario as sc  # noqa: E402
from .ages import Posterior, C_ref, coeff, buffered_lambda  # noqa: E402
from .models import n1  # noqa: E402


def fresh_age(m, S, e, ref_d=1.):
    """age evaluation of one overlay by fresh objects through the programming interface"""
    cc = m.call(cst.Cratercount, e['source'])
    cp = m.call(cst.Craterplot, cratercount=cc, source=e['source'], name=e['name'], range=list(e['range']), type=e['type'], binning=e['binning'], snap=e['snap'],
                resurf=e['resurf'], resurf_showall=e['resurf_showall'])
    cps = type('S', (), dict(pf=S.pf, cf=S.cf, ref_diameter=ref_d))
    m.call(cp.calculate_age, cps)
    return cp


def fit_range(R, rg, snap):
    """range of bins fitted, where beyond doubt: limits on boundaries, or open"""
    if not snap and not (rg[0] == 0 and not np.isfinite(rg[1])):
        return None
    if not np.isfinite(rg[1]) and np.max(R.d) > R.hi[-1] * 10 ** -.0012:   # resolution of the binning
        return None
    lo = R.lo[0] if rg[0] == 0 else rg[0]
    hi = R.hi[-1] if not np.isfinite(rg[1]) else rg[1]
    return [float(lo), float(hi)] if hi <= R.hi[-1] * (1 + 1e-9) and lo < hi else None


def posterior_of(m, S, e, r):
    """closed form for a Poisson overlay, or None if not resolved by it"""
    F = e['file']
    c = coeff(S.sys)
    lo, hi = (float(x) for x in S.pf.range)
    r = [min(max(r[0], lo), hi), min(max(r[1], lo), hi)]
    if r[1] <= r[0] * 1.02:
        return None
    k = int(((F.d > r[0]) & (F.d < r[1])).sum())
    a1 = np.log10(n1(c, 1.))
    if e['type'] == 'b-poisson':
        L1 = buffered_lambda(S.sys, S.pf, c, F.area, F.per, r)
    else:
        L1 = float(C_ref(S.sys, S.pf, r[0], a1) - C_ref(S.sys, S.pf, r[1], a1)) * F.area
    p = Posterior(c, L1, k)
    return (k, p)


@case('C18', quick=1400, thorough=9000, needs=('rows', 'no-table', 'poisson-rows', 'fit-rows', 'fit-ranges', 'densities-of-ages'))
def summary_table(m, rng):
    pres = sc.pick(rng, ['cumulative', 'differential', 'R-plot', 'Hartmann', 'sequence'])
    with scratch():
        S = sc.make(rng, m, pres)
        ref_d = sc.pick(rng, [1., 1., 10., .1, .5])
        mu = int(rng.random() < .6)
        args = ['-cs', S.sys['name'], '-pr', pres, '-f', 'csv', '-o', 't', '-mu', str(mu), '-ref_diameter', f'{ref_d:g}'] + S.plot_args
        m.note(args=args, data=[(F.path, F.d, F.f, F.area, F.per) for F in S.files])
        # any evaluation needs craters in range for a fit
        want = []
        for e in S.eff:
            if e['type'] in sc.AGES:
                if e['type'] in ('c-fit', 'd-fit'):
                    cc = m.call(cst.Cratercount, e['source'])
                    r = [float(x) for x in m.call(cc.decode_range, list(e['range']), e['binning'], e['snap'])]
                    p = m.call(cc.getplotdata, 'differential', e['binning'], range=list(r), pf=S.pf)
                    s = (np.asarray(p['d']) > S.pf.range[0] * 1.001) & (np.asarray(p['d']) < S.pf.range[1] / 1.001)
                    if s.sum() < 1 or s.sum() != len(s):
                        raise Skip   # nothing to fit, or partly outside the function
                want.append((e, fresh_age(m, S, e, ref_d)))
        if any(not np.all(np.isfinite(np.asarray(cp.t, float))) for _, cp in want):
            raise Skip
        rec = None
        with quiet():
            m.call(cli.main, args)
        if not want:
            m.check(not os.path.exists('t.csv'), 'table-invented', '')
            m.event('no-table')
            return
        m.check(os.path.exists('t.csv'), 'table-missing', lambda: f'{os.listdir(".")}')
        raw = open('t.csv', 'rb').read()
    m.check(raw.startswith(b'\xef\xbb\xbf'), 'byte-order-mark', raw[:20])
    rows = list(csv.reader(io.StringIO(raw.decode('utf-8-sig'))))
    N = f'N({ref_d:g})'
    head = ['Name', 'Area', 'Binning', 'd_min', 'd_max', 'Method', 'Resurf', 'N', 'N_event', 'Sort_order', 'Age', 'Age-', 'Age+', 'a0', 'a0-', 'a0+', N, N + '-', N + '+', 'Source', ' ',
            'Range', 'Age', N, 'Age', N]
    ih = next((i for i, r in enumerate(rows) if r and r[0] == 'Name'), None)
    m.check(ih is not None and rows[ih][:26] == head, 'table-columns', lambda: f'{rows[:4]}')
    body = rows[ih + 1:]
    m.check(len(body) == len(want), 'table-rows', lambda: f'{len(body)} rows for {len(want)} evaluations')
    order = {}
    for i, (e, cp) in enumerate(want):
        r = dict(zip(range(30), body[i]))
        F = e['file']
        m.check(len(body[i]) == 27, 'table-width', lambda: f'{len(body[i])}: {body[i]}')
        m.check(r[0] == (e['name'] or F.stem), 'row-name', lambda: f'{r[0]!r} expected {e["name"] or F.stem!r}')
        m.check(near(float(r[1]), F.area, 5), 'row-area', lambda: f'{r[1]} expected {F.area}')
        m.check(r[2] == e['binning'], 'row-binning', lambda: f'{r[2]} expected {e["binning"]}')
        fit = e['type'] in ('c-fit', 'd-fit')
        R = gen.Ref(F.d, F.f, F.area, e['binning'])
        rg = [float(x) for x in cp.range]
        if fit and not e['resurf']:
            s = (R.mean > rg[0]) & (R.mean < rg[1])
            shown = fit_range(R, rg, e['snap'])
            if shown is None:
                shown = [float(x) for x in cp.bin_range]
            else:
                m.event('fit-ranges')
        else:
            shown = rg
        for c, v in ((3, shown[0]), (4, shown[1])):
            m.check(float(r[c]) == v if v == 0 or not np.isfinite(v) else near(float(r[c]), v, 2, 3e-6 * v), 'row-range', lambda: f'{r[3]},{r[4]} expected {shown}')
        check_range(m, r[21], shown[0], shown[1], 'Range')
        m.check(r[5] == e['type'], 'row-method', lambda: f'{r[5]} expected {e["type"]}')
        m.check(float(r[6]) == e['resurf'], 'row-resurf', lambda: f'{r[6]} expected {e["resurf"]}')
        if fit:
            s = (R.mean > rg[0]) & (R.mean < rg[1])
            m.close([float(r[7]), float(r[8])], [R.n[s].sum(), R.ne[s].sum()], 'row-counts', rtol=1e-9, msg=e['type'])
            m.event('fit-rows')
        else:
            ref = posterior_of(m, S, e, rg)
            if ref is not None:
                m.close([float(r[7]), float(r[8])], [ref[0]] * 2, 'row-counts', rtol=1e-9, msg=e['type'])
                if ref[1].resolved and ref[1].t(.999) < 4.9 and ref[1].t(.002) > 1e-7:
                    t = np.array([ref[1].t(q) for q in (.5, .15865525, .84134475)])
                    m.close([float(x) for x in body[i][10:13]], t, 'row-age', rtol=.017)
                    m.event('poisson-rows')
        t, a0 = np.asarray(cp.t, float), np.asarray(cp.a0, float)
        for c in range(3):
            m.check(near(float(r[10 + c]), t[c], 3), 'row-age', lambda: f'{body[i][10:13]} expected {t}')
            m.check(near(float(r[13 + c]), a0[c], 4), 'row-a0', lambda: f'{body[i][13:16]} expected {a0}')
        for c in range(3):      # age and density belong to each other
            if 1e-5 < t[c] < 4.8:
                m.close(a0[c], np.log10(n1(coeff(S.sys), t[c])), 'a0-of-age', rtol=0, atol=2.5e-3 if fit else 1e-4, msg=e['type'])
                m.event('densities-of-ages')
        n_d = [float(S.pf.evaluate('cumulative', ref_d, x)) for x in a0]
        for c in range(3):
            m.check(near(float(r[16 + c]), n_d[c], 3), 'row-N', lambda: f'{body[i][16:19]} expected {n_d}')
        m.check(r[19] == e['source'], 'row-source', lambda: f'{r[19]!r}')
        check_age(m, r[22], t, 3, mu, 'table', xml=True)
        check_age(m, r[24], t, 3, mu, 'table')
        if np.all(np.asarray(n_d) > 0):
            check_density(m, r[23], n_d[0], n_d[2], n_d[1], '-2', 'table', xml=True)
            check_density(m, r[25], n_d[0], n_d[2], n_d[1], '-2', 'table')
        order[i] = (int(r[9]), t[0])
        m.event('rows')
    m.check(sorted(o for o, _ in order.values()) == list(range(len(want))), 'sort-order', lambda: f'{order}')
    byo = [t for _, t in sorted(order.values())]
    m.check(all(a >= b for a, b in zip(byo, byo[1:])), 'sort-order', lambda: f'{order}')
    m.sig(S.sys['name'], pres, [(e['type'], e['binning'], e['hide'], e['resurf']) for e, _ in want], mu, ref_d)
    m.sample(dict(args=args, table=[x[:20] for x in body]))


# ======================================================================================== C20, C21
MARK = {'s': ('s', 'none'), 'o': ('o', 'none'), '*4': (None, 'none'), '^': ('^', 'none'), '*': ('*', 'none'), 'x': ('x', None), '+': ('+', None), '.': ('.', None), 'v': ('v', 'none'),
        'fs': ('s', 'full'), 'fo': ('o', 'full'), 'f*4': (None, 'full'), 'f^': ('^', 'full'), 'f*': ('*', 'full'), 'fv': ('v', 'full')}
SFD = ['cumulative', 'differential', 'R-plot', 'Hartmann']


def same(a, b, rtol=1e-6):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all((np.abs(a - b) <= rtol * np.abs(b) + 1e-12) | (np.isnan(a) & np.isnan(b))))


def drawable(m, S):
    """evaluations with something to evaluate"""
    for e in S.eff:
        e['R'] = sc.reference(m, S, e)
        p = m.call(e['R'].cc.getplotdata, 'cumulative', e['binning'], range=list(e['R'].range), pf=S.pf)
        if e['type'] in ('c-fit', 'd-fit'):
            mean = gen.Ref(e['file'].d, e['file'].f, 1., e['binning']).mean
            s = (mean > e['R'].range[0]) & (mean < e['R'].range[1])
            mean = mean[s]
            if len(mean) < 1 or mean.min() < S.pf.range[0] * 1.001 or mean.max() > S.pf.range[1] / 1.001:
                raise Skip
            if e['resurf'] and len(mean) < 2:
                raise Skip
        e['empty'] = len(p['d']) == 0
        if e['type'] in sc.AGES:
            e['age'] = fresh_age(m, S, e)
            if not np.all(np.isfinite(np.asarray(e['age'].t, float))) or np.asarray(e['age'].t).min() <= 0:
                raise Skip


def options(rng, S, files_of=None):
    """plot set options with their model"""
    o, a = {}, []

    def put(k, *v):
        a.extend([k, *v])
    o['mu'] = 1
    if rng.random() < .5:
        o['mu'] = int(rng.random() < .5)
        put('-mu', *([str(o['mu'])] if rng.random() < .7 or not o['mu'] else []))
    o['sf'] = 3
    if rng.random() < .4:
        o['sf'] = int(rng.integers(2, 4))
        put('-sf', str(o['sf']))
    o['legend'] = 'A' if S.pres == 'sequence' else 'fnacr'
    if rng.random() < .6:
        o['legend'] = ''.join(x for x in rng.permutation(list('fnapcrN')) if rng.random() < .55) or '0'
        put('-legend', o['legend'])
    o['ref_d'] = 1.
    if rng.random() < .4:
        o['ref_d'] = float(sc.pick(rng, [10., .1, .5, 2.5, 1.]))
        put('-ref_diameter', f'{o["ref_d"]:g}')
    o['title'] = None
    if rng.random() < .3:
        o['title'] = sc.pick(rng, ['Mare', 'two|lines', 'one|two|three', 'A, b = c', 'x^2 ok', "it's"])
        put('-title', *o['title'].split(' '))
    o['invert'] = 0
    if rng.random() < .3:
        o['invert'] = int(rng.random() < .7)
        put('-invert', str(o['invert']))
    o['isochrons'] = []
    if rng.random() < .4 and S.pres != 'Hartmann' or rng.random() < .2:
        L = []
        for _ in range(int(rng.integers(1, 4))):
            t = sc.pick(rng, [.1, .01, .5, 1., 2., 3., 3.5, 3.7, 4.])
            suf = ''.join(x for x in 'has' if rng.random() < .25)
            o['isochrons'].append((t, suf))
            L.append(f'{t:g}{suf}')
        put('-isochrons', ','.join(L))
    o['ef'] = o['ep'] = None
    if rng.random() < .3:
        o['ef'] = sc.pick(rng, sc.defs()['equilibrium'])['name']
        put('-ef', o['ef'])
    if rng.random() < .25:
        o['ep'] = sc.pick(rng, ['Moon', 'Mars'])
        o['ep'] = next(e['name'] for e in sc.defs()['epochs'] if e['name'].startswith(o['ep']))
        put('-ep', o['ep'])
    o['xr'] = o['yr'] = None
    if rng.random() < .3 and S.pres != 'Hartmann' and S.pres in SFD:
        x0 = int(rng.integers(-4, 1))
        o['xr'] = (x0, x0 + int(rng.integers(2, 6)))
        put('-xrange', *[str(v) for v in o['xr']])
    if rng.random() < .3 and S.pres != 'Hartmann' and S.pres in SFD:
        y0 = int(rng.integers(-9, 1))
        o['yr'] = (y0, y0 + int(rng.integers(2, 10)))
        put('-yrange', *[str(v) for v in o['yr']])
    if rng.random() < .15:
        put('-style', sc.pick(rng, ['natural', 'root-2']))
    if rng.random() < .2:
        o['pt'] = float(sc.pick(rng, [7., 11.5, 14.]))
        put('-pt_size', f'{o["pt"]:g}')
    if rng.random() < .2:
        put('-pd', sc.pick(rng, ['2', '8x8', '10x6', '1.5', '6x9']))
    o['halo'] = S.pres in SFD
    if rng.random() < .3:
        o['halo'] = rng.random() < .5
        put('-text_halo', *(['1'] if o['halo'] and rng.random() < .5 else [] if o['halo'] else ['0']))
    return o, a


def expected_legend(o, e):
    """list of (kind, data) items of the legend entry of an overlay, in order"""
    L, leg, F = [], o['legend'], e['file']
    if e['type'] == 'data':
        if 'n' in leg:
            L.append(('name', e['name'] or F.stem))
        if 'a' in leg:
            L.append(('area', F.area))
        if 'p' in leg and F.per is not None:
            L.append(('perimeter', F.per))
    else:
        if 'c' in leg:
            L.append(('count', None))
        if 'r' in leg:
            L.append(('range', None))
        if 'N' in leg:
            L.append(('N', None))
    return L


def check_legend_item(m, S, o, e, kind, val, s):
    F = e['file']
    if kind == 'name':
        m.check(s == val, 'legend-name', lambda: f'{s!r} expected {val!r}')
    elif kind == 'area':
        check_density(m, s, F.area, None, None, '2', 'legend area')
    elif kind == 'perimeter':
        m.check(s.endswith(' km'), 'legend-perimeter', lambda: repr(s))
        check_density(m, s[:-3], F.per, None, None, None, 'legend perimeter')
    elif kind == 'count':
        R = gen.Ref(F.d, F.f, F.area, e['binning'])
        rg = e['R'].range
        x = re.fullmatch(r'([\d.e+]+)( \(of (\d+)\))? craters( \(buffered\))?', s)
        m.check(x is not None, 'legend-count', lambda: repr(s))
        m.check(bool(x[4]) == (e['type'] == 'b-poisson'), 'legend-count', lambda: repr(s))
        if e['type'] in ('c-fit', 'd-fit'):
            q = (R.mean > rg[0]) & (R.mean < rg[1])
            n, ne = R.n[q].sum(), R.ne[q].sum()
        else:
            n = ne = float(e['age'].n)
            pr = posterior_of(m, S, e, rg)
            if pr is not None:
                m.check(pr[0] == n, 'legend-count', lambda: f'{n} evaluated, {pr[0]} in range')
        if x[3] is None:
            m.check(abs(float(x[1]) - n) <= .06 + 1e-5 * n and abs(n - ne) < .002, 'legend-count', lambda: f'{s!r}: {n} of {ne}')
        else:
            m.check(abs(float(x[1]) - n) < .051 and int(x[3]) == ne, 'legend-count', lambda: f'{s!r}: {n} of {ne}')
    elif kind == 'range':
        rg = e['R'].range
        if e['type'] in ('poisson', 'b-poisson'):
            check_range(m, s, rg[0], rg[1], 'legend')
        else:
            R = gen.Ref(F.d, F.f, F.area, e['binning'])
            shown = fit_range(R, rg, e['snap'])
            if shown:
                check_range(m, s, *shown, 'legend fit')
            else:
                m.check(range_text(s) is not None, 'range-text-form', lambda: repr(s))
    elif kind == 'N':
        a0 = [float(x) for x in e['age'].a0]
        n_d = [float(S.pf.evaluate('cumulative', o['ref_d'], x)) for x in a0]
        m.check(s.startswith(f'N({o["ref_d"]:g})='), 'legend-N', lambda: repr(s))
        if all(x > 0 for x in n_d):
            check_density(m, s.split('=', 1)[1], n_d[0], n_d[2], n_d[1], '-2', 'legend N')


def colour(e, o):
    c = e['colour']
    return sc.HEX[c][o['invert']] if isinstance(c, int) else c


def halo(m, ax, o):
    for t in [t for t in ax.texts if 'CF: ' in t.get_text()] + list(ax.get_legend().get_texts()):
        m.check(bool(t.get_path_effects()) == bool(o['halo']), 'text-halo', lambda: f'{t.get_text()!r}: {t.get_path_effects()} expected {o["halo"]}')


@case('C20', quick=550, thorough=5000, needs=('points', 'fits', 'isochrons', 'error-bars', 'legend-entries', 'age-annotations', 'hidden', 'pdf-insets', 'epoch-regions'))
def figure(m, rng):
    import matplotlib.collections as mc
    import matplotlib.colors as mcol
    from matplotlib.patches import Polygon
    pres = sc.pick(rng, SFD)
    with scratch():
        S = sc.make(rng, m, pres, binnings=gen.BINNINGS if rng.random() < .15 else None)
        o, oa = options(rng, S)
        args = ['-cs', S.sys['name'], '-pr', pres, '-f', 'svg', '-o', 't'] + oa + S.plot_args
        m.note(args=args, data=[(F.path, F.d, F.f, F.area, F.per) for F in S.files])
        if any(e['binning'] == 'none' and e['type'] in ('c-fit', 'd-fit', 'poisson', 'b-poisson') for e in S.eff):
            raise Skip
        drawable(m, S)
        rec = m.call(run, args, catch=())
        m.check([x[0] for x in rec.save] == ['t.svg'], 'figure-files', lambda: f'{[x[0] for x in rec.save]}')
        fig = rec.save[0][2]
        ax = fig.axes[0]
        if 'b-poisson' in [e['type'] for e in S.eff] and 'a' in o['legend']:
            o['legend'] += 'p'
        ef = m.call(cst.Productionfn, sc.models_funcs(), o['ef'], equilibrium=True) if o['ef'] else None
        ep = m.call(cst.Epochs, sc.models_funcs(), o['ep'], S.pf, S.cf) if o['ep'] else None

        # ---- axes
        xl, yl = ax.get_xlim(), np.log10(ax.get_ylim())
        if o['xr']:
            m.close(xl, o['xr'], 'x-range-respected', rtol=1e-9)
        if o['yr']:
            m.close(yl, o['yr'], 'y-range-respected', rtol=1e-9, atol=1e-9)
        m.check(ax.get_yscale() == 'log' and ax.get_xscale() == 'linear', 'axis-scales', '')
        m.check(ax.get_xlabel() == 'Diameter', 'x-label', lambda: ax.get_xlabel())
        lab = {'cumulative': 'Cumulative crater density, km$^{-2}$', 'differential': 'Differential crater density, km$^{-3}$', 'R-plot': 'Relative crater density (R)',
               'Hartmann': '2-bin'}[pres]
        m.check(pres != 'Hartmann' or ('equivalent' in ax.get_ylabel()) == any(e['binning'] != 'root-2' for e in S.eff), 'y-label', lambda: f'{ax.get_ylabel()} for {[e["binning"] for e in S.eff]}')
        m.check(lab in ax.get_ylabel() and (pres != 'Hartmann' or ax.get_ylabel().endswith('km$^{-2}$')), 'y-label', lambda: ax.get_ylabel())
        m.check(ax.get_title() == ('' if not o['title'] else o['title'].replace('|', '\n')), 'title', lambda: repr(ax.get_title()))

        # ---- lines
        lines = list(ax.get_lines())
        pts = [ln for ln in lines if ln.get_linestyle() in ('None', '', ' ')]
        curves = [ln for ln in lines if ln not in pts]
        shown = [e for e in S.eff if not e['hide'] and not (e['binning'] == 'none' and pres != 'cumulative')]
        m.event('hidden', len(S.eff) - len(shown))
        m.check(len(pts) == len(shown), 'overplots-drawn', lambda: f'{len(pts)} point series, {len(shown)} unhidden overplots')
        want_curves = []
        bars = [c for c in ax.collections if isinstance(c, mc.LineCollection)]
        nbar = 0
        for e, ln in zip(reversed(shown), pts):
            cc = e['R'].cc
            p = m.call(cc.getplotdata, pres, e['binning'], range=list(e['R'].range), resurfacing=1 if e['resurf'] and e['type'] == 'c-fit' else 0,
                       showall=e['resurf_showall'], pf=S.pf)
            m.close(ln.get_xdata(), np.log10(p['d']), 'points-x', rtol=1e-9, atol=1e-9, msg=e['type'])
            m.close(ln.get_ydata(), p['y'], 'points-y', rtol=1e-9, msg=e['type'])
            m.check(mcol.to_hex(ln.get_color()) == colour(e, o), 'points-colour', lambda: f'{ln.get_color()} expected {colour(e, o)}')
            mk, fs = MARK[sc.SYMBOLS[e['psym']]]
            m.check((ln.get_marker() == mk if mk else not isinstance(ln.get_marker(), str)) and (fs is None or ln.get_fillstyle() == fs), 'points-symbol',
                    lambda: f'{ln.get_marker()} {ln.get_fillstyle()} expected {sc.SYMBOLS[e["psym"]]}')
            m.event('points', len(p['d']))
            if e['error_bars']:
                seg = np.array([s for s in bars[nbar].get_segments()]) if nbar < len(bars) else None
                m.check(seg is not None, 'error-bars-missing', '')
                nbar += 1
                if len(p['d']):
                    w = np.stack([np.stack([np.log10(p['d']), p['y'] - p['err']], 1), np.stack([np.log10(p['d']), p['y'] + p['err']], 1)], 1)
                    m.close(seg, w, 'error-bars', rtol=1e-9, atol=1e-9 * np.max(p['y']))
                m.event('error-bars')
            if e['type'] in sc.AGES:
                a0 = float(e['age'].a0[0])
                if e['isochron']:
                    iso = S.pf.getisochron(pres, a0, ef)
                    want_curves.append(('whole isochron', np.log10(iso['d']), iso['y'], None))
                g = S.pf.getplotdata(pres, a0, range=np.array(e['R'].range) * [.99, 1.01])
                e['fit'] = np.log10(g['d'][0]), g['y'][0]
                want_curves.append(('fit', np.log10(g['d']), g['y'], colour(e, o)))
                m.event('fits')
        m.check(len(bars) == nbar, 'error-bars-invented', lambda: f'{len(bars)} sets of error bars, {nbar} expected')
        if ef is not None:
            g = ef.getplotdata(pres)
            want_curves.append(('equilibrium', np.log10(g['d']), g['y'], None))
        for t, _ in o['isochrons']:
            iso = S.pf.getisochron(pres, float(S.cf.a0(t)), ef)
            want_curves.append((f'isochron {t}', np.log10(iso['d']), iso['y'], None))
            m.event('isochrons')
        if ep is not None:
            _, _, _, boundary = ep.decode_formatting()
            for i, t in enumerate(ep.time[1:-1]):
                if boundary[i]:
                    iso = S.pf.getisochron(pres, float(S.cf.a0(t)), ef)
                    want_curves.append((f'epoch boundary {t}', np.log10(iso['d']), iso['y'], None))
            fills = [p for p in ax.patches if isinstance(p, Polygon) and len(p.get_xy()) > 4]
            iso = [S.pf.getisochron(pres, float(S.cf.a0(t)), ef) for t in ep.time[1:]]
            shades = []
            for (i, a), b in zip(enumerate(iso), iso[1:]):
                x, y = np.log10(np.concatenate((a['d'], b['d'][::-1]))), np.concatenate((a['y'], b['y'][::-1]))
                if len(x) < 5:
                    continue
                j = next((j for j, p in enumerate(fills) if same(p.get_xy()[:len(x), 0], x) and same(p.get_xy()[:len(x), 1], y)), None)
                m.check(j is not None, 'epoch-region', lambda: f'{ep.epoch[i]}: not filled between {ep.time[i + 1]} and {ep.time[i + 2]}')
                lum = float(np.dot(mcol.to_rgb(fills[j].get_facecolor()), (.3, .6, .1)))
                m.check((lum < .5) == bool(o['invert']), 'epoch-shade', lambda: f'{fills[j].get_facecolor()} with invert={o["invert"]}')
                m.event('epoch-regions')
                shades.append((i + 1, fills[j].get_facecolor()))
                fills.pop(j)
            import vmon.figures as figures
            figures.epoch_shades(m, ep, shades, o['invert'])
            m.check(all(len(p.get_xy()) <= 5 for p in fills), 'epoch-region-invented', lambda: f'{len(fills)} regions beyond those of the epochs')
        want_curves = [w for w in want_curves if len(w[1])]
        curves = [c for c in curves if len(c.get_xdata())]
        for name, x, y, col in want_curves:
            i = next((i for i, c in enumerate(curves) if same(c.get_xdata(), x) and same(c.get_ydata(), y) and (col is None or mcol.to_hex(c.get_color()) == col)), None)
            m.check(i is not None, 'curve-missing', lambda: f'{name}: no curve with the expected values')
            curves.pop(i)
        m.check(not curves, 'curve-invented', lambda: f'{len(curves)} curves beyond {[w[0] for w in want_curves]}')

        # ---- texts
        T = [t.get_text() for t in ax.texts]
        ann = [t for t in ax.texts if age_text(t.get_text()) is not None]
        shown_ages = [e for e in reversed(shown) if e['type'] in sc.AGES and e['show_age']]
        m.check(len(ann) == len(shown_ages), 'age-annotations', lambda: f'{T} for {len(shown_ages)} ages')
        dec = np.array([max(abs(xl[1] - xl[0]), 1), 0])[0]
        for e, t in zip(shown_ages, ann):
            check_age(m, t.get_text(), [float(x) for x in e['age'].t], o['sf'], o['mu'], 'annotation')
            m.check(mcol.to_hex(t.get_color()) == colour(e, o), 'annotation-colour', lambda: t.get_color())
            m.check(t.get_horizontalalignment() == ('right' if e['age_left'] else 'left'), 'annotation-side', t.get_text())
            x0 = (e['fit'][0] - xl[0]) / (xl[1] - xl[0]) + (-.02 if e['age_left'] else .02) + e['offset_age'][0] / (20 * dec)
            if not e['fit'][1] > 0:     # production function increasing there: below the plot
                continue
            y0 = (np.log10(e['fit'][1]) - yl[0]) / (yl[1] - yl[0]) + (-.02 if e['age_left'] else .02) + e['offset_age'][1] / (20 * dec)
            m.close(t.get_position(), (x0, y0), 'annotation-position', rtol=0, atol=1e-6)
            m.event('age-annotations')
        insets = [a for a in fig.axes[1:] if len(a.get_lines()) == 1 and len(a.get_lines()[0].get_xdata()) > 100]
        wi = [e for e in shown_ages if e['type'] in ('poisson', 'b-poisson')]
        m.check(len(insets) == len(wi), 'pdf-insets', lambda: f'{len(insets)} for {len(wi)}')
        for e, a in zip(wi, insets):
            ln = a.get_lines()[0]
            m.check(same(ln.get_xdata(), e['age'].pdf.ts) and same(ln.get_ydata(), e['age'].pdf.pdf), 'pdf-inset-curve', '')
            m.check(mcol.to_hex(ln.get_color()) == colour(e, o), 'pdf-inset-colour', lambda: f'{ln.get_color()} expected {colour(e, o)}')
            lim = a.get_xlim()
            m.check(lim[0] <= e['age'].t[1] * (1 + 1e-9) and lim[1] >= e['age'].t[2] * (1 - 1e-3), 'pdf-inset-range', lambda: f'{lim} for {e["age"].t}')
            # 1-sigma interval shaded, median marked
            ts = np.asarray(e['age'].pdf.ts, float)
            step = lambda x: np.interp(x, ts, np.arange(len(ts)))
            V = [np.concatenate([p.vertices for p in c.get_paths()]) for c in a.collections if len(c.get_paths()) and len(c.get_paths()[0].vertices)]
            sh = [v for v in V if abs(step(v[:, 0].min()) - step(e['age'].t[1])) < 3 and abs(step(v[:, 0].max()) - step(e['age'].t[2])) < 3]
            md = [v for v in V if all(abs(step(x) - step(e['age'].t[0])) < 3 for x in (v[:, 0].min(), v[:, 0].max()))]
            if step(e['age'].t[2]) - step(e['age'].t[1]) > 12 and e['age'].t[2] < 4.9:
                m.check(len(sh) >= 1, 'pdf-inset-interval', lambda: f'{[(v[:, 0].min(), v[:, 0].max()) for v in V]} for {e["age"].t}')
                m.check(len(V) - len(sh) - len(md) == 0, 'pdf-inset-interval', lambda: f'{[(v[:, 0].min(), v[:, 0].max()) for v in V]} for {e["age"].t}')
                m.event('pdf-inset-intervals')
            # labels stand for the values of their ticks, in the unit of the last
            L = [t.get_text().strip() for t in a.get_xticklabels()]
            u = {'Ga': 1., 'Ma': 1e-3, 'ka': 1e-6, 'a': 1e-9}.get(L[-1].split(' ')[-1])
            m.check(u is not None, 'pdf-inset-ticks', lambda: f'{L}')
            m.close([float(x.split(' ')[0]) * u for x in L], a.get_xticks(), 'pdf-inset-ticks', rtol=2e-5, atol=1e-12, msg=f'{L}')
            m.event('pdf-insets')
        flab = [x for x in T if 'CF: ' in x]
        m.check(len(flab) == ('f' in o['legend']), 'function-legend', lambda: f'{T}')
        if flab:
            L = flab[0].split('\n')
            want = (['Epochs: ' + o['ep']] if o['ep'] else []) + (['EF: ' + o['ef']] if o['ef'] else []) + ['PF: ' + S.sys['pf'], 'CF: ' + S.sys['cf']]
            m.check(L == want, 'function-legend', lambda: f'{L} expected {want}')
        halo(m, ax, o)
        plain = [x for x in T if x not in flab and age_text(x) is None]
        hid = sorted(t for t, s in o['isochrons'] if 'h' not in s)
        for x in plain:
            q = re.fullmatch(r'(\S+) (Ga|Ma|ka|a)', x)
            m.check(q is not None and any(abs(float(q[1]) * _UN[q[2]] / t - 1) < 1e-5 for t in hid), 'isochron-label', lambda: f'{x!r} for {hid}')

        # ---- legend
        lg = [t.get_text() for t in ax.get_legend().get_texts()]
        entries = [(e, expected_legend(o, e)) for e in shown]
        entries = [x for x in entries if x[1]]
        m.check(len(lg) == len(entries), 'legend-entries', lambda: f'{lg} expected {[[k for k, _ in L] for _, L in entries]}')
        for s, (e, L) in zip(lg, entries):
            if L[0][0] == 'name':
                m.check(s.startswith(L[0][1]), 'legend-name', lambda: f'{s!r} expected {L[0][1]!r}')
                s = s[len(L[0][1]):]
                L = L[1:]
                if not L:
                    m.check(s == '', 'legend-name', lambda: repr(s))
                    continue
                m.check(s.startswith(', '), 'legend-name', lambda: repr(s))
                s = s[2:]
            parts = s.split(', ')
            m.check(len(parts) == len(L), 'legend-items', lambda: f'{s!r} expected {[k for k, _ in L]}')
            for q, (k, v) in zip(parts, L):
                check_legend_item(m, S, o, e, k, v, q)
            m.event('legend-entries')
    m.sig(S.sys['name'], pres, [(e['type'], e['binning'], e['hide']) for e in S.eff], o['legend'], bool(o['ef']), bool(o['ep']), len(o['isochrons']))
    m.sample(dict(args=args, legend=lg, texts=T))


from . import figures  # noqa: E402,F401

"""Monitors of the command as a process: replay, equivalent spellings, files written, independence of history."""
import hashlib
import json
import os
import pickle
import re
import shlex
import struct

import numpy as np

import craterstats as cst
import craterstats.cli as cli
from . import gen
from . import output as out
from . import scenario as sc
from .cliutil import run, listing
from .core import case, scratch, Skip, Inconclusive
from .ages import systems
from .models import get_pf, get_cf, defs

LONG = {'-cs': '--chronology_system', '-ef': '--equilibrium', '-ep': '--epochs', '-pr': '--presentation', '-p': '--plot', '-f': '--format', '-o': '--out',
        '-pd': '--print_dimensions', '-sf': '--sig_figs', '-b': '--bins', '-st': '--sequence_table', '-d_min': '--min_diameter', '-ns': '--n_samples'}


# ---- fingerprint of a figure ----------------------------------------------------------------------
def _r(v):
    a = np.asarray(v, float)
    with np.errstate(all='ignore'):
        return [None if not np.isfinite(x) else float(f'{x:.9g}') for x in a.ravel()]


def fingerprint(fig):
    """everything drawn: nested plain data with rounded numbers"""
    import matplotlib.colors as mcol
    F = [('page', _r(fig.get_size_inches()), mcol.to_hex(fig.get_facecolor()))]
    for a in fig.axes:
        A = [('axes', _r(np.ravel(a.get_position())), a.get_xscale(), a.get_yscale(), _r(a.get_xlim()), _r(a.get_ylim()), a.get_title(), a.get_xlabel(), a.get_ylabel(),
              mcol.to_hex(a.get_facecolor()), _r(a.title.get_fontsize()), _r(a.xaxis.label.get_fontsize()))]
        A.append(('xticks', _r(a.get_xticks()), [(t.get_text(), _r(t.get_fontsize()), mcol.to_hex(t.get_color())) for t in a.get_xticklabels()]))
        A.append(('yticks', _r(a.get_yticks()), [(t.get_text(), _r(t.get_fontsize()), mcol.to_hex(t.get_color())) for t in a.get_yticklabels()]))
        for ln in a.get_lines():
            mk = ln.get_marker()
            A.append(('line', _r(ln.get_xdata()), _r(ln.get_ydata()), mcol.to_hex(ln.get_color()), ln.get_linestyle(), _r(ln.get_linewidth()),
                      mk if isinstance(mk, str) else 'path', ln.get_fillstyle(), _r(ln.get_markersize()), ln.get_zorder(), str(ln.get_label())))
        for c in a.collections:
            A.append(('collection', [_r(p.vertices) for p in c.get_paths()], _r(c.get_edgecolor()), _r(c.get_facecolor()), _r(c.get_linewidth()), c.get_zorder()))
        for t in a.texts:
            A.append(('text', t.get_text(), _r(t.get_position()), mcol.to_hex(t.get_color()), _r(t.get_fontsize()), t.get_rotation(), t.get_horizontalalignment(),
                      t.get_fontfamily(), bool(t.get_path_effects())))
        for i in a.images:
            A.append(('image', _r(np.ma.filled(np.ma.asarray(i.get_array(), dtype=float), np.nan))))
        for p in a.patches:
            A.append(('patch', _r(p.get_path().vertices), _r(p.get_facecolor())))
        g = a.get_legend()
        if g is not None:
            A.append(('legend', [(t.get_text(), mcol.to_hex(t.get_color()), _r(t.get_fontsize()), bool(t.get_path_effects())) for t in g.get_texts()]))
        F.append(A)
    return F


def differ(a, b, at=''):
    """description of the first difference or None"""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        for i, (x, y) in enumerate(zip(a, b)):
            q = differ(x, y, f'{at}/{x[0] if isinstance(x, tuple) and x and isinstance(x[0], str) else i}')
            if q:
                return q
        return None if len(a) == len(b) else f'{at}: {len(a)} and {len(b)} items'
    if a is None or b is None or isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
        return None if a == b else f'{at}: {a!r} and {b!r}'
    if a != a and b != b:   # a label which cannot be placed
        return None
    return None if abs(a - b) <= 1e-7 * max(abs(a), abs(b)) + 1e-12 else f'{at}: {a!r} and {b!r}'


def outcome(rec, d='.', drop=()):
    """figures (fingerprint by file) and other files of an executed command"""
    fig = {os.path.basename(n): fingerprint(f) for n, _, f in rec.save}
    kw = {os.path.basename(n): {k: repr(v) for k, v in k.items()} for n, k, _ in rec.save}
    files = {k: v for k, v in listing(d).items() if not k.endswith(('.svg', '.png', '.pdf', '.tif')) and k not in drop}
    return dict(fig=fig, kw=kw, files=files, exc=None if rec.exc is None else f'{type(rec.exc).__name__}: {rec.exc}')


def same_outcome(m, a, b, mech, what='', rel=True):
    m.check(a['exc'] == b['exc'], mech + '-termination', lambda: f'{what}: {a["exc"]} and {b["exc"]}')
    m.check(sorted(a['fig']) == sorted(b['fig']), mech + '-figures', lambda: f'{what}: {sorted(a["fig"])} and {sorted(b["fig"])}')
    for k in a['fig']:
        q = differ(a['fig'][k], b['fig'][k])
        m.check(q is None, mech + '-figure', lambda: f'{what} {k}: {q}')
        m.check(a['kw'][k] == b['kw'][k], mech + '-figure', lambda: f'{what} {k}: saved with {a["kw"][k]} and {b["kw"][k]}')
        m.event(mech + '-figures')
    m.check(sorted(a['files']) == sorted(b['files']), mech + '-files', lambda: f'{what}: {sorted(a["files"])} and {sorted(b["files"])}')
    for X in (a, b) if rel else ():     # the path of the source is stated in the table
        for k in X['files']:
            if k.endswith('.csv'):
                X['files'][k] = re.sub(rb'(\./|%s/)' % re.escape(os.path.abspath('.').encode()), b'', X['files'][k])
    for k in a['files']:
        m.check(a['files'][k] == b['files'][k], mech + '-file', lambda: f'{what} {k}: {a["files"][k][:3000]} and {b["files"][k][:3000]}')
        m.event(mech + '-files')


# ---- commands ---------------------------------------------------------------------------------------
class Command:
    """opts: list of option groups; plots: -p groups"""

    def args(self, opts=None, plots=None):
        return [x for g in (self.opts if opts is None else opts) + (self.plots if plots is None else plots) for x in g]


def groups(a):
    """split option list at option names"""
    L = []
    for x in a:
        if re.match(r'-{1,2}[A-Za-z]', x):
            L.append([x])
        else:
            L[-1].append(x)
    return L


def command(rng, m, pres=None, out_name='t', fmts=('svg', 'csv'), abbreviate=False):
    """random command in current directory (creates its sources)"""
    C = Command()
    C.pres = pres or sc.pick(rng, list(out.SFD) * 2 + ['sequence', 'sequence', 'chronology', 'rate'])
    if C.pres in ('chronology', 'rate'):
        C.S = S = sc.File()
        S.sys, S.pres, S.files, S.eff, S.given = sc.pick(rng, systems()), C.pres, [], [], []
        S.pf = get_pf(m, S.sys['pf'])
        lo, hi = (float(x) for x in S.pf.range)
        o, oa = out.options(rng, S)
        if not lo <= o['ref_d'] <= hi or not lo <= 1. <= hi:
            raise Skip
        for k in ('-isochrons', '-ef'):
            if k in oa:
                i = oa.index(k)
                del oa[i:i + 2]
    else:
        C.S = S = sc.make(rng, m, C.pres)
        o, oa = out.options(rng, S)
        if C.pres == 'sequence':
            oa = [x for g in groups(oa) for x in g if g[0] != '-isochrons']
        if any(e['binning'] == 'none' for e in S.eff):
            raise Skip
        out.drawable(m, S)
    C.o = o
    C.opts = [['-cs', S.sys['name']], ['-pr', C.pres]] + groups(oa)
    if fmts:
        C.opts.append(['-f', *fmts])
    if out_name is not None:
        C.opts.append(['-o', out_name])
    if C.pres == 'sequence' and rng.random() < .4:
        C.opts.append(['-st'])
    if rng.random() < .2:
        C.opts.append(sc.pick(rng, [['-tight'], ['-transparent'], ['-transparent', '1']]))
    for g in S.given:
        if 'colour' in g and rng.random() < .2:
            g['colour'] = '#%06x' % int(rng.integers(0, 1 << 24))
    for e, x in zip(S.eff, sc.effective(S.given, S.pres)):
        e['colour'] = x['colour']
    C.plots = [['-p', sc.text(rng, g, S.files, abbreviate)] for g in S.given]
    C.data = [(F.path, F.d, F.f, F.area, F.per) for F in S.files]
    return C


def written(rng, L, sep='\n'):
    """option groups as someone would type them into a file: quotes only where needed, of either kind"""
    def one(x, many):
        r = rng.random()
        bare = x and not re.search(r'''['"\\\s]''', x)
        if r < .5 and bare:
            return x
        if r < .5 and many and not re.search(r'''['"\\]|  |[^\S ]|^ | $| -''', x):
            return x            # several words up to the next option
        if r < .7 and not re.search(r'["\\]', x):
            return f'"{x}"'
        return shlex.quote(x)
    return sep.join(' '.join([g[0]] + [one(x, g[0] in ('-p', '--plot', '-title')) for x in g[1:]]) for g in L)


def clear(keep):
    for f in os.listdir('.'):
        if f not in keep and os.path.isfile(f):
            os.remove(f)


# ======================================================================================== C22
@case('C22', quick=135, thorough=2500, needs=('replayed-figures', 'replayed-files', 'from-elsewhere', 'edited-script', 'typed-script', 'joined-options', 'other-file-there'))
def replay_script(m, rng):
    """the .cs file left by a command repeats it"""
    with scratch() as d:
        name = sc.pick(rng, ['t', 't', 'fig 1', 'x.y_2 a', None, 'résumé', "it's"])
        os.mkdir('w')
        os.chdir('w')
        C = command(rng, m, out_name=name)
        joined = rng.random() < .25
        if joined:      # --option=value
            for g in C.opts:
                if len(g) == 2 and g[0] in LONG and rng.random() < .6:
                    g[:] = [LONG[g[0]] + '=' + g[1]]
            C.opts.append(['-title=' + sc.pick(rng, ['Site A (north)', 'two  spaces', "it's #1", 'a & b; "c"', '$5'])])
            m.event('joined-options')
        args = C.args()
        if rng.random() < .5:   # any order
            L = C.opts + C.plots
            k = list(rng.permutation(len(C.opts)))
            pos = sorted(int(x) for x in rng.choice(len(L), len(C.plots), replace=False))
            L = []
            a, b = [C.opts[i] for i in k], list(C.plots)
            for i in range(len(C.opts) + len(C.plots)):
                L.append(b.pop(0) if i in pos else a.pop(0))
            args = [x for g in L for x in g]
        m.note(args=args, data=C.data)
        src = set(os.listdir('.'))
        rec = m.call(run, args, catch=())
        A = outcome(rec)
        cs = [f for f in A['files'] if f.endswith('.cs')]
        m.check(len(cs) == 1, 'script-files', lambda: f'{sorted(A["files"])}')
        script = A['files'][cs[0]]
        if name is not None:
            m.check(cs == [name + '.cs'], 'script-name', lambda: f'{cs}')
        clear(src | set(cs))
        edit = rng.random() < .3
        if edit:    # comments and blank lines are ignored
            t = script.decode().split('\n')
            for _ in range(3):
                t.insert(int(rng.integers(0, len(t) + 1)), sc.pick(rng, ['# note', '', '   ', "#-p source=it's", '  # -xrange 1 2']))
            with open(cs[0], 'w') as f:
                f.write('\n'.join(t) + sc.pick(rng, ['', '\n', '\n\n']))
            m.event('edited-script')
        elif not joined and rng.random() < .3:     # the same typed by hand
            edit = True
            with open(cs[0], 'w') as f:
                f.write(written(rng, groups(args)))
            m.event('typed-script')
        there = rng.random() < .5
        if there:
            os.chdir('..')
            os.mkdir('e')
            decoy = set()
            if rng.random() < .5:   # another file of the same name where the script is run from
                for f in sorted({x[0] for x in C.data} - {None}):
                    if not os.path.isabs(f) and os.path.isfile('w/' + f):
                        os.makedirs(os.path.dirname('e/' + f), exist_ok=True)
                        gen.write('e/' + f, 'area = 1\ncrater = {diameter\n' + '1.5\n' * 7 + '}\n')
                        decoy.add(f)
                os.chdir('e')
                m.event('other-file-there')
            m.event('from-elsewhere')
        p = cs[0] if not there else sc.pick(rng, [os.path.relpath(os.path.join(d, 'w', cs[0])), os.path.join(os.path.realpath(d), 'w', cs[0])])
        try:
            rec = m.call(run, [sc.pick(rng, ['-i', '--input']), p], catch=())
        finally:
            os.chdir(os.path.join(d, 'w'))
        if there:
            m.check(sorted(os.listdir('..')) == ['e', 'w'] and set(listing('../e')) == decoy, 'replay-files-elsewhere', lambda: f'{listing("..").keys()}')
        B = outcome(rec)
        if edit:
            A['files'].pop(cs[0])
            B['files'].pop(cs[0], None)
        same_outcome(m, A, B, 'replayed', f'{args} replayed from {p}')
        m.sig(C.S.sys['name'], C.pres, len(args), name, there)
        m.sample(dict(args=args, script=script.decode()))


@case('C22', quick=105, thorough=2000, needs=('included-figures', 'nested-include', 'include-elsewhere'))
def include_settings(m, rng):
    """options included from a file act as if given in its place"""
    with scratch() as d:
        C = command(rng, m)
        src = set(os.listdir('.'))
        L = C.opts + C.plots if rng.random() < .7 else C.plots + C.opts
        args = [x for g in L for x in g]
        m.note(args=args, data=C.data)
        A = outcome(m.call(run, args, catch=()), drop=('t.cs',))
        clear(src)
        i, j = sorted(int(x) for x in rng.integers(0, len(L) + 1, 2))
        if i == j:
            i, j = 0, len(C.opts) // 2 + 1
        sub = L[i:j]
        inc = 'settings.txt'
        if rng.random() < .3:
            os.mkdir('conf')
            inc = 'conf/lay out.txt'
            m.event('include-elsewhere')

        def write(fn, sub):
            sep = sc.pick(rng, ['\n', ' ', '\n\n', '\n# c\n'])
            with open(fn, 'w') as f:
                f.write(written(rng, sub, sep) + sc.pick(rng, ['', '\n']))
        if len(sub) > 2 and rng.random() < .3:      # an included file includes another
            k = len(sub) // 2
            write('more.txt', sub[k:])
            sub = sub[:k] + [['-inc', 'more.txt']]
            m.event('nested-include')
        write(inc, sub)
        L2 = L[:i] + [[sc.pick(rng, ['-inc', '--include']), inc]] + L[j:]
        args2 = [x for g in L2 for x in g]
        mode = int(rng.integers(0, 3))
        if mode == 0 and '-o' in args2:     # within a replayed script
            with open('t.cs', 'w') as f:
                f.write(written(rng, L2))
            rec = m.call(run, ['-i', 't.cs'], catch=())
            m.event('include-in-script')
        else:
            rec = m.call(run, args2, catch=())
        B = outcome(rec, drop=('t.cs', 'more.txt', inc))
        same_outcome(m, A, B, 'included', f'{args} with {sub} included')
        m.sig(C.S.sys['name'], C.pres, i, j, inc)
        m.sample(dict(args=args2, included=sub))


@case('C22', quick=30, thorough=400)
def script_with_include(m, rng):
    """-i script with options included on the command line: sources and output belong to the script"""
    with scratch() as d:
        os.mkdir('w')
        os.mkdir('conf')
        os.chdir('w')
        C = command(rng, m, pres=sc.pick(rng, out.SFD), out_name=None)
        src = set(os.listdir('.'))
        m.note(args=C.args(), data=C.data)
        k = len(C.opts) // 2 or 1
        with open('run7.cs', 'w') as f:
            f.write('\n'.join(' '.join(shlex.quote(x) for x in g) for g in C.opts[:k] + C.opts[k:] + C.plots))
        A = outcome(m.call(run, ['-i', 'run7.cs'], catch=()))
        clear(src | {'run7.cs'})
        with open('run7.cs', 'w') as f:
            f.write(written(rng, C.opts[:k] + C.plots))
        with open('../conf/inc.txt', 'w') as f:
            f.write(written(rng, C.opts[k:]))
        inc = ['-inc', os.path.join(d, 'conf', 'inc.txt')]
        try:
            rec = m.call(run, ['-i', 'run7.cs'] + inc if rng.random() < .5 else inc + ['-i', 'run7.cs'], catch=())
        finally:
            os.chdir(os.path.join(d, 'w'))
        B = outcome(rec)
        A['files'].pop('run7.cs'), B['files'].pop('run7.cs', None)
        same_outcome(m, A, B, 'included', 'script and include')
        m.check(sorted(os.listdir('../conf')) == ['inc.txt'], 'replay-files-elsewhere', lambda: f'{os.listdir("../conf")}')
        m.sig(C.S.sys['name'], C.pres, k)


# ======================================================================================== C23
@case('C22', quick=40, thorough=300, needs=('map-script', 'uncertainty-script'))
def other_scripts(m, rng):
    """scripts left by commands drawing maps and uncertainties"""
    from . import spatial, sphere as sp
    with scratch():
        if rng.random() < .6:
            R = sp.region(rng, size=10 ** rng.uniform(-1.5, 1.))
            spatial.usable(R)
            radius = sc.pick(rng, spatial.RADII)
            craters = spatial.crater_set(rng, R, radius, int(rng.integers(1, 12)))
            src = sc.pick(rng, ['u.scc', 'my unit.scc', 'u_CRATER.shp'])
            if src.endswith('scc'):
                gen.write(src, sp.scc(rng, R, radius, craters))
            else:
                spatial.shp_pair(rng, (src, 'u_AREA.shp'), R, radius, craters, None)
            o = sc.pick(rng, [None, None, 'fig', 'v1.x-2', 'out'])
            args = ['--convert', sc.pick(rng, ['png', 'svg', 'pdf']), src] + (['-o', o] if o else []) + sc.pick(rng, [[], ['-tight'], ['-transparent'], ['-invert', '1'], ['-title', 'A', 'b|c d']])
            kind = 'map'
        else:
            s = sc.pick(rng, [x for x in systems() if 'coefficients' in next(p for p in defs()['production'] if p['name'] == x['pf'])])
            o = sc.pick(rng, [None, 'unc 1'])
            dm = sc.pick(rng, ['1', '0.5', '10'])
            if float(dm) < get_pf(m, s['pf']).range[0]:
                raise Skip
            args = ['-pr', 'uncertainty', '-cs', s['name'], '-d_min', dm, '-ns', '3', '-xrange', '4', '1', '-yrange', '1', '5', '-f', 'svg'] + (['-o', *o.split(' ')] if o else [])
            kind = 'uncertainty'
        m.note(args=args)
        src = set(os.listdir('.'))
        A = outcome(m.call(run, args, catch=()))
        cs = [f for f in A['files'] if f.endswith('.cs')]
        m.check(len(cs) == 1, 'script-files', lambda: f'{args}: {sorted(A["files"])}')
        clear(src | set(cs))
        B = outcome(m.call(run, ['-i', cs[0]], catch=()))
        if kind == 'uncertainty':       # drawn from random samples
            A['fig'], B['fig'] = ({k: [] for k in X['fig']} for X in (A, B))
        same_outcome(m, A, B, 'replayed', f'{args} replayed')
        m.event(kind + '-script')
        m.sig(args)


def subsequence(rng, name, names, case=True):
    """an abbreviation of name whose shortest match among names is name, or None"""
    for _ in range(30):
        n = int(rng.integers(1, len(name) + 1))
        idx = sorted(int(x) for x in rng.choice(len(name), n, replace=False))
        s = ''.join(name[i] for i in idx)
        if not s.strip() or s != s.strip() or s.startswith('-') or '=' in s:
            continue
        q = [x for x in names if is_sub(s, x)]
        if min(q, key=len) == name and len([x for x in q if len(x) == len(name)]) == 1:
            return ''.join(c.upper() if rng.random() < .3 else c.lower() if rng.random() < .4 else c for c in s)
    return None


def is_sub(s, t):
    i = iter(t.lower())
    return all(c in i for c in s.lower())


@case('C23', quick=300, thorough=4000, needs=('rewritten-figures', 'abbreviated', 'reordered', 'explicit', 'long-names'))
def rewritten(m, rng):
    """a command written differently gives the same output"""
    with scratch():
        C = command(rng, m)
        src = set(os.listdir('.'))
        args = C.args()
        m.note(args=args, data=C.data)
        A = outcome(m.call(run, args, catch=()), drop=('t.cs',))
        clear(src)
        opts = [list(g) for g in C.opts]
        for g in opts:
            if g[0] in ('-cs', '-ef', '-ep') and rng.random() < .6:
                names = [e['name'] for e in defs()[{'-cs': 'chronology_system', '-ef': 'equilibrium', '-ep': 'epochs'}[g[0]]]]
                s = subsequence(rng, g[1], names)
                if s:
                    g[1] = s
                    m.event('abbreviated')
            elif g[0] == '-pr' and rng.random() < .6:
                s = subsequence(rng, g[1], cst.PRESENTATIONS)
                if s and sum(is_sub(s, x) for x in cst.PRESENTATIONS) == 1:
                    g[1] = s
                    m.event('abbreviated')
            elif g[0] in ('-mu', '-invert', '-transparent', '-text_halo') and g[1:] == ['1'] and rng.random() < .5:
                g[1:] = []
            elif g[0] in ('-xrange', '-yrange') and rng.random() < .5:
                g[1:] = [repr(float(x)) for x in g[1:]]
            elif g[0] == '-legend' and len(g[1]) > 1 and rng.random() < .5:
                g[1] = ''.join(rng.permutation(list(g[1])))
            if rng.random() < .4 and g[0] in LONG:
                g[0] = LONG[g[0]]
                m.event('long-names')
        plots = []
        explicit = rng.random() < .6
        for i, (g, e) in enumerate(zip(C.S.given, C.S.eff)):
            h = dict(g)
            if explicit:
                for k in sc.DEFAULT:
                    if k not in h and rng.random() < .7 and not (k == 'name' and not e[k]) and (k != 'source' or 'type' in h or e['type'] == ('poisson' if C.pres == 'sequence' else 'data')):
                        h[k] = e[k]
                if 'source' in h and 'type' not in g:
                    h['type'] = e['type']
                m.event('explicit')
            elif i:     # drop what would be carried over anyway
                p = C.S.eff[i - 1]
                for k in sc.CARRY:
                    if k != 'source' and k in h and h[k] == p[k] and rng.random() < .7:
                        del h[k]
            if not h:
                h['hide'] = e['hide']
            parts = []
            for k in [list(h)[j] for j in rng.permutation(len(h))]:
                v = h[k]
                kk = k
                if rng.random() < .4:
                    kk = subsequence(rng, k, cst.CRATERPLOT_KEYS) or k
                    kk = kk if re.fullmatch(r'\w+', kk) else k
                if k == 'colour':
                    if isinstance(v, int):
                        v = sc.COLOURS[v]
                        v = (subsequence(rng, v, sc.COLOURS) or v) if rng.random() < .4 else v
                elif k == 'psym':
                    n = [x[1] for x in cst.MARKERS]
                    s = subsequence(rng, n[v], n) if rng.random() < .6 else None
                    v = s if s and s not in sc.SYMBOLS else sc.SYMBOLS[v]
                elif k == 'type':
                    n = dict(zip(cst.OPLOT_TYPES_SHORT, cst.OPLOT_TYPES))
                    v = (subsequence(rng, n[v], cst.OPLOT_TYPES) or v) if rng.random() < .5 else n[v]
                elif k == 'binning':
                    v = (subsequence(rng, v, cst.Cratercount.BINNINGS) or v) if rng.random() < .5 else v
                elif k in ('range', 'offset_age'):
                    v = '[' + ','.join(str(x) for x in v) + ']'
                elif k == 'source' and rng.random() < .3:
                    v = sc.pick(rng, [f'"{v}"', './' + v, os.path.abspath(v)])
                parts.append(f'{kk}={v}')
            plots.append([sc.pick(rng, ['-p', '--plot']), ','.join(parts)])
        L = list(opts)
        if rng.random() < .8:
            L = [L[i] for i in rng.permutation(len(L))]
            m.event('reordered')
        pos = set(int(x) for x in rng.choice(len(L) + len(plots), len(plots), replace=False)) if rng.random() < .6 else set(range(len(plots)))
        b, M = list(plots), []
        for i in range(len(L) + len(plots)):
            M.append(b.pop(0) if i in pos else L.pop(0))
        # -f and -title take several words
        args2 = [x for g in M for x in g]
        m.note(rewritten=args2)
        B = outcome(m.call(run, args2, catch=()), drop=('t.cs',))
        same_outcome(m, A, B, 'rewritten', f'{args} and {args2}')
        m.sig(C.S.sys['name'], C.pres, args2)
        m.sample(dict(args=args, rewritten=args2))


@case('C23', quick=400, thorough=6000, needs=('abbreviation', 'refused-abbreviation'))
def abbreviations(m, rng):
    """decoding: shortest name containing the letters in order; none: refused; several presentations: refused"""
    what = sc.pick(rng, ['-cs', '-ef', '-ep', '-pr', 'type', 'binning', 'colour', 'psym'])
    names = {'-cs': [e['name'] for e in defs()['chronology_system']], '-ef': [e['name'] for e in defs()['equilibrium']], '-ep': [e['name'] for e in defs()['epochs']],
             '-pr': [p for p in cst.PRESENTATIONS], 'type': list(cst.OPLOT_TYPES), 'binning': list(cst.Cratercount.BINNINGS), 'colour': list(sc.COLOURS),
             'psym': [x[1] for x in cst.MARKERS]}[what]
    base = sc.pick(rng, names)
    n = int(rng.integers(1, min(len(base), 8) + 1))
    s = ''.join(base[i] for i in sorted(int(x) for x in rng.choice(len(base), n, replace=False)))
    if rng.random() < .3:
        i = int(rng.integers(0, len(s) + 1))
        s = s[:i] + sc.pick(rng, ['z', 'q', 'x', '.', '*', '(', 'é', '0', '+']) + s[i:]
    s = ''.join(c.upper() if rng.random() < .2 else c for c in s)
    if not s.strip() or s != s.strip() or s.startswith(('-', '#')) or ',' in s or '=' in s or what == 'psym' and s in sc.SYMBOLS:
        raise Skip
    q = [x for x in names if is_sub(s, x)]
    short = min(map(len, q)) if q else 0
    want = [x for x in q if len(x) == short]
    if what == '-cs' and any(x not in [y['name'] for y in systems()] for x in want):     # known finding of C12
        raise Skip
    with scratch():
        gen.write('a.diam', gen.diam_text(rng, gen.off_edges(np.array([1.2, 1.7, 2.2, 3.1, 4.5]), 1e-6), None, 100., 30.))
        a = ['-f', 'svg', '-o', 't']
        if what.startswith('-'):
            a += [what, s]
            if what == '-ep':
                a += ['-cs', 'Moon, Neukum (1983)']
            if what == '-pr':
                a += ['-ns', '4', '-xrange', '3', '0', '-yrange', '0', '6'] if q in (['uncertainty'],) else []
                if q and q[0] in ('map', 'sdaa', 'm2cnd', 'uncertainty') and len(q) == 1:
                    raise Skip
            a += ['-p', 'source=a.diam,type=data']
        else:
            a += ['-p', f'source=a.diam,{"" if what == "type" else "type=data,"}{what}={s}']
        m.note(args=a)
        rec = m.call(run, a, catch=(SystemExit,))
        if not q or what == '-pr' and len(q) > 1:
            m.check(isinstance(rec.exc, SystemExit) and rec.exc.code not in (None, 0), 'abbreviation-accepted', lambda: f'{what} {s!r} matches {q}')
            m.check(sorted(os.listdir('.')) == ['a.diam'], 'refusal-left-output', lambda: f'{os.listdir(".")}')
            m.event('refused-abbreviation')
        else:
            m.check(rec.exc is None and len(rec.save) >= 1, 'abbreviation-refused', lambda: f'{what} {s!r} matches {q}: {rec.exc}')
            fig = rec.save[0][2]
            T = [ln for a_ in fig.axes for t in a_.texts for ln in t.get_text().split('\n')]
            if what in ('-cs', '-ef', '-ep'):
                if what == '-cs':
                    got = [t[4:] for t in T if t.startswith('CF: ')]
                    exp = [e['cf'] for e in defs()['chronology_system'] if e['name'] in want]
                else:
                    k = {'-ef': 'EF: ', '-ep': 'Epochs: '}[what]
                    got = [t[len(k):] for t in T if t.startswith(k)]
                    exp = want
                m.check(len(got) == 1 and got[0] in exp, 'abbreviation-choice', lambda: f'{what} {s!r}: {got} expected {exp}')
            elif what == '-pr':
                y = fig.axes[0].get_ylabel()
                p = want[0]
                lab = {'cumulative': 'Cumulative crater density, km', 'differential': 'Differential', 'R-plot': 'Relative', 'Hartmann': '2-bin', 'chronology': 'Cumulative crater density N(',
                       'rate': 'formation rate', 'sequence': ''}[p]
                m.check(lab in y and (p != 'sequence' or not y), 'abbreviation-choice', lambda: f'{what} {s!r}: {y!r} expected {p}')
            elif what == 'type':
                n_data = sum(ln.get_linestyle() in ('None', '', ' ') for ln in fig.axes[0].get_lines())
                fits = [ln for ln in fig.axes[0].get_lines() if ln.get_label() == 'fit']
                m.check(n_data == 1 and bool(fits) == (want[0] != 'data'), 'abbreviation-choice', lambda: f'{s!r} expected {want}')
                L = [t.get_text() for t in fig.axes[0].get_legend().get_texts()]
                ins = len([x for x in fig.axes[1:] if len(x.get_lines()) == 1 and len(x.get_lines()[0].get_xdata()) > 100])
                m.check((ins == 1) == ('poisson' in want[0]) and any('(buffered)' in x for x in L) == ('buffered' in want[0]), 'abbreviation-choice', lambda: f'{s!r}: {L} expected {want}')
            elif what == 'binning':
                cc = m.call(cst.Cratercount, 'a.diam')
                x = fig.axes[0].get_lines()
                x = next(ln for ln in x if ln.get_linestyle() in ('None', '', ' ')).get_xdata() if any(ln.get_linestyle() in ('None', '', ' ') for ln in x) else []
                exp = [np.log10(cc.getplotdata('differential', b)['d']) for b in want] if want != ['none'] else [[]]
                m.check(any(len(x) == len(y) and np.allclose(x, y, rtol=1e-9, atol=1e-9) for y in exp), 'abbreviation-choice', lambda: f'{s!r}: {x} expected {want}')
            elif what in ('colour', 'psym'):
                ln = next(ln for ln in fig.axes[0].get_lines() if ln.get_linestyle() in ('None', '', ' '))
                if what == 'colour':
                    import matplotlib.colors as mcol
                    exp = [sc.HEX[sc.COLOURS.index(x)][0] for x in want]
                    m.check(mcol.to_hex(ln.get_color()) in exp, 'abbreviation-choice', lambda: f'{s!r}: {ln.get_color()} expected {want}')
                else:
                    ok = False
                    for x in want:
                        mk, fs = out.MARK[sc.SYMBOLS[names.index(x)]]
                        ok |= (ln.get_marker() == mk if mk else not isinstance(ln.get_marker(), str)) and (fs is None or ln.get_fillstyle() == fs)
                    m.check(ok, 'abbreviation-choice', lambda: f'{s!r}: {ln.get_marker()} {ln.get_fillstyle()} expected {want}')
            m.event('abbreviation')
    m.sig(what, s.lower())


# ======================================================================================== C24
MAGIC = {'png': lambda b: b.startswith(b'\x89PNG') and b.rstrip().endswith(b'\x82') and b'IEND' in b[-16:], 'pdf': lambda b: b.startswith(b'%PDF') and b.rstrip().endswith(b'%%EOF'),
         'svg': lambda b: b.lstrip().startswith(b'<?xml') and b.rstrip().endswith(b'</svg>'), 'tif': lambda b: b[:4] in (b'II*\0', b'MM\0*')}


def sanitised(s):
    return ''.join(c for c in s if c.isascii() and c.isalnum() or c == '_')


@case('C24', quick=240, thorough=3000, needs=('default-name', 'directory', 'given-name', 'extension', 'table', 'no-table', 'sequence-table'))
def files_written(m, rng):
    """exactly the files asked for, under the documented names"""
    with scratch():
        C = command(rng, m, out_name=None, fmts=None)
        S = C.S
        src = set(os.listdir('.'))
        f = None
        formats = {'png', 'csv'}
        if rng.random() < .7:
            f = [str(x) for x in rng.permutation(['png', 'tif', 'pdf', 'svg', 'csv'])[:int(rng.integers(1, 5))]]
            formats = set(f)
        mode = sc.pick(rng, ['default', 'default', 'name', 'name', 'dir', 'dir/name', 'ext', 'script'])
        opts = C.opts + ([['-f', *f]] if f else [])
        stem = {'chronology': sanitised(S.sys['name']) + '_chronology', 'rate': sanitised(S.sys['name']) + '_rate'}.get(C.pres) \
            or '_'.join(sorted({x['file'].stem for x in S.eff}))
        base, args = stem, None
        if mode == 'name':
            base = sc.pick(rng, ['res', 'my plot', 'v1.2-a', 'A.B.C', 'über', '2024.12'])
            if re.search(r'\.\w{1,4}$', base):
                raise Skip
            opts.append(['-o', *base.split(' ')])
            m.event('given-name')
        elif mode == 'dir':
            o = sc.pick(rng, ['out', 'Out', 'OUT dir'])
            os.mkdir(o)
            base = o + '/' + stem
            opts.append(['-o', *sc.pick(rng, [o, o + '/', './' + o]).split(' ')])
            m.event('directory')
        elif mode == 'dir/name':
            os.makedirs('out/deep')
            base = 'out/deep/r7'
            opts.append(['-o', 'out/deep/r7'])
            m.event('directory')
        elif mode == 'ext':
            e = sc.pick(rng, ['svg', 'pdf', 'png', 'tif'])
            if f and e not in f:
                f.append(e)
                formats.add(e)
                next(g for g in opts if g[0] == '-f').append(e)
            formats.add(e)
            base = 'res'
            opts.append(['-o', 'res.' + e])
            m.event('extension')
        elif mode == 'default':
            m.event('default-name')
        args = C.args(opts)
        real = rng.random() < .12
        with_script = mode == 'script'
        if with_script:
            with open('job 3.cs', 'w') as h:
                h.write('\n'.join(' '.join(shlex.quote(x) for x in g) for g in opts + C.plots))
            args, base = ['-i', 'job 3.cs'], 'job 3'
            src.add('job 3.cs')
        m.note(args=args, data=C.data, real=real)
        before = listing()
        rec = m.call(run, args, catch=(), real=real)
        after = listing()
        m.check(all(after.get(k) == v for k, v in before.items()), 'input-changed', lambda: f'{[k for k in before if after.get(k) != before[k]]}')
        new = set(after) - set(before)
        ages = [e for e in S.eff if e['type'] in sc.AGES]
        want = {base + '.' + x for x in formats if x != 'csv'}
        if 'csv' in formats and ages:
            want.add(base + '.csv')
            m.event('table')
        elif 'csv' in formats:
            m.event('no-table')
        if not with_script:
            want.add(base + '.cs')
        if ['-st'] in opts and len([e for e in S.eff if e['type'] in ('poisson', 'b-poisson') and not e['hide']]) > 1:
            want.add(base + '_sequence.csv')
            m.event('sequence-table')
        m.check(new == want, 'files-written', lambda: f'{args}: wrote {sorted(new)} expected {sorted(want)}')
        if real:
            for x in formats - {'csv'}:
                b = after[base + '.' + x]
                m.check(MAGIC[x](b) and len(b) > 2000, 'file-format', lambda: f'{base}.{x}: {b[:60]}')
                m.event('format-' + x)
        m.sig(C.pres, sorted(formats), mode, S.sys['name'])
        m.sample(dict(args=args, files=sorted(new)))


@case('C24', quick=24, thorough=300, needs=('shapefile-names',))
def shapefile_plot(m, rng):
    """figures from shapefiles are named after the unit, in files and legend"""
    from . import spatial, sphere as sp
    R = sp.region(rng, size=10 ** rng.uniform(-1.2, .6))
    spatial.usable(R)
    radius = sc.pick(rng, [1737.4, 3396.19])
    craters = spatial.crater_set(rng, R, radius, int(rng.integers(1, 5)))
    stem = sc.pick(rng, ['s', 'my unit', 'Mare-2', 'u_3', 'CE6'])
    pair = sc.pick(rng, [(f'{stem}_CRATER.shp', f'{stem}_AREA.shp'), (f'CRATER_{stem}.shp', f'AREA_{stem}.shp')])
    with scratch():
        spatial.shp_pair(rng, pair, R, radius, craters, None)
        src = set(os.listdir('.'))
        f = [str(x) for x in rng.permutation(['png', 'tif', 'pdf', 'svg'])[:int(rng.integers(1, 3))]]
        args = ['-pr', sc.pick(rng, ['cumulative', 'differential', 'R-plot']), '-f', *f, '-xrange', '-3', '3', '-yrange', '-15', '10', '-p', f'source={pair[0]}']
        named = rng.random() < .3
        if named:
            args[-1] += ',name=Site 5'
        m.note(args=args, radius=radius, craters=craters, rings=R.rings)
        rec = m.call(run, args, catch=())
        new = set(os.listdir('.')) - src
        m.check(new == {stem + '.' + x for x in f + ['cs']}, 'files-written', lambda: f'{args}: wrote {sorted(new)}')
        t = [x.get_text() for x in rec.save[0][2].axes[0].get_legend().get_texts()]
        m.check(t[0].split(', ')[0] == ('Site 5' if named else stem), 'legend-name', lambda: f'{args}: {t}')
        m.event('shapefile-names')
        m.sig(stem, pair[0], f)


@case('C24', quick=32, thorough=300, needs=('uncertainty-files',))
def uncertainty_files(m, rng):
    with scratch():
        s = sc.pick(rng, [x for x in systems() if 'coefficients' in next(p for p in defs()['production'] if p['name'] == x['pf'])])
        f = [str(x) for x in rng.permutation(['png', 'tif', 'pdf', 'svg', 'csv'])[:int(rng.integers(1, 4))]]
        dm = sc.pick(rng, ['1', '0.5', '.25', '10'])
        if float(dm) < get_pf(m, s['pf']).range[0]:
            raise Skip
        a = ['-pr', 'uncertainty', '-cs', s['name'], '-d_min', dm, '-ns', '4', '-xrange', '4', '1', '-yrange', '1', '5', '-f', *f]
        base = sanitised(s['name']) + f'_{float(dm)}_uncertainty'
        if rng.random() < .5:
            base = 'u 1'
            a += ['-o', 'u', '1']
        m.note(args=a)
        rec = m.call(run, a, catch=())
        want = {f'{base}_{k}.{x}' for k in ('k', 'err', 'age') for x in f if x != 'csv'} | {base + '.cs'}
        m.check(set(os.listdir('.')) == want, 'files-written', lambda: f'{a}: wrote {sorted(os.listdir("."))} expected {sorted(want)}')
        m.event('uncertainty-files')
        m.sig(s['name'], f, dm)


@case('C24', quick=20, thorough=60, needs=('demonstrations',))
def demonstration(m, rng):
    """the demonstration: each of its commands gives its files in ./demo, the same as the command given by itself"""
    text = [ln for ln in open(cst.PATH + 'config/demo_commands.txt', encoding='utf-8-sig').read().splitlines() if ln.strip() and not ln.strip().startswith('#')]
    i = int(rng.integers(0, len(text)))
    c = shlex.split(text[i])
    if '-ra' in c or 'uncertainty' in c:
        raise Skip
    m.note(demo=text[i])
    base = f'{i:02d}-demo'
    fmts = [c[c.index('-f') + 1]] if '-f' in c else ['png', 'csv']
    with scratch():
        A = m.call(demo_run, i)
        have = set(listing())
        if '--convert' in c:
            want = {f'demo/{base}_map.png', f'demo/{base}_map.cs'}
        else:
            want = {f'demo/{base}.{f}' for f in fmts} | {f'demo/{base}.cs'}
            if not any('type=' in x for x in c) and 'seq' not in c and f'demo/{base}.csv' in want:
                want.remove(f'demo/{base}.csv')
        m.check(have == want, 'files-written', lambda: f'{sorted(have)} expected {sorted(want)}')
    with scratch():
        B = m.call(run, c + ['-o', base], catch=())
        m.check([os.path.basename(x[0]) for x in A.save] == [os.path.basename(x[0]) for x in B.save], 'demonstration', '')
        for x, y in zip(A.save, B.save):
            q = differ(fingerprint(x[2]), fingerprint(y[2]))
            m.check(q is None, 'demonstration', lambda: f'{q}')
    m.event('demonstrations')
    m.sig('demo', i)


def demo_run(i):
    from .cliutil import Rec, recording
    from .core import quiet
    rec = Rec()
    with recording(rec), quiet():
        cli.demo(d=[i])
    return rec


@case('C24', quick=24, thorough=200, needs=('listings',))
def listings(m, rng):
    """options which only print leave no files"""
    with scratch():
        a = sc.pick(rng, [['-lcs'], ['-lpc'], ['-about'], ['-v'], ['--version']])
        rec = m.call(run, a, catch=())
        m.check(not os.listdir('.'), 'files-written', lambda: f'{a}: {os.listdir(".")}')
        if a == ['-lcs']:
            for k in ('chronology_system', 'equilibrium', 'epochs'):
                for e in defs()[k]:
                    m.check(e['name'] in rec.out, 'listing-incomplete', lambda: e['name'])
        if a == ['-lpc']:
            t = rec.out
            for x in sc.COLOURS:
                m.check(x in t, 'listing-incomplete', x)
            for s, x in zip(sc.SYMBOLS, cst.MARKERS):
                m.check(f'{x[1]} ({s})' in t, 'listing-incomplete', s)
        m.event('listings')
        m.sig(a)


# ======================================================================================== C25
class Zygote:
    """pristine copy of this process which runs each request in a fork of its own"""

    def __init__(self):
        r0, w0 = os.pipe()
        r1, w1 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(w0), os.close(r1)
            try:
                self.serve(r0, w1)
            finally:
                os._exit(0)
        os.close(r0), os.close(w1)
        self.w, self.r = w0, r1

    def serve(self, r, w):
        while True:
            q = recv(r)
            if q is None:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    send(w, execute(*q))
                except BaseException as x:
                    send(w, dict(error=f'{type(x).__name__}: {x}'))
                finally:
                    os._exit(0)
            os.waitpid(pid, 0)

    def __call__(self, *q):
        send(self.w, q)
        return recv(self.r)


def send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack('<Q', len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def recv(fd):
    def get(n):
        b = b''
        while len(b) < n:
            c = os.read(fd, min(n - len(b), 1 << 20))
            if not c:
                return None
            b += c
        return b
    h = get(8)
    return None if h is None else pickle.loads(get(struct.unpack('<Q', h)[0]))


def execute(d, args, drop):
    old = os.getcwd()
    os.chdir(d)
    try:
        np.random.seed(7)
        rec = run(args, catch=(Exception, SystemExit))
        return outcome(rec, drop=drop)
    finally:
        os.chdir(old)


_Z = []


def zygote():
    if not _Z:
        _Z.append(Zygote())
    return _Z[0]


def utility(rng, C):
    """a command of another kind, in the directory of command C"""
    L = [['-lcs'], ['-lpc'], ['-v'], ['-about'], ['-h'],
         ['-cs', C.S.sys['name'], '-pr', 'uncertainty', '-ns', '6', '-f', sc.pick(rng, ['svg', 'pdf']), '-o', 'u']]
    F = [f.path for f in C.S.files if f.path.endswith(('.diam', '.scc'))]
    if F:
        L += [['-m', *F, '-o', 'merged'], ['--convert', 'stat', sc.pick(rng, F), '-o', 'converted.stat']] * 2
    return sc.pick(rng, L)


@case('C25', quick=120, thorough=1500, needs=('history-figures', 'history-files', 'earlier-commands'))
def earlier_commands(m, rng):
    """a command gives the same output in a process which executed any others before"""
    z = zygote()
    with scratch() as d:
        os.mkdir('w')
        os.chdir('w')
        L = []
        n = int(rng.integers(1, 5))
        for i in range(n):
            os.mkdir(f'{i}')
            os.chdir(f'{i}')
            try:
                C = command(rng, m, out_name=sc.pick(rng, ['t', 't', 't.svg', 't.csv', 't.pdf', 't.tif', None, '.']),
                            fmts=sc.pick(rng, [('svg', 'csv'), ('svg', 'csv'), ('svg',), ('csv', 'pdf', 'png'), None]))
                other = utility(rng, C) if i < n - 1 else None
            except Skip:
                if i == n - 1:
                    raise
                continue
            finally:
                os.chdir('..')
            a = C.args()
            if other and rng.random() < .3:
                a = other
            elif i < n - 1 and rng.random() < .25:    # earlier command fails
                a = a + sc.pick(rng, [['-p', 'source=none.diam'], ['-ef', 'zzz'], ['-p', 'colour=zzz'], ['-xrange', 'x', '1']])
            L.append((f'{i}', a))
        src = {f: listing(f) for f, _ in L}
        m.note(commands=L)
        for k, (f, a) in enumerate(L):
            B = execute(f, a, ())
            if k < len(L) - 1:
                m.event('earlier-commands')
        f, a = L[-1]
        for x in set(listing(f)) - set(src[f]):
            os.remove(os.path.join(f, x))
        A = z(os.path.abspath(f), a, ())
        if 'error' in A:
            raise Inconclusive(A['error'])
        same_outcome(m, A, B, 'history', f'{a} after {[x for _, x in L[:-1]]}')
        m.check(B['exc'] is None, 'crash', B['exc'])
        m.sig([x for _, x in L])


@case('C25', quick=120, thorough=1500, needs=('redrawn',))
def draw_twice(m, rng):
    """drawing again, or in another order of settings, gives the same figure"""
    with scratch():
        C = command(rng, m, pres=sc.pick(rng, list(out.SFD) + ['sequence']))
        a = C.args()
        m.note(args=a, data=C.data)
        rec = m.call(run, a, catch=())
        cps = rec.plots
        F = fingerprint(rec.save[0][2])
        for i in range(int(rng.integers(1, 3))):
            if rng.random() < .5:
                m.call(cps.create_summary_table, f_out='again.csv')
                if os.path.exists('t.csv'):
                    m.check(open('again.csv', 'rb').read() == open('t.csv', 'rb').read(), 'repeated-table', '')
            m.call(cps.draw)
            G = fingerprint(cps.fig)
            q = differ(F, G)
            m.check(q is None, 'redrawn-figure', lambda: f'{q}')
            m.event('redrawn')
        m.sig(C.S.sys['name'], C.pres, [(e['type'], e['binning']) for e in C.S.eff])


def batch():
    """separate process: executes commands read from a file, leaves outcomes in another"""
    with open('commands', 'rb') as f:
        L = pickle.load(f)
    res = []
    for d, a in L:
        try:
            res.append(execute(d, a, ()))
        except BaseException as x:
            res.append(dict(error=f'{type(x).__name__}: {x}'))
    with open('outcomes', 'wb') as f:
        pickle.dump(res, f)


@case('C25', quick=24, thorough=240, needs=('separate-figures', 'separate-files', 'randomness-analyses'))
def separate_processes(m, rng):
    """processes of their own (differing in hash seeds, so in orders of sets) give the same outputs"""
    import shutil
    import subprocess
    import sys
    from . import spatial
    with scratch() as d:
        os.mkdir('p0')
        os.chdir('p0')
        L = []
        for i in range(int(rng.integers(2, 6))):
            os.mkdir(f'{i}')
            os.chdir(f'{i}')
            try:
                C = command(rng, m, out_name=sc.pick(rng, ['t', None]), fmts=sc.pick(rng, [('svg', 'csv'), ('svg', 'csv', 'pdf', 'png'), None]))
                other = utility(rng, C)
                L.append((f'{i}', C.args() if rng.random() < .8 or '-ns' in other else other))
            except Skip:
                pass
            finally:
                os.chdir('..')
        if rng.random() < .7:
            os.mkdir('ra')
            os.chdir('ra')
            try:
                R, radius, craters = spatial.ra_source(rng, m, size=10 ** rng.uniform(-1, 1))
                n1, n2 = (str(int(x)) for x in rng.permutation(8)[:2] + 2)
                if rng.random() < .5:
                    L.append(('ra', ['-ra', 'u.scc', '-trials', n1, '-f', 'svg']))
                else:
                    L += [('ra', ['-ra', 'u.scc', '-trials', n, '-measure', x, '-f', 'svg']) for n, x in ((n1, 'm2cnd'), (n2, 'sdaa'))]
                L.append(('ra', ['-pr', 'cumul', '-p', 'source=u.scc', '-f', 'svg']))
                m.event('randomness-analyses')
            except Skip:
                pass
            finally:
                os.chdir('..')
        if not L:
            raise Skip
        os.chdir('..')
        m.note(commands=L)
        seeds = [int(x) for x in rng.integers(0, 1000, 4)]
        res = []
        for k, h in enumerate(seeds):
            if k:
                shutil.copytree('p0', f'p{k}')
        procs = []
        for k, h in enumerate(seeds):
            with open(f'p{k}/commands', 'wb') as f:
                pickle.dump(L, f)
            procs.append(subprocess.Popen([sys.executable, '-W', 'ignore', '-c', 'import vmon.process as p; p.batch()'], cwd=f'p{k}', stdin=subprocess.DEVNULL,
                                          stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=dict(os.environ, PYTHONHASHSEED=str(h))))
        try:
            for q in procs:
                q.wait(600)
        finally:
            for q in procs:
                q.kill()
                q.wait()
        for k in range(len(seeds)):
            if not os.path.exists(f'p{k}/outcomes'):
                raise Inconclusive('process ended')
            with open(f'p{k}/outcomes', 'rb') as f:
                res.append(pickle.load(f))
        for k in range(1, len(seeds)):
            for (_, a), A, B in zip(L, res[0], res[k]):
                m.check('error' not in A and 'error' not in B, 'crash', lambda: f'{a}: {A.get("error")} {B.get("error")}')
                same_outcome(m, A, B, 'separate', f'{a} with hash seeds {seeds[0]} and {seeds[k]}')
        m.sig([a for _, a in L])

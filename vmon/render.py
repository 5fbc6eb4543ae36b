"""Monitors of the image files written: size, background, visible content, fonts."""
import os
import re

import numpy as np

import craterstats as cst
from . import output as out
from . import scenario as sc
from .cliutil import run
from .core import case, scratch, Skip
from .ages import systems
from .models import get_pf

FILLED = [i for i, s in enumerate(sc.SYMBOLS) if s.startswith('f')]
DPI = 500


def png(name):
    from PIL import Image
    Image.MAX_IMAGE_PIXELS = None
    with Image.open(name) as im:
        dpi = im.info.get('dpi')
        return np.asarray(im.convert('RGBA')).astype(int), dpi


def page(name):
    """page size in inches of a vector file"""
    raw = open(name, 'rb').read()
    if name.endswith('.pdf'):
        x = re.findall(rb'/MediaBox \[ *([-\d.]+) ([-\d.]+) ([-\d.]+) ([-\d.]+) *\]', raw)
        return [(float(b[2]) - float(b[0])) / 72 for b in x] + [(float(b[3]) - float(b[1])) / 72 for b in x], raw
    x = re.search(rb'<svg [^>]*?>', raw, re.S).group(0)
    w = re.search(rb'width="([\d.]+)pt"', x), re.search(rb'height="([\d.]+)pt"', x)
    return [float(q.group(1)) / 72 for q in w], raw


def rgb(h):
    return np.array([int(h[i:i + 2], 16) for i in (1, 3, 5)])


def reach(px, x, y, colour, r):
    """some opaque pixel within r of (x, y) has about the colour"""
    h, w = px.shape[:2]
    i, j = int(round(h - 1 - y)), int(round(x))
    q = px[max(0, i - r):i + r + 1, max(0, j - r):j + r + 1]
    return bool(np.any((np.abs(q[..., :3] - colour).max(-1) < 60) & (q[..., 3] > 200))), q


@case('C37', quick=144, thorough=1500, needs=('images', 'transparent', 'inverted', 'tight', 'vector', 'visible-points', 'visible-curves', 'visible-bars', 'tif'))
def image_files(m, rng):
    """a command with data in a filled symbol: image files of all formats looked at as images"""
    pres = sc.pick(rng, ['cumulative', 'differential', 'R-plot', 'Hartmann', 'cumulative', 'differential', 'sequence', 'chronology', 'rate'])
    sfd = pres in out.SFD
    invert, transparent, tight = (int(rng.random() < p) for p in (.4, .4, .35))
    pd = sc.pick(rng, ['4x4', '3.5x5', '5x3.5', '6x4'] if not sfd else ['4x4', '3.5x5', '1', '1.5', '5x4'])
    pt = sc.pick(rng, [5, 6, 7.5])
    fmts = [['png', 'pdf', 'svg', 'tif'][i] for i in rng.permutation(4)[:int(rng.integers(1, 4))]]
    if 'png' not in fmts and 'tif' not in fmts:
        fmts.append('png')
    opt = ['-pr', pres, '-pd', pd, '-pt_size', str(pt), '-f'] + fmts + ['-o', 'img']
    for n, v in (('-invert', invert), ('-transparent', transparent), ('-tight', tight)):
        if v:
            opt += [n] if rng.random() < .5 else [n, '1']
        elif rng.random() < .3:
            opt += [n, '0']
    if rng.random() < .5:
        opt += ['-title', 'A title|of two lines']
    with scratch():
        if pres in ('chronology', 'rate'):
            s = sc.pick(rng, systems())
            args = ['-cs', s['name']] + opt
            eff = []
        else:
            S = sc.make(rng, m, pres, n=int(rng.integers(1, 3)), types=('data', 'poisson', 'c-fit') if sfd else ('poisson', 'c-fit'), binnings=['pseudo-log', '10/decade', 'root-2'])
            for g in S.given:
                g.update(psym=sc.pick(rng, FILLED), colour=int(rng.integers(0, len(sc.COLOURS))), show_age=0, hide=0, resurf=0, resurf_showall=0)
            sc.finish(S, rng)
            out.drawable(m, S)
            if any(e['empty'] for e in S.eff):
                raise Skip
            eff = S.eff
            args = ['-cs', S.sys['name'], '-legend', '0'] + opt + S.plot_args
        m.note(args=args)
        rec = m.call(run, args, real=True)
        m.check(rec.exc is None, 'refused', lambda: f'{rec.exc}')
        fig = rec.plots.fig
        size = [float(x) for x in fig.get_size_inches()]
        bg = np.array([0, 0, 0] if invert else [255] * 3)
        pixels = {}
        for f in fmts:
            name = 'img.' + f
            m.check(os.path.exists(name), 'missing', lambda: f'{os.listdir(".")}')
            if f in ('pdf', 'svg'):
                wh, raw = m.call(page, name)
                m.check(len(wh) == 2 and all((a <= b + .02 if a < b else tight) if tight else abs(a - b) < .02 for a, b in zip(wh, size)), 'page-size', lambda: f'{name}: {wh} inches, figure {size}')
                pixels[f] = wh
                if f == 'svg':
                    for e in eff if sfd else ():
                        c = hexcolour(e, invert)
                        m.check(c.encode() in raw.lower(), 'svg-colour', lambda: f'{c} of overplot does not occur')
                m.event('vector')
                continue
            px, dpi = m.call(png, name)
            pixels[f] = [px.shape[1] / DPI, px.shape[0] / DPI]
            m.check(dpi is not None and all(abs(float(x) - DPI) < 1 for x in dpi), 'resolution', lambda: f'{name}: {dpi}')
            if not tight:
                m.check(all(abs(a - b * DPI) <= 1.01 for a, b in zip((px.shape[1], px.shape[0]), size)), 'image-size', lambda: f'{name}: {px.shape} pixels for {size} inches')
            image(m, name, px, transparent, tight, bg, fig)
            if f == 'tif':
                m.event('tif')
            if sfd and not tight:
                visible(m, px, rec, eff, invert, bg)
            m.event('images')
        ks = list(pixels)
        for k in ks[1:]:
            m.check(all(abs(a - b) < .03 for a, b in zip(pixels[k], pixels[ks[0]])), 'formats-differ', lambda: f'sizes {pixels}')
        if 'png' in fmts and 'tif' in fmts:
            a, b = png('img.png')[0], png('img.tif')[0]
            m.check(a.shape == b.shape and np.mean(np.abs(a - b).max(-1) > 8) < 1e-3, 'formats-differ', lambda: f'{a.shape} {b.shape}')
    for n, v in (('inverted', invert), ('transparent', transparent), ('tight', tight)):
        if v:
            m.event(n)
    m.sig(pres, invert, transparent, tight, pd, pt, tuple(fmts), [(e['type'], e['psym'], e['colour']) for e in eff])
    m.sample(dict(args=args, sizes={k: [round(x, 3) for x in v] for k, v in pixels.items()}))


def hexcolour(e, invert):
    c = e['colour']
    return (sc.HEX[c][invert] if isinstance(c, int) else c).lower()


def image(m, name, px, transparent, tight, bg, fig):
    """background, frame and opacity"""
    h, w = px.shape[:2]
    ax = [a for a in fig.axes if a.get_visible()]
    edge = np.concatenate([px[0], px[-1], px[:, 0], px[:, -1]])
    if transparent:
        m.check(np.all(edge[:, 3] == 0), 'background', lambda: f'{name}: edge not transparent {edge[edge[:, 3] != 0][:3]}')
    else:
        m.check(px[..., 3].min() == 255, 'background', lambda: f'{name}: transparent without being asked')
        m.check(np.all(np.abs(edge[:, :3] - bg) <= 2), 'background', lambda: f'{name}: edge colours {np.unique(edge[:, :3], axis=0)[:4]} expected {bg}, or content cut off')
    content = (px[..., 3] > 20) if transparent else (np.abs(px[..., :3] - bg).max(-1) > 20)
    r, c = np.flatnonzero(content.any(1)), np.flatnonzero(content.any(0))
    m.check(len(r) and len(c), 'blank', name)
    gap = [r[0], h - 1 - r[-1], c[0], w - 1 - c[-1]]
    if tight:
        m.check(max(gap) <= .02 * DPI + 25, 'not-tight', lambda: f'{name}: blank margins of {gap} pixels')
    # plot area: opaque background behind the data
    if not tight:
        W = np.array([w, h, w, h])
        box = max((np.array(a.get_position().extents) * W for a in ax), key=lambda b: (b[2] - b[0]) * (b[3] - b[1]))
        x0, y0, x1, y1 = (int(round(v)) for v in box)
        q = px[max(0, h - y1 + 8):h - y0 - 8, x0 + 8:x1 - 8]
        m.check(q.size > 0 and q[..., 3].min() == 255, 'plot-area-transparent', lambda: f'{name}: alpha {q[..., 3].min() if q.size else None}')
        share = float(np.mean(np.abs(q[..., :3] - bg).max(-1) <= 4))
        m.check(share > .4, 'plot-area-colour', lambda: f'{name}: {share:.2f} of the plot area has the background colour')


def visible(m, px, rec, eff, invert, bg):
    """series drawn on top: its points, error bars and curve can be seen"""
    cps = rec.plots
    ax = cps.ax
    h, w = px.shape[:2]
    W = np.array([w, h])

    def at(x, y):
        return (cps.fig.transFigure.inverted().transform(ax.transData.transform(np.column_stack([x, y])))) * W
    e, cp = eff[0], rec.cp[0]       # first overplot lies on top
    col = rgb(hexcolour(e, invert))
    if np.abs(col - bg).max() < 90:
        return
    p = m.call(e['R'].cc.getplotdata, cps.presentation, e['binning'], range=list(e['R'].range), pf=cps.pf)
    x, y = np.log10(np.asarray(p['d'], float)), np.asarray(p['y'], float)
    ok = (y > 0)
    x, y, err = x[ok], y[ok], np.asarray(p['err'], float)[ok]
    lim = np.array([*ax.get_xlim(), *ax.get_ylim()])
    span = (lim[1] - lim[0]) * .03
    fy = (lim[3] / lim[2]) ** .03
    ins = (x > lim[0] + span) & (x < lim[1] - span) & (y > lim[2] * fy) & (y < lim[3] / fy)
    P = at(x, y)
    for (a, b), i in zip(P, ins):
        if i:
            ok, q = reach(px, a, b, col, 2)
            m.check(ok, 'point-not-visible', lambda: f'point at pixel {a:.0f},{b:.0f} of {w}x{h}: colours {np.unique(q[..., :3].reshape(-1, 3), axis=0)[:4]}, expected {col}')
            m.event('visible-points')
    if e['error_bars'] and len(eff) == 1:
        top = at(x, y + err)
        r = ax.get_lines()
        ms = max([ln.get_markersize() for ln in r if ln.get_marker() not in (None, 'None', '')] or [0]) / 72 * DPI
        for (a, b), (_, t), i in zip(P, top, ins):
            if i and t - b > ms * 1.5 and t < at([lim[0]], [lim[3] / fy])[0][1]:
                k = px[int(h - t + 3):int(h - t + 3 + (t - b) / 4), max(0, int(a) - 3):int(a) + 4]
                if k.size:
                    dark = np.abs(k[..., :3] - bg).max(-1) > 60
                    m.check(np.mean(dark.any(1)) > .8, 'error-bar-not-visible', lambda: f'bar at pixel {a:.0f},{b:.0f}..{t:.0f}')
                    m.event('visible-bars')
    if e['type'] in sc.AGES:
        ln = [L for L in ax.get_lines() if L.get_label() == 'fit']
        from matplotlib.colors import to_hex
        ln = [L for L in ln if to_hex(L.get_color()) == hexcolour(e, invert)]
        if not ln:
            return
        # last drawn fit curve of this colour
        L = ln[-1]
        X, Y = np.asarray(L.get_xdata(), float), np.asarray(L.get_ydata(), float)
        i = (X > lim[0] + span) & (X < lim[1] - span) & (Y > lim[2] * fy) & (Y < lim[3] / fy)
        seen = [reach(px, a, b, col, 4)[0] for a, b in at(X[i], Y[i])]
        if len(seen) > 5:
            m.check(np.mean(seen) > .7, 'curve-not-visible', lambda: f'{np.mean(seen):.2f} of the curve')
            m.event('visible-curves')


FONTS = {'Open Sans': .89, 'DejaVu Sans': .83}


@case('C37', quick=120, thorough=1200, needs=('texts', 'fonts'))
def text_sizes(m, rng):
    """texts of the same command at two point sizes and fonts: same texts, proportional sizes"""
    pres = sc.pick(rng, out.SFD + ['sequence', 'chronology'])
    pt = [sc.pick(rng, [4, 6, 8, 9, 11]) for _ in range(2)]
    fonts = [sc.pick(rng, list(FONTS)) for _ in range(2)]
    with scratch():
        opt = ['-pr', pres, '-pd', '2' if pres in out.SFD else '10x9', '-f', 'svg', '-legend', 'fnacrN', '-isochrons', '1,3'] + (['-title', 'Heading'] if rng.random() < .6 else [])
        if pres == 'chronology':
            args = ['-cs', sc.pick(rng, systems())['name']] + opt
        else:
            S = sc.make(rng, m, pres, types=('data', 'poisson') if pres in out.SFD else ('poisson',), binnings=['pseudo-log', '10/decade', 'root-2'])
            out.drawable(m, S)
            if any(e['empty'] for e in S.eff):
                raise Skip
            args = ['-cs', S.sys['name']] + opt + S.plot_args
        m.note(args=args, pt=pt, fonts=fonts)
        got = []
        for k in (0, 1):
            rec = m.call(run, args + ['-pt_size', str(pt[k]), '--font', fonts[k], '-o', f'x{k}'])
            m.check(rec.exc is None, 'refused', lambda: f'{rec.exc}')
            t = []
            for a in rec.plots.fig.axes:
                g = a.get_legend()
                for s in list(a.texts) + [a.title, a.xaxis.label, a.yaxis.label] + (list(g.get_texts()) if g else []) + list(a.get_xticklabels()) + list(a.get_yticklabels()):
                    if s.get_text():
                        t.append((s.get_text(), s.get_fontsize() / (pt[k] * FONTS[fonts[k]]), s.get_fontfamily()))
                        m.check(s.get_fontfamily() == [fonts[k]] or '$' in s.get_text(), 'font', lambda: f'{s.get_text()!r} in {s.get_fontfamily()}, asked for {fonts[k]}')
            got.append(t)
        a, b = got
        if pt[0] == pt[1] or len(a) == len(b):      # number of tick labels may change with the size of the margin
            for (s, x, _), (t, y, _) in zip(a, b):
                if s == t:
                    m.close(y, x, 'text-size', rtol=1e-6, msg=f'{s!r} at {pt} points')
                    m.event('texts')
        m.check(len(a) > 0, 'no-text', '')
        m.event('fonts', len(set(fonts)) - 1)
    m.sig(pres, tuple(pt), tuple(fonts), len(a))
    m.sample(dict(args=args, pt=pt, fonts=fonts, texts=len(a)))

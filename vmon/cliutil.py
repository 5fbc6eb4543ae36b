"""Running the command line in-process, with the plot objects it builds recorded."""
import contextlib
import os
import sys

import matplotlib.figure as mfig

import craterstats as cst
import craterstats.cli as cli
import craterstats.gm as gm
from . import gen
from .core import quiet


class Rec:
    """instances created while the command ran"""

    def __init__(self):
        self.cps, self.cp, self.out, self.exc, self.save = [], [], '', None, []

    @property
    def plots(self):
        return self.cps[-1]


@contextlib.contextmanager
def recording(rec, real=False):
    """record plot objects; saving of the figure is observed and (unless real) replaced by a placeholder file"""
    A, B = cst.Craterplotset, cst.Craterplot

    class Set(A):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            rec.cps.append(self)

    class Plot(B):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            rec.cp.append(self)
    Set.__name__, Plot.__name__ = A.__name__, B.__name__
    save = mfig.Figure.savefig

    def savefig(fig, fname, *a, **k):
        rec.save.append((str(fname), k, fig))
        with open(fname, 'wb') as f:
            f.write(b'placeholder')
    cst.Craterplotset, cst.Craterplot = Set, Plot
    if not real:
        mfig.Figure.savefig = savefig
    try:
        yield rec
    finally:
        cst.Craterplotset, cst.Craterplot = A, B
        mfig.Figure.savefig = save


def run(args, catch=(SystemExit,), real=False):
    """main(args) with recording; expected terminations are caught into rec.exc"""
    rec = Rec()
    with recording(rec, real), quiet() as (o, e):
        try:
            cli.main(list(args))
        except catch as x:
            rec.exc = x
    rec.out, rec.err = o.getvalue(), e.getvalue()
    return rec


def listing(d='.'):
    r = {}
    for p, _, fs in os.walk(d):
        for f in fs:
            q = os.path.join(p, f)
            with open(q, 'rb') as h:
                r[os.path.relpath(q, d)] = h.read()
    return r


def fmt(v):
    return repr(float(v))


def mk_diam(rng, name, d, f=None, a=100., per=None, plain=True):
    gen.write(name, gen.diam_text(rng, d, f, a, per, plain=plain))
    return name

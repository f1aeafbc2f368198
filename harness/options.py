"""Plotting functions called again with other options.

A module wrapped in `Watched` behaves as before, but now and then a call of one of its plotting functions is repeated on
axes of its own with every measure and another scale: the scale of the axes (or of the colours) has to be the one asked
for, and the values drawn for the measures have to belong to the same complex numbers."""
from __future__ import annotations

import functools
import inspect
import json
import random
from collections.abc import Iterator

import numpy as np
from matplotlib.animation import ArtistAnimation
from matplotlib.collections import QuadMesh
from matplotlib.colors import SymLogNorm
from matplotlib.figure import Figure
from matplotlib.lines import Line2D

from harness.core import close, ensure

SHARE = 0.1
turn = None
# distributions, averages and rankings of the measured values, and curves that do not come from the values
FIXED_MEASURE = ("distribution", "plot_average_", "sparsity", "noise_operators_eigenvalues")


def begin(c):
    global turn
    turn = random.Random(json.dumps(c, sort_keys=True, default=str))


def end():
    global turn
    turn = None


def artists(out):
    for x in out:
        if isinstance(x, (Line2D, QuadMesh)):
            yield x
        elif isinstance(x, ArtistAnimation):
            for f in x.new_frame_seq():
                yield from artists(list(f))
        elif isinstance(x, (list, tuple)):
            yield from artists(x)


def drawn(out):
    res = list(artists(out[2:]))
    if not res and len(out) == 2:
        res = [q for q in out[1].get_children() if isinstance(q, (Line2D, QuadMesh))]
    return res


def values(found):
    return [np.asarray(q.get_ydata(orig=True) if isinstance(q, Line2D) else q.get_array(), dtype=float).reshape(-1) for q in found]


def repeat(fn, a, k):
    global turn
    names = inspect.signature(fn).parameters
    given = inspect.signature(fn).bind(*a, **k).arguments
    if "ax" not in names or any(isinstance(q, Iterator) for q in (*a, *k.values())):
        return
    rand, turn = turn, None

    def again(**kw):
        ax = Figure().subplots()
        out = fn(*a, **{**k, **kw, "ax": ax})
        ensure(out[1] is ax and out[0] is ax.get_figure(), f"{fn.__name__}: not drawn on the given axes")
        return out

    try:
        first = "measure" in names and ("scale" not in names or rand.random() < 0.4)
        if first and not any(q in fn.__name__ for q in FIXED_MEASURE) and given.get("free_mass") is None and k.get("scale", "linear") in ("linear", "symlog"):
            plain = {"scale": "linear"} if "scale" in names else {}
            got = [values(drawn(again(measure=m, **plain))) for m in ("real", "imag", "abs", "real", "angle")]
            same = all(p.shape == q.shape and np.array_equal(p, q, equal_nan=True) for p, q in zip(got[0], got[3], strict=True))
            if same:  # a random sample differs from call to call
                for re, im, size, _, angle in zip(*got, strict=True):
                    sc = float(np.nanmax(np.abs(size), initial=0)) + 1e-30
                    z = re + 1j * im
                    if not np.all(np.isfinite(z)):
                        continue
                    close(np.abs(z), size, f"{fn.__name__}: the measures of the same values", 1e-7, scale=sc)
                    close(np.exp(1j * angle) * size, z, f"{fn.__name__}: the angles of the same values", 1e-6, scale=sc)
        if not first and "scale" in names:
            scale = rand.choice(["symlog", "symlog", "linear"])
            try:
                out = again(scale=scale)
            except ValueError as err:
                if "non-finite values" not in str(err):
                    raise
                return
            found = drawn(out)
            for q in found:
                if isinstance(q, QuadMesh):
                    ensure(isinstance(q.norm, SymLogNorm) == (scale == "symlog"), f"{fn.__name__}: colours on a {type(q.norm).__name__}, {scale} asked for")
            if any(isinstance(q, Line2D) for q in found):
                ensure(out[1].get_yscale() == scale, f"{fn.__name__}: {out[1].get_yscale()} axis, {scale} asked for")
    finally:
        turn = rand


class Watched:
    def __init__(self, mod) -> None:
        self._mod, self._fns = mod, {}

    def __getattr__(self, name):
        fn = getattr(self._mod, name)
        if not callable(fn) or not name.startswith(("plot_", "animate_")):
            return fn
        if name not in self._fns:

            @functools.wraps(fn)
            def run(*a, **k):
                out = fn(*a, **k)
                if turn is not None and turn.random() < SHARE:
                    repeat(fn, a, k)
                return out

            self._fns[name] = run
        return self._fns[name]

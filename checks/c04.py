"""C04: Fourier interpolation reproduces the trigonometric polynomial. Tolerance 1e-9 relative to the data."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from harness import gen as g
from harness.core import arr, case, close, ensure
from surface_potential_analysis.basis.basis_like import convert_vector
from surface_potential_analysis.state_vector.conversion import interpolate_state_vector_momentum
from surface_potential_analysis.util.interpolation import (
    interpolate_points_along_axis_spline,
    interpolate_points_fftn,
    interpolate_points_rfft,
    interpolate_points_rfftn,
    pad_ft_points,
    pad_ft_points_real_axis,
)


def ro(a):
    a = np.ascontiguousarray(a)
    a.flags.writeable = False
    return a


@st.composite
def resample(draw, max_axes=3):
    nd = draw(st.integers(1, 3))
    shp = draw(g.fshapes((nd, nd), max_n=8 if nd < 3 else 5, max_total=10**6, long=160))
    axes = draw(st.lists(st.integers(0, nd - 1), unique=True, min_size=1, max_size=min(nd, max_axes)))
    hi = 11 if nd < 3 else 7
    s = [draw(st.one_of(st.integers(1, hi if max(shp) < 12 else 200 // nd**2), st.just(shp[ax]))) for ax in axes]
    default = draw(st.integers(0, 3)) == 0
    if default:
        axes = list(range(nd - len(axes), nd))
    return {"shp": shp, "axes": axes, "s": s, "default": default, "neg": draw(st.booleans()), "a": draw(g.arrd()), "real": draw(st.booleans())}


def axes_arg(c):
    nd = len(c["shp"])
    return tuple(ax - nd if c["neg"] else ax for ax in c["axes"])


def resample_matrix(n, m):
    """Values at m points of the interpolant of n points keeping the frequencies common to both grids."""
    f = g.freqs(min(n, m))
    fwd = np.exp(-2j * np.pi * np.outer(f, np.arange(n)) / n) / n
    return np.exp(2j * np.pi * np.outer(np.arange(m), f) / m) @ fwd


def along(m, v, axis):
    return np.moveaxis(np.tensordot(m, v, axes=(1, axis)), 0, axis)


def note(c, ctx):
    sizes = [c["shp"][ax] for ax in c["axes"]]
    ctx.nt(sizes != c["s"] and max(c["shp"]) > 2)
    for n, m in zip(sizes, c["s"]):
        ctx.label(("up" if m > n else "down" if m < n else "same") + " %s->%s" % ("odd" if n % 2 else "even", "odd" if m % 2 else "even"))


@case("C04", resample(), quick=1000)
def padded_spectrum(c, ctx):
    """Spectrum padded/truncated along any axes keeps every common frequency and zeros elsewhere; non-trivial: some size changes."""
    note(c, ctx)
    a = ro(arr(c["a"], c["shp"], complex_=not c["real"]))
    out = pad_ft_points(a, tuple(c["s"]), axes_arg(c))
    exp = a
    for ax, m in zip(c["axes"], c["s"]):
        n = exp.shape[ax]
        sel = np.zeros((m, n))
        for f in g.freqs(min(n, m)):
            sel[f % m, f % n] = 1
        exp = along(sel, exp, ax)
    ensure(out.dtype == a.dtype, "element type kept")
    close(out, exp, "padded spectrum", 0)


@case("C04", resample(), quick=800)
def complex_interpolation(c, ctx):
    """Complex Fourier resampling along any axes equals the trigonometric interpolant; non-trivial: some size changes."""
    note(c, ctx)
    a = ro(arr(c["a"], c["shp"], complex_=not c["real"]))
    out = interpolate_points_fftn(a, tuple(c["s"]), None if c["default"] else axes_arg(c))
    exp = a
    for ax, m in zip(c["axes"], c["s"]):
        exp = along(resample_matrix(exp.shape[ax], m), exp, ax)
    close(out, exp, "interpolated points", 1e-9, scale=float(np.abs(a).max()) * 4)


def without_nyquist(a, axes, s, n_of):
    for ax, m in zip(axes, s):
        n = a.shape[ax]
        k = min(n, m)
        if k % 2 == 0:
            f = g.freqs(n)
            keep = np.where(np.abs(f) == k // 2, 0.0, 1.0)
            ft = g.dft(n)
            a = np.real(along(ft.T @ np.diag(keep) @ ft.conj(), a, ax))
    return a


@case("C04", resample(), quick=800)
def real_interpolation(c, ctx):
    """Real Fourier resampling (n-d and 1-d forms) of data without amplitude at the cut-off frequency; non-trivial: some size changes."""
    note(c, ctx)
    raw = arr(c["a"], c["shp"], complex_=False)
    a = ro(without_nyquist(raw, c["axes"], c["s"], None))
    exp = a
    for ax, m in zip(c["axes"], c["s"]):
        exp = along(resample_matrix(exp.shape[ax], m), exp, ax)
    sc = float(np.abs(raw).max()) * 4
    out = interpolate_points_rfftn(a, tuple(c["s"]), None if c["default"] else axes_arg(c))
    ensure(not np.iscomplexobj(out), "real data stay real")
    close(out, np.real(exp), "interpolated real points (n-d)", 1e-9, scale=sc)
    one = a
    for ax, m in zip(axes_arg(c), c["s"]):
        one = interpolate_points_rfft(one, m, axis=ax)
    ensure(not np.iscomplexobj(one), "real data stay real")
    close(one, np.real(exp), "interpolated real points (1-d)", 1e-9, scale=sc)


@case("C04", resample(), quick=400)
def same_size_and_round_trip(c, ctx):
    """Same size is the identity for any data; up and down again recovers it; non-trivial: a larger target."""
    shp, axes = c["shp"], axes_arg(c)
    same = [shp[ax] for ax in c["axes"]]
    r = ro(arr(c["a"], shp, complex_=False))
    z = ro(arr(c["a"], shp))
    sc = float(np.abs(z).max() + np.abs(r).max()) * 4
    close(interpolate_points_fftn(z, same, axes), z, "complex identity", 1e-9, scale=sc)
    close(interpolate_points_rfftn(r, same, axes), r, "real identity", 1e-9, scale=sc)
    one = r
    for ax, m in zip(axes, same):
        one = interpolate_points_rfft(one, m, axis=ax)
    close(one, r, "real 1-d identity", 1e-9, scale=sc)
    up = [max(m, n) for m, n in zip(c["s"], same)]
    ctx.nt(up != same)
    close(interpolate_points_fftn(interpolate_points_fftn(z, up, axes), same, axes), z, "up and down", 1e-9, scale=sc)
    odd = ro(without_nyquist(r, c["axes"], same, None))
    close(interpolate_points_rfftn(interpolate_points_rfftn(odd, up, axes), same, axes), odd, "real up and down", 1e-9, scale=sc)
    # original sample points are kept when the grid is refined by an integer factor
    twice = [2 * n for n in same]
    fine = interpolate_points_fftn(z, twice, axes)
    sl = [slice(None)] * len(shp)
    for ax in c["axes"]:
        sl[ax] = slice(None, None, 2)
    close(fine[tuple(sl)], z, "refined grid contains the samples", 1e-9, scale=sc)


@st.composite
def rft(draw):
    nd = draw(st.integers(1, 3))
    shp = [draw(st.integers(1, 6)) for _ in range(nd)]
    ax = draw(st.integers(0, nd - 1))
    return {"shp": shp, "ax": ax, "neg": draw(st.booleans()), "n": draw(st.integers(1, 14)), "a": draw(g.arrd())}


@case("C04", rft(), quick=300)
def padded_half_spectrum(c, ctx):
    """Half spectra (real transforms) padded or truncated along an axis; non-trivial: the length changes."""
    a = ro(arr(c["a"], c["shp"]))
    axis = c["ax"] - len(c["shp"]) if c["neg"] else c["ax"]
    out = pad_ft_points_real_axis(a, c["n"], axis=axis)
    m = c["n"] // 2 + 1
    n = c["shp"][c["ax"]]
    ctx.nt(m != n)
    close(out, along(np.eye(m, n), a, c["ax"]), "padded half spectrum", 0)


@st.composite
def splines(draw):
    nd = draw(st.integers(1, 3))
    shp = [draw(st.integers(1, 4)) for _ in range(nd)]
    ax = draw(st.integers(0, nd - 1))
    shp[ax] = draw(st.integers(4, 9))
    return {"shp": shp, "ax": ax, "neg": draw(st.booleans()), "mult": draw(st.integers(1, 3)), "n": draw(st.integers(1, 15)), "a": draw(g.arrd()), "s": draw(st.integers(0, 999)), "sc": draw(st.sampled_from([1.0, 1e-10, 30.0]))}


@case("C04", splines(), quick=300)
def spline_interpolation(c, ctx):
    """Spline along any axis: keeps samples, exact on cubics, linear in the data; non-trivial: not the last axis."""
    ax, nd = c["ax"], len(c["shp"])
    ctx.nt(ax != nd - 1)
    ctx.label("axis-last" if ax == nd - 1 else "axis-inner")
    axis = ax - nd if c["neg"] else ax
    n0 = c["shp"][ax]
    a = ro(arr(c["a"], c["shp"], complex_=False))
    x = 0.7 * c["sc"] + np.arange(n0) * c["sc"]
    fine = (n0 - 1) * c["mult"] + 1
    out = interpolate_points_along_axis_spline(a, x, fine, axis)
    sl = [slice(None)] * nd
    sl[ax] = slice(None, None, c["mult"])
    exp_shape = list(c["shp"])
    exp_shape[ax] = fine
    ensure(out.shape == tuple(exp_shape), "shape")
    close(out[tuple(sl)], a, "samples are kept", 1e-9)
    rng = np.random.default_rng(c["s"])
    co = rng.normal(size=[4] + [q for i, q in enumerate(c["shp"]) if i != ax])
    xs = (0.7 + np.concatenate([[0], np.cumsum(0.5 + rng.random(n0 - 1))])) * c["sc"]
    t = xs / xs[-1]
    data = np.moveaxis(sum(np.multiply.outer(t**p, co[p]) for p in range(4)), 0, ax)
    new = np.linspace(xs[0], xs[-1], c["n"]) / xs[-1]
    want = np.moveaxis(sum(np.multiply.outer(new**p, co[p]) for p in range(4)), 0, ax)
    close(interpolate_points_along_axis_spline(ro(data), xs, c["n"], axis), want, "cubic reproduced", 1e-7, scale=float(np.abs(co).max() * 4))
    b = np.roll(a, 1, axis=ax)
    lhs = interpolate_points_along_axis_spline(ro(2 * a - 3 * b), x, c["n"], axis)
    rhs = 2 * interpolate_points_along_axis_spline(a, x, c["n"], axis) - 3 * interpolate_points_along_axis_spline(ro(b), x, c["n"], axis)
    close(lhs, rhs, "linear in the data", 1e-8, scale=float(np.abs(a).max() * 50))


@st.composite
def states(draw):
    nd = draw(st.integers(1, 3))
    shp = draw(g.fshapes((nd, nd), max_n=5, max_total=40))
    axes = draw(st.lists(st.integers(0, nd - 1), unique=True, min_size=1))
    return {"b": draw(g.basis_nd(shp, lengths=True)), "l": draw(g.lattices(nd)), "shp": shp, "axes": axes, "up": [draw(st.integers(0, 4)) for _ in axes], "a": draw(g.arrd())}


@case("C04", states(), quick=400)
def state_interpolation(c, ctx):
    """A state on a finer grid along some axes takes the values of its trigonometric interpolant; non-trivial: size changes along a strict or unsorted subset of axes."""
    a = g.lattice(c["l"])
    b = g.build(c["b"], a)
    n = list(c["shp"])
    target = [n[ax] + q for ax, q in zip(c["axes"], c["up"])]
    ctx.nt(any(c["up"]) and (len(c["axes"]) < len(n) or c["axes"] != sorted(c["axes"]) or len(n) == 1))
    ctx.label("%d/%d" % (len(c["axes"]), len(n)))
    v = ro(arr(c["a"], b.n))
    out = interpolate_state_vector_momentum({"basis": b, "data": v}, tuple(target), tuple(c["axes"]))
    exp = (v @ g.ref(c["b"])).reshape(n)
    final = list(n)
    for ax, m in zip(c["axes"], target):
        exp = along(resample_matrix(n[ax], m), exp, ax)
        final[ax] = m
    ensure(tuple(out["basis"].fundamental_shape) == tuple(final), f"fundamental shape {out['basis'].fundamental_shape} not {final}")
    close(out["basis"].delta_x_stacked, a, "lattice kept", 1e-12)
    pos = convert_vector(np.asarray(out["data"]).reshape(-1), out["basis"], g.build({"t": "P", "of": [{"t": "F", "n": q} for q in final]}), 0)
    close(pos, exp, "interpolated state", 1e-9, scale=float(np.abs(v).max()) * 4, flat=True)

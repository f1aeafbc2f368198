"""C22: plots show exactly the data and coordinates they are given.

Everything is drawn on an off-screen canvas and read back from the artists. Tolerance 1e-9 relative."""
from __future__ import annotations

import matplotlib as mpl

mpl.use("Agg")

import numpy as np
from hypothesis import strategies as st
from matplotlib import pyplot as plt
from matplotlib.colors import SymLogNorm
from matplotlib.figure import Figure
from scipy.constants import Boltzmann, hbar
from scipy.optimize import linear_sum_assignment

from checks import c10 as p10
from checks.c15 import quiet
from harness import gen as g
from harness import options
from harness.core import arr, case, close, ensure, fail, ro
from harness.options import Watched
from surface_potential_analysis.basis import plot as ZB
from surface_potential_analysis.basis.basis import FundamentalBasis, FundamentalPositionBasis
from surface_potential_analysis.basis.block_fraction_basis import ExplicitBlockFractionBasis
from surface_potential_analysis.basis.momentum_basis_like import MomentumBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.basis.time_basis_like import EvenlySpacedTimeBasis, ExplicitTimeBasis
from surface_potential_analysis.dynamics import isf as I
from surface_potential_analysis.dynamics import isf_plot as IP
from surface_potential_analysis.dynamics import plot as DP
from surface_potential_analysis.dynamics.incoherent_propagation import plot as RP
from surface_potential_analysis.dynamics.incoherent_propagation.isf import RateDecomposition
from surface_potential_analysis.kernel import plot as KP
from surface_potential_analysis.operator import plot as OP
from surface_potential_analysis.overlap import plot as VP
from surface_potential_analysis.potential import plot as PP
from surface_potential_analysis.potential import plot_point_potential as ZQ
from surface_potential_analysis.potential import plot_uneven_potential as UZ
from surface_potential_analysis.potential.potential import UnevenPotential3dZBasis
from surface_potential_analysis.probability_vector import plot as BP
from surface_potential_analysis.stacked_basis import plot as ZP
from surface_potential_analysis.state_vector import eigenvalue_list_plot as EP
from surface_potential_analysis.state_vector import plot as SP
from surface_potential_analysis.state_vector import plot_value_list as VL
from surface_potential_analysis.state_vector import state_vector_list_plot as LP
from surface_potential_analysis.util import plot as UP
from surface_potential_analysis.wavepacket import plot as WP

# now and then each call is repeated with other options
ZB, IP, DP, RP, KP, OP, VP, PP, ZQ, UZ, BP, ZP, EP, SP, VL, LP, UP, WP = (Watched(q) for q in (ZB, IP, DP, RP, KP, OP, VP, PP, ZQ, UZ, BP, ZP, EP, SP, VL, LP, UP, WP))

RT = 1e-9
MEASURES = ["real", "imag", "abs", "angle"]
SCALES = ["linear", "symlog", "squared", "linear"]


# ---------------------------------------------------------------- reading artists
def centres(mesh):
    """Centre of every cell of a mesh drawn on an affine grid."""
    c = np.asarray(mesh.get_coordinates())
    return np.moveaxis((c[1:, 1:] + c[:-1, 1:] + c[1:, :-1] + c[:-1, :-1]) / 4, -1, 0)


def check_measured(got, z, measure, what, sc):
    """Values drawn are the chosen measure of z (angles up to whole turns, continuous along the last axis)."""
    got = np.asarray(got, dtype=np.float64)
    z = np.asarray(z)
    if measure == "angle":
        ensure(got.shape == z.shape, f"{what}: shape {got.shape}, expected {z.shape}")
        close(np.exp(1j * got) * np.abs(z), z.astype(complex), f"{what} (angle)", 1e-7, scale=sc)
        if got.size and np.all(np.abs(z) > 1e-6 * sc):
            ensure(np.all(np.abs(np.diff(got, axis=-1)) <= np.pi + 1e-6), f"{what}: angles are not continuous")
        return
    exp = {"real": np.real, "imag": np.imag, "abs": np.abs}[measure](z)
    close(got, exp, f"{what} ({measure})", RT, scale=sc, atol=1e-30)


def new_ax(own: bool):
    return None if own else Figure().subplots()


def check_ax(out, ax, what):
    fig, got = out[0], out[1]
    ax = ax.get("ax") if isinstance(ax, dict) else ax
    if ax is not None:
        ensure(got is ax and fig is ax.get_figure(), f"{what}: not drawn on the given axes")
    ensure(got.get_figure() is fig, f"{what}: figure and axes do not belong together")


# drawn over another plot, or with limits of their own; a squared axis has no place for negative values
UNBARRED = ()
UNLIMITED = ("free particle", "scattering function", "average scattering function", "mass", "plot_isf")


def shown(ax, gx, gy, what):
    """The whole line lies inside the limits of the axes."""
    gx, gy = gx[np.isfinite(gx)], np.asarray(gy, dtype=float)
    for (lo, hi), v, name in ((sorted(ax.get_xlim()), gx, "horizontally"), (sorted(ax.get_ylim()), gy[np.isfinite(gy)], "vertically")):
        if v.size:
            slack = 1e-9 * (hi - lo) + 1e-12 * float(np.abs(v).max())
            ensure(lo - slack <= v.min() and v.max() <= hi + slack, f"{what}: {v.min()}..{v.max()} is cut off {name} at {lo}..{hi}")


def check_line(out, ax, x, z, measure, what, sc, close_loop):
    """The returned line sits on the axes and holds coordinates x and the measure of z (with the first point repeated)."""
    check_ax(out, ax, what)
    line = out[2]
    ensure(line in out[1].get_lines() or line in out[1].lines, f"{what}: line not on the axes")
    gx, gy = np.asarray(line.get_xdata(orig=True), dtype=float), np.asarray(line.get_ydata(orig=True))
    if isinstance(ax, dict):
        want = ax.get("scale", "linear")
        ensure(out[1].get_yscale() == want, f"{what}: {out[1].get_yscale()} axis, {want} asked for")
        if not what.startswith(UNLIMITED) and (want != "squared" or measure == "abs"):
            shown(out[1], gx, gy, what)
    x = np.asarray(x)
    if close_loop:
        step = x[1] - x[0]
        x = np.append(x, x[-1] + step)
    close(gx, x, f"{what}: coordinates", RT, scale=float(np.abs(x).max()) + 1e-30)
    if not close_loop:
        check_measured(gy, z, measure, what, sc)
        return
    ensure(gy.size == x.size, f"{what}: {gy.size} values for {x.size} points")
    check_measured(gy[:-1], z, measure, what, sc)
    check_measured(gy[-1:], z[:1], measure, what + " (repeated point)", sc)


def check_mesh(out, ax, xy, z, measure, what, sc):
    check_ax(out, ax, what)
    if isinstance(ax, dict):
        want = ax.get("scale", "linear") == "symlog"
        ensure(isinstance(out[2].norm, SymLogNorm) == want, f"{what}: colours by {type(out[2].norm).__name__}, {ax.get('scale', 'linear')} asked for")
    mesh = out[2]
    ensure(mesh in out[1].collections, f"{what}: mesh not on the axes")
    bars = [q for q in out[0].axes if q is not out[1] and q.get_label() == "<colorbar>"]
    drawn = [q for q in out[1].collections if q.colorbar is not None]
    if what not in UNBARRED:
        ensure(len(drawn) == 1 and len(bars) >= 1, f"{what}: {len(drawn)} colour bars")
    if isinstance(mesh.norm, SymLogNorm):
        top = float(np.abs(np.asarray(mesh.get_array())).max())
        ensure(top == 0 or 0 < mesh.norm.linthresh <= 0.2 * top, f"{what}: the linear range {mesh.norm.linthresh} hides the data up to {top}")
    vals = np.asarray(mesh.get_array())
    z = np.asarray(z)
    check_measured(vals.reshape(z.shape) if vals.size == z.size else vals, z, measure, what, sc)
    if xy is not None:
        xy = np.asarray(xy)
        close(centres(mesh), xy, f"{what}: coordinates", 1e-7, scale=float(np.abs(xy).max()) + 1e-30)
    vals = vals.reshape(z.shape)
    lo, hi = mesh.get_clim()
    want = (0.0 if measure == "abs" else float(vals.min()), float(vals.max()))
    if want[1] - want[0] > 1e-6 * max(abs(want[0]), abs(want[1])):
        close(np.array([lo, hi]), np.array(want), f"{what}: colour limits", RT, scale=float(np.abs(vals).max()) + 1e-30)
    ensure(out[1].get_aspect() in ("equal", 1, 1.0), f"{what}: axes not to scale")


# ---------------------------------------------------------------- expected slices
def in_plane(vectors, axes, points):
    """Components of points (d, n) along the orthonormalised vectors of the chosen axes."""
    e = []
    for ax in axes:
        v = np.array(vectors[ax], dtype=float)
        for q in e:
            v = v - q * np.dot(q, v)
        e.append(v / np.linalg.norm(v))
    return np.array(e) @ points


def cut(full, axes, idx):
    """Values on the chosen axes (in that order) with every other axis fixed at idx."""
    hidden = [q for q in range(full.ndim) if q not in axes]
    sel = np.moveaxis(full, [*hidden, *axes], range(full.ndim))
    return sel[tuple(int(i) for i in idx)]


def slice_of(c, z, dx, kind, axes, idx):
    """Expected coordinates and values of the slice of array z (fundamental shape) in position or momentum order."""
    shp = z.shape
    nd = len(shp)
    if kind == "x":
        pts = (np.asarray(dx) / np.array(shp)[:, None]).T @ g.gridpts(shp)
        co = in_plane(dx, axes, pts)
    else:
        b = g.recip(np.asarray(dx))
        pts = b.T @ g.gridk(shp)
        co = in_plane(b, axes, pts)
    co = np.array([cut(q.reshape(shp), axes, idx) for q in co])
    val = cut(z, axes, idx)
    if kind == "k":
        co, val = np.fft.fftshift(co, axes=tuple(range(1, 1 + len(axes)))), np.fft.fftshift(val)
    assert len(axes) <= nd
    return co, val


def hidden_max(z, axes):
    """Index of the largest value on the hidden axes, or None when it is not unique."""
    a = np.abs(z)
    best = np.argwhere(a >= a.max() * (1 - 1e-6))
    hid = {tuple(int(i) for q, i in enumerate(row) if q not in axes) for row in best}
    return hid.pop() if len(hid) == 1 else None


def dft_all(shp):
    m = np.eye(1)
    for n in shp:
        m = np.kron(m, g.dft(int(n)))
    return m


@st.composite
def scenes(draw, dims=1, min_n=2, nds=(1, 3), complete=False):
    nd = draw(st.integers(max(dims, nds[0]), nds[1]))
    shp = draw(g.fshapes((nd, nd), max_n=6 if nd < 3 else 4, max_total=40, min_n=min_n, long=50))
    return {
        "shp": shp,
        "b": draw(g.basis_nd(shp, complete, lengths=True)),
        "to": draw(g.basis_nd(shp, complete, lengths=True)),
        "lat": draw(g.lattices(nd)),
        "a": draw(g.arrd()),
        "axes": draw(st.permutations(range(nd)))[:dims],
        "idx": draw(st.one_of(st.none(), st.integers(0, 10**4))),
        "measure": draw(st.sampled_from(MEASURES)),
        "scale": draw(st.sampled_from(SCALES)),
        "own": draw(st.booleans()),
        "s": draw(st.integers(0, 999)),
        "m": draw(st.integers(1, 3)),
    }


class Scene:
    def __init__(self, c) -> None:
        self.c = c
        self.dx = g.lattice(c["lat"])
        self.b = g.build(c["b"], self.dx)
        self.r = g.ref(c["b"])
        self.shp = tuple(c["shp"])
        self.axes = tuple(c["axes"])
        self.measure, self.scale = c["measure"], c["scale"]
        self.f = dft_all(self.shp)
        self.hidden = [n for q, n in enumerate(self.shp) if q not in self.axes]

    def vec(self, k=0):
        d = dict(self.c["a"])
        d["s"] += 31 * k
        return ro(arr(d, self.b.n))

    def x(self, v):
        return (v @ self.r).reshape(self.shp)

    def k(self, v):
        return (v @ self.r @ self.f.conj().T).reshape(self.shp)

    def idx(self, z):
        """(index passed, index expected)"""
        if self.c["idx"] is None:
            best = hidden_max(z, self.axes)
            if best is not None:
                return None, best
        i = tuple(int((self.c["idx"] or 0) // (5**q) % n) for q, n in enumerate(self.hidden))
        return i, i

    def opts(self, **kw):
        return {"ax": new_ax(self.c["own"]), "scale": self.scale, "measure": self.measure, **kw}


def size_of(v):
    return float(np.abs(v).max(initial=0)) + 1e-30


def tidy(fn):
    """Close every figure the library opened."""

    def run(c, ctx):
        options.begin(c)
        try:
            with quiet():
                fn(c, ctx)
        except ValueError as err:
            # matplotlib has no symlog colour bar for (nearly) constant data
            if c.get("scale") != "symlog" or "non-finite values" not in str(err):
                raise
            ctx.label("symlog colour bar of constant data")
        finally:
            options.end()
            plt.close("all")

    run.__name__, run.__doc__ = fn.__name__, fn.__doc__
    return run


@case("C22", scenes(dims=1), quick=160)
@tidy
def lines(c, ctx):
    """One-dimensional plots of states, probabilities, potentials, kernels and operators in position, momentum and index order. Non-trivial: more than one axis, or a basis that is not plain position."""
    s = Scene(c)
    ctx.nt(len(s.shp) > 1 or c["b"]["of"][0]["t"] != "F")
    v = s.vec()
    sc = size_of(v) * s.b.n
    ax0 = s.axes[0]
    state = {"basis": s.b, "data": v}
    zx, zk = s.x(v), s.k(v)
    ip, ie = s.idx(zx)
    (x,), val = slice_of(c, zx, s.dx, "x", s.axes, ie)
    ip_k, ie_k = s.idx(zk)
    (k,), val_k = slice_of(c, zk, s.dx, "k", s.axes, ie_k)
    for name, fn in (("state", SP.plot_state_1d_x), ("probability", BP.plot_probability_1d_x), ("kernel", KP.plot_isotropic_noise_kernel_1d_x)):
        o = s.opts()
        check_line(fn(state, s.axes, ip, **o), o, x, val, s.measure, f"{name} in position", sc, True)
    o = s.opts()
    check_line(UP.plot_data_1d_x(s.b, v, s.axes, ip, **o), o, x, val, s.measure, "data in position", sc, True)
    o = s.opts()
    o.pop("measure")
    check_line(PP.plot_potential_1d_x(state, s.axes, ip, **o), o, x, val, "real", "potential", sc, True)
    for name, fn in (("state", SP.plot_state_1d_k), ("probability", BP.plot_probability_1d_k)):
        o = s.opts()
        check_line(fn(state, s.axes, ip_k, **o), o, k, val_k, s.measure, f"{name} in momentum", sc, True)
    o = s.opts()
    check_line(UP.plot_data_1d_k(s.b, v, s.axes, ip_k, **o), o, k, val_k, s.measure, "data in momentum", sc, True)
    for loop in (False, True):
        o = s.opts()
        n = np.arange(s.shp[ax0], dtype=float)
        check_line(UP.plot_data_1d_n(s.b, v, s.axes, ip, periodic=loop, **o), o, n, cut(zx, s.axes, ie), s.measure, "data against index", sc, loop)
    # several states on one pair of axes, in order
    ls = ro(np.array([s.vec(q) for q in range(c["m"])]))
    both = {"basis": TupleBasis(FundamentalBasis(c["m"]), s.b), "data": ls.reshape(-1)}
    for fn, get, kind in ((LP.plot_states_1d_x, s.x, "x"), (LP.plot_states_1d_k, s.k, "k")):
        zs = [get(q) for q in ls]
        i = s.idx(zs[0])[1]
        o = s.opts()
        out = fn(both, s.axes, i, **o)
        check_ax(out, o["ax"], "state list")
        drawn = out[1].get_lines()
        ensure(len(drawn) == c["m"], f"{len(drawn)} lines for {c['m']} states")
        for q, ln in enumerate(drawn):
            (co,), w = slice_of(c, zs[q], s.dx, kind, s.axes, i)
            check_line((out[0], out[1], ln), o, co, w, s.measure, f"state {q} of a list", size_of(ls) * s.b.n, True)


@case("C22", scenes(dims=2, nds=(2, 3)), quick=120)
@tidy
def meshes(c, ctx):
    """Two-dimensional plots in position and momentum for any pair and order of axes. Non-trivial: three axes, reversed axes or a basis that is not plain position."""
    s = Scene(c)
    ctx.nt(len(s.shp) > 2 or s.axes != (0, 1) or c["b"]["of"][0]["t"] != "F")
    v = s.vec()
    sc = size_of(v) * s.b.n
    state = {"basis": s.b, "data": v}
    zx, zk = s.x(v), s.k(v)
    ip, ie = s.idx(zx)
    x, val = slice_of(c, zx, s.dx, "x", s.axes, ie)
    ip_k, ie_k = s.idx(zk)
    k, val_k = slice_of(c, zk, s.dx, "k", s.axes, ie_k)
    over = {"basis": TupleBasis(s.b, TupleBasis(FundamentalBasis(1), FundamentalBasis(1))), "data": v}
    for name, fn, what in (
        ("state", SP.plot_state_2d_x, state),
        ("probability", BP.plot_probability_2d_x, state),
        ("kernel", KP.plot_isotropic_noise_kernel_2d_x, state),
        ("overlap", VP.plot_overlap_2d_x, over),
    ):
        o = s.opts()
        check_mesh(fn(what, s.axes, ip, **o), o, x, val, s.measure, f"{name} in position", sc)
    o = s.opts()
    check_mesh(UP.plot_data_2d_x(s.b, v, s.axes, ip, **o), o, x, val, s.measure, "data in position", sc)
    o = s.opts()
    o.pop("measure")
    check_mesh(PP.plot_potential_2d_x(state, s.axes, ip, **o), o, x, val, "real", "potential", sc)
    for name, fn, what in (("state", SP.plot_state_2d_k, state), ("probability", BP.plot_probability_2d_k, state), ("overlap", VP.plot_overlap_2d_k, over)):
        o = s.opts()
        check_mesh(fn(what, s.axes, ip_k, **o), o, k, val_k, s.measure, f"{name} in momentum", sc)
    o = s.opts()
    check_mesh(UP.plot_data_2d_k(s.b, v, s.axes, ip_k, **o), o, k, val_k, s.measure, "data in momentum", sc)
    out = o["ax"].get_xlabel() if o["ax"] is not None else None
    ensure(out is None or f"k{s.axes[0]}" in out, f"label {out!r} of axis {s.axes[0]}")


@case("C22", scenes(dims=2, nds=(2, 3)), quick=100)
@tidy
def differences(c, ctx):
    """Difference plots: the pointwise difference over the larger magnitude for states, the plain difference for potentials, percentage errors for kernels. Non-trivial: the two are given in different bases."""
    s = Scene(c)
    ctx.nt(c["b"] != c["to"])
    v = s.vec()
    to = g.build(c["to"], s.dx)
    d = {"k": "rand", "s": c["s"] + 5}
    w = ro(arr(d, to.n))
    v = ro(v + 1e-3 * size_of(v) * arr({"k": "rand", "s": c["s"]}, s.b.n))
    a, b = {"basis": s.b, "data": v}, {"basis": to, "data": w}
    rt = g.ref(c["to"])
    for kind, fns in (("x", [(SP.plot_state_difference_2d_x, 2)]), ("k", [(SP.plot_state_difference_2d_k, 2), (SP.plot_state_difference_1d_k, 1)])):
        z0 = s.x(v) if kind == "x" else s.k(v)
        z1 = (w @ rt if kind == "x" else w @ rt @ s.f.conj().T).reshape(s.shp)
        big = np.maximum(np.abs(z0), np.abs(z1))
        if np.any(big < 1e-6 * big.max()):
            ctx.label("both vanish somewhere (skipped)")
            continue
        diff = (z0 - z1) / big
        for fn, dims in fns:
            axes = s.axes[:dims]
            i = tuple(int(c["s"] // 3**q % n) for q, n in enumerate(n for j, n in enumerate(s.shp) if j not in axes))
            co, val = slice_of(c, diff, s.dx, kind, axes, i)
            o = s.opts()
            out = fn(a, b, axes, i, **o)
            if dims == 2:
                check_mesh(out, o, co, val, s.measure, "difference of states", 1e4)
            else:
                check_line(out, o, co[0], val, s.measure, "difference of states", 1e4, True)
    i = tuple(int(c["s"] // 3**q % n) for q, n in enumerate(s.hidden))
    o = s.opts()
    o.pop("measure")
    back = w @ rt @ s.r.conj().T
    co, val = slice_of(c, s.x(v - back), s.dx, "x", s.axes, i)
    check_mesh(PP.plot_potential_difference_2d_x(a, b, s.axes, i, **o), o, co, val, "real", "difference of potentials", size_of(v) + size_of(w) * to.n)
    if np.all(np.abs(v) > 1e-3 * size_of(v)):
        err = (back - v) * 100 / v
        o = {"ax": new_ax(c["own"])}
        check_line(KP.plot_isotropic_kernel_error_1d(a, b, **o), o, np.arange(s.b.n, dtype=float), err, "real", "kernel error", 1e5 * (1 + size_of(w) / size_of(v)), False) if s.b.n > 1 else None


@case("C22", scenes(dims=2, nds=(2, 3), complete=True), quick=100)
@tidy
def operators(c, ctx):
    """Operators drawn as a matrix, along their diagonal by index, and along their position diagonal in one and two dimensions. Non-trivial: more than two states."""
    s = Scene(c)
    n = s.b.n
    ctx.nt(n > 2)
    m = ro(arr(c["a"], (n, n)))
    sc = size_of(m) * n
    bb = TupleBasis(s.b, s.b)
    op = {"basis": bb, "data": ro(m.reshape(-1))}
    o = s.opts()
    check_mesh(OP.plot_operator_2d(op, **o), o, None, m, s.measure, "operator", sc)
    o = s.opts()
    check_mesh(KP.plot_kernel_2d(op, **o), o, None, m, s.measure, "kernel", sc)
    d = ro(arr({**c["a"], "k": "rand", "s": c["s"]}, n))
    sc = max(sc, size_of(d) * n)
    diag = {"basis": bb, "data": d}
    o = s.opts()
    o.pop("scale")
    check_mesh(OP.plot_operator_2d_diagonal(diag, **o), o, None, np.diag(d), s.measure, "diagonal operator", sc)
    idx = np.arange(n, dtype=float)
    flat = FundamentalPositionBasis(np.array([1.5]), n)
    for fb in (bb, TupleBasis(flat, flat)):
        o = s.opts()
        check_line(OP.plot_diagonal_operator_along_diagonal({"basis": fb, "data": d}, **o), o, idx, d, s.measure, "diagonal by index", sc, False)
        o = s.opts()
        check_line(OP.plot_operator_along_diagonal({"basis": fb, "data": ro(m.reshape(-1))}, **o), o, idx, np.diag(m), s.measure, "diagonal by index", sc, False)
    # in position
    px = np.diag(s.r.T @ m @ s.r.conj()).reshape(s.shp)
    pd = np.diag(s.r.T @ np.diag(d) @ s.r.conj()).reshape(s.shp)
    for full, z, name in ((op, px, "operator"), (diag, pd, "diagonal operator")):
        ip, ie = s.idx(z)
        co, val = slice_of(c, z, s.dx, "x", s.axes, ie)
        fn2 = OP.plot_operator_along_diagonal_2d_x if full is op else OP.plot_diagonal_operator_along_diagonal_2d_x
        o = s.opts()
        check_mesh(fn2(full, s.axes, ip, **o), o, co, val, s.measure, f"{name} in position", sc)
        i1 = tuple(int(c["s"] // 3**q % r) for q, r in enumerate(r for j, r in enumerate(s.shp) if j != s.axes[0]))
        co, val = slice_of(c, z, s.dx, "x", s.axes[:1], i1)
        fn1 = OP.plot_operator_along_diagonal_1d_x if full is op else OP.plot_diagonal_operator_along_diagonal_1d_x
        o = s.opts()
        check_line(fn1(full, s.axes[:1], i1, **o), o, co[0], val, s.measure, f"{name} along a line", sc, True)
    # a diagonal kernel: pairs of points, drawn around the centre
    o = s.opts()
    kern = {"basis": TupleBasis(bb, bb), "data": ro(m.reshape(-1))}
    check_mesh(KP.plot_diagonal_kernel_2d(kern, **o), o, None, np.fft.fftshift(m), s.measure, "diagonal kernel", sc)
    o = s.opts()
    full = {"basis": TupleBasis(bb, bb), "data": ro(arr({"k": "rand", "s": 3}, (n * n, n * n)).reshape(-1))} if n <= 6 else None
    if full is not None:
        check_mesh(KP.plot_kernel_2d(full, **o), o, None, full["data"].reshape(n * n, n * n), s.measure, "full kernel", 10)


@case("C22", st.fixed_dictionaries({"shp": g.fshapes((1, 3), max_n=6, max_total=60), "a": g.arrd(), "measure": st.sampled_from(MEASURES), "axes": st.integers(0, 100), "s": st.integers(0, 10**4)}), quick=300)
def measures(c, ctx):
    """The measure and slicing helpers on arrays of any shape. Non-trivial: two axes or more."""
    from surface_potential_analysis.util import util as U

    shp = tuple(c["shp"])
    ctx.nt(len(shp) > 1)
    z = ro(arr(c["a"], shp))
    check_measured(U.get_measured_data(z, c["measure"]), z, c["measure"], "measured data", size_of(z))
    rng = np.random.default_rng(c["s"])
    k = 1 + c["axes"] % len(shp)
    axes = tuple(int(q) for q in rng.permutation(len(shp))[:k])
    hidden = [n for q, n in enumerate(shp) if q not in axes]
    idx = tuple(int(rng.integers(n)) for n in hidden)
    close(U.get_data_in_axes(z, axes, idx), cut(z, axes, idx), "data in axes")
    kept = sorted(axes)
    ensure(np.array_equal(z[U.slice_ignoring_axes(idx, axes)], cut(z, kept, idx)), "slice ignoring axes")
    i, ax = int(rng.integers(shp[axes[0]])), axes[0]
    for q in (ax, ax - len(shp)):
        close(z[U.slice_along_axis(i, q)], np.take(z, i, axis=ax), "slice along an axis")
        close(z[U.slice_along_axis(slice(0, i), q)], np.take(z, range(i), axis=ax), "range along an axis")
    ensure(tuple(U.get_position_in_sorted(axes)) == tuple(kept.index(q) for q in axes), "position in sorted axes")
    pts = ro(rng.normal(size=(2, *shp)))
    path = np.array([rng.integers(0, n, size=4) for n in shp])
    at = np.array([[p[tuple(q)] for q in path.T] for p in pts])
    exp = np.concatenate([[0], np.cumsum(np.linalg.norm(np.diff(at, axis=1), axis=0))])
    close(U.calculate_cumulative_distances_along_path(path, pts), exp, "distances along a path")
    if c["measure"] not in MEASURES:
        fail("unreachable")


@st.composite
def scaled(draw):
    return {
        "n": draw(st.integers(2, 9)),
        "a": draw(g.arrd(kinds=("rand", "rand", "sparse"), powers=(0,))),
        "measure": draw(st.sampled_from(["real", "abs", "abs"])),
        "scale": draw(st.sampled_from(["linear", "symlog", "squared", "log"])),
        "unit": draw(st.sampled_from([1.0, 1e-21, 2.5e-3, 40.0, 1e6])),
        "err": draw(st.booleans()),
        "own": draw(st.booleans()),
    }


def heights(ax, x, y):
    """Where on the canvas the points (x, y) are drawn, as fractions of the axes."""
    at = ax.transData.transform(np.stack([x, y], axis=1))
    return ax.transAxes.inverted().transform(at), at


@case("C22", scaled(), quick=200)
@tidy
def scales(c, ctx):
    """Nonlinear axes: values are drawn at the height the scale gives them, the picture does not depend on the unit of the data, positions on the canvas convert back to the values, ticks are evenly spaced over a squared axis. Non-trivial: a scale that is not linear."""
    scale, measure = c["scale"], c["measure"]
    ctx.nt(scale != "linear")
    if scale == "squared":
        measure = "abs"
    z = arr(c["a"], c["n"])
    if scale == "log":
        z = np.exp(np.clip(z.real, -3, 3))
    x = np.arange(c["n"], dtype=float)
    val = np.real(z) if measure == "real" else np.abs(z)
    if np.ptp(val) < 1e-3 * size_of(val):
        ctx.label("constant data")
        return
    if scale == "linear" and c["n"] > 1:
        along = 0.5 - 1.5 * x if c["own"] else 1.5 * x - 4
        o = {"ax": new_ax(c["own"]), "scale": scale, "measure": measure}
        check_line(UP.plot_data_1d(ro(z), ro(along), periodic=True, **o), o, along, z, measure, "closed line", size_of(z), True)
    err = ro(0.1 * np.abs(np.random.default_rng(1).normal(size=c["n"]))) if c["err"] else None
    pics = []
    for u in (1.0, c["unit"]):
        o = {"ax": new_ax(c["own"]), "scale": scale, "measure": measure}
        out = UP.plot_data_1d(ro(z * u), ro(x), None if err is None else ro(err * u), **o)
        check_line(out, o, x, z * u, measure, "scaled line", size_of(z) * u, False)
        ax = out[1]
        if err is not None:
            check_bars(ax, out[2], x, err * u, size_of(z) * u)
        if scale == "log":
            ensure(np.all(np.diff(ax.transData.transform(np.stack([x, np.sort(val) * u], axis=1))[:, 1]) >= 0), "larger values are not higher up")
            continue
        frac, at = heights(ax, x, val * u)
        lo, hi = ax.get_ylim()
        ensure(lo < hi and (measure != "abs" or lo == 0), f"limits {lo}..{hi}")
        if scale != "symlog":
            p = 2 if scale == "squared" else 1
            close(frac[:, 1], ((val * u) ** p - lo**p) / (hi**p - lo**p), f"height on a {scale} axis", 1e-7)
        ensure(np.all(np.diff(frac[np.argsort(val, kind="stable"), 1]) >= -1e-9), "larger values are not higher up")
        back = ax.transData.inverted().transform(at)
        # the slope of a squared axis vanishes at zero
        slack = 1e-6 * max(abs(lo), abs(hi))
        ensure(np.all(np.abs(back[:, 1] - val * u) <= slack), f"canvas positions convert back to {back[:, 1]}, not {val * u}")
        close(back[:, 0], x, "canvas positions convert back (coordinate)", 1e-7)
        if scale == "squared":
            t = np.asarray(ax.get_yticks())
            ensure(t.size >= 2 and t.min() >= lo - 1e-9 * hi and t.max() <= hi * (1 + 1e-9), f"ticks {t} outside {lo}..{hi}")
            gaps = np.diff(t**2)
            ensure(np.ptp(gaps) <= 1e-6 * hi**2 and np.all(gaps > 0), f"ticks of a squared axis at {t}")
        pics.append(frac)
    if scale != "log":
        close(pics[1], pics[0], "the picture depends on the unit of the data", 1e-6)
    m = ro(arr({**c["a"], "s": c["a"]["s"] + 1}, (c["n"], 3)))
    vm = np.real(m) if measure == "real" else np.abs(m)
    if scale in ("log", "squared") or np.ptp(vm) < 1e-3 * size_of(vm):
        return
    grid = ro(np.array(np.meshgrid(x, np.arange(3.0), indexing="ij")))
    cols = []
    for u in (1.0, c["unit"]):
        o = {"ax": new_ax(c["own"]), "scale": scale, "measure": measure}
        out = UP.plot_data_2d(ro(m * u), grid, **o)
        check_mesh(out, o, grid, m * u, measure, "scaled mesh", size_of(m) * u)
        cols.append(np.asarray(out[2].norm(vm * u)))
    close(cols[1], cols[0], "the colours depend on the unit of the data", 1e-6)
    ensure(np.all(np.diff(cols[0].reshape(-1)[np.argsort(vm, axis=None, kind="stable")]) >= -1e-9), "colours do not follow the values")


# ---------------------------------------------------------------- animations
def frames_of(ani):
    return [list(f) for f in ani.new_frame_seq()]


@case("C22", scenes(dims=1), quick=80)
@tidy
def line_animations(c, ctx):
    """Animations over a list of states: one frame per state, in order, each the plot of that state. Non-trivial: two states or more."""
    s = Scene(c)
    m = c["m"]
    ctx.nt(m > 1)
    ls = ro(np.array([s.vec(q) for q in range(m)]))
    sc = size_of(ls) * s.b.n
    both = {"basis": TupleBasis(FundamentalBasis(m), s.b), "data": ls.reshape(-1)}
    i = s.idx(np.zeros(s.shp))[1] if c["idx"] is not None else tuple(0 for _ in s.hidden)
    for fn, get, kind in ((SP.animate_state_over_list_1d_x, s.x, "x"), (SP.animate_state_over_list_1d_k, s.k, "k")):
        o = s.opts()
        fig, ax, ani = fn(both, s.axes, i, **o)
        fr = frames_of(ani)
        ensure(len(fr) == m and all(len(f) == 1 for f in fr), f"{len(fr)} frames for {m} states")
        for q, (ln,) in enumerate(fr):
            (co,), w = slice_of(c, get(ls[q]), s.dx, kind, s.axes, i)
            check_line((fig, ax, ln), o, co, w, s.measure, f"frame {q}", sc, True)
            ensure(ln.get_color() == fr[0][0].get_color(), "one colour for all frames")
    diag = {"basis": TupleBasis(FundamentalBasis(m), TupleBasis(s.b, s.b)), "data": ls.reshape(-1)}
    if s.b.n > 1:
        for loop in (False, True):
            o = s.opts()
            fig, ax, ani = OP.animate_diagonal_operator_list_along_diagonal(diag, periodic=loop, **o)
            fr = frames_of(ani)
            ensure(len(fr) == m, f"{len(fr)} frames for {m} operators")
            for q, (ln,) in enumerate(fr):
                check_line((fig, ax, ln), o, np.arange(s.b.n, dtype=float), ls[q], s.measure, f"frame {q} of a diagonal", sc, loop)


@case("C22", scenes(dims=2, nds=(2, 3)), quick=60)
@tidy
def mesh_animations(c, ctx):
    """Two-dimensional animations over a list of states, frame by frame. Non-trivial: two states or more."""
    s = Scene(c)
    m = c["m"]
    ctx.nt(m > 1)
    ls = ro(np.array([s.vec(q) for q in range(m)]))
    both = {"basis": TupleBasis(FundamentalBasis(m), s.b), "data": ls.reshape(-1)}
    i = tuple(int((c["idx"] or 0) // (5**q) % n) for q, n in enumerate(s.hidden))
    for fn, get, kind in ((SP.animate_state_over_list_2d_x, s.x, "x"), (SP.animate_state_over_list_2d_k, s.k, "k")):
        o = s.opts()
        fig, ax, ani = fn(both, s.axes, i, **o)
        fr = frames_of(ani)
        ensure(len(fr) == m and all(len(f) == 1 for f in fr), f"{len(fr)} frames for {m} states")
        for q, (mesh,) in enumerate(fr):
            co, w = slice_of(c, get(ls[q]), s.dx, kind, s.axes, i)
            check_mesh((fig, ax, mesh), o, co, w, s.measure, f"frame {q}", size_of(ls) * s.b.n)


@case("C22", scenes(dims=3, nds=(3, 3)), quick=60)
@tidy
def surface_animations(c, ctx):
    """Animations through the third axis: one frame per plane with that plane's values and coordinates, one colour scale. Non-trivial: axes not in storage order or basis not plain position."""
    s = Scene(c)
    ctx.nt(s.axes != (0, 1, 2) or c["b"]["of"][0]["t"] != "F")
    v = s.vec()
    sc = size_of(v) * s.b.n
    state = {"basis": s.b, "data": v}
    co, val = slice_of(c, s.x(v), s.dx, "x", s.axes, ())
    clim = ((None, None), (-1.5, 2.5), (0.0, None), (-2.0, None), (None, 0.0))[c["s"] % 5]
    jobs = [("state", SP.animate_state_3d_x, val), ("potential", PP.animate_potential_3d_x, val)]
    for name, fn, z in jobs:
        o = s.opts()
        o["scale"] = "linear" if c["s"] % 3 or clim[0] != clim[1] and None in clim else "symlog"
        fig, ax, ani = fn(state, s.axes, clim=clim, **o)
        check_ax((fig, ax), o["ax"], name)
        fr = frames_of(ani)
        ensure(len(fr) == z.shape[2], f"{name}: {len(fr)} frames for {z.shape[2]} planes")
        vals = [np.asarray(f[0].get_array()).reshape(z.shape[:2]) for f in fr]
        check_measured_planes(np.moveaxis(np.array(vals), 0, 2), z, s.measure, f"{name} planes", sc)
        lo, hi = float(np.min(vals)), float(np.max(vals))
        want = ((0.0 if s.measure == "abs" else lo) if clim[0] is None else clim[0], hi if clim[1] is None else clim[1])
        if clim[0] is not None and s.measure == "abs":
            want = (clim[0], want[1])
        for q, (mesh,) in enumerate(fr):
            close(centres(mesh), co[:2, :, :, q], f"{name}: coordinates of plane {q}", 1e-7, scale=float(np.abs(co).max()) + 1e-30)
            if want[1] - want[0] > 1e-6 * max(abs(want[0]), abs(want[1])):
                close(np.array(mesh.get_clim()), np.array(want), f"{name}: colour limits of plane {q}", RT, scale=abs(hi) + abs(lo) + 1e-30)
    w = ro(arr({"k": "rand", "s": c["s"] + 9}, s.b.n))
    if np.all(np.abs(v) > 1e-3 * size_of(v)):
        rel = np.abs((v - w) / v).astype(complex)
        o = s.opts()
        o.pop("measure")
        o["scale"] = "linear"
        _, _, ani = PP.animate_potential_difference_3d_x(state, {"basis": s.b, "data": w}, s.axes, **o)
        z = slice_of(c, s.x(rel), s.dx, "x", s.axes, ())[1]
        vals = [np.asarray(f[0].get_array()).reshape(z.shape[:2]) for f in frames_of(ani)]
        check_measured(np.moveaxis(np.array(vals), 0, 2), z, "real", "relative difference", size_of(rel) * s.b.n)


def check_measured_planes(got, z, measure, what, sc):
    if measure == "angle":
        ensure(got.shape == z.shape, f"{what}: shape {got.shape}, expected {z.shape}")
        close(np.exp(1j * got) * np.abs(z), z.astype(complex), f"{what} (angle)", 1e-7, scale=sc)
        return
    check_measured(got, z, measure, what, sc)


# ---------------------------------------------------------------- lists of values
@st.composite
def series(draw):
    return {
        "n": draw(st.integers(2, 12)),
        "m": draw(st.integers(1, 4)),
        "step": draw(st.sampled_from([1, 1, 2, 3])),
        "off": draw(st.integers(-4, 6)),
        "dt": draw(st.sampled_from([1e-12, 0.5, 3.0])),
        "a": draw(g.arrd(kinds=("rand", "rand", "sparse", "unit"))),
        "measure": draw(st.sampled_from(MEASURES)),
        "scale": draw(st.sampled_from(SCALES)),
        "own": draw(st.booleans()),
        "s": draw(st.integers(0, 9999)),
    }


@case("C22", series(), quick=120)
@tidy
def value_lists(c, ctx):
    """Series against index, time, frequency and momentum, with bands stacked or averaged and error bars. Non-trivial: two series or an offset time grid."""
    n, m, measure = c["n"], c["m"], c["measure"]
    ctx.nt(m > 1 or c["off"] != 0)
    tb = EvenlySpacedTimeBasis(n, c["step"], c["off"], c["dt"])
    times = (c["off"] + c["step"] * np.arange(n)) * c["dt"] / (n * c["step"])
    z = ro(arr(c["a"], (m, n)))
    sc = size_of(z) * n * m

    def opts(**kw):
        return {"ax": new_ax(c["own"]), "scale": c["scale"], "measure": measure, **kw}

    one = {"basis": tb, "data": z[0]}
    many = {"basis": TupleBasis(FundamentalBasis(m), tb), "data": z.reshape(-1)}
    o = opts()
    check_line(VL.plot_value_list_against_nx(one, **o), o, np.arange(n, dtype=float), z[0], measure, "against index", sc, False)
    o = opts()
    check_line(VL.plot_value_list_against_time(one, **o), o, times, z[0], measure, "against time", sc, False)
    freq = np.fft.fftshift(g.freqs(n)) / c["dt"]
    # transform of values placed at their own times (whole samples only when the grid has no sub-steps)
    phase = np.exp(-2j * np.pi * np.outer(np.fft.fftshift(g.freqs(n)), c["off"] + np.arange(n)) / n)
    spec = z @ phase.T
    for q, name in ((spec[0], "one"),):
        o = opts()
        out = VL.plot_value_list_against_frequency(one, **o)
        if c["step"] == 1 or measure == "abs":
            check_line(out, o, freq, q, measure, f"{name} against frequency", sc, False)
    for fn, x, w, name in (
        (VL.plot_split_value_list_against_time, times, np.cumsum(z, axis=0), "split against time"),
        (VL.plot_split_value_list_against_frequency, freq, np.cumsum(spec, axis=0), "split against frequency"),
        (VL.plot_all_value_list_against_time, times, z, "all against time"),
    ):
        if "frequency" in name and c["step"] != 1 and measure != "abs":
            continue
        o = opts()
        out = fn(many, **o)
        check_ax(out, o["ax"], name)
        drawn = out[1].get_lines()
        ensure(len(drawn) == m, f"{name}: {len(drawn)} lines for {m} series")
        for q, ln in enumerate(drawn):
            check_line((out[0], out[1], ln), o, x, w[q], measure, f"{name} {q}", sc, False)
    o = opts()
    out = VL.plot_average_value_list_against_time(many, **o)
    got = np.asarray(out[2].get_ydata())
    close(np.asarray(out[2].get_xdata()), times, "times of an average", RT)
    if measure != "angle":
        vals = {"real": np.real, "imag": np.imag, "abs": np.abs}[measure](z)
        # the mean is drawn through the same measure again: for 'imag' that of a real number
        mean = vals.mean(axis=0)
        shown = {"real": mean, "abs": np.abs(mean), "imag": np.zeros(n)}[measure]
        if measure != "imag":
            close(got, shown, "average over series", RT, scale=sc)
            err = vals.std(axis=0) / np.sqrt(m)
            verts = np.concatenate([p.vertices for p in out[1].collections[0].get_paths()])
            for t, lo, hi in zip(times, mean - err, mean + err):
                at = verts[np.isclose(verts[:, 0], t, rtol=0, atol=1e-9 * c["dt"])][:, 1]
                ensure(at.size and abs(at.min() - lo) < 1e-9 * sc and abs(at.max() - hi) < 1e-9 * sc, f"error band at {t}: {at.min()}..{at.max()}, expected {lo}..{hi}")
    k = ro(np.sort(np.random.default_rng(c["s"]).normal(size=n)))
    err = ro(np.abs(np.random.default_rng(c["s"] + 1).normal(size=n)) + 0.1)
    for e in (None, err):
        o = opts()
        vals = {"basis": MomentumBasis(k), "data": z[0]} | ({} if e is None else {"standard_deviation": e})
        out = VL.plot_value_list_against_momentum(vals, **o)
        check_line(out, o, k, z[0], measure, "against momentum", sc, False)
        if e is not None:
            check_bars(out[1], out[2], k, e, sc)
    # eigenvalue list against explicit times
    t = ExplicitTimeBasis(ro(np.sort(np.random.default_rng(c["s"] + 2).random(n))))
    for e in (None, err):
        o = opts()
        o["scale"] = "linear"
        vals = {"basis": TupleBasis(t, t), "data": z[0]} | ({} if e is None else {"standard_deviation": e})
        out = EP.plot_eigenvalue_against_time(vals, **o)
        check_line(out, o, t.times, z[0], measure, "eigenvalue against time", sc, False)
        if e is not None:
            check_bars(out[1], out[2], t.times, e, sc)
    # scattering functions
    o = {"ax": new_ax(c["own"]), "measure": measure}
    check_line(IP.plot_isf_against_time({"basis": TupleBasis(t, t), "data": z[0]}, **o), o, t.times, z[0], measure, "scattering function", sc, False)
    rep = TupleBasis(FundamentalBasis(m), t)
    o = {"ax": new_ax(c["own"]), "measure": measure}
    check_line(IP.plot_average_isf_against_time({"basis": TupleBasis(rep, rep), "data": z.reshape(-1)}, **o), o, t.times, z.mean(axis=0), measure, "average scattering function", sc, False)
    rng = np.random.default_rng(c["s"])
    r = rng.random(5) + 0.2
    fits = [
        (IP.plot_isf_4_variable_fit_against_time, I.ISF4VariableFit(*r), I.get_isf_from_4_variable_fit),
        (IP.plot_isf_fey_4_variable_fit_against_time, I.ISFFey4VariableFit(2.0, *r), I.get_isf_from_fey_4_variable_model_110),
        (IP.plot_isf_fey_model_fit_112bar_against_time, I.ISFFeyModelFit(r[0] + 1, r[1], 1.7), I.get_isf_from_fey_model_fit_112bar),
        (IP.plot_isf_fey_model_fit_110_against_time, I.ISFFeyModelFit(r[0] + 1, r[1], 1.7), I.get_isf_from_fey_model_fit_110),
    ]
    for fn, fit, model in fits:
        o = {"ax": new_ax(c["own"]), "measure": measure}
        check_line(fn(fit, t.times, **o), o, t.times, np.asarray(model(fit, t.times)["data"]), measure, fn.__name__, 20, False)


def check_bars(ax, line, x, err, sc):
    y = np.asarray(line.get_ydata())
    box = [q for q in ax.containers if getattr(q, "lines", None) and q.lines[0] is line]
    ensure(len(box) == 1 and len(box[0].lines[2]) == 1, "no error bars")
    seg = np.array(box[0].lines[2][0].get_segments())
    close(seg[:, :, 0], np.stack([x, x], axis=1), "position of error bars", RT, scale=float(np.abs(x).max()) + 1e-30)
    close(seg[:, :, 1], np.stack([y - err, y + err], axis=1), "length of error bars", RT, scale=sc + 10)


@case("C22", series(), quick=80)
@tidy
def histograms(c, ctx):
    """Distribution plots: a normalised histogram of every measured value in equal bins. Non-trivial: at least three values."""
    n, measure = c["n"] * c["m"], c["measure"]
    ctx.nt(n > 2)
    z = ro(arr({"k": "rand", "s": c["s"]}, n))
    ax = new_ax(c["own"])
    dist = [None, "normal", "exponential normal", "skew normal"][c["s"] % 4] if n > 4 else None
    fig, got = VL.plot_value_list_distribution({"basis": FundamentalBasis(n), "data": z}, ax=ax, measure=measure, distribution=dist)
    check_ax((fig, got), ax, "histogram")
    vals = np.unwrap(np.angle(z)) if measure == "angle" else {"real": np.real, "imag": np.imag, "abs": np.abs}[measure](z)
    lo, hi = (vals.min(), vals.max()) if dist is None else (vals.mean() - 4 * vals.std(), vals.mean() + 4 * vals.std())
    bars = sorted((p.get_x(), p.get_width(), p.get_height()) for p in got.patches)
    ensure(len(bars) >= 1, "no bars")
    edges = np.array([b[0] for b in bars] + [bars[-1][0] + bars[-1][1]])
    close(edges, np.linspace(lo, hi, len(bars) + 1), "bins of the histogram", 1e-9, scale=abs(lo) + abs(hi))
    inside = vals[(vals >= lo) & (vals <= hi)]
    width = edges[1] - edges[0]
    pos = (inside - lo) / width
    inner = pos[(pos > 0.5) & (pos < len(bars) - 0.5)] if dist is None else pos
    if np.all(np.abs(inner - np.rint(inner)) > 1e-6):
        counts, _ = np.histogram(inside, np.linspace(lo, hi, len(bars) + 1))
        close(np.array([b[2] for b in bars]), counts / (inside.size * width), "density of the histogram", 1e-9, scale=1 / width)
    close(sum(b[1] * b[2] for b in bars), 1.0, "total probability")
    if dist == "normal":
        ln = got.get_lines()[0]
        x = np.asarray(ln.get_xdata())
        close(np.asarray(ln.get_ydata()), np.exp(-((x - vals.mean()) ** 2) / (2 * vals.var())) / np.sqrt(2 * np.pi * vals.var()), "normal fit", 1e-9)
    elif dist is not None:
        ensure(len(got.get_lines()) == 1, "no fitted curve")
    # the spread of states: |<exp(iqx)>| = exp(-(q sigma)^2 / 4)
    rng = np.random.default_rng(c["s"])
    q = int(rng.integers(3, 9))
    length = float(np.exp(rng.normal()))
    xb = TupleBasis(FundamentalPositionBasis(np.array([length]), q))
    z = rng.normal(size=(c["n"] * c["m"], q)) + 1j * rng.normal(size=(c["n"] * c["m"], q))
    weight = np.abs(z) ** 2 / np.sum(np.abs(z) ** 2, axis=1, keepdims=True)
    phase = np.abs(weight @ np.exp(2j * np.pi * np.arange(q) / q))
    if z.shape[0] > 4 and np.all(phase > 1e-3) and np.all(phase < 1 - 1e-6):
        vals = np.sqrt(-np.log(phase)) * length / np.pi
        ax = new_ax(c["own"])
        states = {"basis": TupleBasis(TupleBasis(FundamentalBasis(c["m"]), FundamentalBasis(c["n"])), xb), "data": ro(z.reshape(-1))}
        fig, got = SP.plot_spread_distribution_1d(states, (0,), ax=ax, measure="abs")
        check_ax((fig, got), ax, "distribution of the spread")
        bars = sorted((p.get_x(), p.get_width(), p.get_height()) for p in got.patches)
        edges = np.linspace(vals.mean() - 4 * vals.std(), vals.mean() + 4 * vals.std(), len(bars) + 1)
        close(np.array([p[0] for p in bars]), edges[:-1], "bins of the spread", 1e-6, scale=edges[-1])
        inside = vals[(vals >= edges[0]) & (vals <= edges[-1])]
        pos = (inside - edges[0]) / (edges[1] - edges[0])
        if np.all(np.abs(pos - np.rint(pos)) > 1e-6):
            counts, _ = np.histogram(inside, edges)
            close(np.array([p[2] for p in bars]), counts / (inside.size * (edges[1] - edges[0])), "density of the spread", 1e-6, scale=1 / (edges[1] - edges[0]))


# ---------------------------------------------------------------- spectra and occupations
@case("C22", scenes(dims=1, complete=True), quick=80)
@tidy
def spectra(c, ctx):
    """Eigenvalues and occupations against energy for lists, operators and states. Non-trivial: three levels or more."""
    s = Scene(c)
    n = s.b.n
    ctx.nt(n > 2)
    rng = np.random.default_rng(c["s"])
    q = np.linalg.qr(rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n)))[0]
    unit = 1e-21
    e = unit * (np.cumsum(0.2 + rng.random(n)) - 1.3)
    bb = TupleBasis(s.b, s.b)
    h = {"basis": bb, "data": ro(((q * e) @ q.conj().T).reshape(-1))}
    perm = rng.permutation(n)
    ls = {"basis": TupleBasis(FundamentalBasis(n), s.b), "data": ro(q.T[perm].reshape(-1)), "eigenvalue": ro(e[perm].astype(complex))}
    temp = 20 + 300 * rng.random()
    occ = np.exp(-(e - e[0]) / (Boltzmann * temp))
    occ /= occ.sum()
    sc = float(np.abs(e).max())
    for fn, what in ((EP.plot_eigenstate_occupations, ls), (OP.plot_eigenstate_occupations, h)):
        ax = new_ax(c["own"])
        out = fn(what, temp, ax=ax)
        check_ax(out, ax, "thermal occupation")
        close(np.asarray(out[2].get_xdata()), e - e[0], "energies", 1e-7, scale=sc, atol=0)
        close(np.asarray(out[2].get_ydata()), occ, "thermal occupation", 1e-6, scale=1)
    order = np.argsort(np.abs(e))
    gap = np.diff(np.abs(e)[order])
    if np.all(gap > 1e-6 * sc):
        for fn, what, kw in ((EP.plot_eigenvalues, ls, {}), (OP.plot_eigenvalues, h, {"hermitian": True}), (OP.plot_eigenvalues, h, {})):
            for measure in ("abs", "real"):
                ax = new_ax(c["own"])
                out = fn(what, ax=ax, measure=measure, **kw)
                check_ax(out, ax, "eigenvalues")
                exp = e[order] if measure == "real" else np.abs(e[order])
                close(np.asarray(out[2].get_ydata()), exp, "eigenvalues in order of magnitude", 1e-7, scale=sc, atol=0)
                close(np.asarray(out[2].get_xdata(), dtype=float), np.arange(n, dtype=float), "index of eigenvalues")
    m = c["m"]
    v = ro(np.array([s.vec(k) for k in range(m)]))
    p = np.abs(v @ q.conj()) ** 2
    states = {"basis": TupleBasis(FundamentalBasis(m), s.b), "data": ro(v.reshape(-1))}
    vs = size_of(v) ** 2 * n
    ax = new_ax(c["own"])
    out = SP.plot_all_eigenstate_occupations(h, states, ax=ax)
    check_ax(out, ax, "occupations")
    drawn = out[1].get_lines()
    ensure(len(drawn) == m, f"{len(drawn)} lines for {m} states")
    ax = new_ax(c["own"])
    fig, got, ani = SP.animate_all_eigenstate_occupations(h, states, ax=ax)
    fr = frames_of(ani)
    ensure(len(fr) == m, f"{len(fr)} frames for {m} states")
    ax = new_ax(c["own"])
    mean = SP.plot_average_eigenstate_occupation(h, states, ax=ax)
    ax = new_ax(c["own"])
    single = SP.plot_eigenstate_occupation(h, {"basis": s.b, "data": v[-1]}, ax=ax)
    rows = [(ln, p[k]) for k, ln in enumerate(drawn)] + [(f[0], p[k]) for k, f in enumerate(fr)] + [(mean[2], p.mean(axis=0)), (single[1].get_lines()[0], p[-1])]
    for ln, w in rows:
        close(np.asarray(ln.get_xdata()), e - e[0], "energies", 1e-7, scale=sc, atol=0)
        close(np.asarray(ln.get_ydata()), w, "occupation of eigenstates", 1e-6, scale=vs)
    op = {"basis": bb, "data": ro(arr({"k": "rand", "s": c["s"]}, (n, n)).reshape(-1))}
    big = np.abs(op["data"])
    out = OP.plot_operator_sparsity(op, ax=new_ax(c["own"]))
    y = np.asarray(out[1].get_lines()[0].get_ydata())
    ensure(np.all(np.diff(y) >= 0) and n * n - 1 <= y[-1] <= n * n, f"sparsity counts {y[-1]} of {n * n} elements")
    x = np.asarray(out[1].get_lines()[0].get_xdata())
    for f in (0.3, 0.7):
        lim = f * big.max()
        i = int(np.searchsorted(x, lim))
        ensure(np.count_nonzero(big < lim * 0.98) <= y[i] <= np.count_nonzero(big < lim * 1.02), "sparsity counts the elements below each value")
    out = OP.plot_operator_diagonal_sparsity(op, ax=new_ax(c["own"]))
    y = np.asarray(out[1].get_lines()[0].get_ydata())
    x = np.asarray(out[1].get_lines()[0].get_xdata())
    mat = op["data"].reshape(n, n)
    norms = np.array([np.linalg.norm([mat[(k - i) % n, k] for k in range(n)]) for i in range(n)])
    ensure(n - 1 <= y[-1] <= n, f"sparsity counts {y[-1]} of {n} diagonals")
    lim = 0.9 * norms.max()
    i = int(np.searchsorted(x, lim))
    ensure(np.count_nonzero(norms < lim * 0.98) <= y[i] <= np.count_nonzero(norms < lim * 1.02), "sparsity counts the diagonals below each value")


@case("C22", series(), quick=80)
@tidy
def probabilities(c, ctx):
    """Occupations against time, in total, per band, per site and averaged; rates against temperature. Non-trivial: two bands or more."""
    rng = np.random.default_rng(c["s"])
    shp = tuple(int(q) for q in rng.integers(1, 4, size=3))
    n, m = c["n"], c["m"]
    ctx.nt(shp[2] > 1)
    t = EvenlySpacedTimeBasis(n, c["step"], c["off"], c["dt"])
    times = (c["off"] + c["step"] * np.arange(n)) * c["dt"] / (n * c["step"])
    sites = TupleBasis(*[FundamentalBasis(q) for q in shp])
    p = ro(rng.random((n, *shp)))
    pv = {"basis": TupleBasis(t, sites), "data": ro(p.reshape(-1))}
    rep = ro(rng.random((m, n, *shp)))
    reps = {"basis": TupleBasis(TupleBasis(FundamentalBasis(m), t), sites), "data": ro(rep.reshape(-1))}

    def check(fn, what, w, name):
        ax = new_ax(c["own"])
        out = fn(what, ax=ax)
        check_ax(out, ax, name)
        w = w.reshape(n, -1)
        ensure(len(out[2]) == w.shape[1], f"{name}: {len(out[2])} lines for {w.shape[1]} columns")
        for q, ln in enumerate(out[2]):
            close(np.asarray(ln.get_xdata()), times, f"{name}: times", RT)
            close(np.asarray(ln.get_ydata()), w[:, q], f"{name}: column {q}", RT)

    check(BP.plot_probability_against_time, pv, p, "probability")
    check(BP.plot_total_probability_against_time, pv, p.sum(axis=(1, 2, 3)), "total probability")
    check(DP.plot_probability_per_band, pv, p.sum(axis=(1, 2)), "per band")
    check(DP.plot_probability_per_site, pv, p.sum(axis=3), "per site")
    check(DP.plot_average_probability_per_band, reps, rep.mean(axis=0).sum(axis=(1, 2)), "average per band")
    n_t, n_r = c["n"], int(rng.integers(1, 7))
    coef = np.array([rng.permutation(n_r) + 0.5 for _ in range(n_t)]) * np.exp(1j * rng.random((n_t, n_r)))
    val = -rng.random((n_t, n_r)) + 1j * rng.normal(size=(n_t, n_r))
    temps = ro(100 + np.cumsum(rng.random(n_t)))
    ax = new_ax(c["own"])
    rates = [RateDecomposition(ro(val[i]), ro(coef[i])) for i in range(n_t)]
    out = RP.plot_rate_decomposition_against_temperature(rates, temps, ax=ax)
    drawn = out[1].get_lines()
    ensure(len(drawn) == n_r, f"{len(drawn)} lines for {n_r} rates")
    order = np.argsort(-np.abs(coef), axis=1)
    for q, ln in enumerate(drawn):
        close(np.asarray(ln.get_xdata()), temps, "temperatures")
        close(np.asarray(ln.get_ydata()), -np.take_along_axis(val.real, order, axis=1)[:, q], f"rate {q} by size of its contribution", RT, scale=1)


# ---------------------------------------------------------------- paths
@case("C22", scenes(dims=1, nds=(1, 3)), quick=120)
@tidy
def paths(c, ctx):
    """States, potentials and overlaps along a path of grid points against the distance walked. Non-trivial: three points or more in two dimensions or more."""
    s = Scene(c)
    v = s.vec()
    sc = size_of(v) * s.b.n
    rng = np.random.default_rng(c["s"])
    length = int(rng.integers(2, 7))
    ctx.nt(length > 2 and len(s.shp) > 1)
    path = np.array([rng.integers(0, n, size=length) for n in s.shp])
    zx, zk = s.x(v), s.k(v)
    state = {"basis": s.b, "data": v}

    def walked(vectors, p, n, wrap):
        d = np.diff(p, axis=1).astype(float)
        if wrap:
            d = np.array([np.mod(-q + w / 2, w) - w / 2 for q, w in zip(d, n)])
        return np.concatenate([[0], np.cumsum(np.linalg.norm(np.asarray(vectors).T @ d, axis=0))])

    dxs = s.dx / np.array(s.shp)[:, None]
    for wrap in (False, True):
        if wrap and any(n % 2 for n in s.shp):
            # half a period is not a whole number of steps
            ctx.label("wrapped path skipped")
        o = s.opts()
        o["scale"] = "linear"
        use = wrap and all(n % 2 == 0 for n in s.shp)
        out = SP.plot_state_along_path(state, ro(path), wrap_distances=use, **o)
        check_line(out, o, walked(dxs, path, s.shp, use), zx[tuple(path)], s.measure, "state along a path", sc, False)
        far = path + np.array(s.shp)[:, None] * rng.integers(-2, 3, size=path.shape)
        o = s.opts()
        o["scale"] = "linear"
        out = PP.plot_potential_along_path(state, ro(far), wrap_distances=use, **o)
        check_line(out, o, walked(dxs, far, s.shp, use), zx[tuple(path)], s.measure, "potential along a path", sc, False)
        o = s.opts()
        o["scale"] = "linear"
        over = {"basis": TupleBasis(s.b, TupleBasis(FundamentalBasis(1), FundamentalBasis(1))), "data": v}
        out = VP.plot_overlap_along_path_k(over, ro(path), wrap_distances=use, **o)
        check_line(out, o, walked(g.recip(s.dx), path, s.shp, use), zk[tuple(path)], s.measure, "overlap along a path", sc, False)
    if len(s.shp) == 3:
        for fn, p in (
            (VP.plot_overlap_along_k0, [[i, 1 % s.shp[1], 1 % s.shp[2]] for i in range(s.shp[0])]),
            (VP.plot_overlap_along_k_diagonal, [[i, i, 1 % s.shp[2]] for i in range(s.shp[0])]),
        ):
            if fn is VP.plot_overlap_along_k_diagonal and s.shp[0] > s.shp[1]:
                continue
            p = np.array(p).T
            kw = {"k2_ind": int(p[2, 0])} | ({"k1_ind": int(p[1, 0])} if fn is VP.plot_overlap_along_k0 else {})
            o = s.opts()
            o["scale"] = "linear"
            check_line(fn(over, **kw, **o), o, walked(g.recip(s.dx), p, s.shp, False), zk[tuple(p)], s.measure, fn.__name__, sc, False)
    # lowest point along one axis
    if len(s.shp) > 1:
        fb = TupleBasis(*[FundamentalPositionBasis(d, n) for d, n in zip(s.dx, s.shp)])
        real = ro(rng.permutation(int(np.prod(s.shp))).astype(float))
        pot = {"basis": fb, "data": real}
        for axis in (int(rng.integers(len(s.shp))), -1):
            low = real.reshape(s.shp).argmin(axis=axis)
            rest = [n for q, n in enumerate(s.shp) if q != axis % len(s.shp)]
            part = np.array([rng.integers(0, n, size=length) for n in rest])
            full = PP.get_minimum_path(pot, ro(part), axis)
            exp = np.insert(part, axis % len(s.shp), low[tuple(part)], axis=0)
            ensure(np.array_equal(full, exp), f"path through the lowest points {full.tolist()}, expected {exp.tolist()}")
            ax = new_ax(c["own"])
            out = PP.plot_potential_minimum_along_path(pot, ro(part), axis, ax=ax)
            check_line(out, ax, walked(dxs, exp, s.shp, False), real.reshape(s.shp)[tuple(exp)], "real", "lowest potential along a path", 100, False)


@case("C22", scenes(dims=2, nds=(3, 3)), quick=80)
@tidy
def sites(c, ctx):
    """Potentials above named surface sites, and grid points drawn in a plane. Non-trivial: always three dimensions, non-cubic lattice."""
    s = Scene(c)
    ctx.nt(c["lat"]["kind"] != "cubic")
    v = s.vec()
    state = {"basis": s.b, "data": v}
    full = s.x(v)
    n0, n1, n2 = s.shp
    sites_111 = {"Top Site": (2 * n0 // 3, 2 * n1 // 3), "Bridge Site": (n0 // 6, n1 // 6), "FCC Site": (0, 0), "HCP Site": (n0 // 3, n1 // 3)}
    sites_100 = {"Hollow Site": (0, 0), "Bridge Site": (n0 // 2, 0), "Top Site": (n0 // 2, n1 // 2)}
    z_pts = ro(np.cumsum(0.1 + np.random.default_rng(c["s"]).random(n2)))
    fb = TupleBasis(FundamentalPositionBasis(s.dx[0][:2], n0), FundamentalPositionBasis(s.dx[1][:2], n1), UnevenPotential3dZBasis(z_pts))
    real = ro(np.random.default_rng(c["s"]).normal(size=(n0, n1, n2)))
    uneven = {"basis": fb, "data": ro(real.reshape(-1))}
    for want, fn, fn_u in (
        (sites_111, PP.plot_potential_1d_x2_comparison_111, UZ.plot_uneven_potential_z_comparison_111),
        (sites_100, PP.plot_potential_1d_x2_comparison_100, UZ.plot_uneven_potential_z_comparison_100),
    ):
        # an offset moves every site; choose one that stays on the grid
        off = (-max(q[0] for q in want.values()), -max(q[1] for q in want.values())) if c["s"] % 2 else (0, 0)
        names = {k: (p[0] + off[0], p[1] + off[1]) for k, p in want.items()}
        ax = new_ax(c["own"])
        out = fn_u(uneven, off, ax=ax)
        check_ax(out, ax, "uneven sites")
        ensure({ln.get_label() for ln in out[2]} == set(names) and len(out[2]) == len(names), "one labelled line per site")
        for ln in out[2]:
            close(np.asarray(ln.get_xdata()), z_pts, "heights", RT)
            close(np.asarray(ln.get_ydata()), real[names[ln.get_label()]], f"uneven potential above {ln.get_label()}", RT, scale=10)
        if s.b.shape == s.shp:
            ax = new_ax(c["own"])
            out = fn(state, off, ax=ax)
            check_ax(out, ax, "sites")
            ensure({ln.get_label() for ln in out[2]} == set(names) and len(out[2]) == len(names), "one labelled line per site")
            for ln in out[2]:
                i = names[ln.get_label()]
                (x,), w = slice_of(c, full, s.dx, "x", (2,), tuple(q % n for q, n in zip(i, (n0, n1))))
                check_line((out[0], out[1], ln), ax, x, w, "real", f"potential above {ln.get_label()}", size_of(v) * s.b.n, True)
    # grid points in a plane
    axes = s.axes
    hid = next(q for q in range(3) if q not in axes)
    i = c["s"] % s.shp[hid]
    fb = TupleBasis(*[FundamentalPositionBasis(d, n) for d, n in zip(s.dx, s.shp)])
    pts = (s.dx / np.array(s.shp)[:, None]).T @ g.gridpts(s.shp)
    on = g.gridpts(s.shp)[hid] == i
    ks = g.recip(s.dx).T @ g.gridk(s.shp)
    for fn, w, vec in (
        (ZP.plot_fundamental_x_in_plane_projected_2d, pts, s.dx),
        (ZP.plot_fundamental_k_in_plane_projected_2d, ks, g.recip(s.dx)),
    ):
        ax = new_ax(c["own"])
        out = fn(fb, axes, (i,), ax=ax)
        check_points(out, ax, in_plane(vec, axes, w[:, on]), fn.__name__)
    flat = [int(q) for q in np.random.default_rng(c["s"]).integers(0, pts.shape[1], size=3)]
    where = tuple(np.array(np.unravel_index(flat, s.shp)))
    for idx in (where, np.array(flat)):
        ax = new_ax(c["own"])
        out = ZP.plot_fundamental_x_at_index_projected_2d(fb, idx, axes, ax=ax)
        check_points(out, ax, in_plane(s.dx, axes, pts[:, flat]), "points at an index")
    some = np.random.default_rng(c["s"]).normal(size=(3, 5)) * np.abs(s.dx).max()
    ax = new_ax(c["own"])
    check_points(ZP.plot_x_points_projected_2d(fb, axes, ro(some), ax=ax), ax, in_plane(s.dx, axes, some), "given points")
    ax = new_ax(c["own"])
    check_points(ZP.plot_k_points_projected_2d(fb, axes, ro(some), ax=ax), ax, in_plane(g.recip(s.dx), axes, some), "given momenta")
    ax = new_ax(c["own"])
    out = ZP.plot_bragg_points_projected_2d(fb, axes, ax=ax)
    reps = g.recip(s.dx) * np.array(s.shp)[:, None]
    lattice_pts = np.array([[a, b, d] for a in (-1, 0, 1) for b in (-1, 0, 1) for d in (-1, 0, 1)]).T
    check_points(out, ax, in_plane(g.recip(s.dx), axes, reps.T @ lattice_pts), "reciprocal lattice points")


def check_points(out, ax, xy, what):
    """The same points, in whatever order."""
    check_ax(out, ax, what)
    got = np.array([out[2].get_xdata(), out[2].get_ydata()], dtype=float)
    ensure(got.shape == xy.shape, f"{what}: {got.shape[1]} points drawn, expected {xy.shape[1]}")
    far = np.linalg.norm(got[:, :, None] - xy[:, None, :], axis=0)
    i, j = linear_sum_assignment(far)
    sc = float(np.abs(xy).max()) + 1e-30
    ensure(far[i, j].max() <= 1e-7 * sc, f"{what}: points {got.tolist()}, expected {xy.tolist()}")


# ---------------------------------------------------------------- kernels
def kernel_scenes():
    return st.fixed_dictionaries({"n": st.integers(2, 5), "lat": g.lattices(1), "m": st.integers(1, 4), "s": st.integers(0, 9999), "own": st.booleans(), "measure": st.sampled_from(["real", "imag", "abs"]), "neg": st.booleans()})


@case("C22", kernel_scenes(), quick=60)
@tidy
def kernels(c, ctx):
    """Errors left by truncated kernels, strengths of noise operators, and random samples of the noise. Non-trivial: two operators or more."""
    n, m = c["n"], c["m"]
    ctx.nt(m > 1)
    rng = np.random.default_rng(c["s"])
    dx = g.lattice(c["lat"])
    b = TupleBasis(FundamentalPositionBasis(dx[0], n))
    bb = TupleBasis(b, b)

    def herm(k):
        q = rng.normal(size=(k, k)) + 1j * rng.normal(size=(k, k))
        return q @ q.conj().T - (2 * np.eye(k) if c["neg"] else 0)

    def tails(e):
        return np.concatenate([[0], np.cumsum(np.sort(np.abs(e)))])

    d = herm(n)
    ax = new_ax(c["own"])
    out = KP.plot_diagonal_kernel_truncation_error({"basis": TupleBasis(bb, bb), "data": ro(d.reshape(-1))}, ax=ax)
    w = tails(np.linalg.eigvalsh(d))
    check_line(out, ax, np.arange(n + 1, dtype=float), w, "abs", "error of a truncated diagonal kernel", w[-1] * 100, False)
    k = herm(n * n)
    full = {"basis": TupleBasis(bb, bb), "data": ro(k.reshape(n, n, n, n).swapaxes(0, 1).reshape(-1))}
    w = tails(np.linalg.eigvalsh(k))
    for tr in (None, [0, n, n * n]):
        ax = new_ax(c["own"])
        out = KP.plot_kernel_truncation_error(full, truncations=tr, ax=ax)
        check_ax(out, ax, "error of a truncated kernel")
        (ln,) = out[1].get_lines()
        at = np.asarray(ln.get_xdata(), dtype=int)
        ensure(np.array_equal(at, np.arange(n * n + 1) if tr is None else tr), f"truncations {at.tolist()}")
        close(np.asarray(ln.get_ydata()), w[at], "error of a truncated kernel", 1e-7, scale=w[-1])
    # samples of noise: complex normal amplitudes of variance hbar * strength, relative to the origin
    e = ro((rng.permutation(m) + 1.0) * (np.where(rng.random(m) < 0.5, -1, 1) if c["neg"] else 1))
    z = rng.normal(size=(m, n)) + 1j * rng.normal(size=(m, n))
    ops = {"basis": TupleBasis(FundamentalBasis(m), bb), "data": ro(z.reshape(-1)), "eigenvalue": e}
    order = np.argsort(-np.abs(e))
    dense = {"basis": TupleBasis(FundamentalBasis(m), bb), "data": ro(np.array([np.diag(q) for q in z]).reshape(-1)), "eigenvalue": ro(np.abs(e).astype(complex))}
    jobs = [(KP.plot_diagonal_noise_operators_single_sample, ops), (KP.plot_noise_operators_single_sample_x, dense)]
    x = np.arange(n) * np.linalg.norm(dx[0]) / n
    for fn, what in jobs:
        for tr in (None, [0], range(min(m, 2)), [m - 1]):
            ax = new_ax(c["own"])
            out = fn(what, tr, ax=ax, measure="real")
            used = z[order[list(range(m) if tr is None else tr)]]
            basis = np.concatenate([used.real, used.imag]) - np.concatenate([used.real, used.imag])[:, :1]
            y = np.asarray(out[2].get_ydata())[:n]
            left = y - basis.T @ np.linalg.lstsq(basis.T, y, rcond=None)[0]
            ensure(np.linalg.norm(left) <= 1e-7 * np.linalg.norm(y) + 1e-30, "a sample contains operators that were cut away")
            check_line(out, ax, x, y + 0j, "real", "sample of noise", size_of(y), True)
    sample = []
    ax = Figure().subplots()
    for _ in range(60):
        y = np.asarray(KP.plot_diagonal_noise_operators_single_sample(ops, [0], ax=ax, measure="abs")[2].get_ydata())[:n]
        sample.append(np.sum(y**2))
    rel = np.mean(sample) / (hbar * abs(e[order[0]]) * np.sum(np.abs(z[order[0]] - z[order[0], 0]) ** 2))
    ensure(0.25 < rel < 3, f"mean square of a sample is {rel} times hbar * strength * |operator|^2")
    ax = new_ax(c["own"])
    pos = {"basis": TupleBasis(bb, bb), "data": ro(d.reshape(-1))}
    out = KP.plot_noise_kernel_single_sample(pos, ax=ax)
    check_ax(out, ax, "sample of a kernel")
    ensure(np.any(np.asarray(out[2].get_ydata()) != 0), "nothing was sampled")
    ax = new_ax(c["own"])
    out = KP.plot_diagonal_noise_operators_eigenvalues(ops, ax=ax, measure=c["measure"])
    check_ax(out, ax, "strengths")
    shown = {"real": e, "imag": np.zeros(m), "abs": np.abs(e)}[c["measure"]]
    close(np.asarray(out[2].get_ydata()), np.sort(shown)[::-1], "strengths in falling order", RT, scale=m)
    # how many strengths lie below each value
    pe = np.abs(np.linalg.eigvalsh(k))
    if np.all(pe > 1e-9 * pe.max()) and np.ptp(pe) > 1e-6 * pe.max():
        for sc in ("linear", "log"):
            ax = new_ax(c["own"])
            out = KP.plot_kernel_sparsity(full, ax=ax, measure="abs", scale=sc)
            check_ax(out, ax, "sparsity of a kernel")
            (ln,) = out[1].get_lines()
            gx, gy = np.asarray(ln.get_xdata()), np.asarray(ln.get_ydata())
            ensure(out[1].get_xscale() == "log" and out[1].get_yscale() == sc, "axes of the sparsity plot")
            ensure(np.isclose(gx[0], pe.min()) and gx[-1] <= pe.max() and gx[-1] > pe.max() * (1 - 1e-2), f"range of values {gx[0]} {gx[-1]}")
            edge = np.append(gx[1:], pe.max() * (1 + 1e-9))
            lo_count = (pe[None, :] < edge[:, None] * (1 - 1e-9)).sum(axis=1)
            hi_count = (pe[None, :] <= edge[:, None] * (1 + 1e-9)).sum(axis=1)
            ensure(np.all(gy >= lo_count) and np.all(gy <= hi_count), "number of strengths below each value")
    iso = {"basis": b, "data": ro(rng.normal(size=n) + 3)}
    fit = {"basis": b, "data": ro(rng.normal(size=n))}
    ax = new_ax(c["own"])
    pc = (fit["data"] - iso["data"]) * 100 / iso["data"]
    check_line(KP.plot_isotropic_kernel_error_1d_x(iso, fit, ax=ax), ax, x, pc, "real", "error in percent", size_of(pc), True)


# ---------------------------------------------------------------- bases and points
@case("C22", scenes(dims=1, nds=(1, 1)), quick=60)
@tidy
def bases(c, ctx):
    """States of a one-dimensional basis against distance, and the points of a sampled potential. Non-trivial: basis that is not plain position."""
    s = Scene(c)
    ctx.nt(c["b"]["of"][0]["t"] != "F")
    one = s.b[0]
    x = np.arange(s.shp[0]) * np.linalg.norm(s.dx[0]) / s.shp[0]
    ax = new_ax(c["own"])
    out = ZB.plot_explicit_basis_states_x(one, ax=ax, measure=s.measure)
    check_ax(out, ax, "states of a basis")
    ensure(len(out[2]) == one.n, f"{len(out[2])} lines for {one.n} states")
    for q, ln in enumerate(out[2]):
        check_line((out[0], out[1], ln), ax, x, s.r[q] + 0j, s.measure, f"state {q}", size_of(s.r), False)
    i = c["s"] % one.n
    ax = new_ax(c["own"])
    check_line(ZB.plot_explicit_basis_state_x(one, i, ax=ax, measure=s.measure), ax, x, s.r[i] + 0j, s.measure, f"state {i}", size_of(s.r), False)
    rng = np.random.default_rng(c["s"])
    xy = np.unique(rng.integers(0, 4, size=(c["m"] + 2, 2)), axis=0) / 3.0
    rows = [(p[0], p[1], z, rng.normal()) for p in xy for z in np.cumsum(rng.random(3))]
    rows = np.array([rows[q] for q in rng.permutation(len(rows))])
    pot = {"x_points": rows[:, 0], "y_points": rows[:, 1], "z_points": rows[:, 2], "points": rows[:, 3]}
    locs = ZQ.get_point_potential_xy_locations(pot)
    ensure(sorted(map(tuple, locs.T)) == sorted(map(tuple, xy)), f"locations {locs.T.tolist()}, expected {xy.tolist()}")
    ax = new_ax(c["own"])
    check_points(ZQ.plot_point_potential_location_xy(pot, ax=ax), ax, xy.T, "locations")
    ax = new_ax(c["own"])
    out = ZQ.plot_point_potential_all_z(pot, ax=ax)
    check_ax(out, ax, "columns of points")
    drawn = [sorted(zip(np.ravel(ln.get_xdata()), np.ravel(ln.get_ydata()))) for ln in out[1].get_lines()]
    exp = [sorted((r[2], r[3]) for r in rows if r[0] == p[0] and r[1] == p[1]) for p in xy]
    ensure(sorted(drawn) == sorted(exp), "one column of points per location")


# ---------------------------------------------------------------- wavepackets
@st.composite
def packets_of(draw):
    c = draw(p10.problems(fundamental=True, explicit=False))
    nd = len(c["m"])
    c |= {
        "axes": draw(st.permutations(range(nd))),
        "measure": draw(st.sampled_from(MEASURES)),
        "scale": draw(st.sampled_from(["linear", "symlog"])),
        "own": draw(st.booleans()),
        "lat": c["l"],
        "idx": draw(st.one_of(st.none(), st.integers(0, 10**4))),
    }
    return c


@case("C22", packets_of(), quick=100)
@tidy
def packets(c, ctx):
    """Plots of whole wavepackets are plots of the unfurled state. Non-trivial: several wavevectors and several grid points."""
    a, b, lb, wp, u, d, e = p10.synth(c)
    big, m = tuple(c["big"]), tuple(c["m"])
    full = tuple(int(p * q) for p, q in zip(big, m))
    nd = len(m)
    ctx.nt(lb.n > 1 and np.prod(m) > 1)
    if min(full) < 2:
        return
    sup = a * np.array(big)[:, None]
    labels = p10.labels_of(c["list"])
    refs = np.array([p10.unfurl_ref(u[0, q], labels[:, q], big, m) for q in range(lb.n)])
    one = {"basis": TupleBasis(lb, b), "data": ro(d[0].reshape(-1))}
    total = refs.sum(axis=0) / np.sqrt(lb.n)
    zx = total.reshape(full)
    zk = (total @ dft_all(full).conj().T).reshape(full)
    sc = size_of(total) * total.size

    def opts(**kw):
        return {"ax": new_ax(c["own"]), "scale": c["scale"], "measure": c["measure"], **kw}

    for dims, kind, fn, z in ((1, "x", WP.plot_wavepacket_1d_x, zx), (1, "k", WP.plot_wavepacket_1d_k, zk), (2, "x", WP.plot_wavepacket_2d_x, zx), (2, "k", WP.plot_wavepacket_2d_k, zk)):
        if nd < dims:
            continue
        axes = tuple(c["axes"][:dims])
        hid = [n for q, n in enumerate(full) if q not in axes]
        i = tuple(int((c["idx"] or 0) // 5**q % n) for q, n in enumerate(hid))
        o = opts()
        out = fn(one, axes, i, **o)
        co, w = slice_of(c, z, sup, kind, axes, i)
        if dims == 1:
            check_line(out, o, co[0], w, c["measure"], fn.__name__, sc, True)
        else:
            check_mesh(out, o, co, w, c["measure"], fn.__name__, sc)
    if nd >= 2:
        axes = tuple(c["axes"][:2])
        hid = [n for q, n in enumerate(full) if q not in axes]
        i = tuple(int((c["idx"] or 0) // 5**q % n) for q, n in enumerate(hid))
        for kind, fn in (("x", WP.plot_all_wavepacket_states_2d_x), ("k", WP.plot_all_wavepacket_states_2d_k)):
            outs = list(fn(one, axes, i, measure=c["measure"], scale=c["scale"]))
            ensure(len(outs) == lb.n, f"{len(outs)} plots for {lb.n} states")
            for q, out in enumerate(outs):
                z = refs[q] if kind == "x" else refs[q] @ dft_all(full).conj().T
                co, w = slice_of(c, z.reshape(full), sup, kind, axes, i)
                check_mesh(out, None, co, w, c["measure"], f"{fn.__name__} {q}", sc)
        if d.shape[0] > 1:
            other = np.array([p10.unfurl_ref(u[1, q], labels[:, q], big, m) for q in range(lb.n)]).sum(axis=0) / np.sqrt(lb.n)
            top = np.maximum(np.abs(total), np.abs(other))
            if np.all(top > 1e-6 * top.max()):
                o = opts()
                co, w = slice_of(c, ((total - other) / top).reshape(full), sup, "x", axes, i)
                check_mesh(WP.plot_wavepacket_difference_2d_x(one, {"basis": TupleBasis(lb, b), "data": ro(d[1].reshape(-1))}, axes, i, **o), o, co, w, c["measure"], "difference of wavepackets", 1e4)
    if nd == 3:
        o = opts()
        _, _, ani = WP.animate_wavepacket_3d_x(one, tuple(c["axes"]), **o)
        _, z = slice_of(c, zx, sup, "x", tuple(c["axes"]), ())
        vals = [np.asarray(f[0].get_array()).reshape(z.shape[:2]) for f in frames_of(ani)]
        check_measured_planes(np.moveaxis(np.array(vals), 0, 2), z, c["measure"], "planes of a wavepacket", sc)
    rng = np.random.default_rng(c["s"])
    path = np.array([rng.integers(0, n, size=4) for n in full])
    o = opts(scale="linear")
    steps = np.linalg.norm((sup / np.array(full)[:, None]).T @ np.diff(path, axis=1), axis=0)
    check_line(WP.plot_wavepacket_along_path(one, ro(path), **o), o, np.concatenate([[0], np.cumsum(steps)]), zx[tuple(path)], c["measure"], "wavepacket along a path", sc, False)


@case("C22", packets_of(), quick=100)
@tidy
def band_plots(c, ctx):
    """Band energies against momentum and lattice site, sample points, occupations and masses. Non-trivial: several bands and wavevectors."""
    a, b, lb, wp, u, d, e = p10.synth(c)
    big = tuple(c["big"])
    nd, nb = len(big), c["nb"]
    ctx.nt(lb.n > 1 and nb > 1)
    sup = a * np.array(big)[:, None]
    f = dft_all(big)
    sites = e @ f.T
    esc = size_of(e) * e.size
    rng = np.random.default_rng(c["s"])
    bands = None if c["s"] % 2 else sorted({int(q) for q in rng.integers(0, nb, size=2)})
    rows = list(range(nb)) if bands is None else bands

    def opts(**kw):
        return {"ax": new_ax(c["own"]), "scale": c["scale"], "measure": c["measure"], **kw}

    ax1 = (c["axes"][0],)
    zero = tuple(0 for _ in range(nd - 1))
    if min(big) > 1:
        for kind, fn, vals in (("k", WP.plot_wavepacket_eigenvalues_1d_k, e), ("x", WP.plot_wavepacket_eigenvalues_1d_x, sites)):
            o = opts()
            out = fn(wp, ax1, bands, **o)
            check_ax(out, o["ax"], fn.__name__)
            drawn = out[1].get_lines()
            ensure(len(drawn) == len(rows), f"{fn.__name__}: {len(drawn)} lines for {len(rows)} bands")
            for q, ln in zip(rows, drawn):
                z = vals[q].reshape(big)
                best = hidden_max(z, ax1)
                if nd > 1 and best is None:
                    continue
                (co,), w = slice_of(c, z, sup, kind, ax1, best if nd > 1 else zero)
                check_line((out[0], out[1], ln), o, co, w, c["measure"], f"{fn.__name__} band {q}", esc, True)
    one = {"basis": TupleBasis(lb, b), "data": ro(d[0].reshape(-1)), "eigenvalue": ro(e[0])}
    if nd >= 2 and min(big) > 1:
        ax2 = tuple(c["axes"][:2])
        hid = [n for q, n in enumerate(big) if q not in ax2]
        i = tuple(int((c["idx"] or 0) // 5**q % n) for q, n in enumerate(hid))
        for kind, fn, z in (("k", WP.plot_wavepacket_eigenvalues_2d_k, e[0]), ("x", WP.plot_wavepacket_eigenvalues_2d_x, sites[0])):
            o = opts()
            co, w = slice_of(c, z.reshape(big), sup, kind, ax2, i)
            check_mesh(fn(one, ax2, i, **o), o, co, w, c["measure"], fn.__name__, esc)
        ax = new_ax(c["own"])
        out = WP.plot_wavepacket_sample_frequencies(one, ax2, i, ax=ax)
        pts = g.recip(sup).T @ g.gridk(big)
        want = np.array([cut(pts[q].reshape(big), tuple(sorted(ax2)), i).reshape(-1) for q in ax2])
        check_points(out, ax, want, "sample points")
    i = tuple(int((c["idx"] or 0) // 5**q % n) for q, n in enumerate([n for q, n in enumerate(big) if q != ax1[0]]))
    ax = new_ax(c["own"])
    out = WP.plot_eigenvalues_1d_x({**one, "eigenvalue": ro(e[0].real)}, ax1, i, ax=ax)
    check_line(out, ax, np.arange(big[ax1[0]], dtype=float), cut(e[0].reshape(big), ax1, i), "real", "eigenvalues along one axis", esc, False)
    # bands at explicitly given wavevectors, in the order of their component along one reciprocal vector
    frac = ro(rng.permutation(nd * 5).reshape(nd, 5) / 7.0)
    few = {"basis": TupleBasis(TupleBasis(FundamentalBasis(nb), ExplicitBlockFractionBasis(frac)), b), "data": ro(np.zeros(nb * 5 * b.n) + 0j), "eigenvalue": ro(rng.normal(size=nb * 5) + 0j)}
    dk = g.recip(a)
    comp = frac.T @ dk @ (dk[ax1[0]] / np.linalg.norm(dk[ax1[0]]))
    by = np.argsort(comp)
    if np.all(np.diff(comp[by]) > 1e-9 * np.abs(comp).max()):
        o = opts()
        out = WP.plot_uneven_wavepacket_eigenvalues_1d_k(few, ax1, bands, **o)
        drawn = out[1].get_lines()
        ensure(len(drawn) == len(rows), f"{len(drawn)} lines for {len(rows)} bands")
        for q, ln in zip(rows, drawn):
            check_line((out[0], out[1], ln), o, comp[by], few["eigenvalue"].reshape(nb, 5)[q][by], c["measure"], f"uneven band {q}", 100, False)
    # occupations and effective masses
    temp = 1 / Boltzmann
    boltz = np.exp(-e.real)
    occ = boltz.sum(axis=1) / boltz.sum()
    o = opts()
    check_line(WP.plot_occupation_against_band(wp, temp, **o), o, np.arange(nb, dtype=float), occ, c["measure"], "occupation against band", 1, False)
    o = opts()
    check_line(WP.plot_occupation_against_band_average_energy(wp, temp, **o), o, e.real.mean(axis=1), occ, c["measure"], "occupation against energy", 1, False)
    if big[ax1[0]] > 1:
        hop = np.array([row.reshape(big)[tuple(1 if q == ax1[0] else 0 for q in range(nd))] for row in e @ f.T])
        o = opts()
        pts = np.array(rows, dtype=float)
        mass = c["mass"] * 1e-27
        out = WP.plot_wavepacket_transformed_energy_1d(wp, mass, ax1, bands, **o)
        line = [ln for ln in out[1].get_lines() if ln is not out[2]]
        check_line((out[0], out[1], *line), o, pts, hop[rows], c["measure"], "lowest Fourier component", esc, False)
        length = np.linalg.norm(a[ax1[0]])
        free = np.sqrt(lb.n) * hbar**2 / (mass * length**2) * (2 * pts + 1)
        check_line(out, o, pts, free, "real", "free particle", size_of(free), False)
        masses = np.sqrt(lb.n) * hbar**2 / length**2 * (2 * np.arange(nb) + 1) / np.abs(hop)
        o = {"ax": new_ax(c["own"])}
        check_line(WP.plot_wavepacket_transformed_energy_effective_mass_against_band(wp, ax1, **o), o, np.arange(nb, dtype=float), masses, "real", "mass against band", size_of(masses), False)
        for true in (None, mass):
            o = {"ax": new_ax(c["own"])}
            w = masses if true is None else masses / true - 1
            check_line(WP.plot_wavepacket_transformed_energy_effective_mass_against_energy(wp, ax1, true_mass=true, **o), o, e.real.mean(axis=1), w, "real", "mass against energy", size_of(w) + 1, False)

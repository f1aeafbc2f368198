"""C02: lattice sampling geometry is self-consistent. Tolerance 1e-9 relative to the largest coordinate."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from harness import gen as g
from harness.core import case, close, ensure, raises, same_ints
from surface_potential_analysis.basis.block_fraction_basis import (
    EvenlySpacedBlockFractionBasis,
    ExplicitBlockFractionBasis,
    FundamentalBlockFractionBasis,
)
from surface_potential_analysis.basis.momentum_basis_like import MomentumBasis
from surface_potential_analysis.basis.time_basis_like import (
    EvenlySpacedTimeBasis,
    ExplicitTimeBasis,
    FundamentalTimeBasis,
)
from surface_potential_analysis.basis.util import BasisUtil, get_twice_average_nx
from surface_potential_analysis.stacked_basis.build import (
    fundamental_stacked_basis_from_shape,
    fundamental_transformed_stacked_basis_from_shape,
    momentum_basis_3d_from_resolution,
    position_basis_3d_from_parent,
    position_basis_3d_from_shape,
    position_basis_from_shape,
)
from surface_potential_analysis.stacked_basis.util import get_single_point_basis, get_x01_mirrored_index


@st.composite
def sampled(draw, kinds=("F", "FM", "M"), max_n=9, max_total=160):
    nd = draw(st.integers(1, 3))
    shp = draw(g.fshapes((nd, nd), max_n=max_n, max_total=max_total, long=260))
    of = []
    for n in shp:
        t = draw(st.sampled_from(kinds))
        if t in ("F", "FM"):
            of.append({"t": t, "n": n})
        elif t in ("M", "Tr"):
            of.append({"t": t, "n": draw(st.integers(1, n)), "N": n})
        else:
            of.append(draw(g.basis1(n, lengths=True)))
    return {"b": {"t": "P", "of": of}, "l": draw(g.lattices(nd)), "shp": shp}


def full(c, ctx):
    a = g.lattice(c["l"])
    ctx.nt(len(c["shp"]) > 1 and c["l"]["kind"] not in ("cubic", "ortho"))
    ctx.label("%dd" % len(c["shp"]), c["l"]["kind"])
    return c["b"], a, g.build(c["b"], a)


@case("C02", sampled(), quick=600)
def points_and_momenta(c, ctx):
    """Sample and momentum points of a basis; non-trivial: 2-3 d skew/rotated/hexagonal lattice."""
    d, a, b = full(c, ctx)
    u = BasisUtil(b)
    n = np.array(g.shape(d))
    k = g.recip(a)
    close(u.delta_x_stacked, a, "lattice vectors")
    close(u.dx_stacked, a / n[:, None], "sample vectors")
    close(u.dk_stacked, k, "reciprocal vectors")
    close(u.dk_stacked @ u.delta_x_stacked.T / (2 * np.pi), np.eye(len(n)), "duality", atol=1e-12)
    close(u.delta_k_stacked, k * n[:, None], "momentum cell")
    ix, ik = g.gridpts(n), g.gridk(n)
    same_ints(np.array(u.stacked_nx_points), ix, "position indices")
    same_ints(np.array(u.stacked_nk_points), ik, "momentum indices")
    close(u.x_points_stacked, (a / n[:, None]).T @ ix, "positions", atol=0, scale=float(np.abs(a).sum()))
    close(u.k_points, k.T @ ik, "momenta", atol=0, scale=float(np.abs(k).sum() * n.max()))
    close(abs(u.volume), abs(np.linalg.det(a)), "volume", 1e-8)
    close(abs(u.reciprocal_volume), (2 * np.pi) ** len(n) / abs(np.linalg.det(a)), "reciprocal volume", 1e-8)
    ensure(u.n == n.prod() and tuple(u.shape) == tuple(n) and u.ndim == len(n), "sizes")
    # plane waves at lattice momenta are periodic with the lattice, and form the discrete Fourier matrix
    ph = np.exp(1j * (u.k_points.T @ u.x_points_stacked)) / np.sqrt(u.n)
    close(ph.conj() @ ph.T, np.eye(u.n), "plane waves orthonormal", 1e-8, atol=1e-10)


@case("C02", sampled(("F", "FM", "M", "Tr", "any")), quick=400)
def fundamental_points(c, ctx):
    """The underlying fundamental grid of any basis; non-trivial: 2-3 d skew/rotated/hexagonal lattice."""
    d, a, b = full(c, ctx)
    u = BasisUtil(b)
    n = np.array(c["shp"])
    k = g.recip(a)
    ensure(tuple(u.fundamental_shape) == tuple(n) and u.fundamental_n == n.prod(), "fundamental sizes")
    close(u.fundamental_dx_stacked, a / n[:, None], "fundamental sample vectors")
    close(u.fundamental_dk_stacked, k, "fundamental reciprocal vectors")
    close(u.fundamental_delta_x_stacked, a, "fundamental lattice")
    close(u.fundamental_delta_k_stacked, k * n[:, None], "fundamental momentum cell")
    ix, ik = g.gridpts(n), g.gridk(n)
    same_ints(np.array(u.fundamental_stacked_nx_points), ix, "fundamental position indices")
    same_ints(np.array(u.fundamental_stacked_nk_points), ik, "fundamental momentum indices")
    close(u.fundamental_x_points_stacked, (a / n[:, None]).T @ ix, "fundamental positions", atol=0, scale=float(np.abs(a).sum()))
    close(u.fundamental_stacked_k_points, k.T @ ik, "fundamental momenta", atol=0, scale=float(np.abs(k).sum() * n.max()))
    same_ints(u.fundamental_nx_points, np.arange(n.prod()), "flat fundamental indices")
    same_ints(u.fundamental_nk_points, g.freqs(int(n.prod())), "flat fundamental momentum indices")


@case("C02", sampled(("F", "FM", "M", "Tr", "any")), quick=300)
def one_axis(c, ctx):
    """A single axis of a basis (vector length in any dimension); non-trivial: more than 2 samples."""
    a = g.lattice(c["l"])
    d, ax = c["b"]["of"][0], a[0]
    b = g.build(d, ax)
    u = BasisUtil(b)
    n, nf = g.size(d), g.fsize(d)
    ctx.nt(n > 2)
    ensure(u.n == n and u.fundamental_n == nf, "sizes")
    close(u.delta_x, ax, "length")
    close(u.fundamental_dx, ax / nf, "fundamental step")
    same_ints(u.nx_points, np.arange(n), "indices")
    same_ints(u.nk_points, g.freqs(n), "momentum indices")
    same_ints(u.fundamental_nx_points, np.arange(nf), "fundamental indices")
    same_ints(u.fundamental_nk_points, g.freqs(nf), "fundamental momentum indices")
    close(u.dx, ax / n, "step")
    close(u.x_points, np.outer(ax / n, np.arange(n)), "points", atol=0, scale=float(np.abs(ax).sum()))
    close(u.fundamental_x_points, np.outer(ax / nf, np.arange(nf)), "fundamental points", atol=0, scale=float(np.abs(ax).sum()))


@case("C02", sampled(("F", "FM", "M", "Tr", "any")), quick=150)
def utility_view(c, ctx):
    """The sampling utility stands for its basis (axes, slices, conversions, one sample per axis); non-trivial: two or more axes."""
    d, a, b = full(c, ctx)
    ctx.nt(len(c["shp"]) > 1)
    u = BasisUtil(b)
    axes = [b[i] for i in range(b.ndim)]
    ensure(len(list(u)) == len(axes) and all(p is q for p, q in zip(u, axes)), "iteration over the axes")
    ensure(all(u[i] is q for i, q in enumerate(axes)) and u[-1] is axes[-1], "axis by index")
    ensure(tuple(u[1:]) == tuple(axes[1:]), "slice of axes")
    ensure(tuple(u.shape) == tuple(g.shape(d)) and u.ndim == len(axes), "shape")
    ensure(tuple(u.fundamental_shape) == tuple(c["shp"]), "fundamental shape")
    r = g.ref(d)
    rng = np.random.default_rng(b.n)
    for lead in ((), (2,), (2, 3)):
        v = rng.normal(size=(*lead, b.n)) + 1j * rng.normal(size=(*lead, b.n))
        close(u.__into_fundamental__(v), v @ r, "into fundamental", 1e-9, scale=float(np.linalg.norm(v)))
        f = rng.normal(size=(*lead, b.fundamental_n)) + 1j * rng.normal(size=(*lead, b.fundamental_n))
        close(u.__from_fundamental__(f), f @ r.conj().T, "from fundamental", 1e-9, scale=float(np.linalg.norm(f)))
        if lead:
            close(u.__into_fundamental__(np.moveaxis(v, -1, 0), 0), np.moveaxis(v @ r, -1, 0), "into fundamental, first axis", 1e-9, scale=float(np.linalg.norm(v)))
            close(u.__from_fundamental__(np.moveaxis(f, -1, 0), 0), np.moveaxis(f @ r.conj().T, -1, 0), "from fundamental, first axis", 1e-9, scale=float(np.linalg.norm(f)))
    close(u.vectors, r, "vectors", 1e-9, scale=1.0)
    one = get_single_point_basis(b)
    ensure(len(one) == len(axes) and all(q.n == 1 and q.fundamental_n == 1 for q in one), "one sample per axis")
    for q, v in zip(one, a):
        close(q.delta_x, v, "length of an axis with one sample", 1e-12)


@st.composite
def indexed(draw):
    c = draw(sampled())
    m = draw(st.integers(1, 6))
    c["idx"] = [draw(st.lists(st.integers(-20, 20), min_size=m, max_size=m)) for _ in c["shp"]]
    c["scalar"] = draw(st.booleans())
    return c


@case("C02", indexed(), quick=500)
def index_bijection(c, ctx):
    """Flat <-> stacked indices, points and momenta at given indices; non-trivial: 2 or more axes."""
    d, a, b = full(c, ctx)
    u = BasisUtil(b)
    n = np.array(g.shape(d))
    ctx.nt(len(n) > 1)
    raw = np.array(c["idx"])
    inside = raw % n[:, None]
    strides = np.array([int(np.prod(n[i + 1 :])) for i in range(len(n))])
    flat = strides @ inside
    same_ints(u.get_flat_index(tuple(inside)), flat, "flat index")
    same_ints(u.get_flat_index(tuple(raw), mode="wrap"), flat, "wrapped flat index")
    same_ints(np.array(u.get_stacked_index(flat)), inside, "stacked index")
    if np.any((raw < 0) | (raw >= n[:, None])):
        ensure(raises(lambda: u.get_flat_index(tuple(raw)), (ValueError, IndexError)), "out of range index accepted")
    allidx = np.arange(int(n.prod()))
    st_ = u.get_stacked_index(allidx)
    same_ints(np.array(st_), g.gridpts(n), "row-major order")
    same_ints(u.get_flat_index(st_), allidx, "round trip")
    if len(n) > 1:
        same_ints(np.array(get_x01_mirrored_index(tuple(raw))), np.array([raw[1], raw[0], *raw[2:]]), "mirrored indices")
        ensure(get_x01_mirrored_index(tuple(int(q) for q in raw[:, 0])) == tuple(int(q) for q in (raw[1, 0], raw[0, 0], *raw[2:, 0])), "mirrored index")
    k, x = g.recip(a), a / n[:, None]
    sx, sk = float(np.abs(a).sum()) * 21, float(np.abs(k).sum()) * 21
    if c["scalar"]:
        i0 = tuple(int(q) for q in raw[:, 0])
        close(u.get_x_points_at_index(i0), x.T @ raw[:, 0], "position at index", atol=0, scale=sx)
        close(u.get_k_points_at_index(i0), k.T @ raw[:, 0], "momentum at index", atol=0, scale=sk)
        ensure(int(u.get_flat_index(tuple(int(q) for q in inside[:, 0]))) == int(flat[0]), "scalar flat index")
        close(u.get_x_points_at_index(int(flat[0])), x.T @ inside[:, 0], "position at flat index", atol=0, scale=sx)
    else:
        close(u.get_x_points_at_index(tuple(raw)), x.T @ raw, "positions at indices", atol=0, scale=sx)
        close(u.get_k_points_at_index(tuple(raw)), k.T @ raw, "momenta at indices", atol=0, scale=sk)
        close(u.get_x_points_at_index(flat), x.T @ inside, "positions at flat indices", atol=0, scale=sx)
        close(u.get_k_points_at_index(flat), k.T @ inside, "momenta at flat indices", atol=0, scale=sk)


@case("C02", sampled(max_n=7, max_total=40), quick=150)
def twice_average_index(c, ctx):
    """Periodic midpoint of every pair of samples; non-trivial: some pair wraps around."""
    b = g.build(c["b"], g.lattice(c["l"]))
    n = np.array(c["shp"])
    ctx.nt(n.max() > 2)
    got = get_twice_average_nx(b)
    pts = g.gridpts(n)
    for ax, nn in enumerate(n):
        i, j = np.meshgrid(pts[ax], pts[ax])
        s = i + j
        far = 2 * np.abs(i - j) > nn
        same_ints(got[ax], np.where(far, s + nn, s) % (2 * nn), f"twice average index of axis {ax}")


@st.composite
def builds(draw):
    nd = draw(st.integers(1, 3))
    return {"shp": draw(st.lists(st.integers(1, 5), min_size=nd, max_size=nd)), "l": draw(g.lattices(nd)), "default": draw(st.booleans())}


@case("C02", builds(), quick=150)
def builders(c, ctx):
    """Bases built from shapes, resolutions and parents; non-trivial: explicit lattice."""
    shp, nd = tuple(c["shp"]), len(c["shp"])
    a = None if c["default"] else g.lattice(c["l"])
    ctx.nt(a is not None)
    ea = np.eye(nd) if a is None else a
    n = int(np.prod(shp))
    k = g.ref({"t": "P", "of": [{"t": "FM", "n": q} for q in shp]})
    made = [(fundamental_stacked_basis_from_shape(shp), False, np.eye(n)), (fundamental_transformed_stacked_basis_from_shape(shp), False, k), (position_basis_from_shape(shp, a), True, np.eye(n))]
    if nd == 3:
        made.append((position_basis_3d_from_shape(shp, a), True, np.eye(n)))
        mom = momentum_basis_3d_from_resolution(shp, None if a is None else tuple(a))
        made.append((mom, True, k))
        made.append((position_basis_3d_from_parent(mom, shp), True, np.eye(n)))
    for b, dx, vec in made:
        ensure(tuple(b.shape) == shp and tuple(b.fundamental_shape) == shp, "built shape")
        close(BasisUtil(b).vectors, vec, "built basis vectors", atol=1e-12)
        if dx:
            close(b.delta_x_stacked, ea, "built lattice", 1e-12)


@st.composite
def timed(draw):
    return {"n": draw(st.integers(1, 12)), "step": draw(st.integers(1, 5)), "off": draw(st.integers(-8, 8)), "T": draw(st.sampled_from([1.0, 0.37, 2e-12, 1e-15, 250.0]))}


@case("C02", timed(), quick=300)
def times_and_fractions(c, ctx):
    """Time and Bloch-fraction samples are the stated sequences; non-trivial: step > 1 or offset."""
    n, step, off, t_end = c["n"], c["step"], c["off"], c["T"]
    ctx.nt(step > 1 or off != 0)
    b = EvenlySpacedTimeBasis(n, step, off, t_end)
    idx = off + step * np.arange(n)
    close(b.times, idx * (t_end / (n * step)), "times", scale=t_end * (1 + abs(off)))
    close(b.dt, t_end / n, "time step", 1e-12)
    close(b.delta_t, t_end, "duration", 1e-12)
    close(b.fundamental_dt, t_end / (n * step), "fundamental time step", 1e-12)
    same_ints(b.nt_points, idx, "time indices")
    ensure(b.n == n and b.fundamental_n == n * step, "time basis sizes")
    inside = (idx >= 0) & (idx < n * step)
    close(b.times[inside], np.asarray(b.fundamental_times)[idx[inside]], "times are a subset of the fundamental times", scale=t_end)
    f = FundamentalTimeBasis(n, t_end)
    close(f.times, np.arange(n) * (t_end / n), "fundamental times", scale=t_end)
    close(f.fundamental_times, f.times, "fundamental basis has all times", scale=t_end)
    ts = np.cumsum(1.0 + np.arange(n)) * t_end
    e = ExplicitTimeBasis(ts)
    close(e.times, ts, "explicit times")
    close(e.fundamental_times, ts, "explicit fundamental times")
    ensure(e.n == n and e.fundamental_n == n, "explicit time sizes")
    if n > 1:
        close(e.delta_t, ts[1] - ts[0], "explicit time step", 1e-12)
    m = MomentumBasis(ts)
    close(m.k_points, ts, "momentum list")
    ensure(m.n == n, "momentum list size")
    # Bloch fractions: (ndim, n) arrays of sampled cell fractions
    fr = EvenlySpacedBlockFractionBasis(n, step, off)
    allf = -0.5 + np.arange(n * step) / (n * step)
    close(np.asarray(fr.bloch_fractions), allf[idx % (n * step)][None, :], "evenly spaced Bloch fractions", scale=1.0)
    close(np.asarray(FundamentalBlockFractionBasis(n).bloch_fractions), (-0.5 + np.arange(n) / n)[None, :], "Bloch fractions", scale=1.0)
    ensure(fr.ndim == 1 and fr.n == n, "Bloch fraction basis sizes")
    ex = np.arange(3.0 * n).reshape(3, n) / (3 * n)
    x = ExplicitBlockFractionBasis(ex)
    close(x.bloch_fractions, ex, "explicit Bloch fractions")
    ensure(x.ndim == 3 and x.n == n, "explicit Bloch fraction sizes")

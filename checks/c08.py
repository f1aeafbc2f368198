"""C08: potential transformations preserve the potential. Tolerance 1e-9 relative to the largest value."""
from __future__ import annotations

import json
import os
import tempfile
from pathlib import Path

import numpy as np
import scipy.interpolate
from hypothesis import strategies as st

from harness import gen as g
from harness.core import arr, case, close, data, ensure, ro
from surface_potential_analysis.basis.basis import FundamentalPositionBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.potential.conversion import (
    convert_potential_to_basis,
    convert_potential_to_position_basis,
    get_continuous_potential,
    get_potential_derivative,
)
from surface_potential_analysis.potential.plot import get_minimum_path
from surface_potential_analysis.potential.plot_point_potential import get_point_potential_xy_locations
from surface_potential_analysis.potential.point_potential import load_point_potential_json
from surface_potential_analysis.potential.potential import (
    UnevenPotential3dZBasis,
    interpolate_uneven_potential,
    load_potential,
    load_potential_grid_json,
    load_uneven_potential,
    load_uneven_potential_json,
    mock_even_potential,
    normalize_potential,
    truncate_potential,
    undo_truncate_potential,
)

RT = 1e-9


@st.composite
def potentials(draw, max_total=36):
    nd = draw(st.integers(1, 3))
    shp = draw(g.fshapes((nd, nd), max_n=8 if nd == 1 else 5, max_total=max_total, long=100))
    return {
        "shp": shp,
        "l": draw(g.lattices(nd)),
        "b": draw(g.basis_nd(shp, lengths=True)),
        "b1": draw(g.basis_nd(shp, lengths=True)),
        "a": draw(g.arrd()),
        "s": draw(st.integers(0, 999)),
        "T": [draw(st.integers(-3, 3)) for _ in range(nd)],
        "real": draw(st.booleans()),
    }


@case("C08", potentials(), quick=400)
def change_of_basis(c, ctx):
    """Potential re-expressed in another basis of the same cell; non-trivial: different bases."""
    a = g.lattice(c["l"])
    b0, b1 = g.build(c["b"], a), g.build(c["b1"], a)
    ctx.nt(c["b"] != c["b1"])
    r0, r1 = g.ref(c["b"]), g.ref(c["b1"])
    v = ro(arr(c["a"], b0.n, complex_=not c["real"]))
    sc = float(np.abs(v).max()) * 4
    p = {"basis": b0, "data": v}
    out = convert_potential_to_basis(p, b1)
    close(data(out), v @ r0 @ r1.conj().T, "converted potential", RT, scale=sc)
    ensure(out["basis"] == b1, "basis")
    pos = convert_potential_to_position_basis(p)
    close(data(pos), v @ r0, "potential at the sample points", RT, scale=sc)
    close(pos["basis"].delta_x_stacked, a, "lattice kept", 1e-12)
    ensure(tuple(pos["basis"].shape) == tuple(c["shp"]), "number of samples")


@case("C08", potentials(), quick=400)
def continuous_form(c, ctx):
    """Continuous potential vs the trigonometric interpolant: samples, periodicity, derivative; non-trivial: more than one sample on a skew, rotated or hexagonal lattice."""
    a = g.lattice(c["l"])
    nd, shp = len(c["shp"]), c["shp"]
    b = g.build(c["b"], a)
    ctx.nt(np.prod(shp) > 1 and c["l"]["kind"] in ("skew", "rot", "hex"))
    v = ro(arr(c["a"], b.n, complex_=not c["real"]))
    pos = v @ g.ref(c["b"])
    sc = float(np.abs(pos).max()) * 4 + float(np.abs(v).max())
    p = {"basis": b, "data": v}
    fn = get_continuous_potential(p)
    pts = g.gridpts(shp)
    x = np.einsum("ij,ik->jk", a, pts / np.array(shp)[:, None])
    close(fn(x), pos, "continuous potential at the sample points", RT, scale=sc)
    # independent interpolant at random points
    F = np.fft.fftn(pos.reshape(shp)).reshape(-1) / pos.size
    ks = g.gridk(shp)
    rng = np.random.default_rng(c["s"])
    fr = rng.uniform(-2, 2, size=(nd, 5))
    xs = np.einsum("ij,ik->jk", a, fr)
    ph = np.exp(2j * np.pi * np.einsum("ij,ik->jk", ks, fr))
    tol = 1e-8
    close(fn(ro(xs)), F @ ph, "continuous potential between samples", tol, scale=sc)
    shift = np.einsum("ij,i->j", a, np.array(c["T"], dtype=float))
    close(fn(xs + shift[:, None]), F @ ph, "lattice periodic", tol, scale=sc)
    one = fn(xs[:, 0])
    ensure(np.shape(one) == (), "a single point gives a single value")
    close(one, (F @ ph)[0], "single point", tol, scale=sc)
    many = fn(xs.reshape(nd, 5, 1))
    close(many, (F @ ph).reshape(5, 1), "grid of points", tol, scale=sc)
    rec = g.recip(a)
    kc = np.einsum("ij,ik->jk", rec, ks)
    kmax = float(np.abs(kc).max()) + 1e-300
    for ax in range(nd):
        d = get_potential_derivative(p, axis=ax)
        close(d["basis"].delta_x_stacked, a, "lattice of the derivative", 1e-12)
        close(get_continuous_potential(d)(xs), (1j * kc[ax] * F) @ ph, f"derivative along x{ax}", tol, scale=sc * kmax * (pos.size**0.5))
        dp = convert_potential_to_position_basis(d)
        close(data(dp), (1j * kc[ax] * F) @ np.exp(2j * np.pi * np.einsum("ij,ik->jk", ks, pts / np.array(shp)[:, None])), f"derivative at the samples x{ax}", tol, scale=sc * kmax * (pos.size**0.5))
    if np.prod(shp) > 1:
        # the derivative of the continuous function, by differences, for all but the highest frequencies
        h = 1e-5
        e = a[0] / np.linalg.norm(a[0])
        ln = np.linalg.norm(a[0])
        grad = sum(e[ax] * get_continuous_potential(get_potential_derivative(p, axis=ax))(xs) for ax in range(nd))
        num = (fn(xs + h * ln * e[:, None]) - fn(xs - h * ln * e[:, None])) / (2 * h * ln)
        close(grad, num, "gradient vs finite differences", 1e-5, scale=sc * kmax * pos.size)


@st.composite
def truncations(draw):
    nd = draw(st.integers(1, 3))
    return {
        "shp": draw(g.fshapes((nd, nd), max_n=5, max_total=30)),
        "n": draw(st.integers(1, 6)),
        "cut": draw(st.sampled_from([1.0, 2e-17, 3.0, 0.4])),
        "off": draw(st.sampled_from([0.1, 0.02, 0.5, 0.0])),
        "hi": draw(st.sampled_from([0.5, 2.0, 4.0, 20.0])),
        "s": draw(st.integers(0, 999)),
        "default": draw(st.booleans()),
        "cplx": draw(st.booleans()),
        "l": draw(g.lattices(nd)),
    }


@case("C08", truncations(), quick=400)
def truncation(c, ctx):
    """Truncation formula, its limits, and its inverse for every cutoff, order and offset; non-trivial: order above one."""
    a = g.lattice(c["l"])
    b = TupleBasis(*[FundamentalPositionBasis(a[i], n) for i, n in enumerate(c["shp"])])
    n, cut = c["n"], c["cut"]
    kw = {"cutoff": cut, "n": n, "offset": c["off"] * cut}
    if c["default"]:
        n, cut, kw = 1, 2e-17, {}
    off = 0.1 * cut if c["default"] else kw["offset"]
    ctx.nt(n > 1)
    ctx.label(f"n={n}")
    rng = np.random.default_rng(c["s"])
    e = rng.uniform(0.05, c["hi"], size=b.n) * cut
    if c["cplx"]:
        e = e.astype(np.complex128)
    p = {"basis": b, "data": ro(e)}
    t = truncate_potential(p, **kw)
    x = (np.real(e) + off) / cut
    want = cut * np.log1p(x**n) ** (1 / n) - off
    close(data(t), want, "truncated values", 1e-9, scale=float(np.abs(want).max()))
    ensure(t["basis"] == b, "basis kept")
    ensure(np.all(np.real(data(t)) <= np.real(e) + 1e-9 * np.abs(e).max()), "truncation never raises the energy")
    back = undo_truncate_potential(t, **kw)
    # exp(y^n) - 1 loses digits when x^n is small: amplify the tolerance accordingly
    amp = 1e-14 * (1 + 1 / np.minimum(x**n, 1)) * (1 + x**n) / np.minimum(x**n, 1) * 50
    ok = amp < 1e-4
    err = np.abs(data(back) - e)
    ensure(np.all(np.isfinite(data(back)[ok])), "undoing the truncation is finite")
    ensure(np.all(err[ok] <= (amp[ok] + 1e-9) * cut * (x[ok] + 1)), f"undo inverts truncate: errors {err[ok] / cut} for energies {np.real(e[ok]) / cut}")
    ensure(back["basis"] == b, "basis kept by undo")
    nz = normalize_potential({"basis": b, "data": ro(np.real(e) - 3 * cut)})
    close(data(nz), np.real(e) - np.real(e).min(), "shifted minimum", 1e-9, scale=float(np.abs(e).max()))
    close(np.min(data(nz)), 0.0, "minimum is zero", atol=1e-12 * cut)
    ensure(nz["basis"] == b, "basis kept by normalisation")


@st.composite
def unevens(draw):
    return {
        "n": [draw(st.integers(1, 5)), draw(st.integers(1, 5)), draw(st.integers(4, 7))],
        "to": [draw(st.integers(0, 6)), draw(st.integers(0, 6)), draw(st.integers(1, 9))],
        "l": draw(g.lattices(2)),
        "s": draw(st.integers(0, 999)),
        "even": draw(st.booleans()),
        "int": draw(st.booleans()),
    }


def uneven(c):
    a = g.lattice(c["l"])
    rng = np.random.default_rng(c["s"])
    n = c["n"]
    z = (0.4 + np.concatenate([[0], np.cumsum(np.ones(n[2] - 1) if c["even"] else 0.4 + rng.random(n[2] - 1))])) * c["l"]["scale"]
    pts = rng.normal(size=n)
    return a, z, pts


@case("C08", unevens(), quick=250)
def uneven_planes(c, ctx):
    """Fourier resampling in plane and a cubic spline in height; non-trivial: planes unevenly spaced and a finer grid."""
    a, z, pts = uneven(c)
    n = c["n"]
    to = [n[0] + c["to"][0], n[1] + c["to"][1], c["to"][2]]
    ctx.nt(not c["even"] and (c["to"][0] + c["to"][1]) > 0)
    b = TupleBasis(FundamentalPositionBasis(a[0], n[0]), FundamentalPositionBasis(a[1], n[1]), UnevenPotential3dZBasis(z))
    src = {"basis": b, "data": ro(pts).reshape(-1)}
    out = interpolate_uneven_potential(src, tuple(to))
    ensure(tuple(out["basis"].shape) == tuple(to), f"shape {out['basis'].shape}")
    dx = np.zeros((3, 3))
    dx[:2, :2] = a
    dx[2, 2] = z[-1] - z[0]
    close(out["basis"].delta_x_stacked, dx, "lattice", 1e-12)

    def rs(k, m):
        # real trigonometric interpolant: the Nyquist frequency becomes a cosine
        w = np.arange(m)[:, None] * k / m - np.arange(k)[None, :]
        f = [q for q in range(-((k - 1) // 2), (k - 1) // 2 + 1)]
        mat = sum(np.cos(2 * np.pi * q * w / k) for q in f)
        if k % 2 == 0:
            mat = mat + np.cos(np.pi * w)
        return mat / k

    xy = np.einsum("ai,bj,ijk->abk", rs(n[0], to[0]), rs(n[1], to[1]), pts)
    zi = np.linspace(z[0], z[-1], to[2])
    tck = [[scipy.interpolate.splev(zi / z[-1], scipy.interpolate.splrep(z / z[-1], xy[i, j], s=0)) for j in range(to[1])] for i in range(to[0])]
    same = n[0] == to[0] and n[1] == to[1]
    if same or (n[0] % 2 and n[1] % 2):
        close(data(out), np.array(tck), "interpolated values", 1e-7, scale=10.0, flat=True)
    ev = mock_even_potential(src)
    close(data(ev), pts, "mock even potential keeps the values", 1e-14, flat=True)
    ensure(tuple(ev["basis"].shape) == tuple(n), "mock even shape")
    close(ev["basis"].delta_x_stacked[:2, :2], a, "mock even lattice", 1e-12)
    if c["even"]:
        fine = interpolate_uneven_potential(src, (n[0], n[1], 2 * n[2] - 1))
        close(data(fine).reshape(n[0], n[1], -1)[:, :, ::2], pts, "original planes kept", 1e-8, scale=10.0)


@case("C08", unevens(), quick=200)
def files(c, ctx):
    """Potentials read back from files equal what was written; non-trivial: more than one point along several axes."""
    a, z, pts = uneven(c)
    n = c["n"]
    ctx.nt(sum(q > 1 for q in n) >= 2)
    rng = np.random.default_rng(c["s"] + 1)
    if c["int"]:
        pts = np.round(pts * 10).astype(int)
    with tempfile.TemporaryDirectory(dir=os.environ.get("VERIF_SCRATCH")) as tmp:
        d = Path(tmp)
        vec = rng.normal(size=(3, 3))
        (d / "grid.json").write_text(json.dumps({"delta_x0": list(vec[0]), "delta_x1": list(vec[1]), "delta_x2": list(vec[2]), "points": pts.tolist()}))
        out = load_potential_grid_json(d / "grid.json")
        ensure(tuple(out["basis"].shape) == tuple(n), "grid shape")
        close(out["basis"].delta_x_stacked, vec, "grid lattice", 1e-15)
        ensure(np.asarray(out["data"]).ndim == 1, "grid data is flat")
        close(data(out), pts, "grid values", 1e-15, flat=True)
        close(data(convert_potential_to_position_basis({"basis": out["basis"], "data": np.asarray(out["data"])})), pts, "grid usable as a potential", 1e-9, flat=True)
        (d / "uneven.json").write_text(json.dumps({"delta_x0": list(a[0]), "delta_x1": list(a[1]), "z_points": list(z), "points": pts.tolist()}))
        un = load_uneven_potential_json(d / "uneven.json")
        ensure(tuple(un["basis"].shape) == tuple(n), "uneven shape")
        close(un["basis"][2].z_points, z, "uneven heights", 1e-15)
        close(un["basis"][0].delta_x, a[0], "uneven lattice", 1e-15)
        close(un["basis"][1].delta_x, a[1], "uneven lattice", 1e-15)
        ensure(np.asarray(un["data"]).ndim == 1, "uneven data is flat")
        close(data(un), pts, "uneven values", 1e-15, flat=True)
        for name, f, obj in (("p.npy", load_potential, out), ("u.npy", load_uneven_potential, un)):
            np.save(d / name, obj)
            got = f(d / name)
            close(data(got), pts, name, 1e-15, flat=True)
            ensure(tuple(got["basis"].shape) == tuple(n), f"{name}: shape")
        k = n[0] * n[1]
        xs, ys = rng.integers(0, 3, size=k) * 0.5, rng.integers(0, 3, size=k) * 0.25
        pp = {"x_points": list(xs), "y_points": list(ys), "z_points": list(rng.normal(size=k)), "points": list(rng.normal(size=k))}
        (d / "pt.json").write_text(json.dumps(pp))
        got = load_point_potential_json(d / "pt.json")
        for key, val in pp.items():
            close(got[key], val, key, 1e-15)
        loc = get_point_potential_xy_locations(got)
        want = sorted(set(zip(xs.tolist(), ys.tolist())))
        ensure(sorted(map(tuple, loc.T.tolist())) == want, "distinct in-plane locations")


@st.composite
def paths(draw):
    nd = draw(st.integers(2, 3))
    shp = [draw(st.integers(1, 4)) for _ in range(nd)]
    ax = draw(st.integers(-nd, nd - 1))
    k = draw(st.integers(1, 6))
    return {"shp": shp, "ax": ax, "p": [[draw(st.integers(-5, 6)) for _ in range(k)] for _ in range(nd - 1)], "s": draw(st.integers(0, 999))}


@case("C08", paths(), quick=200)
def minimum_path(c, ctx):
    """Lowest point along one axis for each point of a path over the others; non-trivial: several points along the axis."""
    shp, ax = c["shp"], c["ax"] % len(c["shp"])
    ctx.nt(shp[ax] > 1)
    v = np.random.default_rng(c["s"]).normal(size=shp)
    b = TupleBasis(*[FundamentalPositionBasis(np.eye(len(shp))[i], n) for i, n in enumerate(shp)])
    path = ro(np.array(c["p"]))
    out = get_minimum_path({"basis": b, "data": ro(v).reshape(-1)}, path, c["ax"])
    ensure(out.shape == (len(shp), path.shape[1]), "path shape")
    rest = np.delete(out, ax, axis=0)
    ensure(np.array_equal(rest, path), "other coordinates kept")
    other = [n for i, n in enumerate(shp) if i != ax]
    for j in range(path.shape[1]):
        line = np.moveaxis(v, ax, -1)[tuple(int(q) % m for q, m in zip(path[:, j], other))]
        ensure(0 <= out[ax, j] < shp[ax], "index in range")
        close(line[out[ax, j]], line.min(), "minimum along the axis", 1e-14)

"""C06: operator algebra agrees with matrix algebra in any basis. Tolerance 1e-9 relative to the operands."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from harness import gen as g
from harness.core import arr, case, close, data, ensure, ro
from surface_potential_analysis.basis.basis import FundamentalBasis, FundamentalPositionBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.operator.build import (
    get_displacements_matrix_nx,
    get_displacements_matrix_nx_stacked,
    get_displacements_matrix_x,
    get_displacements_matrix_x_stacked,
    get_displacements_x,
    get_displacements_x_stacked,
    get_total_displacements_matrix_x_stacked,
)
from surface_potential_analysis.operator.conversion import (
    convert_diagonal_operator_list_to_basis,
    convert_diagonal_operator_to_basis,
    convert_operator_list_to_basis,
    convert_operator_to_basis,
)
from surface_potential_analysis.operator.operations import (
    add_list_list,
    apply_operator_to_states,
    get_anti_commutator,
    get_commutator,
    get_commutator_diagonal_operator_list,
    get_commutator_operator_list,
    matmul_diagonal_list_operator,
    matmul_list_operator,
    matmul_operator_diagonal_list,
    matmul_operator_list,
    scale_operator,
    scale_operator_list,
    subtract_list_list,
)
from surface_potential_analysis.operator.operator import (
    add_operator,
    apply_operator_to_state,
    as_diagonal_operator,
    as_operator,
    average_eigenvalues,
    average_eigenvalues_list,
    get_eigenvalue,
    matmul_operator,
    subtract_operator,
    sum_diagonal_operator_over_axes,
)
from surface_potential_analysis.operator import operator_list as ol
from surface_potential_analysis.state_vector.eigenstate_calculation import (
    calculate_expectation,
    calculate_expectation_diagonal,
    calculate_expectation_list,
    calculate_operator_inner_product,
)
from surface_potential_analysis.state_vector.plot import get_periodic_x_operator
from surface_potential_analysis.state_vector.state_vector import as_dual_vector

RT = 1e-9


def mats(c, k, n, m):
    """k seeded matrices (k, n, m)."""
    a = arr(c["a"], (k, n, m))
    rng = np.random.default_rng(c["s"])
    if k > 1:
        a = a.copy()
        a[1:] += rng.normal(size=(k - 1, n, m)) + 1j * rng.normal(size=(k - 1, n, m))
    return a


def op(m, b0, b1):
    return {"basis": TupleBasis(b0, b1), "data": ro(m).reshape(-1)}


def lst(m, b0, b1):
    return {"basis": TupleBasis(FundamentalBasis(m.shape[0]), TupleBasis(b0, b1)), "data": ro(m).reshape(-1)}


def dense(m, r0, r1):
    return r0.T @ m @ r1.conj()


def coef(d, r0, r1):
    return r0.conj() @ d @ r1.T


def conv(m, r0, r1, q0, q1):
    """Matrix m in bases (r0, r1) re-expressed in (q0, q1)."""
    return coef(dense(m, r0, r1), q0, q1)


def check(o, m, b0, b1, what, sc):
    close(data(o), m, what, RT, scale=sc, flat=True)
    ensure(np.asarray(o["data"]).ndim == 1, f"{what}: operator data is flat")
    ensure(tuple(o["basis"].shape) == (b0.n, b1.n), f"{what}: shape {o['basis'].shape}")
    ensure(o["basis"][0] == b0 and o["basis"][1] == b1, f"{what}: basis")


@st.composite
def spaces(draw, nb=2, complete=False, max_total=18):
    nd = draw(st.integers(1, 3))
    shp = draw(g.fshapes((nd, nd), max_n=7 if nd == 1 else 4, max_total=max_total, long=40))
    return {"shp": shp, "b": [draw(g.any_basis(shp, complete)) for _ in range(nb)], "a": draw(g.arrd()), "m": draw(g.counts(1, 4, 24)), "s": draw(st.integers(0, 999))}


@case("C06", spaces(nb=3), quick=400)
def same_space_algebra(c, ctx):
    """Sum, difference, product, commutators and scaling of rectangular or square operators; non-trivial: both sides larger than one."""
    b0, b1, b2 = (g.build(d) for d in c["b"])
    ctx.nt(b0.n > 1 and b1.n > 1)
    x, y = mats(c, 2, b0.n, b1.n)
    z = mats({**c, "s": c["s"] + 1}, 2, b1.n, b2.n)[1 if c["m"] > 1 else 0]
    sc = (1 + np.abs(x).max() * 10) * (1 + np.abs(y).max()) * (1 + np.abs(z).max()) * b1.n
    ox, oy, oz = op(x, b0, b1), op(y, b0, b1), op(z, b1, b2)
    check(add_operator(ox, oy), x + y, b0, b1, "sum", sc)
    check(subtract_operator(ox, oy), x - y, b0, b1, "difference", sc)
    check(matmul_operator(ox, oz), x @ z, b0, b2, "product", sc)
    f = complex(c["m"], 2 - c["s"] % 4)
    check(scale_operator(f, ox), f * x, b0, b1, "scaled", sc * 5)
    p, q = mats({**c, "s": c["s"] + 2}, 2, b0.n, b0.n)
    sc = (1 + np.abs(p).max()) * (1 + np.abs(q).max()) * b0.n
    op_, oq = op(p, b0, b0), op(q, b0, b0)
    cm = get_commutator(op_, oq)
    check(cm, p @ q - q @ p, b0, b0, "commutator", sc)
    check(get_anti_commutator(op_, oq), p @ q + q @ p, b0, b0, "anticommutator", sc)
    check(add_operator(matmul_operator(op_, oq), scale_operator(-1, matmul_operator(oq, op_))), data(cm), b0, b0, "commutator from products", sc)


@case("C06", spaces(nb=4), quick=400)
def change_of_basis(c, ctx):
    """Dense, diagonal and listed operators re-expressed in other bases; non-trivial: source and target differ."""
    b = [g.build(d) for d in c["b"]]
    r = [g.ref(d) for d in c["b"]]
    ctx.nt(c["b"][0] != c["b"][2] or c["b"][1] != c["b"][3])
    k = c["m"]
    m = mats(c, k, b[0].n, b[1].n)
    sc = (1 + np.abs(m).max()) * 4
    to = TupleBasis(b[2], b[3])
    exp = np.array([conv(q, r[0], r[1], r[2], r[3]) for q in m])
    check(convert_operator_to_basis(op(m[0], b[0], b[1]), to), exp[0], b[2], b[3], "operator", sc)
    out = convert_operator_list_to_basis(lst(m, b[0], b[1]), to)
    close(data(out), exp, "operator list", RT, scale=sc, flat=True)
    ensure(tuple(out["basis"][1].shape) == (b[2].n, b[3].n) and out["basis"][0].n == k, "shape of the list")
    n = b[0].n
    dg = m[:, :, 0]
    exp = np.array([conv(np.diag(q), r[0], r[0], r[2], r[3]) for q in dg])
    ob = TupleBasis(b[0], b[0])
    check(convert_diagonal_operator_to_basis({"basis": ob, "data": ro(dg[0])}, to), exp[0], b[2], b[3], "diagonal operator", sc)
    dl = {"basis": TupleBasis(FundamentalBasis(k), ob), "data": ro(dg).reshape(-1)}
    out = convert_diagonal_operator_list_to_basis(dl, to)
    close(data(out), exp, "diagonal operator list", RT, scale=sc, flat=True)
    # dense, diagonal and listed forms
    full = as_operator({"basis": ob, "data": ro(dg[0])})
    check(full, np.diag(dg[0]), b[0], b[0], "as_operator", sc)
    sq = mats({**c, "s": c["s"] + 5}, k, n, n)
    close(data(as_diagonal_operator(op(sq[0], b[0], b[0]))), np.diag(sq[0]), "as_diagonal_operator", 1e-14)
    close(data(as_diagonal_operator(full)), dg[0], "diagonal round trip", 1e-14)
    fl = ol.diagonal_operator_list_as_full(dl)
    close(data(fl), np.array([np.diag(q) for q in dg]), "diagonal_operator_list_as_full", 1e-14, flat=True)
    close(data(ol.operator_list_as_diagonal(fl)), dg, "list diagonal round trip", 1e-14, flat=True)
    close(data(ol.operator_list_as_diagonal(lst(sq, b[0], b[0]))), np.array([np.diag(q) for q in sq]), "operator_list_as_diagonal", 1e-14, flat=True)
    i = c["s"] % k
    check(ol.select_operator(lst(m, b[0], b[1]), i), m[i], b[0], b[1], "select_operator", sc)
    close(data(ol.select_diagonal_operator(dl, i)), dg[i], "select_diagonal_operator", 1e-14)
    close(data(ol.as_diagonal_operator(dl, i)), dg[i], "as_diagonal_operator of a list", 1e-14)
    items = list(ol.operator_list_into_iter(lst(m, b[0], b[1])))
    ensure(len(items) == k, "number of operators")
    for q, e in zip(items, m):
        check(q, e, b[0], b[1], "operator_list_into_iter", sc)
    back = ol.operator_list_from_iter(iter(items[::-1]))
    close(data(back), m[::-1], "operator_list_from_iter", 1e-14, flat=True)
    ensure(tuple(back["basis"].shape) == (k, b[0].n * b[1].n), "basis of the list")


@case("C06", spaces(nb=4, complete=True), quick=400)
def invariants(c, ctx):
    """Trace, Hermiticity, products, expectation values and actions are independent of the basis; non-trivial: two different complete bases."""
    b = [g.build(d) for d in c["b"]]
    r = [g.ref(d) for d in c["b"]]
    ctx.nt(c["b"][0] != c["b"][1])
    n = b[0].n
    p, q = mats(c, 2, n, n)
    p = p + p.conj().T if c["s"] % 2 else p
    sc = (1 + np.abs(p).max()) * (1 + np.abs(q).max()) * n * 4
    one, two = op(p, b[0], b[0]), op(q, b[0], b[0])
    to = TupleBasis(b[1], b[1])
    p1, q1 = convert_operator_to_basis(one, to), convert_operator_to_basis(two, to)
    m1 = data(p1).reshape(n, n)
    close(np.trace(m1), np.trace(p), "trace", RT, scale=sc)
    if c["s"] % 2:
        close(m1, m1.conj().T, "Hermitian in every basis", RT, scale=sc)
    close(data(matmul_operator(p1, q1)), data(convert_operator_to_basis(matmul_operator(one, two), to)), "product of converted", RT, scale=sc)
    close(data(get_commutator(p1, q1)), data(convert_operator_to_basis(get_commutator(one, two), to)), "commutator of converted", RT, scale=sc)
    k = c["m"]
    rng = np.random.default_rng(c["s"])
    v = rng.normal(size=(k, n)) + 1j * rng.normal(size=(k, n))
    dv = v @ r[2]  # position amplitudes of the states, given in basis 2
    dp = dense(p, r[0], r[0])
    exp = np.einsum("ki,ij,kj->k", dv.conj(), dp, dv)
    sc = (1 + np.abs(p).max()) * n * float(np.abs(v).max()) ** 2 * n
    states = {"basis": TupleBasis(FundamentalBasis(k), b[2]), "data": ro(v).reshape(-1)}
    for o in (one, p1):
        got = calculate_expectation_list(o, states)
        close(data(got), exp, "expectation values", RT, scale=sc)
        close(calculate_expectation(o, {"basis": b[2], "data": ro(v[0])}), exp[0], "expectation value", RT, scale=sc)
    dg = ro(p[0])
    close(
        calculate_expectation_diagonal({"basis": TupleBasis(b[0], b[0]), "data": dg}, {"basis": b[2], "data": ro(v[0])}),
        np.sum(np.abs(dv[0] @ r[0].conj().T) ** 2 * dg),
        "diagonal expectation",
        RT,
        scale=sc,
    )
    u, w = (rng.normal(size=n) + 1j * rng.normal(size=n) for _ in range(2))
    got = calculate_operator_inner_product(as_dual_vector({"basis": b[0], "data": ro(u)}), one, {"basis": b[0], "data": ro(w)})
    close(got, u.conj() @ p @ w, "matrix element", RT, scale=sc)
    # action on states given in any basis; results are normalised with the norm as eigenvalue
    rect = op(mats({**c, "s": c["s"] + 3}, 2, n, n)[1] + np.eye(n), b[3], b[0])
    mat = data(rect).reshape(n, n)
    out = (dv @ r[0].conj().T) @ mat.T
    norms = np.linalg.norm(out, axis=1)
    if np.all(norms > 1e-6):
        got = apply_operator_to_states(rect, states)
        ensure(got["basis"][1] == b[3] and tuple(got["basis"].shape) == (k, n), "basis of the image")
        close(got["eigenvalue"], norms, "norms of the images", RT)
        close(data(got).reshape(k, n) * norms[:, None], out, "images", RT, scale=float(norms.max()))
        s1 = apply_operator_to_state(rect, {"basis": b[2], "data": ro(v[0])})
        close(s1["eigenvalue"], norms[0], "norm of the image", RT)
        close(data(s1) * norms[0], out[0], "image", RT, scale=float(norms.max()))
        ensure(s1["basis"] == b[3], "basis of one image")


@case("C06", spaces(nb=4), quick=400)
def lists_in_mixed_bases(c, ctx):
    """Products and sums of operators with (dense or diagonal) lists whose inner bases differ; non-trivial: bases of different size or kind."""
    b = [g.build(d) for d in c["b"]]
    r = [g.ref(d) for d in c["b"]]
    ctx.nt(c["b"][1] != c["b"][2])
    ctx.label("sizes differ" if b[1].n != b[2].n else "sizes equal")
    k = c["m"]
    a = mats(c, k, b[0].n, b[1].n)
    x = mats({**c, "s": c["s"] + 1}, 2, b[2].n, b[3].n)[1]
    sc = (1 + np.abs(a).max()) * (1 + np.abs(x).max()) * max(q.n for q in b) * 4
    link = r[1].conj() @ r[2].T  # basis 2 coefficients -> basis 1 coefficients
    la, ox = lst(a, b[0], b[1]), op(x, b[2], b[3])

    def chk(o, m, i, j, what):
        close(data(o), m, what, RT, scale=sc, flat=True)
        ensure(o["basis"][0].n == m.shape[0] and tuple(o["basis"][1].shape) == (b[i].n, b[j].n), f"{what}: shape {o['basis'][1].shape}")
        ensure(o["basis"][1][0] == b[i] and o["basis"][1][1] == b[j], f"{what}: basis")

    chk(matmul_list_operator(la, ox), a @ link @ x, 0, 3, "list @ operator")
    one = op(a[0], b[0], b[1])
    lx = mats({**c, "s": c["s"] + 2}, k, b[2].n, b[3].n)
    sc *= 1 + np.abs(lx).max()
    chk(matmul_operator_list(one, lst(lx, b[2], b[3])), np.einsum("ij,jk,mkl->mil", a[0], link, lx), 0, 3, "operator @ list")
    d2 = lx[:, :, 0]
    dl = {"basis": TupleBasis(FundamentalBasis(k), TupleBasis(b[2], b[2])), "data": ro(d2).reshape(-1)}
    chk(matmul_operator_diagonal_list(one, dl), (a[0] @ link)[None] * d2[:, None, :], 0, 2, "operator @ diagonal list")
    back = r[2].conj() @ r[0].T
    chk(matmul_diagonal_list_operator(dl, one), d2[:, :, None] * (back @ a[0])[None], 2, 1, "diagonal list @ operator")
    other = lst(lx, b[2], b[3])
    cv = np.array([conv(m, r[2], r[3], r[0], r[1]) for m in lx])
    chk(add_list_list(la, other), a + cv, 0, 1, "sum of lists")
    chk(subtract_list_list(la, other), a - cv, 0, 1, "difference of lists")
    f = 0.5 - 1j * c["m"]
    chk(scale_operator_list(f, la), f * a, 0, 1, "scaled list")
    # commutators: the list is in another basis than the operator
    h = mats({**c, "s": c["s"] + 3}, 2, b[0].n, b[0].n)[1]
    sq = mats({**c, "s": c["s"] + 4}, k, b[2].n, b[2].n)
    oh, ls = op(h, b[0], b[0]), lst(sq, b[2], b[2])
    inh = np.array([conv(m, r[2], r[2], r[0], r[0]) for m in sq])
    sc = (1 + np.abs(h).max()) * (1 + np.abs(sq).max()) * max(q.n for q in b) * 8
    chk(get_commutator_operator_list(oh, ls), h @ inh - inh @ h, 0, 0, "commutator with a list")
    hl = h @ r[0].conj() @ r[2].T  # (0, 2)
    lh = r[2].conj() @ r[0].T @ h  # (2, 0)
    first = hl[None] * d2[:, None, :]
    second = np.array([conv(m, r[2], r[0], r[0], r[2]) for m in d2[:, :, None] * lh[None]])
    sc *= 1 + np.abs(d2).max()
    chk(get_commutator_diagonal_operator_list(oh, dl), first - second, 0, 2, "commutator with a diagonal list")


@st.composite
def multi(draw):
    shp = [draw(st.integers(1, 4)) for _ in range(draw(st.integers(1, 3)))]
    nd = len(shp)
    return {"shp": shp, "axes": draw(st.lists(st.integers(0, nd - 1), unique=True, min_size=1, max_size=nd)), "a": draw(g.arrd()), "w": draw(st.booleans()), "k": draw(st.integers(1, 3)), "i": draw(st.integers(0, 100)), "kept": draw(st.booleans())}


@case("C06", multi(), quick=400)
def reductions(c, ctx):
    """Sums and averages of diagonal operators over axes and re-interpretation of a list as one operator; non-trivial: a strict subset of several axes."""
    shp, axes, k = c["shp"], c["axes"], c["k"]
    nd = len(shp)
    ctx.nt(nd > 1 and len(axes) < nd)
    tb = TupleBasis(*[FundamentalBasis(n) for n in shp])
    v = ro(arr(c["a"], (k, *shp)))
    rest = tuple(n for i, n in enumerate(shp) if i not in axes)
    sc = float(np.abs(v).max()) * 64 + 1e-9
    one = {"basis": TupleBasis(tb, tb), "data": v[0].reshape(-1)}
    out = sum_diagonal_operator_over_axes(one, tuple(axes))
    close(data(out), v[0].sum(axis=tuple(axes)), "sum over axes", RT, scale=sc, flat=True)
    ensure(tuple(out["basis"][0].shape) == rest and tuple(out["basis"][1].shape) == rest, "basis of the sum")
    ax, w = (axes[:1], 1.0 + np.arange(shp[axes[0]]) ** 2) if c["w"] else (axes, None)
    exp = v.mean(axis=tuple(1 + i for i in ax)) if w is None else np.tensordot(np.moveaxis(v, 1 + ax[0], -1), w / w.sum(), (-1, 0))
    rest = tuple(n for i, n in enumerate(shp) if i not in ax)
    out = average_eigenvalues(one, tuple(ax), weights=w)
    close(data(out), exp[0], "average", RT, scale=sc, flat=True)
    ensure(tuple(out["basis"][0].shape) == rest, "basis of the average")
    ll = {"basis": TupleBasis(FundamentalBasis(k), TupleBasis(tb, tb)), "data": v.reshape(-1)}
    out = average_eigenvalues_list(ll, tuple(ax), weights=w)
    close(data(out), exp, "average of a list", RT, scale=sc, flat=True)
    ensure(tuple(out["basis"][1][0].shape) == rest and out["basis"][0].n == k, "basis of the averaged list")
    close(data(average_eigenvalues(one)), v[0].mean(), "average over everything", RT, scale=sc, flat=True)
    close(data(average_eigenvalues_list(ll)), v.reshape(k, -1).mean(axis=1), "averages over everything", RT, scale=sc, flat=True)
    i = c["i"] % int(np.prod(shp))
    close(get_eigenvalue(one, i), v[0].reshape(-1)[i], "single eigenvalue", 1e-14)
    fl = ol.as_flat_operator({"basis": TupleBasis(FundamentalBasis(k), tb), "data": v.reshape(-1)})
    ensure(tuple(fl["basis"][0].shape) == (k, *shp), "flat operator basis")
    close(data(fl), v, "flat operator", 1e-14, flat=True)


# ---------------------------------------------------------------- position, displacement operators
def wrap_ok(got, exp, period, what):
    """got equals exp up to whole periods and lies within half a period of zero."""
    got, exp = np.asarray(got), np.asarray(exp)
    close(np.imag(got), np.zeros_like(exp), f"{what}: imaginary part", 1e-9, scale=period)
    got = np.real(got)
    ensure(got.shape == exp.shape, f"{what}: shape {got.shape} vs {exp.shape}")
    ensure(np.all(np.abs(got) <= period / 2 * (1 + 1e-9)), f"{what}: larger than half a period")
    k = (got - exp) / period
    close(k, np.round(k), f"{what}: equal up to whole periods", 1e-8, scale=1.0)


@st.composite
def axis_lattices(draw):
    nd = draw(st.integers(1, 3))
    shp = draw(g.fshapes((nd, nd), max_n=9 if nd == 1 else 5, max_total=36))
    return {
        "shp": shp,
        "l": draw(g.lattices(nd, ("cubic", "ortho"))),
        "b": draw(g.basis_nd(shp, lengths=True, explicit=False)),
        "o": [draw(st.sampled_from([0.0, 0.0, 0.3, -0.7, 1.9, -3.2])) for _ in range(nd)],
        "a": draw(g.arrd()),
        "dir": [draw(st.integers(-3, 3)) for _ in range(nd)],
        "none": draw(st.booleans()),
    }


@case("C06", axis_lattices(), quick=400)
def displacements(c, ctx):
    """Periodic displacement operators and lists on axis-aligned lattices; non-trivial: a non-zero origin or several axes."""
    shp, nd = c["shp"], len(c["shp"])
    a = g.lattice(c["l"])
    b = g.build(c["b"], a)
    ctx.nt(nd > 1 or c["o"] != [0.0] * nd)
    lens = np.diag(a)
    pts = g.gridpts(shp)
    x = pts / np.array(shp)[:, None] * lens[:, None]
    orig = None if c["none"] else tuple(float(o * ln) for o, ln in zip(c["o"], lens))
    offs = (0.0,) * nd if orig is None else orig
    N = pts.shape[1]
    dl = get_displacements_matrix_x_stacked(b, orig)
    ensure(tuple(dl["basis"].shape) == (nd, N * N), "shape of the displacement list")
    m = data(dl).reshape(nd, N, N)
    for i in range(nd):
        wrap_ok(m[i], x[i][:, None] - x[i][None, :] - offs[i], lens[i], f"displacement along axis {i}")
    tot = get_total_displacements_matrix_x_stacked(b, orig)
    close(data(tot).reshape(N, N), np.sqrt(np.sum(np.real(m) ** 2, axis=0)), "total displacement", RT, scale=float(lens.max()))
    ds = get_displacements_x_stacked(b, offs)
    ensure(len(ds) == nd, "one displacement list per axis")
    for i, d in enumerate(ds):
        wrap_ok(data(d), x[i] - offs[i], lens[i], f"displacement from an origin along axis {i}")
        close(d["basis"].delta_x_stacked, a, "lattice kept", 1e-12)
    one = g.build(c["b"]["of"][0], np.array([lens[0]]))
    x0 = np.arange(shp[0]) / shp[0] * lens[0]
    wrap_ok(data(get_displacements_x(one, offs[0])), x0 - offs[0], lens[0], "1d displacement from an origin")
    mm = get_displacements_matrix_x(one, offs[0])
    wrap_ok(data(mm).reshape(shp[0], shp[0]), x0[:, None] - x0[None, :] - offs[0], lens[0], "1d displacement matrix")
    st_nx = get_displacements_matrix_nx_stacked(b)
    ensure(len(st_nx) == nd, "one index displacement per axis")
    for i, q in enumerate(st_nx):
        wrap_ok(q, pts[i][:, None] - pts[i][None, :], shp[i], f"index displacement {i}")
    q = get_displacements_matrix_nx(b)
    wrap_ok(q, np.arange(N)[:, None] - np.arange(N)[None, :], N, "flat index displacement")


@st.composite
def periodic(draw):
    nd = draw(st.integers(1, 3))
    shp = draw(g.fshapes((nd, nd), max_n=7, max_total=30))
    return {"shp": shp, "l": draw(g.lattices(nd)), "b": draw(g.basis_nd(shp, lengths=True)), "dir": [draw(st.integers(-3, 3)) for _ in range(nd)], "none": draw(st.booleans())}


@case("C06", periodic(), quick=300)
def periodic_position_operator(c, ctx):
    """exp(2 pi i n.x / L) on any lattice and basis; non-trivial: a basis other than fundamental position."""
    a = g.lattice(c["l"])
    b = g.build(c["b"], a)
    ctx.nt(any(q["t"] != "F" for q in c["b"]["of"]))
    d = [1] * len(c["shp"]) if c["none"] else c["dir"]
    pts = g.gridpts(c["shp"])
    ph = np.exp(2j * np.pi * sum(di * pts[i] / n for i, (di, n) in enumerate(zip(d, c["shp"]))))
    r = g.ref(c["b"])
    out = get_periodic_x_operator(b, None if c["none"] else tuple(d))
    close(data(out), coef(np.diag(ph), r, r), "periodic position operator", RT, scale=4.0, flat=True)


@case("C06", st.fixed_dictionaries({"n": st.integers(2, 5), "th": st.sampled_from([0.5])}), quick=1, name="known_skew_displacement")
def known_skew_displacement(c, ctx):
    """Total periodic displacement on a rotated square lattice equals the Cartesian distance to the nearest image."""
    n, th = c["n"], c["th"]
    a = np.array([[np.cos(th), np.sin(th)], [-np.sin(th), np.cos(th)]])
    b = TupleBasis(FundamentalPositionBasis(a[0], n), FundamentalPositionBasis(a[1], n))
    pts = g.gridpts((n, n))
    f = (pts[:, :, None] - pts[:, None, :]) / n
    f = f - np.round(f)
    exp = np.linalg.norm(np.einsum("ij,iab->jab", a, f), axis=0)
    close(data(get_total_displacements_matrix_x_stacked(b)).reshape(n * n, -1), exp, "total displacement", 1e-9, scale=1.0)

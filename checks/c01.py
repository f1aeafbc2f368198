"""C01: basis conversion preserves the represented object. Tolerance 1e-9 relative to the input magnitude."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from harness import gen as g
from harness.core import arr, case, close, ensure
from surface_potential_analysis.basis.basis_like import convert_dual_vector, convert_matrix, convert_vector
from surface_potential_analysis.basis.conversion import (
    basis_as_fundamental_basis,
    basis_as_fundamental_momentum_basis,
    basis_as_fundamental_position_basis,
    basis_as_fundamental_transformed_basis,
    basis_as_n_point_basis,
    basis_as_single_point_basis,
)
from surface_potential_analysis.basis.explicit_basis import (
    ExplicitBasis,
    ExplicitBasisWithLength,
    ExplicitStackedBasisWithLength,
)
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.basis.util import BasisUtil
from surface_potential_analysis.state_vector.state_vector_list import get_basis_states
from surface_potential_analysis.stacked_basis.conversion import (
    stacked_basis_as_fundamental_basis,
    stacked_basis_as_fundamental_momentum_basis,
    stacked_basis_as_fundamental_position_basis,
    stacked_basis_as_fundamental_transformed_basis,
    stacked_basis_as_fundamental_with_shape,
)

RT = 1e-9


def mat(m, v, axis):
    """Apply matrix m along axis of v (reference implementation)."""
    return np.moveaxis(np.tensordot(m, v, axes=(1, axis)), 0, axis)


def ro(a):
    a = np.ascontiguousarray(a)
    a.flags.writeable = False
    return a


@st.composite
def conv(draw, max_extra=2, complete=False, nb=2):
    nd = draw(st.integers(1, 3))
    shp = draw(g.fshapes((nd, nd), max_n=12 if nd == 1 else (6 if nd == 2 else 4), max_total=48, long=140))
    bs = [draw(g.any_basis(shp, complete)) for _ in range(nb)]
    extra = draw(st.lists(st.integers(1, 3), min_size=0, max_size=max_extra))
    pos = draw(st.integers(0, len(extra)))
    return {"shp": shp, "b": bs, "extra": extra, "pos": pos, "neg": draw(st.booleans()), "a": draw(g.arrd()), "dt": draw(st.sampled_from(["c", "c", "f"])), "same": draw(st.sampled_from([0, 0, 0, 0, 1]))}


def setup(c):
    d0, d1 = c["b"][0], c["b"][1]
    b0 = g.build(d0)
    b1 = b0 if c["same"] else g.build(d1)
    if c["same"]:
        d1 = d0
    shp = list(c["extra"])
    shp.insert(c["pos"], g.size(d0))
    v = ro(arr(c["a"], shp, complex_=c["dt"] == "c"))
    axis = c["pos"] - len(shp) if c["neg"] else c["pos"]
    return d0, d1, b0, b1, v, axis


def kinds(d):
    return d["t"] + ("(" + ",".join(sorted({q["t"] for q in d["of"]})) + ")" if d["t"] == "P" else "")


def note(c, ctx, d0, d1):
    ctx.nt(d0["t"] != d1["t"] or d0 != d1)
    ctx.label("ndim%d" % len(c["shp"]), "axis-last" if c["pos"] == len(c["extra"]) else "axis-inner")
    ctx.label(f"{d0['t']}->{d1['t']}")


@case("C01", conv(), quick=1500)
def vector_matches_dense_reference(c, ctx):
    """Vector between two random bases of one space along a random axis; non-trivial: the bases differ."""
    d0, d1, b0, b1, v, axis = setup(c)
    note(c, ctx, d0, d1)
    r0, r1 = g.ref(d0), g.ref(d1)
    out = convert_vector(v, b0, b1, axis)
    close(out, mat(r1.conj() @ r0.T, v, axis) if d0 != d1 or not c["same"] else v.astype(complex), "converted vector", RT, scale=float(np.abs(v).max()) * 4)


@case("C01", conv(), quick=600)
def dual_vector_is_conjugate(c, ctx):
    """Dual vectors; non-trivial: the bases differ."""
    d0, d1, b0, b1, v, axis = setup(c)
    note(c, ctx, d0, d1)
    r0, r1 = g.ref(d0), g.ref(d1)
    out = convert_dual_vector(v, b0, b1, axis)
    exp = mat(r1 @ r0.conj().T, v, axis) if d0 != d1 or not c["same"] else v.astype(complex)
    close(out, exp, "converted dual vector", RT, scale=float(np.abs(v).max()) * 4)


@st.composite
def matconv(draw):
    nd = draw(st.integers(1, 2))
    shp = draw(g.fshapes((nd, nd), max_n=8 if nd == 1 else 4, max_total=16, long=40))
    shp2 = draw(g.fshapes((1, 2), max_n=4, max_total=8))
    return {
        "b": [draw(g.any_basis(shp)), draw(g.any_basis(shp)), draw(g.any_basis(shp2)), draw(g.any_basis(shp2))],
        "extra": draw(st.lists(st.integers(1, 3), min_size=0, max_size=1)),
        "perm": draw(st.integers(0, 5)),
        "a": draw(g.arrd()),
    }


@case("C01", matconv(), quick=600)
def matrix_is_two_sided(c, ctx):
    """Matrix with independent row/column bases and chosen axes; non-trivial: both bases change."""
    d = c["b"]
    b = [g.build(q) for q in d]
    base = [g.size(d[0]), g.size(d[2]), *c["extra"]]
    perms = [(0, 1), (1, 0)] if len(base) == 2 else [(0, 1), (1, 0), (0, 2), (2, 0), (1, 2), (2, 1)]
    axes = perms[c["perm"] % len(perms)]
    rest = [i for i in range(len(base)) if i not in axes]
    shp = [0] * len(base)
    shp[axes[0]], shp[axes[1]] = base[0], base[1]
    for i, e in zip(rest, c["extra"]):
        shp[i] = e
    v = ro(arr(c["a"], shp))
    ctx.nt(d[0] != d[1] and d[2] != d[3])
    out = convert_matrix(v, b[0], b[1], b[2], b[3], axes=axes)
    r = [g.ref(q) for q in d]
    exp = mat(r[3] @ r[2].conj().T, mat(r[1].conj() @ r[0].T, v, axes[0]), axes[1])
    close(out, exp, "converted matrix", RT, scale=float(np.abs(v).max()) * 8)


@case("C01", conv(complete=True, nb=3), quick=500)
def complete_round_trip_composition_unitarity(c, ctx):
    """Complete bases: round trip, any intermediate, norm and inner products; non-trivial: three different bases."""
    d0, d1, b0, b1, v, axis = setup({**c, "same": 0, "dt": "c"})
    b2 = g.build(c["b"][2])
    ctx.nt(len({kinds(q) for q in c["b"]}) > 1)
    s = float(np.abs(v).max()) * 4
    direct = convert_vector(v, b0, b2, axis)
    mid = convert_vector(v, b0, b1, axis)
    close(convert_vector(mid, b1, b2, axis), direct, "via intermediate basis", RT, scale=s)
    close(convert_vector(mid, b1, b0, axis), v, "round trip", RT, scale=s)
    close(np.linalg.norm(mid), np.linalg.norm(v), "norm", RT)
    w = np.roll(v, 1, axis=axis) * (1 + 2j)
    wm = convert_dual_vector(np.conj(w), b0, b1, axis)
    close(np.sum(wm * mid), np.sum(np.conj(w) * v), "inner product", RT, atol=1e-9, scale=s * s * v.size)


@case("C01", conv(), quick=500)
def subspace_projection_laws(c, ctx):
    """Into any larger basis and back; linearity and idempotence of projection; non-trivial: lossy target."""
    d0, d1, b0, b1, v, axis = setup({**c, "same": 0, "dt": "c"})
    ctx.nt(g.size(d1) < g.fsize(d1))
    s = float(np.abs(v).max()) * 8
    fund = g.build({"t": "F", "n": g.fsize(d0)})
    close(convert_vector(convert_vector(v, b0, fund, axis), fund, b0, axis), v, "through the fundamental basis", RT, scale=s)
    p1 = convert_vector(v, b0, b1, axis)
    again = convert_vector(convert_vector(p1, b1, fund, axis), fund, b1, axis)
    close(again, p1, "projection idempotent", RT, scale=s)
    w = np.roll(v, 1, axis=axis)
    close(convert_vector((1 - 2j) * v + 3 * w, b0, b1, axis), (1 - 2j) * p1 + 3 * convert_vector(w, b0, b1, axis), "linearity", RT, scale=s * 5)
    ensure(np.linalg.norm(p1) <= np.linalg.norm(v) * (1 + 1e-9) + 1e-12, "projection increased the norm")


def fft_nd(r, d, n_axes_shape):
    """Rows of r in momentum space of the descriptor's own axes."""
    x = r.reshape(r.shape[0], *n_axes_shape)
    return np.fft.fftn(x, axes=tuple(range(1, x.ndim)), norm="ortho").reshape(r.shape[0], -1)


@case("C01", conv(nb=2), quick=500)
def protocol_transforms(c, ctx):
    """Each basis' own into/from position and momentum conversions; non-trivial: basis is not the position basis."""
    d0, _d1, b0, _b1, v, axis = setup({**c, "same": 0, "dt": "c"})
    ctx.nt(d0["t"] != "F")
    r = g.ref(d0)
    inner = d0["of"] if d0["t"] == "X" else d0
    rk = fft_nd(r, d0, g.fshape(inner))
    s = float(np.abs(v).max()) * 8
    close(b0.__into_fundamental__(v, axis), mat(r.T, v, axis), "into position", RT, scale=s)
    close(b0.__into_transformed__(v, axis), mat(rk.T, v, axis), "into momentum", RT, scale=s)
    shp = list(v.shape)
    shp[c["pos"]] = g.fsize(d0)
    f = ro(arr(c["a"], shp))
    s = max(s, float(np.abs(f).max()) * 8)
    close(b0.__from_fundamental__(f, axis), mat(r.conj(), f, axis), "from position", RT, scale=s)
    close(b0.__from_transformed__(f, axis), mat(rk.conj(), f, axis), "from momentum", RT, scale=s)
    ensure(b0.n == g.size(d0) and b0.fundamental_n == g.fsize(d0), "basis sizes")


@case("C01", conv(nb=2), quick=300)
def basis_vectors(c, ctx):
    """Reported basis vectors and basis states, explicit bases made from states; non-trivial: not the position basis."""
    d0 = c["b"][0]
    b0 = g.build(d0)
    ctx.nt(d0["t"] != "F")
    r = g.ref(d0)
    close(BasisUtil(b0).vectors, r, "basis vectors", RT, atol=1e-12)
    states = get_basis_states(b0)
    ensure(states["basis"][0].n == b0.n, "number of basis states")
    close(convert_vector(np.asarray(states["data"]).reshape(b0.n, -1), states["basis"][1], g.build({"t": "F", "n": g.fsize(d0)}), 1), r, "basis states", RT, atol=1e-12)
    for e in (ExplicitBasis.from_basis(b0), ExplicitBasis.from_state_vectors(states)):
        ensure(e.n == b0.n and e.fundamental_n == b0.fundamental_n, "explicit basis sizes")
        close(BasisUtil(e).vectors, r, "explicit basis vectors", RT, atol=1e-12)
        close(e.fundamental_raw_vectors, r, "explicit raw vectors", RT, atol=1e-12)
        close(convert_vector(np.eye(b0.n) * (1 + 0j), b0, e, 1), np.eye(b0.n), "states in their own explicit basis", RT, atol=1e-12)


@st.composite
def lat_basis(draw):
    nd = draw(st.integers(1, 3))
    shp = draw(g.fshapes((nd, nd), max_n=6, max_total=36, long=100))
    return {"b": draw(g.basis_nd(shp, lengths=True)), "l": draw(g.lattices(nd)), "shp": shp, "to": draw(st.lists(st.integers(1, 5), min_size=nd, max_size=nd))}


@case("C01", lat_basis(), quick=300)
def derived_bases(c, ctx):
    """Fundamental position/momentum partners of a basis with lengths span the same space; non-trivial: incomplete or momentum basis."""
    d, a = c["b"], g.lattice(c["l"])
    b = g.build(d, a)
    ctx.nt(any(q["t"] != "F" for q in d["of"]))
    n = int(np.prod(c["shp"]))
    k = [g.dft(int(q)) for q in c["shp"]]
    kron = k[0]
    for q in k[1:]:
        kron = np.kron(kron, q)
    for f, rr, has_dx in (
        (stacked_basis_as_fundamental_basis, np.eye(n), False),
        (stacked_basis_as_fundamental_position_basis, np.eye(n), True),
        (stacked_basis_as_fundamental_transformed_basis, kron, False),
        (stacked_basis_as_fundamental_momentum_basis, kron, True),
    ):
        o = f(b)
        ensure(tuple(o.shape) == tuple(c["shp"]) and tuple(o.fundamental_shape) == tuple(c["shp"]), f"{f.__name__} shape")
        close(BasisUtil(o).vectors, rr, f"{f.__name__} vectors", RT, atol=1e-12)
        if has_dx:
            close(o.delta_x_stacked, a, f"{f.__name__} lattice", 1e-12)
    o = stacked_basis_as_fundamental_with_shape(b, tuple(c["to"]))
    ensure(tuple(o.shape) == tuple(c["to"]), "with_shape shape")
    close(o.delta_x_stacked, a, "with_shape lattice", 1e-12)
    for i, (q, ax) in enumerate(zip(d["of"], b)):
        nn = int(c["shp"][i])
        for f, rr, has_dx in (
            (basis_as_fundamental_basis, np.eye(nn), False),
            (basis_as_fundamental_position_basis, np.eye(nn), True),
            (basis_as_fundamental_transformed_basis, g.dft(nn), False),
            (basis_as_fundamental_momentum_basis, g.dft(nn), True),
        ):
            o = f(ax)
            close(BasisUtil(o).vectors, rr, f"{f.__name__} vectors", RT, atol=1e-12)
            if has_dx:
                close(o.delta_x, a[i], f"{f.__name__} length", 1e-12)
        o = basis_as_n_point_basis(ax.delta_x, n=c["to"][i])
        close(BasisUtil(o).vectors, np.eye(c["to"][i]), "n point basis", RT)
        close(o.delta_x, a[i], "n point length", 1e-12)
        o = basis_as_single_point_basis(ax)
        ensure(o.n == 1 and o.fundamental_n == 1, "single point basis")
        close(o.delta_x, a[i], "single point length", 1e-12)
        e = ExplicitBasisWithLength.from_basis(ax)
        close(e.delta_x, a[i], "explicit basis length", 1e-12)
        close(BasisUtil(e).vectors, g.ref(q), "explicit with length vectors", RT, atol=1e-12)
    e = ExplicitStackedBasisWithLength.from_basis(b)
    close(e.delta_x_stacked, a, "explicit stacked basis lattice", 1e-12)
    close(BasisUtil(e).vectors, g.ref(d), "explicit stacked vectors", RT, atol=1e-12)
    ensure(tuple(e.fundamental_shape) == tuple(c["shp"]), "explicit stacked fundamental shape")


@case("C01", lat_basis(), quick=200)
def nested_products(c, ctx):
    """Product of products (slices of a tensor product) converts like the flat product; non-trivial: 2 or more axes."""
    d = c["b"]
    ctx.nt(len(d["of"]) > 1)
    b = g.build(d)
    nested = TupleBasis(*[b[i : i + 1] for i in range(len(d["of"]))])
    ensure(nested.n == b.n and nested.fundamental_n == b.fundamental_n, "nested sizes")
    r = g.ref(d)
    v = ro(arr({"k": "rand", "s": c["l"]["s"]}, (2, b.n)))
    f = g.build({"t": "F", "n": g.fsize(d)})
    close(convert_vector(v, nested, f, 1), v @ r, "nested product into position", RT)
    close(convert_vector(v, b, nested, 1), v, "flat to nested", RT)

"""C05: state and state-list operations preserve physical content. Tolerance 1e-9 relative to the amplitudes."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from harness import gen as g
from harness.core import arr, case, close, ensure
from surface_potential_analysis.basis.basis import FundamentalBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.state_vector.conversion import (
    convert_state_dual_vector_to_basis,
    convert_state_dual_vector_to_momentum_basis,
    convert_state_dual_vector_to_position_basis,
    convert_state_vector_list_to_basis,
    convert_state_vector_to_basis,
    convert_state_vector_to_momentum_basis,
    convert_state_vector_to_position_basis,
)
from surface_potential_analysis.state_vector.eigenstate_list import get_eigenvalues_list
from surface_potential_analysis.state_vector.state_vector import (
    as_dual_vector,
    as_vector,
    calculate_inner_product,
    calculate_normalization,
)
from surface_potential_analysis.state_vector.state_vector_list import (
    as_state_vector_list,
    average_state_vector,
    calculate_inner_products,
    calculate_inner_products_eigenvalues,
    calculate_inner_products_elementwise,
    get_state_along_axis,
    get_state_dual_vector,
    get_state_vector,
    get_weighted_state_vector,
    state_vector_list_into_iter,
)
from surface_potential_analysis.state_vector.util import get_single_point_state_vector_excact

RT = 1e-9


def ro(a):
    a = np.ascontiguousarray(a)
    a.flags.writeable = False
    return a


def data(x):
    return np.asarray(x["data"]).reshape(-1)


@st.composite
def spaces(draw, nb=2, complete=False, max_total=30):
    nd = draw(st.integers(1, 3))
    shp = draw(g.fshapes((nd, nd), max_n=7 if nd == 1 else 4, max_total=max_total, long=80))
    return {"shp": shp, "b": [draw(g.any_basis(shp, complete)) for _ in range(nb)], "a": draw(g.arrd()), "m": draw(g.counts(1, 5, 40)), "s": draw(st.integers(0, 999))}


@case("C05", spaces(), quick=500)
def change_of_basis(c, ctx):
    """States, dual states and lists re-expressed in another basis; non-trivial: the bases differ."""
    d0, d1 = c["b"]
    b0, b1 = g.build(d0), g.build(d1)
    ctx.nt(d0 != d1)
    r0, r1 = g.ref(d0), g.ref(d1)
    m = c["m"]
    v = ro(arr(c["a"], (m, b0.n)))
    exp = v @ r0 @ r1.conj().T
    sc = float(np.abs(v).max()) * 4
    one = convert_state_vector_to_basis({"basis": b0, "data": v[0]}, b1)
    close(data(one), exp[0], "state", RT, scale=sc)
    ensure(one["basis"].n == b1.n, "basis of the converted state")
    dual = convert_state_dual_vector_to_basis(as_dual_vector({"basis": b0, "data": v[0]}), b1)
    close(data(dual), exp[0].conj(), "dual state", RT, scale=sc)
    ls = convert_state_vector_list_to_basis({"basis": TupleBasis(FundamentalBasis(m), b0), "data": v.reshape(-1)}, b1)
    ensure(tuple(ls["basis"].shape) == (m, b1.n), "list shape")
    close(data(ls), exp, "state list", RT, scale=sc, flat=True)


@st.composite
def with_lengths(draw):
    nd = draw(st.integers(1, 3))
    shp = draw(g.fshapes((nd, nd), max_n=6, max_total=36, long=80))
    return {"shp": shp, "b": draw(g.basis_nd(shp, lengths=True)), "l": draw(g.lattices(nd)), "a": draw(g.arrd())}


@case("C05", with_lengths(), quick=300)
def position_and_momentum(c, ctx):
    """States in position and momentum form on a lattice; non-trivial: the basis is neither complete-position."""
    a = g.lattice(c["l"])
    b = g.build(c["b"], a)
    ctx.nt(any(q["t"] != "F" for q in c["b"]["of"]))
    v = ro(arr(c["a"], b.n))
    pos = v @ g.ref(c["b"])
    mom = pos @ g.ref({"t": "P", "of": [{"t": "FM", "n": n} for n in c["shp"]]}).conj().T
    sc = float(np.abs(v).max()) * 4
    s = {"basis": b, "data": v}
    for f, exp in ((convert_state_vector_to_position_basis, pos), (convert_state_vector_to_momentum_basis, mom)):
        out = f(s)
        close(data(out), exp, f.__name__, RT, scale=sc)
        close(out["basis"].delta_x_stacked, a, "lattice kept", 1e-12)
        ensure(tuple(out["basis"].shape) == tuple(c["shp"]), "fundamental shape")
    du = as_dual_vector(s)
    for f, exp in ((convert_state_dual_vector_to_position_basis, pos), (convert_state_dual_vector_to_momentum_basis, mom)):
        close(data(f(du)), exp.conj(), f.__name__, RT, scale=sc)
    close(calculate_normalization(s), np.sum(np.abs(v) ** 2), "normalisation", RT)
    close(calculate_normalization(convert_state_vector_to_position_basis(s)), np.sum(np.abs(v) ** 2), "normalisation in position", RT)
    close(data(as_vector(du)), v, "double conjugate", 1e-14)


@case("C05", spaces(complete=True, nb=3), quick=400)
def inner_products(c, ctx):
    """Inner products: symmetry, linearity, basis independence, lists in different bases; non-trivial: three bases."""
    b0, b1, b2 = (g.build(d) for d in c["b"])
    ctx.nt(len({str(d) for d in c["b"]}) > 1)
    n, m = b0.n, c["m"]
    x = ro(arr(c["a"], (m, n)))
    rng = np.random.default_rng(c["s"])
    y = ro(rng.normal(size=(m + 1, n)) + 1j * rng.normal(size=(m + 1, n)))
    sc = float(np.abs(x).max() * np.abs(y).max() * n) + 1
    s0, s1 = {"basis": b0, "data": x[0]}, {"basis": b0, "data": y[0]}
    ip = calculate_inner_product(s0, as_dual_vector(s1))
    close(ip, y[0].conj() @ x[0], "inner product", RT, scale=sc)
    close(calculate_inner_product(s1, as_dual_vector(s0)), np.conj(ip), "conjugate symmetry", RT, scale=sc)
    lin = calculate_inner_product({"basis": b0, "data": 2j * x[0] - 3 * y[1]}, as_dual_vector(s1))
    close(lin, 2j * ip - 3 * (y[0].conj() @ y[1]), "linearity", RT, scale=sc * 10)
    in1 = calculate_inner_product(convert_state_vector_to_basis(s0, b1), convert_state_dual_vector_to_basis(as_dual_vector(s1), b1))
    close(in1, ip, "basis independence", RT, scale=sc)
    lx = {"basis": TupleBasis(FundamentalBasis(m), b0), "data": x.reshape(-1)}
    ly = {"basis": TupleBasis(FundamentalBasis(m + 1), b0), "data": y.reshape(-1)}
    exp = x.conj() @ y.T
    for lx_ in (lx, convert_state_vector_list_to_basis(lx, b1)):
        for ly_ in (ly, convert_state_vector_list_to_basis(ly, b2)):
            out = calculate_inner_products(lx_, ly_)
            ensure(tuple(out["basis"].shape) == (m, m + 1), "shape of the inner products")
            close(data(out), exp, "inner products of lists", RT, scale=sc, flat=True)
            top = {"basis": TupleBasis(FundamentalBasis(m), ly_["basis"][1]), "data": data(ly_)[: m * ly_["basis"][1].n]}
            el = calculate_inner_products_elementwise(lx_, top)
            close(data(el), np.diag(exp[:, :m]), "elementwise inner products", RT, scale=sc)
    ev0, ev1 = arr({"k": "rand", "s": c["s"]}, m), arr({"k": "rand", "s": c["s"] + 1}, m + 1)
    w = calculate_inner_products_eigenvalues({**lx, "eigenvalue": ev0}, {**ly, "eigenvalue": ev1})
    close(data(w), ev0.conj()[:, None] * exp * ev1[None, :], "eigenvalue weighted inner products", RT, scale=sc * 20, flat=True)
    e = get_eigenvalues_list({**lx, "eigenvalue": ev0})
    close(data(e), ev0, "eigenvalues of a list", 1e-14)


OPS = ["convert", "select", "rebuild", "reverse", "weighted", "dual", "iter"]


@st.composite
def histories(draw):
    c = draw(spaces(nb=3, complete=True, max_total=20))
    c["ops"] = [[draw(st.sampled_from(OPS)), draw(st.integers(0, 60))] for _ in range(draw(st.integers(1, 8)))]
    return c


@case("C05", histories(), quick=400)
def list_histories(c, ctx):
    """Random sequences of list operations followed by a model of plain vectors in position space; non-trivial: at least three operations including a basis change."""
    bs = [g.build(d) for d in c["b"]]
    rs = [g.ref(d) for d in c["b"]]
    cur, m = 0, c["m"]
    v = arr(c["a"], (m, bs[0].n))
    model = v @ rs[0]
    sc = float(np.abs(v).max()) * 10 + 1
    lst = {"basis": TupleBasis(FundamentalBasis(m), bs[0]), "data": v.reshape(-1).copy()}
    ctx.nt(len(c["ops"]) >= 3 and any(o == "convert" for o, _ in c["ops"]))
    rng = np.random.default_rng(c["s"])
    for op, i in c["ops"]:
        m = model.shape[0]
        ctx.label(op)
        before = data(lst).copy()
        if op == "convert":
            cur = i % 3
            lst = convert_state_vector_list_to_basis(lst, bs[cur])
        elif op == "select":
            one = get_state_vector(lst, i % m - (m if c["s"] % 2 else 0))
            close(data(one) @ rs[cur], model[i % m], "selected state", RT, scale=sc)
        elif op == "dual":
            one = get_state_dual_vector(lst, i % m - (m if c["s"] % 2 else 0))
            close(data(one), data(lst).reshape(m, -1)[i % m].conj(), "selected dual state", 1e-13, scale=sc)
            close(data(as_vector(one)) @ rs[cur], model[i % m], "selected dual state", RT, scale=sc)
        elif op == "iter":
            seen = [data(q) @ rs[cur] for q in state_vector_list_into_iter(lst)]
            close(np.array(seen), model, "iterated states", RT, scale=sc)
        elif op in ("rebuild", "reverse"):
            items = list(state_vector_list_into_iter(lst))
            if op == "reverse":
                items, model = items[::-1], model[::-1]
            else:
                k = i % m
                items, model = items[k:] + [items[k]], np.concatenate([model[k:], model[k : k + 1]])
            items, model = items[:6], model[:6]
            lst = as_state_vector_list(iter(items))
        elif op == "weighted":
            w = rng.normal(size=m) + 1j * rng.normal(size=m)
            one = get_weighted_state_vector(lst, {"basis": lst["basis"][0], "data": w})
            close(data(one) @ rs[cur], w @ model, "weighted sum", RT, scale=sc * m * 4)
        if op not in ("convert", "rebuild", "reverse"):
            close(data(lst), before, "list untouched", 0, atol=0)
        ensure(tuple(lst["basis"].shape) == (model.shape[0], bs[cur].n), "list shape")
        close(data(lst).reshape(model.shape[0], -1) @ rs[cur], model, f"list after {op}", RT, scale=sc)


@st.composite
def multilists(draw):
    nd = draw(st.integers(1, 3))
    shp = [draw(st.integers(1, 4)) for _ in range(nd)]
    axes = draw(st.lists(st.integers(0, nd - 1), unique=True, min_size=1, max_size=nd))
    return {
        "shp": shp,
        "axes": axes,
        "idx": [draw(st.integers(0, n - 1)) for i, n in enumerate(shp) if i not in axes],
        "default": draw(st.booleans()),
        "n": draw(st.integers(1, 4)),
        "a": draw(g.arrd()),
        "w": draw(st.booleans()),
        "flat": draw(st.integers(0, 1000)),
        "wrap": draw(st.lists(st.integers(-6, 9), min_size=nd, max_size=nd)),
    }


@case("C05", multilists(), quick=500)
def multi_dimensional_lists(c, ctx):
    """Lists over several indices: slices, averages, stacked indices; non-trivial: reordered axes or a strict subset."""
    shp, axes, n = c["shp"], c["axes"], c["n"]
    ctx.nt(len(shp) > 1 and (axes != sorted(axes) or len(axes) < len(shp)))
    ctx.label("unsorted" if axes != sorted(axes) else "sorted", "weights" if c["w"] else "plain")
    lb = TupleBasis(*[FundamentalBasis(k) for k in shp])
    v = ro(arr(c["a"], (*shp, n)))
    lst = {"basis": TupleBasis(lb, FundamentalBasis(n)), "data": v.reshape(-1)}
    rest = [i for i in range(len(shp)) if i not in axes]
    at = [0] * len(rest) if c["default"] else c["idx"]
    out = get_state_along_axis(lst, tuple(axes), None if c["default"] else tuple(at))
    sl = [slice(None)] * len(shp)
    for ax, i in zip(rest, at):
        sl[ax] = i
    sub = v[tuple(sl)]
    kept = sorted(axes)
    exp = np.transpose(sub, [kept.index(ax) for ax in axes] + [len(kept)])
    ensure(tuple(out["basis"][0].shape) == exp.shape[:-1], f"list basis of the slice {out['basis'][0].shape} vs {exp.shape[:-1]}")
    ensure(tuple(out["basis"].shape) == (int(np.prod(exp.shape[:-1])), n), "basis of the slice")
    close(data(out), exp, "slice along axes", 1e-14, flat=True)
    # averages over sorted or unsorted axes, weights along one axis
    w = None
    av_axes = axes
    if c["w"]:
        av_axes = axes[:1]
        w = 1.0 + np.arange(shp[av_axes[0]]) ** 2
    avg = average_state_vector(lst, tuple(av_axes), weights=w)
    if w is None:
        exp = v.mean(axis=tuple(av_axes))
    else:
        exp = np.tensordot(np.moveaxis(v, av_axes[0], -1), w / w.sum(), axes=(-1, 0))
    ensure(tuple(avg["basis"][0].shape) == exp.shape[:-1], "list basis of the average")
    close(data(avg), exp, "average", RT, scale=float(np.abs(v).max()), flat=True)
    jw = ro(1.0 + np.arange(v.size).reshape(v.shape) % 7)
    try:
        got = data(average_state_vector(lst, tuple(axes), weights=jw))
    except (TypeError, ValueError, NotImplementedError):
        pass  # refusing joint weights is fine, dropping them is not
    else:
        close(got, (jw * v).sum(axis=tuple(axes)) / jw.sum(axis=tuple(axes)), "jointly weighted average", RT, scale=float(np.abs(v).max()), flat=True)
    if c["default"]:
        close(data(average_state_vector(lst)), v.reshape(-1, n).mean(axis=0), "average over everything", RT, scale=float(np.abs(v).max()))
    fl = c["flat"] % int(np.prod(shp))
    close(data(get_state_vector(lst, fl)), v.reshape(-1, n)[fl], "flat index", 1e-14)
    wr = tuple(c["wrap"])
    close(data(get_state_vector(lst, wr)), v[tuple(i % k for i, k in zip(wr, shp))], "stacked index (periodic)", 1e-14)


@case("C05", spaces(nb=1), quick=100)
def single_point_states(c, ctx):
    """State localised on one basis element; non-trivial: more than one element."""
    b = g.build(c["b"][0])
    i = c["s"] % b.n
    ctx.nt(b.n > 1)
    s = get_single_point_state_vector_excact(b, i)
    close(data(s), np.eye(b.n)[i], "single point state", 1e-14)
    ensure(s["basis"].n == b.n, "basis")

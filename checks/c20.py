"""C20: occupation probabilities are conserved by every reduction. Tolerance 1e-10 relative to the largest probability."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from harness import gen as g
from harness.core import arr, case, close, data, ensure, ro
from surface_potential_analysis.basis.basis import FundamentalBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.operator.conversion import convert_operator_to_basis
from surface_potential_analysis.probability_vector import conversion as V
from surface_potential_analysis.probability_vector import probability_vector as P
from surface_potential_analysis.state_vector.conversion import convert_state_vector_to_basis
from surface_potential_analysis.state_vector.state_vector_list import get_state_vector

RT = 1e-10


def fundamental(shp):
    return TupleBasis(*[FundamentalBasis(int(n)) for n in shp])


def unique_axes(nd, min_size=0):
    return st.permutations(range(nd)).flatmap(lambda p: st.integers(min_size, nd).map(lambda k: list(p[:k])))


@st.composite
def lists(draw, lengths=False):
    outer = draw(g.fshapes((1, 3), max_n=4, max_total=12, long=60))
    inner = draw(g.fshapes((1, 3), max_n=4, max_total=24, long=60))
    return {
        "outer": outer,
        "inner": inner,
        "b": draw(g.basis_nd(inner, lengths=lengths)),
        "ob": draw(g.basis_nd(outer)),
        "to": draw(g.basis_nd(inner, lengths=lengths)),
        "lat": draw(g.lattices(len(inner))),
        "a": draw(g.arrd()),
        "idx": draw(st.integers(0, 10**6)),
        "oax": draw(unique_axes(len(outer))),
        "iax": draw(unique_axes(len(inner))),
        "sax": draw(unique_axes(len(outer), 1)),
        "s": draw(st.integers(0, 999)),
    }


def same_basis(got, expected, what):
    """A reduced list keeps the very bases of the axes it kept, in their order."""
    ensure(got.ndim == len(expected) and all(p is q for p, q in zip(got, expected)), f"{what}: kept axes {tuple(got.shape)}, expected {[b.n for b in expected]}")


@case("C20", lists(), quick=700)
def from_states(c, ctx):
    """Squared amplitudes of states and lists; selection by flat and stacked index; totals equal squared norms. Non-trivial: two states or more of two points or more."""
    b, ob = g.build(c["b"]), g.build(c["ob"])
    n_o = ob.n
    v = ro(arr(c["a"], (n_o, b.n)))
    exp = np.abs(v) ** 2
    ctx.nt(n_o > 1 and b.n > 1 and np.count_nonzero(exp) > 1)
    sc = float(exp.max(initial=0)) + 1e-300
    one = P.from_state_vector({"basis": b, "data": v[0]})
    ensure(one["basis"] is b, "basis of the probabilities")
    close(data(one), exp[0], "squared amplitudes", RT, scale=sc)
    states = {"basis": TupleBasis(ob, b), "data": v.reshape(-1)}
    lst = P.from_state_vector_list(states)
    ensure(lst["basis"][0] is ob and lst["basis"][1] is b, "basis of the list")
    close(data(lst), exp, "squared amplitudes of a list", RT, scale=sc, flat=True)
    ensure(not np.iscomplexobj(data(lst)) or not data(lst).imag.any(), "real probabilities")
    i = c["idx"] % n_o
    where = tuple(int(q) for q in np.unravel_index(i, ob.shape))
    for idx in (i, where):
        got = P.get_probability(lst, idx)
        ensure(got["basis"] is b, "basis of a selected entry")
        close(data(got), exp[i], f"entry {idx}", RT, scale=sc)
        close(data(got), data(P.from_state_vector(get_state_vector(states, idx))), "entry of the states", RT, scale=sc)
    close(data(P.get_probability(lst)), exp[0], "default entry", RT, scale=sc)
    total = P.sum_probabilities(lst)
    close(data(total), np.linalg.norm(v, axis=1) ** 2, "total probability", 1e-9, scale=sc * b.n)


@case("C20", lists(), quick=900)
def marginals(c, ctx):
    """Sums and means over any axes, slices over list axes; the untouched axes stay in order. Non-trivial: something is removed and something is kept."""
    b, ob = g.build(c["b"]), g.build(c["ob"])
    p = np.abs(arr(c["a"], (ob.n, b.n))) ** 2
    p = ro(p)
    o_sh, i_sh = tuple(ob.shape), tuple(b.shape)
    sc = float(p.max(initial=0)) * b.n * ob.n + 1e-300
    lst = {"basis": TupleBasis(ob, b), "data": ro(p.reshape(-1))}
    one = {"basis": b, "data": p[c["idx"] % ob.n]}
    nd_o, nd_i = len(o_sh), len(i_sh)
    iax, oax = tuple(c["iax"]), tuple(c["oax"])
    ctx.nt(0 < len(iax) < nd_i or 0 < len(oax) < nd_o)
    keep_i = [q for q in range(nd_i) if q not in iax]
    keep_o = [q for q in range(nd_o) if q not in oax]
    # one vector
    got = P.sum_probability(one, iax)
    exp = one["data"].reshape(i_sh)
    for ax in sorted(iax, reverse=True):
        exp = exp.sum(axis=ax)
    if keep_i:
        same_basis(got["basis"], [b[q] for q in keep_i], "sum of one vector")
    close(data(got), exp, f"sum over {iax}", RT, scale=sc, flat=True)
    close(data(got).sum(), one["data"].sum(), "total of a marginal", RT, scale=sc)
    close(data(P.sum_probability(one, None)), one["data"].sum(), "sum over all axes", RT, scale=sc, flat=True)
    # lists
    got = P.sum_probabilities(lst, iax)
    exp = p.reshape(-1, *i_sh)
    for ax in sorted(iax, reverse=True):
        exp = exp.sum(axis=ax + 1)
    ensure(got["basis"][0] is ob, "list axes of a sum")
    if keep_i:
        same_basis(got["basis"][1], [b[q] for q in keep_i], "sum of a list")
    close(data(got), exp, f"list sum over {iax}", RT, scale=sc, flat=True)
    close(data(P.sum_probabilities(lst)), p.sum(axis=1), "sum over every state axis", RT, scale=sc, flat=True)
    # averages
    got = P.average_probabilities(lst)
    ensure(got["basis"] is b, "basis of the overall average")
    close(data(got), p.mean(axis=0), "mean over the list", RT, scale=sc)
    full = p.reshape(*o_sh, b.n)
    w = ro(np.random.default_rng(c["s"] + 1).random(ob.n) + 0.05)
    try:
        got = data(P.average_probabilities(lst, weights=w))
    except NotImplementedError:
        pass  # refusing is fine, dropping the weights is not
    else:
        close(got, w @ p / w.sum(), "weighted mean over the whole list", RT, scale=sc)
    if oax:
        got = P.average_probabilities(lst, oax)
        exp = full
        for ax in sorted(oax, reverse=True):
            exp = exp.mean(axis=ax)
        if keep_o:
            same_basis(got["basis"][0], [ob[q] for q in keep_o], "average")
        ensure(got["basis"][1] is b, "state basis of an average")
        close(data(got), exp, f"mean over {oax}", RT, scale=sc, flat=True)
        ax = oax[0]
        w = ro(np.random.default_rng(c["s"]).random(o_sh[ax]) + 0.05)
        got = P.average_probabilities(lst, (ax,), weights=w)
        exp = np.tensordot(w / w.sum(), full, axes=(0, ax))
        close(data(got), exp, f"weighted mean over {ax}", RT, scale=sc, flat=True)
        ctx.label("weighted")
        # weights which vary jointly over several axes: refusing is fine, dropping them is not
        w = ro(np.random.default_rng(c["s"] + 2).random(full.shape) + 0.05)
        try:
            got = data(P.average_probabilities(lst, oax, weights=w))
        except (TypeError, ValueError, NotImplementedError):
            pass
        else:
            close(got, (w * full).sum(axis=oax) / w.sum(axis=oax), f"jointly weighted mean over {oax}", RT, scale=sc, flat=True)
    # slices of the list
    sax = tuple(c["sax"])
    rest = [q for q in range(nd_o) if q not in sax]
    idx = tuple(int(c["idx"] // (7**q) % o_sh[q]) for q in rest)
    for use in (idx, None):
        got = P.get_probability_along_axis(lst, sax, use)
        sel = full
        for q, i in sorted(zip(rest, idx if use is not None else (0,) * len(rest)), reverse=True):
            sel = np.take(sel, i, axis=q)
        order = np.argsort(np.argsort(sax))
        sel = np.transpose(sel, (*[int(q) for q in order], len(sax)))
        same_basis(got["basis"][0], [ob[q] for q in sax], "slice")
        ensure(got["basis"][1] is b, "state basis of a slice")
        close(data(got), sel, f"slice along {sax} at {use}", RT, scale=sc, flat=True)


@case("C20", lists(lengths=True), quick=500)
def conversions(c, ctx):
    """Probabilities re-expressed in other bases are the same vector's components; occupation of a converted state equals the diagonal of its converted density matrix. Non-trivial: the bases differ."""
    dx = g.lattice(c["lat"])
    b, ob, to = g.build(c["b"], dx), g.build(c["ob"]), g.build(c["to"], dx)
    ctx.nt(c["b"] != c["to"])
    p = ro(np.abs(arr(c["a"], (ob.n, b.n))) ** 2)
    sc = float(p.max(initial=0)) * b.n + 1e-300
    change = g.ref(c["b"]) @ g.ref(c["to"]).conj().T
    one = V.convert_probability_vector_to_basis({"basis": b, "data": p[0]}, to)
    ensure(one["basis"] is to, "basis")
    close(data(one), p[0] @ change, "one vector", 1e-9, scale=sc)
    lst = V.convert_probability_vector_list_to_basis({"basis": TupleBasis(ob, b), "data": ro(p.reshape(-1))}, to)
    ensure(lst["basis"][0] is ob and lst["basis"][1] is to, "basis of a list")
    close(data(lst), p @ change, "list", 1e-9, scale=sc, flat=True)
    pos = V.convert_probability_vector_to_position_basis({"basis": b, "data": p[0]})
    ensure(tuple(pos["basis"].shape) == tuple(b.fundamental_shape), "position basis")
    close(data(pos), p[0] @ g.ref(c["b"]), "position", 1e-9, scale=sc)
    mom = V.convert_probability_vector_to_momentum_basis({"basis": b, "data": p[0]})
    f = [g.dft(int(n)) for n in g.fshape(c["b"])]
    full = f[0]
    for q in f[1:]:
        full = np.kron(full, q)
    close(data(mom), p[0] @ g.ref(c["b"]) @ full.conj().T, "momentum", 1e-9, scale=sc)
    v = ro(arr(c["a"], b.n))
    moved = convert_state_vector_to_basis({"basis": b, "data": v}, to)
    rho = convert_operator_to_basis({"basis": TupleBasis(b, b), "data": ro(np.outer(v, v.conj()).reshape(-1))}, TupleBasis(to, to))
    close(data(P.from_state_vector(moved)), np.diag(data(rho).reshape(to.n, to.n)), "diagonal of the density matrix", 1e-9, scale=float(np.abs(v).max() ** 2) * b.n + 1e-300)

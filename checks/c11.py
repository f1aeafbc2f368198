"""C11: localised states span the same bands, orthonormally. Tolerance 1e-8 for unit-norm states."""
from __future__ import annotations

import builtins
import os
import re
import shutil
import stat

import itertools

import numpy as np
from hypothesis import strategies as st

from checks import c10
from harness import gen as g
from harness.core import case, close, data, ensure, fail, ro, same_ints
from surface_potential_analysis.basis.basis import FundamentalBasis, FundamentalPositionBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.operator.conversion import convert_operator_to_basis
from surface_potential_analysis.stacked_basis.conversion import (
    stacked_basis_as_fundamental_momentum_basis,
    stacked_basis_as_fundamental_position_basis,
)
from surface_potential_analysis.state_vector.conversion import (
    convert_state_vector_list_to_basis,
    convert_state_vector_to_position_basis,
)
from surface_potential_analysis.state_vector.util import (
    get_most_localized_free_state_vectors,
    get_most_localized_state_vectors_from_probability,
    get_single_point_state_vector_excact,
    get_single_point_state_vectors,
)
from surface_potential_analysis.wavepacket.eigenstate_conversion import unfurl_wavepacket
from surface_potential_analysis.wavepacket.get_eigenstate import (
    get_bloch_hamiltonian,
    get_full_bloch_hamiltonian,
    get_full_wannier_hamiltonian,
    get_tight_binding_state,
    get_tight_binding_states,
    get_wannier_basis,
    get_wannier_hamiltonian,
    get_wannier_states,
    get_wavepacket_state_vector,
)
from surface_potential_analysis.wavepacket.localization import (
    Wannier90Options,
    get_evenly_spaced_points,
    get_localization_operator_for_projections,
    get_localization_operator_tight_binding_projections,
    get_localization_operator_wannier90,
    get_localization_operator_wannier90_individual_bands,
    localize_exponential_decay_projection,
    localize_position_operator,
    localize_position_operator_many_band,
    localize_position_operator_many_band_individual,
    localize_single_band_wavepacket_projection,
    localize_single_point_projection,
    localize_tight_binding_projection,
    localize_tightly_bound_wavepacket_idx,
    localize_tightly_bound_wavepacket_max_point,
    localize_tightly_bound_wavepacket_two_point_max,
    localize_wavepacket_gaussian_projection,
    localize_wavepacket_projection,
    localize_wavepacket_wannier90,
)
from surface_potential_analysis.wavepacket.localization._tight_binding import get_wavepacket_two_points
from surface_potential_analysis.wavepacket.localization._projection import (
    get_exponential_state,
    get_gaussian_states,
    get_single_point_state_for_wavepacket,
    get_state_projections_many_band,
)
from surface_potential_analysis.wavepacket.localization._wannier90 import x0_symmetry_op, x0x1_symmetry_op
from surface_potential_analysis.wavepacket.localization_operator import (
    diagonal_localization_operator_as_full,
    get_diagonal_localized_wavepackets,
    get_identity_operator,
    get_localized_hamiltonian_from_eigenvalues,
    get_localized_wavepackets,
    localization_operator_as_diagonal,
)
from surface_potential_analysis.wavepacket.wavepacket import get_wavepacket, get_wavepacket_at_band

RT = 1e-8


def bands(c):
    """A wavepacket list with orthonormal states at every wavevector (arbitrary, not solved) and its dense content."""
    a = g.lattice(c["l"])
    b = g.build(c["b"], a)
    lb = g.build(c["list"])
    nb = min(c["nb"], b.n)
    rng = np.random.default_rng(c["s"])
    d = np.empty((nb, lb.n, b.n), dtype=complex)
    for i in range(lb.n):
        q, _ = np.linalg.qr(rng.normal(size=(b.n, b.n)) + 1j * rng.normal(size=(b.n, b.n)))
        d[:, i] = q[:nb]
    e = rng.normal(size=(nb, lb.n))
    wp = {
        "basis": TupleBasis(TupleBasis(FundamentalBasis(nb), lb), b),
        "data": ro(d.reshape(-1)),
        "eigenvalue": ro(e.reshape(-1).astype(complex)),
    }
    u = d @ g.ref(c["b"])
    lab = c10.labels_of(c["list"])
    psi = np.array([[c10.unfurl_ref(u[j, i], lab[:, i], c["big"], c["m"]) for i in range(lb.n)] for j in range(nb)])
    return a, b, lb, wp, d, e, psi, rng


def semi_unitary(rng, nw, nb):
    q, _ = np.linalg.qr(rng.normal(size=(nb, nb)) + 1j * rng.normal(size=(nb, nb)))
    return q[:nw]


def pos_list(s):
    return data(convert_state_vector_list_to_basis(s, stacked_basis_as_fundamental_position_basis(s["basis"][1]))).reshape(s["basis"][0].n, -1)


def position_of(s):
    return data(convert_state_vector_to_position_basis({"basis": s["basis"], "data": s["data"]}))


def problems(**k):
    return c10.problems(fundamental=True, **k)


@case("C11", problems(), quick=300)
def operators(c, ctx):
    """Applying a localisation operator mixes the bands of each wavevector; non-trivial: at least two bands and wavevectors."""
    a, b, lb, wp, d, e, psi, rng = bands(c)
    nb = d.shape[0]
    nw = int(rng.integers(1, nb + 1))
    ctx.nt(nb > 1 and lb.n > 1)
    ctx.label("square" if nw == nb else "fewer states")
    bb, wb = wp["basis"][0][0], FundamentalBasis(nw)
    u = np.array([semi_unitary(rng, nw, nb) for _ in range(lb.n)])
    op = {"basis": TupleBasis(lb, TupleBasis(wb, bb)), "data": ro(u.reshape(-1))}
    loc = get_localized_wavepackets(wp, op)
    want = np.einsum("kwb,bkx->wkx", u, d)
    ensure(loc["basis"][0][0] == wb and loc["basis"][0][1] == lb and loc["basis"][1] == b, "basis of the localised packets")
    close(data(loc), want.reshape(-1), "localised packets", RT, scale=1.0)
    gram = np.einsum("wkx,vkx->kwv", data(loc).reshape(nw, lb.n, b.n).conj(), data(loc).reshape(nw, lb.n, b.n))
    close(gram, np.broadcast_to(np.eye(nw), gram.shape), "orthonormal at each wavevector", RT)
    if nw == nb:
        back = {"basis": TupleBasis(lb, TupleBasis(bb, wb)), "data": ro(np.conj(np.swapaxes(u, 1, 2)).reshape(-1))}
        close(data(get_localized_wavepackets(loc, back)), d.reshape(-1), "transformed back", RT, scale=1.0)
    ident = get_identity_operator(wp["basis"][0])
    close(data(ident), np.broadcast_to(np.eye(nb), (lb.n, nb, nb)).reshape(-1), "identity", RT)
    ensure(ident["basis"][0].n == lb.n and tuple(ident["basis"][1].shape) == (nb, nb), "shape of the identity operator")
    close(data(get_localized_wavepackets(wp, ident)), d.reshape(-1), "identity localisation", RT, scale=1.0)
    # diagonal operators
    ph = np.exp(2j * np.pi * rng.random((lb.n, nb)))
    db = TupleBasis(lb, bb)
    diag = {"basis": TupleBasis(db, db), "data": ro(ph.reshape(-1))}
    got = get_diagonal_localized_wavepackets(wp, diag)
    close(data(got), (ph.T[:, :, None] * d).reshape(-1), "diagonal localisation", RT, scale=1.0)
    ensure(got["basis"][0][1] == lb and got["basis"][1] == b, "basis of the diagonal localisation")
    full = diagonal_localization_operator_as_full(diag)
    close(data(full), np.einsum("kb,bc->kbc", ph, np.eye(nb)).reshape(-1), "diagonal as full", RT)
    close(data(get_localized_wavepackets(wp, full)), (ph.T[:, :, None] * d).reshape(-1), "full of the diagonal", RT, scale=1.0)
    again = localization_operator_as_diagonal(full)
    close(data(again), ph.reshape(-1), "full as diagonal", RT)
    ensure(tuple(again["basis"][0].shape) == (lb.n, nb), "basis of the diagonal operator")
    # energies
    h = get_localized_hamiltonian_from_eigenvalues(get_bloch_hamiltonian(wp), op)
    hw = np.einsum("kib,bk,kjb->kij", u.conj(), e, u)
    close(data(h), hw.reshape(-1), "Hamiltonian between localised states", RT, scale=float(np.abs(e).max()) * 2)
    h2 = get_wannier_hamiltonian(wp, op)
    close(data(h2), hw.reshape(-1), "Wannier Hamiltonian", RT, scale=float(np.abs(e).max()) * 2)
    ensure(h2["basis"][0] == lb and tuple(h2["basis"][1].shape) == (nw, nw), "basis of the Wannier Hamiltonian")
    if nw == nb:
        for k in range(lb.n):
            close(np.linalg.eigvalsh(data(h).reshape(lb.n, nw, nw)[k]), np.sort(e[:, k]), "spectrum at a wavevector", RT, scale=5.0)


@case("C11", problems(), quick=250)
def wannier_states(c, ctx):
    """Localised states of the whole crystal: orthonormal, same span, translates, Hamiltonian; non-trivial: at least two bands and cells."""
    a, b, lb, wp, d, e, psi, rng = bands(c)
    nb = d.shape[0]
    nw = nb if rng.random() < 0.7 else int(rng.integers(1, nb + 1))
    m, big = c["m"], c["big"]
    full = tuple(int(p * q) for p, q in zip(big, m))
    ctx.nt(nb > 1 and lb.n > 1)
    ctx.label(f"{len(m)}d", "square" if nw == nb else "fewer states", *{q["t"] for q in c["b"]["of"]})
    u = np.array([semi_unitary(rng, nw, nb) for _ in range(lb.n)])
    op = {"basis": TupleBasis(lb, TupleBasis(FundamentalBasis(nw), wp["basis"][0][0])), "data": ro(u.reshape(-1))}
    ws = get_wannier_states(wp, op)
    ensure(tuple(ws["basis"][0].shape) == (nw, lb.n), "shape of the state list")
    c10.check_big_basis(ws["basis"][1], a, big, m)
    w = pos_list(ws)
    close(w.conj() @ w.T, np.eye(nw * lb.n), "orthonormal", RT)
    w0 = np.einsum("kwb,bkx->wkx", u, psi).sum(axis=1) / np.sqrt(lb.n)
    ws_ = w.reshape(nw, lb.n, *full)
    shifts = [np.unravel_index(i, tuple(big)) for i in range(lb.n)]
    for j in range(nw):
        close(ws_[j, 0].reshape(-1), w0[j], "state of the home cell", RT, scale=1.0)
    seen = set()
    for i in range(lb.n):
        hits = [s for s in shifts if all(np.allclose(np.roll(ws_[j, 0], tuple(int(x) * y for x, y in zip(s, m)), axis=tuple(range(len(m)))), ws_[j, i], atol=1e-8) for j in range(nw))]
        ensure(len(hits) >= 1, f"state {i} is not a lattice translate of the home state")
        seen.update(tuple(int(x) for x in s) for s in hits)
    ensure(len(seen) == lb.n, "some lattice translates are missing")
    flat = psi.reshape(nb * lb.n, -1)
    if nw == nb:
        close(w.T @ w.conj(), flat.T @ flat.conj(), "projector onto the bands", RT, scale=1.0)
    wb = get_wannier_basis(wp, op)
    ensure(wb.n == nw * lb.n, "size of the Wannier basis")
    close(wb.__into_fundamental__(np.eye(wb.n, dtype=complex), axis=1), w, "vectors of the Wannier basis", RT, scale=1.0)
    hx = flat.T @ np.diag(e.reshape(-1)) @ flat.conj()
    want = w.conj() @ hx @ w.T
    h = get_full_wannier_hamiltonian(wp, op)
    sc = float(np.abs(e).max()) * 2
    ensure(h["basis"][0].n == wb.n and h["basis"][1].n == wb.n, "basis of the Wannier Hamiltonian")
    close(data(h), want.reshape(-1), "Hamiltonian in the Wannier basis", RT, scale=sc)
    pos = TupleBasis(*[FundamentalPositionBasis(a[i] * big[i], full[i]) for i in range(len(m))])
    if nw == nb:
        close(np.linalg.eigvalsh(data(h).reshape(wb.n, wb.n)), np.sort(e.reshape(-1)), "spectrum", RT, scale=sc)
        hp = convert_operator_to_basis(h, TupleBasis(pos, pos))
        close(data(hp), hx.reshape(-1), "back in position space", RT, scale=sc)
        hb = get_full_bloch_hamiltonian(wp)
        close(hb["data"], e.reshape(-1), "bloch energies", RT, flat=True)


@st.composite
def projections(draw):
    p = draw(problems())
    p["np"] = draw(st.integers(1, max(1, min(p["nb"], g.size(p["b"])))))
    p["pk"] = draw(st.sampled_from(["momentum", "position", "points", "free", "tight"]))
    return p


def polar(amn):
    w, _, vh = np.linalg.svd(amn, full_matrices=False)
    return (w @ vh).T


def tied_choice(u, want, keep, psi, cut):
    """Each band's tight-binding state is cut around a point where it is largest, a tie between cells that rounding
    decides: take the choice that the operator shows, if any of them explains it."""
    if not keep.any() or np.abs(u[keep] - want[keep]).max() < 1e-8:
        return want
    tops = [np.nonzero(np.abs(p[0]) > np.abs(p[0]).max() * (1 - 1e-7))[0] for p in psi]
    cols = [[cut(j, i) for i in t] for j, t in enumerate(tops)]
    if np.prod([float(len(t)) for t in cols]) > 4000:
        return np.where(keep[:, None, None], u, want)
    for choice in itertools.product(*cols):
        gp = np.array(choice)
        got = want.copy()
        for k in np.nonzero(keep)[0]:
            got[k] = polar(psi[:, k].conj() @ gp.T)
            if np.abs(got[k] - u[k]).max() > 1e-8:
                break
        else:
            return got
    return want


@case("C11", projections(), quick=300)
def projection(c, ctx):
    """The projection recipe: the closest orthonormal mixture of bands to the given states at every wavevector; non-trivial: several projections and wavevectors."""
    a, b, lb, wp, d, e, psi, rng = bands(c)
    nb = d.shape[0]
    m, big = c["m"], c["big"]
    full = [int(p * q) for p, q in zip(big, m)]
    npj = c["np"]
    pos = TupleBasis(*[FundamentalPositionBasis(a[i] * big[i], full[i]) for i in range(len(m))])
    ctx.label(c["pk"])
    if c["pk"] == "points":
        shape = tuple(int(rng.integers(1, n + 1)) for n in m)
        if np.prod(shape) > nb:
            shape = (1,) * len(m)
        many = tuple(int(rng.integers(1, n + 1)) for n in full)
        for i, row in enumerate(pos_list(get_evenly_spaced_points(TupleBasis(lb, b), many))):
            at = np.array(np.unravel_index(int(np.argmax(np.abs(row))), tuple(full)))
            idx = np.array(np.unravel_index(i, many))
            ensure(np.all(np.abs(at - np.array(full) * idx / np.array(many)) < 1), f"points are evenly spaced: {at} for {idx} of {many}")
        proj = get_evenly_spaced_points(TupleBasis(lb, b), shape)
        gp = pos_list(proj)
        ensure(tuple(proj["basis"][0].shape) == shape, "shape of the points")
        for i, idx in enumerate(np.ndindex(*shape)):
            at = np.nonzero(np.abs(gp[i]) > 1e-9)[0]
            ensure(len(at) == 1, "each state sits on one point")
            p = np.array(np.unravel_index(at[0], tuple(full)))
            ensure(np.all(np.abs(p - np.array(full) * idx / np.array(shape)) < 1), f"points are evenly spaced: {p} for {idx} of {shape}")
    elif c["pk"] == "free":
        shape = tuple(int(rng.integers(1, n + 1)) for n in m)
        if np.prod(shape) > nb:
            shape = (1,) * len(m)
        proj = get_most_localized_free_state_vectors(TupleBasis(lb, b), shape)
        gp = pos_list(proj)
    elif c["pk"] == "tight":
        proj = get_tight_binding_states(wp)
        gp = pos_list(proj)
    else:
        x = rng.normal(size=(npj, pos.n)) + 1j * rng.normal(size=(npj, pos.n))
        gp = x
        pb = pos
        if c["pk"] == "momentum":
            pb = stacked_basis_as_fundamental_momentum_basis(pos)
            x = x @ g.ref({"t": "P", "of": [{"t": "FM", "n": n} for n in full]}).conj().T
        proj = {"basis": TupleBasis(FundamentalBasis(npj), pb), "data": ro(x.reshape(-1))}
    npj = proj["basis"][0].n
    ctx.nt(npj > 1 and lb.n > 1)
    op = get_localization_operator_tight_binding_projections(wp) if c["pk"] == "tight" else get_localization_operator_for_projections(wp, proj)
    ensure(op["basis"][0] == lb and op["basis"][1][0] == proj["basis"][0] and op["basis"][1][1] == wp["basis"][0][0], "operator basis")
    u = data(op).reshape(lb.n, npj, nb)
    gram = np.einsum("kwb,kvb->kwv", u, u.conj())
    if npj <= nb:
        close(gram, np.broadcast_to(np.eye(npj), gram.shape), "orthonormal mixtures", RT)
    keep = np.ones(lb.n, dtype=bool)
    want = np.zeros_like(u)
    for k in range(lb.n):
        amn = psi[:, k].conj() @ gp.T
        w, s, vh = np.linalg.svd(amn, full_matrices=False)
        if s[min(npj, nb) - 1] < 1e-4 * max(s[0], 1e-12) or s[0] < 1e-9:
            # the closest states are not unique here
            keep[k] = False
            ctx.label("singular overlap")
            continue
        want[k] = (w @ vh).T
    exact = bool(keep.all())
    if c["pk"] == "tight":
        # each band may be cut around any of the points where it is largest: one phase per band and wavevector
        # follows from the cell, so the comparison is made with the choice that the operator shows
        want = tied_choice(u, want, keep, psi, lambda j, i: pos_list(get_tight_binding_states(wp, 0, tuple(int(q) for q in np.unravel_index(i, full))))[j])
    close(u[keep], want[keep], "closest orthonormal states", 1e-7, scale=1.0)
    loc = localize_wavepacket_projection(wp, proj)
    lo = data(loc).reshape(npj, lb.n, -1)
    if c["pk"] != "tight":
        close(lo[:, keep], np.einsum("kwb,bkx->wkx", u, d)[:, keep], "localised packets", RT, scale=1.0)
    if exact:
        # re-projecting the result onto the same states changes nothing
        again = localize_wavepacket_projection(loc, proj)
        if npj <= nb:
            close(data(again), data(loc), "idempotent", 1e-6, scale=1.0)


@st.composite
def singles(draw):
    p = draw(problems())
    p["o"] = [draw(st.integers(-9, 9)) for _ in p["m"]]
    p["g"] = draw(st.booleans())
    p["ang"] = draw(g.floats(-3, 3))
    return p


def one_packet(c):
    a, b, lb, wp, d, e, psi, rng = bands(dict(c, nb=1 + c["s"] % max(1, min(2, g.size(c["b"])))))
    j = c["s"] % d.shape[0]
    return a, b, lb, get_wavepacket(wp, j), d[j], psi[j], rng


def phase_only(new, old, what, unit=True):
    """new (k, x) must be old times a unit phase per wavevector; returns the phases."""
    ov = np.einsum("kx,kx->k", old.conj(), new)
    close(new, ov[:, None] * old, f"{what}: each Bloch state only changes by a factor", RT, scale=1.0)
    if unit:
        close(np.abs(ov), np.ones(len(ov)), f"{what}: modulus of the phases", RT)
    return ov


@case("C11", singles(), quick=250)
def single_band_recipes(c, ctx):
    """Single-band recipes are one phase per wavevector that makes the overlap with the projection positive; non-trivial: several wavevectors."""
    a, b, lb, w, d, psi, rng = one_packet(c)
    m, big = c["m"], c["big"]
    full = tuple(int(p * q) for p, q in zip(big, m))
    ctx.nt(lb.n > 1 and np.prod(m) > 1)
    ctx.label(f"{len(m)}d")
    x = rng.normal(size=int(np.prod(full))) + 1j * rng.normal(size=int(np.prod(full)))
    pos = TupleBasis(*[FundamentalPositionBasis(a[i] * big[i], full[i]) for i in range(len(m))])
    recipes = [
        ("projection", lambda: localize_single_band_wavepacket_projection(w, {"basis": pos, "data": ro(x)}), x),
        ("tight binding", lambda: localize_tight_binding_projection(w), position_of(get_tight_binding_state(w))),
        ("single point", lambda: localize_single_point_projection(w, c["s"] % lb.n), position_of(get_single_point_state_for_wavepacket(w, c["s"] % lb.n))),
        ("gaussian", lambda: localize_wavepacket_gaussian_projection(w), pos_list(get_gaussian_states(w))[0]),
        ("exponential", lambda: localize_exponential_decay_projection(w), position_of(get_exponential_state(w)) * position_of(get_wavepacket_state_vector(w, 0))),
    ]

    def origins(k):
        """The points where a Bloch state is largest: a tie between cells that rounding decides."""
        for i in np.nonzero(np.abs(psi[k]) > np.abs(psi[k]).max() * (1 - 1e-7))[0]:
            yield i, tuple(int(q) for q in np.unravel_index(i, full))

    others = {
        "tight binding": lambda: [position_of(get_tight_binding_state(w, 0, o)) for _, o in origins(0)],
        "single point": lambda: [np.eye(len(x))[i] for i, _ in origins(c["s"] % lb.n)],
        "exponential": lambda: [position_of(get_exponential_state(w, 0, o)) * psi[0] for _, o in origins(0)],
    }
    for name, f, proj in recipes:
        out = f()
        ensure(out["basis"][0] == lb and out["basis"][1] == b, f"{name}: basis")
        ph = phase_only(data(out).reshape(lb.n, b.n), d, name)
        for p in [proj, *(others[name]() if name in others else [])]:
            ov = psi.conj() @ p
            ok = np.abs(ov) > 1e-6 * np.linalg.norm(p)
            got = ph.conj() * ov
            if np.abs(got - np.abs(ov))[ok].max(initial=0) < 1e-7 * (np.abs(ov).max() + 1e-12):
                break
        close(got[ok], np.abs(ov)[ok], f"{name}: overlaps with the projection are positive", 1e-6, scale=float(np.abs(ov).max()) + 1e-12)
        st_ = unfurl_wavepacket(out)
        close(np.linalg.norm(data(st_)), 1.0, f"{name}: norm of the localised state", RT)


@case("C11", singles(), quick=250)
def reference_states(c, ctx):
    """Tight-binding, single-point, gaussian and exponential reference states; non-trivial: several cells and points."""
    a, b, lb, w, d, psi, rng = one_packet(c)
    m, big = c["m"], c["big"]
    nd = len(m)
    full = tuple(int(p * q) for p, q in zip(big, m))
    ctx.nt(lb.n > 1 and np.prod(m) > 1)
    k = c["s"] % lb.n
    x = g.gridpts(full)
    res = np.ravel_multi_index(tuple(x[i] % m[i] for i in range(nd)), tuple(m))
    o = tuple(c["o"])
    for origin in (None, o):
        tb = get_tight_binding_state(w, k, origin) if origin is not None else get_tight_binding_state(w, k)
        p = position_of(tb)
        on = np.abs(p) > 1e-12
        close(p[on], psi[k][on], "values inside the cell", RT, scale=1.0)
        if np.all(np.abs(psi[k]) > 1e-9):
            ensure(on.sum() == np.prod(m) and len(set(res[on])) == np.prod(m), "one point of each kind is kept")
            if origin is None:
                best = [i for i in np.nonzero(on)[0] if np.abs(psi[k][i]) > np.abs(psi[k]).max() - 1e-9]
            else:
                best = [int(np.ravel_multi_index(origin, full, mode="wrap"))]
            good = False
            for i in best:
                dist = np.array([(x[q][on] - x[q][i] + full[q] // 2) % full[q] - full[q] // 2 for q in range(nd)])
                good = good or all(np.all((np.abs(dist[q]) <= m[q] / 2) | (np.abs(dist[q]) == full[q] / 2)) for q in range(nd))
            ensure(good, "the cell kept is centred on the origin")
    nbands = 2
    wl = {
        "basis": TupleBasis(TupleBasis(FundamentalBasis(nbands), lb), b),
        "data": ro(np.array([d, d[:, ::-1]]).reshape(-1)),
    }
    tbs = get_tight_binding_states(wl, k, o)
    pl = pos_list(tbs)
    for j in range(nbands):
        close(pl[j], position_of(get_tight_binding_state(get_wavepacket(wl, j), k, o)), "list of tight-binding states", RT, scale=1.0)
    sp = position_of(get_single_point_state_for_wavepacket(w, k))
    at = np.nonzero(np.abs(sp) > 1e-9)[0]
    ensure(len(at) == 1 and np.abs(psi[k][at[0]]) > np.abs(psi[k]).max() - 1e-9, "single point at the maximum")
    close(sp[at[0]], 1.0, "single point amplitude", RT)

    def centre_of(f):
        """The wrapped origin must be a lattice translate of the one asked for."""
        i = int(np.argmax(np.abs(f)))
        return i

    for name, f in (
        ("gaussian", pos_list(get_gaussian_states(w, o))[0]),
        ("exponential", position_of(get_exponential_state(w, k, o))),
    ):
        close(np.linalg.norm(f), 1.0, f"{name}: norm", RT)
        i = centre_of(f)
        ensure(all((x[q][i] - o[q]) % m[q] == 0 for q in range(nd)), f"{name}: peak at {x[:, i].tolist()}, not at the origin {o}")
        dist = np.array([np.minimum((x[q] - x[q][i]) % full[q], (x[q][i] - x[q]) % full[q]) / m[q] for q in range(nd)])
        r2 = np.round(np.sum(dist**2, axis=0), 9)
        if name == "gaussian":
            want = np.exp(-0.5 * r2)
            close(f, want / np.linalg.norm(want), "gaussian profile", RT, scale=1.0)
        order = np.argsort(r2, kind="stable")
        ensure(np.all(np.diff(np.real(f[order])) <= 1e-9), f"{name}: does not decay with distance")
    ex = position_of(get_exponential_state(w, k))
    i = centre_of(ex)
    xi = int(np.ravel_multi_index(tuple(x[q][i] for q in range(nd)), full))
    ensure(np.abs(psi[k][xi]) > np.abs(psi[k]).max() - 1e-9, "exponential state centred on the maximum")


@case("C11", singles(), quick=250)
def tightly_bound(c, ctx):
    """Fixing the phase at a point: every Bloch state has the requested phase there; non-trivial: several wavevectors."""
    a, b, lb, w, d, psi, rng = one_packet(c)
    m, big = c["m"], c["big"]
    nd = len(m)
    full = tuple(int(p * q) for p, q in zip(big, m))
    ctx.nt(lb.n > 1 and np.prod(m) > 1)
    ctx.label(f"{nd}d")
    flat = c["s"] % int(np.prod(m))
    for idx in (flat, tuple(int(q) for q in np.unravel_index(flat, tuple(m))), tuple(c["o"])):
        p = np.unravel_index(idx, tuple(m)) if isinstance(idx, int) else idx
        at = int(np.ravel_multi_index(tuple(int(q) for q in p), full, mode="wrap"))
        out = localize_tightly_bound_wavepacket_idx(w, idx, c["ang"])
        ph = phase_only(data(out).reshape(lb.n, b.n), d, "localised at a point")
        val = ph * psi[:, at]
        close(val, np.abs(psi[:, at]) * np.exp(1j * c["ang"]), f"phase at point {idx}", RT, scale=1.0)
        ensure(out["basis"][0] == lb and out["basis"][1] == b, "basis")
    if nd >= 2:
        out = localize_tightly_bound_wavepacket_max_point(w, c["ang"])
        ph = phase_only(data(out).reshape(lb.n, b.n), d, "localised at the maximum")
        top = np.nonzero(np.abs(psi[0]) > np.abs(psi[0]).max() - 1e-9)[0]
        err = [float(np.abs(ph * psi[:, i] - np.abs(psi[:, i]) * np.exp(1j * c["ang"])).max()) for i in top]
        ensure(min(err) < 1e-7, f"phases at the maximum differ from the requested angle by {min(err)}")
    if nd == 3:
        out = localize_tightly_bound_wavepacket_two_point_max(w, (0, 0), c["ang"])
        ph = phase_only(data(out).reshape(lb.n, b.n), d, "two points")
        off = (c["o"][0] % 3 - 1, c["o"][1] % 3 - 1)
        for shift in ((0, 0), off):
            p0, p1 = get_wavepacket_two_points(w, shift)
            p = np.abs(psi[0]).reshape(full)
            at0 = np.array([int(q) for q in p0])
            top = np.argwhere(p > p.max() * (1 - 1e-9))
            ensure(np.any(np.all((top - at0) % np.array(m) == 0, axis=1)), f"first point {p0} is not at the maximum {top[0]}")
            ensure((p0[1] - p1[0]) % m[0] == 0 and (p0[0] - p1[1]) % m[1] == 0 and p0[2] == p1[2], f"points {p0} and {p1} are not mirror images")
            for q in (p0, p1):
                ensure(all(abs(q[i] - m[i] * (*shift, 0)[i]) <= m[i] / 2 for i in range(3)), f"point {q} is not in the cell around {shift}")
        top = np.nonzero(np.abs(psi[0]) > np.abs(psi[0]).max() * (1 - 1e-7))[0]
        kinds = {tuple(int(v) % m[i] for i, v in enumerate(np.unravel_index(t, full))) for t in top}
        if len(kinds) > 1:
            ctx.label("several highest points")
            return
        p0, p1 = get_wavepacket_two_points(w)
        r0, r1 = (ph * psi[:, int(np.ravel_multi_index(tuple(int(i) for i in q), full, mode="wrap"))] * np.exp(-1j * c["ang"]) for q in (p0, p1))
        # phases at the two points lie symmetrically about the angle, up to half turns of their difference
        size = np.abs(r0) * np.abs(r1)
        ensure(np.all(np.abs((r0 * r1).imag) <= 1e-7 * size + 1e-12), "the phases at the two points are not symmetric about the angle")
        ensure(np.all(r0.real >= np.abs(r0.imag) * (1 - 1e-6) - 1e-9), "the phase at the first point is more than an eighth of a turn off")


@st.composite
def position_ops(draw):
    p = draw(problems(explicit=False))
    if int(np.prod(p["big"])) * p["nb"] > 12:
        p["big"] = [min(n, 3 if i == 0 else 1) for i, n in enumerate(p["big"])]
        p["list"] = {"t": "P", "of": [{"t": "FM", "n": n} for n in p["big"]]}
        p["nb"] = min(p["nb"], 3)
    return p


@case("C11", position_ops(), quick=60)
def position_operator(c, ctx):
    """Position-operator recipes: orthonormal states in the span of the bands that diagonalise the first coordinate; non-trivial: several wavevectors and bands."""
    a, b, lb, wp, d, e, psi, rng = bands(c)
    nb = d.shape[0]
    m, big = c["m"], c["big"]
    full = tuple(int(p * q) for p, q in zip(big, m))
    ctx.nt(nb > 1 and lb.n > 1)
    x = np.einsum("ij,ik->jk", a * np.array(big)[:, None], g.gridpts(full) / np.array(full)[:, None])[0]
    sc = float(np.abs(x).max()) + 1e-12 * np.abs(a).max()
    ws = [get_wavepacket_at_band(wp, j) for j in range(nb)]

    def check(states, span, what):
        s = np.array(states)
        s = s / np.linalg.norm(s, axis=1)[:, None]
        close(s.conj() @ s.T, np.eye(len(s)), f"{what}: orthonormal", 1e-7)
        close(s.T @ s.conj(), span.T @ span.conj(), f"{what}: same span", 1e-7, scale=1.0)
        xx = s.conj() @ (x[:, None] * s.T)
        close(xx - np.diag(np.diag(xx)), np.zeros_like(xx), f"{what}: diagonal in position", 1e-7, scale=sc)

    first = []
    for j in range(nb):
        out = localize_position_operator(ws[j])
        ensure(len(out) == lb.n, "one packet per wavevector")
        for o in out:
            phase_only(data(o).reshape(lb.n, b.n), d[j], "position operator", unit=False)
        un = [position_of(unfurl_wavepacket(o)) for o in out]
        check(un, psi[j], "single band")
        un = np.array(un) / np.linalg.norm(un, axis=1)[:, None]
        at = np.sum(np.abs(un) ** 2 * x, axis=1)
        pick = int(np.prod(big)) // 4
        first.append(un[np.abs(at - np.sort(at)[pick]) < 1e-6 * sc])
    many = localize_position_operator_many_band(ws)
    ensure(len(many) == nb * lb.n, "number of states")
    check([position_of(s) for s in many], psi.reshape(nb * lb.n, -1), "many bands")
    for s in many:
        close(np.linalg.norm(data(s)), 1.0, "norm", RT)
    ind = localize_position_operator_many_band_individual(ws)
    ensure(len(ind) == nb, "one state per band")
    got = [position_of(s) for s in ind]
    if all(len(f) == 1 for f in first):
        check(got, np.array([f[0] for f in first]), "one state of each band")
    else:
        # states at equal distances are interchangeable
        ctx.label("degenerate position")
        f = np.concatenate(first)
        for s in got:
            s = s / np.linalg.norm(s)
            close(f.T @ (f.conj() @ s), s, "one state of each band: in the span of those at the same distance", 1e-6, scale=1.0)


@case("C11", problems(), quick=200)
def reference_lists(c, ctx):
    """Most localised free states and single points: orthonormal sets with the stated centres; non-trivial: at least two states."""
    a, b, lb, wp, d, e, psi, rng = bands(c)
    m, big = c["m"], c["big"]
    nd = len(m)
    full = tuple(int(p * q) for p, q in zip(big, m))
    basis = TupleBasis(lb, b)
    shape = tuple(int(rng.integers(1, n + 1)) for n in m)
    fs = get_most_localized_free_state_vectors(basis, shape)
    ns = int(np.prod(shape))
    ctx.nt(ns > 1)
    ensure(tuple(fs["basis"][0].shape) == shape, "shape of the free states")
    c10.check_big_basis(fs["basis"][1], a, big, m)
    p = pos_list(fs)
    close(p.conj() @ p.T, np.eye(ns), "free states are orthonormal", RT)
    # evenly occupied momenta, and centred on the fractions of the unit cell
    x = g.gridpts(full)
    lab = np.array([g.freqs(s)[q] for s, q in zip(shape, g.gridpts(shape))])
    kn = [g.freqs(int(s * q)) for s, q in zip(shape, big)]
    kk = np.array([w.ravel() for w in np.meshgrid(*kn, indexing="ij")])
    for i in range(ns):
        cx = [lab[q, i] * m[q] / shape[q] for q in range(nd)]
        ph = sum(kk[q][:, None] * (x[q][None] - cx[q]) / full[q] for q in range(nd))
        want = np.exp(2j * np.pi * ph).sum(axis=0)
        close(p[i], want / np.linalg.norm(want), f"free state {i}", 1e-8, scale=1.0)
    nb = int(rng.integers(1, b.n + 1))
    ps = get_single_point_state_vectors(basis, nb)
    pp = pos_list(ps)
    close(pp @ pp.conj().T, np.eye(nb), "single-point states are distinct points", RT)
    ensure(np.all((np.abs(pp) > 0.5).sum(axis=1) == 1), "each single-point state is one point")
    # a wavepacket's single point, at an origin given in any period
    org = tuple(int(q) for q in rng.integers(-7, 8, size=nd))
    sp = position_of(get_single_point_state_for_wavepacket(get_wavepacket(wp, 0), c["s"] % lb.n, org))
    close(sp, np.eye(sp.size)[int(np.ravel_multi_index(org, full, mode="wrap"))], "single point at an origin", RT)
    # overlaps of two lists
    two = (rng.normal(size=(2, b.n)) + 1j * rng.normal(size=(2, b.n))) * 10.0 ** rng.integers(-9, 3)
    three = rng.normal(size=(3, b.n)) + 1j * rng.normal(size=(3, b.n))
    fb = stacked_basis_as_fundamental_momentum_basis(b)
    got = get_state_projections_many_band({"basis": TupleBasis(FundamentalBasis(2), b), "data": ro(two.reshape(-1))}, {"basis": TupleBasis(FundamentalBasis(3), b), "data": ro(three.reshape(-1))})
    ensure(tuple(got["basis"].shape) == (2, 3), "one overlap per pair of states")
    close(data(got).reshape(2, 3), two.conj() @ three.T, "overlaps of the lists", RT, scale=float(np.abs(two).max()) * b.n)
    full_three = three @ g.ref(c["b"]) @ np.conj(g.ref({"t": "P", "of": [{"t": "FM", "n": q} for q in m]})).T
    got = get_state_projections_many_band({"basis": TupleBasis(FundamentalBasis(2), b), "data": ro(two.reshape(-1))}, {"basis": TupleBasis(FundamentalBasis(3), fb), "data": ro(full_three.reshape(-1))})
    close(data(got).reshape(2, 3), two.conj() @ three.T, "overlaps of lists in two bases", RT, scale=float(np.abs(two).max()) * b.n * 10)
    # reflections of the grid of wavevectors
    ns = tuple(int(q) for q in big)
    flat = np.arange(lb.n)
    kx = np.array(np.unravel_index(flat, ns))
    ax0 = c["s"] % nd
    want = kx.copy()
    want[ax0] = -want[ax0] % ns[ax0]
    ensure(np.array_equal(x0_symmetry_op(flat, ns, ax0), np.ravel_multi_index(tuple(want), ns)), "reflected wavevectors")
    square = (ns[0],) * nd
    flat = np.arange(ns[0] ** nd)
    want = np.array(np.unravel_index(flat, square))
    ax1 = (ax0 + 1) % nd
    want[[ax0, ax1]] = want[[ax1, ax0]]
    ensure(np.array_equal(x0x1_symmetry_op(flat, square, (ax0, ax1)), np.ravel_multi_index(tuple(want), square)), "wavevectors mirrored in the diagonal")
    i0 = c["s"] % b.n
    ex = get_single_point_state_vector_excact(b, i0)
    ensure(ex["basis"] == b, "basis of the exact point")
    close(data(ex), np.eye(b.n)[i0], "exact point", RT)
    # from the average momentum occupation of the lowest bands
    nbs = d.shape[0]
    frs = tuple(rng.random(nbs) for _ in range(nd))
    mp = get_most_localized_state_vectors_from_probability(wp, frs)
    fk = g.ref({"t": "P", "of": [{"t": "FM", "n": n} for n in full]})
    un = psi.sum(axis=1) / np.sqrt(lb.n) @ fk.conj().T
    occ = np.mean(np.abs(un) ** 2, axis=0)
    j = g.gridpts(full)
    ensure(mp["basis"][0].n == nbs, "number of states")
    got = data(mp).reshape(nbs, -1)
    for i in range(nbs):
        want = np.sqrt(occ) * np.exp(-2j * np.pi * sum(frs[q][i] * j[q] / big[q] for q in range(nd)))
        close(got[i], want / np.linalg.norm(want), "state from the occupation", 1e-7, scale=1.0)


# ------------------------------------------------------------------ external tool
_W90 = {"n": 0}


def standin_dir():
    base = os.environ.get("VERIF_SCRATCH")
    if not base:
        fail("no scratch directory")
    bindir = os.path.join(base, f"w90bin-{os.getpid()}")
    exe = os.path.join(bindir, "wannier90.x")
    if not os.path.exists(exe):
        os.makedirs(bindir, exist_ok=True)
        with open(exe, "w") as f:
            f.write(
                '#!/bin/bash\nd="$W90_STANDIN"\n'
                "if [ -f spa.mmn ]; then\n"
                '  n=$(cat "$d/count"); cp spa.win "$d/final.$n"; cp spa.mmn "$d/mmn.$n"; [ -f spa.amn ] && cp spa.amn "$d/amn.$n"\n'
                '  cp "$d/u.$n" spa_u.mat; echo $((n+1)) > "$d/count"\n'
                "else\n"
                '  n=$(cat "$d/count"); cp spa.win "$d/setup.$n"; cp "$d/nnkp" spa.nnkp\nfi\nexit 0\n'
            )
        os.chmod(exe, os.stat(exe).st_mode | stat.S_IXUSR)
    _W90["n"] += 1
    d = os.path.join(base, f"w90-{os.getpid()}-{_W90['n']}")
    os.makedirs(d)
    with open(os.path.join(d, "count"), "w") as f:
        f.write("0")
    return bindir, d


def umat(u):
    """spa_u.mat for u[k, wannier, band], first (band) index fastest."""
    nk, nw, nb = u.shape
    out = ["written by the stand-in", f" {nk} {nb} {nw}", ""]
    for k in range(nk):
        out.append("  0.0  0.0  0.0")
        for w in range(nw):
            for b in range(nb):
                z = u[k, w, b]
                out.append(f" {z.real:.17g}  {z.imag:.17g}")
        out.append("")
    return "\n".join(out)


def neighbours(big, rng):
    """(k1, k2, G): every wavevector with its neighbours along each axis (one-based) and some with extra periods."""
    nd = len(big)
    out = []
    n = int(np.prod(big))
    for i in range(n):
        k = np.array(np.unravel_index(i, tuple(big)))
        for ax in range(nd):
            for s in (1, -1):
                q = k.copy()
                q[ax] += s
                gv = [0, 0, 0]
                r = q % np.array(big)
                # wavevectors are listed in transform order, wrapped into (-1/2, 1/2]
                lab0 = g.freqs(big[ax])[k[ax]]
                lab1 = g.freqs(big[ax])[r[ax]]
                gv[ax] = int((lab0 + s - lab1) // big[ax]) + int(rng.integers(-1, 2)) * int(rng.random() < 0.2)
                out.append((i + 1, int(np.ravel_multi_index(tuple(int(w) for w in r), tuple(big))) + 1, *gv))
    return out


def run_w90(u_list, nn, fn):
    bindir, d = standin_dir()
    with open(os.path.join(d, "nnkp"), "w") as f:
        f.write("File written by the stand-in\n\nbegin nnkpts\n   " + str(max(1, len(nn))) + "\n" + "\n".join("  " + "  ".join(str(q) for q in e) for e in nn) + "\nend nnkpts\n")
    for i, u in enumerate(u_list):
        with open(os.path.join(d, f"u.{i}"), "w") as f:
            f.write(umat(u))
    old_path, old_env, old_input = os.environ["PATH"], os.environ.get("W90_STANDIN"), builtins.input

    def no_input(prompt=""):
        raise RuntimeError(f"the external tool failed: {prompt}")

    os.environ["PATH"] = bindir + os.pathsep + old_path
    os.environ["W90_STANDIN"] = d
    builtins.input = no_input
    try:
        out = fn()
    finally:
        os.environ["PATH"] = old_path
        builtins.input = old_input
        if old_env is None:
            os.environ.pop("W90_STANDIN", None)

    files = {n: open(os.path.join(d, n)).read() for n in os.listdir(d)}
    shutil.rmtree(d)
    read = files.get

    return out, read


def block(text, name):
    got = re.search(rf"begin {name}\s*\n(.*?)\n\s*end {name}", text, re.S)
    ensure(got is not None, f"no {name} block in the .win file")
    return np.array([[float(x) for x in ln.split()] for ln in got.group(1).strip().split("\n")])


@st.composite
def w90s(draw):
    p = draw(problems())
    p["nb"] = min(p["nb"], 3)
    if int(np.prod(p["big"])) > 9:
        p["big"] = [min(n, 3 if i < 2 else 1) for i, n in enumerate(p["big"])]
        p["list"] = {"t": "P", "of": [{"t": "FM", "n": n} for n in p["big"]]}
    p["proj"] = draw(st.sampled_from(["none", "random", "individual"]))
    return p


@case("C11", w90s(), quick=60)
def external_tool(c, ctx):
    """The files exchanged with wannier90 carry the overlaps, projections and lattice of the bands, and the matrices it returns are applied as given; non-trivial: several bands and wavevectors."""
    a, b, lb, wp, d, e, psi, rng = bands(c)
    nb = d.shape[0]
    m, big = c["m"], c["big"]
    nd = len(m)
    full = [int(p * q) for p, q in zip(big, m)]
    nk = lb.n
    ctx.nt(nb > 1 and nk > 1)
    ctx.label(c["proj"], f"{nd}d")
    nn = neighbours(big, rng)
    lab = c10.labels_of(c["list"])
    up = d @ g.ref(c["b"])
    cell = g.gridpts(m)
    ignore = ()
    if c["proj"] == "individual":
        us = [np.exp(2j * np.pi * rng.random((nk, 1, 1))) for _ in range(nb)]
        op, read = run_w90(us, nn, lambda: get_localization_operator_wannier90_individual_bands(wp))
        want = np.zeros((nk, nb, nb), dtype=complex)
        for j in range(nb):
            want[:, j, j] = us[j][:, 0, 0]
        close(data(op), want.reshape(-1), "phases of individual bands", RT)
        ensure(op["basis"][0] == lb and op["basis"][1][0] == wp["basis"][0][0] and op["basis"][1][1] == wp["basis"][0][0], "operator basis")
        close(data(get_localized_wavepackets(wp, op)), np.einsum("kwb,bkx->wkx", want, d).reshape(-1), "localised packets", RT, scale=1.0)
        runs = [(i, up[i : i + 1]) for i in range(nb)]
        ignore = (2,)
    else:
        u = np.array([semi_unitary(rng, nb, nb) for _ in range(nk)])
        if c["proj"] == "random":
            pos = TupleBasis(*[FundamentalPositionBasis(a[i] * big[i], full[i]) for i in range(nd)])
            x = rng.normal(size=(nb, pos.n)) + 1j * rng.normal(size=(nb, pos.n))
            proj = {"basis": TupleBasis(FundamentalBasis(nb), pos), "data": ro(x.reshape(-1))}
        else:
            proj = {"basis": TupleBasis(FundamentalBasis(nb))}
        opts = Wannier90Options(projection=proj)
        op, read = run_w90([u], nn, lambda: get_localization_operator_wannier90(wp, options=opts))
        close(data(op), u.reshape(-1), "matrices read back", RT)
        ensure(op["basis"][0] == lb and op["basis"][1][0] == proj["basis"][0] and op["basis"][1][1] == wp["basis"][0][0], "operator basis")
        if c["s"] % 3 == 0:
            loc, read = run_w90([u], nn, lambda: localize_wavepacket_wannier90(wp, options=opts))
            close(data(loc), np.einsum("kwb,bkx->wkx", u, d).reshape(-1), "localised packets", RT, scale=1.0)
        runs = [(0, up)]
        if c["proj"] == "random":
            lines = [ln for ln in read("amn.0").split("\n")[1:] if ln.strip()]
            same_ints(np.array([int(q) for q in lines[0].split()]), np.array([nb, nk, nb]), "amn header")
            got = np.full((nb, nb, nk), np.nan, dtype=complex)
            for ln in lines[1:]:
                q = ln.split()
                got[int(q[0]) - 1, int(q[1]) - 1, int(q[2]) - 1] = float(q[3]) + 1j * float(q[4])
            close(got, np.einsum("mkx,nx->mnk", psi.conj(), x), "projections file", RT, scale=float(np.abs(x).max()) * 4)
        else:
            ensure(read("amn.0") is None, "no projections file without projections")
    for i, uu in runs:
        n = uu.shape[0]
        for name in (f"setup.{i}", f"final.{i}"):
            win = read(name)
            ensure(win is not None, f"the tool was not run with {name}")
            ensure(("postproc_setup" in win) == name.startswith("setup"), f"postproc flag in {name}")
            ensure(re.search(rf"num_wann\s*=\s*{n}\s", win), "number of states")
            want = np.eye(3)
            want[:nd, :nd] = a * 1e10
            close(block(win, "unit_cell_cart"), want, "cell in Angstrom", 1e-9)
            kp = np.zeros((nk, 3))
            kp[:, :nd] = (lab / np.array(big)[:, None]).T
            close(block(win, "kpoints"), kp, "wavevectors", 1e-12, atol=1e-12)
            mp = re.search(r"mp_grid\s*[:=]\s*(\d+)\s+(\d+)\s+(\d+)", win)
            ensure(mp and [int(q) for q in mp.groups()] == list(big) + [1] * (3 - nd), "grid of wavevectors")
        lines = [ln for ln in read(f"mmn.{i}").split("\n")[1:] if ln.strip()]
        same_ints(np.array([int(q) for q in lines[0].split()]), np.array([n, nk, max(1, len(nn))]), "mmn header")
        at = 1
        for k1, k2, *gv in nn:
            same_ints(np.array([int(q) for q in lines[at].split()]), np.array([k1, k2, *gv]), "mmn entry")
            vals = np.array([[float(q) for q in ln.split()] for ln in lines[at + 1 : at + 1 + n * n]])
            at += 1 + n * n
            got = (vals[:, 0] + 1j * vals[:, 1]).reshape(n, n).T
            gg = [0 if q in ignore else gv[q] for q in range(nd)]
            ph = np.exp(-2j * np.pi * sum(gg[q] * cell[q] / m[q] for q in range(nd)))
            close(got, np.einsum("mx,nx->mn", uu[:, k1 - 1].conj(), uu[:, k2 - 1] * ph), f"overlap {k1} {k2} {gv}", RT, scale=1.0)
        ensure(at == len(lines), "extra overlaps")

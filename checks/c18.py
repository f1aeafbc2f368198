"""C18: overlaps transform and interpolate as Fourier transforms."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from checks.c10 import check_big_basis, labels_of, problems, synth, unfurl_ref
from checks.c15 import quiet
from harness import gen as g
from harness.core import arr, case, close, data, ensure, ro
from surface_potential_analysis.basis.basis import FundamentalBasis, FundamentalPositionBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.overlap import calculation as C
from surface_potential_analysis.overlap import conversion as V
from surface_potential_analysis.overlap import interpolation as P
from surface_potential_analysis.overlap import overlap as O
from surface_potential_analysis.stacked_basis.conversion import (
    stacked_basis_as_fundamental_momentum_basis,
    stacked_basis_as_fundamental_position_basis,
)
from surface_potential_analysis.wavepacket.wavepacket import get_wavepacket


@case("C18", problems(), quick=250)
def wavepackets(c, ctx):
    """Overlap of wavepackets = conj(first) * second at every point of the repeated cell, for pairs, lists and shifts. Non-trivial: two bands or more, two points or more."""
    a, b, lb, wp, u, d, e = synth(c)
    m, big, nb = c["m"], c["big"], c["nb"]
    lab = labels_of(c["list"])
    if len({tuple(int(w) for w in q % np.array(big)) for q in lab.T}) != lb.n:
        ctx.label("repeated wavevector (skipped)")
        return
    n_all = int(np.prod(big))
    psi = np.array([sum(unfurl_ref(u[j, i], lab[:, i], big, m) for i in range(lb.n)) for j in range(nb)]) / np.sqrt(n_all)
    sc = float(np.max(np.abs(psi), initial=0)) ** 2 + 1e-12
    i, j = c["s"] % nb, (c["s"] // 5) % nb
    with quiet():
        out = C.calculate_wavepacket_overlap(get_wavepacket(wp, i), get_wavepacket(wp, j))
        back = C.calculate_wavepacket_overlap(get_wavepacket(wp, j), get_wavepacket(wp, i))
    check_big_basis(out["basis"][0], a, big, m)
    ensure(tuple(out["basis"][1].shape) == (1, 1), "a single overlap")
    close(data(out), psi[i].conj() * psi[j], "overlap", rtol=1e-9, scale=sc)
    close(data(back), data(out).conj(), "overlap of swapped states", rtol=1e-9, scale=sc)
    close(data(out).sum(), np.vdot(psi[i], psi[j]), "overlap at zero momentum", rtol=1e-9, scale=sc * psi.shape[1])
    full = tuple(int(p * q) for p, q in zip(big, m))
    rng = np.random.default_rng(c["s"])
    shift = tuple(int(q) for q in rng.integers(-4, 5, size=len(full)))
    for s in (None, shift):
        with quiet():
            lst = C.calculate_wavepacket_list_overlap(wp) if s is None else C.calculate_wavepacket_list_overlap(wp, shift=s)
        check_big_basis(lst["basis"][0], a, big, m)
        ensure(tuple(lst["basis"][1].shape) == (nb, nb), "all pairs of states")
        moved = psi if s is None else np.roll(psi.reshape(nb, *full), s, axis=tuple(range(1, 1 + len(full)))).reshape(nb, -1)
        close(data(lst), np.einsum("ix,jx->xij", psi.conj(), moved).reshape(-1), f"list overlap, shift {s}", rtol=1e-9, scale=sc)
        pair = O.get_single_overlap(lst, (i, j))
        flat = O.get_single_overlap(lst, i * nb + j)
        for q in (pair, flat):
            close(data(q), psi[i].conj() * moved[j], "selected overlap", rtol=1e-9, scale=sc)
            ensure(q["basis"][0] is lst["basis"][0] and tuple(q["basis"][1].shape) == (1, 1), "basis of the selected overlap")
    pos = lst["basis"][0]
    for s in (0, shift, int(rng.integers(1, 5))):
        sl = C.calculate_state_vector_list_overlap({"basis": TupleBasis(FundamentalBasis(nb), pos), "data": ro(psi.reshape(-1))}, shift=s)
        ensure(sl["basis"][0] is pos and tuple(sl["basis"][1].shape) == (nb, nb), "basis of the overlap of a list")
        moved = np.roll(psi, s, axis=1) if isinstance(s, int) else np.roll(psi.reshape(nb, *full), s, axis=tuple(range(1, 1 + len(full)))).reshape(nb, -1)
        close(data(sl), np.einsum("ix,jx->xij", psi.conj(), moved).reshape(-1), f"overlap of a list of states, shift {s}", rtol=1e-9, scale=sc)
    basis = stacked_basis_as_fundamental_momentum_basis(lst["basis"][0])
    with quiet():
        km = C.calculate_wavepacket_list_overlap(wp, basis=basis)
    ensure(km["basis"][0] is basis, "requested basis")
    pk = psi @ np.conj(g.ref({"t": "P", "of": [{"t": "FM", "n": n} for n in full]})).T
    close(data(km), np.einsum("ik,jk->kij", pk.conj(), pk).reshape(-1), "overlap in another basis", rtol=1e-9, scale=sc * psi.shape[1])
    ctx.nt(nb > 1 and psi.shape[1] > 1)
    ctx.label(f"{len(m)}d", "shifted" if any(shift) else "no shift")


@st.composite
def overlaps(draw, nd=None):
    nd = nd or draw(st.integers(1, 3))
    shp = draw(g.fshapes((nd, nd), max_n=9 if nd == 1 else 5, max_total=60, long=120))
    return {"shp": shp, "l": draw(g.lattices(nd)), "a": draw(g.arrd()), "ns": draw(st.integers(1, 2)), "k": [[draw(g.floats(-8, 8)) for _ in range(3)] for _ in range(draw(st.integers(1, 3)))], "b": draw(g.basis_nd(shp, lengths=True)), "s": draw(st.integers(0, 2**16))}


def states_overlap(c):
    """An overlap with arbitrary data on a position basis."""
    lat = g.lattice(c["l"])
    pos = TupleBasis(*[FundamentalPositionBasis(lat[i], n) for i, n in enumerate(c["shp"])])
    return lat, pos


@case("C18", overlaps(), quick=250)
def transforms(c, ctx):
    """Momentum form = discrete Fourier transform, back and forth exactly; other bases by projection. Non-trivial: two or more points."""
    lat, pos = states_overlap(c)
    n, ns = pos.n, c["ns"]
    d = arr(c["a"], (n, ns, ns))
    ov = {"basis": TupleBasis(pos, TupleBasis(FundamentalBasis(ns), FundamentalBasis(ns))), "data": ro(d.reshape(-1))}
    f = g.ref({"t": "P", "of": [{"t": "FM", "n": q} for q in c["shp"]]})
    mom = V.convert_overlap_to_momentum_basis(ov)
    close(data(mom), np.tensordot(f.conj(), d, axes=(1, 0)).reshape(-1), "momentum form", rtol=1e-9)
    close(np.asarray(mom["basis"][0].delta_x_stacked), lat, "lattice of the momentum form", rtol=1e-12)
    ensure(mom["basis"][1] is ov["basis"][1], "states of the momentum form")
    back = V.convert_overlap_to_position_basis({"basis": mom["basis"], "data": ro(data(mom))})
    close(data(back), d.reshape(-1), "round trip", rtol=1e-9)
    same = V.convert_overlap_to_position_basis(ov)
    close(data(same), d.reshape(-1), "position form of a position form", rtol=1e-12)
    b = g.build(c["b"], lat)
    other = V.convert_overlap_to_basis(ov, b)
    ensure(other["basis"][0] is b, "requested basis")
    close(data(other), np.tensordot(g.ref(c["b"]).conj(), d, axes=(1, 0)).reshape(-1), "overlap in another basis", rtol=1e-9, scale=float(np.linalg.norm(d)) or 1.0)
    fr = g.ref(c["b"])
    pb = V.convert_overlap_to_position_basis({"basis": other["basis"], "data": ro(data(other))})
    close(data(pb), np.tensordot(fr.T, data(other).reshape(b.n, ns, ns), axes=(1, 0)).reshape(-1), "position form", rtol=1e-9, scale=float(np.linalg.norm(d)) or 1.0)
    ctx.nt(n > 1)


def signed(n, wrap):
    return np.array([i - n if wrap and i >= (n + 1) // 2 else i for i in range(n)])


@case("C18", overlaps(nd=3), quick=250)
def interpolation(c, ctx):
    """Interpolated overlap = direct Fourier sum over the cell centred on the origin (third axis from zero); equals the transform at lattice momenta. Non-trivial: two or more points."""
    lat, pos = states_overlap(c)
    shp = c["shp"]
    d = arr(c["a"], tuple(shp))
    # points exactly half a period away have two equally near images: empty for general momenta
    mask = np.ones(shp)
    for ax in (0, 1):
        if shp[ax] % 2 == 0:
            mask[tuple(shp[ax] // 2 if q == ax else slice(None) for q in range(3))] = 0
    single = TupleBasis(FundamentalBasis(1), FundamentalBasis(1))
    n = np.array(np.meshgrid(*[signed(q, ax < 2) for ax, q in enumerate(shp)], indexing="ij")).reshape(3, -1)
    frac = n / np.array(shp)[:, None]
    x = lat.T @ frac
    kf = np.array(c["k"]).T  # (3, nk) fractional momenta
    recip = 2 * np.pi * np.linalg.inv(lat)  # columns are reciprocal vectors
    kc = recip @ kf
    masked = (d * mask).reshape(-1)
    ov = {"basis": TupleBasis(pos, single), "data": ro(masked)}
    expected = np.array([np.sum(masked * np.exp(2j * np.pi * (frac.T @ k))) for k in kf.T])
    sc = float(np.sum(np.abs(d))) or 1.0
    interp = P.get_overlap_momentum_interpolator(ov)
    close(interp(ro(kc)), expected, "interpolated overlap", rtol=1e-8, scale=sc)
    close(interp(ro(kc.reshape(3, -1, 1))), expected.reshape(-1, 1), "interpolated overlap, stacked momenta", rtol=1e-8, scale=sc)
    close(np.asarray(P.get_overlap_momentum_interpolator_k_fractions(ov)(tuple(ro(q) for q in kf))), expected, "interpolated overlap at fractions", rtol=1e-8, scale=sc)
    # at lattice momenta: the transform of the whole data
    ov = {"basis": TupleBasis(pos, single), "data": ro(d.reshape(-1))}
    nk = np.array(np.meshgrid(*[g.freqs(q) for q in shp], indexing="ij")).reshape(3, -1).astype(float)
    full = np.array([np.sum(d.reshape(-1) * np.exp(2j * np.pi * (frac.T @ k))) for k in nk.T])
    got = P.get_overlap_momentum_interpolator(ov)(recip @ nk)
    close(got, full, "interpolation at lattice momenta", rtol=1e-8, scale=sc)
    close(np.asarray(P.get_overlap_momentum_interpolator_k_fractions(ov)(tuple(nk))), full, "fractions at lattice momenta", rtol=1e-8, scale=sc)
    # transform at momentum -k, up to its normalisation
    mom = data(V.convert_overlap_to_momentum_basis(ov)).reshape(shp)
    neg = mom[np.ix_(*[(-np.arange(q)) % q for q in shp])]
    close(got, neg.reshape(-1) * np.sqrt(pos.n), "interpolation and transform", rtol=1e-8, scale=sc)
    ctx.nt(pos.n > 1)
    ctx.label("even" if any(q % 2 == 0 for q in shp) else "odd")


@st.composite
def slabs(draw):
    return {
        "shp": draw(g.fshapes((3, 3), max_n=5, max_total=60)),
        "l2": draw(g.lattices(2)),
        "lz": draw(g.floats(0.5, 3)),
        "a": draw(g.arrd()),
        "k": [[draw(g.floats(-3, 3)) for _ in range(2)] for _ in range(draw(st.integers(1, 3)))],
        "keep": draw(st.one_of(st.none(), st.integers(1, 30))),
        "s": draw(st.integers(0, 2**16)),
    }


@case("C18", slabs(), quick=200)
def flat_interpolation(c, ctx):
    """In-plane interpolation = direct sum with the perpendicular direction summed, keeping the largest terms; angle averages. Non-trivial: several points per layer and layers."""
    shp = c["shp"]
    l2 = g.lattice(c["l2"])
    lat = np.zeros((3, 3))
    lat[:2, :2] = l2
    lat[2, 2] = c["lz"]
    pos = TupleBasis(*[FundamentalPositionBasis(lat[i], n) for i, n in enumerate(shp)])
    d = np.random.default_rng(c["s"]).normal(size=shp) + 1j * arr(c["a"], tuple(shp)).real
    for ax in (0, 1):
        if shp[ax] % 2 == 0:
            d[tuple(shp[ax] // 2 if q == ax else slice(None) for q in range(3))] = 0
    ov = {"basis": TupleBasis(pos, TupleBasis(FundamentalBasis(1), FundamentalBasis(1))), "data": ro(d.reshape(-1).astype(complex))}
    n = np.array(np.meshgrid(*[signed(q, True) for q in shp[:2]], indexing="ij")).reshape(2, -1)
    x = l2.T @ (n / np.array(shp[:2])[:, None])
    v = d.sum(axis=2).reshape(-1)
    keep = c["keep"]
    with quiet():
        interp = P.get_overlap_momentum_interpolator_flat(ov, keep)
    if keep is not None and keep < len(v):
        order = np.argsort(np.abs(v))[::-1]
        if np.abs(v[order[keep - 1]]) - np.abs(v[order[keep]]) < 1e-9:
            ctx.label("equal terms at the cut (skipped)")
            return
        drop = order[keep:]
        v = v.copy()
        v[drop] = 0
    k = (2 * np.pi * np.linalg.inv(l2)) @ np.array(c["k"]).T
    expected = np.exp(1j * (k.T @ x)) @ v
    sc = float(np.sum(np.abs(v))) or 1.0
    close(np.asarray(interp(ro(k))), expected, "in-plane interpolation", rtol=1e-8, scale=sc)
    # angle average at |q|, where 50 (or more) angles resolve the function
    qs = np.array([[0.0, 0.4], [1.1, 2.0]]) / np.max(np.linalg.norm(x, axis=0), initial=1e-12) if x.shape[1] > 1 else np.array([[0.0, 0.4]])
    out = P.get_angle_averaged_diagonal_overlap_function(interp, ro(qs))
    th = np.linspace(0, 2 * np.pi, 400, endpoint=False)
    e = [np.mean(np.abs(np.exp(1j * q * (np.outer(np.cos(th), x[0]) + np.outer(np.sin(th), x[1]))) @ v) ** 2) for q in qs.ravel()]
    close(np.asarray(out), np.array(e).reshape(qs.shape), "angle average", rtol=1e-7, scale=sc**2)
    few = P.get_angle_averaged_diagonal_overlap_function(interp, ro(qs), theta_samples=60)
    close(np.asarray(few), np.array(e).reshape(qs.shape), "angle average with more samples", rtol=1e-7, scale=sc**2)
    ctx.nt(shp[0] * shp[1] > 1 and shp[2] > 1)
    ctx.label("truncated" if keep is not None and keep < len(v) else "all points")


@case("C18", st.fixed_dictionaries({"i": st.integers(0, 1), "j": st.integers(0, 1)}), quick=4)
def cache_names(c, ctx):
    """Distinct pairs of bands and cells never share a cache file; far cells have none. Non-trivial: always."""
    names = {}
    offs = [(a, b) for a in (-1, 0, 1) for b in (-1, 0, 1)]
    for i in range(2):
        for j in range(2):
            for oi in offs:
                for oj in offs:
                    f = O.get_overlap_cache_filename(i, j, oi, oj)
                    ensure(f is not None and f not in names, f"cache file {f} shared by {names.get(f)} and {(i, j, oi, oj)}")
                    names[f] = (i, j, oi, oj)
    ensure(O.get_overlap_cache_filename(c["i"], c["j"], (2, 0), (0, 0)) is None, "no cache for far cells")
    ensure(O.get_overlap_cache_filename(2, c["j"], (0, 0), (0, 0)) is None, "no cache for higher bands")
    ctx.nt()

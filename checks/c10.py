"""C10: Bloch states built per wavevector solve the supercell problem. Tolerance 1e-8 relative to the operator norm."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st
from scipy.constants import hbar

from harness import gen as g
from harness.core import arr, case, close, data, ensure, ro, same_ints
from surface_potential_analysis.basis.basis import FundamentalBasis, FundamentalPositionBasis, FundamentalTransformedBasis
from surface_potential_analysis.basis.block_fraction_basis import (
    EvenlySpacedBlockFractionBasis,
    ExplicitBlockFractionBasis,
    FundamentalBlockFractionBasis,
)
from surface_potential_analysis.basis.evenly_spaced_basis import EvenlySpacedBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.hamiltonian_builder.momentum_basis import total_surface_hamiltonian
from surface_potential_analysis.operator.conversion import convert_diagonal_operator_to_basis, convert_operator_to_basis
from surface_potential_analysis.state_vector.conversion import (
    convert_state_vector_list_to_basis,
    convert_state_vector_to_position_basis,
)
from surface_potential_analysis.stacked_basis.conversion import stacked_basis_as_fundamental_position_basis
from surface_potential_analysis.wavepacket.conversion import (
    convert_wavepacket_to_basis,
    convert_wavepacket_to_fundamental_momentum_basis,
    convert_wavepacket_to_position_basis,
    convert_wavepacket_to_shape,
    convert_wavepacket_with_eigenvalues_to_basis,
)
from surface_potential_analysis.wavepacket.eigenstate_conversion import unfurl_wavepacket, unfurl_wavepacket_list
from surface_potential_analysis.wavepacket.get_eigenstate import (
    BlochBasis,
    get_all_eigenstates,
    get_all_wavepacket_states,
    get_bloch_basis,
    get_bloch_hamiltonian,
    get_bloch_state_vector,
    get_bloch_states,
    get_full_bloch_hamiltonian,
    get_fundamental_wavepacket,
    get_states_at_bloch_idx,
    get_wavepacket_state_vector,
)
from surface_potential_analysis.wavepacket.wavepacket import (
    as_wavepacket_list,
    generate_uneven_wavepacket,
    generate_wavepacket,
    get_average_eigenvalues,
    get_fundamental_sample_basis,
    get_fundamental_unfurled_basis,
    get_fundamental_unfurled_sample_basis_momentum,
    get_wavepacket,
    get_wavepacket_at_band,
    get_wavepacket_basis,
    get_wavepacket_fundamental_sample_frequencies,
    get_wavepacket_sample_fractions,
    get_wavepackets,
    get_wavepackets_with_eigenvalues,
    wavepacket_list_into_iter,
)


# ------------------------------------------------------------------ dense reference
def labels_of(lb: dict) -> np.ndarray:
    """(ndim, n) integer wavevector label of each list entry in units of 1/N (wrapped as the library's order says)."""
    per = []
    for d in lb["of"]:
        n_full = g.fsize(d)
        if d["t"] == "FM":
            per.append(g.freqs(n_full))
        elif d["t"] == "M":
            per.append(g.freqs(d["n"]))
        else:
            per.append(g.freqs(n_full)[(d["off"] + d["step"] * np.arange(d["n"])) % n_full])
    mesh = np.meshgrid(*per, indexing="ij")
    return np.array([m.ravel() for m in mesh])


def unfurl_ref(u: np.ndarray, lab, big, m) -> np.ndarray:
    """exp(i q x) u(x mod cell) / sqrt(N) on the supercell grid; u is (..., prod m) in position space."""
    nd = len(m)
    full = tuple(int(a * b) for a, b in zip(big, m))
    x = g.gridpts(full)
    ph = np.exp(2j * np.pi * sum(lab[i] * x[i] / full[i] for i in range(nd)))
    cell = np.ravel_multi_index(tuple(x[i] % m[i] for i in range(nd)), tuple(m))
    return u[..., cell] * ph / np.sqrt(np.prod(big))


def supercell_h(a, big, m, mass, v):
    """Dense position-space supercell Hamiltonian; momenta are the union of those used at each wavevector."""
    nd = len(m)
    full = tuple(int(p * q) for p, q in zip(big, m))
    b = g.recip(a)
    freq1 = []
    for i in range(nd):
        f = np.empty(full[i])
        for k in g.freqs(m[i]):
            for lo in g.freqs(big[i]):
                f[(k * big[i] + lo) % full[i]] = k * big[i] + lo
        freq1.append(f)
    mesh = np.array([w.ravel() for w in np.meshgrid(*freq1, indexing="ij")])
    kv = np.einsum("ij,ik->jk", b, mesh / np.array(big)[:, None])
    e = np.sum((hbar * kv) ** 2, axis=0) / (2 * mass)
    x = g.gridpts(full)
    ph = np.ones((len(e), len(e)), dtype=complex)
    for i in range(nd):
        ph = ph * np.exp(2j * np.pi * np.outer(mesh[i], x[i]) / full[i])
    ph = ph / np.sqrt(len(e))
    cell = np.ravel_multi_index(tuple(x[i] % m[i] for i in range(nd)), tuple(m))
    return ph.T @ np.diag(e) @ ph.conj() + np.diag(v[cell])


@st.composite
def lists(draw, shp, fundamental=False):
    of = []
    for n in shp:
        t = draw(st.sampled_from(["FM", "FM", "M", "EM"])) if not fundamental else "FM"
        if t == "FM":
            of.append({"t": "FM", "n": n})
        elif t == "M":
            of.append({"t": "M", "n": draw(st.integers(1, n)), "N": n})
        else:
            step = draw(st.sampled_from(g.divisors(n)))
            of.append({"t": "EM", "n": n // step, "step": step, "off": draw(st.integers(0, n - 1))})
    return {"t": "P", "of": of}


@st.composite
def problems(draw, fundamental=False, complete=False, explicit=True):
    nd = draw(st.integers(1, 3))
    m = draw(g.fshapes((nd, nd), max_n=6 if nd == 1 else 3, max_total=12, min_n=1))
    big = draw(g.fshapes((nd, nd), max_n=6 if nd == 1 else 4, max_total=max(1, 60 // int(np.prod(m))), min_n=1, long=120 // int(np.prod(m))))
    b = draw(g.basis_nd(m, complete=complete, lengths=True, explicit=explicit))
    return {
        "m": m,
        "big": big,
        "l": draw(g.lattices(nd)),
        "b": b,
        "list": draw(lists(big, fundamental)),
        "nb": draw(st.integers(1, g.size(b))),
        "a": draw(g.arrd()),
        "mass": draw(st.sampled_from([1.0, 0.2, 5.0])),
        "s": draw(st.integers(0, 10**6)),
    }


def setup(c):
    a = g.lattice(c["l"])
    mass = c["mass"] * hbar**2 / np.linalg.norm(a[0]) ** 2
    v = arr(c["a"], int(np.prod(c["m"])), complex_=False)
    pos = TupleBasis(*[FundamentalPositionBasis(a[i], n) for i, n in enumerate(c["m"])])
    b = g.build(c["b"], a)
    pot = {"basis": pos, "data": ro(v)}
    seen = []

    def generator(q):
        seen.append(np.array(q))
        return convert_operator_to_basis(total_surface_hamiltonian(pot, mass, q), TupleBasis(b, b))

    return a, mass, v, b, generator, seen


def make(c):
    """A generated wavepacket list with its physical content, or None where LAPACK's subset solver gave up."""
    a, mass, v, b, gen_h, seen = setup(c)
    lb = g.build(c["list"])
    try:
        wp = generate_wavepacket(gen_h, lb, FundamentalBasis(c["nb"]))
    except np.linalg.LinAlgError:
        return None
    u = data(wp).reshape(c["nb"], lb.n, b.n) @ g.ref(c["b"])
    return a, mass, v, b, lb, wp, u


def synth(c, flat_eigs=True):
    """An arbitrary (not solved) wavepacket list: random states and eigenvalues."""
    a = g.lattice(c["l"])
    b = g.build(c["b"], a)
    lb = g.build(c["list"])
    rng = np.random.default_rng(c["s"])
    d = rng.normal(size=(c["nb"], lb.n, b.n)) + 1j * rng.normal(size=(c["nb"], lb.n, b.n))
    e = rng.normal(size=(c["nb"], lb.n)) + 0j
    wp = {"basis": TupleBasis(TupleBasis(FundamentalBasis(c["nb"]), lb), b), "data": ro(d.reshape(-1)), "eigenvalue": ro(e.reshape(-1))}
    return a, b, lb, wp, d @ g.ref(c["b"]), d, e


def position_of(state):
    return data(convert_state_vector_to_position_basis({"basis": state["basis"], "data": state["data"]}))


def check_big_basis(basis, a, big, m):
    close(np.asarray(basis.delta_x_stacked), a * np.array(big)[:, None], "supercell lattice", 1e-12)
    same_ints(np.asarray(basis.fundamental_shape), np.array(big) * np.array(m), "supercell samples")


@case("C10", problems(), quick=400)
def solves_supercell(c, ctx):
    """Generated states: band order, eigenvalue equation, Bloch's theorem, orthonormality in the repeated cell; non-trivial: a supercell of several cells and a non-constant potential."""
    out = make(c)
    if out is None:
        ctx.label("subset solver gave up")
        return
    a, mass, v, b, lb, wp, u = out
    m, big, nb = c["m"], c["big"], c["nb"]
    nd = len(m)
    lab = labels_of(c["list"])
    ctx.nt(np.prod(big) > 1 and np.ptp(v) > 1e-9)
    ctx.label(f"{nd}d", *{d["t"] for d in c["b"]["of"]}, *("list " + d["t"] for d in c["list"]["of"]))
    ensure(tuple(wp["basis"][0].shape) == (nb, lb.n) and wp["basis"][0][1] == lb and wp["basis"][1] == b, "wavepacket basis")
    ev = np.asarray(wp["eigenvalue"]).reshape(nb, lb.n)
    h = supercell_h(a, big, m, mass, v)
    full = tuple(int(p * q) for p, q in zip(big, m))
    sc = float(np.linalg.norm(h, 2)) + 1e-3
    complete = b.n == int(np.prod(m))
    r = g.ref(c["b"])
    psi = np.array([[unfurl_ref(u[j, i], lab[:, i], big, m) for i in range(lb.n)] for j in range(nb)])
    fb = np.array([[unfurl_ref(q, lab[:, i], big, m) for q in r] for i in range(lb.n)])
    for i in range(lb.n):
        hp = fb[i].conj() @ h @ fb[i].T
        close(ev[:, i], np.linalg.eigvalsh((hp + hp.conj().T) / 2)[:nb], f"energies at wavevector {lab[:, i].tolist()}/{big}", 1e-8, scale=sc)
        for j in range(nb):
            res = fb[i].conj() @ (h @ psi[j, i] - ev[j, i] * psi[j, i])
            close(res, np.zeros_like(res), f"eigenvalue equation, band {j}", 1e-8, scale=sc)
    if complete:
        for j in range(nb):
            close(h @ psi[j].T, (ev[j][:, None] * psi[j]).T, "supercell eigenstates", 1e-8, scale=sc)
    flat = psi.reshape(nb * lb.n, -1)
    uniq = len({tuple(np.mod(q, big)) for q in lab.T}) == lb.n
    if uniq:
        close(flat.conj() @ flat.T, np.eye(nb * lb.n), "orthonormal Bloch states", 1e-8)
    if uniq and all(d["t"] == "FM" for d in c["list"]["of"]) and nb == b.n and complete:
        close(np.sort(ev.real.ravel()), np.linalg.eigvalsh(h), "all bands give the whole supercell spectrum", 1e-8, scale=sc)
    # what the library reports as the states of the repeated cell
    fl = [tuple(int(w) for w in q % np.array(big)) for q in lab.T]
    for j in range(nb):
        w = get_wavepacket_at_band(wp, j)
        close(w["eigenvalue"], ev[j], "energies of a band", 1e-12, flat=True)
        for i in range(lb.n):
            st_ = get_wavepacket_state_vector(w, fl[i])
            check_big_basis(st_["basis"], a, big, m)
            got = position_of(st_)
            if uniq:
                close(got, psi[j, i], "state in the repeated cell", 1e-9)
                close(np.linalg.norm(got), 1.0, "norm", 1e-9)
                g_ = got.reshape(full)
                for ax in range(nd):
                    shifted = np.roll(g_, -m[ax], axis=ax)
                    close(shifted, np.exp(2j * np.pi * lab[ax, i] / big[ax]) * g_, "Bloch's theorem", 1e-9)


@case("C10", problems(), quick=250)
def band_subsets(c, ctx):
    """Evenly spaced band bases pick bands offset, offset+step, ... of the full solution; non-trivial: offset or step beyond the first band."""
    a, mass, v, b, gen_h, seen = setup(c)
    lb = g.build(c["list"])
    rng = np.random.default_rng(c["s"])
    step = int(rng.integers(1, 4))
    off = int(rng.integers(0, b.n))
    n = int(rng.integers(1, (b.n - 1 - off) // step + 2))
    n = min(n, (b.n - 1 - off) // step + 1)
    ctx.nt(off > 0 or (step > 1 and n > 1))
    bands = EvenlySpacedBasis(n, step, off)
    try:
        wp = generate_wavepacket(gen_h, lb, bands)
        calls = np.array(seen)
    except np.linalg.LinAlgError:
        ctx.label("subset solver gave up")
        return
    lab = labels_of(c["list"])
    frac = lab / np.array(c["big"])[:, None]
    close(get_wavepacket_sample_fractions(lb), frac, "sample fractions", 1e-12, atol=1e-14)
    want = {tuple(np.round(q, 9)) for q in frac.T}
    ensure({tuple(np.round(q, 9) + 0.0) for q in calls} == {tuple(q + 0.0 for q in w) for w in want}, "wavevectors given to the generator")
    ev = np.asarray(wp["eigenvalue"]).reshape(n, lb.n)
    u = data(wp).reshape(n, lb.n, b.n)
    for i in range(lb.n):
        h = data(gen_h(frac[:, i])).reshape(b.n, b.n)
        lam = np.linalg.eigvalsh(h)
        sc = float(np.abs(lam).max()) + 1e-3
        close(ev[:, i], lam[off + step * np.arange(n)], "selected bands", 1e-7, scale=sc)
        close(h @ u[:, i].T, u[:, i].T * ev[:, i], "selected eigenvectors", 1e-7, scale=sc)
        close(u[:, i].conj() @ u[:, i].T, np.eye(n), "orthonormal", 1e-8)
    ensure(wp["basis"][0][0] == bands, "band basis")


@st.composite
def unevens(draw):
    p = draw(problems(fundamental=True))
    nd = len(p["m"])
    p["fr"] = [[draw(g.floats(-1, 1)) for _ in range(nd)] for _ in range(draw(st.integers(1, 4)))]
    p["es"] = [draw(st.integers(1, 5)), draw(st.integers(1, 3)), draw(st.integers(0, 4))]
    p["kind"] = draw(st.sampled_from(["explicit", "even", "fund"] if nd == 1 else ["explicit"]))
    return p


@case("C10", unevens(), quick=200)
def uneven_samples(c, ctx):
    """States at arbitrary Bloch fractions, in the order given; non-trivial: at least two different wavevectors."""
    a, mass, v, b, gen_h, seen = setup(c)
    n, step, off = c["es"]
    if c["kind"] == "explicit":
        fr = np.array(c["fr"]).T
        lb = ExplicitBlockFractionBasis(ro(fr))
    elif c["kind"] == "even":
        nf = n * step
        lb = EvenlySpacedBlockFractionBasis(n, step, off)
        fr = (-0.5 + ((off + step * np.arange(n)) % nf) / nf)[None]
    else:
        lb = FundamentalBlockFractionBasis(n)
        fr = (-0.5 + np.arange(n) / n)[None]
    ctx.nt(lb.n > 1)
    ctx.label(c["kind"])
    try:
        wp = generate_uneven_wavepacket(gen_h, lb, FundamentalBasis(c["nb"]))
    except np.linalg.LinAlgError:
        ctx.label("subset solver gave up")
        return
    ensure(wp["basis"][0][1] is lb or wp["basis"][0][1] == lb, "list basis")
    ev = np.asarray(wp["eigenvalue"]).reshape(c["nb"], lb.n)
    u = data(wp).reshape(c["nb"], lb.n, b.n)
    for i in range(lb.n):
        h = data(gen_h(fr[:, i])).reshape(b.n, b.n)
        lam = np.linalg.eigvalsh(h)
        sc = float(np.abs(lam).max()) + 1e-3
        close(ev[:, i], lam[: c["nb"]], "energies", 1e-7, scale=sc)
        close(h @ u[:, i].T, u[:, i].T * ev[:, i], "eigenvectors", 1e-7, scale=sc)


@case("C10", problems(), quick=400)
def state_extraction(c, ctx):
    """Arbitrary wavepackets: every way of extracting or unfurling a state gives exp(iqx)u(x)/sqrt(N); non-trivial: several wavevectors and an axis longer than one."""
    a, b, lb, wp, u, d, e = synth(c)
    m, big, nb = c["m"], c["big"], c["nb"]
    nd = len(m)
    ctx.nt(lb.n > 1 and np.prod(m) > 1)
    ctx.label(f"{nd}d", *("list " + q["t"] for q in c["list"]["of"]), *{q["t"] for q in c["b"]["of"]})
    lab = labels_of(c["list"])
    keys = [tuple(int(w) for w in q % np.array(big)) for q in lab.T]
    uniq = len(set(keys)) == lb.n
    sc = float(np.abs(u).max()) + 1e-9
    psi = np.array([[unfurl_ref(u[j, i], lab[:, i], big, m) for i in range(lb.n)] for j in range(nb)])
    fund = all(q["t"] == "FM" for q in c["list"]["of"])
    j = c["s"] % nb
    w = get_wavepacket(wp, j)
    ensure(w["basis"][0] == lb and w["basis"][1] == b, "wavepacket basis")
    same_ints(data(w), d[j].reshape(-1), "selected wavepacket")
    if not uniq:
        return
    by_key = {k: psi[j, i] for i, k in enumerate(keys)}
    zero = np.zeros(psi.shape[-1])
    n_all = int(np.prod(big))
    allstates = get_all_wavepacket_states(w)
    ensure(len(allstates) == n_all, "number of states")
    for i in range(n_all):
        k = tuple(int(q) for q in np.unravel_index(i, tuple(big)))
        want = by_key.get(k, zero)
        close(position_of(allstates[i]), want, "get_all_wavepacket_states", 1e-9, scale=sc)
        check_big_basis(allstates[i]["basis"], a, big, m)
        close(position_of(get_wavepacket_state_vector(w, i)), want, "get_wavepacket_state_vector(flat)", 1e-9, scale=sc)
        close(position_of(get_wavepacket_state_vector(w, k)), want, "get_wavepacket_state_vector(tuple)", 1e-9, scale=sc)
    for i in range(lb.n):
        k = tuple(int(q) for q in np.unravel_index(i, tuple(lb.shape)))
        for ix in (i, k):
            s = get_bloch_state_vector(w, ix)
            ensure(s["basis"] == b, "bloch state basis")
            close(data(s), d[j, i], "bloch state", 1e-12)
    # the sum over wavevectors
    want = psi.sum(axis=1) / np.sqrt(n_all)
    un = unfurl_wavepacket(w)
    check_big_basis(un["basis"], a, big, m)
    close(position_of(un), want[j], "unfurl_wavepacket", 1e-9, scale=sc)
    ul = unfurl_wavepacket_list(wp)
    ensure(ul["basis"][0] == wp["basis"][0][0], "band basis of the unfurled list")
    pl = convert_state_vector_list_to_basis(ul, stacked_basis_as_fundamental_position_basis(ul["basis"][1]))
    close(data(pl), want.reshape(-1), "unfurl_wavepacket_list", 1e-9, scale=sc)
    # all states of a list at once, in the repeated cell
    bs = get_bloch_states(wp)
    check_big_basis(bs["basis"][1], a, big, m)
    ensure(tuple(bs["basis"][0].shape) == (nb, n_all), "shape of the bloch state list")
    ps = data(convert_state_vector_list_to_basis(bs, stacked_basis_as_fundamental_position_basis(bs["basis"][1]))).reshape(nb, n_all, -1)
    for i in range(n_all):
        k = tuple(int(q) for q in np.unravel_index(i, tuple(big)))
        for jj in range(nb):
            w_ = psi[jj, keys.index(k)] if k in keys else zero
            close(ps[jj, i], w_, "get_bloch_states", 1e-9, scale=sc)
    fw = get_fundamental_wavepacket(wp)
    same_ints(np.asarray(fw["basis"][0][1].shape), np.array(big), "fundamental wavepacket list")
    if fund:
        i = c["s"] // 7 % lb.n
        k = tuple(int(q) for q in np.unravel_index(i, tuple(big)))
        for ix in (i, k):
            sl = get_states_at_bloch_idx(wp, ix)
            check_big_basis(sl["basis"][1], a, big, m)
            p = data(convert_state_vector_list_to_basis(sl, stacked_basis_as_fundamental_position_basis(sl["basis"][1])))
            close(p, psi[:, i].reshape(-1), "get_states_at_bloch_idx", 1e-9, scale=sc)
        we = {"basis": w["basis"], "data": w["data"], "eigenvalue": ro(e[j])}
        eig = get_all_eigenstates(we)
        ensure(len(eig) == n_all, "number of eigenstates")
        for q in range(n_all):
            close(position_of(eig[q]), psi[j, q], "get_all_eigenstates", 1e-9, scale=sc)
            close(eig[q]["eigenvalue"], e[j, q], "eigenvalue of the state", 1e-12)


@case("C10", problems(), quick=300)
def geometry(c, ctx):
    """Supercell and sample bases: lattice, counts, wavevectors; non-trivial: several cells."""
    a, b, lb, wp, u, d, e = synth(c)
    m, big = c["m"], c["big"]
    nd = len(m)
    ctx.nt(np.prod(big) > 1)
    basis = get_wavepacket_basis(wp["basis"])
    ensure(basis[0] == lb and basis[1] == b, "get_wavepacket_basis")
    check_big_basis(get_fundamental_unfurled_basis(basis), a, big, m)
    sb = get_fundamental_sample_basis(basis)
    close(np.asarray(sb.delta_x_stacked), a * np.array(big)[:, None], "sample basis lattice", 1e-12)
    same_ints(np.asarray(sb.shape), np.array(big), "sample basis shape")
    fq = get_wavepacket_fundamental_sample_frequencies(basis)
    want = np.einsum("ij,ik->jk", g.recip(a), g.gridk(big) / np.array(big)[:, None])
    close(fq, want, "sample wavevectors", 1e-9, scale=float(np.abs(g.recip(a)).max()))
    close(get_wavepacket_sample_fractions(lb), labels_of(c["list"]) / np.array(big)[:, None], "sample fractions", 1e-12, atol=1e-14)
    rng = np.random.default_rng(c["s"])
    off = tuple(int(o) for o in rng.integers(-3, 4, size=nd))
    for o in (None, off):
        sbm = get_fundamental_unfurled_sample_basis_momentum(basis) if o is None else get_fundamental_unfurled_sample_basis_momentum(basis, o)
        o = (0,) * nd if o is None else o
        close(np.asarray(sbm.delta_x_stacked), a * np.array(big)[:, None], "unfurled sample lattice", 1e-12)
        same_ints(np.asarray(sbm.shape), np.array(m), "unfurled sample shape")
        for i in range(nd):
            want = g.ref({"t": "EM", "n": m[i], "step": big[i], "off": o[i]})
            close(sbm[i].vectors, want, "unfurled sample momenta", 1e-9) if hasattr(sbm[i], "vectors") else None
            close(sbm[i].__into_fundamental__(np.eye(m[i], dtype=complex), axis=1), want, "unfurled sample vectors", 1e-9)


@st.composite
def list_ops(draw):
    p = draw(problems())
    p["pick"] = draw(st.one_of(
        st.lists(st.integers(0, p["nb"] - 1), min_size=1, max_size=4).map(lambda q: {"k": "list", "v": q}),
        st.tuples(st.integers(0, p["nb"] - 1), st.integers(1, p["nb"] + 1)).map(lambda q: {"k": "slice", "v": list(q)}),
        st.lists(st.booleans(), min_size=p["nb"], max_size=p["nb"]).filter(any).map(lambda q: {"k": "mask", "v": q}),
    ))
    p["b1"] = draw(g.basis_nd(p["m"], lengths=True))
    p["l1"] = draw(g.basis_nd(p["big"]))
    return p


@case("C10", list_ops(), quick=300)
def selection(c, ctx):
    """Selecting, collecting, iterating and averaging bands keeps data, labels and energies; non-trivial: at least two bands and wavevectors."""
    a, b, lb, wp, u, d, e = synth(c)
    nb = c["nb"]
    ctx.nt(nb > 1 and lb.n > 1)
    ctx.label(c["pick"]["k"])
    v = c["pick"]["v"]
    ix = v if c["pick"]["k"] == "list" else slice(v[0], v[0] + v[1]) if c["pick"]["k"] == "slice" else np.array(v)
    for f, ev in ((get_wavepackets, False), (get_wavepackets_with_eigenvalues, True)):
        got = f(wp, ix)
        want = d[ix]
        ensure(tuple(got["basis"][0].shape) == (want.shape[0], lb.n), f"{f.__name__}: list shape")
        ensure(got["basis"][0][1] == lb and got["basis"][1] == b, f"{f.__name__}: basis")
        same_ints(data(got), want.reshape(-1), f.__name__)
        if ev:
            same_ints(np.asarray(got["eigenvalue"]).reshape(-1), e[ix].reshape(-1), "eigenvalues of the selection")
    its = list(wavepacket_list_into_iter(wp))
    ensure(len(its) == nb, "number of wavepackets")
    for j, w in enumerate(its):
        ensure(w["basis"][0] == lb and w["basis"][1] == b, "iterated basis")
        same_ints(data(w), d[j].reshape(-1), "iterated wavepacket")
        wb = get_wavepacket_at_band(wp, j)
        same_ints(data(wb), d[j].reshape(-1), "wavepacket at band")
        same_ints(np.asarray(wb["eigenvalue"]).reshape(-1), e[j], "energies at band")
        ensure(wb["basis"][0] == lb and wb["basis"][1] == b, "basis at band")
    back = as_wavepacket_list(its)
    ensure(tuple(back["basis"][0].shape) == (nb, lb.n) and back["basis"][0][1] == lb and back["basis"][1] == b, "collected basis")
    same_ints(data(back), d.reshape(-1), "collected list")
    av = get_average_eigenvalues(wp)
    close(av["data"], e.mean(axis=1), "band averages", 1e-12, flat=True)
    ensure(av["basis"][0].n == nb and av["basis"][1].n == nb, "basis of the averages")
    hb = get_bloch_hamiltonian(wp)
    ensure(hb["basis"][0] == wp["basis"][0][0] and hb["basis"][1][0] == lb and hb["basis"][1][1] == lb, "bloch hamiltonian basis")
    same_ints(np.asarray(hb["data"]).reshape(-1), e.reshape(-1), "bloch hamiltonian")


@case("C10", list_ops(), quick=300)
def conversions(c, ctx):
    """Converting the cell basis or the list basis is the projection along that index only; non-trivial: a change of basis along an axis longer than one."""
    a, b, lb, wp, u, d, e = synth(c)
    nb = c["nb"]
    j = c["s"] % nb
    w = get_wavepacket(wp, j)
    b1, r1 = g.build(c["b1"], a), g.ref(c["b1"])
    l1, rl1 = g.build(c["l1"]), g.ref(c["l1"])
    r, rl = g.ref(c["b"]), g.ref(c["list"])
    ctx.nt((b1.n > 1 and c["b1"] != c["b"]) or (l1.n > 1 and c["l1"] != c["list"]))
    sc = float(np.abs(d).max()) * 4 + 1e-9
    tb, tl = r @ r1.conj().T, rl @ rl1.conj().T
    got = convert_wavepacket_to_basis(w, basis=b1)
    ensure(got["basis"][0] == lb and got["basis"][1] == b1, "converted basis")
    close(data(got), (d[j] @ tb).reshape(-1), "cell basis", 1e-9, scale=sc)
    got = convert_wavepacket_to_basis(w, list_basis=l1)
    ensure(got["basis"][0] == l1 and got["basis"][1] == b, "converted list basis")
    close(data(got), (tl.T @ d[j]).reshape(-1), "list basis", 1e-9, scale=sc)
    got = convert_wavepacket_to_basis(w, list_basis=l1, basis=b1)
    close(data(got), (tl.T @ d[j] @ tb).reshape(-1), "both", 1e-9, scale=sc)
    same_ints(data(convert_wavepacket_to_basis(w)), d[j].reshape(-1), "no change")
    close(data(convert_wavepacket_to_position_basis(w)), u[j].reshape(-1), "position", 1e-9, scale=sc)
    rk = g.ref({"t": "P", "of": [{"t": "FM", "n": n} for n in c["m"]]})
    close(data(convert_wavepacket_to_fundamental_momentum_basis(w)), (u[j] @ rk.conj().T).reshape(-1), "momentum", 1e-9, scale=sc)
    got = convert_wavepacket_to_fundamental_momentum_basis(w, list_basis=l1)
    close(data(got), (tl.T @ u[j] @ rk.conj().T).reshape(-1), "momentum and list", 1e-9, scale=sc)
    got = convert_wavepacket_with_eigenvalues_to_basis(wp, basis=b1)
    close(data(got), (d @ tb).reshape(-1), "list with energies, cell basis", 1e-9, scale=sc)
    same_ints(np.asarray(got["eigenvalue"]).reshape(-1), e.reshape(-1), "energies kept")
    ensure(got["basis"][0][0] == wp["basis"][0][0] and got["basis"][0][1] == lb and got["basis"][1] == b1, "basis with energies")
    # a list basis made of the same kind of momentum states relabels the energies
    rng = np.random.default_rng(c["s"])
    sel = {"t": "P", "of": [{"t": "M", "n": int(rng.integers(1, n + 1)), "N": n} for n in c["big"]]}
    lsel, ts = g.build(sel), rl @ g.ref(sel).conj().T
    got = convert_wavepacket_with_eigenvalues_to_basis(wp, list_basis=lsel, basis=b1)
    close(data(got), np.einsum("ij,bik,kl->bjl", ts, d, tb).reshape(-1), "selected wavevectors", 1e-9, scale=sc)
    close(np.asarray(got["eigenvalue"]).reshape(-1), (e @ ts).reshape(-1), "energies of the selected wavevectors", 1e-9, scale=sc)
    ensure(got["basis"][0][1] == lsel, "list basis of the selection")
    # unfurling does not depend on how the same wavepacket is expressed
    if l1.n == int(np.prod(c["big"])) and b1.n == int(np.prod(c["m"])):
        ctx.label("complete")
        moved = convert_wavepacket_to_basis(w, list_basis=l1, basis=b1)
        sc2 = float(np.abs(d).max()) * 4 + 1e-9
        close(position_of(unfurl_wavepacket(moved)), position_of(unfurl_wavepacket(w)), "unfurling", 1e-9, scale=sc2)
        for i in range(int(np.prod(c["big"]))):
            close(position_of(get_wavepacket_state_vector(moved, i)), position_of(get_wavepacket_state_vector(w, i)), "state", 1e-9, scale=sc2)


@case("C10", problems(fundamental=True), quick=200)
def reshaped(c, ctx):
    """Keeping every r-th wavevector along each axis keeps those states; non-trivial: some axis is thinned to more than one sample."""
    a, b, lb, wp, u, d, e = synth(c)
    rng = np.random.default_rng(c["s"])
    big, m = c["big"], c["m"]
    new = [int(rng.choice(g.divisors(n))) for n in big]
    ctx.nt(any(1 < n < o for n, o in zip(new, big)))
    w = get_wavepacket(wp, 0)
    got = convert_wavepacket_to_shape(w, tuple(new))
    ensure(np.asarray(got["data"]).size == int(np.prod(new)) * b.n, "size")
    ratio = np.array(big) // np.array(new)
    for i in range(int(np.prod(new))):
        k = np.array(np.unravel_index(i, tuple(new)))
        src = int(np.ravel_multi_index(tuple(k * ratio), tuple(big)))
        lab = np.array([g.freqs(n)[q] for n, q in zip(new, k)])
        want = unfurl_ref(u[0, src], lab, new, m)
        s = get_wavepacket_state_vector(got, i)
        check_big_basis(s["basis"], a, new, m)
        close(position_of(s), want, "re-sampled state", 1e-9, scale=float(np.abs(u).max()) + 1e-9)


@st.composite
def bloch_bases(draw):
    p = draw(problems())
    p["nb"] = min(p["nb"], 3)
    p["lead"] = draw(st.integers(1, 3))
    p["ax"] = draw(st.integers(0, 2))
    p["solve"] = draw(st.booleans())
    return p


@case("C10", bloch_bases(), quick=250)
def bloch_basis(c, ctx):
    """The Bloch basis: transforms along any axis agree with its dense vectors, and the Hamiltonian is the reported energies in it; non-trivial: several wavevectors and leading axes."""
    solved = None
    if c["solve"]:
        c = dict(c, list={"t": "P", "of": [{"t": "FM", "n": n} for n in c["big"]]})
        out = make(c)
        if out is None:
            ctx.label("subset solver gave up")
            return
        a, mass, v, b, lb, wp, u = out
        solved = (mass, v)
        d = data(wp).reshape(c["nb"], lb.n, b.n)
    else:
        a, b, lb, wp, u, d, e = synth(c)
        # orthonormal within each wavevector
        for i in range(lb.n):
            q, _ = np.linalg.qr(d[:, i].T)
            d[:, i] = q.T
        wp = dict(wp, data=ro(d.reshape(-1)))
        u = d @ g.ref(c["b"])
    m, big, nb = c["m"], c["big"], c["nb"]
    lab = labels_of(c["list"])
    keys = [tuple(int(w) for w in q % np.array(big)) for q in lab.T]
    if len(set(keys)) != lb.n:
        return
    ctx.nt(lb.n > 1 and c["lead"] > 1)
    ctx.label("solved" if solved else "arbitrary", f"axis {c['ax']}")
    n_all = int(np.prod(big))
    rows = np.zeros((nb, n_all, n_all * int(np.prod(m))), dtype=complex)
    for i in range(lb.n):
        f = int(np.ravel_multi_index(keys[i], tuple(big)))
        rows[:, f] = unfurl_ref(u[:, i], lab[:, i], big, m)
    rows = rows.reshape(nb * n_all, -1)
    bb = get_bloch_basis(wp)
    ensure(isinstance(bb, BlochBasis) and bb.n == nb * n_all and bb.fundamental_n == rows.shape[1], "size of the Bloch basis")
    check_big_basis(bb.unfurled_basis, a, big, m)
    close(np.asarray(bb.delta_x_stacked), a * np.array(big)[:, None], "lattice of the Bloch basis", 1e-12)
    shp = [c["lead"], 2, 1]
    ax = c["ax"]
    rng = np.random.default_rng(c["s"])
    for n, f, mat in ((bb.n, bb.__into_fundamental__, rows), (rows.shape[1], bb.__from_fundamental__, rows.conj().T)):
        s_ = list(shp)
        s_.insert(ax, n)
        x = rng.normal(size=s_) + 1j * rng.normal(size=s_)
        want = np.moveaxis(np.tensordot(x, mat, axes=(ax, 0)), -1, ax)
        for q in (ax, ax - len(s_)):
            close(f(ro(x), q), want, f"{f.__name__} along axis {q}", 1e-9)
        flat = ro(x.reshape(-1)[:n])
        close(f(flat), flat @ mat, f"{f.__name__} of a vector", 1e-9)
    for i in range(lb.n):
        f = int(np.ravel_multi_index(keys[i], tuple(big)))
        away = tuple(int(k + n_ * rng.integers(-2, 3)) for k, n_ in zip(keys[i], big))
        for ix in (f, keys[i], away):
            vk = bb.vectors_at_bloch_k(ix)
            ensure(vk["basis"][0] == wp["basis"][0][0] and vk["basis"][1] == b, "basis at one wavevector")
            close(data(vk), d[:, i].reshape(-1), "states at one wavevector", 1e-9, scale=1.0)
            bk = bb.basis_at_bloch_k(ix)
            ensure(bk.n == nb, "size at one wavevector")
            close(bk.__into_fundamental__(np.eye(nb, dtype=complex), axis=1), u[:, i], "basis at one wavevector", 1e-9, scale=1.0)
    if solved is not None:
        again = convert_wavepacket_with_eigenvalues_to_basis(wp, basis=b)
        close(get_full_bloch_hamiltonian(again)["data"], wp["eigenvalue"], "energies along the diagonal", 1e-12, flat=True)
        hd = get_full_bloch_hamiltonian(wp)
        pos = TupleBasis(*[FundamentalPositionBasis(a[i] * big[i], big[i] * m[i]) for i in range(len(m))])
        hp = data(convert_diagonal_operator_to_basis(hd, TupleBasis(pos, pos))).reshape(pos.n, pos.n)
        h = supercell_h(a, big, m, *solved)
        proj = rows.T @ rows.conj()
        if b.n == int(np.prod(m)):
            close(hp, proj @ h @ proj, "Bloch Hamiltonian in position space", 1e-8, scale=float(np.linalg.norm(h, 2)) + 1e-3)

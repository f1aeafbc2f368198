"""C25: results do not depend on how the system is described.

Every case evaluates the library twice: on a description of a system, and on another description of the same system
(axes in another order, lattice turned or mirrored, origin moved by sample points, energies offset, other units, bands
relabelled or mixed within a wavevector), and compares the two results up to the corresponding relabelling."""
from __future__ import annotations

import itertools

import numpy as np
from hypothesis import strategies as st
from scipy.constants import hbar

from checks import c10, c11
from checks.c15 import quiet
from checks.c16 import a_sum, jump_array, m_ref, rate_table, well_conditioned
from checks.c17 import Layout, layouts
from checks.c24 import phase_average, run_of, runs, safe_angles
from harness import gen as g
from harness.core import arr, case, close, data, ensure, ro
from surface_potential_analysis.basis.basis import FundamentalBasis, FundamentalPositionBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.basis.time_basis_like import ExplicitTimeBasis
from surface_potential_analysis.basis.util import BasisUtil
from surface_potential_analysis.dynamics.incoherent_propagation import eigenstates as E
from surface_potential_analysis.dynamics.incoherent_propagation import isf as I
from surface_potential_analysis.dynamics.incoherent_propagation import tunnelling_matrix as T
from surface_potential_analysis.dynamics.schrodinger import solve as Q
from surface_potential_analysis.dynamics.tunnelling_basis import TunnellingSimulationBandsBasis
from surface_potential_analysis.hamiltonian_builder.momentum_basis import total_surface_hamiltonian
from surface_potential_analysis.kernel import build as B
from surface_potential_analysis.kernel import gaussian as G
from surface_potential_analysis.kernel import kernel as K
from surface_potential_analysis.kernel import solve as S
from surface_potential_analysis.operator.conversion import convert_operator_to_basis
from surface_potential_analysis.overlap import interpolation as P
from surface_potential_analysis.potential.conversion import convert_potential_to_position_basis, get_continuous_potential, get_potential_derivative
from surface_potential_analysis.stacked_basis.brillouin_zone import get_all_brag_point
from surface_potential_analysis.stacked_basis.util import (
    calculate_cumulative_k_distances_along_path,
    calculate_cumulative_x_distances_along_path,
    wrap_x_point_around_origin,
)
from surface_potential_analysis.state_vector import plot as SP
from surface_potential_analysis.state_vector.conversion import convert_state_vector_list_to_basis
from surface_potential_analysis.wavepacket.get_eigenstate import (
    get_full_wannier_hamiltonian,
    get_wannier_hamiltonian,
    get_wannier_states,
    get_wavepacket_state_vector,
)
from surface_potential_analysis.wavepacket.localization import (
    get_localization_operator_for_projections,
    localize_tightly_bound_wavepacket_idx,
    localize_wavepacket_projection,
)
from surface_potential_analysis.wavepacket.wavepacket import generate_wavepacket, get_wavepacket, get_wavepacket_at_band


# ------------------------------------------------------------------ descriptions
@st.composite
def changes(draw, nd):
    return {
        "perm": draw(st.sampled_from([list(p) for p in itertools.permutations(range(nd))])),
        "turn": draw(st.sampled_from([0, 0, 1, 2, 3, 4, 5])),
        "shift": [draw(st.integers(-4, 4)) for _ in range(nd)],
        "len": draw(st.sampled_from([1.0, 1.0, 3.0, 1e-10])),
        "mass": draw(st.sampled_from([1.0, 1.0, 0.5, 1e-27])),
        "zero": draw(st.sampled_from([0.0, 0.0, 1.5, -20.0])),
    }


class Change:
    """Another description of a system on a lattice."""

    def __init__(self, d, nd):
        self.perm, self.nd = tuple(d["perm"]), nd
        self.q = np.eye(nd)
        if d["turn"]:
            self.q = np.linalg.qr(np.random.default_rng(d["turn"]).normal(size=(nd, nd)))[0]
        self.len, self.mass, self.zero = d["len"], d["mass"], d["zero"]
        self.energy = 1 / (self.mass * self.len**2)
        self.shift = d["shift"]
        self.trivial = self.perm == tuple(range(nd)) and not d["turn"] and self.len == self.mass == 1 and not self.zero and not any(self.shift)

    def lat(self, a):
        return self.len * a[list(self.perm)] @ self.q.T

    def x(self, x):
        return self.len * np.tensordot(self.q, x, axes=(1, 0))

    def k(self, k):
        return np.tensordot(self.q, k, axes=(1, 0)) / self.len

    def axes(self, seq):
        return [seq[p] for p in self.perm]

    def desc(self, d):
        return {"t": "P", "of": self.axes(d["of"])}

    def grid(self, v, shp, moved=False):
        """Values on a grid (last, flat axis) of the other description."""
        lead = v.shape[:-1]
        w = v.reshape(*lead, *shp)
        n = len(lead)
        if moved:
            w = np.roll(w, self.shift, axis=tuple(range(n, n + self.nd)))
        return np.ascontiguousarray(w.transpose(*range(n), *(n + p for p in self.perm))).reshape(*lead, -1)

    def labels(self):
        out = []
        if self.perm != tuple(range(self.nd)):
            out.append("axes reordered")
        if not np.array_equal(self.q, np.eye(self.nd)):
            out.append("mirrored" if np.linalg.det(self.q) < 0 else "turned")
        if self.len != 1 or self.mass != 1:
            out.append("other units")
        if any(self.shift):
            out.append("moved")
        return out


def movable(desc):
    """Whether moving the origin by sample points maps the space spanned by the basis to itself."""
    return all(d["t"] in ("F", "FM", "M", "EM") for d in desc["of"])


def positions(a, shp):
    return TupleBasis(*[FundamentalPositionBasis(v, int(n)) for v, n in zip(a, shp, strict=True)])


def top_energy(a, shp, mass, v):
    k = np.abs(g.recip(a)).sum(axis=1) * (np.array(shp) / 2 + 1)
    return float(hbar**2 * np.sum(k) ** 2 / (2 * mass) + np.max(np.abs(v)))


# ------------------------------------------------------------------ bands
@st.composite
def band_in(draw):
    c = draw(c10.problems())
    c["ch"] = draw(changes(len(c["m"])))
    return c


def bloch(a, c, b_desc, l_desc, mass, v, m):
    b, lb = g.build(b_desc, a), g.build(l_desc)
    pot = {"basis": positions(a, m), "data": ro(v)}
    try:
        wp = generate_wavepacket(lambda q: convert_operator_to_basis(total_surface_hamiltonian(pot, mass, q), TupleBasis(b, b)), lb, FundamentalBasis(c["nb"]))
    except np.linalg.LinAlgError:
        return None
    return wp, np.real(wp["eigenvalue"]).reshape(c["nb"], lb.n), data(wp).reshape(c["nb"], lb.n, b.n) @ g.ref(b_desc)


@case("C25", band_in(), quick=300)
def bands(c, ctx):
    """Band energies and densities of groups of bands. Non-trivial: another description, several points in the cell."""
    m, big, nd = c["m"], c["big"], len(c["m"])
    ch = Change(c["ch"], nd)
    a = g.lattice(c["l"])
    mass = c["mass"] * hbar**2 / np.linalg.norm(a[0]) ** 2
    v = arr(c["a"], int(np.prod(m)), complex_=False)
    move = movable(c["b"])
    first = bloch(a, c, c["b"], c["list"], mass, v, m)
    v2 = (ch.grid(v, m, moved=move) + ch.zero) * ch.energy
    second = bloch(ch.lat(a), c, ch.desc(c["b"]), ch.desc(c["list"]), mass * ch.mass, v2, ch.axes(m))
    if first is None or second is None:
        ctx.label("subset solver gave up")
        return
    ctx.nt(not ch.trivial and np.prod(m) > 1)
    ctx.label(f"{nd}d", *ch.labels())
    (wp, e1, u1), (wp2, e2, u2) = first, second
    sc = top_energy(a, m, mass, v) + abs(ch.zero)
    shp_l = g.shape(c["list"])
    close(e2 / ch.energy - ch.zero, ch.grid(e1, shp_l), "band energies", 1e-9, scale=sc)
    nb = c["nb"]
    u1 = ch.grid(ch.grid(u1, m, moved=move).transpose(0, 2, 1), shp_l).transpose(0, 2, 1)
    e1 = ch.grid(e1, shp_l)
    whole = g.size(c["b"])
    for j in range(nb):
        last = j == nb - 1
        if last and nb < whole:
            break
        gap = np.full(e1.shape[1], np.inf) if last else e1[j + 1] - e1[j]
        keep = gap > 1e-3 * sc
        rho1, rho2 = ((np.abs(u[: j + 1, keep]) ** 2).sum(axis=0) for u in (u1, u2))
        close(rho2, rho1, f"density of the lowest {j + 1} bands", 1e-7, scale=1.0)
        if np.all(keep):
            ctx.label("densities")
            lab = c10.labels_of(ch.desc(c["list"]))
            k = c["s"] % e1.shape[1]
            idx = tuple(int(w) for w in lab[:, k] % np.array(ch.axes(big)))
            if len({tuple(int(w) for w in q % np.array(ch.axes(big))) for q in lab.T}) == lab.shape[1]:
                total = 0
                for i in range(j + 1):
                    s = c10.position_of(get_wavepacket_state_vector(get_wavepacket_at_band(wp2, i), idx))
                    total = total + np.abs(s) ** 2
                full = [p * q for p, q in zip(ch.axes(big), ch.axes(m), strict=True)]
                tiled = np.tile(rho1[k].reshape(ch.axes(m)), ch.axes(big)) / np.prod(big)
                close(total.reshape(full), tiled, "density in the repeated cell", 1e-7, scale=1.0)
    if all(d["t"] == "FM" for d in c["list"]["of"]) and all(d["t"] in ("F", "FM") and d["n"] % 2 for d in c["b"]["of"]):
        back = np.ravel_multi_index(tuple((-g.gridpts(big)[i]) % big[i] for i in range(nd)), tuple(big))
        own = first[1]
        # (a wavevector at half a reciprocal vector is equivalent to, but not the same as, its opposite)
        inside = ~np.any([2 * (g.gridpts(big)[i] % big[i]) == big[i] for i in range(nd)], axis=0)
        close(own[:, back][:, inside], own[:, inside], "energies at opposite wavevectors", 1e-9, scale=sc)
        ctx.label("time reversal")


# ------------------------------------------------------------------ quantum evolution
@st.composite
def evolve_in(draw):
    nd = draw(st.integers(1, 3))
    shp = draw(g.fshapes((nd, nd), max_n=8 if nd == 1 else 4, max_total=24, min_n=1))
    return {
        "shp": shp,
        "l": draw(g.lattices(nd)),
        "b": draw(g.basis_nd(shp, complete=True, lengths=True)),
        "a": draw(g.arrd(powers=(0, 0, 1, -20))),
        "psi": draw(g.arrd(powers=(0,))),
        "q": [draw(g.floats(-0.5, 0.5)) for _ in range(nd)],
        "t": [draw(g.floats(-3, 3)) for _ in range(draw(st.integers(1, 4)))],
        "slow": draw(st.sampled_from([1.0, 4.0, 1e20])),
        "ch": draw(changes(nd)),
    }


@case("C25", evolve_in(), quick=200)
def evolution(c, ctx):
    """Amplitudes of an evolving state at every sample point. Non-trivial: another description, several points."""
    shp, nd = c["shp"], len(c["shp"])
    # the solver's test of Hermitian input is absolute (see DESIGN.md): no units in which energies are large numbers
    ch = Change({**c["ch"], "mass": c["slow"] / c["ch"]["len"] ** 2}, nd)
    a = g.lattice(c["l"])
    mass = hbar**2 / np.linalg.norm(a[0]) ** 2
    v = arr(c["a"], int(np.prod(shp)), complex_=False)
    psi = arr(c["psi"], int(np.prod(shp)))
    t = np.array(c["t"]) * hbar / 10

    def run(a, shp, b_desc, mass, v, psi, q, t):
        b = g.build(b_desc, a)
        r = g.ref(b_desc)
        ham = convert_operator_to_basis(total_surface_hamiltonian({"basis": positions(a, shp), "data": ro(v)}, mass, q), TupleBasis(b, b))
        times = ExplicitTimeBasis(ro(t))
        out = Q.solve_schrodinger_equation_decomposition({"basis": b, "data": ro(psi @ r.conj().T)}, times, {"basis": ham["basis"], "data": ro(data(ham))})
        pos = convert_state_vector_list_to_basis(out, positions(a, shp))
        return data(pos).reshape(len(t), -1)

    one = run(a, shp, c["b"], mass, v, psi, np.array(c["q"]), t)
    two = run(
        ch.lat(a), ch.axes(shp), ch.desc(c["b"]), mass * ch.mass,
        (ch.grid(v, shp, moved=True) + ch.zero) * ch.energy, ch.grid(psi, shp, moved=True), np.array(ch.axes(c["q"])), t / ch.energy,
    )  # fmt: skip
    ctx.nt(not ch.trivial and len(psi) > 1)
    ctx.label(f"{nd}d", *ch.labels())
    phase = np.exp(-1j * ch.zero * t / hbar)[:, None]
    sc = float(np.linalg.norm(psi)) or 1.0
    big = (top_energy(a, shp, mass, v) + abs(ch.zero)) * float(np.abs(t).max()) / hbar
    close(two, phase * ch.grid(one, shp, moved=True), "evolved state", 1e-9 + 1e-13 * big, scale=sc)
    close(np.linalg.norm(two, axis=1), np.full(len(t), np.linalg.norm(psi)), "norm", 1e-9, scale=sc)


# ------------------------------------------------------------------ hopping
@st.composite
def hop_in(draw):
    c = draw(layouts())
    c["swap"] = draw(st.booleans())
    c["turn"] = draw(st.integers(0, 4))
    c["len"] = draw(st.sampled_from([1.0, 2.0, 1e-10]))
    c["fast"] = draw(st.sampled_from([1.0, 0.5, 1e9, 1e-12]))
    c["cell"] = [draw(st.integers(0, 3)), draw(st.integers(0, 3))]
    c["bs"] = draw(st.integers(0, 5))
    return c


@case("C25", hop_in(), quick=200)
def hopping(c, ctx):
    """Occupations and scattering functions of hopping systems with axes swapped, lattice turned, bands relabelled, start in another cell and other units. Non-trivial: several sites and a positive time."""
    s = Layout(c)
    nb, shp = c["nb"], s.shp
    r = rate_table({"s": c["s"], "nb": nb, "scale": 1.0, "sparse": c["sparse"]})
    order = list(itertools.permutations(range(nb)))[c["bs"] % len(list(itertools.permutations(range(nb))))]
    perm = (1, 0) if c["swap"] else (0, 1)
    q = np.eye(2) if not c["turn"] else np.linalg.qr(np.random.default_rng(c["turn"]).normal(size=(2, 2)))[0]
    r2 = r[np.ix_(order, order)].transpose(0, 1, 2 + perm[0], 2 + perm[1]) * c["fast"]
    a2 = c["len"] * s.a[list(perm)] @ q.T
    shp2 = tuple(shp[p] for p in perm)
    dk2 = q @ s.dk / c["len"]
    loc2 = s.loc[list(perm)][:, list(order)]
    k = c["s"] % s.size
    x, y, band = (int(w) for w in np.unravel_index(k, (*shp, nb)))
    start = ((x, y), band)
    cell2 = [(start[0][p] + c["cell"][p]) % shp[p] for p in perm]
    k2 = int(np.ravel_multi_index((*cell2, order.index(band)), (*shp2, nb)))
    m = m_ref(a_sum(shp, nb, r).reshape(s.size, s.size))
    scale = float(np.max(np.abs(m), initial=0)) or 1.0
    t = np.array(c["t"])

    def run(a, shp, loc, r, k, t, dk):
        bb = TunnellingSimulationBandsBasis(ro(loc), (ro(a[0]), ro(a[1])))
        jump = {"basis": TupleBasis(bb, bb), "data": ro(jump_array(r, nb).astype(complex).reshape(-1))}
        with quiet():
            mat = T.get_tunnelling_m_matrix(T.get_a_matrix_from_jump_matrix(jump, shp))
            mat = {"basis": mat["basis"], "data": ro(data(mat))}
            if not well_conditioned(m / scale, mat):
                return None
            initial = T.get_initial_pure_density_matrix_for_basis(mat["basis"][0], k)
            occ = data(E.calculate_tunnelling_simulation_state(mat, initial, ro(t))).reshape(len(t), *shp, nb)
            pure = data(I.calculate_isf_at_times(mat, initial, ro(t), ro(dk)))
            mean = data(I.calculate_equilibrium_state_averaged_isf(mat, ro(t), ro(dk))) if regular else None
        return occ, pure, mean

    ph = s.phases(np.eye(s.size)[k])
    regular = np.linalg.matrix_rank(m / scale, tol=1e-6) == s.size - 1 and all(s.phases(np.eye(s.size)[b]) is not None for b in range(nb))
    one, two = run(s.a, shp, s.loc, r, k, t, s.dk), run(a2, shp2, loc2, r2, k2, t / c["fast"], dk2)
    if one is None or two is None:
        ctx.label("nearly defective rate matrix (skipped)")
        return
    ctx.nt(s.size > 1 and np.any(t > 0) and (c["swap"] or c["turn"] or any(c["cell"]) or c["bs"] or c["len"] * c["fast"] != 1))
    ctx.label("swapped" if c["swap"] else "same axes", "relabelled" if list(order) != sorted(order) else "same bands")
    want = np.roll(one[0], c["cell"], axis=(1, 2)).transpose(0, 1 + perm[0], 1 + perm[1], 3)[..., list(order)]
    close(two[0], want, "occupations", 1e-6, scale=1.0)
    if ph is not None:
        close(two[1], one[1], "scattering function of a pure start", 1e-6, scale=1.0)
    if regular:
        close(two[2], one[2], "equilibrium-averaged scattering function", 1e-6, scale=1.0)


# ------------------------------------------------------------------ localised states
@st.composite
def local_in(draw):
    c = draw(c11.problems())
    c["np"] = draw(st.integers(1, 4))
    c["ch"] = draw(changes(len(c["m"])))
    c["mix"] = draw(st.sampled_from(["mix", "phase"]))
    return c


@case("C25", local_in(), quick=200)
def localised(c, ctx):
    """Localised states and their Hamiltonian when the bands are mixed within each wavevector (or carry other phases and labels), the projections are reordered, and the axes are. Non-trivial: several bands and wavevectors."""
    a, b, lb, wp, d, e, psi, rng = c11.bands(c)
    nb, nl = d.shape[:2]
    m, big, nd = c["m"], c["big"], len(c["m"])
    full = [int(p * q) for p, q in zip(big, m, strict=True)]
    ch = Change({**c["ch"], "shift": [0] * nd}, nd)
    npj = min(c["np"], nb)
    gp = rng.normal(size=(npj, int(np.prod(full)))) + 1j * rng.normal(size=(npj, int(np.prod(full))))
    for k in range(nl):
        s = np.linalg.svd(psi[:, k].conj() @ gp.T, compute_uv=False)
        if s[-1] < 1e-3 * s[0] or s[0] < 1e-6:
            ctx.label("singular overlap (skipped)")
            return
    ctx.nt(nb > 1 and nl > 1)
    ctx.label(f"{nd}d", c["mix"], *ch.labels())
    if c["mix"] == "mix":
        w = np.array([c11.semi_unitary(rng, nb, nb) for _ in range(nl)])
    else:
        order = rng.permutation(nb)
        w = np.eye(nb)[order][None] * np.exp(2j * np.pi * rng.random((nl, 1, nb)))
        e2 = e[order]
    d2 = np.einsum("kab,bkx->akx", w, d)
    seq = rng.permutation(npj)
    # axes of the cell and of the list of wavevectors
    a2, b2, l2 = ch.lat(a), ch.desc(c["b"]), ch.desc(c["list"])
    bs, shp_l = g.shape(c["b"]), g.shape(c["list"])
    d2 = ch.grid(ch.grid(d2, bs).transpose(0, 2, 1), shp_l).transpose(0, 2, 1)
    other = g.build(b2, a2)
    lb2 = g.build(l2)
    wp2 = {"basis": TupleBasis(TupleBasis(FundamentalBasis(nb), lb2), other), "data": ro(d2.reshape(-1))}
    if c["mix"] == "phase":
        wp2["eigenvalue"] = ro(ch.grid(e2, shp_l).reshape(-1).astype(complex))
    proj = {"basis": TupleBasis(FundamentalBasis(npj), positions(a * np.array(big)[:, None], full)), "data": ro(gp.reshape(-1))}
    big2, full2 = ch.axes(big), ch.axes(full)
    proj2 = {"basis": TupleBasis(FundamentalBasis(npj), positions(a2 * np.array(big2)[:, None], full2)), "data": ro(ch.grid(gp, full)[seq].reshape(-1))}
    one = data(localize_wavepacket_projection(wp, proj)).reshape(npj, nl, -1)
    two = data(localize_wavepacket_projection(wp2, proj2)).reshape(npj, nl, -1)
    want = ch.grid(ch.grid(one, bs).transpose(0, 2, 1), shp_l).transpose(0, 2, 1)[seq]
    close(two, want, "localised packets", 1e-7, scale=1.0)
    if c["mix"] == "phase":
        op, op2 = get_localization_operator_for_projections(wp, proj), get_localization_operator_for_projections(wp2, proj2)
        sc = float(np.abs(e).max()) * 2
        h, h2 = (data(get_wannier_hamiltonian(*q)).reshape(nl, npj, npj) for q in ((wp, op), (wp2, op2)))
        want = ch.grid(np.moveaxis(h, 0, -1), shp_l).transpose(2, 0, 1)[np.ix_(range(nl), seq, seq)]
        close(h2, want, "Hamiltonian of the localised states", 1e-7, scale=sc)
        f = data(get_full_wannier_hamiltonian(wp, op)).reshape(npj, nl, npj, nl)
        f2 = data(get_full_wannier_hamiltonian(wp2, op2)).reshape(npj, nl, npj, nl)
        f = ch.grid(np.moveaxis(ch.grid(f, shp_l), 1, -1), shp_l).transpose(0, 3, 1, 2)
        close(f2, f[np.ix_(seq, range(nl), seq, range(nl))], "Hamiltonian of all localised states", 1e-7, scale=sc)
        ws = c11.pos_list(get_wannier_states(wp, op)).reshape(npj, nl, -1)
        ws2 = c11.pos_list(get_wannier_states(wp2, op2)).reshape(npj, nl, -1)
        want = ch.grid(ch.grid(ws, full).transpose(0, 2, 1), shp_l).transpose(0, 2, 1)[seq]
        close(ws2, want, "localised states of every cell", 1e-7, scale=1.0)
        i = int(order[0])
        at = tuple(int(q) for q in rng.integers(0, full))
        x = int(np.ravel_multi_index(at, full))
        if np.all(np.abs(psi[i][:, x]) > 1e-6):
            t1 = data(localize_tightly_bound_wavepacket_idx(get_wavepacket(wp, i), at, 0.7)).reshape(nl, -1)
            t2 = data(localize_tightly_bound_wavepacket_idx(get_wavepacket(wp2, 0), tuple(ch.axes(at)), 0.7)).reshape(nl, -1)
            close(t2, ch.grid(ch.grid(t1, bs).T, shp_l).T, "state localised at a point", 1e-7, scale=1.0)


# ------------------------------------------------------------------ functions of position
@st.composite
def field_in(draw):
    nd = draw(st.integers(1, 3))
    shp = draw(g.fshapes((nd, nd), max_n=9 if nd == 1 else 5, max_total=48, long=90))
    return {
        "shp": shp,
        "l": draw(g.lattices(nd)),
        "b": draw(g.basis_nd(shp, lengths=True)),
        "a": draw(g.arrd()),
        "s": draw(st.integers(0, 2**16)),
        "path": [[draw(st.integers(-7, 9)) for _ in range(draw(st.just(4)))] for _ in range(nd)],
        "wrap": draw(st.booleans()),
        "ch": draw(changes(nd)),
    }


@case("C25", field_in(), quick=250)
def fields(c, ctx):
    """Continuous potentials and derivatives, sample points, wrapped points, distances along paths, Bragg points and interpolated overlaps. Non-trivial: another description of a cell with several points."""
    shp, nd = c["shp"], len(c["shp"])
    ch = Change({**c["ch"], "shift": [0] * nd}, nd)
    a = g.lattice(c["l"])
    a2, shp2 = ch.lat(a), ch.axes(shp)
    b, b2 = g.build(c["b"], a), g.build(ch.desc(c["b"]), a2)
    v = arr(c["a"], b.n)
    v2 = ch.grid(v, g.shape(c["b"]))
    rng = np.random.default_rng(c["s"])
    ctx.nt(not ch.trivial and np.prod(shp) > 1)
    ctx.label(f"{nd}d", *ch.labels())
    sc = float(np.abs(v).sum()) + 1e-300
    p, p2 = {"basis": b, "data": ro(v)}, {"basis": b2, "data": ro(v2)}
    x = a.T @ rng.uniform(-2, 2, size=(nd, 5))
    close(get_continuous_potential(p2)(ro(ch.x(x))), get_continuous_potential(p)(ro(x)), "continuous potential", 1e-8, scale=sc)
    kmax = float(np.abs(g.recip(a)).sum() * max(shp))
    # the slopes along the Cartesian directions turn with the lattice
    slope = np.array([data(convert_potential_to_position_basis(get_potential_derivative(p, axis=i))) for i in range(nd)])
    slope2 = np.array([data(convert_potential_to_position_basis(get_potential_derivative(p2, axis=i))) for i in range(nd)])
    close(slope2 * ch.len, ch.q @ ch.grid(slope, shp), "derivative", 1e-8, scale=sc * kmax)
    u, u2 = BasisUtil(b), BasisUtil(b2)
    reach = float(np.abs(a).sum() * 3)
    close(u2.fundamental_x_points_stacked / ch.len, ch.x(ch.grid(u.fundamental_x_points_stacked, shp)) / ch.len, "sample points", 1e-10, scale=reach)
    close(u2.fundamental_stacked_k_points * ch.len, ch.k(ch.grid(u.fundamental_stacked_k_points, shp)) * ch.len, "momentum points", 1e-10, scale=kmax)
    close(abs(u2.volume) / ch.len**nd, abs(u.volume), "volume", 1e-9, atol=0)
    origin = a.T @ rng.uniform(-1, 1, size=nd)
    w1, w2 = wrap_x_point_around_origin(b, ro(x), ro(origin)), wrap_x_point_around_origin(b2, ro(ch.x(x)), ro(ch.x(origin)))
    edge = np.any(np.abs(np.abs(np.linalg.inv(a).T @ (w1 - origin[:, None])) - 0.5) < 1e-6, axis=0)
    close(w2[:, ~edge] / ch.len, ch.x(w1[:, ~edge]) / ch.len, "wrapped points", 1e-8, scale=reach)
    path = np.array(c["path"])
    tie = c["wrap"] and np.any(2 * np.abs(np.diff(path) % np.array(shp)[:, None]) == np.array(shp)[:, None])
    if not tie:
        for fn, unit, size in ((calculate_cumulative_x_distances_along_path, ch.len, reach), (calculate_cumulative_k_distances_along_path, 1 / ch.len, kmax)):
            close(fn(b2, path[list(ch.perm)], wrap_distances=c["wrap"]) / unit, fn(b, path, wrap_distances=c["wrap"]), fn.__name__, 1e-9, scale=size * 40)
    brag, brag2 = np.array(get_all_brag_point(b)), np.array(get_all_brag_point(b2))
    close(brag2 * ch.len, ch.k(ch.grid(brag, [3] * nd)) * ch.len, "Bragg points", 1e-9, scale=kmax)
    if nd == 3 and ch.perm[2] == 2:
        # the first two axes are centred on the origin: no sample point half a period away
        vals = rng.normal(size=shp) + 1j * rng.normal(size=shp)
        for ax in (0, 1):
            if shp[ax] % 2 == 0:
                vals[tuple(shp[ax] // 2 if q == ax else slice(None) for q in range(3))] = 0
        one = TupleBasis(FundamentalBasis(1), FundamentalBasis(1))
        k = g.recip(a).T @ rng.uniform(-4, 4, size=(3, 4))
        i1 = P.get_overlap_momentum_interpolator({"basis": TupleBasis(positions(a, shp), one), "data": ro(vals.reshape(-1))})
        i2 = P.get_overlap_momentum_interpolator({"basis": TupleBasis(positions(a2, shp2), one), "data": ro(ch.grid(vals.reshape(-1), shp))})
        close(i2(ro(ch.k(k))), i1(ro(k)), "interpolated overlap", 1e-8, scale=float(np.abs(vals).sum()))
        ctx.label("overlap")


# ------------------------------------------------------------------ noise
@st.composite
def noise_in(draw):
    nd = draw(st.integers(1, 3))
    shp = draw(g.fshapes((nd, nd), max_n=6, max_total=30, long=50))
    return {
        "shp": shp,
        "lat": draw(g.lattices(nd, kinds=("cubic", "ortho"))),
        "lam": draw(g.floats(0.1, 2)),
        "amp": draw(st.sampled_from([1.0, 0.01, 1e7])),
        "fn": draw(st.sampled_from(["gauss", "lorentz", "exp"])),
        "k": draw(st.integers(1, 8)),
        "flip": [draw(st.booleans()) for _ in range(nd)],
        "ch": draw(changes(nd)),
    }


@case("C25", noise_in(), quick=200)
def noise(c, ctx):
    """Kernels from correlation functions and their operators, with axes reordered, mirrored, moved, in other units of length and strength. Non-trivial: several points."""
    shp, nd = c["shp"], len(c["shp"])
    ch = Change({**c["ch"], "turn": 0}, nd)
    dx = g.lattice(c["lat"])
    # mirrored axes: lattice vectors of opposite direction
    # (the Cartesian directions follow the axes: displacements are defined for axis-aligned lattices, finding F2)
    dx2 = ch.lat(dx)[:, list(ch.perm)] * np.where(ch.axes(c["flip"]), -1.0, 1.0)[:, None]
    b, b2 = positions(dx, shp), positions(dx2, ch.axes(shp))
    n = b.n
    lam, amp = c["lam"] * c["lat"]["scale"], c["amp"]
    lam2, amp2 = lam * ch.len, 3.0 * amp
    f = {"gauss": lambda x: np.exp(-(x**2) / 2), "lorentz": lambda x: 1 / (1 + x**2), "exp": lambda x: np.exp(-np.abs(x))}[c["fn"]]
    ctx.nt(n > 1 and (not ch.trivial or any(c["flip"])))
    ctx.label(f"{nd}d", *ch.labels())
    k1 = B.build_isotropic_kernel_from_function_stacked(b, lambda x: f(x / lam).astype(complex))
    k2 = B.build_isotropic_kernel_from_function_stacked(b2, lambda x: f(x / lam2).astype(complex))
    close(data(k2), ch.grid(data(k1), shp), "isotropic kernel", 1e-9, scale=1.0)

    def both(fn, what, rtol=1e-9):
        """fn(basis, strength, length) gives an (n, n) diagonal kernel."""
        m1, m2 = fn(b, amp, lam, shp), fn(b2, amp2, lam2, ch.axes(shp))
        want = ch.grid(np.moveaxis(ch.grid(m1, shp, moved=True), 0, 1), shp, moved=True).T
        close(m2 / amp2**2, want / amp**2, what, rtol, scale=float(n))
        return m1

    def combined(ops):
        q = {**ops, "data": ro(data(ops)), "eigenvalue": ro(ops["eigenvalue"])}
        return data(K.get_diagonal_kernel_from_diagonal_operators(q)).reshape(n, n)

    both(lambda b, s, l, _: data(G.get_gaussian_noise_kernel(b, s, l)).reshape(n, n), "gaussian kernel")
    full = both(lambda b, s, l, _: combined(G.get_gaussian_noise_operators_periodic(b, s, l)), "gaussian operators")

    def axiswise(b, s, l, shp):
        iso = K.as_isotropic_kernel_from_axis(G.get_gaussian_axis_noise_kernel(b, s ** (1 / nd), l))
        return data(K.as_diagonal_kernel_from_isotropic_stacked(iso)).reshape(n, n)

    both(axiswise, "kernel from its axes")

    def fft(b, s, l, shp):
        iso = B.build_isotropic_kernel_from_function_stacked(b, lambda x: (s**2 * f(x / l)).astype(complex))
        return combined(S.get_periodic_noise_operators_isotropic_stacked_fft({"basis": iso["basis"], "data": ro(data(iso))}))

    both(fft, "operators of the isotropic kernel")
    # the strongest operators, where the strength kept and the strength left out differ
    e = np.sort(np.abs(np.linalg.eigvalsh(full)))[::-1]
    k = min(c["k"], n)
    if k < n and e[k - 1] - e[k] > 1e-3 * e[0]:
        both(lambda b, s, l, _: combined(G.get_gaussian_noise_operators_periodic(b, s, l, truncation=range(k))), "strongest operators", 1e-8)
        ctx.label("truncated")


# ------------------------------------------------------------------ trajectories
@st.composite
def track_in(draw):
    c = draw(runs(max_t=4))
    c["m"] = min(c["m"], 4)
    c["ch"] = draw(changes(len(c["shp"])))
    return c


@case("C25", track_in(), quick=150)
def trajectories(c, ctx):
    """Centre, wavevector and width of simulated states. Non-trivial: another description, several points along the axis."""
    shp, nd = c["shp"], len(c["shp"])
    ch = Change(c["ch"], nd)
    a, b, tb, states, x, k, times = run_of(c)
    v2 = ch.grid(x, shp, moved=True)
    i = c["ax"]
    j = ch.perm.index(i)
    pa = phase_average(c, x)
    unit = pa / (np.abs(x) ** 2).sum(axis=-1)
    turned = pa * np.exp(2j * np.pi * ch.shift[i] / shp[i])
    if not (safe_angles(pa) and safe_angles(turned)) or not np.all((np.abs(unit) < 1 - 1e-4) & (np.abs(unit) > 1e-4)):
        ctx.label("angle at a branch cut")
        return
    pos2 = {"basis": TupleBasis(states["basis"][0], positions(ch.lat(a), ch.axes(shp))), "data": ro(v2.reshape(-1))}
    pos1 = {"basis": TupleBasis(states["basis"][0], positions(a, shp)), "data": ro(x.reshape(-1))}
    one, two = (np.asarray(SP.get_coherent_coordinates(s, ax)["data"]).reshape(3, -1).real for s, ax in ((pos1, i), (pos2, j)))
    length = float(np.linalg.norm(a[i]))
    turn = (two[0] / ch.len - one[0]) / length - ch.shift[i] / shp[i]
    close(turn - np.round(turn), np.zeros(len(turn)), "centre", 1e-7, scale=1.0)
    close(two[1] * ch.len * length, one[1] * length, "wavevector", 1e-8, scale=10.0 * shp[i])
    close(two[2] / ch.len / length, one[2] / length, "width", 1e-7, scale=10.0)
    ctx.nt(not ch.trivial and shp[i] > 1)
    ctx.label(f"{nd}d", *ch.labels())



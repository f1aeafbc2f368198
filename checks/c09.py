"""C09: Hamiltonians equal kinetic plus potential energy. Tolerance 1e-9 relative to the largest matrix element."""
from __future__ import annotations

import math

import numpy as np
from hypothesis import strategies as st
from scipy.constants import hbar

from harness import gen as g
from harness import rust_standin
from harness.core import arr, case, close, data, ensure, ro
from surface_potential_analysis.basis.util import BasisUtil
from surface_potential_analysis.basis.basis import FundamentalPositionBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.hamiltonian_builder.momentum_basis import (
    hamiltonian_from_mass,
    hamiltonian_from_mass_in_basis,
    hamiltonian_from_potential,
    total_surface_hamiltonian,
)
from surface_potential_analysis.operator.conversion import convert_diagonal_operator_to_basis, convert_operator_to_basis
from surface_potential_analysis.stacked_basis.potential_basis import (
    get_potential_basis_config_basis,
    get_potential_basis_config_eigenstates,
    select_minimum_potential_3d,
)
from surface_potential_analysis.stacked_basis.sho_basis import (
    calculate_sho_wavefunction,
    calculate_x_distances,
    get_sho_potential_basis_config,
    infinate_sho_basis_3d_from_config,
    sho_basis_3d_from_config,
)

STANDIN = rust_standin.install()
from surface_potential_analysis.hamiltonian_builder import explicit_z_basis, sho_subtracted_basis  # noqa: E402

RT = 1e-9


@st.composite
def systems(draw, max_total=18, explicit=True):
    nd = draw(st.integers(1, 3))
    shp = draw(g.fshapes((nd, nd), max_n=8 if nd == 1 else 4, max_total=max_total, long=60))
    return {
        "shp": shp,
        "l": draw(g.lattices(nd)),
        "b": draw(g.basis_nd(shp, lengths=True, explicit=explicit)),
        "b1": draw(g.basis_nd(shp, lengths=True)),
        "m": draw(st.sampled_from([1.0, 0.2, 7.0])),
        "q": [draw(g.floats(-1.5, 1.5)) for _ in range(nd)],
        "q0": draw(st.booleans()),
        "a": draw(g.arrd()),
        "c": draw(g.floats(-5, 5)),
        "unit": draw(st.sampled_from([1.0, 1.0, 1e-20])),
    }


def kinetic(a, shp, mass, q):
    """Dense kinetic energy in position space, built from the reciprocal lattice."""
    b = g.recip(a)
    k = np.einsum("ij,ik->jk", b, g.gridk(shp) + np.asarray(q)[:, None])
    e = np.sum((hbar * k) ** 2, axis=0) / (2 * mass)
    f = g.ref({"t": "P", "of": [{"t": "FM", "n": n} for n in shp]})
    return f.T @ np.diag(e) @ f.conj(), e


def mass_for(c, a):
    """A mass giving kinetic energies of the order of the chosen energy unit."""
    return c["m"] * hbar**2 / np.linalg.norm(a[0]) ** 2 / c["unit"]


@case("C09", systems(), quick=500)
def momentum_hamiltonian(c, ctx):
    """Kinetic, potential and total Hamiltonian in any basis at any Bloch wavevector; non-trivial: non-zero wavevector or a skew/rotated lattice."""
    a = g.lattice(c["l"])
    nd = len(c["shp"])
    mass = mass_for(c, a)
    b = g.build(c["b"], a)
    r = g.ref(c["b"])
    q = np.zeros(nd) if c["q0"] else np.array(c["q"])
    ctx.nt(not c["q0"] or c["l"]["kind"] in ("skew", "rot", "hex"))
    ctx.label(c["l"]["kind"], f"{nd}d")
    kin, e = kinetic(a, c["shp"], mass, q)
    arg = None if c["q0"] else ro(q)
    hm = hamiltonian_from_mass(b, mass, arg)
    close(data(hm), e, "kinetic energies", RT, scale=float(e.max()) + c["unit"] * 1e-6)
    ensure(tuple(hm["basis"][0].shape) == tuple(c["shp"]), "momentum basis shape")
    close(hm["basis"][0].delta_x_stacked, a, "momentum basis lattice", 1e-12)
    sc = float(e.max()) + c["unit"]
    pos = TupleBasis(*[FundamentalPositionBasis(a[i], n) for i, n in enumerate(c["shp"])])
    full = convert_diagonal_operator_to_basis(hm, TupleBasis(pos, pos))
    close(data(full), kin, "kinetic energy in position", RT, scale=sc, flat=True)
    hb = hamiltonian_from_mass_in_basis(b, mass, arg)
    close(data(hb), r.conj() @ kin @ r.T, "kinetic energy in the basis", RT, scale=sc, flat=True)
    ensure(hb["basis"][0] == b and hb["basis"][1] == b, "kinetic basis")
    # potential given in the basis itself
    v = arr(c["a"], b.n, complex_=False) * c["unit"]
    if all(d["t"] in ("M", "FM", "EM") for d in c["b"]["of"]):
        v = v.astype(np.complex128)
    vp = v @ r
    hp = hamiltonian_from_potential({"basis": b, "data": ro(v)})
    vs = float(np.abs(vp).max()) + c["unit"] * 1e-6
    close(data(hp), r.conj() @ np.diag(vp) @ r.T, "potential energy", RT, scale=vs * 4, flat=True)
    ht = total_surface_hamiltonian({"basis": b, "data": ro(v)}, mass, arg)
    want = r.conj() @ (kin + np.diag(vp)) @ r.T
    close(data(ht), want, "total Hamiltonian", RT, scale=sc + vs, flat=True)
    ensure(ht["basis"][0] == b and ht["basis"][1] == b, "basis of the total")
    if np.abs(vp.imag).max() < 1e-12 * vs:
        m = data(ht).reshape(b.n, b.n)
        close(m, m.conj().T, "Hermitian", RT, scale=sc + vs)


@case("C09", systems(explicit=False), quick=300)
def spectra(c, ctx):
    """Real position potential: same spectrum in every complete basis, rigid shift with a constant; non-trivial: several samples and non-zero wavevector."""
    a = g.lattice(c["l"])
    nd, shp = len(c["shp"]), c["shp"]
    mass = mass_for(c, a)
    q = np.zeros(nd) if c["q0"] else np.array(c["q"])
    ctx.nt(int(np.prod(shp)) > 2 and not c["q0"])
    pos = TupleBasis(*[FundamentalPositionBasis(a[i], n) for i, n in enumerate(shp)])
    v = arr(c["a"], pos.n, complex_=False) * c["unit"]
    kin, e = kinetic(a, shp, mass, q)
    lam = np.linalg.eigvalsh(kin + np.diag(v))
    sc = float(np.abs(lam).max()) + c["unit"]
    h = total_surface_hamiltonian({"basis": pos, "data": ro(v)}, mass, ro(q))
    n = pos.n
    m = data(h).reshape(n, n)
    close(m, m.conj().T, "Hermitian", RT, scale=sc)
    close(np.linalg.eigvalsh(m), lam, "spectrum", 1e-9, scale=sc)
    shift = c["c"] * c["unit"]
    h2 = total_surface_hamiltonian({"basis": pos, "data": ro(v + shift)}, mass, ro(q))
    close(data(h2).reshape(n, n) - m, shift * np.eye(n), "constant offset", RT, scale=sc + abs(shift))
    d1 = c["b1"]
    b1 = g.build(d1, a)
    r = g.ref(d1)
    want = r.conj() @ (kin + np.diag(v)) @ r.T
    got = convert_operator_to_basis(h, TupleBasis(b1, b1))
    close(data(got), want, "projected onto another basis", RT, scale=sc * 2, flat=True)
    if b1.n == n:
        close(np.linalg.eigvalsh(data(got).reshape(n, n)), lam, "spectrum in another basis", 1e-9, scale=sc)
        # the potential handed over in another complete basis
        p1 = {"basis": b1, "data": ro(v @ r.conj().T)}
        got = total_surface_hamiltonian(p1, mass, ro(q))
        close(data(got), want, "potential given in another basis", RT, scale=sc * 2, flat=True)


@st.composite
def converged(draw):
    nd = draw(st.integers(1, 2))
    return {"nd": nd, "l": draw(g.lattices(nd)), "n": draw(st.sampled_from([17, 19, 20])) if nd == 1 else draw(st.sampled_from([9, 11])), "q": [draw(g.floats(-0.5, 0.5)) for _ in range(nd)], "g": [draw(st.integers(-1, 1)) for _ in range(nd)], "s": draw(st.integers(0, 999)), "unit": draw(st.sampled_from([1.0, 1e-21]))}


@case("C09", converged(), quick=80)
def reciprocal_shift(c, ctx):
    """Low-lying energies at q and at q plus a reciprocal lattice vector; non-trivial: a non-zero shift."""
    a = g.lattice(c["l"])
    nd, n = c["nd"], c["n"]
    ctx.nt(any(c["g"]))
    shp = [n] * nd
    mass = hbar**2 / np.linalg.norm(a[0]) ** 2 / c["unit"]
    pos = TupleBasis(*[FundamentalPositionBasis(a[i], k) for i, k in enumerate(shp)])
    x = g.gridpts(shp) / n * 2 * np.pi
    rng = np.random.default_rng(c["s"])
    v = sum(rng.normal() * np.cos(x[i] + rng.random()) for i in range(nd)) + rng.normal() * np.cos(x.sum(axis=0))
    v = v * c["unit"]
    w = []
    for q in (np.array(c["q"]), np.array(c["q"]) + np.array(c["g"])):
        h = total_surface_hamiltonian({"basis": pos, "data": ro(v)}, mass, q)
        w.append(np.linalg.eigvalsh(data(h).reshape(pos.n, pos.n))[:2])
    close(w[1], w[0], "lowest energies", 2e-4 if nd == 2 else 1e-6, scale=10 * c["unit"])


# ---------------------------------------------------------------- one dimensional eigenbases
@st.composite
def oscillators(draw):
    return {
        "n": draw(st.integers(24, 40)),
        "k": draw(st.integers(1, 6)),
        "dir": draw(st.integers(0, 3)),
        "w": draw(st.sampled_from([1.0, 1.3, 0.8])),
        "m": draw(st.sampled_from([1.0, 2.0])),
        "len": draw(st.sampled_from([1.0, 1e-10])),
        "off": draw(g.floats(-0.1, 0.1)),
        "perp": [draw(st.sampled_from([0.0, 0.0, 1.0, -3.0])) for _ in range(3)],
    }


def osc(c):
    dirs = [np.array([0, 0, 1.0]), np.array([1.0, 0, 0]), np.array([0, 1.0, 0]), np.array([1.0, 2.0, -2.0]) / 3]
    d = dirs[c["dir"]]
    length = 14.0 * c["len"]
    # hbar omega = w * unit with natural length len
    mass = c["m"] * hbar**2
    omega = c["w"] / (c["m"] * hbar * c["len"] ** 2)
    parent = FundamentalPositionBasis(d * length, c["n"])
    perp = np.array(c["perp"]) * c["len"]
    perp = perp - d * (perp @ d)
    cfg = {"sho_omega": omega, "mass": mass, "x_origin": -d * length * (0.5 + c["off"]) + perp}
    x = length * np.arange(c["n"]) / c["n"] - length * (0.5 + c["off"])
    return d, length, mass, omega, parent, cfg, x


def hermite_fn(x, n):
    """Normalised oscillator functions by the stable recursion."""
    p0 = np.pi**-0.25 * np.exp(-(x**2) / 2)
    if n == 0:
        return p0
    p1 = np.sqrt(2.0) * x * p0
    for k in range(1, n):
        p0, p1 = p1, np.sqrt(2 / (k + 1)) * x * p1 - np.sqrt(k / (k + 1)) * p0
    return p1


@case("C09", oscillators(), quick=200)
def oscillator_bases(c, ctx):
    """Oscillator functions, distances and bases on any axis direction; non-trivial: at least two states."""
    d, length, mass, omega, parent, cfg, x = osc(c)
    n, k = c["n"], c["k"]
    ctx.nt(k > 1)
    scale = np.sqrt(mass * omega / hbar)
    close(calculate_x_distances(parent, cfg["x_origin"]), x, "distances from the origin", 1e-9, scale=length)
    for i in range(k):
        want = np.sqrt(scale) * hermite_fn(x * scale, i)
        close(calculate_sho_wavefunction(ro(x), omega, mass, i), want, f"oscillator function {i}", 1e-9, scale=float(np.sqrt(scale)))
    inf = infinate_sho_basis_3d_from_config(parent, cfg, n=k)
    vec = np.asarray(inf.fundamental_raw_vectors).reshape(k, n)
    want = np.array([np.sqrt(scale * length / n) * hermite_fn(x * scale, i) for i in range(k)])
    close(vec, want, "infinite oscillator basis", 1e-9, scale=1.0)
    ensure(inf.n == k and inf.fundamental_n == n, "size")
    close(inf.delta_x, parent.delta_x, "length", 1e-12)
    pc = get_sho_potential_basis_config(parent, cfg, k)
    v = 0.5 * mass * omega**2 * x**2
    close(data(pc["potential"]), v, "oscillator potential", 1e-9, scale=float(v.max()))
    ensure(pc["n"] == k and pc["mass"] == mass, "configuration")
    kin, e = kinetic(np.array([[length]]), [n], mass, [0.0])
    w, u = np.linalg.eigh(kin + np.diag(v))
    es = get_potential_basis_config_eigenstates(pc)
    close(np.real(es["eigenvalue"]), w[:k], "energies", 1e-9, scale=float(w.max()))
    if omega * mass / hbar * (length * (0.5 - abs(c["off"]))) ** 2 > 25 and n * np.pi / length > 7 * scale:
        close(w[:k], hbar * omega * (np.arange(k) + 0.5), "oscillator energies", 1e-3, scale=float(hbar * omega * (k + 1)))
    sb = sho_basis_3d_from_config(parent, cfg, k)
    vec = np.asarray(sb.fundamental_raw_vectors).reshape(k, n)
    close(vec.conj() @ vec.T, np.eye(k), "orthonormal", 1e-9)
    h = kin + np.diag(v)
    close(h @ vec.T, vec.T * w[:k], "eigenstates of increasing energy", 1e-8, scale=float(w.max()))


@st.composite
def wells(draw):
    return {"n": draw(st.integers(3, 16)), "k": draw(st.integers(0, 20)), "s": draw(st.integers(0, 999)), "q": draw(st.sampled_from([None, 0.0, 0.3, -0.5, 1.2])), "l": draw(g.lattices(1)), "unit": draw(st.sampled_from([1.0, 1e-20])), "shape": [draw(st.integers(1, 3)), draw(st.integers(1, 3))]}


@case("C09", wells(), quick=250)
def potential_bases(c, ctx):
    """Lowest eigenstates of a one dimensional potential used as a basis; non-trivial: several states or a Bloch fraction."""
    a = np.abs(g.lattice(c["l"]))
    n, k = c["n"], 1 + c["k"] % c["n"]
    ctx.nt(k > 1 or c["q"] not in (None, 0.0))
    mass = hbar**2 / a[0, 0] ** 2 / c["unit"]
    b = TupleBasis(FundamentalPositionBasis(a[0], n))
    rng = np.random.default_rng(c["s"])
    v = rng.normal(size=n) * 10 * c["unit"]
    cfg = {"potential": {"basis": b, "data": ro(v)}, "mass": mass, "n": k}
    kin, e = kinetic(a, [n], mass, [c["q"] or 0.0])
    h = kin + np.diag(v)
    w = np.linalg.eigvalsh(h)
    es = get_potential_basis_config_eigenstates(cfg) if c["q"] is None else get_potential_basis_config_eigenstates(cfg, bloch_fraction=c["q"])
    sc = float(np.abs(w).max())
    close(np.real(es["eigenvalue"]), w[:k], "energies", 1e-9, scale=sc)
    vec = data(es).reshape(k, n)
    close(h @ vec.T, vec.T * w[:k], "eigenvalue equation", 1e-8, scale=sc)
    close(vec.conj() @ vec.T, np.eye(k), "orthonormal", 1e-9)
    if c["q"] is None:
        pb = get_potential_basis_config_basis(cfg)
        vec = np.asarray(pb.fundamental_raw_vectors).reshape(k, n)
        close(h @ vec.T, vec.T * w[:k], "basis states", 1e-8, scale=sc)
        ensure(pb.n == k, "number of states")
    # lowest line of a 3d potential
    s0, s1 = c["shape"]
    p3 = rng.normal(size=(s0, s1, n))
    b3 = TupleBasis(FundamentalPositionBasis(np.array([1.0, 0, 0]), s0), FundamentalPositionBasis(np.array([0.5, 1.0, 0]), s1), FundamentalPositionBasis(np.array([0, 0, a[0, 0]]), n))
    out = select_minimum_potential_3d({"basis": b3, "data": ro(p3).reshape(-1)})
    i, j, _ = np.unravel_index(np.argmin(p3), p3.shape)
    close(data(out), p3[i, j], "line through the minimum", 1e-14)
    close(out["basis"].delta_x_stacked, [[a[0, 0]]], "length of the line", 1e-12)


# ---------------------------------------------------------------- builders on the Rust extension
@st.composite
def surfaces(draw):
    n = [draw(st.integers(2, 5)), draw(st.integers(2, 5)), draw(st.integers(3, 7))]
    return {
        "n": n,
        "res": [draw(st.integers(1, n[0] // 2 + 1)), draw(st.integers(1, n[1] // 2 + 1))],
        "k": draw(st.integers(1, 3)),
        "l": draw(g.lattices(2)),
        "q": [draw(g.floats(-1, 1)), draw(g.floats(-1, 1))],
        "q0": draw(st.booleans()),
        "s": draw(st.integers(0, 999)),
        "m": draw(st.sampled_from([1.0, 3.0])),
    }


def surface(c):
    a2 = g.lattice(c["l"])
    a = np.zeros((3, 3))
    a[:2, :2] = a2
    a[2, 2] = 2.2 * c["l"]["scale"]
    n = c["n"]
    basis = TupleBasis(*[FundamentalPositionBasis(a[i], n[i]) for i in range(3)])
    rng = np.random.default_rng(c["s"])
    v = rng.normal(size=n)
    mass = c["m"] * hbar**2 / np.linalg.norm(a[0]) ** 2
    q = np.array([0.0, 0.0, 0.0]) if c["q0"] else np.array([*c["q"], 0.0])
    return a, basis, rng, v, mass, q


def xy_rows(c):
    return [g.ref({"t": "M", "n": c["res"][i], "N": c["n"][i]}) for i in range(2)]


@case("C09", surfaces(), quick=120)
def explicit_z_builder(c, ctx):
    """Hamiltonian in truncated in-plane momenta times eigenstates in height (Rust stand-in); non-trivial: truncated or non-zero wavevector."""
    a, basis, rng, v, mass, q = surface(c)
    n = c["n"]
    ctx.nt(not c["q0"] or c["res"] != n[:2])
    vz = rng.normal(size=n[2]) * 3
    cfg = {"potential": {"basis": TupleBasis(FundamentalPositionBasis(a[2, 2:], n[2])), "data": ro(vz).astype(np.complex128)}, "mass": mass, "n": c["k"]}
    args = ({"basis": basis, "data": ro(v).reshape(-1).astype(np.complex128)}, q, tuple(c["res"]), cfg)
    kz, _ = kinetic(a[2:, 2:], [n[2]], mass, [0.0])
    w, u = np.linalg.eigh(kz + np.diag(vz))
    if np.diff(w[: c["k"] + 1]).min() < 1e-6:
        return
    kin, e = kinetic(a, n, mass, q)
    full = kin + np.diag(v.reshape(-1))
    for f in (explicit_z_basis.total_surface_hamiltonian, explicit_z_basis.total_surface_hamiltonian_as_fundamental):
        h = f(*args)
        zb = h["basis"][0][2]
        vec = np.asarray(zb.fundamental_raw_vectors).reshape(c["k"], n[2])
        close(np.abs(vec @ u.conj()) ** 2, np.eye(n[2])[: c["k"]], "height states", 1e-7)
        r = np.einsum("ai,bj,ck->abcijk", *xy_rows(c), vec).reshape(-1, int(np.prod(n)))
        # eigenvectors of the real height problem may carry a constant phase; the extension conjugates the other
        # state, which agrees with the projection for real vectors only
        if np.abs(vec.imag).max() > 1e-9:
            ctx.label("complex height states")
            continue
        want = r.conj() @ full @ r.T
        m = data(h).reshape(want.shape)
        close(m, want, f.__name__, 1e-8, scale=float(np.abs(full).max()))
        check_surface_basis(h, a, c, c["k"], f.__name__, f is not explicit_z_basis.total_surface_hamiltonian)


def check_surface_basis(h, a, c, k, where, complete=False):
    """The two in-plane axes are truncated momenta of the cell, the third has k states in its height."""
    n = c["n"]
    for b in (h["basis"][0], h["basis"][1]):
        ensure(tuple(b.shape) == (*c["res"], k), f"{where}: shape {b.shape}")
        ensure(tuple(b.fundamental_shape) == ((*c["res"], n[2]) if complete else tuple(n)), f"{where}: fundamental shape {b.fundamental_shape}, sampled {n}")
        close(np.array([x.delta_x for x in b]), a, f"{where}: lattice of the basis", 1e-12)
        for i, r in enumerate([g.ref({"t": "FM", "n": q}) for q in c["res"]] if complete else xy_rows(c)):
            close(BasisUtil(b[i]).vectors, r, f"{where}: basis vectors of axis {i}", 1e-9, scale=1.0)


@case("C09", surfaces(), quick=120)
def oscillator_builder(c, ctx):
    """Hamiltonian in truncated in-plane momenta times oscillator states (Rust stand-in); non-trivial: truncated or non-zero wavevector."""
    a, basis, rng, v, mass, q = surface(c)
    n, k = c["n"], c["k"]
    ctx.nt(not c["q0"] or c["res"] != n[:2])
    dz = a[2, 2] / n[2]
    omega = hbar / mass / (0.25 * a[2, 2]) ** 2
    z0 = -0.4 * a[2, 2]
    cfg = {"sho_omega": omega, "mass": mass, "x_origin": np.array([0, 0, z0])}
    h = sho_subtracted_basis.total_surface_hamiltonian({"basis": basis, "data": ro(v).reshape(-1).astype(np.complex128)}, cfg, q, (*c["res"], k))
    z = z0 + dz * np.arange(n[2])
    s = np.sqrt(mass * omega / hbar)
    phi = np.array([np.sqrt(s) * hermite_fn(z * s, i) for i in range(k)])
    rx, ry = xy_rows(c)
    rxy = np.einsum("ai,bj->abij", rx, ry).reshape(rx.shape[0] * ry.shape[0], -1)
    kxy, _ = kinetic(a[:2, :2], n[:2], mass, q[:2])
    t = rxy.conj() @ kxy @ rxy.T
    want = np.kron(t, np.eye(k)) + np.kron(np.eye(t.shape[0]), np.diag(hbar * omega * (np.arange(k) + 0.5)))
    vs = v - 0.5 * mass * omega**2 * z**2
    pot = np.einsum("ax,xz,bx,iz,jz->aibj", rxy.conj(), vs.reshape(-1, n[2]), rxy, phi, phi) * dz
    want = want + pot.reshape(want.shape)
    m = data(h).reshape(want.shape)
    close(m, want, "oscillator Hamiltonian", 1e-8, scale=float(np.abs(want).max()))
    close(m, m.conj().T, "Hermitian", 1e-8, scale=float(np.abs(want).max()))
    check_surface_basis(h, a, c, k, "oscillator Hamiltonian")
    _ = math

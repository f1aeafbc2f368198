"""C16: incoherent hopping conserves probability and follows the rate equation."""
from __future__ import annotations

import numpy as np
import scipy.linalg
from hypothesis import strategies as st

from checks import c11
from checks.c15 import a_reference, bands, quiet, shifts3
from harness import gen as g
from harness.core import case, close, data, ensure, ro
from surface_potential_analysis.basis.basis import FundamentalBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.dynamics.incoherent_propagation import eigenstates as E
from surface_potential_analysis.dynamics.incoherent_propagation import isf as I
from surface_potential_analysis.dynamics.incoherent_propagation import tunnelling_matrix as T
from surface_potential_analysis.dynamics.tunnelling_basis import TunnellingSimulationBandsBasis, get_basis_from_shape

SCALE = st.sampled_from([1.0, 1.0, 1e-3, 1e9])


@st.composite
def jumps(draw, min_n=1):
    return {
        "shp": [draw(g.counts(min_n, 4, 9)), draw(st.integers(min_n, 4))],
        "nb": draw(st.integers(1, 3)),
        "s": draw(st.integers(0, 2**16)),
        "sparse": draw(st.sampled_from([0.0, 0.0, 0.3, 0.7])),
        "scale": draw(SCALE),
        "keep": draw(st.integers(1, 3)),
    }


def rate_table(c):
    """R[n0, n1, d1, d2], d stored at d + 1."""
    rng = np.random.default_rng(c["s"])
    r = rng.random((c["nb"], c["nb"], 3, 3)) * c["scale"]
    return r * (rng.random(r.shape) >= c["sparse"])


def jump_array(r, nb):
    """Library order [n0, n1, hop]."""
    out = np.zeros((nb, nb, 9))
    for k, (a, b) in enumerate(shifts3()):
        out[:, :, k] = r[:, :, a + 1, b + 1]
    return out


def a_sum(shp, nb, r):
    """A[x, y, n0, x', y', n1] of every hop, adding hops which reach the same site."""
    n1, n2 = shp
    a = np.zeros((n1, n2, nb) * 2)
    for x in range(n1):
        for y in range(n2):
            for d1, d2 in shifts3():
                a[x, y, :, (x + d1) % n1, (y + d2) % n2, :] += r[:, :, d1 + 1, d2 + 1]
    return a


def m_ref(a):
    """dp_i/dt = sum_j A_ji p_j - p_i sum_k A_ik, for i != j."""
    n = len(a)
    m = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            if i != j:
                m[i, j] += a[j, i]
                m[i, i] -= a[i, j]
    return m


@case("C16", jumps(), quick=200)
def rate_matrices(c, ctx):
    """Jump table -> A -> M against a site-by-site model; jump/A round trip; fewer bands keep the first. Non-trivial: two bands and more than one site."""
    nb, shp = c["nb"], tuple(c["shp"])
    r = rate_table(c)
    bb = bands(nb, c["s"])
    jump = {"basis": TupleBasis(bb, bb), "data": ro(jump_array(r, nb).astype(complex).reshape(-1))}
    with quiet():
        from_fn = T.get_jump_matrix_from_function(bb, lambda i, j, h: float(jump_array(r, nb)[i, j, h]))
    close(np.asarray(from_fn["data"]).reshape(-1), jump["data"], "jump table from function", rtol=1e-14)
    ensure(from_fn["basis"][0] is bb and from_fn["basis"][1] is bb, "basis of the jump table")
    a = T.get_a_matrix_from_jump_matrix(jump, shp)
    expected = a_sum(shp, nb, r)
    size = int(np.prod(shp)) * nb
    ensure(tuple(a["basis"][0].shape) == (*shp, nb) and tuple(a["basis"].shape) == (size, size), "basis of A")
    close(data(a), expected.reshape(-1), "A matrix", rtol=1e-12)
    close(a["basis"][0][2].locations, bb.locations, "locations of the bands", rtol=1e-14)
    keep = min(c["keep"], nb)
    some = T.get_a_matrix_from_jump_matrix(jump, shp, n_bands=keep)
    close(data(some), expected[:, :, :keep, :, :, :keep].reshape(-1), "A matrix of the first bands", rtol=1e-12)
    ensure(tuple(some["basis"][0].shape) == (*shp, keep), "basis of the first bands")
    a_in = {"basis": a["basis"], "data": ro(expected.astype(complex).reshape(-1))}
    reduced = T.get_a_matrix_reduced_bands(a_in, keep)
    close(data(reduced), expected[:, :, :keep, :, :, :keep].reshape(-1), "reduced A matrix", rtol=1e-14)
    ensure(tuple(reduced["basis"][0].shape) == (*shp, keep), "basis of the reduced matrix")
    close(reduced["basis"][0][2].locations, bb.locations[:, :keep], "locations of the reduced bands", rtol=1e-14)
    for k, flat in ((None, expected.reshape(size, size)), (keep, expected[:, :, :keep, :, :, :keep].reshape(size // nb * keep, -1))):
        m = T.get_tunnelling_m_matrix(a_in, k)
        e = m_ref(flat)
        close(data(m), e.reshape(-1), "M matrix", rtol=1e-12)
        scale = float(np.max(np.abs(e), initial=0)) or 1.0
        got = data(m).reshape(e.shape)
        close(got.sum(axis=0), np.zeros(len(e)), "columns sum to zero", rtol=1e-11, scale=scale)
        ensure(tuple(m["basis"].shape) == e.shape, "basis of M")
    if min(shp) >= 3:
        back = T.get_jump_matrix_from_a_matrix(a_in)
        close(np.asarray(back["data"]).reshape(-1), np.asarray(jump["data"]).reshape(-1), "jump table of A", rtol=1e-12)
        ensure(tuple(back["basis"].shape) == (nb, nb), "basis of the jump table of A")
        big = (shp[0] + 1, shp[1])
        again = T.resample_tunnelling_a_matrix(a_in, big, keep)
        close(data(again), a_sum(big, nb, r)[:, :, :keep, :, :, :keep].reshape(-1), "resampled A", rtol=1e-12)
    ctx.nt(nb > 1 and size > nb)
    ctx.label("small" if min(shp) < 3 else "3x3 or larger", f"{nb} bands")


@st.composite
def dynamics_in(draw):
    c = draw(jumps())
    c["shp"] = [min(q, 3) for q in c["shp"]]
    c["sym"] = draw(st.booleans())
    c["start"] = draw(st.sampled_from(["pure", "mixed"]))
    c["idx"] = draw(st.integers(0, 26))
    c["t"] = [draw(g.floats(0, 5)) for _ in range(draw(g.counts(1, 4, 40)))]
    return c


def system(c):
    nb, shp = c["nb"], tuple(c["shp"])
    r = rate_table(c)
    if c["sym"]:  # detailed balance with equal energies
        r = r + np.transpose(r, (1, 0, 2, 3))[:, :, ::-1, ::-1]
    a = a_sum(shp, nb, r)
    size = int(np.prod(shp)) * nb
    a = a.reshape(size, size)
    basis = get_basis_from_shape(shp, nb, bands(nb, c["s"]))
    m = m_ref(a)
    return basis, {"basis": TupleBasis(basis, basis), "data": ro(m.astype(complex).reshape(-1))}, m, a, size


def start(c, basis, size, rng):
    if c["start"] == "pure":
        k = c["idx"] % size
        at = k if c["idx"] % 2 else tuple(int(q) for q in np.unravel_index(k, basis.shape))
        p = T.get_initial_pure_density_matrix_for_basis(basis, at)
        e = np.zeros(size)
        e[k] = 1
        close(data(p), e, "pure initial state", rtol=1e-14)
        ensure(p["basis"][0] is basis and p["basis"][1] is basis, "basis of the pure state")
        return {"basis": p["basis"], "data": ro(data(p))}, e
    e = rng.random(size)
    e /= e.sum()
    return {"basis": TupleBasis(basis, basis), "data": ro(e.astype(complex))}, e


def well_conditioned(m, mat):
    """The eigenvector route needs a diagonalisable matrix. Rounding may also leave the computed modes of a repeated rate
    linearly dependent: every mode is right, but no state can be expanded in them."""
    lam, v = np.linalg.eig(m)
    if np.linalg.cond(v) >= 1e5:
        return False
    size = m.shape[0]
    if np.min(np.abs(lam[:, None] - lam[None]) + 9 * np.eye(size)) > 1e-6:
        return True
    with quiet():
        modes = E.calculate_tunnelling_eigenstates(mat)
    v, lam = data(modes).reshape(size, size), np.asarray(modes["eigenvalue"]).reshape(size, 1)
    scale = float(np.max(np.abs(data(mat)))) or 1.0
    right = np.allclose(v @ m.T, lam / scale * v, rtol=0, atol=1e-8) and np.allclose(np.linalg.norm(v, axis=1), 1)
    return not right or np.linalg.cond(v) < 1e5


@case("C16", dynamics_in(), quick=300)
def evolution(c, ctx):
    """exp(Mt) p0 at each time; total one; never negative; rates are the eigenvalues of M. Non-trivial: more than one state with hopping, a positive time."""
    basis, mat, m, a, size = system(c)
    scale = float(np.max(np.abs(m), initial=0)) or 1.0
    if not well_conditioned(m / scale, mat):
        ctx.label("nearly defective rate matrix (skipped)")
        return
    rng = np.random.default_rng(c["s"] + 1)
    initial, p0 = start(c, basis, size, rng)
    times = np.array(c["t"]) / c["scale"]
    expected = np.array([scipy.linalg.expm(m * t) @ p0 for t in times])
    with quiet():
        out = E.calculate_tunnelling_simulation_state(mat, initial, ro(times))
        states = E.calculate_tunnelling_eigenstates(mat)
    d = data(out).reshape(len(times), size)
    close(d, expected, "occupations", rtol=1e-7, scale=1.0)
    close(d.sum(axis=1), np.ones(len(times)), "total probability", rtol=1e-7)
    close(out["basis"][0].times, times, "times", rtol=1e-14, scale=float(np.max(times, initial=0)) or 1.0)
    ensure(out["basis"][1][0] is basis and out["basis"][1][1] is basis, "basis of the occupations")
    probs = T.density_matrix_list_as_probabilities(out)
    close(data(probs).reshape(d.shape), expected, "probabilities", rtol=1e-7, scale=1.0)
    ensure(probs["basis"][1] is basis and np.all(data(probs) > -1e-7), "probabilities are not negative")
    single = T.density_matrix_as_probability(initial)
    close(data(single), p0, "initial probability", rtol=1e-14)
    ensure(single["basis"] is basis, "basis of the initial probability")
    # modes: M v = rate v
    v = data(states).reshape(size, size)
    lam = np.asarray(states["eigenvalue"])
    ensure(states["basis"][1] is basis and lam.shape == (size,), "basis of the modes")
    close(v @ m.T / scale, lam[:, None] * v / scale, "modes of the rate matrix", rtol=1e-8, scale=1.0)
    ensure(np.max(lam.real) <= 1e-9 * scale, "no growing mode")
    coefficients = np.asarray(E.get_operator_state_vector_decomposition(initial, states))
    close(coefficients @ v, p0, "decomposition of the start", rtol=1e-7, scale=1.0)
    late = E.get_tunnelling_simulation_state(states, initial, ro(times))
    close(data(late).reshape(d.shape), expected, "occupations from modes", rtol=1e-7, scale=1.0)
    with quiet():
        dec = I.get_rate_decomposition(mat, initial)
    mine = np.linalg.eigvals(m) / scale
    got = np.asarray(dec.eigenvalues) / scale
    ensure(got.shape == (size,) and np.asarray(dec.coefficients).shape == (size,), "one coefficient per rate")
    # power sums identify the multiset of rates
    for q in (1, 2, 3):
        close(np.sum(got**q), np.sum(mine**q), f"rates (power sum {q})", rtol=1e-7, scale=float(np.sum(np.abs(mine) ** q)) or 1.0)
    gap = np.abs(got[:, None] - got[None]) + np.eye(size) * 9
    if np.all(gap > 1e-3):  # the modes of a repeated rate may be mixed
        order, other = np.lexsort((got.imag, got.real)), np.lexsort((lam.imag, lam.real))
        if np.allclose(got[order], lam[other] / scale, rtol=0, atol=1e-4):
            mag, ref = np.abs(np.asarray(dec.coefficients)[order]), np.abs(coefficients[other])
            close(mag, ref, "coefficients", rtol=1e-6, scale=float(np.max(ref)))
    ctx.nt(size > 1 and np.any(m) and np.any(times > 0))
    ctx.label(c["start"], "symmetric" if c["sym"] else "directed")


@st.composite
def ergodic(draw):
    c = draw(dynamics_in())
    c["sparse"] = 0.0
    return c


@case("C16", ergodic(), quick=150)
def equilibrium(c, ctx):
    """Equilibrium is the stationary distribution and the long-time limit. Non-trivial: two or more bands."""
    basis, mat, m, a, size = system(c)
    scale = float(np.max(np.abs(m), initial=0)) or 1.0
    if not well_conditioned(m / scale, mat):
        ctx.label("nearly defective rate matrix (skipped)")
        return
    lhs = np.vstack([m / scale, np.ones(size)])
    expected = np.linalg.lstsq(lhs, np.append(np.zeros(size), 1.0), rcond=None)[0]
    with quiet():
        out = E.calculate_equilibrium_state(mat)
        states = E.calculate_tunnelling_eigenstates(mat)
    close(data(out), expected, "equilibrium", rtol=1e-7, scale=float(np.max(expected)))
    ensure(out["basis"][0] is basis and out["basis"][1] is basis, "basis of the equilibrium")
    close(data(E.get_equilibrium_state(states)), expected, "equilibrium from modes", rtol=1e-7, scale=float(np.max(expected)))
    p = T.density_matrix_as_probability(out)
    close(np.sum(data(p)), 1.0, "total probability", rtol=1e-7)
    initial, p0 = start(c, basis, size, np.random.default_rng(c["s"] + 2))
    gap = np.sort(-np.linalg.eigvals(m / scale).real)[1] if size > 1 else 1.0
    with quiet():
        late = E.calculate_tunnelling_simulation_state(mat, initial, ro(np.array([40.0 / max(gap, 1e-3) / scale])))
    if gap > 1e-3:
        close(data(late).reshape(-1), expected, "long-time limit", rtol=1e-7, scale=float(np.max(expected)))
    ctx.nt(c["nb"] > 1)
    ctx.label("symmetric" if c["sym"] else "directed")


@case("C16", c11.problems().filter(lambda c: len(c["m"]) >= 2), quick=120)
def band_locations(c, ctx):
    """Bands taken from wavepackets sit, as a fraction of the unit cell, midway between the largest point of the zero wavevector state and its mirror image. Non-trivial: several points per cell."""
    if len(c["m"]) == 2:
        # a third axis with a single height
        c = {**c, "m": [*c["m"], 1], "big": [*c["big"], 1], "l": {**c["l"], "nd": 3}}
        c["b"] = {"t": "P", "of": [*c["b"]["of"], {"t": "F", "n": 1}]}
        c["list"] = {"t": "P", "of": [*c["list"]["of"], {"t": "FM", "n": 1}]}
    m, big = c["m"], c["big"]
    ctx.nt(m[0] * m[1] > 1)
    a, b, lb, wp, d, e, psi, rng = c11.bands(c)
    with quiet():
        out = TunnellingSimulationBandsBasis.from_wavepackets(wp)
    nb = wp["basis"][0][0].n
    ensure(out.n == nb and np.shape(out.locations) == (2, nb), f"{out.n} bands, expected {nb}")
    close(np.array(out.unit_cell), a[:2, :2], "unit cell", 1e-12)
    full = tuple(int(p * q) for p, q in zip(big, m))
    for j in range(nb):
        p = np.abs(psi[j, 0])
        top = np.argwhere(p.reshape(full) > p.max() * (1 - 1e-9))
        loc = np.asarray(out.locations)[:, j]
        ensure(np.all(np.abs(loc) <= 0.5 + 1e-9), f"location {loc} is not a fraction of the cell")

        def off(x, y):
            q = (2 * loc * np.array(m[:2]) - (x + y)) / m[:2]
            return float(np.max(np.abs(q - np.rint(q))))

        # the mirror image of a point depends on the cell it is taken in when the two sides differ
        near = [(x, y) for t in top for x in (t[0] % m[0], t[0] % m[0] - m[0]) for y in (t[1] % m[1], t[1] % m[1] - m[1]) if abs(x) <= m[0] / 2 and abs(y) <= m[1] / 2]
        ensure(min(off(*t) for t in near) < 1e-6, f"location {loc} is not between the maximum at {top[0]} and its mirror image in a cell of {m}")

"""C14: sampled noise has the covariance of its kernel."""
from __future__ import annotations

import contextlib
import itertools

import numpy as np
from hypothesis import strategies as st
from scipy.constants import hbar

from checks.c12 import diag_ref, pair
from harness import gen as g
from harness.core import arr, case, close, data, ensure, fail, ro
from surface_potential_analysis.basis.basis import FundamentalBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.kernel import sample as S

SIGMAS = 8.0


@contextlib.contextmanager
def seeded(seed):
    """Unseeded generators become reproducible (the oracle below does not rely on the seed)."""
    real, count = np.random.default_rng, itertools.count()

    def factory(s=None):
        return real([seed, next(count)] if s is None else s)

    np.random.default_rng = factory
    try:
        yield
    finally:
        np.random.default_rng = real


def expect_moment(x, y, expected, sx, sy, what):
    """Sample mean of conj(x) y over rows against its expectation, within 8 standard errors of complex Gaussians of variance sx, sy."""
    n = len(x)
    got = np.einsum("si,sj->ij", np.conj(x), y) / n
    tol = SIGMAS * np.sqrt(np.outer(sx, sy) / n) + 1e-12 * np.sqrt(np.max(np.outer(sx, sy), initial=0))
    bad = np.abs(got - expected) > tol
    if np.any(bad) or not np.all(np.isfinite(got)):
        i = tuple(int(q) for q in np.argwhere(bad)[0]) if np.any(bad) else (0, 0)
        fail(f"{what}: sample moment {got[i]:.4g}, expected {expected[i]:.4g} +- {tol[i]:.2g} over {n} samples")


def check_samples(v, cov, what):
    """v: (samples, points) complex circular noise of covariance E[conj(v_i) v_j] = cov."""
    sd = np.real(np.diag(cov))
    n = len(v)
    mean = np.mean(v, axis=0)
    if np.any(np.abs(mean) > SIGMAS * np.sqrt(sd / n) + 1e-12 * np.sqrt(np.max(sd, initial=0))):
        fail(f"{what}: mean {mean}, expected zero")
    expect_moment(v, v, cov, sd, sd, f"{what} covariance")
    expect_moment(np.conj(v), v, np.zeros_like(cov), sd, sd, f"{what} phase (circular noise)")
    expect_moment(v[:-1], v[1:], np.zeros_like(cov), sd, sd, f"{what} correlation of consecutive samples")
    h = n // 2
    expect_moment(v[:h], v[h : 2 * h], np.zeros_like(cov), sd, sd, f"{what} correlation of distant samples")


STRENGTH = st.sampled_from([1.0, 1e-6, 1e30, 1e68])


@st.composite
def ops_in(draw):
    n = draw(st.integers(1, 5))
    return {"n": n, "m": draw(st.integers(1, 4)), "a": draw(g.arrd()), "e": [draw(g.floats(0, 3)) for _ in range(4)], "scale": draw(STRENGTH), "seed": draw(st.integers(0, 2**16)), "full": draw(st.booleans())}


@case("C14", ops_in(), quick=150)
def covariance(c, ctx):
    """Noise from operators has E[conj(V) V] = hbar sum_a e_a conj(L_a) L_a. Non-trivial: two or more operators on two or more points."""
    n, m = c["n"], c["m"]
    b = FundamentalBasis(n)
    e = np.array(c["e"][:m]) * c["scale"]
    ns = 4000
    with seeded(c["seed"]):
        if c["full"]:
            o = arr(c["a"], (m, n, n))
            ops = {"basis": TupleBasis(FundamentalBasis(m), pair(b)), "data": ro(o.reshape(-1)), "eigenvalue": ro(e.astype(complex))}
            out = S.sample_noise_from_operators(ops, n_samples=ns)
            o = o.reshape(m, -1)
        else:
            o = arr(c["a"], (m, n))
            ops = {"basis": TupleBasis(FundamentalBasis(m), pair(b)), "data": ro(o.reshape(-1)), "eigenvalue": ro(e.astype(complex))}
            out = S.sample_noise_from_diagonal_operators(ops, n_samples=ns)
    ensure(out["basis"][0].n == ns, "number of samples")
    ensure(out["basis"][1][0] is b and out["basis"][1][1] is b, "basis of the noise")
    v = data(out).reshape(ns, -1)
    check_samples(v, hbar * diag_ref(e, o), "noise")
    ctx.nt(m > 1 and n > 1)
    ctx.label("full" if c["full"] else "diagonal", f"scale{c['scale']:g}")


@st.composite
def split_in(draw):
    n = draw(st.integers(1, 4))
    return {"n": n, "m": draw(st.integers(1, 4)), "a": draw(g.arrd(kinds=("rand",))), "e": [draw(g.floats(0.1, 3)) for _ in range(4)], "scale": draw(STRENGTH), "seed": draw(st.integers(0, 2**16)), "ns": draw(st.integers(1, 5))}


@case("C14", split_in(), quick=150)
def split(c, ctx):
    """Split noise: each component follows its own operator with its own strength, components are independent and add to the noise. Non-trivial: several operators."""
    n, m = c["n"], c["m"]
    b = FundamentalBasis(n)
    e = np.array(c["e"][:m]) * c["scale"]
    o = arr(c["a"], (m, n))
    ops = {"basis": TupleBasis(FundamentalBasis(m), pair(b)), "data": ro(o.reshape(-1)), "eigenvalue": ro(e.astype(complex))}
    for ns in (c["ns"], 3000):
        with seeded(c["seed"]):
            sp = S.sample_noise_from_diagonal_operators_split(ops, n_samples=ns)
        ensure(tuple(sp["basis"][0].shape) == (m, ns), "operators x samples")
        d = data(sp).reshape(m, ns, n)
        # every component is a multiple of its operator
        coef = np.einsum("ai,asi->as", o.conj(), d) / np.sum(np.abs(o) ** 2, axis=1)[:, None]
        close(coef[:, :, None] * o[:, None, :], d, "components follow the operators", rtol=1e-9)
        total = S.diagonal_operator_list_from_diagonal_split({"basis": sp["basis"], "data": ro(data(sp))})
        ensure(total["basis"][0].n == ns, "samples of the sum")
        close(data(total).reshape(ns, n), d.sum(axis=0), "sum of the components", rtol=1e-9)
        parts = S.get_diagonal_split_noise_components({"basis": sp["basis"], "data": ro(data(sp))})
        ensure(len(parts) == m, "number of components")
        for p, q in zip(parts, d, strict=True):
            ensure(p["basis"][0].n == ns, "samples of a component")
            close(data(p).reshape(ns, n), q, "component", rtol=1e-14)
    check_samples(coef.T, np.diag(hbar * e).astype(complex), "coefficients")
    ctx.nt(m > 1)


@st.composite
def kernel_in(draw):
    n = draw(st.integers(1, 5))
    return {"n": n, "u": draw(st.integers(0, 500)), "w": draw(st.integers(0, 2**16)), "k": draw(st.one_of(st.none(), st.integers(1, n))), "scale": draw(STRENGTH), "seed": draw(st.integers(0, 2**16))}


@case("C14", kernel_in(), quick=150)
def from_kernel(c, ctx):
    """Noise from a diagonal kernel has that kernel (or its strongest part, when truncated) as covariance. Non-trivial: two or more points."""
    n = c["n"]
    rng = np.random.default_rng(c["w"])
    w = np.sort((np.arange(1, n + 1) + 0.3 * rng.random(n)))[::-1] * c["scale"]
    u = g.ortho(n, n, c["u"])
    b = FundamentalBasis(n)
    kern = {"basis": TupleBasis(pair(b), pair(b)), "data": ro(diag_ref(w, u).reshape(-1))}
    ns = 4000
    with seeded(c["seed"]):
        out = S.sample_noise_from_diagonal_kernel(kern, n_samples=ns, truncation=None if c["k"] is None else range(c["k"]))
    k = n if c["k"] is None else c["k"]
    v = data(out).reshape(ns, n)
    cov = hbar * diag_ref(w[:k], u[:k])
    sd = np.real(np.diag(cov))
    # exactly no noise outside the operators kept
    rest = np.conj(u[k:]) @ v.T
    close(rest, np.zeros_like(rest), "dropped operators", rtol=0, atol=1e-9 * np.sqrt(hbar * w[0] * ns))
    check_samples(v, cov, "kernel noise")
    assert sd.size == n
    ctx.nt(n > 1)
    ctx.label("truncated" if k < n else "full")

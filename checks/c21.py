"""C21: closed-form dissipation integrals match their defining integrals."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st
from scipy.constants import electron_mass as M
from scipy.constants import elementary_charge as E
from scipy.constants import epsilon_0 as EPS
from scipy.constants import hbar

from harness import gen as g
from harness.core import case, close, ensure, ro
from surface_potential_analysis.dynamics import hermitian_gamma_integral as H

NODES, WEIGHTS = np.polynomial.legendre.leggauss(40)


def panels(f, a: float, b: float, n: int) -> complex:
    """Composite 40 point Gauss-Legendre rule."""
    edges = np.linspace(a, b, n + 1)
    half = (edges[1:] - edges[:-1])[:, None] / 2
    mid = (edges[1:] + edges[:-1])[:, None] / 2
    x = mid + half * NODES
    return np.sum(half * WEIGHTS * f(x.reshape(-1)).reshape(x.shape))


def fermi(x):
    return 0.5 * (1 - np.tanh(x / 2))


@st.composite
def metals(draw):
    """Fermi wavevector (1/m), temperature as a fraction of the Fermi energy, energy in units of k_B T."""
    return {
        "kf": draw(g.floats(0.3, 3.0)),
        "t": draw(st.sampled_from([0.0005, 0.003, 0.01, 0.02, 0.0003])),
        "w": draw(st.one_of(st.just(0.0), g.floats(-4, 4), g.floats(-12, 12))),
        "s": draw(g.floats(0.3, 3)),
        "x": draw(st.lists(g.floats(-15, 15), min_size=1, max_size=6)),
    }


def units(c):
    kf = c["kf"] * 1e10
    ef = (hbar * kf) ** 2 / (2 * M)
    kt = c["t"] * ef
    return kf, ef, kt, c["w"] * kt


@case("C21", metals(), quick=500)
def occupation(c, ctx):
    """Occupation factor: value at every momentum, detailed balance of gain and loss, positivity, scaling. Non-trivial: a nonzero energy transfer."""
    kf, ef, kt, w = units(c)
    ctx.nt(w != 0)
    x = np.array(c["x"])
    k = ro(np.sqrt(2 * M * (ef + kt * x)) / hbar)
    got = H.get_hermitian_gamma_occupation_integrand(k, omega=w, k_f=kf, boltzmann_energy=kt)
    exp = fermi(x) * fermi(-(x + c["w"]))
    ensure(np.all(np.abs(got - exp) <= 1e-9 / c["t"] * 1e-3 * exp + 1e-15), f"occupation factor {got}, expected {exp}")
    ensure(np.all(got >= 0) and np.all(got <= 1), "occupation factor outside 0..1")
    for i, q in enumerate(k):
        one = H.get_hermitian_gamma_occupation_integrand(q, omega=w, k_f=kf, boltzmann_energy=kt)
        ensure(abs(one - got[i]) <= 1e-9 / c["t"] * 1e-3 * got[i] + 1e-15, "scalar momentum")
    # detailed balance: the reverse process starts from the final momentum and gives the energy back
    k3 = ro(np.sqrt(k**2 + 2 * M * w / hbar**2))
    rev = H.get_hermitian_gamma_occupation_integrand(k3, omega=-w, k_f=kf, boltzmann_energy=kt)
    # the factors 1 - n lose digits when n is close to one
    ensure(np.all(np.abs(got - np.exp(c["w"]) * rev) <= 1e-8 * got + 1e-13 * np.exp(abs(c["w"]))), f"detailed balance {got} against {np.exp(c['w']) * rev}")
    s = c["s"]
    scaled = H.get_hermitian_gamma_occupation_integrand(k * s, omega=w * s * s, k_f=kf * s, boltzmann_energy=kt * s * s)
    ensure(np.all(np.abs(scaled - got) <= 1e-9 * got + 1e-14), "the occupation factor depends on energies over temperature only")


@case("C21", metals(), quick=400)
def occupation_integral(c, ctx):
    """Integral over momenta against an independent quadrature in energy, the Bose form, detailed balance, the zero frequency limit and scaling. Non-trivial: a nonzero energy transfer."""
    kf, ef, kt, w = units(c)
    ctx.nt(w != 0)
    got = H.calculate_hermitian_gamma_occupation_integral(w, kf, kt)
    bound = min(45.0, 0.999 / c["t"])

    def f(x):
        return fermi(x) * fermi(-(x + c["w"])) * kt * np.sqrt(M / (2 * (ef + kt * x))) / hbar

    exp = panels(f, -bound, bound, 60)
    unit = kt * M / (hbar**2 * kf)
    tol = 1e-5 * exp + 1e-7 * unit
    ensure(np.isfinite(got) and got > 0, f"occupation integral {got}")
    ensure(abs(got - exp) <= tol, f"occupation integral {got}, quadrature {exp}")
    bose = 1.0 if c["w"] == 0 else c["w"] / -np.expm1(-c["w"])
    wide = 3 * c["t"] * (2 + abs(c["w"]))
    ensure(abs(got - unit * bose) <= wide * unit * max(bose, 1e-3) + 1e-6 * unit, f"occupation integral {got} against the Bose form {unit * bose}")
    rev = H.calculate_hermitian_gamma_occupation_integral(-w, kf, kt)
    ensure(abs(got - np.exp(c["w"]) * rev) <= (wide + 1e-5) * got + 1e-6 * unit * np.exp(max(c["w"], 0)), "gain over loss is the Boltzmann factor")
    s = c["s"]
    scaled = H.calculate_hermitian_gamma_occupation_integral(w * s * s, kf * s, kt * s * s)
    ensure(abs(scaled - s * got) <= 1e-5 * s * got + 1e-7 * s * unit, "scaling of the occupation integral")


@st.composite
def overlaps(draw):
    return {
        "kf": draw(g.floats(0.3, 3.0)),
        "kind": draw(st.sampled_from(["one", "gauss", "phase", "two", "zero"])),
        "w": draw(g.floats(0.1, 3)),
        "d": draw(g.floats(-6, 6)),
        "re": draw(g.floats(-2, 2)),
        "im": draw(g.floats(-2, 2)),
        "t": draw(st.sampled_from([0.003, 0.01])),
        "e": draw(g.floats(-4, 4)),
    }


def overlap_of(c):
    z = complex(c["re"], c["im"])
    w, d = c["w"] * 1e-10, c["d"] * 1e-10

    def o(q):
        q = np.asarray(q)
        match c["kind"]:
            case "one":
                out = np.ones_like(q) * z
            case "gauss":
                out = z * np.exp(-((q * w) ** 2))
            case "phase":
                out = z * np.exp(-((q * w) ** 2) / 4 + 1j * q * d)
            case "two":
                out = z * (1 + np.cos(q * d)) + 1j * q * w
            case _:
                out = np.zeros_like(q)
        return np.complex128(out) if np.ndim(out) == 0 else out

    return o


@case("C21", overlaps(), quick=400)
def potential_integral(c, ctx):
    """Angular integral of the screened Coulomb interaction times the overlap, against a quadrature in the squared momentum transfer; linear and conjugate-symmetric in the overlap; the total is the product with the occupation integral. Non-trivial: an overlap that varies with momentum."""
    ctx.nt(c["kind"] in ("gauss", "phase", "two"))
    kf = c["kf"] * 1e10
    o = overlap_of(c)
    alpha = 2 * E**2 * M / (4 * np.pi * EPS * hbar**2)
    pre = 4 * M * kf**3 / (hbar * 2 * np.pi) ** 3

    def v(u):
        y = u * (kf / alpha) ** 2
        return -(E**2) / (EPS * alpha**2) * (2 + y) / (1 + y) ** 2

    # sin(phi) dphi = 2 du with u = sin(phi / 2)^2, substitute u = r^2 so that overlaps in |q| stay smooth
    def total(fn):
        return panels(lambda r: 2 * pre * v(r * r) ** 2 * fn(kf * r) * 2 * r, 0, 1, 12)

    sc = total(lambda q: np.abs(o(q))).real
    exp = total(o)
    got = complex(H.calculate_hermitian_gamma_potential_integral(kf, o))
    close(got, exp, "potential integral", rtol=1e-6, scale=sc, atol=1e-6)
    conj = complex(H.calculate_hermitian_gamma_potential_integral(kf, lambda q: np.conj(o(q))))
    close(conj, got.conjugate(), "conjugate overlap", rtol=1e-9, scale=sc, atol=1e-7)
    lin = complex(H.calculate_hermitian_gamma_potential_integral(kf, lambda q: np.complex128((2 - 1j) * o(q) + 3)))
    one = complex(H.calculate_hermitian_gamma_potential_integral(kf, lambda q: np.complex128(1)))
    ensure(one.real > 0 and abs(one.imag) <= 1e-9 * one.real, "unit overlap")
    close(lin, (2 - 1j) * got + 3 * one, "linear in the overlap", rtol=1e-6, scale=sc * 3 + 3 * one.real)
    real = complex(H.calculate_hermitian_gamma_potential_integral(kf, lambda q: np.float64(np.real(o(q)))))
    close(real, exp.real, "real overlap", rtol=1e-6, scale=sc, atol=1e-6)
    kt = c["t"] * (hbar * kf) ** 2 / (2 * M)
    w = c["e"] * kt
    full = complex(H.calculate_real_gamma_integral(omega=w, k_f=kf, boltzmann_energy=kt, overlap=o))
    occ = H.calculate_hermitian_gamma_occupation_integral(w, kf, kt)
    close(full, exp * occ, "total", rtol=1e-6, scale=sc * occ, atol=1e-6 * occ)

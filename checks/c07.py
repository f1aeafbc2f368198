"""C07: spectral decompositions and functions of operators. Residuals relative to the operator norm."""
from __future__ import annotations

import numpy as np
import scipy.linalg
from hypothesis import strategies as st
from matplotlib import pyplot as plt
from scipy.constants import Boltzmann

from harness import gen as g
from harness.core import case, close, data, ensure, ro
from surface_potential_analysis.basis.basis import FundamentalBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.operator import plot as op_plot
from surface_potential_analysis.operator.conversion import convert_operator_to_basis
from surface_potential_analysis.operator.operations import exp_operator
from surface_potential_analysis.operator.operator import apply_function_to_operator
from surface_potential_analysis.state_vector import eigenvalue_list_plot
from surface_potential_analysis.state_vector import plot as state_plot
from surface_potential_analysis.state_vector.conversion import convert_state_vector_list_to_basis, convert_state_vector_to_basis
from surface_potential_analysis.state_vector.eigenstate_calculation import (
    calculate_eigenvectors,
    calculate_eigenvectors_hermitian,
    calculate_expectation,
    calculate_expectation_list,
    get_eigenstate_basis_from_hamiltonian,
    get_eigenstate_basis_stacked_from_hamiltonian,
    operator_from_eigenstates,
)

SCALES = [1.0, 1.0, 50.0, 1e-20, 1e3]


@st.composite
def spaces(draw, nb=2, complete=True, max_total=16, lengths=False):
    nd = draw(st.integers(1, 3))
    shp = draw(g.fshapes((nd, nd), max_n=8 if nd == 1 else 4, max_total=max_total, long=40))
    any_ = g.basis_nd(shp, complete, lengths) if lengths else g.any_basis(shp, complete)
    return {
        "shp": shp,
        "b": [draw(any_) for _ in range(nb)],
        "l": draw(g.lattices(nd)),
        "s": draw(st.integers(0, 9999)),
        "spec": draw(st.sampled_from(["random", "degenerate", "constant", "clustered", "negative"])),
        "scale": draw(st.sampled_from(SCALES)),
        "lo": draw(st.integers(0, 20)),
        "hi": draw(st.integers(0, 20)),
        "real": draw(st.booleans()),
    }


def spectrum(c, n):
    rng = np.random.default_rng(c["s"])
    k = c["spec"]
    lam = rng.normal(size=n)
    if k == "degenerate":
        lam = rng.integers(-1, 2, size=n).astype(float)
    elif k == "constant":
        lam = np.full(n, lam[0])
    elif k == "clustered":
        lam = np.where(np.arange(n) % 2, 1.0, 1.0 + 1e-7 * lam)
    elif k == "negative":
        lam = -5 - np.abs(lam)
    return rng.permutation(lam) * c["scale"]


def unitary(n, seed, real=False):
    rng = np.random.default_rng(seed + 77)
    m = rng.normal(size=(n, n)) + (0 if real else 1j * rng.normal(size=(n, n)))
    return np.linalg.qr(m)[0].astype(np.complex128)


def herm(c, n):
    lam = spectrum(c, n)
    u = unitary(n, c["s"], c["real"])
    h = (u * lam) @ u.conj().T
    return np.sort(lam), (h + h.conj().T) / 2


def opr(m, b):
    return {"basis": TupleBasis(b, b), "data": ro(m).reshape(-1)}


def norm_of(lam):
    return float(np.abs(lam).max()) + 1e-300


@case("C07", spaces(), quick=500)
def hermitian(c, ctx):
    """Eigenstates of a Hermitian operator, complete or a subset, in any basis; non-trivial: at least two states."""
    b0, b1 = (g.build(d) for d in c["b"])
    n = b0.n
    ctx.nt(n > 1)
    ctx.label(c["spec"])
    lam, h = herm(c, n)
    sc = norm_of(lam)
    o = opr(h, b0)
    lo = c["lo"] % n
    hi = lo + c["hi"] % (n - lo)
    for sub in (None, (lo, hi), (0, hi)):
        try:
            out = calculate_eigenvectors_hermitian(o, sub) if sub is not None else calculate_eigenvectors_hermitian(o)
        except np.linalg.LinAlgError:
            # LAPACK's subset solver reports (loudly) that it gave up on some tightly clustered spectra
            if sub is None:
                raise
            ctx.label("subset solver gave up")
            continue
        sel = lam if sub is None else lam[sub[0] : sub[1] + 1]
        k = sel.size
        ensure(tuple(out["basis"].shape) == (k, n) and out["basis"][1] == b0, f"shape {out['basis'].shape} for subset {sub}")
        ev = np.asarray(out["eigenvalue"])
        close(np.imag(ev), np.zeros(k), "eigenvalues are real", 1e-12, scale=sc)
        close(np.real(ev), sel, f"eigenvalues {sub}", 1e-10, scale=sc * 4)
        ensure(np.all(np.diff(np.real(ev)) >= -1e-12 * sc), "ascending eigenvalues")
        v = data(out).reshape(k, n)
        close(v.conj() @ v.T, np.eye(k), "orthonormal eigenstates", 1e-9)
        close(h @ v.T, v.T * np.real(ev), "eigenvalue equation", 1e-9, scale=sc * 4)
        if sub is None:
            back = operator_from_eigenstates(out)
            close(data(back), h, "reassembled operator", 1e-9, scale=sc * 4, flat=True)
            ensure(back["basis"][0] == b0, "basis of the reassembled operator")
    # independent of the basis
    o1 = convert_operator_to_basis(o, TupleBasis(b1, b1))
    out1 = calculate_eigenvectors_hermitian(o1)
    close(np.real(out1["eigenvalue"]), lam, "eigenvalues in another basis", 1e-10, scale=sc * 4)
    v = data(convert_state_vector_list_to_basis(out1, b0)).reshape(n, n)
    close(h @ v.T, v.T * np.real(out1["eigenvalue"]), "eigenvalue equation for states from another basis", 1e-9, scale=sc * 8)
    ex = calculate_expectation_list(o, out1)
    close(data(ex), lam, "expectation values in eigenstates", 1e-9, scale=sc * 8)


@case("C07", spaces(), quick=300)
def expectation_from_amplitudes(c, ctx):
    """<A> equals the eigenvalues weighted by squared amplitudes in the eigenbasis; non-trivial: superposition of distinct eigenvalues."""
    b0, b1 = (g.build(d) for d in c["b"])
    n = b0.n
    lam, h = herm(c, n)
    ctx.nt(n > 1 and c["spec"] != "constant")
    rng = np.random.default_rng(c["s"] + 1)
    psi = rng.normal(size=n) + 1j * rng.normal(size=n)
    o = opr(h, b0)
    st1 = convert_state_vector_to_basis({"basis": b0, "data": ro(psi)}, b1)
    got = calculate_expectation(o, st1)
    es = calculate_eigenvectors_hermitian(o)
    amp = data(es).reshape(n, n).conj() @ psi
    close(got, np.sum(np.abs(amp) ** 2 * np.real(es["eigenvalue"])), "expectation value", 1e-9, scale=norm_of(lam) * n * 10)
    close(got, psi.conj() @ h @ psi, "expectation value", 1e-9, scale=norm_of(lam) * n * 10)
    eb = get_eigenstate_basis_from_hamiltonian(o)
    inb = convert_state_vector_to_basis(st1, eb)
    close(np.abs(data(inb)), np.abs(amp), "amplitudes in the eigenbasis", 1e-8, scale=10.0)


@case("C07", spaces(lengths=True), quick=300)
def eigenbases(c, ctx):
    """The basis of the lowest eigenstates diagonalises the operator; non-trivial: a strict subset."""
    nd = len(c["shp"])
    a = g.lattice(c["l"])
    b0 = g.build(c["b"][0], a)
    n = b0.n
    lam, h = herm(c, n)
    sc = norm_of(lam)
    k = 1 + c["hi"] % n
    ctx.nt(k < n)
    o = opr(h, b0)
    for f in (get_eigenstate_basis_from_hamiltonian, get_eigenstate_basis_stacked_from_hamiltonian):
        try:
            eb = f(o, (0, k - 1))
        except np.linalg.LinAlgError:
            ctx.label("subset solver gave up")
            continue
        ensure(eb.n == k, f"{f.__name__}: size {eb.n} != {k}")
        m = convert_operator_to_basis(o, TupleBasis(eb, eb))
        close(data(m), np.diag(lam[:k]), f"{f.__name__}: operator in its eigenbasis", 1e-9, scale=sc * 4, flat=True)
        vec = np.asarray(eb.fundamental_raw_vectors).reshape(k, -1)
        close(vec.conj() @ vec.T, np.eye(k), f"{f.__name__}: orthonormal basis", 1e-9)
        r = g.ref(c["b"][0])
        dh = r.T @ h @ r.conj()
        close(dh @ vec.T, vec.T * lam[:k], f"{f.__name__}: eigenvectors in position space", 1e-9, scale=sc * 8)
    eb = get_eigenstate_basis_stacked_from_hamiltonian(o)
    close(eb.delta_x_stacked, a, "lattice kept", 1e-12)
    ensure(eb.n == n and nd == eb.ndim, "complete eigenbasis")


@case("C07", spaces(), quick=400)
def general(c, ctx):
    """Non-Hermitian (diagonalisable) operators: eigenvalue equation, reassembly, functions; non-trivial: non-normal and size > 1."""
    b0, b1 = (g.build(d) for d in c["b"])
    n = b0.n
    ctx.nt(n > 1)
    rng = np.random.default_rng(c["s"])
    lam = rng.permutation(np.arange(n)) / max(n, 1) + 0.3j * rng.normal(size=n)
    if c["spec"] == "degenerate":
        lam = lam * 0 + np.round(lam.real)
    lam = lam * c["scale"]
    v = unitary(n, c["s"]) + 0.3 * unitary(n, c["s"] + 5) @ np.diag(rng.random(n))
    m = v @ np.diag(lam) @ np.linalg.inv(v)
    cond = np.linalg.cond(v)
    tol = 1e-9 * cond**2
    o = opr(m, b0)
    es = calculate_eigenvectors(o)
    w = data(es).reshape(n, n)
    ev = np.asarray(es["eigenvalue"])
    sc = 4.0 * c["scale"] + float(np.abs(m).max())
    close(m @ w.T, w.T * ev, "eigenvalue equation", tol, scale=sc)
    close(np.linalg.norm(w, axis=1), np.ones(n), "normalised eigenstates", 1e-9)
    if c["spec"] != "degenerate":
        a, e = np.sort_complex(np.round(ev / c["scale"], 6)), np.sort_complex(np.round(lam / c["scale"], 6))
        dist = np.abs(ev[:, None] - lam[None, :])
        ensure(dist.min(axis=0).max() < 1e-6 * c["scale"] and dist.min(axis=1).max() < 1e-6 * c["scale"], f"eigenvalues {a} vs {e}")
        close(data(operator_from_eigenstates(es)), m, "reassembled operator", tol * 10, scale=sc, flat=True)
        m, lam, sc = m / c["scale"], lam / c["scale"], sc / c["scale"]
        o = opr(m, b0)
        close(data(exp_operator(o)), scipy.linalg.expm(m), "exponential", tol * 10, scale=sc * 4, flat=True)
        for fn, exp in (
            (np.exp, scipy.linalg.expm(m)),
            (lambda x: x**3 - 2j * x + 0.5, m @ m @ m - 2j * m + 0.5 * np.eye(n)),
            (lambda x: 0 * x + 2.0, 2 * np.eye(n)),
            (lambda x: 1 / (x + 3), np.linalg.inv(m + 3 * np.eye(n))),
        ):
            got = apply_function_to_operator(o, fn)
            close(data(got), exp, "function of an operator", tol * 10, scale=sc * 10, flat=True)
            ensure(got["basis"][0] == b0, "basis")
        o1 = convert_operator_to_basis(o, TupleBasis(b1, b1))
        e1 = convert_operator_to_basis(exp_operator(o1), TupleBasis(b0, b0))
        close(data(e1), scipy.linalg.expm(m), "exponential computed in another basis", tol * 10, scale=sc * 4, flat=True)


@st.composite
def eigensystems(draw):
    nd = draw(st.integers(1, 2))
    shp = draw(g.fshapes((nd, nd), max_n=8 if nd == 1 else 4, max_total=10, long=30))
    return {
        "b": [draw(g.any_basis(shp, True)), draw(g.any_basis(shp, True))],
        "s": draw(st.integers(0, 9999)),
        "states": draw(st.sampled_from(["unit vectors", "real", "whole", "complex"])),
        "values": draw(st.sampled_from(["real", "complex", "imaginary", "repeated"])),
        "scale": draw(st.sampled_from(SCALES)),
    }


@case("C07", eigensystems(), quick=200)
def given_eigensystem(c, ctx):
    """The operator which has the given states and numbers as its eigensystem; non-trivial: more than one state, complex eigenvalues."""
    b0, b1 = (g.build(d) for d in c["b"])
    n = b0.n
    ctx.nt(n > 1 and c["values"] != "real")
    ctx.label(c["states"], c["values"])
    rng = np.random.default_rng(c["s"])
    v = np.eye(n)[rng.permutation(n)]
    if c["states"] == "real":
        v = np.linalg.qr(rng.normal(size=(n, n)))[0] + 0.2 * rng.random((n, n)) / n
    elif c["states"] == "whole":
        v = np.triu(rng.integers(-2, 3, size=(n, n)), 1) / max(1, n // 3) + np.diag(rng.choice([-1.0, 1.0, 2.0], size=n))
    elif c["states"] == "complex":
        v = unitary(n, c["s"]) + 0.2 * rng.random((n, n)) / n
    lam = rng.normal(size=n) * c["scale"]
    if c["values"] == "imaginary":
        lam = 1j * lam
    elif c["values"] == "complex":
        lam = lam + 1j * rng.normal(size=n) * c["scale"]
    elif c["values"] == "repeated":
        lam = lam[np.arange(n) // 2] * np.exp(0.7j)
    tol = 1e-11 * np.linalg.cond(v) ** 2
    exp = v.T @ np.diag(lam) @ np.linalg.inv(v.T)
    sc = float(np.abs(lam).max()) + 1e-300
    states = {"basis": TupleBasis(FundamentalBasis(n), b0), "data": ro(v).reshape(-1), "eigenvalue": ro(lam)}
    out = operator_from_eigenstates(states)
    ensure(out["basis"][0] == b0 and out["basis"][1] == b0, "basis of the operator")
    close(data(out), exp, "operator with the given eigensystem", tol, scale=sc, flat=True)
    there = convert_state_vector_list_to_basis(states, b1)
    other = convert_operator_to_basis(operator_from_eigenstates({**there, "eigenvalue": ro(lam)}), TupleBasis(b0, b0))
    close(data(other), exp, "the same in another basis", tol * 10, scale=sc, flat=True)


@case("C07", spaces(), quick=250)
def functions_of_hermitian(c, ctx):
    """Exponentials and functions of Hermitian operators, including degenerate ones; non-trivial: size > 1."""
    b0, b1 = (g.build(d) for d in c["b"])
    n = b0.n
    ctx.nt(n > 1)
    c = {**c, "scale": 1.0, "spec": "random" if c["spec"] == "clustered" else c["spec"]}
    lam, h = herm(c, n)
    w, u = np.linalg.eigh(h)
    o = opr(1j * h, b0)
    for got, e in (
        (exp_operator(o), np.exp(1j * w)),
        (apply_function_to_operator(opr(h, b0), lambda x: np.sin(x)), np.sin(w)),
        (apply_function_to_operator(opr(h, b0), lambda x: np.exp(-x / 2)), np.exp(-w / 2)),
    ):
        close(data(got), (u * e) @ u.conj().T, "function of a Hermitian operator", 1e-7, scale=float(np.abs(e).max()), flat=True)
    x = exp_operator(o)
    m = data(x).reshape(n, n)
    close(m @ m.conj().T, np.eye(n), "exp(iH) is unitary", 1e-7)
    y = convert_operator_to_basis(exp_operator(convert_operator_to_basis(o, TupleBasis(b1, b1))), TupleBasis(b0, b0))
    close(data(y), m, "independent of the basis", 1e-7, scale=1.0, flat=True)


def line_of(out):
    ln = [q for q in out if hasattr(q, "get_xdata")]
    return ln[0] if ln else out[1].lines[-1]


@case("C07", spaces(max_total=10), quick=120)
def occupations(c, ctx):
    """Thermal (Boltzmann) occupations and occupations of states per eigenvalue as plotted; non-trivial: size > 1 and distinct energies."""
    b0, b1 = (g.build(d) for d in c["b"])
    n = b0.n
    ctx.nt(n > 1 and c["spec"] != "constant")
    c = {**c, "spec": "random" if c["spec"] == "clustered" else c["spec"]}
    lam, h = herm(c, n)
    sc = norm_of(lam)
    temp = (0.05 + (c["lo"] % 7)) * c["scale"] / Boltzmann
    o = opr(h, b0)
    kinds = {"general": lambda: op_plot.plot_eigenstate_occupations(o, temp), "list": lambda: eigenvalue_list_plot.plot_eigenstate_occupations(calculate_eigenvectors_hermitian(o), temp)}
    try:
        for name, f in kinds.items():
            ln = line_of(f())
            x, y = np.asarray(ln.get_xdata()).astype(complex).real, np.asarray(ln.get_ydata()).astype(complex).real
            exp = np.exp(-(lam - lam[0]) / (temp * Boltzmann))
            exp = exp / exp.sum()
            close(x, lam - lam[0], f"{name}: energies above the lowest", 1e-9, scale=sc * 4)
            close(y, exp, f"{name}: Boltzmann weights", 1e-7, scale=1.0)
            plt.close("all")
        rng = np.random.default_rng(c["s"] + 1)
        k = 1 + c["hi"] % 3
        psi = rng.normal(size=(k, n)) + 1j * rng.normal(size=(k, n))
        psi /= np.linalg.norm(psi, axis=1)[:, None]
        states = convert_state_vector_list_to_basis({"basis": TupleBasis(FundamentalBasis(k), b0), "data": ro(psi).reshape(-1)}, b1)
        fig, ax = state_plot.plot_all_eigenstate_occupations(o, states)
        ensure(len(ax.lines) == k, "one line per state")
        per = []
        w, u = np.linalg.eigh(h)
        group = np.concatenate([[0], np.cumsum(np.diff(w) > 1e-6 * sc)])
        expected = np.abs(psi @ u.conj()) ** 2
        for i, ln in enumerate(ax.lines):
            x, y = np.asarray(ln.get_xdata()), np.asarray(ln.get_ydata())
            close(x, lam - lam[0], "energies", 1e-9, scale=sc * 4)
            close(y.sum(), 1.0, "occupations sum to one", 1e-9)
            close(np.bincount(group, y), np.bincount(group, expected[i]), "occupation of each level", 1e-8, scale=1.0)
            per.append(y)
        avg = line_of(state_plot.plot_average_eigenstate_occupation(o, states))
        close(np.asarray(avg.get_ydata()), np.mean(per, axis=0), "average occupation", 1e-9, scale=1.0)
        one = state_plot.plot_eigenstate_occupation(o, {"basis": b1, "data": data(states).reshape(k, -1)[0]})
        close(np.asarray(line_of(one).get_ydata()), per[0], "occupation of one state", 1e-9, scale=1.0)
    finally:
        plt.close("all")

"""C13: forms of a noise kernel, correlation functions and temperature corrections."""
from __future__ import annotations

import functools

import numpy as np
from hypothesis import strategies as st
from scipy.constants import Boltzmann, hbar

from checks.c12 import diag_ref, full_ref, iso_matrix, pair, random_isotropic, rows
from harness import gen as g
from harness.core import arr, case, close, data, ensure, hermitian, raises, ro
from surface_potential_analysis.basis.basis import FundamentalBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.kernel import build as B
from surface_potential_analysis.kernel import conversion as C
from surface_potential_analysis.kernel import gaussian as G
from surface_potential_analysis.kernel import kernel as K
from surface_potential_analysis.kernel import lorentzian as L

SCALES = st.sampled_from([1.0, 1.0, 1e-12, 1e13])


# ------------------------------------------------------------------ forms
@st.composite
def fulldiag_in(draw):
    return {"n": draw(st.integers(1, 5)), "m": draw(g.counts(1, 5, 40)), "a": draw(g.arrd()), "f": draw(g.arrd())}


@case("C13", fulldiag_in(), quick=400)
def full_and_diagonal(c, ctx):
    """Diagonal kernel <-> full kernel element by element, also between different bases. Non-trivial: n != m or several elements."""
    n, m = c["n"], c["m"]
    b0, b1 = FundamentalBasis(n), FundamentalBasis(m)
    basis = TupleBasis(pair(b0), pair(b1))
    d = arr(c["a"], (n, m))
    full = np.zeros((n, n, m, m), dtype=complex)
    for i in range(n):
        for j in range(m):
            full[i, i, j, j] = d[i, j]
    out = K.as_full_kernel_from_diagonal({"basis": basis, "data": ro(d.reshape(-1))})
    close(data(out).reshape(n, n, m, m), full, "full", rtol=1e-14)
    ensure(out["basis"].shape == basis.shape, "basis")
    any_full = arr(c["f"], (n, n, m, m))
    back = K.as_diagonal_kernel_from_full({"basis": basis, "data": ro(any_full.reshape(-1))})
    close(data(back).reshape(n, m), np.einsum("iijj->ij", any_full), "diagonal part", rtol=1e-14)
    close(data(K.as_diagonal_kernel_from_full({"basis": out["basis"], "data": ro(data(out))})), d.reshape(-1), "round trip", rtol=1e-14)
    ctx.nt(n > 1 and m > 1)
    ctx.label("square" if n == m else "rectangular")


@st.composite
def iso_in(draw):
    shp = draw(g.fshapes(ndim=(1, 3), max_n=7, max_total=36, long=80))
    return {"shp": shp, "a": draw(g.arrd()), "herm": draw(st.booleans()), "scale": draw(SCALES), "i": draw(st.integers(0, 10**6))}


@case("C13", iso_in(), quick=500)
def isotropic_and_diagonal(c, ctx):
    """Isotropic kernel <-> diagonal kernel in any dimension; non-isotropic ones are refused. Non-trivial: more than two points."""
    shp = tuple(c["shp"])
    n = int(np.prod(shp))
    beta = random_isotropic(c["a"], shp, c["herm"]) * c["scale"]
    b = TupleBasis(*[FundamentalBasis(q) for q in shp])
    exp = iso_matrix(beta, g.gridpts(shp), shp)
    out = K.as_diagonal_kernel_from_isotropic_stacked({"basis": b, "data": ro(beta.reshape(-1))})
    close(data(out).reshape(n, n), exp, "diagonal form", rtol=1e-14)
    ensure(out["basis"].n == n**4, "basis of the diagonal form")
    back = K.as_isotropic_kernel_from_diagonal_stacked({"basis": out["basis"], "data": ro(exp.reshape(-1))})
    close(data(back), beta.reshape(-1), "isotropic form", rtol=1e-14)
    # a generic diagonal kernel: the column of state zero, or a refusal
    bad = exp.copy()
    bad.flat[c["i"] % bad.size] += 0.5 * (np.max(np.abs(beta)) or 1.0)
    bk = {"basis": out["basis"], "data": ro(bad.reshape(-1))}
    close(data(K.as_isotropic_kernel_from_diagonal_stacked(bk, assert_isotropic=False)), bad[:, 0], "column of state 0", rtol=1e-14)
    if n > 1:
        ensure(raises(lambda: K.as_isotropic_kernel_from_diagonal_stacked(bk), AssertionError), "non-isotropic kernel accepted")
    # one dimensional (flat) forms
    fb = FundamentalBasis(n)
    fbeta = random_isotropic(c["a"], (n,), c["herm"]) * c["scale"]
    fexp = iso_matrix(fbeta, np.arange(n)[None, :], (n,))
    fout = K.as_diagonal_kernel_from_isotropic({"basis": fb, "data": ro(fbeta)})
    close(data(fout).reshape(n, n), fexp, "flat diagonal form", rtol=1e-14)
    fback = K.as_isotropic_kernel_from_diagonal({"basis": fout["basis"], "data": ro(fexp.reshape(-1))})
    close(data(fback), fbeta, "flat isotropic form", rtol=1e-14)
    bad = fexp.copy()
    bad.flat[c["i"] % bad.size] += 0.5 * (np.max(np.abs(fbeta)) or 1.0)
    bk = {"basis": fout["basis"], "data": ro(bad.reshape(-1))}
    if n > 1:
        ensure(raises(lambda: K.as_isotropic_kernel_from_diagonal(bk), AssertionError), "non-isotropic flat kernel accepted")
    ctx.nt(n > 2)
    ctx.label(f"{len(shp)}d", "herm" if c["herm"] else "general")


@st.composite
def axis_in(draw):
    shp = draw(g.fshapes(ndim=(1, 3), max_n=6, max_total=60, long=80))
    return {"shp": shp, "a": [draw(g.arrd(kinds=("rand",))) for _ in shp], "scale": draw(SCALES), "real": draw(st.booleans())}


@case("C13", axis_in(), quick=300)
def axis_and_isotropic(c, ctx):
    """Axis kernels multiply to the isotropic kernel, which splits again into axis kernels with the same product. Non-trivial: two or more axes with > 1 point."""
    shp = tuple(c["shp"])
    ks = []
    for d, n in zip(c["a"], shp, strict=True):
        q = arr(d, n, complex_=not c["real"]).astype(complex)
        q[0] = 1 + np.abs(q[0])
        ks.append(q)
    ks[0] = ks[0] * c["scale"]
    axes = tuple({"basis": FundamentalBasis(n), "data": ro(k)} for n, k in zip(shp, ks, strict=True))
    iso = K.as_isotropic_kernel_from_axis(axes)
    exp = functools.reduce(np.multiply.outer, ks)
    ensure(tuple(iso["basis"].shape) == shp, "shape")
    close(data(iso).reshape(shp), exp, "product", rtol=1e-12)
    split = K.as_axis_kernel_from_isotropic({"basis": iso["basis"], "data": ro(exp.reshape(-1))})
    ensure([k["basis"].n for k in split] == list(shp), "axis sizes")
    close(functools.reduce(np.multiply.outer, [data(k) for k in split]), exp, "product of the split", rtol=1e-9)
    for k, orig in zip(split, ks, strict=True):
        close(data(k) / data(k)[0], orig / orig[0], "shape of each axis kernel", rtol=1e-9)
    ctx.nt(sum(q > 1 for q in shp) > 1)
    ctx.label(f"{len(shp)}d")


# ------------------------------------------------------------------ conversion between bases
def T(new, old):
    return np.conj(g.ref(new)) @ g.ref(old).T


@st.composite
def conv_in(draw):
    shp = draw(g.fshapes(ndim=(1, 2), max_n=4, max_total=4))
    return {
        "shp": shp,
        "old": draw(g.any_basis(shp)),
        "new0": draw(g.any_basis(shp)),
        "new1": draw(g.any_basis(shp)),
        "same": draw(st.booleans()),
        "a": draw(g.arrd()),
        "e": draw(g.arrd()),
        "m": draw(st.integers(1, 4)),
        "psd": draw(st.booleans()),
        "scale": draw(SCALES),
        "beta": draw(g.arrd()),
    }


@case("C13", conv_in(), quick=300)
def conversion(c, ctx):
    """Kernels (full, diagonal, isotropic) and noise operator lists converted to other bases, complete or not. Non-trivial: more than one state and a basis change."""
    old, n0, n1 = c["old"], c["new0"], c["new1"]
    if c["same"]:
        n1 = n0
    bo, b0 = g.build(old), g.build(n0)
    b1 = b0 if c["same"] else g.build(n1)
    n = g.size(old)
    t0, t1 = T(n0, old), T(n1, old)
    target = TupleBasis(b0, b1)
    # operator lists
    m = c["m"]
    o = arr(c["a"], (m, n, n))
    e = arr(c["e"], m)
    conv_o = np.einsum("ij,ajk,lk->ail", t0, o, t1.conj())
    out = C.convert_noise_operator_list_to_basis({"basis": TupleBasis(FundamentalBasis(m), pair(bo)), "data": ro(o.reshape(-1)), "eigenvalue": ro(e)}, target)
    close(data(out).reshape(conv_o.shape), conv_o, "operators", rtol=1e-9, scale=np.max(np.abs(o)))
    close(np.asarray(out["eigenvalue"]), e, "strengths", rtol=1e-14)
    d = np.einsum("aii->ai", o)
    conv_d = np.einsum("ij,aj,lj->ail", t0, d, t1.conj())
    out = C.convert_diagonal_noise_operator_list_to_basis({"basis": TupleBasis(FundamentalBasis(m), pair(bo)), "data": ro(d.reshape(-1)), "eigenvalue": ro(e)}, target)
    close(data(out).reshape(conv_d.shape), conv_d, "diagonal operators", rtol=1e-9, scale=np.max(np.abs(o)))
    close(np.asarray(out["eigenvalue"]), e, "strengths of diagonal operators", rtol=1e-14)
    # kernels: K'[i j k l] with operators Z_ij (square target)
    target = TupleBasis(b0, b0)
    q = g.size(n0)
    mat = arr(c["a"], (n * n, n * n))
    mat = (mat @ mat.conj().T if c["psd"] else (mat + mat.conj().T) / 2) * c["scale"]
    big = np.kron(t0, t0.conj())  # operator (k, l) -> t0 . t0^dagger
    new = np.conj(big) @ mat @ big.T
    out = C.convert_kernel_to_basis({"basis": TupleBasis(pair(bo), pair(bo)), "data": ro(mat.reshape(n, n, n, n).swapaxes(0, 1).reshape(-1))}, target)
    s = (np.max(np.abs(mat)) or 1.0) * n**2
    close(data(out).reshape(q, q, q, q), new.reshape(q, q, q, q).swapaxes(0, 1), "kernel", rtol=1e-9, scale=s)
    dm = arr(c["a"], (n, n))
    dm = (dm @ dm.conj().T if c["psd"] else (dm + dm.conj().T) / 2) * c["scale"]
    w, v = np.linalg.eigh(dm)
    ops = np.array([t0 @ np.diag(np.conj(v[:, k])) @ t0.conj().T for k in range(n)])
    out = C.convert_diagonal_kernel_to_basis({"basis": TupleBasis(pair(bo), pair(bo)), "data": ro(dm.reshape(-1))}, target)
    close(data(out).reshape(q, q, q, q), full_ref(w, ops), "diagonal kernel", rtol=1e-9, scale=(np.max(np.abs(dm)) or 1.0) * n**2)
    beta = arr(c["beta"], n)
    out = C.convert_isotropic_kernel_to_basis({"basis": bo, "data": ro(beta)}, b0)
    # the values are coefficients of the correlation as a function of displacement
    close(data(out), t0 @ beta, "isotropic kernel", rtol=1e-9, scale=float(np.linalg.norm(beta)) or 1.0)
    ensure(out["basis"] is b0, "target basis")
    ctx.nt(n > 1 and old != n0)


# ------------------------------------------------------------------ correlation functions
def fns(lam):
    return {
        "gauss": lambda x: np.exp(-(x**2) / (2 * lam**2)),
        "lorentz": lambda x: lam**2 / (lam**2 + x**2),
        "exp": lambda x: np.exp(-np.abs(x) / lam),
        "phase": lambda x: np.exp(-(x**2) / (2 * lam**2)) * np.exp(1j * x / lam),
        "quad": lambda x: 1 + x**2 / lam**2,
    }


def displacements(shp, dx):
    """Periodic displacement x_i - x_j along each axis of a rectangular lattice, in [-L/2, L/2)."""
    out = []
    for p, n, v in zip(g.gridpts(shp), shp, dx, strict=True):
        d = (p[:, None] - p[None, :] + n // 2) % n - n // 2
        out.append(d * np.linalg.norm(v) / n)
    return np.array(out)


@st.composite
def build_in(draw, max_total=36):
    shp = draw(g.fshapes(ndim=(1, 3), max_n=7, max_total=max_total, long=80))
    return {
        "shp": shp,
        "b": draw(g.basis_nd(shp, False, True, False)),
        "lat": draw(g.lattices(len(shp), kinds=("cubic", "ortho"))),
        "fn": draw(st.sampled_from(["gauss", "lorentz", "exp", "phase", "quad"])),
        "lam": draw(g.floats(0.1, 2)),
        "amp": draw(st.sampled_from([1.0, 0.01, 1e7])),
    }


@case("C13", build_in(), quick=400)
def correlation_kernels(c, ctx):
    """Kernels built from a function of displacement, Gaussian and Lorentzian kernels in all their forms. Non-trivial: more than two points."""
    shp = tuple(c["shp"])
    dx = g.lattice(c["lat"])
    b = g.build(c["b"], dx)
    n = int(np.prod(shp))
    lam, amp = c["lam"] * c["lat"]["scale"], c["amp"]
    disp = displacements(shp, dx)
    total = np.linalg.norm(disp, axis=0)
    even = c["fn"] if c["fn"] != "phase" else "gauss"
    f = fns(lam)[even]
    mean_in = []

    def fn(x):
        mean_in.append(np.asarray(x))
        return f(x).astype(np.complex128)

    exp = f(total)
    tol = dict(rtol=1e-9, scale=np.max(np.abs(exp)) * 10)
    out = B.build_isotropic_kernel_from_function_stacked(b, fn)
    close(data(out), exp[:, 0].astype(complex), "stacked kernel", **tol)
    ensure(tuple(out["basis"].shape) == shp, "fundamental position basis")
    close(np.array(out["basis"].delta_x_stacked), dx, "lattice", rtol=1e-12)
    axes = B.build_axis_kernel_from_function_stacked(b, fn)
    ensure(len(axes) == len(shp), "axes")
    for k, q, v, ax in zip(axes, shp, dx, range(9), strict=False):
        d = displacements((q,), [v])[0]
        close(data(k), f(np.abs(d))[:, 0].astype(complex), f"axis {ax}", **tol)
        # signed displacement x - x', away from the antipode whose sign is a convention
        g1 = fns(lam)["phase"]
        out1 = B.build_isotropic_kernel_from_function(b[ax], lambda x, g1=g1: g1(np.real(x)).astype(np.complex128))
        keep = np.arange(q) * 2 != q
        close(data(out1)[keep], g1(d[:, 0])[keep], f"signed kernel of axis {ax}", rtol=1e-8, scale=1.0)
    gauss = amp**2 * np.exp(-(total**2) / (2 * lam**2))
    tol = dict(rtol=1e-9, scale=amp**2)
    close(data(G.get_gaussian_isotropic_noise_kernel(b, amp, lam)), gauss[:, 0].astype(complex), "gaussian isotropic", **tol)
    out = G.get_gaussian_noise_kernel(b, amp, lam)
    close(data(out).reshape(n, n), gauss.astype(complex), "gaussian diagonal", **tol)
    ensure(out["basis"][0][0].n == n and out["basis"].n == n**4, "gaussian diagonal basis")
    ax = G.get_gaussian_axis_noise_kernel(b, amp, lam)
    for k, q, v in zip(ax, shp, dx, strict=True):
        d = displacements((q,), [v])[0]
        close(data(k), (amp**2 * np.exp(-(d[:, 0] ** 2) / (2 * lam**2))).astype(complex), "gaussian axis", **tol)
    lor = amp**2 * lam**2 / (total**2 + lam**2)
    close(data(L.get_lorentzian_isotropic_noise_kernel(b, amp, lam)), lor[:, 0].astype(complex), "lorentzian", **tol)
    ctx.nt(n > 2)
    ctx.label(f"{len(shp)}d", c["fn"], "even" if any(q % 2 == 0 for q in shp) else "odd")


@st.composite
def eff_in(draw):
    d = draw(build_in(20))
    d["eta"] = draw(st.sampled_from([1e-15, 3e-12, 2.0, 1e-40]))
    d["temp"] = draw(g.floats(1, 400))
    d["lf"] = draw(st.one_of(st.none(), g.floats(0.5, 6)))
    d["any_lat"] = draw(g.lattices(len(d["shp"])))
    return d


@case("C13", eff_in(), quick=200)
def effective_parameters(c, ctx):
    """Effective Gaussian and Lorentzian parameters and the kernels built from them. Non-trivial: more than two points."""
    shp = tuple(c["shp"])
    dx = g.lattice(c["lat"])
    b = g.build(c["b"], dx)
    n = int(np.prod(shp))
    lf = 2 * np.sqrt(2) if c["lf"] is None else c["lf"]
    kw = {} if c["lf"] is None else {"lambda_factor": lf}
    eta, temp = c["eta"], c["temp"]
    short = np.min(np.linalg.norm(dx, axis=1))
    mu = np.sqrt(2 * eta * Boltzmann * temp) / hbar
    a, lam = G.get_effective_gaussian_parameters(b, eta, temp, **kw)
    close([lam], [short / lf], "gaussian wavelength")
    close([a], [mu * short / lf], "gaussian amplitude")
    la, ll = L.get_effective_lorentzian_parameter(b, eta, temp, **kw)
    close([ll], [short / 2 / lf], "lorentzian width")
    close([la], [mu * short / 2 / lf], "lorentzian amplitude")
    d2 = np.sum(displacements(shp, dx) ** 2, axis=0)
    exp = a**2 * np.exp(-d2 / (2 * lam**2))
    close(data(G.get_effective_gaussian_isotropic_noise_kernel(b, eta, temp, **kw)), exp[:, 0].astype(complex), "effective isotropic", scale=a**2)
    close(data(G.get_effective_gaussian_noise_kernel(b, eta, temp, **kw)).reshape(n, n), exp.astype(complex), "effective diagonal", scale=a**2)
    # the parameters on any lattice, and the kernels they give there
    dy = g.lattice(c["any_lat"])
    by = g.build(c["b"], dy)
    least = np.min(np.linalg.norm(dy, axis=1))
    ay, ly = G.get_effective_gaussian_parameters(by, eta, temp, **kw)
    close([ly, ay / mu], [least / lf, least / lf], "gaussian parameters on any lattice")
    ey, my = L.get_effective_lorentzian_parameter(by, eta, temp, **kw)
    close([my, ey / mu], [least / 2 / lf, least / 2 / lf], "lorentzian parameters on any lattice")
    close(data(G.get_effective_gaussian_isotropic_noise_kernel(by, eta, temp, **kw)), data(G.get_gaussian_isotropic_noise_kernel(by, ay, ly)), "effective isotropic on any lattice", scale=ay**2)
    close(data(G.get_effective_gaussian_noise_kernel(by, eta, temp, **kw)), data(G.get_gaussian_noise_kernel(by, ay, ly)), "effective diagonal on any lattice", scale=ay**2)
    # Caldeira-Leggett: the curvature of the kernel is mu^2 = 2 eta kT / hbar^2
    close([a**2 / lam**2], [2 * eta * Boltzmann * temp / hbar**2], "curvature")
    fund = g.build({"t": "P", "of": [{"t": "F", "n": q} for q in shp]}, dx)
    kept = 1 + (n - 1) // 2
    few, some = rows(G.get_effective_gaussian_noise_operators_periodic(fund, eta, temp, truncation=range(kept)), n)
    ensure(len(few) == kept == len(some), "number of effective operators kept")
    e, o = rows(G.get_effective_gaussian_noise_operators_periodic(fund, eta, temp), n)
    close(np.abs(few), np.abs(e[:kept]), "strengths of the effective operators kept", scale=float(np.abs(e).max()))
    a0, l0 = G.get_effective_gaussian_parameters(b, eta, temp)
    close(diag_ref(e, o), (a0**2 * np.exp(-d2 / (2 * l0**2))).astype(complex), "effective operators", scale=a0**2 * n)
    ctx.nt(n > 2)
    ctx.label(f"{len(shp)}d")


# ------------------------------------------------------------------ temperature correction
@st.composite
def temp_in(draw):
    shp = draw(g.fshapes(ndim=(1, 2), max_n=4, max_total=8))
    return {
        "shp": shp,
        "h": draw(g.any_basis(shp, True)),
        "o": draw(g.any_basis(shp, True)),
        "a": draw(g.arrd()),
        "ha": draw(g.arrd()),
        "e": draw(g.arrd()),
        "m": draw(st.integers(1, 4)),
        "temp": draw(g.floats(1, 400)),
        "hs": draw(st.sampled_from([1e-20, 1e-22, 1.0])),
    }


@case("C13", temp_in(), quick=300)
def temperature_correction(c, ctx):
    """Corrected operators are L - [H, L] / 4kT in whichever bases, strengths unchanged. Non-trivial: H and L do not commute."""
    bh, bo = g.build(c["h"]), g.build(c["o"])
    n = g.size(c["h"])
    m, temp = c["m"], c["temp"]
    h = hermitian(c["ha"], n) * c["hs"]
    o = arr(c["a"], (m, n, n))
    e = arr(c["e"], m)
    t = T(c["h"], c["o"])
    oh = np.einsum("ij,ajk,lk->ail", t, o, t.conj())
    exp = oh - (h @ oh - oh @ h) / (4 * Boltzmann * temp)
    hop = {"basis": pair(bh), "data": ro(h.reshape(-1))}
    s = np.max(np.abs(exp)) + np.max(np.abs(h)) * np.max(np.abs(o)) / (4 * Boltzmann * temp)
    out = B.get_temperature_corrected_noise_operators(hop, {"basis": TupleBasis(FundamentalBasis(m), pair(bo)), "data": ro(o.reshape(-1)), "eigenvalue": ro(e)}, temp)
    close(data(out).reshape(m, n, n), exp, "corrected operators", rtol=1e-9, scale=s)
    close(np.asarray(out["eigenvalue"]), e, "strengths", rtol=1e-14)
    ensure(out["basis"][1][0] is bh or out["basis"][1][0].n == n, "basis")
    d = np.einsum("aii->ai", o)
    full = np.array([np.diag(q) for q in d])
    ho = t.conj().T @ h @ t
    exp = full - (ho @ full - full @ ho) / (4 * Boltzmann * temp)
    out = B.get_temperature_corrected_diagonal_noise_operators(hop, {"basis": TupleBasis(FundamentalBasis(m), pair(bo)), "data": ro(d.reshape(-1)), "eigenvalue": ro(e)}, temp)
    close(data(out).reshape(m, n, n), exp, "corrected diagonal operators", rtol=1e-9, scale=s)
    close(np.asarray(out["eigenvalue"]), e, "strengths of diagonal operators", rtol=1e-14)
    ctx.nt(np.max(np.abs(h @ oh - oh @ h)) > 0)


@st.composite
def tgauss_in(draw):
    shp = draw(g.fshapes(ndim=(1, 2), max_n=5, max_total=10))
    nd = len(shp)
    return {
        "shp": shp,
        "h": draw(g.basis_nd(shp, True, True, False)),
        "lat": draw(g.lattices(nd, kinds=("cubic", "ortho"))),
        "ha": draw(g.arrd()),
        "lam": draw(g.floats(0.2, 2)),
        "amp": draw(st.sampled_from([1.0, 1e7])),
        "temp": draw(g.floats(1, 400)),
        "eff": draw(st.booleans()),
        "k": draw(st.one_of(st.none(), st.integers(1, 4))),
    }


@case("C13", tgauss_in(), quick=200)
def temperature_corrected_gaussian(c, ctx):
    """Temperature corrected Gaussian operators, judged by the kernel they generate in the Hamiltonian's basis. Non-trivial: more than one point."""
    shp = tuple(c["shp"])
    dx = g.lattice(c["lat"])
    n = int(np.prod(shp))
    b = g.build(c["h"], dx)
    r = g.ref(c["h"])
    h = hermitian(c["ha"], n) * 1e-21
    temp = c["temp"]
    hop = {"basis": pair(b), "data": ro(h.reshape(-1))}
    k = None if c["k"] is None else min(c["k"], n)
    kw = {} if k is None else {"truncation": range(k)}
    if c["eff"]:
        a, lam = G.get_effective_gaussian_parameters(b, 3e-12, temp)
        out = G.get_temperature_corrected_effective_gaussian_noise_operators(hop, 3e-12, temp, **kw)
    else:
        lam, a = c["lam"] * c["lat"]["scale"], c["amp"]
        out = G.get_temperature_corrected_gaussian_noise_operators(hop, a, lam, temp, **kw)
    m = out["basis"][0].n
    ensure(m == (n if k is None else k), "number of operators")
    o = data(out).reshape(m, n, n)
    e = np.asarray(out["eigenvalue"])
    # in position: L_k = D_k - [H, D_k] / 4kT with sum_k e_k conj(D_k) D_k the kernel
    d2 = np.sum(displacements(shp, dx) ** 2, axis=0)
    kern = a**2 * np.exp(-d2 / (2 * lam**2))
    hp = r.T @ h @ r.conj()
    # action of the correction on the operator |x><x|
    basis_ops = []
    for x in range(n):
        d = np.zeros((n, n), dtype=complex)
        d[x, x] = 1
        basis_ops.append(d - (hp @ d - d @ hp) / (4 * Boltzmann * temp))
    z = np.array([r.conj() @ q @ r.T for q in basis_ops])
    s = a**2 * n * max(1.0, float(np.max(np.abs(z))), n * float(np.max(np.abs(h))) / (4 * Boltzmann * temp)) ** 2
    got = full_ref(e, o)
    if k is None:
        exp = np.einsum("xy,xji,ykl->ijkl", kern, z.conj(), z)
        close(got, exp, "kernel of the corrected operators", rtol=1e-8, scale=s)
    else:
        w = np.linalg.eigvalsh(kern)[::-1]
        close(np.sort(np.real(e))[::-1], w[:k], "largest strengths", rtol=1e-8, scale=a**2 * n)
    # each operator is a combination of the corrected position projectors
    coef, *_ = np.linalg.lstsq(z.reshape(n, -1).T, o.reshape(m, -1).T, rcond=None)
    close(z.reshape(n, -1).T @ coef, o.reshape(m, -1).T, "span", rtol=1e-7, scale=max(1.0, float(np.max(np.abs(o))), float(np.max(np.abs(z))), n * float(np.max(np.abs(h))) / (4 * Boltzmann * temp)))
    ctx.nt(n > 1)
    ctx.label("effective" if c["eff"] else "given", "truncated" if k else "full")


@case("C13", st.fixed_dictionaries({"n": st.integers(2, 5), "th": g.floats(0.1, 1.4)}), quick=1)
def known_rotated_lattice_kernel(c, ctx):
    """A Gaussian kernel does not depend on the orientation of the lattice."""
    n, th = c["n"], c["th"]
    rot = np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])
    d = {"t": "P", "of": [{"t": "F", "n": n}, {"t": "F", "n": n}]}
    ref = data(G.get_gaussian_isotropic_noise_kernel(g.build(d, np.eye(2)), 1.0, 0.3))
    out = data(G.get_gaussian_isotropic_noise_kernel(g.build(d, np.eye(2) @ rot.T), 1.0, 0.3))
    close(out, ref, "kernel on a rotated lattice", rtol=1e-9)

"""C12: decomposing a noise kernel into noise operators and recombining them."""
from __future__ import annotations

import functools
from math import factorial

import numpy as np
from hypothesis import strategies as st

from harness import gen as g
from harness.core import arr, case, close, data, ensure, hermitian, raises, ro
from surface_potential_analysis.basis.basis import FundamentalBasis, FundamentalPositionBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.kernel import build as B
from surface_potential_analysis.kernel import gaussian as G
from surface_potential_analysis.kernel import kernel as K
from surface_potential_analysis.kernel import lorentzian as L
from surface_potential_analysis.kernel import solve as S
from surface_potential_analysis.kernel.solve._util import get_fundamental_axis_kernels_from_isotropic

SCALES = st.sampled_from([1.0, 1.0, 1e-12, 1e13])


# ------------------------------------------------------------------ references
def pair(b):
    return TupleBasis(b, b)


def full_ref(e, ops):
    """ops (a, n, n) -> kernel[i, j, k, l] = sum_a e_a conj(L_a[j, i]) L_a[k, l]."""
    out = 0
    for w, o in zip(e, ops, strict=True):
        out = out + w * np.conj(o.T)[:, :, None, None] * o[None, None, :, :]
    return out


def diag_ref(e, ops):
    out = np.zeros((ops.shape[1], ops.shape[1]), dtype=np.complex128)
    for w, o in zip(e, ops, strict=True):
        out += w * np.outer(np.conj(o), o)
    return out


def rows(ops, n):
    """Operators of a diagonal list, checking that its three parts describe the same number of operators."""
    m = int(np.asarray(ops["eigenvalue"]).size)
    ensure(ops["basis"][0].n == m, f"{ops['basis'][0].n} operators in the basis, {m} strengths")
    d = np.asarray(ops["data"])
    ensure(d.size == m * n, f"data of size {d.size} for {m} operators on {n} points")
    return np.asarray(ops["eigenvalue"]).reshape(-1), d.reshape(m, n)


def unit_orthogonal(ops, what):
    gram = np.conj(ops) @ ops.T
    close(gram, np.eye(len(ops)), f"{what}: operators orthonormal", rtol=1e-8)


def random_isotropic(d, shape, hermitian_=True, real=False):
    """beta(x) on a periodic grid; Hermitian kernels have beta(-x) = conj(beta(x))."""
    b = arr(d, shape, complex_=not real).astype(np.complex128)
    if hermitian_ or real:
        rev = np.conj(b[np.ix_(*[(-np.arange(n)) % n for n in shape])])
        b = (b + rev) / 2
    return b


def iso_matrix(beta, pts, fshape):
    """beta evaluated at pts_x - pts_y modulo fshape (pts: (nd, N))."""
    idx = tuple((p[:, None] - p[None, :]) % f for p, f in zip(pts, fshape, strict=True))
    return beta[idx]


def restrict(beta, fshape):
    """Values of beta at the displacements of a smaller periodic grid."""
    return beta[np.ix_(*[g.freqs(f) % n for f, n in zip(fshape, beta.shape, strict=True)])]


# ------------------------------------------------------------------ eigenvalue decompositions
@st.composite
def full_in(draw):
    n = draw(st.integers(1, 4))
    return {"n": n, "a": draw(g.arrd()), "psd": draw(st.booleans()), "scale": draw(SCALES), "from_diag": draw(st.integers(0, 3)) == 0}


def hermitian_kernel(c, n):
    a = arr(c["a"], (n, n))
    m = a @ a.conj().T if c["psd"] else (a + a.conj().T) / 2
    return m * c["scale"]


@case("C12", full_in(), quick=400)
def full_eigenvalue(c, ctx):
    """Full Hermitian kernel -> operators -> kernel; orthonormal operators, eigenvalues of the kernel. Non-trivial: n > 1 and a kernel of rank > 1."""
    n = c["n"]
    b = FundamentalBasis(n)
    if c["from_diag"]:
        diag = hermitian_kernel(c, n)
        full = np.zeros((n, n, n, n), dtype=np.complex128)
        for i in range(n):
            for j in range(n):
                full[i, i, j, j] = diag[i, j]
        mat = full.swapaxes(0, 1).reshape(n * n, n * n)
    else:
        mat = hermitian_kernel(c, n * n)
        full = mat.reshape(n, n, n, n).swapaxes(0, 1)
    ops = S.get_periodic_noise_operators_eigenvalue({"basis": TupleBasis(pair(b), pair(b)), "data": ro(full.reshape(-1))})
    e, o = rows(ops, n * n)
    s = np.max(np.abs(full)) or 1.0
    close(np.sort(np.real(e)), np.linalg.eigvalsh(mat), "eigenvalues", rtol=1e-9, scale=s * n * n)
    unit_orthogonal(o, "full")
    close(full_ref(e, o.reshape(-1, n, n)), full, "own recombination", rtol=1e-9, scale=s * n * n)
    back = K.get_full_kernel_from_operators({"basis": ops["basis"], "data": ro(data(ops)), "eigenvalue": ro(e)})
    close(data(back).reshape(n, n, n, n), full, "recombination", rtol=1e-9, scale=s * n * n)
    ctx.nt(n > 1 and np.linalg.matrix_rank(mat / s) > 1)
    ctx.label(f"scale{c['scale']}", "psd" if c["psd"] else "indefinite")


@st.composite
def diag_in(draw):
    return {"n": draw(st.integers(1, 10)), "a": draw(g.arrd()), "psd": draw(st.booleans()), "scale": draw(SCALES), "decay": draw(st.booleans())}


@case("C12", diag_in(), quick=600)
def diagonal_eigenvalue(c, ctx):
    """Hermitian diagonal kernel -> diagonal operators -> kernel (also through the full operators). Non-trivial: rank > 1."""
    n = c["n"]
    b = FundamentalBasis(n)
    m = hermitian_kernel(c, n)
    if c["decay"]:
        q = np.arange(n)
        m = m * 10.0 ** (-3.0 * np.abs(q[:, None] - q[None, :]))
    s = np.max(np.abs(m)) or 1.0
    kern = {"basis": TupleBasis(pair(b), pair(b)), "data": ro(m.reshape(-1))}
    ops = S.get_periodic_noise_operators_diagonal_eigenvalue(kern)
    e, o = rows(ops, n)
    close(np.sort(np.real(e)), np.linalg.eigvalsh(m), "eigenvalues", rtol=1e-9, scale=s * n)
    unit_orthogonal(o, "diagonal")
    close(diag_ref(e, o), m, "own recombination", rtol=1e-9, scale=s * n)
    back = K.get_diagonal_kernel_from_diagonal_operators(ops)
    close(data(back).reshape(n, n), m, "recombination", rtol=1e-9, scale=s * n)
    fops = K.as_noise_operators_from_diagonal(ops)
    close(data(fops).reshape(-1, n, n), np.array([np.diag(q) for q in o]), "full operators", rtol=1e-12)
    close(np.asarray(fops["eigenvalue"]), e, "strengths of full operators", rtol=1e-12)
    close(data(K.get_diagonal_kernel_from_operators(fops)).reshape(n, n), m, "recombination of full operators", rtol=1e-9, scale=s * n)
    full = data(K.get_full_kernel_from_operators(fops)).reshape(n, n, n, n)
    close(full, full_ref(e, np.array([np.diag(q) for q in o])), "full recombination", rtol=1e-9, scale=s * n)
    close(full, data(K.as_full_kernel_from_diagonal(kern)).reshape(n, n, n, n), "full form of the kernel", rtol=1e-9, scale=s * n)
    ctx.nt(n > 1 and np.linalg.matrix_rank(m / s) > 1)
    ctx.label("decay" if c["decay"] else "plain")


# ------------------------------------------------------------------ arbitrary operators
@st.composite
def ops_in(draw):
    return {"n": draw(st.integers(1, 4)), "m": draw(g.counts(1, 6, 40)), "a": draw(g.arrd()), "e": draw(g.arrd()), "real": draw(st.booleans())}


@case("C12", ops_in(), quick=400)
def recombination(c, ctx):
    """Kernel of arbitrary (unnormalised, non orthogonal, complex strength) operators. Non-trivial: more than one operator on more than one point."""
    n, m = c["n"], c["m"]
    b = FundamentalBasis(n)
    e = arr(c["e"], m, complex_=not c["real"]).astype(np.complex128)
    o = arr(c["a"], (m, n, n))
    ops = {"basis": TupleBasis(FundamentalBasis(m), pair(b)), "data": ro(o.reshape(-1)), "eigenvalue": ro(e)}
    s = m * float(np.abs(e).max() * np.abs(o).max() ** 2)
    close(data(K.get_full_kernel_from_operators(ops)).reshape(n, n, n, n), full_ref(e, o), "full kernel", scale=s)
    d = np.einsum("aii->ai", o)
    dops = K.as_diagonal_noise_operators_from_full(ops)
    ee, dd = rows(dops, n)
    close(dd, d, "diagonal part", rtol=1e-12)
    close(ee, e, "strengths", rtol=1e-12)
    close(data(K.get_diagonal_kernel_from_operators(ops)).reshape(n, n), diag_ref(e, d), "diagonal kernel of full operators", scale=s)
    close(data(K.get_diagonal_kernel_from_diagonal_operators(dops)).reshape(n, n), diag_ref(e, d), "diagonal kernel", scale=s)
    ctx.nt(m > 1 and n > 1)


@st.composite
def axis_in(draw):
    nd = draw(st.integers(1, 3))
    return {"ax": [{"n": draw(st.integers(1, 4)), "m": draw(st.integers(1, 3)), "a": draw(g.arrd()), "e": draw(g.arrd())} for _ in range(nd)], "dx": draw(st.booleans())}


@case("C12", axis_in(), quick=300)
def axis_operators(c, ctx):
    """Operators of several axes combine into their outer products. Non-trivial: at least two axes with several operators or points."""
    lists, es, os_ = [], [], []
    for q in c["ax"]:
        b = FundamentalPositionBasis(np.array([1.0]), q["n"]) if c["dx"] else FundamentalBasis(q["n"])
        e, o = arr(q["e"], q["m"]), arr(q["a"], (q["m"], q["n"]))
        es.append(e)
        os_.append(o)
        lists.append({"basis": TupleBasis(FundamentalBasis(q["m"]), pair(b)), "data": ro(o.reshape(-1)), "eigenvalue": ro(e)})
    out = K.get_diagonal_noise_operators_from_axis(tuple(lists))
    n = int(np.prod([q["n"] for q in c["ax"]]))
    e, o = rows(out, n)
    close(e, functools.reduce(np.kron, es), "strengths", rtol=1e-12)
    close(o, functools.reduce(np.kron, os_), "operators", rtol=1e-12)
    ensure(tuple(out["basis"][0].shape) == tuple(q["m"] for q in c["ax"]), "shape of the list")
    ensure(tuple(out["basis"][1][0].shape) == tuple(q["n"] for q in c["ax"]), "shape of the operators")
    kern = data(K.get_diagonal_kernel_from_diagonal_operators(out)).reshape(n, n)
    close(kern, functools.reduce(np.kron, [diag_ref(a, b) for a, b in zip(es, os_, strict=True)]), "kernel", rtol=1e-9, scale=float(np.prod([len(a) * np.abs(a).max() * np.abs(b).max() ** 2 for a, b in zip(es, os_, strict=True)])))
    ctx.nt(sum(q["n"] > 1 and q["m"] > 1 for q in c["ax"]) > 1)


# ------------------------------------------------------------------ Fourier decompositions
@st.composite
def fft_in(draw):
    shp = draw(g.fshapes(ndim=(1, 3), max_n=9, max_total=40, long=90))
    f = [draw(st.sampled_from(g.divisors(n))) for n in shp] if draw(st.booleans()) else list(shp)
    return {"shp": shp, "f": f, "default": draw(st.booleans()), "a": draw(g.arrd()), "herm": draw(st.booleans()), "scale": draw(SCALES)}


@case("C12", fft_in(), quick=500)
def isotropic_fft(c, ctx):
    """Isotropic kernels in any dimension, sampled on the full or a dividing coarser period. Non-trivial: more than two points."""
    shp, f = tuple(c["shp"]), tuple(c["f"])
    beta = random_isotropic(c["a"], shp, c["herm"]) * c["scale"]
    b = TupleBasis(*[FundamentalBasis(n) for n in shp])
    kw = {} if (c["default"] and f == shp) else {"fundamental_shape": f}
    ops = S.get_periodic_noise_operators_isotropic_stacked_fft({"basis": b, "data": ro(beta.reshape(-1))}, **kw)
    n = int(np.prod(shp))
    e, o = rows(ops, n)
    unit_orthogonal(o, "isotropic fft")
    exp = iso_matrix(restrict_full(beta, f), g.gridpts(shp), f)
    s = np.max(np.abs(beta)) or 1.0
    close(diag_ref(e, o), exp, "recombination", rtol=1e-9, scale=s * n)
    close(data(K.get_diagonal_kernel_from_diagonal_operators(ops)).reshape(n, n), exp, "library recombination", rtol=1e-9, scale=s * n)
    if c["herm"] and f == shp:
        close(np.imag(e), np.zeros(len(e)), "strengths of a Hermitian kernel are real", rtol=0, atol=1e-9 * s * n)
    if len(shp) == 1:
        kw1 = {} if not kw else {"fundamental_n": f[0]}
        ops1 = S.get_periodic_noise_operators_isotropic_fft({"basis": b[0], "data": ro(beta.reshape(-1))}, **kw1)
        e1, o1 = rows(ops1, n)
        unit_orthogonal(o1, "one dimensional fft")
        close(diag_ref(e1, o1), exp, "one dimensional recombination", rtol=1e-9, scale=s * n)
    if f == shp:
        iso = K.get_isotropic_kernel_from_diagonal_operators_stacked(ops)
        close(data(iso), beta.reshape(-1), "isotropic kernel from operators", rtol=1e-9, scale=s * n)
        if len(shp) == 1:
            ops0 = {"basis": TupleBasis(ops1["basis"][0], pair(b[0])), "data": ops1["data"], "eigenvalue": ops1["eigenvalue"]}
            close(data(K.get_isotropic_kernel_from_diagonal_operators(ops0)), beta.reshape(-1), "isotropic kernel (flat)", rtol=1e-9, scale=s * n)
            fops = K.as_noise_operators_from_diagonal(ops0)
            close(data(K.get_isotropic_kernel_from_operators(fops)), beta.reshape(-1), "isotropic kernel of full operators", rtol=1e-9, scale=s * n)
    ctx.nt(n > 2)
    ctx.label(f"{len(shp)}d", "coarse" if f != shp else "full", "even" if any(q % 2 == 0 for q in f) else "odd")


def restrict_full(beta, f):
    """beta at the displacements |d| <= f/2 as a function of d mod f."""
    out = np.zeros(f, dtype=np.complex128)
    vals = restrict(beta, f)
    out[np.ix_(*[g.freqs(q) % q for q in f])] = vals
    return out


@st.composite
def nonperiodic_in(draw):
    n = draw(st.integers(2, 10))
    return {"n": n, "f": draw(st.integers(1, n)), "a": draw(g.arrd())}


@case("C12", nonperiodic_in(), quick=300)
def non_dividing_sample(c, ctx):
    """A period that does not divide the grid is refused unless allowed; allowed, it follows the signed grid displacements. Non-trivial: refused."""
    n, f = c["n"], c["f"]
    b = FundamentalBasis(n)
    beta = random_isotropic(c["a"], (n,))
    kern = {"basis": b, "data": ro(beta)}
    skern = {"basis": TupleBasis(b), "data": ro(beta)}
    if n % f:
        ensure(raises(lambda: S.get_periodic_noise_operators_isotropic_fft(kern, fundamental_n=f), AssertionError), "1d accepted")
        ensure(raises(lambda: S.get_periodic_noise_operators_isotropic_stacked_fft(skern, fundamental_shape=(f,)), AssertionError), "stacked accepted")
        ensure(raises(lambda: S.get_periodic_operators_for_real_isotropic_noise(b, fundamental_n=f), AssertionError), "real accepted")
        ctx.nt()
    exp = iso_matrix(restrict_full(beta, (f,)), g.freqs(n)[None, :], (f,))
    e, o = rows(S.get_periodic_noise_operators_isotropic_fft(kern, fundamental_n=f, assert_periodic=False), n)
    close(diag_ref(e, o), exp, "unchecked 1d", rtol=1e-9, scale=n * np.max(np.abs(beta)) or 1)
    e, o = rows(S.get_periodic_noise_operators_isotropic_stacked_fft(skern, fundamental_shape=(f,), assert_periodic=False), n)
    close(diag_ref(e, o), exp, "unchecked stacked", rtol=1e-9, scale=n * np.max(np.abs(beta)) or 1)


@st.composite
def real_in(draw):
    n = draw(st.integers(2, 15))
    odd = [k for k in g.divisors(n) if k % 2 == 1]
    return {"n": n, "f": draw(st.sampled_from(odd)) if draw(st.booleans()) else None, "a": draw(g.arrd()), "scale": draw(SCALES)}


@case("C12", real_in(), quick=400)
def real_isotropic_fft(c, ctx):
    """Real even kernels as cosines and sines, on the full period or 2n+1 points of it. Non-trivial: more than two points."""
    n, f = c["n"], c["f"] or c["n"]
    b = FundamentalBasis(n)
    beta = random_isotropic(c["a"], (n,), real=True) * c["scale"]
    kw = {} if c["f"] is None else {"n": (f - 1) // 2}
    ops = S.get_periodic_noise_operators_real_isotropic_fft({"basis": b, "data": ro(beta)}, **kw)
    e, o = rows(ops, n)
    ensure(np.max(np.abs(np.imag(o))) == 0, "operators are real")
    exp = iso_matrix(restrict_full(beta, (f,)), np.arange(n)[None, :], (f,))
    close(diag_ref(e, o), exp, "recombination", rtol=1e-9, scale=(np.max(np.abs(beta)) or 1) * n)
    ctx.nt(n > 2)
    ctx.label("coarse" if f != n else "full", "even" if f % 2 == 0 else "odd")


@st.composite
def real_ops_in(draw):
    n = draw(st.integers(2, 15))
    return {"n": n, "k": draw(st.integers(1, n)), "f": draw(st.sampled_from(g.divisors(n)))}


@case("C12", real_ops_in(), quick=200)
def real_operators(c, ctx):
    """The real periodic operators are the lowest cosines then sines, over sqrt(N). Non-trivial: several frequencies."""
    n, k, f = c["n"], c["k"], c["f"]
    e, x = None, np.arange(n)
    out = S.get_periodic_operators_for_real_isotropic_noise(FundamentalBasis(n), n=k, fundamental_n=f)
    assert e is None
    exp = [np.cos(2 * np.pi * q * x / f) for q in range(k)] + [np.sin(2 * np.pi * q * x / f) for q in range(k - 1, 0, -1)]
    ensure(out["basis"][0].n == len(exp), "number of operators")
    close(data(out).reshape(len(exp), n), np.array(exp) / np.sqrt(n), "operators", rtol=1e-9)
    ctx.nt(k > 1)


@st.composite
def sep_in(draw):
    shp = draw(g.fshapes(ndim=(1, 3), max_n=6, max_total=36, long=60))
    nd = len(shp)
    return {
        "shp": shp,
        "lat": draw(g.lattices(nd, kinds=("cubic", "ortho"))),
        "a": [draw(g.arrd(kinds=("rand",))) for _ in range(nd)],
        "f": [draw(st.sampled_from(g.divisors(n))) for n in shp] if draw(st.booleans()) else None,
        "n": [draw(st.integers(1, 4)) for _ in shp] if draw(st.booleans()) else None,
        "real": draw(st.booleans()),
        "scale": draw(SCALES),
    }


@case("C12", sep_in(), quick=300)
def stacked_real_fft(c, ctx):
    """Separable kernels decomposed axis by axis, and as Chebyshev (Taylor) expansions exact up to the order kept. Non-trivial: two or more axes with > 1 point."""
    shp = tuple(c["shp"])
    betas = []
    for d, n in zip(c["a"], shp, strict=True):
        q = random_isotropic(d, (n,), real=c["real"])
        q[0] = 1.0 + np.sum(np.abs(q))
        betas.append(q)
    beta = functools.reduce(np.multiply.outer, betas) * c["scale"]
    s = np.max(np.abs(beta))
    b = g.build({"t": "P", "of": [{"t": "F", "n": n} for n in shp]}, g.lattice(c["lat"]))
    kern = {"basis": b, "data": ro(beta.reshape(-1))}
    n = int(np.prod(shp))
    f = shp if c["f"] is None else tuple(c["f"])
    kw = {} if c["f"] is None else {"fundamental_shape": f}
    e, o = rows(S.get_periodic_noise_operators_real_isotropic_stacked_fft(kern, **kw), n)
    exp = iso_matrix(restrict_full(beta, f), g.gridpts(shp), f)
    close(diag_ref(e, o), exp, "axis by axis recombination", rtol=1e-9, scale=s * n)
    axes = K.as_axis_kernel_from_isotropic(kern)
    ensure(len(axes) == len(shp), "number of axes")
    close(functools.reduce(np.multiply.outer, [data(k) for k in axes]), beta, "axis kernels", rtol=1e-9)
    same = get_fundamental_axis_kernels_from_isotropic(kern)
    close(functools.reduce(np.multiply.outer, [data(k) for k in same]), beta, "axis kernels in position", rtol=1e-9)
    ensure([k["basis"].n for k in same] == list(shp), "bases of the axis kernels")
    if c["real"] and min(shp) > 1:
        kw = {} if c["n"] is None else {"shape": tuple(c["n"])}
        order = [((m + 1) // 2) if c["n"] is None else c["n"][i] for i, m in enumerate(shp)]
        kept = [k for k in order]
        if all(2 * k + 1 <= m or c["n"] is None for k, m in zip(order, shp, strict=True)):
            e, o = rows(S.get_periodic_noise_operators_real_isotropic_stacked_taylor_expansion(kern, **kw), n)
            ensure(len(e) == np.prod([2 * k + 1 for k in kept]), f"{len(e)} operators for orders {kept}")
            got = diag_ref(e, o)
            pts = g.gridpts(shp)
            disp = [np.abs((p[:, None] - p[None, :] + m // 2) % m - m // 2) for p, m in zip(pts, shp, strict=True)]
            ok = np.all([d <= k for d, k in zip(disp, kept, strict=True)], axis=0)
            full = iso_matrix(beta, pts, shp)
            close(got[ok], full[ok], "taylor expansion at small displacement", rtol=1e-7, scale=s * n)
            ctx.label("taylor")
    ctx.nt(sum(q > 1 for q in shp) > 1)
    ctx.label(f"{len(shp)}d")


@st.composite
def taylor1_in(draw):
    n = draw(st.integers(3, 21))
    return {"n": n, "k": draw(st.one_of(st.none(), st.integers(1, (n - 1) // 2))), "a": draw(g.arrd(kinds=("rand",)))}


@case("C12", taylor1_in(), quick=300)
def taylor_expansion(c, ctx):
    """The order n expansion of a real kernel has 2n+1 operators and is exact at displacements up to n. Non-trivial: truncated order."""
    n = c["n"]
    k = (n + 1) // 2 if c["k"] is None else c["k"]
    b = FundamentalPositionBasis(np.array([2.0]), n)
    beta = random_isotropic(c["a"], (n,), real=True)
    kw = {} if c["k"] is None else {"n": k}
    e, o = rows(S.get_periodic_noise_operators_real_isotropic_taylor_expansion({"basis": b, "data": ro(beta)}, **kw), n)
    ensure(len(e) == 2 * k + 1, f"{len(e)} operators for order {k}")
    got = diag_ref(e, o)
    x = np.arange(n)
    d = np.abs((x[:, None] - x[None, :] + n // 2) % n - n // 2)
    exp = iso_matrix(beta, x[None, :], (n,))
    # interpolation through nearby points: conditioning grows with the order kept
    close(got[d <= k], exp[d <= k], "values at small displacement", rtol=1e-7, scale=np.max(np.abs(e)) + 1)
    ctx.nt(c["k"] is not None)


@st.composite
def explicit_in(draw):
    n = draw(st.integers(4, 31))
    return {
        "n": n,
        "t": draw(st.one_of(st.none(), st.integers(1, n // 2))),
        "fn": draw(st.sampled_from(["gauss", "lorentz", "poly"])),
        "lam": draw(g.floats(0.08, 1.5)),
        "amp": draw(st.sampled_from([1.0, 3.0, 1e-5, 1e6])),
        "dx": draw(st.sampled_from([1.0, 7.0, 1e-10])),
        "p": draw(g.arrd(kinds=("rand",))),
        "extra": draw(st.integers(0, 3)),
    }


@case("C12", explicit_in(), quick=400)
def explicit_taylor(c, ctx):
    """The explicit expansion into cosines has the analytic Taylor coefficients of the correlation function. Non-trivial: at least two terms."""
    n = c["n"]
    t = n // 2 if c["t"] is None else c["t"]
    b = FundamentalPositionBasis(np.array([c["dx"]]), n)
    # a Lorentzian narrower than one radian of the cell has a diverging series, whose leading terms are dropped as negligible
    rel = max(c["lam"], 0.17) if c["fn"] == "lorentz" else c["lam"]
    lam, amp = rel * c["dx"], c["amp"]
    ln = 2 * np.pi * rel
    m = np.arange(t)
    fac = np.array([float(factorial(int(q))) for q in m])
    kw = {} if c["t"] is None else {"n_terms": t}
    if c["fn"] == "gauss":
        poly = amp**2 / fac * (-1 / (2 * ln**2)) ** m
        ops = G.get_periodic_gaussian_operators_explicit_taylor(b, amp, lam, **kw)
    elif c["fn"] == "lorentz":
        poly = amp**2 * (-1 / ln**2) ** m
        ops = L.get_lorentzian_operators_explicit_taylor(amp, lam, TupleBasis(b), **kw)
    else:
        # the first (constant) coefficient of a correlation function is its largest value and positive
        poly = np.concatenate([[1.0], 0.5 * np.tanh(arr(c["p"], t, complex_=False))])[: t + c["extra"]] * amp
        ops = S.get_periodic_noise_operators_explicit_taylor_expansion(b, poly.copy(), **kw)
        if len(poly) < t:
            poly = np.concatenate([poly, np.zeros(t - len(poly))])
    e, o = rows(ops, n)
    ensure(len(e) == 2 * t - 1, f"{len(e)} operators for {t} cosines")
    got = diag_ref(e, o)
    x = np.arange(n)
    idx = (x[:, None] - x[None, :]) % n
    row = np.real(got[:, 0])
    close(got, row[idx].astype(complex), "isotropic", rtol=1e-9, scale=np.sum(np.abs(e)))
    ft = np.real(np.fft.fft(row)) / n
    k = np.arange(t)
    cos = ft[k] * np.where((k == 0) | (2 * k == n), 1, 2)
    close(np.sum(cos[:, None] * np.cos(2 * np.pi * np.outer(k, x) / n), axis=0), row, "only the lowest cosines", rtol=1e-9, scale=np.sum(np.abs(cos)))
    kept = np.isclose(poly[:t], 0, atol=1e-8 * np.max(poly))
    n_kept = int(np.argmax(kept)) if np.any(kept) else t
    a = np.array([(-1.0) ** q * (k.astype(float) ** (2 * q)) / float(factorial(2 * int(q))) for q in range(n_kept)])
    tol = 1e-8 * (np.max(np.abs(a)) if a.size else 1) * (np.sum(np.abs(cos)) + np.max(np.abs(poly)))
    close(a @ cos, poly[:n_kept], "taylor coefficients", rtol=0, atol=tol)
    ctx.nt(n_kept > 1)
    ctx.label(c["fn"], f"terms{min(n_kept, 12)}")


@st.composite
def linear_in(draw):
    shp = [draw(st.integers(2, 7)) for _ in range(draw(st.integers(1, 2)))]
    return {"shp": shp, "t": [draw(st.integers(1, 4)) for _ in shp], "p": draw(g.arrd(kinds=("rand",))), "lam": draw(g.floats(0.2, 1.5)), "amp": draw(g.floats(0.5, 2))}


@case("C12", linear_in(), quick=150)
def linear_taylor(c, ctx):
    """Linear Taylor operators are the powers of the (2 pi normalised) periodic displacement from the centre. Non-trivial: several powers."""

    def powers(n, t):
        d = ((n // 2 - np.arange(n) + n // 2) % n - n // 2) * 2 * np.pi / n
        return np.array([d**q for q in range(t)]).astype(complex)

    n, t = c["shp"][0], c["t"][0]
    b = FundamentalPositionBasis(np.array([2.0]), n)
    poly = arr(c["p"], t, complex_=False)
    e, o = rows(S.get_linear_noise_operators_explicit_taylor_expansion(b, poly.copy(), n_terms=t), n)
    close(diag_ref(e, o), diag_ref(poly, powers(n, t)), "linear expansion", rtol=1e-9)
    close(o, powers(n, t), "operators", rtol=1e-12)
    lam, amp = c["lam"], c["amp"]
    dxs = [2.0, 3.0]

    def gauss(dx, t):
        m = np.arange(t)
        return amp**2 / np.array([float(factorial(int(q))) for q in m]) * (-1 / (2 * (2 * np.pi * lam / dx) ** 2)) ** m

    e, o = rows(G.get_linear_gaussian_noise_operators_explicit_taylor(b, amp, lam, n_terms=t), n)
    close(e, gauss(2.0, t), "gaussian strengths", rtol=1e-9)
    close(o, powers(n, t), "gaussian operators", rtol=1e-12)
    e, o = rows(G.get_linear_gaussian_noise_operators_explicit_taylor(b, amp, lam), n)
    close(e, gauss(2.0, n), "as many gaussian strengths as points", rtol=1e-9)
    close(o, powers(n, n), "as many gaussian operators as points", rtol=1e-12, scale=4.0**n)
    many = arr(c["p"], n, complex_=False)
    e, o = rows(S.get_linear_noise_operators_explicit_taylor_expansion(b, many.copy()), n)
    close(diag_ref(e, o), diag_ref(many, powers(n, n)), "linear expansion, as many terms as points", rtol=1e-9)
    nd = len(c["shp"])
    sb = TupleBasis(*[FundamentalPositionBasis(dxs[i] * np.eye(nd)[i], c["shp"][i]) for i in range(nd)])
    N = int(np.prod(c["shp"]))
    e, o = rows(G.get_linear_gaussian_operators_explicit_taylor_stacked(sb, amp, lam, shape=tuple(c["t"])), N)
    close(e, functools.reduce(np.kron, [gauss(dxs[i], c["t"][i]) for i in range(nd)]), "stacked strengths", rtol=1e-9)
    close(o, functools.reduce(np.kron, [powers(c["shp"][i], c["t"][i]) for i in range(nd)]), "stacked operators", rtol=1e-12)
    e, o = rows(G.get_linear_gaussian_operators_explicit_taylor_stacked(sb, amp, lam), N)
    close(e, functools.reduce(np.kron, [gauss(dxs[i], c["shp"][i]) for i in range(nd)]), "all stacked strengths", rtol=1e-9)
    if min(c["shp"]) >= 4:
        e, o = rows(G.get_periodic_gaussian_operators_explicit_taylor_stacked(sb, amp, lam), N)
        parts = [rows(G.get_periodic_gaussian_operators_explicit_taylor(sb[i], amp, lam), c["shp"][i]) for i in range(nd)]
        close(diag_ref(e, o), functools.reduce(np.kron, [diag_ref(*p) for p in parts]), "all stacked periodic", rtol=1e-9)
    if all(q >= 2 for q in c["t"]) and all(2 * q <= m for q, m in zip(c["t"], c["shp"], strict=True)):
        e, o = rows(G.get_periodic_gaussian_operators_explicit_taylor_stacked(sb, amp, lam, shape=tuple(c["t"])), N)
        parts = [rows(G.get_periodic_gaussian_operators_explicit_taylor(sb[i], amp, lam, n_terms=c["t"][i]), c["shp"][i]) for i in range(nd)]
        close(diag_ref(e, o), functools.reduce(np.kron, [diag_ref(*p) for p in parts]), "stacked periodic", rtol=1e-9)
    ctx.nt(t > 1)


# ------------------------------------------------------------------ truncation
@st.composite
def trunc_in(draw):
    n = draw(st.integers(1, 6))
    keep = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True))
    return {"n": n, "keep": sorted(keep), "k": draw(st.integers(1, n)), "range": draw(st.booleans()), "w": draw(g.arrd(kinds=("rand",))), "u": draw(st.integers(0, 500)), "neg": draw(st.booleans()), "full": draw(st.integers(1, 3))}


@case("C12", trunc_in(), quick=300)
def truncation(c, ctx):
    """Truncated operator lists and kernels keep the requested operators in order of decreasing strength. Non-trivial: something is dropped."""
    n = c["n"]
    rng = np.random.default_rng(c["w"]["s"])
    keep = list(range(c["k"])) if c["range"] else c["keep"]
    trunc = range(c["k"]) if c["range"] else keep
    b = FundamentalBasis(n)
    w = (np.arange(1, n + 1) + 0.3 * rng.random(n))[rng.permutation(n)]  # distinct by construction
    sign = np.where(rng.random(n) < 0.5, -1, 1) if c["neg"] else np.ones(n)
    u = g.ortho(n, n, c["u"])
    wd = w * sign
    order = np.argsort(-np.abs(wd))
    o = {"basis": TupleBasis(FundamentalBasis(n), pair(b)), "data": ro(u.reshape(-1)), "eigenvalue": ro(wd.astype(complex))}
    e2, o2 = rows(B.truncate_diagonal_noise_operator_list(o, trunc), n)
    close(e2, wd[order][keep], "kept strengths", rtol=1e-12)
    close(o2, u[order][keep], "kept operators", rtol=1e-12)
    # strengths of a non-Hermitian correlation carry a phase: decreasing strength means decreasing magnitude
    wc = wd * np.exp(2j * np.pi * rng.random(n))
    e2, o2 = rows(B.truncate_diagonal_noise_operator_list({**o, "eigenvalue": ro(wc)}, trunc), n)
    close(e2, wc[order][keep], "kept complex strengths", rtol=1e-12)
    close(o2, u[order][keep], "kept operators of complex strengths", rtol=1e-12)
    m = diag_ref(wd, u)
    out = B.truncate_diagonal_noise_kernel({"basis": TupleBasis(pair(b), pair(b)), "data": ro(m.reshape(-1))}, trunc)
    close(data(out).reshape(n, n), diag_ref(wd[order][keep], u[order][keep]), "truncated diagonal kernel", rtol=1e-8, scale=n + 1)
    # full kernels: non-negative strengths
    q = c["full"]
    N = q * q
    bq = FundamentalBasis(q)
    w = (np.arange(1, N + 1) + 0.3 * rng.random(N))[rng.permutation(N)]
    u = g.ortho(N, N, c["u"] + 1)
    order = np.argsort(-w)
    keep = [k for k in keep if k < N]
    if keep:
        o = {"basis": TupleBasis(FundamentalBasis(N), pair(bq)), "data": ro(u.reshape(-1)), "eigenvalue": ro(w)}
        e2, o2 = rows(B.truncate_noise_operator_list(o, keep), N)
        close(e2, w[order][keep], "kept strengths (full)", rtol=1e-12)
        close(o2, u[order][keep], "kept operators (full)", rtol=1e-12)
        full = full_ref(w, u.reshape(N, q, q))
        out = B.truncate_noise_kernel({"basis": TupleBasis(pair(bq), pair(bq)), "data": ro(full.reshape(-1))}, keep)
        close(data(out).reshape(q, q, q, q), full_ref(w[order][keep], u[order][keep].reshape(-1, q, q)), "truncated kernel", rtol=1e-8, scale=N + 1)
    ctx.nt(len(keep) < n)
    ctx.label("neg" if c["neg"] else "pos")


# ------------------------------------------------------------------ Gaussian operators
@st.composite
def gauss_in(draw):
    shp = draw(g.fshapes(ndim=(1, 3), max_n=6, max_total=30, long=60))
    return {"shp": shp, "lat": draw(g.lattices(len(shp), kinds=("cubic", "ortho"))), "lam": draw(g.floats(0.1, 2)), "amp": draw(st.sampled_from([1.0, 0.01, 1e7])), "k": draw(st.integers(1, 6)), "trunc": draw(st.booleans())}


@case("C12", gauss_in(), quick=200)
def gaussian_operators(c, ctx):
    """The periodic operators of a Gaussian kernel recombine to exp(-d^2/2l^2) of the periodic displacement (or its largest terms). Non-trivial: more than two points."""
    shp = tuple(c["shp"])
    dx = g.lattice(c["lat"])
    b = g.build({"t": "P", "of": [{"t": "F", "n": n} for n in shp]}, dx)
    lam, amp = c["lam"] * c["lat"]["scale"], c["amp"]
    n = int(np.prod(shp))
    pts = g.gridpts(shp)
    d2 = 0
    for p, m, v in zip(pts, shp, dx, strict=True):
        d = np.abs((p[:, None] - p[None, :] + m // 2) % m - m // 2) * np.linalg.norm(v) / m
        d2 = d2 + d**2
    exp = amp**2 * np.exp(-d2 / (2 * lam**2))
    e, o = rows(G.get_gaussian_noise_operators_periodic(b, amp, lam), n)
    close(diag_ref(e, o), exp.astype(complex), "gaussian kernel", rtol=1e-9, scale=amp**2 * n)
    ensure(np.all(np.diff(np.abs(e)) <= 1e-9 * np.max(np.abs(e))), "in order of decreasing strength")
    if c["trunc"]:
        k = min(c["k"], n)
        et, ot = rows(G.get_gaussian_noise_operators_periodic(b, amp, lam, truncation=range(k)), n)
        ensure(len(et) == k, "number of operators kept")
        close(np.abs(et), np.abs(e[:k]), "strengths kept", rtol=1e-9, scale=np.max(np.abs(e)))
        close(np.linalg.norm(ot, axis=1), np.ones(k), "normalised", rtol=1e-9)
        # each kept operator is an eigenvector of the kernel with its strength
        close(exp @ ot.conj().T, ot.conj().T * et[None, :], "eigenvectors", rtol=1e-9, scale=amp**2 * n)
    ctx.nt(n > 2)
    ctx.label(f"{len(shp)}d")


assert hermitian

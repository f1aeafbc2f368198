"""JSON-able strategies and their realisation (bases, lattices, operators...), with dense references."""
from __future__ import annotations

import functools

import numpy as np
from hypothesis import strategies as st

from harness.core import arr

from surface_potential_analysis.basis.basis import (
    FundamentalBasis,
    FundamentalPositionBasis,
    FundamentalTransformedBasis,
    FundamentalTransformedPositionBasis,
    TransformedBasis,
    TransformedPositionBasis,
    TruncatedBasis,
    TruncatedPositionBasis,
)
from surface_potential_analysis.basis.evenly_spaced_basis import (
    EvenlySpacedBasis,
    EvenlySpacedTransformedBasis,
    EvenlySpacedTransformedPositionBasis,
)
from surface_potential_analysis.basis.explicit_basis import (
    ExplicitBasis,
    ExplicitBasisWithLength,
    ExplicitStackedBasisWithLength,
)
from surface_potential_analysis.basis.stacked_basis import TupleBasis

# ------------------------------------------------------------------ arrays


@st.composite
def arrd(draw, kinds=("unit", "iunit", "rand", "rand", "rand", "sparse"), powers=(0, 0, 0, 0, 0, -20, -30, 9)):
    """An array; a third of them in physical units such as joules, so that absolute tolerances show."""
    d = {"k": draw(st.sampled_from(kinds)), "s": draw(st.integers(0, 2**16))}
    e = draw(st.sampled_from(powers))
    return {**d, "e": e} if e else d


rand = arrd(kinds=("rand",))


def ints(lo, hi):
    return st.integers(lo, hi)


def floats(lo, hi):
    """Floats in [lo, hi] on a coarse grid (shrinks to readable values, no denormals)."""
    return st.integers(0, 1000).map(lambda i: round(lo + (hi - lo) * i / 1000, 6))


# ------------------------------------------------------------------ dense references
def freqs(n: int) -> np.ndarray:
    """Integer frequencies of an n point discrete transform, in transform order."""
    return np.array([i if i <= (n - 1) // 2 else i - n for i in range(n)])


def dft(n: int) -> np.ndarray:
    """Row k is the momentum state k: exp(2 pi i k x / n) / sqrt(n)."""
    return np.exp(2j * np.pi * np.outer(freqs(n), np.arange(n)) / n) / np.sqrt(n)


@functools.lru_cache(maxsize=4096)
def _ortho(n: int, m: int, seed: int) -> np.ndarray:
    rng = np.random.default_rng(seed)
    a = rng.normal(size=(m, m)) + 1j * rng.normal(size=(m, m))
    q, _ = np.linalg.qr(a)
    return q[:n].copy()


def ortho(n: int, m: int, seed: int) -> np.ndarray:
    """n orthonormal rows of length m (seed 0: the first n coordinate vectors)."""
    if seed == 0:
        return np.eye(m, dtype=np.complex128)[:n].copy()
    return _ortho(n, m, seed).copy()


def ref(d: dict) -> np.ndarray:
    """Dense (n, fundamental_n) matrix whose rows are the basis vectors in position space."""
    t = d["t"]
    if t == "F":
        return np.eye(d["n"], dtype=np.complex128)
    if t == "FM":
        return dft(d["n"])
    if t == "Tr":
        return np.eye(d["N"], dtype=np.complex128)[freqs(d["n"]) % d["N"]]
    if t == "M":
        return dft(d["N"])[freqs(d["n"]) % d["N"]]
    if t == "E":
        n_full = d["n"] * d["step"]
        return np.eye(n_full, dtype=np.complex128)[(d["off"] + d["step"] * np.arange(d["n"])) % n_full]
    if t == "EM":
        n_full = d["n"] * d["step"]
        return dft(n_full)[(d["off"] + d["step"] * np.arange(d["n"])) % n_full]
    if t == "X":
        inner = ref(d["of"])
        return ortho(d["n"], inner.shape[0], d["s"]) @ inner
    if t == "P":
        return functools.reduce(np.kron, [ref(q) for q in d["of"]])
    raise ValueError(t)


def size(d: dict) -> int:
    if d["t"] == "P":
        return int(np.prod([size(q) for q in d["of"]]))
    return d["n"]


def fsize(d: dict) -> int:
    t = d["t"]
    if t in ("F", "FM"):
        return d["n"]
    if t in ("Tr", "M"):
        return d["N"]
    if t in ("E", "EM"):
        return d["n"] * d["step"]
    if t == "X":
        return fsize(d["of"])
    return int(np.prod([fsize(q) for q in d["of"]]))


def fshape(d: dict) -> tuple[int, ...]:
    return tuple(fsize(q) for q in d["of"]) if d["t"] == "P" else (fsize(d),)


def shape(d: dict) -> tuple[int, ...]:
    return tuple(size(q) for q in d["of"]) if d["t"] == "P" else (size(d),)


def build(d: dict, dx: np.ndarray | None = None):
    """The library's basis for a descriptor; with lattice vectors dx, the variant that carries lengths."""
    t = d["t"]
    if t == "P":
        return TupleBasis(*[build(q, None if dx is None else dx[i]) for i, q in enumerate(d["of"])])
    if t == "F":
        return FundamentalBasis(d["n"]) if dx is None else FundamentalPositionBasis(dx, d["n"])
    if t == "FM":
        return FundamentalTransformedBasis(d["n"]) if dx is None else FundamentalTransformedPositionBasis(dx, d["n"])
    if t == "Tr":
        return TruncatedBasis(d["n"], d["N"]) if dx is None else TruncatedPositionBasis(dx, d["n"], d["N"])
    if t == "M":
        return TransformedBasis(d["n"], d["N"]) if dx is None else TransformedPositionBasis(dx, d["n"], d["N"])
    if t == "E":
        return EvenlySpacedBasis(d["n"], d["step"], d["off"])
    if t == "EM":
        if dx is None:
            return EvenlySpacedTransformedBasis(d["n"], d["step"], d["off"])
        return EvenlySpacedTransformedPositionBasis(dx, n=d["n"], step=d["step"], offset=d["off"])
    if t == "X":
        inner = build(d["of"], dx)
        vecs = {"basis": TupleBasis(FundamentalBasis(d["n"]), inner), "data": ortho(d["n"], size(d["of"]), d["s"]).reshape(-1)}
        cls = ExplicitBasis
        if dx is not None:
            cls = ExplicitStackedBasisWithLength if d["of"]["t"] == "P" else ExplicitBasisWithLength
        return cls(vecs)
    raise ValueError(t)


def divisors(n: int) -> list[int]:
    return [k for k in range(1, n + 1) if n % k == 0]


@st.composite
def basis1(draw, n_full: int, complete: bool = False, lengths: bool = False, explicit: bool = True):
    """Descriptor of a 1-d basis with the given fundamental size."""
    kinds = ["F", "FM", "E", "EM", "X"] if complete else ["F", "FM", "Tr", "M", "E", "EM", "X"]
    if lengths:
        kinds = [k for k in kinds if k != "E"]
    if not explicit:
        kinds = [k for k in kinds if k != "X"]
    t = draw(st.sampled_from(kinds))
    if t in ("F", "FM"):
        return {"t": t, "n": n_full}
    if t in ("Tr", "M"):
        return {"t": t, "n": draw(st.integers(1, n_full)), "N": n_full}
    if t in ("E", "EM"):
        step = 1 if complete else draw(st.sampled_from(divisors(n_full)))
        return {"t": t, "n": n_full // step, "step": step, "off": draw(st.integers(-n_full - 1, 2 * n_full + 1))}
    inner = draw(basis1(n_full, complete, lengths, False))
    m = size(inner)
    return {"t": "X", "n": m if complete else draw(st.integers(1, m)), "of": inner, "s": draw(st.integers(0, 1000))}


@st.composite
def basis_nd(draw, shp, complete: bool = False, lengths: bool = False, explicit: bool = True):
    return {"t": "P", "of": [draw(basis1(int(n), complete, lengths, explicit)) for n in shp]}


@st.composite
def fshapes(draw, ndim=(1, 3), max_n: int = 7, max_total: int = 60, min_n: int = 1, long: int = 0):
    """Sizes of the axes of a cell. Up to `long` points along one axis in one draw out of sixteen: sizes at which library
    routines change algorithm (blocked sums, unstable sorts, fft plans) are rare but not absent."""
    nd = draw(st.integers(*ndim)) if isinstance(ndim, tuple) else ndim
    if long > max_n and draw(st.integers(0, 15)) == 15:
        out = [draw(st.integers(min_n, max(min_n, 2))) for _ in range(nd)]
        out[draw(st.integers(0, nd - 1))] = draw(st.integers(max_n, max(max_n, long // max(1, int(np.prod(out))))))
        return out
    out = []
    total = 1
    for _ in range(nd):
        hi = max(min_n, min(max_n, max_total // total))
        k = draw(st.integers(min_n, hi))
        out.append(k)
        total *= k
    return out


@st.composite
def counts(draw, lo: int, hi: int, long: int):
    """How many entries a list has: lo to hi, and once in sixteen up to long."""
    return draw(st.integers(hi, long)) if draw(st.integers(0, 15)) == 15 else draw(st.integers(lo, hi))


def any_basis(shp, complete=False):
    """A basis for the space of prod(shp) points: product (optionally inside an explicit basis) or flat."""
    n = int(np.prod(shp))
    prods = basis_nd(shp, complete)
    flat = basis1(n, complete)

    @st.composite
    def explicit_of_product(draw):
        inner = draw(prods)
        m = size(inner)
        return {"t": "X", "n": m if complete else draw(st.integers(1, m)), "of": inner, "s": draw(st.integers(0, 1000))}

    return st.one_of(prods, prods, prods, flat, explicit_of_product())


# ------------------------------------------------------------------ lattices
@st.composite
def lattices(draw, ndim: int, kinds=("cubic", "ortho", "hex", "skew", "rot")):
    """Rows are lattice vectors; well conditioned by construction."""
    kind = draw(st.sampled_from(kinds))
    return {"kind": kind, "nd": ndim, "s": draw(st.integers(0, 500)), "scale": draw(st.sampled_from([1.0, 2.5, 0.3, 1e-10, 3e-10]))}


def lattice(d: dict) -> np.ndarray:
    nd, rng = d["nd"], np.random.default_rng(d["s"])
    lens = 0.5 + 2.0 * rng.random(nd)
    if d["kind"] == "cubic":
        m = np.eye(nd)
    elif d["kind"] == "ortho":
        m = np.diag(lens)
    elif d["kind"] == "hex" and nd >= 2:
        m = np.eye(nd)
        m[1, :2] = [0.5, np.sqrt(3) / 2]
        m = m * np.where(np.arange(nd) < 2, 1.0, lens[-1])[:, None]
    else:
        m = np.eye(nd)
        for i in range(nd):
            for j in range(i):
                m[i, j] = rng.uniform(-0.6, 0.6)
        m = m * lens[:, None]
        if d["kind"] == "rot" and nd > 1:
            q, _ = np.linalg.qr(rng.normal(size=(nd, nd)))
            m = m @ q
        elif nd == 1 and d["kind"] == "rot":
            m = m.copy()
    return m * d["scale"]


def recip(a: np.ndarray) -> np.ndarray:
    return 2 * np.pi * np.linalg.inv(a).T


def gridpts(shp) -> np.ndarray:
    """(ndim, prod(shp)) integer grid in row-major order."""
    return np.array(np.unravel_index(np.arange(int(np.prod(shp))), tuple(shp))).reshape(len(shp), -1)


def gridk(shp) -> np.ndarray:
    g = gridpts(shp)
    return np.array([freqs(int(n))[g[i]] for i, n in enumerate(shp)]).reshape(len(shp), -1)

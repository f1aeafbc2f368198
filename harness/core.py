"""Case registry, comparison helpers, generators' array descriptors."""
from __future__ import annotations

import json
import zlib
from typing import Any, Callable

import numpy as np


class Violation(AssertionError):
    pass


class Case:
    def __init__(self, prop: str, name: str, strategy, fn, quick: int, thorough: int, rule: str) -> None:
        self.prop, self.name, self.strategy, self.fn = prop, name, strategy, fn
        self.quick, self.thorough, self.rule = quick, thorough, rule


REGISTRY: dict[str, dict[str, Case]] = {}
# how often the number of examples given at each case is run by the quick check (about 150 s of processor time each)
QUICK_SCALE = {
    "C01": 2, "C02": 7, "C03": 4, "C04": 6, "C05": 7, "C06": 5, "C07": 6, "C08": 8, "C09": 8, "C10": 4, "C11": 6, "C12": 8,
    "C13": 7, "C14": 8, "C15": 8, "C16": 8, "C17": 8, "C18": 8, "C19": 7, "C20": 8, "C21": 5, "C24": 2, "C25": 8, "C27": 5,
}  # fmt: skip
# thorough checks stop when their time is over
THOROUGH_SCALE = 300


def case(prop: str, strategy, quick: int = 200, name: str | None = None):
    """Register fn(c, ctx): c is a JSON-able input, raising means a violation."""

    def deco(fn: Callable):
        n = name or fn.__name__
        reg = REGISTRY.setdefault(prop, {})
        if n in reg:
            raise RuntimeError(f"duplicate case {n}")
        reg[n] = Case(prop, n, strategy, fn, quick * QUICK_SCALE.get(prop, 1), quick * THOROUGH_SCALE, (fn.__doc__ or "").strip())
        return fn

    return deco


class Ctx:
    """Per-evaluation notes: whether the case is non-trivial and which classes it falls into."""

    def __init__(self) -> None:
        self.nontrivial = False
        self.labels: list[str] = []

    def nt(self, cond: bool = True) -> None:
        self.nontrivial = self.nontrivial or bool(cond)

    def label(self, *names: Any) -> None:
        self.labels.extend(str(n) for n in names)


def key(c: Any) -> int:
    return zlib.crc32(json.dumps(c, sort_keys=True).encode())


# ---------------------------------------------------------------- comparison
def fail(msg: str) -> None:
    raise Violation(msg)


def ensure(cond: Any, msg: str = "condition does not hold") -> None:
    if not bool(cond):
        raise Violation(msg)


def close(actual, expected, what: str = "values", rtol: float = 1e-9, atol: float | None = None, scale: float | None = None, flat: bool = False) -> None:
    """Element-wise equality up to rtol * (largest expected magnitude); NaN/inf in actual always fails."""
    a, e = np.asarray(actual), np.asarray(expected)
    if flat:
        a, e = a.reshape(-1), e.reshape(-1)
    if a.shape != e.shape:
        raise Violation(f"{what}: shape {a.shape} != expected {e.shape}")
    if a.size == 0:
        return
    if a.dtype == object or not np.all(np.isfinite(a)):
        raise Violation(f"{what}: non-finite or non-numeric result {a.ravel()[:5]}")
    if scale is None:
        scale = float(np.max(np.abs(e)))
    tol = rtol * scale + (atol if atol is not None else (1e-300 if scale > 0 else 1e-12))
    err = np.abs(a - e)
    if np.max(err) > tol:
        i = np.unravel_index(int(np.argmax(err)), err.shape)
        raise Violation(f"{what}: max error {err[i]:.3g} > {tol:.3g} at {tuple(int(q) for q in i)}: got {a[i]!r}, expected {e[i]!r}")


def same_ints(actual, expected, what: str = "indices") -> None:
    a, e = np.asarray(actual), np.asarray(expected)
    if a.shape != e.shape:
        raise Violation(f"{what}: shape {a.shape} != expected {e.shape}")
    if not np.array_equal(a, e):
        raise Violation(f"{what}: got {a.tolist()[:30]}, expected {e.tolist()[:30]}")


def raises(fn: Callable[[], Any], kinds=(Exception,)) -> bool:
    try:
        fn()
    except kinds:
        return True
    return False


# ---------------------------------------------------------------- arrays from descriptors
def arr(d: dict, shape, complex_: bool = True, scale: float = 1.0) -> np.ndarray:
    """Array from a JSON descriptor {"k": kind, "s": seed}; kind shrinks towards a unit vector."""
    shape = (shape,) if isinstance(shape, (int, np.integer)) else tuple(int(s) for s in shape)
    n = int(np.prod(shape)) if shape else 1
    k, s = d["k"], d["s"]
    dt = np.complex128 if complex_ else np.float64
    if k == "unit":
        out = np.zeros(n, dtype=dt)
        if n:
            out[s % n] = 1
    elif k == "iunit":
        out = np.zeros(n, dtype=dt)
        if n:
            out[s % n] = 1j if complex_ else -1
    else:
        rng = np.random.default_rng(s)
        out = rng.normal(size=n).astype(dt)
        if complex_:
            out = out + 1j * rng.normal(size=n)
        if k == "sparse" and n > 1:
            out = out * (rng.random(n) < 0.5)
        if k == "big":
            out = out * 1e3
    return (out * (scale * 10.0 ** d.get("e", 0))).reshape(shape)


def ro(a) -> np.ndarray:
    """Read-only contiguous copy: writing into an input raises."""
    a = np.array(a)
    a.flags.writeable = False
    return a


def sizes(basis):
    """Numbers of values an object on this basis may hold: one for each element, or one for each diagonal element."""
    found = {1}
    parts = [basis[q] for q in range(len(basis.shape))] if hasattr(basis, "shape") and hasattr(basis, "__getitem__") else [basis]
    for p in parts:
        opts = {p.n}
        if hasattr(p, "shape") and len(p.shape) == 2 and p.shape[0] == p.shape[1]:
            opts.add(p.shape[0])
        found = {q * r for q in found for r in opts}
    if len(parts) == 2 and parts[0].n == parts[1].n:
        found.add(parts[0].n)
    return found


def data(x) -> np.ndarray:
    """The values of an object, as many as its basis says."""
    d = np.asarray(x["data"]).reshape(-1)
    if hasattr(x["basis"], "n") and d.size not in sizes(x["basis"]):
        raise Violation(f"{d.size} values on a basis of {x['basis'].n} elements ({getattr(x['basis'], 'shape', '')})")
    return d


def hermitian(d: dict, n: int, real: bool = False) -> np.ndarray:
    m = arr(d, (n, n), complex_=not real)
    return (m + m.conj().T) / 2


def nonzero_vec(d: dict, n: int, real: bool = False) -> np.ndarray:
    v = arr(d, n, complex_=not real)
    if np.linalg.norm(v) < 1e-3 * 10.0 ** d.get("e", 0):
        v = v.copy()
        v[0] = 10.0 ** d.get("e", 0)
    return v

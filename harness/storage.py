"""Monitor of library calls: the result depends on the values of the arguments, not on how their arrays are stored."""
from __future__ import annotations

import time

import numpy as np

from harness import purity as P


def vary(o, how, depth=0, memo=None):
    """The same values, stored in another way."""
    memo = {} if memo is None else memo
    if id(o) in memo:
        return memo[id(o)][1]
    r = o
    if depth > 8:
        return o
    if isinstance(o, np.ndarray):
        r = array(o, how) if type(o) is np.ndarray and o.dtype != object else o
    elif type(o) is dict:
        r = {k: vary(v, how, depth + 1, memo) for k, v in o.items()}
        if how == "columns" and "basis" in o and isinstance(o.get("data"), np.ndarray) and o["data"].ndim == 1 and len(getattr(o["basis"], "shape", ())) == 2 and o["data"].size == np.prod(o["basis"].shape):
            r["data"] = np.asfortranarray(o["data"].reshape(o["basis"].shape))
        if how == "complex" and "basis" in o and isinstance(o.get("data"), np.ndarray) and o["data"].dtype == np.float64:
            r["data"] = o["data"].astype(np.complex128)
        if how == "real" and "basis" in o and isinstance(o.get("data"), np.ndarray) and o["data"].dtype == np.complex128 and not np.any(o["data"].imag):
            r["data"] = o["data"].real.copy()
        if how == "ints" and "basis" in o and isinstance(o.get("data"), np.ndarray) and o["data"].dtype.kind in "fc" and not np.any(o["data"].imag) and np.all(o["data"].real == np.rint(o["data"].real)) and np.all(np.abs(o["data"]) < 1e6):
            r["data"] = o["data"].real.astype(np.int64)
    elif type(o) is list:
        r = [vary(v, how, depth + 1, memo) for v in o]
    elif type(o) is tuple:
        r = tuple(vary(v, how, depth + 1, memo) for v in o)
    elif how == "scalars" and type(o) is int:
        return np.int64(o)
    elif how == "scalars" and type(o) is float:
        return np.float64(o)
    elif how == "objects" and P.is_library(o) and not isinstance(o, (type, tuple)) and type(getattr(o, "__dict__", None)) is dict:
        first = P._INIT_BY_ID.get(id(o))  # noqa: SLF001
        d = first[1] if first is not None and first[0]() is o else P.fields(o)
        r = object.__new__(type(o))
        memo[id(o)] = (o, r)
        for k, v in d.items():
            r.__dict__[k] = vary(v, how, depth + 1, memo)
    memo[id(o)] = (o, r)
    return r


def array(a, how):
    if how == "spread" and a.ndim:
        room = np.zeros((*a.shape[:-1], 2 * a.shape[-1] + 1), dtype=a.dtype)
        room[..., 1::2] = a
        room[..., 0::2] = 7
        return room[..., 1::2]
    if how in ("backwards", "objects") and a.ndim:
        return a[(slice(None, None, -1),) * a.ndim].copy()[(slice(None, None, -1),) * a.ndim]
    if how == "noise" and a.dtype.kind in "fc" and a.size and np.all(np.isfinite(a)):
        return a + 3e-16 * np.random.default_rng(a.size).normal(size=a.shape) * (np.abs(a) + np.max(np.abs(a)))
    if how == "fortran":
        return np.asfortranarray(a) if a.ndim > 1 else a.copy()
    return a


WAYS = ("spread", "backwards", "fortran", "complex", "scalars", "objects", "real", "ints", "columns")


class Storage(P.Monitor):
    def __init__(self, ways=WAYS, collect=None, time_s=1.0) -> None:
        super().__init__(keep=0)
        self.ways = ways
        self.collect = collect
        self.until = time.perf_counter() + time_s
        self.used: set = set()
        self.unstable = 0

    def call(self, name, f, a, k):
        self.calls += 1
        self.depth = 1
        try:
            pure = not (P.once_only(a) or P.once_only(k) or P.has_canvas(a) or P.has_canvas(k))
            state = np.random.get_state()[1:3]  # noqa: NPY002
            self.random = np.random.default_rng is not P.OWN_RNG[0] or "wannier90" in name
            t0 = time.perf_counter()
            r = f(*a, **k)
            took = time.perf_counter() - t0
            after = np.random.get_state()[1:3]  # noqa: NPY002
            self.random = self.random or state[1] != after[1] or not np.array_equal(state[0], after[0])
            if pure and not (P.once_only(r) or P.has_canvas(r) or self.random) and took < self.limit:
                now = P.freeze(r)
                for how in self.ways:
                    if time.perf_counter() < self.until:
                        self.compare(name, f, a, k, now, how)
            return r
        finally:
            self.depth = 0

    def stable(self, f, a, k, now) -> bool:
        """Whether rounding errors of the arguments leave the result as it is (no ties, no free choice of vectors)."""
        self.unstable += 1
        for _ in range(3):
            try:
                with np.errstate(all="ignore"):
                    if not values_alike(now, P.freeze(f(*vary(a, "noise"), **vary(k, "noise"))), 1e-7):
                        return False
            except Exception:  # noqa: BLE001
                return False
        return True

    def untouched(self, name, before, how):
        was = P.changed(before)
        if was is not None:
            self.report(f"{name} changed an argument stored in another way ({how}): {was}")

    def compare(self, name, f, a, k, now, how):
        a2, k2 = vary(a, how), vary(k, how)
        self.repeats += 1
        self.used.add(how)
        before = P.snapshot([a2, k2])
        typed = how in ("real", "complex", "ints")
        try:
            r2 = f(*a2, **k2)
        except OSError:
            return
        except Exception as e:  # noqa: BLE001
            if how == "columns":  # vectors are flat by contract
                self.untouched(name, before, how)
                return
            if (typed or how == "scalars") and isinstance(e, (TypeError, AttributeError, AssertionError)):  # refused, not wrong
                return
            what = f"{name} raised with the same values stored in another way ({how}): {e!r}"
        else:
            self.untouched(name, before, how)
            if how == "columns":
                return
            if values_alike(now, P.freeze(r2), 1e-7, spectra=typed) or not self.stable(f, a, k, now):
                return
            what = f"{name} gave a different result with the same values stored in another way ({how})"
        if self.collect is not None:
            self.collect.append((name, how, what[:120]))
            return
        self.report(what)


def values_alike(p, q, rtol, spectra=False) -> bool:
    """Like purity.alike, with real and complex numbers of one value alike. Spectra: of states with eigenvalues, only the
    eigenvalues (another solver is used for real matrices, and it is free to choose the phases of the states)."""
    if spectra and p[0] == q[0] == "d" and "eigenvalue" in p[1] and "eigenvalue" in q[1]:
        return values_alike(p[1]["eigenvalue"], q[1]["eigenvalue"], rtol)
    if p[0] in ("a", "n") and q[0] in ("a", "n"):
        x, y = p[1], q[1]
        if x.shape != y.shape:
            return False
        if x.dtype.kind in "iufc" and y.dtype.kind in "iufc":
            x, y = x.reshape(-1).astype(complex), y.reshape(-1).astype(complex)
        else:
            x, y = x.reshape(-1), y.reshape(-1)
        return P.alike(("a", x), ("a", y), rtol)
    if p[0] != q[0]:
        return False
    if p[0] == "l":
        return len(p[1]) == len(q[1]) and all(values_alike(a, b, rtol, spectra) for a, b in zip(p[1], q[1]))
    if p[0] == "d":
        return set(p[1]) == set(q[1]) and all(values_alike(v, q[1][k], rtol, spectra) for k, v in p[1].items())
    return P.alike(p, q, rtol)

"""Rounding noise in numpy functions called by the library (VERIF_JITTER=1), to see which checks would mind a change of
the order of operations. A development aid: no registered command uses it."""
from __future__ import annotations

import sys

import numpy as np

from harness import REPO

EPS = 3e-16
rng = np.random.default_rng(7)


def noisy(x, additive):
    if isinstance(x, tuple):
        return type(x)(*[noisy(v, additive) for v in x]) if hasattr(x, "_fields") else tuple(noisy(v, additive) for v in x)
    a = np.asarray(x)
    if a.dtype.kind not in "fc" or a.size == 0 or a.dtype.itemsize < 8:
        return x
    with np.errstate(all="ignore"):
        out = a * (1 + EPS * rng.uniform(-1, 1, a.shape))
        top = np.max(np.abs(a))
        if additive and np.isfinite(top):
            noise = rng.uniform(-1, 1, a.shape)
            if a.dtype.kind == "c":
                noise = noise + 1j * rng.uniform(-1, 1, a.shape)
            out = out + EPS * top * noise
    return out.astype(a.dtype) if a.ndim else a.dtype.type(out)


def wrap(mod, name, additive):
    real = getattr(mod, name)

    def run(*a, **k):
        out = real(*a, **k)
        if "out" not in k and sys._getframe(1).f_code.co_filename.startswith(REPO):
            return noisy(out, additive)
        return out

    run.__name__ = name
    setattr(mod, name, run)


def install():
    import numpy.fft
    import numpy.linalg
    import scipy.linalg

    for n in ("einsum", "tensordot", "dot", "matmul"):
        wrap(np, n, True)
    for n in ("exp", "cos", "sin"):
        wrap(np, n, False)
    for n in ("fft", "ifft", "fftn", "ifftn", "rfft", "irfft", "rfftn", "irfftn", "rfft2", "irfft2", "fft2", "ifft2"):
        wrap(np.fft, n, True)
    for n in ("inv", "norm", "det", "solve"):
        wrap(np.linalg, n, False)
    for n in ("eigh", "eig", "svd", "solve", "expm"):
        for m in (np.linalg, scipy.linalg):
            if hasattr(m, n):
                wrap(m, n, n != "eigh")

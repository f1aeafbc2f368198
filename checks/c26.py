"""C26: results depend on the values of the arguments, not on how these are stored.

The generated inputs of the other properties are run under a monitor (harness/storage.py) which repeats every call they make
with the same values in other memory layouts (strided, reversed, column-major), as numpy scalars, in bases made from such
arrays, and with real values as real, complex or integer arrays."""
from __future__ import annotations

import importlib
import sys

import numpy as np
from hypothesis import strategies as st

from harness import core
from harness import purity as P
from harness.core import REGISTRY, Ctx, case, fail
from harness.storage import Storage

SOURCES = [f"C{i:02d}" for i in range(1, 22) if i != 19] + ["C24", "C25"]
for s in SOURCES:
    importlib.import_module(f"checks.{s.lower()}")
P.install()


def some_real(d, *args, **kwargs):
    """Arrays of the generated inputs: a quarter of them real, a quarter of them whole numbers."""
    a = core.arr(d, *args, **kwargs)
    if d["s"] % 4 == 0:
        return np.real(a).astype(a.dtype)
    if d["s"] % 4 == 1 and not d.get("e"):
        return np.rint(3 * np.real(a)).astype(a.dtype)
    return a


for name, module in list(sys.modules.items()):
    if name.startswith(("checks.c", "harness.gen")) and hasattr(module, "arr"):
        module.arr = some_real


def inputs(prop):
    names = [n for n in REGISTRY[prop] if not n.startswith("known_")]
    return st.sampled_from(names).flatmap(lambda n: REGISTRY[prop][n].strategy.map(lambda c: {"case": n, "in": c}))


def check(prop, c, ctx):
    m = Storage()
    source = REGISTRY[prop][c["case"]]
    P.ACTIVE[0] = m
    try:
        from harness.__main__ import evaluate

        evaluate(source, c["in"], Ctx())
    except Exception:  # noqa: BLE001
        m.depth = 0
        if m.problem is None:
            ctx.label("oracle of the other property not met")
    finally:
        P.ACTIVE[0] = None
    ctx.nt(m.repeats > 3)
    if m.unstable:
        ctx.label("sensitive to rounding (skipped)")
    if m.problem is not None:
        fail(m.problem)


for p in SOURCES:
    n_cases = len([n for n in REGISTRY[p] if not n.startswith("known_")])

    def fn(c, ctx, p=p):
        check(p, c, ctx)

    fn.__doc__ = f"Calls made with the inputs of {p}, repeated with the same values stored in other ways. Non-trivial: at least four repeated calls."
    case("C26", inputs(p), quick=25 * n_cases, name=f"calls_of_{p.lower()}")(fn)

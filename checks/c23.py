"""C23: library calls never modify their inputs, and give the same result whatever was called before.

The generated inputs of every other property are run under a monitor (harness/purity.py) with writeable arguments: the
oracles of those properties are set aside, and only the purity of each call they make is judged."""
from __future__ import annotations

import importlib
import pickle

import matplotlib as mpl

mpl.use("Agg")

import numpy as np
from hypothesis import strategies as st

from harness import purity as P
from harness.core import REGISTRY, Ctx, case, fail

SOURCES = [f"C{i:02d}" for i in range(1, 23) if i != 19] + ["C24", "C25"]
for s in SOURCES:
    importlib.import_module(f"checks.{s.lower()}")
P.install()

import sys  # noqa: E402

for name, module in list(sys.modules.items()):
    if name.startswith("checks.c") and hasattr(module, "ro") and name != "checks.c23":
        module.ro = lambda a: np.array(a)  # writeable: a change must be seen, not refused


def evaluate(prop, name, c):
    from harness.__main__ import evaluate as run

    run(REGISTRY[prop][name], c, Ctx())


def watched(prop, steps, record=True):
    """Run inputs one after another under one monitor: (problem, index and text of a failing input, calls to make elsewhere)."""

    def body():
        m = P.Monitor()
        P.ACTIVE[0] = m
        failed = None
        for i, (name, c) in enumerate(steps):
            try:
                evaluate(prop, name, c)
            except Exception as e:  # noqa: BLE001
                m.depth = 0
                failed = (i, f"{type(e).__name__}: {e}"[:300])
                break
            if m.problem is not None:
                break
        if m.problem is None:
            m.last_look()
        P.ACTIVE[0] = None
        return {"problem": m.problem, "failed": failed, "calls": m.calls, "repeats": m.repeats, "recorded": pick(m.recorded) if record else []}

    return P.in_child(body)


def pick(recorded, most=60):
    if len(recorded) <= most:
        return recorded
    step = len(recorded) / most
    return [recorded[int(i * step)] for i in range(most)]


def elsewhere(recorded):
    """The same calls on fresh copies, in reverse order, in a process which has done nothing else."""

    def body():
        out = []
        for name, packed, _ in reversed(recorded):
            f = P.TABLE[P.PKG + "." + name]
            try:
                a, k = pickle.loads(packed)  # noqa: S301
            except Exception:  # noqa: BLE001
                out.append(None)
                continue
            try:
                r = P.freeze(f(*a, **k))
            except Exception:  # noqa: BLE001
                r = None  # needs files or stand-ins which the check had provided
            out.append(r)
        return out[::-1]

    return P.in_child(body)


def history(prop):
    names = [n for n in REGISTRY[prop] if not n.startswith("known_")]

    @st.composite
    def strategy(draw):
        name = draw(st.sampled_from(names))
        s = REGISTRY[prop][name].strategy
        first = draw(s)
        other = draw(s)
        how = draw(st.sampled_from(["key", "key", "other", "one"]))
        steps = [[name, first]]
        if how == "other":
            steps.append([name, other])
        elif how == "key" and isinstance(first, dict):
            key = draw(st.sampled_from(sorted(first)))
            steps.append([name, {**first, key: other[key]}] if key in other else [name, other])
        return {"prop": prop, "steps": steps}

    return strategy()


def check(c, ctx):
    prop, steps = c["prop"], [tuple(s) for s in c["steps"]]
    got = watched(prop, steps)
    if got is None:
        ctx.label("no answer")
        return
    ctx.nt(got["calls"] > 3 and got["repeats"] > 1)
    ctx.label(f"{len(steps)} inputs")
    if got["problem"] is not None:
        fail(got["problem"])
    if got["failed"] is not None:
        ctx.label("oracle of the other property not met")
        i = got["failed"][0]
        if i > 0:
            alone = watched(prop, [steps[i]], record=False)
            if alone is not None and alone["failed"] is None and alone["problem"] is None:
                fail(f"{steps[i][0]}: fails after another input, but not in a fresh process: {got['failed'][1]}")
    rec = got["recorded"]
    if not rec:
        return
    out = elsewhere(rec)
    if out is None:
        ctx.label("no answer elsewhere")
        return
    ctx.label("compared elsewhere")
    for i, ((name, _, now), r) in enumerate(zip(rec, out)):
        if r is None:
            ctx.label("not evaluated elsewhere")
            continue
        if not P.alike(now, r):
            once_more = elsewhere(rec)
            if once_more is None or once_more[i] is None or not P.alike(once_more[i], r):
                ctx.label("not deterministic")
                continue
            fail(f"{name} gives a different result for fresh copies in a fresh process, after other calls")


QUICK = {"C22": 300, "C11": 150}
for p in SOURCES:
    n_cases = len([n for n in REGISTRY[p] if not n.startswith("known_")])

    def fn(c, ctx):
        check(c, ctx)

    fn.__doc__ = f"Calls made with the inputs of {p}: arguments unchanged, repeatable, independent of earlier calls. Non-trivial: at least four monitored calls, two of them repeated."
    case("C23", history(p), quick=QUICK.get(p, 30 * n_cases), name=f"calls_of_{p.lower()}")(fn)

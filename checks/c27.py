"""C27: every result says on which basis its values are.

The generated inputs of the other properties are run under a monitor (harness/lineage.py) which holds the basis of each result
against bases.json: for each public function, which basis of its arguments (or which sampling of it) the result is on."""
from __future__ import annotations

import importlib
import json
import os

from hypothesis import strategies as st

from harness import purity as P
from harness.core import REGISTRY, Ctx, case, fail
from harness.lineage import Lineage

SOURCES = [f"C{i:02d}" for i in range(1, 22) if i != 19] + ["C24", "C25"]
for s in SOURCES:
    importlib.import_module(f"checks.{s.lower()}")
P.install()
with open(os.path.join(os.path.dirname(__file__), "bases.json")) as f:
    RULES = json.load(f)


def inputs(prop):
    names = [n for n in REGISTRY[prop] if not n.startswith("known_")]
    return st.sampled_from(names).flatmap(lambda n: REGISTRY[prop][n].strategy.map(lambda c: {"case": n, "in": c}))


def check(prop, c, ctx):
    m = Lineage(RULES)
    source = REGISTRY[prop][c["case"]]
    P.ACTIVE[0] = m
    try:
        from harness.__main__ import evaluate

        evaluate(source, c["in"], Ctx())
    except Exception:  # noqa: BLE001
        if m.problem is None:
            ctx.label("oracle of the other property not met")
    finally:
        P.ACTIVE[0] = None
    ctx.nt(m.rich > 0)
    if not m.judged:
        ctx.label("no rule applied")
    if m.problem is not None:
        fail(m.problem)


for p in SOURCES:
    n_cases = len([n for n in REGISTRY[p] if not n.startswith("known_")])

    def fn(c, ctx, p=p):
        check(p, c, ctx)

    fn.__doc__ = f"Bases handed back by the calls made with the inputs of {p}. Non-trivial: a rule was applied to a basis with a lattice or with several parts."
    case("C27", inputs(p), quick=25 * n_cases, name=f"bases_of_{p.lower()}")(fn)

"""Monitor of library calls: the basis handed back with a result is the one which the arguments determine.

A basis is compared by what it describes: its numbers of states, its lattice vector and its states (by what it makes of a test
vector), never by its class or identity."""
from __future__ import annotations

import inspect

import numpy as np

from harness import purity as P
from surface_potential_analysis.basis.basis import FundamentalBasis, FundamentalPositionBasis, FundamentalTransformedPositionBasis, TransformedPositionBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis

KEPT: dict = {}


def is_basis(o) -> bool:
    return not isinstance(o, type) and hasattr(type(o), "fundamental_n") and hasattr(o, "n") and type(o).__name__ != "BasisUtil"


def parts(b):
    return list(b) if is_basis(b) and hasattr(b, "__getitem__") and hasattr(b, "__iter__") and hasattr(b, "shape") else None


def describe(b):
    """What a basis describes: nested lists for a stacked one."""
    if id(b) in KEPT and KEPT[id(b)][0] is b:
        return KEPT[id(b)][1]
    sub = parts(b)
    if sub is not None:
        out = [describe(q) for q in sub]
    else:
        n, nf = int(b.n), int(b.fundamental_n)
        length = np.array(b.delta_x, dtype=np.float64).reshape(-1) if hasattr(b, "delta_x") else None
        probe = np.random.default_rng(n).normal(size=(1, n))
        probe = (probe / (1 + np.arange(n)) ** 0.1).astype(np.complex128)
        try:
            states = np.asarray(b.__into_fundamental__(probe, 1)).reshape(-1)
        except Exception:  # noqa: BLE001
            states = None
        out = (n, nf, length, states)
    KEPT[id(b)] = (b, out)
    if len(KEPT) > 5000:
        KEPT.clear()
    return out


def near(a, b, tol) -> bool:
    if a is None or b is None:
        return a is b
    if a.shape != b.shape:
        return False
    top = max(float(np.max(np.abs(a), initial=0)), 1e-300)
    return bool(np.max(np.abs(a - b), initial=0) <= tol * top)


def same(p, q) -> bool:
    if isinstance(p, list) or isinstance(q, list):
        return isinstance(p, list) and isinstance(q, list) and len(p) == len(q) and all(same(a, b) for a, b in zip(p, q))
    return p[0] == q[0] and p[1] == q[1] and near(p[2], q[2], 1e-9) and near(p[3], q[3], 1e-7)


def show(p) -> str:
    if isinstance(p, list):
        return "(" + ", ".join(show(q) for q in p) + ")"
    return f"{p[0]} of {p[1]} states" + ("" if p[2] is None else f" on {p[2].tolist()}")


# ---------------------------------------------------------------- ways to make a basis from an argument
def plain(b):
    return FundamentalBasis(b.n)


def on_each(fn, b):
    sub = parts(b)
    return fn(b) if sub is None else TupleBasis(*(on_each(fn, q) for q in sub))


def positions(b):
    return on_each(lambda q: FundamentalPositionBasis(q.delta_x, q.fundamental_n), b)


def momenta(b):
    return on_each(lambda q: FundamentalTransformedPositionBasis(q.delta_x, q.fundamental_n), b)


def sampled(b):
    return on_each(lambda q: FundamentalPositionBasis(q.delta_x, q.n), b)


def sampled_k(b):
    return on_each(lambda q: FundamentalTransformedPositionBasis(q.delta_x, q.n), b)


def fundamental(b):
    return on_each(lambda q: FundamentalBasis(q.fundamental_n), b)


def repeated(b):
    """The parts of a wavepacket's basis: how often its unit cell is repeated along each axis, and the states in one."""
    cells, unit = parts(b)
    sub = parts(cells)
    if sub is not None and len(sub) == 2 and len(parts(sub[1]) or []) == len(parts(unit)):
        sub = parts(sub[1])
    if len(sub) != len(parts(unit)):
        raise ValueError
    return list(zip((q.n for q in sub), parts(unit)))


def unfurled(b):
    return TupleBasis(*(FundamentalPositionBasis(q.delta_x * n, n * q.fundamental_n) for n, q in repeated(b)))


def unfurled_k(b):
    return TupleBasis(*(FundamentalTransformedPositionBasis(q.delta_x * n, n * q.fundamental_n) for n, q in repeated(b)))


def unfurled_sampled(b):
    return TupleBasis(*(FundamentalPositionBasis(q.delta_x * n, n * q.n) for n, q in repeated(b)))


def unfurled_sampled_k(b):
    return TupleBasis(*(FundamentalTransformedPositionBasis(q.delta_x * n, n * q.n) for n, q in repeated(b)))


def unfurled_truncated(b):
    return TupleBasis(*(TransformedPositionBasis(q.delta_x * n, n * q.n, n * q.fundamental_n) for n, q in repeated(b)))


WAYS = {"": lambda b: b, "positions": positions, "momenta": momenta, "sampled": sampled, "sampled_k": sampled_k, "plain": plain, "fundamental": fundamental, "unfurled": unfurled, "unfurled_k": unfurled_k, "unfurled_sampled": unfurled_sampled, "unfurled_sampled_k": unfurled_sampled_k, "unfurled_truncated": unfurled_truncated}


def inside(o, path, depth=0):
    """(path, basis) for every basis in a value."""
    if depth > 7:
        return
    if is_basis(o):
        yield path, o
        for i, q in enumerate(parts(o) or []):
            yield from inside(q, f"{path}[{i}]", depth + 1)
    elif type(o) is dict:
        if "basis" in o:
            yield from inside(o["basis"], f"{path}.basis", depth + 1)
        else:
            for k, v in o.items():
                yield from inside(v, f"{path}.{k}", depth + 1)
    elif isinstance(o, (list, tuple)) and not P.is_library(o) and len(o) <= 6:
        for i, q in enumerate(o):
            yield from inside(q, f"{path}[{i}]", depth + 1)


def results(o, path="", depth=0):
    """(path, basis) for the bases of a result."""
    if depth > 3:
        return
    if is_basis(o):
        yield path, o
    elif type(o) is dict:
        if "basis" in o:
            yield from results(o["basis"], f"{path}.basis", depth + 1)
        else:
            for k, v in o.items():
                yield from results(v, f"{path}.{k}", depth + 1)
    elif isinstance(o, (list, tuple)) and not P.is_library(o) and 0 < len(o) <= 6:
        for i, q in enumerate(o):
            yield from results(q, f"{path}[{i}]", depth + 1)


class Mine(P.Monitor):
    """Which bases of the arguments could each basis of the results be?"""

    def __init__(self, found) -> None:
        super().__init__(keep=0)
        self.found = found

    def call(self, name, f, a, k):
        self.depth = 1
        try:
            r = f(*a, **k)
            try:
                self.look_at(name, f, a, k, r)
            except Exception as e:  # noqa: BLE001
                self.found.setdefault(name, {"calls": 0, "rules": {}, "errors": []})["errors"].append(repr(e))
            return r
        finally:
            self.depth = 0

    def look_at(self, name, f, a, k, r):
        got = list(results(r))
        if not got:
            return
        bound = inspect.signature(f).bind(*a, **k).arguments
        have = {}
        for p, v in bound.items():
            if p in ("args",):
                for i, q in enumerate(v):
                    have.update(dict(inside(q, f"{p}[{i}]")))
            else:
                have.update(dict(inside(v, p)))
        cands = []
        for p, b in have.items():
            for w, fn in WAYS.items():
                try:
                    cands.append((f"{w}({p})" if w else p, describe(fn(b))))
                except Exception:  # noqa: BLE001
                    continue
        rec = self.found.setdefault(name, {"calls": 0, "rules": {}, "errors": []})
        rec["calls"] += 1
        for path, b in got:
            todo = [(path, describe(b))]
            while todo:
                q, d = todo.pop()
                ok = {s for s, e in cands if same(d, e)}
                old = rec["rules"].get(q)
                rec["rules"][q] = [ok if old is None else old[0] & ok, 1 + (old[1] if old else 0), show(d)]
                if isinstance(d, list):
                    todo += [(f"{q}/{i}", e) for i, e in enumerate(d)]


def arguments(f, a, k):
    """The arguments by name, and the bases found in each (path -> basis)."""
    have = {}
    for p, v in inspect.signature(f).bind(*a, **k).arguments.items():
        if p == "args":
            for i, q in enumerate(v):
                have.update(dict(inside(q, f"{p}[{i}]")))
        else:
            have.update(dict(inside(v, p)))
    return have


class Lineage(P.Monitor):
    """Holds every basis handed back against the rules {function: {path in the result: [way(path in the arguments), ...]}}."""

    def __init__(self, rules) -> None:
        super().__init__(keep=0)
        self.rules = rules
        self.judged = 0
        self.rich = 0
        self.names: set = set()

    def call(self, name, f, a, k):
        self.calls += 1
        rules = self.rules.get(name)
        self.depth = 1
        try:
            if rules is None:
                return f(*a, **k)
            try:
                have = arguments(f, a, k)
            except TypeError:  # not called as it asks to be
                return f(*a, **k)
            before = {p: describe(b) for p, b in have.items()}
            r = f(*a, **k)
            try:
                got = {p: describe(b) for p, b in results(r)}
            except P.Impure:
                raise
            except Exception as e:  # noqa: BLE001
                self.report(f"{name} hands back an unusable basis: {e!r}")
            for where, sources in rules.items():
                self.judge(name, where, sources, got, have, before)
            return r
        finally:
            self.depth = 0

    def judge(self, name, where, sources, got, have, before) -> None:
        path, *steps = where.split("/")
        if path not in got:
            return
        is_ = got[path]
        for s in steps:
            if not isinstance(is_, list):
                self.report(f"{name}: result{path} is {show(is_)}, which has no part {s}")
            if int(s) >= len(is_):
                return
            is_ = is_[int(s)]
        expected, first = 0, None
        for s in sources:
            way, _, p = s.rpartition("(")
            p = p.removesuffix(")")
            if p not in have:
                continue
            try:
                want = before[p] if not way else describe(WAYS[way](have[p]))
            except Exception:  # noqa: BLE001
                continue
            expected += 1
            if same(is_, want):
                self.judged += 1
                self.names.add(name)
                self.rich += isinstance(is_, list) or is_[2] is not None
                return
            first = first or (s, want)
        if expected:
            self.report(f"{name}: the basis result{where} is {show(is_)}; it should be {first[0]}, which is {show(first[1])}" + (" (same sizes and lattice, other states)" if show(is_) == show(first[1]) else ""))

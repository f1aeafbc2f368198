"""Recording stand-in for the Rust extension `sse_solver_py`, which is not in this sandbox.

Only what the library imports exists; the functions call whatever the check put in `hooks` and raise otherwise.
"""
from __future__ import annotations

import contextlib
import importlib.util
import sys
import types

hooks: dict = {}


class Config:
    def __init__(self, **kw) -> None:
        self.__dict__.update(kw)


def _call(name):
    def run(*args):
        if name not in hooks:
            raise NotImplementedError(name)
        return hooks[name](*args)

    run.__name__ = name
    return run


solve_sse, solve_sse_banded = _call("solve_sse"), _call("solve_sse_banded")


@contextlib.contextmanager
def hooked(**kw):
    hooks.update(kw)
    try:
        yield
    finally:
        for k in kw:
            hooks.pop(k, None)


def install() -> None:
    """Must run before the library is imported; replaces nothing that is really there."""
    if "sse_solver_py" in sys.modules or importlib.util.find_spec("sse_solver_py") is not None:
        return
    m = types.ModuleType("sse_solver_py")
    m.SimulationConfig = Config
    m.SSEMethod = str
    m.solve_sse = solve_sse
    m.solve_sse_banded = solve_sse_banded
    sys.modules["sse_solver_py"] = m

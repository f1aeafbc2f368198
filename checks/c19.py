"""C19: cached functions are transparent over any call history."""
from __future__ import annotations

import os
import pathlib
import resource
import shutil
import signal
import tempfile
import threading
from collections import OrderedDict
from contextlib import contextmanager

import numpy as np
from hypothesis import strategies as st

from harness.core import case, ensure, fail
from surface_potential_analysis.util.decorators import cached, npy_cached, timed


class Boom(RuntimeError):
    pass


class Unpicklable:
    def __reduce__(self):
        raise Boom("cannot be stored")


class Interrupting:
    def __reduce__(self):
        raise KeyboardInterrupt


@contextmanager
def scratch():
    base = os.environ.get("VERIF_SCRATCH") or None
    d = tempfile.mkdtemp(prefix="c19_", dir=base)
    try:
        yield pathlib.Path(d)
    finally:
        shutil.rmtree(d)


def limited_child(fn, limit: int) -> bool:
    """Run fn in a forked child that is killed when a file it writes grows past limit bytes; True if fn finished."""
    pid = os.fork()
    if pid == 0:
        code = 7
        try:
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            fn()
            code = 0
        except BaseException:  # noqa: BLE001
            code = 9
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    if os.WIFEXITED(status):
        if os.WEXITSTATUS(status) == 9:
            fail("a call raised although only the file size was limited by a signal")
        return True
    return False


KINDS = ["dict", "nested", "empty", "big", "ordered"]
NPY_KINDS = ["float", "complex", "int", "scalar", "zero_d", "empty", "bool", "big", "list", "str"]


def make_value(kind: str, x: int, y, n: int):
    rng = np.random.default_rng([x, n])
    match kind:
        case "dict":
            return {"x": x, "y": y, "n": n, "data": rng.normal(size=3)}
        case "nested":
            return {"basis": (x, [n, {"y": y}]), "data": rng.normal(size=(2, 2)) + 1j * n, "none": None}
        case "empty":
            return {}
        case "big":
            return {"n": n, "data": rng.normal(size=3000)} if y != "npy" else rng.normal(size=3000) + n
        case "ordered":
            return OrderedDict([("b", n), ("a", np.arange(x + 1, dtype=np.int32))])
        case "float":
            return rng.normal(size=(2, 3)) + n
        case "complex":
            return rng.normal(size=4) + 1j * n
        case "int":
            return np.arange(5) + n
        case "scalar":
            return float(n) + 0.5
        case "zero_d":
            return np.array(n)
        case "bool":
            return np.array([True, bool(n % 2)])
        case "list":
            return [n, x, 2]
        case "str":
            return np.array(["a", f"{n}"])
    return None


def same(a, b) -> bool:
    if isinstance(b, dict):
        return type(a) is type(b) and list(a) == list(b) and all(same(a[k], b[k]) for k in b)
    if isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(p, q) for p, q in zip(a, b))
    if isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and a.dtype == b.dtype and np.array_equal(a, b)
    return type(a) is type(b) and a == b


def clone(a):
    if isinstance(a, dict):
        return type(a)((k, clone(v)) for k, v in a.items())
    if isinstance(a, (list, tuple)):
        return type(a)(clone(v) for v in a)
    return a.copy() if isinstance(a, np.ndarray) else a


def scribble(a) -> None:
    """Edit a returned result in place: stored entries must not follow."""
    if isinstance(a, np.ndarray) and a.size and a.ndim and a.flags.writeable and a.dtype.kind in "fic":
        a += 1
    elif isinstance(a, dict):
        for v in a.values():
            scribble(v)
        a["scribble"] = 1
    elif isinstance(a, list):
        a.append(0)


METHODS = ["load_or_call_cached", "load_or_call_uncached", "call_uncached", "call_cached"]
N_PATHS = 3


@st.composite
def histories(draw):
    mode = draw(st.sampled_from(["fixed", "args", "args", "none"]))
    return {
        "mode": mode,
        "where": draw(st.lists(st.sampled_from([None, 0, 1, 2]), min_size=4, max_size=4)),
        "default": draw(st.sampled_from(METHODS)),
        "kind": draw(st.sampled_from(KINDS)),
        "ops": draw(
            st.lists(
                st.fixed_dictionaries(
                    {
                        "op": st.sampled_from(
                            ["call"] * 4 + METHODS * 3 + ["scribble", "rewrap", "forget", "set_default", "raise", "unpicklable", "interrupt", "crash", "crash"]
                        ),
                        "x": st.integers(0, 3),
                        "y": st.sampled_from([None, 0, "q"]),
                        "z": st.sampled_from([0, 0, 1, 2]),
                        "style": st.integers(0, 2),
                        "k": st.integers(0, 30000),
                        "m": st.sampled_from(METHODS),
                    }
                ),
                min_size=1,
                max_size=14,
            )
        ),
    }


@case("C19", histories(), quick=900)
def pickled(c, ctx):
    """Histories of every call type over several cache paths, with failing, interrupted and killed calls, against a dictionary model. Non-trivial: an entry is read back after another entry or a failure intervened."""
    with scratch() as root:
        paths = [root / "a.pkl", root / "a", root / "b.tmp"]
        target = [0] * 4 if c["mode"] == "fixed" else [None] * 4 if c["mode"] == "none" else c["where"]
        state = {"n": 0, "fault": None, "last": None}

        def inner(x, y=None, *, z=0):
            """Inner function."""
            state["n"] += 1
            if state["fault"] == "raise":
                raise Boom
            out = make_value(c["kind"], x, y, state["n"])
            if state["fault"] == "unpicklable":
                out = {**out, "pad": np.zeros(20000), "bad": Unpicklable()}
            if state["fault"] == "interrupt":
                out = {**out, "pad": np.zeros(20000), "bad": Interrupting()}
            state["last"] = clone(out)
            return out

        # the path depends on every argument, however it is passed
        def slot(x, y=None, z=0):
            return target[(x + {None: 0, 0: 1, "q": 2}[y] + z) % 4]

        def path(x, y=None, *, z=0):
            return None if slot(x, y, z) is None else paths[slot(x, y, z)]

        where = paths[0] if c["mode"] == "fixed" else None if c["mode"] == "none" else path

        def wrap():
            return cached(where, default_call=c["default"])(inner)

        f = wrap()
        default = c["default"]
        ensure(f.default_call == default, "default call type")
        ensure(f.__name__ == "inner" and f.__doc__ == "Inner function.", "name of the wrapped function")
        model: dict[int, object] = {}
        reads, faults, result = 0, 0, None
        for o in c["ops"]:
            x, y, z, op = o["x"], o["y"], o["z"], o["op"]
            p = slot(x, y, z)
            args, kw = ((x,), {"y": y}) if o["style"] == 0 else ((x, y), {}) if o["style"] == 1 else ((), {"x": x, "y": y})
            if y is None and o["style"] == 0:
                kw = {}
            if z or o["style"] == 2:
                kw["z"] = z
            if op == "scribble":
                if result is not None:
                    scribble(result)
                continue
            if op == "rewrap":
                f = wrap()
                default = c["default"]
                continue
            if op == "set_default":
                f.default_call = default = o["m"]
                continue
            if op == "forget":
                if p is not None:
                    paths[p].unlink(missing_ok=True)
                    model.pop(p, None)
                continue
            method = op if op in METHODS else default if op == "call" else o["m"]
            fn = f if op == "call" else getattr(f, method)
            hit = method.startswith("load") and p in model
            stores = method.endswith("_cached") and p is not None and not hit
            n0 = state["n"]
            if op == "crash":
                done = limited_child(lambda: fn(*args, **kw), o["k"] % (30 if o["k"] % 3 == 0 else 30001))
                ctx.label("crashed" if not done else "survived")
                if not hit:
                    state["n"] = n0 + 1
                faults += not done
                if done and stores:
                    model[p] = make_value(c["kind"], x, y, n0 + 1)
                elif not done and not stores:
                    fail(f"{method} wrote to a file although it does not store")
                continue
            if op in ("raise", "unpicklable", "interrupt"):
                state["fault"] = op
                kind = {"raise": Boom, "unpicklable": Boom, "interrupt": KeyboardInterrupt}[op]
                try:
                    out = fn(*args, **kw)
                    raised = False
                except (Boom, KeyboardInterrupt) as e:
                    ensure(type(e) is kind, f"{op} became {e!r}")
                    raised = True
                finally:
                    state["fault"] = None
                expected = not hit and (op == "raise" or stores)
                ensure(raised == expected, f"{method} with fault {op}: raised={raised}, expected {expected}")
                ensure(state["n"] - n0 == (0 if hit else 1), "number of calls of a failing function")
                faults += raised
                if hit:
                    ensure(same(out, model[p]), "stored result during a fault")
                continue
            out = fn(*args, **kw)
            if hit:
                reads += 1
                ensure(state["n"] == n0, f"{method} called the function although an entry is stored")
                ensure(same(out, model[p]), f"{method}: got {out!r}, stored {model[p]!r}")
            else:
                ensure(state["n"] == n0 + 1, f"{method} called the function {state['n'] - n0} times")
                ensure(same(out, make_value(c["kind"], x, y, n0 + 1)), f"{method}: result {out!r} is not what the function returned")
                if stores:
                    model[p] = state["last"]
            ensure(c["kind"] == "empty" or out is not result, "two calls share one result object")
            result = out
        got = {q for q in range(N_PATHS) if paths[q].exists()}
        ensure(got == set(model), f"entries on disk {got}, expected {set(model)}")
        # everything stored is still what was stored first, seen from a new process
        for x in range(4):
            if target[x] in model:
                before = state["n"]
                ensure(same(wrap().load_or_call_cached(x), model[target[x]]), "stored entry at the end")
                ensure(state["n"] == before, "no call at the end")
                reads += 1
        ctx.nt(reads > 0 and (faults > 0 or len(model) > 1))
        if faults:
            ctx.label("fault")


@st.composite
def npy_histories(draw):
    return {
        "mode": draw(st.sampled_from(["fixed", "args", "args", "none"])),
        "suffix": draw(st.booleans()),
        "where": draw(st.lists(st.sampled_from([None, 0, 1, 2]), min_size=4, max_size=4)),
        "kind": draw(st.sampled_from([*NPY_KINDS, "dict"])),
        "ops": draw(
            st.lists(
                st.fixed_dictionaries(
                    {
                        "op": st.sampled_from(["call"] * 5 + ["scribble", "rewrap", "forget", "raise", "unpicklable", "interrupt", "crash"]),
                        "x": st.integers(0, 3),
                        "z": st.integers(0, 2),
                        "style": st.integers(0, 2),
                        "k": st.integers(0, 30000),
                    }
                ),
                min_size=1,
                max_size=12,
            )
        ),
    }


@case("C19", npy_histories(), quick=700)
def arrays(c, ctx):
    """The array cache over the same histories: the stored array is what was first computed. Non-trivial: a stored entry is read after a failure or another entry."""
    pick = c["kind"] == "dict"
    with scratch() as root:
        names = ["a.npy", "b.npy", "a.b.npy"] if c["suffix"] else ["a", "b", "a.b"]
        paths = [root / q for q in names]
        target = [0] * 4 if c["mode"] == "fixed" else [None] * 4 if c["mode"] == "none" else c["where"]
        state = {"n": 0, "fault": None}

        def inner(x, z=0, *, y="npy"):
            state["n"] += 1
            if state["fault"] == "raise":
                raise Boom
            if state["fault"] in ("unpicklable", "interrupt"):
                out = np.empty(3000, dtype=object)
                out[:] = 1.5
                out[-1] = Unpicklable() if state["fault"] == "unpicklable" else Interrupting()
                return out
            return make_value(c["kind"], x, y, state["n"]) if c["kind"] != "empty" else np.zeros((0, 2))

        def slot(x, z=0):
            return target[(x + z) % 4]

        def path(x, z=0, *, y="npy"):
            return None if slot(x, z) is None else paths[slot(x, z)]

        where = paths[0] if c["mode"] == "fixed" else None if c["mode"] == "none" else path

        def wrap():
            return npy_cached(where, load_pickle=True)(inner) if pick else npy_cached(where)(inner)

        def expect(x, n):
            return make_value(c["kind"], x, "npy", n) if c["kind"] != "empty" else np.zeros((0, 2))

        def agree(a, b):
            if pick:
                return same(a, b)
            a, b = np.asarray(a), np.asarray(b)
            return a.dtype == b.dtype and np.array_equal(a, b)

        f = wrap()
        ensure(f.__name__ == "inner", "name of the wrapped function")
        model: dict = {}
        reads, faults, result = 0, 0, None
        for o in c["ops"]:
            x, z, op = o["x"], o["z"], o["op"]
            p = slot(x, z)
            args, kw = ((x,), {"z": z}) if o["style"] == 0 else ((x, z), {}) if o["style"] == 1 else ((), {"x": x, "z": z})
            if not z and o["style"] == 0:
                kw = {}
            if op == "scribble":
                if result is not None:
                    scribble(result)
                continue
            if op == "rewrap":
                f = wrap()
                continue
            if op == "forget":
                if p is not None:
                    paths[p].unlink(missing_ok=True)
                    model.pop(p, None)
                continue
            hit, n0 = p in model, state["n"]
            if op == "crash":
                done = limited_child(lambda: f(*args, **kw), o["k"] % (200 if o["k"] % 3 else 30001))
                faults += not done
                if not hit:
                    state["n"] = n0 + 1
                ctx.label("crashed" if not done else "survived")
                if done and p is not None and not hit:
                    model[p] = expect(x, n0 + 1)
                continue
            if op in ("raise", "unpicklable", "interrupt"):
                state["fault"] = op
                try:
                    f(*args, **kw)
                    raised = False
                except (Boom, KeyboardInterrupt):
                    raised = True
                finally:
                    state["fault"] = None
                ensure(raised == (not hit and (op == "raise" or p is not None)), f"{op}: raised={raised}")
                ensure(state["n"] - n0 == (0 if hit else 1), "number of calls of a failing function")
                faults += raised
                continue
            out = f(*args, **kw)
            if hit:
                reads += 1
                ensure(state["n"] == n0, "called the function although an entry is stored")
                ensure(agree(out, model[p]), f"got {out!r}, stored {model[p]!r}")
            else:
                ensure(state["n"] == n0 + 1, f"called the function {state['n'] - n0} times")
                ensure(same(out, expect(x, n0 + 1)), f"result {out!r} is not what the function returned")
                if p is not None:
                    model[p] = clone(out)
            result = out
        for x in range(4):
            if target[x] in model:
                before = state["n"]
                ensure(agree(wrap()(x), model[target[x]]), "stored entry at the end")
                ensure(state["n"] == before, "no call at the end")
                reads += 1
        ctx.nt(reads > 0 and (faults > 0 or len(model) > 1))


@case("C19", st.fixed_dictionaries({"npy": st.booleans(), "threads": st.integers(2, 6), "rounds": st.integers(1, 3), "size": st.integers(1, 20000)}), quick=60)
def concurrent(c, ctx):
    """Callers racing on one entry each get a complete result of some call, and the entry left behind is one of those. Non-trivial: always."""
    ctx.nt()
    with scratch() as root:
        p = root / ("a.npy" if c["npy"] else "a.pkl")
        lock, count = threading.Lock(), [0]

        def inner():
            with lock:
                count[0] += 1
                n = count[0]
            v = np.full(c["size"], float(n))
            return v if c["npy"] else {"data": v}

        f = npy_cached(p)(inner) if c["npy"] else cached(p, default_call="call_cached")(inner)
        out, errs = [], []

        def work():
            try:
                for _ in range(c["rounds"]):
                    r = f()
                    s = r if c["npy"] else f.load_or_call_cached()["data"]
                    out.append(s)
            except BaseException as e:  # noqa: BLE001
                errs.append(e)

        ts = [threading.Thread(target=work) for _ in range(c["threads"])]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        ensure(not errs, f"racing calls raised {errs!r}")
        for s in out:
            ensure(s.shape == (c["size"],) and s[0] == s[-1] and 1 <= s[0] <= count[0], "a racing call returned a torn result")
        last = f() if c["npy"] else f.load_or_call_cached()["data"]
        ensure(last.shape == (c["size"],) and np.all(last == last[0]) and 1 <= last[0] <= count[0], "torn entry")


@case("C19", st.fixed_dictionaries({"args": st.lists(st.integers(-5, 5), max_size=4), "kw": st.dictionaries(st.sampled_from("abc"), st.integers(), max_size=3), "bad": st.booleans()}), quick=60)
def timing(c, ctx):
    """The timing wrapper returns or raises exactly what the function does, once per call. Non-trivial: arguments given."""
    ctx.nt(len(c["args"]) > 0)
    calls = []

    def inner(*a, **k):
        """Doc."""
        calls.append((a, k))
        if c["bad"]:
            raise Boom
        return (a, k)

    f = timed(inner)
    ensure(f.__name__ == "inner" and f.__doc__ == "Doc.", "name of the wrapped function")
    try:
        out = f(*c["args"], **c["kw"])
        ensure(not c["bad"], "exception swallowed")
        ensure(out == (tuple(c["args"]), c["kw"]), "result of a timed function")
    except Boom:
        ensure(c["bad"], "exception invented")
    ensure(calls == [(tuple(c["args"]), c["kw"])], "arguments of a timed function")

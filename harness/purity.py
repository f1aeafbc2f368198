"""Monitor of library calls: nothing reachable from an argument, or from an earlier result, may change during a call, and
repeating a call, or making it on fresh copies in a fresh process in another order, gives the same result.

`install` replaces every public function and every method of every class of the library by a wrapper (transparent unless a
monitor is active). Only the outermost calls, those made by the check itself, are monitored."""
from __future__ import annotations

import functools
import importlib
import inspect
import os
import pickle
import pkgutil
import signal
import sys
import time
import types
import weakref

import numpy as np

PKG = "surface_potential_analysis"
ACTIVE: list = [None]
INITIAL: "weakref.WeakKeyDictionary" = weakref.WeakKeyDictionary()
_INIT_BY_ID: dict[int, tuple] = {}
OWN_RNG: list = [None]
TABLE: dict[str, object] = {}
CLASSES: dict[str, type] = {}


class Impure(Exception):
    pass


# ---------------------------------------------------------------- looking through values
def is_library(o) -> bool:
    return (getattr(type(o), "__module__", "") or "").startswith(PKG)


def is_canvas(o) -> bool:
    return (getattr(type(o), "__module__", "") or "").startswith("matplotlib")


def fields(o) -> dict:
    return getattr(o, "__dict__", None) or {}


def walk(o, seen, out, depth=0) -> None:
    """Record everything that a call could modify in place."""
    if depth > 14 or id(o) in seen or o is None or isinstance(o, (int, float, complex, str, bytes, bool, np.generic)):
        return
    seen.add(id(o))
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            out.append((o, "objects", [id(q) for q in o.ravel()]))
            for q in o.ravel():
                walk(q, seen, out, depth + 1)
        else:
            out.append((o, "array", (o.dtype, o.shape, o.tobytes())))
    elif isinstance(o, dict):
        out.append((o, "dict", {k: (id(v), v) for k, v in o.items()}))
        for v in o.values():
            walk(v, seen, out, depth + 1)
    elif isinstance(o, (list, tuple)) and not is_library(o):
        if isinstance(o, list):
            out.append((o, "list", list(o)))
        for v in o:
            walk(v, seen, out, depth + 1)
    elif isinstance(o, set):
        out.append((o, "set", set(o)))
    elif is_library(o) and not isinstance(o, type):
        d = fields(o)
        out.append((o, "object", dict(d)))
        for v in d.values():
            walk(v, seen, out, depth + 1)
        if isinstance(o, tuple):
            for v in o:
                walk(v, seen, out, depth + 1)


def snapshot(roots) -> list:
    out: list = []
    seen: set = set()
    for r in roots:
        walk(r, seen, out)
    return out


def same_value(a, b) -> bool:
    if a is b:
        return True
    try:
        fa, fb = freeze(a), freeze(b)
        return alike(fa, fb, 0.0)
    except Exception:  # noqa: BLE001
        return False


def changed(before) -> str | None:
    for o, kind, was in before:
        if kind == "array":
            if o.dtype != was[0] or o.shape != was[1]:
                return f"array became {o.dtype} {o.shape}, was {was[0]} {was[1]}"
            if o.tobytes() != was[2]:
                old = np.frombuffer(was[2], dtype=was[0]).reshape(was[1])
                at = np.argwhere(~((o == old) | ((o != o) & (old != old))))
                if len(at):
                    i = tuple(at[0])
                    return f"array element {tuple(int(q) for q in i)} became {o[i]!r}, was {old[i]!r}"
        elif kind == "objects":
            if [id(q) for q in o.ravel()] != was:
                return "elements of an object array changed"
        elif kind == "dict":
            if set(o) != set(was):
                return f"keys became {sorted(map(str, o))}, were {sorted(map(str, was))}"
            for k, (i, v) in was.items():
                if id(o[k]) != i and not same_value(o[k], v):
                    return f"entry {k!r} was replaced"
        elif kind == "list":
            if len(o) != len(was) or any(p is not q and not same_value(p, q) for p, q in zip(o, was)):
                return "a list was changed"
        elif kind == "set":
            if o != was:
                return "a set was changed"
        elif kind == "object":
            now = fields(o)
            for k, v in was.items():
                if v is None:  # a cache may be filled
                    continue
                if k not in now or (now[k] is not v and not same_value(now[k], v)):
                    return f"attribute {k!r} of a {type(o).__name__} was changed"
    return None


# ---------------------------------------------------------------- comparable copies
def freeze(o, depth=0):
    if depth > 12:
        return ("deep",)
    if o is None or isinstance(o, (bool, str, bytes)):
        return ("v", o)
    if isinstance(o, (int, float, complex, np.generic)):
        return ("n", np.array(o))
    if isinstance(o, np.ndarray):
        return ("a", o.copy()) if o.dtype != object else ("l", [freeze(q, depth + 1) for q in o.ravel()])
    if isinstance(o, dict):
        return ("d", {str(k): freeze(v, depth + 1) for k, v in o.items()})
    if is_library(o) and not isinstance(o, type):
        out = {"class": ("v", type(o).__name__)}
        for k in ("n", "fundamental_n", "shape"):
            try:
                out[k] = freeze(getattr(o, k), depth + 1)
            except Exception:  # noqa: BLE001
                continue
        return ("d", out)
    if isinstance(o, (list, tuple)):
        return ("l", [freeze(v, depth + 1) for v in o])
    return ("t", type(o).__name__)


def alike(p, q, rtol=1e-7) -> bool:
    if p[0] != q[0]:
        return False
    if p[0] in ("v", "t"):
        return p[1] == q[1]
    if p[0] == "deep":
        return True
    if p[0] == "l":
        return len(p[1]) == len(q[1]) and all(alike(a, b, rtol) for a, b in zip(p[1], q[1]))
    if p[0] == "d":
        return set(p[1]) == set(q[1]) and all(alike(v, q[1][k], rtol) for k, v in p[1].items())
    a, b = p[1], q[1]
    if a.shape != b.shape or a.dtype.kind != b.dtype.kind:
        return False
    if a.dtype.kind not in "iufc":
        return bool(np.all(a == b))
    with np.errstate(all="ignore"):
        fin = np.isfinite(a)
        if not np.array_equal(fin, np.isfinite(b)):
            return False
        if not fin.any():
            return True
        top = float(np.max(np.abs(a[fin])))
        return bool(np.all(np.abs(a[fin] - b[fin]) <= rtol * top))


def has_canvas(o, depth=0) -> bool:
    if depth > 4:
        return False
    if is_canvas(o):
        return True
    if isinstance(o, dict):
        return any(has_canvas(v, depth + 1) for v in o.values())
    if isinstance(o, (list, tuple)):
        return any(has_canvas(v, depth + 1) for v in o)
    return False


def once_only(o, depth=0) -> bool:
    """Iterators are used up by a call."""
    if depth > 3:
        return False
    if isinstance(o, types.GeneratorType) or (hasattr(o, "__next__") and not isinstance(o, np.ndarray)):
        return True
    if isinstance(o, dict):
        return any(once_only(v, depth + 1) for v in o.values())
    if isinstance(o, (list, tuple)):
        return any(once_only(v, depth + 1) for v in o)
    return False


def has_function(o, depth=0) -> bool:
    if depth > 4:
        return False
    if isinstance(o, (types.FunctionType, types.MethodType, types.BuiltinFunctionType, functools.partial)):
        return True
    if isinstance(o, dict):
        return any(has_function(v, depth + 1) for v in o.values())
    if isinstance(o, (list, tuple)):
        return any(has_function(v, depth + 1) for v in o)
    return False


def fresh(o, memo=None):
    """Copies of library objects as they were made, without anything they have remembered since."""
    memo = {} if memo is None else memo
    if id(o) in memo:
        return memo[id(o)][1]
    if isinstance(o, np.ndarray):
        r = o.copy() if o.dtype != object else o
    elif isinstance(o, dict):
        r = {k: fresh(v, memo) for k, v in o.items()}
    elif is_library(o) and not isinstance(o, type) and hasattr(o, "__dict__") and not isinstance(o, tuple):
        first = _INIT_BY_ID.get(id(o))
        d = first[1] if first is not None and first[0]() is o else fields(o)
        r = object.__new__(type(o))
        memo[id(o)] = (o, r)
        for k, v in d.items():
            r.__dict__[k] = fresh(v, memo)
    elif isinstance(o, list):
        r = [fresh(v, memo) for v in o]
    elif type(o) is tuple:
        r = tuple(fresh(v, memo) for v in o)
    else:
        r = o
    memo[id(o)] = (o, r)
    return r


def library_objects(o, out, depth=0) -> None:
    if depth > 8 or len(out) > 40:
        return
    if isinstance(o, dict):
        for v in o.values():
            library_objects(v, out, depth + 1)
    elif is_library(o) and not isinstance(o, type):
        if id(o) not in out:
            out[id(o)] = o
            for v in list(fields(o).values()):
                library_objects(v, out, depth + 1)
    elif isinstance(o, (list, tuple)):
        for v in o:
            library_objects(v, out, depth + 1)


def readable(cls) -> list:
    """Names of the properties of a class of the library."""
    names = []
    for c in cls.__mro__:
        if (c.__module__ or "").startswith(PKG):
            names += [n for n, v in vars(c).items() if not n.startswith("_") and isinstance(v, (property, functools.cached_property))]
    return sorted(set(names))


# ---------------------------------------------------------------- the monitor
class Monitor:
    def __init__(self, keep=20, repeat_limit_s=0.08) -> None:
        self.depth = 0
        self.problem: str | None = None
        self.kept: list = []
        self.calls = 0
        self.repeats = 0
        self.recorded: list = []
        self.keep = keep
        self.limit = repeat_limit_s
        self.random = False
        self.skipped = 0
        self.objects: dict = {}

    def last_look(self, limit_s=0.5) -> None:
        """Every property of an object that took part in a call still has the value it has for an object just made."""
        self.depth = 1
        until = time.perf_counter() + limit_s
        try:
            for o in self.objects.values():
                first = _INIT_BY_ID.get(id(o))
                if first is None or first[0]() is not o or getattr(o, "n", 0) > 300:
                    continue
                new = fresh(o)
                for name in readable(type(o)):
                    if time.perf_counter() > until:
                        return
                    try:
                        want = freeze(getattr(new, name))
                    except Exception:  # noqa: BLE001
                        continue
                    try:
                        got = freeze(getattr(o, name))
                    except Exception as e:  # noqa: BLE001
                        self.report(f"{type(o).__name__}.{name} raises after the calls: {e!r}")
                    if not alike(got, want, 1e-9):
                        self.report(f"{type(o).__name__}.{name} is not what it is for an object just made")
        except Impure:
            pass
        finally:
            self.depth = 0

    def report(self, what) -> None:
        if self.problem is None:
            self.problem = what
        raise Impure(what)

    def look(self, before, name, why) -> None:
        what = changed(before)
        if what is not None:
            self.report(f"{name} {why}: {what}")

    def call(self, name, f, a, k):
        self.calls += 1
        self.depth = 1
        try:
            if len(self.objects) < 40:
                library_objects((a, k), self.objects)
            before = snapshot([a, k, *self.kept])
            pure = not (once_only(a) or once_only(k) or has_canvas(a) or has_canvas(k))
            packed = None
            if pure and not has_function(a) and not has_function(k) and len(self.recorded) < 200:
                try:
                    packed = pickle.dumps(fresh((a, k)), protocol=4)
                except Exception:  # noqa: BLE001
                    self.skipped += 1
            # a check which supplies its own generators, or an external program, decides what a repeat gives
            self.random = np.random.default_rng is not OWN_RNG[0] or "wannier90" in name
            state = np.random.get_state()[1:3]  # noqa: NPY002
            t0 = time.perf_counter()
            try:
                r = f(*a, **k)
            except Exception:
                self.look(before, name, "changed an argument or an earlier result, then raised")
                raise
            took = time.perf_counter() - t0
            self.look(before, name, "changed an argument or an earlier result")
            after = np.random.get_state()[1:3]  # noqa: NPY002
            self.random = self.random or state[1] != after[1] or not np.array_equal(state[0], after[0])
            if once_only(r) or has_canvas(r) or self.random:
                pure = False
            if pure:
                now = freeze(r)
                if packed is not None:
                    self.recorded.append((name, packed, now))
                if took < self.limit:
                    self.again(name, f, a, k, r, now, before)
            if not once_only(r):
                self.kept.append(r)
                del self.kept[: -self.keep]
            return r
        finally:
            self.depth = 0

    def again(self, name, f, a, k, r, now, before) -> None:
        self.repeats += 1
        agree = False
        for _ in range(5):
            try:
                r2 = f(*a, **k)
            except OSError:  # files of the check
                return
            except Exception as e:  # noqa: BLE001
                self.report(f"{name} raised when repeated with the same arguments: {e!r}")
            self.look(before, name, "changed an argument when repeated")
            if not alike(now, freeze(r), 0.0):
                self.report(f"{name} changed its earlier result when repeated")
            if alike(now, freeze(r2)):
                agree = True
                break
        if not agree:
            self.report(f"{name} gave a different result when repeated with the same arguments")


def outermost(name, f):
    def g(*a, **k):
        m = ACTIVE[0]
        if m is None or m.depth:
            return f(*a, **k)
        return m.call(name, f, a, k)

    try:
        functools.update_wrapper(g, f)
    except Exception:  # noqa: BLE001
        pass
    g.__purity__ = True
    return g


def wrap_init(cls):
    init = cls.__dict__["__init__"]

    @functools.wraps(init)
    def g(self, *a, **k):
        init(self, *a, **k)
        if type(self).__init__ is g and hasattr(self, "__dict__") and ACTIVE[0] is not None:
            try:
                _INIT_BY_ID[id(self)] = (weakref.ref(self), dict(self.__dict__))
            except TypeError:
                pass

    g.__purity__ = True
    cls.__init__ = g


def install() -> None:
    root = importlib.import_module(PKG)
    for info in pkgutil.walk_packages(root.__path__, PKG + "."):
        try:
            importlib.import_module(info.name)
        except Exception:  # noqa: BLE001
            continue
    made: dict[int, object] = {}
    modules = [m for n, m in list(sys.modules.items()) if n.startswith(PKG) and m is not None]
    users = [m for n, m in list(sys.modules.items()) if (n.startswith(("checks.", "harness.gen"))) and m is not None]
    cached = type(functools.lru_cache(lambda: None))
    for m in modules:
        for n, o in list(vars(m).items()):
            if isinstance(o, (types.FunctionType, cached)) and (getattr(o, "__module__", "") or "").startswith(PKG) and not n.startswith("_") and o.__module__ == m.__name__:
                key = f"{m.__name__}:{n}"
                TABLE[key] = o
                made[id(o)] = outermost(key.removeprefix(PKG + "."), o)
            if inspect.isclass(o) and o.__module__ == m.__name__ and not issubclass(o, BaseException):
                CLASSES[f"{m.__name__}:{n}"] = o
    for key, c in CLASSES.items():
        if getattr(c, "_is_protocol", False) and not any(isinstance(v, (property, types.FunctionType)) for v in vars(c).values()):
            continue
        for n, o in list(vars(c).items()):
            inner = n.startswith("_") and not n.startswith("__")
            if inner or n in ("__init__", "__new__", "__hash__", "__eq__", "__reduce__", "__getattr__", "__init_subclass__", "__subclasshook__", "__class_getitem__", "__repr__", "__len__", "__iter__"):
                continue
            full = f"{key}.{n}"
            try:
                if isinstance(o, types.FunctionType):
                    TABLE[full] = o
                    setattr(c, n, outermost(full.removeprefix(PKG + "."), o))
                elif isinstance(o, property) and o.fget is not None and isinstance(o.fget, types.FunctionType):
                    TABLE[full] = o.fget
                    setattr(c, n, property(outermost(full.removeprefix(PKG + "."), o.fget), o.fset, o.fdel))
            except (TypeError, AttributeError):
                continue
        if isinstance(vars(c).get("__init__"), types.FunctionType) and not getattr(c, "_is_protocol", False):
            try:
                wrap_init(c)
            except (TypeError, AttributeError):
                pass
    for m in modules + users:
        for n, o in list(vars(m).items()):
            if id(o) in made and not getattr(o, "__purity__", False):
                setattr(m, n, made[id(o)])
    plain = np.random.default_rng

    @functools.wraps(plain)
    def default_rng(*a, **k):
        if ACTIVE[0] is not None and not (a or k):
            ACTIVE[0].random = True
        return plain(*a, **k)

    np.random.default_rng = default_rng
    OWN_RNG[0] = default_rng


def in_child(fn, limit=100):
    """fn() in a forked child: its pickled result, or None when it died or took too long."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(limit)
            out = pickle.dumps(fn(), protocol=4)
            with os.fdopen(w, "wb") as f:
                f.write(out)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        got = f.read()
    _, status = os.waitpid(pid, 0)
    if status != 0 or not got:
        return None
    return pickle.loads(got)  # noqa: S301

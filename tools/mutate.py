"""Mutation sweep: which small changes to the library does no check notice?

usage: mutate.py cover OUT.json                      lines of the library reached by each case
       mutate.py sweep COVER.json OUT.jsonl [--cap N] [--files SUBSTR] [--sample K] [--seed S] [--only IDS.json]
                 [--guards all | OUT.jsonl of an earlier run] [--workers W] [--bases 1]
With --bases the mutants are the bases of the objects handed back: an axis of another length, in another representation, or
in another order, of the same size.
With --guards every mutant of --only takes effect only where a condition holds (three axes, a long axis, a negative integer,
a skew lattice, tiny numbers, a later call ...; one condition per mutant, drawn at random): does the generated domain
include such inputs at all?
Mutants are put into the running process by replacing code objects (the repository is never written)."""
from __future__ import annotations

import ast
import importlib
import json
import os
import random
import signal
import sys
import time
import types

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("VERIF_SCRATCH", "/tmp")

import harness  # noqa: E402
from harness.__main__ import evaluate  # noqa: E402

PROPS = [f"C{i:02d}" for i in range(1, 23)] + ["C24", "C25"]
PKGDIR = os.path.join(harness.REPO, "surface_potential_analysis")


def load():
    import contextlib
    import pkgutil

    from harness.core import REGISTRY

    for p in PROPS:
        importlib.import_module(f"checks.{p.lower()}")
    import surface_potential_analysis as root

    for info in pkgutil.walk_packages(root.__path__, root.__name__ + "."):
        with contextlib.suppress(Exception):
            importlib.import_module(info.name)
    return REGISTRY


def run_case(case, n, seed, deadline):
    """First failing input of n, or None."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    from harness.core import Ctx

    class Stop(BaseException):
        pass

    def body(c):
        if time.monotonic() > deadline:
            raise Stop
        evaluate(case, json.loads(json.dumps(c)), Ctx())

    t = settings(max_examples=n, database=None, deadline=None, phases=[Phase.generate], suppress_health_check=list(HealthCheck), print_blob=False, report_multiple_bugs=False, verbosity=hypothesis.Verbosity.quiet)(hypothesis.seed(seed)(given(case.strategy)(body)))
    try:
        t()
    except Stop:
        return None
    except Exception as e:  # noqa: BLE001
        return f"{type(e).__name__}: {e}"[:160]
    return None


def forked(jobs, fn, limit, workers=8):
    """(job, fn(job)) for every job, each in its own forked process."""
    import pickle
    import select

    live = {}
    jobs = iter(jobs)
    done = False
    while live or not done:
        while not done and len(live) < workers:
            try:
                job = next(jobs)
            except StopIteration:
                done = True
                break
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.setpgid(0, 0)
                    os.close(r)
                    signal.alarm(limit)
                    devnull = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(devnull, 1)
                    os.dup2(devnull, 2)
                    out = pickle.dumps(fn(job))
                    with os.fdopen(w, "wb") as f:
                        f.write(out)
                finally:
                    os._exit(0)
            os.close(w)
            live[r] = (job, pid, b"")
        ready, _, _ = select.select(list(live), [], [], 1.0)
        for r in ready:
            job, pid, buf = live[r]
            chunk = os.read(r, 1 << 16)
            if chunk:
                live[r] = (job, pid, buf + chunk)
                continue
            os.close(r)
            del live[r]
            os.waitpid(pid, 0)
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
            yield job, (pickle.loads(buf) if buf else None)  # noqa: S301


# ---------------------------------------------------------------- coverage
def cover(out):
    reg = load()
    mon = sys.monitoring
    jobs = [(p, n) for p in PROPS for n in reg[p] if not n.startswith("known_")]

    def fn(job):
        p, n = job
        hits = set()
        mon.use_tool_id(3, "cover")

        def line(code, ln):
            if code.co_filename.startswith(PKGDIR):
                hits.add((os.path.relpath(code.co_filename, PKGDIR), ln))
            return mon.DISABLE

        mon.register_callback(3, mon.events.LINE, line)
        mon.set_events(3, mon.events.LINE)
        case = reg[p][n]
        t0 = time.monotonic()
        err = run_case(case, min(case.quick, 60), 7, t0 + 100)
        return sorted(hits), time.monotonic() - t0, err

    res = {}
    for (p, n), r in forked(jobs, fn, 200, 4):
        if r is None:
            print("no result", p, n)
            continue
        res[f"{p}/{n}"] = {"lines": r[0], "wall": r[1]}
        print(p, n, len(r[0]), round(r[1], 1), r[2] or "", flush=True)
    with open(out, "w") as f:
        json.dump(res, f)


# ---------------------------------------------------------------- mutants
CALL_SWAPS = {
    "fft": "ifft", "ifft": "fft", "fftn": "ifftn", "ifftn": "fftn", "rfft": "fft", "fftshift": "ifftshift", "ifftshift": "fftshift",
    "min": "max", "max": "min", "argmin": "argmax", "argmax": "argmin", "floor": "ceil", "ceil": "floor", "real": "imag", "imag": "real",
    "cos": "sin", "sin": "cos", "sum": "prod", "prod": "sum", "cumsum": "cumprod", "zeros": "ones", "ones": "zeros", "zeros_like": "ones_like",
    "abs": "real", "sqrt": "square", "square": "sqrt", "average": "sum", "minimum": "maximum", "maximum": "minimum", "argsort": "argmin", "kron": "outer", "all": "any", "any": "all",
}  # fmt: skip
DROP_CALLS = {"conj", "conjugate", "abs", "unwrap", "sort", "flip", "transpose", "ravel", "fftshift", "ifftshift", "roll", "real", "copy", "astype", "sqrt", "square", "unique", "sorted", "tuple"}


def dotted(node):
    return node.attr if isinstance(node, ast.Attribute) else node.id if isinstance(node, ast.Name) else ""


class Gen(ast.NodeVisitor):
    def __init__(self, src) -> None:
        self.src, self.out, self.fn = src, [], []
        self.starts = [0]
        for ln in src.encode().splitlines(keepends=True):
            self.starts.append(self.starts[-1] + len(ln))

    def span(self, node):
        return self.starts[node.lineno - 1] + node.col_offset, self.starts[node.end_lineno - 1] + node.end_col_offset

    def text(self, node):
        a, b = self.span(node)
        return self.src.encode()[a:b].decode()

    def add(self, node, new, kind):
        if self.fn:
            a, b = self.span(node)
            self.out.append((a, b, new, kind, node.lineno, node.end_lineno, self.fn[0]))

    def func(self, node):
        self.fn.append(".".join([*getattr(self, "cls", []), node.name]))
        for d in node.args.defaults + [d for d in node.args.kw_defaults if d is not None]:
            del d
        body = node.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            body = body[1:]
        for s in body:
            self.visit(s)
        self.fn.pop()

    visit_FunctionDef = func

    def visit_ClassDef(self, node):
        self.cls = [*getattr(self, "cls", []), node.name]
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                self.visit(s)
        self.cls = self.cls[:-1]

    def visit_AnnAssign(self, node):
        if node.value is not None:
            self.visit(node.value)

    def visit_Raise(self, node):
        return

    def visit_Assert(self, node):
        return

    def visit_Expr(self, node):
        if isinstance(node.value, ast.Constant):
            return
        if isinstance(node.value, ast.Call) and dotted(node.value.func).startswith(("set_", "warn", "legend", "print")):
            return
        self.add(node, "None", "drop statement")
        self.generic_visit(node)

    def visit_AugAssign(self, node):
        self.add(node, "pass", "drop update")
        self.generic_visit(node)

    def visit_BinOp(self, node):
        pairs = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "*", ast.Pow: "*", ast.Mod: "//", ast.MatMult: None}
        for t, new in pairs.items():
            if isinstance(node.op, t) and new:
                self.add(node, f"(({self.text(node.left)}) {new} ({self.text(node.right)}))", f"operator to {new}")
        if isinstance(node.op, (ast.Sub, ast.Div, ast.MatMult)):
            self.add(node, f"(({self.text(node.right)}) {'-' if isinstance(node.op, ast.Sub) else '/' if isinstance(node.op, ast.Div) else '@'} ({self.text(node.left)}))", "operands swapped")
        if isinstance(node.op, (ast.Add, ast.Sub, ast.Mult)):
            self.add(node, f"({self.text(node.left)})", "right operand dropped")
        self.generic_visit(node)

    def visit_UnaryOp(self, node):
        if isinstance(node.op, (ast.USub, ast.Not)):
            self.add(node, f"({self.text(node.operand)})", "unary dropped")
        self.generic_visit(node)

    def visit_Compare(self, node):
        pairs = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
        if len(node.ops) == 1:
            self.add(node, f"(({self.text(node.left)}) {pairs[type(node.ops[0])]} ({self.text(node.comparators[0])}))", "comparison")
        self.generic_visit(node)

    def visit_BoolOp(self, node):
        op = " or " if isinstance(node.op, ast.And) else " and "
        self.add(node, "(" + op.join(f"({self.text(v)})" for v in node.values) + ")", "and/or")
        self.generic_visit(node)

    def visit_IfExp(self, node):
        self.add(node, f"({self.text(node.body)})", "first branch")
        self.add(node, f"({self.text(node.orelse)})", "second branch")
        self.generic_visit(node)

    def visit_If(self, node):
        self.add(node.test, "True", "condition true")
        self.add(node.test, "False", "condition false")
        self.generic_visit(node)

    def visit_Constant(self, node):
        v = node.value
        if isinstance(v, bool):
            self.add(node, str(not v), "flag")
        elif isinstance(v, int):
            self.add(node, f"({v + 1})", "constant + 1")
            if v > 0:
                self.add(node, f"({v - 1})", "constant - 1")
        elif isinstance(v, float):
            self.add(node, f"({v!r} * 1.5 + 0.1)", "constant changed")
        elif isinstance(v, complex):
            self.add(node, f"(-{v!r})", "conjugate unit")
        elif isinstance(v, str) and "->" in v:
            ins, o = v.split("->")
            if len(o) > 1:
                self.add(node, repr(ins + "->" + o[1] + o[0] + o[2:]), "output transposed")
                if len(o) > 2:
                    self.add(node, repr(ins + "->" + o[:-2] + o[-1] + o[-2]), "output transposed")
            terms = ins.split(",")
            for i, t in enumerate(terms):
                if len(t) > 1:
                    self.add(node, repr(",".join([*terms[:i], t[::-1], *terms[i + 1 :]]) + "->" + o), "input transposed")
        elif v in ("ortho", "forward", "backward"):
            self.add(node, repr("forward" if v != "forward" else "ortho"), "normalisation")

    def visit_Call(self, node):
        name = dotted(node.func)
        if name in CALL_SWAPS and isinstance(node.func, ast.Attribute):
            a, _ = self.span(node.func.value)
            self.add(node.func, f"{self.text(node.func.value)}.{CALL_SWAPS[name]}", f"{name} to {CALL_SWAPS[name]}")
        if name in DROP_CALLS:
            if node.args:
                self.add(node, f"({self.text(node.args[0])})", f"{name} dropped")
            elif isinstance(node.func, ast.Attribute):
                self.add(node, f"({self.text(node.func.value)})", f"{name} dropped")
        if len(node.args) >= 2 and not any(isinstance(q, ast.Starred) for q in node.args[:2]):
            p, q = node.args[:2]
            a, _ = self.span(p)
            _, b = self.span(q)
            if self.fn and self.text(p) != self.text(q):
                self.out.append((a, b, f"{self.text(q)}, {self.text(p)}", "arguments swapped", node.lineno, node.end_lineno, self.fn[0]))
        for k in node.keywords:
            if k.arg is not None and self.fn and len(node.keywords) + len(node.args) > 0:
                others = [self.text(x) for x in node.args] + [(f"{w.arg}=" if w.arg else "**") + self.text(w.value) for w in node.keywords if w is not k]
                self.add(node, f"{self.text(node.func)}({', '.join(others)})", f"keyword {k.arg} dropped")
        for x in node.args:
            self.visit(x)
        for k in node.keywords:
            if k.arg not in ("dtype", "label", "fmt"):
                self.visit(k.value)
        self.visit(node.func)

    def visit_Subscript(self, node):
        self.visit(node.value)
        if not isinstance(node.slice, ast.Constant) or not isinstance(node.slice.value, str):
            self.visit(node.slice)


class GenBases(Gen):
    def visit(self, node):
        if isinstance(node, ast.Dict):
            for k, v in zip(node.keys, node.values):
                if isinstance(k, ast.Constant) and k.value == "basis":
                    for kind in ("first length", "last length", "last kind", "reverse", "first points", "last fundamental"):
                        self.add(v, f"_PERTURB_({kind!r}, ({self.text(v)}))", kind)
        if isinstance(node, ast.Call) and dotted(node.func) in ("TupleBasis",) and getattr(self, "calls", False):
            self.add(node, f"_PERTURB_('reverse', ({self.text(node)}))", "reverse")
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            return super().visit(node)
        for child in ast.iter_child_nodes(node):
            self.visit(child)
        return None


def perturb(kind, basis):
    import copy

    from surface_potential_analysis.basis import basis as bb
    from surface_potential_analysis.basis.stacked_basis import TupleBasis

    SEEN["asked"] += 1
    where, _, what = kind.rpartition(" ")
    if isinstance(basis, TupleBasis):
        parts = [basis[i] for i in range(basis.ndim)]
        if what == "reverse":
            if len(parts) > 1 and len({p.n for p in parts}) == 1 and len({id(p) for p in parts}) > 1:
                SEEN["true"] += 1
                return TupleBasis(*parts[::-1])
            new = [perturb(kind, p) for p in parts]
        else:
            i = 0 if where == "first" else -1
            new = list(parts)
            for j in range(len(parts))[:: 1 if where == "first" else -1]:
                new[j] = perturb(kind, parts[j])
                if new[j] is not parts[j]:
                    break
        return basis if all(p is q for p, q in zip(parts, new)) else TupleBasis(*new)
    new = basis
    if what == "length" and hasattr(basis, "_delta_x"):
        new = copy.copy(basis)
        new._delta_x = basis._delta_x * 1.3  # noqa: SLF001
    elif what == "points" and hasattr(basis, "_delta_x"):
        new = copy.copy(basis)
        new._delta_x = -basis._delta_x  # noqa: SLF001
    elif what == "kind" and type(basis) in (bb.FundamentalPositionBasis, bb.FundamentalTransformedPositionBasis) and basis.n > 1:
        new = (bb.FundamentalPositionBasis if type(basis) is bb.FundamentalTransformedPositionBasis else bb.FundamentalTransformedPositionBasis)(basis.delta_x, basis.n)
    elif what == "fundamental" and type(basis) in (bb.FundamentalTransformedPositionBasis, bb.TransformedPositionBasis):
        new = bb.TransformedPositionBasis(basis.delta_x, basis.n, basis.fundamental_n + 2)
    if new is not basis:
        SEEN["true"] += 1
    return new


def mutants(cov, files=""):
    """(id, file, qualname, line, kind, mutated source piece) for every mutation on a covered line."""
    by_line = {}
    for case, d in cov.items():
        for f, ln in d["lines"]:
            by_line.setdefault((f, ln), set()).add(case)
    out = []
    for f in sorted({f for f, _ in by_line}):
        if files and files not in f:
            continue
        with open(os.path.join(PKGDIR, f)) as h:
            src = h.read()
        gen = MAKE[0](src)
        gen.visit(ast.parse(src))
        for i, (a, b, new, kind, l0, l1, fn) in enumerate(gen.out):
            cases = set()
            for ln in range(l0, l1 + 1):
                cases |= by_line.get((f, ln), set())
            if cases:
                out.append({"id": f"{f}#{i}", "file": f, "fn": fn, "line": l0, "kind": kind, "a": a, "b": b, "new": new, "old": src.encode()[a:b].decode(), "cases": sorted(cases)})
    return out


MAKE = [Gen]


def code_objects(code, prefix=""):
    for k in code.co_consts:
        if isinstance(k, types.CodeType):
            yield k.co_qualname, k.co_firstlineno, k
            if "<locals>" not in k.co_qualname:
                yield from code_objects(k)


def functions_of(module):
    """Every function of a module by (qualname, first line)."""
    out = {}

    def look(o, depth=0):
        if isinstance(o, (staticmethod, classmethod)):
            o = o.__func__
        if isinstance(o, property):
            for q in (o.fget, o.fset):
                if q is not None:
                    look(q)
            return
        for _ in range(5):
            if isinstance(o, types.FunctionType):
                if o.__code__.co_filename == module.__file__:
                    out[(o.__code__.co_qualname, o.__code__.co_firstlineno)] = o
                for cell in o.__closure__ or ():
                    try:
                        inner = cell.cell_contents
                    except ValueError:
                        continue
                    if isinstance(inner, types.FunctionType) and inner.__code__.co_filename == module.__file__:
                        out[(inner.__code__.co_qualname, inner.__code__.co_firstlineno)] = inner
            if hasattr(o, "func") and isinstance(getattr(o, "func", None), types.FunctionType):
                look(o.func)
            if not hasattr(o, "__wrapped__"):
                break
            o = o.__wrapped__
        if isinstance(o, type) and o.__module__ == module.__name__ and depth < 2:
            for v in vars(o).values():
                look(v, depth + 1)

    for v in list(vars(module).values()):
        look(v)
    return out


def apply(mu):
    with open(os.path.join(PKGDIR, mu["file"])) as h:
        src = h.read().encode()
    new = (src[: mu["a"]] + mu["new"].encode() + src[mu["b"] :]).decode()
    name = "surface_potential_analysis." + mu["file"][:-3].replace("/", ".")
    name = name.removesuffix(".__init__")
    mod = sys.modules[name]
    old_code = compile(src.decode(), mod.__file__, "exec", dont_inherit=True, flags=0)
    new_code = compile(new, mod.__file__, "exec", dont_inherit=True, flags=0)
    fns = functions_of(mod)
    done = 0
    olds = {(q, ln): c for q, ln, c in code_objects(old_code)}
    news = {}
    for q, ln, c in code_objects(new_code):
        news.setdefault(q, []).append(c)
    order = {}
    for q, ln in olds:
        order.setdefault(q, []).append(ln)
    for (q, ln), oc in olds.items():
        if (q, ln) not in fns or q not in news:
            continue
        nc = news[q][sorted(order[q]).index(ln)]
        f = fns[(q, ln)]
        if len(f.__code__.co_freevars) != len(nc.co_freevars):
            continue
        if nc.co_code != oc.co_code or nc.co_consts != oc.co_consts or nc.co_names != oc.co_names:
            f.__code__ = nc
            done += 1
    return done


# ---------------------------------------------------------------- guards
GUARDS = ("axes3", "axes1", "axes2 unequal", "long axis", "odd axis", "single", "negative", "skew", "tiny", "huge", "complex", "real", "many", "later", "two kinds", "falling tuple", "zero entry", "equal entries", "step", "truncated", "not unit", "wide range", "rising shape", "even axis", "large index", "empty")
SEEN = {"asked": 0, "true": 0}


def values_in(o, depth=0, out=None):
    import numpy as np

    out = [] if out is None else out
    if len(out) > 300:
        return out
    if isinstance(o, (bool, str, bytes)) or o is None:
        return out
    if isinstance(o, (int, float, complex, np.number, np.ndarray)):
        out.append(o)
    elif isinstance(o, dict):
        for v in list(o.values())[:30]:
            values_in(v, depth + 1, out)
    elif isinstance(o, (list, tuple)) and not (hasattr(o, "fundamental_n")):
        out.append(o)
        for v in o[:12]:
            values_in(v, depth + 1, out)
    elif hasattr(o, "fundamental_n") and depth < 6:
        out.append(o)
        if hasattr(o, "shape") and hasattr(o, "__getitem__"):
            for i in range(len(o.shape)):
                values_in(o[i], depth + 1, out)
        elif hasattr(o, "_basis"):
            values_in(o._basis, depth + 1, out)  # noqa: SLF001
    return out


def guard(kind, loc):
    SEEN["asked"] += 1
    if kind == "later":
        r = SEEN["asked"] > 3
    else:
        try:
            r = holds(kind, loc)
        except Exception:  # noqa: BLE001
            r = False
    SEEN["true"] += bool(r)
    return r


def holds(kind, loc):
    import numpy as np

    vals = values_in({k: v for k, v in loc.items() if not isinstance(v, types.ModuleType)})
    bases = [v for v in vals if hasattr(v, "fundamental_n")]
    stacked = [b for b in bases if hasattr(b, "shape") and hasattr(b, "__getitem__")]
    single = [b for b in bases if b not in stacked]
    arrays = [v for v in vals if isinstance(v, np.ndarray) and v.dtype.kind in "fc" and v.size]
    if kind == "axes3":
        return any(len(b.shape) >= 3 for b in stacked) or any(a.ndim >= 3 for a in arrays)
    if kind == "axes1":
        return any(len(b.shape) == 1 for b in stacked)
    if kind == "axes2 unequal":
        return any(len(b.shape) >= 2 and len(set(b.shape)) == len(b.shape) and min(b.shape) > 1 and b.shape[0] > b.shape[-1] for b in stacked)
    if kind == "long axis":
        return any(b.n > 12 for b in single) or any(a.size and max(a.shape, default=0) > 80 for a in arrays)
    if kind == "odd axis":
        return any(b.n % 2 and b.n >= 5 for b in single)
    if kind == "single":
        return any(b.n == 1 for b in bases)
    if kind == "negative":
        return any(isinstance(v, (int, np.integer)) and v < 0 or isinstance(v, np.ndarray) and v.dtype.kind == "i" and np.any(v < 0) for v in vals)
    if kind == "skew":
        for b in bases:
            if hasattr(b, "delta_x_stacked"):
                m = b.delta_x_stacked
                q = m @ m.T
                if np.any(np.abs(q - np.diag(np.diag(q))) > 1e-6 * np.max(np.abs(q))):
                    return True
        return False
    if kind == "tiny":
        return any(0 < np.max(np.abs(a)) < 1e-12 for a in arrays)
    if kind == "huge":
        return any(np.max(np.abs(a)) > 100 for a in arrays)
    if kind == "complex":
        return any(a.dtype.kind == "c" and np.any(np.abs(a.imag) > 1e-9 * np.max(np.abs(a))) for a in arrays)
    if kind == "real":
        return any(a.dtype.kind == "c" and np.any(a != 0) and not np.any(a.imag) for a in arrays)
    if kind == "many":
        return any(type(v) is list and len(v) > 3 for v in vals) or any(len(b.shape) == 2 and b.shape[0] > 4 for b in stacked)
    if kind == "two kinds":
        return len({type(b) for b in single}) > 1
    if kind == "falling tuple":
        return any(isinstance(v, tuple) and len(v) > 1 and all(isinstance(q, (int, np.integer)) for q in v) and list(v) != sorted(v) for v in vals)
    if kind == "zero entry":
        return any(a.size > 1 and np.any(a == 0) and np.any(a != 0) for a in arrays)
    if kind == "equal entries":
        return any(a.size > 2 and np.all(a.ravel()[0] == a) for a in arrays)
    if kind == "step":
        return any(getattr(b, "step", 1) > 1 or getattr(b, "offset", 0) != 0 for b in single)
    if kind == "truncated":
        return any(1 < b.n < b.fundamental_n for b in bases)
    if kind == "not unit":
        return any(a.size > 1 and abs(np.linalg.norm(a) - 1) > 0.2 for a in arrays)
    if kind == "wide range":
        return any(a.size > 2 and np.max(np.abs(a)) > 30 * np.median(np.abs(a)) for a in arrays)
    if kind == "rising shape":
        return any(len(b.shape) >= 2 and b.shape[0] < b.shape[-1] and b.shape[0] > 1 for b in stacked)
    if kind == "even axis":
        return any(b.n % 2 == 0 and b.n >= 4 for b in single)
    if kind == "large index":
        return any(isinstance(v, (int, np.integer)) and v > 5 or isinstance(v, np.ndarray) and v.dtype.kind == "i" and v.size and np.max(v) > 5 for v in vals)
    if kind == "empty":
        return any(isinstance(v, (list, tuple)) and not hasattr(v, "fundamental_n") and len(v) == 0 for v in vals)
    raise ValueError(kind)


def guarded(mu, kind):
    if mu["kind"] == "drop update":
        return None
    new = mu["new"]
    if mu["kind"] == "arguments swapped":
        text = f"*(({new}) if _GUARD_({kind!r}, locals()) else ({mu['old']}))"
    else:
        text = f"(({new}) if _GUARD_({kind!r}, locals()) else ({mu['old']}))"
    return {**mu, "new": text, "mutant": new, "guard": kind}


def sweep(cover_file, out, cap, files, sample, seed, only, guards=None, workers=8, bases=None):
    reg = load()
    with open(cover_file) as f:
        cov = json.load(f)
    if bases:
        import builtins

        MAKE[0] = GenBases
        builtins._PERTURB_ = perturb  # noqa: SLF001
    todo = mutants(cov, files)
    if only:
        with open(only) as f:
            ids = set(json.load(f))
        todo = [m for m in todo if m["id"] in ids]
    random.Random(seed).shuffle(todo)
    if guards:
        import builtins

        builtins._GUARD_ = guard  # noqa: SLF001
        draw = random.Random(seed + 1)
        if guards.endswith(".jsonl"):  # once more those which survived although the condition held
            with open(guards) as f:
                again = {d["id"]: d["guard"] for d in map(json.loads, f) if d["status"] == "survived" and d.get("true")}
            todo = [m for m in todo if m["id"] in again]
        kinds = GUARDS if guards == "all" else guards.split(",")
        todo = [guarded(m, again[m["id"]]) for m in todo] if guards.endswith(".jsonl") else [m for m in (guarded(m, draw.choice(kinds)) for m in todo) if m is not None]
    if sample:
        todo = todo[:sample]
    print(len(todo), "mutants", flush=True)
    cost = {k: d["wall"] for k, d in cov.items()}

    def fn(mu):
        try:
            n = apply(mu)
        except SyntaxError as e:
            return {"status": "invalid", "why": str(e)}
        if n == 0:
            return {"status": "not applied"}
        t0 = time.monotonic()
        order = sorted(mu["cases"], key=lambda k: cost.get(k, 1))
        spent = []
        for k in order:
            p, name = k.split("/", 1)
            case = reg[p][name]
            why = run_case(case, min(case.quick, cap), seed + 1, t0 + 150)
            spent.append(k)
            if why is not None:
                return {"status": "killed", "by": k, "why": why, **SEEN}
            if time.monotonic() > t0 + 150:
                break
        return {"status": "survived", "tried": len(spent), **SEEN}

    count = {}
    t0 = time.monotonic()
    with open(out, "a") as f:
        for i, (mu, r) in enumerate(forked(todo, fn, 240, workers)):
            r = r or {"status": "died"}
            count[r["status"]] = count.get(r["status"], 0) + 1
            f.write(json.dumps({**{k: v for k, v in mu.items() if k not in ("a", "b")}, "cases": len(mu["cases"]), **r}) + "\n")
            f.flush()
            if i % 100 == 0:
                print(i, round(time.monotonic() - t0), count, flush=True)
    print(count)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "cover":
        cover(a[1])
    else:
        opt = {a[i]: a[i + 1] for i in range(3, len(a), 2)}
        sweep(a[1], a[2], int(opt.get("--cap", 60)), opt.get("--files", ""), int(opt.get("--sample", 0)), int(opt.get("--seed", 0)), opt.get("--only"), opt.get("--guards"), int(opt.get("--workers", 8)), opt.get("--bases"))

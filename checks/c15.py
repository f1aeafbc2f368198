"""C15: quantum time evolution is the unitary evolution of the Hamiltonian."""
from __future__ import annotations

import contextlib
import io
import sys
import types

import numpy as np
import qutip
import scipy.linalg
from hypothesis import strategies as st
from scipy.constants import hbar

from checks.c06 import coef, dense
from harness import gen as g
from harness.core import arr, case, close, data, ensure, fail, hermitian, ro
from harness.sse_standin import hooked
from surface_potential_analysis.basis.basis import FundamentalBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.basis.time_basis_like import EvenlySpacedTimeBasis, ExplicitTimeBasis, FundamentalTimeBasis
from surface_potential_analysis.dynamics import util as U
from surface_potential_analysis.dynamics.schrodinger import solve as Q
from surface_potential_analysis.dynamics.stochastic_schrodinger import solve as S
from surface_potential_analysis.dynamics.tunnelling_basis import TunnellingSimulationBandsBasis

# energies used to set the time scale: dimensionless, electron-volt and micro-eV sized
ENERGY = st.sampled_from([hbar, 1.6e-19, 1.6e-25, 1.0])


@st.composite
def grids(draw, negative=True, explicit=True):
    """A time grid in units of hbar / energy."""
    kind = draw(st.sampled_from(["F", "E", "E", "X"] if explicit else ["F", "E", "E"]))
    d = {"t": kind, "n": draw(g.counts(1, 6, 40)), "T": draw(g.floats(0.1, 10))}
    if kind == "E":
        d["step"] = draw(st.integers(1, 5))
        d["off"] = draw(st.integers(-6 if negative else 0, 6))
    if kind == "X":
        d["n"] = max(d["n"], 2)
        d["x"] = [draw(g.floats(-5 if negative else 0, 10)) for _ in range(d["n"])]
    return d


def grid(d, unit):
    """The library's grid and the times it stands for."""
    n, total = d["n"], d["T"] * unit
    if d["t"] == "F":
        return FundamentalTimeBasis(n, total), np.arange(n) * total / n
    if d["t"] == "E":
        f = total / (n * d["step"])
        return EvenlySpacedTimeBasis(n, d["step"], d["off"], total), (d["off"] + d["step"] * np.arange(n)) * f
    x = np.array(d["x"]) * unit
    return ExplicitTimeBasis(ro(x)), x


def spectral(c, n):
    """A Hermitian matrix, possibly with degenerate levels, of size of order one."""
    if c["kind"] == "zero":
        return np.zeros((n, n), complex)
    if c["kind"] == "diag":
        return np.diag(np.random.default_rng(c["hs"]).normal(size=n)).astype(complex)
    if c["kind"] == "degenerate":
        q = g.ortho(n, n, c["hs"] + 1)
        e = np.random.default_rng(c["hs"]).integers(-1, 2, size=n).astype(float)
        return q.conj().T @ np.diag(e) @ q
    return hermitian({"k": "rand", "s": c["hs"]}, n, real=c["kind"] == "real").astype(complex) / np.sqrt(n)


@st.composite
def systems(draw, negative=True, explicit=True, max_n=12):
    shp = draw(g.fshapes((1, 2), max_n=max_n if max_n < 6 else 6, max_total=max_n, long=30 if max_n > 6 else 0))
    return {
        "b": draw(g.any_basis(shp)),
        "kind": draw(st.sampled_from(["rand", "rand", "rand", "real", "diag", "degenerate", "zero"])),
        "hs": draw(st.integers(0, 2**16)),
        "a": draw(g.arrd(powers=(0, 0, 0, -20, -30))),
        "unit": draw(ENERGY),
        "amp": draw(st.sampled_from([1.0, 1.0, 20.0])),
        "t": draw(grids(negative, explicit)),
    }


def setup(c):
    b = g.build(c["b"])
    n = g.size(c["b"])
    h = spectral(c, n) * c["unit"]
    psi = arr(c["a"], n) * c["amp"]
    if np.linalg.norm(psi) < 1e-3:
        psi = psi.copy()
        psi[0] = c["amp"]
    t, times = grid(c["t"], hbar / c["unit"])
    e, v = np.linalg.eigh(h / c["unit"])
    x = times * c["unit"] / hbar
    expected = np.einsum("ij,tj,j->ti", v, np.exp(-1j * np.outer(x, e)), v.conj().T @ psi)
    for xi, row in list(zip(x, expected, strict=True))[:2]:
        close(scipy.linalg.expm(-1j * h / c["unit"] * xi) @ psi, row, "oracle", rtol=1e-9)
    ham = {"basis": TupleBasis(b, b), "data": ro(h.reshape(-1))}
    return b, n, ham, {"basis": b, "data": ro(psi)}, t, times, expected


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def check_out(out, t, b, expected, what, rtol):
    ensure(out["basis"][0] is t and out["basis"][1] is b, f"{what}: basis of the result")
    close(data(out).reshape(expected.shape), expected, what, rtol=rtol, scale=float(np.linalg.norm(expected[0])))


@case("C15", systems(), quick=300)
def decomposition(c, ctx):
    """Eigenstate solver = exp(-iHt/hbar) psi at every time of any grid. Non-trivial: dimension >= 2, non-zero H."""
    b, n, ham, psi, t, times, expected = setup(c)
    out = Q.solve_schrodinger_equation_decomposition(psi, t, ham)
    check_out(out, t, b, expected, "decomposition solver", 1e-8)
    # amplitudes in any orthonormal set: those of the whole set rebuild the state
    m = max(1, n - c["hs"] % 2)
    vecs = np.linalg.qr(np.random.default_rng(c["hs"]).normal(size=(n, n, 2)) @ [1, 1j])[0][:m]
    amp = Q.get_state_vector_decomposition(psi, {"basis": TupleBasis(FundamentalBasis(m), b), "data": ro(vecs.reshape(-1))})
    ensure(amp["basis"][0] is amp["basis"][1] and amp["basis"][0].n == m, "one amplitude per state")
    close(data(amp), vecs.conj() @ data(psi), "amplitudes", rtol=1e-9, scale=float(np.linalg.norm(data(psi))))
    # composition: continuing from the last state, over the remaining times
    if times[-1] != times[0]:
        mid = data(out).reshape(expected.shape)[0]
        rest = ExplicitTimeBasis(ro(times - times[0]))
        again = Q.solve_schrodinger_equation_decomposition({"basis": b, "data": ro(mid)}, rest, ham)
        check_out(again, rest, b, expected, "evolution composes over intervals", 1e-7)
    ctx.nt(n > 1 and c["kind"] != "zero")
    ctx.label(c["kind"], c["t"]["t"], "offset" if c["t"].get("off") else "no-offset")


@case("C15", systems(negative=False, explicit=False, max_n=6), quick=60)
def qutip_solver(c, ctx):
    """qutip solver = exp(-iHt/hbar) psi from time zero (2e-4 of the norm). Non-trivial: as above."""
    b, n, ham, psi, t, times, expected = setup(c)
    with quiet():
        out = Q.solve_schrodinger_equation(psi, t, ham)
    check_out(out, t, b, expected, "qutip solver", 2e-4)
    ctx.nt(n > 1 and c["kind"] != "zero")
    ctx.label(c["kind"], c["t"]["t"], "offset" if c["t"].get("off") else "no-offset", f"step{c['t'].get('step', 1)}")


@st.composite
def diagonals(draw):
    nd = draw(st.integers(1, 3))
    shp = draw(g.fshapes((nd, nd), max_n=5, max_total=20))
    # both bases span the whole space or share an incomplete start
    return {"b": [draw(g.any_basis(shp)) for _ in range(2)], "e": draw(st.integers(0, 2**16)), "a": draw(g.arrd(powers=(0, 0, 0, -20, -30))), "unit": draw(ENERGY), "t": draw(grids())}


@case("C15", diagonals(), quick=250)
def diagonal(c, ctx):
    """Diagonal solver: each amplitude in the Hamiltonian's basis turns with its own energy. Non-trivial: dimension >= 2 and two bases."""
    b0, b1 = (g.build(q) for q in c["b"])
    n0, n1 = (g.size(q) for q in c["b"])
    e = np.random.default_rng(c["e"]).normal(size=n1)
    psi = arr(c["a"], n0)
    t, times = grid(c["t"], hbar / c["unit"])
    # amplitudes of the projection onto the orthonormal target vectors
    start = g.ref(c["b"][1]).conj() @ (psi @ g.ref(c["b"][0]))
    expected = start[None, :] * np.exp(-1j * np.outer(times * c["unit"] / hbar, e))
    ham = {"basis": TupleBasis(b1, b1), "data": ro((e * c["unit"]).astype(complex))}
    out = Q.solve_schrodinger_equation_diagonal({"basis": b0, "data": ro(psi)}, t, ham)
    ensure(out["basis"][0] is t and out["basis"][1] is b1, "basis of the result")
    close(data(out).reshape(expected.shape), expected, "diagonal solver", rtol=1e-8, scale=float(np.linalg.norm(psi)))
    ctx.nt(n1 > 1 and c["b"][0] != c["b"][1])


# ---------------------------------------------------------------- stochastic front ends
@contextlib.contextmanager
def sse_replaced(fake):
    """Replace qutip.ssesolve wherever the library may have bound it."""
    real = qutip.ssesolve
    places = [(qutip, "ssesolve")]
    for name, m in list(sys.modules.items()):
        if name.startswith("surface_potential_analysis"):
            places += [(m, k) for k, v in list(vars(m).items()) if v is real]
    for m, k in places:
        setattr(m, k, fake)
    try:
        yield
    finally:
        for m, k in places:
            setattr(m, k, real)


@st.composite
def open_systems(draw, banded=False):
    nd = draw(st.integers(1, 2))
    shp = draw(g.fshapes((nd, nd), max_n=5, max_total=8))
    k = draw(st.integers(0, 3))
    return {
        "b": draw(g.any_basis(shp)),
        "ob": [draw(g.any_basis(shp)) for _ in range(2 * k)] if banded else [],
        "sb": draw(g.any_basis(shp)),
        "k": k,
        "kind": draw(st.sampled_from(["rand", "rand", "real", "diag", "zero", "banded"])),
        "same": draw(st.booleans()),
        "hs": draw(st.integers(0, 2**16)),
        "o": [draw(st.fixed_dictionaries({"k": st.sampled_from(["unit", "rand", "sparse", "diag", "iunit"]), "s": st.integers(0, 2**16)})) for _ in range(k)],
        "a": draw(g.arrd(powers=(0, 0, 0, -20, -30))),
        "unit": draw(ENERGY),
        "omag": draw(st.sampled_from([1.0, 1e-3, 1e3])),
        "t": draw(grids(False, False)),
        "traj": draw(st.integers(1, 3)),
        "real": draw(st.integers(1, 3)),
    }


def operator_matrix(d, n0, n1):
    if d["k"] == "diag":
        m = np.zeros((n0, n1), complex)
        k = min(n0, n1)
        m[np.arange(k), np.arange(k)] = arr({"k": "rand", "s": d["s"]}, k)
        return m
    return arr(d, (n0, n1))


def open_setup(c):
    b, n = g.build(c["b"]), g.size(c["b"])
    if c["kind"] == "banded":
        h = np.diag(np.arange(n) * 0.3).astype(complex)
        if n > 1:
            h += np.roll(np.eye(n), 1, axis=0) * (0.5 + 0.2j) + np.roll(np.eye(n), -1, axis=0) * (0.5 - 0.2j)
    else:
        h = spectral(c, n)
    h = h * c["unit"]
    psi = arr(c["a"], n)
    if np.linalg.norm(psi) < 1e-3:
        psi[0] = 1
    t, times = grid(c["t"], hbar / c["unit"])
    return b, n, h, psi, t, times


def stacked_ok(out, traj, t, b):
    ensure(out["basis"][0][0].n == traj and out["basis"][0][1] is t, "trajectories x times")
    ensure(out["basis"][1] is b, "basis of the states")


@case("C15", open_systems(), quick=200)
def qutip_stochastic(c, ctx):
    """ssesolve gets H/hbar, L/sqrt(hbar), the initial state and all times. Non-trivial: at least one collapse operator."""
    b, n, h, psi, t, times = open_setup(c)
    seen = []
    traj = c["traj"]
    ret = arr({"k": "rand", "s": 1}, (traj, t.n, n))

    def fake(ham, state, tlist, sc_ops=(), *a, **kw):
        seen.append((ham.full(), state.full(), np.array(tlist), [o.full() for o in sc_ops], kw))
        return types.SimpleNamespace(states=[[qutip.Qobj(v) for v in tr] for tr in ret])

    ls = [operator_matrix(d, n, n) * c["omag"] * np.sqrt(c["unit"]) for d in c["o"]]
    ops = [{"basis": TupleBasis(b, b), "data": ro(m.reshape(-1))} for m in ls]
    with sse_replaced(fake):
        out = S.solve_stochastic_schrodinger_equation(
            {"basis": b, "data": ro(psi)}, t, {"basis": TupleBasis(b, b), "data": ro(h.reshape(-1))}, (ops or None) if c["same"] else ops, n_trajectories=traj
        )
    ensure(len(seen) == 1, "one simulation")
    ham, state, tlist, sc, kw = seen[0]
    close(ham, h / hbar, "Hamiltonian", rtol=1e-12)
    close(state.reshape(-1), psi, "initial state", rtol=1e-14)
    close(tlist, times, "times", rtol=1e-12, scale=float(np.max(np.abs(times), initial=0)) or 1.0)
    ensure(len(sc) == len(ls), "number of collapse operators")
    for got, m in zip(sc, ls, strict=True):
        close(got, m / np.sqrt(hbar), "collapse operator", rtol=1e-12)
    ensure(kw.get("ntraj") == traj, "number of trajectories")
    f = c["t"]["T"] * hbar / c["unit"] / (c["t"]["n"] * c["t"].get("step", 1))
    close(kw["options"]["dt"], f, "integration step", rtol=1e-12)
    stacked_ok(out, traj, t, b)
    close(data(out).reshape(ret.shape), ret, "trajectories", rtol=1e-14)
    ctx.nt(len(ls) > 0)


def fake_rust(seen, ret):
    def run(*args):
        seen.append(args)
        return ret.reshape(-1).tolist()

    return run


@case("C15", open_systems(), quick=200)
def rust_stochastic(c, ctx):
    """solve_sse gets H/hbar, L/sqrt(hbar), the state, n outputs every `step` fundamental time steps. Non-trivial: at least one collapse operator."""
    b, n, h, psi, t, times = open_setup(c)
    seen = []
    traj = c["traj"]
    ret = arr({"k": "rand", "s": 1}, (traj, t.n, n))
    ls = [operator_matrix(d, n, n) * c["omag"] * np.sqrt(c["unit"]) for d in c["o"]]
    ops = [{"basis": TupleBasis(b, b), "data": ro(m.reshape(-1))} for m in ls]
    with hooked(solve_sse=fake_rust(seen, ret)):
        out = S.solve_stochastic_schrodinger_equation_rust(
            {"basis": b, "data": ro(psi)}, t, {"basis": TupleBasis(b, b), "data": ro(h.reshape(-1))}, (ops or None) if c["same"] else ops, n_trajectories=traj, n_realizations=c["real"]
        )
    state, ham, sc, cfg = seen[0]
    close(np.array(ham), h / hbar, "Hamiltonian", rtol=1e-12)
    close(np.array(state), psi, "initial state", rtol=1e-14)
    ensure(len(sc) == len(ls), "number of collapse operators")
    for got, m in zip(sc, ls, strict=True):
        close(np.array(got), m / np.sqrt(hbar), "collapse operator", rtol=1e-12)
    check_config(c, cfg, t, 1.0)
    stacked_ok(out, traj, t, b)
    close(data(out).reshape(ret.shape), ret, "trajectories", rtol=1e-14)
    ctx.nt(len(ls) > 0)
    ctx.label(f"step{t.step}")


def check_config(c, cfg, t, speed):
    """`speed`: factor by which the solver's unit of time is shortened."""
    n, step = c["t"]["n"], c["t"].get("step", 1)
    ensure(cfg.n == n and cfg.step == step, f"grid {cfg.n} x {cfg.step}, expected {n} x {step}")
    f = c["t"]["T"] * hbar / c["unit"] / (n * step)
    close(cfg.dt, f * speed, "integration step", rtol=1e-9)
    ensure(cfg.n_trajectories == c["traj"] and cfg.n_realizations == c["real"], "number of trajectories and realizations")


def from_bands(diagonals, offsets, n):
    m = np.zeros((n, n), complex)
    for d, i in zip(diagonals, offsets, strict=True):
        ensure(len(d) == n, "band length")
        j = np.arange(n)
        m[(j + i) % n, j] += np.array(d)
    return m


@case("C15", open_systems(banded=True), quick=300)
def rust_banded(c, ctx):
    """Bands passed on rebuild, in units in which one time step is dt, H dt/hbar and L sqrt(dt/hbar) in the Hamiltonian's basis. Non-trivial: a collapse operator in another basis."""
    b, n, h, psi0, t, times = open_setup(c)
    seen = []
    traj = c["traj"]
    ret = arr({"k": "rand", "s": 1}, (traj, t.n, n))
    ops, expected = [], []
    bb = g.ref(c["b"])
    for i, d in enumerate(c["o"]):
        if c["same"]:
            d0 = d1 = c["b"]
            b0 = b1 = b
        else:
            d0, d1 = c["ob"][2 * i], c["ob"][2 * i + 1]
            b0, b1 = g.build(d0), g.build(d1)
        m = operator_matrix(d, g.size(d0), g.size(d1)) * c["omag"] * np.sqrt(c["unit"])
        ops.append({"basis": TupleBasis(b0, b1), "data": ro(m.reshape(-1))})
        expected.append(coef(dense(m, g.ref(d0), g.ref(d1)), bb, bb))
    norms = [np.linalg.norm(o["data"]) for o in ops]
    if ops and max(norms) == 0:
        ctx.label("all collapse operators zero (skipped)")
        return
    psi = arr(c["a"], g.size(c["sb"]))
    psi_exp = bb.conj() @ (psi @ g.ref(c["sb"]))
    with hooked(solve_sse_banded=fake_rust(seen, ret)), quiet():
        out = S.solve_stochastic_schrodinger_equation_rust_banded(
            {"basis": g.build(c["sb"]), "data": ro(psi)}, t, {"basis": TupleBasis(b, b), "data": ro(h.reshape(-1))},
            (ops or None) if c["same"] else ops, n_trajectories=traj, n_realizations=c["real"], method="Milsten",
        )
    state, hd, ho, cd, co, cfg = seen[0]
    close(np.array(state), psi_exp, "initial state", rtol=1e-9, scale=float(np.linalg.norm(psi)) or 1.0)
    f = c["t"]["T"] * hbar / c["unit"] / (t.n * t.step)
    # r_threshold = 1e-8 bounds what may be dropped from each band, per time step
    thr = 2e-8 * np.sqrt(n) * n
    got = from_bands(hd, ho, n) * cfg.dt
    close(got, h * f / hbar, "Hamiltonian per time step", rtol=1e-9, atol=thr)
    ensure(len(cd) == len(co) == len(ops), "number of collapse operators")
    speed = cfg.dt / f * hbar
    for q, (dd, oo) in enumerate(zip(cd, co, strict=True)):
        got = from_bands(dd, oo, n) * np.sqrt(speed)
        m = expected[q]
        close(got, m, "collapse operator", rtol=1e-9, scale=float(max(norms)), atol=thr * hbar / f / np.sqrt(speed))
    ensure(cfg.n == t.n and cfg.step == t.step, "time grid")
    ensure(cfg.n_trajectories == traj and cfg.n_realizations == c["real"] and cfg.method == "Milsten", "simulation options")
    stacked_ok(out, traj, t, b)
    close(data(out).reshape(ret.shape), ret, "trajectories", rtol=1e-14)
    ctx.nt(len(ops) > 0 and not c["same"])
    ctx.label(f"{len(ops)} operators", c["kind"])


@st.composite
def closed(draw):
    n = draw(st.integers(1, 5))
    return {"n": n, "hs": draw(st.integers(0, 2**16)), "kind": draw(st.sampled_from(["rand", "diag"])), "a": draw(g.arrd(kinds=("rand", "unit"), powers=(0,))), "unit": draw(ENERGY), "nt": draw(st.integers(1, 5)), "step": draw(st.integers(1, 4)), "T": draw(g.floats(0.1, 10)), "traj": draw(st.integers(1, 2)), "s": draw(st.integers(0, 2**16))}


@case("C15", closed(), quick=120)
def localized(c, ctx):
    """Without collapse operators the relocalising trajectories are the Schrodinger evolution up to phases. Non-trivial: two or more times, dimension >= 2."""
    n = c["n"]
    b = FundamentalBasis(n)
    h = spectral(c, n)
    psi = arr(c["a"], n)
    psi = psi / np.linalg.norm(psi)
    nt = c["nt"]
    total = c["T"] * hbar / c["unit"]
    t = EvenlySpacedTimeBasis(nt, c["step"], 0, total)

    def fake(ham, state, tlist, sc_ops=(), *a, **kw):
        ensure(len(sc_ops) == 0, "no collapse operators")
        s = state.full().reshape(-1)
        one = [qutip.Qobj(scipy.linalg.expm(-1j * ham.full() * (q - tlist[0])) @ s) for q in tlist]
        return types.SimpleNamespace(states=[one for _ in range(kw["ntraj"])])

    with sse_replaced(fake):
        out = S.solve_stochastic_schrodinger_equation_localized({"basis": b, "data": ro(psi)}, t, {"basis": TupleBasis(b, b), "data": ro((h * c["unit"]).reshape(-1))}, n_trajectories=c["traj"])
    stacked_ok(out, c["traj"], t, b)
    d = data(out).reshape(c["traj"], nt, n)
    for k in range(nt):
        e = scipy.linalg.expm(-1j * h * (k * c["T"] / nt)) @ psi
        for r in range(c["traj"]):
            close(np.abs(np.vdot(e, d[r, k])), 1.0, f"overlap with exp(-iHt) psi at time {k}", rtol=1e-8)
            close(np.linalg.norm(d[r, k]), 1.0, "norm", rtol=1e-8)
    ctx.nt(nt > 1 and n > 1)


# ---------------------------------------------------------------- jump operators
@st.composite
def rates(draw):
    shp = (draw(st.integers(3, 4)), draw(st.integers(3, 4)))
    return {"shp": list(shp), "nb": draw(st.integers(1, 2)), "s": draw(st.integers(0, 2**16)), "sparse": draw(st.floats(0, 1).map(lambda x: round(x, 2))), "factor": draw(st.sampled_from([1.0, 2.5]))}


def bands(nb, s=0):
    rng = np.random.default_rng(s)
    return TunnellingSimulationBandsBasis(rng.random((2, nb)), (np.array([1.0, 0]), np.array([0.5, 1.0])))


def shifts3():
    return [(a, b) for a in (0, 1, -1) for b in (0, 1, -1)]


def translational_rates(c, scale=10.0):
    """rate(n0, n1, hop) non-negative; R[n0, n1, d1, d2] with d in {-1, 0, 1} (index d+1)."""
    rng = np.random.default_rng(c["s"])
    r = rng.random((c["nb"], c["nb"], 3, 3)) * scale
    return r * (rng.random(r.shape) > c["sparse"])


def a_reference(c, r):
    """A[x0, y0, n0, x1, y1, n1]: rate of the hop from site 0 to site 1."""
    n1, n2 = c["shp"]
    a = np.zeros((n1, n2, c["nb"]) * 2)
    for x in range(n1):
        for y in range(n2):
            for i in range(c["nb"]):
                for j in range(c["nb"]):
                    for d1 in (-1, 0, 1):
                        for d2 in (-1, 0, 1):
                            a[x, y, i, (x + d1) % n1, (y + d2) % n2, j] = r[i, j, d1 + 1, d2 + 1]
    return a


@case("C15", rates(), quick=80)
def collapse_operators(c, ctx):
    """Collapse operators from rates: one operator per non-zero entry S_ij with that element; simplified: sqrt(rate) moves along each hop. Non-trivial: two bands."""
    n1, n2 = c["shp"]
    nb = c["nb"]
    r = translational_rates(c)
    bb = bands(nb)
    basis = TupleBasis(FundamentalBasis(n1), FundamentalBasis(n2), bb)
    a = a_reference(c, r)
    big = n1 * n2 * nb
    m = a.reshape(big, big)
    mat = {"basis": TupleBasis(basis, basis), "data": ro(m.reshape(-1))}
    if big <= 24:
        ops = S.get_collapse_operators_from_a_matrix(mat)
        total = np.zeros((big, big))
        for o in ops:
            d = data(o).reshape(big, big)
            ensure(np.count_nonzero(d) == 1, "a single jump per operator")
            total += d.real
        close(total, m - np.diag(np.diag(m)), "jumps", rtol=1e-12)
        ensure(len(ops) == np.count_nonzero(m - np.diag(np.diag(m))), "number of jumps")
        # from the function, including every hop of every site
        ops = S.get_collapse_operators_from_function((n1, n2), bb, lambda i, j, o0, d: float(r[i, j, d[0] + 1, d[1] + 1]))
        total = np.zeros((big, big), complex)
        for o in ops:
            ensure(tuple(o["basis"].shape) == (big, big), "operator on the whole lattice")
            ensure(np.count_nonzero(data(o)) <= 1, "a single jump per operator")
            total += data(o).reshape(big, big)
        close(total, m, "jumps from function", rtol=1e-12)
    ops = S.get_simplified_collapse_operators_from_a_matrix(mat, factor=c["factor"])
    expected = []
    for i in range(nb):
        for j in range(nb):
            for d1, d2 in shifts3():
                v = c["factor"] * r[i, j, d1 + 1, d2 + 1]
                if i == j or v < 1:
                    continue
                e = np.zeros((n1, n2, nb) * 2)
                for x in range(n1):
                    for y in range(n2):
                        e[(x + d1) % n1, (y + d2) % n2, j, x, y, i] = np.sqrt(v)
                expected.append(e.reshape(-1))
    ensure(len(ops) == len(expected), f"{len(ops)} collective jumps, expected {len(expected)}")
    left = list(expected)
    for o in ops:
        d = data(o)
        k = next((q for q, e in enumerate(left) if np.allclose(d, e, rtol=1e-10, atol=1e-12)), None)
        ensure(k is not None, "a collective jump with no matching hop")
        left.pop(k)
    ctx.nt(nb > 1)


@case("C15", st.fixed_dictionaries({"shp": st.lists(st.integers(1, 5), min_size=1, max_size=3), "hop": st.integers(0, 26)}), quick=150)
def hops(c, ctx):
    """Hop operators move every site by the hop's shift, periodically. Non-trivial: a non-zero shift."""
    shp = c["shp"]
    nd = len(shp)
    if np.prod(shp) > 60:
        shp = shp[:1]
        nd = 1
    hop = c["hop"] % 3**nd
    digits = [(hop // 3 ** (nd - 1 - k)) % 3 for k in range(nd)]
    shift = [(0, 1, -1)[d] for d in digits]
    ensure(list(U.get_hop_shift(hop, nd)) == shift, f"shift {U.get_hop_shift(hop, nd)} of hop {hop}")
    op = np.asarray(U.build_hop_operator(hop, tuple(shp)))
    f = arr({"k": "rand", "s": 3}, int(np.prod(shp))).reshape(shp)
    moved = np.tensordot(op.reshape(*shp, *shp), f, axes=(list(range(nd, 2 * nd)), list(range(nd))))
    expected = np.empty_like(f)
    for i in np.ndindex(*shp):
        expected[tuple((i[k] + shift[k]) % shp[k] for k in range(nd))] = f[i]
    close(moved, expected, "moved amplitudes", rtol=1e-14)
    ctx.nt(any(shift))

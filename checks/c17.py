"""C17: scattering functions and their models are consistent."""
from __future__ import annotations

import numpy as np
import scipy.linalg
from hypothesis import strategies as st

from checks.c15 import quiet
from checks.c16 import a_sum, m_ref, rate_table, well_conditioned
from harness import gen as g
from harness.core import arr, case, close, data, ensure, ro
from surface_potential_analysis.basis.basis import FundamentalBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.basis.time_basis_like import ExplicitTimeBasis
from surface_potential_analysis.dynamics import isf as F
from surface_potential_analysis.dynamics.incoherent_propagation import isf as I
from surface_potential_analysis.dynamics.incoherent_propagation.tunnelling_matrix import get_initial_pure_density_matrix_for_basis
from surface_potential_analysis.dynamics.tunnelling_basis import TunnellingSimulationBandsBasis


@st.composite
def layouts(draw):
    return {
        "shp": [draw(st.integers(1, 4)), draw(st.integers(1, 4))],
        "nb": draw(st.integers(1, 3)),
        "lat": draw(st.fixed_dictionaries({"kind": st.sampled_from(["cubic", "ortho", "hex", "skew", "rot"]), "nd": st.just(2), "s": st.integers(0, 300), "scale": st.sampled_from([1.0, 3e-10])})),
        "s": draw(st.integers(0, 2**16)),
        "commensurate": draw(st.booleans()),
        "k": [draw(g.floats(-8, 8)) for _ in range(2)],
        "m": [draw(st.integers(-4, 4)) for _ in range(2)],
        "t": [draw(g.floats(0, 4)) for _ in range(draw(g.counts(1, 4, 40)))],
        "sparse": draw(st.sampled_from([0.0, 0.3])),
        "scale": draw(st.sampled_from([1.0, 1e9])),
    }


class Layout:
    def __init__(self, c):
        self.a = g.lattice(c["lat"])
        self.shp, self.nb = tuple(c["shp"]), c["nb"]
        rng = np.random.default_rng(c["s"] + 7)
        self.loc = rng.random((2, self.nb))
        bb = TunnellingSimulationBandsBasis(ro(self.loc), (ro(self.a[0]), ro(self.a[1])))
        self.basis = TupleBasis(FundamentalBasis(self.shp[0]), FundamentalBasis(self.shp[1]), bb)
        self.size = int(np.prod(self.shp)) * self.nb
        x, y, b = (q.reshape(-1) for q in np.indices((*self.shp, self.nb)))
        self.frac = np.array([x + self.loc[0, b], y + self.loc[1, b]]).T
        self.pos = self.frac @ self.a
        big = self.a * np.array(self.shp)[:, None]
        recip = 2 * np.pi * np.linalg.inv(big).T
        self.big = big
        self.dk = np.array(c["m"]) @ recip if c["commensurate"] else np.array(c["k"]) / c["lat"]["scale"]
        self.commensurate = c["commensurate"]

    def phases(self, p0):
        """exp(i dk . d) with d the nearest periodic image of the displacement from the mean start; None at a tie."""
        d = (self.frac - p0 @ self.frac / p0.sum()) / np.array(self.shp)
        if not self.commensurate and np.any(np.abs(np.abs(d - np.round(d)) - 0.5) < 1e-6):
            return None
        return np.exp(1j * ((d - np.round(d)) @ self.big) @ self.dk)


@case("C17", layouts(), quick=300)
def approximate_isf(c, ctx):
    """ISF = sum_j p_j(t) exp(i dk . nearest displacement) for given occupations. Non-trivial: several sites, non-zero momentum."""
    s = Layout(c)
    rng = np.random.default_rng(c["s"])
    p0 = np.zeros(s.size)
    p0[rng.integers(s.size)] = 1
    if c["s"] % 3 == 0 and s.size > 1:
        p0 = rng.random(s.size)
        p0 /= p0.sum()
    ph = s.phases(p0)
    # a mixed start has no lattice-periodic mean, the displacement is not commensurate then
    if ph is None or np.any(np.abs(np.abs(((s.frac - p0 @ s.frac) / np.array(s.shp) + 0.5) % 1.0 - 0.5) - 0.5) < 1e-6) and not c["commensurate"]:
        ctx.label("displacement at the boundary of the cell (skipped)")
        return
    nt = len(c["t"])
    p = rng.random((nt, s.size))
    times = ExplicitTimeBasis(np.array(c["t"]))
    out = F.calculate_isf_approximate_locations({"basis": s.basis, "data": ro(p0)}, {"basis": TupleBasis(times, s.basis), "data": ro(p.reshape(-1))}, ro(s.dk))
    close(data(out), p @ ph, "ISF", rtol=1e-7, scale=float(s.size))
    ensure(out["basis"][0] is times and out["basis"][1] is times, "basis of the ISF")
    zero = F.calculate_isf_approximate_locations({"basis": s.basis, "data": ro(p0)}, {"basis": TupleBasis(times, s.basis), "data": ro(p.reshape(-1))}, np.zeros(2))
    close(data(zero), p.sum(axis=1), "ISF without momentum transfer", rtol=1e-10)
    ctx.nt(s.size > 1 and np.any(s.dk))
    ctx.label("commensurate" if c["commensurate"] else "any momentum")


@case("C17", layouts(), quick=200)
def rate_isf(c, ctx):
    """ISFs from rate matrices: pure start, equilibrium-averaged and equilibrium-start. Non-trivial: two or more bands, positive time."""
    s = Layout(c)
    r = rate_table({"s": c["s"], "nb": c["nb"], "scale": c["scale"], "sparse": c["sparse"]})
    m = m_ref(a_sum(s.shp, s.nb, r).reshape(s.size, s.size))
    scale = float(np.max(np.abs(m), initial=0)) or 1.0
    mat = {"basis": TupleBasis(s.basis, s.basis), "data": ro(m.astype(complex).reshape(-1))}
    if not well_conditioned(m / scale, mat):
        ctx.label("nearly defective rate matrix (skipped)")
        return
    times = np.array(c["t"]) / c["scale"]
    u = [scipy.linalg.expm(m * t) for t in times]
    k = c["s"] % s.size
    p0 = np.eye(s.size)[k]
    ph = s.phases(p0)
    initial = get_initial_pure_density_matrix_for_basis(s.basis, k)
    if ph is not None:
        with quiet():
            out = I.calculate_isf_at_times(mat, initial, ro(times), ro(s.dk))
        e = np.array([ph @ (q @ p0) for q in u])
        close(data(out), e, "ISF from a pure start", rtol=1e-6, scale=1.0)
        close(out["basis"][0].times, times, "times", rtol=1e-14, scale=float(np.max(times, initial=0)) or 1.0)
    irreducible = np.linalg.matrix_rank(m / scale, tol=1e-6) == s.size - 1
    if irreducible:
        eq = np.linalg.lstsq(np.vstack([m / scale, np.ones(s.size)]), np.append(np.zeros(s.size), 1.0), rcond=None)[0]
        w = eq.reshape(*s.shp, s.nb).sum(axis=(0, 1))
        starts = [np.eye(s.size)[b] for b in range(s.nb)]  # bands of the first cell
        phs = [s.phases(q) for q in starts]
        if all(q is not None for q in phs):
            with quiet():
                out = I.calculate_equilibrium_state_averaged_isf(mat, ro(times), ro(s.dk))
            e = np.array([sum(w[b] * (phs[b] @ (q @ starts[b])) for b in range(s.nb)) for q in u])
            close(data(out), e, "equilibrium-averaged ISF", rtol=1e-6, scale=1.0)
            close(out["basis"][0].times, times, "times", rtol=1e-14, scale=float(np.max(times, initial=0)) or 1.0)
            for t, v in zip(times, data(out), strict=True):
                if t == 0:
                    close(v, 1.0, "ISF at zero time", rtol=1e-7)
        mix = sum(w[b] * starts[b] for b in range(s.nb))
        d = (s.frac - mix @ s.frac) / np.array(s.shp)
        tie = np.any(np.abs(np.abs(d - np.round(d)) - 0.5) < 1e-6)
        if c["commensurate"] or not tie:
            with quiet():
                out = I.calculate_equilibrium_initial_state_isf(mat, ro(times), ro(s.dk))
            phm = s.phases(mix)
            e = np.array([phm @ (q @ mix) for q in u])
            close(data(out), e, "equilibrium-start ISF", rtol=1e-6, scale=1.0)
    else:
        ctx.label("reducible")
    ctx.nt(s.nb > 1 and np.any(times > 0) and np.any(s.dk))


# ---------------------------------------------------------------- analytic models
@st.composite
def models(draw):
    return {
        "fast": draw(g.floats(0.5, 5)),
        "ratio": draw(g.floats(0.02, 1.4)),
        "a": draw(g.floats(0.1, 3.3)),
        "unit": draw(st.sampled_from([1.0, 1e9, 1e11])),
        "t": [draw(g.floats(0, 6)) for _ in range(draw(g.counts(1, 5, 40)))],
        "amp": [draw(g.floats(0, 1)) for _ in range(3)],
    }


def two_site(c, gk):
    """Response of hexagonal two-site hopping: slow site leaves with the slow rate, fast site with the fast rate, equilibrium start."""
    f, s = c["fast"], c["fast"] * c["ratio"]
    m = np.array([[-s, f * np.conj(gk)], [s * gk, -f]])
    p = np.array([f, s]) / (f + s)
    return np.array([np.sum(scipy.linalg.expm(m * t) @ p) for t in c["t"]]), np.linalg.eigvals(m).real


@case("C17", models(), quick=300)
def fey_models(c, ctx):
    """Fey model curves = matrix exponential of two-site hexagonal hopping along [110] and [112bar]; other models = their sums of exponentials. Non-trivial: positive time and unequal rates."""
    f, s = c["fast"] * c["unit"], c["fast"] * c["ratio"] * c["unit"]
    t = np.array(c["t"]) / c["unit"]
    g110 = (1 + 2 * np.cos(c["a"] / 2)) / 3
    g112 = (np.exp(1j * c["a"] / np.sqrt(3)) + 2 * np.exp(-1j * c["a"] / np.sqrt(12))) / 3
    e110, l110 = two_site(c, g110)
    e112, _ = two_site(c, g112)
    if abs(g110) > 1e-3:
        close(F.calculate_isf_fey_model_110(ro(t), f, s, a_dk=c["a"]), e110.real, "Fey curve [110]", rtol=1e-8, scale=1.0)
        out = F.get_isf_from_fey_model_fit_110(F.ISFFeyModelFit(f, s, c["a"]), ro(t))
        close(data(out), e110.real, "Fey ISF [110]", rtol=1e-8, scale=1.0)
        close(out["basis"][0].times, t, "times", rtol=0)
    if abs(g112) > 1e-3:
        close(F.calculate_isf_fey_model_112bar(ro(t), f, s, a_dk=c["a"]), e112.real, "Fey curve [112bar]", rtol=1e-8, scale=1.0)
        out = F.get_isf_from_fey_model_fit_112bar(F.ISFFeyModelFit(f, s, c["a"]), ro(t))
        close(data(out), e112.real, "Fey ISF [112bar]", rtol=1e-8, scale=1.0)
        close(out["basis"][1].times, t, "times", rtol=0)
    # free amplitudes: first belongs to the larger decay rate
    hi, lo = -np.min(l110), -np.max(l110)
    tau = np.array(c["t"])
    a0, a1, off = c["amp"]
    e4 = a0 * np.exp(-hi * tau) + a1 * np.exp(-lo * tau) + off
    close(F.calculate_isf_fey_4_variable_model_110(ro(t), f, a0, s, a1, off, a_dk=c["a"]), e4, "four variable Fey curve", rtol=1e-8, scale=1.0)
    out = F.get_isf_from_fey_4_variable_model_110(F.ISFFey4VariableFit(c["a"], f, a0, s, a1, off), ro(t))
    close(data(out), e4, "four variable Fey ISF", rtol=1e-8, scale=1.0)
    out = F.get_isf_from_4_variable_fit(F.ISF4VariableFit(f, a0, s, a1, off), ro(t))
    close(data(out), a0 * np.exp(-f * t) + a1 * np.exp(-s * t) + off, "double exponential", rtol=1e-12, scale=1.0)
    close(out["basis"][0].times, t, "times", rtol=0)
    ctx.nt(np.any(t > 0) and c["ratio"] != 1)
    ctx.label(f"unit{c['unit']:g}")


@st.composite
def noiseless(draw):
    # parameters near the guesses the fits start from: recovery is only claimed there
    return {
        "f": draw(g.floats(-0.1, 0.1)),
        "wide": draw(g.floats(-0.3, 0.7)),
        "ratio": draw(g.floats(0.2, 0.6)),
        "a": [draw(g.floats(0.1, 0.5)) for _ in range(2)],
        "off": draw(g.floats(0.01, 0.1)),
        "nt": draw(st.integers(30, 80)),
        "sign": draw(st.sampled_from(["abs", "real"])),
    }


def isf_of(t, d):
    b = ExplicitTimeBasis(ro(t))
    return {"basis": TupleBasis(b, b), "data": ro(np.asarray(d).astype(complex))}


@case("C17", noiseless(), quick=60)
def fits(c, ctx):
    """Fits of noiseless model curves reproduce the curve (two-rate Fey models: within 5e-3, they have nearly equivalent branches). Non-trivial: rates differ from the starting guess."""
    # double exponential
    f = 2e10 * 10 ** c["wide"]
    s = f * c["ratio"]
    t = np.linspace(0, 5 / s, c["nt"])
    curve = c["a"][0] * np.exp(-f * t) + c["a"][1] * np.exp(-s * t) + 1 - sum(c["a"])
    fit = F.fit_isf_to_double_exponential(isf_of(t, curve), measure=c["sign"])
    close(data(F.get_isf_from_4_variable_fit(fit, t)), curve, "double exponential fit", rtol=1e-4, scale=1.0)
    rates = sorted([(fit.fast_rate, fit.fast_amplitude), (fit.slow_rate, fit.slow_amplitude)])
    close(rates[1][0], f, "fast rate", rtol=0.05)
    close(rates[0][0], s, "slow rate", rtol=0.05)
    close(fit.baseline, 1 - sum(c["a"]), "baseline", rtol=0.01, scale=1.0)
    # Fey models
    for fn, ev, p0 in (
        (F.fit_isf_to_fey_model_110, F.calculate_isf_fey_model_110, 1.4e9),
        (F.fit_isf_to_fey_model_112bar, F.calculate_isf_fey_model_112bar, 2e10),
    ):
        f = p0 * 10 ** c["f"]
        s = f * c["ratio"]
        t = np.linspace(0, 8 / s, c["nt"])
        curve = ev(t, f, s, a_dk=2)
        fit = fn(isf_of(t, curve), measure=c["sign"])
        ensure(fit.a_dk == 2, "momentum transfer")
        close(ev(t, fit.fast_rate, fit.slow_rate, a_dk=2), curve, fn.__name__, rtol=5e-3, scale=1.0)
    f = 1.4e9 * 10 ** c["f"]
    s = f * c["ratio"]
    t = np.linspace(0, 8 / s, c["nt"])
    curve = F.calculate_isf_fey_4_variable_model_110(t, f, c["a"][0], s, c["a"][1] + 0.3, c["off"], a_dk=2)
    fit = F.fit_isf_to_fey_4_variable_model_110_fixed_ratio(isf_of(t, curve), c["ratio"], measure=c["sign"])
    close(data(F.get_isf_from_fey_4_variable_model_110(fit, t)), curve, "fixed-ratio fit", rtol=1e-3, scale=1.0)
    close(fit.slow_rate, c["ratio"] * fit.fast_rate, "ratio of the rates", rtol=1e-9)
    fit = F.fit_isf_to_fey_4_variable_model_110(isf_of(t, curve), measure=c["sign"])
    close(data(F.get_isf_from_fey_4_variable_model_110(fit, t)), curve, "four variable fit", rtol=5e-3, scale=1.0)
    ctx.nt(c["f"] != 0 and c["wide"] != 0)


@case("C17", models(), quick=150)
def extraction(c, ctx):
    """Fey rates extracted from a double exponential have its two decay rates. Non-trivial: always."""
    c = {**c, "a": 2.0, "ratio": 0.05 + 0.85 * (c["ratio"] - 0.02) / 1.38}
    unit = 1e10
    _, lam = two_site(c, (np.exp(2j / np.sqrt(3)) + 2 * np.exp(-2j / np.sqrt(12))) / 3)
    hi, lo = -np.min(lam) * unit, -np.max(lam) * unit
    with quiet():
        out = F.extract_fey_rate_from_4_variables_fit_112bar(F.ISF4VariableFit(hi, 0.4, lo, 0.5, 0.1))
    close(out.fast_rate, c["fast"] * unit, "fast rate", rtol=1e-3)
    close(out.slow_rate, c["fast"] * c["ratio"] * unit, "slow rate", rtol=1e-3)
    ctx.nt()

"""C24: trajectory and band summaries are the stated statistics of the states they summarise.

Everything is compared with sums over the dense position or momentum amplitudes of every state."""
from __future__ import annotations

import matplotlib as mpl

mpl.use("Agg")

import numpy as np
from hypothesis import strategies as st
from scipy.constants import Boltzmann, hbar

from checks import c10 as p10
from checks.c15 import quiet
from checks.c22 import MEASURES, SP, WP, check_ax, check_line, new_ax, size_of, tidy
from harness import gen as g
from harness.core import case, close, data, ensure, ro
from surface_potential_analysis.basis.basis import FundamentalBasis, FundamentalPositionBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.basis.time_basis_like import EvenlySpacedTimeBasis
from surface_potential_analysis.wavepacket.get_eigenstate import get_full_bloch_hamiltonian
from surface_potential_analysis.wavepacket.localization_operator import get_identity_operator

RT = 1e-8


@st.composite
def runs(draw, max_t=6):
    nd = draw(st.integers(1, 3))
    shp = draw(g.fshapes((nd, nd), max_n=7 if nd == 1 else 4, max_total=64, long=90, min_n=draw(st.sampled_from([1, 3, 3]))))
    return {
        "shp": shp,
        "b": draw(g.basis_nd(shp, False, lengths=True)),
        "lat": draw(g.lattices(nd)),
        "ax": draw(st.integers(0, nd - 1)),
        "m": draw(g.counts(1, 3, 24)),
        "n": draw(g.counts(1, max_t, 40)),
        "dt": draw(st.sampled_from([1e-12, 0.5, 3.0])),
        "step": draw(st.sampled_from([1, 1, 2, 3])),
        "off": draw(st.integers(-3, 4)),
        "s": draw(st.integers(0, 2**16)),
        "norm": draw(st.booleans()),
        "measure": draw(st.sampled_from(["real", "real", "abs"])),
        "own": draw(st.booleans()),
        "more": draw(st.booleans()),
        "q": draw(g.floats(-3, 3)),
    }


def run_of(c):
    """States of several trajectories at several times, and their position and momentum amplitudes."""
    dx = g.lattice(c["lat"])
    b = g.build(c["b"], dx)
    tb = EvenlySpacedTimeBasis(c["n"], c["step"], c["off"], c["dt"])
    rng = np.random.default_rng(c["s"])
    v = rng.normal(size=(c["m"], c["n"], b.n)) + 1j * rng.normal(size=(c["m"], c["n"], b.n))
    if c["norm"]:
        v /= np.linalg.norm(v, axis=-1, keepdims=True)
    x = v @ g.ref(c["b"])
    f = np.eye(1)
    for n in c["shp"]:
        f = np.kron(f, g.dft(n))
    states = {"basis": TupleBasis(TupleBasis(FundamentalBasis(c["m"]), tb), b), "data": ro(v.reshape(-1))}
    times = (c["off"] + c["step"] * np.arange(c["n"])) * c["dt"] / (c["n"] * c["step"])
    return dx, b, tb, states, x, x @ f.conj().T, times


def axes_of(c):
    """The summarised axis, optionally followed by axes which are not used."""
    extra = tuple(i for i in range(len(c["shp"])) if i != c["ax"]) if c["more"] else ()
    return (c["ax"], *extra)


def phase_average(c, x):
    i = c["ax"]
    ph = np.exp(2j * np.pi * g.gridpts(c["shp"])[i] / c["shp"][i])
    return np.abs(x) ** 2 @ ph


def check_lines(out, ax, x, want, measure, what, sc):
    check_ax(out, ax, what)
    lines = out[1].get_lines()
    ensure(len(lines) == len(want), f"{what}: {len(lines)} lines for {len(want)} series")
    for i, ln in enumerate(lines):
        close(np.asarray(ln.get_xdata()), x, f"{what}: times", RT, scale=float(np.abs(x).max()) + 1e-30)
        y = {"real": want[i], "abs": np.abs(want[i])}[measure]
        close(np.asarray(ln.get_ydata()), y, f"{what} {i}", RT, scale=sc)


def safe_angles(p):
    """True when every angle, and every step between them, is well away from a branch cut."""
    if np.any(np.abs(p) < 1e-6 * (np.abs(p).max() + 1e-30)) or np.abs(p).max() < 1e-9:
        return False
    a = np.angle(p)
    if p.shape[1] > 1:
        d = np.angle(p[:, 1:] / p[:, :-1])
        if np.any(np.abs(np.abs(d) - np.pi) < 1e-6):
            return False
    return bool(np.all(np.abs(np.abs(a) - np.pi) > 1e-6) and np.all(np.abs(a) > 1e-6))


@case("C24", runs(), quick=250)
@tidy
def expectations(c, ctx):
    """Mean position, mean momentum, unwrapped position and spread of every state of every trajectory. Non-trivial: several points along the axis and several times."""
    dx, b, tb, states, x, k, times = run_of(c)
    i = c["ax"]
    n = c["shp"][i]
    length = float(np.linalg.norm(dx[i]))
    ctx.nt(n > 1 and c["n"] > 1)
    ctx.label(f"{len(dx)}d", "trajectories" if c["m"] > 1 else "one trajectory")
    px, pk = np.abs(x) ** 2, np.abs(k) ** 2
    mean_x = px @ (g.gridpts(c["shp"])[i] * length / n)
    # |dk_i| times the index of the momentum
    dk = float(np.linalg.norm(g.recip(dx)[i]))
    mean_k = pk @ (g.gridk(c["shp"])[i] * dk)
    size = float(px.sum(axis=-1).max())
    axes = axes_of(c)
    o = {"ax": new_ax(c["own"]), "measure": c["measure"]}
    check_lines(SP.plot_averaged_occupation_1d_x(states, axes, **o), o["ax"], times, mean_x, c["measure"], "mean position", size * length)
    o = {"ax": new_ax(c["own"]), "measure": c["measure"]}
    check_lines(SP.plot_averaged_occupation_1d_k(states, axes, **o), o["ax"], times, mean_k, c["measure"], "mean momentum", size * dk * (n + 1))
    p = phase_average(c, x)
    unit = p / px.sum(axis=-1)
    ok = safe_angles(p)
    ctx.label("angles defined" if ok else "angle at a branch cut")
    wide = np.all(np.abs(unit) < 1 - 1e-4) and np.all(np.abs(unit) > 1e-4)
    if wide:
        spread = np.sqrt(-(length**2) / np.pi**2 * np.log(np.abs(unit)))
        o = {"ax": new_ax(c["own"]), "measure": c["measure"]}
        check_lines(SP.plot_spread_1d(states, axes, **o), o["ax"], times, spread, c["measure"], "spread", length * 10)
        ax = new_ax(c["own"])
        out = SP.plot_spread_against_k(states, axes, ax=ax)
        check_ax(out, ax, "spread against momentum")
        (ln,) = out[1].get_lines()
        close(np.asarray(ln.get_xdata()).real, mean_k.reshape(-1), "momenta of the spread", RT, scale=size * dk * (n + 1))
        close(np.asarray(ln.get_ydata()), spread.reshape(-1), "spread against momentum", RT, scale=length * 10)
    if not ok:
        return
    periodic = (np.angle(p) % (2 * np.pi)) * length / (2 * np.pi)
    if wide:
        ax = new_ax(c["own"])
        out = SP.plot_spread_against_x(states, axes, ax=ax)
        (ln,) = out[1].get_lines()
        close(np.asarray(ln.get_xdata()), periodic.reshape(-1), "positions of the spread", RT, scale=length)
        close(np.asarray(ln.get_ydata()), spread.reshape(-1), "spread against position", RT, scale=length * 10)
        one = SP.get_coherent_coordinates(states, i)
        ensure(tuple(one["basis"].shape) == (3, c["m"] * c["n"]), "basis of the coherent coordinates")
        norm2 = px.sum(axis=-1)
        want = np.array([periodic.reshape(-1) / length, (mean_k / norm2).reshape(-1) / dk, spread.reshape(-1) / length])
        close(np.asarray(one["data"]).reshape(3, -1) / np.array([[length], [dk], [length]]), want.astype(complex), "coherent coordinates", RT, scale=float(n + 1))
    restored = restore(p) * length / (2 * np.pi)
    o = {"ax": new_ax(c["own"]), "measure": c["measure"]}
    check_lines(SP.plot_periodic_averaged_occupation_1d_x(states, axes, **o), o["ax"], times, restored, c["measure"], "unwrapped position", size_of(restored) + length)
    # histograms of the same values
    vals = {"real": lambda q: q, "abs": np.abs}[c["measure"]]
    for fn, w in ((SP.plot_k_distribution_1d, mean_k), (SP.plot_x_distribution_1d, mean_x), (SP.plot_periodic_x_distribution_1d, periodic)):
        w = vals(w.reshape(-1))
        if w.size < 3 or np.ptp(w) < 1e-6 * (np.abs(w).max() + 1e-30):
            continue
        lo, hi = (w.mean() - 4 * w.std(), w.mean() + 4 * w.std()) if fn is SP.plot_k_distribution_1d else (w.min(), w.max())
        ax = new_ax(c["own"])
        out = fn(states, axes, ax=ax, measure=c["measure"])
        check_ax(out, ax, fn.__name__)
        bars = [q for q in out[1].patches]
        nbin = len(bars)
        ensure(nbin >= 11, f"{fn.__name__}: {nbin} bars")
        pos = (w - lo) / (hi - lo) * nbin
        inner = pos[(np.abs(pos) > 0.5) & (np.abs(pos - nbin) > 0.5)] if fn is not SP.plot_k_distribution_1d else pos
        if np.any(np.abs(inner - np.round(inner)) < 1e-6):
            continue
        # the bars of a fitted distribution reach four spreads to both sides; rarer values are not drawn
        pos = pos[(pos > -0.5) & (pos < nbin + 0.5)] if fn is not SP.plot_k_distribution_1d else pos[(pos >= 0) & (pos <= nbin)]
        count = np.bincount(np.clip(pos.astype(int), 0, nbin - 1), minlength=nbin)
        close([q.get_height() for q in bars], count / (pos.size * (hi - lo) / nbin), fn.__name__, 1e-6, scale=float(nbin / (hi - lo)))
        close([q.get_x() for q in bars], lo + (hi - lo) / nbin * np.arange(nbin), f"{fn.__name__}: bins", 1e-6, scale=float(np.abs(w).max() + hi - lo))


def restore(p):
    """Angles of each row, each within half a turn of the previous one."""
    out = np.angle(p)
    for row, q in zip(out, p):
        for j in range(1, len(row)):
            row[j] = row[j - 1] + np.angle(q[j] / q[j - 1])
    return out


@st.composite
def gaussians(draw):
    nd = draw(st.integers(1, 2))
    return {
        "n": [draw(st.integers(18, 26)) for _ in range(nd)],
        "lat": draw(g.lattices(nd, kinds=("cubic", "ortho"))),
        "x0": [draw(g.floats(0.05, 0.95)) for _ in range(nd)],
        "k0": [draw(st.integers(-3, 3)) for _ in range(nd)],
        "w": [draw(g.floats(0.09, 0.13)) for _ in range(nd)],
        "ax": draw(st.integers(0, nd - 1)),
        "amp": draw(st.sampled_from([1.0, 0.2, 30.0])),
        "to": draw(st.sampled_from(["F", "FM"])),
    }


@case("C24", gaussians(), quick=120)
def coherent_states(c, ctx):
    """The coordinates of a Gaussian wavepacket are its centre, wavevector and width. Non-trivial: a moving packet."""
    nd, shp = len(c["n"]), c["n"]
    dx = g.lattice(c["lat"])
    lens = np.linalg.norm(dx, axis=1)
    one = np.ones(1)
    for i in range(nd):
        f = np.arange(shp[i]) / shp[i]
        im = np.arange(-4, 5)[:, None]
        y = np.sum(np.exp(-((f - c["x0"][i] + im) ** 2) / (2 * c["w"][i] ** 2)), axis=0) * np.exp(2j * np.pi * c["k0"][i] * f)
        one = np.kron(one, y)
    to = {"t": "P", "of": [{"t": c["to"], "n": n} for n in shp]}
    b = g.build(to, dx)
    v = c["amp"] * one @ g.ref(to).conj().T
    states = {"basis": TupleBasis(TupleBasis(FundamentalBasis(1), EvenlySpacedTimeBasis(1, 1, 0, 1.0)), b), "data": ro(v)}
    ax = c["ax"]
    got = np.asarray(SP.get_coherent_coordinates(states, ax)["data"]).reshape(3).real
    turn = (got[0] / lens[ax] - c["x0"][ax] + 0.5) % 1 - 0.5
    close([turn], [0.0], "centre", 1e-6, scale=1.0)
    close([got[1] * lens[ax] / (2 * np.pi)], [float(c["k0"][ax])], "wavevector", 2e-3, scale=1.0)
    close([got[2] / lens[ax]], [c["w"][ax]], "width", 1e-5, scale=1.0)
    ctx.nt(c["k0"][ax] != 0)
    ctx.label(f"{nd}d", c["to"])


@case("C24", runs(max_t=9), quick=300)
@tidy
def displacement_statistics(c, ctx):
    """Mean square displacement, scattering function and drift at every time difference. Non-trivial: at least three times."""
    n, m = c["n"], c["m"]
    tb = EvenlySpacedTimeBasis(n, 1, 0, c["dt"])
    rng = np.random.default_rng(c["s"])
    unit = float(g.lattice(c["lat"]).max())
    x = rng.normal(size=(m, n)) * unit * 3
    kk = rng.uniform(0.5, 2, size=(m, n)) / unit
    ctx.nt(n > 2)
    ctx.label("trajectories" if m > 1 else "one trajectory")
    basis = TupleBasis(FundamentalBasis(m), tb)
    pos = {"basis": basis, "data": ro(x.reshape(-1))}
    ks = {"basis": basis, "data": ro(kk.reshape(-1))}
    q = c["q"] / unit
    msd, isf, drift = np.zeros((m, n)), np.zeros((m, n), complex), np.zeros((m, n))
    for r in range(m):
        for d in range(n):
            step = x[r, d:] - x[r, : n - d]
            msd[r, d] = np.mean(step**2)
            isf[r, d] = np.mean(np.exp(1j * q * step))
            drift[r, d] = np.mean(step) / np.mean(1 / kk[r, : n - d])
    out = SP.get_average_displacements(pos)
    times = np.arange(n) * c["dt"] / n
    close(data(out), msd.reshape(-1), "mean square displacement", RT, scale=unit**2 * 100)
    close(np.asarray(out["basis"][1].times), times, "time differences", RT)
    ensure(tuple(out["basis"].shape) == (m, n), "basis of the displacements")
    got = SP.get_average_isf(pos, q)
    close(np.asarray(got["basis"][1].times), times, "time differences of the scattering function", RT)
    z = data(got).astype(complex).reshape(m, n)
    close(z.real, isf.real, "scattering function", RT, scale=1.0)
    close(np.abs(z.imag), np.abs(isf.imag), "imaginary part of the scattering function", RT, scale=1.0)
    flip = np.sum(z.imag * isf.imag)
    close(z.imag * (1 if flip >= 0 else -1), isf.imag, "one sign convention", RT, scale=1.0)
    # one sign for every pair of times
    dr = data(SP.get_normalized_average_drift(pos, ks)).reshape(m, n)
    flip = np.sum(dr * drift)
    close(dr * (1 if flip >= 0 else -1), drift, "average displacement over average inverse momentum", RT, scale=size_of(drift) + 10.0)


@case("C24", runs(), quick=200)
@tidy
def displacement_plots(c, ctx):
    """Averages over trajectories of the displacement statistics of states. Non-trivial: several trajectories and times."""
    c = {**c, "off": 0}
    dx, b, tb, states, x, k, _ = run_of(c)
    m, n, i = c["m"], c["n"], c["ax"]
    p = phase_average(c, x)
    if not safe_angles(p):
        ctx.label("angle at a branch cut")
        return
    ctx.nt(m > 1 and n > 1)
    length = float(np.linalg.norm(dx[i]))
    r = restore(p) * length / (2 * np.pi)
    times = np.arange(n) * c["dt"] / n
    lag = lambda fn: np.array([[np.mean(fn(w[d:] - w[: n - d])) for d in range(n)] for w in r])  # noqa: E731
    msd = lag(np.square)
    sc = float((np.abs(r).max() + length) ** 2) * n
    for fn, args, want, size in (
        (SP.plot_average_displacement_1d_x, (), msd.mean(axis=0), sc),
        (SP.plot_average_isf_1d_x, (c["q"] / length,), np.abs(lag(lambda d: np.exp(1j * c["q"] / length * d))).mean(axis=0), 1.0),
    ):
        ax = new_ax(c["own"])
        out = fn(states, *args, axes_of(c), ax=ax)
        check_ax(out, ax, fn.__name__)
        close(np.asarray(out[2].get_xdata()), times, f"{fn.__name__}: times", RT, scale=c["dt"])
        close(np.asarray(out[2].get_ydata()), want, fn.__name__, RT, scale=size)
    if c["shp"][i] > 1:
        mean_k = np.abs(k) ** 2 @ (g.gridk(c["shp"])[i] * np.linalg.norm(g.recip(dx)[i]))
        if np.all(np.abs(mean_k) > 1e-3 * np.abs(mean_k).max()):
            inv = 1 / mean_k
            total = np.array([[inv[t, : n - d].mean() for d in range(n)] for t in range(m)])
            if np.all(np.abs(total) > 1e-3 * np.abs(inv).max()):
                want = np.abs(lag(lambda d: d) / total).mean(axis=0)
                out = SP.plot_average_drift_1d_x(states, axes_of(c), ax=new_ax(c["own"]))
                close(np.asarray(out[2].get_ydata()), want, "average drift", 1e-6, scale=size_of(want) + 1e-3 * length * np.abs(mean_k).max())


# ---------------------------------------------------------------- bands
@st.composite
def band_sets(draw):
    c = draw(p10.problems(fundamental=True))
    c["nb"] = min(c["nb"], 3)
    c["ax"] = draw(st.integers(0, len(c["m"]) - 1))
    c["temp"] = draw(st.sampled_from([1.0, 150.0, 600.0]))
    c["gap"] = draw(st.sampled_from([0.3, 1.0, 5.0]))
    c["base"] = draw(st.sampled_from([0.0, 0.0, 3.0, -4.0, 2000.0, -2000.0]))
    c["measure"] = draw(st.sampled_from(MEASURES[:1] + MEASURES[2:3]))
    c["own"] = draw(st.booleans())
    return c


@case("C24", band_sets(), quick=200)
@tidy
def band_summaries(c, ctx):
    """Thermal band occupation at any energy zero, mean band energies, total band occupation of a state, and effective masses of bands. Non-trivial: several bands and wavevectors."""
    a, b, lb, wp, u, d, e = p10.synth(c)
    nb, big, nd = c["nb"], tuple(c["big"]), len(c["big"])
    ctx.nt(nb > 1 and lb.n > 1)
    ctx.label(f"{nd}d", f"zero at {c['base']:g} kT")
    kt = Boltzmann * c["temp"]
    rel = e.real * c["gap"]
    wp = {**wp, "eigenvalue": ro(((rel + c["base"]) * kt).reshape(-1) + 0j)}
    w = np.exp(-(rel - rel.min()))
    occ = WP.get_wavepacket_band_occupation(wp, c["temp"])
    ensure(occ["basis"] == wp["basis"][0][0], "basis of the occupation")
    close(data(occ), (w.sum(axis=1) / w.sum()).astype(complex), "thermal band occupation", 1e-7, scale=1.0)
    # orthonormal states, so that the Bloch basis is one
    for q in range(lb.n):
        o, _ = np.linalg.qr(d[:, q].T)
        d[:, q] = o.T
    wp = dict(wp, data=ro(d.reshape(-1)))
    h = get_full_bloch_hamiltonian(wp)
    esc = (abs(c["base"]) + size_of(rel)) * kt
    mean = SP.get_average_band_energy(h)
    close(data(mean), (rel.mean(axis=1) + c["base"]) * kt, "average band energy", RT, scale=esc)
    ensure(mean["basis"].n == nb, "basis of the average energy")
    rng = np.random.default_rng(c["s"] + 1)
    amp = rng.normal(size=nb * lb.n) + 1j * rng.normal(size=nb * lb.n)
    rows = np.asarray(h["basis"][1].__into_fundamental__(np.eye(nb * lb.n, dtype=complex), axis=1))
    pos = TupleBasis(*[FundamentalPositionBasis(a[i] * big[i], big[i] * c["m"][i]) for i in range(nd)])
    state = {"basis": pos, "data": ro(amp @ rows)}
    total = (np.abs(amp) ** 2).reshape(nb, -1).sum(axis=1)
    o = {"ax": new_ax(c["own"]), "measure": c["measure"]}
    out = SP.plot_total_band_occupation_against_energy(h, state, **o)
    energies = (rel.mean(axis=1) + c["base"]) * kt
    check_line(out, o["ax"], energies, total, c["measure"], "occupation against energy", float(total.sum()), False)
    marker = [ln for ln in out[1].get_lines() if ln is not out[2]]
    ensure(len(marker) == 1, "one mark at the average energy")
    close(np.unique(np.asarray(marker[0].get_xdata())), [energies @ total / total.sum()], "average energy", RT, scale=esc)
    # effective masses: the same from the energies and from (trivially) localised states
    ax = c["ax"]
    if big[ax] > 1:
        f = np.eye(1)
        for n in big:
            f = np.kron(f, g.dft(n))
        at = np.ravel_multi_index(tuple(int(q == ax) for q in range(nd)), big)
        hop = np.abs((rel @ f.T)[:, at] / np.sqrt(lb.n)) * kt
        if np.all(hop > 1e-6 * esc) and abs(c["base"]) < 10:
            length = np.linalg.norm(a[ax])
            mass = hbar**2 * (2 * np.arange(nb) + 1) / length**2 / hop
            close(data(WP.get_wavepacket_transformed_energy_effective_mass(wp, ax)), mass, "effective mass", 1e-7, scale=size_of(mass))
            got = WP.get_wavepacket_localized_effective_mass(wp, get_identity_operator(wp["basis"][0]), ax)
            close(data(got), mass, "effective mass of localised states", 1e-7, scale=size_of(mass))


@st.composite
def free(draw):
    return {"N": draw(st.integers(13, 31)), "n": draw(st.integers(9, 14)), "nb": draw(st.integers(1, 3)), "mass": draw(g.floats(0.2, 5)), "len": draw(st.sampled_from([1.0, 2.5, 3e-10])), "pot": draw(st.booleans())}


@case("C24", free(), quick=60)
def free_particle_mass(c, ctx):
    """The effective mass of every band of a free particle is its mass, up to the sampling of the wavevectors. Non-trivial: several bands."""
    N, n, nb, length = c["N"], c["n"], c["nb"], c["len"]
    b = g.build({"t": "P", "of": [{"t": "FM", "n": n}]}, np.array([[length]]))
    lb = g.build({"t": "P", "of": [{"t": "FM", "n": N}]})
    m = c["mass"] * hbar**2 / length**2
    d, e = np.zeros((nb, N, n)), np.zeros((nb, N))
    for i, q in enumerate(g.freqs(N) / N):
        en = (hbar * 2 * np.pi * (g.freqs(n) + q) / length) ** 2 / (2 * m)
        o = np.argsort(en, kind="stable")[:nb]
        d[np.arange(nb), i, o] = 1
        e[:, i] = en[o]
    wp = {"basis": TupleBasis(TupleBasis(FundamentalBasis(nb), lb), b), "data": ro(d.reshape(-1) + 0j), "eigenvalue": ro(e.reshape(-1) + 0j)}
    with quiet():
        ident = get_identity_operator(wp["basis"][0])
        for what, w in (("effective mass", WP.get_wavepacket_transformed_energy_effective_mass(wp)), ("localised effective mass", WP.get_wavepacket_localized_effective_mass(wp, ident))):
            got = data(w) / m
            ensure(np.all(np.abs(got - 1) < 6 / N**1.5 + 3 * nb / N**2), f"{what} of a free particle over its mass: {got}")
    ctx.nt(nb > 1)
    ctx.label(f"{nb} bands")


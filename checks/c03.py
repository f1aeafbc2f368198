"""C03: wrapping, folding and paths stay lattice-equivalent. Tolerance 1e-8 relative to the coordinates."""
from __future__ import annotations

import itertools

import numpy as np
from hypothesis import strategies as st

from harness import gen as g
from harness.core import case, close, ensure, same_ints
from surface_potential_analysis.basis.util import BasisUtil
from surface_potential_analysis.stacked_basis.brillouin_zone import (
    decrement_brillouin_zone,
    decrement_brillouin_zone_3d,
    get_all_brag_point,
    get_all_brag_point_index,
    get_bragg_plane_distance,
)
from surface_potential_analysis.stacked_basis.util import (
    calculate_cumulative_k_distances_along_path,
    calculate_cumulative_x_distances_along_path,
    calculate_distances_along_path,
    get_fundamental_stacked_k_points_projected_along_axes,
    get_fundamental_stacked_x_points_projected_along_axes,
    get_k_coordinates_in_axes,
    get_max_idx,
    get_x_coordinates_in_axes,
    project_k_points_along_axes,
    project_x_points_along_axes,
    wrap_index_around_origin,
    wrap_x_point_around_origin,
)


@st.composite
def cells(draw, ndim=(1, 3), max_n=8, kinds=("F", "FM"), min_n=1):
    nd = draw(st.integers(*ndim))
    shp = draw(g.fshapes((nd, nd), max_n=max_n, max_total=150, min_n=min_n, long=260))
    t = draw(st.sampled_from(kinds))
    return {"b": {"t": "P", "of": [{"t": t, "n": n} for n in shp]}, "l": draw(g.lattices(nd)), "shp": shp}


def cell(c):
    a = g.lattice(c["l"])
    return g.build(c["b"], a), a, np.array(c["shp"])


@st.composite
def wrapped_indices(draw):
    c = draw(cells())
    nd = len(c["shp"])
    m = draw(st.integers(1, 5))
    c["idx"] = [draw(st.lists(st.integers(-40, 40), min_size=m, max_size=m)) for _ in range(nd)]
    c["o"] = draw(st.one_of(st.none(), st.lists(st.integers(-20, 20), min_size=nd, max_size=nd), st.integers(0, int(np.prod(c["shp"])) - 1)))
    c["axes"] = draw(st.one_of(st.none(), st.lists(st.integers(0, nd - 1), unique=True, min_size=1)))
    c["kind"] = draw(st.sampled_from(["array", "scalar", "grid"]))
    c["t"] = draw(st.lists(st.integers(-3, 3), min_size=nd, max_size=nd))
    return c


@case("C03", wrapped_indices(), quick=800)
def wrap_indices(c, ctx):
    """Indices about an origin (tuple, flat or default; some axes only); non-trivial: some index lies outside the cell."""
    b, a, n = cell(c)
    idx = np.array(c["idx"])
    if c["kind"] == "scalar":
        idx = idx[:, 0]
    elif c["kind"] == "grid":
        idx = idx.reshape(len(n), 1, -1)
    ctx.nt(np.any(np.abs(idx.reshape(len(n), -1)) >= n[:, None]))
    ctx.label("axes" if c["axes"] else "all axes", "origin" if c["o"] is not None else "no origin")
    o = c["o"]
    origin = None if o is None else (o if isinstance(o, int) else tuple(o))
    kw = {} if c["axes"] is None else {"axes": tuple(c["axes"])}
    arg = tuple(int(q) for q in idx) if c["kind"] == "scalar" else tuple(idx)
    out = wrap_index_around_origin(b, arg, origin=origin, **kw)
    o_st = np.zeros(len(n), int) if o is None else (np.array(np.unravel_index(o, tuple(n))) if isinstance(o, int) else np.array(o))
    for ax in range(len(n)):
        got, was = np.asarray(out[ax]), idx[ax]
        if c["axes"] is not None and ax not in c["axes"]:
            same_ints(got, was, "untouched axis")
            continue
        ensure(got.shape == np.asarray(was).shape, "wrapped shape")
        ensure(np.all(got == np.rint(got)), "integer indices stay integers")
        ensure(np.all((got - was) % n[ax] == 0), f"index moved by a fraction of the period: {was} -> {got}")
        d = got - o_st[ax]
        ensure(np.all((2 * d >= -n[ax]) & (2 * d <= n[ax])), f"not within half a period: {d} of {n[ax]}")
    again = wrap_index_around_origin(b, tuple(out), origin=origin, **kw)
    same_ints(np.array(again), np.array(out), "idempotent")
    moved = tuple(q + t * nn for q, t, nn in zip(arg, c["t"], n))
    if c["axes"] is None:
        same_ints(np.array(wrap_index_around_origin(b, moved, origin=origin)), np.array(out), "translation invariant")


@st.composite
def wrapped_points(draw):
    c = draw(cells())
    nd = len(c["shp"])
    m = draw(st.integers(1, 5))
    c["f"] = [draw(st.lists(g.floats(-7.3, 7.9), min_size=m, max_size=m)) for _ in range(nd)]
    c["o"] = draw(st.one_of(st.none(), st.lists(g.floats(-2.1, 2.3), min_size=nd, max_size=nd)))
    c["t"] = draw(st.lists(st.integers(-3, 3), min_size=nd, max_size=nd))
    return c


@case("C03", wrapped_points(), quick=600)
def wrap_positions(c, ctx):
    """Cartesian points about an origin in any lattice; non-trivial: non-orthogonal lattice and a point outside the cell."""
    b, a, n = cell(c)
    f = np.array(c["f"])
    o = np.zeros(len(n)) if c["o"] is None else np.array(c["o"])
    ctx.nt(c["l"]["kind"] not in ("cubic", "ortho") and np.any(np.abs(f - o[:, None]) > 0.5))
    ctx.label(c["l"]["kind"])
    x = a.T @ f
    origin = None if c["o"] is None else a.T @ o
    out = wrap_x_point_around_origin(b, x, origin)
    ensure(out.shape == x.shape, "wrapped shape")
    fo = np.linalg.inv(a).T @ out
    d = fo - f
    close(d, np.rint(d), "moved by whole lattice vectors", 1e-8, atol=1e-8)
    ensure(np.all(np.abs(fo - o[:, None]) <= 0.5 + 1e-8), f"not within half a period of the origin: {fo - o[:, None]}")
    moved = wrap_x_point_around_origin(b, x + a.T @ np.array(c["t"])[:, None], origin)
    q = np.linalg.inv(a).T @ (moved - out)
    close(q, np.rint(q), "translates are equivalent", 1e-8, atol=1e-7)
    edge = np.abs(np.abs(fo - o[:, None]) - 0.5) < 1e-6
    ensure(np.all((np.abs(q) < 1e-6) | edge), "translation invariant away from the cell boundary")


@st.composite
def paths(draw):
    c = draw(cells())
    nd = len(c["shp"])
    m = draw(st.integers(2, 6))
    c["path"] = [draw(st.lists(st.integers(-9, 15), min_size=m, max_size=m)) for _ in range(nd)]
    c["wrap"] = draw(st.booleans())
    return c


@case("C03", paths(), quick=600)
def path_distances(c, ctx):
    """Cumulative real and reciprocal distances along index paths, optionally wrapped; non-trivial: a step crosses the cell when wrapping, or a skew lattice."""
    b, a, n = cell(c)
    p = np.array(c["path"])
    steps = p[:, 1:] - p[:, :-1]
    ctx.nt((c["wrap"] and np.any(2 * np.abs(steps) > n[:, None])) or (len(n) > 1 and c["l"]["kind"] in ("hex", "skew", "rot")))
    ctx.label("wrap" if c["wrap"] else "plain", "%dd" % len(n))
    d = calculate_distances_along_path(b, p, wrap_distances=c["wrap"])
    ensure(d.shape == steps.shape, "one distance per step and axis")
    if not c["wrap"]:
        ensure(np.array_equal(d, steps) or np.array_equal(d, -steps), "index distances")
    else:
        ensure(np.all((d - steps) % n[:, None] == 0) or np.all((d + steps) % n[:, None] == 0), "wrapped distance is equivalent")
        ensure(np.all(2 * np.abs(d) <= n[:, None]), "wrapped distance at most half a period")
    for f, vec in ((calculate_cumulative_x_distances_along_path, a / n[:, None]), (calculate_cumulative_k_distances_along_path, g.recip(a))):
        out = f(b, p, wrap_distances=c["wrap"])
        ensure(out.shape == (p.shape[1],), f"{f.__name__}: one distance per path point, got {out.shape}")
        ensure(out[0] == 0, "starts at zero")
        inc = np.diff(out)
        sc = float(np.abs(vec).sum() * 30)
        ensure(np.all(inc >= -1e-9 * sc), "never decreases")
        for i in range(steps.shape[1]):
            opts = []
            for ax in range(len(n)):
                s = int(steps[ax, i])
                if c["wrap"]:
                    r = (s + n[ax] // 2) % n[ax] - n[ax] // 2
                    opts.append([r, -r] if 2 * abs(r) == n[ax] else [r])
                else:
                    opts.append([s])
            lens = [np.linalg.norm(vec.T @ np.array(o)) for o in itertools.product(*opts)]
            ensure(min(abs(q - inc[i]) for q in lens) < 1e-9 * sc, f"{f.__name__}: step {i} length {inc[i]} not one of {lens}")


@st.composite
def projections(draw):
    c = draw(cells(max_n=5))
    nd = len(c["shp"])
    c["axes"] = draw(st.lists(st.integers(0, nd - 1), unique=True, min_size=1, max_size=nd))
    c["s"] = draw(st.integers(0, 999))
    c["m"] = draw(st.integers(1, 4))
    c["idx"] = [draw(st.integers(0, n - 1)) for i, n in enumerate(c["shp"]) if i not in c["axes"]] if draw(st.booleans()) else None
    return c


def gram_schmidt(v):
    out = []
    for x in v:
        for y in out:
            x = x - y * (y @ x)
        out.append(x / np.linalg.norm(x))
    return np.array(out)


@case("C03", projections(), quick=500)
def projected_points(c, ctx):
    """Points projected on a set of axes, and coordinates of a slice in those axes; non-trivial: at least two axes in a non-orthogonal lattice."""
    b, a, n = cell(c)
    axes = tuple(c["axes"])
    ctx.nt(len(axes) > 1 and c["l"]["kind"] in ("hex", "skew", "rot"))
    ctx.label("%d of %d axes" % (len(axes), len(n)), "sorted" if list(axes) == sorted(axes) else "unsorted")
    u = BasisUtil(b)
    rng = np.random.default_rng(c["s"])
    rest = [i for i in range(len(n)) if i not in axes]
    at = [0] * len(rest) if c["idx"] is None else c["idx"]
    for project, fundamental, coords, vec, pts in (
        (project_x_points_along_axes, get_fundamental_stacked_x_points_projected_along_axes, get_x_coordinates_in_axes, a, u.fundamental_x_points_stacked),
        (project_k_points_along_axes, get_fundamental_stacked_k_points_projected_along_axes, get_k_coordinates_in_axes, g.recip(a), u.fundamental_stacked_k_points),
    ):
        e = gram_schmidt([vec[ax] for ax in axes])
        sc = float(np.abs(vec).sum() * 10)
        w = vec.T @ rng.uniform(-2, 2, size=(len(n), c["m"]))
        close(project(w, b, axes), e @ w, project.__name__, 1e-9, scale=sc, atol=0)
        inplane = np.array([vec[ax] for ax in axes]).T @ rng.uniform(-2, 2, size=(len(axes), 3))
        pr = project(inplane, b, axes)
        for i, j in itertools.combinations(range(3), 2):
            close(np.linalg.norm(pr[:, i] - pr[:, j]), np.linalg.norm(inplane[:, i] - inplane[:, j]), "distances in the plane are kept", 1e-8, atol=1e-9 * sc)
        full = e @ pts
        close(fundamental(b, axes), full, fundamental.__name__, 1e-9, scale=sc, atol=0)
        grid = full.reshape(len(axes), *n)
        idx = None if c["idx"] is None else tuple(at)
        out = coords(b, axes, idx)
        exp = np.zeros((len(axes), *[n[ax] for ax in axes]))
        for pos in itertools.product(*[range(n[ax]) for ax in axes]):
            fl = [0] * len(n)
            for ax, q in zip(axes, pos):
                fl[ax] = q
            for ax, q in zip(rest, at):
                fl[ax] = q
            exp[(slice(None), *pos)] = grid[(slice(None), *fl)]
        close(out, exp, coords.__name__, 1e-9, scale=sc, atol=0)


@case("C03", projections(), quick=200)
def index_of_maximum(c, ctx):
    """Slice index through the largest value; non-trivial: more than one hidden axis value."""
    b, a, n = cell(c)
    v = np.random.default_rng(c["s"]).normal(size=int(n.prod())) * (1 + 1j)
    rest = [i for i in range(len(n)) if i not in c["axes"]]
    ctx.nt(any(n[i] > 1 for i in rest))
    best = np.unravel_index(int(np.argmax(np.abs(v))), tuple(n))
    same_ints(np.array(get_max_idx(b, v, tuple(c["axes"])), dtype=int).reshape(-1), np.array([best[i] for i in rest], dtype=int), "index of the maximum")


@st.composite
def foldings(draw):
    c = draw(cells(ndim=(1, 3), max_n=6))
    nd = len(c["shp"])
    m = draw(st.integers(1, 6))
    c["idx"] = [draw(st.lists(st.integers(-2 * n, 2 * n), min_size=m, max_size=m)) for n in c["shp"]]
    c["kind"] = draw(st.sampled_from(["array", "scalar", "grid"]))
    return c


@case("C03", foldings(), quick=500)
def brillouin_zone_folding(c, ctx):
    """One folding step of momentum indices; non-trivial: some momentum lies outside the first zone."""
    b, a, n = cell(c)
    idx = np.array(c["idx"])
    dk = g.recip(a)
    gk = dk * n[:, None]
    arg = tuple(int(q) for q in idx[:, 0]) if c["kind"] == "scalar" else (tuple(idx.reshape(len(n), 1, -1)) if c["kind"] == "grid" else tuple(idx))
    if c["kind"] == "scalar":
        idx = idx[:, :1]
    ctx.label("%dd" % len(n), c["kind"])
    fns = [decrement_brillouin_zone] + ([decrement_brillouin_zone_3d] if len(n) == 3 else [])
    k = dk.T @ idx
    near = np.array(list(itertools.product((-1, 0, 1), repeat=len(n)))).T
    others = np.linalg.norm(k[:, :, None] - (gk.T @ near)[:, None, :], axis=0)
    here = np.linalg.norm(k, axis=0)
    unit = np.min(np.linalg.norm(dk, axis=1))
    for f in fns:
        out = f(b, arg)
        o = np.array([np.asarray(q) for q in out])
        ensure(o.shape == np.array(arg).shape, f"{f.__name__}: shape kept")
        o = o.reshape(len(n), -1)
        sh = o - idx
        ensure(np.all(sh % n[:, None] == 0), "moved by a reciprocal lattice vector")
        ensure(np.all(np.abs(sh // n[:, None]) <= 1), "moved by a nearest reciprocal lattice vector")
        new = np.linalg.norm(dk.T @ o, axis=0)
        for j in range(idx.shape[1]):
            outside = others[:, :][j].min() < here[j] - 1e-4 * unit
            ctx.nt(outside)
            if outside:
                ensure(new[j] < here[j] - 1e-9 * unit, f"{f.__name__}: momentum {idx[:, j]} outside the first zone was not shortened")
            elif others[j].min() > here[j] - 1e-7 * unit:
                ensure(np.all(sh[:, j] == 0), f"{f.__name__}: momentum {idx[:, j]} inside the first zone was moved")
    cur = tuple(idx)
    for _ in range(600):
        nxt = decrement_brillouin_zone(b, cur)
        if np.array_equal(np.array(nxt), np.array(cur)):
            break
        cur = nxt
    else:
        ensure(False, "folding does not terminate")
    last = dk.T @ np.array(cur)
    best = np.linalg.norm(last[:, :, None] - (gk.T @ near)[:, None, :], axis=0).min(axis=1)
    ensure(np.all(np.linalg.norm(last, axis=0) <= best + 1e-4 * unit), "repeated folding ends in the first zone")


@case("C03", cells(max_n=6), quick=200)
def bragg_points(c, ctx):
    """Bragg points, their indices and planes; non-trivial: two or more dimensions."""
    b, a, n = cell(c)
    dk = g.recip(a)
    ctx.nt(len(n) > 1)
    for bands in (1, 2):
        w = 2 * bands + 1
        grid = g.gridk([w] * len(n))
        pts = np.array(get_all_brag_point(b, n_bands=bands))
        ind = np.array(get_all_brag_point_index(b, n_bands=bands))
        same_ints(ind, grid * n[:, None], "Bragg point indices")
        close(pts, dk.T @ (grid * n[:, None]), "Bragg points", scale=float(np.abs(dk).sum() * 10 * n.max()), atol=0)
        # the plane of a Bragg point contains its midpoint and is equidistant from the point and the origin
        p = pts[:, 1]
        nn = np.linalg.norm(p)
        rng = np.random.default_rng(c["l"]["s"])
        q = rng.normal(size=(len(n), 4)) * nn
        dist = np.asarray(get_bragg_plane_distance(tuple(p), q))
        exp = (np.linalg.norm(q, axis=0) ** 2 - np.linalg.norm(q - p[:, None], axis=0) ** 2) / (2 * nn)
        close(dist, exp, "Bragg plane distance", 1e-8, scale=10 * nn)

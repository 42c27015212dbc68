import numpy as np
import pandas as pd
from hypothesis import strategies as st

from lightcurvelynx.obstable.obs_table import ObsTable

from .. import sky, surveys
from ..core import check, describe, fail, raises, require, same
from ..gen import fd, gr, lists

describe(
    "C09",
    "Cases are survey tables (fields anywhere, repeated pointings, unsorted and repeated times, any row index) with and "
    "without footprints, and batches of queries with and without time limits; non-trivial when some but not all rows match.",
    [
        "rows within 1e-7 degrees of the search radius, or within 0.3 % of a footprint's edge, may or may not be returned",
        "a search with a footprint also applies the search radius, as documented in the code",
    ],
)

limit = st.one_of(st.none(), gr(0, 40, 160))
query_st = fd({"pos": st.one_of(surveys.row_st, surveys.row_st, st.just(["row", 0]), st.integers(0, 30).map(lambda i: ["row", i]))})


def position_of(q, spec, data):
    p = q["pos"]
    if p[0] == "row":
        if len(data["ra"]):
            i = p[1] % len(data["ra"])
            return float(data["ra"][i]), float(data["dec"][i])
        return tuple(float(x) for x in spec["center"])
    if p[0] == "at":
        return float(p[1]), float(p[2])
    a, d = sky.offset(np.float64(spec["center"][0]), np.float64(spec["center"][1]), p[0], p[1])
    return float(a), float(d)


def check_indices(got, must, may, what):
    got = [int(i) for i in got]
    require(len(set(got)) == len(got), f"{what}: rows returned twice {sorted(got)}")
    if not (must <= set(got) <= must | may):
        fail(f"{what}: rows {sorted(got)}, expected {sorted(must)} (undecided {sorted(may)})")


def build(case):
    spec = case["survey"]
    data = surveys.columns(spec)
    kw = {}
    rot = None
    if case["foot"] is not None:
        kw["detector_footprint"] = surveys.footprint(case["foot"])
        if spec["kind"] in ("base", "fake", "fake_const"):
            kw["pixel_scale"] = 0.3
        if case["foot"]["rot"]:
            rot = np.random.default_rng([spec["seed"], 2]).choice([0.0, 30.0, 90.0, -45.0, 200.0, 77.5], size=len(data["ra"]))
            data = dict(data, rotation=rot)
    if case["default_radius"] is not None:
        kw["radius"] = case["default_radius"]
    return surveys.make(spec, data, **kw), data, rot


RADII = [0.0, 0.3, 1.0, 1.75, 3.0, 8.0, 45.0, 90.0]
BASE = fd({
    "survey": surveys.spec_st(),
    "foot": st.one_of(st.none(), surveys.foot_st),
    "default_radius": st.sampled_from([0.5, 2.0, 30.0]),
    "radius": st.one_of(st.none(), st.sampled_from(RADII)),
    "queries": lists(query_st, 1, 6),
    "t_min": st.lists(limit, min_size=6, max_size=6),
    "t_max": st.lists(limit, min_size=6, max_size=6),
    "tform": st.sampled_from(["none", "scalar", "scalar", "array", "min_only", "max_only", "mixed"]),
    "form": st.sampled_from(["array", "list", "series"]),
})


def limits(case, k):
    """Per-query limits and the arguments to pass."""
    lo = [x if x is not None else -1.0 for x in case["t_min"][:k]]
    hi = [x if x is not None else 99.0 for x in case["t_max"][:k]]
    f = case["tform"]
    if f == "none":
        return [None] * k, [None] * k, {}
    if f == "scalar":
        return [lo[0]] * k, [hi[0]] * k, {"t_min": lo[0], "t_max": hi[0]}
    if f == "array":
        return lo, hi, {"t_min": np.array(lo), "t_max": np.array(hi)}
    if f == "min_only":
        return lo, [None] * k, {"t_min": np.array(lo)}
    if f == "max_only":
        return [None] * k, [hi[0]] * k, {"t_max": hi[0]}
    return [lo[0]] * k, hi, {"t_min": lo[0], "t_max": np.array(hi)}


@check("C09", BASE, quick=1200)
def searches(case, rec):
    table, data, rot = build(case)
    spec = case["survey"]
    pos = [position_of(q, spec, data) for q in case["queries"]]
    k = len(pos)
    r = case["radius"] if case["radius"] is not None else case["default_radius"]
    lo, hi, kw = limits(case, k)
    if case["radius"] is not None:
        kw["radius"] = case["radius"]
    qa, qd = [p[0] for p in pos], [p[1] for p in pos]
    if case["form"] == "array":
        a, d = np.array(qa), np.array(qd)
    elif case["form"] == "series":
        a, d = pd.Series(qa, index=np.arange(k)[::-1]).to_numpy(), np.array(qd)
    else:
        a, d = qa, qd
    got = table.range_search(a, d, **kw)
    require(len(got) == k, f"{len(got)} results for {k} queries")
    seen = table.is_observed(a, d, **kw)
    require(len(seen) == k, "one flag per query")
    total = 0
    for i in range(k):
        must, may = surveys.search(data, qa[i], qd[i], r, lo[i], hi[i], case["foot"], rot)
        check_indices(got[i], must, may, f"query {i}")
        require(bool(seen[i]) == (len(got[i]) > 0), f"is_observed of query {i}")
        kw1 = {n: (np.atleast_1d(v)[min(i, np.size(v) - 1)] if n.startswith("t_") else v) for n, v in kw.items()}
        single = table.range_search(qa[i], qd[i], **kw1)
        require(sorted(int(x) for x in single) == sorted(int(x) for x in got[i]), f"query {i}: batch and single search differ")
        require(bool(table.is_observed(qa[i], qd[i], **kw1)) == bool(len(single)), f"is_observed of single query {i}")
        total += len(must)
        if 0 < len(must) < len(data["ra"]):
            rec.nontrivial()
        # look-up of the same rows
        obs = table.get_observations(qa[i], qd[i], **kw1)
        order = np.array([int(x) for x in single], dtype=int)
        for c in ("time", "ra", "dec", "filter", "tag"):
            require(isinstance(obs[c], np.ndarray), "arrays are returned")
            same(obs[c], data[c][order], f"query {i}, column {c}")
        require(set(obs) == set(table.columns), "all columns by default")
        raw = surveys.RAW[spec["kind"]].get("time", "time")
        some = table.get_observations(qa[i], qd[i], cols=["dec", raw], **kw1)
        require(list(some) == ["dec", raw], "requested columns only")
        same(some[raw], data["time"][order], "column by its original name")
        one = table.get_observations(qa[i], qd[i], cols="tag", **kw1)
        require(list(one) == ["tag"], "one column")
        same(one["tag"], data["tag"][order], "single column")
    if case["foot"] is not None:
        rec.label("footprint " + case["foot"]["shape"], "rotated" if case["foot"]["rot"] else "unrotated")
        table.clear_detector_footprint()
        got = table.range_search(a, d, **kw)
        for i in range(k):
            must, may = surveys.search(data, qa[i], qd[i], r, lo[i], hi[i])
            check_indices(got[i], must, may, f"query {i} without the footprint")
    rec.label(case["tform"], spec["kind"], "hits" if total else "no hits")


@check(
    "C09",
    fd({"seed": st.integers(0, 10**6), "n": st.sampled_from([200, 30, 600, 1500, 77]), "radius": st.sampled_from([1.75, 0.05, 10.0, 60.0, 120.0]),
        "k": st.sampled_from([3, 1, 12, 25, 8, 40, 5]), "clusters": st.booleans(), "t0": st.sampled_from([60000.0, 0.0, 2460000.5]), "tform": st.sampled_from(["array", "scalar", "none", "min", "max"]),
        "form": st.sampled_from(["array", "list"])}),
    quick=150,
)
def edges_of_the_search_region(case, rec):
    """Many pointings just inside and just outside the radius, and times just inside and outside the limits."""
    g = np.random.default_rng([case["seed"], 77])
    n, r, k = case["n"], case["radius"], case["k"]
    qa = g.uniform(0, 360, k)
    qd = np.degrees(np.arcsin(g.uniform(-1, 1, k)))
    if g.random() < 0.3:
        qa[0], qd[0] = g.choice([0.0, 359.9999, 180.0]), g.choice([90.0, -90.0, 0.0, 89.9])
    who = g.integers(0, k, n)
    rel = 10.0 ** g.uniform(-6, -2, n) * g.choice([-1, 1], n)
    rho = r * (1 + rel)
    th = g.uniform(0, 2 * np.pi, n)
    if case["clusters"]:
        # tight groups of pointings that straddle the edge
        group = np.arange(n) // 25
        who = g.integers(0, k, n)[group]
        th = th[group] + g.normal(0, 1e-7, n)
        rel = g.choice([-1, 1], n) * 10.0 ** g.uniform(-6, -4.3, n)
        rel = np.where(np.abs(rel) * r < 1e-6, np.sign(rel) * 1e-6 / r, rel)
        rel = np.where(g.random(n // 25 + 1)[group] < 0.4, np.abs(rel), np.where(g.random(n) < 0.2, rel, -np.abs(rel)))
        rho = r * (1 + rel)
    ra, dec = np.empty(n), np.empty(n)
    for i in range(n):
        ra[i], dec[i] = sky.offset(np.float64(qa[who[i]]), np.float64(qd[who[i]]), rho[i] * np.cos(th[i]), rho[i] * np.sin(th[i]))
    step = g.choice([1e-4, 1e-3, 0.25])
    t = case["t0"] + g.integers(-6, 7, n) * step + 10.0 * who
    t = np.round(t / step) * step
    lo = np.round((case["t0"] + 10.0 * np.arange(k) + g.integers(-6, 1, k) * step) / step) * step
    hi = np.round((case["t0"] + 10.0 * np.arange(k) + g.integers(0, 7, k) * step) / step) * step
    kw = {}
    if case["tform"] in ("array", "min"):
        kw["t_min"] = lo if case["form"] == "array" else list(lo)
    if case["tform"] in ("array", "max"):
        kw["t_max"] = hi if case["form"] == "array" else list(hi)
    if case["tform"] == "scalar":
        lo, hi = np.full(k, lo[0]), np.full(k, hi[-1])
        kw = {"t_min": float(lo[0]), "t_max": float(hi[0])}
    table = ObsTable({"ra": ra, "dec": dec, "time": t}, radius=r if g.random() < 0.5 else 7.7)
    got = table.range_search(qa if case["form"] == "array" else list(qa), qd if case["form"] == "array" else list(qd), radius=r, **kw)
    seen = table.is_observed(qa, qd, radius=r, **kw)
    some = 0
    for i in range(k):
        sep = sky.separation(ra, dec, qa[i], qd[i])
        ok = np.ones(n, dtype=bool)
        if "t_min" in kw:
            ok &= t >= lo[i]
        if "t_max" in kw:
            ok &= t <= hi[i]
        must = {int(j) for j in np.flatnonzero(ok & (sep < r - 1e-7))}
        may = {int(j) for j in np.flatnonzero(ok & (np.abs(sep - r) <= 1e-7))}
        check_indices(got[i], must, may, f"query {i}")
        require(bool(seen[i]) == (len(got[i]) > 0), f"is_observed of query {i}")
        some += 0 < len(must) < n
    rec.nontrivial(some > 0)
    rec.label(f"radius {r}", case["tform"])


@check("C09", fd({"survey": surveys.spec_st(lo=1, hi=6), "bad": st.sampled_from(
    ["none_ra", "none_dec", "none_in_list", "lengths", "no_radius", "t_min_len", "t_max_len", "column", "mixed"]), "k": st.integers(1, 4)}), quick=150)
def refused(case, rec):
    t = surveys.make(case["survey"], radius=1.0)
    k = case["k"]
    a, d = np.full(k, 10.0), np.full(k, 5.0)
    b = case["bad"]
    for fn in (t.range_search, t.is_observed, t.get_observations):
        if b == "none_ra":
            raises(ValueError, lambda: fn(None, 3.0), "missing ra")
        elif b == "none_dec":
            raises(ValueError, lambda: fn(3.0, None), "missing dec")
        elif b == "none_in_list":
            raises(ValueError, lambda: fn([1.0, None], [2.0, 3.0]), "missing ra in a list")
            raises(ValueError, lambda: fn([1.0, 4.0], [None, 3.0]), "missing dec in a list")
        elif b == "lengths":
            raises(ValueError, lambda: fn(a, np.full(k + 1, 5.0)), "lengths differ")
            raises(ValueError, lambda: fn(np.full(k + 1, 5.0), 1.0), "lengths differ")
        elif b == "no_radius":
            none = ObsTable({"ra": [1.0], "dec": [2.0], "time": [0.0]})
            raises(ValueError, lambda: getattr(none, fn.__name__)(1.0, 2.0), "no radius")
            require(len(none.range_search(1.0, 2.0, radius=1.0)) == 1, "explicit radius")
        elif b == "t_min_len" and fn != t.get_observations:
            raises(ValueError, lambda: fn(a, d, t_min=np.zeros(k + 1)), "length of t_min")
            raises(ValueError, lambda: fn(np.append(a, 11.0), np.append(d, 5.0), t_min=[0.0]), "one t_min of a list of several")
            raises(ValueError, lambda: fn(np.append(a, 11.0), np.append(d, 5.0), t_min=np.zeros(k)), "one t_min short")
        elif b == "t_max_len" and fn != t.get_observations:
            raises(ValueError, lambda: fn(a, d, t_max=np.zeros(k + 1)), "length of t_max")
            raises(ValueError, lambda: fn(np.append(a, 11.0), np.append(d, 5.0), t_max=[50.0]), "one t_max of a list of several")
            raises(ValueError, lambda: fn(np.append(a, 11.0), np.append(d, 5.0), t_max=np.full(k, 50.0)), "one t_max short")
    if b == "column":
        raises(KeyError, lambda: t.get_observations(10.0, 5.0, cols=["time", "no such column"]), "unknown column")
    if b == "mixed":
        # one position given partly as an array of one value
        p = surveys.positions(case["survey"])[0]
        far = (p[0] + 180.0, -p[1])
        for q, exp in ((p, True), (far, None)):
            x = t.is_observed(float(q[0]), np.array([q[1]]))
            y = t.is_observed(np.array([q[0]]), np.array([q[1]]))
            require([bool(v) for v in np.atleast_1d(x)] == [bool(v) for v in y], "scalar ra with an array of one dec")
            if exp:
                require(bool(y[0]), "a pointing's own position is observed")
    rec.label(b)
    rec.nontrivial()

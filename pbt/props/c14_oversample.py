import numpy as np
import pandas as pd
from hypothesis import strategies as st

from lightcurvelynx.obstable.opsim import OpSim, oversample_opsim

from .. import sky, surveys
from ..core import Reject, check, close, describe, raises, require, same
from ..gen import fd, gr, seeds
from . import c12_noise

describe(
    "C14",
    "Cases are LSST-like surveys (any row index, filtered or not, extra columns, overridden settings) and requests for a "
    "denser cadence; non-trivial when some band has at least two candidate exposures or some exposures are out of reach.",
    ["exposures within 1e-6 degrees of the search radius may or may not be candidates"],
)

CASE = fd({
    "survey": surveys.spec_st(kinds=["opsim"], lo=2, hi=25),
    "radius": st.sampled_from([1.75, 3.0, 0.8, 30.0]),
    "pointing": st.sampled_from(["center", "row", "off"]),
    "dt": st.sampled_from([0.5, 0.25, 1.0, 0.37, 2.0, 0.1]),
    "t0": st.one_of(st.none(), gr(-5, 20, 100)),
    "span": st.one_of(st.none(), gr(0.2, 30, 149)),
    "bands": st.sampled_from(["some", "none", "all", "order", "repeated"]),
    "strategy": st.sampled_from(["darkest_sky", "random"]),
    "settings": st.booleans(),
    "ids": st.booleans(),
    "filter": st.booleans(),
    "ties": st.booleans(),
    "text": st.booleans(),
    "seed": seeds(),
})


@check("C14", CASE, quick=700)
def oversampling(case, rec):
    spec = case["survey"]
    g = np.random.default_rng(case["seed"])
    data = surveys.columns(spec)
    n = len(data["ra"])
    if not case["ids"]:
        data.pop("observationId")
    if case["ties"]:
        data["skybrightness"] = np.round(data["skybrightness"])
    if case["text"]:
        data["note"] = np.array([f"n{i}" for i in range(n)], dtype=object)
    kw = c12_noise.override_values("opsim", ["read_noise", "zp_per_sec", "pixel_scale"], case["seed"]) if case["settings"] else {}
    if case["settings"]:
        kw["survey_name"] = "mine"
        kw["dark_current"] = [0.0, 0.7, 0][int(g.integers(3))]
        kw["depth"] = [0, "", False, 3.5][int(g.integers(4))]
        kw["radius"] = 2.5
    raw = surveys.raw_table(spec, data)
    table = OpSim(raw, **kw)
    if case["filter"]:
        mask = g.random(n) < 0.7
        table.filter_rows(mask)
        data = {k: v[mask] for k, v in data.items()}
        n = len(data["ra"])
    data["zp"] = np.asarray(table["zp"]).copy()
    before = pd.DataFrame({c: np.asarray(table[c]) for c in table.columns})
    settings = dict(table.survey_values)
    c = [float(x) for x in spec["center"]]
    if case["pointing"] == "row" and n:
        i = int(g.integers(n))
        p = (float(data["ra"][i]), float(data["dec"][i]))
    elif case["pointing"] == "off":
        a, d = sky.offset(np.float64(c[0]), np.float64(c[1]), *g.normal(scale=1.0, size=2))
        p = (float(a), float(d))
    else:
        p = (c[0], c[1])
    sep = sky.separation(p[0], p[1], data["ra"], data["dec"]) if n else np.zeros(0)
    near = np.flatnonzero(sep <= case["radius"])
    if np.any(np.abs(sep - case["radius"]) < 1e-6):
        raise Reject()
    args = {"pointing": p, "search_radius": case["radius"], "delta_t": case["dt"], "strategy": case["strategy"]}
    if len(near) == 0:
        rec.label("nothing near")
        raises(ValueError, lambda: oversample_opsim(table, **args), "no exposure near the pointing")
        return
    filt = np.asarray(data["filter"], dtype=str)
    uniq = sorted(set(filt[near]))
    lo, hi = data["time"][near].min(), data["time"][near].max()
    t0 = None if case["t0"] is None else float(case["t0"])
    t1 = None if case["span"] is None else (lo if t0 is None else t0) + float(case["span"])
    args["time_range"] = (t0, t1)
    bands = uniq
    if case["bands"] != "none":
        bands = list(uniq)
        if case["bands"] == "some":
            bands = [str(b) for b in g.choice(uniq, size=int(g.integers(1, len(uniq) + 1)), replace=False)]
        elif case["bands"] == "order":
            bands = [str(b) for b in g.permutation(uniq)]
        elif case["bands"] == "repeated":
            bands = bands + bands[:1]
        args["bands"] = bands
    start, end = (lo if t0 is None else t0), (hi if t1 is None else t1)
    if start >= end:
        rec.label("empty range")
        raises(ValueError, lambda: oversample_opsim(table, **args), "an empty time range")
        return
    times = np.arange(start, end, case["dt"])
    if len(times) < len(bands):
        rec.label("too few times")
        raises(ValueError, lambda: oversample_opsim(table, **args), "fewer times than bands")
        return
    new = oversample_opsim(table, **args)
    m = len(times)
    require(isinstance(new, OpSim), "class of the new survey")
    require(len(new) == m, f"{len(new)} exposures, expected {m}")
    same(np.asarray(new["time"]), times, "times")
    nf = np.asarray(new["filter"]).astype(str)
    require(list(nf) == [bands[i % len(bands)] for i in range(m)], f"bands {list(nf)[:10]}, requested {bands}")
    same(np.asarray(new["ra"]), np.full(m, p[0]), "right ascensions")
    same(np.asarray(new["dec"]), np.full(m, p[1]), "declinations")
    require(set(new.columns) == set(table.columns), f"columns {sorted(new.columns)}")
    if case["ids"]:
        ids = np.asarray(new["observationId"])
        require(len(set(ids.tolist())) == m and not set(ids.tolist()) & set(data["observationId"].tolist()), "observation ids")
    # every other quantity comes from one exposure
    where = {int(t): i for i, t in enumerate(data["tag"])}
    src = [where[int(t)] for t in np.asarray(new["tag"])]
    for i, j in enumerate(src):
        require(j in near, f"exposure {i} is copied from one {sep[j]:.3f} degrees away")
        require(filt[j] == nf[i], f"exposure {i} in {nf[i]} is copied from one in {filt[j]}")
        if case["strategy"] == "darkest_sky":
            best = max(data["skybrightness"][k] for k in near if filt[k] == nf[i])
            require(data["skybrightness"][j] == best, f"exposure {i} is not copied from the darkest sky")
    for col in table.columns:
        if col in ("time", "ra", "dec", "filter", "observationId"):
            continue
        a, b = np.asarray(new[col]), np.asarray(data[col])[src]
        if b.dtype.kind in "fiu":
            same(a.astype(float), b.astype(float), f"column {col}")
        else:
            require([str(v) for v in a] == [str(v) for v in b], f"column {col}")
    per_band = {b: sum(filt[near] == b) for b in bands}
    if case["strategy"] == "random":
        again = oversample_opsim(table, **args)
        same(np.asarray(again["tag"]), np.asarray(new["tag"]), "the same request again")
        for b in set(bands):
            k = int((nf == b).sum())
            if per_band[b] >= 2 and k >= 40:
                got = {j for i, j in enumerate(src) if nf[i] == b}
                require(len(got) > 1, f"{k} random exposures in {b} are all the same one of {per_band[b]}")
    require(new.survey_values == settings, f"settings {new.survey_values}")
    require(table.survey_values == settings, "settings of the original survey")
    for col in before.columns:
        x = np.asarray(table[col])
        require([repr(v) for v in x] == [repr(v) for v in before[col].to_numpy()], f"column {col} of the original survey")
    require(len(table.columns) == len(before.columns), "columns of the original survey")
    # usable like any other survey
    same(np.sort(np.asarray(new.range_search(p[0], p[1]), dtype=int)), np.arange(m), "search at the pointing")
    mid = float(times[m // 2])
    same(np.sort(np.asarray(new.range_search(p[0], p[1], t_min=mid), dtype=int)), np.flatnonzero(times >= mid), "search in time")
    far = sky.offset(np.float64(p[0]), np.float64(p[1]), 5.0, 3.0)
    require(len(new.range_search(float(far[0]), float(far[1]))) == 0, "search elsewhere")
    idx = g.integers(0, m, size=4)
    flux = 10.0 ** g.uniform(0, 5, 4)
    e = np.asarray(new.bandflux_error_point_source(flux, idx), dtype=float)
    e0 = np.asarray(table.bandflux_error_point_source(flux, np.array(src)[idx]), dtype=float)
    close(e, e0, rtol=1e-12, msg="flux errors of the copied exposures")
    lohi = new.time_bounds()
    require(lohi == (times[0], times[-1]), "time bounds")
    require(sorted(set(np.asarray(new.filters, dtype=str))) == sorted(set(bands)), "filters")
    raises(ValueError, lambda: oversample_opsim(table, **{**args, "bands": bands[:1] + ["X"]}), "a band without exposures")
    raises(ValueError, lambda: oversample_opsim(table, **{**args, "strategy": "brightest"}), "an unknown strategy")
    raises(ValueError, lambda: oversample_opsim(table, **{**args, "time_range": (end, start)}), "a reversed time range")
    rec.nontrivial(max(per_band.values()) >= 2 or len(near) < n)
    rec.label(case["strategy"], "bands " + case["bands"], "index " + spec["index"])

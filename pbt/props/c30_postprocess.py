import math
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from nested_pandas import NestedFrame

from lightcurvelynx.utils.post_process_results import (
    augment_single_lightcurve,
    lightcurve_compute_mag,
    lightcurve_compute_snr,
    results_augment_lightcurves,
    results_drop_empty,
)

from ..core import check, close, describe, raises, require, same
from ..gen import fd, seeds

warnings.filterwarnings("ignore", message="(?s).*SettingWithCopy|.*set on a copy of a slice")

describe(
    "C30",
    "Cases are result tables with 0-7 or 30 objects (labels consecutive, shuffled, duplicated, text or negative; empty light curves; "
    "zero, negative, NaN, tiny and huge fluxes and errors; reference times present, zero, negative, missing), followed by a "
    "history of row selections, reorderings, concatenations, nested queries and repeated post-processing with different "
    "thresholds; non-trivial when at least two objects have observations and one has an undefined quantity, is empty, or the "
    "rows are not in their first order.",
    ["a non-positive (or NaN) flux or error leaves signal-to-noise, magnitude and its error undefined (documented)",
     "undefined values are stored as missing (None, NA or NaN)",
     "no relative time is required when no object of the table has a reference time"],
)

SPECIAL = [0.0, -0.0, -1.0, -1e-12, 1e-12, 1.0, 1e9, float("nan"), 3630780547701.0, 5.0]


def values(rng, n, p):
    v = 10 ** rng.uniform(-4, 6, n)
    k = rng.uniform(size=n)
    v = np.where(k < p / 2, -v, v)
    return np.where(k > 1 - p / 2, rng.choice(SPECIAL, n), v)


def t0s(rng, n, kind):
    v = rng.uniform(-100, 61000, n)
    if kind == "zeros":
        v = np.where(rng.uniform(size=n) < 0.5, 0.0, v)
    elif kind == "ints":
        return [int(x) for x in v]
    elif kind in ("some none", "some nan"):
        m = rng.uniform(size=n) < 0.5
        return [None if b and kind == "some none" else float("nan") if b else float(x) for b, x in zip(m, v)]
    elif kind == "all none":
        return np.array([None] * n, dtype=object)
    return [float(x) for x in v]


def labels(rng, n, kind):
    if kind == "range":
        return list(range(n))
    if kind == "shuffled":
        return [int(x) for x in rng.permutation(n)]
    if kind == "offset":
        return [int(x) for x in 100 + 7 * np.arange(n)]
    if kind == "text":
        return [f"SN{int(x)}" for x in rng.permutation(n)]
    if kind == "duplicate":
        return [int(x) for x in rng.integers(0, max(1, n // 2), n)]
    return [int(x) for x in -1 - np.arange(n)]


def table(case, salt=0):
    """A result table, made as the simulator does (outer rows 0..n-1), then re-labelled; and a plain model of it."""
    rng = np.random.default_rng([case["seed"], 30, salt])
    n = case["n"]
    df = {"id": [int(x) + 1000 * salt for x in range(n)], "z": [float(x) for x in rng.uniform(0, 1, n)]}
    if case["t0"] != "absent":
        df["t0"] = t0s(rng, n, case["t0"])
    res = NestedFrame(df, index=list(range(n)))
    model, rows, owner = [], [], []
    for i in range(n):
        m = 0 if rng.uniform() < case["empty"] else int(rng.integers(1, 6)) if rng.uniform() < 0.8 else int(rng.integers(6, 40))
        flux, err = values(rng, m, case["bad"]), values(rng, m, case["bad"])
        at = rng.uniform(size=m) < 0.2  # exactly at the threshold
        err = np.where(at, 2.0 ** rng.integers(-2, 6, m), err)
        flux = np.where(at, err * case["min_snr"], flux)
        mjd = np.sort(rng.uniform(59000, 61000, m))
        filt = [str(x) for x in rng.choice(["g", "r"], m)]
        t0 = None if case["t0"] == "absent" else df["t0"][i]
        model.append({"id": df["id"][i], "z": df["z"][i], "t0": t0, "lc": [
            {"mjd": float(a), "filter": b, "flux": float(c), "fluxerr": float(d)} for a, b, c, d in zip(mjd, filt, flux, err)]})
        rows += model[-1]["lc"]
        owner += [i] * m
    cols = ["mjd", "filter", "flux", "fluxerr"]
    nested = pd.DataFrame({c: np.array([r[c] for r in rows], dtype=object if c == "filter" else float) for c in cols}, index=owner)
    if case["dtype"] == "float32":
        nested["flux"] = nested["flux"].astype("float32")
        for r, x in zip(rows, nested["flux"]):
            r["flux"] = float(x)
    if case["dtype"] == "int":
        for c in ("flux", "fluxerr"):
            v = [0 if not abs(x) < 1e15 else int(x) for x in nested[c]]
            nested[c] = np.array(v, dtype=np.int64)
            for r, x in zip(rows, v):
                r[c] = x
    res = res.add_nested(nested, "lightcurve")
    res.index = pd.Index(labels(rng, n, case["index"]))
    return res, model


def missing(x):
    return x is None or x is pd.NA or (isinstance(x, float) and math.isnan(x)) or x is np.ma.masked


def frame(res, i):
    """Light curve of the i-th row as a plain list of dicts."""
    lc = res["lightcurve"].iloc[i]
    if lc is None or lc is pd.NA or (isinstance(lc, float) and math.isnan(lc)):
        return []
    return lc.to_dict("records")


def eq(a, b):
    return (missing(a) and missing(b)) or a == b


BASE = ("mjd", "filter", "flux", "fluxerr")


def base_check(res, model, what):
    require(len(res) == len(model), f"{what}: {len(res)} rows, expected {len(model)}")
    for i, m in enumerate(model):
        for c in ("id", "z", "t0"):
            if c in res.columns:
                require(eq(res[c].iloc[i], m[c]), f"{what}: row {i} column {c}: {res[c].iloc[i]}, expected {m[c]}")
        got = frame(res, i)
        require(len(got) == len(m["lc"]), f"{what}: row {i} has {len(got)} observations, expected {len(m['lc'])}")
        for g, w in zip(got, m["lc"]):
            for c in BASE:
                if c in g or c in w:
                    require(eq(g[c], w[c]), f"{what}: row {i} observation {g}: {c} should be {w[c]}")


def num(x, want, what, rtol=1e-9):
    if want is None:
        require(missing(x), f"{what}: {x}, expected a missing value")
        return
    require(not missing(x), f"{what}: missing, expected {want}")
    require(abs(x - want) <= rtol * abs(want) + (max(1e-9, rtol) if " mag" in what else 0.0), f"{what}: {x}, expected {want}")


def wanted(o, min_snr):
    f, e = o["flux"], o["fluxerr"]
    if not (f > 0 and e > 0):
        return {"snr": None, "mag": None, "magerr": None, "detection": False}
    return {"snr": f / e, "mag": 31.4 - 2.5 * math.log10(f), "magerr": 2.5 / math.log(10) * e / f,
            "detection": f / e >= min_snr}


def derived_check(res, model, min_snr, what, snr_rtol=1e-9):
    any_t0 = any(not missing(m["t0"]) for m in model)
    for i, m in enumerate(model):
        for k, (g, o) in enumerate(zip(frame(res, i), m["lc"])):
            w, where = wanted(o, min_snr), f"{what}: row {i} observation {k} ({o['flux']} +- {o['fluxerr']})"
            for c in ("snr", "mag", "magerr"):
                num(g[c], w[c], f"{where} {c}", max(snr_rtol, 1e-9))
            if w["snr"] is None or abs(w["snr"] - min_snr) > 1e-6 * abs(min_snr) or snr_rtol < 1e-9:
                require(not missing(g["detection"]) and bool(g["detection"]) == w["detection"],
                        f"{where}: detection {g['detection']} at threshold {min_snr}")
            if any_t0:
                num(g["time_rel"], None if missing(m["t0"]) else o["mjd"] - m["t0"], f"{where} time_rel (t0 {m['t0']})")
            else:
                require(missing(g.get("time_rel")), f"{where}: time_rel without any t0")


THRESHOLD = st.one_of(st.sampled_from([5.0, 0.0, 1.0, -1.0, 10, 1e-3, 1e12]), st.floats(-5, 100, allow_nan=False))
CASE = {
    "n": st.sampled_from([4, 7, 2, 1, 5, 30, 3, 0]),
    "seed": seeds(),
    "t0": st.sampled_from(["zeros", "some none", "floats", "ints", "some nan", "absent", "all none"]),
    "index": st.sampled_from(["shuffled", "duplicate", "range", "offset", "text", "negative"]),
    "empty": st.sampled_from([0.3, 0.0, 0.8, 1.0]),
    "bad": st.sampled_from([0.4, 0.0, 0.9]),
    "dtype": st.sampled_from(["float", "int", "float32"]),
    "min_snr": THRESHOLD,
}
STEP = st.fixed_dictionaries({"op": st.sampled_from(["augment", "reorder", "subset", "query", "drop", "concat", "reset", "loc"]),
                              "k": st.integers(0, 1000), "snr": THRESHOLD})


def mark(rec, case, model, moved=False):
    obs = [m for m in model if m["lc"]]
    bad = any(not (o["flux"] > 0 and o["fluxerr"] > 0) for m in obs for o in m["lc"])
    if len(obs) >= 2 and (bad or len(obs) < len(model) or moved):
        rec.nontrivial()
    rec.label(case["index"], case["t0"], "undefined" if bad else "all defined", "some empty" if len(obs) < len(model) else "none empty")


def step(res, model, op, rng, case, min_snr):
    """One row operation on the table and on its model; returns also the current threshold (None: not processed)."""
    kind = op["op"]
    if kind == "augment":
        results_augment_lightcurves(res, min_snr=op["snr"])
        return res, model, op["snr"]
    if kind in ("reorder", "subset"):
        p = [int(x) for x in rng.permutation(len(model))]
        if kind == "subset":
            p = p[: len(p) // 2 + 1]
        return res.iloc[p], [model[i] for i in p], min_snr
    if kind == "loc":
        cut = 0.7 if op["k"] % 2 else 0.3
        return res.loc[res["z"] < cut], [m for m in model if m["z"] < cut], min_snr
    if kind == "query":
        cut = 59500 + op["k"]
        if not any(m["lc"] for m in model):
            return res, model, min_snr
        # a nested query keeps every row and the observations that match
        new = [dict(m, lc=[o for o in m["lc"] if o["mjd"] > cut]) for m in model]
        return res.query(f"lightcurve.mjd > {cut}"), new, min_snr
    if kind == "drop":
        return results_drop_empty(res), [m for m in model if m["lc"]], min_snr
    if kind == "reset":
        return res.reset_index(drop=True), model, min_snr
    if res["lightcurve"].dtype.__class__.__name__ != "NestedDtype":
        return res, model, min_snr
    other, om = table(dict(case, n=2, dtype="float"), salt=1 + op["k"])
    if min_snr is not None:
        results_augment_lightcurves(other, min_snr=min_snr)
    if str(res["lightcurve"].dtype) != str(other["lightcurve"].dtype):  # pandas cannot stack different nested types
        return res, model, min_snr
    return NestedFrame(pd.concat([res, other])), model + om, min_snr


@check("C30", fd({**CASE, "steps": st.lists(STEP, min_size=1, max_size=6)}), quick=250)
def annotate(case, rec):
    """Every observation's columns agree with its own values after any history of row operations."""
    res, model = table(case)
    base_check(res, model, "before")
    rng = np.random.default_rng([case["seed"], 31])
    min_snr, kinds, total = None, [], 0
    for op in case["steps"]:
        n = len(model)
        unique = len(set(res.index)) == len(res)
        if op["op"] == "concat" and case["dtype"] != "float":
            continue
        if op["op"] == "query" and not unique:  # rows with the same label share a query's outcome in nested-pandas
            continue
        res, model, now = step(res, model, op, rng, case, min_snr)
        require(isinstance(res, NestedFrame), f"{op['op']}: result is a {type(res).__name__}")
        kinds.append(op["op"])
        base_check(res, model, f"after {kinds}")
        if op["op"] == "augment":
            derived_check(res, model, now, f"after {kinds}", 1e-5 if case["dtype"] == "float32" else 1e-10)
            total += 1
        min_snr = now
        rec.label(op["op"])
    if min_snr is None:
        results_augment_lightcurves(res, min_snr=case["min_snr"])
        base_check(res, model, f"after {kinds}, processed")
        derived_check(res, model, case["min_snr"], f"after {kinds}, processed", 1e-5 if case["dtype"] == "float32" else 1e-10)
    mark(rec, case, model, any(k in ("reorder", "subset", "concat", "loc") for k in kinds))
    final = results_drop_empty(res)
    base_check(final, [m for m in model if m["lc"]], f"after {kinds}, without empty")
    require([final.index[i] for i in range(len(final))] == [l for l, m in zip(res.index, model) if m["lc"]], "labels kept by drop_empty")


@check("C30", fd(CASE), quick=120)
def same_as_single(case, rec):
    """The table gives each light curve the same columns as processing it alone, in any row order."""
    res, model = table(case)
    rng = np.random.default_rng([case["seed"], 32])
    p = [int(x) for x in rng.permutation(len(model))]
    moved = res.iloc[p]
    results_augment_lightcurves(res, min_snr=case["min_snr"])
    results_augment_lightcurves(moved, min_snr=case["min_snr"])
    for j, i in enumerate(p):
        a, b = frame(res, i), frame(moved, j)
        require(len(a) == len(b) and all(eq(x[c], y[c]) for x, y in zip(a, b) for c in x if c in y),
                f"row {i} differs after reordering: {a} vs {b}")
    for i, m in enumerate(model):
        if not m["lc"]:
            continue
        one = pd.DataFrame({c: np.array([o[c] for o in m["lc"]], dtype=object if c == "filter" else None) for c in BASE})
        if case["dtype"] == "float32":
            one["flux"] = one["flux"].astype("float32")
        one.index = pd.Index(rng.permutation(len(one)) + 5)  # the light curve's own row labels do not matter
        one0 = one.copy(deep=True)
        augment_single_lightcurve(one, min_snr=case["min_snr"], t0=None if missing(m["t0"]) else m["t0"])
        require(one[list(BASE)].equals(one0), "augment_single_lightcurve changed existing values")
        recs = one.to_dict("records")
        for k, (g, w) in enumerate(zip(frame(res, i), recs)):
            for c in ("snr", "mag", "magerr", "detection", "time_rel"):
                if c == "time_rel" and missing(m["t0"]):
                    require(missing(g.get(c)) and missing(w.get(c)), f"row {i} observation {k}: time_rel without t0")
                    continue
                num(g[c], None if missing(w[c]) else w[c], f"row {i} observation {k} {c}", 1e-6 if case["dtype"] == "float32" else 1e-12)
    mark(rec, case, model, True)


@check("C30", fd({"n": st.integers(0, 12), "seed": seeds(), "bad": st.sampled_from([0.4, 0.9, 0.0]), "kind": st.sampled_from(["list", "array", "series", "2d"])}), quick=120)
def helpers(case, rec):
    """Array helpers: values at valid entries, masked elsewhere, in every container; inputs unchanged."""
    rng = np.random.default_rng([case["seed"], 33])
    f, e = values(rng, case["n"], case["bad"]), values(rng, case["n"], case["bad"])
    if case["kind"] == "2d":
        f, e = np.tile(f, (2, 1)), np.array([e, e[::-1]])
    conv = {"list": list, "series": pd.Series}.get(case["kind"], np.array)
    a, b = conv(f), conv(e)
    snr = lightcurve_compute_snr(a, b)
    mag, magerr = lightcurve_compute_mag(a, b)
    same(np.asarray(a, dtype=float), f, "flux input changed")
    same(np.asarray(b, dtype=float), e, "error input changed")
    ok = (f > 0) & (e > 0)
    for name, got, want in (("snr", snr, np.where(ok, f / np.where(ok, e, 1), 0)), ("mag", mag, 31.4 - 2.5 * np.log10(np.where(ok, f, 1))),
                            ("magerr", magerr, 2.5 / np.log(10) * e / np.where(ok, f, 1))):
        require(got.shape == f.shape, f"{name}: shape {got.shape}, expected {f.shape}")
        mask = np.ma.getmaskarray(got)
        same(mask, ~ok, f"{name}: undefined entries")
        close(got.data[ok], want[ok], rtol=1e-9, atol=1e-9 if name == "mag" else 0, msg=name)
    if ok.any() and not ok.all():
        rec.nontrivial()


@check("C30", fd({**CASE, "miss": st.sampled_from(["flux", "fluxerr", "mjd", "lightcurve", "plain", "single flux", "single fluxerr"])}), quick=60)
def refusals(case, rec):
    """Tables without the needed columns are refused with ValueError and keep their values."""
    case = dict(case, n=max(1, case["n"]), empty=0.0, index="range")
    res, model = table(case)
    miss = case["miss"]
    rec.label(miss)
    rec.nontrivial()
    if miss.startswith("single"):
        one = res["lightcurve"].iloc[0].drop(columns=[miss.split()[1]])
        raises(ValueError, lambda: augment_single_lightcurve(one, min_snr=1.0), f"light curve without {miss}")
        return
    if miss == "lightcurve":
        bad = res[[c for c in res.columns if c != "lightcurve"]]
    elif miss == "plain":
        bad = pd.DataFrame({"flux": [1.0], "fluxerr": [1.0]})
    else:
        flat = pd.DataFrame(
            {c: [o[c] for m in model for o in m["lc"]] for c in BASE if c != miss},
            index=[i for i, m in enumerate(model) for _ in m["lc"]])
        bad = NestedFrame(res[[c for c in res.columns if c != "lightcurve"]]).add_nested(flat, "lightcurve")
    if miss == "mjd" and all(missing(m["t0"]) for m in model):
        results_augment_lightcurves(bad, min_snr=case["min_snr"])
        require("snr" in bad["lightcurve"].nest.fields, "no columns added")
        return
    raises(ValueError, lambda: results_augment_lightcurves(bad, min_snr=case["min_snr"]), f"table without {miss}")

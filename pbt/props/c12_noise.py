import os
import shutil
import tempfile
from unittest import mock

import numpy as np
import pandas as pd
from astropy.table import Table
from hypothesis import strategies as st

from lightcurvelynx.astro_utils.noise_model import poisson_bandflux_std
from lightcurvelynx.astro_utils.zeropoint import (
    calculate_zp_from_maglim,
    flux_electron_zeropoint,
    magnitude_electron_zeropoint,
)
from lightcurvelynx.obstable.fake_obs_table import FakeObsTable
from lightcurvelynx.obstable.obs_table import ObsTable
from lightcurvelynx.obstable.opsim import OpSim
from lightcurvelynx.obstable.roman_obstable import RomanObsTable
from lightcurvelynx.obstable.ztf_obstable import ZTFObsTable

from .. import surveys
from ..core import check, close, describe, raises, require, same
from ..gen import fd, gr, lists, logfl, seeds

describe(
    "C12",
    "Cases are noise budgets (arrays and scalars over many decades) and surveys of every class with overridden settings, "
    "any row index and filters applied; non-trivial when at least two exposures or two noise terms are involved.",
    [
        "fluxes are non-negative",
        "a readout noise given as a function of exposure time is the noise of the whole footprint (an existing test fixes this)",
        "user-configured surveys have a filter column (documented) and plain Python numbers as constants",
        "Roman characterisation tables come from the network: stand-ins with the same columns are read instead",
    ],
)

LN2 = float(np.log(2.0))
AREA = np.pi / (2 * LN2)
FILTS = surveys.FILTS
DOC_ZP = {"u": 26.524, "g": 28.508, "r": 28.361, "i": 28.171, "z": 27.782, "y": 26.818}
DOC_EXT = {"u": -0.458, "g": -0.208, "r": -0.122, "i": -0.074, "z": -0.057, "y": -0.095}


def njy(mag):
    return 10.0 ** ((31.4 - np.asarray(mag, dtype=float)) / 2.5)


def budget(flux, zp, area, sky, nexp, rn, dark, exptime):
    var = np.asarray(flux, dtype=float) / zp + area * (sky + nexp * rn * rn + dark * exptime)
    return zp * np.sqrt(var)


# --------------------------------------------------------------------------------------
NAMES = ["bandflux", "total_exposure_time", "exposure_count", "psf_footprint", "sky", "zp", "readout_noise", "dark_current"]


@check("C12", fd({
    "n": st.integers(1, 12),
    "seed": seeds(),
    "scalars": st.lists(st.sampled_from(NAMES), max_size=7, unique=True),
    "zeros": st.lists(st.sampled_from(["bandflux", "sky", "readout_noise", "dark_current"]), max_size=4, unique=True),
    "series": st.booleans(),
    "up": st.sampled_from(["bandflux", "sky", "readout_noise", "dark_current", "exposure_count", "total_exposure_time", "psf_footprint"]),
    "factor": st.sampled_from([1.5, 4.0, 100.0]),
}), quick=1500)
def budgets(case, rec):
    """The error of any mixture of scalar and per-exposure inputs; monotonic in each noise term."""
    n = case["n"]
    g = np.random.default_rng(case["seed"])
    v = {
        "bandflux": 10.0 ** g.uniform(-3, 8, n), "total_exposure_time": 10.0 ** g.uniform(-2, 4, n), "exposure_count": g.integers(1, 60, n),
        "psf_footprint": 10.0 ** g.uniform(-1, 3, n), "sky": 10.0 ** g.uniform(-3, 5, n), "zp": 10.0 ** g.uniform(-3, 3, n),
        "readout_noise": 10.0 ** g.uniform(-2, 2, n), "dark_current": 10.0 ** g.uniform(-4, 1, n),
    }
    for z in case["zeros"]:
        v[z] = v[z] * 0.0
    for s in case["scalars"]:
        v[s] = v[s][0]
    keep = {k: np.copy(x) for k, x in v.items()}
    args = dict(v)
    if case["series"]:
        idx = g.permutation(n) + 3
        args = {k: (pd.Series(x, index=idx) if np.ndim(x) else x) for k, x in v.items()}
    b = args.pop("bandflux")
    got = np.asarray(poisson_bandflux_std(b, **args), dtype=float)
    full = {k: np.broadcast_to(x, (n,)) for k, x in v.items()}
    exp = budget(full["bandflux"], full["zp"], full["psf_footprint"], full["sky"], full["exposure_count"], full["readout_noise"], full["dark_current"], full["total_exposure_time"])
    close(np.broadcast_to(got, (n,)), exp, rtol=1e-11, msg="error budget")
    for k, x in keep.items():
        same(v[k], x, f"input {k}")
    rec.nontrivial(n >= 2 and len(case["zeros"]) <= 2)
    rec.label("mixed" if case["scalars"] else "arrays", *case["zeros"])
    more = dict(v)
    more[case["up"]] = np.asarray(more[case["up"]]) * case["factor"]
    got2 = np.asarray(poisson_bandflux_std(**more), dtype=float)
    require(np.all(got2 >= got * (1 - 1e-12)), f"the error decreases when {case['up']} grows")
    require(np.all(np.isfinite(got)) and np.all(got >= 0), "finite errors")
    if not {"bandflux"} <= set(case["zeros"]):
        require(np.all(got > 0), "positive errors")
    # k repeated exposures: k times the time, counts and sky, a k-th of the flux per electron
    k = int(case["factor"] * 2)
    rep = dict(v)
    rep["total_exposure_time"] = rep["total_exposure_time"] * k
    rep["exposure_count"] = rep["exposure_count"] * k
    rep["sky"] = rep["sky"] * k
    rep["zp"] = rep["zp"] / k
    close(poisson_bandflux_std(**rep), np.asarray(got) / np.sqrt(k), rtol=1e-10, msg=f"error of {k} repeated exposures")
    # a readout noise given as a function
    fun = dict(v, readout_noise=lambda t: 0.3 * np.asarray(t) + 1.0)
    t = full["total_exposure_time"]
    exp = full["zp"] * np.sqrt(full["bandflux"] / full["zp"] + (full["sky"] + full["dark_current"] * t) * full["psf_footprint"] + (0.3 * t + 1.0) ** 2)
    close(np.broadcast_to(poisson_bandflux_std(**fun), (n,)), exp, rtol=1e-11, msg="readout noise as a function")


# --------------------------------------------------------------------------------------
OVER = {
    "opsim": ["dark_current", "pixel_scale", "read_noise", "ext_coeff", "zp_per_sec"],
    "ztf": ["dark_current", "gain", "read_noise"],
}


def override_values(kind, names, seed):
    g = np.random.default_rng([seed, 31])
    out = {}
    for k in names:
        if k in ("ext_coeff", "zp_per_sec"):
            lo, hi = (-0.6, 0.0) if k == "ext_coeff" else (24.0, 30.0)
            out[k] = {f: float(np.round(g.uniform(lo, hi), 3)) for f in FILTS}
        else:
            out[k] = float(np.round(g.uniform(*{"dark_current": (0, 2), "pixel_scale": (0.05, 1.5), "read_noise": (0, 20), "gain": (0.5, 9)}[k]), 3))
    return out


def expected_survey(kind, data, vals, flux, idx):
    """Zero points (all rows) and errors of rows idx, from the documented values."""
    filt = np.asarray(data["filter"], dtype=str)
    if kind == "opsim":
        s = {"dark_current": 0.2, "pixel_scale": 0.2, "read_noise": 8.8, "ext_coeff": DOC_EXT, "zp_per_sec": DOC_ZP, **vals}
        m = np.array([s["zp_per_sec"][f] for f in filt]) + np.array([s["ext_coeff"][f] for f in filt]) * (data["airmass"] - 1) + 2.5 * np.log10(data["exptime"])
        zp = njy(m)
        area = AREA * (data["seeing"] / s["pixel_scale"]) ** 2
        sky = njy(data["skybrightness"]) * s["pixel_scale"] ** 2 / zp
        nexp = data["nexposure"]
    else:
        s = {"dark_current": 0.0, "gain": 6.2, "read_noise": 8.0, **vals}
        area = AREA * data["fwhm"] ** 2
        sky = data["sky"] * s["gain"]
        noise = area * (sky + s["read_noise"] ** 2 + s["dark_current"] * data["exptime"])
        electrons = 0.5 * (25 + np.sqrt(625 + 100 * noise))
        zp = njy(data["maglim"]) / electrons
        nexp = np.ones(len(filt))
    err = budget(flux, zp[idx], area[idx], sky[idx], nexp[idx], s["read_noise"], s["dark_current"], data["exptime"][idx])
    return zp, err


def query(table, flux, idx, form):
    if form == "list":
        return table.bandflux_error_point_source(flux, list(int(i) for i in idx))
    if form == "slice":
        return table.bandflux_error_point_source(flux, slice(0, len(table)))
    if form == "scalar":
        return np.array([table.bandflux_error_point_source(float(f), int(i)) for f, i in zip(flux, idx)])
    return table.bandflux_error_point_source(flux, idx)


CASE = fd({
    "survey": surveys.spec_st(kinds=["opsim", "ztf"], lo=1, hi=15),
    "over": lists(st.integers(0, 4), 0, 4),
    "form": st.sampled_from(["array", "list", "scalar", "slice"]),
    "filter": st.booleans(),
    "gaps": st.booleans(),
    "obsdate": st.booleans(),
    "count": st.booleans(),
    "seed": seeds(),
})


@check("C12", CASE, quick=600)
def lsst_and_ztf(case, rec):
    spec = case["survey"]
    kind = spec["kind"]
    g = np.random.default_rng(case["seed"])
    data = surveys.columns(spec)
    n0 = len(data["ra"])
    names = sorted({OVER[kind][i % len(OVER[kind])] for i in case["over"]})
    vals = override_values(kind, names, case["seed"])
    raw = surveys.raw_table(spec, data)
    good = np.ones(n0, dtype=bool)
    if kind == "ztf" and case["gaps"]:
        bad = g.random(n0) < 0.3
        raw["fwhm"] = np.where(bad, np.nan, data["fwhm"])
        good = ~bad
    if kind == "ztf" and case["obsdate"]:
        from astropy.time import Time

        raw["obsdate"] = Time(raw.pop("obsmjd").to_numpy() + 58000.0, format="mjd", scale="utc").iso
        data["time"] = data["time"] + 58000.0
    if kind == "ztf" and case["count"]:
        raw["nexposure"] = g.integers(2, 9, size=n0)  # a column without a meaning for this survey
    keep = raw.copy(deep=True)
    table = surveys.CLS[kind](raw, **vals)
    pd.testing.assert_frame_equal(raw, keep)
    data = {k: np.asarray(v)[good] for k, v in data.items()}
    if case["filter"] and len(table):
        mask = g.random(len(table)) < 0.6
        table.filter_rows(mask)
        data = {k: v[mask] for k, v in data.items()}
    n = len(data["ra"])
    require(len(table) == n, f"{len(table)} rows, expected {n}")
    close(np.asarray(table["time"]), data["time"], rtol=0, atol=1e-8, msg="times")
    if n == 0:
        return
    idx = np.arange(n) if case["form"] == "slice" else g.integers(0, n, size=int(g.integers(1, 8)))
    flux = 10.0 ** g.uniform(-2, 6, size=len(idx))
    flux[g.random(len(idx)) < 0.1] = 0.0
    zp, err = expected_survey(kind, data, vals, flux, idx)
    rtol = 1e-9 if kind == "opsim" else 2e-4  # the documented ZTF conversion rounds the footprint's factor
    close(np.asarray(table["zp"]), zp, rtol=rtol, msg=f"{kind} zero points")
    got = query(table, flux, idx, case["form"])
    close(np.asarray(got, dtype=float), err, rtol=rtol, msg=f"{kind} errors of rows {idx.tolist()}")
    require(np.all(np.asarray(got) > 0) and np.all(np.isfinite(got)), "positive and finite errors")
    rec.nontrivial(n >= 2)
    rec.label(kind, case["form"], *names, "gaps" if not good.all() else "no gaps")
    if kind == "ztf":
        # the limiting magnitude is the one observed at five sigma
        lim = njy(data["maglim"])
        e = np.asarray(table.bandflux_error_point_source(lim, np.arange(n)), dtype=float)
        close(lim / e, np.full(n, 5.0), rtol=1e-3, msg="signal to noise at the limiting magnitude")
    # fluxes given as one number for all rows
    f1 = float(flux[0])
    e1 = np.asarray(table.bandflux_error_point_source(f1, idx), dtype=float)
    close(e1, expected_survey(kind, data, vals, f1, idx)[1], rtol=rtol, msg="one flux for all rows")
    # not enough columns
    need = {"opsim": ["airmass", "exptime"], "ztf": ["maglim", "fwhm", "exptime"]}[kind]
    drop = need[int(g.integers(len(need)))]
    short = raw.drop(columns=[surveys.RAW[kind].get(drop, drop)])
    raises(ValueError, lambda: surveys.CLS[kind](short), f"no column {drop}")


# --------------------------------------------------------------------------------------
TERMS = ["exptime", "nexposure", "psf_footprint", "fwhm_px", "sky"]
term_form = st.sampled_from(["column", "scalar", "dict"])
FAKE = fd({
    "survey": surveys.spec_st(kinds=["base"], lo=1, hi=12),
    "forms": fd({t: term_form for t in TERMS}),
    "default": st.lists(st.sampled_from(["exptime", "nexposure"]), max_size=2, unique=True),
    "psf": st.sampled_from(["psf_footprint", "fwhm_px", "both"]),
    "zp": st.sampled_from(["column", "dict"]),
    "rn": gr(0, 10, 20),
    "dc": gr(0, 2, 20),
    "form": st.sampled_from(["array", "list", "scalar", "slice"]),
    "filter": st.booleans(),
    "const": st.sampled_from([None, None, None, "scalar", "dict"]),
    "nested": st.booleans(),
    "numpy": st.sampled_from([None, None, "float64", "float32"]),
    "repeat": st.sampled_from([1, 1, 40, 1, 300]),
    "seed": seeds(),
})


NUMPY = {"float64": np.float64, "float32": np.float32}


@check("C12", FAKE, quick=600)
def user_configured(case, rec):
    spec = case["survey"]
    g = np.random.default_rng(case["seed"])
    base = {k: np.repeat(v, case["repeat"]) for k, v in surveys.columns(spec).items()}
    n = len(base["ra"])
    names = {f: f for f in surveys.FILTS}
    if case["nested"]:  # names that contain each other
        names = dict(zip(surveys.FILTS, g.permutation(["g", "gg", "ggr", "G", "r", "zz"]).tolist()))
        base["filter"] = np.array([names[f] for f in base["filter"]], dtype=object)
    FILTS = list(names.values())
    filt = np.asarray(base["filter"], dtype=str)
    cols = {k: base[k] for k in ("time", "ra", "dec", "filter")}
    kw = {"read_noise": case["rn"], "dark_current": case["dc"]}
    val = {}
    used = [t for t in TERMS if not (t == "psf_footprint" and case["psf"] == "fwhm_px") and not (t == "fwhm_px" and case["psf"] == "psf_footprint")]
    for t in used:
        lo, hi = {"exptime": (1, 100), "nexposure": (1, 9), "psf_footprint": (0.5, 60), "fwhm_px": (0.5, 5), "sky": (0, 500)}[t]
        draw = (lambda size=None: g.integers(1, 9, size=size)) if t == "nexposure" else (lambda size=None: np.round(g.uniform(lo, hi, size=size), 3))
        if t == "sky" and case["seed"] % 4 == 0:  # a dark sky is allowed
            draw = lambda size=None: np.round(np.maximum(g.uniform(-300, 500, size=size), 0.0), 3)  # noqa: E731
        if t in case["default"]:
            val[t] = np.full(n, 30.0 if t == "exptime" else 1.0)
        elif case["forms"][t] == "column":
            cols[t] = draw(n)
            val[t] = cols[t].astype(float)
        elif case["forms"][t] == "scalar":
            kw[t] = draw().item() if hasattr(draw(), "item") else float(draw())
            val[t] = np.full(n, float(kw[t]))
        else:
            kw[t] = {f: (int(draw()) if t == "nexposure" else float(draw())) for f in FILTS}
            val[t] = np.array([kw[t][f] for f in filt], dtype=float)
    if case["zp"] == "column":
        zp = g.uniform(0.1, 5, size=n)
        cols["zp"] = zp
    else:
        kw["zp_per_band"] = {f: float(np.round(g.uniform(0.1, 5), 3)) for f in FILTS}
        zp = np.array([kw["zp_per_band"][f] for f in filt])
    area = val["psf_footprint"] if "psf_footprint" in val else AREA * val["fwhm_px"] ** 2
    cerr = None
    if case["const"] == "scalar":
        kw["const_flux_error"] = float(np.round(g.uniform(0, 10), 2))
        cerr = np.full(n, kw["const_flux_error"])
    elif case["const"] == "dict":
        kw["const_flux_error"] = {f: float(np.round(g.uniform(0, 10), 2)) for f in FILTS}
        cerr = np.array([kw["const_flux_error"][f] for f in filt])
    if case["numpy"]:  # settings that come out of numpy computations
        one = lambda x: {f: one(v) for f, v in x.items()} if isinstance(x, dict) else np.int64(x) if isinstance(x, int) else NUMPY[case["numpy"]](x)  # noqa: E731
        kw = {k: one(v) for k, v in kw.items()}
    df = pd.DataFrame(cols)
    df.index = surveys.index_of(spec, n)
    keep = df.copy(deep=True)
    table = FakeObsTable(df, **kw)
    pd.testing.assert_frame_equal(df, keep)
    sel = np.arange(n)
    if case["filter"]:
        sel = np.flatnonzero(g.random(n) < 0.6)
        mask = np.zeros(n, dtype=bool)
        mask[sel] = True
        table.filter_rows(mask)
    m = len(sel)
    require(len(table) == m, "rows")
    close(np.asarray(table["zp"]), zp[sel], rtol=1e-6 if case["numpy"] == "float32" else 0.0, msg="zero points")
    rec.label(case["form"], "constant" if case["const"] else "noise model", *[f"{t} {case['forms'][t]}" for t in used])
    if m == 0:
        return
    idx = np.arange(m) if case["form"] == "slice" else g.integers(0, m, size=int(g.integers(1, 8)))
    flux = np.where(g.random(len(idx)) < 0.1, 0.0, 10.0 ** g.uniform(-2, 6, size=len(idx)))
    r = sel[idx]
    exp = cerr[r] if cerr is not None else budget(flux, zp[r], area[r], val["sky"][r], val["nexposure"][r], case["rn"], case["dc"], val["exptime"][r])
    got = np.asarray(query(table, flux, idx, case["form"]), dtype=float)
    close(got, exp, rtol=1e-5 if case["numpy"] == "float32" else 1e-10, msg=f"errors of rows {idx.tolist()}")
    rec.nontrivial(m >= 2)
    # incomplete configurations
    tbl = {k: v for k, v in cols.items() if k in ("time", "ra", "dec", "filter")}
    ok = {"zp_per_band": {f: 1.0 for f in FILTS}, "sky": 5.0, "fwhm_px": 2.0}
    FakeObsTable(tbl, **ok)
    for miss in ok:
        raises(ValueError, lambda: FakeObsTable(tbl, **{k: v for k, v in ok.items() if k != miss}), f"no {miss}")
    f0 = str(filt[0])
    less = {f: 1.0 for f in FILTS if f != f0}
    for k in ("zp_per_band", "sky", "fwhm_px"):
        raises(ValueError, lambda: FakeObsTable(tbl, **{**ok, k: less}), f"{k} without filter {f0}")
    raises(ValueError, lambda: FakeObsTable(tbl, **{**ok, "zp_per_band": {f: 0.0 for f in FILTS}}), "a zero point of zero")
    raises(ValueError, lambda: FakeObsTable(tbl, **{**ok, "const_flux_error": less}), f"constant error without filter {f0}")
    raises(ValueError, lambda: FakeObsTable(tbl, **{**ok, "const_flux_error": -1.0}), "a negative constant error")
    raises(ValueError, lambda: FakeObsTable(tbl, **{**ok, "const_flux_error": {**{f: 1.0 for f in FILTS}, f0: -0.5}}), f"a negative constant error in {f0}")
    for k in ("exptime", "nexposure", "fwhm_px", "psf_footprint"):
        for v in (0, 0.0, -2.0, {**{f: 1.0 for f in FILTS}, f0: 0.0}):
            raises(ValueError, lambda: FakeObsTable(tbl, **{**ok, k: v}), f"{k} of {v}")  # noqa: B023


# --------------------------------------------------------------------------------------
@check("C12", fd({
    "n": st.integers(0, 10),
    "seed": seeds(),
    "coeffs": st.sampled_from(["default", "given"]),
    "form": st.sampled_from(["array", "scalar", "series"]),
}), quick=300)
def zero_points(case, rec):
    """Zero point functions: documented formula, one electron per second, more time, air and depth."""
    g = np.random.default_rng(case["seed"])
    n = case["n"]
    if case["coeffs"] == "default":
        zp_c, ex_c, kw = DOC_ZP, DOC_EXT, {"ext_coeff": None}
        names = FILTS
    else:
        names = ["A", "band two", "g"]
        zp_c = {f: float(g.uniform(20, 30)) for f in names}
        ex_c = {f: float(g.uniform(-1, 0)) for f in names}
        kw = {"ext_coeff": ex_c}
    band = g.choice(np.array(names), size=n) if n else np.array([], dtype=str)
    air, t = g.uniform(1, 3, size=n), 10.0 ** g.uniform(-2, 3, size=n)
    exp = np.array([zp_c[b] + ex_c[b] * (a - 1) for b, a in zip(band, air)]) + 2.5 * np.log10(t)
    zkw = None if case["coeffs"] == "default" else zp_c

    def call(b, a, e):
        m = magnitude_electron_zeropoint(band=b, airmass=a, exptime=e, instr_zp=zkw, **kw)
        f = flux_electron_zeropoint(band=b, airmass=a, exptime=e, instr_zp_mag=zkw, **kw)
        return m, f

    if case["form"] == "scalar":
        res = [call(str(b), float(a), float(e)) for b, a, e in zip(band, air, t)]
        mags, flux = np.array([float(r[0]) for r in res]), np.array([float(r[1]) for r in res])
    elif case["form"] == "series":
        i = g.permutation(n) + 4
        mags, flux = call(pd.Series(band, index=i), pd.Series(air, index=i), pd.Series(t, index=i))
    else:
        mags, flux = call(band, air, t)
    close(np.asarray(mags), exp, rtol=1e-12, msg="magnitude of one electron")
    close(np.asarray(flux), njy(exp), rtol=1e-10, msg="flux of one electron")
    rec.nontrivial(n >= 2)
    rec.label(case["coeffs"], case["form"])
    # limiting magnitudes
    p = dict(
        maglim=g.uniform(15, 26, size=n), sky=10.0 ** g.uniform(-1, 4, size=n), fwhm=g.uniform(0.5, 6, size=n), gain=g.uniform(0.5, 9, size=n),
        readnoise=g.uniform(0, 20, size=n), darkcurrent=g.uniform(0, 1, size=n), exptime=t, nexposure=g.integers(1, 9, size=n),
    )
    z = calculate_zp_from_maglim(**p)
    zp = njy(z)
    f = njy(p["maglim"])
    err = budget(f, zp, 2.266 * p["fwhm"] ** 2, p["sky"] * p["gain"], p["nexposure"], p["readnoise"], p["darkcurrent"], t * p["nexposure"])
    close(f / err, np.full(n, 5.0), rtol=1e-9, msg="signal to noise at the limiting magnitude")
    if n:
        s = calculate_zp_from_maglim(**{k: (int(v[0]) if k == "nexposure" else float(v[0])) for k, v in p.items()})
        close(s, z[0], rtol=1e-12, msg="zero point from scalars")


# --------------------------------------------------------------------------------------
ROMAN = ["F062", "F087", "F106", "F129", "F146"]


def roman_tables(g):
    zp = pd.DataFrame({"element": ROMAN, "ABMag": g.uniform(24, 28, 5)})
    psf = pd.DataFrame({"Filter": ROMAN, "N_Eff_Pix": g.uniform(3, 20, 5)})
    th = pd.DataFrame({"filter": ROMAN, "rate": g.uniform(0.001, 0.2, 5)})
    zo = pd.DataFrame({"filter": ROMAN, "rate": g.uniform(0.1, 0.9, 5)})
    for t in (zp, psf, th, zo):
        p = g.permutation(5)
        t.loc[:, :] = t.iloc[p].to_numpy()
    ma = pd.DataFrame({"MATableNumber": [1001, 1002, 1003, 7], "Exptime": g.uniform(20, 300, 4)})
    for t, c in ((zp, "ABMag"), (psf, "N_Eff_Pix"), (th, "rate"), (zo, "rate")):
        t[c] = t[c].astype(float)
    return zp, psf, th, zo, ma


@check("C12", fd({
    "n": st.integers(1, 10),
    "seed": seeds(),
    "form": st.sampled_from(["array", "list", "scalar", "slice"]),
    "as_dict": st.booleans(),
    "index": st.sampled_from(["range", "offset", "shuffled"]),
    "zodi": st.sampled_from([None, 2.0, 5.5]),
    "dark": st.sampled_from([None, 0.3]),
}), quick=150)
def roman(case, rec):
    g = np.random.default_rng(case["seed"])
    n = case["n"]
    zp_t, psf_t, th_t, zo_t, ma_t = roman_tables(g)
    data = {
        "RA": g.uniform(0, 360, n), "DEC": g.uniform(-60, 60, n), "PA": g.uniform(0, 360, n), "BANDPASS": g.choice(ROMAN, n),
        "MA_TABLE_NUMBER": g.choice([1001, 1002, 1003, 7], n), "PASS": g.choice([1, 3, 4, 10], n), "note": np.arange(n),
    }
    raw = pd.DataFrame(data)
    if case["index"] == "offset":
        raw.index = np.arange(n) + 3
    elif case["index"] == "shuffled":
        raw.index = g.permutation(n)
    if case["as_dict"]:
        raw = {k: v.copy() for k, v in data.items()}
    kw = {}
    if case["zodi"] is not None:
        kw["zodi_level"] = case["zodi"]
    if case["dark"] is not None:
        kw["dark_current"] = case["dark"]

    def read(url, *a, **k):
        for part, t in (("PSFstats", psf_t), ("zeropoints", zp_t), ("thermal", th_t), ("zodiacal", zo_t)):
            if part in str(url):
                return Table.from_pandas(t)
        raise AssertionError(url)

    d = tempfile.mkdtemp(prefix="verif_c12_")
    try:
        path = os.path.join(d, "ma.csv")
        ma_t.to_csv(path, index=False)
        with mock.patch.object(Table, "read", read):
            table = RomanObsTable(raw, ma_table_path=path, **kw)
    finally:
        shutil.rmtree(d)
    look = lambda t, key, col, names: np.array([t.loc[t[key] == f, col].iloc[0] for f in names], dtype=float)
    band = data["BANDPASS"]
    t = look(ma_t, "MATableNumber", "Exptime", data["MA_TABLE_NUMBER"])
    zp1 = njy(look(zp_t, "element", "ABMag", band))
    npix = look(psf_t, "Filter", "N_Eff_Pix", band)
    sky = t * ((case["zodi"] or 1.5) * look(zo_t, "filter", "rate", band) + look(th_t, "filter", "rate", band))
    passes = np.unique(data["PASS"])
    times = 61304.0 + 5.0 * np.searchsorted(passes, data["PASS"])
    same(np.asarray(table["time"]), times, "Roman times")
    close(np.asarray(table["exptime"]), t, rtol=1e-9, msg="Roman exposure times")
    close(np.asarray(table["zp"]), zp1, rtol=1e-9, msg="Roman zero points")
    same(np.asarray(table["filter"]).astype(str), band.astype(str), "Roman filters")
    same(np.asarray(table["note"]), data["note"], "Roman rows")
    m = t / 3.04
    rn2 = 25.0 + 3072.0 * (m - 1) / (m * (m + 1))
    idx = np.arange(n) if case["form"] == "slice" else g.integers(0, n, size=int(g.integers(1, 8)))
    flux = 10.0 ** g.uniform(-2, 6, size=len(idx))
    zp = zp1 / t
    v = flux / zp[idx] + npix[idx] * (sky[idx] + (case["dark"] or 0.0) * t[idx]) + rn2[idx]
    got = np.asarray(query(table, flux, idx, case["form"]), dtype=float)
    close(got, zp[idx] * np.sqrt(v), rtol=1e-7, msg=f"Roman errors of rows {idx.tolist()}")
    again = np.asarray(query(table, flux, idx, case["form"]), dtype=float)
    same(again, got, "the same question again")
    rec.nontrivial(n >= 2)
    rec.label(case["form"], case["index"])

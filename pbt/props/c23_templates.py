import os
import tempfile

import numpy as np
from astropy.table import Table
from hypothesis import strategies as st
from scipy import stats

from lightcurvelynx.astro_utils.passbands import Passband, PassbandGroup
from lightcurvelynx.math_nodes.np_random import NumpyRandomFunc
from lightcurvelynx.models.lightcurve_template_model import (
    LightcurveData,
    LightcurveTemplateModel,
    MultiLightcurveTemplateModel,
)

from ..core import check, close, describe, raises, require, same
from ..gen import fd, seeds

describe(
    "C23",
    "Cases are tabulated light curves (per-filter tables of their own lengths and spans, arrays with a filter column, "
    "error columns, integers, magnitudes or fluxes, baselines, any epoch; periodic or not; LCLIB tables and files), "
    "queried at the tabulated times, between them, at the ends and outside; non-trivial when queries fall inside and "
    "outside the tabulated span or in several periods.",
    [
        "a periodic template is queried on a phase grid where wrapping is exact to rounding",
        "template models are band-flux models: their spectra are obtained with compute_sed",
    ],
)

LOWS = [4000.0, 5000.0, 6000.0, 7000.0]
NAMES = {"letters": ["g", "r", "i", "z"], "words": ["gg", "g", "long g", "1g"], "prefix": ["r", "r2", "Lr", "r_2"]}
_PB = {}


def passbands(kind, names="letters"):
    """Box-like bands: apart from each other, or overlapping at their sides."""
    if (kind, names) not in _PB:
        out = []
        for f, lo in zip(NAMES[names], LOWS, strict=True):
            width = {"apart": 800.0, "overlap": 1300.0, "touch": 1000.0, "square": 700.0}[kind]
            x = np.linspace(lo, lo + width, 9)
            y = np.array([0.0, 0.5, 0.9, 1.0, 0.8, 0.9, 0.7, 0.4, 0.0])
            if kind == "square":
                y[[0, -1]] = 0.6
            out.append(Passband(np.column_stack([x, y]), "S", f, delta_wave=20.0 if kind != "touch" else 37.0, trim_quantile=None))
        _PB[kind, names] = PassbandGroup(given_passbands=out)
    return _PB[kind, names]


def nanojansky(mag):
    return 10.0 ** ((31.4 - np.asarray(mag, dtype=float)) / 2.5)


FORM = fd({
    "filters": st.integers(1, 4), "n": st.integers(1, 7), "form": st.sampled_from(["dict", "dict3", "array", "array_str", "int"]), "mags": st.booleans(),
    "baseline": st.booleans(), "epoch": st.sampled_from([0.0, 5.0, -7.5, 59000.25]), "periodic": st.sampled_from([False, False, True]), "seed": seeds(),
    "auto": st.booleans(), "names": st.sampled_from(["words", "letters", "prefix"]),
})


def curves(f, integer_times=True):
    """Times (multiples of 1/8, relative to the epoch) and values of every filter, the data to pass, and the options."""
    g = np.random.default_rng([f["seed"], 23])
    names = NAMES[f["names"]][: f["filters"]]
    g.shuffle(names)
    n = max(f["n"], 3) if f["periodic"] else f["n"]
    t = {}
    whole = f["form"] == "int"
    for name in names:
        k = n if f["periodic"] else int(g.integers(1, n + 1))
        x = np.sort(g.choice(np.arange(-60, 90), size=k, replace=False)).astype(float)
        t[name] = x if whole else x / 8 * 4
        if f["periodic"]:
            t[name] = t[names[0]] - (t[names[0]][0] if name == names[0] else 0)
    v = {}
    for name in names:
        x = g.uniform(15, 25, len(t[name])) if f["mags"] else g.uniform(-5, 100, len(t[name]))
        v[name] = np.round(x) if whole else np.round(x, 3)
        if f["periodic"]:
            v[name][-1] = v[name][0]
    base = {name: float(np.round(g.uniform(18, 25) if f["mags"] else g.uniform(0, 5), 2)) for name in names}
    if whole:
        base = {k: int(x) for k, x in base.items()}
    epoch = np.round(f["epoch"]) if whole else f["epoch"]
    # the first time of periodic data is the epoch, given or found
    lc_t0 = 0.0 if (f["periodic"] and f["auto"]) else epoch
    if f["form"] == "int":
        data = {k: np.column_stack([t[k] + epoch, v[k]]).astype(int) for k in names}
        lc_t0 = int(lc_t0)
    elif f["form"] == "dict":
        data = {k: np.column_stack([t[k] + epoch, v[k]]) for k in names}
    elif f["form"] == "dict3":
        data = {k: np.column_stack([t[k] + epoch, v[k], np.full(len(t[k]), 0.5)]) for k in names}
    else:
        rows = [(a + epoch, b, k) for k in names for a, b in zip(t[k], v[k], strict=True)]
        if f["form"] == "array":
            data = np.empty((len(rows), 3), dtype=object)
            for i, row in enumerate(rows):
                data[i] = row
            # rows of the filters interleaved, in time order within each filter
            order = np.argsort([row[0] + 0.001 * len(row[2]) for row in rows], kind="stable")
            data = data[order]
        else:
            data = np.array(rows)  # strings
    flux = {k: nanojansky(v[k]) if f["mags"] else v[k] for k in names}
    b = {k: 0.0 for k in names}
    if f["baseline"] and not f["periodic"]:
        b = {k: float(nanojansky(base[k])) if f["mags"] else float(base[k]) for k in names}
    kw = {"baseline": base if f["baseline"] else None, "periodic": f["periodic"]}
    return {"t": t, "flux": flux, "base": b, "data": data, "lc_t0": lc_t0, "kw": kw, "names": names, "epoch": epoch}


def tabulated(c, f, name, phase):
    """Reference: the value of one filter at times relative to the epoch."""
    t, v = c["t"][name], c["flux"][name]
    out = np.full(len(phase), c["base"][name])
    for i, p in enumerate(phase):
        if f["periodic"]:
            period = t[-1] - t[0]
            p = min(max(p - np.floor(p / period) * period, t[0]), t[-1])  # rounding of the reduction
        if p < t[0] or p > t[-1]:
            continue
        j = int(np.searchsorted(t, p))
        if t[min(j, len(t) - 1)] == p:
            out[i] = v[j]
        else:
            u = (p - t[j - 1]) / (t[j] - t[j - 1])
            out[i] = v[j - 1] * (1 - u) + v[j] * u
    return out


def queries(c, f, g, name, n=6):
    t = c["t"][name]
    span = t[-1] - t[0] if len(t) > 1 else 10.0
    k = [t[g.integers(len(t), size=n)], np.array([t[0], t[-1]]), g.uniform(t[0], t[-1], n) if len(t) > 1 else t,
         np.array([t[0] - 0.125, t[-1] + 0.125, t[0] - 50.5, t[-1] + 80.25])]
    if f["periodic"]:
        k.append(g.uniform(t[0], t[-1], 3) + span * g.integers(-5, 6, 3))
        k.append(t[g.integers(len(t), size=3)] + span * g.integers(-5, 6, 3))
    q = np.concatenate(k)
    g.shuffle(q)
    return q


def snapshot(data):
    return {k: v.copy() for k, v in data.items()} if isinstance(data, dict) else data.copy()


def unchanged(data, snap):
    if isinstance(data, dict):
        for k in snap:
            same(data[k], snap[k], "input table")
    else:
        require(np.array_equal(data, snap), "input array")


def make(c, f):
    if f["mags"]:
        return LightcurveData(c["data"], c["lc_t0"], magnitudes_in=True, **c["kw"])
    return LightcurveData(c["data"], c["lc_t0"], **c["kw"])


@check("C23", fd({"f": FORM, "t0": st.sampled_from([0.0, 12.5, 60000.75, "rand", -3.25]), "via": st.sampled_from(["model", "data", "multi"]), "bands": st.sampled_from(["apart", "overlap", "touch", "square"]),
                  "seed": seeds()}), quick=900)
def bandfluxes(case, rec):
    f = case["f"]
    c = curves(f)
    g = np.random.default_rng([case["seed"], 3])
    snap = snapshot(c["data"])
    kw = dict(c["kw"])
    bsnap = None if kw["baseline"] is None else dict(kw["baseline"])
    pbs = passbands(case["bands"], f["names"])
    t0 = NumpyRandomFunc("uniform", low=10.0, high=20.0) if case["t0"] == "rand" else case["t0"]
    if case["via"] == "model" and not f["mags"]:
        m = LightcurveTemplateModel(c["data"], pbs, c["lc_t0"], t0=t0, node_label="m", **kw)
    elif case["via"] == "multi":
        m = MultiLightcurveTemplateModel([make(c, f)], pbs, t0=t0, node_label="m")
    else:
        m = LightcurveTemplateModel(make(c, f), pbs, c["lc_t0"], t0=t0, node_label="m")
    unchanged(c["data"], snap)
    require(kw["baseline"] is None or kw["baseline"] == bsnap, "the given baseline is not changed")
    require(set(m.filters) == set(c["names"]), f"filters {m.filters}")
    state = m.sample_parameters(num_samples=2, rng_info=np.random.default_rng([case["seed"], 1]))
    hits = 0
    for i in range(2):
        one = state.extract_single_sample(i)
        shift = float(one["m"]["t0"])
        phases = {k: queries(c, f, g, k) for k in c["names"]}
        if case["t0"] == "rand" or (f["periodic"] and abs(shift) > 100):
            # rounding of the shift: stay away from the ends of the span
            phases = {k: p[np.abs(np.subtract.outer(p, [c["t"][k][0], c["t"][k][-1]])).min(axis=1) > 1e-3] for k, p in phases.items()}
        filt = np.concatenate([[k] * len(p) for k, p in phases.items()]).astype(str)
        ph = np.concatenate(list(phases.values()))
        order = g.permutation(len(ph))
        filt, ph = filt[order], ph[order]
        want = np.zeros(len(ph))
        for k in c["names"]:
            want[filt == k] = tabulated(c, f, k, ph[filt == k])
        got = m.evaluate_bandfluxes(pbs, ph + shift, filt, one)
        scale = max(np.abs(v).max() for v in c["flux"].values())
        # near the ends of a span between two tabulated values rounding moves along the line
        close(got, want, rtol=1e-6, atol=1e-7 * scale, msg=f"tabulated band fluxes (t0={shift})")
        inside = np.array([c["t"][k][0] <= p <= c["t"][k][-1] for k, p in zip(filt, ph, strict=True)])
        hits += inside.any() and not inside.all()
        # the spectrum seen through the passbands
        sed = m.compute_sed(ph + shift, pbs.waves, one)
        require(sed.shape == (len(ph), len(pbs.waves)), "shape of the spectrum")
        ends = m.compute_sed(ph + shift, pbs.waves[[0, -1]] + np.array([-0.5, 0.5]) * (1 + 500 * i), one)
        same(ends, np.zeros((len(ph), 2)), "spectrum outside all passbands")
        for k in c["names"]:
            if f["periodic"] or len(c["names"]) > 0:
                through = pbs.fluxes_to_bandflux(sed[filt == k], k)
                close(through, want[filt == k], rtol=1e-5, atol=1e-6 * scale, msg=f"spectrum through passband {k}")
                own = m.compute_sed(ph[filt == k] + shift, pbs[k].waves, one)
                close(pbs[k].fluxes_to_bandflux(own), want[filt == k], rtol=1e-5, atol=1e-6 * scale, msg=f"spectrum on the grid of {k}")
    unchanged(c["data"], snap)
    rec.nontrivial(hits > 0)
    rec.label(f["form"], "periodic" if f["periodic"] else "single", "mag" if f["mags"] else "flux")


@check("C23", fd({"f": FORM, "seed": seeds(), "shift": st.sampled_from([0.0, 17.25, -250.5, 59000.0])}), quick=250)
def rigid_shift(case, rec):
    """Moving the data's epoch with its times, or t0 with the queries, changes nothing."""
    f = dict(case["f"], form="dict", auto=False)
    c = curves(f)
    g = np.random.default_rng([case["seed"], 4])
    s = case["shift"]
    moved = {k: v + np.array([s, 0.0]) for k, v in c["data"].items()}
    kw = {"magnitudes_in": f["mags"], **c["kw"]}
    a = LightcurveData(c["data"], c["lc_t0"], **kw)
    b = LightcurveData(moved, c["lc_t0"] + s, **kw)
    require(a.filters == c["names"], "filters in the given order")
    pbs = passbands("apart", f["names"])
    ma = LightcurveTemplateModel(a, pbs, 0.0, t0=1.5)
    mb = LightcurveTemplateModel(b, pbs, 0.0, t0=1.5 + s)
    for k in c["names"]:
        p = queries(c, f, g, k)
        # all the numbers are multiples of 1/8 except the random phases: exact at the tabulated times
        p = np.round(p * 8) / 8
        filt = np.full(len(p), k)
        x = ma.evaluate_bandfluxes(pbs, p + 1.5, filt, ma.sample_parameters())
        y = mb.evaluate_bandfluxes(pbs, p + 1.5 + s, filt, mb.sample_parameters())
        close(y, x, rtol=1e-9, atol=1e-12, msg="rigidly shifted curve")
    if f["periodic"]:
        period = c["t"][c["names"][0]][-1]
        require(abs(a.period - period) < 1e-9, f"period {a.period}")
        for k in c["names"]:
            p = g.uniform(0.01, 0.99, 5) * period
            st_ = ma.sample_parameters()
            x = ma.evaluate_bandfluxes(pbs, p + 1.5, np.full(5, k), st_)
            for m in (1, -1, 7, -12):
                y = ma.evaluate_bandfluxes(pbs, p + 1.5 + m * period, np.full(5, k), st_)
                close(y, x, rtol=1e-7, atol=1e-8 * np.abs(x).max(), msg=f"repeats after {m} periods")
    rec.nontrivial(s != 0)


@check("C23", fd({
    "fs": st.lists(FORM, min_size=2, max_size=4), "weights": st.sampled_from(["none", "given", "zero"]), "seed": seeds(),
}), quick=100)
def several(case, rec):
    """The selected template alone determines the flux, chosen by the weights."""
    g = np.random.default_rng([case["seed"], 5])
    names = case["fs"][0]["names"]
    fs = [dict(f, filters=4, names=names) for f in case["fs"]]
    cs = [curves(f) for f in fs]
    pbs = passbands("overlap", names)
    w = None
    if case["weights"] != "none":
        w = np.round(g.uniform(0.1, 3, len(cs)), 2)
        if case["weights"] == "zero":
            w[int(g.integers(len(cs)))] = 0.0
    m = MultiLightcurveTemplateModel([make(c, f) for c, f in zip(cs, fs, strict=True)], pbs, weights=w, t0=2.5, node_label="m")
    require(len(m) == len(cs), "number of templates")
    ns = 400
    state = m.sample_parameters(num_samples=ns, rng_info=np.random.default_rng([case["seed"], 1]))
    sel = np.asarray(state["m"]["selected_lightcurve"], dtype=int)
    p = np.full(len(cs), 1 / len(cs)) if w is None else w / w.sum()
    for i in range(len(cs)):
        require(stats.binomtest(int((sel == i).sum()), ns, float(p[i])).pvalue > 1e-10 if 0 < p[i] < 1 else (sel == i).sum() == ns * p[i], "chosen by weight")
        for k in NAMES[names]:
            got = np.asarray(state["m"][f"baseline_{k}"])[sel == i]
            close(got, np.full(len(got), make(cs[i], fs[i]).baseline[k]), rtol=1e-12, msg="recorded baseline of the selected template")
    for i in np.unique(sel):
        one = state.extract_single_sample(int(np.flatnonzero(sel == i)[0]))
        c, f = cs[i], fs[i]
        for k in NAMES[names]:
            ph = queries(c, f, g, k)
            ph = ph[np.abs(np.subtract.outer(ph, [c["t"][k][0], c["t"][k][-1]])).min(axis=1) > 1e-3]
            want = tabulated(c, f, k, ph)
            got = m.evaluate_bandfluxes(pbs, ph + 2.5, np.full(len(ph), k), one)
            close(got, want, rtol=1e-6, atol=1e-7 * np.abs(c["flux"][k]).max(), msg="flux of the selected template")
            sed = m.compute_sed(ph + 2.5, pbs.waves, one)
            close(pbs.fluxes_to_bandflux(sed, k), want, rtol=1e-5, atol=1e-6 * np.abs(c["flux"][k]).max(), msg="spectrum of the selected template")
    rec.nontrivial(len(np.unique(sel)) > 1)


# -------------------------------------------------------------------------------------- LCLIB
@check("C23", fd({
    "n": st.integers(2, 7), "nf": st.integers(1, 4), "recur": st.sampled_from(["NON-RECUR", "RECUR-PERIODIC", "PERIODIC", "RECUR-NONPERIODIC", None]),
    "type": st.sampled_from(["S+T", "S", "none", "S+TT"]), "closed": st.sampled_from(["no", "all", "one", "last"]), "each": st.booleans(), "t0": st.sampled_from([None, 0.0, 3.0]),
    "start": st.sampled_from([0.0, 5.0, -3.5]), "subset": st.booleans(), "file": st.sampled_from([False, False, True]), "seed": seeds(), "names": st.sampled_from(["words", "letters", "prefix"]),
}), quick=400)
def lclib(case, rec):
    g = np.random.default_rng([case["seed"], 6])
    kind = "letters" if case["file"] else case["names"]
    names = NAMES[kind][: case["nf"]]
    pbs = passbands("apart", kind)
    n = case["n"]
    period = case["recur"] in ("RECUR-PERIODIC", "PERIODIC")
    t = case["start"] + np.concatenate([[0.0], np.cumsum(g.integers(1, 9, n - 1) / 4)])
    mags = {k: np.round(g.uniform(15, 22, n), 3) for k in names}
    closed = names if case["closed"] == "all" else {"one": names[:1], "last": names[-1:]}.get(case["closed"], [])
    for k in closed:
        mags[k][-1] = mags[k][0]
    base = {k: float(np.round(g.uniform(18, 23), 3)) for k in names}
    rows = [("S", t[i], *[mags[k][i] for k in names]) for i in range(n)]
    kind = "S+T" if case["file"] and case["type"] == "none" else case["type"]
    if kind.startswith("S+T"):
        rows.insert(int(g.integers(len(rows) + 1)), ("T", 0.0, *[base[k] for k in names]))
        if kind == "S+TT":
            rows.append(("T", float(g.choice([1.0, -1.0, 0.0])), *[30.0 for _ in names]))
    keep = [str(x) for x in g.permutation(names)][: int(g.integers(1, len(names) + 1))] if case["subset"] else None
    used = [k for k in names if keep is None or k in keep]
    force = case["t0"]
    if period:
        force = None if case["t0"] is None else float(case["start"])
    if case["file"]:
        with tempfile.TemporaryDirectory(prefix="verif_c23_") as d:
            path = os.path.join(d, "lib.txt")
            with open(path, "w") as fp:
                fp.write("DOCUMENTATION:\n  PURPOSE: test\nDOCUMENTATION_END:\n")
                if case["recur"]:
                    fp.write(f"RECUR_CLASS: {case['recur']}\n")
                fp.write(f"FILTERS: {''.join(names)}\n")
                for ev in range(2):
                    fp.write(f"START_EVENT: {ev}\n")
                    for r in rows:
                        fp.write(f"{r[0]}: {float(r[1])!r} " + " ".join(repr(float(x) + ev) for x in r[2:]) + "\n")
                    fp.write(f"END_EVENT: {ev}\n")
            given = force
            if case["each"] and force is not None:  # one epoch per event, which must be as many as there are events
                given = [force, force] if g.random() < 0.5 else np.array([force, force])
                for k in (1, 3, 0):
                    raises(ValueError, lambda k=k: MultiLightcurveTemplateModel.from_lclib_file(path, pbs, forced_lc_t0=[force] * k, filters=keep, t0=4.0), f"{k} epochs for 2 events")
            m = MultiLightcurveTemplateModel.from_lclib_file(path, pbs, forced_lc_t0=given, filters=keep, t0=4.0, node_label="m")
        require(len(m) == 2, "one template per event")
    else:
        tab = Table({"time": [r[1] for r in rows]})
        if case["type"] != "none":
            tab["type"] = [r[0] for r in rows]
        for j, k in enumerate(names):
            tab[k] = [r[2 + j] for r in rows]
        if case["recur"]:
            tab.meta["RECUR_CLASS"] = case["recur"]
        before = tab.copy()
        lc = LightcurveData.from_lclib_table(tab, forced_lc_t0=force, filters=keep)
        require(tab.colnames == before.colnames and all(np.array_equal(tab[c], before[c]) for c in tab.colnames), "the table is not modified")
        same(lc.filters, used, "filters in the order of the columns")
        m = MultiLightcurveTemplateModel([lc], pbs, t0=4.0, node_label="m")
    state = m.sample_parameters(num_samples=6, rng_info=np.random.default_rng([case["seed"], 1]))
    epoch = t[0] if force is None else force
    rel = t - epoch
    all_closed = all(np.isclose(mags[k][0], mags[k][-1], rtol=0, atol=1e-9) for k in used)
    c = {"t": {}, "flux": {}, "base": {}}
    for k in used:
        x, y = rel, nanojansky(mags[k])
        if period and not all_closed:
            x = np.append(rel, rel[-1] + (rel[-1] - rel[0]) / (n - 1))
            y = np.append(y, y[0])
        c["t"][k], c["flux"][k] = x, y
        c["base"][k] = float(nanojansky(base[k])) if kind.startswith("S+T") and not period else 0.0
    f = {"periodic": period}
    for i in range(6):
        one = state.extract_single_sample(i)
        dim = nanojansky(31.4 + (int(one["m"]["selected_lightcurve"]) if case["file"] else 0))
        for k in used:
            ph = queries(c, f, g, k)
            ph = ph[np.abs(np.subtract.outer(ph, [c["t"][k][0], c["t"][k][-1]])).min(axis=1) > 1e-3]
            want = tabulated(c, f, k, ph) * dim
            got = m.evaluate_bandfluxes(pbs, ph + 4.0, np.full(len(ph), k), one)
            close(got, want, rtol=1e-6, atol=1e-7 * np.abs(c["flux"][k]).max(), msg=f"light curve library, filter {k}")
    rec.nontrivial(n > 2)
    rec.label(str(case["recur"]), case["type"])


@check("C23", fd({"what": st.sampled_from([
    "unsorted", "repeated", "columns", "type", "array columns", "baseline", "no t0", "passband", "filter", "period times", "period ends", "period epoch", "one point",
    "lclib time", "lclib filters", "lclib class", "multi type"]), "seed": seeds()}), quick=80)
def refused(case, rec):
    g = np.random.default_rng([case["seed"], 7])
    t = np.cumsum(g.uniform(0.5, 2, 5))
    v = g.uniform(1, 10, 5)
    v[-1] = v[0]
    lc = {"g": np.column_stack([t, v]), "r": np.column_stack([t, v + 1])}
    pbs = passbands("apart")
    k = case["what"]
    tab = Table({"time": t, "g": v})
    if k in ("unsorted", "repeated"):
        i = int(g.integers(4))
        lc["r"][i + 1, 0] = lc["r"][i, 0] - (0.1 if k == "unsorted" else 0.0)
        raises(ValueError, lambda: LightcurveData(lc, 0.0), k)
    elif k == "columns":
        raises(ValueError, lambda: LightcurveData({"g": np.ones((3, 4))}, 0.0), k)
        raises(ValueError, lambda: LightcurveData({"g": np.ones(3)}, 0.0), k)
    elif k == "type":
        raises(TypeError, lambda: LightcurveData([1, 2], 0.0), k)
    elif k == "array columns":
        raises(ValueError, lambda: LightcurveData(np.ones((3, 2)), 0.0), k)
    elif k == "baseline":
        raises(ValueError, lambda: LightcurveData(lc, 0.0, baseline={"g": 1.0}), k)
    elif k == "no t0":
        raises(ValueError, lambda: LightcurveTemplateModel(lc, pbs, 0.0), k)
    elif k == "passband":
        raises(ValueError, lambda: LightcurveTemplateModel(dict(lc, y=lc["g"]), pbs, 0.0, t0=0.0), k)
    elif k == "filter":
        m = LightcurveTemplateModel(lc, pbs, 0.0, t0=0.0)
        raises(ValueError, lambda: m.evaluate_bandfluxes(pbs, t, np.array(["g", "r", "i", "g", "g"]), m.sample_parameters()), k)
    elif k == "period times":
        lc["r"][1:3, 0] += 0.01
        raises(ValueError, lambda: LightcurveData(lc, t[0], periodic=True), k)
    elif k == "period ends":
        lc["r"][-1, 1] += 0.5
        raises(ValueError, lambda: LightcurveData(lc, t[0], periodic=True), k)
    elif k == "period epoch":
        raises(ValueError, lambda: LightcurveData(lc, t[2], periodic=True), k)
    elif k == "one point":
        raises(ValueError, lambda: LightcurveData({"g": np.array([[1.0, 2.0]])}, 1.0, periodic=True), k)
        raises(ValueError, lambda: LightcurveData({}, 1.0, periodic=True), "no curves")
    elif k == "lclib time":
        tab.rename_column("time", "mjd")
        raises(ValueError, lambda: LightcurveData.from_lclib_table(tab), k)
    elif k == "lclib filters":
        raises(ValueError, lambda: LightcurveData.from_lclib_table(tab, filters=["z"]), k)
    elif k == "lclib class":
        tab.meta["RECUR_CLASS"] = "SOMETIMES"
        raises(ValueError, lambda: LightcurveData.from_lclib_table(tab), k)
    else:
        raises(TypeError, lambda: MultiLightcurveTemplateModel([lc], pbs, t0=0.0), k)
    rec.nontrivial(True)
    rec.label(k)

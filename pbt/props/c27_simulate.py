import numpy as np
import pandas as pd
from hypothesis import strategies as st

from lightcurvelynx.astro_utils.passbands import Passband, PassbandGroup
from lightcurvelynx.graph_state import GraphState
from lightcurvelynx.math_nodes.given_sampler import GivenValueList
from lightcurvelynx.obstable.fake_obs_table import FakeObsTable
from lightcurvelynx.models.basic_models import ConstantSEDModel, StepModel
from lightcurvelynx.models.multi_object_model import AdditiveMultiObjectModel, RandomMultiObjectModel
from lightcurvelynx.models.physical_model import SEDModel
from lightcurvelynx.models.static_sed_model import StaticBandfluxModel
from lightcurvelynx.simulate import get_time_windows, simulate_lightcurves

from .. import surveys, zoo
from ..core import check, close, describe, raises, require, same
from ..gen import fd, gr, seeds
from .c09_search import position_of

describe(
    "C27",
    "Cases are lists of one to three surveys (any class, footprint, filtering and row index) and batches of objects with "
    "generated positions, redshifts, reference times, windows and masks; the result table is compared row by row with a brute "
    "force matching; non-trivial when some object has observations and not every exposure matches.",
    ["exposures within 1e-7 degrees of the search radius, or within 0.3 % of a footprint's edge, may or may not be returned",
     "without a reference time no time window is applied (documented)",
     "the order of the observations in a light curve is not specified"],
)

_PB = {}


def passbands(k=0):
    """Six bands, slightly different for every survey."""
    if k not in _PB:
        out = []
        for i, f in enumerate(surveys.FILTS):
            lo = 3000.0 + 1000.0 * i + 40.0 * k
            out.append(Passband(np.array([[lo, 0.0], [lo + 300, 1.0], [lo + 900, 0.6], [lo + 1200, 0.0]]), f"S{k}", f, delta_wave=150.0, trim_quantile=None))
        _PB[k] = PassbandGroup(out)
    return _PB[k]


class Masked(SEDModel):
    """Flux a + time, and a mask given by two of its parameters."""

    def compute_sed(self, times, wavelengths, graph_state, **kwargs):
        a = self.get_param(graph_state, "a")
        return a + np.asarray(times)[:, None] + 0.0 * np.asarray(wavelengths)[None, :]

    def mask_by_time(self, times, graph_state=None):
        p = self.get_local_params(graph_state)
        return (np.asarray(times) >= p["first"]) & (np.asarray(times) < p["last"])


KINDS = ["opsim", "ztf", "fake", "fake_const"]
SURVEY = fd({
    "spec": st.one_of(*[surveys.spec_st(kinds=KINDS, lo=12, hi=36)] * 3, surveys.spec_st(kinds=KINDS, lo=0, hi=3)), "foot": st.one_of(st.none(), st.none(), surveys.foot_st),
    "filter": st.sampled_from([False, False, True]),
})
POS = st.one_of(surveys.row_st, surveys.row_st, st.integers(0, 30).map(lambda i: ["row", i]))
OFFSET = st.sampled_from([[10.0, 20.0], None, [10.0, 5.0], [0.0, 20.0], [None, 4.0], [8.0, None], [3, 7], [-2.0, 6.5], [20.0, -4.5], [-3, 12], [6, -2], [0.0, 0.0]])
SAVE = ["tag", "note", "airmass", "time", "zp", "sky", "maglim", "observationStartMJD", "not there"]


def table_of(s, k, radius):
    spec = dict(s["spec"])
    data = surveys.columns(spec)
    data["note"] = np.array([f"n{(7 * int(v)) % 13} {int(v)}" for v in data["tag"]], dtype=str)
    kw = {"radius": radius}
    rot = None
    if s["foot"] is not None:
        kw["detector_footprint"] = surveys.footprint(s["foot"])
        if spec["kind"] in ("fake", "fake_const"):
            kw["pixel_scale"] = 0.3
        if s["foot"]["rot"]:
            rot = np.random.default_rng([spec["seed"], 2]).choice([0.0, 30.0, 90.0, -45.0, 77.5], size=len(data["ra"]))
            data = dict(data, rotation=rot)
    t = surveys.make(spec, data, **kw)
    if s["filter"] and len(data["ra"]):
        keep = np.random.default_rng([spec["seed"], 3, k]).random(len(data["ra"])) < 0.6
        t = t.filter_rows(keep)
        data = {c: v[keep] for c, v in data.items()}
        rot = None if rot is None else rot[keep]
    return t, data, rot


def lightcurve(res, i):
    lc = res["lightcurve"].iloc[i]
    if lc is None or (not isinstance(lc, pd.DataFrame)):
        return None
    return lc


def null(x):
    return x is None or (isinstance(x, float) and np.isnan(x))


@check("C27", fd({
    "surveys": st.lists(SURVEY, min_size=1, max_size=3), "radius": st.sampled_from([1.75, 4.0, 0.5, 60.0]), "pos": st.one_of(st.lists(POS, min_size=3, max_size=6), st.lists(POS, min_size=1, max_size=2)),
    "window": OFFSET, "mask": st.booleans(), "z": st.sampled_from(["list", "none", "const"]), "t0": st.sampled_from(["list", "const", "none"]),
    "save": st.lists(st.sampled_from(SAVE), unique=True, max_size=4), "pcols": st.booleans(), "as_list": st.booleans(), "seed": seeds(),
    "far": st.sampled_from([False, False, True]), "again": st.sampled_from([False, False, True]),
}), quick=350)
def objects(case, rec):
    g = np.random.default_rng([case["seed"], 27])
    radius = case["radius"]
    built = []
    for k, s in enumerate(case["surveys"]):
        if k and g.random() < 0.7:  # usually around the same place
            s = {**s, "spec": {**s["spec"], "center": case["surveys"][0]["spec"]["center"]}}
        built.append((s, *table_of(s, k, radius)))
    if case["again"]:  # the same table as another survey
        built.append(built[0])
    pos = [position_of({"pos": p}, built[0][0]["spec"], built[0][2]) for p in case["pos"]]
    if case["far"]:
        p = pos[0]
        pos.append(((p[0] + 180.0) % 360.0, -p[1]))
    n = len(pos)
    t0 = np.round(g.uniform(5, 35, n) * 4) / 4
    z = np.round(g.uniform(0, 1, n), 3)
    a, first, last = np.round(g.uniform(1, 100, n), 2), np.round(g.uniform(-5, 25, n), 2), np.round(g.uniform(15, 45, n), 2)
    if case["t0"] == "const":
        t0[:] = t0[0]
    if case["z"] == "const":
        z[:] = z[0]

    def model():
        kw = {"ra": GivenValueList([p[0] for p in pos]), "dec": GivenValueList([p[1] for p in pos])}
        if case["t0"] != "none":
            kw["t0"] = GivenValueList(t0.tolist()) if case["t0"] == "list" else float(t0[0])
        if case["z"] != "none" and case["t0"] != "none":
            kw["redshift"] = GivenValueList(z.tolist()) if case["z"] == "list" else float(z[0])
        m = Masked(node_label="obj", **kw)
        for name, v in (("a", a), ("first", first), ("last", last), ("pair", np.column_stack([a, z]))):
            m.add_parameter(name, GivenValueList(list(v)))
        return m

    has_t0, has_z = case["t0"] != "none", case["z"] != "none" and case["t0"] != "none"
    save = [c for c in case["save"]]
    if "tag" not in save:
        save = save + ["tag"]
    if not any(c in t for _, t, _, _ in built for c in ("airmass",)) and "airmass" in save and g.random() < 0.5:
        save.remove("airmass")
    kw = {"obstable_save_cols": save, "apply_obs_mask": case["mask"], "rng": np.random.default_rng([case["seed"], 1])}
    if case["window"] is not None:
        kw["time_window_offset"] = tuple(case["window"])
    if case["pcols"]:
        kw["param_cols"] = ["obj.a", "obj.last", "obj.pair"]
    tables, pbs = [t for _, t, _, _ in built], [passbands(k) for k in range(len(built))]
    if len(built) == 1 and not case["as_list"]:
        tables, pbs = tables[0], pbs[0]
    res = simulate_lightcurves(model(), n, tables, pbs, **kw)

    # the rows
    require(len(res) == n, f"{len(res)} rows for {n} objects")
    same(list(res["id"]), list(range(n)), "ids"), same(list(res.index), list(range(n)), "index")
    close(res["ra"].to_numpy(float), [p[0] for p in pos], rtol=0, atol=0, msg="right ascensions")
    close(res["dec"].to_numpy(float), [p[1] for p in pos], rtol=0, atol=0, msg="declinations")
    if has_t0:
        same(res["t0"].to_numpy(float), t0, "reference times")
    else:
        require(all(null(x) for x in res["t0"]), "no reference times")
    if has_z:
        same(res["z"].to_numpy(float), z, "redshifts")
    else:
        require(all(null(x) for x in res["z"]), "no redshifts")
    for i in range(n):
        p = res["params"].iloc[i]
        require(p["obj.a"] == a[i] and p["obj.first"] == first[i] and p["obj.last"] == last[i] and p["obj.ra"] == pos[i][0] and p["obj.dec"] == pos[i][1],
                f"parameters of object {i}: {p}")
        require(not has_t0 or p["obj.t0"] == t0[i], "saved reference time")
        require(not has_z or p["obj.redshift"] == z[i], "saved redshift")
    if case["pcols"]:
        same(res["obj_a"].to_numpy(float), a, "saved parameter"), same(res["obj_last"].to_numpy(float), last, "saved parameter")
        same([list(v) for v in res["obj_pair"]], np.column_stack([a, z]).tolist(), "saved parameter that is a pair")
    expected_cols = {"id", "ra", "dec", "nobs", "t0", "z", "params", "lightcurve"} | ({"obj_a", "obj_last", "obj_pair"} if case["pcols"] else set())
    require(set(res.columns) == expected_cols, f"columns {list(res.columns)}")
    fields = {"mjd", "filter", "flux", "fluxerr", "flux_perfect", "survey_idx"} | set(save)
    require(set(res["lightcurve"].nest.fields) == fields, f"columns of the light curves {res['lightcurve'].nest.fields}")

    # the observations
    total, possible = 0, 0
    for i in range(n):
        lc = lightcurve(res, i)
        got = 0 if lc is None else len(lc)
        require(int(res["nobs"].iloc[i]) == got, f"object {i}: {res['nobs'].iloc[i]} observations reported, {got} in the light curve")
        lo = hi = None
        if has_t0 and case["window"] is not None:
            b, e = case["window"]
            lo = None if b is None else t0[i] - b
            hi = None if e is None else t0[i] + e
        for k, (s, table, data, rot) in enumerate(built):
            must, may = surveys.search(data, pos[i][0], pos[i][1], radius, lo, hi, s["foot"], rot)
            if case["mask"]:
                ok = (data["time"] >= first[i]) & (data["time"] < last[i])
                must, may = {j for j in must if ok[j]}, {j for j in may if ok[j]}
            possible += len(data["ra"])
            rows = lc[lc["survey_idx"] == k] if lc is not None else pd.DataFrame({c: [] for c in fields})
            tags = [int(x) for x in rows["tag"]]
            where = {int(v): j for j, v in enumerate(data["tag"])}
            require(len(set(tags)) == len(tags), f"object {i}, survey {k}: an exposure twice")
            idx = [where[x] for x in tags]
            require(must <= set(idx) <= must | may, f"object {i}, survey {k}: exposures {sorted(idx)}, expected {sorted(must)} (undecided {sorted(may)})")
            same(rows["mjd"].to_numpy(float), data["time"][idx], f"object {i}, survey {k}: times")
            same([str(x) for x in rows["filter"]], [str(x) for x in data["filter"][idx]], f"object {i}, survey {k}: filters")
            for c in save:
                if c == "note":
                    same([str(x) for x in rows[c]], [str(x) for x in data[c][idx]], f"object {i}, survey {k}: text column")
                elif c in table:
                    same(np.asarray(rows[c].tolist(), dtype=float), np.asarray(table[c].to_numpy(), dtype=float)[idx], f"object {i}, survey {k}: column {c}")
                else:
                    require(all(null(x) for x in rows[c]), f"object {i}, survey {k}: column {c} that the survey does not have")
            if len(idx):
                rest = data["time"][idx] if not has_z else t0[i] + (data["time"][idx] - t0[i]) / (1 + z[i])
                want = (a[i] + rest) * (1 + (z[i] if has_z else 0.0))
                close(rows["flux_perfect"].to_numpy(float), want, rtol=1e-9, msg=f"object {i}, survey {k}: noise-free flux")
            total += len(idx)
        if lc is not None:
            require(set(np.unique(lc["survey_idx"])) <= set(range(len(built))), "survey numbers")
    rec.nontrivial(0 < total < possible)
    rec.label(f"{len(built)} surveys", "mask" if case["mask"] else "no mask", "window" if case["window"] else "no window")

    # several surveys: the union of single-survey results
    if len(built) > 1:
        for k, (_, table, _, _) in enumerate(built):
            alone = simulate_lightcurves(model(), n, table, passbands(k), **{**kw, "rng": np.random.default_rng(5)})
            for i in range(n):
                x, y = lightcurve(alone, i), lightcurve(res, i)
                y = None if y is None else y[y["survey_idx"] == k]
                nx, ny = (0 if v is None else len(v) for v in (x, y))
                require(nx == ny, f"object {i}: {nx} observations in survey {k} alone, {ny} together")
                if nx:
                    x, y = x.sort_values("tag"), y.sort_values("tag")
                    for c in ("tag", "mjd", "flux_perfect", "fluxerr"):
                        same(x[c].to_numpy(float), y[c].to_numpy(float), f"object {i}, survey {k} alone: {c}")
                    require(np.all(x["survey_idx"] == 0), "survey number of a single survey")


SPEC = zoo.model_strategy(kinds=zoo.SED_KINDS + zoo.BAND_KINDS, effects=("dim", "ml"), max_effects=1)


@check("C27", fd({
    "spec": SPEC, "n": st.sampled_from([4, 2, 7, 1]), "rows": st.sampled_from([150, 60, 5]), "mask": st.booleans(), "window": OFFSET, "two": st.booleans(),
    "pcols": st.booleans(), "seed": seeds(),
}), quick=160)
def catalogue(case, rec):
    """Every kind of model: the reported values are the object's, and its own mask decides."""
    spec, n = case["spec"], case["n"]
    m = zoo.build(spec, "m")
    g = np.random.default_rng([case["seed"], 2])
    kw = {"spread": float(g.choice([3.0, 8.0]))}
    band = any(zoo.is_band(s) for s in [spec] + spec.get("parts", []))
    ns = 2 if case["two"] and not band else 1
    obs = [zoo.opsim(case["rows"], int(g.integers(1e6)), **kw) for _ in range(ns)]
    pb = zoo.shared_passbands()
    args = {"apply_obs_mask": case["mask"], "obstable_save_cols": ["observationId"], "rng": np.random.default_rng([case["seed"], 1])}
    if case["window"] is not None:
        args["time_window_offset"] = tuple(case["window"])
    if case["pcols"]:
        args["param_cols"] = ["m.ra", "m.t0"]
    res = simulate_lightcurves(m, n, obs, [pb] * ns, **args)
    require(len(res) == n, "one row per object")
    total = 0
    for i in range(n):
        p = res["params"].iloc[i]
        state = GraphState.from_dict(p)
        for c, name in (("ra", "m.ra"), ("dec", "m.dec"), ("t0", "m.t0"), ("z", "m.redshift")):
            v = p[name]
            require(res[c].iloc[i] == v or (null(v) and null(res[c].iloc[i])), f"object {i}: {c} = {res[c].iloc[i]}, parameter {v}")
        if case["pcols"]:
            require(res["m_ra"].iloc[i] == p["m.ra"] and res["m_t0"].iloc[i] == p["m.t0"], "saved parameters")
        lc = lightcurve(res, i)
        for k, o in enumerate(obs):
            data = {"ra": o["ra"].to_numpy(), "dec": o["dec"].to_numpy(), "time": o["time"].to_numpy()}
            lo = hi = None
            if case["window"] is not None:
                b, e = case["window"]
                lo, hi = (None if b is None else p["m.t0"] - b), (None if e is None else p["m.t0"] + e)
            must, may = surveys.search(data, p["m.ra"], p["m.dec"], o.survey_values["radius"], lo, hi)
            if case["mask"]:
                ok = np.array([bool(m.mask_by_time(np.array([x]), state)[0]) for x in data["time"]], dtype=bool)
                if spec["kind"] in ("sncosmo", "salt2"):
                    z = p["m.redshift"] or 0.0
                    ph = (data["time"] - p["m.t0"]) / (1 + z)
                    first, last = (-15.0, 45.0) if spec["kind"] == "sncosmo" else (-20.0, 50.0)
                    same(ok, (ph > first) & (ph < last), "phases of interest")
                must, may = {j for j in must if ok[j]}, {j for j in may if ok[j]}
            rows = lc[lc["survey_idx"] == k] if lc is not None else pd.DataFrame({"observationId": [], "mjd": [], "filter": []})
            where = {int(v): j for j, v in enumerate(o["observationId"])}
            idx = [where[int(v)] for v in rows["observationId"]]
            require(len(set(idx)) == len(idx) and must <= set(idx) <= must | may, f"object {i}, survey {k}: exposures {sorted(idx)}, expected {sorted(must)}")
            same(rows["mjd"].to_numpy(float), data["time"][idx], "times")
            same([str(v) for v in rows["filter"]], [str(v) for v in o["filter"].to_numpy()[idx]], "filters")
            total += len(idx)
        require(int(res["nobs"].iloc[i]) == (0 if lc is None else len(lc)), "number of observations")
    rec.label(spec["kind"])
    rec.nontrivial(total > 0)


@check("C27", fd({"t0": st.one_of(gr(-10, 10), st.lists(gr(-10, 10), min_size=1, max_size=5), st.none()), "w": OFFSET}), quick=100)
def windows(case, rec):
    t0 = case["t0"]
    arr = np.array(t0) if isinstance(t0, list) else t0
    a, b = get_time_windows(arr, None if case["w"] is None else tuple(case["w"]))
    if t0 is None or case["w"] is None:
        require(a is None and b is None, "no window")
    else:
        x, y = case["w"]
        base = np.atleast_1d(np.array(t0, dtype=float))
        require((a is None) == (x is None) and (b is None) == (y is None), "open ends")
        if x is not None:
            same(np.asarray(a), base - x, "starts")
        if y is not None:
            same(np.asarray(b), base + y, "ends")
        rec.nontrivial(True)


@check("C27", fd({"what": st.sampled_from(["zero", "negative", "lists", "band", "column", "window", "band one"]), "seed": seeds()}), quick=40)
def refused(case, rec):
    m = ConstantSEDModel(5.0, ra=15.0, dec=0.0, t0=3.0, node_label="m")
    obs = [zoo.opsim(20, case["seed"] % 1000), zoo.opsim(10, case["seed"] % 999)]
    pb = zoo.shared_passbands()
    w = case["what"]
    if w == "zero":
        raises(ValueError, lambda: simulate_lightcurves(m, 0, obs[0], pb), w)
    elif w == "negative":
        raises(ValueError, lambda: simulate_lightcurves(m, -3, obs[0], pb), w)
    elif w == "lists":
        raises(ValueError, lambda: simulate_lightcurves(m, 2, obs, pb), "two surveys, one group")
        raises(ValueError, lambda: simulate_lightcurves(m, 2, obs[0], [pb, pb]), "one survey, two groups")
        raises(ValueError, lambda: simulate_lightcurves(m, 2, obs, [pb, pb, pb]), "two surveys, three groups")
    elif w == "band":
        b = StaticBandfluxModel({f: 1.0 for f in zoo.FILTERS}, ra=15.0, dec=0.0)
        raises(ValueError, lambda: simulate_lightcurves(b, 2, obs, [pb, pb]), "a band-flux model and several surveys")
        # also as a part of a composite
        s = ConstantSEDModel(brightness=3.0, ra=15.0, dec=0.0)
        parts = [[s, b], [b, s], [s, AdditiveMultiObjectModel([b, s])]][case["seed"] % 3]
        whole = (AdditiveMultiObjectModel, RandomMultiObjectModel)[case["seed"] // 3 % 2](parts, ra=15.0, dec=0.0)
        require(len(simulate_lightcurves(whole, 2, obs[:1], [pb])) == 2, "a composite with a band-flux part and one survey")
        raises(ValueError, lambda: simulate_lightcurves(whole, 2, obs, [pb, pb]), "a composite with a band-flux part and several surveys")
    elif w == "band one":
        b = StaticBandfluxModel({f: 1.0 for f in zoo.FILTERS}, ra=15.0, dec=0.0)
        require(len(simulate_lightcurves(b, 2, obs[:1], [pb])) == 2, "a band-flux model and one survey")
    elif w == "column":
        raises(KeyError, lambda: simulate_lightcurves(m, 2, obs[0], pb, param_cols=["m.ra", "m.nope"]), "unknown parameter")
        raises(KeyError, lambda: simulate_lightcurves(m, 2, obs[0], pb, param_cols=["nope.ra"]), "unknown node")
    else:
        raises(ValueError, lambda: simulate_lightcurves(m, 2, obs[0], pb, time_window_offset=(1.0, 2.0, 3.0)), "three limits")
    rec.nontrivial(True)


@check("C27", fd({"n": st.integers(1, 40), "seed": seeds()}), quick=40)
def sky_survey(case, rec):
    """Objects all over the sky and a survey with many fields: the counts of a brute force match."""
    g = np.random.default_rng([case["seed"], 9])
    n, k = case["n"], 400
    obs = zoo.opsim(k, case["seed"] % 10**6)
    ra, dec = g.uniform(0, 360, k), np.degrees(np.arcsin(g.uniform(-1, 1, k)))
    obs.add_column("ra", ra, overwrite=True)
    obs.add_column("dec", dec, overwrite=True)
    from lightcurvelynx.obstable.opsim import OpSim

    raw = pd.DataFrame({c: obs[c].to_numpy() for c in obs.columns if c not in ("zp",)})
    raw["fieldRA"], raw["fieldDec"] = raw.pop("ra"), raw.pop("dec")
    raw = raw.rename(columns={"time": "observationStartMJD", "exptime": "visitExposureTime", "seeing": "seeingFwhmEff", "skybrightness": "skyBrightness", "nexposure": "numExposures"})
    raw.index = g.permutation(k)
    obs = OpSim(raw, radius=20.0)
    pa, pd_ = g.uniform(0, 360, n), np.degrees(np.arcsin(g.uniform(-1, 1, n)))
    m = StepModel(9.0, t1=5.0, ra=GivenValueList(pa.tolist()), dec=GivenValueList(pd_.tolist()), t0=0.0)
    res = simulate_lightcurves(m, n, obs, zoo.shared_passbands(), obstable_save_cols=["observationId"], rng=np.random.default_rng(1))
    tot = 0
    for i in range(n):
        must, may = surveys.search({"ra": ra, "dec": dec, "time": raw["observationStartMJD"].to_numpy()}, pa[i], pd_[i], 20.0)
        lc = lightcurve(res, i)
        ids = set() if lc is None else {int(x) - 100 for x in lc["observationId"]}
        require(must <= ids <= must | may, f"object {i}: {sorted(ids)}, expected {sorted(must)}")
        tot += len(ids)
    rec.nontrivial(tot > 0)


@check("C27", fd({"rows": st.sampled_from([40000, 70000, 3000]), "seed": seeds()}), quick=6, thorough=30)
def long_survey(case, rec):
    """A survey of many exposures in filters with long names: each exposure that covers the object is there, with its own values."""
    g = np.random.default_rng([case["seed"], 12])
    n = case["rows"]
    names = ["LSST-camera_filter_r", "LSST-camera_filter_g", "LSST-camera_filter_r_wide"]
    pb = PassbandGroup([Passband(np.array([[lo, 0.5], [lo + 500, 1.0], [lo + 900, 0.3]]), "S", f, delta_wave=None, trim_quantile=None) for lo, f in zip((4000.0, 5000.0, 6000.0), names)])
    ra, dec = g.uniform(0, 360, n), np.degrees(np.arcsin(g.uniform(-1, 1, n)))
    pick = np.sort(g.choice(n, 300, replace=False))
    ra[pick], dec[pick] = 150.0 + g.normal(size=300) * 0.1, 2.0 + g.normal(size=300) * 0.1
    time = np.sort(g.uniform(60000, 63650, n))
    filt = g.choice(np.array(names, dtype=object), n)
    night = np.arange(n) * 7
    obs = FakeObsTable(pd.DataFrame({"ra": ra, "dec": dec, "time": time, "filter": filt, "night": night}), zp_per_band={f: 1.0 for f in names}, const_flux_error=0.5, radius=1.0)
    t0 = 61825.0
    m = ConstantSEDModel(GivenValueList([3.0, 8.0]), ra=GivenValueList([150.0, 150.05]), dec=2.0, t0=t0)
    before, after = (float(x) for x in g.uniform(100, 1500, 2))
    res = simulate_lightcurves(m, 2, obs, pb, obstable_save_cols=["night"], time_window_offset=(before, after), rng=np.random.default_rng(case["seed"]))
    total = 0
    for i, (a, b) in enumerate([(150.0, 3.0), (150.05, 8.0)]):
        must, may = surveys.search({"ra": ra, "dec": dec, "time": time}, a, 2.0, 1.0, t0 - before, t0 + after)
        lc = lightcurve(res, i)
        idx = np.array([] if lc is None else lc["night"].to_numpy() // 7, dtype=int)
        require(len(set(idx.tolist())) == len(idx) and must <= set(idx.tolist()) <= must | may, f"object {i}: {len(idx)} exposures, expected {len(must)}")
        if lc is not None:
            same(lc["mjd"].to_numpy(float), time[idx], "times")
            same([str(v) for v in lc["filter"]], [str(v) for v in filt[idx]], "filters")
            close(lc["flux_perfect"].to_numpy(float), np.full(len(idx), b), rtol=1e-9, msg="fluxes")
            close(lc["fluxerr"].to_numpy(float), np.full(len(idx), 0.5), rtol=1e-12, msg="errors")
        require(int(res["nobs"].iloc[i]) == len(idx), "number of observations")
        total += len(idx)
    rec.nontrivial(total > 50)

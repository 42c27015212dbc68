import numpy as np
from hypothesis import strategies as st
from scipy import stats

from lightcurvelynx.astro_utils.noise_model import apply_noise
from lightcurvelynx.effects.white_noise import WhiteNoise
from lightcurvelynx.graph_state import GraphState
from lightcurvelynx.math_nodes.given_sampler import GivenValueList
from lightcurvelynx.math_nodes.np_random import NumpyRandomFunc
from lightcurvelynx.models.basic_models import ConstantSEDModel, SinWaveModel
from lightcurvelynx.obstable.opsim import OpSim
from lightcurvelynx.simulate import simulate_lightcurves

from .. import surveys, zoo
from ..core import check, close, describe, require, same
from ..gen import fd, gr, logfl, seeds
from .c12_noise import AREA, budget, expected_survey
from .c27_simulate import lightcurve, passbands

describe(
    "C28",
    "Cases are simulations of every kind of model (sums, choices, effects, random parameters) in one to three surveys of "
    "different classes around the objects; every entry is recomputed from the saved parameters and the survey's own row, and "
    "the normalised residuals are tested for their distribution and for correlations; non-trivial when there are observations "
    "with different fluxes.",
    ["the documented ZTF conversion rounds a factor: its uncertainties are compared to 2e-4",
     "noise-free fluxes are not negative (the photon noise of a negative flux is not defined)",
     "distribution tests use a false-alarm probability below 1e-10 per statistic"],
)

FAST = [k for k in zoo.SED_KINDS if k != "salt2"]
SPEC = zoo.model_strategy(kinds=FAST, effects=("dim", "ext_rest", "ml", "dim_obs"), max_effects=2, modes=("rand", "const"))
BAND = zoo.model_strategy(kinds=zoo.BAND_KINDS, effects=("dim", "ml"), max_effects=1, modes=("rand", "const"), composites=False)


def close_error(err, sigma, kind, dark, msg):
    """The background of ZTF is known to 2e-4 (of the noise without a source, which matters where a negative flux takes from it)."""
    if kind == "ztf":
        close(err**2, sigma**2, rtol=4e-4, atol=np.where(sigma < dark, 4e-4 * dark**2, 0.0), msg=f"{msg} (squared)")
    else:
        close(err, sigma, rtol=1e-9, msg=msg)


def expected_error(kind, spec, data, flux, idx):
    if kind in ("opsim", "ztf"):
        return expected_survey(kind, data, {}, flux, idx)[1]
    filt = [str(f) for f in data["filter"][idx]]
    if kind == "fake_const":
        p = surveys.const_params(spec)
        return np.array([p["const_flux_error"][f] for f in filt])
    p = surveys.fake_params(spec)
    zp = np.array([p["zp_per_band"][f] for f in filt])
    area = AREA * np.array([p["fwhm_px"][f] for f in filt]) ** 2
    return budget(flux, zp, area, data["sky"][idx], data["nexposure"][idx], p["read_noise"], p["dark_current"], p["exptime"])


@check("C28", fd({
    "spec": SPEC, "kinds": st.lists(st.sampled_from(["opsim", "ztf", "fake", "fake_const"]), min_size=1, max_size=3),
    "n": st.sampled_from([4, 2, 6, 1]), "rows": st.sampled_from([12, 25, 4]), "index": st.sampled_from(["shuffled", "range", "text", "repeated"]),
    "filtered": st.booleans(), "seed": seeds(),
}), quick=220)
def entries(case, rec):
    """Every flux and uncertainty recomputed from the saved parameters and the exposure's own row."""
    m = zoo.build(case["spec"], "m")
    tables, datas, specs = [], [], []
    for k, kind in enumerate(case["kinds"]):
        g = np.random.default_rng([case["seed"], k, 28])
        rows = [[round(float(v), 3) for v in g.normal(scale=6.0, size=2)] for _ in range(case["rows"])]
        spec = {"kind": kind, "center": [15.0, 0.0], "rows": rows, "seed": case["seed"] + k, "index": case["index"], "as_dict": False, "nfilt": 6}
        data = surveys.columns(spec)
        data["time"] = np.round(data["time"] * 2 - 30, 3)
        t = surveys.make(spec, data, radius=7.0)
        if case["filtered"]:
            keep = g.random(len(data["ra"])) < 0.6
            t = t.filter_rows(keep)
            data = {c: v[keep] for c, v in data.items()}
        tables.append(t), datas.append(data), specs.append(spec)
    pbs = [passbands(k) for k in range(len(tables))]
    res = simulate_lightcurves(m, case["n"], tables, pbs, obstable_save_cols=["tag"], rng=np.random.default_rng([case["seed"], 1]))
    fresh = zoo.build(case["spec"], "m")
    fluxes = []
    for i in range(case["n"]):
        lc = lightcurve(res, i)
        if lc is None:
            continue
        state = GraphState.from_dict(res["params"].iloc[i])
        for k, (t, data) in enumerate(zip(tables, datas, strict=True)):
            rows = lc[lc["survey_idx"] == k]
            if len(rows) == 0:
                continue
            where = {int(v): j for j, v in enumerate(data["tag"])}
            idx = np.array([where[int(v)] for v in rows["tag"]])
            perfect, err, flux = (rows[c].to_numpy(float) for c in ("flux_perfect", "fluxerr", "flux"))
            want = fresh.evaluate_bandfluxes(pbs[k], data["time"][idx], data["filter"][idx], state)
            top = np.abs(want).max() + 1e-12
            close(perfect, want, rtol=1e-9, atol=1e-11 * top, msg=f"object {i}, survey {k}: fluxes from the saved parameters")
            with np.errstate(invalid="ignore"):
                sigma = expected_error(case["kinds"][k], specs[k], data, perfect, idx)
            ok = np.isfinite(sigma)
            dark = expected_error(case["kinds"][k], specs[k], data, np.zeros(len(idx)), idx)
            require(np.all(ok | (perfect < 0)), "uncertainties of positive fluxes")
            close_error(err[ok], sigma[ok], case["kinds"][k], dark[ok], f"object {i}, survey {k}: uncertainties")
            for j in range(len(idx)):
                if perfect[j] >= 0:
                    one = t.bandflux_error_point_source(perfect[j : j + 1], idx[j : j + 1])
                    close(np.asarray(one, dtype=float), err[j : j + 1], rtol=1e-12, msg="uncertainty of one exposure")
            z = (flux - perfect)[ok] / sigma[ok]
            require(np.all(np.abs(z) < 9), f"residuals of {z} standard deviations")
            require(len(z) == 0 or np.all(z != 0), "noise was added")
            fluxes.extend(perfect)
    rec.nontrivial(len(fluxes) > 1 and np.ptp(fluxes) > 0)
    rec.label(case["spec"]["kind"], f"{len(tables)} surveys")


@check("C28", fd({"spec": BAND, "n": st.sampled_from([4, 2, 6, 1]), "rows": st.sampled_from([150, 60]), "seed": seeds()}), quick=80)
def band_models(case, rec):
    m = zoo.build(case["spec"], "m")
    obs = zoo.opsim(case["rows"], case["seed"] % 10**6, spread=8.0)
    pb = zoo.shared_passbands()
    res = simulate_lightcurves(m, case["n"], obs, pb, obstable_save_cols=["observationId"], rng=np.random.default_rng([case["seed"], 1]))
    fresh = zoo.build(case["spec"], "m")
    n = 0
    for i in range(case["n"]):
        lc = lightcurve(res, i)
        if lc is None:
            continue
        idx = lc["observationId"].to_numpy(int) - 100
        t, f = obs["time"].to_numpy()[idx], obs["filter"].to_numpy()[idx]
        want = fresh.evaluate_bandfluxes(pb, t, f, GraphState.from_dict(res["params"].iloc[i]))
        close(lc["flux_perfect"].to_numpy(float), want, rtol=1e-9, atol=1e-12 * np.abs(want).max(), msg=f"object {i}: fluxes from the saved parameters")
        for j in range(len(idx)):
            one = obs.bandflux_error_point_source(np.array([want[j]]), idx[j : j + 1])
            close(np.asarray(one, dtype=float)[0], lc["fluxerr"].iloc[j], rtol=1e-9, msg="uncertainty of one exposure")
        n += len(idx)
    rec.label(case["spec"]["kind"])
    rec.nontrivial(n > 2)


@check("C28", fd({
    "kind": st.sampled_from(["opsim", "ztf", "fake"]), "n": st.sampled_from([3, 2, 1]), "depth": st.sampled_from([0.3, 0.05, 0.9]), "rows": st.sampled_from([25, 12]), "seed": seeds(),
}), quick=60)
def sources_in_absorption(case, rec):
    """Differences of fluxes may be negative: the uncertainty is still that of the reported noise-free flux."""
    g = np.random.default_rng([case["seed"], 6])
    rows = [[round(float(v), 3) for v in g.normal(scale=3.0, size=2)] for _ in range(case["rows"])]
    spec = {"kind": case["kind"], "center": [15.0, 0.0], "rows": rows, "seed": case["seed"], "index": "range", "as_dict": False, "nfilt": 6}
    data = surveys.columns(spec)
    t = surveys.make(spec, data, radius=20.0)
    # an amplitude below the background's contribution to the variance
    dark = np.asarray(t.bandflux_error_point_source(np.zeros(len(data["ra"])), np.arange(len(data["ra"]))), dtype=float)
    zp = t["zp"].to_numpy(float)
    amp = float(case["depth"] * np.min(dark**2 / zp))
    m = SinWaveModel(brightness=-0.2 * amp, amplitude=0.8 * amp, frequency=NumpyRandomFunc("uniform", low=0.01, high=0.9), ra=15.0, dec=0.0, t0=0.0, node_label="m")
    pb = passbands(0)
    res = simulate_lightcurves(m, case["n"], t, pb, obstable_save_cols=["tag"], rng=np.random.default_rng([case["seed"], 1]))
    below = 0
    for i in range(case["n"]):
        lc = lightcurve(res, i)
        where = {int(v): j for j, v in enumerate(data["tag"])}
        idx = np.array([where[int(v)] for v in lc["tag"]])
        perfect, err, flux = (lc[c].to_numpy(float) for c in ("flux_perfect", "fluxerr", "flux"))
        want = m.evaluate_bandfluxes(pb, data["time"][idx], data["filter"][idx], GraphState.from_dict(res["params"].iloc[i]))
        close(perfect, want, rtol=1e-9, atol=1e-11 * amp, msg="fluxes from the saved parameters")
        sigma = expected_error(case["kind"], spec, data, perfect, idx)
        close_error(err, sigma, case["kind"], dark[idx], "uncertainty at the noise-free flux")
        require(np.all(err[perfect < 0] < dark[idx][perfect < 0]), "fewer photons, less noise")
        require(np.all(np.abs(flux - perfect) < 9 * sigma) and np.all(flux != perfect), "noise of the reported size")
        below += int(np.sum(perfect < 0))
    rec.nontrivial(below > 0)


def gaussian(z, what):
    n = len(z)
    p = stats.kstest(z, "norm").pvalue
    require(p > 1e-10, f"{what}: residuals are not standard normal (p = {p}, mean {np.mean(z)}, sd {np.std(z)})")
    require(abs(np.mean(z)) * np.sqrt(n) < 7, f"{what}: mean {np.mean(z)} of {n}")
    require(abs(np.var(z) - 1) * np.sqrt(n / 2) < 8, f"{what}: variance {np.var(z)} of {n}")


def unrelated(a, b, what):
    n = len(a)
    if n > 30 and np.ptp(a) > 0 and np.ptp(b) > 0:
        r = np.corrcoef(a, b)[0, 1]
        require(abs(r) * np.sqrt(n) < 7.5, f"{what}: correlation {r} of {n}")


def field(k, seed):
    """Exposures of one field with very different depths."""
    c = zoo.survey_columns(k, seed, center=(15.0, 0.0), spread=0.2)
    g = np.random.default_rng([seed, 4])
    c["seeingFwhmEff"] = g.uniform(0.3, 4.0, k)
    c["visitExposureTime"] = 10 ** g.uniform(0.5, 3, k)
    return OpSim(c)


@check("C28", fd({"flux": logfl(0, 5), "objects": st.sampled_from([8, 20, 3]), "rows": st.sampled_from([150, 60]), "two": st.booleans(), "rng": st.booleans(), "var": st.booleans(), "seed": seeds()}), quick=60)
def noise(case, rec):
    """The distribution and independence of the noise of thousands of observations."""
    n, k = case["objects"], case["rows"]
    kw = {"ra": 15.0, "dec": 0.0, "t0": 0.0, "node_label": "m"}
    b = NumpyRandomFunc("uniform", low=case["flux"], high=case["flux"] * 3) if case["var"] else case["flux"]
    m = SinWaveModel(brightness=b, amplitude=case["flux"] * 0.8, frequency=0.03, **kw) if case["var"] else ConstantSEDModel(b, **kw)
    obs = [field(k, case["seed"] % 10**6 + s) for s in range(2 if case["two"] else 1)]
    pbs = [zoo.shared_passbands()] * len(obs)
    runs = []
    for r in range(2):
        rng = np.random.default_rng([case["seed"], 7, r]) if case["rng"] else None
        res = simulate_lightcurves(m, n, obs, pbs, obstable_save_cols=["observationId"], rng=rng)
        cube = np.empty((n, len(obs), k))
        flux, err = np.empty_like(cube), np.empty_like(cube)
        for i in range(n):
            lc = lightcurve(res, i)
            for s in range(len(obs)):
                rows = lc[lc["survey_idx"] == s].sort_values("observationId")
                require(len(rows) == k, "all exposures cover the object")
                p, e, f = (rows[c].to_numpy(float) for c in ("flux_perfect", "fluxerr", "flux"))
                cube[i, s], flux[i, s], err[i, s] = (f - p) / e, p, e
        runs.append((cube, flux, err))
    z = runs[0][0]
    gaussian(z.ravel(), "all observations")
    gaussian(runs[1][0].ravel(), "second run")
    unrelated(z[:, :, 1:].ravel(), z[:, :, :-1].ravel(), "successive observations")
    unrelated(z[1:].ravel(), z[:-1].ravel(), "the same exposure of different objects")
    unrelated(z.ravel(), runs[1][0].ravel(), "two runs")
    require(not np.any(z == runs[1][0]), "noise repeated in another run")
    unrelated(z.ravel(), runs[0][1].ravel(), "residuals and fluxes")
    unrelated(z.ravel(), np.log(runs[0][2]).ravel(), "residuals and uncertainties")
    unrelated(z.ravel() ** 2, runs[0][1].ravel(), "squared residuals and fluxes")
    unrelated(z.ravel() ** 2, np.log(runs[0][2]).ravel(), "squared residuals and uncertainties")
    if len(obs) > 1:
        unrelated(z[:, 0].ravel(), z[:, 1].ravel(), "two surveys")
        require(not np.any(z[:, 0] == z[:, 1]), "noise repeated in another survey")
    require(len(np.unique(z)) == z.size, "noise values repeated")
    if case["var"]:
        br = np.array([p["m.brightness"] for p in res["params"]])
        unrelated(np.repeat(br, z[0].size), runs[1][0].ravel(), "residuals and parameters")
        # the parameters and the noise draw from the same generator without sharing numbers
        u = (br - case["flux"]) / (2 * case["flux"])
        require(stats.kstest(u, "uniform").pvalue > 1e-10, "sampled parameters")
    gaussian(z[:, :, 0].ravel() if n >= 8 else z.ravel(), "first exposures")
    rec.nontrivial(True)


@check("C28", fd({"n": st.integers(0, 12), "seed": seeds(), "scale": st.sampled_from([1.0, 1e-9, 1e9]), "form": st.sampled_from(["array", "list", "series", "scalar", "zero"])}), quick=100)
def draws(case, rec):
    """The noise of given fluxes: shape, scale, and exactness without noise."""
    import pandas as pd

    g = np.random.default_rng([case["seed"], 5])
    f = g.normal(size=case["n"]) * 100
    e = g.uniform(0.1, 2, case["n"]) * case["scale"]
    keep = f.copy(), e.copy()
    if case["form"] == "zero":
        same(np.asarray(apply_noise(f, e * 0.0, rng=g)), f, "no noise")
        same(np.asarray(apply_noise(f, e * 0.0)), f, "no noise, default generator")
    elif case["form"] == "scalar":
        x = np.array([float(apply_noise(3.0, 2.0 * case["scale"], rng=g)) for _ in range(400)])
        gaussian((x - 3.0) / (2.0 * case["scale"]), "scalar draws") if case["scale"] != 1e-9 else None
    else:
        wrap = {"array": lambda v: v, "list": list, "series": lambda v: pd.Series(v, index=np.arange(len(v))[::-1])}[case["form"]]
        reps = 300
        d = np.array([np.asarray(apply_noise(wrap(f), wrap(e), rng=g), dtype=float) for _ in range(reps)]).reshape(reps, len(f))
        if len(f) and case["scale"] != 1e-9:
            gaussian(((d - f) / e).ravel(), "draws")
            unrelated(((d - f) / e)[:, 0], ((d - f) / e)[:, -1] if len(f) > 1 else np.arange(reps), "first and last")
        same(f, keep[0], "fluxes given"), same(e, keep[1], "uncertainties given")
        a = np.asarray(apply_noise(wrap(f), wrap(e), rng=np.random.default_rng(3)), dtype=float)
        same(a, np.asarray(apply_noise(wrap(f), wrap(e), rng=np.random.default_rng(3)), dtype=float), "same seed")
    rec.nontrivial(case["n"] > 1)


@check("C28", fd({"sigma": gr(0.5, 30), "seed": seeds(), "rest": st.booleans()}), quick=25)
def source_noise(case, rec):
    """White noise of the source is part of the noise-free flux, separate from the measurement noise."""
    m = ConstantSEDModel(5e4, ra=15.0, dec=0.0, t0=0.0, node_label="m")
    m.add_effect(WhiteNoise(white_noise_sigma=case["sigma"] * 100, rest_frame=case["rest"]))
    obs = field(100, case["seed"] % 10**6)
    n = 6
    res = simulate_lightcurves(m, n, obs, zoo.shared_passbands(), obstable_save_cols=["observationId"], rng=np.random.default_rng([case["seed"], 1]))
    p = np.concatenate([lightcurve(res, i)["flux_perfect"].to_numpy(float) for i in range(n)])
    e = np.concatenate([lightcurve(res, i)["fluxerr"].to_numpy(float) for i in range(n)])
    f = np.concatenate([lightcurve(res, i)["flux"].to_numpy(float) for i in range(n)])
    gaussian((f - p) / e, "measurement noise")
    require(len(np.unique(p)) == len(p), "a new source value for every observation")
    unrelated(p, (f - p) / e, "source and measurement noise")
    for i in range(n):
        lc = lightcurve(res, i)
        idx = lc["observationId"].to_numpy(int) - 100
        close(lc["fluxerr"].to_numpy(float), np.asarray(obs.bandflux_error_point_source(lc["flux_perfect"].to_numpy(float), idx), dtype=float), rtol=1e-9, msg="uncertainty at the noise-free flux")
    rec.nontrivial(True)


@check("C28", fd({"n": st.integers(2, 6), "seed": seeds()}), quick=30)
def batch(case, rec):
    """All saved parameters together reproduce every object's fluxes in one evaluation."""
    n = case["n"]
    g = np.random.default_rng(case["seed"])
    m = SinWaveModel(
        brightness=NumpyRandomFunc("uniform", low=50, high=900), amplitude=NumpyRandomFunc("uniform", low=1, high=40), frequency=0.05,
        ra=15.0, dec=0.0, redshift=GivenValueList(np.round(g.uniform(0, 2, n), 3).tolist()), t0=NumpyRandomFunc("uniform", low=-5, high=5), node_label="m",
    )
    obs = field(40, case["seed"] % 10**6)
    pb = zoo.shared_passbands()
    res = simulate_lightcurves(m, n, obs, pb, obstable_save_cols=["observationId"], rng=np.random.default_rng([case["seed"], 1]))
    state = GraphState.from_list(list(res["params"]))
    order = np.arange(40)
    cube = m.evaluate_bandfluxes(pb, obs["time"].to_numpy(), obs["filter"].to_numpy(), state)
    for i in range(n):
        lc = lightcurve(res, i).sort_values("observationId")
        idx = lc["observationId"].to_numpy(int) - 100
        same(idx, order, "all exposures")
        close(lc["flux_perfect"].to_numpy(float), cube[i], rtol=1e-10, msg=f"object {i} of the batch")
    rec.nontrivial(True)

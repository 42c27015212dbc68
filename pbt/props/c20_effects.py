import numpy as np
from hypothesis import strategies as st
from scipy import stats

from lightcurvelynx.effects.basic_effects import ConstantDimming
from lightcurvelynx.effects.effect_model import EffectModel
from lightcurvelynx.effects.extinction import ExtinctionEffect
from lightcurvelynx.effects.microlensing import Microlensing
from lightcurvelynx.effects.white_noise import WhiteNoise
from lightcurvelynx.math_nodes.np_random import NumpyRandomFunc
from lightcurvelynx.models.basic_models import ConstantSEDModel
from lightcurvelynx.models.multi_object_model import AdditiveMultiObjectModel, RandomMultiObjectModel
from lightcurvelynx.models.static_sed_model import StaticBandfluxModel

from .. import zoo
from ..core import check, close, describe, raises, require, same
from ..gen import fd, gr, seeds
from .c19_redshift import FAST, rest_flux, zs_of

describe(
    "C20",
    "Cases are sources of the catalogue with sequences of effects (the built-in ones and effects defined by the harness "
    "that depend on time, wavelength or band and do not commute) in both frames, with constant, random or linked "
    "parameters; non-trivial when at least two effects act and the flux is not zero.",
    [
        "effects whose parameters have the same name share that parameter of the model (documented), so generated effects "
        "of one model have different parameter names",
        "observer-frame effects on a sum or choice of sources act on its band fluxes only if they are defined for band fluxes",
        "SALT-type sources are evaluated in single precision",
    ],
)


# ---- effects of the harness: none of them commutes with the others
class Affine(EffectModel):
    def __init__(self, tag, a, b, **kw):
        super().__init__(**kw)
        self.tag = tag
        self.add_effect_parameter(f"{tag}_a", a)
        self.add_effect_parameter(f"{tag}_b", b)

    def _p(self, kw):
        return kw[f"{self.tag}_a"], kw[f"{self.tag}_b"]

    def apply(self, flux_density, times=None, wavelengths=None, rng_info=None, **kw):
        a, b = self._p(kw)
        return flux_density * a + b

    def apply_bandflux(self, bandfluxes, *, times=None, filters=None, rng_info=None, **kw):
        a, b = self._p(kw)
        return bandfluxes * a + b


class Shape(Affine):
    """Scales by a smooth function of time and wavelength and adds another one."""

    def apply(self, flux_density, times=None, wavelengths=None, rng_info=None, **kw):
        a, b = self._p(kw)
        t, w = np.asarray(times)[:, None], np.asarray(wavelengths)[None, :]
        return flux_density * (1 + a * np.sin(t / 11.0) * (w / 5000.0)) + b * w / 4000.0 + t / 50.0

    def apply_bandflux(self, bandfluxes, *, times=None, filters=None, rng_info=None, **kw):
        a, b = self._p(kw)
        f = np.array([ord(str(x)[0]) - 100 for x in filters], dtype=float)
        return bandfluxes * (1 + a * np.sin(np.asarray(times) / 11.0) * f / 5.0) + b * f + np.asarray(times) / 50.0


def paczynski(t, t0, u0, te):
    u2 = u0**2 + ((t - t0) / te) ** 2
    return (u2 + 2) / np.sqrt(u2 * (u2 + 4))


def ccm89(w, rv=3.1):
    """A(w)/E(B-V) of Cardelli, Clayton and Mathis (1989) in the infrared and optical (0.3 to 3.3 inverse microns)."""
    x = 1e4 / np.asarray(w, dtype=float)
    y = x - 1.82
    a = 1 + 0.17699 * y - 0.50447 * y**2 - 0.02427 * y**3 + 0.72085 * y**4 + 0.01979 * y**5 - 0.77530 * y**6 + 0.32999 * y**7
    b = 1.41338 * y + 2.28305 * y**2 + 1.07233 * y**3 - 5.38434 * y**4 - 0.62251 * y**5 + 5.30260 * y**6 - 2.09002 * y**7
    ir = x < 1.1
    a = np.where(ir, 0.574 * x**1.61, a)
    b = np.where(ir, -0.527 * x**1.61, b)
    return rv * (a + b / rv)


KINDS = ["affine", "shape", "affine", "shape", "dim", "ext", "ml"]
EFFECT = fd({"kind": st.sampled_from(KINDS), "rest": st.booleans(), "par": st.sampled_from(["rand", "const", "link"])})
BANDEFFECT = fd({"kind": st.sampled_from(["affine", "shape", "affine", "shape", "dim", "ml"]), "rest": st.booleans(), "par": st.sampled_from(["rand", "const", "link"])})


def param(e, lo, hi, g, label):
    a, b = sorted(np.round(g.uniform(lo, hi, 2), 3).tolist())
    if e["par"] == "const":
        return a
    node = NumpyRandomFunc("uniform", low=a, high=b + 0.01 * (hi - lo), node_label=label)
    if e["par"] == "rand":
        return node
    helper = ConstantSEDModel(node, node_label=f"{label}_src")
    return helper.brightness


def make(effects, seed, label="e"):
    """The effects (at most one of each kind with fixed parameter names) and their descriptions."""
    out, used = [], set()
    for i, e in enumerate(effects):
        g = np.random.default_rng([seed, 20, i])
        k = e["kind"]
        if k in ("dim", "ext", "ml") and k in used:
            k = "affine"
        used.add(k)
        tag = f"{label}{i}"
        if k == "affine":
            eff = Affine(tag, param(e, 0.2, 1.5, g, f"{tag}a"), param(e, -5, 5, g, f"{tag}b"), rest_frame=e["rest"])
        elif k == "shape":
            eff = Shape(tag, param(e, -0.4, 0.4, g, f"{tag}a"), param(e, -5, 5, g, f"{tag}b"), rest_frame=e["rest"])
        elif k == "dim":
            eff = ConstantDimming(param(e, 0.1, 1, g, f"{tag}a"), rest_frame=e["rest"])
        elif k == "ext":
            eff = ExtinctionEffect("CCM89", ebv=param(e, 0.0, 0.6, g, f"{tag}a"), Rv=3.1, frame="rest" if e["rest"] else "observer")
        else:
            eff = Microlensing(param(e, -20, 40, g, f"{tag}a"), param(e, 0.05, 1.0, g, f"{tag}b"), param(e, 3, 40, g, f"{tag}c"), probability=0.8)
        out.append((k, tag, eff))
    return out


def act(k, tag, p, flux, t, w=None, filters=None):
    """Reference for one effect with the parameter values p on a spectrum (w given) or on band fluxes."""
    t2 = t[:, None] if w is not None else t
    if k == "affine":
        return flux * p[f"{tag}_a"] + p[f"{tag}_b"]
    if k == "shape":
        a, b = p[f"{tag}_a"], p[f"{tag}_b"]
        if w is not None:
            return flux * (1 + a * np.sin(t2 / 11.0) * w / 5000.0) + b * w / 4000.0 + t2 / 50.0
        f = np.array([ord(str(x)[0]) - 100 for x in filters], dtype=float)
        return flux * (1 + a * np.sin(t / 11.0) * f / 5.0) + b * f + t / 50.0
    if k == "dim":
        return flux * p["flux_fraction"]
    if k == "ext":
        return flux * 10 ** (-0.4 * p["ebv"] * ccm89(w))
    if not p["apply_microlensing"]:
        return flux
    return flux * paczynski(t2, p["microlensing_t0"], p["u_0"], p["t_E"])


def is_rest(k, eff):
    return k != "ml" and eff.rest_frame


def local(state, name):
    d = state[name]
    return {k: (v[0] if np.ndim(v) else v) for k, v in d.items()}


def sed_reference(spec, effects, state, name, t, w, extra_obs=()):
    z = zs_of(state, name, 1)[0]
    t0 = state[name]["t0"]
    tr = t if z == 0 else t0 + (t - t0) / (1 + z)
    wr = w / (1 + z)
    flux = rest_flux(dict(spec, effects=[]), state, tr, wr, name)
    p = local(state, name)
    for k, tag, eff in effects:
        if is_rest(k, eff):
            flux = act(k, tag, p, flux, tr, wr)
    flux = flux * (1 + z)
    for k, tag, eff in effects:
        if not is_rest(k, eff):
            flux = act(k, tag, p, flux, t, w)
    return flux


# keep the rest-frame and the observed wavelengths within the optical and infrared part of the extinction law
WAVES = st.lists(gr(5000, 11000, 600), min_size=1, max_size=5, unique=True)
SPEC = zoo.model_strategy(kinds=FAST, composites=False, zs=("pos", "pos", "none", "zero"), spread_only=True)


@check("C20", fd({
    "spec": SPEC, "effects": st.lists(EFFECT, min_size=1, max_size=4), "times": zoo.times_st, "waves": WAVES, "ns": st.sampled_from([2, 1, 3]), "seed": seeds(),
}), quick=600)
def spectra(case, rec):
    spec, ns = case["spec"], case["ns"]
    model = zoo.build(spec)
    effects = make(case["effects"], case["seed"])
    other = zoo.build(spec, "other")
    for k, tag, eff in effects:
        model.add_effect(eff)
    want_order = [e for k, _, e in effects if is_rest(k, e)] + [e for k, _, e in effects if not is_rest(k, e)]
    same([id(e) for e in model.list_effects()], [id(e) for e in want_order], "list of the effects in their order of application")
    state = model.sample_parameters(num_samples=ns, rng_info=np.random.default_rng([case["seed"], 1]))
    for _, tag, eff in effects:
        for name in eff.parameters:
            require(name in state["m"], f"parameter {name} of the effect is sampled with the model")
    t, w = np.array(case["times"]) + 1e-4, np.array(case["waves"])
    flux = model.evaluate_sed(t, w, state)
    cube = flux if ns > 1 else flux[None]
    for i in range(ns):
        one = state.extract_single_sample(i)
        want = sed_reference(spec, effects, one, "m", t, w)
        scale = np.abs(want).max() + 1.0
        close(cube[i], want, rtol=1e-8, atol=1e-9 * scale, msg=f"effects applied in order (sample {i})")
    # the band fluxes are those of the spectrum with its effects
    pbs = zoo.shared_passbands()
    filt = np.array(zoo.FILTERS)[np.arange(len(t)) % 3]
    one = state.extract_single_sample(ns - 1)
    bf = model.evaluate_bandfluxes(pbs, t, filt, one)
    for f in np.unique(filt):
        sed = sed_reference(spec, effects, one, "m", t[filt == f], pbs[f].waves)
        want = pbs[f].fluxes_to_bandflux(sed)
        # the reference law above is the optical part only: z up to 0.6 keeps g in it (4000/1.6 = 2500 A, x = 4)
        if any(k == "ext" for k, _, _ in effects) and pbs[f].waves[0] / (1 + zs_of(one, "m", 1)[0]) < 3100:
            continue
        close(bf[filt == f], want, rtol=1e-7, atol=1e-8 * (np.abs(want).max() + 1), msg=f"band flux in {f}")
    # a model without the effects is not touched
    st2 = other.sample_parameters(num_samples=1, rng_info=np.random.default_rng([case["seed"], 4]))
    f2 = other.evaluate_sed(t, w, st2)
    fresh = zoo.build(spec, "other")
    st3 = fresh.sample_parameters(num_samples=1, rng_info=np.random.default_rng([case["seed"], 4]))
    same(fresh.evaluate_sed(t, w, st3), f2, "a model without effects")
    require(len(other.list_effects()) == 0, "no effects on the other model")
    same(model.evaluate_sed(t, w, state), flux, "evaluated again")
    rec.nontrivial(len(effects) > 1 and np.any(cube != 0))
    rec.label(spec["kind"], *[k for k, _, _ in effects])


@check("C20", fd({
    "spec": zoo.model_strategy(band=True, composites=False, spread_only=True), "effects": st.lists(BANDEFFECT, min_size=1, max_size=4),
    "times": zoo.times_st, "ns": st.sampled_from([2, 1, 3]), "seed": seeds(),
}), quick=250)
def band_models(case, rec):
    spec, ns = case["spec"], case["ns"]
    effects = make(case["effects"], case["seed"])
    model, plain = zoo.build(spec), zoo.build(spec)
    for _, _, eff in effects:
        model.add_effect(eff)
    same([id(e) for e in model.list_effects()], [id(e) for _, _, e in effects], "list of the effects")
    state = model.sample_parameters(num_samples=ns, rng_info=np.random.default_rng([case["seed"], 1]))
    plain.sample_parameters(num_samples=1)
    pbs = zoo.shared_passbands()
    t = np.array(case["times"]) + 1e-4
    g = np.random.default_rng([case["seed"], 2])
    filt = g.choice(np.array(zoo.FILTERS), size=len(t))
    cube = np.atleast_2d(model.evaluate_bandfluxes(pbs, t, filt, state))
    for i in range(ns):
        one = state.extract_single_sample(i)
        want = plain.evaluate_bandfluxes(pbs, t, filt, one)
        for k, tag, _ in effects:
            want = act(k, tag, local(one, "m"), want, t, filters=filt)
        close(cube[i], want, rtol=1e-9, atol=1e-9 * np.abs(want).max(), msg=f"effects on band fluxes in order (sample {i})")
    rec.nontrivial(len(effects) > 1 and np.any(cube != 0))
    rec.label(spec["kind"])


@check("C20", fd({
    "parts": st.lists(SPEC, min_size=1, max_size=3), "cls": st.sampled_from(["add", "choose", "nested"]), "own": st.lists(EFFECT, max_size=2),
    "effects": st.lists(EFFECT, min_size=1, max_size=3), "times": zoo.times_st, "waves": WAVES, "seed": seeds(), "twice": st.booleans(),
}), quick=300)
def composites(case, rec):
    """Effects of a composite: rest-frame ones act on each part, observer-frame ones on the total."""
    parts = [zoo.build(s, f"part{i}") for i, s in enumerate(case["parts"])]
    own = make(case["own"], case["seed"], "own")
    own = [o for o in own if o[0] in ("affine", "shape")]
    for _, _, eff in own:
        parts[0].add_effect(eff)
    listed = parts + [parts[0]] if case["twice"] else parts
    specs = case["parts"] + [case["parts"][0]] if case["twice"] else case["parts"]
    weights = np.random.default_rng([case["seed"], 5]).uniform(0.3, 2.0, len(listed))
    if case["cls"] == "choose":
        model = RandomMultiObjectModel(listed, weights=weights, node_label="top")
    elif case["cls"] == "add":
        model = AdditiveMultiObjectModel(listed, weights=weights, node_label="top")
    else:
        model = AdditiveMultiObjectModel([AdditiveMultiObjectModel(listed, weights=weights, node_label="mid")], weights=[1.0], node_label="top")
    effects = make(case["effects"], case["seed"])
    for _, _, eff in effects:
        model.add_effect(eff)
    state = model.sample_parameters(num_samples=2, rng_info=np.random.default_rng([case["seed"], 1]))
    t, w = np.array(case["times"]) + 1e-4, np.array(case["waves"])
    cube = model.evaluate_sed(t, w, state)
    rest = [e for e in effects if is_rest(e[0], e[2])]
    obs = [e for e in effects if not is_rest(e[0], e[2])]
    names = [p.node_string for p in parts]
    if case["twice"]:
        names.append(names[0])
    for i in range(2):
        one = state.extract_single_sample(i)
        total = 0
        for j, s in enumerate(specs):
            if case["cls"] == "choose" and list(model.object_map).index(str(one["top"]["selected_object"])) != j:
                continue
            effs = (own if names[j] == names[0] else []) + rest
            f = sed_reference(s, effs, one, names[j], t, w)
            total = total + (f if case["cls"] == "choose" else weights[j] * f)
        for k, tag, _ in obs:
            total = act(k, tag, local(one, "top"), total, t, w)
        close(cube[i], total, rtol=1e-7, atol=1e-9 * (np.abs(total).max() + 1), msg=f"composite with effects (sample {i})")
    rec.nontrivial(len(effects) > 1 and len(parts) > 1)
    rec.label(case["cls"])


# ---- the built-in effects on their own
@check("C20", fd({
    "t0": gr(-100, 100), "u0": st.one_of(gr(0.001, 3), st.sampled_from([1e-5, 10.0])), "te": gr(0.5, 200), "times": st.lists(gr(-300, 300), min_size=1, max_size=8), "seed": seeds(),
    "band": st.booleans(),
}), quick=250)
def lensing(case, rec):
    eff = Microlensing(case["t0"], case["u0"], case["te"])
    model = StaticBandfluxModel({"g": 3.0, "r": 5.0}) if case["band"] else ConstantSEDModel(7.0, t0=0.0, redshift=0.5)
    model.add_effect(eff)
    state = model.sample_parameters(num_samples=1)
    t = np.array(case["times"] + [case["t0"]])
    d = np.abs(t - case["t0"])
    if case["band"]:
        filt = np.array(["g", "r"])[np.arange(len(t)) % 2]
        base = np.where(filt == "g", 3.0, 5.0)
        mag = model.evaluate_bandfluxes(zoo.shared_passbands(), t, filt, state) / base
        mirror = model.evaluate_bandfluxes(zoo.shared_passbands(), 2 * case["t0"] - t, filt, state) / base
    else:
        w = np.array([4000.0, 9000.0])
        mag = model.evaluate_sed(t, w, state) / 10.5
        same(mag[:, 0], mag[:, 1], "achromatic")
        mag = mag[:, 0]
        mirror = model.evaluate_sed(2 * case["t0"] - t, w, state)[:, 0] / 10.5
    require(np.all(mag >= 1 - 1e-12), "never fainter")
    require(np.argmax(mag) == len(mag) - 1 or d[np.argmax(mag)] < 1e-6 or np.isclose(mag.max(), mag[-1]), "brightest at its peak time")
    close(mag, mirror, rtol=1e-6, msg="symmetric in time")
    o = np.argsort(d)
    require(np.all(np.diff(mag[o]) <= 1e-9 * mag.max()), "falls with the distance in time")
    close(mag, paczynski(t, case["t0"], case["u0"], case["te"]), rtol=1e-8, msg="point lens magnification")
    rec.nontrivial(np.ptp(mag) > 1e-3)


@check("C20", fd({"p": st.sampled_from([0.3, 0.5, 0.9, 0.02]), "seed": seeds()}), quick=6, thorough=60)
def lensing_fraction(case, rec):
    model = ConstantSEDModel(7.0)
    model.add_effect(Microlensing(5.0, 0.1, 10.0, probability=case["p"]))
    n = 3000
    state = model.sample_parameters(num_samples=n, rng_info=np.random.default_rng([case["seed"], 1]))
    flux = model.evaluate_sed(np.array([5.0]), np.array([5000.0]), state)[:, 0, 0]
    lensed = np.abs(flux / 7.0 - paczynski(5.0, 5.0, 0.1, 10.0)) < 1e-6
    require(np.all(lensed | (flux == 7.0)), "either lensed or not")
    require(stats.binomtest(int(lensed.sum()), n, case["p"]).pvalue > 1e-10, f"fraction of lensed samples: {lensed.mean()}")
    rec.nontrivial(0 < lensed.sum() < n)


@check("C20", fd({
    "sigma": st.sampled_from([0.5, 3.0, 100.0, 1e-3]), "rest": st.booleans(), "z": st.sampled_from([None, 0.0, 1.0]), "band": st.booleans(),
    "dim": st.sampled_from([None, 0.25]), "seed": seeds(), "rand": st.booleans(),
}), quick=60)
def noise(case, rec):
    sig = case["sigma"]
    n = 40
    if case["band"]:
        model, base = StaticBandfluxModel({"g": 30.0}, node_label="m"), 30.0
    else:
        model, base = ConstantSEDModel(30.0, redshift=case["z"], t0=1.0, node_label="m"), 30.0
    s = NumpyRandomFunc("uniform", low=sig, high=2 * sig) if case["rand"] else sig
    model.add_effect(WhiteNoise(s, rest_frame=case["rest"]))
    if case["dim"]:
        model.add_effect(ConstantDimming(case["dim"], rest_frame=False))
    ns = 3
    state = model.sample_parameters(num_samples=ns, rng_info=np.random.default_rng([case["seed"], 1]))
    t = np.linspace(0, 100, n)
    f1z = 1 + (case["z"] or 0.0) if not case["band"] else 1.0
    def evaluate(seed):
        rng = None if seed is None else np.random.default_rng([case["seed"], seed])
        if case["band"]:
            return model.evaluate_bandfluxes(zoo.shared_passbands(), np.repeat(t, 30), np.full(30 * n, "g"), state, rng_info=rng)
        return model.evaluate_sed(t, np.linspace(3000, 9000, 30), state, rng_info=rng)

    cube = evaluate(7)
    same(evaluate(7), cube, "same generator, same noise")
    dim = case["dim"] or 1.0
    scale = np.asarray(state["m"]["white_noise_sigma"], dtype=float) * dim * (f1z if case["rest"] else 1.0)
    all_z = []
    for i in range(ns):
        x = ((cube[i] - base * f1z * dim) / scale[i]).ravel()
        require(stats.kstest(x, "norm").pvalue > 1e-10, f"standard normal noise of the stated size (std {x.std():.3f}, mean {x.mean():.3f})")
        all_z.append(x)
    for seed in (8, None):
        other = evaluate(seed)
        require(np.all(other[0] != cube[0]), "new noise from another generator")
        all_z.append(((other[0] - base * f1z * dim) / scale[0]).ravel())
    for i in range(len(all_z)):
        for j in range(i):
            require(stats.pearsonr(all_z[i], all_z[j]).pvalue > 1e-10, "noise of different samples and evaluations is independent")
    z0 = all_z[0].reshape(n, -1)
    require(stats.pearsonr(z0[1:].ravel(), z0[:-1].ravel()).pvalue > 1e-10, "independent from one time to the next")
    require(stats.pearsonr(z0[:, 1:].ravel(), z0[:, :-1].ravel()).pvalue > 1e-10, "independent from one wavelength to the next")
    rec.nontrivial(True)


@check("C20", fd({
    "n": st.sampled_from([2, 1, 3, 5]), "how": st.sampled_from(["repeated", "distinct"]), "call": st.sampled_from(["bands", "sed", "bandmodel"]),
    "z": st.sampled_from([None, 0.0, 1.0]), "nb": st.sampled_from([1, 2]), "ns": st.sampled_from([1, 2]), "seed": seeds(), "rest": st.booleans(),
}), quick=60)
def noise_draws(case, rec):
    """Every observation gets its own draw: few observations, repeated times, several bands."""
    n, ns = case["n"], case["ns"]
    if case["call"] == "bandmodel":
        model = StaticBandfluxModel({"g": 30.0, "r": 30.0}, node_label="m")
    else:
        model = ConstantSEDModel(30.0, redshift=case["z"], t0=1.0, node_label="m")
    model.add_effect(WhiteNoise(0.5, rest_frame=case["rest"]))
    state = model.sample_parameters(num_samples=ns, rng_info=np.random.default_rng([case["seed"], 1]))
    t = np.full(n, 11.25) if case["how"] == "repeated" else 10.0 + np.arange(n)
    rng = np.random.default_rng([case["seed"], 3])
    if case["call"] == "sed":
        out = model.evaluate_sed(t, 4000.0 + 500 * np.arange(case["nb"]), state, rng_info=rng)
    else:
        filt = np.array(["g", "r"])[np.arange(n) % case["nb"]]
        out = model.evaluate_bandfluxes(zoo.shared_passbands(), t, filt, state, rng_info=rng)
    out = np.asarray(out)
    require(np.all(np.isfinite(out)), "finite")
    require(len(np.unique(out)) == out.size, f"each observation has its own noise: {out.ravel()[:6]}")
    rec.nontrivial(out.size > 1)
    rec.label(case["call"], case["how"])


@check("C20", fd({"spec": SPEC, "e": EFFECT, "k": st.sampled_from([2, 3]), "between": st.booleans(), "times": zoo.times_st, "waves": WAVES, "seed": seeds()}), quick=60)
def same_effect_again(case, rec):
    """An effect object added several times to one model acts as often as it was added, in its places."""
    model = zoo.build(case["spec"])
    e = dict(case["e"], kind=case["e"]["kind"] if case["e"]["kind"] != "ml" else "dim")
    one, mid = make([e, {"kind": "affine", "rest": e["rest"], "par": "const"}], case["seed"])
    effects = []
    for i in range(case["k"]):
        effects.append(one)
        if case["between"] and i == 0:
            effects.append(mid)
    for _, _, eff in effects:
        model.add_effect(eff)
    state = model.sample_parameters(num_samples=1, rng_info=np.random.default_rng([case["seed"], 1]))
    t, w = np.array(case["times"]) + 1e-4, np.array(case["waves"])
    want = sed_reference(case["spec"], effects, state.extract_single_sample(0), "m", t, w)
    close(model.evaluate_sed(t, w, state), want, rtol=1e-8, atol=1e-9 * (np.abs(want).max() + 1), msg="effect added several times")
    rec.nontrivial(np.any(want != 0))
    rec.label(e["kind"])


@check("C20", fd({"seed": seeds(), "order": st.booleans(), "z": st.sampled_from([None, 1.0])}), quick=20)
def noise_then_dimming(case, rec):
    """Order also holds for noise: dimmed noise or noise on a dimmed flux."""
    model = ConstantSEDModel(0.0, t0=0.0, redshift=case["z"])
    effs = [WhiteNoise(1.0), ConstantDimming(0.1)]
    for e in effs if case["order"] else effs[::-1]:
        model.add_effect(e)
    state = model.sample_parameters(num_samples=1)
    x = model.evaluate_sed(np.arange(30.0), np.arange(3000.0, 3040.0), state, rng_info=np.random.default_rng(case["seed"]))
    want = (0.1 if case["order"] else 1.0) * (1 + (case["z"] or 0))
    require(abs(x.std() / want - 1) < 0.2, f"noise {x.std()} expected {want}")
    rec.nontrivial(True)


@check("C20", fd({"seed": seeds(), "what": st.sampled_from(["share", "param", "frame", "missing"])}), quick=60)
def sharing(case, rec):
    """One effect object on several models: each uses its own sampled values."""
    g = np.random.default_rng([case["seed"], 6])
    t, w = np.array([1.0, 2.0]), np.array([4000.0, 5000.0])
    if case["what"] == "share":
        eff = ConstantDimming(NumpyRandomFunc("uniform", low=0.1, high=0.9))
        a, b = ConstantSEDModel(3.0, node_label="a"), ConstantSEDModel(5.0, node_label="b")
        c = ConstantSEDModel(7.0, node_label="c")
        a.add_effect(eff)
        b.add_effect(eff)
        top = AdditiveMultiObjectModel([a, b, c])
        state = top.sample_parameters(num_samples=3, rng_info=np.random.default_rng([case["seed"], 1]))
        fa, fb = state["a"]["flux_fraction"], state["b"]["flux_fraction"]
        require("flux_fraction" not in state["c"], "no parameter on the model without the effect")
        close(top.evaluate_sed(t, w, state)[:, 0, 0], 3 * fa + 5 * fb + 7, rtol=1e-12, msg="each with its own factor")
        close(a.evaluate_sed(t, w, state)[:, 0, 0], 3 * fa, rtol=1e-12, msg="first alone")
    elif case["what"] == "param":
        # an effect uses an existing parameter of the model
        val = float(g.uniform(0.1, 0.9))
        m = ConstantSEDModel(3.0, node_label="a")
        m.add_parameter("flux_fraction", val)
        m.add_effect(ConstantDimming(0.5))
        close(m.evaluate_sed(t, w), np.full((2, 2), 3 * val), rtol=1e-12, msg="the model's own parameter")
    elif case["what"] == "frame":
        raises(ValueError, lambda: ExtinctionEffect("CCM89", ebv=0.1, Rv=3.1), "extinction without a frame")
        raises(ValueError, lambda: ExtinctionEffect("CCM89", ebv=0.1, Rv=3.1, frame="both"), "unknown frame")
        raises(KeyError, lambda: ExtinctionEffect("NoSuchLaw", ebv=0.1, frame="rest"), "unknown law")
    else:
        for eff in (ConstantDimming(None), WhiteNoise(None), ExtinctionEffect("CCM89", ebv=None, Rv=3.1, frame="rest")):
            m = ConstantSEDModel(3.0)
            m.add_effect(eff)
            raises((ValueError, TypeError), lambda m=m: m.evaluate_sed(t, w), f"{eff} without its value")
    rec.nontrivial(True)
    rec.label(case["what"])


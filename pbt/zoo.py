"""A catalogue of models, effects, passbands and surveys that can be built from small JSON specs."""
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from lightcurvelynx.astro_utils.passbands import Passband, PassbandGroup
from lightcurvelynx.effects.basic_effects import ConstantDimming
from lightcurvelynx.effects.extinction import ExtinctionEffect
from lightcurvelynx.effects.microlensing import Microlensing
from lightcurvelynx.effects.white_noise import WhiteNoise
from lightcurvelynx.math_nodes.np_random import NumpyRandomFunc
from lightcurvelynx.models.basic_models import ConstantSEDModel, LinearWavelengthModel, SinWaveModel, StepModel
from lightcurvelynx.models.galaxy_models import GaussianGalaxy
from lightcurvelynx.models.lightcurve_template_model import (
    LightcurveData,
    LightcurveTemplateModel,
    MultiLightcurveTemplateModel,
)
from lightcurvelynx.models.multi_object_model import AdditiveMultiObjectModel, RandomMultiObjectModel
from lightcurvelynx.models.periodic_variable_star import EclipsingBinaryStar
from lightcurvelynx.models.spline_model import SplineModel
from lightcurvelynx.models.static_sed_model import StaticBandfluxModel, StaticSEDModel
from lightcurvelynx.utils.wave_extrapolate import (
    ConstantExtrapolation,
    ExponentialDecay,
    LastValueExtrapolation,
    LinearDecay,
)

from .gen import fd, gr, seeds

FILTERS = ["g", "r", "i"]
BANDS = {"g": (4000.0, 5400.0), "r": (5600.0, 6900.0), "i": (7000.0, 8200.0)}


def passbands(filters=FILTERS, delta_wave=100.0, survey="SIM", shift=0.0):
    pbs = []
    for f in filters:
        lo, hi = BANDS[f][0] + shift, BANDS[f][1] + shift
        w = np.linspace(lo, hi, 8)
        t = np.array([0.0, 0.4, 0.8, 1.0, 0.9, 0.7, 0.3, 0.0])
        pbs.append(Passband(np.column_stack((w, t)), survey, f, delta_wave=delta_wave, trim_quantile=None))
    return PassbandGroup(given_passbands=pbs)


_CACHE = {}


def shared_passbands():
    if "pb" not in _CACHE:
        _CACHE["pb"] = passbands()
    return _CACHE["pb"]


# --------------------------------------------------------------------------------------
# data files for the models that read files
# --------------------------------------------------------------------------------------
def _scratch():
    if "dir" not in _CACHE:
        _CACHE["tmp"] = tempfile.TemporaryDirectory(prefix="verif_zoo_")
        _CACHE["dir"] = _CACHE["tmp"].name
        import atexit

        atexit.register(_CACHE["tmp"].cleanup)
    return _CACHE["dir"]


def cleanup():
    if "tmp" in _CACHE:
        _CACHE["tmp"].cleanup()


def salt_dir():
    """A small, smooth SALT2-like model on disk (phases -20..50, waves 2000..9200)."""
    d = os.path.join(_scratch(), "salt2")
    if not os.path.isdir(d):
        os.makedirs(d)
        ph = np.arange(-20.0, 51.0, 5.0)
        wv = np.arange(2000.0, 9201.0, 200.0)
        for k, name in enumerate(("salt2_template_0.dat", "salt2_template_1.dat")):
            with open(os.path.join(d, name), "w") as f:
                for p in ph:
                    for w in wv:
                        v = 0.3 * np.exp(-0.5 * ((p - 3 * k) / 14.0) ** 2) * np.exp(-0.5 * ((w - 4500.0) / 1700.0) ** 2)
                        v = v if k == 0 else 0.2 * v * np.sin(w / 900.0 + p / 20.0)
                        f.write(f"{p:.6f} {w:.6f} {v:.10e}\n")
        with open(os.path.join(d, "salt2_color_correction.dat"), "w") as f:
            f.write("4\n-0.504294\n0.787691\n-0.461715\n0.0815619\n")
            f.write("Salt2ExtinctionLaw.version 1\nSalt2ExtinctionLaw.min_lambda 2800\nSalt2ExtinctionLaw.max_lambda 7000\n")
    return d


def sncosmo_source():
    import sncosmo

    ph = np.linspace(-15.0, 45.0, 25)
    wv = np.linspace(3000.0, 9000.0, 30)
    flux = np.exp(-0.5 * (ph[:, None] / 15.0) ** 2) * (1.0 + 0.5 * np.sin(wv[None, :] / 700.0)) * 1e-15
    return sncosmo.TimeSeriesSource(ph, wv, flux, name="verif")


# --------------------------------------------------------------------------------------
# model specs
# --------------------------------------------------------------------------------------
SED_KINDS = ["const", "step", "sin", "linear", "static", "static_multi", "spline", "galaxy", "eclipsing", "salt2", "sncosmo"]
BAND_KINDS = ["bstatic", "bstatic_multi", "template", "template_periodic", "template_multi"]
EXTRAP = {
    "none": lambda: None,
    "constant": lambda: ConstantExtrapolation(value=2.5),
    "last": lambda: LastValueExtrapolation(),
    "linear": lambda: LinearDecay(decay_width=900.0),
    "exp": lambda: ExponentialDecay(rate=0.002),
}
EFFECT_KINDS = ["dim", "dim_obs", "ext_rest", "ext_obs", "ml", "noise", "noise_obs"]
BAND_EFFECTS = ["dim", "dim_obs", "ml", "noise"]


def model_strategy(kinds=None, effects=(), max_effects=2, composites=True, modes=("const", "rand"), zs=("none", "zero", "pos", "blue"), band=False, spread_only=False):
    kinds = list(kinds or (BAND_KINDS if band else SED_KINDS))
    simple = fd(
        {
            "kind": st.sampled_from(kinds),
            "ps": st.integers(0, 10**6),
            "mode": st.sampled_from(list(modes)),
            "z": st.sampled_from(list(zs)),
            "extrap": st.sampled_from(sorted(EXTRAP)),
            "effects": st.lists(st.sampled_from(list(effects)), max_size=max_effects, unique=True)
            if effects
            else st.just([]),
        }
    )

    def draw_simple(r):
        n = r.randint(0, max_effects)
        kind = r.choice(kinds)
        if kind == "salt2" and r.random() < 0.7:  # by far the slowest
            kind = r.choice(kinds)
        return {
            "kind": kind, "ps": r.randint(0, 10**6), "mode": r.choice(list(modes)), "z": r.choice(list(zs)),
            "extrap": r.choice(sorted(EXTRAP)), "effects": r.sample(list(effects), min(n, len(effects))),
        }

    def draw(seed):
        # evenly spread over the catalogue (the structured strategies below shrink better)
        import random

        r = random.Random(seed)
        if not composites or r.random() < 0.7:
            return draw_simple(r)
        return {
            "kind": r.choice(["add", "choose"]), "ps": r.randint(0, 10**6), "mode": r.choice(list(modes)), "z": "none",
            "parts": [draw_simple(r) for _ in range(r.randint(1, 3))], "weights": r.random() < 0.5,
            "effects": r.sample(list(effects), min(r.randint(0, 1), len(effects))),
        }

    spread = seeds().map(draw)
    if spread_only:
        return spread
    if not composites:
        return st.one_of(spread, spread, simple)
    comp = fd(
        {
            "kind": st.sampled_from(["add", "choose"]),
            "ps": st.integers(0, 10**6),
            "mode": st.sampled_from(list(modes)),
            "z": st.just("none"),
            "parts": st.lists(simple, min_size=1, max_size=3),
            "weights": st.booleans(),
            "effects": st.lists(st.sampled_from(list(effects)), max_size=1, unique=True) if effects else st.just([]),
        }
    )
    return st.one_of(spread, spread, spread, simple, comp)


class Maker:
    """Draws the numbers of one model; in mode 'rand' returns random nodes instead of constants."""

    def __init__(self, spec, label):
        self.rng = np.random.default_rng(spec["ps"])
        self.mode = spec["mode"]
        self.label = label
        self.n = 0

    def __call__(self, lo, hi):
        a, b = sorted(np.round(self.rng.uniform(lo, hi, size=2), 4).tolist())
        self.n += 1
        if self.mode == "const":
            return a
        return NumpyRandomFunc("uniform", low=a, high=b + 1e-3 * (hi - lo), node_label=f"{self.label}_p{self.n}")

    def num(self, lo, hi):
        return float(np.round(self.rng.uniform(lo, hi), 4))


def make_effect(kind, P):
    if kind in ("dim", "dim_obs"):
        return ConstantDimming(flux_fraction=P(0.2, 0.9), rest_frame=(kind == "dim"))
    if kind in ("ext_rest", "ext_obs"):
        return ExtinctionEffect("CCM89", ebv=P(0.05, 0.6), Rv=3.1, frame="rest" if kind == "ext_rest" else "observer")
    if kind == "ml":
        return Microlensing(microlensing_t0=P(-20, 20), u_0=P(0.1, 1.0), t_E=P(5, 30), probability=0.7)
    if kind in ("noise", "noise_obs"):
        return WhiteNoise(white_noise_sigma=P(0.1, 2.0), rest_frame=(kind == "noise"))
    raise KeyError(kind)


def is_band(spec):
    """Whether the model only gives band fluxes (a composite does when any part does)."""
    return spec["kind"] in BAND_KINDS or any(is_band(p) for p in spec.get("parts", []))


def build(spec, label="m", apply_effects=True):
    """Build the model of a spec (new objects on every call)."""
    P = Maker(spec, label)
    kind = spec["kind"]
    common = {"ra": P(10, 20), "dec": P(-10, 10), "t0": P(-5, 5), "node_label": label}
    if spec["ps"] % 8 == 0:
        common["t0"] = 0.0 if spec["ps"] % 16 else 0
    z = spec.get("z", "none")
    if kind not in BAND_KINDS and kind not in ("add", "choose"):
        if z == "zero":
            common["redshift"] = 0.0
        elif z == "pos":
            common["redshift"] = P(0.05, 0.6)
        elif z == "tiny":
            common["redshift"] = P(1e-5, 9e-4)
        elif z == "blue":  # approaching
            common["redshift"] = P(-0.4, -1e-4)
        elif z == "big":
            # extinction laws end at 1000 A
            common["redshift"] = P(0.7, 1.1) if "ext_rest" in spec.get("effects", []) else P(2.0, 14.0)
        common["wave_extrapolation"] = EXTRAP[spec.get("extrap", "none")]()
    if kind == "const":
        m = ConstantSEDModel(P(1, 100), **common)
    elif kind == "step":
        m = StepModel(P(1, 100), t1=P(6, 40), **common)
    elif kind == "sin":
        m = SinWaveModel(brightness=P(50, 100), amplitude=P(1, 40), frequency=P(0.01, 0.3), **common)
    elif kind == "linear":
        m = LinearWavelengthModel(P(1, 50), P(0.001, 0.05), min_wave=P.num(2500, 4500), max_wave=P.num(5500, 9500), **common)
    elif kind in ("static", "static_multi"):
        seds = []
        for _ in range(1 if kind == "static" else 3):
            w = np.sort(P.rng.choice(np.arange(3000, 9000, 50), size=6, replace=False)).astype(float)
            seds.append(np.vstack((w, P.rng.uniform(1, 100, size=6))))
        m = StaticSEDModel(seds if kind != "static" else seds[0], weights=None if kind == "static" else [1.0, 2.0, 0.5], **common)
    elif kind == "spline":
        t = np.linspace(-30, 30, 9)
        w = np.linspace(3500, 8500, 8)
        m = SplineModel(t, w, P.rng.uniform(1, 50, size=(9, 8)), amplitude=P(0.5, 2), **common)
    elif kind == "galaxy":
        m = GaussianGalaxy(P(1, 100), P(0.5, 3.0), **common)
    elif kind == "eclipsing":
        au = 1.496e13
        m = EclipsingBinaryStar(
            period=P(1, 9), major_semiaxis=P(0.02, 0.1) if P.mode != "const" else P.num(0.02, 0.1), inclination=P(70, 90),
            primary_radius=7e10 * P.num(0.5, 2), secondary_radius=7e10 * P.num(0.3, 2), primary_temperature=P(4000, 9000),
            secondary_temperature=P(3000, 8000), distance=P(10, 200), **common,
        )
        m.set_parameter("major_semiaxis", au * P.num(0.02, 0.1))
    elif kind == "salt2":
        from lightcurvelynx.models.salt2_jax import SALT2JaxModel

        m = SALT2JaxModel(x0=P(0.1, 1), x1=P(-2, 2), c=P(-0.2, 0.2), model_dir=salt_dir(), **common)
        for a in ("_m0_model", "_m1_model"):  # the compiled interpolators of the (same) files are shared: much faster
            if hasattr(m, a):
                setattr(m, a, _CACHE.setdefault(a, getattr(m, a)))
    elif kind == "sncosmo":
        from lightcurvelynx.models.sncomso_models import SncosmoWrapperModel

        m = SncosmoWrapperModel(sncosmo_source(), amplitude=P(0.5, 2.0), **common)
    elif kind in ("bstatic", "bstatic_multi"):
        vals = [{f: P.num(1, 100) for f in FILTERS} for _ in range(1 if kind == "bstatic" else 3)]
        m = StaticBandfluxModel(vals[0] if kind == "bstatic" else vals, **common)
    elif kind in ("template", "template_periodic", "template_multi"):
        def lc(periodic):
            out = {}
            t = np.sort(P.rng.choice(np.arange(-40, 60), size=7, replace=False)).astype(float)
            t = t - t[0] if periodic else t
            for f in FILTERS:
                v = P.rng.uniform(1, 100, size=7)
                if periodic:
                    v[-1] = v[0]
                out[f] = np.column_stack((t, v))
            return out

        base = {f: P.num(0, 5) for f in FILTERS}
        if kind == "template":
            m = LightcurveTemplateModel(lc(False), shared_passbands(), 0.0, baseline=base, **common)
        elif kind == "template_periodic":
            m = LightcurveTemplateModel(lc(True), shared_passbands(), 0.0, periodic=True, **common)
        else:
            m = MultiLightcurveTemplateModel(
                [LightcurveData(lc(i == 2), 0.0, periodic=(i == 2), baseline=None if i == 2 else base) for i in range(3)],
                shared_passbands(), weights=[1.0, 2.0, 1.0], **common,
            )
    elif kind in ("add", "choose"):
        parts = [build(p, f"{label}_part{i}") for i, p in enumerate(spec["parts"])]
        w = P.rng.uniform(0.2, 3.0, size=len(parts)) if spec.get("weights") else None
        cls = AdditiveMultiObjectModel if kind == "add" else RandomMultiObjectModel
        m = cls(parts, weights=w, **common)
    else:
        raise KeyError(kind)
    if apply_effects:
        for e in spec.get("effects", []):
            m.add_effect(make_effect(e, P))
    return m


def has_noise(spec):
    return any(e.startswith("noise") for e in spec.get("effects", [])) or any(has_noise(p) for p in spec.get("parts", []))


times_st = st.lists(gr(-40, 60, 1000), min_size=1, max_size=8, unique=True)
waves_st = st.lists(gr(2500, 9500, 700), min_size=1, max_size=8, unique=True)


# --------------------------------------------------------------------------------------
# surveys
# --------------------------------------------------------------------------------------
def survey_columns(n, seed, filters=FILTERS, center=(15.0, 0.0), spread=3.0, tspan=(-60.0, 80.0)):
    rng = np.random.default_rng(seed)
    return {
        "observationStartMJD": np.sort(np.round(rng.uniform(*tspan, size=n), 4)),
        "fieldRA": np.round(center[0] + rng.uniform(-spread, spread, size=n), 4),
        "fieldDec": np.round(center[1] + rng.uniform(-spread, spread, size=n), 4),
        "filter": rng.choice(np.array(filters), size=n),
        "airmass": np.round(rng.uniform(1.0, 2.0, size=n), 3),
        "visitExposureTime": rng.choice([15.0, 30.0, 29.2], size=n),
        "numExposures": rng.choice([1, 2], size=n),
        "seeingFwhmEff": np.round(rng.uniform(0.6, 1.6, size=n), 3),
        "skyBrightness": np.round(rng.uniform(18.5, 22.0, size=n), 3),
        "observationId": np.arange(n) + 100,
    }


def opsim(n, seed, **kw):
    from lightcurvelynx.obstable.opsim import OpSim

    extra = {k: kw.pop(k) for k in list(kw) if k in ("filters", "center", "spread", "tspan")}
    return OpSim(survey_columns(n, seed, **extra), **kw)


__all__ = [n for n in dir() if not n.startswith("_")]
_ = seeds

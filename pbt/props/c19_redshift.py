import astropy.cosmology as ac
import numpy as np
from hypothesis import strategies as st

from lightcurvelynx.astro_utils.redshift import (
    RedshiftDistFunc,
    obs_to_rest_times_waves,
    redshift_to_distance,
    rest_to_obs_flux,
)
from lightcurvelynx.math_nodes.basic_math_node import BasicMathNode
from lightcurvelynx.math_nodes.np_random import NumpyRandomFunc
from lightcurvelynx.models.agn import AGN
from lightcurvelynx.models.basic_models import ConstantSEDModel
from lightcurvelynx.models.multi_object_model import AdditiveMultiObjectModel
from lightcurvelynx.models.periodic_variable_star import EclipsingBinaryStar
from lightcurvelynx.models.snia_host import SNIaHost

from .. import zoo
from ..core import check, close, describe, raises, require, same
from ..gen import fd, gr, logfl, seeds

describe(
    "C19",
    "Cases are spectral sources of the catalogue at sampled redshifts with rest-frame effects and extrapolation, "
    "and distances under several cosmologies; non-trivial when some redshift is not zero and some flux is not zero.",
    ["SALT-type sources are evaluated in single precision: compared to 2e-5",
     "a redshifted source has a reference time (without one it refuses)"],
)

FAST = [k for k in zoo.SED_KINDS if k != "salt2"]
REST = ("dim", "ext_rest")


def rt(spec):
    return 2e-5 if spec["kind"] == "salt2" else 1e-9


def zs_of(state, name, n):
    z = np.atleast_1d(np.asarray(state[name]["redshift"], dtype=object))
    return np.array([0.0 if v is None else float(v) for v in z])[:n]


def rest_flux(spec, state, t, w, label="m"):
    """The rest-frame spectrum of one sample, from a copy of the model that does not redshift."""
    m = zoo.build(spec, label)
    m.set_apply_redshift(False)
    m.sample_parameters(num_samples=1)  # fixes the names of the nodes
    return m.evaluate_sed(t, w, state)


def stretched(spec, name, state, t, w, label="m"):
    z = zs_of(state, name, 1)[0]
    t0 = float(state[name]["t0"])
    return (1 + z) * rest_flux(spec, state, t0 + (t - t0) / (1 + z), w / (1 + z), label)


def grid(case, g, nt=5, nw=5):
    t = np.concatenate([np.array(case["times"])[:nt] + g.uniform(-1e-3, 1e-3), g.uniform(-60, 120, 2)])
    w = np.concatenate([np.array(case["waves"])[:nw] + g.uniform(-1e-3, 1e-3), g.uniform(2200, 16000, 3)])
    return t, w


STRETCH = fd({
    "spec": zoo.model_strategy(kinds=FAST, effects=REST, composites=False, zs=("pos", "tiny", "blue", "pos", "big", "zero", "none"), spread_only=True),
    "times": zoo.times_st, "waves": zoo.waves_st, "ns": st.integers(1, 3), "seed": seeds(),
})


@check("C19", STRETCH, quick=900)
def stretch(case, rec):
    spec = case["spec"]
    model = zoo.build(spec)
    g = np.random.default_rng([case["seed"], 2])
    ns = case["ns"]
    state = model.sample_parameters(num_samples=ns, rng_info=np.random.default_rng([case["seed"], 1]))
    t, w = grid(case, g)
    flux = model.evaluate_sed(t, w, state)
    cube = flux if ns > 1 else flux[None]
    zs = zs_of(state, "m", ns)
    for i in range(ns):
        one = state.extract_single_sample(i)
        want = stretched(spec, "m", one, t, w)
        close(cube[i], want, rtol=rt(spec), atol=1e-9 * np.abs(want).max(), msg=f"redshifted flux of sample {i}")
        if zs[i] == 0:
            close(cube[i], rest_flux(spec, one, t, w), rtol=1e-12, msg="no redshift: the rest frame")
    # switched off
    model.set_apply_redshift(False)
    off = model.evaluate_sed(t, w, state)
    off = off if ns > 1 else off[None]
    for i in range(ns):
        close(off[i], rest_flux(spec, state.extract_single_sample(i), t, w), rtol=1e-12, msg="switched off: the rest frame")
    if spec["z"] != "none":
        model.set_apply_redshift(True)
        same(model.evaluate_sed(t, w, state), flux, "switched on again")
    rec.nontrivial(np.any(zs != 0) and np.any(cube != 0))
    rec.label(spec["kind"])


@check("C19", fd({
    "spec": zoo.model_strategy(kinds=["salt2"], composites=False, zs=("pos",), modes=("rand",), spread_only=True), "seed": seeds(),
}), quick=10)
def salt(case, rec):
    model = zoo.build(case["spec"])
    state = model.sample_parameters(num_samples=2, rng_info=np.random.default_rng([case["seed"], 1]))
    g = np.random.default_rng([case["seed"], 2])
    t, w = g.uniform(-18, 45, size=4), g.uniform(3500, 8500, size=3)
    flux = model.evaluate_sed(t, w, state)
    for i in range(2):
        want = stretched(case["spec"], "m", state.extract_single_sample(i), t, w)
        close(flux[i], want, rtol=5e-5, atol=1e-6 * np.abs(want).max(), msg="redshifted flux")
    rec.nontrivial(np.any(flux != 0))


@check("C19", fd({
    "spec": zoo.model_strategy(kinds=FAST, effects=REST, composites=False, zs=("pos", "tiny", "blue", "big", "zero"), spread_only=True),
    "times": zoo.times_st, "seed": seeds(), "ns": st.integers(1, 3),
}), quick=350)
def bands(case, rec):
    """Band fluxes and light curve functions see the redshifted spectrum."""
    spec = case["spec"]
    model = zoo.build(spec)
    g = np.random.default_rng([case["seed"], 2])
    ns = case["ns"]
    state = model.sample_parameters(num_samples=ns, rng_info=np.random.default_rng([case["seed"], 1]))
    t = np.array(case["times"]) + 1e-4 * g.random()
    filt = g.choice(np.array(zoo.FILTERS), size=len(t))
    pbs = zoo.shared_passbands()
    flux = np.atleast_2d(model.evaluate_bandfluxes(pbs, t, filt, state))
    for i in range(ns):
        one = state.extract_single_sample(i)
        for f in np.unique(filt):
            pb = pbs[f]
            sed = stretched(spec, "m", one, t[filt == f], pb.waves)
            want = pb.fluxes_to_bandflux(sed)
            close(flux[i][filt == f], want, rtol=rt(spec), atol=1e-9 * np.abs(want).max(), msg=f"band flux of sample {i} in {f}")
    rec.nontrivial(np.any(zs_of(state, "m", ns) != 0) and np.any(flux != 0))
    rec.label(spec["kind"])


PART = zoo.model_strategy(kinds=FAST, effects=REST, composites=False, zs=("pos", "none", "tiny", "blue", "big", "zero"), spread_only=True)


@check("C19", fd({
    "parts": st.lists(PART, min_size=2, max_size=3), "times": zoo.times_st, "waves": zoo.waves_st, "seed": seeds(), "z": st.sampled_from(["none", "pos"]),
    "off": st.booleans(),
}), quick=250)
def sums(case, rec):
    """Every part of a sum has its own redshift and reference time."""
    g = np.random.default_rng([case["seed"], 2])
    parts = [zoo.build(p, f"part{i}") for i, p in enumerate(case["parts"])]
    kw = {"t0": 4.0, "redshift": 0.7} if case["z"] == "pos" else {}
    model = AdditiveMultiObjectModel(parts, node_label="m", **kw)
    state = model.sample_parameters(num_samples=2, rng_info=np.random.default_rng([case["seed"], 1]))
    t, w = grid(case, g)
    if case["off"]:
        model.set_apply_redshift(False)
    flux = model.evaluate_sed(t, w, state)
    for i in range(2):
        one = state.extract_single_sample(i)
        want = 0
        for j, p in enumerate(case["parts"]):
            name = parts[j].node_string
            if case["off"]:
                want = want + rest_flux(p, one, t, w, f"part{j}")
            else:
                want = want + stretched(p, name, one, t, w, f"part{j}")
        close(flux[i], want, rtol=1e-8, atol=1e-9 * np.abs(want).max(), msg=f"sum of the parts in their own frames (sample {i})")
    zs = [zs_of(state, m.node_string, 2).max() for m in parts]
    rec.nontrivial(max(zs) > 0 and len(set(zs)) > 1)


@check("C19", fd({
    "kind": st.sampled_from(["sncosmo", "salt2"]), "z": st.one_of(st.none(), gr(0, 3), gr(0, 20), logfl(-5, -2)), "t0": gr(-100, 100), "seed": seeds(), "ps": st.integers(0, 10**6),
}), quick=150)
def windows(case, rec):
    """The time mask of supernova models keeps exactly the phases the model covers, stretched by 1+z."""
    g = np.random.default_rng([case["seed"], 2])
    z = case["z"]
    key = ("win", case["kind"])
    if key not in zoo._CACHE:  # building reads files
        zoo._CACHE[key] = zoo.build({"kind": case["kind"], "ps": 1, "mode": "const", "z": "pos"})
    model = zoo._CACHE[key]
    model.set_parameter("redshift", z)
    model.set_parameter("t0", case["t0"])
    state = model.sample_parameters(num_samples=1)
    lo, hi = (-20.0, 50.0) if case["kind"] == "salt2" else (-15.0, 45.0)
    f = 1 + (z or 0.0)
    eps = 1e-6 * f
    t = case["t0"] + np.concatenate([[lo * f - eps, lo * f + eps, hi * f - eps, hi * f + eps, 0.0], g.uniform(-100, 200, 12)])
    phase = (t - case["t0"]) / f
    got = np.asarray(model.mask_by_time(t, state))
    same(got, (phase > lo) & (phase < hi), "observable phases")
    require(got.shape == t.shape, "one entry per time")
    rec.nontrivial(f > 1)


# ----------------------------------------------------------------------------------
COSMO = {
    "planck18": lambda r: ac.Planck18,
    "wmap9": lambda r: ac.WMAP9,
    "flat": lambda r: ac.FlatLambdaCDM(H0=r(50, 90), Om0=r(0.05, 0.9)),
    "lambda": lambda r: ac.LambdaCDM(H0=r(50, 90), Om0=r(0.1, 0.5), Ode0=r(0.1, 0.9)),
    "w0wa": lambda r: ac.Flatw0waCDM(H0=r(50, 90), Om0=r(0.1, 0.5), w0=r(-1.3, -0.7), wa=r(-0.3, 0.3)),
    "eds": lambda r: ac.FlatLambdaCDM(H0=r(50, 90), Om0=1.0),
    "name": lambda r: "Planck15",
}
C = 299792.458


def reference(kind, cosmo, z):
    """Luminosity distance in pc."""
    if kind == "name":
        cosmo = ac.Planck15
    if kind == "eds":  # a closed form
        return 2 * C / cosmo.H0.value * (1 + z - np.sqrt(1 + z)) * 1e6
    return cosmo.luminosity_distance(z).to_value("pc")


@check("C19", fd({
    "cosmo": st.sampled_from(sorted(COSMO)), "seed": seeds(), "ns": st.sampled_from([4, 2, 1, 6]),
    "model": st.sampled_from(["host", "const", "eclipsing", "agn", "sncosmo", "node", "sum", "explicit"]), "const": st.sampled_from([False, False, True]),
}), quick=300)
def distances(case, rec):
    g = np.random.default_rng([case["seed"], 3])
    cosmo = COSMO[case["cosmo"]](lambda a, b: float(g.uniform(a, b)))
    lo, hi = sorted(g.uniform(0.001, 6, 2)) if g.random() < 0.6 else sorted(10 ** g.uniform(-4, 2, 2))
    z = float(lo) if case["const"] else NumpyRandomFunc("uniform", low=float(lo), high=float(hi), node_label="z")
    kind, ns = case["model"], case["ns"]
    kw = {"redshift": z, "cosmology": cosmo, "node_label": "m"}
    if kind == "node":
        m = RedshiftDistFunc(redshift=z, cosmology=cosmo, node_label="m")
    elif kind == "host":
        m = SNIaHost(hostmass=NumpyRandomFunc("uniform", low=7, high=12), ra=10.0, dec=2.0, **kw)
    elif kind == "const":
        m = ConstantSEDModel(3.0, t0=0.0, **kw)
    elif kind == "sum":
        m = ConstantSEDModel(3.0, t0=0.0, **kw)
        top = AdditiveMultiObjectModel([m, ConstantSEDModel(2.0, node_label="other")], node_label="top", redshift=m.redshift, distance=m.distance)
    elif kind == "eclipsing":
        m = EclipsingBinaryStar(
            period=2.0, major_semiaxis=1e12, inclination=90.0, primary_radius=7e10, secondary_radius=6e10,
            primary_temperature=6000.0, secondary_temperature=5000.0, t0=0.0, **kw,
        )
    elif kind == "agn":
        m = AGN(t0=0.0, blackhole_mass=1e8, edd_ratio=0.1, **kw)
    elif kind == "sncosmo":
        from lightcurvelynx.models.sncomso_models import SncosmoWrapperModel

        m = SncosmoWrapperModel(zoo.sncosmo_source(), amplitude=1.0, t0=0.0, **kw)
    else:
        m = ConstantSEDModel(3.0, t0=0.0, distance=12.5, **kw)
    root = top if kind == "sum" else m
    state = root.sample_parameters(num_samples=ns, rng_info=np.random.default_rng([case["seed"], 1]))
    zs = np.atleast_1d(state["m"]["redshift"]).astype(float)
    if kind == "node":
        got = np.atleast_1d(state["m"]["function_node_result"])
    else:
        got = np.atleast_1d(state["m"]["distance"])
    if kind == "explicit":
        same(np.asarray(got, dtype=float), np.full(ns, 12.5), "a given distance is kept")
        return
    want = reference(case["cosmo"], cosmo, zs)
    close(np.asarray(got, dtype=float), want, rtol=1e-9, msg="luminosity distance in parsec")
    if kind == "sum":
        same(np.atleast_1d(state["top"]["distance"]), got, "the sum at the distance of its part")
    if not case["const"] and ns > 1 and case["cosmo"] != "lambda":
        o = np.argsort(zs)
        require(np.all(np.diff(np.asarray(got, dtype=float)[o]) > 0), "grows with redshift")
    close(redshift_to_distance(zs, cosmo), want, rtol=1e-9, msg="helper")
    close(redshift_to_distance(float(zs[0]), cosmo), want[0], rtol=1e-9, msg="helper, scalar")
    rec.nontrivial(ns > 1 and not case["const"])
    rec.label(kind)


@check("C19", fd({
    "how": st.sampled_from(["callable", "changed", "random again", "linked", "chain"]), "model": st.sampled_from(["const", "host", "sncosmo"]), "first": st.sampled_from(["const", "random"]),
    "seed": seeds(), "ns": st.sampled_from([3, 1]),
}), quick=80)
def distance_follows(case, rec):
    """The distance is that of the redshift the source itself has, however the redshift is set."""
    g = np.random.default_rng([case["seed"], 6])
    a, b = (float(x) for x in g.uniform(0.05, 3, 2))
    ns = 1 if case["how"] == "callable" else case["ns"]
    calls = []

    def draw():
        calls.append(float(g.uniform(0.05, 3)))
        return calls[-1]

    uni = lambda label: NumpyRandomFunc("uniform", low=min(a, b), high=max(a, b) + 0.5, node_label=label)  # noqa: E731
    z = a if case["first"] == "const" else uni("first")
    if case["how"] == "callable":
        z = draw
    elif case["how"] == "linked":
        z = ConstantSEDModel(1.0, redshift=z, t0=0.0, node_label="host").redshift
    elif case["how"] == "chain":
        z = BasicMathNode("x * 0.5 + 0.1", x=z)
    kw = {"redshift": z, "cosmology": ac.Planck18, "node_label": "m"}
    if case["model"] == "const":
        m = ConstantSEDModel(3.0, t0=0.0, **kw)
    elif case["model"] == "host":
        m = SNIaHost(hostmass=10.0, ra=10.0, dec=2.0, **kw)
    else:
        from lightcurvelynx.models.sncomso_models import SncosmoWrapperModel

        m = SncosmoWrapperModel(zoo.sncosmo_source(), amplitude=1.0, t0=0.0, **kw)
    rounds = 1
    if case["how"] == "changed":
        m.set_parameter("redshift", b)
    elif case["how"] == "random again":
        m.set_parameter("redshift", uni("second"))
        rounds = 2
    for r in range(rounds):
        state = m.sample_parameters(num_samples=ns, rng_info=np.random.default_rng([case["seed"], r]))
        zs = np.atleast_1d(state["m"]["redshift"]).astype(float)
        if case["how"] == "changed":
            require(np.all(zs == b), "the new redshift")
        close(np.atleast_1d(state["m"]["distance"]).astype(float), ac.Planck18.luminosity_distance(zs).to_value("pc"), rtol=1e-9, msg="distance of the source's own redshift")
    rec.nontrivial(True)
    rec.label(case["how"])


@check("C19", fd({"seed": seeds(), "n": st.integers(1, 8), "z": st.one_of(st.just(0.0), gr(0, 10), gr(0, 80), logfl(-5, -2)), "scalar": st.booleans()}), quick=300)
def helpers(case, rec):
    g = np.random.default_rng([case["seed"], 4])
    z, t0 = case["z"], float(g.uniform(-1e4, 6e4))
    t, w, f = t0 + g.uniform(-300, 300, case["n"]), g.uniform(1000, 2e4, case["n"]), g.normal(size=(case["n"], 3))
    a = [t.copy(), w.copy(), f.copy()]
    rt_, rw = obs_to_rest_times_waves(t, w, z, t0)
    fo = rest_to_obs_flux(f, z)
    for x, y in zip((t, w, f), a, strict=True):
        same(x, y, "arguments")
    close(rt_ - t0, (t - t0) / (1 + z), rtol=1e-9, atol=1e-9, msg="phase")
    close(rw, w / (1 + z), rtol=1e-14, msg="rest wavelength")
    close(fo, f * (1 + z), rtol=1e-14, msg="flux")
    nu_obs, nu_rest = 1 / w, 1 / rw
    close(fo[:, 0] * nu_obs, f[:, 0] * nu_rest, rtol=1e-12, msg="energy per logarithmic frequency is kept")
    if z == 0:
        close(rt_, t, rtol=0, atol=1e-10, msg="z=0 times")
        same(rw, w, "z=0 waves")
        same(fo, f, "z=0 flux")
    rec.nontrivial(z > 0)


@check("C19", fd({"what": st.sampled_from(["no t0", "no z"]), "seed": seeds()}), quick=20)
def refused(case, rec):
    g = np.random.default_rng([case["seed"], 5])
    t, w = g.uniform(0, 10, 3), g.uniform(3000, 8000, 3)
    if case["what"] == "no t0":
        m = ConstantSEDModel(2.0, redshift=0.4)
        state = m.sample_parameters(num_samples=1)
        raises((ValueError, TypeError), lambda: m.evaluate_sed(t, w, state), "redshift without reference time")
    else:
        m = ConstantSEDModel(2.0, t0=0.0)
        m.set_apply_redshift(True)
        state = m.sample_parameters(num_samples=1)
        raises((ValueError, TypeError), lambda: m.evaluate_sed(t, w, state), "redshifting without a redshift")
    rec.nontrivial(True)

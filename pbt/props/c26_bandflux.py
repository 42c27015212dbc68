import numpy as np
import pandas as pd
from hypothesis import strategies as st

from lightcurvelynx.astro_utils.passbands import Passband, PassbandGroup
from lightcurvelynx.models.basic_models import ConstantSEDModel
from lightcurvelynx.models.physical_model import SEDModel

from .. import zoo
from ..core import check, close, describe, raises, require, same
from ..gen import fd, seeds

describe(
    "C26",
    "Cases are models of every kind (sums, choices, effects, redshifts, several samples) seen through generated passband "
    "groups (overlapping, nested, of several surveys, with any step, trimming and unit) for interleaved, repeated, single and "
    "empty lists of times and filters; non-trivial when at least two filters with different fluxes are asked for.",
    ["wavelength grids that agree to a relative 1e-5 count as even, so integrals are compared to 5e-4 of the peak",
     "observer-frame extinction is applied to the parts of sums and choices (its own band fluxes are refused)",
     "SALT-type models compute in single precision"],
)

NAMES = [("S", "g"), ("S", "r"), ("T", "i"), ("T", "g"), ("S", "S_g"), ("U", "zz-long-name"), ("S", "y")]
GROUP = fd({"n": st.sampled_from([3, 5, 2, 4, 1]), "seed": seeds(), "trim": st.sampled_from([None, 1e-3]), "nm": st.booleans()})


def group(spec):
    """Passbands with up to about sixty grid points, and their raw tables in angstroms."""
    g = np.random.default_rng([spec["seed"], 26])
    out, tabs = [], {}
    for k in g.permutation(len(NAMES))[: spec["n"]]:
        survey, name = NAMES[k]
        n = int(g.integers(3, 10))
        lo, span = float(g.integers(3000, 7500)), float(g.integers(200, 1800))
        gap = 0.2 + g.random(n - 1)
        w = lo + span * np.concatenate([[0.0], np.cumsum(gap)]) / gap.sum()
        t = np.round(0.1 + 0.9 * g.random(n), 3)
        if g.random() < 0.6:
            t[0] = t[-1] = 0.0
        delta = [None, span / 30, span / 11.5, span / 48.2][int(g.integers(4))]
        tab = np.column_stack([w, t])
        nm = spec["nm"] and g.random() < 0.5
        raw = tab / [10.0, 1.0] if nm else tab.copy()
        trim = spec["trim"] if delta is not None and delta < span / 20 else None
        out.append(Passband(raw, survey, name, delta_wave=delta, trim_quantile=trim, units="nm" if nm else "A"))
        tabs[out[-1].full_name] = tab
    return out, tabs


def weights(pb, tab):
    """Photon weights on the passband's grid: transmission over wavelength, times the share of the grid."""
    w = np.asarray(pb.waves)
    h = np.diff(w)
    cell = np.concatenate([[h[0] / 2], (h[:-1] + h[1:]) / 2, [h[-1] / 2]])
    x = np.interp(w, tab[:, 0], tab[:, 1]) / w * cell
    return x / x.sum()


def filters_of(g, pbs, n):
    """Random filter names: full names, or short names where they say which passband is meant."""
    names, meant = [], []
    full = [p.full_name for p in pbs]
    for _ in range(n):
        p = pbs[int(g.integers(len(pbs)))]
        unique = sum(q.filter_name == p.filter_name for q in pbs) == 1 and (p.filter_name not in full)
        names.append(p.filter_name if unique and g.random() < 0.6 else p.full_name)
        meant.append(p)
    return np.array(names), meant




def usable(spec):
    """Sums and choices apply their own observer-frame effects to band fluxes: extinction cannot do that."""
    if "parts" in spec:
        spec = {**spec, "effects": [e for e in spec["effects"] if e != "ext_obs"]}
    return spec


FAST = [k for k in zoo.SED_KINDS if k != "salt2"]  # compiled for every grid size
SPEC = zoo.model_strategy(kinds=FAST, effects=("dim", "ext_rest", "ml", "ext_obs", "dim_obs"), max_effects=2).map(usable)
FORMS = ["array", "list", "object", "series", "reversed"]


def form(kind, x):
    if kind == "list":
        return np.asarray(x).tolist()
    if kind == "object":
        return np.asarray(x, dtype=object) if np.asarray(x).dtype.kind == "U" else x
    if kind == "series":
        return pd.Series(x, index=np.arange(len(x))[::-1] * 2 + 5)
    if kind == "reversed":
        return np.asarray(x)[::-1].copy()[::-1]
    return x


def tolerance(spec):
    kinds = [p["kind"] for p in spec.get("parts", [])] + [spec["kind"]]
    return 2e-4 if "salt2" in kinds else 1e-9


@check("C26", fd({"spec": SPEC, "group": GROUP, "n": st.sampled_from([6, 9, 4, 3, 2]), "ns": st.sampled_from([2, 1, 3]), "form": st.sampled_from(FORMS), "seed": seeds()}), quick=400)
def through(case, rec):
    g = np.random.default_rng([case["seed"], 1])
    m = zoo.build(case["spec"])
    pbs, tabs = group(case["group"])
    pg = PassbandGroup(list(pbs))
    ns, n = case["ns"], case["n"]
    state = m.sample_parameters(num_samples=ns, rng_info=np.random.default_rng([case["seed"], 2]))
    t = np.round(g.uniform(-30, 50, n), 3) + 1e-4
    if n > 4:
        t[1] = t[-1]
    names, meant = filters_of(g, pbs, n)
    t0, f0 = t.copy(), names.copy()
    got = m.evaluate_bandfluxes(pg, form(case["form"], t), form(case["form"], names), state)
    require(isinstance(got, np.ndarray) and got.shape == ((n,) if ns == 1 else (ns, n)), f"shape {np.shape(got)}")
    same(t, t0, "times given"), same(names, f0, "filters given")
    first = got.copy()
    m.evaluate_bandfluxes(pg, t + 3.0, names, m.sample_parameters(num_samples=ns, rng_info=np.random.default_rng([case["seed"], 3])))
    same(got, first, "the first result after evaluating at other times")
    cube = np.atleast_2d(first)
    tol = tolerance(case["spec"])
    spread = 0.0
    for i in range(ns):
        one = state.extract_single_sample(i)
        want, rough, peak = np.empty(n), np.empty(n), np.empty(n)
        for j in range(n):
            sed = m.evaluate_sed(t[j : j + 1], meant[j].waves, one)
            peak[j] = np.abs(sed).max()
            want[j] = meant[j].fluxes_to_bandflux(sed)[0]
            rough[j] = sed[0] @ weights(meant[j], tabs[meant[j].full_name])
        top = peak.max() + 1e-12
        require(np.all(np.abs(cube[i] - rough) <= 5e-4 * peak + 10 * tol * top), f"sample {i}: {cube[i]}, integrals of the spectra {rough}")
        require(np.all(np.abs(cube[i] - want) <= tol * top + tol * peak), f"sample {i}: {cube[i]}, spectra through their own passband {want}")
        spread = max(spread, np.ptp(want) / top)
        # one sample on its own, one filter at a time, one observation at a time, through the passband object
        alone = m.evaluate_bandfluxes(pg, t, names, one)
        close(alone, cube[i], rtol=tol, atol=tol * top, msg=f"sample {i} on its own")
        j = int(g.integers(n))
        mask = names == names[j]
        close(m.evaluate_bandfluxes(pg, t[mask], names[mask], one), cube[i][mask], rtol=tol, atol=tol * top, msg="one filter at a time")
        close(m.evaluate_bandfluxes(meant[j], t[mask], None, one), cube[i][mask], rtol=tol, atol=tol * top, msg="through the passband object")
        close(m.evaluate_bandfluxes(meant[j], t[mask], np.full(mask.sum(), meant[j].full_name), one), cube[i][mask], rtol=tol, atol=tol * top, msg="passband object and its full name")
        close(m.evaluate_bandfluxes(PassbandGroup(meant[j]), t[mask], np.full(mask.sum(), meant[j].filter_name), one), cube[i][mask], rtol=tol, atol=tol * top, msg="group of one passband")
        close(m.evaluate_bandfluxes(pg, t[j : j + 1], names[j : j + 1], one), cube[i][j : j + 1], rtol=tol, atol=tol * top, msg="one observation")
        order = g.permutation(n)
        close(m.evaluate_bandfluxes(pg, t[order], names[order], one), cube[i][order], rtol=tol, atol=tol * top, msg="another order")
        twice = np.concatenate([order, order[:2]])
        close(m.evaluate_bandfluxes(pg, t[twice], names[twice], one), cube[i][twice], rtol=tol, atol=tol * top, msg="repeated observations")
    same(got, first, "the first result after later evaluations")
    used = list({p.full_name: p for p in meant}.values())
    g.shuffle(used)
    close(np.atleast_2d(m.evaluate_bandfluxes(PassbandGroup(used), t, np.array([p.full_name for p in meant]), state)), cube, rtol=tol, atol=tol * np.abs(cube).max(), msg="group of the filters asked for")
    rec.label(case["spec"]["kind"], "samples" if ns > 1 else "one sample")
    rec.nontrivial(len(used) > 1 and spread > 1e-3)


@check("C26", fd({"spec": zoo.model_strategy(kinds=zoo.SED_KINDS + zoo.BAND_KINDS, effects=("dim", "ml"), max_effects=1), "ns": st.sampled_from([2, 1, 3]), "which": st.sampled_from(["unknown", "empty", "length", "none", "part"]), "seed": seeds()}), quick=250)
def edges(case, rec):
    """Empty requests, unknown filters, and requests that do not fit."""
    spec = case["spec"]
    m = zoo.build(spec)
    g = np.random.default_rng([case["seed"], 5])
    pg = zoo.shared_passbands()
    ns = case["ns"]
    state = m.sample_parameters(num_samples=ns, rng_info=np.random.default_rng([case["seed"], 2]))
    t = np.round(g.uniform(-30, 40, 6), 3) + 1e-4
    f = g.choice(np.array(zoo.FILTERS), 6)
    w = case["which"]
    if w == "empty":
        for tt, ff in ((np.array([]), np.array([], dtype=str)), ([], []), (np.array([]), np.array([]))):
            e = m.evaluate_bandfluxes(pg, tt, ff, state)
            require(np.shape(e) == ((0,) if ns == 1 else (ns, 0)), f"empty request: shape {np.shape(e)}")
        e = m.evaluate_bandfluxes(pg["g"], np.array([]), None, state)
        require(np.shape(e) == ((0,) if ns == 1 else (ns, 0)), f"empty request of one passband: shape {np.shape(e)}")
    elif w == "unknown":
        k = int(g.integers(6))
        for name in ("q", "SIM_q", "", "G", "gg", "g "):
            bad = f.astype("<U8")
            bad[k] = name
            raises((KeyError, ValueError), lambda bad=bad: m.evaluate_bandfluxes(pg, t, bad, state), f"filter {name!r}")
        if not any(zoo.is_band(s) for s in [spec] + spec.get("parts", [])):
            raises((KeyError, ValueError), lambda: m.evaluate_bandfluxes(pg["g"], t, np.full(6, "r"), state), "a filter that is not the passband")
            small = PassbandGroup([pg["g"], pg["r"]])
            bad = f.copy()
            bad[k] = "i"
            raises((KeyError, ValueError), lambda: m.evaluate_bandfluxes(small, t, bad, state), "filter that is not in the group")
            double = PassbandGroup([pg["g"], Passband(np.array([[5000.0, 0.5], [6000.0, 1.0], [7000.0, 0.0]]), "OTHER", "g")])
            raises((KeyError, ValueError), lambda: m.evaluate_bandfluxes(double, t, np.full(6, "g"), state), "a name of two passbands")
    elif w == "length":
        for a, b in ((5, 6), (6, 5), (0, 6), (6, 0), (1, 6), (6, 1)):
            raises(ValueError, lambda a=a, b=b: m.evaluate_bandfluxes(pg, t[:a], f[:b], state), f"{a} times, {b} filters")
    elif w == "none":
        raises(ValueError, lambda: m.evaluate_bandfluxes(pg, t, None, state), "a group and no filters")
    else:
        whole = np.atleast_2d(m.evaluate_bandfluxes(pg, t, f, state))
        top = np.abs(whole).max()
        tol = tolerance(spec)
        for name in np.unique(f):
            k = f == name
            close(np.atleast_2d(m.evaluate_bandfluxes(pg[name], t[k], None, state)), whole[:, k], rtol=tol, atol=tol * top, msg="through the passband object")
        order = g.permutation(6)
        close(np.atleast_2d(m.evaluate_bandfluxes(pg, t[order], f[order], state)), whole[:, order], rtol=tol, atol=tol * top, msg="another order")
    rec.label(w)
    rec.nontrivial(True)


@check("C26", fd({"spec": zoo.model_strategy(kinds=["salt2"], effects=("dim",), max_effects=1, composites=False), "ns": st.sampled_from([2, 1]), "seed": seeds()}), quick=25)
def salt(case, rec):
    m = zoo.build(case["spec"])
    pg = zoo.shared_passbands()
    g = np.random.default_rng([case["seed"], 1])
    ns = case["ns"]
    state = m.sample_parameters(num_samples=ns, rng_info=np.random.default_rng([case["seed"], 2]))
    f = np.array(["g", "r", "i", "g"])[g.permutation(4)]
    t = np.round(g.uniform(-15, 40, 4), 3)
    cube = np.atleast_2d(m.evaluate_bandfluxes(pg, t, f, state))
    for i in range(ns):
        one = state.extract_single_sample(i)
        seds = {k: m.evaluate_sed(t, pg[k].waves, one) for k in zoo.FILTERS}
        top = max(np.abs(x).max() for x in seds.values()) + 1e-30
        for j in range(4):
            close(cube[i, j] / top, pg[f[j]].fluxes_to_bandflux(seds[f[j]])[j] / top, rtol=1e-4, atol=1e-4, msg=f"sample {i}, observation {j}")
    rec.nontrivial(True)


class Recorder(SEDModel):
    """Its spectrum names its own time and wavelength; it records what it was asked for."""

    def __init__(self, **kw):
        super().__init__(**kw)
        self.asked = []

    def compute_sed(self, times, wavelengths, graph_state, **kwargs):
        self.asked.append((np.array(times), np.array(wavelengths)))
        p = self.get_local_params(graph_state)
        return p["s"] * (p["a"] + 1e3 * np.asarray(times)[:, None]) + 1e-3 * np.asarray(wavelengths)[None, :]


@check("C26", fd({"group": GROUP, "n": st.sampled_from([7, 12, 4, 2, 1, 0]), "ns": st.sampled_from([2, 1, 4]), "z": st.sampled_from(["none", "pos", "zero"]), "seed": seeds()}), quick=400)
def closed_form(case, rec):
    """A spectrum that is linear in time and wavelength, through any group: mixing anything up is visible."""
    g = np.random.default_rng([case["seed"], 3])
    pbs, tabs = group(case["group"])
    pg = PassbandGroup(pbs)
    ns, n = case["ns"], case["n"]
    from lightcurvelynx.math_nodes.given_sampler import GivenValueList

    a = np.round(g.uniform(0, 1e4, ns), 2)
    z = np.round(g.uniform(0.1, 2, ns), 3) if case["z"] == "pos" else np.zeros(ns)
    t0 = np.round(g.uniform(-5, 5, ns), 3)
    kw = {} if case["z"] == "none" else {"redshift": GivenValueList(z.tolist()), "t0": GivenValueList(t0.tolist())}
    m = Recorder(node_label="rec", **kw)
    m.add_parameter("a", GivenValueList(a.tolist()))
    sign = g.choice([1.0, 1.0, -1.0], ns)
    m.add_parameter("s", GivenValueList(sign.tolist()))
    state = m.sample_parameters(num_samples=ns)
    t = np.round(g.uniform(0, 100, n), 3)
    names, meant = filters_of(g, pbs, n)
    cube = np.atleast_2d(m.evaluate_bandfluxes(pg, t, names, state)).reshape(ns, n)
    for i in range(ns):
        for j in range(n):
            mean = np.asarray(meant[j].waves) @ weights(meant[j], tabs[meant[j].full_name])
            tr = t0[i] + (t[j] - t0[i]) / (1 + z[i]) if kw else t[j]
            want = (sign[i] * (a[i] + 1e3 * tr) + 1e-3 * mean / (1 + z[i])) * (1 + z[i])
            close(cube[i, j], want, rtol=3e-5, atol=1e-3 * 5e-4 * 9000, msg=f"sample {i}, observation {j}")
    rec.nontrivial(n > 1 and len(pbs) > 1)


@check("C26", fd({"value": st.sampled_from([3.0, 1e-4, 1e9]), "group": GROUP, "seed": seeds()}), quick=60)
def constants(case, rec):
    """A constant spectrum has that flux in every band; without a state one is sampled."""
    pbs, _ = group(case["group"])
    pg = PassbandGroup(pbs)
    m = ConstantSEDModel(case["value"])
    g = np.random.default_rng(case["seed"])
    names, _ = filters_of(g, pbs, 7)
    close(m.evaluate_bandfluxes(pg, np.arange(7.0), names, None), np.full(7, case["value"]), rtol=1e-9, msg="constant spectrum")
    rec.nontrivial(len(pbs) > 1)

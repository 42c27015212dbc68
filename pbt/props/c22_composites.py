import numpy as np
from hypothesis import strategies as st
from scipy import stats

from lightcurvelynx.math_nodes.np_random import NumpyRandomFunc
from lightcurvelynx.models.basic_models import ConstantSEDModel, StepModel
from lightcurvelynx.models.multi_object_model import AdditiveMultiObjectModel, RandomMultiObjectModel
from lightcurvelynx.models.static_sed_model import StaticBandfluxModel
from lightcurvelynx.simulate import simulate_lightcurves

from .. import zoo
from ..core import check, close, describe, raises, require, same
from ..gen import fd, seeds
from .c20_effects import Affine, act, local

describe(
    "C22",
    "Cases are trees of sums and random choices (up to three levels, parts listed twice, unlabelled or equally labelled "
    "parts, weights, per-part redshifts, effects and extrapolation) over spectral and band-flux sources; non-trivial "
    "when the tree has at least two different parts with flux.",
    ["SALT-type parts have their own checks (slow)"],
)

FAST = [k for k in zoo.SED_KINDS if k != "salt2"]
EFF = ("dim", "ml", "dim_obs")


def leaf(kinds):
    return zoo.model_strategy(kinds=kinds, effects=EFF, max_effects=1, composites=False, spread_only=True)


def tree(kinds):
    """Trees are lists: ['leaf', spec] or [class, [children], weights?, eff?]."""
    lf = leaf(kinds).map(lambda s: ["leaf", s])
    node = lambda kid: st.tuples(  # noqa: E731
        st.sampled_from(["add", "choose"]), st.one_of(st.lists(kid, min_size=1, max_size=3), st.lists(kid, min_size=4, max_size=5)), st.sampled_from(["w", "none", "list"]),
        st.sampled_from(["", "", "obs", "rest"]), st.sampled_from(["labels", "none", "names"]),
    ).map(list)
    one = node(lf)
    return st.one_of(one, node(st.one_of(lf, one)), one)


class Tree:
    """Builds the model of a tree and evaluates its parts on their own."""

    def __init__(self, spec, seed):
        self.seed, self.n, self.leaves = seed, 0, []
        self.root = self.make(spec, True)
        self.model = self.root["model"]

    def make(self, spec, top=False):
        self.n += 1
        i = self.n
        g = np.random.default_rng([self.seed, 22, i])
        if spec[0] == "leaf":
            d = {"model": zoo.build(spec[1], f"leaf{i}"), "kind": "leaf", "spec": spec[1], "label": f"leaf{i}"}
            self.leaves.append(d)
            return d
        kids = [self.make(s) for s in spec[1]]
        if spec[4] == "none" and all(k["kind"] == "leaf" for k in kids):
            for k in kids:
                k["model"].node_label = None
                k["label"] = None
        weights = None
        if spec[2] != "none":
            weights = np.round(g.uniform(0.1, 3, len(kids)), 3)
            u = g.random()
            if u < 0.3:
                weights = weights / weights.sum()
            elif u < 0.5:
                weights[int(g.integers(len(kids)))] *= -1 if spec[0] == "add" else 1
            elif u < 0.6 and len(kids) > 1:
                weights[int(g.integers(len(kids)))] = 0.0
            elif u < 0.7:
                weights = np.ceil(weights).astype(int)
            if spec[2] == "list":
                weights = weights.tolist()
        kw = {"node_label": f"node{i}"}
        models = [k["model"] for k in kids]
        if spec[0] == "add":
            m = AdditiveMultiObjectModel(models, weights=weights, **kw)
        else:
            names = [f"n{j}" for j in range(len(kids))] if spec[4] == "names" else None
            m = RandomMultiObjectModel(models, weights=weights, object_names=names, **kw)
        d = {"model": m, "kind": spec[0], "kids": kids, "weights": weights, "effects": [], "names": list(getattr(m, "object_map", {}))}
        if spec[3]:
            tag = f"t{i}"
            a, b = NumpyRandomFunc("uniform", low=0.3, high=0.9, node_label=f"{tag}n"), 1.5
            eff = Affine(tag, a, b, rest_frame=spec[3] == "rest")
            m.add_effect(eff)
            d["effects"].append((tag, spec[3] == "rest"))
        return d

    def value(self, d, state, own, obs):
        """Flux of a subtree: `own(leaf model)` evaluates one part; `obs(flux, tag, params)` applies an effect."""
        if d["kind"] == "leaf":
            return own(d["model"], state)
        if d["kind"] == "add":
            w = d["weights"] if d["weights"] is not None else [1.0] * len(d["kids"])
            f = sum(wi * self.value(k, state, own, obs) for wi, k in zip(w, d["kids"], strict=True))
        else:
            sel = str(state[d["model"].node_string]["selected_object"])
            require(sel in d["names"], f"the recorded selection {sel} is one of {d['names']}")
            f = self.value(d["kids"][d["names"].index(sel)], state, own, obs)
        for tag, rest in d["effects"]:
            if not rest:
                f = obs(f, tag, local(state, d["model"].node_string))
        return f


CASE = {"times": zoo.times_st, "waves": zoo.waves_st, "ns": st.sampled_from([3, 1, 2]), "seed": seeds()}


@check("C22", fd({"tree": tree(FAST), **CASE}), quick=500)
def spectra(case, rec):
    tr = Tree(case["tree"], case["seed"])
    m, ns = tr.model, case["ns"]
    state = m.sample_parameters(num_samples=ns, rng_info=np.random.default_rng([case["seed"], 1]))
    t, w = np.array(case["times"]) + 1e-4, np.array(case["waves"])
    flux = m.evaluate_sed(t, w, state)
    cube = flux if ns > 1 else flux[None]
    require(cube.shape == (ns, len(t), len(w)), "shape")
    scale = 1.0
    for i in range(ns):
        one = state.extract_single_sample(i)
        want = tr.value(tr.root, one, lambda p, s: p.evaluate_sed(t, w, s), lambda f, tag, p: act("affine", tag, p, f, t, w))
        scale = np.abs(want).max() + 1e-3
        close(cube[i], want, rtol=1e-10, atol=1e-11 * scale, msg=f"composite from its parts (sample {i})")
        limits(tr.root, one)
    rec.nontrivial(len(tr.leaves) > 1 and scale > 1e-2)
    rec.label(case["tree"][0])


def limits(d, state):
    if d["kind"] == "leaf":
        return
    for k in d["kids"]:
        limits(k, state)
    lo = [k["model"].minwave(state) for k in d["kids"]]
    hi = [k["model"].maxwave(state) for k in d["kids"]]
    if d["kind"] == "add":
        require(list(d["model"].minwave(state)) == lo and list(d["model"].maxwave(state)) == hi, "limits of every part")
    else:
        j = d["names"].index(str(state[d["model"].node_string]["selected_object"]))
        require(d["model"].minwave(state) == lo[j] and d["model"].maxwave(state) == hi[j], "limits of the selected part")


@check("C22", fd({"tree": st.one_of(tree(FAST + zoo.BAND_KINDS), tree(zoo.BAND_KINDS), tree(FAST)), **CASE}), quick=350)
def bands(case, rec):
    """Band fluxes, with any mixture of spectral and band-flux parts."""
    tr = Tree(case["tree"], case["seed"])
    m, ns = tr.model, case["ns"]
    g = np.random.default_rng([case["seed"], 2])
    pbs = zoo.shared_passbands()
    state = m.sample_parameters(num_samples=ns, rng_info=np.random.default_rng([case["seed"], 1]))
    t = np.array(case["times"]) + 1e-4
    filt = g.choice(np.array(zoo.FILTERS), size=len(t))
    flux = m.evaluate_bandfluxes(pbs, t, filt, state)
    cube = flux if ns > 1 else flux[None]
    scale = 1.0
    band = [zoo.is_band(d["spec"]) for d in tr.leaves]
    for i in range(ns):
        one = state.extract_single_sample(i)
        want = tr.value(tr.root, one, lambda p, s: p.evaluate_bandfluxes(pbs, t, filt, s), lambda f, tag, p: act("affine", tag, p, f, t, filters=filt))
        scale = np.abs(want).max() + 1e-3
        close(cube[i], want, rtol=1e-10, atol=1e-11 * scale, msg=f"band fluxes from the parts (sample {i})")
        if not any(band):
            for f in np.unique(filt):
                sed = m.evaluate_sed(t[filt == f], pbs[f].waves, one)
                close(cube[i][filt == f], pbs[f].fluxes_to_bandflux(sed), rtol=1e-8, atol=1e-9 * scale, msg="band flux of the total spectrum")
    if any(band):
        try:
            m.evaluate_sed(t, np.array([5000.0]), state)
            selected_spectral = True
        except (TypeError, AttributeError):
            selected_spectral = False
        # only a choice that never selected a band-flux part (nested) could have a spectrum
        require(not selected_spectral or any(d[0] == "choose" for d in flat(case["tree"])), "no spectrum for band-flux parts")
    rec.nontrivial(len(tr.leaves) > 1 and scale > 1e-2)
    rec.label("mixed" if any(band) and not all(band) else "band" if any(band) else "spectral")


def flat(t):
    if t[0] == "leaf":
        return [t]
    return [t] + [x for k in t[1] for x in flat(k)]


@check("C22", fd({
    "n": st.integers(1, 5), "weights": st.sampled_from(["given", "zero", "none", "list"]), "dup": st.sampled_from(["no", "unlabelled", "same object", "names"]), "seed": seeds(),
    "band": st.booleans(),
}), quick=60)
def proportions(case, rec):
    """Choices follow the weights, are recorded, and are independent of the parts' own parameters."""
    g = np.random.default_rng([case["seed"], 3])
    n = case["n"]
    vals = (np.arange(n) + 1) * 10.0
    mk = (lambda v, l: StaticBandfluxModel({"g": v}, node_label=l)) if case["band"] else (lambda v, l: ConstantSEDModel(v, node_label=l))  # noqa: E741
    parts = [mk(v, None if case["dup"] == "unlabelled" else f"p{i}") for i, v in enumerate(vals)]
    if case["dup"] == "same object" and n > 1:
        parts[-1] = parts[0]
        vals[-1] = vals[0]
    w = None
    if case["weights"] != "none":
        w = np.round(g.uniform(0.05, 5, n), 3)
        if case["weights"] == "zero" and n > 1:
            w[int(g.integers(n))] = 0.0
        if g.random() < 0.3:
            w = w / w.sum()
        w = w.tolist() if case["weights"] == "list" else w
    names = [f"name {i}" for i in range(n)] if case["dup"] == "names" else None
    m = RandomMultiObjectModel(parts, weights=w, object_names=names, node_label="top")
    ns = 2000
    state = m.sample_parameters(num_samples=ns, rng_info=np.random.default_rng([case["seed"], 1]))
    if case["band"]:
        flux = m.evaluate_bandfluxes(zoo.shared_passbands(), np.array([0.0]), np.array(["g"]), state)[:, 0]
    else:
        flux = m.evaluate_sed(np.array([0.0]), np.array([5000.0]), state)[:, 0, 0]
    sel = np.array([str(s) for s in state["top"]["selected_object"]])
    keys = list(m.object_map)
    require(len(keys) == n and len(set(keys)) == n, "every part can be selected")
    if names:
        same(keys, names, "given names")
    idx = np.array([keys.index(s) for s in sel])
    same(flux, vals[idx], "flux of the recorded part")
    p = np.full(n, 1 / n) if w is None else np.asarray(w) / np.sum(w)
    counts = np.bincount(idx, minlength=n)
    require(np.all(counts[p == 0] == 0), "a part of no weight is never selected")
    for k in range(n):
        require(stats.binomtest(int(counts[k]), ns, float(p[k])).pvalue > 1e-10, f"part {k}: {counts[k]} of {ns}, expected {p[k]}")
    if n > 1:  # from one sample to the next
        a = (idx[1:] == idx[:-1]).mean()
        q = float(np.sum(p**2))
        require(abs(a - q) < 7 * np.sqrt(max(q * (1 - q), 1e-6) / ns) * 1.5 + 0.01, f"independent selections ({a} repeats, {q})")
    rec.nontrivial(n > 1)
    rec.label(case["dup"])


@check("C22", fd({"seed": seeds(), "cls": st.sampled_from(["add", "choose"]), "what": st.sampled_from(["weights", "names", "short names", "parts", "sed", "abstract"])}), quick=40)
def refused(case, rec):
    parts = [ConstantSEDModel(1.0), StepModel(2.0, t1=3.0, t0=0.0)]
    cls = AdditiveMultiObjectModel if case["cls"] == "add" else RandomMultiObjectModel
    if case["what"] == "weights":
        raises(ValueError, lambda: cls(parts, weights=[1.0]), "too few weights")
        raises(ValueError, lambda: cls(parts, weights=[1.0, 2.0, 3.0]), "too many weights")
    elif case["what"] == "names":
        raises(ValueError, lambda: RandomMultiObjectModel(parts, object_names=["a", "a"]), "repeated names")
    elif case["what"] == "short names":
        raises(ValueError, lambda: RandomMultiObjectModel(parts, object_names=["a"]), "too few names")
    elif case["what"] == "parts":
        raises(ValueError, lambda: cls([parts[0], 3.0]), "a part that is not a model")
    else:
        m = cls([StaticBandfluxModel({"g": 1.0})])
        raises(TypeError, lambda: m.evaluate_sed(np.array([1.0]), np.array([5000.0])), "spectrum of a band-flux part")
    rec.nontrivial(True)


@check("C22", fd({"tree": tree(["const", "step", "static_multi", "spline", "galaxy", "sncosmo"]), **CASE}), quick=120)
def settings(case, rec):
    """Switching redshifts off on the composite reaches every part at every depth."""
    tr = Tree(case["tree"], case["seed"])
    tr2 = Tree(case["tree"], case["seed"])
    g = lambda s: np.random.default_rng([case["seed"], s])  # noqa: E731
    t, w = np.array(case["times"]) + 1e-4, np.array(case["waves"])
    tr.model.set_apply_redshift(False)
    for d in tr2.leaves:
        d["model"].set_apply_redshift(False)
    s1 = tr.model.sample_parameters(num_samples=2, rng_info=g(1))
    s2 = tr2.model.sample_parameters(num_samples=2, rng_info=g(1))
    off = tr.model.evaluate_sed(t, w, s1)
    close(off, tr2.model.evaluate_sed(t, w, s2), rtol=1e-12, msg="redshift switched off everywhere")
    for d in tr.leaves:
        require(d["model"].apply_redshift is False, "switched off on the part")
    if all(d["spec"]["z"] != "none" for d in tr.leaves):
        tr.model.set_apply_redshift(True)
        for d in tr2.leaves:
            d["model"].set_apply_redshift(True)
        close(tr.model.evaluate_sed(t, w, s1), tr2.model.evaluate_sed(t, w, s2), rtol=1e-12, msg="redshift switched on everywhere")
    rec.nontrivial(len(tr.leaves) > 1 and any(d["spec"]["z"] == "pos" for d in tr.leaves))


@check("C22", fd({
    "cls": st.sampled_from(["add", "choose"]), "seed": seeds(), "link": st.booleans(), "ns": st.integers(1, 4),
}), quick=80)
def positions(case, rec):
    """The composite's own position, redshift and reference time are the ones simulated and reported."""
    obs = zoo.opsim(25, case["seed"] % 10**6, spread=8.0)
    host = ConstantSEDModel(3.0, ra=NumpyRandomFunc("uniform", low=5, high=25), dec=NumpyRandomFunc("uniform", low=-10, high=10), redshift=0.2, t0=7.0, node_label="host")
    sn = ConstantSEDModel(2.0, ra=200.0, dec=70.0, redshift=1.5, t0=9.0, node_label="sn")
    if case["link"]:
        kw = {"ra": host.ra, "dec": host.dec, "redshift": host.redshift, "t0": sn.t0}
    else:
        kw = {"ra": 15.0, "dec": 0.5, "redshift": 0.9, "t0": 4.0}
    cls = AdditiveMultiObjectModel if case["cls"] == "add" else RandomMultiObjectModel
    m = cls([host, sn], node_label="top", **kw)
    ns = case["ns"]
    res = simulate_lightcurves(m, ns, obs, zoo.shared_passbands(), rng=np.random.default_rng([case["seed"], 1]))
    total = 0
    for i in range(ns):
        p = res["params"].iloc[i]
        want = (p["host.ra"], p["host.dec"], 0.2, 9.0) if case["link"] else (15.0, 0.5, 0.9, 4.0)
        got = tuple(res[c].iloc[i] for c in ("ra", "dec", "z", "t0"))
        same(np.array(got, dtype=float), np.array(want, dtype=float), "position, redshift and reference time of the composite")
        r, d = np.radians(obs["ra"]), np.radians(obs["dec"])
        r0, d0 = np.radians(want[0]), np.radians(want[1])
        sep = np.degrees(np.arccos(np.clip(np.sin(d) * np.sin(d0) + np.cos(d) * np.cos(d0) * np.cos(r - r0), -1, 1)))
        hit = sep < obs.survey_values["radius"]
        require(np.all(np.abs(sep - obs.survey_values["radius"]) > 1e-6), "away from the edge")
        lc = res["lightcurve"].iloc[i]
        nlc = 0 if lc is None else len(lc)
        require(nlc == hit.sum() == res["nobs"].iloc[i], f"observations around the composite's position: {nlc}, expected {hit.sum()}")
        if nlc:
            # flux densities are stretched by the parts' own redshifts
            want_f = [3 * 1.2 + 2 * 2.5] if case["cls"] == "add" else [3 * 1.2, 2 * 2.5]
            require(any(np.allclose(lc["flux_perfect"], x) for x in want_f), "fluxes of the parts")
        total += nlc
    rec.nontrivial(total > 0)

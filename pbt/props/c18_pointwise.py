import copy

import numpy as np
from hypothesis import strategies as st

from .. import zoo
from ..core import Reject, check, close, describe, raises, require, same
from ..gen import fd, gr, seeds
from .c26_bandflux import usable

describe(
    "C18",
    "Cases are models of the catalogue (11 spectral and 5 band-flux sources, sums and selections of them, redshifts, "
    "extrapolation and effects without noise), several samples, and unsorted or repeated times, wavelengths and filters; "
    "non-trivial when there are at least two samples with different fluxes.",
    ["SALT-type sources are evaluated in single precision: compared to 1e-5"],
)

FAST = [k for k in zoo.SED_KINDS if k != "salt2"]  # compiled for every shape of the grid: has its own check
EFF = ("ml", "dim", "ext_rest", "dim_obs", "ext_obs")
GRID = {
    "times": st.lists(gr(-40, 60, 200), min_size=1, max_size=7),
    "waves": st.lists(gr(2500, 9500, 700), min_size=1, max_size=7),
    "ns": st.sampled_from([3, 2, 1, 4]),
    "seed": seeds(),
}
SED = fd({"spec": zoo.model_strategy(kinds=FAST, effects=EFF, spread_only=True), **GRID, "ints": st.booleans()})
BAND = fd({
    "spec": st.one_of(
        zoo.model_strategy(effects=("ml", "dim", "dim_obs"), band=True, spread_only=True),
        zoo.model_strategy(kinds=FAST, effects=EFF, spread_only=True).map(usable),
    ),
    **GRID,
    "ints": st.booleans(),
})


def single_precision(spec):
    return spec["kind"] == "salt2" or any(single_precision(p) for p in spec.get("parts", []))


def snapshot(state):
    return copy.deepcopy(state.to_dict())


def unchanged(state, snap, msg):
    now = state.to_dict()
    require(list(now) == list(snap), msg + ": parameters")
    for k in snap:
        same(now[k], snap[k], f"{msg}: {k}")


def setup(case):
    spec = case["spec"]
    model = zoo.build(spec)
    ns = case["ns"]
    state = model.sample_parameters(num_samples=ns, rng_info=np.random.default_rng([case["seed"], 1]))
    rt = 2e-5 if single_precision(spec) else 1e-11
    g = np.random.default_rng([case["seed"], 2])
    t = np.array(case["times"])
    if g.random() < 0.4:
        t = t[g.integers(0, len(t), size=len(t) + 1)]  # repeated entries
    if case["ints"]:
        t = np.round(t)
    return spec, model, ns, state, rt, g, t


@check("C18", SED, quick=900)
def spectra(case, rec):
    spec, model, ns, state, rt, g, t = setup(case)
    w = np.array(case["waves"])
    if g.random() < 0.4:
        w = w[g.integers(0, len(w), size=len(w) + 1)]
    if case["ints"]:
        w = np.round(w)
    snap = snapshot(state)
    t0, w0 = t.copy(), w.copy()
    flux = model.evaluate_sed(t, w, state)
    same(t, t0, "times")
    same(w, w0, "wavelengths")
    unchanged(state, snap, "sampled parameters")
    require(flux.shape == ((ns,) if ns > 1 else ()) + (len(t), len(w)), f"shape {flux.shape}")
    require(np.all(np.isfinite(flux)), "finite fluxes")
    cube = flux if ns > 1 else flux[None]
    scale = np.abs(cube).max(axis=(1, 2))

    def cmp(a, b, i, msg):
        close(a, b, rtol=rt, atol=rt * 1e-3 * scale[i], msg=f"{msg} (sample {i})")

    first = flux.copy()
    again = model.evaluate_sed(t, w, state)
    same(again, flux, "evaluated again")
    again += 1.0 + np.abs(again)  # a result belongs to the caller: changing it changes nothing else
    same(flux, first, "an earlier result after changing a later one")
    model.evaluate_sed(t[::-1] + 3.0, w[::-1] * 1.01, state)
    same(flux, first, "an earlier result after another evaluation")
    order = g.permutation(ns)
    for i in order:
        one = state.extract_single_sample(int(i))
        f = model.evaluate_sed(t, w, one)
        require(f.shape == (len(t), len(w)), f"single shape {f.shape}")
        cmp(f, cube[i], i, "sample alone")
    # parts of the grid, in another order
    it = g.permutation(len(t))[: int(g.integers(1, len(t) + 1))]
    iw = g.permutation(len(w))[: int(g.integers(1, len(w) + 1))]
    part = model.evaluate_sed(t[it], w[iw], state)
    part = part if ns > 1 else part[None]
    for i in range(ns):
        cmp(part[i], cube[i][np.ix_(it, iw)], i, "part of the grid")
    i = int(g.integers(ns))
    one = state.extract_single_sample(i)
    for _ in range(2):
        a, b = int(g.integers(len(t))), int(g.integers(len(w)))
        cmp(model.evaluate_sed(t[a : a + 1], w[b : b + 1], one), cube[i][a : a + 1, b : b + 1], i, "a single point")
    extra = np.concatenate([g.uniform(-100, 100, 2), t, g.uniform(-100, 100, 1)])
    extraw = np.concatenate([g.uniform(2000, 12000, 2), w])
    big = model.evaluate_sed(extra, extraw, one)
    cmp(big[2:-1, 2:], cube[i], i, "part of a larger grid")
    # lists and integers
    if case["ints"]:
        cmp(model.evaluate_sed(t.astype(int), w.astype(int), one), cube[i], i, "integer grids")
    cmp(model.evaluate_sed(t.tolist(), w.tolist(), one), cube[i], i, "lists")
    require(model.evaluate_sed(t[:0], w, one).shape == (0, len(w)), "no times")
    same(model.evaluate_sed(t, w, state), flux, "evaluated again after other evaluations")
    # a model that has not evaluated anything else
    fresh = zoo.build(spec)
    fresh.sample_parameters(num_samples=1)
    cmp(fresh.evaluate_sed(t, w, one), cube[i], i, "a newly built model")
    unchanged(state, snap, "sampled parameters at the end")
    rec.nontrivial(ns > 1 and np.ptp(cube, axis=0).max() > 0)
    rec.label(spec["kind"])


@check("C18", fd({
    "spec": zoo.model_strategy(kinds=["salt2"], modes=("rand",), composites=False, spread_only=True), "seed": seeds(),
}), quick=20)
def salt(case, rec):
    model = zoo.build(case["spec"])
    state = model.sample_parameters(num_samples=2, rng_info=np.random.default_rng([case["seed"], 1]))
    g = np.random.default_rng([case["seed"], 2])
    t, w = g.uniform(-18, 45, size=4), g.uniform(3500, 8500, size=3)
    t[3] = t[0]
    flux = model.evaluate_sed(t, w, state)
    scale = np.abs(flux).max()
    order = g.permutation(4)
    close(model.evaluate_sed(t[order], w, state), flux[:, order], rtol=2e-5, atol=1e-6 * scale, msg="other order of times")
    worder = g.permutation(3)
    close(model.evaluate_sed(t, w[worder], state), flux[:, :, worder], rtol=2e-5, atol=1e-6 * scale, msg="other order of wavelengths")
    for i in (1, 0):
        one = state.extract_single_sample(i)
        close(model.evaluate_sed(t, w, one), flux[i], rtol=2e-5, atol=1e-6 * scale, msg="sample alone")
        close(model.evaluate_sed(t[2:3], w[1:2], one), flux[i][2:3, 1:2], rtol=2e-5, atol=1e-6 * scale, msg="single point")
    same(model.evaluate_sed(t, w, state), flux, "evaluated again")
    rec.nontrivial(np.ptp(flux, axis=0).max() > 0)


@check("C18", BAND, quick=700)
def bands(case, rec):
    spec, model, ns, state, rt, g, t = setup(case)
    pbs = zoo.shared_passbands()
    filt = g.choice(np.array(zoo.FILTERS), size=len(t))
    snap = snapshot(state)
    t0, f0 = t.copy(), filt.copy()
    flux = model.evaluate_bandfluxes(pbs, t, filt, state)
    same(t, t0, "times")
    same(filt, f0, "filters")
    unchanged(state, snap, "sampled parameters")
    require(flux.shape == ((ns,) if ns > 1 else ()) + (len(t),), f"shape {flux.shape}")
    require(np.all(np.isfinite(flux)), "finite fluxes")
    cube = flux if ns > 1 else flux[None]
    scale = np.abs(cube).max(axis=1)
    first = flux.copy()
    again = model.evaluate_bandfluxes(pbs, t, filt, state)
    same(again, flux, "evaluated again")
    again += 1.0 + np.abs(again)  # a result belongs to the caller
    same(flux, first, "an earlier result after changing a later one")
    model.evaluate_bandfluxes(pbs, t[::-1] + 3.0, filt[::-1], state)
    same(flux, first, "an earlier result after another evaluation")

    def cmp(a, b, i, msg):
        close(a, b, rtol=rt, atol=rt * 1e-3 * scale[i], msg=f"{msg} (sample {i})")

    for i in g.permutation(ns):
        one = state.extract_single_sample(int(i))
        f = model.evaluate_bandfluxes(pbs, t, filt, one)
        require(f.shape == (len(t),), f"single shape {f.shape}")
        cmp(f, cube[i], i, "sample alone")
    it = g.permutation(len(t))[: int(g.integers(1, len(t) + 1))]
    part = model.evaluate_bandfluxes(pbs, t[it], filt[it], state)
    part = part if ns > 1 else part[None]
    for i in range(ns):
        cmp(part[i], cube[i][it], i, "some of the observations")
    i = int(g.integers(ns))
    one = state.extract_single_sample(i)
    for _ in range(2):
        a = int(g.integers(len(t)))
        cmp(model.evaluate_bandfluxes(pbs, t[a : a + 1], filt[a : a + 1], one), cube[i][a : a + 1], i, "a single observation")
    k = int(g.integers(1, 4))
    extra = np.concatenate([g.uniform(-100, 100, k), t])
    extraf = np.concatenate([g.choice(np.array(zoo.FILTERS), size=k), filt])
    cmp(model.evaluate_bandfluxes(pbs, extra, extraf, one)[k:], cube[i], i, "some of more observations")
    if case["ints"]:
        cmp(model.evaluate_bandfluxes(pbs, t.astype(int), filt, one), cube[i], i, "integer times")
    cmp(model.evaluate_bandfluxes(pbs, t.tolist(), filt.tolist(), one), cube[i], i, "lists")
    same(model.evaluate_bandfluxes(pbs, t, filt, state), flux, "evaluated again after other evaluations")
    # a model and passbands that have not evaluated anything else
    fresh = zoo.build(spec)
    fresh.sample_parameters(num_samples=1)
    cmp(fresh.evaluate_bandfluxes(zoo.passbands(), t, filt, one), cube[i], i, "a newly built model")
    unchanged(state, snap, "sampled parameters at the end")
    rec.nontrivial(ns > 1 and np.ptp(cube, axis=0).max() > 0)
    rec.label(spec["kind"])


@check("C18", fd({
    "spec": zoo.model_strategy(effects=EFF, composites=False, kinds=["const", "step", "sin", "linear", "static", "spline", "galaxy", "salt2", "sncosmo"]),
    "times": GRID["times"], "waves": GRID["waves"], "seed": seeds(), "ns": st.integers(2, 4),
}), quick=250)
def own_parameters(case, rec):
    """Each sample equals a model that is built with that sample's values as constants."""
    spec = dict(case["spec"], mode="rand")
    model = zoo.build(spec)
    state = model.sample_parameters(num_samples=case["ns"], rng_info=np.random.default_rng([case["seed"], 1]))
    t, w = np.array(case["times"]), np.array(case["waves"])
    flux = model.evaluate_sed(t, w, state)
    name = model.node_string
    for i in range(case["ns"]):
        m2 = zoo.build(dict(spec, mode="const"))
        for p in m2.setters:
            v = state[name][p][i]
            if v is not None and p != "distance":
                m2.set_parameter(p, v)
        st2 = m2.sample_parameters(num_samples=1)
        f2 = m2.evaluate_sed(t, w, st2)
        close(flux[i], f2, rtol=2e-5 if spec["kind"] == "salt2" else 1e-10, atol=1e-8 * np.abs(f2).max(), msg=f"sample {i} with its own values")
    rec.nontrivial(np.ptp(flux, axis=0).max() > 0)
    rec.label(spec["kind"])

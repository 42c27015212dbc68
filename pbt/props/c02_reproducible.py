import contextlib
import io
import json
import os
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st
from mocpy import MOC
import astropy.units as u
from astropy.coordinates import Latitude, Longitude

from lightcurvelynx.astro_utils.noise_model import apply_noise
from lightcurvelynx.astro_utils.pzflow_node import PZFlowNode
from lightcurvelynx.astro_utils.snia_utils import HostmassX1Func, SNCoordGivenPhysicalSep
from lightcurvelynx.base_models import FunctionNode
from lightcurvelynx.math_nodes.distribution_sampler import DistributionSampler
from lightcurvelynx.math_nodes.given_sampler import BinarySampler, GivenValueSampler, TableSampler
from lightcurvelynx.math_nodes.np_random import NumpyRandomFunc
from lightcurvelynx.math_nodes.ra_dec_sampler import (
    ApproximateMOCSampler,
    ObsTableRADECSampler,
    ObsTableUniformRADECSampler,
    UniformRADEC,
)
from lightcurvelynx.math_nodes.scipy_random import NumericalInversePolynomialFunc, SampleLogPDF, SamplePDF
from lightcurvelynx.models.agn import AGN
from lightcurvelynx.simulate import simulate_lightcurves

from .. import dag, zoo
from ..core import VERIF, Reject, check, describe, require, same
from ..gen import fd, gr, lists, seeds
from .c07_distributions import FakeFlow

describe(
    "C02",
    "Cases are random graphs of random nodes, models with effects and whole simulations, built twice from the same "
    "description with different own seeds and disturbed between the runs (draws from nodes, from numpy's global state, "
    "evaluations); non-trivial when random numbers are consumed at two stages or by two nodes at least.",
    [
        "BilbyPriorNode is documented to use bilby's own generator and is only checked for its own seed (C07)",
        "trained pzflow models are replaced by a stand-in that draws from the seed it is handed",
        "redback and bagle models need packages that are not installed here",
    ],
)


class LogisticPdf:
    def __init__(self, loc=0.0):
        self.loc = float(loc)

    def pdf(self, x):
        z = abs(float(x) - self.loc)
        return float(np.exp(-z) / (1 + np.exp(-z)) ** 2)


_OBS = {}


def survey():
    if "s" not in _OBS:
        _OBS["s"] = zoo.opsim(40, 5, radius=20.0, zp_nJy=None)
    return _OBS["s"]


def moc():
    if "m" not in _OBS:
        _OBS["m"] = MOC.from_cone(
            lon=Longitude(40 * u.deg), lat=Latitude(10 * u.deg), radius=12 * u.deg, max_depth=7
        )
    return _OBS["m"]


X = np.array([0.0, 1.0, 3.0, 4.0])
Y = np.array([0.2, 1.0, 0.5, 0.1])
# name -> (constructor(seed, label, input), output names, continuous?)
NODES = {
    "uniform": (lambda s, lab, inp: NumpyRandomFunc("uniform", low=0.0, high=1.0, seed=s, node_label=lab), True),
    "normal": (lambda s, lab, inp: NumpyRandomFunc("normal", loc=inp, scale=1.0, seed=s, node_label=lab), True),
    "vector": (lambda s, lab, inp: NumpyRandomFunc("normal", size=3, loc=inp, scale=1.0, seed=s, node_label=lab), True),
    "integers": (lambda s, lab, inp: NumpyRandomFunc("integers", low=0, high=9, seed=s, node_label=lab), False),
    "pdf": (lambda s, lab, inp: SamplePDF(LogisticPdf(), seed=s, node_label=lab), True),
    "logpdf": (lambda s, lab, inp: SampleLogPDF(lambda x: -float(x) ** 2, seed=s, node_label=lab), True),
    "pdfclass": (lambda s, lab, inp: NumericalInversePolynomialFunc(LogisticPdf, loc=0.5, seed=s, node_label=lab), True),
    "table": (lambda s, lab, inp: DistributionSampler(X, Y, seed=s, node_label=lab), True),
    "choice": (lambda s, lab, inp: GivenValueSampler([1.0, 2.0, 5.0, 7.5], seed=s, node_label=lab), False),
    "wchoice": (lambda s, lab, inp: GivenValueSampler([1.0, 2.0, 5.0], weights=[1, 2, 3], seed=s, node_label=lab), False),
    "binary": (lambda s, lab, inp: BinarySampler(0.4, seed=s, node_label=lab), False),
    "rows": (lambda s, lab, inp: TableSampler({"a": np.arange(30.0), "b": np.arange(30.0) ** 2}, seed=s, node_label=lab), False),
    "rows_long": (lambda s, lab, inp: TableSampler({"a": np.arange(2500.0), "b": np.arange(2500.0) ** 2}, seed=s, node_label=lab), False),
    "choice_long": (lambda s, lab, inp: GivenValueSampler(np.arange(1500.0), seed=s, node_label=lab), False),
    "radec": (lambda s, lab, inp: UniformRADEC(seed=s, node_label=lab), True),
    "obs_radec": (lambda s, lab, inp: ObsTableRADECSampler(survey(), radius=2.0, seed=s, node_label=lab), True),
    "obs_uniform": (lambda s, lab, inp: ObsTableUniformRADECSampler(survey(), radius=20.0, seed=s, node_label=lab), True),
    "moc": (lambda s, lab, inp: ApproximateMOCSampler(moc(), seed=s, node_label=lab, depth=8), True),
    "hostmass": (lambda s, lab, inp: HostmassX1Func(hostmass=9.5, seed=s, node_label=lab), True),
    "hostmass_r": (
        lambda s, lab, inp: HostmassX1Func(
            hostmass=NumpyRandomFunc("uniform", low=8.0, high=12.0, seed=s, node_label=lab + "_h"), seed=s, node_label=lab
        ),
        True,
    ),
    "sncoord": (
        lambda s, lab, inp: SNCoordGivenPhysicalSep(host_ra=10.0, host_dec=5.0, physical_sep_kpc=8.0, redshift=0.2, node_label=lab, seed=s),
        True,
    ),
    "flow": (lambda s, lab, inp: PZFlowNode(FakeFlow(["q"], []), node_label=lab), True),
}
SLOW = ["hostmass", "hostmass_r"]  # one second to construct: in their own check
FAST = [k for k in sorted(NODES) if k not in SLOW]
SEEDED = [k for k in FAST if k != "flow"]


def disturb(kinds, node=None):
    for k in kinds:
        if k == "np_seed":
            np.random.seed(12345)
        elif k == "np_draw":
            np.random.random(7)
        elif k == "other":
            NumpyRandomFunc("uniform", low=0.0, high=1.0).generate(num_samples=3)
        elif node is not None and k == "draw":
            node.sample_parameters(num_samples=2)
        elif node is not None and k == "draw1":
            node.sample_parameters(num_samples=1, rng_info=np.random.default_rng(0))


DIST = st.lists(st.sampled_from(["np_seed", "np_draw", "other", "draw", "draw1"]), min_size=1, max_size=4)


def states_equal(a, b, what):
    da, db = a.to_dict(), b.to_dict()
    require(set(da) == set(db), f"{what}: different parameters {set(da) ^ set(db)}")
    for k in da:
        same(da[k], db[k], f"{what}: {k}")
    return da


def first_output(node):
    for nm in ("function_node_result", "ra", "a", "q"):
        if nm in node.setters:
            return getattr(node, nm)
    raise KeyError(str(node))


def make_graph(kinds, seed0, vector_ok=True):
    nodes = []
    for i, k in enumerate(kinds):
        inp = 0.25
        for prev, kind in zip(reversed(nodes), reversed(kinds[:i])):
            if kind not in ("vector",):
                inp = first_output(prev)
                break
        nodes.append(NODES[k][0](seed0 + 17 * i, f"n{i}", inp))
    top = FunctionNode(
        lambda **kw: kw["a0"], node_label="top", **{f"a{i}": first_output(n) for i, n in enumerate(nodes)}
    )
    return nodes, top


@check(
    "C02",
    fd({"kinds": st.lists(st.sampled_from(FAST), min_size=1, max_size=5), "n": st.sampled_from([1, 2, 5, 40]),
        "rng": seeds(), "s1": st.integers(0, 1000), "s2": st.integers(0, 1000), "dist": DIST, "calls": st.integers(1, 3)}),
    quick=200,
)
def parameters_depend_only_on_the_generator(case, rec):
    kinds = case["kinds"]
    _, top1 = make_graph(kinds, case["s1"])
    rng = np.random.default_rng(case["rng"])
    first = [top1.sample_parameters(num_samples=case["n"], rng_info=rng) for _ in range(case["calls"])]
    after = rng.random()
    # same graph object, after other draws
    disturb(case["dist"], top1)
    rng = np.random.default_rng(case["rng"])
    for i in range(case["calls"]):
        states_equal(top1.sample_parameters(num_samples=case["n"], rng_info=rng), first[i], f"repeat, draw {i}")
    require(rng.random() == after, "the generator is consumed equally")
    # rebuilt graph with other own seeds
    _, top2 = make_graph(kinds, case["s2"])
    disturb(case["dist"], None if case["dist"][0] == "np_seed" else top2)
    rng = np.random.default_rng(case["rng"])
    for i in range(case["calls"]):
        da = states_equal(top2.sample_parameters(num_samples=case["n"], rng_info=rng), first[i], f"rebuilt, draw {i}")
    # another generator seed gives other continuous values
    other = top2.sample_parameters(num_samples=case["n"], rng_info=np.random.default_rng(case["rng"] + 1)).to_dict()
    for i, k in enumerate(kinds):
        if NODES[k][1]:
            names = [p for p in da if p.startswith(f"n{i}.") and p.split(".")[1] in ("function_node_result", "ra", "q")]
            for p in names:
                require(not np.array_equal(da[p], other[p]), f"{p} ({k}) ignores the generator's seed")
    if case["calls"] > 1:
        for i, k in enumerate(kinds):
            if NODES[k][1]:
                for p in first[0].to_dict():
                    if p.startswith(f"n{i}.") and p.split(".")[1] in ("function_node_result", "ra", "q"):
                        require(
                            not np.array_equal(first[0].to_dict()[p], first[1].to_dict()[p]),
                            f"{p} ({k}) repeats in successive draws of one generator",
                        )
    rec.label(*kinds)
    rec.nontrivial(len(kinds) > 1)


@check(
    "C02",
    fd({"kind": st.sampled_from(sorted(SEEDED)), "seed": st.one_of(st.just(0), st.integers(1, 10**6), st.integers(1, 10**6), st.integers(1, 10**6)), "sizes": lists(st.sampled_from([1, 2, 4]), 1, 4),
        "dist": DIST}),
    quick=150,
)
def seeded_nodes_repeat(case, rec):
    _seeded_repeat(case, rec)


@check(
    "C02",
    fd({"kind": st.sampled_from(SLOW), "seed": st.integers(0, 10**6), "sizes": lists(st.sampled_from([1, 2, 4]), 1, 2), "dist": DIST}),
    quick=2,
)
def slow_seeded_nodes_repeat(case, rec):
    _seeded_repeat(case, rec)
    rng = np.random.default_rng(case["seed"])
    a = NODES[case["kind"]][0](1, "x", 0.25).sample_parameters(num_samples=3, rng_info=rng)
    b = NODES[case["kind"]][0](2, "x", 0.25).sample_parameters(num_samples=3, rng_info=np.random.default_rng(case["seed"]))
    states_equal(a, b, "given generator")


def _seeded_repeat(case, rec):
    kind = case["kind"]

    def run(node):
        return [node.sample_parameters(num_samples=k) for k in case["sizes"]]

    a = NODES[kind][0](case["seed"], "x", 0.25)
    first = run(a)
    disturb(case["dist"], NODES[kind][0](case["seed"], "x", 0.25))
    b = NODES[kind][0](case["seed"], "x", 0.25)
    second = run(b)
    for i, (x, y) in enumerate(zip(first, second)):
        states_equal(x, y, f"{kind}: seeded draw {i}")
    if kind in SEEDED:
        # draws from a caller's generator in between leave the node's own sequence alone
        c = NODES[kind][0](case["seed"], "x", 0.25)
        for i, k in enumerate(case["sizes"]):
            given = np.random.default_rng([case["seed"], i])
            c.sample_parameters(num_samples=1 + k % 3, rng_info=given)
            states_equal(first[i], c.sample_parameters(num_samples=k), f"{kind}: seeded draw {i} after draws from a generator")
    if hasattr(b, "set_seed") and kind != "hostmass_r":
        disturb(case["dist"], b)
        b.set_seed(case["seed"])
        for i, (x, y) in enumerate(zip(first, run(b))):
            states_equal(x, y, f"{kind}: draw {i} after set_seed")
    if NODES[kind][1]:
        other = run(NODES[kind][0](case["seed"] + 1, "x", 0.25))
        d0, d1 = first[0].to_dict(), other[0].to_dict()
        require(any(not np.array_equal(d0[k], d1[k]) for k in d0), f"{kind}: the seed has no effect")
        unseeded = [NODES[kind][0](None, "x", 0.25).sample_parameters(num_samples=3).to_dict() for _ in range(2)]
        require(any(not np.array_equal(unseeded[0][k], unseeded[1][k]) for k in unseeded[0]), f"{kind}: unseeded nodes draw the same values")
    rec.label(kind)
    rec.nontrivial(len(case["sizes"]) > 1)


@check(
    "C02",
    fd({"spec": dag.graph_strategy(2, 7), "n": st.sampled_from([1, 3]), "rng": seeds(), "dist": DIST}),
    quick=150,
)
def linked_graphs_repeat(case, rec):
    root = dag.build(case["spec"], force_label=True)[-1].node
    a = root.sample_parameters(num_samples=case["n"], rng_info=np.random.default_rng(case["rng"]))
    disturb(case["dist"], root)
    spec2 = [dict(s) for s in case["spec"]]
    for s in spec2:
        if s["kind"] in ("rand", "normal"):
            s["fn"] = s["fn"] + 1  # another own seed
    root2 = dag.build(spec2, force_label=True)[-1].node
    b = root2.sample_parameters(num_samples=case["n"], rng_info=np.random.default_rng(case["rng"]))
    states_equal(a, b, "rebuilt graph")
    rec.nontrivial(sum(s["kind"] in ("rand", "normal") for s in case["spec"]) > 1)


def has_ext(spec):
    return any(e.startswith("ext") for e in spec.get("effects", []))


def bands_defined(spec):
    """Extinction is defined for spectra only, so a composite with it has no band fluxes."""
    return not (spec["kind"] in ("add", "choose") and has_ext(spec))


def evaluate(model, spec, state, times, waves, rng):
    if not bands_defined(spec):
        return [model.evaluate_sed(times, waves, state, rng_info=rng)]
    if zoo.is_band(spec):
        filters = np.array([zoo.FILTERS[i % 3] for i in range(len(times))])
        return [model.evaluate_bandfluxes(zoo.shared_passbands(), times, filters, state, rng_info=rng)]
    filters = np.array([zoo.FILTERS[i % 3] for i in range(len(times))])
    return [
        model.evaluate_sed(times, waves, state, rng_info=rng),
        model.evaluate_bandfluxes(zoo.shared_passbands(), times, filters, state, rng_info=rng),
    ]


SED_SPEC = zoo.model_strategy(effects=zoo.EFFECT_KINDS)
BAND_SPEC = zoo.model_strategy(effects=("dim_obs", "ml", "noise_obs"), band=True)


@check(
    "C02",
    fd({"spec": st.one_of(SED_SPEC, SED_SPEC, BAND_SPEC), "n": st.sampled_from([1, 2, 3]), "rng": seeds(), "dist": DIST,
        "times": zoo.times_st, "waves": zoo.waves_st}),
    quick=70,
)
def evaluation_depends_only_on_the_generator(case, rec):
    spec = case["spec"]
    times = np.sort(np.array(case["times"]))
    waves = np.sort(np.array(case["waves"]))

    def run(m, rng):
        state = m.sample_parameters(num_samples=case["n"], rng_info=rng)
        return state, evaluate(m, spec, state, times, waves, rng), rng.random()

    m1 = zoo.build(spec)
    s1, r1, e1 = run(m1, np.random.default_rng(case["rng"]))
    disturb(case["dist"], m1)
    if "draw" in case["dist"]:
        evaluate(m1, spec, m1.sample_parameters(num_samples=2), times, waves, None)
    s2, r2, e2 = run(m1, np.random.default_rng(case["rng"]))
    states_equal(s1, s2, "same model")
    for a, b in zip(r1, r2):
        same(b, a, "fluxes of the same model")
    m3 = zoo.build(spec)
    s3, r3, e3 = run(m3, np.random.default_rng(case["rng"]))
    # unlabelled internal nodes keep the same names because the graph is the same
    states_equal(s1, s3, "rebuilt model")
    for a, b in zip(r1, r3):
        same(b, a, "fluxes of the rebuilt model")
    require(e1 == e2 == e3, "the generator is consumed equally")
    if zoo.has_noise(spec):
        s4, r4, _ = run(m3, np.random.default_rng(case["rng"] + 1))
        if spec["kind"] != "choose":
            require(not np.array_equal(r4[0], r1[0]), "noise does not depend on the generator")
        # noise differs between repeated evaluations with one generator
        rng = np.random.default_rng(1)
        x, y = evaluate(m3, spec, s4, times, waves, rng)[0], evaluate(m3, spec, s4, times, waves, rng)[0]
        if spec["kind"] != "choose":
            require(not np.array_equal(x, y), "noise repeats")
        rec.label("noise")
    rec.label(spec["kind"])
    rec.nontrivial(zoo.has_noise(spec) or spec["mode"] == "rand" or bool(spec["effects"]))


@check(
    "C02",
    fd({"rng": seeds(), "n": st.sampled_from([1, 2]), "s1": st.integers(0, 99), "s2": st.integers(100, 199), "nested": st.booleans(),
        "dist": DIST}),
    quick=15,
)
def agn_depends_only_on_the_generator(case, rec):
    def mk(seed):
        agn = AGN(
            t0=0.0, blackhole_mass=NumpyRandomFunc("uniform", low=1e8, high=1e9), edd_ratio=0.5, redshift=0.3,
            cosmology="Planck18", ra=1.0, dec=2.0, node_label="agn", seed=seed,
        )
        if not case["nested"]:
            return agn
        from lightcurvelynx.models.multi_object_model import AdditiveMultiObjectModel

        return AdditiveMultiObjectModel([agn], ra=1.0, dec=2.0, t0=0.0, node_label="sum")

    t = np.array([1.0, 5.0, 20.0])
    w = np.array([4000.0, 6000.0])
    out = []
    for s in (case["s1"], case["s2"], case["s1"]):
        m = mk(s)
        disturb(case["dist"], m)
        rng = np.random.default_rng(case["rng"])
        state = m.sample_parameters(num_samples=case["n"], rng_info=rng)
        out.append(m.evaluate_sed(t, w, state, rng_info=rng))
    same(out[1], out[0], "AGN fluxes with another own seed")
    same(out[2], out[0], "AGN fluxes")
    rec.nontrivial()


def frames_equal(a, b):
    require(list(a.columns) == list(b.columns), "columns")
    for c in a.columns:
        if c == "lightcurve":
            require(len(a) == len(b), "rows")
            for i in range(len(a)):
                x, y = a[c].iloc[i], b[c].iloc[i]
                if x is None or y is None:
                    require(x is None and y is None, "light curve presence")
                    continue
                require(list(x.columns) == list(y.columns), "light curve columns")
                for k in x.columns:
                    same(x[k].to_numpy(), y[k].to_numpy(), f"object {i} {k}")
        elif c == "params":
            for i in range(len(a)):
                x, y = a[c].iloc[i], b[c].iloc[i]
                require(set(x) == set(y), "params")
                for k in x:
                    same(x[k], y[k], f"object {i} parameter {k}")
        else:
            same(a[c].to_numpy(), b[c].to_numpy(), f"column {c}")


@check(
    "C02",
    fd({"spec": st.one_of(zoo.model_strategy(kinds=["const", "sin", "linear", "static_multi", "spline"], effects=zoo.EFFECT_KINDS),
                          zoo.model_strategy(effects=("dim", "ml", "noise"), band=True, composites=False)),
        "n": st.integers(1, 5), "rng": seeds(), "obs": seeds(), "nsurvey": st.integers(1, 2), "nobs": st.integers(0, 60), "dist": DIST,
        "window": st.sampled_from([None, [20.0, 40.0]])}),
    quick=70,
)
def simulations_repeat(case, rec):
    spec = case["spec"]
    if not bands_defined(spec):
        raise Reject("extinction of a composite's band fluxes")
    ns = 1 if zoo.is_band(spec) else case["nsurvey"]
    obs = [zoo.opsim(case["nobs"] + 1, case["obs"] + i, spread=4.0, radius=6.0) for i in range(ns)]
    pbs = [zoo.shared_passbands()] * ns

    def run(m, seed, **more):
        rng = np.random.default_rng(seed)
        r = simulate_lightcurves(
            m, case["n"], obs if ns > 1 else obs[0], pbs if ns > 1 else pbs[0], rng=rng,
            time_window_offset=None if case["window"] is None else tuple(case["window"]), **more,
        )
        return r, rng.random()

    m1 = zoo.build(spec)
    a, ea = run(m1, case["rng"])
    disturb(case["dist"], m1)
    b, eb = run(m1, case["rng"])
    frames_equal(a, b)
    m2 = zoo.build(spec)
    disturb(case["dist"])
    with contextlib.redirect_stdout(io.StringIO()):
        c, ec = run(m2, case["rng"], generate_citations=True)
    frames_equal(a, c)
    require(ea == eb == ec, "the generator is consumed equally")
    total = int(a["nobs"].sum())
    if total > 0:
        d, _ = run(m2, case["rng"] + 1)
        if int(d["nobs"].sum()) > 0:
            fa = np.concatenate([np.asarray(x["flux"] - x["flux_perfect"]) for x in a["lightcurve"] if x is not None])
            fd_ = np.concatenate([np.asarray(x["flux"] - x["flux_perfect"]) for x in d["lightcurve"] if x is not None])
            require(not np.array_equal(fa, fd_), "the noise does not depend on the generator's seed")
    rec.label("observed" if total else "empty", spec["kind"])
    rec.nontrivial(total > 1)


@check(
    "C02",
    fd({"flux": lists(gr(0, 100), 1, 8), "err": gr(0.01, 10), "rng": seeds(), "dist": DIST}),
    quick=100,
)
def noise_repeats(case, rec):
    f = np.array(case["flux"])
    e = np.full(len(f), case["err"])
    rng = np.random.default_rng(case["rng"])
    a, a2 = apply_noise(f, e, rng=rng), apply_noise(f, e, rng=rng)
    disturb(case["dist"])
    rng = np.random.default_rng(case["rng"])
    same(apply_noise(f, e, rng=rng), a, "noise")
    same(apply_noise(f, e, rng=rng), a2, "second noise draw")
    require(not np.array_equal(a, a2), "successive noise draws repeat")
    require(not np.array_equal(apply_noise(f, e, rng=np.random.default_rng(case["rng"] + 1)), a), "noise ignores the seed")
    require(not np.array_equal(apply_noise(f, e), apply_noise(f, e)), "unseeded noise repeats")
    rec.nontrivial(len(f) > 1)


NOSALT = [k for k in zoo.SED_KINDS if k != "salt2"]


@check(
    "C02",
    fd({"specs": lists(st.one_of(zoo.model_strategy(kinds=NOSALT, effects=("dim", "ml", "noise", "dim_obs"), spread_only=True),
                                 zoo.model_strategy(effects=("dim_obs", "ml", "noise_obs"), band=True, spread_only=True)), 6, 8),
        "n": st.sampled_from([2, 1]), "rng": seeds(), "times": zoo.times_st, "waves": zoo.waves_st}),
    quick=2,
)
def fresh_processes(case, rec):
    """Other processes (with another order of sets) give the same parameters, names and fluxes."""
    jobs = [{"kind": "lclib", "rng": case["rng"]}]
    multi = {"kind": "template_multi", "ps": case["rng"] % 999, "mode": "rand", "z": "none", "effects": []}
    for i, s in enumerate([multi] + case["specs"]):
        jobs.append({"kind": "simulate" if i % 2 == 0 else "evaluate", "spec": s, "rng": case["rng"] + i})
    for j in jobs:
        j.update(n=case["n"], times=case["times"], waves=case["waves"])
    procs = []
    for h in ("1", "2", "77"):
        env = dict(os.environ, PYTHONHASHSEED=h)
        p = subprocess.Popen([sys.executable, os.path.join(VERIF, "pbt", "worker.py")], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, env=env, text=True)
        procs.append(p)
    outs = []
    for p in procs:
        try:
            o, e = p.communicate(json.dumps(jobs), timeout=300)
        finally:
            p.kill()
        lines = [x for x in o.splitlines() if x.startswith("RESULT ")]
        require(len(lines) == 1, f"the process failed: {e[-1500:]}")
        outs.append(json.loads(lines[0][7:]))
    for o in outs[1:]:
        for j, a, b in zip(jobs, outs[0], o, strict=True):
            for k in a:
                require(a[k] == b[k], f"{k} of {j.get('spec', j['kind'])} differ between processes: {str(a[k])[:300]} / {str(b[k])[:300]}")
    rec.nontrivial(True)

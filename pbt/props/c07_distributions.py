import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy import stats

from lightcurvelynx.astro_utils.pzflow_node import PZFlowNode
from lightcurvelynx.base_models import FunctionNode
from lightcurvelynx.math_nodes.distribution_sampler import DistributionSampler
from lightcurvelynx.math_nodes.given_sampler import GivenValueList
from lightcurvelynx.math_nodes.np_random import NumpyRandomFunc
from lightcurvelynx.math_nodes.scipy_random import NumericalInversePolynomialFunc, SampleLogPDF, SamplePDF

from ..core import check, describe, raises, require, same
from ..gen import fd, gr, seeds

describe(
    "C07",
    "Cases are distributions (numpy generator functions, densities, log densities, distribution classes, tabulated "
    "densities, Bilby priors, flows) with constant or per-sample arguments, output sizes and batch sizes; non-trivial "
    "when an argument varies per sample, the output has several dimensions, or at least 300 draws are compared with "
    "the distribution.",
    [
        "statistical comparisons reject with probability below 1e-9 per case",
        "densities given as functions are smooth and not negligible at zero (the documented default centre of "
        "scipy's numerical inversion)",
        "a tabulated density is read as piecewise linear; the draw inside one interval may use any monotone rule",
    ],
)

# function -> {argument: (low, high, integer?)}
FUNCS = {
    "uniform": {"low": (-5, 0), "high": (1, 7)},
    "normal": {"loc": (-50, 50), "scale": (0.1, 5)},
    "exponential": {"scale": (0.1, 9)},
    "integers": {"low": (-9, 0), "high": (1, 30)},
    "poisson": {"lam": (0.1, 40)},
    "beta": {"a": (0.5, 5), "b": (0.5, 5)},
    "gamma": {"shape": (0.5, 5), "scale": (0.5, 5)},
    "lognormal": {"mean": (-1, 1), "sigma": (0.1, 2)},
    "triangular": {"left": (-3, -1), "mode": (-1, 1), "right": (1.5, 4)},
    "binomial": {"n": (1, 30), "p": (0, 1)},
    "geometric": {"p": (0.1, 1)},
    "rayleigh": {"scale": (0.1, 5)},
    "laplace": {"loc": (-5, 5), "scale": (0.1, 5)},
    "logistic": {"loc": (-5, 5), "scale": (0.1, 5)},
    "weibull": {"a": (0.5, 5)},
    "pareto": {"a": (0.5, 5)},
    "power": {"a": (0.5, 5)},
    "vonmises": {"mu": (-3, 3), "kappa": (0.1, 5)},
    "chisquare": {"df": (0.5, 9)},
    "standard_t": {"df": (1, 9)},
    "f": {"dfnum": (1, 9), "dfden": (1, 9)},
    "noncentral_chisquare": {"df": (0.5, 9), "nonc": (0, 5)},
    "negative_binomial": {"n": (1, 9), "p": (0.1, 1)},
    "hypergeometric": {"ngood": (5, 20), "nbad": (5, 20), "nsample": (1, 9)},
    "logseries": {"p": (0.05, 0.95)},
    "zipf": {"a": (1.5, 5)},
    "gumbel": {"loc": (-5, 5), "scale": (0.1, 5)},
    "wald": {"mean": (0.2, 5), "scale": (0.2, 5)},
    "standard_gamma": {"shape": (0.5, 5)},
    "standard_normal": {},
    "random": {},
    "standard_exponential": {},
    "standard_cauchy": {},
}
INTS = {("integers", "low"), ("integers", "high"), ("binomial", "n"), ("hypergeometric", "ngood"), ("hypergeometric", "nbad"),
        ("hypergeometric", "nsample")}


def np_args(name, n, seed, per_sample):
    rng = np.random.default_rng(seed)
    out = {}
    for i, (k, (lo, hi)) in enumerate(FUNCS[name].items()):
        if (name, k) in INTS:
            v = rng.integers(lo, hi, size=n)
        else:
            v = np.round(rng.uniform(lo, hi, size=n), 3)
            if lo > 0:
                v = np.maximum(v, lo)
        out[k] = (v, bool(per_sample[i % len(per_sample)]))
    return out


@check(
    "C07",
    fd(
        {
            "name": st.sampled_from(list(FUNCS)),
            "n": st.sampled_from([1, 1, 2, 3, 4, 7]),
            "size": st.sampled_from([None, 1, 1, 2, 3, 4, [2], [2, 3], [4, 1], [1, 2]]),
            "per": st.lists(st.booleans(), min_size=3, max_size=3),
            "seed": seeds(),
            "calls": st.integers(1, 4),
            "mode": st.sampled_from(["caller", "seed", "set_seed"]),
        }
    ),
    quick=900,
)
def numpy_draws_equal_numpy(case, rec):
    name, n = case["name"], case["n"]
    size = tuple(case["size"]) if isinstance(case["size"], list) else case["size"]
    extra = () if size in (None, 1) else ((size,) if np.isscalar(size) else size)
    calls = case["calls"]
    args = np_args(name, n * calls, case["seed"], case["per"])
    kw = {k: (GivenValueList(v) if per else v[0].item()) for k, (v, per) in args.items()}
    mode = case["mode"]
    s = case["seed"] % 99991
    node = NumpyRandomFunc(name, size=size, seed=s if mode == "seed" else 17, node_label="x", **kw)
    if mode == "set_seed":
        node.set_seed(s)
    user = FunctionNode(lambda v: v, v=node, node_label="user")
    rng = np.random.default_rng(s) if mode == "caller" else None
    ref = np.random.default_rng(s)
    for c in range(calls):
        state = user.sample_parameters(num_samples=n, rng_info=rng)
        exp_args = {}
        for k, (v, per) in args.items():
            w = v[c * n : (c + 1) * n]
            exp_args[k] = w.reshape((n,) + (1,) * len(extra)) if per else v[0].item()
        expected = getattr(ref, name)(**exp_args, size=(n,) + extra)
        if n == 1:
            expected = expected[0]
            same(np.squeeze(state["x.function_node_result"]), np.squeeze(expected), f"{name} draw {c}")
        else:
            same(state["x.function_node_result"], expected, f"{name} draw {c}")
            same(state["user.v"], expected, "the linked value")
        for k, (v, per) in args.items():
            w = v[c * n : (c + 1) * n] if per else np.repeat(v[0], n)
            same(np.atleast_1d(state[f"x.{k}"]), w, f"argument {k}")
    rec.label(mode, "vector" if extra else "scalar")
    rec.nontrivial(n > 1 and (len(extra) > 0 or any(p for _, p in args.values())))


def pit_ok(u, what, alpha=1e-10):
    u = np.asarray(u, dtype=float)
    require(bool(np.all(np.isfinite(u))), f"{what}: non-finite draws")
    p = stats.kstest(u, "uniform").pvalue
    require(p > alpha, f"{what}: the draws do not follow the distribution (KS p-value {p:.2g}, n={len(u)})")
    if len(u) > 100:
        r = np.corrcoef(u[1:], u[:-1])[0, 1]
        require(abs(r) < 7.0 / np.sqrt(len(u)), f"{what}: successive draws are correlated ({r:.3f})")
        require(len(np.unique(u)) > 0.99 * len(u), f"{what}: repeated draws of a continuous quantity")


def std_logpdf(family, z):
    """Log densities of the standard families (up to a constant), in plain floating point."""
    z = float(z)
    if family == "norm":
        return -0.5 * z * z - 0.9189385332046727
    if family == "logistic":
        return -abs(z) - 2.0 * math.log1p(math.exp(-abs(z)))
    if family == "gumbel_r":
        return -z - math.exp(-z) if z > -700 else -math.inf
    return -3.0 * math.log1p(z * z / 5.0) - 0.9686195890547241  # Student t with 5 degrees of freedom


class Frozen:
    """A continuous distribution with a location and a scale, given by its (log) density."""

    family = "norm"

    def __init__(self, loc=0.0, scale=1.0):
        self.loc, self.scale = float(loc), float(scale)


class WithPdf(Frozen):
    def pdf(self, x):
        return math.exp(std_logpdf(self.family, (x - self.loc) / self.scale)) / self.scale


class WithLogPdf(Frozen):
    def logpdf(self, x):
        return std_logpdf(self.family, (x - self.loc) / self.scale) - math.log(self.scale)


def cls(family, log):
    return type("D_" + family, (WithLogPdf if log else WithPdf,), {"family": family})


@check(
    "C07",
    fd(
        {
            "family": st.sampled_from(["norm", "logistic", "gumbel_r", "t5"]),
            "loc": gr(-2, 2, 40),
            "scale": gr(0.5, 4, 35),
            "kind": st.sampled_from(["object", "pdf_obj", "pdf_fn", "logpdf_obj", "logpdf_fn", "object_log"]),
            "seed": seeds(),
            "mode": st.sampled_from(["caller", "seed", "set_seed"]),
        }
    ),
    quick=60,
)
def density_draws_follow_the_density(case, rec):
    fam = case["family"]
    loc, scale = case["loc"], case["scale"]
    d = stats.t(5, loc=loc, scale=scale) if fam == "t5" else getattr(stats, fam)(loc=loc, scale=scale)

    def P():
        return cls(fam, False)(loc, scale)

    def L():
        return cls(fam, True)(loc, scale)

    mk = {
        "object": lambda **k: NumericalInversePolynomialFunc(P(), **k),
        "object_log": lambda **k: NumericalInversePolynomialFunc(L(), **k),
        "pdf_obj": lambda **k: SamplePDF(P(), **k),
        "pdf_fn": lambda **k: SamplePDF(lambda x: 3.0 * P().pdf(x), **k),  # any normalisation
        "logpdf_obj": lambda **k: SampleLogPDF(L(), **k),
        "logpdf_fn": lambda **k: SampleLogPDF(lambda x: L().logpdf(x) - 1.0, **k),
    }[case["kind"]]
    s = case["seed"] % 99991
    node = mk(seed=s if case["mode"] == "seed" else 4, node_label="x")
    if case["mode"] == "set_seed":
        node.set_seed(s)
    rng = np.random.default_rng(s) if case["mode"] == "caller" else None
    user = FunctionNode(lambda v: v, v=node, node_label="user")
    st1 = user.sample_parameters(num_samples=1500, rng_info=rng)
    pit_ok(d.cdf(st1["user.v"]), f"{case['kind']} batch")
    single = [user.sample_parameters(num_samples=1, rng_info=rng)["x.function_node_result"] for _ in range(300)]
    require(all(np.ndim(v) == 0 for v in single), "a single draw is a plain value")
    pit_ok(d.cdf(np.array(single, dtype=float)), f"{case['kind']} single draws")
    require(len(set(single) & set(st1["user.v"].tolist())) == 0, "draws repeat between calls")
    rec.label(case["kind"])
    rec.nontrivial()


@check(
    "C07",
    fd(
        {
            "family": st.sampled_from(["norm", "logistic", "gumbel_r"]),
            "log": st.booleans(),
            "seed": seeds(),
            "source": st.sampled_from(["given", "sampled", "constant"]),
            "n": st.sampled_from([1, 300]),
        }
    ),
    quick=12,
)
def distribution_class_uses_each_samples_arguments(case, rec):
    rng0 = np.random.default_rng([case["seed"], 77])
    n = case["n"]
    tot = 300
    if case["source"] == "given":
        loc, scale = rng0.uniform(-2, 2, tot), rng0.uniform(1.0, 5, tot)
        a = {"loc": GivenValueList(loc), "scale": GivenValueList(scale)}
    elif case["source"] == "sampled":
        a = {
            "loc": NumpyRandomFunc("uniform", low=-2.0, high=2.0, seed=1),
            "scale": NumpyRandomFunc("uniform", low=1.0, high=5.0, seed=2),
        }
    else:
        a = {"loc": float(rng0.uniform(-2, 2)), "scale": float(rng0.uniform(1, 5))}
    node = NumericalInversePolynomialFunc(
        cls(case["family"], case["log"]), seed=case["seed"] % 9973, node_label="x", **a
    )
    rng = np.random.default_rng(case["seed"])
    x, lo, sc = [], [], []
    for _ in range(tot // n):
        s = node.sample_parameters(num_samples=n, rng_info=rng)
        x.append(s["x.function_node_result"])
        lo.append(s["x.loc"])
        sc.append(s["x.scale"])
    x, lo, sc = (np.concatenate([np.atleast_1d(v) for v in w]) for w in (x, lo, sc))
    if case["source"] == "given":
        same(lo, loc, "locations")
    pit_ok(getattr(stats, case["family"]).cdf(x, loc=lo, scale=sc), "class based draws")
    if case["source"] != "constant":
        # the draws of a sample are centred on that sample's own location, not on another one's
        r = (x - lo) / sc
        for w, nm in ((lo, "loc"), (sc, "scale")):
            c = stats.spearmanr(r, w).statistic
            require(abs(c) < 7.5 / np.sqrt(tot), f"residuals depend on {nm}: {c}")
    rec.label(case["source"])
    rec.nontrivial()


@check(
    "C07",
    fd({"family": st.sampled_from(["norm", "logistic", "gumbel_r"]), "log": st.booleans(), "seed": seeds(), "n": st.integers(2, 9),
        "step": st.sampled_from([0.001, 1e-4, 0.01, 0.3]), "what": st.sampled_from(["loc", "scale", "both"]), "single": st.booleans()}),
    quick=15,
)
def slightly_different_arguments(case, rec):
    """The same random numbers with slightly different locations and scales give shifted and stretched draws."""
    n = case["n"]
    g = np.random.default_rng([case["seed"], 77])
    k = g.permutation(n) * case["step"]
    loc = 0.25 + (k if case["what"] != "scale" else 0 * k)
    scale = 1.5 + (k[::-1] if case["what"] != "loc" else 0 * k)
    D = cls(case["family"], case["log"])

    def run(lo, sc):
        node = NumericalInversePolynomialFunc(D, loc=GivenValueList(lo), scale=GivenValueList(sc), node_label="x")
        rng = np.random.default_rng(case["seed"])
        if case["single"]:
            return np.array([float(node.sample_parameters(rng_info=rng)["x.function_node_result"]) for _ in range(n)])
        return np.asarray(node.sample_parameters(num_samples=n, rng_info=rng)["x.function_node_result"], dtype=float)

    z = run(np.zeros(n), np.ones(n))
    x = run(loc, scale)
    err = np.abs(x - (loc + scale * z))
    require(bool(np.all(err <= 2e-6 * (1 + np.abs(z)))), f"draws {x} instead of {loc + scale * z}")
    rec.nontrivial()


@check(
    "C07",
    fd(
        {
            "x0": gr(-10, 10, 40),
            "dx": st.lists(st.integers(1, 20), min_size=1, max_size=8),
            "y": st.lists(st.integers(0, 12), min_size=9, max_size=9),
            "form": st.sampled_from(["array", "list", "int"]),
            "seed": seeds(),
            "mode": st.sampled_from(["caller", "seed", "set_seed"]),
            "scale": st.sampled_from([1.0, 1e-7, 1e9, 1e-3]),
            "xscale": st.sampled_from([1.0, 1e-6, 1e4]),
        }
    ),
    quick=200,
    examples=[{"x0": 0.0, "dx": [1], "y": [1] * 9, "form": "array", "seed": 1, "mode": "caller", "scale": 1.0, "xscale": 1.0}],
)
def tabulated_density(case, rec):
    x = case["x0"] + np.concatenate([[0], np.cumsum(case["dx"])]) / 4.0
    y = np.array(case["y"][: len(x)], dtype=float)
    if y.sum() == 0 or np.sum((y[1:] + y[:-1])) == 0:
        y[0] = 1.0
    y = y / 8.0 * case["scale"] if case["form"] != "int" else y
    x = x * case["xscale"]
    eps = 1e-9 * case["xscale"]
    mass = (y[1:] + y[:-1]) / 2 * np.diff(x)
    mass = mass / mass.sum()
    xs, ys = (list(x), list(y)) if case["form"] == "list" else (x, y.astype(int) if case["form"] == "int" else y)
    s = case["seed"] % 99991
    node = DistributionSampler(xs, ys, seed=s if case["mode"] == "seed" else 3, node_label="x")
    if case["mode"] == "set_seed":
        node.set_seed(s)
    rng = np.random.default_rng(s) if case["mode"] == "caller" else None
    total = 4000
    v = np.asarray(node.sample_parameters(num_samples=total, rng_info=rng)["x.function_node_result"], dtype=float)
    require(v.shape == (total,), "one draw per sample")
    require(bool(np.all((v >= x[0] - eps) & (v <= x[-1] + eps))), "draws outside the tabulated range")
    c, _ = np.histogram(np.clip(v, x[0], x[-1]), bins=x)
    for i in range(len(mass)):
        # the knots of an empty interval may be hit by rounding only
        sd = np.sqrt(total * mass[i] * (1 - mass[i]))
        require(
            abs(c[i] - total * mass[i]) <= 7 * sd + 3,
            f"{c[i]} of {total} draws in [{x[i]}, {x[i + 1]}], expected {total * mass[i]:.1f}",
        )
    one = [node.sample_parameters(num_samples=1, rng_info=rng)["x.function_node_result"] for _ in range(20)]
    require(all(np.ndim(w) == 0 and x[0] - eps <= w <= x[-1] + eps for w in one), "single draws")
    require(len({float(w) for w in one}) == 20, "single draws repeat")
    raises(ValueError, lambda: DistributionSampler(xs, ys[:-1]), "mismatched lengths")
    raises(ValueError, lambda: DistributionSampler(np.array([0.0, 1, 2]), np.array([1.0, -1, 1])), "negative density")
    rec.label("zero at start" if y[0] == 0 else "positive at start")
    rec.nontrivial(len(x) > 2)


@check(
    "C07",
    fd({"seed": seeds(), "pick": st.lists(st.integers(0, 5), min_size=1, max_size=4, unique=True),
        "as_dict": st.booleans(), "loc": gr(-3, 3), "width": gr(0.5, 5)}),
    quick=30,
)
def bilby_priors(case, rec):
    from bilby.core.prior import Cosine, Gaussian, LogUniform, PowerLaw, PriorDict, Sine, Uniform

    from lightcurvelynx.math_nodes.bilby_priors import BilbyPriorNode

    lo, w = case["loc"], case["width"]
    allp = [
        ("u", Uniform(lo, lo + w, "u")),
        ("g", Gaussian(lo, w, "g")),
        ("s", Sine(0, 1 + w / 5, "s")),
        ("c", Cosine(-1, 1, "c")),
        ("p", PowerLaw(1.5, 1, 1 + w, "p")),
        ("l", LogUniform(1, 1 + w, "l")),
    ]
    pri = dict(allp[i] for i in case["pick"])
    node = BilbyPriorNode(prior=pri if case["as_dict"] else PriorDict(pri), seed=case["seed"], node_label="b")
    require(set(node.outputs) == set(pri), "one output per prior")
    s1 = node.sample_parameters(num_samples=1000)
    us = {}
    for k, p in pri.items():
        us[k] = np.asarray(p.cdf(s1[f"b.{k}"]))
        pit_ok(us[k], f"prior {k}")
    keys = list(pri)
    for i in range(1, len(keys)):
        r = np.corrcoef(us[keys[0]], us[keys[i]])[0, 1]
        require(abs(r) < 7.5 / np.sqrt(1000), f"priors {keys[0]} and {keys[i]} are drawn together")
    node.set_seed(case["seed"])
    s2 = node.sample_parameters(num_samples=1000)
    for k in pri:
        same(s2[f"b.{k}"], s1[f"b.{k}"], "the sequence after seeding")
    s3 = node.sample_parameters(num_samples=1)
    for k in pri:
        require(np.ndim(s3[f"b.{k}"]) == 0, "a single draw is a plain value")
    raises(ValueError, lambda: BilbyPriorNode(prior={}), "an empty prior")
    rec.nontrivial(len(pri) > 1)


class FakeFlow:
    """Stands in for a trained flow: returns recognisable values and records what it was asked for."""

    def __init__(self, cols, cond):
        self.data_columns = cols
        self.conditional_columns = cond or None
        self.calls = []

    def sample(self, nsamples=1, conditions=None, save_conditions=True, seed=None):
        self.calls.append((nsamples, conditions, seed))
        rng = np.random.default_rng(seed)
        if self.conditional_columns is None:
            n = nsamples
            base = np.zeros(n)
        else:
            conditions = conditions[list(self.conditional_columns)]
            n = nsamples * len(conditions)
            base = np.repeat(conditions.to_numpy(dtype=float) @ (10.0 ** np.arange(len(self.conditional_columns))), nsamples)
        out = {c: base + (i + 1) * 1000.0 + 0.01 * rng.random(n) for i, c in enumerate(self.data_columns)}
        df = pd.DataFrame(out)
        if self.conditional_columns is not None and save_conditions:
            for c in self.conditional_columns:
                df[c] = np.repeat(conditions[c].to_numpy(), nsamples)
        return df


@check(
    "C07",
    fd({"n": st.integers(1, 6), "cols": st.integers(1, 3), "cond": st.integers(0, 3), "vals": st.lists(gr(-5, 5, 50), min_size=18, max_size=18),
        "const": st.booleans(), "seed": seeds()}),
    quick=300,
)
def flow_conditions_belong_to_their_sample(case, rec):
    n = case["n"]
    cols = ["brightness", "mass", "z2"][: case["cols"]]
    cond = ["redshift", "alpha", "beta"][: case["cond"]]
    flow = FakeFlow(cols, cond)
    given = {c: np.array(case["vals"][6 * i : 6 * i + n]) for i, c in enumerate(cond)}
    if case["const"] and cond:
        given[cond[0]] = np.full(n, case["vals"][0])
    kw = {c: GivenValueList(v) for c, v in given.items()}
    if case["const"] and cond:
        kw[cond[0]] = case["vals"][0]
    node = PZFlowNode(flow, node_label="f", **kw)
    user = FunctionNode(lambda v: v, v=getattr(node, cols[-1]), node_label="user")
    st1 = user.sample_parameters(num_samples=n, rng_info=np.random.default_rng(case["seed"]))
    require(len(flow.calls) == 1, "the flow is sampled once per run")
    base = np.zeros(n)
    for i, c in enumerate(cond):
        base = base + given[c] * 10.0**i
    for i, c in enumerate(cols):
        v = np.atleast_1d(st1[f"f.{c}"])
        require(v.shape == (n,), f"one value of {c} per sample")
        require(bool(np.all(np.abs(v - base - (i + 1) * 1000.0 - 0.005) <= 0.0051)), f"{c}: conditions are mixed up")
    same(st1["user.v"], st1[f"f.{cols[-1]}"], "the linked value")
    if n == 1:
        require(np.ndim(st1[f"f.{cols[0]}"]) == 0, "a single draw is a plain value")
    for kwv in kw.values():
        if hasattr(kwv, "reset"):
            kwv.reset()
    st2 = user.sample_parameters(num_samples=n, rng_info=np.random.default_rng(case["seed"]))
    for c in cols:
        same(st2[f"f.{c}"], st1[f"f.{c}"], "the same generator repeats")
    if cond:
        raises(ValueError, lambda: PZFlowNode(flow), "a missing condition")
    rec.nontrivial(n > 1 and len(cond) > 0)


@check(
    "C07",
    fd({"seed": seeds(), "kinds": st.lists(st.sampled_from(["np", "pdf", "tab", "np2"]), min_size=2, max_size=4),
        "caller": st.booleans()}),
    quick=40,
)
def different_nodes_are_independent(case, rec):
    def mk(k, i):
        if k == "np":
            return NumpyRandomFunc("uniform", low=0.0, high=1.0, node_label=f"n{i}"), lambda v: v
        if k == "np2":
            return NumpyRandomFunc("normal", loc=0.0, scale=1.0, node_label=f"n{i}"), stats.norm.cdf
        if k == "pdf":
            return SamplePDF(lambda x: float(np.exp(-x * x / 2)), node_label=f"n{i}"), stats.norm.cdf
        return DistributionSampler(np.array([0.0, 1.0]), np.array([1.0, 1.0]), node_label=f"n{i}"), lambda v: v

    pairs = [mk(k, i) for i, k in enumerate(case["kinds"])]
    top = FunctionNode(
        lambda **kw: kw["a0"], node_label="top", **{f"a{i}": p[0] for i, p in enumerate(pairs)}
    )
    rng = np.random.default_rng(case["seed"]) if case["caller"] else None
    s = top.sample_parameters(num_samples=600, rng_info=rng)
    us = [p[1](s[f"n{i}.function_node_result"]) for i, p in enumerate(pairs)]
    for i in range(len(us)):
        pit_ok(us[i], f"node {i}")
        for j in range(i):
            r = np.corrcoef(us[i], us[j])[0, 1]
            require(abs(r) < 7.5 / np.sqrt(600), f"nodes {j} and {i} draw related values ({r:.3f})")
    rec.nontrivial()

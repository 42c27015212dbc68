import numpy as np
from hypothesis import strategies as st

from lightcurvelynx.effects.basic_effects import ConstantDimming
from lightcurvelynx.math_nodes.given_sampler import GivenValueList
from lightcurvelynx.models.basic_models import LinearWavelengthModel
from lightcurvelynx.models.multi_object_model import AdditiveMultiObjectModel, RandomMultiObjectModel
from lightcurvelynx.models.physical_model import SEDModel
from lightcurvelynx.models.spline_model import SplineModel
from lightcurvelynx.models.static_sed_model import StaticSEDModel
from lightcurvelynx.utils.wave_extrapolate import (
    ConstantExtrapolation,
    ExponentialDecay,
    LastValueExtrapolation,
    LinearDecay,
    WaveExtrapolationModel,
)

from .. import zoo
from ..core import check, close, describe, raises, require, same
from ..gen import fd, gr, seeds

describe(
    "C21",
    "Cases are sources with a valid wavelength range (built-in ones and a source defined by the harness whose range depends "
    "on its sampled parameters and that returns garbage outside it), every extrapolation rule with generated settings, "
    "redshifts, and wavelengths inside, outside and exactly on the limits in any order; non-trivial when wavelengths on "
    "both sides of a limit are asked for.",
    ["rules other than the built-in ones receive the edge wavelength, the edge fluxes and the wavelengths outside"],
)


class Ranged(SEDModel):
    """A smooth spectrum that is only valid between two sampled limits (either may be missing)."""

    def __init__(self, lo, hi, amp, **kw):
        super().__init__(**kw)
        self.add_parameter("lo", lo)
        self.add_parameter("hi", hi)
        self.add_parameter("amp", amp)

    def minwave(self, graph_state=None):
        return self.get_param(graph_state, "lo")

    def maxwave(self, graph_state=None):
        return self.get_param(graph_state, "hi")

    @staticmethod
    def shape(t, w, amp):
        return amp * (3 + np.sin(t[:, None] / 20.0) + np.cos(w[None, :] / 900.0 + t[:, None] / 40.0))

    def compute_sed(self, times, wavelengths, graph_state, **kwargs):
        p = self.get_local_params(graph_state)
        f = self.shape(np.asarray(times), np.asarray(wavelengths), p["amp"])
        bad = np.zeros(len(wavelengths), dtype=bool)
        if p["lo"] is not None:
            bad |= np.asarray(wavelengths) < p["lo"]
        if p["hi"] is not None:
            bad |= np.asarray(wavelengths) > p["hi"]
        f[:, bad] = 1e30
        return f


RULE = fd({"kind": st.sampled_from(["none", "linear", "exp", "last", "constant", "base"]), "value": gr(0, 1)})


def make_rule(r):
    k, v = r["kind"], r["value"]
    if k == "none":
        return None
    if k == "base":
        return WaveExtrapolationModel()
    if k == "constant":
        return ConstantExtrapolation(value=10 * v)
    if k == "last":
        return LastValueExtrapolation()
    if k == "linear":
        return LinearDecay(decay_width=10 + 3000 * v)
    return ExponentialDecay(rate=0.01 * v)


def rule(r, edge, flux, w):
    """Reference: flux beyond the edge; flux has one value per time."""
    d = np.abs(w - edge)[None, :]
    f = np.asarray(flux, dtype=float)[:, None] * np.ones_like(d)
    k, v = r["kind"], r["value"]
    if k in ("none", "base"):
        return 0 * f
    if k == "constant":
        return 0 * f + 10 * v
    if k == "last":
        return f
    if k == "linear":
        return f * np.maximum(0.0, 1 - d / (10 + 3000 * v))
    return f * np.exp(-0.01 * v * d)


@check("C21", fd({
    "rule": RULE, "edge": gr(500, 20000), "below": st.booleans(), "nt": st.integers(0, 5), "nw": st.integers(0, 8), "seed": seeds(), "ints": st.booleans(),
}), quick=400)
def rules(case, rec):
    g = np.random.default_rng([case["seed"], 1])
    flux = g.normal(10, 10, case["nt"])
    d = g.choice([0.0, 1e-9, 1.0, 10.0, 100.0, 1000.0, 3500.0], size=case["nw"]) * g.uniform(0.5, 2, case["nw"])
    w = case["edge"] - d if case["below"] else case["edge"] + d
    if case["ints"]:
        flux, w = np.round(flux).astype(int), np.round(w).astype(int)
    m = make_rule(case["rule"]) or WaveExtrapolationModel()
    a, b = flux.copy(), w.copy()
    got = m(case["edge"], flux, w)
    same(flux, a, "edge fluxes")
    same(w, b, "wavelengths")
    require(got.shape == (len(flux), len(w)), f"shape {got.shape}")
    close(got, rule(case["rule"], case["edge"], flux, w), rtol=1e-12, atol=1e-12, msg="rule")
    if len(flux):
        close(m(case["edge"], flux.tolist(), w.tolist()), got, rtol=1e-12, msg="lists")
        if case["rule"]["kind"] in ("last", "linear", "exp"):
            close(m(case["edge"], flux, np.array([case["edge"]]))[:, 0], flux, rtol=1e-12, msg="continuous at the edge")
        if case["rule"]["kind"] in ("linear", "exp") and len(w) > 1:
            o = np.argsort(np.abs(w - case["edge"]))
            require(np.all(np.diff(np.abs(got[:, o]), axis=1) <= 1e-9), "decays away from the edge")
    rec.nontrivial(len(flux) > 1 and len(w) > 1)
    rec.label(case["rule"]["kind"])


@check("C21", fd({"seed": seeds(), "kind": st.sampled_from(["linear", "exp", "constant"])}), quick=15)
def bad_rules(case, rec):
    v = -float(np.random.default_rng(case["seed"]).uniform(1e-3, 10))
    if case["kind"] == "linear":
        raises(ValueError, lambda: LinearDecay(decay_width=v), "negative width")
        raises(ValueError, lambda: LinearDecay(decay_width=0.0), "no width")
    elif case["kind"] == "exp":
        raises(ValueError, lambda: ExponentialDecay(rate=v), "negative rate")
    else:
        raises(ValueError, lambda: ConstantExtrapolation(value=v), "negative value")
    rec.nontrivial(True)


def wave_query(g, lo, hi, z, mode, n):
    """Observed wavelengths around the (rest-frame) limits."""
    a = lo if lo is not None else (hi or 5000.0) - 3000
    b = hi if hi is not None else (lo or 5000.0) + 3000
    pool = {
        "mixed": lambda: np.concatenate([g.uniform(a - 1500, b + 1500, n), [a, b] if z == 0 else []]),
        "below": lambda: g.uniform(a - 1500, a, n),
        "above": lambda: g.uniform(b, b + 2500, n),
        "inside": lambda: np.concatenate([g.uniform(a, b, n), [a, b] if z == 0 else []]),
        "outside": lambda: np.concatenate([g.uniform(a - 1500, a, n), g.uniform(b, b + 1500, n)]),
        "near": lambda: np.concatenate([a + g.uniform(-1, 1, n), b + g.uniform(-1, 1, n)]),
        # just inside and just outside (by rounding errors too when there is no redshift)
        "edge": lambda: np.concatenate([a + (1 if i % 3 else -1) * 10.0 ** -g.uniform(1, 6, 1) for i in range(n)]
                                       + [b + (-1 if i % 3 else 1) * 10.0 ** -g.uniform(1, 6, 1) for i in range(n)]
                                       + ([[np.nextafter(a, 0), np.nextafter(a, 1e9), np.nextafter(b, 0), np.nextafter(b, 1e9)]] if z == 0 else [])),
    }[mode]()
    g.shuffle(pool)
    return pool * (1 + z)


MODES = ["mixed", "edge", "near", "outside", "below", "above", "inside"]


@check("C21", fd({
    "rule": RULE, "limits": st.sampled_from(["both", "both", "low", "high", "free"]), "mode": st.sampled_from(MODES), "z": st.sampled_from([0.0, None, 0.5, 2.1]),
    "n": st.integers(1, 5), "nt": st.integers(1, 4), "ns": st.integers(1, 3), "seed": seeds(), "dim": st.booleans(),
    "wrap": st.sampled_from(["plain", "plain", "sum", "choice"]),
}), quick=900)
def ranged(case, rec):
    g = np.random.default_rng([case["seed"], 2])
    ns = case["ns"]
    # explicit per-sample limits (None where there is none)
    lo = [float(x) if case["limits"] in ("both", "low") else None for x in g.uniform(3000, 5000, ns)]
    hi = [float(x) if case["limits"] in ("both", "high") else None for x in g.uniform(6000, 9000, ns)]
    amp = g.uniform(1, 10, ns).tolist()

    def build(r, label):
        kw = {} if case["z"] is None else {"redshift": case["z"]}
        m = Ranged(GivenValueList(lo), GivenValueList(hi), GivenValueList(amp), t0=10.0, wave_extrapolation=r, node_label=label, **kw)
        if case["dim"]:
            m.add_effect(ConstantDimming(0.5))
        return m

    m = build(make_rule(case["rule"]), "m")
    top = m
    if case["wrap"] == "sum":
        top = AdditiveMultiObjectModel([m], node_label="top")
    elif case["wrap"] == "choice":
        top = RandomMultiObjectModel([m], node_label="top")
    state = top.sample_parameters(num_samples=ns, rng_info=np.random.default_rng([case["seed"], 1]))
    z = case["z"] or 0.0
    k = int(g.integers(ns))
    w = wave_query(g, lo[k], hi[k], z, case["mode"], case["n"])
    t = g.uniform(-100, 100, case["nt"])
    flux = top.evaluate_sed(t, w, state)
    cube = flux if ns > 1 else flux[None]
    trest, wr = 10.0 + (t - 10.0) / (1 + z), w / (1 + z)
    fac = (1 + z) * (0.5 if case["dim"] else 1.0)
    crossing = False
    for i in range(ns):
        want = Ranged.shape(trest, wr, amp[i])
        if lo[i] is not None and np.any(wr < lo[i]):
            b = wr < lo[i]
            want[:, b] = rule(case["rule"], lo[i], Ranged.shape(trest, np.array([lo[i]]), amp[i])[:, 0], wr[b])
            crossing |= not b.all()
        if hi[i] is not None and np.any(wr > hi[i]):
            b = wr > hi[i]
            want[:, b] = rule(case["rule"], hi[i], Ranged.shape(trest, np.array([hi[i]]), amp[i])[:, 0], wr[b])
            crossing |= not b.all()
        close(cube[i], want * fac, rtol=1e-9, atol=1e-9, msg=f"flux inside and outside the valid range (sample {i})")
        if case["wrap"] == "choice":
            one = state.extract_single_sample(i)
            require(top.minwave(one) == lo[i] and top.maxwave(one) == hi[i], "limits of the selected part")
        if case["limits"] == "both":
            # each wavelength on its own
            j = int(g.integers(len(w)))
            one = top.evaluate_sed(t, w[j : j + 1], state.extract_single_sample(i))
            close(one[:, 0], cube[i][:, j], rtol=1e-12, msg="a single wavelength")
    rec.nontrivial(crossing)
    rec.label(case["rule"]["kind"], case["limits"])


@check("C21", fd({
    "kind": st.sampled_from(["static_multi", "spline", "linear", "sncosmo", "static"]), "rule": RULE, "z": st.sampled_from(["none", "pos", "zero"]), "mode": st.sampled_from(MODES),
    "mode2": st.sampled_from(["rand", "const"]), "n": st.integers(1, 5), "ps": st.integers(0, 10**6), "seed": seeds(), "flat": st.booleans(),
}), quick=500)
def builtin(case, rec):
    """The built-in sources: unchanged inside, the rule outside, zero by default."""
    g = np.random.default_rng([case["seed"], 3])
    spec = {"kind": case["kind"], "ps": case["ps"], "mode": case["mode2"], "z": case["z"], "extrap": "none"}
    plain, m = zoo.build(spec), zoo.build(spec)
    m.wave_extrapolation = make_rule(case["rule"])
    state = m.sample_parameters(num_samples=2, rng_info=np.random.default_rng([case["seed"], 1]))
    plain.sample_parameters(num_samples=1)
    t = g.uniform(-10, 20, 3)
    for i in range(2):
        one = state.extract_single_sample(i)
        lo, hi = m.minwave(one), m.maxwave(one)
        if case["kind"].startswith("static"):
            sed = m.sed_values[one["m"]["selected_idx"]]
            require(lo == sed[0, 0] and hi == sed[0, -1], "limits of a static source are those of its spectrum")
        elif case["kind"] == "spline":
            require(lo == 3500 and hi == 8500, "limits of a spline are those of its grid")
        elif case["kind"] == "sncosmo":
            require(lo == 3000 and hi == 9000, "limits of the wrapped source")
        z = one["m"]["redshift"] or 0.0
        w = wave_query(g, lo, hi, z, case["mode"], case["n"])
        wr = w / (1 + z)
        got = m.evaluate_sed(t, w, one)
        zero = plain.evaluate_sed(t, w, one)
        inside = (wr >= lo) & (wr <= hi)
        close(got[:, inside], zero[:, inside], rtol=1e-12, msg="inside: the same with and without extrapolation")
        require(np.all(zero[:, ~inside] == 0), "outside: zero by default")
        # edge fluxes: just inside the range
        eps = 1e-9
        edge = plain.evaluate_sed(t, np.array([lo * (1 + eps), hi * (1 - eps)]) * (1 + z), one) / (1 + z)
        for sel, e, f in ((wr < lo, lo, edge[:, 0]), (wr > hi, hi, edge[:, 1])):
            want = rule(case["rule"], e, f, wr[sel]) * (1 + z)
            close(got[:, sel], want, rtol=1e-5, atol=1e-5 * (np.abs(edge).max() + 1e-300), msg="outside: the rule continued from the edge")
    rec.nontrivial(inside.any() and not inside.all())
    rec.label(case["kind"], case["rule"]["kind"])


@check("C21", fd({"kind": st.sampled_from(["linear", "spline", "static"]), "rule": RULE, "seed": seeds(), "rev": st.booleans()}), quick=120)
def containers(case, rec):
    """Lists, integers and one-sided limits of the built-in sources."""
    g = np.random.default_rng([case["seed"], 4])
    r = make_rule(case["rule"])
    if case["kind"] == "linear":
        lo, hi = (None, 7000) if case["rev"] else (4000, None)
        m = LinearWavelengthModel(2.0, 0.001, min_wave=lo, max_wave=hi, wave_extrapolation=r)
        f = lambda w: 2 + 0.001 * w  # noqa: E731
    elif case["kind"] == "spline":
        lo, hi = 4000, 7000
        wg = np.array([4000, 5000, 6000, 7000])
        m = SplineModel(np.array([0, 10, 20, 30]), wg if case["rev"] else wg.tolist(), np.tile(2 + 0.001 * wg, (4, 1)), t0=0, wave_extrapolation=r)
        f = lambda w: 2 + 0.001 * w  # noqa: E731
    else:
        lo, hi = 4000, 7000
        m = StaticSEDModel(np.array([[4000, 7000], [6, 9]]), wave_extrapolation=r)
        f = lambda w: 2 + 0.001 * w  # noqa: E731
    w = g.integers(2000, 9000, size=6)
    got = m.evaluate_sed([1, 5], w.tolist())
    want = np.tile(f(w.astype(float)), (2, 1))
    if lo is not None:
        want[:, w < lo] = rule(case["rule"], lo, [f(lo)] * 2, w[w < lo])
    if hi is not None:
        want[:, w > hi] = rule(case["rule"], hi, [f(hi)] * 2, w[w > hi])
    close(got, want, rtol=1e-9, atol=1e-12, msg="integer wavelengths")
    rec.nontrivial(True)

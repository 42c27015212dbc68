import math
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from lightcurvelynx.math_nodes.given_sampler import GivenValueList
from lightcurvelynx.models.basic_models import ConstantSEDModel
from lightcurvelynx.models.physical_model import SEDModel
from lightcurvelynx.simulate import compute_noise_free_lightcurves, compute_single_noise_free_lightcurve

from .. import zoo
from ..core import Reject, check, close, describe, raises, require, same
from ..gen import fd, gr, seeds
from .c26_bandflux import GROUP, group, weights
from .c27_simulate import lightcurve, null

describe(
    "C29",
    "Cases are models of every kind with random redshifts and reference times, and phase grids (integer, binary and decimal "
    "limits and steps, scalar or one per object, also empty ones); grids are recomputed in exact arithmetic; non-trivial when "
    "at least two phases and one object with a redshift or reference time are involved.",
    ["a filter name stands for one passband of the group",
     "a last phase equal to the end up to rounding may be present if it is below the end"],
)

NUM = st.sampled_from(["int", "binary", "decimal", "float", "npint", "npfloat"])


def number(kind, x):
    if kind == "int":
        return int(round(x))
    if kind == "npint":
        return np.int64(round(x))
    if kind == "binary":
        return round(x * 8) / 8
    if kind == "decimal":
        return round(x, 1)
    return np.float64(round(x, 3)) if kind == "npfloat" else float(x)


def grid(a, b, s):
    """Exact grid of the decimal numbers; and whether the end is a multiple of the step."""
    a, b, s = (Fraction(repr(float(v))) for v in (a, b, s))
    n = max(0, math.ceil((b - a) / s))
    return np.array([float(a + k * s) for k in range(n)])


def check_grid(got, a, b, s, what):
    want = grid(a, b, s)
    got = np.asarray(got, dtype=float)
    if len(got) == len(want) + 1 and got[-1] < b and abs(got[-1] - b) < 1e-9 * (abs(a) + abs(b) + 1):
        got = got[:-1]
    require(len(got) == len(want), f"{what}: phases {got}, expected {want}")
    close(got, want, rtol=1e-12, atol=1e-11 * (abs(float(a)) + abs(float(b)) + 1), msg=f"{what}: phases")
    require(np.all(got < float(b)), f"{what}: phases beyond the end")


LIMITS = fd({"a": gr(-60, 20), "len": gr(0, 60), "s": gr(0.3, 9), "kinds": st.lists(NUM, min_size=3, max_size=3), "per": st.sampled_from(["scalar", "array", "list", "mixed", "int array"])})
SPEC = zoo.model_strategy(kinds=[k for k in zoo.SED_KINDS + zoo.BAND_KINDS if k != "salt2"], effects=("dim", "ml"), max_effects=1)


def limits(case, n, g):
    """One triple per object, and the arguments."""
    k = case["kinds"]
    rows = []
    for _ in range(n):
        a = number(k[0], case["a"] + (g.uniform(-9, 9) if case["per"] != "scalar" else 0))
        s = number(k[2], case["s"] * (g.uniform(0.5, 2) if case["per"] in ("array", "list") else 1))
        s = s if s > 0 else type(s)(1)
        b = number(k[1], a + case["len"] * (g.uniform(0, 2) if case["per"] != "scalar" else 1))
        rows.append((a, b, s))
    if case["per"] == "scalar":
        return rows, dict(zip(("rest_frame_phase_min", "rest_frame_phase_max", "rest_frame_phase_step"), rows[0], strict=True))
    cols = list(zip(*rows, strict=True))
    if case["per"] == "list":
        cols = [list(c) for c in cols]
    else:
        cols = [np.array(c) for c in cols]
    if case["per"] in ("mixed", "int array"):
        rows = [(a, b, rows[0][2]) for a, b, _ in rows]
        cols[2] = rows[0][2]
    if case["per"] == "int array":
        rows = [(int(math.floor(a)), int(math.ceil(b)), s) for a, b, s in rows]
        cols[0], cols[1] = np.array([r[0] for r in rows]), np.array([r[1] for r in rows])
    return rows, dict(zip(("rest_frame_phase_min", "rest_frame_phase_max", "rest_frame_phase_step"), cols, strict=True))


@check("C29", fd({"spec": SPEC, "n": st.sampled_from([3, 1, 2, 5]), "limits": LIMITS, "seed": seeds(), "filters": st.sampled_from([3, 2, 1]), "ends": st.booleans()}), quick=350)
def models(case, rec):
    spec, n = case["spec"], case["n"]
    m = zoo.build(spec, "m")
    g = np.random.default_rng([case["seed"], 29])
    pg = zoo.shared_passbands()
    if case["filters"] < 3 and not any(k.startswith("template") for k in [spec["kind"]] + [p["kind"] for p in spec.get("parts", [])]):
        pg = zoo.passbands(list(np.array(zoo.FILTERS)[g.permutation(3)[: case["filters"]]]))
    state = m.sample_parameters(num_samples=n, rng_info=np.random.default_rng([case["seed"], 2]))
    rows, args = limits(case["limits"], n, g)
    if case["ends"]:
        # ends that are a whole number of decimal steps away
        s = round(float(rows[0][2]), 1) or 0.1
        a = [round(float(r[0]), 1) for r in rows]
        rows = [(x, round(x + k * s, 1), s) for x, k in zip(a, g.integers(1, 40, n).tolist(), strict=True)]
        args = {"rest_frame_phase_min": np.array(a), "rest_frame_phase_max": np.array([r[1] for r in rows]), "rest_frame_phase_step": s}
    res = compute_noise_free_lightcurves(m, state, pg, **args)
    require(len(res) == n, "one row per object")
    same(list(res["id"]), list(range(n)), "ids"), same(list(res.index), list(range(n)), "index")
    require(set(res["lightcurve"].nest.fields) == {"times", "rest_phase"} | set(pg.filters), f"columns {res['lightcurve'].nest.fields}")
    many = 0
    for i in range(n):
        one = state.extract_single_sample(i)
        p = {k: m.get_param(one, k) for k in ("ra", "dec", "redshift", "t0")}
        for c, k in (("ra", "ra"), ("dec", "dec"), ("z", "redshift")):
            x = res[c].iloc[i]
            require((null(x) and null(p[k])) or float(x) == float(p[k]), f"object {i}: {c} = {x}, parameter {p[k]}")
        lc = lightcurve(res, i)
        cols = {c: (np.array([]) if lc is None else lc[c].to_numpy(float)) for c in ["times", "rest_phase", *pg.filters]}
        check_grid(cols["rest_phase"], *rows[i], f"object {i}")
        want = cols["rest_phase"] * (1 + (p["redshift"] or 0.0)) + (p["t0"] or 0.0)
        close(cols["times"], want, rtol=1e-13, atol=1e-11, msg=f"object {i}: times")
        many += len(want)
        single = compute_single_noise_free_lightcurve(m, one, pg, **dict(zip(args, rows[i], strict=True)))
        require(set(single) == set(cols), "columns of a single light curve")
        for c in cols:
            same(np.asarray(single[c], dtype=float), cols[c], f"object {i}: {c} alone and in the batch")
        as_float = compute_single_noise_free_lightcurve(m, one, pg, **{k: float(v) for k, v in zip(args, rows[i], strict=True)})
        for c in cols:
            close(np.asarray(as_float[c]), cols[c], rtol=1e-9, atol=1e-9, msg=f"object {i}: {c} with floating point limits")
        for f in pg.filters:
            v = m.evaluate_bandfluxes(pg, want, np.full(len(want), f), one)
            close(cols[f], v, rtol=1e-8, atol=1e-9 * (np.abs(v).max() if len(v) else 1), msg=f"object {i}: band fluxes in {f}")
    rec.label(spec["kind"], case["limits"]["per"])
    rec.nontrivial(many > n)


class Line(SEDModel):
    def compute_sed(self, times, wavelengths, graph_state, **kwargs):
        a, t0 = self.get_param(graph_state, "a"), self.get_param(graph_state, "t0") or 0.0
        return a + 10.0 * (np.asarray(times)[:, None] - t0) + 1e-3 * np.asarray(wavelengths)[None, :]


@check("C29", fd({
    "group": GROUP, "n": st.sampled_from([3, 1, 4]), "limits": LIMITS, "z": st.sampled_from(["pos", "zero", "none", "negative"]), "t0": st.sampled_from(["list", "int", "zero", "none"]),
    "seed": seeds(), "default": st.sampled_from([False, False, True]), "off": st.sampled_from([False, False, False, True]),
}), quick=300)
def closed_form(case, rec):
    """A known spectrum: phases, times and every band flux in closed form."""
    n = case["n"]
    g = np.random.default_rng([case["seed"], 30])
    pbs, tabs = group(case["group"])
    seen, keep = set(), []
    for p in pbs:  # one passband per filter name
        if p.filter_name not in seen and p.filter_name not in {q.full_name for q in pbs}:
            keep.append(p), seen.add(p.filter_name)
    if not keep:
        raise Reject
    from lightcurvelynx.astro_utils.passbands import PassbandGroup

    pg = PassbandGroup(keep)
    a = np.round(g.uniform(0, 100, n), 2)
    z = {"pos": np.round(g.uniform(0.01, 3, n), 3), "negative": -np.round(g.uniform(0.001, 0.3, n), 3)}.get(case["z"], np.zeros(n))
    t0 = {"list": np.round(g.uniform(-100, 60000, n), 3), "int": g.integers(-50, 60000, n)}.get(case["t0"], np.zeros(n))
    kw = {}
    if case["t0"] != "none":
        kw["t0"] = GivenValueList(list(t0)) if case["t0"] != "zero" else 0
        if case["z"] != "none":
            kw["redshift"] = GivenValueList(z.tolist()) if case["z"] != "zero" else 0
    z = z if "redshift" in kw else np.zeros(n)
    m = Line(node_label="m", ra=GivenValueList((a / 10).tolist()), dec=GivenValueList((-a / 20).tolist()), **kw)
    m.add_parameter("a", GivenValueList(a.tolist()))
    if case["off"]:  # the spectrum stays in the rest frame; the times are still those of the phases
        m.set_apply_redshift(False)
    state = m.sample_parameters(num_samples=n)
    rows, args = limits(case["limits"], n, g)
    if case["default"]:
        rows, args = [(-50.0, 50.0, 2.0)] * n, {}
    res = compute_noise_free_lightcurves(m, state, pg, **args)
    total = 0
    for i in range(n):
        close(float(res["ra"].iloc[i]), a[i] / 10, rtol=0, msg="position"), close(float(res["dec"].iloc[i]), -a[i] / 20, rtol=0, msg="position")
        lc = lightcurve(res, i)
        ph = grid(*rows[i])
        require((0 if lc is None else len(lc)) in (len(ph), len(ph) + 1), f"object {i}: {0 if lc is None else len(lc)} phases, expected {len(ph)}")
        if lc is None:
            continue
        check_grid(lc["rest_phase"].to_numpy(float), *rows[i], f"object {i}")
        ph = lc["rest_phase"].to_numpy(float)
        t = ph * (1 + z[i]) + t0[i]
        close(lc["times"].to_numpy(float), t, rtol=1e-14, atol=1e-10, msg=f"object {i}: times")
        for p in keep:
            mean = np.asarray(p.waves) @ weights(p, tabs[p.full_name])
            want = (a[i] + 10 * ph + 1e-3 * mean / (1 + z[i])) * (1 + z[i])
            if case["off"]:
                want = a[i] + 10 * (t - t0[i]) + 1e-3 * mean
            close(lc[p.filter_name].to_numpy(float), want, rtol=3e-5, atol=1e-3 * 5e-4 * 9000 + 1e-6, msg=f"object {i}: filter {p.full_name}")
        total += len(ph)
    rec.nontrivial(total > n and len(keep) > 1)
    rec.label("z " + case["z"], "t0 " + case["t0"], case["limits"]["per"])


@check("C29", fd({"seed": seeds(), "n": st.integers(2, 4)}), quick=20)
def refused(case, rec):
    m = ConstantSEDModel(3.0, t0=0.0)
    pg = zoo.shared_passbands()
    state = m.sample_parameters(num_samples=case["n"])
    raises(ValueError, lambda: compute_single_noise_free_lightcurve(m, state, pg), "several samples")
    rec.nontrivial(True)

import os
import tempfile
import warnings

import h5py
import numpy as np
import sncosmo
from hypothesis import strategies as st
from scipy.interpolate import CubicSpline, make_interp_spline
from sncosmo.salt2utils import BicubicInterpolator as ReferenceBicubic
from sncosmo.salt2utils import SALT2ColorLaw as ReferenceColorLaw

from lightcurvelynx.astro_utils.salt2_color_law import SALT2ColorLaw
from lightcurvelynx.math_nodes.given_sampler import GivenValueList
from lightcurvelynx.math_nodes.np_random import NumpyRandomFunc
from lightcurvelynx.models.bayesn import BayesnModel
from lightcurvelynx.models.redback_models import RedbackWrapperModel
from lightcurvelynx.models.salt2_jax import SALT2JaxModel
from lightcurvelynx.models.sncomso_models import SncosmoWrapperModel
from lightcurvelynx.models.spline_model import SplineModel
from lightcurvelynx.utils.bicubic_interp import BicubicInterpolator

from .. import zoo
from ..core import Reject, check, close, describe, raises, require, same
from ..gen import fd, fl, gr, seeds

describe(
    "C25",
    "Cases are generated flux grids (regular and irregular axes, spline degrees 1 to 5 on either axis), colour-law "
    "coefficients and limits, SALT / BayeSN model directories written by the harness, sncosmo sources and redback-style "
    "source functions, with generated parameters, queried on, between and outside the grid points in any order and with "
    "repeats; non-trivial when points between grid points are queried.",
    [
        "the jax-based models compute in single precision: queries are exactly representable and tolerances are those of float32",
        "on the line where the bicubic scheme changes to linear, either value is accepted (rounding decides the cell)",
        "BayeSN is queried between its first and last knots (continuation beyond them is not documented)",
        "redback itself is not installed: source functions returning sncosmo time series stand in for it",
    ],
)

CL_AA = 2.99792458e18


def fnu(flam, waves):
    """erg/s/cm^2/A to nJy."""
    return flam * np.asarray(waves) ** 2 / CL_AA * 1e32


def axis(g, n, lo, steps, regular):
    """n increasing values, multiples of 1/8."""
    if regular:
        return lo + steps[int(g.integers(len(steps)))] * np.arange(n)
    return lo + np.concatenate([[0.0], np.cumsum(g.choice(np.array(steps), n - 1))])


def points(g, x, n, outside=True):
    """Query points (multiples of 1/64): grid points, points between and beyond them, shuffled, with repeats."""
    q = np.concatenate([g.choice(x, n), np.round(g.uniform(x[0], x[-1], n) * 64) / 64, [x[0], x[-1]]])
    if outside:
        q = np.concatenate([q, [x[0] - 0.125, x[-1] + 0.125, x[0] - 50.0, x[-1] + 70.5]])
    g.shuffle(q)
    return q


# ------------------------------------------------------------------------------------------ splines
@check("C25", fd({
    "nt": st.integers(2, 9), "nw": st.integers(2, 9), "kt": st.integers(1, 5), "kw": st.integers(1, 5), "regular": st.booleans(),
    "t0": st.one_of(st.none(), gr(-30, 30), st.just(59000.5)), "n": st.integers(0, 3), "file": st.sampled_from([False, False, True]), "seed": seeds(),
}), quick=400)
def spline(case, rec):
    g = np.random.default_rng([case["seed"], 25])
    kt, kw = case["kt"], case["kw"]
    nt, nw = max(case["nt"], kt + 1), max(case["nw"], kw + 1)
    t = axis(g, nt, float(g.choice([-10.0, 0.0, 2.5, -60.0])), [0.5, 1.0, 2.5], case["regular"])
    w = axis(g, nw, 3000.0, [100.0, 125.0, 250.0], case["regular"])
    z = np.round(g.uniform(0, 10, (nt, nw)), 3)
    t0 = case["t0"]
    amp = [float(x) for x in np.round(g.uniform(0.1, 5, max(case["n"], 1)), 3)]
    kwargs = {"time_degree": kt, "wave_degree": kw, "amplitude": GivenValueList(amp) if case["n"] else amp[0]}
    if t0 is not None:
        kwargs["t0"] = t0
    if case["file"]:
        with tempfile.TemporaryDirectory(prefix="verif_c25_") as d:
            path = os.path.join(d, "grid.dat")
            with open(path, "w") as f:
                for i in range(nt):
                    for j in range(nw):
                        f.write(f"{t[i]!r} {w[j]!r} {z[i, j]!r}\n".replace("np.float64(", "").replace(")", ""))
            m = SplineModel.from_file(path, format="ascii", **kwargs)
    else:
        m = SplineModel(t, w, z, **kwargs)
    require(m.minwave() == w[0] and m.maxwave() == w[-1], "wavelength limits")
    state = m.sample_parameters(num_samples=max(case["n"], 1))
    qt = points(g, t, 4, outside=False)
    qw = points(g, w, 4, outside=False)
    shift = 0.0 if t0 is None else t0
    out = np.asarray(m.evaluate_sed(qt + shift, qw, state)).reshape(max(case["n"], 1), len(qt), len(qw))
    ref = make_interp_spline(w, z, k=kw, axis=1)(qw)
    ref = make_interp_spline(t, ref, k=kt, axis=0)(qt)
    # outside the grid as inside, only the time since the reference time counts
    qo = np.concatenate([qt, [t[0] - 0.125, t[0] - 64.0, t[-1] + 0.125, t[-1] + 64.0]])
    if t0 is not None and case["n"] <= 1 and not case["file"]:
        early = SplineModel(t, w, z, **dict(kwargs, t0=t0 + 1024.0, amplitude=amp[0]))
        a = np.asarray(m.evaluate_sed(qo + t0, qw, state))
        b = np.asarray(early.evaluate_sed(qo + (t0 + 1024.0), qw, early.sample_parameters(num_samples=1)))
        close(b, a, rtol=1e-7, atol=1e-7 * amp[0] * (np.abs(a).max() + 10), msg="the same phases at another reference time")
    size = np.abs(ref).max() + 10
    # high degrees on few irregular points are badly conditioned
    for a, o in zip(amp, out, strict=True):
        close(o, a * ref, rtol=1e-7, atol=1e-8 * a * size, msg="spline")
        for i, x in enumerate(qt):
            for j, y in enumerate(qw):
                if x in t and y in w:
                    v = a * z[np.flatnonzero(t == x)[0], np.flatnonzero(w == y)[0]]
                    require(abs(o[i, j] - v) < 1e-8 * a * size, f"grid value {v}, got {o[i, j]}")
    rec.nontrivial(True)
    rec.label(f"degree {kt},{kw}")


# ------------------------------------------------------------------------------------------ bicubic
def kernel(x):
    x = abs(x)
    if x < 1:
        return 1.5 * x**3 - 2.5 * x**2 + 1
    if x < 2:
        return -0.5 * x**3 + 2.5 * x**2 - 4 * x + 2
    return 0.0


def bicubic(x, y, z, qx, qy):
    """Keys' cubic convolution in the interior, linear in the outermost cells, zero outside: the possible values (by cell)."""
    if qx < x[0] or qx > x[-1] or qy < y[0] or qy > y[-1]:
        return [0.0]

    def cells(a, q):
        i = min(int(np.searchsorted(a, q, side="right")) - 1, len(a) - 2)
        return [i, i - 1] if i > 0 and a[i] == q else [i]

    res = []
    for i in cells(x, qx):
        for j in cells(y, qy):
            u = (qx - x[i]) / (x[i + 1] - x[i])
            v = (qy - y[j]) / (y[j + 1] - y[j])
            if i == 0 or j == 0 or i > len(x) - 3 or j > len(y) - 3:
                res.append((1 - u) * ((1 - v) * z[i, j] + v * z[i, j + 1]) + u * ((1 - v) * z[i + 1, j] + v * z[i + 1, j + 1]))
            else:
                wx = np.array([kernel(u + 1), kernel(u), kernel(1 - u), kernel(2 - u)])
                wy = np.array([kernel(v + 1), kernel(v), kernel(1 - v), kernel(2 - v)])
                res.append(wx @ z[i - 1:i + 3, j - 1:j + 3] @ wy)
    return res


@check("C25", fd({
    "nx": st.integers(3, 12), "ny": st.integers(3, 12), "rx": st.booleans(), "ry": st.booleans(), "file": st.sampled_from([False, False, True]),
    "unit": st.sampled_from([-24, 12, -40, -12]), "seed": seeds(),
}), quick=50)
def interpolator(case, rec):
    g = np.random.default_rng([case["seed"], 1])
    x = axis(g, case["nx"], float(g.integers(-20, 20)), [0.5, 1.0, 1.375], case["rx"])
    y = axis(g, case["ny"], float(g.integers(0, 4000)), [0.625, 2.0, 10.0], case["ry"])
    z = np.round(g.uniform(-5, 10, (len(x), len(y))), 2)
    if case["file"]:
        with tempfile.TemporaryDirectory(prefix="verif_c25_") as d:
            path = os.path.join(d, "grid.dat")
            with open(path, "w") as f:
                for i in range(len(x)):
                    for j in range(len(y)):
                        f.write(f"{float(x[i])!r} {float(y[j])!r} {float(z[i, j])!r}\n")
            m = BicubicInterpolator.from_grid_file(path, scale_factor=0.5)
            z = z * 0.5
    else:
        m = BicubicInterpolator(x, y, z)
    qx, qy = points(g, x, 5), points(g, y, 5)
    out = np.asarray(m(qx, qy))
    require(out.shape == (len(qx), len(qy)), "shape")
    for i, a in enumerate(qx):
        for j, b in enumerate(qy):
            ref = bicubic(x, y, z, a, b)
            require(min(abs(out[i, j] - r) for r in ref) < 2e-4, f"value {out[i, j]}, not {ref} at ({a}, {b})")
            if a in x and b in y:
                v = z[np.flatnonzero(x == a)[0], np.flatnonzero(y == b)[0]]
                require(abs(out[i, j] - v) < 2e-4, f"grid value {v}, got {out[i, j]}")
    # the units of the axes do not matter (powers of two: no rounding)
    s = 2.0 ** case["unit"]
    scaled = np.asarray(BicubicInterpolator(x * s, y * s, z)(qx * s, qy * s))
    for i, a in enumerate(qx):
        for j, b in enumerate(qy):
            ref = bicubic(x, y, z, a, b)
            require(min(abs(scaled[i, j] - r) for r in ref) < 2e-4, f"value {scaled[i, j]}, not {ref} at ({a}, {b}) in units of {s}")
    # the reference agrees with sncosmo's implementation of the scheme
    if case["nx"] > 3 and case["ny"] > 3:
        ox, oy = np.unique(qx), np.unique(qy)
        sn = ReferenceBicubic(x, y, z)(ox, oy)
        for i, a in enumerate(ox):
            for j, b in enumerate(oy):
                if not (a in x or b in y):
                    require(min(abs(sn[i, j] - r) for r in bicubic(x, y, z, a, b)) < 1e-9, "harness: reference scheme")
    rec.nontrivial(min(case["nx"], case["ny"]) > 3)
    rec.label("regular" if case["rx"] and case["ry"] else "irregular")


# --------------------------------------------------------------------------------------- colour law
COLOUR = fd({"n": st.integers(1, 6), "lo": st.sampled_from([2800.0, 3000.0, 3500.0]), "hi": st.sampled_from([7000.0, 8000.0, 6500.0]), "seed": seeds(),
             "layout": st.sampled_from(["full", "swapped", "nolimits", "oneline"])})


def colour(case, g):
    co = np.round(g.uniform(-1, 1, case["n"]), 5)
    lo, hi = (3000.0, 7000.0) if case["layout"] == "nolimits" else (case["lo"], case["hi"])
    lines = [str(case["n"])] + [repr(float(c)) for c in co]
    lim = [f"Salt2ExtinctionLaw.min_lambda {lo:.0f}", f"Salt2ExtinctionLaw.max_lambda {hi:.0f}"]
    v = ["Salt2ExtinctionLaw.version 1"]
    rest = {"full": v + lim, "swapped": lim[::-1] + v, "nolimits": v, "oneline": v + lim}[case["layout"]]
    return co, lo, hi, (" " if case["layout"] == "oneline" else "\n").join(lines + rest) + "\n"


def colour_law(co, lo, hi, waves):
    """alpha l + sum a_i l^(i+1), l = (wave - B) / (V - B), with linear continuation; and the size of its terms."""
    p = np.concatenate([[1 - co.sum()], co])

    def value(l):
        return sum(c * l ** (k + 1) for k, c in enumerate(p))

    def slope(l):
        return sum((k + 1) * c * l**k for k, c in enumerate(p))

    l = (np.asarray(waves) - 4302.57) / (5428.55 - 4302.57)  # noqa: E741
    ll, lh = (lo - 4302.57) / (5428.55 - 4302.57), (hi - 4302.57) / (5428.55 - 4302.57)
    out = np.where(l < ll, value(ll) + slope(ll) * (l - ll), np.where(l > lh, value(lh) + slope(lh) * (l - lh), value(np.clip(l, ll, lh))))
    m = np.clip(np.abs(l), 1, None)
    size = sum(abs(c) * (k + 1) * np.clip(m, None, max(abs(ll), abs(lh), 1)) ** (k + 1) for k, c in enumerate(p)) * m
    return -out, size


@check("C25", COLOUR, quick=200)
def colour_laws(case, rec):
    g = np.random.default_rng([case["seed"], 2])
    co, lo, hi, text = colour(case, g)
    with tempfile.TemporaryDirectory(prefix="verif_c25_") as d:
        path = os.path.join(d, "cl.dat")
        with open(path, "w") as f:
            f.write(text)
        law = SALT2ColorLaw.from_file(path)
    waves = np.concatenate([g.uniform(1800, 11000, 12), [lo, hi, 4302.57, 5428.55, lo - 0.5, lo + 0.5, hi - 0.5, hi + 0.5]])
    g.shuffle(waves)
    want, size = colour_law(co, lo, hi, waves)
    close(ReferenceColorLaw((lo, hi), co)(waves), want, rtol=1e-9, atol=1e-9 * size.max(), msg="harness: reference colour law")
    for lw in (law, SALT2ColorLaw(lo, hi, co), SALT2ColorLaw(lo, hi, co.tolist())):
        got = np.asarray(lw.apply(waves))
        require(got.shape == waves.shape, "shape")
        require(np.all(np.abs(got - want) < 3e-5 * (size + 1)), f"colour law at {waves[np.argmax(np.abs(got - want))]}: {got}, not {want}")
    got = np.asarray(law.apply(np.array([4302.57, 5428.55])))
    require(abs(got[0]) < 1e-5 and abs(got[1] + 1) < 1e-4 * (1 + np.abs(co).sum()), "0 in B and -1 in V")
    rec.nontrivial(bool((waves < lo).any() and (waves > hi).any()))


def salt_directory(d, g, case, nt=8, nw=9):
    t = axis(g, nt, -20.0, [2.0, 5.0, 10.0], case["regular"])
    w = axis(g, nw, 2800.0, [500.0, 750.0], case["regular"])
    grids = []
    for k, name in enumerate(("m0.dat", "m1.dat") if case["named"] else ("salt2_template_0.dat", "salt2_template_1.dat")):
        z = np.round(g.uniform(0.1, 1, (nt, nw)) if k == 0 else g.uniform(-0.3, 0.3, (nt, nw)), 4)
        grids.append(z)
        with open(os.path.join(d, name), "w") as f:
            for i in range(nt):
                for j in range(nw):
                    f.write(f"{float(t[i])!r} {float(w[j])!r} {float(z[i, j])!r}\n")
    return t, w, grids


@check("C25", fd({
    "cl": COLOUR, "regular": st.booleans(), "named": st.booleans(), "x0": fl(1e-6, 1e-3), "x1": gr(-3, 3), "c": gr(-0.5, 0.5),
    "t0": st.sampled_from([0.0, 25.5, 1000.25]), "n": st.integers(0, 3), "z": st.sampled_from([None, 0.0, 0.5]), "seed": seeds(),
}), quick=40)
def salt(case, rec):
    g = np.random.default_rng([case["seed"], 3])
    co, lo, hi, text = colour(case["cl"], g)
    n = max(case["n"], 1)
    x0 = [case["x0"] * (1 + k) for k in range(n)]
    x1 = [case["x1"] - k for k in range(n)]
    c = [case["c"] * (1 - k) for k in range(n)]
    with tempfile.TemporaryDirectory(prefix="verif_c25_") as d:
        t, w, (m0, m1) = salt_directory(d, g, case)
        with open(os.path.join(d, "cl.dat" if case["named"] else "salt2_color_correction.dat"), "w") as f:
            f.write(text)
        kw = {"m0_filename": "m0.dat", "m1_filename": "m1.dat", "cl_filename": "cl.dat"} if case["named"] else {}
        if case["z"] is not None:
            kw["redshift"] = case["z"]
        v = (GivenValueList(x0), GivenValueList(x1), GivenValueList(c)) if case["n"] else (x0[0], x1[0], c[0])
        m = SALT2JaxModel(x0=v[0], x1=v[1], c=v[2], model_dir=d, t0=case["t0"], **kw)
    state = m.sample_parameters(num_samples=n)
    qt, qw = points(g, t, 4), points(g, w, 4)
    qw = qw[qw > 100]
    # single precision: keep the attenuation within its range (a cubic law grows quickly when it is continued)
    qw = qw[np.abs(colour_law(co, lo, hi, qw)[0]) * max(abs(x) for x in c) * 0.4 < 15]
    if len(qw) == 0:
        raise Reject
    for k in range(n):
        one = state.extract_single_sample(k)
        out = np.asarray(m.compute_sed(qt + case["t0"], qw, one))
        law, size = colour_law(co, lo, hi, qw)
        att = 10 ** (-0.4 * law * c[k])
        for i, a in enumerate(qt):
            for j, b in enumerate(qw):
                r0, r1 = bicubic(t, w, m0, a, b), bicubic(t, w, m1, a, b)
                top = x0[k] * (np.abs(m0).max() + abs(x1[k]) * np.abs(m1).max()) * 1e-12
                ref = [fnu(x0[k] * (p + x1[k] * q) * 1e-12 * att[j], b) for p, q in zip(r0, r1, strict=True)]
                tol = fnu(top * att[j], b) * (3e-4 + 0.92 * abs(c[k]) * 3e-5 * (size[j] + 1))
                require(min(abs(out[i, j] - r) for r in ref) <= tol, f"SALT flux {out[i, j]}, not {ref} (tolerance {tol}) at phase {a}, wavelength {b}")
        times = case["t0"] + np.concatenate([g.uniform(-60, 130, 12), [-20.0, 50.0]])
        z = case["z"] or 0.0
        ph = (times - case["t0"]) / (1 + z)
        same(m.mask_by_time(times, one), (ph > -20) & (ph < 50), "times of interest")
    rec.nontrivial(True)


# ------------------------------------------------------------------------------------------ sncosmo
def series(g, kind):
    ph = axis(g, int(g.integers(5, 12)), -15.0, [2.0, 5.0, 7.5], bool(g.integers(2)))
    wv = axis(g, int(g.integers(5, 12)), 3000.0, [250.0, 500.0], bool(g.integers(2)))
    flux = g.uniform(0.1, 1, (len(ph), len(wv))) * 1e-15
    if kind == "stretch":
        return ph, wv, flux, lambda: sncosmo.StretchSource(ph, wv, flux)
    return ph, wv, flux, lambda: sncosmo.TimeSeriesSource(ph, wv, flux, zero_before=kind == "zero")


@check("C25", fd({
    "kind": st.sampled_from(["series", "stretch", "zero"]), "ext": st.sampled_from(list(zoo.EXTRAP)), "n": st.integers(0, 3), "t0": st.sampled_from([0.0, 100.5]),
    "z": st.sampled_from([None, 0.5]), "how": st.sampled_from(["kwargs", "set"]), "amp": fl(0.1, 20), "s": gr(0.5, 2), "seed": seeds(),
}), quick=200)
def wrapped_sncosmo(case, rec):
    g = np.random.default_rng([case["seed"], 4])
    ph, wv, flux, make = series(g, case["kind"])
    n = max(case["n"], 1)
    pars = {"amplitude": [case["amp"] * (1 + k) for k in range(n)]}
    if case["kind"] == "stretch":
        pars["s"] = [case["s"] + 0.25 * k for k in range(n)]
    kw = {"t0": case["t0"]}
    if case["z"] is not None:
        kw["redshift"] = case["z"]
    if case["n"] == 0 and case["how"] == "set":
        m = SncosmoWrapperModel(make(), wave_extrapolation=zoo.EXTRAP[case["ext"]](), node_label="m", **kw)
        m.set(**{k: v[0] for k, v in pars.items()})
    else:
        m = SncosmoWrapperModel(make(), wave_extrapolation=zoo.EXTRAP[case["ext"]](), node_label="m",
                                **{k: GivenValueList(v) if case["n"] else v[0] for k, v in pars.items()}, **kw)
    require(m.minwave() == wv[0] and m.maxwave() == wv[-1], "wavelength limits")
    require(list(m.param_names) == list(pars), "parameter names")
    state = m.sample_parameters(num_samples=n)
    qt = points(g, ph, 4)
    qw = np.concatenate([points(g, wv, 4, outside=False), [wv[0] - 300.0, wv[-1] + 500.0]])
    g.shuffle(qw)
    inside = (qw >= wv[0]) & (qw <= wv[-1])
    order = list(range(n))
    g.shuffle(order)
    for k in order:
        one = state.extract_single_sample(k)
        src = make()
        src.set(**{p: v[k] for p, v in pars.items()})
        for waves in (qw, qw[inside]):
            out = np.asarray(m.compute_sed(qt + case["t0"], waves, one))
            require(out.shape == (len(qt), len(waves)), "shape")
            for j, b in enumerate(waves):
                if wv[0] <= b <= wv[-1]:
                    ref = np.array([float(np.ravel(src.flux(a, b))[0]) for a in qt])
                    close(out[:, j], fnu(ref, b), rtol=1e-7, atol=1e-9 * fnu(1e-15 * pars["amplitude"][k], b), msg="library flux in nJy")
                elif case["ext"] == "none":
                    close(out[:, j], np.zeros(len(qt)), atol=0, msg="zero outside the library's range")
        for p, v in pars.items():
            require(m.get(p) == v[k], "the source's parameters are those of the evaluated sample")
        times = case["t0"] + np.concatenate([g.uniform(-60, 130, 12), [src.minphase(), src.maxphase()]])
        z = case["z"] or 0.0
        same(m.mask_by_time(times, one), (times > case["t0"] + src.minphase() * (1 + z)) & (times < case["t0"] + src.maxphase() * (1 + z)), "times of interest")
    # parameters set later apply to what is sampled later
    one = state.extract_single_sample(order[0])
    before = np.asarray(m.compute_sed(qt + case["t0"], qw[inside], one))
    m.set(amplitude=3.0 * case["amp"], **{p: v[0] for p, v in pars.items() if p != "amplitude"})
    same(np.asarray(m.compute_sed(qt + case["t0"], qw[inside], one)), before, "a sample drawn before the change")
    later = m.sample_parameters(num_samples=1)
    require(later["m"]["amplitude"] == 3.0 * case["amp"], "the new value is sampled")
    after = np.asarray(m.compute_sed(qt + case["t0"], qw[inside], later))
    if n == 1:
        close(after, before * 3.0, rtol=1e-7, atol=1e-12 * np.abs(before).max(), msg="a sample drawn after the change")
    rec.nontrivial(True)
    rec.label(case["kind"])


class Series(sncosmo.TimeSeriesSource):
    """Stand-in for the sources redback returns."""

    def get_flux_density(self, times, waves):
        return self._flux(times, waves)


@check("C25", fd({
    "ext": st.sampled_from(list(zoo.EXTRAP)), "n": st.integers(0, 3), "t0": st.sampled_from([None, 0.0, 100.5]), "prior": st.booleans(),
    "z": st.sampled_from([None, 0.5]), "amp": fl(0.1, 20), "lo": gr(2500, 3500), "seed": seeds(),
}), quick=200)
def wrapped_redback(case, rec):
    g = np.random.default_rng([case["seed"], 5])
    ph, _, flux, _ = series(g, "series")
    nw = flux.shape[1]
    n = max(case["n"], 1)
    amp = [case["amp"] * (1 + k) for k in range(n)]
    seen = []

    def source(times, height, lo, redshift=None, output_format=None, **kwargs):
        require(output_format == "sncosmo_source" and not kwargs, "arguments of the source function")
        seen.append((tuple(times), height, lo, redshift))
        return Series(ph, lo + 400.0 * np.arange(nw), height * flux)

    pars = {"height": GivenValueList(amp) if case["n"] else amp[0]}
    priors = None
    if case["prior"]:
        import bilby

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            priors = bilby.core.prior.PriorDict({"lo": bilby.core.prior.Uniform(2500.0, 3500.0, name="lo"), "height": bilby.core.prior.Uniform(1e3, 2e3, name="height")})
    else:
        pars["lo"] = case["lo"]
    if case["z"] is not None:
        pars["redshift"] = case["z"]
    before = dict(pars)
    kw = {} if case["t0"] is None else {"t0": case["t0"]}
    m = RedbackWrapperModel(source, priors=priors, parameters=pars, wave_extrapolation=zoo.EXTRAP[case["ext"]](), node_label="m", **kw)
    require(pars.keys() == before.keys(), "the caller's dictionary is not modified")
    same(sorted(m.param_names), sorted(set(pars) | {"lo"}), "parameter names")
    state = m.sample_parameters(num_samples=n, rng_info=np.random.default_rng(case["seed"]))
    shift = case["t0"] or 0.0
    qt = points(g, ph, 4)
    for k in range(n):
        one = state.extract_single_sample(k)
        lo = float(one["m"]["lo"])
        require(2500 <= lo <= 3500 and float(one["m"]["height"]) == amp[k], "parameters: given values before the prior's")
        wv = lo + 400.0 * np.arange(nw)
        qw = np.concatenate([g.uniform(wv[0], wv[-1], 4), [wv[0], wv[-1], wv[2], wv[2], 1500.0, wv[0] - 10, wv[-1] + 10, 20000.0]])
        g.shuffle(qw)
        sets = [qw, qw[(qw >= wv[0]) & (qw <= wv[-1])], np.array([1000.0, 900.0]), np.array([1000.0, 5000.0]), np.array([5000.0, 30000.0])]
        rule = zoo.EXTRAP[case["ext"]]()
        for waves in sets:
            seen.clear()
            out = np.asarray(m.evaluate_sed(qt + shift, waves, one))
            require(out.shape == (len(qt), len(waves)), "shape")
            require(all(s[1:] == (amp[k], lo, case["z"]) and np.allclose(s[0], qt, atol=1e-9) for s in seen) and seen, "the source function gets the sampled parameters and the times since t0")
            src = Series(ph, wv, amp[k] * flux)
            edge = {e: fnu(np.array([float(np.ravel(src._flux(a, e))[0]) for a in qt]), e) for e in (wv[0], wv[-1])}
            for j, b in enumerate(waves):
                if wv[0] <= b <= wv[-1]:
                    ref = fnu(np.array([float(np.ravel(src._flux(a, b))[0]) for a in qt]), b)
                elif rule is None:
                    ref = np.zeros(len(qt))
                else:
                    e = wv[0] if b < wv[0] else wv[-1]
                    ref = np.asarray(rule(e, edge[e], np.array([b])))[:, 0]
                close(out[:, j], ref, rtol=1e-7, atol=1e-9 * fnu(1e-15 * amp[k], b), msg="source flux in nJy, not redshifted again")
    rec.nontrivial(True)


# ------------------------------------------------------------------------------------------- BayeSN
def natural(x, y, axis=0):
    return CubicSpline(x, y, axis=axis, bc_type="natural")


@check("C25", fd({
    "theta": gr(-3, 3), "av": gr(0, 2), "rv": st.one_of(st.just(3.1), gr(2.1, 5.5)), "amp": fl(0.1, 50), "t0": st.sampled_from([0.0, 100.5, 59000.25]),
    "n": st.integers(0, 2), "regular": st.booleans(), "z": st.sampled_from([None, 0.0, 0.5]), "seed": seeds(),
}), quick=40)
def bayesn(case, rec):
    from pathlib import Path

    from astropy import units as u
    from dust_extinction.parameter_averages import F99

    g = np.random.default_rng([case["seed"], 6])
    lk = np.sort(g.choice(np.arange(3000.0, 9000.0, 250.0), 6, replace=False))
    tk = axis(g, 5, -10.0, [5.0, 10.0], case["regular"])
    ph = axis(g, 12, -12.0, [5.0, 6.0], case["regular"])
    wv = axis(g, 30, 2500.0, [200.0, 250.0], case["regular"])
    w0, w1 = g.uniform(-0.5, 0.5, (len(lk), len(tk))), g.uniform(-0.2, 0.2, (len(lk), len(tk)))
    h = g.uniform(0.2, 2, (len(ph), len(wv)))
    n = max(case["n"], 1)
    # With several samples, every sample has its own parameters.
    theta = [case["theta"] * (1 - k) for k in range(n)]
    av = [case["av"] + 0.5 * k for k in range(n)]
    rv = [case["rv"] if k == 0 else 2.5 + (case["rv"] - 1.0) % 3.0 for k in range(n)]
    amp = [case["amp"] * (1 + k) for k in range(n)]
    t0 = [case["t0"] + 3.5 * k for k in range(n)]
    with tempfile.TemporaryDirectory(prefix="verif_c25_") as d:
        d = Path(d)
        for name, a in (("W0.txt", w0), ("W1.txt", w1), ("l_knots.txt", lk), ("tau_knots.txt", tk)):
            np.savetxt(d / name, a)
        with h5py.File(d / "hsiao.h5", "w") as f:
            grp = f.create_group("default")
            grp["phase"], grp["wave"], grp["flux"] = ph, wv, h
        kw = {} if case["z"] is None else {"redshift": case["z"]}
        m = BayesnModel(**{name: GivenValueList(v) if case["n"] else v[0] for name, v in (("theta", theta), ("Av", av), ("Rv", rv), ("t0", t0), ("Amplitude", amp))},
                        _M20_model_path=d, hsiao_model_path=d / "hsiao.h5", **kw)
    state = m.sample_parameters(num_samples=n)
    top = min(tk[-1], ph[-1])
    qt = np.concatenate([g.uniform(tk[0], top, 4), tk[tk <= top], ph[(ph >= tk[0]) & (ph <= top)][:3]])
    hi = min(lk[-1], wv[-1])
    qw = np.concatenate([g.uniform(lk[0], hi, 4), lk[lk <= hi], wv[(wv >= lk[0]) & (wv <= hi)][:3]])
    g.shuffle(qt)
    g.shuffle(qw)
    for k in range(n):
        one = state.extract_single_sample(k)
        out = np.asarray(m.compute_sed(qt + t0[k], qw, one))
        warp = natural(tk, natural(lk, w0 + theta[k] * w1)(qw), axis=1)(qt).T
        hs = natural(ph, natural(wv, h, axis=1)(qw))(qt)
        dust = F99(Rv=rv[k]).extinguish(qw * u.AA, Av=av[k])
        ref = fnu(hs * 10 ** (-0.4 * warp) * dust[None, :] * amp[k], qw)
        close(out, ref, rtol=1e-6, atol=1e-7 * np.abs(ref).max(), msg="BayeSN flux")
        times = t0[k] + np.concatenate([g.uniform(-60, 130, 12), [-20.0, 50.0]])
        z = case["z"] or 0.0
        p = (times - t0[k]) / (1 + z)
        same(m.mask_by_time(times, one), (p > -20) & (p < 50), "times of interest")
    rec.nontrivial(case["av"] > 0 and case["theta"] != 0)


@check("C25", fd({"what": st.sampled_from(["bicubic shape", "bicubic 1d", "bicubic short", "bicubic unsorted", "bicubic axis", "colour version", "spline unsorted",
                                          "redback twice", "mask"]), "seed": seeds()}), quick=60)
def refused(case, rec):
    g = np.random.default_rng([case["seed"], 7])
    k = case["what"]
    x, y = np.arange(5.0), np.arange(6.0)
    z = np.ones((5, 6))
    if k == "bicubic shape":
        raises(ValueError, lambda: BicubicInterpolator(x, y, z.T), k)
        raises(ValueError, lambda: BicubicInterpolator(x, y, z[:, :5]), k)
        raises(ValueError, lambda: BicubicInterpolator(x, y, z[:4]), k)
        raises(ValueError, lambda: BicubicInterpolator(x, y, np.ones((6, 6))), k)
    elif k == "bicubic 1d":
        raises(ValueError, lambda: BicubicInterpolator(x, y, z.ravel()), k)
    elif k == "bicubic short":
        raises(ValueError, lambda: BicubicInterpolator(x[:2], y, z[:2]), k)
    elif k == "bicubic unsorted":
        i = int(g.integers(4))
        x[i + 1] = x[i] - float(g.integers(2))
        raises(ValueError, lambda: BicubicInterpolator(x, y, z), k)
    elif k == "bicubic axis":
        raises(ValueError, lambda: BicubicInterpolator(np.ones((5, 1)) * x[:, None], y, z), k)
    elif k == "colour version":
        with tempfile.TemporaryDirectory(prefix="verif_c25_") as d:
            path = os.path.join(d, "cl.dat")
            with open(path, "w") as f:
                f.write(f"1\n0.5\nSalt2ExtinctionLaw.version {int(g.choice([0, 2, 3]))}\n")
            raises(RuntimeError, lambda: SALT2ColorLaw.from_file(path), k)
    elif k == "spline unsorted":
        x[2] = 0.5
        raises(ValueError, lambda: SplineModel(x, y, z), k)
    elif k == "redback twice":
        raises(ValueError, lambda: RedbackWrapperModel(lambda *a, **b: None, parameters={"redshift": 0.5}, redshift=NumpyRandomFunc("uniform")), k)
    else:
        ph, wv, flux, make = series(g, "series")
        raises(ValueError, lambda: SncosmoWrapperModel(make(), t0=0.0).mask_by_time(x), k)
    rec.nontrivial(True)
    rec.label(k)

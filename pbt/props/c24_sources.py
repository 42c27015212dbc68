import os
import tempfile

import numpy as np
from hypothesis import strategies as st
from scipy import constants as sc
from scipy import integrate, stats

from lightcurvelynx.astro_utils.agn_utils import eddington_ratio_dist_fun
from lightcurvelynx.astro_utils.black_body import black_body_luminosity_density_per_solid
from lightcurvelynx.math_nodes.given_sampler import GivenValueList
from lightcurvelynx.models.agn import AGN, sample_damped_random_walk
from lightcurvelynx.models.basic_models import ConstantSEDModel, LinearWavelengthModel, SinWaveModel, StepModel
from lightcurvelynx.models.galaxy_models import GaussianGalaxy
from lightcurvelynx.models.periodic_model import PeriodicModel
from lightcurvelynx.models.periodic_variable_star import EclipsingBinaryStar
from lightcurvelynx.models.static_sed_model import StaticBandfluxModel, StaticSEDModel
from lightcurvelynx.utils.io_utils import write_numpy_data

from .. import sky
from ..core import check, close, describe, known_finding, raises, require, same
from ..gen import fd, fl, gr, logfl, seeds

describe(
    "C24",
    "Cases are built-in analytic sources with generated parameters (constant or one value per sample), queried at random "
    "times and at the special ones (step edges, epochs, phases 0, 1/4, 1/2, 3/4, eclipse contacts, several periods away, "
    "spectrum end points), in any order and with repeats; non-trivial when the source varies over the queried points.",
    [
        "star radii and the semi-axis are in centimetres, as the existing tests pass them (the docstring said AU / solar radii)",
        "AGN light curves are queried at or after their epoch t0 (before it the random walk is not defined)",
        "normalisation of the Eddington ratio distribution: only its power laws and its parameters' distributions are checked",
    ],
)

C = sc.c * 100
H = sc.h * 1e7
KB = sc.k * 1e7
PC = sc.parsec * 100
MSUN = 1.988409870698051e33
G_CGS = sc.G * 1e3
SIGMA = sc.sigma * 1e3


def planck(nu, temp):
    x = H * nu / (KB * temp)
    return 2 * H * nu**3 / C**2 / np.expm1(x)


def per_sample(g, value, n):
    """A constant, or one value per sample, with the values that apply."""
    if n == 0:
        return value, [value]
    vals = [float(value)] + [float(value) * float(g.uniform(0.6, 1.4)) for _ in range(n - 1)]
    return GivenValueList(vals), vals


def run(model, case, times, waves, n):
    if not hasattr(model, "_verif_state"):
        model._verif_state = model.sample_parameters(num_samples=max(n, 1), rng_info=np.random.default_rng([case["seed"], 1]))
    state = model._verif_state
    out = model.evaluate_sed(times, waves, state)
    want = (len(times), len(waves)) if n <= 1 else (n, len(times), len(waves))
    require(np.shape(out) == want, f"shape {np.shape(out)}, not {want}")
    return np.asarray(out).reshape((max(n, 1), len(times), len(waves)))


@check("C24", fd({
    "kind": st.sampled_from(["step", "sine", "linear", "constant"]), "n": st.integers(0, 3), "t0": st.one_of(gr(-50, 50), st.just(60000.5)),
    "a": fl(0.0, 1000.0), "b": fl(-10.0, 500.0), "freq": logfl(-3, 1), "len": fl(-5.0, 60.0), "seed": seeds(),
}), quick=700)
def closed_form(case, rec):
    g = np.random.default_rng([case["seed"], 24])
    if case["seed"] % 3 == 0:
        case = dict(case, freq=-case["freq"])
    n, t0, a, b = case["n"], case["t0"] + float(g.uniform(0, 0.002)), case["a"], case["b"]
    waves = np.sort(g.uniform(2500, 12000, int(g.integers(1, 6))))
    t1 = t0 + case["len"]
    times = np.concatenate([g.uniform(t0 - 80, t0 + 80, 6), [t0, t1, np.nextafter(t0, -np.inf), np.nextafter(t1, np.inf), np.nextafter(t1, -np.inf)],
                            t0 + g.integers(-8, 9, 3) / (4 * case["freq"])])
    g.shuffle(times)
    va, aa = per_sample(g, a, n)
    vb, bb = per_sample(g, b, n)
    kind = case["kind"]
    if kind == "constant":
        m = ConstantSEDModel(brightness=va, t0=t0)
        out = run(m, case, times, waves, n)
        ref = [np.full((len(times), len(waves)), x) for x in aa]
    elif kind == "step":
        m = StepModel(brightness=va, t0=t0, t1=t1)
        out = run(m, case, times, waves, n)
        ref = [np.array([[x if t0 <= t <= t1 else 0.0 for _ in waves] for t in times]) for x in aa]
    elif kind == "sine":
        m = SinWaveModel(brightness=vb, amplitude=va, frequency=case["freq"], t0=t0)
        out = run(m, case, times, waves, n)
        ref = []
        for x, y in zip(aa, bb, strict=True):
            ref.append(np.array([[y + x * np.sin(2 * np.pi * case["freq"] * (t - t0)) for _ in waves] for t in times]))
        # it repeats, and is antisymmetric about the epoch
        u = g.uniform(0.0, 1.0, 3) / case["freq"]
        base = run(m, case, t0 + u, waves, n)
        back = run(m, case, t0 - u, waves, n)
        close(base + back, 2 * np.array(bb)[:, None, None] + 0 * base, rtol=1e-6, atol=1e-6 * (1 + a), msg="antisymmetric about the epoch")
    else:
        lo, hi = (float(waves[0]), float(waves[-1])) if g.integers(2) else (None, None)
        m = LinearWavelengthModel(linear_base=va, linear_scale=vb, min_wave=lo, max_wave=hi, t0=t0)
        out = run(m, case, times, waves, n)
        ref = [np.array([[x + y * w for w in waves] for _ in times]) for x, y in zip(aa, bb, strict=True)]
        require(m.minwave() == lo and m.maxwave() == hi, "limits")
    # phases are multiples of 2 pi frequency (t - t0): their rounding limits the sine
    tol = 1e-9 if kind != "sine" else 1e-7
    close(out, np.array(ref), rtol=tol, atol=tol * (1 + abs(a) + abs(b)), msg=kind)
    out *= -3.0  # a result belongs to the caller
    close(run(m, case, times, waves, n), np.array(ref), rtol=tol, atol=tol * (1 + abs(a) + abs(b)), msg=f"{kind}, evaluated again")
    rec.nontrivial(a > 0 and (kind != "step" or case["len"] > 0))
    rec.label(kind)


# --------------------------------------------------------------------------------- static sources
@check("C24", fd({
    "k": st.integers(1, 4), "weights": st.sampled_from(["none", "given", "zero"]), "form": st.sampled_from(["list", "array", "file"]),
    "ext": st.sampled_from([".npy", ".npz", ".csv", ".txt", ".ecsv"]), "fine": st.booleans(), "seed": seeds(),
}), quick=250)
def static_spectra(case, rec):
    g = np.random.default_rng([case["seed"], 1])
    k = case["k"] if case["form"] == "list" else 1
    seds = []
    for _ in range(k):
        n = int(g.integers(2, 8))
        x = np.sort(g.choice(np.arange(2000, 9000, 7), n, replace=False)).astype(float)
        if case.get("fine"):  # a high-resolution spectrum: steps far below one Angstrom
            x = x[0] + (x - x[0]) / 1000.0
        seds.append(np.vstack([x, np.round(g.uniform(0, 50, n), 2)]))
    before = [s.copy() for s in seds]
    w = None
    if case["weights"] != "none":
        w = np.round(g.uniform(0.1, 3, k), 2)
        if case["weights"] == "zero" and k > 1:
            w[int(g.integers(k))] = 0.0
    if case["form"] == "file":
        with tempfile.TemporaryDirectory(prefix="verif_c24_") as d:
            path = os.path.join(d, "sed" + case["ext"])
            write_numpy_data(path, seds[0].T)
            m = StaticSEDModel.from_file(path, node_label="m")
    elif case["form"] == "array":
        m = StaticSEDModel(seds[0], node_label="m")
    else:
        m = StaticSEDModel(seds, weights=w, node_label="m")
    require(len(m) == k, "number of spectra")
    ns = 60
    state = m.sample_parameters(num_samples=ns, rng_info=np.random.default_rng([case["seed"], 2]))
    sel = np.asarray(state["m"]["selected_idx"], dtype=int)
    p = np.full(k, 1 / k) if w is None else w / w.sum()
    for i in range(k):
        require(stats.binomtest(int((sel == i).sum()), ns, float(p[i])).pvalue > 1e-10 if 0 < p[i] < 1 else (sel == i).sum() == ns * p[i], "chosen by weight")
    times = g.uniform(0, 10, 3)
    for i in np.unique(sel):
        one = state.extract_single_sample(int(np.flatnonzero(sel == i)[0]))
        x, y = before[i]
        waves = np.concatenate([x, g.uniform(x[0], x[-1], 6), [np.nextafter(x[0], np.inf), np.nextafter(x[-1], 0)], [x[0] - 1, x[-1] + 1, x[0] - 900.0, x[-1] + 2000.0]])
        g.shuffle(waves)
        want = np.zeros(len(waves))
        for j, v in enumerate(waves):
            if x[0] <= v <= x[-1]:
                b = min(max(int(np.searchsorted(x, v, side="right")), 1), len(x) - 1)
                u = (v - x[b - 1]) / (x[b] - x[b - 1])
                want[j] = y[b - 1] * (1 - u) + y[b] * u
        for out in (m.compute_sed(times, waves, one), m.evaluate_sed(times, waves, one)):
            require(out.shape == (3, len(waves)), "shape")
            close(out, np.tile(want, (3, 1)), rtol=1e-9, atol=1e-9 * y.max(), msg="spectrum")
        require(m.minwave(one) == x[0] and m.maxwave(one) == x[-1], "wavelength limits of the selected spectrum")
    require(all(np.array_equal(a, b) for a, b in zip(seds, before, strict=True)), "input not modified")
    rec.nontrivial(k > 1 or case["form"] != "list")


@check("C24", fd({"k": st.integers(1, 4), "weights": st.booleans(), "dict": st.booleans(), "seed": seeds()}), quick=200)
def static_bandfluxes(case, rec):
    g = np.random.default_rng([case["seed"], 3])
    k = 1 if case["dict"] else case["k"]
    # names of which one begins or ends with another
    names = (list("ugrizy") if case["seed"] % 2 else ["r", "r_2", "LSST_r", "g", "gr", "R"])[: int(g.integers(1, 7))]
    vals = [{f: float(np.round(g.uniform(-2, 50), 3)) for f in names} for _ in range(k)]
    w = np.round(g.uniform(0.1, 3, k), 2) if case["weights"] else None
    m = StaticBandfluxModel(vals[0] if case["dict"] else vals, weights=w, node_label="m")
    require(len(m) == k, "number of entries")
    state = m.sample_parameters(num_samples=40, rng_info=np.random.default_rng([case["seed"], 2]))
    n = int(g.integers(1, 15))
    times = g.uniform(0, 100, n)
    filters = g.choice(np.array(names), n)
    out = np.asarray(m.evaluate_bandfluxes(None, times, filters, state))
    require(out.shape == (40, n), "shape")
    for i in range(40):
        sel = int(state["m"]["selected_idx"][i])
        close(out[i], np.array([vals[sel][f] for f in filters]), rtol=1e-12, msg="band flux")
    # entries with different filters: only those of the selected entry exist
    vals = [{f: v for f, v in d.items() if g.random() < 0.6 or f == names[0]} for d in vals]
    m = StaticBandfluxModel(vals[0] if case["dict"] else vals, weights=w, node_label="m")
    state = m.sample_parameters(num_samples=20, rng_info=np.random.default_rng([case["seed"], 2]))
    for i in range(20):
        one = state.extract_single_sample(i)
        have = vals[int(one["m"]["selected_idx"])]
        for f in names:
            ask = lambda: m.evaluate_bandfluxes(None, np.array([1.0, 2.0]), np.array([f, names[0]]), one)  # noqa: B023, E731
            if f in have:
                close(ask(), np.array([have[f], have[names[0]]]), rtol=1e-12, msg="band flux of the selected entry")
            else:
                raises((KeyError, ValueError), ask, f"filter {f} missing in the selected entry")
    rec.nontrivial(k > 1)


# --------------------------------------------------------------------------------- galaxy profile
@check("C24", fd({
    "ra": st.one_of(gr(0, 360), st.sampled_from([0.0, 359.9999])), "dec": st.one_of(gr(-89.9, 89.9), st.sampled_from([0.0, 89.99, -90.0])),
    "std": logfl(-5, 0), "b": fl(0.1, 500.0), "n": st.integers(0, 2), "seed": seeds(),
}), quick=300)
def galaxy(case, rec):
    g = np.random.default_rng([case["seed"], 4])
    vb, bb = per_sample(g, case["b"], case["n"])
    std = case["std"]
    m = GaussianGalaxy(brightness=vb, radius=std, ra=case["ra"], dec=case["dec"])
    times = g.uniform(0, 10, int(g.integers(1, 4)))
    waves = np.sort(g.uniform(3000, 9000, int(g.integers(1, 4))))
    state = m.sample_parameters(num_samples=max(1, case["n"]), rng_info=np.random.default_rng(0))

    def at(r, ang):
        """The brightness at a separation and position angle from the centre."""
        d0, r_, a_ = np.radians([case["dec"], r, ang])
        dec = np.degrees(np.arcsin(np.clip(np.sin(d0) * np.cos(r_) + np.cos(d0) * np.sin(r_) * np.cos(a_), -1, 1)))
        ra = case["ra"] + np.degrees(np.arctan2(np.sin(a_) * np.sin(r_) * np.cos(d0), np.cos(r_) - np.sin(d0) * np.sin(np.radians(dec))))
        ra %= 360.0
        r = float(sky.separation(case["ra"], case["dec"], ra, dec))
        out = np.asarray(m.evaluate_sed(times, waves, state, ra=ra, dec=dec))
        return out.reshape(max(1, case["n"]), len(times), len(waves)), r

    full = np.array(bb)[:, None, None] + np.zeros((max(1, case["n"]), len(times), len(waves)))
    close(np.asarray(m.evaluate_sed(times, waves, state)).reshape(full.shape), full, rtol=1e-12, msg="no position given: the central brightness")
    close(np.asarray(m.evaluate_sed(times, waves, state, ra=case["ra"], dec=case["dec"])).reshape(full.shape), full, rtol=1e-9, msg="central brightness")
    for _ in range(3):
        r = float(g.uniform(0, min(4 * std, 20.0)))
        a = float(g.uniform(0, 360))
        # near the poles the coordinates round to a slightly different place: the reference uses the rounded ones
        out, r2 = at(r, a)
        require(abs(r2 - r) < 1e-4 * std + 1e-6, "harness: offset")
        want = full * np.exp(-0.5 * (r2 / std) ** 2)
        close(out, want, rtol=1e-6 + 1e-12 * 4 / std, atol=1e-12, msg="Gaussian profile")
    rec.nontrivial(True)


# ---------------------------------------------------------------------------------------- periodic
class Phased(PeriodicModel):
    """A periodic source defined by the harness: it returns the phase."""

    def _evaluate_phases(self, phases, wavelengths, graph_state, **kwargs):
        require(np.all((phases >= 0) & (phases <= 1)), "phases between 0 and 1")
        return np.asarray(phases)[:, None] + np.zeros((1, len(wavelengths)))


@check("C24", fd({"period": logfl(-3, 3), "t0": st.one_of(gr(-100, 100), st.just(60000.25)), "seed": seeds()}), quick=250)
def periodic(case, rec):
    g = np.random.default_rng([case["seed"], 5])
    period, t0 = case["period"], case["t0"]
    m = Phased(period=period, t0=t0)
    ph = np.concatenate([g.uniform(0, 1, 6), [0.25, 0.5, 0.75]])
    k = g.integers(-6, 7, len(ph))
    order = g.permutation(len(ph))
    out = m.evaluate_sed((t0 + (ph + k) * period)[order], np.array([4000.0, 5000.0]), m.sample_parameters())
    d = np.abs(out - ph[order][:, None])
    tol = 1e-10 + 1e-15 * 10 * (abs(t0) + 8 * period) / period
    require(np.all(np.minimum(d, 1 - d) <= tol), "phase")
    rec.nontrivial(np.any(k < 0) and np.any(k > 0))


def overlap(d, r1, r2):
    """Area common to two circles: sum of two circular segments."""
    if d >= r1 + r2:
        return 0.0
    if d <= abs(r1 - r2):
        return np.pi * min(r1, r2) ** 2
    h1 = (d * d + r1 * r1 - r2 * r2) / (2 * d)
    area = 0.0
    for r, h in ((r1, h1), (r2, d - h1)):
        u = min(1.0, max(-1.0, h / r))
        area += r * r * (np.arctan2(np.sqrt(1 - u * u), u) - u * np.sqrt(1 - u * u))
    return area


@check("C24", fd({
    "r1": gr(0.2, 5.0), "ratio": st.one_of(gr(0.1, 1.0), st.just(1.0)), "swap": st.booleans(), "a": gr(1.05, 8.0),
    "incl": st.one_of(gr(60.0, 90.0), st.sampled_from([90.0, 0.0, 89.0]), gr(0, 180)), "t1": gr(2500, 20000), "t2": gr(2500, 20000), "period": logfl(-1, 2),
    "t0": st.sampled_from([0.0, 3.25, 60000.0]), "d": logfl(0, 3), "contact": st.booleans(), "seed": seeds(),
}), quick=500)
def eclipses(case, rec):
    g = np.random.default_rng([case["seed"], 6])
    sun = 6.957e10
    r1 = case["r1"] * sun
    r2 = r1 * case["ratio"]
    a = (r1 + r2) * case["a"]
    incl = case["incl"]
    if case["contact"]:
        # stars such that the eclipse at phase 0 is just total: the distance is the difference of the radii
        incl = float(g.uniform(70.0, 89.5))
        a = 2 * r1 * case["a"]  # detached, whatever the second radius becomes
        d0 = float(a * np.hypot(np.cos(np.radians(incl)) * np.cos(0.0), np.sin(0.0)))
        if d0 < r1:
            r2 = r1 - d0
            for _ in range(int(g.integers(0, 4))):
                r2 = np.nextafter(r2, np.inf)
    if case["swap"]:
        r1, r2 = r2, r1
    t1, t2, period, t0 = case["t1"], case["t2"], case["period"], case["t0"]

    def star(**kw):
        p = {"period": period, "t0": t0, "distance": case["d"], "major_semiaxis": a, "inclination": incl, "primary_radius": r1, "secondary_radius": r2,
             "primary_temperature": t1, "secondary_temperature": t2}
        p.update(kw)
        return EclipsingBinaryStar(**p)

    m = star()
    ph = np.concatenate([[0.0, 0.5, 0.25, 0.75], g.uniform(0, 1, 6), g.uniform(-0.05, 0.05, 4) % 1, g.uniform(0.45, 0.55, 4)])
    waves = np.sort(g.uniform(2500, 12000, 3))
    nu = C / (waves * 1e-8)
    norm = np.pi / (case["d"] * PC) ** 2 * 1e32
    l1 = planck(nu, t1) * r1**2 * norm
    l2 = planck(nu, t2) * r2**2 * norm
    k = g.integers(-3, 4, len(ph))
    k[:4] = 0
    out = m.evaluate_sed(t0 + (ph + k) * period, waves, m.sample_parameters())
    # the phase is recovered from the time: its rounding moves the stars
    dph = 1e-15 * (abs(t0) / period + 8) * 4
    ci = np.cos(np.radians(incl))
    want = np.empty_like(out)
    slack = np.empty(len(ph))
    for i, p in enumerate(ph):
        # positions on the orbit: x towards the observer, (y, z) on the sky
        z, y = ci * np.cos(2 * np.pi * p), np.sin(2 * np.pi * p)
        d = a * np.sqrt(y * y + z * z)
        area = overlap(d, r1, r2)
        slack[i] = max(abs(overlap(d + a * s * (7 * dph + 1e-14), r1, r2) - area) for s in (-1, 1)) / (np.pi * min(r1, r2) ** 2)
        if p < 0.25 or p > 0.75:
            want[i] = l1 * max(0.0, 1 - area / (np.pi * r1**2)) + l2
        else:
            want[i] = l1 + l2 * max(0.0, 1 - area / (np.pi * r2**2))
    total = l1 + l2
    err = np.abs(out - want)
    tol = (1e-6 + 1.5 * slack[:, None]) * total
    # at quadrature the stars are apart unless they touch; which one is in front does not matter
    bad = err > tol
    require(not bad.any(), f"light curve: phases {ph[bad.any(axis=1)]}, got {out[bad][:3]}, expected {want[bad][:3]}")
    require(np.all(out <= total * (1 + 1e-6)), "never brighter than the pair")
    conj = np.minimum(out[0], out[1])
    require(np.all(out >= conj * (1 - 1e-6) - 1e-6 * total), "deepest at conjunction")
    # symmetric about the conjunctions
    u = g.uniform(0, 0.5, 5)
    x = m.evaluate_sed(t0 + u * period, waves, m.sample_parameters())
    y = m.evaluate_sed(t0 - u * period, waves, m.sample_parameters())
    far = np.array([max(abs(overlap(a * np.hypot(ci * np.cos(2 * np.pi * (q + s * dph)), np.sin(2 * np.pi * (q + s * dph))), r1, r2)
                            - overlap(a * np.hypot(ci * np.cos(2 * np.pi * q), np.sin(2 * np.pi * q)), r1, r2)) for s in (-1, 1)) for q in u])
    require(np.all(np.abs(x - y) <= (1e-6 + 4 * far[:, None] / (np.pi * min(r1, r2) ** 2)) * total), "symmetric about conjunction")
    # distance and size
    s = float(g.uniform(0.3, 4))
    far_ = star(distance=case["d"] * s)
    close(far_.evaluate_sed(t0 + ph[:8] * period, waves, far_.sample_parameters()) * s * s, m.evaluate_sed(t0 + ph[:8] * period, waves, m.sample_parameters()), rtol=1e-9, msg="inverse square of the distance")
    rec.nontrivial(bool((np.abs(out / total - 1) > 1e-3).any()))
    rec.label("contact" if case["contact"] else "general", "eclipse" if (np.abs(out / total - 1) > 1e-3).any() else "no eclipse")


@check("C24", fd({"t": logfl(2, 5), "r": logfl(8, 12), "seed": seeds()}), quick=150)
def black_body(case, rec):
    g = np.random.default_rng([case["seed"], 7])
    t, r = case["t"], case["r"]
    waves = 10.0 ** g.uniform(-6, 1, 8)
    waves[0] = 0.28978 / t
    out = black_body_luminosity_density_per_solid(t, r, waves)
    nu = C / waves
    with np.errstate(over="ignore"):
        want = np.pi * r**2 * planck(nu, t)
    x = H * nu / (KB * t)
    ok = x < 600
    close(out[ok], want[ok], rtol=1e-7 * np.maximum(1, x[ok].max()), msg="Planck's law")
    require(np.all(out >= 0) and np.all(np.isfinite(out)), "finite, not negative")
    close(black_body_luminosity_density_per_solid(t, 2.5 * r, waves), 6.25 * out, rtol=1e-12, msg="radius squared")
    # total: sigma T^4 r^2
    lg = np.linspace(np.log(KB * t / H * 1e-5), np.log(KB * t / H * 100), 4001)
    f = black_body_luminosity_density_per_solid(t, r, C / np.exp(lg))
    close(integrate.trapezoid(f * np.exp(lg), lg), SIGMA * t**4 * r**2, rtol=1e-6, msg="Stefan-Boltzmann law")
    rec.nontrivial(ok.sum() > 3)


# --------------------------------------------------------------------------------------------- AGN
def agn(case, g, **kw):
    p = {"t0": case["t0"], "blackhole_mass": case["mass"], "edd_ratio": case["edd"], "redshift": case["z"], "node_label": "agn"}
    if case["distance"] is None:
        p["cosmology"] = "Planck18"
    else:
        p["distance"] = case["distance"]
    p.update(kw)
    return AGN(**p)


AGNS = {
    "t0": st.sampled_from([0.0, 100.0, 60000.0]), "mass": logfl(5, 10), "edd": st.one_of(gr(0.01, 2.0), logfl(-4, -1)),
    "z": st.one_of(gr(0.01, 4.0), st.just(0.0)), "distance": st.one_of(logfl(6, 10), st.none()), "seed": seeds(),
}


def disk(mass, rate, incl, dist_pc, waves):
    """A standard thin disk (T ~ r^(-3/4)) from the inner radius outwards, integrated over radius."""
    m = mass * MSUN
    rin = 6 * G_CGS * m / C**2
    r0 = rin * 49 / 36
    temp0 = 2**0.75 * (3 / 7) ** 1.75 * (G_CGS * m * rate / (np.pi * SIGMA * rin**3)) ** 0.25
    out = []
    for w in waves:
        nu = C / (w * 1e-8)

        def ring(lr, nu=nu):
            r = np.exp(lr)
            return planck(nu, temp0 * (r / r0) ** -0.75) * 2 * np.pi * r * r

        # from the inner edge to where the ring is 300 times too cold to emit
        hi = np.log(r0) + 4 / 3 * np.log(300 / (H * nu / (KB * temp0)))
        lo = np.log(rin)
        x = np.linspace(lo, max(hi, lo + 0.1), 3001)
        with np.errstate(over="ignore"):
            y = ring(x)
        out.append(integrate.simpson(np.where(np.isfinite(y), y, 0), x=x) * np.cos(incl) / (dist_pc * PC) ** 2 * 1e32)
    return np.array(out)


@check("C24", fd(AGNS), quick=120)
def accretion(case, rec):
    g = np.random.default_rng([case["seed"], 8])
    if case["distance"] is None and case["z"] == 0:
        case = dict(case, z=0.5)  # no distance at redshift zero
    m = agn(case, g)
    n = 5
    state = m.sample_parameters(num_samples=n, rng_info=np.random.default_rng([case["seed"], 1]))["agn"]
    mass, edd = case["mass"], case["edd"]
    col = lambda k: np.asarray(state[k], dtype=float)  # noqa: E731
    for k, v in (("blackhole_mass_gram", mass * MSUN), ("critical_accretion_rate", 1.4e18 * mass), ("blackhole_accretion_rate", 1.4e18 * mass * edd),
                 ("bolometric_luminosity", 1.26e38 * mass * edd), ("mag_i", 90 - 2.5 * np.log10(1.26e38 * mass * edd))):
        close(col(k), np.full(n, v), rtol=1e-6, msg=k)
    mi = 90 - 2.5 * np.log10(1.26e38 * mass * edd)
    close(col("sf_inf_4000aa"), np.full(n, 10 ** (-0.476 + 0.118 * (mi + 23) + 0.118 * np.log10(mass / 1e9))), rtol=1e-6, msg="structure function")
    close(col("tau_4000aa"), np.full(n, 10 ** (2.597 + 0.035 * (mi + 23) + 0.141 * np.log10(mass / 1e9))), rtol=1e-6, msg="time scale")
    inc = col("inclination_rad")
    require(np.all((inc >= 0) & (inc <= np.pi / 2)) and len(np.unique(inc)) == n, "inclination")
    # the wavelength dependence of the variability
    for fn, name, index, wrong in ((AGN.compute_structure_function_at_inf, "structure function", -0.479, 10**-0.479), (AGN.compute_tau, "time scale", 0.17, 10**0.17)):
        w = g.uniform(1000, 12000, 4) * 1e-8
        v = float(g.uniform(0.01, 300))
        out = fn(v, w)
        if np.allclose(out, v * (w / 4e-5) ** index, rtol=1e-9):
            continue
        close(out, v * wrong * w / 4e-5, rtol=1e-9, msg=name)
        known_finding(rec, "agn-wavelength-" + name.split()[0], "not a power law normalised at 4000 A")
    # the spectrum: a thin disk seen under the inclination, dimmed by the walk in magnitudes
    waves = g.uniform(1500, 10000, 3)
    z = case["z"]
    times = case["t0"] + np.array([5.0, 11.0, 40.0]) * (1 + z)
    for i in range(2):
        full = m.sample_parameters(num_samples=n, rng_info=np.random.default_rng([case["seed"], 1])).extract_single_sample(i)
        dist = float(full["agn"]["distance"])
        quiet = AGN.compute_sed_standard_disk(Mdot=1.4e18 * mass * edd, nu=C / (waves * 1e-8), rin_to_rg=6.0, i=inc[i], d=dist * PC, M=mass * MSUN)
        ref = disk(mass, 1.4e18 * mass * edd, inc[i], dist, waves)
        close(quiet, ref, rtol=2e-3, atol=1e-6 * ref.max(), msg="standard disk")
        rest = m.compute_sed(np.array([5.0, 11.0, 40.0]) + case["t0"], waves, full, rng=np.random.default_rng([case["seed"], 3]))
        obs = m.evaluate_sed(times, waves * (1 + z), full, rng_info=np.random.default_rng([case["seed"], 3]))
        mag = -2.5 * np.log10(rest / quiet)
        w_cm = waves * 1e-8
        sf = AGN.compute_structure_function_at_inf(full["agn"]["sf_inf_4000aa"], w_cm)
        tau = AGN.compute_tau(full["agn"]["tau_4000aa"], w_cm)
        walk = sample_damped_random_walk(np.array([5.0, 11.0, 40.0]) + case["t0"], tau, sf, case["t0"], rng=np.random.default_rng([case["seed"], 3]))
        close(mag, walk, rtol=1e-6, atol=1e-8, msg="variability in magnitudes about the disk spectrum")
        # redshifted source: same spectrum in the rest frame (energies scaled by 1 + z); the times carry their rounding
        close(obs, rest * (1 + z), rtol=1e-5, atol=1e-9 * rest.max(), msg="redshifted source") if case["z"] > 0 else close(obs, rest, rtol=1e-9, msg="source")
    # scaling relations between two sources
    f = float(g.uniform(1.5, 8))
    a = disk_flux(mass, edd, 0.3, 1e8, waves)
    close(disk_flux(mass, edd, 0.3, 1e8 * f, waves) * f**2, a, rtol=1e-6, msg="inverse square law")
    close(disk_flux(mass, edd, 1.2, 1e8, waves), a * np.cos(1.2) / np.cos(0.3), rtol=1e-6, msg="projected area")
    rec.nontrivial(True)


def disk_flux(mass, edd, incl, dist_pc, waves):
    rate = AGN.compute_blackhole_accretion_rate(AGN.compute_critical_accretion_rate(mass * MSUN), edd)
    return AGN.compute_sed_standard_disk(Mdot=rate, nu=C / (waves * 1e-8), rin_to_rg=6.0, i=incl, d=dist_pc * PC, M=mass * MSUN)


def reference_walk(times, tau, sf, t0, draw, moving):
    out = np.zeros((len(times), len(tau)))
    t = t0
    x = draw() * sf
    for i, now in enumerate(times):
        q = np.exp(-(now - t) / tau)
        x = x * q + sf * np.sqrt(1 - q * q) * draw()
        out[i] = x
        if moving:
            t = now
    return out


@check("C24", fd({"n": st.integers(1, 12), "w": st.integers(1, 4), "t0": st.sampled_from([0.0, 100.0, -20.0]), "seed": seeds()}), quick=250)
def random_walk(case, rec):
    g = np.random.default_rng([case["seed"], 9])
    n, w, t0 = case["n"], case["w"], case["t0"]
    times = t0 + np.cumsum(g.integers(1, 400, n) / 16)
    tau = g.uniform(2, 400, w)
    sf = g.uniform(0.01, 0.5, w)

    def walk(times=times, tau=tau, sf=sf, t0=t0):
        return sample_damped_random_walk(times, tau, sf, t0, rng=np.random.default_rng(case["seed"]))

    out = walk()
    require(out.shape == (n, w), "shape")
    rng = np.random.default_rng(case["seed"])
    right = reference_walk(times, tau, sf, t0, rng.normal, True)
    if not np.allclose(out, right, rtol=1e-7, atol=1e-9):
        rng = np.random.default_rng(case["seed"])
        close(out, reference_walk(times, tau, sf, t0, rng.random, False), rtol=1e-7, atol=1e-9, msg="random walk")
        known_finding(rec, "agn-random-walk", "steps counted from t0, uniform positive steps")
    same(walk(), out, "same stream, same walk")
    close(walk(sf=3 * sf), 3 * out, rtol=1e-9, msg="scales with the structure function")
    close(walk(times=times + 512.0, t0=t0 + 512.0), out, rtol=1e-7, atol=1e-9, msg="depends on the time since t0")
    close(walk(times=times * 4, tau=tau * 4, t0=t0 * 4), out, rtol=1e-7, atol=1e-9, msg="time in units of the time scale")
    j = int(g.integers(w))
    close(walk(tau=tau[j:j + 1], sf=sf[j:j + 1]), out[:, j:j + 1], rtol=1e-9, msg="wavelengths share the steps")
    if n > 1:
        bad = times.copy()
        i = int(g.integers(n - 1))
        bad[i], bad[i + 1] = bad[i + 1], bad[i]
        try:
            walk(times=bad)
            # only a time at or before t0 is noticed while the clock stays at t0
            known_finding(rec, "agn-unsorted-times", "unsorted times after t0 are accepted")
        except ValueError:
            pass
        raises(ValueError, lambda: walk(times=np.concatenate([[t0 + 1], [t0 - 1]])), "times before t0")
    raises(ValueError, lambda: walk(tau=np.append(tau, 1.0)), "lengths")
    rec.nontrivial(n > 1)


@check("C24", fd({"type": st.sampled_from(["Blue", "red", "BLUE", "Red"]), "seed": seeds()}), quick=25)
def eddington(case, rec):
    """The two power laws and the distribution of their parameters, drawn anew for every sample."""
    n = 2000
    f = lambda e: np.asarray(eddington_ratio_dist_fun(e, case["type"], np.random.default_rng(case["seed"]), n))  # noqa: E731
    red = case["type"].lower() == "red"
    far, near = 1e30, 1e-30
    hi = np.log10(f(far * 10)) - np.log10(f(far))
    lo = np.log10(f(near)) - np.log10(f(near / 10))
    d1, d2 = (0.41 - 0.7, 1.22) if red else (0.471 - 0.7, 2.53)
    s1, s2 = (0.02, 0.16) if red else (0.02, 0.53)
    sign = 1 if np.median(hi) > 0 else -1
    # with small slopes the other law may win: compare the medians only
    for got, mean, sd in ((hi * sign, d2, s2), (lo * sign, d1, s1)):
        p = stats.kstest(got, stats.norm(mean, sd).cdf).pvalue if sd < 0.3 else 1.0
        require(p > 1e-9 and abs(np.median(got) - mean) < 6 * 1.3 * sd / np.sqrt(n) + 1e-6, f"slope {np.median(got)} not {mean}")
    # amplitude and break: both laws, extrapolated, meet at the break with the amplitude
    lf, ln = np.log10(f(far)), np.log10(f(near))
    brk = (ln - lf + hi * 30 + lo * 30) / (hi - lo)
    amp = lf - hi * (30 - brk)
    ok = (hi - lo) * sign > 0.5
    close(amp[ok], np.full(ok.sum(), -2.13 if red else -1.65), rtol=0, atol=1e-4, msg="amplitude")
    m_, s_ = (-2.81, 0.18) if red else (-1.84, 0.335)
    require(stats.kstest(brk[ok], stats.norm(m_, s_).cdf).pvalue > 1e-9, "break")
    one = eddington_ratio_dist_fun(0.5, case["type"], np.random.default_rng(case["seed"]))
    require(np.ndim(one) == 0, "one sample is a number")
    raises(ValueError, lambda: eddington_ratio_dist_fun(0.5, "green"), "unknown type")
    rec.nontrivial(True)


@check("C24", fd({"what": st.sampled_from(["shape", "type", "short", "unsorted", "file shape", "agn redshift", "agn distance", "star distance", "filter"]), "seed": seeds()}), quick=60)
def refused(case, rec):
    g = np.random.default_rng([case["seed"], 10])
    k = case["what"]
    x = np.array([[3000.0, 4000.0, 5000.0], [1.0, 2.0, 3.0]])
    if k == "shape":
        raises(ValueError, lambda: StaticSEDModel([x, x.T]), k)
    elif k == "type":
        raises(ValueError, lambda: StaticSEDModel([x.tolist()]), k)
    elif k == "short":
        raises(ValueError, lambda: StaticSEDModel([x, x[:, :1]]), k)
    elif k == "unsorted":
        i = int(g.integers(2))
        x[0, i + 1] = x[0, i] - float(g.integers(2))
        raises(ValueError, lambda: StaticSEDModel([np.ones((2, 3)) * [[1], [1]] + [[0, 1, 2], [0, 0, 0]], x]), k)
    elif k == "file shape":
        with tempfile.TemporaryDirectory(prefix="verif_c24_") as d:
            path = os.path.join(d, "a.npy")
            np.save(path, x)
            raises(ValueError, lambda: StaticSEDModel.from_file(path), k)
    elif k == "agn redshift":
        raises(ValueError, lambda: AGN(t0=0.0, blackhole_mass=1e9, edd_ratio=0.1, distance=1e6), k)
    elif k == "agn distance":
        raises(ValueError, lambda: AGN(t0=0.0, blackhole_mass=1e9, edd_ratio=0.1, redshift=0.1), k)
    elif k == "star distance":
        raises(ValueError, lambda: EclipsingBinaryStar(period=1.0, t0=0.0, major_semiaxis=1e12, inclination=90.0, primary_radius=1e11, secondary_radius=1e11,
                                                       primary_temperature=5e3, secondary_temperature=4e3), k)
    else:
        m = StaticBandfluxModel({"g": 1.0})
        raises((KeyError, ValueError), lambda: m.evaluate_bandfluxes(None, np.array([1.0, 2.0]), np.array(["g", "r"]), m.sample_parameters()), k)
    rec.nontrivial(True)
    rec.label(k)

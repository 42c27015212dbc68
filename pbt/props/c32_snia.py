import math

import numpy as np
from astropy.cosmology import FlatLambdaCDM
from hypothesis import strategies as st
from scipy import integrate, special, stats

from lightcurvelynx.astro_utils.snia_utils import (
    DistModFromRedshift,
    HostmassX1Distr,
    HostmassX1Func,
    SNCoordGivenPhysicalSep,
    X0FromDistMod,
    num_snia_per_redshift_bin,
    snia_volumetric_rates,
)
from lightcurvelynx.base_models import FunctionNode
from lightcurvelynx.math_nodes.given_sampler import GivenValueList
from lightcurvelynx.math_nodes.np_random import NumpyRandomFunc
from lightcurvelynx.models.basic_models import ConstantSEDModel
from lightcurvelynx.models.snia_host import SNIaHost

from ..core import check, close, describe, raises, require, same
from ..gen import fd, gr, seeds

describe(
    "C32",
    "Cases are supernova populations (redshifts, host masses on both sides of and exactly at 10, positions including poles and "
    "the 0/360 meridian, separations from 0 to hundreds of kpc, flat cosmologies) sampled through the graph, and rate tables with "
    "random ranges, bin counts, solid angles and cosmologies; distances, angles, volumes and distributions are recomputed "
    "independently (own quadrature, vector geometry, closed-form distribution functions); non-trivial when at least two samples or "
    "bins are involved.",
    ["cosmologies are flat LambdaCDM without radiation, as documented", "redshifts are positive",
     "rate integrals are compared at the accuracy of 50-point trapezoids per bin"],
)

C_KMS = 299792.458


def comoving(z, H0, Om):
    """Comoving distance in Mpc by own quadrature."""
    v, _ = integrate.quad(lambda x: 1 / math.sqrt(Om * (1 + x) ** 3 + 1 - Om), 0, z, epsabs=0, epsrel=1e-11, limit=200)
    return C_KMS / H0 * v


def unit(ra, dec):
    ra, dec = np.radians(ra), np.radians(dec)
    return np.array([np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec)])


def separation(ra1, dec1, ra2, dec2):
    a, b = unit(ra1, dec1), unit(ra2, dec2)
    return math.atan2(np.linalg.norm(np.cross(a, b)), float(a @ b))


def position_angle(ra1, dec1, ra2, dec2):
    r = math.radians(ra2 - ra1)
    d1, d2 = math.radians(dec1), math.radians(dec2)
    return math.atan2(math.sin(r) * math.cos(d2), math.cos(d1) * math.sin(d2) - math.sin(d1) * math.cos(d2) * math.cos(r)) % (2 * math.pi)


def column(v, kind):
    """A parameter source giving the listed values, one per sample (constant when there is a single value)."""
    if kind == "constant":
        return float(v[0])
    if kind == "node":
        return GivenValueList([float(x) for x in v])
    return np.array(v, dtype=float)


COSMO = {"H0": gr(50, 90), "Om": gr(0.05, 0.95)}
N = st.sampled_from([3, 1, 2, 8])
SRC = st.sampled_from(["node", "constant"])


def drawn(rng, n, src, lo, hi, pow10=False):
    v = rng.uniform(lo, hi, n)
    v = 10.0**v if pow10 else v
    return np.full(n, v[0]) if src == "constant" else v


def result(node, state, name="function_node_result"):
    return np.atleast_1d(np.asarray(node.get_param(state, name), dtype=float))


@check("C32", fd({**COSMO, "n": N, "seed": seeds(), "z": SRC, "x1": SRC, "c": SRC, "coef": SRC}), quick=200)
def tripp(case, rec):
    """Distance modulus and brightness of every sample from its own redshift, stretch, colour and coefficients."""
    rng = np.random.default_rng([case["seed"], 32])
    n = case["n"]
    z = drawn(rng, n, case["z"], -5 if case["seed"] % 2 else -3, 0.7, True)
    x1, c = drawn(rng, n, case["x1"], -4, 4), drawn(rng, n, case["c"], -0.4, 0.6)
    alpha, beta, mabs = (drawn(rng, n, case["coef"], *r) for r in ((0, 0.4), (0, 5), (-20, -18)))
    H0, Om = float(case["H0"]), float(case["Om"])
    if case["seed"] % 3 == 0:  # a whole number, or a number from a numpy computation
        H0 = int(H0) if case["seed"] % 2 else np.int64(H0)
    dm = DistModFromRedshift(column(z, case["z"]), H0=H0, Omega_m=Om, node_label="dm")
    x0 = X0FromDistMod(distmod=dm, x1=column(x1, case["x1"]), c=column(c, case["c"]), alpha=column(alpha, case["coef"]),
                       beta=column(beta, case["coef"]), m_abs=column(mabs, case["coef"]), node_label="x0")
    state = x0.sample_parameters(num_samples=n)
    mu = np.broadcast_to(result(dm, state), (n,))
    bright = np.broadcast_to(result(x0, state), (n,))
    want = np.array([5 * math.log10(comoving(v, H0, Om) * (1 + v) * 1e5) for v in z])
    close(mu, want, rtol=0, atol=2e-8, msg="distance modulus")
    close(bright, 10 ** (-0.4 * (want - alpha * x1 + beta * c + mabs - 10.635)), rtol=1e-7, msg="brightness")
    require(np.all(bright > 0), "non-positive brightness")
    close(-2.5 * np.log10(bright) + alpha * x1 - beta * c - mabs + 10.635, mu, rtol=0, atol=1e-9, msg="Tripp relation solved for the distance")
    order = np.argsort(z)
    require(np.all(np.diff(mu[order])[np.diff(z[order]) > 1e-9] > 0), "distance modulus does not grow with redshift")
    rec.label(f"z {case['z']}", f"coef {case['coef']}", f"n={n}")
    if n > 1:
        rec.nontrivial()


def cdf_low(x):
    """Stretch distribution for hosts below 10: density exp(-min(0,x)^2) phi(x) on (-5, 5), by closed forms."""
    s = math.sqrt(3.0)
    neg = lambda t: 0.5 * (special.erf(t * s / math.sqrt(2)) - special.erf(-5 * s / math.sqrt(2))) / s  # noqa: E731
    pos = lambda t: 0.5 * special.erf(t / math.sqrt(2))  # noqa: E731
    total = neg(0.0) + pos(5.0)
    x = np.clip(np.asarray(x, dtype=float), -5, 5)
    return np.where(x < 0, neg(np.minimum(x, 0)), neg(0.0) + pos(np.maximum(x, 0))) / total


@check("C32", fd({"seed": seeds(), "mass": st.sampled_from(["near", "both", "edge", "low", "high", "constant low", "constant high", "constant ten", "sampled", "host"]), "rng": st.booleans()}), quick=24)
def stretch(case, rec):
    """Stretch values follow the distribution of their own host's mass class (exactly 10 counts as high)."""
    rng = np.random.default_rng([case["seed"], 33])
    n, kind = 600, case["mass"]
    if kind.startswith("constant"):
        mass = {"constant low": 9.5, "constant high": 10.5, "constant ten": 10.0}[kind]
    elif kind == "sampled":
        mass = NumpyRandomFunc("uniform", low=8, high=12, seed=case["seed"] % 1000)
    else:
        pool = {"both": [7.5, 9.9, 10.1, 12.0], "near": [9.996, 9.9996, 10.0004, 10.004, 10.0], "edge": [10.0, float(np.nextafter(10, 0))], "low": [6.0, 9.99], "high": [10.0, 11.5], "host": [8.0, 11.0]}[kind]
        mass = GivenValueList([float(v) for v in rng.choice(pool, n)])
    if kind == "host":
        host = SNIaHost(hostmass=mass, ra=1.0, dec=2.0, redshift=0.1)
        mass = host.hostmass
    node = HostmassX1Func(mass, seed=case["seed"] % 100000)
    state = node.sample_parameters(num_samples=n, rng_info=np.random.default_rng([case["seed"], 3]) if case["rng"] else None)
    x1, hm = result(node, state), np.broadcast_to(result(node, state, "hostmass"), (n,))
    require(x1.shape == (n,), f"{x1.shape} values for {n} samples")
    require(np.all(np.isfinite(x1)) and len(np.unique(x1)) == n, "repeated or undefined stretch values")
    low = hm < 10
    require(np.all(np.abs(x1[low]) <= 5), "stretch outside the support for low-mass hosts")
    for sel, cdf, name in ((low, cdf_low, "low"), (~low, stats.norm.cdf, "high")):
        if sel.sum() > 20:
            p = stats.kstest(x1[sel], cdf).pvalue
            require(p > 1e-9, f"stretch of {sel.sum()} {name}-mass hosts: KS p={p:.2g}")
    # values of neighbouring samples are unrelated
    if n > 20:
        r, p = stats.spearmanr(x1[:-1][low[:-1] == low[1:]], x1[1:][low[:-1] == low[1:]]) if (low[:-1] == low[1:]).sum() > 20 else (0, 1)
        require(not p < 1e-10, f"neighbouring stretch values correlate (r={r:.2f}, p={p:.2g})")
    rec.label(kind)
    if low.any() and not low.all():
        rec.nontrivial()


@check("C32", fd({"seed": seeds(), "m": gr(6, 14)}), quick=8)
def stretch_single(case, rec):
    """A population drawn one sample at a time follows the same distributions, and the density is the documented one."""
    rng = np.random.default_rng([case["seed"], 34])
    node = HostmassX1Func(GivenValueList([9.0, 10.0] * 60))
    gen = np.random.default_rng([case["seed"], 35])
    one = np.array([float(np.atleast_1d(result(node, node.sample_parameters(num_samples=1, rng_info=gen)))[0]) for _ in range(120)])
    for sel, cdf, name in ((one[::2], cdf_low, "low"), (one[1::2], stats.norm.cdf, "high")):
        require(stats.kstest(sel, cdf).pvalue > 1e-9, f"single draws for {name}-mass hosts")
    x = np.concatenate([rng.uniform(-7, 7, 40), [0.0, -4.999, 4.999]])
    phi = np.exp(-(x**2) / 2) / math.sqrt(2 * math.pi)
    want = np.where(np.abs(x) < 5, np.exp(-np.minimum(x, 0) ** 2), 0) * phi if case["m"] < 10 else phi
    close(HostmassX1Distr(hostmass=case["m"]).pdf(x), want, rtol=1e-10, atol=1e-300, msg=f"density at host mass {case['m']}")
    rec.nontrivial()


HOSTS = st.sampled_from(["sky", "pole", "meridian", "equator", "anti"])


def hosts(rng, n, where):
    ra, dec = rng.uniform(0, 360, n), np.degrees(np.arcsin(rng.uniform(-1, 1, n)))
    if where == "pole":
        dec = rng.choice([90.0, -90.0, 89.999, -89.9999, 89.0], n)
    if where == "meridian":
        ra = rng.choice([0.0, 360.0, 359.9999, 1e-5, 180.0], n)
    if where == "equator":
        dec = np.zeros(n)
    if where == "anti":
        ra = rng.uniform(-180, 0, n)
    return ra, dec


@check("C32", fd({**COSMO, "n": N, "seed": seeds(), "where": HOSTS, "host": SRC, "sep": SRC, "z": SRC, "rng": st.booleans()}), quick=250)
def placement(case, rec):
    """Each supernova lies at the angle of its own physical separation, seen at its own redshift, from its own host."""
    rng = np.random.default_rng([case["seed"], 36])
    n = case["n"]
    ra, dec = hosts(rng, n, case["where"])
    if case["host"] == "constant":
        ra, dec = np.full(n, ra[0]), np.full(n, dec[0])
    sep = drawn(rng, n, case["sep"], -3, 2.5, True)
    if case["sep"] == "node":
        sep = np.where(rng.uniform(size=n) < 0.1, 0.0, sep)
    z = drawn(rng, n, case["z"], -2.5, 0.7, True)
    H0, Om = float(case["H0"]), float(case["Om"])
    if case["seed"] % 3 == 0:
        H0 = int(H0) if case["seed"] % 2 else np.int64(H0)
    node = SNCoordGivenPhysicalSep(column(ra, case["host"]), column(dec, case["host"]), column(sep, case["sep"]), column(z, case["z"]),
                                   H0=H0, Omega_m=Om, seed=case["seed"] % 10000, node_label="sn")
    state = node.sample_parameters(num_samples=n, rng_info=np.random.default_rng([case["seed"], 5]) if case["rng"] else None)
    sra, sdec = np.atleast_1d(state["sn.ra"]), np.atleast_1d(state["sn.dec"])
    require(sra.shape == (n,) and sdec.shape == (n,), f"positions of shape {sra.shape}, {sdec.shape} for {n} samples")
    require(np.all((sdec >= -90) & (sdec <= 90)) and np.all((sra >= -360) & (sra <= 720)), "coordinates outside their range")
    for i in range(n):
        da = comoving(z[i], H0, Om) / (1 + z[i]) * 1e3
        want = sep[i] / da
        got = separation(ra[i], dec[i], sra[i], sdec[i])
        # declinations are recovered from sines: near the poles only to about eps/cos(dec), at most 3e-8 rad (milliarcseconds)
        tol = 1e-7 * want + 1e-12 + min(3e-8, 2e-15 / (abs(math.cos(math.radians(dec[i]))) + 1e-12))
        require(abs(got - want) < tol, f"sample {i}: {got} rad from its host, expected {want} ({sep[i]} kpc at z={z[i]})")
    rec.label(case["where"], f"host {case['host']}", f"sep {case['sep']}", f"n={n}")
    if n > 1:
        rec.nontrivial()


@check("C32", fd({"seed": seeds(), "dec": st.sampled_from([0.0, 45.0, -80.0, 89.9]), "how": st.sampled_from(["batch", "given rng", "single", "constant host"])}), quick=24)
def angles(case, rec):
    """Position angles are uniform over the full circle and unrelated between samples and redraws."""
    rng = np.random.default_rng([case["seed"], 37])
    n = 500 if case["how"] != "single" else 150
    ra, dec = np.full(n, 200.0), np.full(n, case["dec"])
    if case["how"] == "constant host":
        args = (200.0, case["dec"], 10.0, 0.1)
    else:
        args = (GivenValueList(list(ra)), GivenValueList(list(dec)), GivenValueList([float(v) for v in rng.uniform(5, 20, n)]), 0.1)
    node = SNCoordGivenPhysicalSep(*args, seed=case["seed"] % 10000, node_label="sn")
    gen = np.random.default_rng([case["seed"], 6])
    if case["how"] == "single":
        states = [node.sample_parameters(num_samples=1, rng_info=gen) for _ in range(n)]
        sra, sdec = (np.array([float(np.atleast_1d(s[f"sn.{k}"])[0]) for s in states]) for k in ("ra", "dec"))
    else:
        s = node.sample_parameters(num_samples=n, rng_info=gen if case["how"] == "given rng" else None)
        sra, sdec = np.asarray(s["sn.ra"]), np.asarray(s["sn.dec"])
    pa = np.array([position_angle(200.0, case["dec"], a, b) for a, b in zip(sra, sdec)])
    require(stats.kstest(pa / (2 * np.pi), "uniform").pvalue > 1e-9, "position angles are not uniform")
    _, p = stats.spearmanr(pa[:-1], pa[1:])
    require(p > 1e-10, "neighbouring position angles correlate")
    rec.label(case["how"])
    rec.nontrivial()


@check("C32", fd({**COSMO, "z0": st.sampled_from(["zero", "small", "mid"]), "dz": gr(0.05, 3), "bins": st.integers(1, 12), "split": st.integers(2, 5), "sky": st.sampled_from(["full", "patch", "default", "none seen"]), "seed": seeds()}), quick=120)
def rates(case, rec):
    """Expected numbers: rate x comoving volume by own quadrature; additive under splitting; proportional to the area."""
    H0, Om = float(case["H0"]), float(case["Om"])
    rng = np.random.default_rng([case["seed"], 38])
    z0 = {"zero": 0.0, "small": 0.001, "mid": float(rng.uniform(0.05, 1.5))}[case["z0"]]
    z1, nb = z0 + case["dz"], case["bins"]
    area = {"full": 4 * math.pi, "default": None, "patch": float(rng.uniform(1e-4, 3)), "none seen": 0.0}[case["sky"]]
    sr = 4 * math.pi if area is None else area
    num, mid = num_snia_per_redshift_bin(z0, z1, nb, solid_angle=area, H0=H0, Omega_m=Om)
    require(np.shape(num) == (nb,) and np.shape(mid) == (nb,), f"{np.shape(num)} numbers for {nb} bins")
    edges = np.linspace(z0, z1, nb + 1)
    close(mid, (edges[:-1] + edges[1:]) / 2, rtol=1e-9, msg="bin centres")

    def dndz(z):
        d = comoving(z, H0, Om)
        return sr * C_KMS / H0 / math.sqrt(Om * (1 + z) ** 3 + 1 - Om) * d * d * 2.27e-5 * (1 + z) ** 1.7 * (H0 / 70) ** 3

    # accuracy of a 50-point trapezoid per bin: h^2/12 * max|f''| * width <~ (w/49)^2/12 * (few) / z^2 relative
    for k in sorted(set([0, nb - 1, int(rng.integers(nb))])):
        want = integrate.quad(dndz, edges[k], edges[k + 1], epsrel=1e-8)[0]
        require(abs(num[k] - want) <= 2e-3 * want + 1e-12, f"bin {k} [{edges[k]}, {edges[k + 1]}]: {num[k]}, expected {want}")
    fine, _ = num_snia_per_redshift_bin(z0, z1, nb * case["split"], solid_angle=area, H0=H0, Omega_m=Om)
    close(fine.reshape(nb, -1).sum(axis=1), num, rtol=2e-3, atol=1e-12, msg="bins split and added")
    twice, _ = num_snia_per_redshift_bin(z0, z1, nb, solid_angle=2 * sr, H0=H0, Omega_m=Om)
    close(twice, 2 * np.asarray(num), rtol=1e-10, msg="twice the area")
    part, _ = num_snia_per_redshift_bin(edges[0], edges[1], 1, solid_angle=area, H0=H0, Omega_m=Om)
    close(part[0], num[0], rtol=2e-3, atol=1e-12, msg="first bin on its own")
    z = rng.uniform(0, 3, 5)
    close(snia_volumetric_rates(z), 2.27e-5 * (1 + z) ** 1.7, rtol=1e-12, msg="volumetric rate")
    close(float(snia_volumetric_rates(0.0)), 2.27e-5, rtol=1e-12, msg="local rate")
    rec.label(case["z0"], case["sky"], f"bins<={4 * (nb // 4) + 4}")
    if nb > 1 and sr > 0:
        rec.nontrivial()


@check("C32", fd({**COSMO, "n": st.sampled_from([4, 2, 1]), "seed": seeds(), "sep": gr(0.1, 50)}), quick=16)
def population(case, rec):
    """A host and its supernova in one graph: relations hold between the parameters of the same sample; inputs are constants."""
    n, H0, Om = case["n"], float(case["H0"]), float(case["Om"])
    gen = lambda lo, hi: NumpyRandomFunc("uniform", low=lo, high=hi)  # noqa: E731
    host = SNIaHost(ra=gen(0, 360), dec=gen(-80, 80), hostmass=gen(8, 12), redshift=gen(0.01, 1.0), node_label="host")
    dm = DistModFromRedshift(host.redshift, H0=H0, Omega_m=Om)
    x1 = HostmassX1Func(host.hostmass, node_label="x1")
    c = NumpyRandomFunc("normal", loc=0, scale=0.1, node_label="c")
    mabs = NumpyRandomFunc("normal", loc=-19.3, scale=0.1, node_label="mabs")
    x0 = X0FromDistMod(distmod=dm, x1=x1, c=c, alpha=0.14, beta=3.1, m_abs=mabs, node_label="x0")
    pos = SNCoordGivenPhysicalSep(host.ra, host.dec, case["sep"], host.redshift, H0=H0, Omega_m=Om, node_label="pos")
    mean = FunctionNode(lambda a, b: a + b, a=x1, b=c, node_label="both")
    src = ConstantSEDModel(brightness=x0, ra=pos.ra, dec=pos.dec, redshift=host.redshift, t0=mean, node_label="sn")
    state = src.sample_parameters(num_samples=n, rng_info=np.random.default_rng([case["seed"], 7]))
    rows = {k: np.atleast_1d(np.asarray(state[k], dtype=float)) for k in
            ("host.ra", "host.dec", "host.hostmass", "host.redshift", "sn.brightness", "sn.ra", "sn.dec", "sn.redshift", "sn.t0", "x0.x1", "x0.c", "x0.m_abs", "x0.distmod")}
    same(rows["sn.redshift"], rows["host.redshift"], "redshift of the supernova and its host")
    cosmo = FlatLambdaCDM(H0=H0, Om0=Om)
    for i in range(n):
        r = {k: float(v[i]) for k, v in rows.items()}
        mu = float(cosmo.distmod(r["host.redshift"]).value)
        close(r["x0.distmod"], mu, rtol=1e-9, msg="distance modulus")
        close(r["sn.brightness"], 10 ** (-0.4 * (mu - 0.14 * r["x0.x1"] + 3.1 * r["x0.c"] + r["x0.m_abs"] - 10.635)), rtol=1e-9, msg="brightness")
        close(r["sn.t0"], r["x0.x1"] + r["x0.c"], rtol=1e-12, msg="shared stretch and colour")
        want = case["sep"] / (float(cosmo.angular_diameter_distance(r["host.redshift"]).value) * 1e3)
        got = separation(r["host.ra"], r["host.dec"], r["sn.ra"], r["sn.dec"])
        require(abs(got - want) < 1e-6 * want + 3e-13, f"sample {i}: separation {got}, expected {want}")
    raises(ValueError, lambda: DistModFromRedshift(0.1, H0=gen(60, 80)), "random Hubble constant")
    raises(ValueError, lambda: SNCoordGivenPhysicalSep(0.0, 0.0, 1.0, 0.1, Omega_m=gen(0.1, 0.5)), "random matter density")
    rec.label(f"n={n}")
    if n > 1:
        rec.nontrivial()

import math

import numpy as np
import pandas as pd
from astropy import units as u
from hypothesis import strategies as st

from lightcurvelynx.astro_utils.mag_flux import flux2mag, mag2flux
from lightcurvelynx.astro_utils.noise_model import poisson_bandflux_std
from lightcurvelynx.astro_utils.obs_utils import phot_eff_function, spec_eff_function
from lightcurvelynx.astro_utils.unit_utils import bulk_convert_matrix, flam_to_fnu, fnu_to_flam
from lightcurvelynx.astro_utils.zeropoint import (
    calculate_zp_from_maglim,
    flux_electron_zeropoint,
    magnitude_electron_zeropoint,
)

from ..core import check, close, describe, raises, require, same
from ..gen import fd, gr, seeds

describe(
    "C31",
    "Cases are arrays of magnitudes, flux densities and wavelengths of every shape (scalars to 3-d, empty, transposed, strided, "
    "read-only, lists, integers of every width, table columns) over the full floating-point range, and all pairs of wavelength, "
    "f_lambda and f_nu units, compared with astropy's magnitude and spectral-density conversions; non-trivial when at least two "
    "different values are converted.",
    ["magnitudes whose flux is not representable (beyond about 1e+-300) are outside the domain",
     "photon-count flux densities are not flux densities: refused by unit checking"],
)

SHAPES = [[7], [3, 4], [2, 3, 4], [], [1], [0], [5, 1], [0, 3], [1, 6]]
LAYOUT = st.sampled_from(["plain", "transposed", "strided", "readonly", "list", "reversed"])
DTYPE = st.sampled_from(["float64", "int64", "int32", "int16", "float32", "uint16", ">f8"])
WAVE = {"AA": u.AA, "nm": u.nm, "um": u.um, "m": u.m, "cm": u.cm}
FLAM = {
    "cgs/AA": u.erg / u.s / u.cm**2 / u.AA,
    "W/m2/um": u.W / u.m**2 / u.um,
    "cgs/nm": u.erg / u.s / u.cm**2 / u.nm,
    "W/m3": u.W / u.m**3,
    "cgs/cm": u.erg / u.s / u.cm**3,
    "mW": u.mW / u.cm**2 / u.um,
    "scaled": 1e-17 * u.erg / u.s / u.cm**2 / u.AA,
}
FNU = {
    "nJy": u.nJy,
    "cgs": u.erg / u.s / u.cm**2 / u.Hz,
    "Jy": u.Jy,
    "uJy": u.uJy,
    "W/m2/Hz": u.W / u.m**2 / u.Hz,
    "THz": u.W / u.m**2 / u.THz,
    "MJy": u.MJy,
    "AB": u.AB,
}


def layout(a, kind):
    """The same values in another memory layout or container."""
    if kind == "list" and a.size:
        return a.tolist()
    if kind == "transposed" and a.ndim > 1:
        return np.ascontiguousarray(a.T).T
    if kind == "strided" and a.ndim:
        big = np.full(a.shape[:-1] + (2 * a.shape[-1],), 7, dtype=a.dtype)
        big[..., ::2] = a
        return big[..., ::2]
    if kind == "reversed" and a.ndim:
        return np.ascontiguousarray(a[..., ::-1])[..., ::-1]
    a = a.copy()
    if kind == "readonly":
        a.setflags(write=False)
    return a


def eps(dtype):
    return 3e-6 if dtype in ("float32", "int16", "uint16") else 1e-12


def nontriv(rec, *arrays):
    if any(np.unique(np.asarray(a)).size >= 2 for a in arrays):
        rec.nontrivial()


@check("C31", fd({"shape": st.sampled_from(SHAPES), "seed": seeds(), "layout": LAYOUT, "dtype": DTYPE, "wide": st.booleans()}), quick=1500)
def magnitudes(case, rec):
    """AB magnitudes <-> nJy: exact inverses, astropy's AB system, order, shape, elementwise, inputs unchanged."""
    rng = np.random.default_rng([case["seed"], 31])
    dt, shape = case["dtype"], tuple(case["shape"])
    if dt.startswith(("int", "uint")):
        mag = rng.integers(0 if dt[0] == "u" else -10, 40, shape).astype(dt)
    elif case["wide"] and dt != "float32":
        mag = rng.uniform(-650, 750, shape).astype(dt)
    else:
        mag = rng.uniform(-20, 45, shape).astype(dt)
    mag = np.asarray(mag, dtype=dt)
    arg = layout(mag, case["layout"])
    flux = mag2flux(arg)
    same(np.asarray(arg), mag, "mag2flux changed its input")
    require(np.shape(flux) == shape, f"mag2flux shape {np.shape(flux)}, expected {shape}")
    want = (mag.astype(float) * u.ABmag).to_value(u.nJy)
    tol = 1e-4 if dt == "float32" else 1e-11
    close(np.asarray(flux, dtype=float), want, rtol=tol, msg="mag2flux against astropy")
    require(np.all(np.asarray(flux) > 0), "non-positive flux")
    back = flux2mag(flux)
    require(np.shape(back) == shape, f"flux2mag shape {np.shape(back)}, expected {shape}")
    close(np.asarray(back, dtype=float), mag.astype(float), rtol=eps(dt), atol=3e-5 if dt == "float32" else 1e-10, msg="flux2mag(mag2flux(m))")
    # fluxes of their own
    if dt.startswith(("int", "uint")):
        f = rng.integers(1, 30000, shape).astype(dt)
    else:
        f = np.asarray(10.0 ** (rng.uniform(-290, 290, shape) if case["wide"] and dt != "float32" else rng.uniform(-6, 14, shape)), dtype=dt)
    f = np.asarray(f, dtype=dt)
    farg = layout(f, case["layout"])
    m = flux2mag(farg)
    same(np.asarray(farg), f, "flux2mag changed its input")
    atol = 2e-5 if dt in ("float32", "int16", "uint16") else 1e-9
    close(np.asarray(m, dtype=float), (f.astype(float) * u.nJy).to_value(u.ABmag), rtol=0, atol=atol, msg="flux2mag against astropy")
    close(np.asarray(mag2flux(m), dtype=float), f.astype(float), rtol=10 * atol, msg="mag2flux(flux2mag(f))")
    if f.size:
        flat, mf = np.ravel(f), np.ravel(np.asarray(m))
        for i in range(min(4, flat.size)):
            one = flux2mag(flat[i])
            close(float(one), float(mf[i]), rtol=0, atol=atol, msg="single flux against array")
        order = np.argsort(flat.astype(float), kind="stable")
        require(np.all(np.diff(mf[order]) <= 0), "a brighter object has a larger magnitude")
        distinct = np.diff(flat[order].astype(float)) > 1e-3 * flat[order][:-1].astype(float)
        require(np.all(np.diff(mf[order])[distinct] < 0), "different fluxes with the same magnitude")
    rec.label(dt, case["layout"], f"{len(shape)}-d", "wide" if case["wide"] else "usual")
    nontriv(rec, mag, f)


@check("C31", fd({"seed": seeds(), "n": st.integers(1, 8)}), quick=300)
def columns(case, rec):
    """Table columns convert like arrays, keeping their row labels; colours and ratios correspond."""
    rng = np.random.default_rng([case["seed"], 34])
    labels = rng.permutation(100)[: case["n"]]
    mag = pd.Series(rng.uniform(10, 30, case["n"]), index=labels)
    flux = mag2flux(mag)
    same(np.asarray(flux), mag2flux(mag.to_numpy()), "column against array")
    if isinstance(flux, pd.Series):
        same(flux.index.to_numpy(), labels, "row labels")
    back = flux2mag(flux)
    close(np.asarray(back), mag.to_numpy(), rtol=1e-12, msg="round trip of a column")
    d = rng.uniform(-5, 5)
    close(np.asarray(mag2flux(mag + d)) / np.asarray(flux), np.full(case["n"], 10 ** (-0.4 * d)), rtol=1e-10, msg="flux ratio of a magnitude offset")
    close(float(flux2mag(3630.780547701e9)), 0.0, rtol=0, atol=1e-9, msg="zero magnitude")
    nontriv(rec, mag)


def pair(rng, case):
    """Flux values and wavelengths of compatible shapes (documented forms: N, MxN with N or MxN)."""
    n, m = case["n"], case["m"]
    fshape, wshape = {"1d": ((n,), (n,)), "matrix+row": ((m, n), (n,)), "matrix": ((m, n), (m, n)), "scalar": ((), ()), "3d+row": ((2, m, n), (n,)), "one wave": ((m, n), ())}[case["form"]]
    lo, hi = {"AA": (100, 30000), "nm": (10, 3000), "um": (1, 30), "m": (1e-7, 1e-5), "cm": (1e-5, 1e-3)}[case["wave"]]
    w = rng.uniform(lo, hi, wshape)
    dt = case["wdtype"]
    if dt.startswith(("int", "uint")):
        if case["wave"] in ("AA", "nm", "um"):
            w = np.asarray(np.maximum(1, np.round(w))).astype(dt)
        else:
            dt = "float64"
    w = np.asarray(w, dtype=dt)
    f = np.asarray(10.0 ** rng.uniform(-20, 3, fshape) * np.where(rng.uniform(size=fshape) < 0.2, -1, 1), dtype=float)
    f = np.where(rng.uniform(size=fshape) < 0.1, 0.0, f)
    if case["fdtype"] == "int64":
        f = rng.integers(-1000, 100000, fshape)
    elif case["fdtype"] == "float32":
        f = f.astype("float32")
    return np.asarray(f), w


UNITCASE = fd({
    "form": st.sampled_from(["matrix+row", "1d", "matrix", "scalar", "3d+row", "one wave"]),
    "n": st.sampled_from([3, 1, 5, 2, 0]), "m": st.sampled_from([3, 2, 1, 4]), "seed": seeds(),
    "wave": st.sampled_from(list(WAVE)), "flam": st.sampled_from(list(FLAM)), "fnu": st.sampled_from(list(FNU)),
    "flayout": LAYOUT, "wlayout": LAYOUT, "wdtype": DTYPE, "fdtype": st.sampled_from(["float64", "int64", "float32"]),
})


@check("C31", UNITCASE, quick=1500)
def densities(case, rec):
    """f_lambda <-> f_nu in all units against astropy's spectral_density; round trips, shapes, row by row."""
    rng = np.random.default_rng([case["seed"], 35])
    f, w = pair(rng, case)
    units = dict(wave_unit=WAVE[case["wave"]], flam_unit=FLAM[case["flam"]], fnu_unit=FNU[case["fnu"]])
    fa, wa = layout(f, case["flayout"]), layout(w, case["wlayout"])
    rtol = 2e-6 if "float32" in (case["wdtype"], case["fdtype"]) else 1e-11
    wq = np.asarray(w, dtype=float) * units["wave_unit"]
    for fwd, back, frm, to in ((flam_to_fnu, fnu_to_flam, "flam_unit", "fnu_unit"), (fnu_to_flam, flam_to_fnu, "fnu_unit", "flam_unit")):
        name = fwd.__name__
        got = fwd(fa, wa, **units)
        same(np.asarray(fa), f, f"{name} changed the flux")
        same(np.asarray(wa), w, f"{name} changed the wavelengths")
        require(np.shape(got) == f.shape, f"{name}: shape {np.shape(got)}, expected {f.shape}")
        want = (np.asarray(f, dtype=float) * units[frm]).to_value(units[to], equivalencies=u.spectral_density(np.broadcast_to(wq, f.shape, subok=True)))
        close(got, want, rtol=rtol, msg=f"{name} against astropy")
        close(back(got, wa, **units), np.asarray(f, dtype=float), rtol=rtol, msg=f"{name} and back")
        if f.ndim >= 2 and f.size:
            row = fwd(f[0], w[0] if w.ndim == 2 else w, **units)
            close(row, got[0], rtol=rtol, msg=f"{name}: first row alone")
        if f.ndim == 1 and f.size:
            close(fwd(f[-1], w[-1], **units), got[-1], rtol=rtol, msg=f"{name}: last value alone")
    rec.label(case["form"], case["wave"], case["flam"], case["fnu"], case["wdtype"])
    nontriv(rec, f)


@check("C31", fd({"seed": seeds(), "n": st.integers(2, 6), "m": st.integers(2, 5), "kind": st.sampled_from(["1d", "row", "rows", "photon", "swapped"])}), quick=300)
def refused(case, rec):
    """Sizes that do not match and units that do not fit are refused."""
    n, m = case["n"], case["m"]
    units = dict(wave_unit=u.AA, flam_unit=FLAM["cgs/AA"], fnu_unit=u.nJy)
    kind = case["kind"]
    rec.label(kind)
    rec.nontrivial()
    for fn in (flam_to_fnu, fnu_to_flam):
        if kind == "1d":
            raises(ValueError, lambda: fn(np.ones(n), np.ones(n + 1), **units), "different lengths")
        elif kind == "row":
            raises(ValueError, lambda: fn(np.ones((m, n)), np.ones(n + m), **units), "row of another length")
        elif kind == "rows":
            raises(ValueError, lambda: fn(np.ones((m, n)), np.ones((m + 1, n)), **units), "different numbers of rows")
        elif kind == "photon":
            raises(u.UnitConversionError, lambda: fn(np.ones(n), np.full(n, 5000.0), **dict(units, flam_unit=u.ph / u.s / u.cm**2 / u.AA)), "photon flux")
        else:
            raises(u.UnitConversionError, lambda: fn(np.ones(n), np.full(n, 5000.0), **dict(units, flam_unit=u.nJy, fnu_unit=FLAM["cgs/AA"])), "swapped units")


@check("C31", fd({"seed": seeds(), "shape": st.sampled_from(SHAPES), "a": st.sampled_from(list(FNU)), "b": st.sampled_from(list(FNU)), "layout": LAYOUT}), quick=500)
def bulk(case, rec):
    """Bulk unit conversion equals astropy's, elementwise, and inverts."""
    rng = np.random.default_rng([case["seed"], 36])
    x = np.asarray(rng.normal(size=tuple(case["shape"])) * 10.0 ** rng.uniform(-10, 10))
    arg = layout(x, "plain" if case["layout"] == "list" else case["layout"])
    a, b = FNU[case["a"]], FNU[case["b"]]
    got = bulk_convert_matrix(arg, a, b)
    same(np.asarray(arg), x, "input changed")
    require(np.shape(got) == x.shape, "shape changed")
    close(got, (x * a).to_value(b), rtol=1e-12, msg="against astropy")
    close(bulk_convert_matrix(got, b, a), x, rtol=1e-12, msg="and back")
    raises(u.UnitConversionError, lambda: bulk_convert_matrix(arg, a, u.m), "flux to length")
    nontriv(rec, x)


LSST_ZP = {"u": 26.524, "g": 28.508, "r": 28.361, "i": 28.171, "z": 27.782, "y": 26.818}
LSST_K = {"u": -0.458, "g": -0.208, "r": -0.122, "i": -0.074, "z": -0.057, "y": -0.095}


@check("C31", fd({"seed": seeds(), "n": st.sampled_from([4, 1, 7, 0]), "form": st.sampled_from(["arrays", "scalar airmass", "scalar exptime", "scalars", "2d"]), "own": st.booleans()}), quick=500)
def zeropoints(case, rec):
    """Electron zeropoints: magnitude scale in airmass and exposure time, per observation's own band; flux form agrees."""
    rng = np.random.default_rng([case["seed"], 37])
    shape = () if case["form"] == "scalars" else (2, case["n"]) if case["form"] == "2d" else (case["n"],)
    zp, k = dict(LSST_ZP), dict(LSST_K)
    if case["own"]:
        names = ["g", "red", "F158", "y"]
        zp = {b: float(rng.uniform(20, 30)) for b in names}
        k = {b: float(rng.uniform(-0.6, 0)) for b in names}
    band = rng.choice(list(zp), shape)
    airmass = rng.uniform(1, 3, () if case["form"] == "scalar airmass" else shape)
    exptime = rng.uniform(1, 300, () if case["form"] == "scalar exptime" else shape)
    kw = dict(band=band if shape else str(band), airmass=airmass if np.shape(airmass) else float(airmass), exptime=exptime if np.shape(exptime) else float(exptime))
    zparg, karg = (zp, k) if case["own"] else (None, None)
    mag = magnitude_electron_zeropoint(instr_zp=zparg, ext_coeff=karg, **kw)
    require(np.shape(mag) == shape, f"shape {np.shape(mag)}, expected {shape}")
    lookup = np.vectorize(lambda b: zp[b], otypes=[float])(band) if np.size(band) else np.zeros(shape)
    slope = np.vectorize(lambda b: k[b], otypes=[float])(band) if np.size(band) else np.zeros(shape)
    want = lookup + slope * (airmass - 1) + 2.5 * np.log10(exptime)
    close(mag, want, rtol=1e-12, msg="magnitude zeropoint")
    flux = flux_electron_zeropoint(instr_zp_mag=zparg, ext_coeff=karg, **kw)
    close(flux, (want * u.ABmag).to_value(u.nJy), rtol=1e-10, msg="flux zeropoint")
    longer = flux_electron_zeropoint(instr_zp_mag=zparg, ext_coeff=karg, **dict(kw, exptime=2 * np.asarray(kw["exptime"])))
    close(longer, np.asarray(flux) / 2, rtol=1e-12, msg="twice the exposure needs half the flux per electron")
    rec.label(case["form"], "own" if case["own"] else "LSST")
    nontriv(rec, band)


@check("C31", fd({"seed": seeds(), "n": st.sampled_from([3, 1, 6]), "scalar": st.booleans()}), quick=300)
def maglim(case, rec):
    """The zeropoint from a 5-sigma limit gives signal-to-noise 5 at the limit under the documented noise."""
    rng = np.random.default_rng([case["seed"], 38])
    n = case["n"]
    v = {"maglim": rng.uniform(17, 25, n), "sky": rng.uniform(0, 2000, n), "fwhm": rng.uniform(1, 6, n), "gain": rng.uniform(0.5, 8, n),
         "readnoise": rng.uniform(0, 15, n), "darkcurrent": rng.uniform(0, 2, n), "exptime": rng.uniform(1, 300, n), "nexposure": rng.integers(1, 5, n)}
    if case["scalar"]:
        v = {a: (float(b[0]) if a != "nexposure" else int(b[0])) for a, b in v.items()}
    kept = {a: np.array(b) for a, b in v.items()}
    zp = calculate_zp_from_maglim(**v)
    for a in v:
        same(np.asarray(v[a]), kept[a], f"{a} changed")
    require(np.shape(zp) == np.shape(v["maglim"]), "shape")
    electrons = 10 ** (-0.4 * (v["maglim"] - np.asarray(zp)))
    npix = 2.266 * np.asarray(v["fwhm"]) ** 2
    noise = electrons + v["sky"] * npix * v["gain"] + np.asarray(v["readnoise"]) ** 2 * v["nexposure"] * npix + v["darkcurrent"] * npix * v["exptime"] * v["nexposure"]
    close(electrons / np.sqrt(noise), np.full(np.shape(zp), 5.0), rtol=1e-9, msg="signal-to-noise at the limit")
    # the same through the noise model
    perel = mag2flux(np.asarray(zp))
    std = poisson_bandflux_std(mag2flux(np.asarray(v["maglim"])), total_exposure_time=np.asarray(v["exptime"]) * v["nexposure"], exposure_count=v["nexposure"],
                               psf_footprint=npix, sky=np.asarray(v["sky"]) * v["gain"], zp=perel, readout_noise=v["readnoise"], dark_current=v["darkcurrent"])
    close(mag2flux(np.asarray(v["maglim"])) / std, np.full(np.shape(zp), 5.0), rtol=1e-8, msg="signal-to-noise of the noise model at the limit")
    rec.nontrivial()


@check("C31", fd({"seed": seeds(), "shape": st.sampled_from(SHAPES), "layout": LAYOUT, "x": gr(15, 30)}), quick=300)
def efficiencies(case, rec):
    """Efficiency curves act elementwise, stay in [0, 1], are monotone and match their stated form."""
    rng = np.random.default_rng([case["seed"], 39])
    shape = tuple(case["shape"])
    snr = np.asarray(np.where(rng.uniform(size=shape) < 0.3, 5.0, rng.uniform(-5, 15, shape)))
    arg = layout(snr, case["layout"])
    got = phot_eff_function(arg)
    same(np.asarray(arg), snr, "input changed")
    same(np.asarray(got, dtype=float), (snr > 5).astype(float), "detection efficiency")
    mag = np.asarray(rng.uniform(10, 32, shape))
    got = np.asarray(spec_eff_function(layout(mag, case["layout"])))
    require(got.shape == shape, "shape")
    close(got, 1 / (1 + np.exp(2.36 * mag - 51.9)), rtol=1e-9, msg="spectroscopic efficiency")
    require(np.all((got >= 0) & (got <= 1)), "efficiency outside [0, 1]")
    order = np.argsort(mag.ravel())
    require(np.all(np.diff(got.ravel()[order]) <= 0), "fainter objects are followed up more often")
    require(math.isclose(float(spec_eff_function(51.9 / 2.36)), 0.5, rel_tol=1e-9), "half efficiency")
    nontriv(rec, snr, mag)

import os
import tempfile

import astropy.units as u
import numpy as np
from astropy.coordinates import SkyCoord
from astropy.io import fits
from hypothesis import strategies as st
from sfdmap2 import sfdmap

from lightcurvelynx.astro_utils.dustmap import ConstantHemisphereDustMap, DustEBV, DustmapWrapper, SFDMap
from lightcurvelynx.astro_utils.passbands import Passband, PassbandGroup
from lightcurvelynx.effects.extinction import ExtinctionEffect
from lightcurvelynx.math_nodes.given_sampler import GivenValueList
from lightcurvelynx.math_nodes.np_random import NumpyRandomFunc
from lightcurvelynx.models.basic_models import ConstantSEDModel
from lightcurvelynx.models.static_sed_model import StaticSEDModel

from ..core import check, close, describe, raises, require, same
from ..gen import fd, gr, seeds

describe(
    "C33",
    "Cases are sets of 1-9 positions (poles, equator, both meridians, negative and >360 right ascensions) looked up in constant, "
    "hemisphere, smooth, pixelised (SFD files generated into a scratch directory) and recording maps, and spectra attenuated by "
    "all laws of the dust library in both frames with random redshifts, R_V and reddenings (including 0); non-trivial when at "
    "least two objects with different reddening, or two wavelengths, are involved.",
    ["effects sharing a parameter name share the model's parameter (documented), so a model has one E(B-V)",
     "laws whose own curve is negative somewhere (gain) are exempt from the never-exceeds clause at those wavelengths",
     "map values are those of the external map library; the package adds only the look-up"],
)

POS = st.sampled_from(["sky", "equator", "poles", "meridian", "wrapped", "same"])
N = st.sampled_from([3, 1, 2, 9])


def positions(rng, n, kind):
    ra, dec = rng.uniform(0, 360, n), np.degrees(np.arcsin(rng.uniform(-1, 1, n)))
    if kind == "equator":
        dec = rng.choice([0.0, -0.0, 1e-9, -1e-9, 1e-3, -1e-3], n)
    elif kind == "poles":
        dec = rng.choice([90.0, -90.0, 89.9999, -89.9999], n)
    elif kind == "meridian":
        ra = rng.choice([0.0, 359.99999, 180.0, 1e-6, 360.0], n)
    elif kind == "wrapped":
        ra = rng.uniform(-360, 720, n)
    elif kind == "same":
        ra, dec = np.full(n, ra[0]), np.full(n, dec[0])
    return ra, dec


def smooth(ra, dec):
    ra, dec = np.radians(ra), np.radians(dec)
    return 0.5 + 0.2 * np.sin(dec) + 0.15 * np.cos(dec) * np.cos(ra - 1.0) + 0.1 * np.sin(2 * dec) * np.sin(ra)


class SmoothMap:
    """A map object as in the dustmaps package: query(SkyCoord), in the map's own galactic frame."""

    def __init__(self, gal=False):
        self.gal, self.calls = gal, []

    def value(self, c):
        return smooth(c.galactic.l.deg, c.galactic.b.deg) if self.gal else smooth(c.icrs.ra.deg, c.icrs.dec.deg)

    def query(self, coords):
        self.calls.append((np.atleast_1d(coords.icrs.ra.deg), np.atleast_1d(coords.icrs.dec.deg)))
        return self.value(coords)


def truth(m, ra, dec):
    return np.array([float(m.value(SkyCoord(a, d, unit="deg"))) for a, d in zip(ra, dec)])


def write_sfd(folder, rng, size):
    for name, sign in (("ngp", 1), ("sgp", -1)):
        h = fits.PrimaryHDU(rng.uniform(0, 2, (size, size)))
        h.header.update({"CRPIX1": (size + 1) / 2, "CRPIX2": (size + 1) / 2, "CRVAL1": 90.0, "CRVAL2": 90.0 * sign, "CTYPE1": "GLON-ZEA", "CTYPE2": "GLAT-ZEA",
                         "LONPOLE": 180, "LAM_NSGP": sign, "LAM_SCAL": size // 2})
        h.writeto(os.path.join(folder, f"SFD_dust_4096_{name}.fits"))


def ebv_of(state, n, name="dust"):
    v = np.asarray(state[name]["ebv"], dtype=float)
    require(v.size == n, f"{v.shape} reddening values for {n} objects")
    return v.reshape(n)


MAPS = st.sampled_from(["smooth", "galactic", "hemisphere", "sfd", "function", "scaled"])


@check("C33", fd({"n": N, "pos": POS, "map": MAPS, "seed": seeds(), "src": st.sampled_from(["given", "random", "model", "constant"]), "rng": st.booleans()}), quick=300)
def lookup(case, rec):
    """Every sample's reddening is the map's value at the position stored for that sample."""
    rng = np.random.default_rng([case["seed"], 33])
    n, kind = case["n"], case["map"]
    ra, dec = positions(rng, n, case["pos"])
    model = None
    if case["src"] == "constant":
        a, d = float(ra[0]), float(dec[0])
    elif case["src"] == "random":
        a, d = NumpyRandomFunc("uniform", low=0, high=360), NumpyRandomFunc("uniform", low=-90, high=90)
    else:
        a, d = GivenValueList([float(v) for v in ra]), GivenValueList([float(v) for v in dec])
    if case["src"] == "model":
        model = ConstantSEDModel(brightness=1.0, ra=a, dec=d, node_label="src")
        a, d = model.ra, model.dec
    with tempfile.TemporaryDirectory() as folder:
        if kind == "sfd":
            write_sfd(folder, rng, 8)
            node, m = SFDMap(folder, ra=a, dec=d, node_label="dust"), None
        elif kind == "hemisphere":
            m = ConstantHemisphereDustMap(north_ebv=0.8, south_ebv=0.1)
            node = DustmapWrapper(m, ra=a, dec=d, node_label="dust")
        elif kind == "function":
            m = None
            node = DustEBV(lambda ra, dec: smooth(ra, dec), ra=a, dec=d, node_label="dust")
        elif kind == "scaled":
            m = SmoothMap()
            node = DustmapWrapper(m, ra=a, dec=d, ebv_func=lambda v: 2.742 * v + 0.01, node_label="dust")
        else:
            m = SmoothMap(kind == "galactic")
            node = DustmapWrapper(m, ra=a, dec=d, node_label="dust")
        state = node.sample_parameters(num_samples=n, rng_info=np.random.default_rng([case["seed"], 3]) if case["rng"] else None)
        got = ebv_of(state, n)
        sra, sdec = np.asarray(state["dust"]["ra"], dtype=float), np.asarray(state["dust"]["dec"], dtype=float)
        sra, sdec = np.broadcast_to(sra.reshape(-1), (n,)), np.broadcast_to(sdec.reshape(-1), (n,))
        if case["src"] in ("given", "model"):
            same(sra, ra, "right ascensions")
            same(sdec, dec, "declinations")
        if kind == "sfd":
            direct = sfdmap.SFDMap(folder)
            want = np.array([float(direct.ebv(float(x), float(y))) for x, y in zip(sra, sdec)])
        elif kind == "hemisphere":
            want = np.where(sdec < 0, 0.1, 0.8)
        elif kind == "function":
            want = smooth(sra, sdec)
        else:
            want = truth(m, sra, sdec)
            if kind == "scaled":
                want = 2.742 * want + 0.01
    close(got, want, rtol=1e-9, atol=1e-9, msg=f"{kind} map at ra={sra}, dec={sdec}")
    if kind != "sfd" and case["src"] != "random":
        # the same node asked again: other declinations, then other right ascensions
        for what in ("dec", "ra"):
            a2, d2 = (sra, rng.permutation(sdec) * -0.7) if what == "dec" else (rng.permutation(sra) * 0.5 + 3.0, sdec)
            for nm, v in (("ra", a2), ("dec", d2)):
                (model if model is not None else node).set_parameter(nm, float(v[0]) if case["src"] == "constant" else GivenValueList([float(x) for x in v]))
            if case["src"] == "constant":
                a2, d2 = np.full(n, a2[0]), np.full(n, d2[0])
            again = ebv_of(node.sample_parameters(num_samples=n), n)
            w2 = np.where(d2 < 0, 0.1, 0.8) if kind == "hemisphere" else smooth(a2, d2) if kind == "function" else truth(m, a2, d2)
            close(again, 2.742 * w2 + 0.01 if kind == "scaled" else w2, rtol=1e-9, atol=1e-9, msg=f"{kind} map with another {what}")
    if m is not None and kind in ("smooth", "galactic"):
        qra, qdec = (np.concatenate([c[k] for c in m.calls[: len(m.calls)]]) for k in (0, 1))
        require(all(np.any((np.abs((qra - x + 180) % 360 - 180) < 1e-9) & (np.abs(qdec - y) < 1e-9)) for x, y in zip(sra, sdec)), "a position was never asked for")
    if model is not None:
        same(np.asarray(state["src"]["ra"]).reshape(-1), sra, "the model's own position")
    rec.label(kind, case["pos"], case["src"], f"n={n}")
    if n > 1 and len(np.unique(got)) > 1:
        rec.nontrivial()


@check("C33", fd({"n": N, "pos": POS, "seed": seeds(), "north": st.sampled_from([0.8, 0.0, 1.5]), "south": st.sampled_from([0.1, 0.0, 2.0]), "form": st.sampled_from(["array", "list", "scalar", "numpy scalar"])}), quick=150)
def hemispheres(case, rec):
    """Hemisphere maps return their stated values; the equator belongs to the north; one or many positions alike."""
    rng = np.random.default_rng([case["seed"], 34])
    ra, dec = positions(rng, case["n"], case["pos"])
    m = ConstantHemisphereDustMap(case["north"], case["south"])
    want = [case["south"] if d < 0 else case["north"] for d in dec]
    if case["form"] in ("array", "list"):
        a, d = (ra, dec) if case["form"] == "array" else (ra.tolist(), dec.tolist())
        close(np.asarray(m.compute_ebv(a, d), dtype=float), np.array(want), rtol=0, msg=f"dec={dec}")
        close(np.asarray(m.query(SkyCoord(ra, dec, unit="deg")), dtype=float), np.array(want), rtol=0, msg=f"query dec={dec}")
    for x, y, w in zip(ra, dec, want):
        a, d = (np.float64(x), np.float64(y)) if case["form"] == "numpy scalar" else (float(x), float(y))
        require(float(m.compute_ebv(a, d)) == w, f"value at dec={y}: {m.compute_ebv(a, d)}, expected {w}")
        require(float(m.query(SkyCoord(a, d, unit="deg"))) == w, f"query at dec={y}")
    raises(ValueError, lambda: DustmapWrapper(m, ra=1.0), "a look-up without declination")
    raises(ValueError, lambda: DustmapWrapper(m, dec=1.0), "a look-up without right ascension")
    rec.label(case["pos"], case["form"])
    if len(set(want)) > 1:
        rec.nontrivial()


LAWS = {}  # name -> (Rv values, x range)
for _n, _rv in (("CCM89", (2.0, 3.1, 5.9)), ("O94", (2.0, 3.1, 5.9)), ("F99", (2.0, 3.1, 5.9)), ("F04", (2.1, 3.1, 5.9)), ("F19", (2.6, 3.1, 5.5)), ("G23", (2.4, 3.1, 5.5)),
                ("G03_SMCBar", None), ("G03_LMCAvg", None), ("G03_LMC2", None), ("GCC09_MWAvg", None), ("B92_MWAvg", None), ("C25_M31Avg", None),
                ("G24_SMCAvg", None), ("VCG04", (2.1, 3.1, 5.9)), ("M14", (2.1, 3.1, 5.9)), ("D22", (2.6, 3.1, 5.4)), ("G21_MWAvg", None), ("RRP89_MWGC", None), ("G16", None)):
    LAWS[_n] = _rv


def law_and_range(case, rng):
    name = case["law"]
    kw = {}
    if LAWS[name] is not None and case["rv"]:
        kw["Rv"] = float(rng.choice(LAWS[name]))
    law = ExtinctionEffect.load_extinction_model(name, **kw)
    lo, hi = 1e4 / law.x_range[1], 1e4 / law.x_range[0]
    return law, kw, lo * 1.001, hi * 0.999


def attenuation(law, wave, ebv):
    """10^(-0.4 R_V E(B-V) A(x)/A(V)), from the law's normalised curve."""
    rv = law.Rv.value if hasattr(law.Rv, "value") else law.Rv
    return 10 ** (-0.4 * float(np.squeeze(rv)) * ebv * np.asarray(law(1e4 / wave / u.micron), dtype=float))


LAWCASE = {"law": st.sampled_from(list(LAWS)), "rv": st.booleans(), "frame": st.sampled_from(["observer", "rest"]), "by": st.sampled_from(["name", "object"]), "seed": seeds()}


@check("C33", fd({**LAWCASE, "t": st.sampled_from([3, 1, 0]), "w": st.sampled_from([4, 1, 7, 2]), "ebv": st.sampled_from([0.3, 0.0, 1e-6, 2.5, 0.05]), "extra": gr(0, 1), "neg": st.booleans()}), quick=250)
def attenuate(case, rec):
    """apply multiplies each column by the law at its own wavelength; composes, is linear in flux, leaves the input alone."""
    rng = np.random.default_rng([case["seed"], 35])
    law, kw, lo, hi = law_and_range(case, rng)
    wave = np.exp(rng.uniform(np.log(lo), np.log(hi), case["w"]))
    flux = 10 ** rng.uniform(-3, 5, (case["t"], case["w"]))
    if case["neg"]:
        flux[rng.uniform(size=flux.shape) < 0.3] *= -1
    eff = ExtinctionEffect(case["law"] if case["by"] == "name" else law, ebv=case["ebv"], frame=case["frame"], **(kw if case["by"] == "name" else {}))
    f0, w0 = flux.copy(), wave.copy()
    times = np.arange(case["t"], dtype=float)
    out = eff.apply(flux, times=times, wavelengths=wave, ebv=case["ebv"])
    same(flux, f0, "the input spectrum changed")
    same(wave, w0, "the wavelengths changed")
    require(np.shape(out) == flux.shape, f"shape {np.shape(out)}, expected {flux.shape}")
    att = attenuation(law, wave, case["ebv"])
    close(np.asarray(out), flux * att[None, :], rtol=1e-8, msg=f"{case['law']} {kw}")
    if case["ebv"] == 0:
        close(np.asarray(out), flux, rtol=1e-12, msg="no reddening")
    more = eff.apply(np.asarray(out), times=times, wavelengths=wave, ebv=case["extra"])
    close(np.asarray(more), np.asarray(eff.apply(flux, times=times, wavelengths=wave, ebv=case["ebv"] + case["extra"])), rtol=1e-9, msg="attenuations multiply")
    ok = np.asarray(law(1e4 / wave / u.micron), dtype=float) >= 0
    require(np.all(np.abs(np.asarray(out))[:, ok] <= np.abs(flux)[:, ok] * (1 + 1e-12)), "attenuated flux exceeds the input")
    for j in range(case["w"]):  # one wavelength at a time, and reversed
        close(np.asarray(eff.apply(flux[:, j : j + 1], times=times, wavelengths=wave[j : j + 1], ebv=case["ebv"]))[:, 0], np.asarray(out)[:, j], rtol=1e-9, msg="single wavelength")
    close(np.asarray(eff.apply(flux[:, ::-1], times=times, wavelengths=wave[::-1], ebv=case["ebv"]))[:, ::-1], np.asarray(out), rtol=1e-12, msg="reversed wavelengths")
    if case["t"]:
        close(np.asarray(eff.apply(3 * flux[:1], times=times[:1], wavelengths=wave, ebv=case["ebv"])), 3 * np.asarray(out)[:1], rtol=1e-10, msg="proportional to the flux")
    for k in range(4):  # the same effect object, asked again: other wavelengths between the same ends, other reddenings
        w2 = wave.copy()
        if case["w"] > 2 and k % 2 == 0:
            w2[1:-1] = np.exp(rng.uniform(np.log(lo), np.log(hi), case["w"] - 2))
        e2 = case["ebv"] if k < 2 else float(np.round(rng.uniform(-0.3, 1), 3))
        close(np.asarray(eff.apply(flux, times=times, wavelengths=w2, ebv=e2)), flux * attenuation(law, w2, e2)[None, :], rtol=1e-8, msg=f"asked again, reddening {e2}")
    raises(ValueError, lambda: eff.apply(flux, times=times, wavelengths=wave), "no reddening given")
    raises(ValueError, lambda: eff.apply(flux, times=times, ebv=0.1), "no wavelengths given")
    rec.label(case["law"], case["frame"], case["by"], f"ebv={case['ebv']}")
    if case["w"] > 1 and case["ebv"] > 0 and case["t"]:
        rec.nontrivial()


@check("C33", fd({**LAWCASE, "n": N, "pos": POS, "zmax": st.sampled_from([0.5, 0.0, 0.1]), "map": st.sampled_from(["smooth", "hemisphere", "given", "constant"]), "flat": st.booleans()}), quick=200)
def objects(case, rec):
    """Objects behind a map: each is attenuated by its own reddening at rest or observed wavelengths, as a spectrum and in bands."""
    rng = np.random.default_rng([case["seed"], 36])
    case = dict(case, law=case["law"] if case["law"] in ("CCM89", "O94", "F99", "F04", "F19", "G23", "G03_SMCBar", "G03_LMCAvg", "C25_M31Avg", "GCC09_MWAvg") else "G23")
    law, kw, lo, hi = law_and_range(case, rng)
    n = case["n"]
    ra, dec = positions(rng, n, case["pos"])
    z = rng.uniform(0, case["zmax"], n)
    given = rng.uniform(0, 1, n)
    wl = np.linspace(500.0, 30000.0, 40)
    shape = np.ones(40) if case["flat"] else 1 + 0.5 * np.sin(wl / 700) ** 2

    def build(effect):
        kw_ = dict(ra=GivenValueList([float(v) for v in ra]), dec=GivenValueList([float(v) for v in dec]), redshift=GivenValueList([float(v) for v in z]), t0=0.0, node_label="m")
        m = ConstantSEDModel(brightness=100.0, **kw_) if case["flat"] else StaticSEDModel([np.array([wl, 100 * shape])], **kw_)
        if effect:
            if case["map"] == "smooth":
                ebv = DustmapWrapper(SmoothMap(), ra=m.ra, dec=m.dec, node_label="dust")
            elif case["map"] == "hemisphere":
                ebv = DustmapWrapper(ConstantHemisphereDustMap(0.8, 0.2), ra=m.ra, dec=m.dec, node_label="dust")
            elif case["map"] == "given":
                ebv = GivenValueList([float(v) for v in given])
            else:
                ebv = 0.4
            m.add_effect(ExtinctionEffect(case["law"] if case["by"] == "name" else law, ebv=ebv, frame=case["frame"], **(kw if case["by"] == "name" else {})))
        return m

    want_ebv = {"smooth": smooth(ra, dec), "hemisphere": np.where(dec < 0, 0.2, 0.8), "given": given, "constant": np.full(n, 0.4)}[case["map"]]
    dusty, clear = build(True), build(False)
    sd, sc = dusty.sample_parameters(num_samples=n), clear.sample_parameters(num_samples=n)
    got_ebv = np.broadcast_to(np.asarray(sd["m"]["ebv"], dtype=float).reshape(-1), (n,))
    close(got_ebv, want_ebv, rtol=1e-9, atol=1e-12, msg="reddening of the objects")
    # observed wavelengths such that both frames stay within the law's range
    wave = rng.permutation(np.exp(rng.uniform(np.log(max(lo, 600) * (1 + case["zmax"])), np.log(min(hi, 28000)), 5)))
    times = rng.uniform(0, 50, 3)
    fd_ = np.asarray(dusty.evaluate_sed(times, wave, sd)).reshape(n, 3, 5)
    fc = np.asarray(clear.evaluate_sed(times, wave, sc)).reshape(n, 3, 5)
    for i in range(n):
        seen = wave / (1 + z[i]) if case["frame"] == "rest" else wave
        close(fd_[i], fc[i] * attenuation(law, seen, want_ebv[i])[None, :], rtol=1e-8, msg=f"object {i} (z={z[i]}, E(B-V)={want_ebv[i]}, {case['frame']} frame)")
        require(np.all(fd_[i] <= fc[i] * (1 + 1e-9)), f"object {i} gains flux")
    # a band made of few wavelengths
    bw = np.linspace(5000.0, 6000.0, 6) if max(lo, 600) * (1 + case["zmax"]) < 5000 else None
    if bw is not None:
        band = Passband(np.column_stack([bw, [0.0, 0.5, 1.0, 0.7, 0.2, 0.0]]), "s", "x", delta_wave=200.0, trim_quantile=None)
        bd = np.asarray(dusty.evaluate_bandfluxes(PassbandGroup([band]), times, np.array(["x"] * 3), sd)).reshape(n, 3)
        bc = np.asarray(clear.evaluate_bandfluxes(PassbandGroup([band]), times, np.array(["x"] * 3), sc)).reshape(n, 3)
        for i in range(n):
            seen = bw / (1 + z[i]) if case["frame"] == "rest" else bw
            att = attenuation(law, seen, want_ebv[i])
            ratio = bd[i] / bc[i]
            require(np.all(ratio <= att.max() * (1 + 1e-6)) and np.all(ratio >= att.min() * (1 - 1e-6)), f"object {i}: band attenuation {ratio} outside [{att.min()}, {att.max()}]")
    rec.label(case["law"], case["frame"], case["map"], f"n={n}")
    if n > 1 and len(np.unique(want_ebv)) > 1:
        rec.nontrivial()


@check("C33", fd({"law": st.sampled_from(list(LAWS)), "bad": st.sampled_from(["name", "frame", "no frame", "range"]), "seed": seeds()}), quick=60)
def refused(case, rec):
    """Unknown laws and frames, and wavelengths outside the law, are refused."""
    rec.label(case["bad"])
    rec.nontrivial()
    if case["bad"] == "name":
        raises(KeyError, lambda: ExtinctionEffect("NoSuchLaw", ebv=0.1, frame="rest"), "an unknown law")
    elif case["bad"] == "frame":
        raises(ValueError, lambda: ExtinctionEffect(case["law"], ebv=0.1, frame="galaxy"), "an unknown frame")
    elif case["bad"] == "no frame":
        raises(ValueError, lambda: ExtinctionEffect(case["law"], ebv=0.1), "no frame")
    else:
        eff = ExtinctionEffect(case["law"], ebv=0.1, frame="rest")
        hi = 1e4 / eff.extinction_model.x_range[0]
        raises(ValueError, lambda: eff.apply(np.ones((1, 1)), wavelengths=np.array([hi * 1.5]), ebv=0.1), "a wavelength outside the law")
    names = ExtinctionEffect.list_extinction_models()
    require(set(LAWS) <= set(names), "a law of the library is not listed")

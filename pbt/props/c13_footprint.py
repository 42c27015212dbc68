import numpy as np
import pandas as pd
from astropy import units as u
from astropy.coordinates import SkyCoord
from astropy.wcs import WCS
from hypothesis import strategies as st
from regions import (
    CirclePixelRegion, CircleSkyRegion, EllipsePixelRegion, PixCoord, PolygonPixelRegion, PolygonSkyRegion, RectanglePixelRegion, RectangleSkyRegion,
)

from lightcurvelynx.astro_utils.detector_footprint import DetectorFootprint
from lightcurvelynx.obstable.obs_table import ObsTable

from .. import sky, surveys
from ..core import Reject, check, close, describe, raises, require, same
from ..gen import fd, gr, lists, seeds

describe(
    "C13",
    "Cases are footprints (rectangles, circles, ellipses, asymmetric polygons; in degrees or pixels; default or custom "
    "pixel grids), pointings anywhere with any rotation, and positions around their outlines; non-trivial when positions "
    "fall on both sides of the outline.",
    [
        "positions within 0.02 % (of the footprint's size) of the outline are not decided",
        "outlines are straight in the tangent plane of the pointing, as in the library's pixel grids",
    ],
)

MARGIN = 2e-4

# outlines by (x, y) in degrees (sky) or pixels, relative to the pointing
SHAPES = st.one_of(
    fd({"k": st.just("rect"), "w": gr(0.2, 4, 38), "h": gr(0.2, 4, 38)}),
    fd({"k": st.just("circle"), "r": gr(0.2, 2.5, 23)}),
    fd({"k": st.just("ell"), "size": gr(0.5, 4, 35)}),
    fd({"k": st.just("tri"), "size": gr(0.5, 4, 35)}),
    fd({"k": st.just("ellipse"), "w": gr(0.4, 4, 36), "h": gr(0.4, 4, 36)}),
)


def polygon(s):
    """Corners of asymmetric outlines around the pointing."""
    if s["k"] == "ell":
        p = [(-0.5, -0.5), (0.5, -0.5), (0.5, -0.1), (0.1, -0.1), (0.1, 0.7), (-0.5, 0.7)]
    else:
        p = [(-0.3, -0.2), (0.8, -0.2), (-0.3, 0.5)]
    return np.array(p) * s["size"]


def extent(s):
    if s["k"] in ("rect", "ellipse"):
        return max(s["w"], s["h"]) / 2
    return s["r"] if s["k"] == "circle" else s["size"]


def inside(s, x, y):
    """(inside, undecided) for outline coordinates."""
    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
    bad = np.isnan(x) | np.isnan(y)
    x, y = np.where(bad, 1e6, x), np.where(bad, 1e6, y)
    m = MARGIN * extent(s)
    if s["k"] == "rect":
        dx, dy = np.abs(x) - s["w"] / 2, np.abs(y) - s["h"] / 2
        d = np.maximum(dx, dy)
        return d < 0, np.abs(d) < m
    if s["k"] == "circle":
        d = np.hypot(x, y) - s["r"]
        return d < 0, np.abs(d) < m
    if s["k"] == "ellipse":
        q = np.hypot(x / (s["w"] / 2), y / (s["h"] / 2))
        return q < 1, np.abs(q - 1) < 3 * MARGIN
    p = polygon(s)
    ins = np.zeros(x.shape, dtype=bool)
    dist = np.full(x.shape, np.inf)
    for (x1, y1), (x2, y2) in zip(p, np.roll(p, -1, axis=0)):
        cross = ((y1 > y) != (y2 > y)) & (x < (x2 - x1) * (y - y1) / (y2 - y1 + (y2 == y1)) + x1)
        ins ^= cross
        t = np.clip(((x - x1) * (x2 - x1) + (y - y1) * (y2 - y1)) / ((x2 - x1) ** 2 + (y2 - y1) ** 2), 0, 1)
        dist = np.minimum(dist, np.hypot(x - x1 - t * (x2 - x1), y - y1 - t * (y2 - y1)))
    return ins, dist < m


def sky_region(s):
    c = SkyCoord(0.0, 0.0, unit="deg", frame="icrs")
    if s["k"] == "rect":
        return RectangleSkyRegion(center=c, width=s["w"] * u.deg, height=s["h"] * u.deg)
    if s["k"] == "circle":
        return CircleSkyRegion(center=c, radius=s["r"] * u.deg)
    if s["k"] == "ellipse":
        from regions import EllipseSkyRegion

        return EllipseSkyRegion(center=c, width=s["w"] * u.deg, height=s["h"] * u.deg)
    p = np.radians(polygon(s))
    v = np.array([np.ones(len(p)), p[:, 0], p[:, 1]])
    v = v / np.linalg.norm(v, axis=0)
    return PolygonSkyRegion(SkyCoord(np.degrees(np.arctan2(v[1], v[0])), np.degrees(np.arcsin(v[2])), unit="deg"))


def pixel_region(s, px, flip=1.0, c0=0.0):
    """The same outline in pixels of px degrees about the pixel the pointing falls on."""
    c = PixCoord(c0, c0)
    if s["k"] == "rect":
        return RectanglePixelRegion(center=c, width=s["w"] / px, height=s["h"] / px)
    if s["k"] == "circle":
        return CirclePixelRegion(center=c, radius=s["r"] / px)
    if s["k"] == "ellipse":
        return EllipsePixelRegion(center=c, width=s["w"] / px, height=s["h"] / px)
    p = polygon(s) / px
    return PolygonPixelRegion(PixCoord(p[:, 0] * flip + c0, p[:, 1] + c0))


def the_wcs(px, flip, c0):
    w = WCS(naxis=2)
    w.wcs.ctype = ["RA---TAN", "DEC--TAN"]
    w.wcs.crval = [0.0, 0.0]
    w.wcs.crpix = [1.0 + c0, 1.0 + c0]
    w.wcs.cdelt = [px * flip, px]
    return w


FORMS = ["sky", "rect", "pixels", "sky wcs", "pixels wcs"]
FOOT = fd({
    "shape": SHAPES,
    "form": st.sampled_from(FORMS),
    "px": st.sampled_from([0.01, 0.002, 0.05]),
    "flip": st.sampled_from([1.0, -1.0]),
    "c0": st.sampled_from([0.0, 0.5, -0.3]),
})


def build(f):
    s, form, px = f["shape"], f["form"], f["px"]
    if form == "rect":
        if s["k"] != "rect":
            return DetectorFootprint(sky_region(s), pixel_scale=px)
        return DetectorFootprint.from_rect(s["w"], s["h"], pixel_scale=px)
    if form == "sky":
        return DetectorFootprint(sky_region(s), pixel_scale=px)
    if form == "pixels":
        return DetectorFootprint(pixel_region(s, px), pixel_scale=px)
    w = the_wcs(px, f["flip"], f["c0"])
    if form == "sky wcs":
        return DetectorFootprint(sky_region(s), wcs=w)
    return DetectorFootprint(pixel_region(s, px, f["flip"], f["c0"]), wcs=w)


def probes(s, n, g):
    """Outline coordinates in, out of and close to the outline."""
    e = extent(s)
    xy = g.uniform(-1.3 * e, 1.3 * e, size=(n, 2))
    if s["k"] in ("ell", "tri"):
        p = polygon(s)
        k = g.integers(0, len(p), size=n)
        t = g.random(n)[:, None]
        on = p[k] * t + np.roll(p, -1, axis=0)[k] * (1 - t)
    elif s["k"] == "rect":
        side = g.integers(0, 4, size=n)
        t = g.uniform(-0.5, 0.5, size=n)
        on = np.where((side < 2)[:, None], np.array([np.sign(side - 0.5) * 0.5 * s["w"], t * s["h"]]).T, np.array([t * s["w"], np.sign(side - 2.5) * 0.5 * s["h"]]).T)
    else:
        th = g.uniform(0, 2 * np.pi, size=n)
        a, b = (s["r"], s["r"]) if s["k"] == "circle" else (s["w"] / 2, s["h"] / 2)
        on = np.array([a * np.cos(th), b * np.sin(th)]).T
    scale = g.choice([0.999, 1.001, 0.97, 1.03, 0.9, 1.1], size=n)[:, None]
    return np.where((g.random(n) < 0.6)[:, None], on * scale, xy)


def place(xy, ra0, dec0, rot):
    """Sky positions that have tangent-plane detector coordinates xy (degrees) for the pointing."""
    t = np.radians(rot)
    x = xy[:, 0] * np.cos(t) + xy[:, 1] * np.sin(t)
    y = -xy[:, 0] * np.sin(t) + xy[:, 1] * np.cos(t)
    r0, d0 = np.radians(ra0), np.radians(dec0)
    e = np.array([-np.sin(r0), np.cos(r0), np.zeros_like(r0)])
    n = np.array([-np.sin(d0) * np.cos(r0), -np.sin(d0) * np.sin(r0), np.cos(d0)])
    v = sky.vec(ra0, dec0) + e * np.radians(x) + n * np.radians(y)
    v = v / np.linalg.norm(v, axis=0)
    return np.degrees(np.arctan2(v[1], v[0])) % 360.0, np.degrees(np.arcsin(np.clip(v[2], -1, 1)))


CASE = fd({
    "foot": FOOT,
    "n": st.sampled_from([20, 25, 12, 6, 3, 2, 1]),
    "seed": seeds(),
    "pointing": sky.position,
    "same": st.booleans(),
    "rot": st.sampled_from(["array", "scalar", "none"]),
    "angle": gr(-357.3, 360, 47),
})


@check("C13", CASE, quick=600)
def outlines(case, rec):
    """Membership of positions around one or many pointings."""
    g = np.random.default_rng(case["seed"])
    s = case["foot"]["shape"]
    foot = build(case["foot"])
    n = case["n"]
    if case["same"]:
        ra0, dec0 = np.full(n, case["pointing"][0]), np.full(n, case["pointing"][1])
    else:
        ra0, dec0 = g.uniform(0, 360, n), np.degrees(np.arcsin(g.uniform(-1, 1, n)))
    rot = {"none": np.zeros(n), "scalar": np.full(n, case["angle"]), "array": g.uniform(-360, 720, n)}[case["rot"]]
    xy = probes(s, n, g)
    ra, dec = place(xy, ra0, dec0, rot)
    exp, unsure = inside(s, xy[:, 0], xy[:, 1])
    kw = {"none": {}, "scalar": {"rotation": case["angle"]}, "array": {"rotation": rot}}[case["rot"]]
    keep = [ra.copy(), dec.copy(), ra0.copy(), dec0.copy(), rot.copy()]
    got = np.asarray(foot.contains(ra, dec, ra0, dec0, **kw))
    for a, b in zip([ra, dec, ra0, dec0, rot], keep):
        same(a, b, "inputs of contains")
    require(got.shape == (n,), f"shape {got.shape}")
    wrong = (got.astype(bool) != exp) & ~unsure
    if wrong.any():
        i = int(np.flatnonzero(wrong)[0])
        require(False, f"position at detector offset {xy[i].tolist()} of {s}: contained={bool(got[i])}, expected {bool(exp[i])} (pointing {ra0[i]:.3f},{dec0[i]:.3f} rotation {rot[i]:.2f})")
    ok = ~unsure
    rec.nontrivial(exp[ok].any() and not exp[ok].all())
    rec.label(case["foot"]["form"], s["k"], "rotation " + case["rot"], "one pointing" if case["same"] else "many")
    # one at a time, other branches of right ascension, one pointing for all
    for i in range(min(n, 4)):
        k1 = {} if case["rot"] == "none" else {"rotation": float(rot[i])}
        one = foot.contains(float(ra[i]), float(dec[i]), float(ra0[i]), float(dec0[i]), **k1)
        require(np.ndim(one) == 0, "one position gives one answer")
        require(bool(one) == bool(got[i]) or unsure[i], f"position {i} alone")
    for da, db in ((360.0, 0.0), (-360.0, 0.0), (0.0, 360.0), (0.0, -360.0)):
        w = np.asarray(foot.contains(ra + da, dec, ra0 + db, dec0, **kw)).astype(bool)
        require(np.all((w == got) | unsure), f"right ascensions shifted by {da}, {db}")
    if case["rot"] != "none":
        w = np.asarray(foot.contains(ra, dec, ra0, dec0, rotation=rot + 360.0)).astype(bool)
        require(np.all((w == got) | unsure), "a full turn")
    if case["same"]:
        w = np.asarray(foot.contains(ra, dec, float(ra0[0]), float(dec0[0]), **kw)).astype(bool)
        require(np.all((w == got)), "one pointing given as numbers")
    # positions at whole degrees, given as integers, around fractional pointings
    qa, qd = g.integers(0, 360, n), g.integers(-80, 81, n)
    pa, pd_ = sky.offset(qa.astype(float), qd.astype(float), *(g.uniform(-1.2, 1.2, (2, n)) * extent(s)))
    xi, yi = surveys.detector_xy(qa.astype(float), qd.astype(float), pa, pd_, rot)
    e2, u2 = inside(s, xi, yi)
    k2 = {} if case["rot"] == "none" else {"rotation": rot}
    w = np.asarray(foot.contains(qa, qd, pa, pd_, **k2)).astype(bool)
    require(np.all((w == e2) | u2), f"integer positions {qa.tolist()}, {qd.tolist()}: {w.tolist()}, expected {e2.tolist()}")
    qa, qd = np.round(pa[0]).astype(int) + np.repeat(np.arange(-2, 3), 5), np.round(pd_[0]).astype(int) + np.tile(np.arange(-2, 3), 5)
    k2 = {} if case["rot"] == "none" else {"rotation": float(rot[0])}
    w = np.asarray(foot.contains(qa, qd, float(pa[0]), float(pd_[0]), **k2)).astype(bool)
    f = np.ones(25)
    e2, u2 = inside(s, *surveys.detector_xy(qa * 1.0, qd * 1.0, f * pa[0], f * pd_[0], f * rot[0]))
    require(np.all((w == e2) | u2), f"integer positions around {pa[0]}, {pd_[0]} turned by {rot[0]}")
    # rotating the footprint and the offsets together
    turn = float(g.uniform(-180, 180))
    ra2, dec2 = place(xy, ra0, dec0, rot + turn)
    w = np.asarray(foot.contains(ra2, dec2, ra0, dec0, rotation=rot + turn)).astype(bool)
    require(np.all((w == got) | unsure), f"turned by {turn}")
    # elsewhere on the sky
    ra3, dec3 = g.uniform(0, 360, n), np.degrees(np.arcsin(g.uniform(-1, 1, n)))
    a, d = place(xy, ra3, dec3, rot)
    w = np.asarray(foot.contains(a, d, ra3, dec3, rotation=rot)).astype(bool)
    require(np.all((w == got) | unsure), "the same offsets elsewhere on the sky")


@check("C13", fd({"foot": FOOT, "pointing": sky.position, "seed": seeds(), "n": st.integers(1, 20), "rot": gr(0, 360, 12)}), quick=200)
def far_away(case, rec):
    """Positions far from the pointing, up to the opposite side of the sky, are outside."""
    g = np.random.default_rng(case["seed"])
    foot = build(case["foot"])
    a0, d0 = case["pointing"]
    n = case["n"]
    rho = g.choice([10.0, 45.0, 89.9, 90.0, 91.0, 135.0, 179.0, 180.0], size=n)
    th = g.uniform(0, 2 * np.pi, n)
    if g.random() < 0.3:
        th = g.choice(np.arange(8) * np.pi / 4, size=n)
    ra, dec = sky.offset(np.full(n, float(a0)), np.full(n, float(d0)), rho * np.cos(th), rho * np.sin(th))
    got = np.asarray(foot.contains(ra, dec, np.full(n, float(a0)), np.full(n, float(d0)), rotation=case["rot"])).astype(bool)
    require(not got.any(), f"positions {rho[got][:3].tolist()} degrees away are contained")
    c = foot.contains(float(a0), float(d0), float(a0), float(d0), rotation=case["rot"])
    require(bool(c), "the pointing itself is not contained")
    rec.nontrivial(n > 1)


@check("C13", fd({
    "shape": SHAPES,
    "arcsec": st.sampled_from([0.2, 1.01, 36.0, 7.2]),
    "form": st.sampled_from(["sky", "pixels", "wcs", "wrapped"]),
    "px_wcs": st.sampled_from([0.004, 0.02]),
    "flip": st.sampled_from([1.0, -1.0]),
    "pointing": sky.position,
    "n": st.sampled_from([15, 20, 5, 8, 2, 1]),
    "rot": st.sampled_from(["each", "one", None]),
    "same": st.booleans(),
    "seed": seeds(),
}), quick=500)
def surveys_with_footprints(case, rec):
    """A survey's footprint covers what its region says at the survey's own pixel scale (arcseconds)."""
    g = np.random.default_rng(case["seed"])
    s = case["shape"]
    px = case["arcsec"] / 3600.0
    kw = {"pixel_scale": case["arcsec"]}
    if case["form"] == "sky":
        kw["detector_footprint"] = sky_region(s)
    elif case["form"] == "pixels":
        kw["detector_footprint"] = pixel_region(s, px)
    elif case["form"] == "wcs":
        kw["detector_footprint"] = pixel_region(s, case["px_wcs"], case["flip"])
        kw["wcs"] = the_wcs(case["px_wcs"], case["flip"], 0.0)
    else:
        kw["detector_footprint"] = DetectorFootprint(pixel_region(s, 0.01), pixel_scale=0.01)
    n = case["n"]
    q = case["pointing"]
    # pointings for which the query position has the probed offsets
    xy = probes(s, n, g)
    rot = (g.uniform(0, 360, n) if case["rot"] == "each" else np.full(n, g.uniform(0, 360))) if case["rot"] else np.zeros(n)
    near = g.normal(scale=1.2, size=(n, 2))
    ra0, dec0 = sky.offset(np.full(n, float(q[0])), np.full(n, float(q[1])), near[:, 0] * extent(s), near[:, 1] * extent(s))
    if case["same"]:
        # repeated visits of one field (or of two)
        k = 1 + case["seed"] % 2
        ra0, dec0 = ra0[np.arange(n) % k], dec0[np.arange(n) % k]
        rec.label("repeated visits")
    cols = {"time": np.arange(n) * 1.0, "ra": ra0, "dec": dec0}
    if case["rot"]:
        cols["rotation"] = rot
    table = ObsTable(pd.DataFrame(cols), radius=30.0, **kw)
    x, y = surveys.detector_xy(np.full(n, float(q[0])), np.full(n, float(q[1])), ra0, dec0, rot)
    exp, unsure = inside(s, x, y)
    got = {int(i) for i in table.range_search(float(q[0]), float(q[1]))}
    must = {int(i) for i in np.flatnonzero(exp & ~unsure)}
    may = {int(i) for i in np.flatnonzero(unsure)}
    require(must <= got <= must | may, f"rows {sorted(got)}, expected {sorted(must)} (undecided {sorted(may)})")
    rec.nontrivial(0 < len(must) < n)
    rec.label(case["form"], s["k"], "rotated" if case["rot"] else "unrotated")
    # many positions at once
    many = 60 if case["seed"] % 16 == 5 else 2
    off = g.normal(scale=1.2, size=(many, 2)) * extent(s)
    qa, qd = sky.offset(np.full(many, float(ra0[0])), np.full(many, float(dec0[0])), off[:, 0], off[:, 1])
    for i, rows in enumerate(table.range_search(qa, qd)):
        exp, unsure = inside(s, *surveys.detector_xy(np.full(n, qa[i]), np.full(n, qd[i]), ra0, dec0, rot))
        wrong = (np.isin(np.arange(n), np.asarray(rows, dtype=int)) != exp) & ~unsure
        require(not wrong.any(), f"position {i} of {many} at {qa[i]}, {qd[i]}: rows {list(rows)}, expected {np.flatnonzero(exp).tolist()}")
    table.clear_detector_footprint()
    sep = sky.separation(float(q[0]), float(q[1]), ra0, dec0)
    got = {int(i) for i in table.range_search(float(q[0]), float(q[1]))}
    require(got == {int(i) for i in np.flatnonzero(sep <= 30.0)} or np.any(np.abs(sep - 30) < 1e-6), "rows without the footprint")


@check("C13", fd({"what": st.sampled_from(["scale", "none", "offset", "dec", "center", "center_dec", "rot"]), "n": st.integers(2, 6), "seed": seeds()}), quick=60)
def refused(case, rec):
    g = np.random.default_rng(case["seed"])
    n = case["n"]
    k = case["what"]
    rec.label(k)
    rec.nontrivial()
    foot = DetectorFootprint.from_rect(1.0, 2.0, pixel_scale=0.01)
    a = g.uniform(0, 1, n)
    if k == "scale":
        for bad in (0.0, -0.1):
            raises(ValueError, lambda: DetectorFootprint(CirclePixelRegion(PixCoord(0, 0), 5), pixel_scale=bad), f"pixel scale {bad}")
    elif k == "none":
        raises(ValueError, lambda: DetectorFootprint(CirclePixelRegion(PixCoord(0, 0), 5)), "no pixel scale")
    elif k == "offset":
        raises(ValueError, lambda: DetectorFootprint(CirclePixelRegion(PixCoord(100 + n, 0), 5), pixel_scale=0.1), "a footprint away from the pointing")
    elif k == "dec":
        raises(ValueError, lambda: foot.contains(a, a[:-1], a, a), "lengths of the positions")
    elif k == "center":
        raises(ValueError, lambda: foot.contains(a, a, a[:-1] if n > 2 else np.append(a, 0), a), "lengths of the pointings")
    elif k == "center_dec":
        raises(ValueError, lambda: foot.contains(a, a, a, a[:-1] if n > 2 else np.append(a, 0)), "lengths of the pointings")
    else:
        raises(ValueError, lambda: foot.contains(a, a, a, a, rotation=np.append(a, 0.0)), "number of rotations")

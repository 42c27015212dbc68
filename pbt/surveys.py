"""Survey tables of every class built from small JSON specs, with independent copies of their data."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from lightcurvelynx.astro_utils.detector_footprint import DetectorFootprint
from lightcurvelynx.obstable.fake_obs_table import FakeObsTable
from lightcurvelynx.obstable.obs_table import ObsTable
from lightcurvelynx.obstable.opsim import OpSim
from lightcurvelynx.obstable.ztf_obstable import ZTFObsTable

from . import sky
from .gen import fd, gr, lists, seeds

FILTS = ["u", "g", "r", "i", "z", "y"]
KINDS = ["base", "opsim", "ztf", "fake", "fake_const"]
RAW = {  # original column name per mapped name (where they differ)
    "base": {},
    "opsim": {"time": "observationStartMJD", "ra": "fieldRA", "dec": "fieldDec", "exptime": "visitExposureTime",
              "seeing": "seeingFwhmEff", "skybrightness": "skyBrightness", "nexposure": "numExposures"},
    "ztf": {"time": "obsmjd", "sky": "scibckgnd"},
    "fake": {},
    "fake_const": {},
}

row_offset = st.one_of(
    st.tuples(gr(-4, 4, 80), gr(-4, 4, 80)),
    st.tuples(st.sampled_from([0.0, 1.0, -1.0, 0.5]), st.sampled_from([0.0, 1.0, -0.5])),
)
row_st = st.one_of(row_offset, row_offset, sky.position.map(lambda p: ["at", *p])).map(list)


def drawn_rows(n, seed):
    """A field of n pointings (many near the centre, some repeated, some far away)."""
    g = np.random.default_rng(seed)
    out = []
    for _ in range(n):
        u = g.random()
        if u < 0.1 and out:
            out.append(list(out[int(g.integers(len(out)))]))
        elif u < 0.2:
            out.append(["at", round(float(g.uniform(0, 360)), 3), round(float(np.degrees(np.arcsin(g.uniform(-1, 1)))), 3)])
        else:
            out.append([round(float(v), 3) for v in g.normal(scale=1.5, size=2)])
    return out


def rows_st(lo, hi):
    few = lists(row_st, lo, hi)
    if hi < 6:
        return few
    many = st.builds(drawn_rows, st.integers(max(lo, hi // 3), hi), seeds())
    return st.one_of(few, many, many)


def spec_st(kinds=KINDS, lo=0, hi=25, index=True):
    return fd({
        "kind": st.sampled_from(kinds),
        "center": sky.position,
        "rows": rows_st(lo, hi),
        "seed": seeds(),
        "index": st.sampled_from(["range", "shuffled", "offset", "repeated", "text"]) if index else st.just("range"),
        "as_dict": st.booleans(),
        "nfilt": st.integers(1, 6),
    })


def positions(spec):
    c = spec["center"]
    out = []
    for r in spec["rows"]:
        if r[0] == "at":
            out.append((float(r[1]), float(r[2])))
        elif r[0] == 0 and r[1] == 0:
            out.append((float(c[0]), float(c[1])))
        else:
            a, d = sky.offset(np.float64(c[0]), np.float64(c[1]), r[0], r[1])
            out.append((float(a), float(d)))
    return np.array(out, dtype=float).reshape(-1, 2)


def columns(spec):
    """The survey's data by mapped column name."""
    pos = positions(spec)
    n = len(pos)
    g = np.random.default_rng(spec["seed"])
    filt = g.choice(np.array(FILTS[: spec["nfilt"]]), size=n) if n else np.array([], dtype=str)
    d = {
        "time": np.round(g.uniform(0, 40, size=n) * 4) / 4,  # repeated and unsorted times
        "ra": pos[:, 0],
        "dec": pos[:, 1],
        "filter": filt,
        "tag": np.arange(n) * 10 + 7,
    }
    kind = spec["kind"]
    if kind == "base":
        d["zp"] = g.uniform(0.5, 2.0, size=n)
    elif kind == "opsim":
        d.update(
            airmass=g.uniform(1, 2.2, size=n), exptime=g.uniform(10, 60, size=n), nexposure=g.integers(1, 4, size=n),
            seeing=g.uniform(0.5, 2, size=n), skybrightness=g.uniform(17, 22.5, size=n), observationId=g.permutation(n) + 1000,
        )
    elif kind == "ztf":
        d.update(
            maglim=g.uniform(18, 21, size=n), sky=g.uniform(50, 300, size=n), fwhm=g.uniform(1, 4, size=n), exptime=g.uniform(10, 60, size=n),
        )
    elif kind == "fake":
        d.update(sky=g.uniform(5, 300, size=n), nexposure=g.integers(1, 4, size=n))
    return d


def fake_params(spec):
    g = np.random.default_rng([spec["seed"], 5])
    return {
        "zp_per_band": {f: float(np.round(g.uniform(0.2, 3), 3)) for f in FILTS},
        "fwhm_px": {f: float(np.round(g.uniform(1, 4), 3)) for f in FILTS},
        "exptime": float(np.round(g.uniform(10, 60), 3)),
        "read_noise": float(np.round(g.uniform(0, 9), 3)),
        "dark_current": float(np.round(g.uniform(0, 1), 3)),
    }


def const_params(spec):
    g = np.random.default_rng([spec["seed"], 6])
    return {
        "zp_per_band": {f: float(np.round(g.uniform(0.2, 3), 3)) for f in FILTS},
        "const_flux_error": {f: float(np.round(g.uniform(0.1, 30), 3)) for f in FILTS},
    }


def index_of(spec, n):
    g = np.random.default_rng([spec["seed"], 8])
    k = spec["index"]
    if k == "shuffled":
        return g.permutation(n)
    if k == "offset":
        return np.arange(n) + 5
    if k == "repeated":
        return np.arange(n) // 2
    if k == "text":
        return np.array([f"r{i}" for i in g.permutation(n)])
    return np.arange(n)


def raw_table(spec, data=None):
    data = columns(spec) if data is None else data
    names = RAW[spec["kind"]]
    df = pd.DataFrame({names.get(k, k): v for k, v in data.items()})
    df.index = index_of(spec, len(df))
    return df


def params(spec):
    return fake_params(spec) if spec["kind"] == "fake" else const_params(spec) if spec["kind"] == "fake_const" else {}


CLS = {"base": ObsTable, "opsim": OpSim, "ztf": ZTFObsTable, "fake": FakeObsTable, "fake_const": FakeObsTable}


def make(spec, data=None, table=None, **kw):
    table = raw_table(spec, data) if table is None else table
    if spec["as_dict"] and isinstance(table, pd.DataFrame):
        table = {c: table[c].to_numpy() for c in table.columns}
    return CLS[spec["kind"]](table, **{**params(spec), **kw})


# --------------------------------------------------------------------------------------
# the oracle of footprints and searches
# --------------------------------------------------------------------------------------
foot_st = st.one_of(
    st.none(),
    fd({"shape": st.just("rect"), "w": gr(0.2, 4, 38), "h": gr(0.2, 4, 38), "rot": st.booleans(), "wrap": st.booleans()}),
    fd({"shape": st.just("circle"), "r": gr(0.2, 3, 28), "rot": st.booleans(), "wrap": st.booleans()}),
)


def footprint(spec):
    from astropy import units as u
    from astropy.coordinates import SkyCoord
    from regions import CircleSkyRegion, RectangleSkyRegion

    c = SkyCoord(0.0, 0.0, unit="deg", frame="icrs")
    if spec["shape"] == "rect":
        if spec["wrap"]:
            return DetectorFootprint.from_rect(spec["w"], spec["h"], pixel_scale=0.01)
        return RectangleSkyRegion(center=c, width=spec["w"] * u.deg, height=spec["h"] * u.deg)
    reg = CircleSkyRegion(center=c, radius=spec["r"] * u.deg)
    return DetectorFootprint(reg, pixel_scale=0.02) if spec["wrap"] else reg


def detector_xy(ra, dec, ra0, dec0, rot):
    """Tangent plane coordinates (degrees) of positions in the detector's own axes; nan behind it."""
    v = sky.vec(ra, dec)
    r0, d0 = np.radians(ra0), np.radians(dec0)
    c = sky.vec(ra0, dec0)
    e = np.array([-np.sin(r0), np.cos(r0), np.zeros_like(r0)])
    n = np.array([-np.sin(d0) * np.cos(r0), -np.sin(d0) * np.sin(r0), np.cos(d0)])
    ce, cn, cc = np.sum(v.T * e.T, -1), np.sum(v.T * n.T, -1), np.sum(v.T * c.T, -1)
    with np.errstate(all="ignore"):
        x = np.where(cc > 1e-6, np.degrees(ce / cc), np.nan)
        y = np.where(cc > 1e-6, np.degrees(cn / cc), np.nan)
    t = np.radians(rot)
    return x * np.cos(t) - y * np.sin(t), x * np.sin(t) + y * np.cos(t)


def in_footprint(spec, ra, dec, ra0, dec0, rot, margin=3e-3):
    """(inside, uncertain) for arrays of pointings."""
    x, y = detector_xy(ra, dec, ra0, dec0, rot)
    with np.errstate(all="ignore"):
        if spec["shape"] == "rect":
            q = np.maximum(np.abs(x) / (spec["w"] / 2), np.abs(y) / (spec["h"] / 2))
        else:
            q = np.hypot(x, y) / spec["r"]
    q = np.where(np.isnan(q), np.inf, q)
    return q < 1, np.abs(q - 1) < margin


def search(data, ra, dec, radius, t_min=None, t_max=None, foot=None, rot=None):
    """Indices that must be returned, and indices too close to an edge to decide."""
    n = len(data["ra"])
    if n == 0:
        return set(), set()
    sep = sky.separation(ra, dec, data["ra"], data["dec"])
    ok = sep <= radius
    unsure = np.abs(sep - radius) < 1e-7 + 1e-9 * radius
    same = (data["ra"] == ra) & (data["dec"] == dec)
    ok |= same
    unsure &= ~same
    intime = np.ones(n, dtype=bool)
    if t_min is not None:
        intime &= data["time"] >= t_min
    if t_max is not None:
        intime &= data["time"] <= t_max
    if foot is not None:
        ins, uns = in_footprint(foot, ra, dec, data["ra"], data["dec"], np.zeros(n) if rot is None else rot)
        ok, unsure = ok & ins & ~uns, (unsure & (ins | uns)) | (uns & (ok | unsure))
    must = set(np.flatnonzero(ok & ~unsure & intime).tolist())
    may = set(np.flatnonzero(unsure & intime).tolist())
    return must, may

import numpy as np
from astropy import units as u
from astropy.coordinates import Latitude, Longitude, SkyCoord
from hypothesis import strategies as st
from mocpy import MOC
from scipy import stats

from lightcurvelynx.base_models import FunctionNode
from lightcurvelynx.math_nodes.ra_dec_sampler import (
    ApproximateMOCSampler,
    ObsTableRADECSampler,
    ObsTableUniformRADECSampler,
    UniformRADEC,
)
from lightcurvelynx.obstable.obs_table import ObsTable
from lightcurvelynx.obstable.opsim import OpSim, create_random_opsim, opsim_add_random_data
from lightcurvelynx.obstable.ztf_obstable import ZTFObsTable, create_random_ztf_obs_data

from .. import sky
from ..core import check, close, describe, raises, require, same
from ..gen import fd, gr, lists, seeds

describe(
    "C08",
    "Cases are survey footprints with fields anywhere (poles and RA = 0 included), radii, coverage maps, batch sizes and "
    "seeds; non-trivial when at least one drawn position is not a field centre.",
    [
        "ObsTableRADECSampler is documented as only approximately uniform within the field; its radial law is checked for small fields",
        "ObsTableUniformRADECSampler is documented to give up after max_iterations and return the last attempt; few_attempts checks the share of covered positions, the other cases keep enough coverage",
        "a coverage map cell counts as reachable when its centre is within the radius plus the size of a cell",
    ],
)
P_MIN = 1e-10


@check("C08", fd({"seed": seeds(), "deg": st.booleans(), "n": st.sampled_from([1, 2, 2000, 2000, 25000]), "rng": st.booleans()}), quick=300)
def uniform_sky(case, rec):
    node = UniformRADEC(seed=case["seed"], use_degrees=case["deg"], node_label="s")
    rng = np.random.default_rng([case["seed"], 7]) if case["rng"] else None
    state = node.sample_parameters(num_samples=case["n"], rng_info=rng)
    ra, dec = state["s"]["ra"], state["s"]["dec"]
    if case["n"] == 1:
        require(np.ndim(ra) == 0 and np.ndim(dec) == 0, "a single sample is a number")
    else:
        require(np.shape(ra) == (case["n"],) == np.shape(dec), "one position per sample")
    full = 360.0 if case["deg"] else 2 * np.pi
    ra, dec = np.atleast_1d(ra), np.atleast_1d(dec)
    require(np.all((ra >= 0) & (ra < full)), "right ascension out of range")
    require(np.all(np.abs(dec) <= full / 4), "declination out of range")
    if case["n"] > 100:
        z = np.sin(dec * 2 * np.pi / full)
        require(stats.kstest(ra / full, "uniform").pvalue > P_MIN, "right ascension not uniform")
        require(stats.kstest((z + 1) / 2, "uniform").pvalue > P_MIN, "not uniform in area")
        require(stats.spearmanr(ra, z).pvalue > P_MIN, "right ascension and declination are correlated")
        # uniform in smaller patches as well
        counts = np.histogram2d(ra / full, z, bins=[8, 4], range=[[0, 1], [-1, 1]])[0].ravel()
        require(stats.chisquare(counts).pvalue > P_MIN, "patches of equal area are not hit equally")
    rec.nontrivial(case["n"] > 1)


@check("C08", fd({"kind": st.sampled_from(["opsim", "ztf"]), "seed": seeds(), "n": st.sampled_from([3, 1, 40, 4000, 20000])}), quick=60)
def random_surveys(case, rec):
    """Random surveys point uniformly at the whole sky, are repeated by their seed and can be used."""
    n, seed = case["n"], case["seed"]
    if case["kind"] == "opsim":
        make_one = lambda k: create_random_opsim(n, seed=k)  # noqa: E731
    else:
        make_one = lambda k: ZTFObsTable(create_random_ztf_obs_data(n, seed=k))  # noqa: E731
    t, again, other = make_one(seed), make_one(seed), make_one(seed + 1)
    require(len(t) == n, f"{len(t)} pointings, asked for {n}")
    for c in t._table.columns if hasattr(t, "_table") else ():
        same(t[c].to_numpy(), again[c].to_numpy(), f"column {c} of the same seed")
    ra, dec = t["ra"].to_numpy(float), t["dec"].to_numpy(float)
    require(not np.any(np.isin(ra, other["ra"].to_numpy(float))), "another seed, the same pointings")
    require(np.all((ra >= 0) & (ra < 360) & (np.abs(dec) <= 90)), "pointings out of range")
    if n >= 4000:
        z = np.sin(np.radians(dec))
        require(stats.kstest(ra / 360, "uniform").pvalue > P_MIN, "right ascension not uniform")
        require(stats.kstest((z + 1) / 2, "uniform").pvalue > P_MIN, "not uniform in area")
        require(stats.spearmanr(ra, z).pvalue > P_MIN, "right ascension and declination are correlated")
        counts = np.histogram2d(ra / 360, z, bins=[8, 4], range=[[0, 1], [-1, 1]])[0].ravel()
        require(stats.chisquare(counts).pvalue > P_MIN, "patches of equal area are not hit equally")
        names = ["u", "g", "r", "i", "z", "y"] if case["kind"] == "opsim" else ["g", "r", "i"]
        counts = [int(np.sum(t["filter"].to_numpy() == f)) for f in names]
        require(sum(counts) == n and stats.chisquare(counts).pvalue > P_MIN, f"filters {counts}")
        for c in ("ra", "dec"):  # the filter says nothing about the position
            groups = [t[c].to_numpy(float)[t["filter"].to_numpy() == f] for f in names]
            require(stats.kruskal(*groups).pvalue > P_MIN, f"{c} and filter are related")
    zp = t["zp"].to_numpy(float)
    require(np.all(np.isfinite(zp) & (zp > 0)) and np.all(t["exptime"].to_numpy(float) > 0), "zero points")
    time = t["time"].to_numpy(float)
    require(np.all(np.isfinite(time)) and np.all(np.diff(time) >= 0), "times")
    k = int(np.random.default_rng([seed, 8]).integers(n))
    found = np.asarray(t.range_search(float(ra[k]), float(dec[k]), radius=1e-6))
    require(k in found, f"pointing {k} is not found at its own position: {found}")
    before = {c: t[c].to_numpy().copy() for c in ("ra", "dec", "time", "filter", "zp")}
    lo, hi = sorted(np.random.default_rng([seed, 9]).uniform(-5, 5, 2))
    if case["kind"] == "opsim":
        opsim_add_random_data(t, "extra", lo, hi)
        x = t["extra"].to_numpy(float)
        require(len(x) == n and np.all((x >= lo) & (x <= hi)), "values of a random column")
        if n >= 4000:
            require(stats.kstest((x - lo) / (hi - lo), "uniform").pvalue > P_MIN, "a random column is not uniform")
        for c, v in before.items():
            same(t[c].to_numpy(), v, f"{c} after adding a column")
    for bad in (0, -1):
        raises(ValueError, lambda bad=bad: create_random_opsim(bad, seed=1), f"{bad} pointings")
        raises(ValueError, lambda bad=bad: create_random_ztf_obs_data(bad, seed=1), f"{bad} pointings")
    rec.label(case["kind"])
    rec.nontrivial(n > 1)


def make(case):
    pos = case["fields"]
    t = 100.0 + np.arange(len(pos)) * 1.5
    data = {"ra": np.array([p[0] for p in pos], dtype=float), "dec": np.array([p[1] for p in pos], dtype=float), "time": t}
    if case.get("ints"):
        data["ra"] = np.floor(data["ra"]).astype(int)
        data["dec"] = np.trunc(data["dec"]).astype(int)
    return ObsTable(data, radius=case["radius"]), data


def draw(node, n, rng=None, names=("ra", "dec")):
    state = node.sample_parameters(num_samples=n, rng_info=rng)
    out = []
    for nm in names:
        v = state["s"][nm]
        require(np.shape(v) == (() if n == 1 else (n,)), f"{nm} has shape {np.shape(v)} for {n} samples")
        out.append(np.atleast_1d(np.asarray(v, dtype=float)))
    return out


@check(
    "C08",
    fd({"fields": lists(sky.position, 1, 6), "radius": st.sampled_from([0.0, 0.01, 0.5, 1.75, 6.0, 40.0]), "override": st.booleans(),
        "n": st.sampled_from([1, 2, 7, 400, 400, 11000]), "seed": seeds(), "in_order": st.booleans(), "rng": st.booleans(), "ints": st.booleans()}),
    quick=900,
)
def pointing_sampler(case, rec):
    table, data = make(case)
    r = case["radius"]
    n = min(case["n"], len(data["ra"])) if case["in_order"] else case["n"]
    if case["override"]:
        table.survey_values["radius"] = 123.0
        node = ObsTableRADECSampler(table, radius=r, in_order=case["in_order"], seed=case["seed"], node_label="s")
    else:
        node = ObsTableRADECSampler(table, in_order=case["in_order"], seed=case["seed"], node_label="s")
    rng = np.random.default_rng([case["seed"], 3]) if case["rng"] else None
    ra, dec, time = draw(node, n, rng, ("ra", "dec", "time"))
    require(np.all(np.abs(dec) <= 90.0), f"declination {dec} out of range")
    idx = np.searchsorted(data["time"], time)
    same(data["time"][np.minimum(idx, len(data["time"]) - 1)], time, "the time is a time of the survey")
    sep = sky.separation(ra, dec, data["ra"][idx].astype(float), data["dec"][idx].astype(float))
    require(np.all(sep <= r + 1e-9), f"position {sep.max()} deg from its pointing, radius {r}")
    if r == 0:
        same(ra, data["ra"][idx].astype(float), "centres only")
        same(dec, data["dec"][idx].astype(float), "centres only")
    if case["in_order"]:
        same(idx, np.arange(n), "pointings in order")
        if n < len(data["ra"]):
            _, _, t2 = draw(node, 1, rng, ("ra", "dec", "time"))
            require(t2[0] == data["time"][n], "the next pointing follows")
    elif n >= 400:
        counts = np.bincount(idx, minlength=len(data["ra"]))
        if len(counts) > 1:
            require(stats.chisquare(counts).pvalue > P_MIN, "pointings are not chosen uniformly")
        if 0 < r <= 6.0:
            require(stats.kstest((sep / r) ** 2, "uniform").pvalue > P_MIN, "offsets are not uniform in the field")
            cd = np.abs(np.cos(np.radians(data["dec"][idx].astype(float))))
            pa = np.degrees(
                np.arctan2(
                    *sky.tangent_offset(ra, dec, data["ra"][idx].astype(float), data["dec"][idx].astype(float))
                )
            )
            ok = cd > 0.2
            if ok.sum() > 50:
                require(stats.kstest((pa[ok] + 180) / 360, "uniform").pvalue > P_MIN, "offsets prefer a direction")
    rec.label(f"radius {r}", "ordered" if case["in_order"] else "random")
    rec.nontrivial(r > 0)


@check(
    "C08",
    fd({"fields": lists(sky.position, 1, 5), "radius": st.sampled_from([15.0, 25.0, 40.0]), "override": st.booleans(),
        "n": st.sampled_from([1, 2, 7, 300]), "seed": seeds(), "rng": st.booleans()}),
    quick=400,
)
def uniform_in_survey(case, rec):
    table, data = make(case)
    r = case["radius"]
    if case["override"]:
        table.survey_values["radius"] = 0.001 if case["seed"] % 2 else 170.0
        node = ObsTableUniformRADECSampler(table, radius=r, seed=case["seed"], max_iterations=5000, node_label="s")
    else:
        node = ObsTableUniformRADECSampler(table, seed=case["seed"], max_iterations=5000, node_label="s")
    rng = np.random.default_rng([case["seed"], 3]) if case["rng"] else None
    ra, dec = draw(node, case["n"], rng)
    require(np.all((ra >= 0) & (ra < 360) & (np.abs(dec) <= 90)), "coordinates out of range")
    sep = np.array([sky.separation(ra, dec, a, d) for a, d in case["fields"]])
    require(np.all(sep.min(axis=0) <= r + 1e-9), f"position {sep.min(axis=0).max()} deg away from every pointing")
    if case["n"] >= 300:
        # uniform over the union: compare with an independent sample of the union
        g = np.random.default_rng([case["seed"], 99])
        m = 40000
        ra2 = g.uniform(0, 360, m)
        dec2 = np.degrees(np.arcsin(g.uniform(-1, 1, m)))
        sep2 = np.array([sky.separation(ra2, dec2, a, d) for a, d in case["fields"]])
        ok = sep2.min(axis=0) <= r
        for k in range(len(case["fields"])):
            p = stats.ks_2samp(sep[k], sep2[k][ok]).pvalue
            require(p > P_MIN, f"not uniform over the survey (distance to field {k}: p={p})")
        for f in (lambda a, d: np.cos(np.radians(d)) * np.cos(np.radians(a)), lambda a, d: np.cos(np.radians(d)) * np.sin(np.radians(a)), lambda a, d: np.sin(np.radians(d))):
            require(stats.ks_2samp(f(ra, dec), f(ra2[ok], dec2[ok])).pvalue > P_MIN, "not uniform over the survey")
    rec.label(f"n {case['n']}")
    rec.nontrivial()


@check("C08", fd({"ra": gr(0, 359, 60), "dec": st.sampled_from([84.0, -84.0, 70.0, 90.0]), "radius": st.sampled_from([6.0, 9.0]), "seed": seeds()}), quick=12)
def uniform_in_a_small_survey(case, rec):
    """A small area needs many attempts; the late ones count like the early ones."""
    r = case["radius"]
    fields = [[case["ra"], case["dec"]], [(case["ra"] + 120.0) % 360, 0.0]]
    t = ObsTable({"ra": [f[0] for f in fields], "dec": [f[1] for f in fields], "time": [1.0, 2.0]}, radius=r)
    node = ObsTableUniformRADECSampler(t, seed=case["seed"], max_iterations=10**6, node_label="s")
    ra, dec = draw(node, 500, None)
    sep = np.array([sky.separation(ra, dec, a, d) for a, d in fields])
    require(np.all(sep.min(axis=0) <= r + 1e-9), "position away from every pointing")
    which = sep.argmin(axis=0)
    k = int(np.sum(which == 0))
    require(stats.binomtest(k, 500, 0.5).pvalue > P_MIN, f"{k} of 500 positions in the first of two equal fields")
    # the distance from the centre: area grows as 1 - cos
    v = (1 - np.cos(np.radians(sep.min(axis=0)))) / (1 - np.cos(np.radians(r)))
    require(stats.kstest(v, "uniform").pvalue > P_MIN, "not uniform in the field")
    rec.nontrivial()


@check(
    "C08",
    fd({"field": sky.position, "radius": st.sampled_from([40.0, 90.0, 60.0, 120.0]), "tries": st.sampled_from([1, 2, 3, 5]),
        "n": st.sampled_from([400, 1, 3, 3000]), "seed": seeds(), "rng": st.booleans()}),
    quick=200,
)
def few_attempts(case, rec):
    """Every allowed attempt is made: the share of covered positions follows from their number."""
    r, k, n = case["radius"], case["tries"], case["n"]
    t = ObsTable({"ra": [case["field"][0]], "dec": [case["field"][1]], "time": [1.0]}, radius=r)
    node = ObsTableUniformRADECSampler(t, seed=case["seed"], max_iterations=k, node_label="s")
    ra, dec = draw(node, n, np.random.default_rng([case["seed"], 3]) if case["rng"] else None)
    require(np.all((ra >= 0) & (ra < 360) & (np.abs(dec) <= 90)), "coordinates out of range")
    require(not np.any((ra == 0) & (dec == 0)), "positions that were never drawn")
    require(len(np.unique(ra)) == n, "the same position twice")
    inside = sky.separation(ra, dec, *case["field"]) <= r
    f = (1 - np.cos(np.radians(r))) / 2
    found = stats.binomtest(int(inside.sum()), n, 1 - (1 - f) ** k)
    require(found.pvalue > P_MIN, f"{inside.sum()} of {n} positions are covered after up to {k} attempts each")
    if inside.sum() > 100:
        v = (1 - np.cos(np.radians(sky.separation(ra, dec, *case["field"])[inside]))) / (2 * f)
        require(stats.kstest(v, "uniform").pvalue > P_MIN, "not uniform in the field")
    if n - inside.sum() > 100:
        v = (1 - np.cos(np.radians(sky.separation(ra, dec, *case["field"])[~inside]))) / 2
        require(stats.kstest((v - f) / (1 - f), "uniform").pvalue > P_MIN, "the last attempts are not uniform outside of the field")
    rec.label(f"attempts {k}")
    rec.nontrivial(n > 1)


def cones(fields, radius, depth):
    return MOC.from_cones(
        lon=Longitude([f[0] for f in fields], unit="deg"), lat=Latitude([f[1] for f in fields], unit="deg"),
        radius=radius * u.deg, max_depth=depth, union_strategy="large_cones",
    )


@check(
    "C08",
    fd({"fields": lists(sky.position, 1, 4), "radius": st.sampled_from([0.3, 2.0, 10.0, 30.0]), "map_depth": st.integers(3, 9),
        "extra": st.integers(0, 4), "n": st.sampled_from([1, 3, 500, 500, 12000]), "seed": seeds(), "rng": st.booleans(), "file": st.booleans()}),
    quick=400,
)
def coverage_map_sampler(case, rec):
    depth = case["map_depth"] + case["extra"]
    if case["radius"] > 5 and depth > 10:
        depth = case["map_depth"]
    moc = cones(case["fields"], case["radius"], case["map_depth"])
    if case["file"]:
        import os
        import tempfile

        with tempfile.TemporaryDirectory() as d:
            path = os.path.join(d, "m.fits")
            moc.save(path, format="fits")
            node = ApproximateMOCSampler.from_file(path, seed=case["seed"], depth=depth, node_label="s")
    else:
        node = ApproximateMOCSampler(moc, seed=case["seed"], depth=depth, node_label="s")
        for bad in (1, 0, -3, 30):
            raises(ValueError, lambda: ApproximateMOCSampler(moc, depth=bad), f"depth {bad}")  # noqa: B023
    rng = np.random.default_rng([case["seed"], 3]) if case["rng"] else None
    ra, dec = draw(node, case["n"], rng)
    require(np.all((ra >= 0) & (ra <= 360) & (np.abs(dec) <= 90)), "coordinates out of range")
    inside = moc.contains_skycoords(SkyCoord(ra, dec, unit="deg"))
    require(np.all(inside), "positions outside the map")
    if case["n"] >= 500:
        # each cell of the map is hit in proportion to its area
        from cdshealpix.nested import lonlat_to_healpix

        cells = np.sort(moc.to_order(case["map_depth"]).flatten())
        ipix = lonlat_to_healpix(ra * u.deg, dec * u.deg, case["map_depth"])
        groups = min(20, len(cells))
        which = (np.searchsorted(cells, ipix) * groups) // len(cells)
        size = np.bincount((np.arange(len(cells)) * groups) // len(cells), minlength=groups)
        counts = np.bincount(which, minlength=groups)
        if groups > 1:
            require(stats.chisquare(counts, size / size.sum() * counts.sum()).pvalue > P_MIN, "cells are not hit in proportion to their area")
        require(len(np.unique(np.round(ra, 9))) > 0.9 * min(len(ra), 500), "positions within a cell are not spread")
        # the parts of the cells have equal areas and are hit equally often
        for more in (1, 2):
            part = lonlat_to_healpix(ra * u.deg, dec * u.deg, depth + more).astype(np.int64) % 4**more
            counts = np.bincount(part, minlength=4**more)
            require(stats.chisquare(counts).pvalue > P_MIN, f"the parts of the cells of depth {depth} are hit {counts} times")
    rec.label(f"depth {depth}")
    rec.nontrivial()


@check(
    "C08",
    fd({"fields": lists(sky.position, 1, 3), "map_depth": st.sampled_from([20, 29, 14, 16, 26, 11, 17]), "extra": st.integers(0, 4),
        "n": st.sampled_from([1, 3, 400]), "seed": seeds(), "rng": st.booleans()}),
    quick=150,
)
def fine_coverage_maps(case, rec):
    """Maps of tiny regions, down to the finest resolution of coverage maps."""
    md = case["map_depth"]
    depth = min(md + case["extra"], 29)
    cell = np.degrees(np.sqrt(4 * np.pi / 12)) / 2.0**md
    moc = cones(case["fields"], max(1.5 * cell, 1e-8), md)
    node = ApproximateMOCSampler(moc, seed=case["seed"], depth=depth, node_label="s")
    rng = np.random.default_rng([case["seed"], 3]) if case["rng"] else None
    ra, dec = draw(node, case["n"], rng)
    require(np.all((ra >= 0) & (ra <= 360) & (np.abs(dec) <= 90)), "coordinates out of range")
    sep = np.min([sky.separation(ra, dec, a, d) for a, d in case["fields"]], axis=0)
    require(np.all(sep <= 6.0 * cell + 1e-7), f"position {sep.max()} deg from every region of the map (cell {cell})")
    if md <= 26:
        require(np.all(moc.contains_skycoords(SkyCoord(ra, dec, unit="deg"))), "positions outside the map")
    if case["n"] >= 400:
        near = np.argmin([sky.separation(ra, dec, a, d) for a, d in case["fields"]], axis=0)
        cells = moc.to_order(md).flatten()
        if len({(round(a, 3), round(d, 3)) for a, d in case["fields"]}) == len(case["fields"]):
            from cdshealpix.nested import healpix_to_skycoord

            cc = healpix_to_skycoord(cells.astype(np.uint64), depth=md)
            own = np.argmin([sky.separation(cc.ra.deg, cc.dec.deg, a, d) for a, d in case["fields"]], axis=0)
            size = np.bincount(own, minlength=len(case["fields"]))
            counts = np.bincount(near, minlength=len(case["fields"]))
            if len(size) > 1 and size.min() > 0:
                require(stats.chisquare(counts, size / size.sum() * counts.sum()).pvalue > P_MIN, "regions are not hit in proportion to their area")
    rec.label(f"depth {depth}")
    rec.nontrivial()


@check(
    "C08",
    fd({"fields": lists(sky.position, 1, 6), "radius": st.sampled_from([0.05, 0.5, 2.0, 10.0]), "override": st.sampled_from([None, 0.2, 0.02, 3.0]),
        "depth": st.integers(4, 12), "seed": seeds(), "jitter": st.booleans()}),
    quick=500,
)
def coverage_map_of_a_survey(case, rec):
    case = dict(case)
    if case["depth"] > 9 and (case["override"] or case["radius"]) > 1.0:
        case["depth"] -= 4
    if case["jitter"]:
        # coordinates with all their decimals
        g = np.random.default_rng([case["seed"], 41])
        case["fields"] = [[float(np.clip(a + g.uniform(0, 0.4), 0, 359.9999)), float(np.clip(d + g.uniform(-0.4, 0.4), -90, 90))] for a, d in case["fields"]]
    table, data = make(case)
    r = case["override"] or case["radius"]
    moc = table.build_moc(radius=case["override"], max_depth=case["depth"])
    require(moc.max_order == case["depth"], f"depth {moc.max_order}")
    c = SkyCoord([f[0] for f in case["fields"]], [f[1] for f in case["fields"]], unit="deg")
    require(np.all(moc.contains_skycoords(c)), "a pointing centre is not in the map")
    # points inside a pointing are in the map
    g = np.random.default_rng(case["seed"])
    k = 60
    which = g.integers(0, len(case["fields"]), k)
    p = c[which].directional_offset_by(g.uniform(0, 360, k) * u.deg, r * np.sqrt(g.uniform(0, 1, k)) * 0.999 * u.deg)
    require(np.all(moc.contains_skycoords(p)), "a position within the radius of a pointing is not in the map")
    # no cell beyond reach
    from cdshealpix.nested import healpix_to_skycoord

    cells = moc.to_order(case["depth"]).flatten()
    cc = healpix_to_skycoord(cells.astype(np.uint64), depth=case["depth"])
    cell = np.degrees(np.sqrt(4 * np.pi / (12 * 4 ** case["depth"])))
    sep = np.min([sky.separation(cc.ra.deg, cc.dec.deg, a, d) for a, d in case["fields"]], axis=0)
    require(np.all(sep <= r + 2.0 * cell), f"a cell {sep.max()} deg away from every pointing (radius {r}, cell {cell})")
    rec.nontrivial(len(case["fields"]) > 1)


@check("C08", fd({"fields": lists(sky.position, 1, 3), "kind": st.sampled_from(["none", "neg", "empty", "opsim"]), "seed": seeds()}), quick=150)
def refused(case, rec):
    data = {"ra": [f[0] for f in case["fields"]], "dec": [f[1] for f in case["fields"]], "time": np.arange(len(case["fields"])) * 1.0}
    t = ObsTable(data, radius=None)
    if case["kind"] == "none":
        raises(ValueError, lambda: ObsTableRADECSampler(t), "no radius")
        raises(ValueError, lambda: ObsTableUniformRADECSampler(t), "no radius")
        raises(ValueError, lambda: t.build_moc(), "no radius")
    elif case["kind"] == "neg":
        raises(ValueError, lambda: ObsTableRADECSampler(t, radius=-1.0), "negative radius")
        raises(ValueError, lambda: ObsTableUniformRADECSampler(t, radius=-1.0), "negative radius")
        raises(ValueError, lambda: ObsTableUniformRADECSampler(t, radius=0.0), "zero radius")
        raises(ValueError, lambda: ObsTableUniformRADECSampler(t, radius=1.0, max_iterations=0), "no iterations")
    elif case["kind"] == "opsim":
        # a survey with its own column names, and linked to another node
        o = OpSim({"observationStartMJD": data["time"], "fieldRA": data["ra"], "fieldDec": data["dec"], "zp_nJy": np.ones(len(data["ra"]))})
        node = ObsTableRADECSampler(o, radius=0.0, seed=case["seed"], node_label="s")
        top = FunctionNode(lambda a, d, t: a + 1000 * d, a=node.ra, d=node.dec, t=node.time, node_label="top")
        s = top.sample_parameters(num_samples=4)
        close(s["top"]["function_node_result"], s["s"]["ra"] + 1000 * s["s"]["dec"], rtol=0, msg="linked positions")
        ok = [any(a == x and d == y and t == z for x, y, z in zip(data["ra"], data["dec"], data["time"])) for a, d, t in zip(s["s"]["ra"], s["s"]["dec"], s["s"]["time"])]
        require(all(ok), "position and time belong together")
    else:
        raises(ValueError, lambda: ObsTableUniformRADECSampler(ObsTable({"ra": [], "dec": [], "time": []}, radius=1.0)), "empty survey")
    rec.label(case["kind"])
    rec.nontrivial()

import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from lightcurvelynx.astro_utils.passbands import Passband, PassbandGroup

from .. import bands
from ..core import Reject, check, close, describe, known_finding, raises, require, same
from ..gen import fd, gr, seeds

describe(
    "C17",
    "Cases are transmission tables (any grid, requested step, trimming, unit, number type), files and directories in every "
    "supported format, and malformed tables; non-trivial when the table is resampled, trimmed, converted or read from a file.",
    ["the requested step is stretched so that the grid covers the range exactly; a grid within a relative 1e-5 of the requested step is kept",
     "trimming may keep one more grid point than the quantile asks for"],
)

TRIM = st.sampled_from([None, 0.05, 1e-3, 0.0, 0.2, 0.4])


def area(w, t):
    return np.concatenate([[0.0], np.cumsum(np.diff(w) * (t[1:] + t[:-1]) / 2)])


def full_grid(tab, d, n_hint=None):
    """The grid that covers the whole range with the requested step stretched to fit."""
    if d is None or np.allclose(np.diff(tab[:, 0]), d, rtol=1e-5, atol=1e-8):
        return tab[:, 0].copy()
    r = tab[-1, 0] - tab[0, 0]
    return np.linspace(tab[0, 0], tab[-1, 0], int(r / d) + 1)


def check_curve(pb, tab, d, trim, rec, msg=""):
    """The passband is the given curve (angstroms) on a valid grid, trimmed as asked."""
    p = np.asarray(pb.processed_transmission_table)
    w = np.asarray(pb.waves)
    same(p[:, 0], w, msg + "grid")
    require(len(w) >= 2 and np.all(np.diff(w) > 0), msg + f"grid is not increasing: {w}")
    r = tab[-1, 0] - tab[0, 0]
    eps = 1e-9 * tab[-1, 0]
    require(w[0] >= tab[0, 0] - eps and w[-1] <= tab[-1, 0] + eps, msg + "grid leaves the table's range")
    t = np.interp(w, tab[:, 0], tab[:, 1])
    shape = p[:, 1] * w
    k = np.sum(shape * t) / np.sum(t * t)
    close(shape, k * t, rtol=1e-8, atol=1e-9 * k * tab[:, 1].max(), msg=msg + "shape of the curve")
    g = full_grid(tab, d)
    if d is not None and len(g) > 1 and len(w) > 1:
        h = np.diff(w)
        n = max(int(r / d), 1)
        close(h, np.full(len(h), h[0]), rtol=1e-4, msg=msg + "even spacing")
        require(d * (1 - 2e-5) <= h[0] <= d * (1 + 1 / n) * (1 + 1e-9) + 1e-8, msg + f"spacing {h[0]} for a requested {d} over {r}")
    if not trim:
        close([w[0], w[-1]], [tab[0, 0], tab[-1, 0]], rtol=1e-12, msg=msg + "untrimmed range")
        if d is None:
            close(w, tab[:, 0], rtol=1e-12, msg=msg + "the table's own grid")
        return
    # trimming: at most the quantile is lost at either side, and no more than needed is kept
    lo = int(np.argmin(np.abs(g - w[0])))
    hi = lo + len(w) - 1
    require(hi < len(g), msg + "trimmed grid is not a part of the whole grid")
    close(w, g[lo : hi + 1], rtol=1e-9, msg=msg + "trimmed grid is a part of the whole grid")
    a = area(g, np.interp(g, tab[:, 0], tab[:, 1]))
    a = a / a[-1]
    tol = 1e-9
    require(a[lo] <= trim + tol, msg + f"lost {a[lo]} of the area at the start, quantile {trim}")
    if lo + 2 < len(g):
        require(a[lo + 2] >= trim - tol, msg + f"kept too much at the start ({a[lo + 2]} for {trim})")
    if 1 - a[hi] > trim + tol:
        require(hi + 1 < len(g) and 1 - a[hi + 1] <= trim + tol, msg + f"lost {1 - a[hi]} of the area at the end, quantile {trim}")
        known_finding(rec, "trim_upper_cell", f"lost {1 - a[hi]} of the area at the end, quantile {trim}")
    elif hi >= 2:
        require(1 - a[hi - 2] >= trim - tol, msg + f"kept too much at the end ({1 - a[hi - 2]} for {trim})")


CASE = fd({
    "table": bands.TABLE,
    "delta": bands.DELTA,
    "trim": TRIM,
    "units": st.sampled_from(["nm", "A", "int nm", "int A"]),
    "repeat": st.booleans(),
    "dense": st.booleans(),
    "again": bands.DELTA,
    "again_trim": TRIM,
    "seed": seeds(),
})


def fine(tab, seed):
    """The table on a dense uneven grid, so that trimming takes away small pieces."""
    g = np.random.default_rng([seed, 31])
    x = np.unique(np.round(np.concatenate([tab[:, 0], g.uniform(tab[0, 0], tab[-1, 0], 60)]), 2))
    return np.column_stack([x, np.interp(x, tab[:, 0], tab[:, 1])])


def too_short(tab, d, trim):
    """True when the trimmed table may keep less than two points (then the table is refused)."""
    g = full_grid(tab, d)
    if len(g) < 2:
        return True
    a = area(g, np.interp(g, tab[:, 0], tab[:, 1]))
    if a[-1] == 0:  # the coarse grid misses the transmission
        return True
    if not trim:
        return False
    a = a / a[-1]
    lo = np.flatnonzero(a <= trim + 1e-9)[-1]
    hi = np.flatnonzero(a >= 1 - trim - 1e-9)[0]
    return hi - lo < 3


@check("C17", CASE, quick=3000)
def processing(case, rec):
    tab = bands.table(case["table"])
    if case["dense"]:
        tab = fine(tab, case["seed"])
    integers = case["units"].startswith("int")
    if integers:
        tab = np.round(tab / 10) * 10 if case["units"] == "int nm" else np.round(tab)
        tab[:, 1] = np.arange(1, len(tab) + 1) % 5 + 1
        keep = np.concatenate([[True], np.diff(tab[:, 0]) > 0])
        tab = tab[keep]
        if len(tab) < 2:
            raise Reject()
    nm = case["units"].endswith("nm")
    given = tab / [10.0, 1.0] if nm else tab.copy()
    if integers:
        given = np.round(given).astype(int)
    curve = tab
    if case["repeat"] and len(tab) > 2:
        i = np.random.default_rng(case["seed"]).integers(1, len(tab) - 1)
        more = 1 + case["seed"] % 3  # the values at one wavelength are averaged
        extra = np.repeat(given[i : i + 1], more, axis=0)
        extra[:, 1] = 2 if integers else given[i, 1] * (3 + np.arange(more))
        curve = tab.copy()
        curve[i, 1] = (curve[i, 1] + extra[:, 1].sum()) / (1 + more)
        given = np.concatenate([given[: i + 1], extra, given[i + 1 :]])
        rec.label("repeated wavelength")
    d, trim = bands.delta(case["delta"], curve), case["trim"]
    keep = given.copy()
    if too_short(curve, d, trim):
        try:
            pb = Passband(given, "S", "x", delta_wave=d, trim_quantile=trim, units="nm" if nm else "A")
        except (ValueError, IndexError):
            rec.label("nothing left")
            return
    else:
        pb = Passband(given, "S", "x", delta_wave=d, trim_quantile=trim, units="nm" if nm else "A")
    same(given, keep, "the caller's table")
    require(pb.full_name == "S_x" and pb.survey == "S" and pb.filter_name == "x", "names")
    check_curve(pb, curve, d, trim, rec)
    g = full_grid(curve, d)
    rec.nontrivial(len(g) != len(curve) or bool(trim) or nm)
    rec.label("delta " + case["delta"], f"trim {trim}")
    # independent of the caller's table
    other = Passband(given.copy(), "S", "x", delta_wave=d, trim_quantile=trim, units="nm" if nm else "A")
    if not integers:
        given[:] = -1.0
    d2, t2 = bands.delta(case["again"], curve), case["again_trim"]
    if not too_short(curve, d2, t2):
        pb.process_transmission_table(d2, t2)
        check_curve(pb, curve, d2, t2, rec, "reprocessed: ")
        pb.process_transmission_table(d, trim)
    same(pb.waves, other.waves, "reprocessed grid")
    same(pb.processed_transmission_table, other.processed_transmission_table, "reprocessed table")
    require(pb == other, "equal passbands")


FORMATS = [".dat", ".xml", ".csv", ".txt", ".ecsv", ".vot"]


def write(path, tab, unit):
    """Writes the table (angstroms) in the given unit."""
    t = tab / [10.0, 1.0] if unit == "nm" else tab
    ext = os.path.splitext(path)[1]
    if ext in (".xml", ".vot"):
        from astropy import units as u
        from astropy.table import Table

        x = Table()
        x["Wavelength"] = t[:, 0] * (u.nm if unit == "nm" else u.AA)
        x["Transmission"] = t[:, 1]
        x.write(path, format="votable")
    else:
        sep = "," if ext in (".csv", ".ecsv") else " "
        with open(path, "w") as f:
            f.write("# wavelength transmission\n")
            for a, b in t:
                f.write(f"{a!r}{sep}{b!r}\n".replace("np.float64(", "").replace(")", ""))


def equal(a, b, msg):
    close(a.waves, b.waves, rtol=1e-11, msg=msg + ": grid")
    close(
        a.processed_transmission_table, b.processed_transmission_table, rtol=1e-8,
        atol=1e-10 * np.max(np.abs(b.processed_transmission_table[:, 1])), msg=msg + ": curve",
    )


FILES = fd({
    "tables": st.lists(bands.TABLE, min_size=2, max_size=3),
    "format": st.sampled_from(FORMATS),
    "unit": st.sampled_from(["nm", "A"]),
    "delta": st.sampled_from(["odd", "none", "default"]),
    "trim": st.sampled_from([None, 1e-3]),
    "seed": seeds(),
})


@check("C17", FILES, quick=250)
def files(case, rec):
    tabs = [fine(bands.table(t), case["seed"] + i) for i, t in enumerate(case["tables"])]
    d = None if case["delta"] == "none" else 5.0 if case["delta"] == "default" else float(tabs[0][-1, 0] - tabs[0][0, 0]) / 47.3
    kw = {"delta_wave": d, "trim_quantile": case["trim"]}
    if any(too_short(t, d, case["trim"]) for t in tabs):
        raise Reject()
    ext, unit = case["format"], case["unit"]
    names = ["g", "r", "z9"][: len(tabs)]
    with tempfile.TemporaryDirectory() as tmp:
        dpath = os.path.join(tmp, "Sur")
        os.mkdir(dpath)
        for n, t in zip(names, tabs):
            write(os.path.join(dpath, n + ext), t, unit)
        direct = [Passband(t, "Sur", n, **kw) for n, t in zip(names, tabs)]
        for n, t, pb in zip(names, tabs, direct):
            path = os.path.join(dpath, n + ext)
            equal(Passband.from_file("Sur", n, table_path=path, units=unit, **kw), pb, "from_file")
            close(Passband.load_transmission_table(path, wave_units=unit), t, rtol=1e-11, msg="loaded table")
        # the options of the reader of text files are passed on
        for e, kr in ((".csv", {"delimiter": ";"}), (".dat", {"delimiter": ","}), (".csv", {"skiprows": 2}), (".csv", {"delimiter": ";", "skiprows": 1})):
            path = os.path.join(tmp, "options" + e)
            np.savetxt(path, tabs[0], delimiter=kr.get("delimiter", ","), header="\n".join("abc"[: kr.get("skiprows", 0)]), comments="")
            if not kr.get("skiprows"):
                np.savetxt(path, tabs[0], delimiter=kr["delimiter"])
            close(Passband.load_transmission_table(path, wave_units="A", **kr), tabs[0], rtol=1e-11, msg=f"loaded with {kr}")
        group = PassbandGroup.from_dir(dpath, units=unit, **kw)
        require(set(group.passbands) == {f"Sur_{n}" for n in names}, f"from_dir: {list(group.passbands)}")
        for n, pb in zip(names, direct):
            equal(group[n], pb, "from_dir")
        one = PassbandGroup.from_dir(dpath, filters=[names[1]], units=unit, **kw)
        require(list(one.passbands) == [f"Sur_{names[1]}"], f"from_dir with filters: {list(one.passbands)}")
        equal(one[names[1]], direct[1], "from_dir with filters")
        params = [
            {"survey": "Sur", "filter_name": n, "table_path": os.path.join(dpath, n + ext), "units": unit} for n in names
        ]
        asked = [dict(p) for p in params]
        group = PassbandGroup(params, **kw)
        require(params == asked, "caller's parameters changed")
        require(list(group.passbands) == [f"Sur_{n}" for n in names], "group from parameters")
        for n, pb in zip(names, direct):
            equal(group[n], pb, "group from parameters")
        # a member's own setting is used instead of the group's
        params[0]["trim_quantile"] = None
        params[0]["delta_wave"] = None
        equal(PassbandGroup(params, **kw)[names[0]], Passband(tabs[0], "Sur", names[0], delta_wave=None, trim_quantile=None), "own settings")
        if ext == ".xml":
            os.mkdir(os.path.join(tmp, "Obs"))
            write(os.path.join(tmp, "Obs", "Cam.xml"), tabs[0], unit)
        raises(FileNotFoundError, lambda: Passband.load_transmission_table(os.path.join(dpath, "nope.dat")), "missing file")
        bad = os.path.join(dpath, "g.json")
        with open(bad, "w") as f:
            f.write("[]")
        raises(ValueError, lambda: Passband.load_transmission_table(bad), "unknown format")
        rec.nontrivial()
        rec.label(ext, unit)
        if ext in (".dat", ".txt"):
            svo = os.path.join(tmp, "svo", "Obs", "Cam")
            os.makedirs(svo)
            write(os.path.join(svo, "g.xml"), tabs[0], unit)
            pb = Passband.from_svo("Obs/Cam.g", table_dir=os.path.join(tmp, "svo"), **kw)
            equal(pb, direct[0], "from_svo")
            require(pb.filter_name == "g" and pb.survey == "Obs/Cam", f"names {pb.full_name}")
            group = PassbandGroup.from_svo(["Obs/Cam.g"], table_dir=os.path.join(tmp, "svo"), **kw)
            equal(group["g"], direct[0], "group from_svo")
        if ext != ".dat":
            return
        # presets read from local files
        lsst = os.path.join(tmp, "tables", "LSST")
        os.makedirs(lsst)
        for i, n in enumerate("ugrizy"):
            write(os.path.join(lsst, n + ".dat"), tabs[i % len(tabs)], "nm")
        group = PassbandGroup.from_preset("LSST", table_dir=os.path.join(tmp, "tables"), **kw)
        same(list(group.passbands), [f"LSST_{n}" for n in "ugrizy"], "LSST filters")
        for i, n in enumerate("ugrizy"):
            equal(group[n], Passband(tabs[i % len(tabs)], "LSST", n, **kw), "LSST preset")
        roman = os.path.join(tmp, "tables", "Roman")
        os.makedirs(roman)
        cols = ["F062", "F087", "F106", "F129", "F146", "F158", "F184", "F213"]
        w = tabs[0][:, 0]
        vals = np.column_stack([np.roll(tabs[0][:, 1], i) for i in range(len(cols))])
        order = np.random.default_rng(case["seed"]).permutation(len(cols))
        with open(os.path.join(roman, "roman_wfi_filters.ecsv"), "w") as f:
            f.write("# comment\n" + ",".join(["Wave"] + [cols[i] for i in order]) + "\n")
            for i in range(len(w)):
                f.write(",".join(repr(float(x)) for x in [w[i] / 10000] + list(vals[i, order])) + "\n")
        group = PassbandGroup.from_preset("Roman", table_dir=os.path.join(tmp, "tables"), filters=cols[:3], delta_wave=d, trim_quantile=None)
        for i, n in enumerate(cols[:3]):
            equal(group[n], Passband(np.column_stack([w, vals[:, i]]), "Roman", n, delta_wave=d, trim_quantile=None), "Roman preset")


@check("C17", fd({"table": bands.TABLE, "seed": seeds()}), quick=150)
def libraries(case, rec):
    import sncosmo

    tab = fine(bands.table(case["table"]), case["seed"])
    bp = sncosmo.Bandpass(tab[:, 0].copy(), tab[:, 1].copy())
    t = np.column_stack([bp.wave, bp.trans])
    if not too_short(t, 5.0, None):
        equal(Passband.from_sncosmo("S", "x", bp), Passband(t, "S", "x", trim_quantile=None), "sncosmo object")
        same(np.column_stack([bp.wave, bp.trans]), t, "sncosmo object")
        rec.nontrivial()


BAD = fd({
    "table": bands.TABLE,
    "kind": st.sampled_from([
        "decreasing", "three columns", "one column", "one row", "no rows", "one dimension", "zeros", "units", "trim high",
        "trim low", "trim half", "swap", "decreasing file", "one row file", "units file", "empty file", "text file", "three file",
        "votable unit", "votable columns", "votable name",
    ]),
    "ext": st.sampled_from([".dat", ".csv", ".txt", ".ecsv"]),
    "seed": seeds(),
})


@check("C17", BAD, quick=500)
def malformed(case, rec):
    tab = bands.table(case["table"])
    k = case["kind"]
    g = np.random.default_rng(case["seed"])
    kw = {"delta_wave": None, "trim_quantile": None}
    rec.label(k)
    rec.nontrivial()
    if "file" in k or "votable" in k:
        with tempfile.TemporaryDirectory() as tmp:
            p = os.path.join(tmp, "x" + (".xml" if "votable" in k else case["ext"]))
            unit = "A"
            if k == "decreasing file":
                write(p, tab[::-1], "A")
            elif k == "one row file":
                write(p, tab[:1], "A")
            elif k == "units file":
                write(p, tab, "A")
                unit = "parsec"
            elif k == "empty file":
                open(p, "w").close()
            elif k == "text file":
                write(p, tab, "A")
                with open(p, "a") as f:
                    f.write("five,x\n" if "csv" in case["ext"] else "five x\n")
            elif k == "three file":
                np.savetxt(p, np.column_stack([tab, tab[:, 1]]), delimiter="," if "csv" in case["ext"] else " ")
            else:
                from astropy import units as u
                from astropy.table import Table

                t = Table()
                t["Wavelength" if k != "votable name" else "Transmission"] = tab[:, 0] * (u.m if k == "votable unit" else u.AA)
                t["Transmission" if k != "votable name" else "Wavelength"] = tab[:, 1]
                if k == "votable columns":
                    t["more"] = tab[:, 1]
                t.write(p, format="votable")
            raises(ValueError, lambda: Passband.from_file("S", "x", table_path=p, units=unit, **kw), k)
        return
    units = "A"
    if k == "decreasing":
        tab = tab[::-1]
    elif k == "swap":
        i = int(g.integers(len(tab) - 1))
        tab[[i, i + 1], 0] = tab[[i + 1, i], 0]
    elif k == "three columns":
        tab = np.column_stack([tab, tab[:, 1]])
    elif k == "one column":
        tab = tab[:, :1]
    elif k == "one row":
        tab = tab[:1]
    elif k == "no rows":
        tab = tab[:0]
    elif k == "one dimension":
        tab = tab[:, 0]
    elif k == "zeros":
        tab[:, 1] = 0.0
    elif k == "units":
        units = "micron"
    elif k == "trim high":
        kw["trim_quantile"] = 0.7
    elif k == "trim low":
        kw["trim_quantile"] = -0.01
    elif k == "trim half":
        kw["trim_quantile"] = 0.5
    raises(ValueError, lambda: Passband(tab, "S", "x", units=units, **kw), k)

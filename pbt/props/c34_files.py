import gzip
import os
import tempfile

import numpy as np
from astropy.table import Table
from hypothesis import strategies as st

from lightcurvelynx.astro_utils.mag_flux import mag2flux
from lightcurvelynx.astro_utils.passbands import Passband, PassbandGroup
from lightcurvelynx.models.lightcurve_template_model import LightcurveData, MultiLightcurveTemplateModel
from lightcurvelynx.models.spline_model import SplineModel
from lightcurvelynx.models.static_sed_model import StaticSEDModel
from lightcurvelynx.utils.bicubic_interp import BicubicInterpolator
from lightcurvelynx.utils.io_utils import read_grid_data, read_lclib_data, read_numpy_data, write_numpy_data

from ..core import check, close, describe, raises, require
from ..gen import fd, seeds

describe(
    "C34",
    "Cases are arrays (shapes up to 3 axes, integer and float types, magnitudes from 1e-300 to 1e300, non-finite entries), grids of "
    "1-7 x 1-7 points written as plain, headed and commented text, csv, ecsv and fits, and generated light-curve libraries of 1-5 "
    "events with every key the format allows, in plain and compressed files, each also in damaged variants; non-trivial when "
    "the file holds more than one row or event, or is damaged.",
    ["text formats keep the values but not a length-1 axis, so text arrays are compared flattened",
     "the format has no checksum: damage that leaves a well-formed file is not expected to be noticed"],
)


def scratch():
    return tempfile.TemporaryDirectory(prefix="verif_c34_")


def values(rng, shape, kind):
    if kind == "unit":
        return rng.uniform(-1, 1, shape)
    if kind == "int":
        return rng.integers(-1000, 1000, shape)
    if kind == "wide":
        return rng.choice([-1.0, 1.0], shape) * 10.0 ** rng.uniform(-300, 300, shape)
    if kind == "special":
        return rng.choice([0.0, -0.0, np.nan, np.inf, -np.inf, 1 / 3, 5e-324, 1.7976931348623157e308], shape)
    if kind == "float32":
        return rng.uniform(-1, 1, shape).astype(np.float32)
    return rng.integers(0, 2, shape).astype(bool)


def bits(a, b):
    """Same values, including the sign of zeros and the place of NaN."""
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=True) and np.array_equal(np.signbit(a[a == 0]), np.signbit(b[b == 0]))


@check(
    "C34",
    fd({"fmt": st.sampled_from([".csv", ".txt", ".npy", ".npz", ".ecsv", ".dat"]), "seed": seeds(),
        "kind": st.sampled_from(["unit", "int", "wide", "special", "float32", "bool"]),
        "shape": st.lists(st.integers(1, 6), min_size=1, max_size=3), "path": st.booleans(), "order": st.sampled_from(["C", "F", "rev"])}),
    quick=300,
    thorough=4000,
)
def array_round_trip(case, rec):
    rng = np.random.default_rng([case["seed"], 77])
    text = case["fmt"] not in (".npy", ".npz")
    kind = case["kind"] if not (text and case["kind"] == "bool") else "int"
    data = values(rng, tuple(case["shape"]), kind)
    if case["order"] == "F":
        data = np.asfortranarray(data)
    elif case["order"] == "rev":
        data = data[::-1]
    with scratch() as tmp:
        name = os.path.join(tmp, "some.data" + case["fmt"])
        if not case["path"]:
            from pathlib import Path

            name = Path(name)
        if text and data.ndim == 3:
            raises(ValueError, lambda: write_numpy_data(name, data), "a three-dimensional array written as text must be refused")
            rec.label("3-d text refused")
            rec.nontrivial()
            return
        keep = data.copy()
        write_numpy_data(name, data)
        require(bits(data, keep), "writing must not change the array")
        require(os.listdir(tmp) == ["some.data" + case["fmt"]], f"expected exactly the requested file, found {os.listdir(tmp)}")
        back = read_numpy_data(name)
        # A second array under the same name replaces the first.
        write_numpy_data(name, data[:1])
        again = read_numpy_data(name)
    if text:
        require(back.size == data.size and bits(back.ravel(), data.ravel()), f"values differ after {case['fmt']}: {data} {back}")
        if data.ndim == 2 and min(data.shape) > 1:
            require(back.shape == data.shape, f"shape {data.shape} read back as {back.shape}")
        require(bits(np.ravel(again), data[:1].ravel()), "the second write must replace the first")
    else:
        require(back.dtype == data.dtype and bits(back, data), f"array differs after {case['fmt']}")
        require(bits(again, data[:1]), "the second write must replace the first")
    rec.label(case["fmt"], kind)
    if data.size > 1:
        rec.nontrivial()


@check(
    "C34",
    fd({"fmt": st.sampled_from([".csv", ".txt", ".npy", ".npz", ".ecsv", ".dat"]), "seed": seeds(),
        "damage": st.sampled_from(["missing", "suffix", "word", "ragged", "truncate", "directory", "complex"])}),
    quick=120,
    thorough=1500,
)
def damaged_arrays(case, rec):
    rng = np.random.default_rng([case["seed"], 78])
    data = rng.uniform(-1, 1, (int(rng.integers(2, 6)), int(rng.integers(2, 5))))
    text = case["fmt"] not in (".npy", ".npz")
    dmg = case["damage"]
    with scratch() as tmp:
        name = os.path.join(tmp, "a" + case["fmt"])
        if dmg == "missing":
            raises(FileNotFoundError, lambda: read_numpy_data(name), "a missing file must be refused")
        elif dmg == "directory":
            os.mkdir(name)
            raises(OSError, lambda: read_numpy_data(name), "a directory is not a file")
        elif dmg == "suffix":
            for bad in [".invalid", "", ".CSVX", ".json"]:
                other = os.path.join(tmp, "a" + bad)
                raises(ValueError, lambda: write_numpy_data(other, data), f"unsupported format {bad!r} must be refused")  # noqa: B023
                require(not os.path.exists(other), "a refused write must leave no file")
                with open(other, "w") as f:
                    f.write("1 2\n")
                raises(ValueError, lambda: read_numpy_data(other), f"unsupported format {bad!r} must be refused")  # noqa: B023
        elif dmg == "complex":
            if text:
                return rec.label("not applicable")
            write_numpy_data(name, data + 1j)
            require(np.array_equal(read_numpy_data(name), data + 1j), "complex arrays are kept")
        else:
            write_numpy_data(name, data)
            with open(name, "rb") as f:
                raw = f.read()
            if dmg == "truncate" or not text:
                if text:
                    rows = raw.splitlines()
                    raw = b"\n".join(rows[:-1] + [b"," if case["fmt"] in (".csv", ".ecsv") else b"+"])
                else:
                    raw = raw[: int(rng.integers(1, len(raw) - 1))]
            else:
                rows = raw.decode().splitlines()
                sep = "," if case["fmt"] in (".csv", ".ecsv") else " "
                k = int(rng.integers(0, len(rows)))
                cells = rows[k].split(sep)
                if dmg == "word":
                    cells[int(rng.integers(0, len(cells)))] = "bad"
                else:
                    cells = cells[:-1]
                rows[k] = sep.join(cells)
                raw = ("\n".join(rows) + "\n").encode()
            with open(name, "wb") as f:
                f.write(raw)
            raises(Exception, lambda: read_numpy_data(name), f"damaged {case['fmt']} file ({dmg}) must be refused")
    rec.label(dmg)
    rec.nontrivial()


# ----------------------------------------------------------------------------------- grids


def write_grid(path, fmt, rows, header, rng):
    """rows: list of (x0, x1, v) of python numbers or text."""
    if fmt in ("fits", "ascii.ecsv"):
        cols = [[r[k] for r in rows] for k in range(len(rows[0]))]
        names = ["time", "wave", "value", "extra"][: len(cols)]
        Table([np.array(c) for c in cols], names=names).write(path, format=fmt, overwrite=True)
        return
    sep = "," if fmt == "ascii.csv" else " "
    lines = []
    if header == "comment":
        lines.append("# x0 x1 value: a comment")
    if header != "none" or fmt == "ascii.csv":
        lines.append(sep.join(["time", "wave", "value", "extra"][: len(rows[0])]))
    for k, r in enumerate(rows):
        lines.append(sep.join(str(x) for x in r))
        if header == "comment" and rng.uniform() < 0.2:
            lines.append("# another comment")
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")


def make_grid(rng, n0, n1, kind):
    if kind == "int":
        x0 = np.sort(rng.choice(np.arange(-30, 60), n0, replace=False))
        x1 = np.sort(rng.choice(np.arange(3000, 9000, 25), n1, replace=False))
        v = rng.integers(-50, 50, (n0, n1))
    else:
        x0 = np.sort(rng.uniform(-30, 60, n0))
        x1 = np.sort(rng.uniform(3000, 9000, n1))
        v = rng.uniform(-1, 1, (n0, n1)) * (1e-20 if kind == "tiny" else 1.0)
    rows = [(a.item(), b.item(), v[i, j].item()) for i, a in enumerate(x0) for j, b in enumerate(x1)]
    return x0, x1, v, rows


GFMT = st.sampled_from(["ascii", "ascii.csv", "fits", "ascii.ecsv", "ascii.basic"])
GRID = {"fmt": GFMT, "seed": seeds(), "n0": st.sampled_from([3, 2, 1, 7]), "n1": st.sampled_from([2, 3, 1, 7]),
        "kind": st.sampled_from(["float", "int", "tiny"]), "header": st.sampled_from(["comment", "header", "none"])}


def grid_file(case, tmp):
    return os.path.join(tmp, "grid" + {"fits": ".fits", "ascii.csv": ".csv", "ascii.ecsv": ".ecsv"}.get(case["fmt"], ".dat"))


def usable(case):
    """ascii.basic and csv always need the header line."""
    return dict(case, header="header") if case["fmt"] == "ascii.basic" and case["header"] == "none" else case


@check("C34", fd({**GRID, "order": st.sampled_from(["shuffled", "sorted", "swap", "transposed"])}), quick=250, thorough=3000)
def grid_round_trip(case, rec):
    case = usable(case)
    rng = np.random.default_rng([case["seed"], 79])
    x0, x1, v, rows = make_grid(rng, case["n0"], case["n1"], case["kind"])
    order = np.arange(len(rows))
    if case["order"] == "shuffled":
        order = rng.permutation(order)
    elif case["order"] == "transposed":
        order = order.reshape(v.shape).T.ravel()
    elif case["order"] == "swap" and len(order) > 1:
        k = int(rng.integers(0, len(order) - 1))
        order[[k, k + 1]] = order[[k + 1, k]]
    moved = not np.array_equal(order, np.arange(len(rows)))
    with scratch() as tmp:
        name = grid_file(case, tmp)
        write_grid(name, case["fmt"], [rows[k] for k in order], case["header"], rng)
        a, b, z = read_grid_data(name, format=case["fmt"])
        if moved:
            raises(ValueError, lambda: read_grid_data(name, format=case["fmt"], validate=True), "rows out of order must be refused by validate")
        else:
            a2, b2, z2 = read_grid_data(name, format=case["fmt"], validate=True)
            require(np.array_equal(a, a2) and np.array_equal(b, b2) and np.array_equal(z, z2), "validate must not change the data")
    require(np.array_equal(a, x0) and np.array_equal(b, x1), f"coordinates differ: {a} {x0} {b} {x1}")
    require(z.shape == v.shape and np.array_equal(z, v), f"grid values differ (rows {case['order']}):\n{v}\n{z}")
    require(all(np.asarray(q).dtype.kind == "f" for q in (a, b, z)), "grids are read as floats")
    rec.label(case["fmt"], case["order"] if moved else "sorted", case["kind"])
    if len(rows) > 1:
        rec.nontrivial()


@check(
    "C34",
    fd({**GRID, "damage": st.sampled_from(["drop", "duplicate", "replace", "columns", "extra", "word", "nan coordinate", "empty", "missing"]),
        "order": st.booleans()}),
    quick=300,
    thorough=3000,
)
def damaged_grids(case, rec):
    case = usable(case)
    rng = np.random.default_rng([case["seed"], 80])
    n0, n1 = max(2, case["n0"]), max(2, case["n1"])
    _, _, _, rows = make_grid(rng, n0, n1, case["kind"])
    k = int(rng.integers(0, len(rows)))
    dmg = case["damage"]
    if dmg == "drop":
        del rows[k]
    elif dmg == "duplicate":
        rows.append(rows[k])
    elif dmg == "replace":  # one pair given twice, another not at all: the number of rows is right
        other = int(rng.integers(0, len(rows) - 1))
        rows[k] = (*rows[other if other < k else other + 1][:2], 7 if case["kind"] == "int" else 7.5)
    elif dmg == "columns":
        rows = [r[:2] for r in rows]
    elif dmg == "extra":
        rows = [(*r, 0.5) for r in rows]
    elif dmg == "nan coordinate":
        col = int(rng.integers(0, 2))
        rows = [tuple(float("nan") if c == col and r[col] == rows[k][col] else x for c, x in enumerate(r)) for r in rows]
    if case["order"]:
        rows = [rows[i] for i in rng.permutation(len(rows))]
    with scratch() as tmp:
        name = grid_file(case, tmp)
        if dmg == "missing":
            raises(FileNotFoundError, lambda: read_grid_data(name, format=case["fmt"]), "a missing grid file must be refused")
            raises(FileNotFoundError, lambda: SplineModel.from_file(name, format=case["fmt"]), "a missing grid file must be refused")
            return rec.label(dmg)
        if dmg in ("word", "empty"):
            if case["fmt"] in ("fits", "ascii.ecsv"):
                rows = [tuple(str(x) for x in r) for r in rows] if dmg == "word" else rows
                if dmg == "empty":
                    from astropy.table import MaskedColumn

                    t = Table([MaskedColumn([float(r[c]) for r in rows], mask=[c == 2 and i == k for i in range(len(rows))]) for c in range(3)],
                              names=["a", "b", "c"])
                    if case["fmt"] == "fits":  # fits has no mask for floats: a NaN value is what is stored
                        return rec.label("not applicable")
                    t.write(name, format=case["fmt"])
                else:
                    write_grid(name, case["fmt"], rows, case["header"], rng)
            else:
                c = int(rng.integers(0, 3))
                mark = "bad" if dmg == "word" else ""
                if dmg == "empty" and case["fmt"] != "ascii.csv":
                    mark = '""'
                rows[k] = tuple(mark if i == c else x for i, x in enumerate(rows[k]))
                write_grid(name, case["fmt"], rows, "header", rng)
        else:
            write_grid(name, case["fmt"], rows, case["header"], rng)
        for validate in (False, True):
            raises(ValueError, lambda: read_grid_data(name, format=case["fmt"], validate=validate),  # noqa: B023
                   f"damaged grid ({dmg}) must be refused (validate={validate})")
    rec.label(dmg)
    rec.nontrivial()


@check("C34", fd({**GRID, "order": st.booleans(), "scale": st.sampled_from([1.0, 2.5, 1e-12])}), quick=80, thorough=800)
def grid_users(case, rec):
    """The models built from grid files hold exactly the values of the file."""
    case = usable(case)
    rng = np.random.default_rng([case["seed"], 81])
    n0, n1 = max(4, case["n0"]), max(4, case["n1"])
    x0, x1, v, rows = make_grid(rng, n0, n1, "float" if case["kind"] == "tiny" else case["kind"])
    with scratch() as tmp:
        name = grid_file(case, tmp)
        write_grid(name, case["fmt"], rows, case["header"], rng)
        model = SplineModel.from_file(name, format=case["fmt"], amplitude=2.0, time_degree=1, wave_degree=1, t0=100.0)
        got = model.evaluate_sed(x0.astype(float) + 100.0, x1.astype(float))
        close(got, 2.0 * v, rtol=1e-9, atol=1e-9, msg="spline model at the grid points")
        require(model.minwave() == x1[0] and model.maxwave() == x1[-1], "wavelength limits are those of the file")
        if case["order"]:
            perm = rng.permutation(len(rows))
            if not np.array_equal(perm, np.arange(len(rows))):
                write_grid(name, case["fmt"], [rows[i] for i in perm], case["header"], rng)
                raises(ValueError, lambda: SplineModel.from_file(name, format=case["fmt"]), "rows out of order must be refused")
        if case["fmt"] in ("ascii", "ascii.basic"):
            interp = BicubicInterpolator.from_grid_file(name, scale_factor=case["scale"])
            at = np.asarray(interp(x0.astype(float), x1.astype(float)), dtype=float)
            close(at, case["scale"] * v, rtol=1e-4, atol=1e-3 * case["scale"] * np.abs(v).max(), msg="bicubic interpolation at the grid points")
    rec.label(case["fmt"])
    rec.nontrivial()


@check(
    "C34",
    fd({"fmt": st.sampled_from([".csv", ".txt", ".npy", ".npz", ".ecsv", ".dat"]), "n": st.sampled_from([3, 2, 9]), "seed": seeds(),
        "bad": st.sampled_from(["no", "no", "columns", "rows", "flat"])}),
    quick=80,
    thorough=800,
)
def sed_files(case, rec):
    rng = np.random.default_rng([case["seed"], 82])
    wave = np.sort(rng.uniform(3000, 9000, case["n"]))
    flux = rng.uniform(0, 5, case["n"])
    data = np.column_stack([wave, flux])
    if case["bad"] == "columns":
        data = np.column_stack([wave, flux, flux])
    elif case["bad"] == "rows":
        data = np.vstack([wave, flux]) if case["n"] != 2 else np.column_stack([wave])
    elif case["bad"] == "flat":
        data = wave
    with scratch() as tmp:
        name = os.path.join(tmp, "sed" + case["fmt"])
        write_numpy_data(name, data)
        if case["bad"] != "no":
            raises(ValueError, lambda: StaticSEDModel.from_file(name), "only two-column spectra are accepted")
        else:
            model = StaticSEDModel.from_file(name, node_label="sed")
            got = model.evaluate_sed(np.array([10.0, 20.0]), wave)
            require(got.shape == (2, case["n"]) and np.allclose(got, flux, rtol=1e-12, atol=0), f"spectrum differs: {flux} {got}")
            mid = 0.5 * (wave[:-1] + wave[1:])
            close(model.evaluate_sed(np.array([0.0]), mid)[0], 0.5 * (flux[:-1] + flux[1:]), rtol=1e-9, msg="between the points")
    rec.label(case["fmt"], case["bad"])
    rec.nontrivial()


# ---------------------------------------------------------------------- light-curve libraries


def make_library(rng, opts):
    """Returns (lines, expected events, filters); lines carry a tag naming what they are."""
    filters = "".join(rng.choice(list("ugrizyYJ"), int(rng.integers(1, 7)), replace=False))
    named = bool(rng.integers(0, 4))
    params = [str(p) for p in rng.choice(["TYPE", "OTHER", "logL", "zzz", "A_V", "redshift"], int(rng.integers(1, 5)), replace=False)] if named else []
    head = {"SURVEY": "LSST", "MODEL": "made up", "RECUR_CLASS": str(rng.choice(["NON-RECUR", "RECUR-PERIODIC", "PERIODIC", "RECUR-NONPERIODIC"])),
            "NEVENT": str(opts["events"]), "REF": "a: b: c"}
    head = {k: head[k] for k in head if k in ("RECUR_CLASS",) or rng.uniform() < 0.7}
    lines = []
    noisy = opts["noise"]

    def comment():
        if noisy and rng.uniform() < 0.25:
            lines.append(("comment", str(rng.choice(["# a comment: with colon", "", "   ", "COMMENT: T: 1 2 3", "a line without the mark", "#S: 0.0 1.0"]))))

    def tail():
        return str(rng.choice(["", "   ", "  # trailing: comment"])) if noisy else ""

    if opts["doc"]:
        lines.append(("doc", "DOCUMENTATION:"))
        for text in ["  PURPOSE: nothing", "  NOTES:", "  - START_EVENT: 77", "  - T: 1 2 3", "  FILTERS: xy", "START_EVENT: 99", "S: 0.0 1.0", "RECUR_CLASS: WRONG"]:
            if rng.uniform() < 0.6:
                lines.append(("doc", text))
        lines.append(("doc end", "DOCUMENTATION_END:"))
    entries = [("header", f"{k}: {x}{tail()}") for k, x in head.items()] + [("filters", f"FILTERS: {filters}{tail()}")]
    if named:
        sep = str(rng.choice([",", ", ", " , "]))
        entries.append(("parnames", f"{rng.choice(['MODEL_PARNAMES', 'MODEL_PARAMETERS'])}: {sep.join(params)}{tail()}"))
    for k in rng.permutation(len(entries)):
        comment()
        lines.append(entries[k])
    events = []
    for e in range(opts["events"]):
        ident = str(int(rng.integers(0, 10**6))) if opts["ids"] == "random" else str(e) if opts["ids"] == "count" else f"ev {e}-{'abc'[e % 3]}"
        n = int(rng.integers(opts.get("min_rows", 1), 7))
        ev = {"id": ident, "meta": {}, "par": None, "type": [], "time": [], "mags": []}
        comment()
        lines.append(("start", f"START_EVENT: {ident}{tail()}"))
        comment()
        pre = []
        if opts["nrow"] and rng.uniform() < 0.8:
            pre.append(("nrow", f"NROW: {n} l: 12.5 b: -3.0{tail()}" if rng.uniform() < 0.5 else f"NROW: {n}"))
        for key in ("ANGLEMATCH_b", "COLOR", "SURVEY"):
            if rng.uniform() < 0.35:
                value = f"{rng.uniform(0, 9):.3f}"
                ev["meta"][key] = value
                pre.append(("key", f"{key}: {value}{tail()}"))
        if named and rng.uniform() < 0.85:
            vals = [str(int(rng.integers(0, 99))) if rng.uniform() < 0.4 else f"{rng.uniform(-5, 5):.6g}" for _ in params]
            ev["par"] = dict(zip(params, vals))
            sep = str(rng.choice([",", " , ", "  ", " "]))
            pre.append(("parval", f"PARVAL: {sep.join(vals)}{tail()}"))
        for k in rng.permutation(len(pre)):
            lines.append(pre[k])
        t = np.sort(rng.choice(np.arange(-20 * 64, 300 * 64), n, replace=False)) / 64.0
        for k in range(n):
            comment()
            kind = "T" if (k == 0 and rng.uniform() < 0.5) else "S"
            row = [float(t[k])] + [round(float(x), 3) for x in rng.uniform(14, 30, len(filters))]
            ev["type"].append(kind)
            ev["time"].append(row[0])
            ev["mags"].append(row[1:])
            sep = str(rng.choice([" ", "   ", "\t"]))
            lines.append(("row", f"{kind}:{sep}{sep.join(str(x) for x in row)}{tail()}"))
        comment()
        lines.append(("end", f"END_EVENT: {ident}{tail()}"))
        events.append(ev)
    comment()
    return lines, head, events, filters, params


LIB = {"seed": seeds(), "events": st.sampled_from([2, 3, 1, 5]), "noise": st.booleans(), "doc": st.booleans(), "nrow": st.booleans(),
       "ids": st.sampled_from(["count", "random", "text"]), "suffix": st.sampled_from([".dat", ".TEXT", ".gz", ".txt", ".text", ".gzip", ".DAT.GZ"])}


def write_library(path, lines, newline="\n"):
    text = newline.join(x for _, x in lines) + newline
    if path.lower().endswith((".gz", ".gzip")):
        with gzip.open(path, "wt", newline="") as f:
            f.write(text)
    else:
        with open(path, "w", newline="") as f:
            f.write(text)


@check("C34", fd({**LIB, "crlf": st.booleans()}), quick=250, thorough=3000)
def library_round_trip(case, rec):
    rng = np.random.default_rng([case["seed"], 83])
    lines, head, events, filters, params = make_library(rng, case)
    with scratch() as tmp:
        name = os.path.join(tmp, "lib" + case["suffix"])
        write_library(name, lines, "\r\n" if case["crlf"] else "\n")
        tables = read_lclib_data(name)
        # The same contents in the other form are read alike.
        twin = os.path.join(tmp, "twin" + (".txt" if "g" in case["suffix"].lower() else ".gz"))
        write_library(twin, lines)
        again = read_lclib_data(twin)
    require(len(tables) == len(again) == len(events), f"{len(events)} events written, {len(tables)} read")
    for tab, oth, ev in zip(tables, again, events):
        require(tab.colnames == ["type", "time", *filters], f"columns {tab.colnames} for filters {filters}")
        require(list(tab["type"]) == ev["type"], f"row types of event {ev['id']}: {list(tab['type'])} expected {ev['type']}")
        require(list(tab["time"]) == ev["time"], f"times of event {ev['id']}: {list(tab['time'])} expected {ev['time']}")
        for k, f in enumerate(filters):
            require(list(tab[f]) == [row[k] for row in ev["mags"]], f"magnitudes in {f} of event {ev['id']}")
        require(tab.meta["id"] == ev["id"], f"id {tab.meta['id']!r} expected {ev['id']!r}")
        want = {**head, **ev["meta"]}
        for key in {"SURVEY", "MODEL", "RECUR_CLASS", "NEVENT", "REF", "ANGLEMATCH_b", "COLOR", "PURPOSE", "NOTES"}:
            require(tab.meta.get(key) == want.get(key), f"{key} of event {ev['id']} is {tab.meta.get(key)!r}, written {want.get(key)!r}")
        require(tab.meta.get("PARVAL") == ev["par"], f"parameters of event {ev['id']}: {tab.meta.get('PARVAL')} expected {ev['par']}")
        require(oth.colnames == tab.colnames and all(list(oth[c]) == list(tab[c]) for c in tab.colnames), "plain and compressed forms differ")
        require(oth.meta == tab.meta, f"plain and compressed metadata differ: {oth.meta} {tab.meta}")
    # The tables do not share state.
    tables[0].meta["id"] = "changed"
    tables[0]["time"][:] = -1.0
    for tab, ev in zip(tables[1:], events[1:]):
        require(tab.meta["id"] == ev["id"] and list(tab["time"]) == ev["time"], "events must not share storage")
    rec.label(case["suffix"], "noise" if case["noise"] else "clean", "doc" if case["doc"] else "no doc")
    if len(events) > 1:
        rec.nontrivial()


@check(
    "C34",
    fd({**LIB, "damage": st.sampled_from(["end id", "no end", "no start", "row count", "short row", "long row", "parval", "no filters", "late row",
                                          "open doc", "word", "suffix", "missing", "truncated gz", "cut", "nested"])}),
    quick=300,
    thorough=3000,
)
def damaged_libraries(case, rec):
    rng = np.random.default_rng([case["seed"], 84])
    dmg = case["damage"]
    opts = dict(case)
    if dmg == "row count":
        opts["nrow"] = True
    if dmg == "open doc":
        opts["doc"] = True
    lines, _, events, filters, params = make_library(rng, opts)

    def pick(tag):
        found = [k for k, (t, _) in enumerate(lines) if t == tag]
        if not found:
            return None
        return found[int(rng.integers(0, len(found)))]

    suffix = case["suffix"]
    if dmg in ("end id", "no end", "no start", "nested"):
        k = pick("start" if dmg in ("no start", "nested") else "end")
        if dmg == "end id":
            ident = lines[k][1].split("#")[0].split(":", 1)[1].strip()
            near = [x for x in (ident + "0", ident[:-1], "0" + ident, ident + " 1", ident.upper() + "X", "other") if x]
            lines[k] = ("end", f"END_EVENT: {near[int(rng.integers(len(near)))]}")
        elif dmg == "nested":
            lines.insert(k + 1, lines[k])
        else:
            del lines[k]
    elif dmg == "row count":
        starts = [k for k, (t, _) in enumerate(lines) if t == "nrow"]
        if not starts:
            return rec.label("not applicable")
        k = starts[int(rng.integers(0, len(starts)))]
        row = next(j for j in range(k, len(lines)) if lines[j][0] == "row")
        if rng.uniform() < 0.5:
            del lines[row]
        else:
            lines.insert(row, lines[row])
    elif dmg in ("short row", "long row", "word"):
        k = pick("row")
        key, rest = lines[k][1].split("#")[0].split(":", 1)
        cells = rest.split()
        if dmg == "short row":
            cells = cells[:-1]
        elif dmg == "long row":
            cells = [*cells, "20.0"]
        else:
            cells[int(rng.integers(0, len(cells)))] = "bad"
        lines[k] = ("row", f"{key}: {' '.join(cells)}")
    elif dmg == "parval":
        k = pick("parval")
        if k is None:
            return rec.label("not applicable")
        if len(params) > 1 and rng.uniform() < 0.5:
            lines[k] = ("parval", "PARVAL: " + ", ".join("1" for _ in params[1:]))
        else:
            lines[k] = ("parval", "PARVAL: " + ", ".join("1" for _ in [*params, "x"]))
    elif dmg == "no filters":
        lines = [x for x in lines if x[0] != "filters"]
    elif dmg == "late row":
        row = lines[pick("row")]
        where = [k for k, (t, _) in enumerate(lines) if t == "end"]
        if rng.uniform() < 0.5:
            lines.insert(where[int(rng.integers(0, len(where)))] + 1, row)
        else:
            lines.insert(next(k for k, (t, _) in enumerate(lines) if t == "start"), row)
    elif dmg == "open doc":
        lines = [x for x in lines if x[0] != "doc end"]
    elif dmg == "cut":  # the file ends inside an event
        k = pick("start")
        stop = next(j for j in range(k, len(lines)) if lines[j][0] == "end")
        lines = lines[: int(rng.integers(k + 1, stop + 1))]
    with scratch() as tmp:
        name = os.path.join(tmp, "lib" + suffix)
        if dmg == "missing":
            raises(FileNotFoundError, lambda: read_lclib_data(name), "a missing library must be refused")
        elif dmg == "suffix":
            name = os.path.join(tmp, "lib" + str(rng.choice([".csv", ".bz2", "", ".fits", ".tex"])))
            write_library(name, lines)
            raises(ValueError, lambda: read_lclib_data(name), "an unsupported format must be refused")
        elif dmg == "truncated gz":
            name = os.path.join(tmp, "lib.gz")
            write_library(name, lines)
            with open(name, "rb") as f:
                raw = f.read()
            with open(name, "wb") as f:
                f.write(raw[: int(rng.integers(12, len(raw) - 1))])
            raises((OSError, EOFError, ValueError), lambda: read_lclib_data(name), "a truncated compressed file must be refused")
        else:
            write_library(name, lines)
            raises(ValueError, lambda: read_lclib_data(name), f"a damaged library ({dmg}) must be refused")
    rec.label(dmg)
    rec.nontrivial()


def flat_bands(filters):
    wave = np.arange(4000.0, 4200.0, 10.0)
    return PassbandGroup([Passband(np.column_stack([wave + 100 * k, np.ones(len(wave))]), "S", f, delta_wave=10.0) for k, f in enumerate(filters)])


@check("C34", fd({**LIB, "forced": st.sampled_from([None, 0.0, "each"])}), quick=100, thorough=1000)
def library_models(case, rec):
    """A model built from a library reproduces, for the selected event, exactly its own rows."""
    rng = np.random.default_rng([case["seed"], 85])
    lines, head, events, filters, _ = make_library(rng, {**case, "min_rows": 3})
    recur = head.get("RECUR_CLASS")
    periodic = recur in ("PERIODIC", "RECUR-PERIODIC")
    usable_rows = [[k for k, t in enumerate(ev["type"]) if t == "S"] for ev in events]
    if periodic or any(len(r) < 2 for r in usable_rows):
        return rec.label("not applicable")
    forced = case["forced"]
    if forced == "each":
        forced = [float(x) / 64 for x in rng.integers(-300, 300, len(events))]
    with scratch() as tmp:
        name = os.path.join(tmp, "lib" + case["suffix"])
        write_library(name, lines)
        model = MultiLightcurveTemplateModel.from_lclib_file(name, flat_bands(filters), forced_lc_t0=forced, t0=1000.0, node_label="src")
        direct = [LightcurveData.from_lclib_table(t, forced_lc_t0=(forced if np.isscalar(forced) or forced is None else forced[k]))
                  for k, t in enumerate(read_lclib_data(name))]
    require(len(model) == len(events), f"{len(events)} events, {len(model)} light curves in the model")
    state = model.sample_parameters(num_samples=6, rng_info=np.random.default_rng(case["seed"] % 1000))
    picked = np.atleast_1d(model.get_param(state, "selected_lightcurve"))
    for k in range(6):
        ev, rows = events[int(picked[k])], usable_rows[int(picked[k])]
        times = np.array([ev["time"][r] for r in rows])
        base = times.min() if forced is None else (forced if np.isscalar(forced) else forced[int(picked[k])])
        st1 = state.extract_single_sample(k)
        for j, f in enumerate(filters):
            got = model.evaluate_bandfluxes(None, 1000.0 + times - base, np.full(len(times), f), st1)
            want = mag2flux(np.array([ev["mags"][r][j] for r in rows]))
            close(np.ravel(got), want, rtol=1e-7, msg=f"event {ev['id']} in {f}")
    require(all(d.lc_data_t0 == (min(ev["time"][r] for r in rows) if forced is None else (forced if np.isscalar(forced) else forced[k]))
                for k, (d, ev, rows) in enumerate(zip(direct, events, usable_rows))), "reference epochs")
    rec.label(recur or "none")
    if len(set(picked.tolist())) > 1:
        rec.nontrivial()

import os
import shutil
import tempfile

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from lightcurvelynx.obstable.obs_table import ObsTable

from .. import surveys
from ..core import check, close, describe, raises, require, same
from ..gen import fd, gr, lists, seeds

describe(
    "C11",
    "Cases are surveys of every class (with extra columns, filters and setting overrides) written and read one to three "
    "times; non-trivial when the survey has at least two rows.",
    [
        "a database file keeps the table only: settings that differ from the defaults are passed again when reading",
        "footprints and column maps given as arguments are not part of a file",
    ],
)


class Scratch:
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="verif_c11_")
        return self

    def file(self, name):
        return os.path.join(self.path, name)

    def __exit__(self, *a):
        shutil.rmtree(self.path)


def extra_columns(case, n):
    g = np.random.default_rng([case["survey"]["seed"], 21])
    return {
        "note": np.array([["a", "", "x y", "'quoted'", "é"][i] for i in g.integers(0, 5, size=n)], dtype=object),
        "big": g.integers(-(2**53), 2**53, size=n),
        "tiny": g.normal(size=n) * 10.0 ** g.integers(-300, 300, size=n),
        "gap": np.where(g.random(n) < 0.3, np.nan, g.normal(size=n)),
        "select": g.normal(size=n),  # an SQL keyword as a column name
    }


def overrides(case):
    spec = case["survey"]
    kw = {}
    if case["override"] == "none":
        return kw
    kw["radius"] = 2.25
    kw["survey_name"] = "my survey"
    if case["override"] == "all" and spec["kind"] in ("opsim", "ztf", "fake"):
        kw["read_noise"] = 5.5
        kw["dark_current"] = 0.125
        if spec["kind"] != "fake":
            kw["pixel_scale"] = 0.5
    if case["override"] == "all" and spec["kind"] == "opsim":
        kw["ext_coeff"] = {f: -0.3 - 0.01 * i for i, f in enumerate(surveys.FILTS)}
        kw["zp_per_sec"] = {f: 26.0 + 0.1 * i for i, f in enumerate(surveys.FILTS)}
    if case["override"] == "all":
        kw["comment"] = {"k": [1, 2.5, None, "x"]}
    if case["override"] == "numpy":  # values that come out of numpy computations
        kw["radius"] = np.float32(2.25)
        kw["comment"] = {"k": [np.int64(1), np.float32(2.5), None, np.bool_(True)]}
        if spec["kind"] in ("opsim", "ztf", "fake"):
            kw["read_noise"] = np.int64(5)
            kw["dark_current"] = np.float32(0.125)
        if spec["kind"] == "opsim":
            kw["zp_per_sec"] = {f: np.float32(26.0 + 0.125 * i) for i, f in enumerate(surveys.FILTS)}
    return kw


def expect_same(a, b, what, settings=True, n=None):
    require(len(a) == len(b), f"{what}: {len(a)} rows, was {len(b)}")
    require(list(a.columns) == list(b.columns), f"{what}: columns {list(a.columns)}, were {list(b.columns)}")
    for c in b.columns:
        x, y = np.asarray(a[c]), np.asarray(b[c])
        if len(y) == 0:
            continue
        if y.dtype.kind in "fiu":
            allnan = y.dtype.kind == "f" and np.all(np.isnan(y))  # a column of missing values has no type in a database
            require(allnan or x.dtype.kind in "fiu", f"{what}: column {c} has type {x.dtype}, was {y.dtype}")
            same(x.astype(float), y.astype(float), f"{what}: column {c}")
            if y.dtype.kind == "i" and x.dtype.kind == "i":
                same(x, y, f"{what}: column {c}")
        else:
            require([str(v) for v in x] == [str(v) for v in y], f"{what}: column {c}")
    same(np.asarray(a.filters, dtype=str), np.asarray(b.filters, dtype=str), f"{what}: filters")
    if settings:
        require(set(a.survey_values) == set(b.survey_values), f"{what}: settings {sorted(a.survey_values)} were {sorted(b.survey_values)}")
        for k, v in b.survey_values.items():
            require(a.survey_values[k] == v, f"{what}: setting {k} is {a.survey_values[k]!r}, was {v!r}")
        require(a.radius == b.radius, f"{what}: radius")


def noise(table, seed):
    n = len(table)
    g = np.random.default_rng([seed, 3])
    idx = g.integers(0, n, size=6)
    return np.asarray(table.bandflux_error_point_source(g.uniform(0, 1e5, size=6), idx), dtype=float)


CASE = fd({
    "survey": surveys.spec_st(hi=14),
    "override": st.sampled_from(["none", "some", "all", "all", "numpy"]),
    "extras": st.booleans(),
    "filter": st.booleans(),
    "double": st.booleans(),
    "name": st.sampled_from(["f", "run#2", "50%41 a", "what?x=1", "new survey", "été"]),
    "via": lists(st.sampled_from(["db", "parquet"]), 1, 3),
})


@check("C11", CASE, quick=500)
def round_trips(case, rec):
    spec = case["survey"]
    cls = surveys.CLS[spec["kind"]]
    par, kw = surveys.params(spec), overrides(case)
    data = surveys.columns(spec)
    if case["double"] and len(data["ra"]):
        # the same exposure is listed twice
        pick = np.sort(np.random.default_rng([spec["seed"], 9]).integers(0, len(data["ra"]), size=len(data["ra"]) + 2))
        data = {c: np.asarray(v)[pick] for c, v in data.items()}
        rec.label("repeated rows")
    table = surveys.make(spec, data, **kw)
    if case["extras"]:
        for c, v in extra_columns(case, len(table)).items():
            table.add_column(c, v)
    if case["filter"] and len(table):
        table.filter_rows(np.random.default_rng([spec["seed"], 4]).random(len(table)) < 0.6)
    n = len(table)
    rec.nontrivial(n >= 2)
    rec.label(spec["kind"], case["override"], *(["via " + v for v in case["via"]]), "extras" if case["extras"] else "plain")
    before = {c: np.asarray(table[c]).copy() for c in table.columns}
    settings0 = dict(table.survey_values)
    with Scratch() as d:
        cur, only_parquet = table, True
        for i, via in enumerate(case["via"]):
            what = f"round trip {i + 1} through {via}"
            if via == "db":
                name = d.file(f"{case['name']}{i}.db")
                if spec["kind"] == "ztf":
                    cur.write_db(name, tablename="exposures")
                else:
                    cur.write_db(name)
                new = cls.from_db(name, **{**par, **kw})
            else:
                name = d.file(f"{case['name']}{i}.parquet")
                cur.write_parquet(name)
                new = cls.from_parquet(name)
            expect_same(new, table, what)
            if n and spec["kind"] != "base":
                same(noise(new, spec["seed"]), noise(table, spec["seed"]), f"{what}: flux errors")
            if n and kw.get("radius"):
                q = [float(table["ra"].iloc[0]), float(table["dec"].iloc[0])]
                require(
                    sorted(int(j) for j in new.range_search(*q)) == sorted(int(j) for j in table.range_search(*q)),
                    f"{what}: searches",
                )
            for col, raw in surveys.RAW[spec["kind"]].items():
                require(raw in new, f"{what}: {col} by its original name")
                same(np.asarray(new[raw]), np.asarray(new[col]), f"{what}: {col} by its original name")
            cur = new
        # writing leaves the survey as it was
        for c, v in before.items():
            x = np.asarray(table[c])
            require(x.dtype == v.dtype and [repr(t) for t in x] == [repr(t) for t in v], f"column {c} of the written survey")
        require({k: v for k, v in table.survey_values.items()} == settings0, "settings of the written survey")


@check("C11", fd({"survey": surveys.spec_st(lo=1, hi=8), "other": surveys.spec_st(kinds=["base"], lo=1, hi=8), "format": st.sampled_from(["db", "parquet"])}), quick=150)
def overwriting(case, rec):
    """An existing file keeps its content unless overwriting is asked for."""
    a = surveys.make(dict(case["survey"], kind="base"))
    b = surveys.make(case["other"])
    rec.nontrivial(len(a) != len(b))
    rec.label(case["format"])
    with Scratch() as d:
        name = d.file("s." + case["format"])
        write = (lambda t, **k: t.write_db(name, **k)) if case["format"] == "db" else (lambda t, **k: t.write_parquet(name, **k))
        read = (lambda: ObsTable.from_db(name)) if case["format"] == "db" else (lambda: ObsTable.from_parquet(name))
        raises(FileNotFoundError, read, "reading a file that does not exist")
        if case["format"] == "parquet":
            for text in (b"", b"somebody's notes"):
                with open(name, "wb") as f:
                    f.write(text)
                raises((ValueError, FileExistsError), lambda: write(b), "writing to an existing file")
                require(open(name, "rb").read() == text, "another file was changed by a refused write")
            os.remove(name)
        write(a)
        content = open(name, "rb").read()
        expect_same(read(), a, "first")
        raises((ValueError, FileExistsError), lambda: write(b), "writing to an existing file")
        require(open(name, "rb").read() == content, "the existing file was changed by a refused write")
        raises((ValueError, FileExistsError), lambda: write(b, overwrite=False), "writing to an existing file, overwrite=False")
        require(open(name, "rb").read() == content, "the existing file was changed by a refused write")
        expect_same(read(), a, "after refused writes")
        require(open(name, "rb").read() == content, "the file was changed by reading")
        if case["format"] == "db":
            b.write_db(name, tablename="another")
            expect_same(read(), a, "after writing another table")
            expect_same(ObsTable.from_db(name, sql_query="SELECT * FROM another"), b, "the other table")
            raises((ValueError, FileExistsError), lambda: a.write_db(name, tablename="another"), "writing to an existing table")
            expect_same(ObsTable.from_db(name, sql_query="SELECT * FROM another"), b, "the other table after a refused write")
            f = str(a["filter"].iloc[0])
            sub = ObsTable.from_db(name, sql_query=f"SELECT * FROM observations WHERE filter = '{f}'")
            full = surveys.make(dict(case["survey"], kind="base"))
            full.filter_rows(full["filter"] == f)
            expect_same(sub, full, "rows chosen by the query")
            raises(ValueError, lambda: ObsTable.from_db(name, sql_query="SELECT * FROM nothing"), "a query of a missing table")
        write(b, overwrite=True)
        expect_same(read(), b, "after overwriting")
        if case["format"] == "db":
            expect_same(ObsTable.from_db(name, sql_query="SELECT * FROM another"), b, "the other table after overwriting")
            a.write_db(name, tablename="another", overwrite=True)
            expect_same(ObsTable.from_db(name, sql_query="SELECT * FROM another"), a, "the other table, overwritten")
            expect_same(read(), b, "after overwriting the other table")


NAMES = ["time", "ra", "dec", "filter", "tag", "zp"]


@check("C11", fd({
    "survey": surveys.spec_st(kinds=["base"], hi=12),
    "mapped": st.lists(st.sampled_from(NAMES), min_size=1, max_size=6, unique=True),
    "absent": st.booleans(),
    "identity": st.booleans(),
}), quick=250)
def column_maps(case, rec):
    """Columns are found by their original and by their mapped names; conflicting maps are refused."""
    spec = case["survey"]
    data = surveys.columns(spec)
    n = len(data["ra"])
    rec.nontrivial(n >= 2)
    colmap = {m: f"orig_{m}" for m in case["mapped"]}
    if case["identity"]:
        for m in NAMES:
            colmap.setdefault(m, m)
    raw = {colmap.get(k, k): v for k, v in data.items()}
    if case["absent"]:
        colmap["rotation"] = "rotSky"
    keep = dict(colmap)
    table = ObsTable(pd.DataFrame(raw), colmap=colmap)
    require(colmap == keep, "the column map was changed")
    for m, v in data.items():
        require(m in table and m in table.columns, f"mapped name {m}")
        same(np.asarray(table[m]), v, f"mapped name {m}")
        if m in colmap:
            require(colmap[m] in table, f"original name {colmap[m]}")
            same(np.asarray(table[colmap[m]]), v, f"original name {colmap[m]}")
            obs = table.get_observations(0.0, 0.0, radius=180.0, cols=[colmap[m], m])
            same(obs[colmap[m]], obs[m], "observations by either name")
            if colmap[m] != m:
                require(colmap[m] not in table.columns, f"column {colmap[m]} is still there")
    require(len(table.columns) == len(data), "number of columns")
    if case["absent"]:
        require("rotation" not in table and "rotSky" not in table, "absent column is reported")
        raises(KeyError, lambda: table["rotSky"], "absent column")
        table.add_column("rotation", np.arange(n) * 1.0)
        require("rotSky" in table, "added column by its original name")
        same(np.asarray(table["rotSky"]), np.arange(n) * 1.0, "added column by its original name")
    m = case["mapped"][0]
    raises(ValueError, lambda: ObsTable(pd.DataFrame({**data, "orig_x": np.arange(n)}), colmap={m: "orig_x"}), "mapping to a name in use")
    for req in ("time", "ra", "dec"):
        d2 = {k: v for k, v in data.items() if k != req}
        raises(KeyError, lambda: ObsTable(pd.DataFrame(d2)), f"no column {req}")


@check("C11", fd({
    "survey": surveys.spec_st(lo=1, hi=10),
    "attrs": st.booleans(),
    "given": st.booleans(),
    "r1": gr(0.5, 5, 9),
    "r2": gr(6, 40, 17),
    "rn": st.sampled_from([0.0, 11.0]),
    "zeros": st.booleans(),
    "seed": seeds(),
}), quick=250)
def settings(case, rec):
    """Arguments go before settings stored with the table, which go before the defaults."""
    spec = dict(case["survey"], as_dict=False)
    kind = spec["kind"]
    cls = surveys.CLS[kind]
    raw = surveys.raw_table(spec)
    default = surveys.make(spec)
    stored, given = {}, {}
    noisy = kind in ("opsim", "ztf")
    if case["attrs"]:
        stored = {"radius": case["r1"], "survey_name": "stored", "pixel_scale": 0.7}
        if noisy:
            stored["read_noise"] = 2.5
            stored["dark_current"] = 0.25
    if case["given"]:
        given = {"radius": case["r2"], "survey_name": "given"}
        if noisy:
            given["read_noise"] = case["rn"]
            if case["zeros"]:
                given["dark_current"] = 0.0
        if case["zeros"]:
            given["survey_name"] = ""
    if case["attrs"]:
        raw.attrs["lightcurvelynx_survey_data"] = dict(stored)
    par = surveys.params(spec)
    if kind in ("fake", "fake_const"):
        # arguments of this class have defaults of their own: pass the radius explicitly
        given.setdefault("radius", case["r1"] if case["attrs"] else None)
        if given["radius"] is None:
            del given["radius"]
    table = cls(raw, **{**par, **given})
    expected = dict(default.survey_values)
    expected.update(stored)
    expected.update(given)
    rec.nontrivial(case["attrs"] or case["given"])
    rec.label(kind, "attrs" if case["attrs"] else "no attrs", "given" if case["given"] else "not given")
    for k in ("radius", "survey_name", "pixel_scale") + (("read_noise", "dark_current") if noisy else ()):
        require(table.survey_values.get(k) == expected.get(k), f"setting {k}: {table.survey_values.get(k)!r}, expected {expected.get(k)!r}")
    require(raw.attrs.get("lightcurvelynx_survey_data", {}) == stored, "settings stored with the caller's table")
    if table.radius is not None:
        q = [float(raw.iloc[0][surveys.RAW[kind].get("ra", "ra")]), float(raw.iloc[0][surveys.RAW[kind].get("dec", "dec")]) * 0.98]
        a = sorted(int(j) for j in table.range_search(*q))
        b = sorted(int(j) for j in table.range_search(*q, radius=expected["radius"]))
        require(a == b, "a search uses the given radius")
        require(table.build_moc(max_depth=4) == table.build_moc(radius=expected["radius"], max_depth=4), "coverage map uses the given radius")
    if noisy:
        # the same survey with all settings given explicitly
        full = cls(surveys.raw_table(spec), **{k: v for k, v in expected.items()})
        same(np.asarray(table["zp"]), np.asarray(full["zp"]), "zero points")
        same(noise(table, case["seed"]), noise(full, case["seed"]), "flux errors")
        base = noise(default, case["seed"])
        if expected["read_noise"] != default.survey_values["read_noise"] and expected.get("dark_current") == default.survey_values["dark_current"]:
            # other settings fixed, more (or less) readout noise
            e = noise(table, case["seed"])
            if kind == "opsim" and "pixel_scale" not in stored:
                require(np.all((e > base) == (expected["read_noise"] > default.survey_values["read_noise"])), "readout noise has no effect")
    require(surveys.make(spec).survey_values == default.survey_values, "defaults of the class changed")
    if case["seed"] % 4 == 0:
        # the survey's present settings are the ones stored, also after changes and repeated writes
        with Scratch() as d:
            want = {k: table.survey_values.get(k) for k in ("survey_name", "radius")}
            table.write_parquet(d.file("a.parquet"))
            back = cls.from_parquet(d.file("a.parquet"))
            require({k: back.survey_values.get(k) for k in want} == want, f"stored settings {want}, read {back.survey_values}")
            table.radius = back.radius = 3.25
            table.survey_values["survey_name"] = "renamed"
            table.write_parquet(d.file("b.parquet"))
            back.write_parquet(d.file("a.parquet"), overwrite=True)
            require(cls.from_parquet(d.file("b.parquet")).radius == 3.25, "a changed radius is not stored")
            require(cls.from_parquet(d.file("b.parquet")).survey_values["survey_name"] == "renamed", "a changed name is not stored")
            require(cls.from_parquet(d.file("a.parquet")).radius == 3.25, "a changed radius of a survey that was read is not stored")
            rec.label("settings stored again")
    for k in ("nothing", "zp_per_seconds"):
        raises(ValueError, lambda: table.safe_get_survey_value(k), f"unknown setting {k}")

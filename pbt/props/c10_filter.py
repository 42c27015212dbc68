import numpy as np
import pandas as pd
from hypothesis import strategies as st

from .. import sky, surveys
from ..core import check, close, describe, fail, raises, require, same
from ..gen import fd, gr, lists, seeds

describe(
    "C10",
    "Cases are histories of row filters, column additions, setting changes and queries over surveys of every class; "
    "non-trivial when some filter removes some but not all rows.",
    ["filters work in place (documented), so the filtered survey is the survey itself"],
)

filter_op = st.one_of(
    fd({"op": st.just("mask"), "seed": seeds(), "frac": st.sampled_from([0.7, 0.5, 0.9, 0.0, 0.3, 1.0]), "form": st.sampled_from(["array", "list", "series"])}),
    fd({"op": st.just("index"), "idx": lists(st.integers(-30, 30), 0, 12), "form": st.sampled_from(["array", "list", "range"])}),
    fd({"op": st.just("where"), "col": st.sampled_from(["time", "filter", "dec"]), "cut": gr(0, 40, 40)}),
)
op_st = st.one_of(
    filter_op,
    filter_op,
    fd({"op": st.just("add"), "name": st.sampled_from(["extra", "ra", "note", "dec", "tag", "time"]), "scalar": st.booleans(), "seed": seeds()}),
    fd({"op": st.just("radius"), "value": st.sampled_from([0.4, 1.5, 20.0])}),
    fd({"op": st.just("clear_foot")}),
    fd({"op": st.just("look"), "seed": seeds()}),
)

CASE = fd({
    "survey": surveys.spec_st(),
    "foot": st.one_of(st.none(), st.none(), surveys.foot_st),
    "ops": lists(op_st, 1, 6),
    "seed": seeds(),
    "spoil": st.booleans(),
    "settings": st.sampled_from(["default", "given"]),
})


def filters_of(data):
    return np.unique(np.asarray(data["filter"], dtype=str)) if len(data["filter"]) else np.array([])


def select(data, mask):
    return {k: np.asarray(v)[mask] for k, v in data.items()}


def kwargs_for(case):
    spec = case["survey"]
    kw = {"radius": 1.5}
    if case["settings"] == "given":
        if spec["kind"] in ("opsim", "ztf"):
            kw["read_noise"] = 3.25
            kw["dark_current"] = 0.75
        kw["survey_name"] = "mine"
        kw["pixel_scale"] = 0.4
    if case["foot"] is not None and spec["kind"] in ("base", "fake", "fake_const"):
        kw["pixel_scale"] = 0.4
    return kw


def compare(table, case, data, settings, foot, zp, rec, seed, what):
    """All public answers of the survey against the rows and against a survey built from those rows."""
    spec = case["survey"]
    n = len(data["ra"])
    g = np.random.default_rng([case["seed"], seed])
    require(len(table) == n, f"{what}: {len(table)} rows, expected {n}")
    for col, vals in data.items():
        require(col in table, f"{what}: column {col} is gone")
        same(np.asarray(table[col]), vals, f"{what}: column {col}")
        raw = surveys.RAW[spec["kind"]].get(col)
        if raw is not None:
            require(raw in table, f"{what}: column {col} by its original name {raw}")
            same(np.asarray(table[raw]), vals, f"{what}: column {raw}")
    same(np.asarray(table["zp"]), zp, f"{what}: zero points")
    same(np.asarray(table.filters, dtype=str), np.asarray(filters_of(data), dtype=str), f"{what}: filters")
    for k, v in settings.items():
        require(table.survey_values.get(k) == v, f"{what}: setting {k} is {table.survey_values.get(k)!r}, was {v!r}")
    require(table.radius == settings["radius"], f"{what}: radius")
    lo, hi = table.time_bounds()
    if n:
        require(lo == data["time"].min() and hi == data["time"].max(), f"{what}: time bounds {(lo, hi)}")
    # a survey built from those rows
    kw = kwargs_for(case)
    kw["radius"] = settings["radius"]
    if foot is not None:
        kw["detector_footprint"] = surveys.footprint(foot)
    fresh = surveys.make(dict(spec, index="range"), data, **kw)
    require(len(fresh) == n, f"{what}: a survey built from {n} rows has {len(fresh)}")
    require(set(fresh.columns) == set(table.columns), f"{what}: columns {sorted(table.columns)}, a fresh survey has {sorted(fresh.columns)}")
    for col in fresh.columns:
        a, b = np.asarray(table[col]), np.asarray(fresh[col])
        if b.dtype.kind in "fiu":
            close(a, b, rtol=1e-12, msg=f"{what}: column {col} of a fresh survey")
        else:
            same(a, b, f"{what}: column {col} of a fresh survey")
    # searches
    m = 4
    c = spec["center"]
    off = g.uniform(-3, 3, size=(m, 2))
    qa, qd = [], []
    for i in range(m):
        if n and g.random() < 0.5:
            j = int(g.integers(n))
            qa.append(float(data["ra"][j]))
            qd.append(float(data["dec"][j]))
        else:
            a, d = sky.offset(np.float64(c[0]), np.float64(c[1]), off[i, 0], off[i, 1])
            qa.append(float(a))
            qd.append(float(d))
    tkw = [{}, {"t_min": 10.0}, {"t_min": 5.0, "t_max": 25.0}][int(g.integers(3))]
    got = table.range_search(np.array(qa), np.array(qd), **tkw)
    other = fresh.range_search(np.array(qa), np.array(qd), **tkw)
    flags = table.is_observed(np.array(qa), np.array(qd), **tkw)
    rot = data.get("rotation")
    for i in range(m):
        must, may = surveys.search(data, qa[i], qd[i], settings["radius"], tkw.get("t_min"), tkw.get("t_max"), foot, rot)
        s = {int(j) for j in got[i]}
        require(must <= s <= must | may, f"{what}: search {i} gives rows {sorted(s)}, expected {sorted(must)}")
        require(s == {int(j) for j in other[i]}, f"{what}: search {i} differs from that of a fresh survey")
        require(bool(flags[i]) == bool(s), f"{what}: is_observed {i}")
        obs = table.get_observations(qa[i], qd[i], **tkw)
        require(set(obs) == set(table.columns), f"{what}: columns of the observations {sorted(obs)}")
        rows = table.range_search(qa[i], qd[i], **tkw)
        require({int(j) for j in rows} == s, f"{what}: single search {i}")
        for col, vals in data.items():
            same(np.asarray(obs[col]), vals[np.asarray(rows, dtype=int)], f"{what}: observations column {col}")
        obs1 = table.get_observations(qa[i], qd[i], cols=["time", "zp"], **tkw)
        require(set(obs1) == {"time", "zp"}, f"{what}: requested columns")
    # noise
    if n and spec["kind"] != "base":
        idx = g.integers(0, n, size=5)
        flux = g.uniform(0, 1e4, size=5)
        e1 = np.asarray(table.bandflux_error_point_source(flux, idx), dtype=float)
        e2 = np.asarray(fresh.bandflux_error_point_source(flux, idx), dtype=float)
        close(e1, e2, rtol=1e-10, msg=f"{what}: flux errors of rows {idx.tolist()} vs a fresh survey")
    if n and g.random() < 0.3:
        a, b = table.build_moc(max_depth=5), fresh.build_moc(max_depth=5)
        require(a == b, f"{what}: coverage map differs from that of a fresh survey")


@check("C10", CASE, quick=350)
def histories(case, rec):
    spec = case["survey"]
    data = surveys.columns(spec)
    n0 = len(data["ra"])
    g = np.random.default_rng([case["seed"], 1])
    foot = case["foot"]
    if foot is not None and foot["rot"]:
        data["rotation"] = g.choice([0.0, 30.0, 90.0, -45.0], size=n0)
    given = surveys.raw_table(spec, data)
    if spec["as_dict"]:
        given = {c: given[c].to_numpy().copy() for c in given.columns}
        before = {k: v.copy() for k, v in given.items()}
    else:
        before = given.copy(deep=True)
    kw = kwargs_for(case)
    par = surveys.params(spec)
    table = surveys.CLS[spec["kind"]](
        given, **{**par, **kw, **({"detector_footprint": surveys.footprint(foot)} if foot is not None else {})}
    )
    if case["spoil"] and n0:
        # the caller goes on working with their own table
        for c in list(given):
            if spec["as_dict"]:
                given[c][:] = given[c][::-1].copy()
                given[c][0] = given[c][-1]
            else:
                given.loc[:, c] = given[c].iloc[int(np.argmax(given[c].to_numpy() == given[c].to_numpy()[-1]))]
        before = {k: v.copy() for k, v in given.items()} if spec["as_dict"] else given.copy(deep=True)
        rec.label("caller changes the table")
    twin = surveys.make(spec)  # another survey of the class, never touched
    twin_values = dict(twin.survey_values)
    settings = dict(table.survey_values)
    for k, v in kw.items():
        require(settings.get(k) == v, f"setting {k}")
    zp = np.asarray(table["zp"]).copy()
    rec.label(spec["kind"], "index " + spec["index"], "footprint" if foot else "no footprint")
    compare(table, case, data, settings, foot, zp, rec, 0, "at the start")
    for i, op in enumerate(case["ops"]):
        n = len(data["ra"])
        what = f"after step {i} ({op['op']})"
        k = op["op"]
        if k in ("mask", "index", "where"):
            if k == "mask":
                mask = np.random.default_rng(op["seed"]).random(n) < op["frac"]
                arg = mask
                if op["form"] == "list":
                    arg = mask.tolist()
                elif op["form"] == "series":
                    arg = pd.Series(mask, index=np.arange(n) + 3)
            elif k == "index":
                idx = [j for j in op["idx"] if -n <= j < n]
                if op["form"] == "range":
                    idx = list(range(0, n, 2))
                    arg = range(0, n, 2)
                else:
                    arg = idx if op["form"] == "list" else np.array(idx, dtype=int)
                mask = np.zeros(n, dtype=bool)
                mask[[j % n for j in idx] if n else []] = True
            else:
                if op["col"] == "filter":
                    f = surveys.FILTS[int(op["cut"]) % spec["nfilt"]]
                    mask, arg = np.asarray(data["filter"]) == f, table["filter"] == f
                else:
                    v = op["cut"] if op["col"] == "time" else spec["center"][1]
                    mask, arg = np.asarray(data[op["col"]]) > v, table[op["col"]] > v
            keep = arg.copy() if isinstance(arg, np.ndarray) else None
            table.filter_rows(arg)
            if keep is not None:
                same(arg, keep, f"{what}: the caller's selection")
            data, zp = select(data, mask), zp[mask]
            rec.nontrivial(0 < mask.sum() < n)
            rec.label("keeps some" if 0 < mask.sum() < n else "keeps all" if mask.all() and n else "keeps none")
        elif k == "add":
            if op["scalar"]:
                vals = np.full(n, float(op["seed"] % 100))
                arg = float(op["seed"] % 100)
            else:
                vals = np.random.default_rng(op["seed"]).normal(size=n)
                if op["name"] in ("ra", "dec"):  # moved a little
                    vals = np.clip(data[op["name"]] + vals, -90.0, 360.0 if op["name"] == "ra" else 90.0)
                arg = vals.copy()
            if op["name"] == "note" and spec["kind"] == "base":
                new = np.random.default_rng(op["seed"]).choice(np.array(surveys.FILTS), size=n).astype(object)
                table.add_column("filter", new.copy(), overwrite=True)
                data = dict(data, filter=new)
            if op["name"] in data:
                raises(KeyError, lambda: table.add_column(op["name"], arg), f"{what}: a second column {op['name']}")
                same(np.asarray(table[op["name"]]), data[op["name"]], f"{what}: refused column")
                table.add_column(op["name"], arg, overwrite=True)
            else:
                table.add_column(op["name"], arg)
            data = dict(data, **{op["name"]: vals})
        elif k == "radius":
            table.radius = op["value"]
            settings["radius"] = op["value"]
        elif k == "clear_foot":
            table.clear_detector_footprint()
            foot = None
        compare(table, case, data, settings, foot, zp, rec, i + 1, what)
    # the caller's table and the other survey
    if spec["as_dict"]:
        require(set(given) == set(before), "the caller's dictionary has other columns")
        for c in before:
            same(given[c], before[c], f"the caller's column {c}")
    else:
        pd.testing.assert_frame_equal(given, before)
        require(given.attrs == before.attrs, "attributes of the caller's table")
    require(twin.survey_values == twin_values, "settings of another survey")


@check("C10", fd({"survey": surveys.spec_st(lo=1, hi=8), "extra": st.sampled_from([-1, 1, 3]), "seed": seeds()}), quick=80)
def refused(case, rec):
    """Masks of another length and rows that do not exist are refused and leave the survey unchanged."""
    spec = case["survey"]
    table = surveys.make(spec)
    data = surveys.columns(spec)
    n = len(table)
    rec.nontrivial(n > 1)
    raises(ValueError, lambda: table.filter_rows(np.ones(n + case["extra"], dtype=bool)), "mask of another length")
    raises(IndexError, lambda: table.filter_rows([n + 2]), "row outside the survey")
    require(len(table) == n, "rows after a refused filter")
    for c, v in data.items():
        same(np.asarray(table[c]), v, f"column {c} after a refused filter")
    raises(KeyError, lambda: table["no_such_column"], "unknown column")
    raises(KeyError, lambda: table.get_observations(0.0, 0.0, radius=1.0, cols=["no_such_column"]), "unknown column of observations")
    require("no_such_column" not in table, "unknown column contained")
    raises(ValueError, lambda: setattr(table, "radius", -1.0), "negative radius")


@check("C10", fd({"kind": st.sampled_from(["opsim", "ztf", "base", "fake_const"]), "n": st.sampled_from([30, 1500, 1, 6000]), "as_dict": st.booleans(), "seed": seeds()}), quick=40)
def large_tables(case, rec):
    """Short and long tables alike: the survey and the caller's table are independent, a filtered survey keeps its rows."""
    g = np.random.default_rng([case["seed"], 3])
    spec = {"kind": case["kind"], "center": [40.0, -10.0], "rows": [[float(a), float(b)] for a, b in np.round(g.normal(size=(case["n"], 2)), 3)],
            "seed": case["seed"], "index": "range", "as_dict": case["as_dict"], "nfilt": 4}
    data = surveys.columns(spec)
    given = surveys.raw_table(spec, data)
    if case["as_dict"]:
        given = {c: given[c].to_numpy().copy() for c in given.columns}
    table = surveys.CLS[case["kind"]](given, **{**surveys.params(spec), "radius": 2.0})
    cols = {c: np.asarray(table[c]).copy() for c in table.columns}
    before = {c: np.asarray(given[c]).copy() for c in given}
    # the caller's table changes
    for c in list(given):
        if case["as_dict"]:
            given[c][:] = given[c][-1]
        else:
            given.iloc[:, list(given.columns).index(c)] = given[c].iloc[-1]
    for c, v in cols.items():
        same(np.asarray(table[c]), v, f"column {c} after the caller changed their table")
    # the survey changes
    given = {c: v.copy() for c, v in before.items()} if case["as_dict"] else pd.DataFrame(before)
    table = surveys.CLS[case["kind"]](given, **{**surveys.params(spec), "radius": 2.0})
    table.add_column("time", cols["time"] + 5.0, overwrite=True)
    table.add_column("ra", 12.0, overwrite=True)
    table.add_column("mine", np.arange(case["n"]))
    mask = g.random(case["n"]) < 0.5
    table.filter_rows(mask)
    same(np.asarray(table["mine"]), np.flatnonzero(mask), "rows kept")
    same(np.asarray(table["time"]), (cols["time"] + 5.0)[mask], "times kept")
    same(np.asarray(table["dec"]), cols["dec"][mask], "declinations kept")
    require(list(given) == list(before), "columns of the caller's table")
    for c, v in before.items():
        same(np.asarray(given[c]), v, f"the caller's column {c} after the survey changed")
    rec.label(case["kind"], f"{case['n']} rows")
    rec.nontrivial(case["n"] > 1)


@check("C10", fd({"kind": st.sampled_from(["opsim", "ztf", "base"]), "how": st.sampled_from(["radius", "dict", "footprint"]), "seed": seeds()}), quick=40)
def own_settings(case, rec):
    """Settings of one survey, built with nothing but a table, are its own: later surveys start from the documented defaults."""
    g = np.random.default_rng([case["seed"], 4])
    spec = {"kind": case["kind"], "center": [40.0, -10.0], "rows": [[float(a), float(b)] for a, b in g.normal(size=(5, 2))],
            "seed": case["seed"], "index": "range", "as_dict": False, "nfilt": 2}
    data = surveys.columns(spec)
    raw = surveys.raw_table(spec, data)
    cls = surveys.CLS[case["kind"]]
    build = lambda **kw: cls(raw.copy(), **kw)  # noqa: E731
    first = build()
    keep = dict(first.survey_values)
    value = float(np.round(g.uniform(0.2, 9), 2))
    if case["how"] == "radius":
        first.radius = value
        require(first.radius == value, "the radius just set")
    elif case["how"] == "dict":
        first.survey_values["radius"] = value
        first.survey_values["note"] = "mine"
    else:
        build(radius=value, survey_name="other", extra_setting=3)
    second = build()
    require(set(second.survey_values) == set(keep), f"settings {sorted(set(second.survey_values) ^ set(keep))} of a later survey")
    for k, v in keep.items():
        w = second.survey_values[k]
        require(w is v or w == v, f"setting {k} of a later survey: {w}, expected {v}")
    require(second.radius == keep["radius"], "radius of a later survey")
    rec.label(case["kind"], case["how"])
    rec.nontrivial()

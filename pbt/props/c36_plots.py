import matplotlib

matplotlib.use("Agg")

import matplotlib.pyplot as plt
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from matplotlib.collections import PathCollection
from matplotlib.colors import to_rgba
from matplotlib.container import ErrorbarContainer

from lightcurvelynx.astro_utils.passbands import Passband, PassbandGroup
from lightcurvelynx.models.lightcurve_template_model import LightcurveData, LightcurveTemplateModel, MultiLightcurveTemplateModel
from lightcurvelynx.simulate import compute_single_noise_free_lightcurve
from lightcurvelynx.utils.plotting import plot_bandflux_lightcurves, plot_flux_spectrogram, plot_lightcurves

from .. import sky, zoo
from ..core import check, close, describe, raises, require, same
from ..gen import fd, gr, seeds
from .c13_footprint import FOOT, build, inside, place, probes

describe(
    "C36",
    "Cases are light curves (any number of points and filters, in any order, with and without errors, models, titles and "
    "given axes), spectra, passbands, templates and detector footprints; the numbers held by the drawn lines, error bars, "
    "images and point clouds are read back and compared with the data; non-trivial when at least two series are drawn.",
    ["the appearance (colours of a series, markers, sizes) is free, except that series have different colours while the colours last"],
)


def axes(kind):
    """Arguments that choose the axes, and the figure and axes expected (None: new ones)."""
    if kind == "new":
        return {}, None, None
    fig = plt.figure()
    if kind == "figure":
        return {"figure": fig}, fig, None
    ax = fig.add_subplot()
    return ({"ax": ax} if kind == "ax" else {"ax": ax, "figure": plt.figure()}), fig, ax


def where(got, fig, ax, what):
    require(ax is None or got is ax, f"{what}: drawn in the given axes")
    require(fig is None or got.figure is fig, f"{what}: drawn in the given figure")


def series(ax):
    """(label, kind, x, y, errors, colour) of everything drawn as points or lines."""
    out, seen = [], set()
    for c in ax.containers:
        if isinstance(c, ErrorbarContainer):
            line, _, bars = c.lines
            seen.add(id(line))
            segs = [np.array(s) for b in bars for s in b.get_segments()]
            half = np.array([(s[1, 1] - s[0, 1]) / 2 for s in segs])
            out.append((c.get_label(), "bars", np.asarray(line.get_xdata(), dtype=float), np.asarray(line.get_ydata(), dtype=float), half, line.get_color()))
    for line in ax.get_lines():
        if id(line) not in seen:
            out.append((line.get_label(), "line", np.asarray(line.get_xdata(), dtype=float), np.asarray(line.get_ydata(), dtype=float), None, line.get_color()))
    return out


NAMES = ["g", "r", "i", "LSST_u", "F158", "y", "z", "F062", "g2", "None"]


@check("C36", fd({
    "n": st.sampled_from([7, 12, 40, 2, 1, 0]), "k": st.sampled_from([3, 8, 2, 1, 10, 0]), "form": st.sampled_from(["array", "series", "object"]),
    "err": st.booleans(), "model": st.sampled_from(["none", "all", "some", "more"]), "axes": st.sampled_from(["new", "figure", "ax", "both"]),
    "title": st.sampled_from([None, "A title"]), "colors": st.booleans(), "seed": seeds(),
}), quick=130)
def lightcurves(case, rec):
    g = np.random.default_rng(case["seed"])
    n, k = case["n"], case["k"]
    t, y, e = g.uniform(0, 100, n), g.normal(scale=50, size=n), g.uniform(0.1, 9, n)
    f = None
    names = ["None"]
    if k:
        pool = np.array(NAMES)[g.permutation(len(NAMES))[:k]]
        f = pool[g.integers(0, k, n)]
        names = sorted(set(f.tolist()))
        if case["form"] == "object":
            f = f.astype(object)
    kw = {}
    if f is not None:
        kw["filters"] = f
    if case["err"]:
        kw["fluxerrs"] = e
    model = None
    if case["model"] != "none":
        models = list(names)
        if case["model"] == "some":
            models = models[::2]
        if case["model"] == "more":
            models.append("unseen")
        model = {"times": np.linspace(0, 100, 9), **{m: g.normal(size=9) for m in models}}
        kw["underlying_model"] = model
    if case["title"]:
        kw["title"] = case["title"]
    if case["colors"]:
        kw["colormap"] = {m: (0.1, 0.05 * i, 0.5) for i, m in enumerate(names + ["other"])}
    keep = [t.copy(), y.copy(), e.copy(), None if f is None else f.copy()]
    given = dict(kw)
    if case["form"] == "series":
        order = g.permutation(n)
        t, y = pd.Series(t, index=order + 100), pd.Series(y, index=order + 100)
    where_kw, fig, ax = axes(case["axes"])
    try:
        got = plot_lightcurves(y, t, **kw, **where_kw)
        where(got, fig, ax, "light curves")
        drawn = series(got)
        labels = [d[0] for d in drawn]
        want_labels = [f"Sample {m}" for m in names] + ([f"Model {m}" for m in names if m in model] if model else [])
        if n or f is None:
            require(sorted(labels) == sorted(want_labels), f"series {labels}, expected {want_labels}")
        points = 0
        colours = {}
        for label, kind, x, v, err, colour in drawn:
            what, m = label.split(" ", 1)
            if what == "Model":
                same(x, model["times"], f"{label}: times"), same(v, model[m], f"{label}: values")
                require(to_rgba(colour)[:3] == to_rgba(colours.setdefault(m, colour))[:3], "a model has the colour of its filter")
                continue
            sel = np.ones(n, dtype=bool) if f is None else keep[3].astype(str) == m
            same(x, keep[0][sel], f"{label}: times"), same(v, keep[1][sel], f"{label}: values")
            require(kind == ("bars" if case["err"] else "line"), f"{label}: error bars")
            if err is not None:
                close(err, keep[2][sel], rtol=1e-9, msg=f"{label}: errors")
            if case["colors"] and m in kw["colormap"]:
                require(to_rgba(colour) == to_rgba(kw["colormap"][m]), f"{label}: colour")
            require(to_rgba(colour)[:3] == to_rgba(colours.setdefault(m, colour))[:3], "a model has the colour of its filter")
            points += len(x)
        require(points == n, f"{points} points drawn, {n} given")
        if len(names) <= 7 or case["colors"]:
            require(len({to_rgba(c) for c in colours.values()}) == len(colours), "two filters with one colour")
        require(got.get_title() == (case["title"] or ""), f"title {got.get_title()!r}")
        require((got.get_legend() is not None) == (len(names) > 1 and n > 0), "a legend for several filters")
        same(np.asarray(t), keep[0], "times given"), same(np.asarray(y), keep[1], "fluxes given"), same(e, keep[2], "errors given")
        require(set(kw) == set(given) and (f is None or np.array_equal(f, keep[3])), "arguments")
        if n:
            for bad in ({"times": t[:-1]}, {"filters": np.array(["g"] * (n + 1))}, {"fluxerrs": np.ones(n + 1)}):
                args = {"times": t, **bad}
                raises(ValueError, lambda args=args: plot_lightcurves(y, **args), f"lengths differ: {list(bad)}")
    finally:
        plt.close("all")
    rec.nontrivial(len(names) > 1 and n > 2)
    rec.label("filters" if k else "no filters", "errors" if case["err"] else "no errors")


@check("C36", fd({"k": st.sampled_from([3, 1, 8, 2]), "n": st.sampled_from([5, 1, 20]), "times": st.sampled_from(["sorted", None, "any", "repeated"]), "array": st.booleans(), "axes": st.sampled_from(["new", "figure", "ax", "both"]), "seed": seeds()}), quick=60)
def curves_and_spectra(case, rec):
    g = np.random.default_rng(case["seed"])
    n = case["n"]
    curves = {m: g.normal(size=n) for m in NAMES[: case["k"]]}
    t = g.uniform(0, 50, n) if case["times"] else None
    if case["times"] == "repeated":
        t = np.round(t / 25) * 25
    if case["times"] in ("sorted", "repeated"):
        t = np.sort(t)
    try:
        where_kw, fig, ax = axes(case["axes"])
        title = "T" if case["seed"] % 3 else None
        got = plot_bandflux_lightcurves(curves["g"] if case["array"] else curves, times=t, title=title, **where_kw)
        where(got, fig, ax, "curves")
        drawn = series(got)
        want = {"lightcurve": curves["g"]} if case["array"] else curves
        require([d[0] for d in drawn] == list(want), f"curves {[d[0] for d in drawn]}")
        for label, _, x, v, _, _ in drawn:
            same(x, np.arange(n) * 1.0 if t is None else t, f"{label}: times"), same(v, want[label], f"{label}: values")
        require((got.get_legend() is not None) == (len(want) > 1) and got.get_title() == (title or ""), "legend and title")
        # spectra
        w = np.linspace(3000, 9000, int(g.choice([3, 60, 120])))
        flux = g.uniform(0, 10, (n, len(w)))
        keep = flux.copy()
        where_kw, fig, ax = axes(case["axes"])
        tt = t if t is not None else np.arange(n) * 1.0
        got = plot_flux_spectrogram(flux, times=tt if case["times"] else None, wavelengths=w, **where_kw)
        where(got, fig, ax, "spectra")
        require(len(got.images) == 1, f"{len(got.images)} images")
        same(np.asarray(got.images[0].get_array()), keep.T, "image of the spectra")
        same(flux, keep, "fluxes given")
        if case["times"]:
            for x, label in zip(got.get_xticks(), got.get_xticklabels(), strict=True):
                require(abs(float(label.get_text()) - tt[int(x)]) <= 0.51, f"time {label.get_text()} at column {x}: {tt[int(x)]}")
        for x, label in zip(got.get_yticks(), got.get_yticklabels(), strict=True):
            require(abs(float(label.get_text()) - w[int(x)]) <= 0.51, f"wavelength {label.get_text()} at row {x}: {w[int(x)]}")
        for text in got.texts:
            i, j = (int(p) for p in text.get_position())
            require(abs(float(text.get_text()) - keep[i, j]) <= 0.0501, f"number {text.get_text()} at {i}, {j}: {keep[i, j]}")
    finally:
        plt.close("all")
    rec.nontrivial(case["k"] > 1 and n > 1)


@check("C36", fd({"k": st.sampled_from([3, 1, 2]), "delta": st.sampled_from([20.0, 33.0]), "trim": st.sampled_from([None, 1e-2]), "z": st.sampled_from([0.0, 0.5]), "axes": st.sampled_from(["ax", "figure"]), "times": st.booleans(), "seed": seeds()}), quick=40)
def passbands_and_templates(case, rec):
    g = np.random.default_rng(case["seed"])
    names = ["g", "r", "odd"][: case["k"]]
    pbs, tabs = [], []
    for i, m in enumerate(names):
        w = np.linspace(4000 + 1500 * i, 5000 + 1500 * i, 21)
        y = np.concatenate([[0.0], g.uniform(0.2, 1.0, 19), [0.0]])
        tabs.append(np.column_stack([w, y]))
        pbs.append(Passband(tabs[-1].copy(), "Sur", m, delta_wave=case["delta"], trim_quantile=case["trim"]))
    group = PassbandGroup(list(pbs))
    try:
        where_kw, fig, ax = axes(case["axes"])
        pbs[0].plot(**where_kw, plot_loaded=True)
        a = fig.axes[0]
        drawn = series(a)
        require(len(drawn) == 2, f"{len(drawn)} curves of a passband and its own table")
        for d, tab in zip(drawn, (pbs[0].processed_transmission_table, tabs[0]), strict=True):
            same(d[2], tab[:, 0], "wavelengths"), same(d[3], tab[:, 1], "transmission")
        require(drawn[0][0] == pbs[0].full_name and a.get_ylim()[0] == 0, "label and axis")
        where_kw, fig, ax = axes(case["axes"])
        group.plot(**where_kw)
        drawn = series(fig.axes[0])
        require([d[0] for d in drawn] == [p.full_name for p in pbs], f"passbands {[d[0] for d in drawn]}")
        for d, p in zip(drawn, pbs, strict=True):
            same(d[2], p.processed_transmission_table[:, 0], "wavelengths"), same(d[3], p.processed_transmission_table[:, 1], "transmission")
        # templates
        data = {m: np.column_stack([np.sort(g.choice(np.arange(-50, 50), 8, replace=False)) * 1.0, g.uniform(1, 9, 8)]) for m in names}
        model = LightcurveTemplateModel({m: d.copy() for m, d in data.items()}, group, 5.0, t0=100.0)
        for plot in (model.plot_lightcurves, LightcurveData({m: d.copy() for m, d in data.items()}, 5.0).plot_lightcurves):
            where_kw, fig, ax = axes(case["axes"])
            ends = max(d[0, 0] for d in data.values()) - 5.0, min(d[-1, 0] for d in data.values()) - 5.0
            times = np.sort(g.uniform(*ends, 6)) if case["times"] and ends[0] < ends[1] else None
            plot(times=times, **where_kw)
            drawn = series(fig.axes[0])
            require([d[0] for d in drawn] == names, f"curves {[d[0] for d in drawn]}")
            for label, _, x, v, _, _ in drawn:
                tab = data[label]
                if times is None:
                    close(x, tab[:, 0] - 5.0, atol=1e-9, msg="times"), close(v, tab[:, 1], rtol=1e-12, msg="fluxes")
                else:
                    same(x, times, "times"), close(v, np.interp(times, tab[:, 0] - 5.0, tab[:, 1]), rtol=1e-9, msg="fluxes")
        multi = MultiLightcurveTemplateModel([LightcurveData({m: d.copy() for m, d in data.items()}, 5.0)], group, t0=0.0)
        for m in (model, multi):
            where_kw, fig, ax = axes(case["axes"])
            m.plot_sed_basis(**where_kw)
            drawn = series(fig.axes[0])
            require(sorted(d[0] for d in drawn) == sorted(names), f"spectra {[d[0] for d in drawn]}")
            for label, _, x, v, _, _ in drawn:
                same(x, group.waves, "wavelengths of a spectrum")
                for other in names:
                    close(group.fluxes_to_bandflux(v[None, :], other), [1.0 if other == label else 0.0], rtol=1e-6, atol=1e-9, msg=f"spectrum of {label} through {other}")
        # a model drawn behind its observations
        src = zoo.build({"kind": "const", "ps": 3, "mode": "const", "z": "none", "extrap": "none", "effects": []})
        lc = compute_single_noise_free_lightcurve(src, src.sample_parameters(num_samples=1), group)
        ax = plot_lightcurves(lc[names[0]][::3], lc["times"][::3], filters=np.array([names[0]] * len(lc["times"][::3])), underlying_model=lc)
        drawn = {d[0]: d for d in series(ax)}
        same(drawn[f"Model {names[0]}"][3], lc[names[0]], "model")
    finally:
        plt.close("all")
    rec.nontrivial(case["k"] > 1)


@check("C36", fd({"foot": FOOT, "n": st.sampled_from([12, 3, 1, 0]), "pointing": sky.position, "rot": gr(0, 360, 12), "axes": st.sampled_from(["new", "figure", "ax"]), "seed": seeds()}), quick=60)
def footprints(case, rec):
    """Points drawn over a footprint lie inside or outside it as they do on the sky."""
    g = np.random.default_rng(case["seed"])
    s, n = case["foot"]["shape"], case["n"]
    foot = build(case["foot"])
    ra0, dec0 = (float(x) for x in case["pointing"])
    xy = probes(s, n, g) if n else np.zeros((0, 2))
    ra, dec = place(xy, np.full(n, ra0), np.full(n, dec0), np.full(n, case["rot"]))
    exp, unsure = inside(s, xy[:, 0], xy[:, 1])
    try:
        where_kw, fig, ax = axes(case["axes"])
        kw = {"point_ra": ra, "point_dec": dec} if n else {}
        foot.plot(center_ra=ra0, center_dec=dec0, rotation=case["rot"], **kw, **where_kw)
        a = plt.gcf().axes[0] if fig is None else fig.axes[0]
        require(len(a.patches) + len([x for x in a.get_children() if type(x).__name__ in ("Rectangle", "Ellipse", "Polygon", "Circle")]) > 0, "the outline")
        clouds = {c.get_label(): np.asarray(c.get_offsets()) for c in a.collections if isinstance(c, PathCollection)}
        if n:
            got = np.asarray(foot.contains(ra, dec, np.full(n, ra0), np.full(n, dec0), rotation=np.full(n, case["rot"]))).astype(bool)
            px, py = foot.sky_to_pixel(ra, dec, ra0, dec0, rotation=case["rot"])
            pix = np.column_stack([px, py])
            require(set(clouds) == {"Inside Footprint", "Outside Footprint"}, f"clouds {set(clouds)}")
            close(clouds["Inside Footprint"].reshape(-1, 2), pix[got], atol=1e-6, rtol=1e-9, msg="points inside")
            close(clouds["Outside Footprint"].reshape(-1, 2), pix[~got], atol=1e-6, rtol=1e-9, msg="points outside")
            require(np.all((got == exp) | unsure), "points inside and outside")
            (x0, x1), (y0, y1) = a.get_xlim(), a.get_ylim()
            require(x0 <= pix[:, 0].min() and pix[:, 0].max() <= x1 and y0 <= pix[:, 1].min() and pix[:, 1].max() <= y1, "points beyond the axes")
        else:
            require(not clouds, "points that were not given")
        (x0, x1), (y0, y1) = a.get_xlim(), a.get_ylim()
        box = foot.region.bounding_box
        require(x0 <= box.ixmin and box.ixmax - 1 <= x1 and y0 <= box.iymin and box.iymax - 1 <= y1, "the outline is within the axes")
    finally:
        plt.close("all")
    rec.nontrivial(n > 2 and exp.any() and not exp.all())

import numpy as np
from hypothesis import strategies as st

from lightcurvelynx.astro_utils.passbands import Passband, PassbandGroup

from .. import bands
from ..core import Reject, check, close, describe, raises, require, same
from ..gen import fd, gr, seeds

describe(
    "C16",
    "Cases are groups of passbands whose grids are disjoint, overlapping, shifted by tiny amounts or identical, built from passband "
    "objects, grown one by one, restricted or reprocessed; non-trivial when two members overlap in wavelength.",
    ["wavelengths closer than 1e-5 angstroms count as the same wavelength"],
)

NAMES = [("A", "g"), ("B", "g"), ("A", "r"), ("C", "r"), ("A", "A_g"), ("B", "z"), ("A_g", "g"), ("C", "y")]
MEMBER = fd({
    "table": bands.TABLE,
    "delta": bands.DELTA,
    "how": st.sampled_from(["shift", "new", "shift", "same"]),
    "shift": st.sampled_from([4e-6, 2e-5, 1.5, -3e-6, 0.003, 250.0, -7.25, 5.0]),
    "name": st.integers(0, len(NAMES) - 1),
})
CASE = fd({
    "members": st.lists(MEMBER, min_size=2, max_size=5),
    "how": st.sampled_from(["list", "grow", "filters", "reprocess", "passband"]),
    "times": st.integers(1, 3),
    "nm": st.booleans(),
    "seed": seeds(),
})


def build(case, raw=None):
    """Passbands with distinct full names; raw: the tables they were given."""
    out, tab, used = [], None, set()
    for m in case["members"]:
        if tab is None or m["how"] == "new":
            tab, d = bands.table(m["table"]), m["delta"]
            dv = bands.delta(d, tab)
        elif m["how"] == "shift":
            tab = tab + np.array([m["shift"], 0.0])
        survey, filt = NAMES[m["name"]]
        if f"{survey}_{filt}" in used:
            continue
        used.add(f"{survey}_{filt}")
        if raw is not None:
            raw[f"{survey}_{filt}"] = tab.copy()
        out.append(Passband(tab.copy(), survey, filt, delta_wave=dv, trim_quantile=None))
    return out


def spectrum(seed, w, nt):
    g = np.random.default_rng([seed, 21])
    k = np.array([0.004, 0.05, 1.7, 5.0])
    a = g.normal(size=(nt, 4, 1))
    p = g.uniform(0, 6, size=(nt, 4, 1))
    return np.sum(a * np.sin(k[:, None] * np.asarray(w)[None, None, :] + p), axis=1)


@check("C16", CASE, quick=2500)
def collection(case, rec):
    pbs = build(case)
    rec.label("members %d" % len(pbs), case["how"])
    members = {p.full_name: p for p in pbs}
    g = np.random.default_rng(case["seed"])
    if case["how"] == "list":
        group = PassbandGroup(list(pbs))
    elif case["how"] == "passband":
        group = PassbandGroup(pbs[0])
        for p in pbs[1:]:
            group.add_passband(p)
    elif case["how"] == "grow":
        k = int(g.integers(1, len(pbs) + 1))
        group = PassbandGroup(pbs[:k])
        for p in pbs[k:]:
            group.add_passband(p)
    elif case["how"] == "filters":
        ask = []
        for p in pbs:
            if g.random() < 0.5:
                ask.append(p.full_name if g.random() < 0.5 else p.filter_name)
        if not ask:
            ask = [pbs[0].full_name]
        if g.random() < 0.3:
            raises(ValueError, lambda: PassbandGroup(list(pbs), filters=ask + ["nope"]), "filter that is not there")
        group = PassbandGroup(list(pbs), filters=ask)
        members = {n: p for n, p in members.items() if n in ask or p.filter_name in ask}
    else:
        group = PassbandGroup(list(pbs))
        dv = [p.waves[-1] - p.waves[0] for p in pbs]
        dv = float(min(dv)) / g.choice([11.0, 16.5])
        group.process_transmission_tables(delta_wave=dv, trim_quantile=None)
        for p in pbs:
            require(p.waves[1] - p.waves[0] >= dv * (1 - 1e-4), "reprocessed step")
    pbs = list(members.values())

    # names, iteration, masks
    require(len(group) == len(members), f"{len(group)} members, expected {len(members)}")
    same([p.full_name for p in group], list(members), "iteration order")
    require(all(a is b for a, b in zip(group, pbs)), "iteration yields the given passbands")
    shorts = list(dict.fromkeys(p.filter_name for p in pbs))
    same(list(group.filters), shorts, "filters")
    count = {s: sum(p.filter_name == s for p in pbs) for s in shorts}
    for n, p in members.items():
        require(n in group and group[n] is p, f"lookup of {n}")
    for s in shorts:
        require(s in group, f"short name {s}")
        if s in members:
            continue
        if count[s] == 1:
            require(group[s] is next(p for p in pbs if p.filter_name == s), f"lookup of {s}")
        else:
            rec.label("ambiguous name")
            raises(KeyError, lambda s=s: group[s], f"ambiguous name {s}")
    require("nope" not in group and "A" not in group, "unknown names are not members")
    raises(KeyError, lambda: group["nope"], "unknown name")
    ask = [str(x) for x in g.choice(list(members) + shorts + ["nope", "A", "", "A_", "q"], size=6)]
    same(group.mask_by_filter(ask), [x in members or x in shorts for x in ask], f"mask of {ask}")

    # combined grid
    w = np.asarray(group.waves)
    require(np.all(np.diff(w) > 0), "combined grid is increasing")
    allw = np.concatenate([p.waves for p in pbs])
    near = np.array([np.min(np.abs(w - x)) for x in allw])
    require(near.max() <= 1e-5 * len(pbs), f"member wavelength missing by {near.max()}")
    require(set(w) <= set(allw), "combined grid has only member wavelengths")
    same(group.wave_bounds(), (w[0], w[-1]), "bounds")
    close(group.wave_bounds(), (allw.min(), allw.max()), rtol=0, atol=1e-5 * len(pbs), msg="bounds")

    # band fluxes
    nt = case["times"]
    flux = spectrum(case["seed"], w, nt)
    keep = flux.copy()
    allf = group.fluxes_to_bandfluxes(flux)
    same(list(allf), list(members), "names of the band fluxes")
    overlap = False
    for n, p in members.items():
        own = p.fluxes_to_bandflux(spectrum(case["seed"], p.waves, nt))
        inner = np.sum((w > p.waves[0] + 1e-3) & (w < p.waves[-1] - 1e-3)) > len(p.waves)
        overlap = overlap or bool(inner)
        close(group.fluxes_to_bandflux(flux, n), own, rtol=0, atol=1e-3, msg=f"band flux of {n}")
        close(allf[n], own, rtol=0, atol=1e-3, msg=f"band flux of {n} (all)")
        if not inner or np.min(np.diff(w)) > 1e-3:
            own = p.fluxes_to_bandflux(flux[:, [int(np.argmin(np.abs(w - x))) for x in p.waves]])
            close(allf[n], own, rtol=1e-9, atol=1e-12, msg=f"band flux of {n} from its own wavelengths")
        if count[p.filter_name] == 1 and p.filter_name not in members:
            same(group.fluxes_to_bandflux(flux, p.filter_name), allf[n], f"band flux of {p.filter_name}")
        elif p.filter_name not in members:
            raises(ValueError, lambda p=p: group.fluxes_to_bandflux(flux, p.filter_name), f"ambiguous {p.filter_name}")
    same(flux, keep, "input fluxes")
    rec.nontrivial(overlap)
    raises(ValueError, lambda: group.fluxes_to_bandflux(flux, "nope"), "unknown filter")
    raises(ValueError, lambda: group.fluxes_to_bandfluxes(flux[:, :-1]), "wrong grid")
    raises(ValueError, lambda: group.fluxes_to_bandfluxes(flux[:0]), "no fluxes")


@check("C16", fd({
    "members": st.lists(MEMBER, min_size=2, max_size=5), "ops": st.lists(st.sampled_from(["replace", "reprocess", "add", "reprocess one"]), min_size=1, max_size=4),
    "trim": st.sampled_from([None, 0.01, 0.2, 0.0]), "div": st.sampled_from([11.0, 16.5, 40.0, None]), "seed": seeds(),
}), quick=300)
def changing(case, rec):
    """Members replaced, added and processed again: the group always is the collection of its present passbands."""
    g = np.random.default_rng([case["seed"], 33])
    tables = {}
    pbs = build(case, tables)
    group = PassbandGroup(list(pbs))
    members = {p.full_name: p for p in pbs}
    for op in case["ops"]:
        name = list(members)[int(g.integers(len(members)))]
        old = members[name]
        if op in ("replace", "add"):
            lo, hi = float(old.waves[0]), float(old.waves[-1])
            w = np.linspace(lo + 0.1 * (hi - lo), hi + 0.35 * (hi - lo), 14)
            tab = np.column_stack([w, g.uniform(0.1, 1, 14)])
            survey, filt = (old.survey, old.filter_name) if op == "replace" else ("N%d" % len(members), "g")
            new = Passband(tab.copy(), survey, filt, delta_wave=None, trim_quantile=None)
            group.add_passband(new)
            members[new.full_name], tables[new.full_name] = new, tab
        elif op == "reprocess":
            span = min(t[-1, 0] - t[0, 0] for t in tables.values())
            dv = None if case["div"] is None else span / case["div"]
            try:
                fresh = {n: Passband(tables[n].copy(), "x", "y", delta_wave=dv, trim_quantile=case["trim"]) for n, p in members.items()}
            except ValueError:  # a trimmed table may be too short
                continue
            group.process_transmission_tables(delta_wave=dv, trim_quantile=case["trim"])
            for n, p in members.items():
                same(p.waves, fresh[n].waves, f"wavelengths of {n} processed again")
                same(p.processed_transmission_table, fresh[n].processed_transmission_table, f"transmission of {n} processed again")
        same([p.full_name for p in group], list(members), f"members after {op}")
        w = np.asarray(group.waves)
        require(np.all(np.diff(w) > 0), "combined grid is increasing")
        flux = 1.0 + spectrum(case["seed"], w, 2)
        allf = group.fluxes_to_bandfluxes(flux)
        for n, p in members.items():
            require(group[n] is p, f"member {n} after {op}")
            own = p.fluxes_to_bandflux(1.0 + spectrum(case["seed"], p.waves, 2))
            close(allf[n], own, rtol=1e-4, atol=1e-3, msg=f"band flux of {n} after {op}")
    rec.nontrivial(len(members) > 1)


@check("C16", st.sampled_from([0]), quick=1)
def empty(case, rec):
    raises(ValueError, lambda: PassbandGroup([]), "no passbands")
    raises(ValueError, lambda: PassbandGroup(None), "no passbands")
    raises(TypeError, lambda: PassbandGroup(["g"]), "not a passband")
    rec.nontrivial()

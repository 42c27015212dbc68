import numpy as np
from hypothesis import strategies as st

from lightcurvelynx.astro_utils.passbands import Passband

from .. import bands
from ..core import Reject, check, close, describe, raises, require, same
from ..gen import fd, gr, seeds

describe(
    "C15",
    "Cases are transmission tables (uniform or not, with any requested grid step, trimming, scale and unit) and random spectra "
    "on the passband's grid; non-trivial when the passband has at least three grid points with positive transmission.",
    ["grids that agree with the requested step to a relative 1e-5 are taken as they are, so band fluxes are compared to 3e-5"],
)

TOL = 3e-5
CASE = fd({
    "table": bands.TABLE,
    "delta": bands.DELTA,
    "trim": st.sampled_from([None, 1e-3, 0.0, 0.02]),
    "scale": st.sampled_from([100.0, 1e-6, 0.5, 1.0]),
    "times": st.integers(1, 4),
    "samples": st.integers(1, 3),
    "seed": seeds(),
})


def make(case, tab, **kw):
    try:
        return Passband(
            tab, "S", "x", delta_wave=bands.delta(case["delta"], tab), trim_quantile=case["trim"], **kw
        )
    except ValueError:
        if case["trim"] and (len(tab) < 8 or case["delta"] in ("coarse", "default")):
            raise Reject()  # trimmed to less than two rows, or nothing left
        raise


@check("C15", CASE, quick=2500)
def integrals(case, rec):
    tab = bands.table(case["table"])
    pb = make(case, tab)
    g = np.random.default_rng([case["seed"], 1])
    w = np.array(pb.waves)
    nt, ns = case["times"], case["samples"]
    inside = np.interp(w, tab[:, 0], tab[:, 1]) > 0
    rec.nontrivial(np.sum(inside) >= 3)
    rec.label("delta " + case["delta"], "uneven" if pb.delta_wave is None else "even")

    # constant spectra, one constant for each sample and time
    f0 = g.normal(size=(ns, nt)) * 10.0 ** g.integers(-3, 6, size=(ns, nt))
    cube = np.repeat(f0[:, :, None], len(w), axis=2)
    keep = cube.copy()
    close(pb.fluxes_to_bandflux(cube), f0, rtol=TOL, msg="constant flux, samples x times")
    close(pb.fluxes_to_bandflux(cube[0]), f0[0], rtol=TOL, msg="constant flux, times")
    same(cube, keep, "input fluxes")

    # arbitrary spectra: bounds, linearity, independence of each sample and time
    a = g.normal(size=(ns, nt, len(w)))
    if case["seed"] % 3 == 0:
        a = np.abs(a) ** 3
    fa = pb.fluxes_to_bandflux(a)
    require(fa.shape == (ns, nt), f"shape {fa.shape}")
    lo, hi = a[..., inside].min(axis=2), a[..., inside].max(axis=2)
    pad = TOL * (np.abs(lo) + np.abs(hi))
    require(np.all(fa >= lo - pad) and np.all(fa <= hi + pad), "band flux outside the range of the spectrum over the band")
    for i in range(ns):
        close(pb.fluxes_to_bandflux(a[i]), fa[i], rtol=1e-12, atol=1e-13, msg=f"sample {i} alone")
        for j in range(nt):
            close(pb.fluxes_to_bandflux(a[i, j : j + 1]), fa[i, j : j + 1], rtol=1e-12, atol=1e-13, msg=f"sample {i} time {j} alone")
    b = g.normal(size=a.shape)
    x, y = g.normal(size=2)
    close(
        pb.fluxes_to_bandflux(x * a + y * b), x * fa + y * pb.fluxes_to_bandflux(b),
        rtol=1e-9, atol=1e-9 * (np.abs(a).max() + np.abs(b).max()), msg="linear combination",
    )
    same(pb.fluxes_to_bandflux(a), fa, "second evaluation")

    # what the spectrum is outside the positive part of the band does not matter
    if not np.all(inside):
        c = a.copy()
        c[..., ~inside] = 1e6
        close(pb.fluxes_to_bandflux(c), fa, rtol=1e-9, atol=1e-9 * np.abs(a).max(), msg="flux where transmission is zero")

    # every contribution has the weight of its photons: T / lambda times its share of the grid
    if len(w) >= 3:
        h = np.diff(w)
        cell = np.concatenate([[h[0] / 2], (h[:-1] + h[1:]) / 2, [h[-1] / 2]])
        wt = np.interp(w, tab[:, 0], tab[:, 1]) / w * cell
        wt /= wt.sum()
        close(fa, a @ wt, rtol=2e-4, atol=2e-4 * np.abs(a).max(), msg="photon weights on the grid")

    # the scale of the table
    tab2 = tab.copy()
    tab2[:, 1] *= case["scale"]
    pb2 = make(case, tab2)
    close(pb2.waves, w, rtol=1e-12, msg="grid of the scaled table")
    close(pb2.fluxes_to_bandflux(a), fa, rtol=1e-8, atol=1e-8 * np.abs(a).max(), msg="scaled table")
    # the processed curve is normalised
    p = pb.processed_transmission_table
    close(np.trapezoid(p[:, 1], p[:, 0]), 1.0, rtol=1e-9, msg="integral of the normalised transmission")
    same(p[:, 0], w, "grid of the processed table")
    # reprocessing gives the same passband again
    pb.process_transmission_table(bands.delta(case["delta"], tab), case["trim"])
    close(pb.fluxes_to_bandflux(a), fa, rtol=1e-12, atol=1e-13, msg="reprocessed with the same settings")

    for bad in (a[0][:, :-1], a[0][0], np.zeros((0, len(w))), np.zeros((ns, nt, len(w) + 1)), a[None]):
        raises(ValueError, lambda bad=bad: pb.fluxes_to_bandflux(bad), f"fluxes of shape {bad.shape} for {len(w)} wavelengths")


@check("C15", fd({"table": bands.TABLE, "seed": seeds(), "n": st.sampled_from([4001, 5003.7, 3300.0])}), quick=700)
def convergence(case, rec):
    tab = bands.table(case["table"])
    f = bands.smooth(case["seed"], tab)
    r = tab[-1, 0] - tab[0, 0]
    ref = bands.photon_average(f, tab)
    pb = Passband(tab, "S", "x", delta_wave=r / case["n"], trim_quantile=None)
    w = pb.waves
    rec.nontrivial(len(tab) > 2)
    amp = np.abs(f(w)).max()
    close(pb.fluxes_to_bandflux(f(w)[None, :]), [ref], rtol=0, atol=1e-4 * amp, msg="fine grid against the photon-weighted average")
    # the table's own nodes, with the curve resampled at will
    x = np.unique(np.concatenate([tab[:, 0], np.linspace(tab[0, 0], tab[-1, 0], 3000) + 0.0]))
    x = x[np.concatenate([[True], np.diff(x) > 1e-6])]
    dense = np.column_stack([x, np.interp(x, tab[:, 0], tab[:, 1])])
    pb = Passband(dense, "S", "x", delta_wave=None, trim_quantile=None)
    close(pb.waves, x, rtol=1e-12, msg="own grid")
    close(pb.fluxes_to_bandflux(f(x)[None, :]), [ref], rtol=0, atol=1e-4 * amp, msg="own grid against the photon-weighted average")
    # a steep photon weighting: flux proportional to the wavelength
    close(
        pb.fluxes_to_bandflux(x[None, :]),
        [np.trapezoid(tab[:, 1], tab[:, 0]) / np.trapezoid(dense[:, 1] / x, x)],
        rtol=1e-5, msg="flux proportional to the wavelength",
    )

"""Generated transmission tables and passbands, with independent reference integrals."""
import numpy as np
from hypothesis import strategies as st

from .gen import fd, gr, seeds

TABLE = fd({
    "n": st.integers(2, 14),
    "grid": st.sampled_from(["uneven", "uniform", "geometric", "near-uniform"]),
    "base": st.sampled_from([4000.0, 900.0, 12000.0, 3000.5]),
    "span": st.sampled_from([1000.0, 100.0, 3000.0, 250.25]),
    "ends": st.sampled_from(["zero", "open", "tails"]),
    "seed": seeds(),
})


def table(spec):
    """A transmission table in angstroms: strictly increasing wavelengths, non-negative values."""
    g = np.random.default_rng([spec["seed"], 15])
    n, b, s = spec["n"], spec["base"], spec["span"]
    if spec["grid"] == "uniform":
        x = np.linspace(0, 1, n)
    elif spec["grid"] == "geometric":
        x = (1.3 ** np.arange(n) - 1) / (1.3 ** (n - 1) - 1)
    else:
        gap = 0.15 + g.random(n - 1)
        if spec["grid"] == "near-uniform":
            gap = 1.0 + 0.01 * gap
        x = np.concatenate([[0.0], np.cumsum(gap)])
        x /= x[-1]
    w = b + s * x
    t = np.round(0.05 + 0.9 * g.random(n), 3)
    if spec["ends"] == "zero" and n > 2:
        t[0] = t[-1] = 0.0
    elif spec["ends"] == "tails" and n > 4:
        t[0] = t[-1] = 0.0
        t[1] = t[-2] = 0.001
    return np.column_stack([w, t])


# requested grid spacing, relative to the range of the table
DELTA = st.sampled_from(["none", "fine", "odd", "coarse", "default", "same"])


def delta(kind, tab):
    r = tab[-1, 0] - tab[0, 0]
    return {
        "none": None,
        "fine": r / 64.0,
        "odd": r / 37.3,
        "coarse": r / 5.5,
        "default": 5.0,
        "same": float(np.min(np.diff(tab[:, 0]))),
    }[kind]


def smooth(seed, tab, m=3):
    """A smooth positive-and-negative spectrum over the table's range, as a callable."""
    g = np.random.default_rng([seed, 16])
    c = (tab[0, 0] + tab[-1, 0]) / 2
    h = (tab[-1, 0] - tab[0, 0]) / 2
    a = g.normal(size=m)
    k = g.uniform(0.3, 2.5, size=m)
    p = g.uniform(0, 6.3, size=m)
    return lambda w: sum(a[i] * np.cos(k[i] * (np.asarray(w) - c) / h + p[i]) for i in range(m)) + 0.5


_GX, _GW = np.polynomial.legendre.leggauss(24)


def photon_average(f, tab):
    """Photon-weighted average of f over the piecewise linear curve of the table."""
    num = den = 0.0
    for (x0, y0), (x1, y1) in zip(tab[:-1], tab[1:]):
        x = (x0 + x1) / 2 + (x1 - x0) / 2 * _GX
        w = _GW * (x1 - x0) / 2
        t = (y0 + (y1 - y0) * (x - x0) / (x1 - x0)) / x
        num += np.sum(w * t * f(x))
        den += np.sum(w * t)
    return num / den

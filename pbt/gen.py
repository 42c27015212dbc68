"""Shared Hypothesis strategies (all produce JSON-able values)."""
from hypothesis import strategies as st

fd = st.fixed_dictionaries


def fl(lo, hi):
    """Floats in [lo, hi]: rounded to a fine grid half of the time so that shrinking is readable."""
    return st.one_of(gr(lo, hi), st.floats(lo, hi, allow_nan=False, allow_subnormal=False))


def gr(lo, hi, n=None):
    """Floats on a regular grid of [lo, hi] (about 1000 points by default)."""
    span = hi - lo
    k = n or 1000
    return st.integers(0, k).map(lambda i: lo + span * (i / k))


def seeds():
    return st.integers(0, 2**32 - 1)


def lists(s, lo=0, hi=6):
    return st.lists(s, min_size=lo, max_size=hi)


def logfl(lo_exp, hi_exp):
    return st.builds(
        lambda m, e: m * 10.0**e, gr(1.0, 9.99), st.integers(lo_exp, hi_exp)
    )

"""Small strategies used by several property modules.  All of them generate plain JSON-able data."""
import math
from hypothesis import strategies as st


def rng(lo, hi, edges=(), digits=None):
    """A float in [lo, hi]: end points and listed edges are drawn often, the interior is covered
    both by 'round' values and by full-precision ones."""
    lo = float(lo)
    hi = float(hi)
    ed = [e for e in (lo, hi) + tuple(float(x) for x in edges) if lo <= e <= hi]
    grid = st.integers(0, 1000).map(lambda k: lo + (hi - lo) * k / 1000.0)
    full = st.floats(lo, hi, allow_nan=False, allow_infinity=False, allow_subnormal=False)
    if lo <= 0.0 <= hi:                                      # products of denormal-like values underflow
        full = full.map(lambda x: 0.0 if abs(x) < 1e-12 * (hi - lo) else x)
    return st.one_of(grid, grid, full, st.sampled_from(ed))


def inner(lo, hi):
    """As rng, end points excluded."""
    lo = float(lo)
    hi = float(hi)
    grid = st.integers(1, 999).map(lambda k: lo + (hi - lo) * k / 1000.0)
    full = st.floats(lo, hi, allow_nan=False, allow_infinity=False, allow_subnormal=False, exclude_min=True,
                     exclude_max=True)
    if lo <= 0.0 <= hi:
        tiny = 1e-12 * (hi - lo)
        full = full.map(lambda x: (tiny if lo == 0.0 else -tiny if hi == 0.0 else 0.0) if abs(x) < tiny else x)
    return st.one_of(grid, grid, full)


def logrng(lo, hi):
    """A float spread evenly over the decades of [lo, hi]."""
    a, b = math.log(lo), math.log(hi)
    return st.integers(0, 2000).map(lambda k: math.exp(a + (b - a) * k / 2000.0))


def vec(elem, lo, hi=None):
    return st.lists(elem, min_size=lo, max_size=hi if hi is not None else lo)


def record(**kw):
    return st.fixed_dictionaries(kw)

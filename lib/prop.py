"""Vocabulary shared by the property modules under checks/."""
import collections
import json
import math

import numpy as np


class Violation(AssertionError):
    """The code under test broke the property on this case."""


class Discard(Exception):
    """This generated case is outside the property's domain (counted, never a verdict)."""


class Ctx(object):
    """Handed to every check function: classifies the case it ran."""

    def __init__(self):
        self.labels = []
        self.nontrivial = False

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def hit(self, *names):
        """Mark the case non-trivial by the sub-check's rule."""
        self.nontrivial = True
        self.labels.extend(str(n) for n in names)


class Sub(object):
    """One executable reading of part of a property.

    strategy : Hypothesis strategy of plain JSON-able cases
    check    : check(case, ctx); raises on a violation
    quick/thorough : how many cases to generate in each tier
    """

    def __init__(self, name, strategy, check, quick=300, thorough=None, rule='', shards=None, weight=1.0):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 25
        self.rule = rule
        self.shards = shards
        self.weight = weight


class Property(object):
    def __init__(self, pid, subs, rule, assumptions=(), probes=None):
        self.pid = pid
        self.subs = subs
        self.rule = rule
        self.assumptions = list(assumptions)
        self.probes = probes or {}


# ----------------------------------------------------------------------------------------------
#  assertions
# ----------------------------------------------------------------------------------------------

def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def _arr(x):
    return np.asarray(x, dtype=float)


def close(got, want, rtol=1e-7, atol=0.0, what='value'):
    """got == want elementwise within atol + rtol*scale; NaN never equals anything but NaN."""
    g = _arr(got)
    w = _arr(want)
    if g.shape != w.shape:
        try:
            g, w = np.broadcast_arrays(np.squeeze(g), np.squeeze(w))
        except ValueError:
            raise Violation('%s: shape %s, expected %s' % (what, np.shape(got), np.shape(want)))
    with np.errstate(all='ignore'):
        tol = atol + rtol * np.abs(w)
        bad = ~((np.abs(g - w) <= tol) | (g == w) | (np.isnan(g) & np.isnan(w)))
    if np.any(bad):
        i = tuple(int(k) for k in np.argwhere(np.atleast_1d(bad))[0])
        gg = np.atleast_1d(g)[i]
        ww = np.atleast_1d(w)[i]
        raise Violation('%s: got %r, expected %r (at %s, rtol=%g, atol=%g)' % (what, float(gg), float(ww), i, rtol, atol))


def same_shape(got, shape, what='value'):
    if tuple(np.shape(got)) != tuple(shape):
        raise Violation('%s: shape %s, expected %s' % (what, np.shape(got), tuple(shape)))


def finite(x, what='value'):
    if not np.all(np.isfinite(_arr(x))):
        raise Violation('%s: not finite: %r' % (what, np.asarray(x).ravel()[:6].tolist()))


def monotone(x, strict=False, rtol=1e-9, what='sequence'):
    x = _arr(x).ravel()
    d = np.diff(x)
    s = max(1e-300, float(np.max(np.abs(x)))) if x.size else 1.0
    ok = np.all(d > 0) if strict else np.all(d >= -rtol * s)
    if not ok:
        k = int(np.argmin(d))
        raise Violation('%s: not increasing at %d: %r -> %r' % (what, k, float(x[k]), float(x[k + 1])))


def scale_of(*xs):
    m = 0.0
    for x in xs:
        a = np.abs(_arr(x))
        if a.size:
            m = max(m, float(np.nanmax(a)))
    return m


def canonical(case):
    return json.dumps(case, sort_keys=True, default=str)

"""C08: the numerical building blocks every analysis relies on.

Oracles: exact polynomial calculus (Chebyshev), exact linear calculus (uniform grid), a scalar bilinear
interpolation, the definition of a cubic blend, log-sum-exp, and the stratification of a Latin hypercube."""
import math
import numpy as np
from hypothesis import strategies as st

import SUAVE
from SUAVE.Methods.Utilities.Chebyshev.chebyshev_data import chebyshev_data
from SUAVE.Methods.Utilities.Chebyshev.linear_data import linear_data
from SUAVE.Methods.Utilities.Cubic_Spline_Blender import Cubic_Spline_Blender
from SUAVE.Methods.Utilities.soft_max import soft_max
from SUAVE.Methods.Utilities.latin_hypercube_sampling import latin_hypercube_sampling
from SUAVE.Core.Utilities import interp2d
from lib.prop import Property, Sub, require, close, same_shape, finite, monotone, fail
from lib.strat import record, rng, inner, logrng


def check_cheb(case, ctx):
    N = case['N']
    x, D, I = chebyshev_data(N) if case['via'] == 'direct' else (None, None, None)
    if x is None:
        seg = SUAVE.Analyses.Mission.Segments.Cruise.Constant_Speed_Constant_Altitude()
        seg.state.numerics.number_control_points = N
        from SUAVE.Methods.Missions.Segments.Common.Numerics import initialize_differentials_dimensionless
        initialize_differentials_dimensionless(seg)
        nd = seg.state.numerics.dimensionless
        x, D, I = np.ravel(nd.control_points), nd.differentiate, nd.integrate
        same_shape(nd.control_points, (N, 1), 'control points')
    same_shape(x, (N,), 'points')
    same_shape(D, (N, N), 'D')
    same_shape(I, (N, N), 'I')
    require(x[0] == 0 and abs(x[-1] - 1) < 1e-14, 'points run from %r to %r', x[0], x[-1])
    monotone(x, strict=True, what='points')
    close(x, [0.5 * (1 - math.cos(math.pi * k / (N - 1))) for k in range(N)], atol=1e-14, what='points')
    # a polynomial of degree <= N-1 in a Chebyshev basis on [0,1] keeps the numbers tame
    coef = (case['coef'] + [0.] * N)[:N]
    p = np.polynomial.chebyshev.Chebyshev(coef, domain=[0, 1])
    f = p(x)
    s = max(1., np.max(np.abs(coef)))
    close(D.dot(f), p.deriv()(x) if N > 1 else 0 * f, atol=1e-11 * s * N ** 4, what='derivative of a polynomial')
    want = p.integ()(x) - p.integ()(0.)
    # the integral is exact one degree lower
    if len(np.trim_zeros(coef, 'b')) <= N - 1:
        close(I.dot(f), want, atol=1e-11 * s * N ** 2, what='integral of a polynomial')
    close(I.dot(D.dot(f)), f - f[0], atol=1e-10 * s * N ** 2, what='integral of the derivative')
    require(np.all(I[0] == 0), 'the integral at the start is not zero')
    if N > 3 and any(coef[2:]):
        ctx.hit('N=%d' % N)


def check_lin(case, ctx):
    N = case['N']
    x, D, I = linear_data(N)
    close(x, np.arange(N) / (N - 1.), atol=1e-14, what='points')
    a, b = case['a'], case['b']
    f = a + b * x
    s = max(1., abs(a), abs(b))
    close(D.dot(f), np.full(N, b), atol=1e-10 * s * N ** 2, what='derivative of a line')
    close(I.dot(np.full(N, b)), b * x, atol=1e-10 * s * N ** 2, what='integral of a constant')
    g = np.array((case['g'] + [1.] * N)[:N])
    close(I.dot(D.dot(g)), g - g[0], atol=1e-9 * max(1., np.max(np.abs(g))) * N ** 2, what='integral of the derivative')
    for f in (chebyshev_data, linear_data):
        require(f(N, integration=False)[2] is None, 'an integration matrix was made though none was asked for')
        try:
            f(-case['N'] + 2 if case['N'] > 2 else 0)
            fail('a non-positive number of points was accepted')
        except RuntimeError:
            pass
    ctx.hit('N=%d' % N)


def check_blend(case, ctx):
    x0, x1 = case['x0'], case['x0'] + case['w']
    if case['swap']:
        x0, x1 = x1, x0
    b = Cubic_Spline_Blender(x0, x1)
    t = np.array(sorted(case['t']))
    x = x0 + t * (x1 - x0)
    keep = x.copy()
    y = b.compute(x)
    require(np.array_equal(keep, x), 'input changed')
    want = np.where(t <= 0, 1., np.where(t >= 1, 0., 1 - 3 * t**2 + 2 * t**3))
    close(y, want, atol=1e-9 * (1 + abs(x0) / case['w']), what='blend')
    require(np.all(np.diff(y) <= 1e-9 * (1 + abs(x0) / case['w'])), 'the blend is not monotone')
    c = Cubic_Spline_Blender(x1, x0).compute(x)
    close(y + c, np.ones(len(t)), atol=1e-9 * (1 + abs(x0) / case['w']), what='blend and its mirror image')
    if np.any((t > 0) & (t < 1)) and np.any((t < 0) | (t > 1)):
        ctx.hit()


def check_softmax(case, ctx):
    a, b = np.array(case['a']), np.array(case['b'][:len(case['a'])] + [0.] * max(0, len(case['a']) - len(case['b'])))
    y = soft_max(a, b)
    close(y, np.logaddexp(a, b), rtol=1e-12, atol=1e-12, what='soft max')
    require(np.all(y >= np.maximum(a, b)) and np.all(y <= np.maximum(a, b) + math.log(2) + 1e-9 * (1 + np.abs(np.maximum(a, b)))), 'soft max out of bounds')
    close(soft_max(b, a), y, what='exchanged')
    if np.any(np.abs(a) > 800) or np.any(np.abs(b) > 800):
        ctx.hit('large')
    elif np.any(np.abs(a - b) < 3):
        ctx.hit('close')


def check_interp(case, ctx):
    xs = np.cumsum([case['x0']] + case['dx'])
    ys = np.cumsum([case['y0']] + case['dy'])
    r = np.random.RandomState(case['seed'])
    z = r.randn(len(xs), len(ys))
    q = []
    for u, v, node in case['q']:
        if node:
            q.append((xs[int(abs(u) * 7) % len(xs)], ys[int(abs(v) * 7) % len(ys)]))
        else:
            q.append((xs[0] + u * (xs[-1] - xs[0]), ys[0] + v * (ys[-1] - ys[0])))
    X = np.array([a for a, _ in q])
    Y = np.array([b for _, b in q])
    fill = case['fill']
    got = interp2d(X, Y, xs, ys, z, fill)
    same_shape(got, X.shape)
    inside = 0
    for k, (a, b) in enumerate(q):
        out = a < xs[0] or a > xs[-1] or b < ys[0] or b > ys[-1]
        if out and fill is not None:
            require(float(got[k]) == fill, 'outside the table: got %r instead of the fill value', float(got[k]))
            continue
        i = max(j for j in range(len(xs) - 1) if j == 0 or xs[j] <= a)
        m = max(j for j in range(len(ys) - 1) if j == 0 or ys[j] <= b)
        t, s = (a - xs[i]) / (xs[i + 1] - xs[i]), (b - ys[m]) / (ys[m + 1] - ys[m])
        want = (1 - t) * (1 - s) * z[i, m] + t * (1 - s) * z[i + 1, m] + (1 - t) * s * z[i, m + 1] + t * s * z[i + 1, m + 1]
        close(got[k], want, atol=1e-8 * (1 + abs(t)) * (1 + abs(s)), what='bilinear interpolation at (%r, %r)' % (a, b))
        inside += not out
    if inside and len(xs) > 2 and len(ys) > 2:
        ctx.hit(*(['outside too'] if inside < len(q) else []))


def check_lhs(case, ctx):
    n, d = case['n'], case['d']
    np.random.seed(case['seed'])
    crit = case['crit']
    lo = np.array((case['lo'] + [0.] * d)[:d])
    w = np.array((case['w'] + [1.] * d)[:d])
    b = [lo, lo + w] if case['bounds'] else None
    p = latin_hypercube_sampling(d, n, b, crit)
    same_shape(p, (n, d), 'samples')
    u = (p - lo) / w if b is not None else p
    for j in range(d):
        cell = np.sort(u[:, j] * n)
        # exactly one sample in each of the n slices, in every dimension
        require(np.all(cell >= np.arange(n) - 1e-6) and np.all(cell <= np.arange(n) + 1 + 1e-6), 'dimension %d: slices %r do not hold one sample each', j, cell.tolist())
        if crit == 'center':
            close(cell, np.arange(n) + 0.5, atol=1e-6, what='centres')
    if n > 2 and d > 1:
        ctx.hit(crit)


f1 = rng(-10, 10)
SUBS = [
    Sub('chebyshev', record(N=st.integers(2, 40), coef=st.lists(f1, min_size=1, max_size=40), via=st.sampled_from(['direct', 'segment'])), check_cheb, quick=800, rule='four or more points and a polynomial of degree two or more'),
    Sub('uniform', record(N=st.integers(2, 24), a=f1, b=f1, g=st.lists(f1, max_size=24)), check_lin, quick=300, rule='every case'),
    Sub('blend', record(x0=rng(-100, 100), w=logrng(0.05, 1e3), swap=st.booleans(), t=st.lists(rng(-2, 3, [0, 1]), min_size=1, max_size=12)), check_blend, quick=500, rule='points inside and outside the interval'),
    Sub('soft_max', record(a=st.lists(rng(-5000, 5000, [0]), min_size=1, max_size=6), b=st.lists(rng(-5000, 5000, [0]), max_size=6)), check_softmax, quick=300, rule='arguments beyond the range of exp, or close together'),
    Sub('bilinear', record(x0=f1, y0=f1, dx=st.lists(logrng(0.1, 20), min_size=1, max_size=6), dy=st.lists(logrng(0.1, 20), min_size=1, max_size=6), seed=st.integers(0, 999),
                           q=st.lists(st.tuples(rng(-.5, 1.5, [0, 1]), rng(-.5, 1.5, [0, 1]), st.booleans()).map(list), min_size=1, max_size=8), fill=st.sampled_from([None, 0., -7.5])),
        check_interp, quick=800, rule='table of three by three or more and a point inside'),
    Sub('hypercube', record(n=st.integers(1, 60), d=st.integers(1, 6), seed=st.integers(0, 9999), bounds=st.booleans(), crit=st.sampled_from(['random', 'center']),
                            lo=st.lists(rng(-50, 50), max_size=6), w=st.lists(logrng(0.01, 100), max_size=6)), check_lhs, quick=400, rule='three samples and two dimensions or more'),
]
PROPERTY = Property('C08', SUBS, rule='Random grids, polynomials, tables and samples; exact calculus and scalar definitions as the oracle. Non-trivial as stated per sub-check.')

"""C29: two-dimensional airfoil flow: panel method and boundary layers.

Oracle: an independent complex-variable panel solution (its own influence coefficients and its own linear system),
exact invariances of potential flow, and independent quadratures of the boundary layer equations."""
import cmath
import math
import warnings
import numpy as np
from hypothesis import strategies as st
from scipy.integrate import quad, solve_ivp

from SUAVE.Core import Data
from SUAVE.Methods.Aerodynamics.Airfoil_Panel_Method.hess_smith import hess_smith
from SUAVE.Methods.Aerodynamics.Airfoil_Panel_Method.aero_coeff import aero_coeff
from SUAVE.Methods.Aerodynamics.Airfoil_Panel_Method.airfoil_analysis import airfoil_analysis
from SUAVE.Methods.Aerodynamics.Airfoil_Panel_Method.thwaites_method import thwaites_method
from SUAVE.Methods.Aerodynamics.Airfoil_Panel_Method.heads_method import heads_method
from lib.prop import Property, Sub, Discard, require, close, same_shape, finite
from lib.strat import record, rng, logrng, vec, inner


# ------------------------------------------------------------------ geometry of our own
def section(shape, m):
    """Airfoil points, trailing edge -> lower surface -> nose -> upper surface -> trailing edge (m points a side)."""
    b = np.linspace(0., math.pi, m)
    x = .5 * (1. + np.cos(b))                              # 1 ... 0
    t, c, p, te = shape['t'], shape['c'], shape['p'], shape['te']
    yt = 5. * t * (.2969 * np.sqrt(x) - .126 * x - .3516 * x ** 2 + .2843 * x ** 3 - (.1036 - te) * x ** 4)
    yc = np.where(x < p, c / p ** 2 * (2 * p * x - x * x), c / (1 - p) ** 2 * (1 - 2 * p + 2 * p * x - x * x))
    lo = yc - yt
    up = yc + yt
    xs = np.concatenate([x, x[::-1][1:]])
    ys = np.concatenate([lo, up[::-1][1:]])
    return xs, ys


def reference(xs, ys, alpha):
    """Tangential velocity at the panel centres and the vortex strength, by complex potentials."""
    z = np.array(xs) + 1j * np.array(ys)
    n = len(z) - 1
    mid = .5 * (z[1:] + z[:-1])
    dz = z[1:] - z[:-1]
    L = abs(dz)
    e = dz / L                                             # unit tangents
    # complex velocity (u - iv) at point i from a unit source (and unit vortex) panel j
    W = np.zeros((n, n), complex)
    for i in range(n):
        for j in range(n):
            zeta = (mid[i] - z[j]) / e[j]                  # panel coordinates
            if i == j:
                lg = -1j * math.pi                         # seen from outside (the left of the panel)
            else:
                lg = cmath.log(zeta) - cmath.log(zeta - L[j])
                # the cut of each log is along negative reals: bring the difference to the physical branch
                a = lg.imag
                a = (a + math.pi) % (2 * math.pi) - math.pi
                lg = complex(lg.real, a)
            W[i, j] = lg / (2 * math.pi) / e[j]
    S = W
    V = 1j * W                                             # vortices: the source field turned by a right angle
    V0 = V.sum(axis=1)
    free = np.conj(cmath.exp(1j * alpha))
    tang = lambda w: (w * e[:, None] if w.ndim == 2 else w * e).real
    norm = lambda w: -((w * e[:, None]) if w.ndim == 2 else w * e).imag
    A = np.zeros((n + 1, n + 1)); b = np.zeros(n + 1)
    A[:n, :n] = norm(S); A[:n, n] = norm(V0)
    b[:n] = -norm(free * np.ones(n))
    ts, tv, tf = tang(S), tang(V0), tang(free * np.ones(n))
    A[n, :n] = ts[0] + ts[-1]; A[n, n] = tv[0] + tv[-1]; b[n] = -(tf[0] + tf[-1])
    q = np.linalg.solve(A, b)
    return tf + ts @ q[:n] + tv * q[n], q, L


def run(xs, ys, alphas, res=None):
    """alphas: list of columns.  Returns vt[panel, case, cpt] through the code."""
    a = np.atleast_2d(np.array(alphas, float))             # [cpts, cases]
    R = np.ones_like(a) * 1e6
    ncp, nc = a.shape
    X = np.tile(np.array(xs)[:, None, None], (1, nc, ncp))
    Y = np.tile(np.array(ys)[:, None, None], (1, nc, ncp))
    return hess_smith(X, Y, a, R, len(xs) - 1)


shape = record(t=rng(.06, .2), c=st.one_of(st.just(0.), rng(0., .06)), p=rng(.25, .6), te=st.sampled_from([0., .0021]))
angle = rng(-.2, .2)


def check_panels(case, ctx):
    xs, ys = section(case['shape'], case['m'])
    cols = case['alpha']
    X, Y, vt, nrm = run(xs, ys, cols)
    a = np.atleast_2d(cols)
    same_shape(vt, (len(xs) - 1, a.shape[1], a.shape[0]), 'velocities')
    for r in range(a.shape[0]):
        for k in range(a.shape[1]):
            ref, q, L = reference(xs, ys, a[r, k])
            close(vt[:, k, r], ref, rtol=1e-7, atol=2e-7, what='surface velocity at %.4g rad' % a[r, k])
            close(vt[0, k, r], -vt[-1, k, r], rtol=1e-8, atol=1e-8, what='Kutta condition')
    for i in range(len(xs) - 1):
        dx, dy = xs[i + 1] - xs[i], ys[i + 1] - ys[i]
        l = math.hypot(dx, dy)
        close(nrm[i, 0, 0, 0], -dy / l, rtol=1e-10, atol=1e-12, what='normal')
        close(nrm[i, 1, 0, 0], dx / l, rtol=1e-10, atol=1e-12, what='normal')
        close(X[i, 0, 0], .5 * (xs[i] + xs[i + 1]), rtol=1e-12, atol=1e-14, what='panel centre')
    if a.size > 1:
        ctx.hit('several conditions')
    if case['shape']['c'] > 0:
        ctx.hit('cambered')


def check_invariance(case, ctx):
    """Potential flow does not know the axes, the size or which way up the section is drawn."""
    xs, ys = section(case['shape'], case['m'])
    a = case['a']
    _, _, vt, _ = run(xs, ys, [[a]])
    s, d, turn = case['scale'], case['shift'], case['turn']
    c_, s_ = math.cos(turn), math.sin(turn)
    x2 = s * (c_ * xs - s_ * ys) + d[0]
    y2 = s * (s_ * xs + c_ * ys) + d[1]
    _, _, v2, _ = run(x2, y2, [[a + turn]])
    close(v2[:, 0, 0], vt[:, 0, 0], rtol=1e-6, atol=1e-7, what='surface velocity of the turned, moved and enlarged section')
    x3, y3 = xs[::-1], -ys[::-1]
    _, _, v3, _ = run(x3, y3, [[-a]])
    close(v3[::-1, 0, 0], -vt[:, 0, 0], rtol=1e-6, atol=1e-7, what='surface velocity of the mirrored section')
    # potential flow is linear in the onset flow
    _, _, v0, _ = run(xs, ys, [[0.]])
    _, _, v9, _ = run(xs, ys, [[math.pi / 2]])
    close(vt[:, 0, 0], v0[:, 0, 0] * math.cos(a) + v9[:, 0, 0] * math.sin(a), rtol=1e-6, atol=1e-7, what='superposition of onset flows')
    ctx.hit('moved')


def check_lift(case, ctx):
    """Pressure integration: closed forms, and lift equal to the circulation of the solution (Kutta-Joukowski)."""
    xs, ys = section(dict(case['shape'], te=0.), 60)
    a = case['a']
    X, Y, vt, _ = run(xs, ys, [[a]])
    cp = 1. - vt ** 2
    r = aero_coeff(X, Y, cp, np.array([[a]]), len(xs) - 1)
    circ = float(np.sum(vt[:, 0, 0] * np.hypot(np.diff(xs), np.diff(ys))))
    cl = float(np.ravel(r.cl)[0]); cd = float(np.ravel(r.cdpi)[0])
    close(cl, 2. * circ, rtol=.12, atol=.03, what='lift by pressure against lift by circulation')
    require(abs(cd) < .03 + .06 * abs(cl), 'pressure drag %.4g of a closed section in ideal flow' % cd)
    slope = 2 * math.pi * (1. + .77 * case['shape']['t'])
    _, _, vb, _ = run(xs, ys, [[a + .02]])
    cb = float(np.sum(vb[:, 0, 0] * np.hypot(np.diff(xs), np.diff(ys))))
    close(2. * (cb - circ) / .02, slope * math.cos(a), rtol=.06, what='lift slope')
    # integration itself: arbitrary pressures on arbitrary points, column by column
    n = len(case['x'])
    cases, cpts = len(case['al']), 2
    XX = np.zeros((n, cases, cpts)); YY = np.zeros_like(XX); CP = np.zeros_like(XX); AL = np.zeros((cpts, cases))
    for i in range(n):
        for k in range(cases):
            for q in range(cpts):
                XX[i, k, q] = case['x'][i] + .01 * k; YY[i, k, q] = case['y'][i] * (1 + q); CP[i, k, q] = case['cp'][i] + k - .5 * q
    for k in range(cases):
        for q in range(cpts):
            AL[q, k] = case['al'][k] * (1 - .3 * q)
    r = aero_coeff(XX, YY, CP, AL, n - 1)
    for k in range(cases):
        for q in range(cpts):
            cn = ca = cm = 0.
            for i in range(n - 1):
                dx, dy = XX[i + 1, k, q] - XX[i, k, q], YY[i + 1, k, q] - YY[i, k, q]
                fn, fa = -CP[i, k, q] * dx, CP[i, k, q] * dy
                cn += fn; ca += fa
                cm += -fn * (.5 * (XX[i, k, q] + XX[i + 1, k, q]) - .25) + fa * .5 * (YY[i, k, q] + YY[i + 1, k, q])
            al = AL[q, k]
            close(r.cl[q, k], cn * math.cos(al) - ca * math.sin(al), rtol=1e-10, atol=1e-11, what='cl')
            close(r.cdpi[q, k], cn * math.sin(al) + ca * math.cos(al), rtol=1e-10, atol=1e-11, what='cd')
            close(r.cm[q, k], cm, rtol=1e-10, atol=1e-11, what='cm')
    ctx.hit('solved')


# ------------------------------------------------------------------ boundary layers
def masked(v):
    a = np.ma.array(np.array(v)[:, None, None], mask=np.zeros((len(v), 1, 1), bool))
    return a


def edge(case):
    x = np.array([0.] + list(np.cumsum(case['dx'])))
    x = x / x[-1] * case['L']
    ve = np.array([1. + case['g'] * t / case['L'] for t in x]) * case['v']
    dve = np.full(len(x), case['v'] * case['g'] / case['L'])
    return x, ve, dve


def check_thwaites(case, ctx):
    x, ve, dve = edge(case)
    n = len(x)
    L, ReL, th0 = case['L'], case['Re'], case['th0']
    with np.errstate(all='ignore'):
        r = thwaites_method(n, 1, 1, np.array([[L]]), np.array([[ReL]]), masked(x), masked(ve), masked(dve), 1e9, th0)
    nu = L / ReL
    for i in range(n):
        v = lambda s: case['v'] * (1. + case['g'] * s / L)
        integral = quad(lambda s: v(s) ** 5, 0., x[i])[0]
        th = math.sqrt((th0 ** 2 * v(0.) ** 6 + .45 * nu * integral) / ve[i] ** 6)
        close(r.THETA_T[i, 0, 0] ** 2, th ** 2, rtol=2e-3, atol=6e-8, what='momentum thickness squared (Thwaites)')
        th = float(r.THETA_T[i, 0, 0])
        lam = th * th * dve[i] / nu
        H = 2.61 - 3.75 * lam + 5.24 * lam ** 2 if lam > 0 else .0731 / (.14 + lam) + 2.088
        l = .22 + 1.57 * lam - 1.8 * lam ** 2 if lam > 0 else .22 + 1.402 * lam + .018 * lam / (.107 + lam)
        if not -.08 < lam < .12:                           # outside the correlation
            continue
        close(r.H_T[i, 0, 0], H, rtol=1e-3, what='shape factor')
        close(r.DELTA_STAR_T[i, 0, 0], H * th, rtol=1e-3, what='displacement thickness')
        close(r.RE_THETA_T[i, 0, 0], ve[i] * th / nu, rtol=1e-3, what='momentum Reynolds number')
        close(r.CF_T[i, 0, 0], abs(2 * l / (ve[i] * th / nu)), rtol=5e-3, atol=1e-9, what='skin friction')
        if i:
            close(r.RE_X_T[i, 0, 0], ve[i] * x[i] / nu, rtol=1e-9, what='length Reynolds number')
            close(r.DELTA_T[i, 0, 0], 5.2 * math.sqrt(x[i] * nu / ve[i]), rtol=1e-9, what='laminar thickness')
    ctx.hit('accelerating' if case['g'] > .02 else 'decelerating' if case['g'] < -.02 else 'flat plate')


def h_of(h1):
    if h1 < 3.3:
        return 3.
    if h1 > 5.3:
        return 1.1 + .86 * (h1 - 3.3) ** -.777
    return .6778 + 1.1536 * (h1 - 3.3) ** -.326


def h1_of(h):
    return 3.3 + .8234 * (h - 1.1) ** -1.287 if h <= 1.6 else 3.3 + 1.5501 * (h - .6778) ** -3.064


def check_head(case, ctx):
    x, ve, dve = edge(case)
    n = len(x)
    L, ReL = case['L'], case['Re'] * 10.
    nu = L / ReL
    th0 = case['rth'] * nu
    H0 = case['H0']
    with np.errstate(all='ignore'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = heads_method(n, 1, 1, np.array([[th0 * 8]]), np.array([[th0]]), np.array([[H0 * th0]]), np.array([[L]]), np.array([[ReL]]),
                         masked(x), masked(ve), masked(dve), 1e9)
    # the code's friction law uses Re_theta = theta/nu with the onset speed (its normalisation): Ve is near 1 here
    v = lambda s: case['v'] * (1. + case['g'] * s / L)
    dv = case['v'] * case['g'] / L

    def rhs(s, y):
        th, q = y
        h1 = q / th / v(s)
        h = h_of(h1)
        cf = .246 * 10 ** (-.678 * h) * (th / nu) ** -.268
        return [.5 * cf - th / v(s) * (2 + h) * dv, v(s) * .0306 * (h1 - 3.) ** -.6169]
    sol = solve_ivp(rhs, (0., x[-1]), [th0, v(0.) * th0 * h1_of(H0)], t_eval=x, rtol=1e-9, atol=1e-14, method='LSODA')
    if not sol.success or np.any(~np.isfinite(sol.y)) or np.min(sol.y[1] / sol.y[0] / ve) < 3.35:
        raise Discard
    for i in range(n):
        th, q = sol.y[:, i]
        h1 = q / th / ve[i]
        if min(abs(h1 - 5.3), abs(h1 - 3.3)) < .02:
            continue
        h = h_of(h1)
        close(r.THETA_H[i, 0, 0], th, rtol=2e-3, what='momentum thickness (Head)')
        close(r.H_H[i, 0, 0], h, rtol=5e-3, what='shape factor')
        close(r.DELTA_STAR_H[i, 0, 0], h * th, rtol=6e-3, what='displacement thickness')
        close(r.DELTA_H[i, 0, 0], th * h1 + h * th, rtol=8e-3, what='thickness')
        close(r.RE_THETA_H[i, 0, 0], ve[i] * th / nu, rtol=2e-3, what='momentum Reynolds number')
        close(r.CF_H[i, 0, 0], .246 * 10 ** (-.678 * h) * (ve[i] * th / nu) ** -.268, rtol=1.5e-2, what='skin friction')
    ctx.hit('accelerating' if case['g'] > .02 else 'decelerating' if case['g'] < -.02 else 'flat plate')


bl = record(dx=vec(rng(.2, 1.), 8, 25), L=rng(.3, 2.), v=rng(.8, 1.3), g=st.one_of(st.just(0.), rng(-.08, .4)), Re=logrng(1e5, 5e6),
            th0=logrng(1e-6, 1e-4))
bl_h = record(dx=vec(rng(.2, 1.), 8, 25), L=rng(.3, 2.), v=rng(.8, 1.3), g=st.one_of(st.just(0.), rng(-.2, .3)), Re=logrng(1e5, 5e6),
              rth=rng(300., 2000.), H0=rng(1.25, 1.55))


# ------------------------------------------------------------------ whole analysis
def analyse(xs, ys, A, R):
    with np.errstate(all='ignore'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        g = Data(x_coordinates=np.array(xs), y_coordinates=np.array(ys))
        try:
            return airfoil_analysis(g, np.array(A, float), np.array(R, float))
        except ValueError as e:                            # more than two stagnation points: the layers cannot be laid out
            if 'reshape' in str(e):
                raise Discard
            raise


def check_analysis(case, ctx):
    """A table of angles and Reynolds numbers gives, entry by entry, the edge velocity each condition gives alone, which is
    the panel solution; the stated closures hold.  (The integrated thicknesses themselves amplify round-off near separation
    and are not compared.)"""
    xs, ys = section(case['shape'], case['m'])
    rows, cols = len(case['Re']), len(case['a'])
    A = [[a + .003 * i for a in case['a']] for i in range(rows)]
    R = [[r * (1. + .1 * j) for j in range(cols)] for r in case['Re']]
    full = analyse(xs, ys, A, R)
    i, j = case['pick'][0] % rows, case['pick'][1] % cols
    one = analyse(xs, ys, [[A[i][j]]], [[R[i][j]]])
    for key in ('cl', 'cd', 'cm', 'cdpi'):
        f = np.asarray(full[key])
        require(f.shape == (rows, cols), '%s has shape %s' % (key, f.shape))
    for key in ('Ue_Vinf', 'x', 'y'):
        f, o = np.asarray(full[key]), np.asarray(one[key])
        require(f.shape[:2] == (rows, cols), '%s has shape %s' % (key, f.shape))
        m = np.isfinite(o[0, 0])
        close(f[i, j][m], o[0, 0][m], rtol=1e-5, atol=1e-8, what='%s in a table and alone' % key)
    ref, q, L = reference(xs, ys, A[i][j])
    close(np.asarray(full.Ue_Vinf)[i, j], abs(ref), rtol=1e-6, atol=1e-6, what='edge velocity against the panel solution')
    th = np.asarray(full.theta)[i, j]
    m = np.isfinite(th)
    ds = np.asarray(full.delta_star)[i, j]
    H = np.asarray(full.H)[i, j]
    close(ds[m], (H * th)[m], rtol=1e-9, atol=1e-15, what='displacement thickness = H theta')
    cd = float(np.asarray(full.cd)[i, j])
    if m[-1]:
        close(cd, 2. * th[-1] * .99 ** ((5. + 1.05) / 2.), rtol=1e-9, what='Squire-Young drag of the surface it is stated for')
    if rows * cols > 1:
        ctx.hit('table')


PROPERTY = Property('C29', [
    Sub('panels', record(shape=shape, m=st.integers(8, 30), alpha=st.integers(1, 2).flatmap(lambda r: st.integers(1, 3).flatmap(
        lambda c: vec(vec(angle, c), r)))), check_panels, quick=120, thorough=1500, rule='several conditions or a cambered section'),
    Sub('invariance', record(shape=shape, m=st.integers(8, 40), a=angle, scale=logrng(.1, 10.), shift=vec(rng(-5., 5.), 2), turn=rng(-1.5, 1.5)),
        check_invariance, quick=150, thorough=2000, rule='moved'),
    Sub('lift', record(shape=shape, a=angle, x=vec(rng(0., 1.), 12), y=vec(rng(-.2, .2), 12), cp=vec(rng(-3., 1.), 12), al=vec(angle, 1, 3)),
        check_lift, quick=60, thorough=800, rule='solved'),
    Sub('thwaites', bl, check_thwaites, quick=120, thorough=1500, rule='any'),
    Sub('head', bl_h, check_head, quick=80, thorough=1000, rule='no separation'),
    Sub('analysis', record(shape=shape, m=st.integers(25, 60), a=vec(rng(-.06, .12), 1, 3), Re=vec(logrng(3e5, 5e6), 1, 3),
                           pick=vec(st.integers(0, 5), 2)), check_analysis, quick=40, thorough=400, rule='a table'),
], rule='each sub-check states its own rule')

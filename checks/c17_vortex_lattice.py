"""C17: the vortex lattice solves the flow it states, on the geometry it was given, independent of bookkeeping."""
import math

import numpy as np
from hypothesis import strategies as st

import SUAVE
from SUAVE.Core import Data
from SUAVE.Components.Wings import Main_Wing, Wing, Horizontal_Tail, Vertical_Tail, Segment, Stabilator
from SUAVE.Components.Wings.Control_Surfaces import Aileron, Flap, Elevator, Slat
from SUAVE.Analyses.Aerodynamics import Vortex_Lattice
from SUAVE.Methods.Aerodynamics.Common.Fidelity_Zero.Lift.VLM import VLM
from lib.prop import Property, Sub, require, fail, close, same_shape, finite
from lib.strat import rng, inner, logrng, vec, record

PI = math.pi

SEG = record(eta=inner(.1, .9), chord=rng(.4, 1.1), twist=rng(-.06, .06, [0.]), sweep=rng(-.3, .7, [0.]), dihedral=rng(-.1, .2, [0.]))
WING = record(span=logrng(4, 40), aspect=logrng(3, 12), taper=rng(.3, 1., [1.]), sweep=rng(-.3, .8, [0.]), quarter=st.booleans(),
              dihedral=rng(-.1, .2, [0., 0.]), troot=rng(-.06, .06, [0., 0.]), ttip=rng(-.06, .06, [0., 0.]),
              breaks=st.one_of(st.just([]), st.just([]), vec(SEG, 1, 2)), x=rng(0, 5, [0.]), z=rng(-1, 1, [0.]))
TAIL = record(size=rng(.2, .6), aspect=logrng(2, 6), taper=rng(.3, 1., [1.]), sweep=rng(-.2, .6, [0.]), twist=rng(-.06, .06, [0.]),
              x=rng(1.5, 5.), z=rng(.4, 2.), below=st.booleans())
PLANE = record(wing=WING, tail=st.one_of(st.none(), TAIL), fin=st.one_of(st.none(), TAIL), sref=logrng(.3, 3.), xcg=st.one_of(st.just(0.), rng(.1, 8.)),
               nsw=st.integers(4, 7), ncw=st.integers(1, 4), cosine=st.booleans())
POINT = record(alpha=rng(-.12, .2, [0.]), psi=rng(-.1, .1, [0.]), p=rng(-.03, .03, [0.]), q=rng(-.01, .01, [0.]), r=rng(-.03, .03, [0.]),
               V=logrng(10, 300), M=rng(0., .8, [0., 0., .3]))


# ------------------------------------------------------------------ building a vehicle from the description
def knots_of(w):
    root = w.get('root', 2. * w['span'] / (w['aspect'] * (1. + w['taper'])))
    ks = [dict(eta=0., chord=root, twist=w['troot'], sweep=w['sweep'], dihedral=w['dihedral'])]
    for q in sorted(w['breaks'], key=lambda q: q['eta']):
        if q['eta'] > ks[-1]['eta'] + .1:
            ks.append(dict(eta=q['eta'], chord=q['chord'] * root, twist=q['twist'], sweep=q['sweep'], dihedral=q['dihedral']))
    ks.append(dict(eta=1., chord=w['taper'] * root, twist=w['ttip'], sweep=0., dihedral=0.))
    return ks


def make_wing(w, tag, cls, symmetric=True, vertical=False, scale=1., shift=(0., 0., 0.), xstretch=1.):
    ks = knots_of(w)
    span = w['span'] * scale
    half = span / 2. if symmetric else span
    wing = cls()
    wing.tag = tag
    wing.symmetric, wing.vertical = symmetric, vertical
    wing.spans.projected = span
    wing.chords.root = ks[0]['chord'] * scale * xstretch
    wing.chords.tip = ks[-1]['chord'] * scale * xstretch
    wing.taper = wing.chords.tip / wing.chords.root
    area = sum((a['chord'] + b['chord']) / 2. * (b['eta'] - a['eta']) for a, b in zip(ks, ks[1:])) * scale * span
    wing.areas.reference = area
    wing.aspect_ratio = span ** 2 / area
    wing.chords.mean_aerodynamic = area / span
    wing.twists.root, wing.twists.tip = ks[0]['twist'], ks[-1]['twist']
    wing.dihedral = ks[0]['dihedral']
    wing.origin = [[(w['x'] * xstretch + shift[0]) * scale, shift[1] * scale, (w['z'] + shift[2]) * scale]]
    wing.aerodynamic_center = [.25 * wing.chords.mean_aerodynamic, 0., 0.]
    les = [math.atan(math.tan(k['sweep']) * xstretch) for k in ks]

    def quarter(i):
        slope = (ks[i + 1]['chord'] - ks[i]['chord']) * scale * xstretch / ((ks[i + 1]['eta'] - ks[i]['eta']) * half)
        return math.atan(math.tan(les[i]) + .25 * slope)
    by_quarter = w['quarter'] and symmetric
    if by_quarter:
        wing.sweeps.quarter_chord = quarter(0)
    else:
        wing.sweeps.leading_edge = les[0]
        wing.sweeps.quarter_chord = quarter(0)
    if len(ks) > 2:
        for i, k in enumerate(ks):
            s = Segment()
            s.tag = 'part_%d' % i
            s.percent_span_location = k['eta']
            s.root_chord_percent = k['chord'] / ks[0]['chord']
            s.twist = k['twist']
            s.dihedral_outboard = k['dihedral']
            if i + 1 < len(ks):
                s.sweeps.quarter_chord = quarter(i)
                s.sweeps.leading_edge = None if by_quarter else les[i]
            else:
                s.sweeps.quarter_chord = 0.
                s.sweeps.leading_edge = 0.
            wing.append_segment(s)
    # the reference shape: leading edge x, z, chord and twist as functions of the distance along the span
    xs, zs = [0.], [0.]
    for a, b, le in zip(ks, ks[1:], les):
        d = (b['eta'] - a['eta']) * half
        xs.append(xs[-1] + d * math.tan(le))
        zs.append(zs[-1] + d * math.tan(a['dihedral']))
    ys = [k['eta'] * half for k in ks]
    shape = dict(y=ys, x=xs, z=zs, c=[k['chord'] * scale * xstretch for k in ks], t=[k['twist'] for k in ks], origin=wing.origin[0], half=half,
                 symmetric=symmetric, vertical=vertical, area=area * xstretch)
    return wing, shape


def tail_spec(t, w, fin):
    span = t['size'] * w['span'] * (.5 if fin else 1.)
    c = 2. * span / (t['aspect'] * (1. + t['taper']))
    zz = t['z'] * (1. if not t['below'] or fin else -1.) * knots_of(w)[0]['chord'] + w['z']
    if not fin:  # clear of the wake of the main wing
        ks = knots_of(w)
        z, top, low = 0., 0., 0.
        for a, b in zip(ks, ks[1:]):
            z += (b['eta'] - a['eta']) * w['span'] / 2 * math.tan(a['dihedral'])
            top, low = max(top, z), min(low, z)
        zz += low if t['below'] else top
    return dict(span=span, aspect=t['aspect'], root=c, taper=t['taper'], sweep=t['sweep'], quarter=False, dihedral=0., troot=0. if fin else t['twist'],
                ttip=0. if fin else t['twist'], breaks=[], x=w['x'] + t['x'] * knots_of(w)[0]['chord'], z=zz)


def make_vehicle(c, scale=1., shift=(0., 0., 0.), xstretch=1., order=1, sref=None, drop=()):
    v = SUAVE.Vehicle()
    parts = []
    w = c['wing']
    if 'main' not in drop:
        parts.append(make_wing(w, 'main_wing', Main_Wing, True, False, scale, shift, xstretch))
    if c.get('tail') and 'tail' not in drop:
        parts.append(make_wing(tail_spec(c['tail'], w, False), 'tail', Horizontal_Tail, True, False, scale, shift, xstretch))
    if c.get('fin') and 'fin' not in drop:
        parts.append(make_wing(tail_spec(c['fin'], w, True), 'fin', Vertical_Tail, False, True, scale, shift, xstretch))
    for wing, _ in parts[::order]:
        v.append_component(wing)
    area = w['span'] ** 2 / w['aspect']
    v.reference_area = (c['sref'] if sref is None else sref) * area * scale ** 2 * xstretch
    if c['xcg']:
        v.mass_properties.center_of_gravity = [[(c['xcg'] * xstretch + shift[0]) * scale, 0., shift[2] * scale]]
    return v, [p[1] for p in parts[::order]]


def settings_of(c, **kw):
    s = Vortex_Lattice().settings
    s.number_spanwise_vortices = c['nsw']
    s.number_chordwise_vortices = c['ncw']
    s.spanwise_cosine_spacing = c['cosine']
    s.floating_point_precision = np.float64
    s.use_surrogate = False
    for k, x in kw.items():
        s[k] = x
    return s


def conditions(pts, span=1., scale=1., sign=1.):
    """Rates are given as fractions of a speed ratio: p*b/(2V)."""
    col = lambda f: np.array([[float(f(p))] for p in pts])
    c = SUAVE.Analyses.Mission.Segments.Conditions.Aerodynamics()
    c.aerodynamics.angle_of_attack = col(lambda p: p['alpha'])
    c.aerodynamics.side_slip_angle = col(lambda p: sign * p['psi'])
    c.stability.dynamic.pitch_rate = col(lambda p: p['q'] * 2 * p['V'] / span)
    c.stability.dynamic.roll_rate = col(lambda p: sign * p['p'] * 2 * p['V'] / span)
    c.stability.dynamic.yaw_rate = col(lambda p: sign * p['r'] * 2 * p['V'] / span)
    c.freestream.velocity = col(lambda p: p['V'])
    c.freestream.mach_number = col(lambda p: p['M'])
    return c


def solve(c, pts, span=None, sign=1., kw={}, **make):
    v, shapes = make_vehicle(c, **make)
    span = c['wing']['span'] * make.get('scale', 1.) if span is None else span
    return VLM(conditions(pts, span, sign=sign), settings_of(c, **kw), v), v, shapes


SYM = ('CL', 'CDi', 'CM')
ANTI = ('CYTOT', 'CRMTOT', 'CYMTOT')
ALL = SYM + ANTI + ('CL_wing', 'CDi_wing', 'cl_y', 'cdi_y', 'CP', 'gamma')


def agree(a, b, names, what, tol=2e-4, sign=1.):
    for n in names:
        x, y = np.array(a[n], float), np.array(b[n], float)
        require(x.shape == y.shape, '%s: %s has shape %r against %r', what, n, x.shape, y.shape)
        finite(x, '%s: %s' % (what, n))
        scale = max(1e-3, float(np.max(np.abs(x))) if x.size else 0.)
        bad = np.abs(x - sign * y) > tol * scale
        require(not bad.any(), '%s: %s is %r against %r', what, n, x[bad][:3], (sign * y)[bad][:3])


# ------------------------------------------------------------------ geometry
def check_geometry(c, ctx):
    R, v, shapes = solve(c, [dict(alpha=.05, psi=0., p=0., q=0., r=0., V=50., M=0.)])
    VD = R.VD
    n = c['ncw']
    sides = [(s, sg) for s in shapes for sg in ((1., -1.) if s['symmetric'] else (1.,))]
    require(VD.n_cp == len(sides) * c['nsw'] * n, '%d panels for %d surfaces of %d by %d', VD.n_cp, len(sides), c['nsw'], n)
    close(np.array(VD.wing_areas, float), [s['area'] / (2. if s['symmetric'] else 1.) for s, _ in sides], rtol=1e-9, what='areas of the surfaces')
    P = {k: np.stack([np.array(VD['X' + k], float), np.array(VD['Y' + k], float), np.array(VD['Z' + k], float)], 1) for k in
         ('A1', 'A2', 'B1', 'B2', 'AH', 'BH', 'CH', 'C')}
    size = max(s['half'] for s in shapes)
    i = 0
    for s, sg in sides:
        last = 0.
        o = np.array(s['origin'], float) * ([1., 1., 1.] if s['vertical'] else [1., sg, 1.])
        sgy = sg

        def at(y, f):
            """Point of the surface at distance y along the span and fraction f of the chord."""
            x0, z0, ch, t = (np.interp(y, s['y'], s[k]) for k in ('x', 'z', 'c', 't'))
            x, z = x0 + math.cos(t) * f * ch, z0 - math.sin(t) * f * ch
            return o + np.array([x, z, y] if s['vertical'] else [x, sgy * y, z])
        ax = 2 if s['vertical'] else 1
        total = 0.
        for k in range(c['nsw']):
            ya = abs(P['A1'][i, ax] - o[ax])
            yb = abs(P['B1'][i, ax] - o[ax])
            require(abs(ya - last) < 1e-7 * size and yb > ya, 'strip %d runs from %r to %r but the one before ended at %r', k, ya, yb, last)
            last = yb
            for m in range(n):
                lo, hi = m / n, (m + 1) / n
                for key, y, f in (('A1', ya, lo), ('A2', ya, hi), ('B1', yb, lo), ('B2', yb, hi), ('AH', ya, lo + .25 / n), ('BH', yb, lo + .25 / n),
                                  ('CH', (ya + yb) / 2, lo + .25 / n), ('C', (ya + yb) / 2, lo + .75 / n)):
                    close(P[key][i], at(y, f), atol=1e-6 * size, rtol=0., what='point %s of panel %d' % (key, i))
                require(bool(VD.leading_edge_indices[i]) == (m == 0) and bool(VD.trailing_edge_indices[i]) == (m == n - 1),
                        'edge marks of panel %d', i)
                require(int(VD.chordwise_panel_number[i]) == m + 1 and int(VD.panels_per_strip[i]) == n, 'numbering of panel %d', i)
                nn = np.array(VD.normals[i], float)
                close(float(nn @ nn), 1., atol=1e-6, what='length of the normal')
                for e in (P['B1'][i] - P['A1'][i], P['A2'][i] - P['A1'][i]):
                    require(abs(nn @ e) < 1e-6 * np.linalg.norm(e), 'the normal of panel %d is not perpendicular to its edges', i)
                d = .5 * (np.linalg.norm(np.cross(P['B1'][i] - P['A1'][i], P['A2'][i] - P['A1'][i])) +
                          np.linalg.norm(np.cross(P['A2'][i] - P['B1'][i], P['B2'][i] - P['B1'][i])))
                close(float(VD.panel_areas[i]), d, rtol=1e-6, what='area of panel %d' % i)
                i += 1
        close(last, s['half'], rtol=1e-9, what='end of the last strip')
        for y in s['y'][1:-1]:
            j = i - c['nsw'] * n
            require(min(abs(abs(P['B1'][q, ax] - o[ax]) - y) for q in range(j, i)) < 1e-9 * size, 'no strip ends at the break at %r', y)
    if len(shapes) > 1 or c['wing']['breaks']:
        ctx.hit('several surfaces or a cranked wing')
    ctx.label('%d surfaces' % len(shapes))


# ------------------------------------------------------------------ the flow
def horseshoes(P, VD):
    """Velocity at P of every horseshoe of unit strength, its legs going straight back."""
    A = np.stack([VD.XAH, VD.YAH, VD.ZAH], 1).astype(float)
    B = np.stack([VD.XBH, VD.YBH, VD.ZBH], 1).astype(float)
    sw = (A[:, 1] > B[:, 1])[:, None]
    A, B = np.where(sw, B, A), np.where(sw, A, B)
    r1, r2 = P[:, None] - A[None], P[:, None] - B[None]
    n1, n2 = np.linalg.norm(r1, axis=-1), np.linalg.norm(r2, axis=-1)
    bound = np.cross(r1, r2) * ((n1 + n2) / (n1 * n2 * (n1 * n2 + (r1 * r2).sum(-1))))[..., None]
    leg = lambda r, n: np.cross([1., 0., 0.], r) / (n * (n - r[..., 0]))[..., None]
    return (bound + leg(r2, n2) - leg(r1, n1)) / (4 * PI), A, B


FLOW = record(plane=PLANE, points=vec(POINT, 1, 3), vorlax=st.booleans())


def check_flow(c, ctx):
    pl = c['plane']
    pts = [dict(p, M=0.) for p in c['points']]
    vorlax = bool(pl['fin']) or c['vorlax']  # without it vertical surfaces are loaded the wrong way round (known finding)
    R, v, shapes = solve(pl, pts, kw=dict(use_VORLAX_matrix_calculation=vorlax))
    VD = R.VD
    P = np.stack([VD.XC, VD.YC, VD.ZC], 1).astype(float)
    I, A, B = horseshoes(P, VD)
    N = np.array(VD.normals, float)
    dn = np.einsum('ijk,ik->ij', I, N)
    b = pl['wing']['span']
    xm = float(VD.XBAR[0])
    zm = float(VD.ZBAR[0])
    steep = max(abs(k['dihedral']) for k in knots_of(pl['wing']))
    twist = max(abs(k['twist']) for k in knots_of(pl['wing'])) + (abs(pl['tail']['twist']) if pl['tail'] else 0.)
    lead = max([abs(math.tan(k['sweep'])) for k in knots_of(pl['wing'])] + ([abs(math.tan(pl['tail']['sweep']))] if pl['tail'] else []))
    for i, p in enumerate(pts):
        rate = np.array([p['p'], p['q'], p['r']]) * 2. / b
        arm = np.stack([VD.XCH + VD.chord_lengths[0] * .5 / VD.panels_per_strip - xm, VD.YCH, VD.ZCH - zm], 1).astype(float)
        ca, sa = math.cos(p['alpha']), math.sin(p['alpha'])
        onset = np.array([ca * math.cos(p['psi']), ca * math.sin(p['psi']), sa]) + np.stack([
            -rate[1] * arm[:, 2] + rate[2] * arm[:, 1], -rate[2] * arm[:, 0] + rate[0] * arm[:, 2], -rate[0] * arm[:, 1] + rate[1] * arm[:, 0]], 1)
        g = np.array(R.gamma[i], float)
        res = dn @ g + (onset * N).sum(1)
        size = max(1e-3, np.max(np.abs((onset * N).sum(1))))
        tol = 3e-3 + 12. * (steep + lead + .5) * twist  # the influence of the panels is taken normal to slope and dihedral only
        if vorlax:  # and so is the onset flow
            tol = .05 + 2. * steep + 3. * tol
        require(np.max(np.abs(res)) < tol * size, 'flow through the panels: %r of an onset of %r', np.max(np.abs(res)), size)
        if size > 1e-2:
            ctx.hit('loaded')
    ctx.label('%d points' % len(pts))


# forces, without rates and sideslip: Kutta-Joukowski on the bound vortices
def check_forces(c, ctx):
    pl = dict(c['plane'], fin=None)
    pts = [dict(p, M=0., psi=0., p=0., q=0., r=0.) for p in c['points']]
    R, v, shapes = solve(pl, pts)
    VD = R.VD
    S = v.reference_area
    mac = v.wings.main_wing.chords.mean_aerodynamic
    dy = np.abs(np.array(VD.YBH - VD.YAH, float))
    xm, zm = float(VD.XBAR[0]), float(VD.ZBAR[0])
    twist = max(abs(k['twist']) for k in knots_of(pl['wing'])) + (abs(pl['tail']['twist']) if pl['tail'] else 0.)
    for i, p in enumerate(pts):
        g = np.array(R.gamma[i], float)
        lift = 2. * g * dy
        big = np.sum(np.abs(lift)) / S
        lean = abs(p['alpha']) + twist
        tol = (.025 + 1.5 * lean ** 2) * big + 1e-6
        CL = float(R.CL[i])
        close(CL, lift.sum() / S, atol=tol, rtol=0., what='lift coefficient against the circulation')
        X = np.array(VD.XCH, float)
        high = np.max(np.abs(np.array(VD.ZCH, float) - zm)) / mac
        reach = np.max(np.abs(X - xm)) / mac
        close(float(R.CM[i]), -(lift * (X - xm)).sum() / S / mac, atol=(.02 * reach + .06 + lean ** 2 + .3 * lean + lean * high) * big + 1e-6, rtol=0.,
              what='pitching moment against the circulation')
        # the wings add up
        a = np.array(VD.wing_areas, float)
        close(float((np.array(R.CL_wing[i], float) * a).sum() / S), CL, atol=2e-5 * max(big, 1e-3), rtol=0., what='sum of the lifts of the wings')
        close(float((np.array(R.CDi_wing[i], float) * a).sum() / S), float(R.CDi[i]), atol=2e-5 * max(big, 1e-3), rtol=0., what='sum of the drags of the wings')
        # far field: drag cannot be less than what the wake carries
        LE = VD.leading_edge_indices
        G = np.add.reduceat(g, np.flatnonzero(LE))
        ya, za = np.array(VD.YAH, float)[LE], np.array(VD.ZAH, float)[LE]
        yb, zb = np.array(VD.YBH, float)[LE], np.array(VD.ZBH, float)[LE]
        sw = ya > yb
        ya, yb, za, zb = np.where(sw, yb, ya), np.where(sw, ya, yb), np.where(sw, zb, za), np.where(sw, za, zb)
        yc, zc = (ya + yb) / 2, (za + zb) / 2
        wake = 0.
        for k in range(len(G)):
            vy = vz = 0.
            for y0, z0, sg in ((ya, za, -1.), (yb, zb, 1.)):
                ry, rz = yc[k] - y0, zc[k] - z0
                r2 = ry ** 2 + rz ** 2
                vy = vy + sg * G * -rz / r2
                vz = vz + sg * G * ry / r2
            ny, nz = -(zb - za)[k], (yb - ya)[k]
            wake -= G[k] * (np.sum(vy) * ny + np.sum(vz) * nz) / (2 * PI)
        wake /= S
        require(twist > .25 * abs(p['alpha']) or float(R.CDi[i]) > .85 * wake - 1e-3 * big - 1e-9, 'induced drag %r below what the wake carries, %r', float(R.CDi[i]), wake)
        ctx.label('%d points' % len(pts))
        if big > .05:
            ctx.hit('loaded')


# ------------------------------------------------------------------ what must not matter
ANYM = st.one_of(rng(0., .9, [0., .5]), rng(1.1, 2.5))
MANY = record(plane=PLANE, points=vec(st.tuples(POINT, ANYM), 1, 4), scale=logrng(.2, 5.), shift=rng(-3, 3), up=rng(-2, 2), vfac=logrng(.2, 5.),
              sref=logrng(.3, 3.), vorlax=st.booleans())


def check_relations(c, ctx):
    pl = c['plane']
    pts = [dict(p, M=m) for p, m in c['points']]
    kw = dict(use_VORLAX_matrix_calculation=c['vorlax'])
    R, v, _ = solve(pl, pts, kw=kw)
    again = VLM(conditions(pts, pl['wing']['span']), settings_of(pl, **kw), v)
    agree(R, again, ALL, 'second evaluation of the same vehicle', tol=1e-9)
    for i, p in enumerate(pts):
        one, _, _ = solve(pl, [p], kw=kw)
        for n in ALL:
            a, b = np.array(R[n], float)[i], np.array(one[n], float)[0]
            require(np.max(np.abs(a - b)) <= 1e-5 * max(1e-3, np.max(np.abs(b))), 'point %d alone: %s is %r, with the others %r', i, n, b, a)
    sub = [p for p in pts if p['M'] < 1.]  # the supersonic solution has cut-offs that rounding can cross
    if not sub:
        ctx.label('supersonic only')
        return
    base, _, _ = solve(pl, sub, kw=kw)
    agree(base, solve(pl, [dict(p, V=p['V'] * c['vfac']) for p in sub], kw=kw)[0], ALL, 'another speed', tol=1e-5)
    agree(base, solve(pl, sub, scale=c['scale'], kw=kw)[0], SYM + ANTI + ('cl_y', 'CP'), 'another scale', tol=3e-3)
    agree(base, solve(pl, sub, shift=(c['shift'], 0., c['up']), kw=kw)[0], ('CL', 'CDi', 'CM', 'CYTOT', 'cl_y'), 'moved', tol=5e-3)
    other = solve(pl, sub, sref=c['sref'], kw=kw)[0]
    f = pl['sref'] / c['sref']
    for n in SYM + ANTI:
        close(np.array(other[n], float), np.array(base[n], float) * f, rtol=1e-6, atol=1e-12, what='%s for another reference area' % n)
    agree(base, other, ('cl_y', 'gamma', 'CL_wing'), 'another reference area', tol=1e-9)
    turned = solve(pl, sub, order=-1, kw=kw)[0]
    agree(base, turned, SYM + ANTI, 'the wings listed the other way round', tol=3e-3)
    close(np.sort(np.array(base.CL_wing, float), axis=1), np.sort(np.array(turned.CL_wing, float), axis=1), atol=3e-3, rtol=3e-3, what='lift of the wings in another order')
    lower = solve(pl, sub, kw=dict(kw, floating_point_precision=np.float32))[0]
    agree(base, lower, SYM + ANTI, 'single precision', tol=1e-2)
    if len(pts) > 1:
        ctx.hit('batch')
    ctx.label('mixed' if len(sub) < len(pts) else 'subsonic')


LIN = record(plane=PLANE, alphas=vec(rng(-.2, .2), 2, 2), third=rng(-.2, .2), M=ANYM, p=POINT, k=rng(-2., 2.), vorlax=st.booleans())


def check_linear(c, ctx):
    """The circulation is linear in the onset flow."""
    pl = c['plane']
    a, b = c['alphas']
    if abs(a - b) < .02:
        b = a + .05
    base = dict(alpha=a, psi=0., p=0., q=0., r=0., V=50., M=c['M'])
    rates = {k: c['p'][k] for k in 'pqr'}
    pts = [base, dict(base, alpha=b), dict(base, alpha=c['third'])]
    for k in 'pqr':
        pts.append(dict(base, **{k: rates[k]}))
    pts.append(dict(base, p=rates['p'], q=rates['q'], r=rates['r']))
    pts.append(dict(base, p=c['k'] * rates['p']))
    g = np.array(solve(pl, pts, kw=dict(use_VORLAX_matrix_calculation=c['vorlax']))[0].gamma, float)
    M = np.array([[math.cos(a), math.cos(b)], [math.sin(a), math.sin(b)]])
    u = np.linalg.solve(M, [math.cos(c['third']), math.sin(c['third'])])
    size = max(np.max(np.abs(g)), 1e-4)
    tol = 1e-5 * size * (1. + np.max(np.abs(u)))
    close(g[2], u[0] * g[0] + u[1] * g[1], atol=tol, rtol=0., what='circulation at an incidence from two others')
    close(g[6] - g[0], (g[3] - g[0]) + (g[4] - g[0]) + (g[5] - g[0]), atol=tol, rtol=0., what='circulation with three rates against one at a time')
    close(g[7] - g[0], c['k'] * (g[3] - g[0]), atol=tol, rtol=0., what='circulation with a multiple of the roll rate')
    if any(abs(x) > 1e-3 for x in rates.values()):
        ctx.hit('rotating')
    ctx.label('supersonic' if c['M'] > 1 else 'subsonic')


def check_mirror(c, ctx):
    pl = c['plane']
    pts = [dict(p, M=m) for p, m in c['points'] if m < 1.]
    if not pts:
        ctx.label('supersonic only')
        return
    kw = dict(use_VORLAX_matrix_calculation=c['vorlax'])
    R = solve(pl, pts, kw=kw)[0]
    L = solve(pl, pts, sign=-1., kw=kw)[0]
    agree(R, L, SYM, 'the mirrored flow', tol=2e-3)
    for n in ANTI:
        a, b = np.array(R[n], float), np.array(L[n], float)
        require(np.max(np.abs(a + b)) < 2e-3 * max(np.max(np.abs(a)), 1e-2), '%s is %r, in the mirrored flow %r', n, a, b)
    S = solve(pl, [dict(p, psi=0., p=0., r=0.) for p in pts], kw=kw)[0]
    for n in ANTI:
        require(np.max(np.abs(np.array(S[n], float))) < 1e-3 * max(np.max(np.abs(S.CL)), 1e-2), '%s is %r in symmetric flow', n, np.array(S[n], float))
    # without sideslip, rolling and yawing, pitching moment and lift are those of either half: both halves alike
    n = pl['nsw']
    c_y = np.array(S.cl_y, float)
    close(c_y[:, :n], c_y[:, n:2 * n], atol=2e-3 * max(np.max(np.abs(c_y)), 1e-2), rtol=0., what='load on the two halves of the main wing')
    # rotation about the x axis is resisted
    if pl['fin'] is None:
        still = dict(alpha=0., psi=0., p=0., q=0., r=0., V=50., M=0.)
        T = solve(pl, [still, dict(still, p=.05)])[0]
        require(float(T.CRTOT[1] - T.CRTOT[0]) < 0., 'a rolling wing is driven on: %r', np.array(T.CRTOT))
    if any(abs(p[k]) > 1e-3 for p in pts for k in ('psi', 'p', 'r')):
        ctx.hit('asymmetric flow')
    ctx.label('fin' if pl['fin'] else 'no fin')


FLAT = record(plane=PLANE, alpha=rng(.01, .15), M=rng(.1, .9), other=rng(1.15, 2.5))


def flat(pl):
    w = dict(pl['wing'], dihedral=0., troot=0., ttip=0., breaks=[dict(q, twist=0., dihedral=0.) for q in pl['wing']['breaks']])
    return dict(pl, wing=w, fin=None, tail=dict(pl['tail'], twist=0.) if pl['tail'] else None)


def check_compressible(c, ctx):
    """Prandtl and Glauert: the load on flat wings at a Mach number is that on wings stretched by 1/beta in incompressible flow."""
    pl = flat(c['plane'])
    p = dict(alpha=c['alpha'], psi=0., p=0., q=0., r=0., V=50., M=c['M'])
    beta = math.sqrt(1. - c['M'] ** 2)
    R = solve(pl, [p])[0]
    T = solve(pl, [dict(p, M=0.)], xstretch=1. / beta)[0]
    a, b = np.array(R.gamma, float), np.array(T.gamma, float)
    close(a, b, atol=2e-3 * np.max(np.abs(b)), rtol=0., what='circulation against the stretched wing')
    close(float(R.CL[0]), float(T.CL[0]) / beta, rtol=2e-2, what='lift against the stretched wing')
    # supersonic: a surface that starts behind the Mach cones of another has no effect on it
    sup = dict(p, M=c['other'])
    if pl['tail']:
        far = dict(pl, tail=dict(pl['tail'], x=60.))
        A = solve(far, [sup])[0]
        B = solve(far, [sup], drop=('tail',))[0]
        n = 2 * pl['nsw']
        close(np.array(A.cl_y, float)[:, :n], np.array(B.cl_y, float), atol=1e-4, rtol=1e-4, what='load ahead of a far downstream surface')
        ctx.hit('tail')
    ctx.label('M %.1f' % c['M'])


# ------------------------------------------------------------------ movable surfaces
CONTROL = record(wing=WING, kind=st.sampled_from(['flap', 'aileron', 'slat', 'elevator']), start=rng(.05, .5), extent=rng(.2, .45), fraction=rng(.15, .4),
                 deflection=rng(.02, .3), alpha=rng(0., .15), nsw=st.integers(9, 12), ncw=st.integers(3, 5), cosine=st.booleans(), side=st.booleans())
KINDS = dict(flap=Flap, aileron=Aileron, slat=Slat, elevator=Elevator)


def with_control(c, deflection, discretize=True):
    pl = dict(wing=dict(c['wing'], breaks=c['wing']['breaks'][:1]), tail=None, fin=None, sref=1., xcg=0., nsw=c['nsw'], ncw=c['ncw'], cosine=c['cosine'])
    v, shapes = make_vehicle(pl)
    w = v.wings.main_wing
    s = KINDS[c['kind']]()
    s.tag = c['kind']
    s.span_fraction_start, s.span_fraction_end = c['start'], c['start'] + c['extent']
    s.chord_fraction = c['fraction']
    s.deflection = deflection
    w.append_control_surface(s)
    p = dict(alpha=c['alpha'], psi=0., p=0., q=0., r=0., V=50., M=0.)
    return VLM(conditions([p], w.spans.projected), settings_of(pl, discretize_control_surfaces=discretize), v), v, shapes[0]


def check_controls(c, ctx):
    d = c['deflection']
    R, v, shape = with_control(c, d)
    Z, _, _ = with_control(c, 0.)
    L, _, _ = with_control(c, -d)
    VD, V0 = R.VD, Z.VD
    # undeflected, the pieces make up the wing
    total = float(np.sum(np.array(V0.panel_areas, float)))
    N = with_control(c, 0., discretize=False)[0]
    close(total, float(np.sum(np.array(N.VD.panel_areas, float))), rtol=5e-3, what='area of wing and control surface panels')
    # the control surface covers its extent and chord
    half = shape['half']
    ids = np.array(V0.surface_ID, int).ravel()
    parts = [w for w in V0.VLM_wings if w.is_a_control_surface]
    lo, hi = c['start'] * half, (c['start'] + c['extent']) * half
    cover = 0.
    for w in parts:
        for sg in (1, -1):
            m = ids == w.surface_ID * sg
            require(m.any(), 'side %d of control surface %s has no panels', sg, w.tag)
            y = np.abs(np.concatenate([np.array(V0.YA1, float)[m], np.array(V0.YB1, float)[m]]))
            require(y.min() > lo - 1e-6 * half and y.max() < hi + 1e-6 * half, 'control surface from %r to %r, given %r to %r', y.min(), y.max(), lo, hi)
            require((np.sign(np.array(V0.YC, float)[m]) == sg).all(), 'a control surface on the wrong side')
            if sg > 0:
                cover += y.max() - y.min()
                yc = np.array(V0.YC, float)[m]
                ch = np.interp(yc, shape['y'], shape['c']) * c['fraction']
                k = np.array(V0.panels_per_strip, float)[m]
                across = np.array(V0.XA2 - V0.XA1 + V0.XB2 - V0.XB1, float)[m] / 2. * k
                close(across, ch, rtol=1e-2, what='chord of the control surface')
    close(cover, hi - lo, rtol=1e-6, what='extent of the control surface')
    # deflecting moves the control surface only, about its hinge
    moved = ~np.isin(np.abs(ids), [w.surface_ID for w in parts])
    for k in ('XA1', 'ZA1', 'XB2', 'ZB2', 'XC', 'ZC', 'YC'):
        close(np.array(VD[k], float)[moved], np.array(V0[k], float)[moved], atol=1e-9 * half, what='%s of the fixed part' % k)
    for a, b in (('A1', 'A2'), ('B1', 'B2')):
        e = lambda W: np.stack([np.array(W['X' + b] - W['X' + a], float), np.array(W['Y' + b] - W['Y' + a], float), np.array(W['Z' + b] - W['Z' + a], float)], 1)
        u, w0 = e(VD)[~moved], e(V0)[~moved]
        lu, l0 = np.linalg.norm(u, axis=1), np.linalg.norm(w0, axis=1)
        close(lu, l0, rtol=1e-6, what='lengths on the deflected surface')
        ang = np.arccos(np.clip((u * w0).sum(1) / (lu * l0), -1, 1))
        flat = max(abs(k['dihedral']) for k in knots_of(c['wing'])) + max(abs(math.tan(k['sweep'])) for k in knots_of(c['wing'])) + .3
        require((ang < d * (1. + 1e-6) + 1e-4).all() and (ang > d * (1. - .9 * min(1., flat))).all(), 'control surface turned by %r, deflection %r', ang, d)
        right = np.array(V0.YC, float)[~moved] > 0
        down = -(u[:, 2] - w0[:, 2])
        sign = -1. if c['kind'] == 'slat' else 1.
        same = -1. if c['kind'] == 'aileron' else 1.
        require((down[right] * sign > 0).all() if c['kind'] != 'slat' else True, 'a positive deflection turns the right surface up')
        require((down[right].sum() * down[~right].sum()) * same > 0, 'left and right surface move %r and %r', down[~right].sum(), down[right].sum())
    # what the wing feels
    dCL = [float((X.CL - Z.CL)[0]) for X in (R, L)]
    roll = [float((X.CRMTOT - Z.CRMTOT)[0]) for X in (R, L)]
    CL = max(abs(float(Z.CL[0])), .05)
    if c['kind'] == 'aileron':
        require(abs(roll[0] + roll[1]) < .2 * max(abs(roll[0]), abs(roll[1])), 'rolling moments of opposite deflections: %r', roll)
        require(abs(roll[0]) > 2e-2 * d * c['extent'] * .1, 'an aileron does not roll: %r', roll)
        require(abs(dCL[0] - dCL[1]) < .1 * d * CL + 1e-3, 'lift from opposite ailerons: %r', dCL)
    else:
        require(max(map(abs, roll)) < 1e-3 * CL + 1e-4, 'symmetric surfaces roll: %r', roll)
        if c['kind'] != 'slat':
            require(dCL[0] > 0. > dCL[1], 'a surface turned down and up changes lift by %r', dCL)
            ctx.hit('lifting')
    ctx.label(c['kind'])


ALLMOVING = record(wing=WING, deflection=rng(-.15, .15), alpha=rng(0., .1), hinge=rng(0., .8, [.25]), dup=st.booleans(), nsw=st.integers(4, 8), ncw=st.integers(1, 4),
                   cosine=st.booleans())


def check_all_moving(c, ctx):
    w = dict(c['wing'], breaks=[], dihedral=0., troot=0., ttip=0., sweep=0., taper=1., quarter=False)
    pl = dict(wing=w, tail=None, fin=None, sref=1., xcg=0., nsw=c['nsw'], ncw=c['ncw'], cosine=c['cosine'])
    v = SUAVE.Vehicle()
    wing, shape = make_wing(w, 'main_wing', Stabilator)
    wing.deflection = c['deflection']
    wing.hinge_fraction = c['hinge']
    wing.sign_duplicate = -1. if c['dup'] else 1.
    wing.use_constant_hinge_fraction = True  # without it the halves of a stabilator oppose each other (known finding)
    v.append_component(wing)
    v.reference_area = shape['area']
    p = dict(alpha=c['alpha'], psi=0., p=0., q=0., r=0., V=50., M=0.)
    R = VLM(conditions([p], wing.spans.projected), settings_of(pl), v)
    n = c['nsw']
    cl = np.array(R.cl_y, float)[0]
    if c['dup']:
        O = dict(c, dup=False)
        # mirrored deflections: the other sense gives the mirrored loads
        wing.deflection = -c['deflection']
        M = VLM(conditions([p], wing.spans.projected), settings_of(pl), v)
        close(cl[:n], np.array(M.cl_y, float)[0][n:], atol=2e-3, rtol=0., what='loads of opposite deflections')
        ctx.label('differential')
        return
    T = VLM(conditions([p], wing.spans.projected), settings_of(pl), make_vehicle(dict(pl, wing=dict(w, troot=c['deflection'], ttip=c['deflection'])))[0])
    close(cl, np.array(T.cl_y, float)[0], atol=3e-3 * max(.1, np.max(np.abs(cl))), rtol=0., what='load of a deflected surface against a twisted one')
    close(float(R.CDi[0]), float(T.CDi[0]), atol=3e-3 * max(.05, abs(float(T.CL[0]))) ** 1, rtol=0., what='drag of a deflected surface against a twisted one')
    if abs(c['deflection']) > .01:
        ctx.hit('deflected')
    ctx.label('together')


# ------------------------------------------------------------------ the surrogate
SURR = record(plane=PLANE, sub=vec(rng(0., .84), 4, 4), sup=vec(rng(1.26, 2.5), 4, 4), ang=vec(rng(-.2, .3), 5, 5), picks=vec(st.tuples(st.integers(0, 9), st.integers(0, 9)), 1, 4),
              cross=vec(rng(.8, 1.3), 1, 4), only=st.sampled_from(['both', 'both', 'sub']))


def spread(xs, gap):
    out = []
    for x in sorted(xs):
        out.append(x if not out or x > out[-1] + gap else out[-1] + gap)
    return out


def analysis_results(an, pts, v):
    state = SUAVE.Analyses.Mission.Segments.Conditions.State()
    state.conditions = conditions(pts)
    state.conditions.aerodynamics.lift_breakdown = Data()
    state.conditions.aerodynamics.drag_breakdown = Data()
    an.evaluate(state, an.settings, v)
    a = state.conditions.aerodynamics
    return (np.array(a.lift_coefficient, float), np.array(a.drag_breakdown.induced.inviscid, float),
            {k: np.array(a.lift_breakdown.inviscid_wings[k], float) for k in v.wings.keys()},
            {k: np.array(a.drag_breakdown.induced.inviscid_wings[k], float) for k in v.wings.keys()})


def check_surrogate(c, ctx):
    pl = dict(c['plane'], nsw=min(5, c['plane']['nsw']), ncw=min(2, c['plane']['ncw']))
    sub, sup, ang = spread(c['sub'], .03), spread(c['sup'], .05), spread(c['ang'], .02)
    if max(sub) >= .85:
        sub = [x * .84 / max(sub) for x in sub]
    mach = sub + (sup if c['only'] == 'both' else [])

    def analysis(surrogate):
        v, _ = make_vehicle(pl)
        an = Vortex_Lattice()
        an.geometry = v
        s = settings_of(pl, use_surrogate=surrogate)
        for k in ('spanwise_cosine_spacing', 'floating_point_precision'):
            an.settings[k] = s[k]
        an.training.Mach = np.array([mach]).T
        an.training.angle_of_attack = np.array([ang]).T
        an.initialize(surrogate, pl['nsw'], pl['ncw'], False, False, False, False)
        return an, v
    A, va = analysis(True)
    B, vb = analysis(False)
    # at the training points the surrogate is the lattice
    pts = [dict(alpha=ang[i % len(ang)], psi=0., p=0., q=0., r=0., V=100., M=mach[j % len(mach)]) for i, j in c['picks']]
    x, y = analysis_results(A, pts, va), analysis_results(B, pts, vb)
    top = [max(.05, float(np.max(np.abs(t)))) for t in y[:2]]
    close(x[0], y[0], atol=1e-3 * top[0], rtol=0., what='surrogate lift at a training point')
    close(x[1], y[1], atol=1e-3 * top[1], rtol=0., what='surrogate drag at a training point')
    for k in va.wings.keys():
        close(x[2][k], y[2][k], atol=1e-3 * max(.05, np.max(np.abs(y[2][k]))), rtol=0., what='surrogate lift of %s at a training point' % k)
        close(x[3][k], y[3][k], atol=1e-3 * max(.05, np.max(np.abs(y[3][k]))), rtol=0., what='surrogate drag of %s at a training point' % k)
    # across the speed of sound nothing jumps
    if c['only'] == 'both':
        for m in c['cross'] + [A.hsub_min, A.hsub_max, A.hsup_min, A.hsup_max, 1.]:
            a = ang[c['picks'][0][0] % len(ang)]
            near = [dict(alpha=a, psi=0., p=0., q=0., r=0., V=100., M=m + e) for e in (-1e-7, 1e-7)]
            r = analysis_results(A, near, va)
            for t in r[:2] + tuple(r[2].values()) + tuple(r[3].values()):
                require(abs(float(t[0] - t[1])) < 1e-3 * max(.1, float(np.max(np.abs(t)))), 'a coefficient jumps from %r to %r at Mach %r', t[0], t[1], m)
        ctx.hit('both sides of Mach 1')
    # points together and alone
    r = [analysis_results(A, [p], va) for p in pts]
    for i in range(len(pts)):
        close(float(x[0][i]), float(r[i][0][0]), rtol=1e-9, atol=1e-12, what='lift alone and among others')
        close(float(x[1][i]), float(r[i][1][0]), rtol=1e-9, atol=1e-12, what='drag alone and among others')
    ctx.label(c['only'])


# ------------------------------------------------------------------ recorded defect
def probe_fin():
    """Sideslip pushes a vertical surface the wrong way in the default mode, and the right way in the VORLAX mode."""
    fin = dict(aspect=2., below=False, size=.5, sweep=.2, taper=.5, twist=0., x=2.5, z=.4)
    pl = dict(cosine=False, fin=fin, ncw=1, nsw=4, sref=1., tail=None, xcg=0., wing=dict(aspect=5., breaks=[], dihedral=0., quarter=True, span=4., sweep=0., taper=1.,
              troot=0., ttip=0., x=0., z=0.))
    p = dict(alpha=0., psi=.1, p=0., q=0., r=0., V=50., M=0.)
    a = float(solve(pl, [p])[0].CYTOT[0])
    b = float(solve(pl, [p], kw=dict(use_VORLAX_matrix_calculation=True))[0].CYTOT[0])
    return a < -.04 and b > .04


def probe_stabilator():
    w = dict(aspect=5., breaks=[], dihedral=0., quarter=False, span=4., sweep=0., taper=1., troot=0., ttip=0., x=0., z=0.)
    pl = dict(cosine=False, fin=None, ncw=1, nsw=4, sref=1., tail=None, xcg=0., wing=w)
    v = SUAVE.Vehicle()
    wing, shape = make_wing(w, 'main_wing', Stabilator)
    wing.deflection = .1
    v.append_component(wing)
    v.reference_area = shape['area']
    R = VLM(conditions([dict(alpha=0., psi=0., p=0., q=0., r=0., V=50., M=0.)], 4.), settings_of(pl), v)
    cl = np.array(R.cl_y, float)[0]
    return wing.sign_duplicate == 1. and abs(cl[0] + cl[4]) < 1e-3 and abs(cl[0]) > .05


PROPERTY = Property('C17', [
    Sub('geometry', PLANE, check_geometry, quick=60, thorough=1500, rule='several surfaces or a cranked wing'),
    Sub('flow', FLOW, check_flow, quick=100, thorough=2500, rule='the panels are loaded'),
    Sub('forces', FLOW, check_forces, quick=100, thorough=2500, rule='the panels are loaded'),
    Sub('relations', MANY, check_relations, quick=60, thorough=1000, rule='several points at once'),
    Sub('linear', LIN, check_linear, quick=60, thorough=1000, rule='with rotation rates'),
    Sub('mirror', MANY, check_mirror, quick=60, thorough=1000, rule='asymmetric flow'),
    Sub('compressible', FLAT, check_compressible, quick=60, thorough=1000, rule='with a tail'),
    Sub('controls', CONTROL, check_controls, quick=60, thorough=1000, rule='a lifting control surface'),
    Sub('all_moving', ALLMOVING, check_all_moving, quick=60, thorough=1000, rule='deflected'),
    Sub('surrogate', SURR, check_surrogate, quick=25, thorough=300, rule='trained on both sides of Mach 1'),
], rule='stated per sub-check', probes={'fin_loaded_backwards': probe_fin, 'stabilator_halves_opposed': probe_stabilator})

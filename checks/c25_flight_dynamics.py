"""C25: static stability derivatives and the modes of motion of an aircraft."""
import math

import numpy as np
import SUAVE
from hypothesis import strategies as st
from SUAVE.Core import Data, Units
from SUAVE.Components import Wings
from SUAVE.Analyses.Stability.Fidelity_Zero import Fidelity_Zero
from SUAVE.Methods.Flight_Dynamics.Static_Stability.Approximations.datcom import datcom
from SUAVE.Methods.Flight_Dynamics.Dynamic_Stability.Approximations.dutch_roll import dutch_roll
from SUAVE.Methods.Flight_Dynamics.Dynamic_Stability.Approximations.phugoid import phugoid
from SUAVE.Methods.Flight_Dynamics.Dynamic_Stability.Approximations.roll import roll
from SUAVE.Methods.Flight_Dynamics.Dynamic_Stability.Approximations.short_period import short_period
from SUAVE.Methods.Flight_Dynamics.Dynamic_Stability.Approximations.spiral import spiral
from SUAVE.Methods.Flight_Dynamics.Dynamic_Stability.Full_Linearized_Equations.lateral_directional import lateral_directional
from SUAVE.Methods.Flight_Dynamics.Dynamic_Stability.Full_Linearized_Equations.longitudinal import longitudinal
from SUAVE.Methods.Flight_Dynamics.Dynamic_Stability.compute_dynamic_flight_modes import compute_dynamic_flight_modes
from lib.prop import Property, Sub, require, fail, close, same_shape, finite, monotone, Discard
from lib.strat import rng, inner, logrng, vec, record

DEG = math.pi / 180.


# ------------------------------------------------------------------ lift curve slope

def slope_ref(ar, taper, qc, mach):
    th = math.tan(qc) - 4 * .25 * (1 - taper) / (ar * (1 + taper))
    if mach < 1:
        b2, k = 1 - mach ** 2, 6.13 / (2 * math.pi)
    else:
        b2, k = mach ** 2 - 1, 4. / (2 * math.pi)
    # k = (section slope) / (2 pi / beta): the section slope carries the same compressibility factor
    return 2 * math.pi * ar / (2 + math.sqrt(ar ** 2 * b2 / k ** 2 * (1 + th ** 2 / b2) + 4))


machs = vec(st.one_of(rng(0., .95), rng(1.05, 3.)), 1, 5)
slopes = record(ar=rng(1., 25.), taper=rng(.05, 1.), sweep=rng(-30., 60.), eff=st.one_of(st.none(), rng(1., 12.)), ext=st.one_of(st.none(), rng(1., 12.)),
                mach=machs, dar=rng(.1, 5.))


def slope_wing(c, ar=None):
    w = Wings.Wing()
    w.aspect_ratio = c['ar'] if ar is None else ar
    w.taper = c['taper']
    w.sweeps.quarter_chord = c['sweep'] * DEG
    if c['eff'] is not None:
        w.effective_aspect_ratio = c['eff'] if ar is None else ar
    if c['ext'] is not None:
        w.extended = Data()
        w.extended.aspect_ratio = c['ext'] if ar is None else ar
    return w


def check_slope(c, ctx):
    M = np.array(c['mach']).reshape(-1, 1)
    used = c['eff'] if c['eff'] is not None else c['ext'] if c['ext'] is not None else c['ar']
    got = datcom(slope_wing(c), M * 1.)
    same_shape(got, M.shape, what='lift curve slopes')
    for i, m in enumerate(c['mach']):
        close(got[i, 0], slope_ref(used, c['taper'], c['sweep'] * DEG, m), rtol=1e-10, what='lift curve slope at Mach %g' % m)
        close(datcom(slope_wing(c), np.array([[m]]))[0, 0], got[i, 0], rtol=1e-13, what='lift curve slope of one control point alone')
    require((got > 0).all(), 'lift curve slope %r not positive', got)
    sub = M[:, 0] < 1
    th = math.tan(c['sweep'] * DEG)
    if sub.any() and c['taper'] == 1.:
        more = datcom(slope_wing(c, used + c['dar']), M * 1.)[sub]
        require((more > got[sub]).all(), 'a longer wing of the same sweep has a smaller subsonic lift curve slope')
    ctx.hit(len(c['mach']) > 1 or c['eff'] is not None)
    ctx.label('subsonic' if sub.all() else 'supersonic' if not sub.any() else 'both regimes')


# ------------------------------------------------------------------ aircraft and their static derivatives

surface = record(x=rng(-4., 30.), ac=rng(.2, 3.), s=rng(2., 80.), ar=rng(1.5, 14.), taper=rng(.1, 1.), sweep=rng(-5., 40.), eta=rng(.6, 1.),
                 twist=st.tuples(rng(-6., 6.), rng(-6., 6.)), al0=st.one_of(st.none(), rng(-.1, .1)), cmac=st.one_of(st.none(), rng(-.1, .02)))
fuselage = record(w=rng(1., 6.), length=rng(8., 50.), h=rng(1., 6.), s=rng(10., 150.), h1=rng(1., 5.), h2=rng(.7, 5.), hw=rng(1., 5.))
point = record(mach=rng(.1, .9), alt=rng(0., 12000.), alpha=rng(-5., 12.), fuel=rng(0., 1.), cd=rng(.015, .08), cl=rng(.1, 1.2), cdw=rng(.003, .02))
inertias = st.tuples(logrng(1e3, 1e6), logrng(1e3, 1e6), logrng(1e3, 1e6), rng(-.05, .05))
finned = surface.flatmap(lambda s: rng(18., 40.).map(lambda x: dict(s, x=x)))
planes = record(main=surface, tail=surface, vert=st.one_of(st.none(), finned, finned, finned), canard=st.one_of(st.none(), surface), fus=st.one_of(st.none(), fuselage, fuselage, fuselage),
                cg=rng(5., 25.), z=rng(-2., 2.), zf=rng(-2., 2.), fuel_x=st.tuples(rng(5., 20.), rng(-1., 3.)), mzf=logrng(500., 1e5), fuel=rng(.01, .6), dihedral=rng(-3., 8.),
                inertia=st.one_of(st.none(), inertias, inertias),
                                pts=vec(point, 1, 4), pick=st.integers(0, 3), dcg=rng(.05, 2.), k=rng(.2, 5.))


def wing(tag, p, k=1., dtwist=0.):
    w = Wings.Main_Wing() if tag == 'main_wing' else Wings.Vertical_Tail() if tag == 'vertical_stabilizer' else Wings.Horizontal_Tail()
    w.tag = tag
    w.areas.reference = p['s'] * k ** 2
    w.aspect_ratio = p['ar']
    w.spans.projected = math.sqrt(p['ar'] * p['s']) * k
    w.taper = p['taper']
    w.chords.root = 2 * p['s'] / (math.sqrt(p['ar'] * p['s']) * (1 + p['taper'])) * k
    w.chords.tip = w.chords.root * p['taper']
    w.chords.mean_aerodynamic = 2. / 3. * w.chords.root * (1 + p['taper'] + p['taper'] ** 2) / (1 + p['taper'])
    w.sweeps.quarter_chord = p['sweep'] * DEG
    w.origin = [[p['x'] * k, 0., 0.]]
    w.aerodynamic_center = [p['ac'] * k, 0., 0.]
    w.dynamic_pressure_ratio = p['eta']
    w.twists.root = p['twist'][0] * DEG + dtwist
    w.twists.tip = p['twist'][1] * DEG + dtwist
    w.symmetric = tag != 'vertical_stabilizer'
    w.vertical = tag == 'vertical_stabilizer'
    if p['al0'] is not None or p['cmac'] is not None:
        w.Airfoil = Data()
        if p['al0'] is not None:
            w.Airfoil.zero_angle_lift_coefficient = p['al0']
        if p['cmac'] is not None:
            w.Airfoil.zero_angle_moment_coefficient = p['cmac']
    return w


TAGS = {'main': 'main_wing', 'tail': 'horizontal_stabilizer', 'vert': 'vertical_stabilizer', 'canard': 'canard'}


def plane(c, k=1., dcg=0., dtwist=None, inertia=None):
    v = SUAVE.Vehicle()
    for key in ('main', 'tail', 'vert', 'canard'):
        if c[key] is not None:
            w = wing(TAGS[key], c[key], k, dtwist[1] if dtwist and dtwist[0] == key else 0.)
            if key == 'main':
                w.dihedral = c['dihedral'] * DEG
            if key == 'vert':
                w.exposed_root_chord_offset = 0.
            v.append_component(w)
    v.reference_area = c['main']['s'] * k ** 2
    if c['fus'] is not None:
        f = SUAVE.Components.Fuselages.Fuselage()
        f.tag = 'fuselage'
        q = c['fus']
        f.width = q['w'] * k
        f.lengths.total = q['length'] * k
        f.heights.maximum = q['h'] * k
        f.areas.side_projected = q['s'] * k ** 2
        f.heights.at_quarter_length = q['h1'] * k
        f.heights.at_three_quarters_length = q['h2'] * k
        f.heights.at_wing_root_quarter_chord = q['hw'] * k
        v.append_component(f)
    v.mass_properties.center_of_gravity = np.array([[c['cg'] * k + dcg, 0., c['z'] * k]])
    v.mass_properties.zero_fuel_center_of_gravity = np.array([[c['cg'] * k + dcg, 0., c['z'] * k]])
    v.mass_properties.max_zero_fuel = c['mzf']
    I = c['inertia'] if inertia is None else inertia
    if I is not None:
        t = np.diag(I[:3])
        t[0, 2] = t[2, 0] = I[3] * min(I[0], I[2])
        v.mass_properties.moments_of_inertia.tensor = t
    v.fuel = SUAVE.Components.Physical_Component()
    v.fuel.origin = [[c['fuel_x'][0] * k + dcg, 0., 0.]]
    v.fuel.mass_properties.center_of_gravity = np.array([[c['fuel_x'][1] * k, 0., 0.]])
    return v


from lib.refatm import std


def conditions(c, pts):
    n = len(pts)
    col = lambda f: np.array([f(p) for p in pts]).reshape(n, 1)
    q = Data()
    q.freestream = Data()
    q.freestream.mach_number = col(lambda p: p['mach'])
    q.freestream.velocity = col(lambda p: p['mach'] * std(p['alt'])['a'])
    q.freestream.density = col(lambda p: std(p['alt'])['rho'])
    q.freestream.dynamic_viscosity = col(lambda p: std(p['alt'])['mu'])
    q.freestream.dynamic_pressure = .5 * q.freestream.density * q.freestream.velocity ** 2
    q.freestream.gravity = col(lambda p: 9.81)
    q.aerodynamics = Data()
    q.aerodynamics.angle_of_attack = col(lambda p: p['alpha'] * DEG)
    q.aerodynamics.drag_coefficient = col(lambda p: p['cd'])
    q.aerodynamics.lift_coefficient = col(lambda p: p['cl'])
    q.aerodynamics.drag_breakdown = Data()
    q.aerodynamics.drag_breakdown.parasite = Data()
    q.aerodynamics.drag_breakdown.parasite['main_wing'] = Data()
    q.aerodynamics.drag_breakdown.parasite['main_wing'].parasite_drag_coefficient = col(lambda p: p['cdw'])
    q.weights = Data()
    q.weights.total_mass = col(lambda p: c['mzf'] * (1 + c['fuel'] * p['fuel']))
    return q


def stability(c, pts=None, **kw):
    v = plane(c, **kw)
    a = Fidelity_Zero()
    a.geometry = v
    a.finalize()
    q = conditions(c, c['pts'] if pts is None else pts)
    return a(q), v, q


def static_ref(c, p, i, v, r, ctx):
    """Moments about the centre of gravity, added up surface by surface."""
    S, mac = c['main']['s'], v.wings.main_wing.chords.mean_aerodynamic
    b = v.wings.main_wing.spans.projected
    mf = c['mzf'] * c['fuel'] * p['fuel']
    cg = (c['cg'] * c['mzf'] + (c['fuel_x'][0] + c['fuel_x'][1]) * mf) / (c['mzf'] + mf)
    cma = cm0 = 0.
    size = 0.
    for key in ('main', 'tail', 'vert', 'canard'):
        s = c[key]
        if s is None:
            continue
        w = v.wings[TAGS[key]]
        # the planform the vertical tail is given is the whole surface: nothing is added for a carry-through
        a = slope_ref(s['ar'], s['taper'], s['sweep'] * DEG, p['mach'])
        close(float(np.ravel(w.CL_alpha)[i]), a, rtol=1e-9, what='lift curve slope of %s' % key)
        if s['cmac'] is not None:
            cm0 += s['cmac']
        if key == 'vert':
            continue
        arm = s['x'] + s['ac'] - cg
        lift = a * s['eta'] * (1 - float(np.ravel(w.ep_alpha)[i])) * s['s'] / S
        inc = (s['twist'][0] * DEG + s['taper'] * s['twist'][1] * DEG) / 2. - (s['al0'] or 0.)
        cma -= lift * arm / mac
        cm0 -= lift * inc * arm / mac
        size += abs(lift * arm / mac)
    if c['fus'] is not None:
        f = c['fus']
        m = c['main']
        root = v.wings.main_wing.chords.root
        x = m['x'] + .5 * f['w'] * math.tan(m['sweep'] * DEG) + .25 * root * (1 - f['w'] / b * (1 - m['taper']))
        pos = x / f['length']
        body = (1.5012 * pos ** 2 + .538 * pos + .0331) * f['w'] ** 2 * f['length'] / (S * mac)
        cma += body
        size += body
    close(r.static.Cm_alpha[i, 0], cma, rtol=1e-8, atol=1e-9 * size, what='pitching moment slope')
    close(r.static.Cm0[i, 0], cm0, rtol=1e-8, atol=1e-9 * (size + .1), what='pitching moment at zero angle of attack')
    close(r.static.CM[i, 0], cma * p['alpha'] * DEG + cm0, rtol=1e-8, atol=1e-9 * (size + .1), what='pitching moment')
    a = slope_ref(c['main']['ar'], c['main']['taper'], c['main']['sweep'] * DEG, p['mach'])
    close(r.static.static_margin[i, 0], -cma / a, rtol=1e-8, atol=1e-9 * size, what='static margin')
    close(r.static.neutral_point[i, 0], cg + mac * (-cma / a), rtol=1e-8, atol=1e-8 * (abs(cg) + mac * size), what='neutral point')
    if c['vert'] is not None:
        s = c['vert']
        M, Vel, A = p['mach'], p['mach'] * std(p['alt'])['a'], std(p['alt'])
        zw = 0.
        cn = 0.
        if c['fus'] is not None:
            f = c['fus']
            Re = A['rho'] * Vel * f['length'] / A['mu']
            k1 = 3.2413 * c['cg'] / f['length'] - .663345 + 6.1086 * math.exp(-.22 * f['length'] ** 2 / f['s'])
            t = math.sqrt(f['h1'] / f['h2'])
            k2 = (-.2023 + 1.3422 * t - .1454 * t * t) * k1
            u = f['h'] / f['w']
            k3 = .787 + .1038 * u + .1834 * u * u - 2.811 * math.exp(-4 * u)
            KN = (-.47899 + k3 * k2) * .001
            KR = 1 + .8 * math.log(Re / 1e6) / math.log(50.)
            cn -= 57.3 * KN * KR * f['s'] * f['length'] / (S * b)
            bv = math.sqrt(s['ar'] * s['s'])
            ratio = bv / f['hw']
            kv = .76 if ratio < 2 else .76 + .24 * (ratio - 2) / 1.5 if ratio < 3.5 else 1.
            side = .724 + 3.06 * (s['s'] / S) / (1 + math.cos(c['main']['sweep'] * DEG)) + .009 * c['main']['ar']
            cy = -kv * slope_ref(s['ar'], s['taper'], s['sweep'] * DEG, M) * side * s['s'] / S
            fin = -cy * (s['x'] + s['ac'] - c['cg']) / b
            cn += fin
            close(r.static.Cn_beta[i, 0], cn, rtol=1e-7, atol=1e-9 * (abs(fin) + abs(cn - fin)), what='yawing moment slope')
            ctx.label('yawing moment')


def usable(c):
    if c['vert'] is not None and c['fus'] is None:
        c = dict(c, vert=None)
    if c['inertia'] is not None and c['vert'] is None:
        c = dict(c, inertia=None)
    return c


def check_static(c, ctx):
    c = usable(c)
    n = len(c['pts'])
    r, v, q = stability(c)
    for nm in ('Cm_alpha', 'Cm0', 'CM', 'static_margin', 'neutral_point', 'Cn_beta'):
        same_shape(r.static[nm], (n, 1), what=nm)
    for i, p in enumerate(c['pts']):
        static_ref(c, p, i, v, r, ctx)
    # every control point on its own
    j = c['pick'] % n
    one, _, _ = stability(c, [c['pts'][j]])
    for nm in ('Cm_alpha', 'Cm0', 'CM', 'static_margin', 'neutral_point', 'Cn_beta'):
        close(one.static[nm][0, 0], r.static[nm][j, 0], rtol=1e-11, atol=1e-13, what='%s of one control point alone' % nm)
    # the same aircraft drawn to another scale, at the same Mach number
    big, _, _ = stability(c, k=c['k'])
    for nm in ('Cm_alpha', 'Cm0', 'CM', 'static_margin'):
        close(big.static[nm], r.static[nm], rtol=1e-8, atol=1e-9 * (1 + np.abs(r.static.Cm_alpha).max()), what='%s of a scaled aircraft' % nm)
    close(big.static.neutral_point / c['k'], r.static.neutral_point, rtol=1e-8, atol=1e-8 * (20 + np.abs(r.static.Cm_alpha).max()), what='neutral point of a scaled aircraft')
    # moving everything that has mass aft: the slope grows by the normal force slope over the chord
    aft, _, _ = stability(c, dcg=c['dcg'])
    require((aft.static.Cm_alpha - r.static.Cm_alpha > -1e-12).all() or (lift_sum(c, v, n) < 0).any(), 'moving the centre of gravity aft made the aircraft more stable')
    close(aft.static.Cm_alpha - r.static.Cm_alpha, lift_sum(c, v, n) * c['dcg'] / v.wings.main_wing.chords.mean_aerodynamic, rtol=1e-6, atol=1e-8 * (1 + np.abs(r.static.Cm_alpha).max()),
          what='change of the moment slope with the centre of gravity')
    # the tail set at a larger incidence turns the nose the same way as a larger angle of attack does to it
    if c['tail']['taper'] == 1.:
        d = .01
        up, _, _ = stability(c, dtwist=('tail', d))
        s = c['tail']
        eff = np.ravel(v.wings.horizontal_stabilizer.CL_alpha * (1 - v.wings.horizontal_stabilizer.ep_alpha)).reshape(n, 1) * s['eta'] * s['s'] / c['main']['s']
        arm = r.static.neutral_point - v.wings.main_wing.chords.mean_aerodynamic * r.static.static_margin
        close(up.static.CM - r.static.CM, -d * eff * (s['x'] + s['ac'] - arm) / v.wings.main_wing.chords.mean_aerodynamic, rtol=1e-6, atol=1e-8 * (1 + np.abs(r.static.CM).max()),
              what='change of the moment with the incidence of the tail')
    ctx.hit(n > 1 or c['canard'] is not None)
    ctx.label('canard' if c['canard'] else 'conventional')
    ctx.label('fuselage' if c['fus'] else 'no fuselage')
    if c['inertia'] is not None:
        check_derived(c, r, v, q, ctx)


def lift_sum(c, v, n):
    tot = np.zeros((n, 1))
    for key in ('main', 'tail', 'canard'):
        if c[key] is not None:
            w = v.wings[TAGS[key]]
            tot = tot + np.reshape(w.CL_alpha * (1 - w.ep_alpha), (n, 1)) * c[key]['eta'] * c[key]['s'] / c['main']['s']
    return tot


def check_derived(c, r, v, q, ctx):
    """Rate derivatives and approximate modes the analysis reports for a vehicle with inertia."""
    I = v.mass_properties.moments_of_inertia.tensor
    b, mac, S = v.wings.main_wing.spans.projected, v.wings.main_wing.chords.mean_aerodynamic, v.reference_area
    lam = c['main']['taper']
    xm = c['main']['x'] + c['main']['ac']
    for i, p in enumerate(c['pts']):
        A = std(p['alt'])
        V, rho = p['mach'] * A['a'], A['rho']
        qq = .5 * rho * V * V
        a = slope_ref(c['main']['ar'], lam, c['main']['sweep'] * DEG, p['mach'])
        g = lambda x: float(np.broadcast_to(np.asarray(x, dtype=float).reshape(-1, 1), (len(c['pts']), 1))[i, 0])
        # strip theory for a straight tapered wing rolling about its middle
        y = (np.arange(4000) + .5) / 4000.
        ch = 1 - y * (1 - lam)
        clp = -a * float(np.mean(y * y * ch) / np.mean(ch)) / 2.
        close(g(r.static.Cl_p), clp, rtol=1e-5, what='roll damping against strip theory')
        close(g(r.static.Cl_beta), clp * c['dihedral'] * DEG * (1 + 2 * lam) / (1 + 3 * lam), rtol=1e-5, atol=1e-12, what='dihedral effect')
        lv = c['vert']['x'] + c['vert']['ac'] - xm
        av = slope_ref(c['vert']['ar'], c['vert']['taper'], c['vert']['sweep'] * DEG, p['mach'])
        cnr = -p['cdw'] / 4. - 2 * c['vert']['s'] / c['main']['s'] * (lv / b) ** 2 * av * c['vert']['eta']
        close(g(r.static.Cn_r), cnr, rtol=1e-8, what='yaw damping')
        lt = c['tail']['x'] + c['tail']['ac'] - xm
        cmq = -2.2 * (lt / mac) ** 2 * c['tail']['s'] / c['main']['s'] * a
        close(g(r.static.Cm_q), cmq, rtol=1e-8, atol=1e-14, what='pitch damping')
        close(g(r.static.Cz_alpha), -p['cd'] - a, rtol=1e-9, what='normal force slope')
        # dutch roll: a weathercock with yaw damping
        cnb = g(r.static.Cn_beta)
        if cnb > 1e-6:
            ev = np.linalg.eigvals(np.array([[0., 1.], [-qq * S * b * cnb / I[2, 2], qq * S * b * cnr * b / (2 * V) / I[2, 2]]]))
            w = math.sqrt(abs(ev[0] * ev[1]))
            close(g(r.dynamic.dutchRollFreqHz), w, rtol=1e-7, what='dutch roll frequency')
            close(g(r.dynamic.dutchRollDamping), -(ev[0] + ev[1]).real / (2 * w), rtol=1e-7, what='dutch roll damping')
            ctx.label('weathercock stable')
        close(g(r.dynamic.rollSubsistenceTimeConstant), 1. / (qq * S * b * clp * b / (2 * V) / I[0, 0]), rtol=1e-5, what='roll time constant')
        m = float(q.weights.total_mass[i, 0])
        cma, cmad = g(r.static.Cm_alpha), g(r.static.Cm_alpha_dot)
        sp = short_matrix(V, rho, S, mac, cmq, -p['cd'] - a, m, cma, I[1, 1], cmad)
        if np.linalg.det(sp) > 1e-9 * abs(sp).max() ** 2:
            w = math.sqrt(np.linalg.det(sp))
            close(g(r.dynamic.shortPeriodFreqHz), w, rtol=1e-6, what='short period frequency')
            close(g(r.dynamic.shortPeriodDamp), -np.trace(sp) / (2 * w), rtol=1e-6, atol=1e-9, what='short period damping')
            ctx.label('short period')
        close(g(r.dynamic.phugoidFreqHz), math.sqrt(2.) * 9.81 / V, rtol=1e-9, what='phugoid frequency')
        close(g(r.dynamic.phugoidDamp), p['cd'] / p['cl'] / math.sqrt(2.), rtol=1e-9, what='phugoid damping')
    ctx.label('with inertia')


def short_matrix(V, rho, S, c, cmq, cza, m, cma, Iy, cmad):
    q = .5 * rho * V * V
    za = q * S * cza / (m * V)
    mq, ma, mad = q * S * c * cmq * c / (2 * V) / Iy, q * S * c * cma / Iy, q * S * c * cmad * c / (2 * V) / Iy
    return np.array([[za, 1.], [ma + mad * za, mq + mad]])


# ------------------------------------------------------------------ approximate modes

modes = record(V=rng(20., 300.), rho=rng(.1, 1.3), S=logrng(1., 500.), ar=rng(3., 20.), m=logrng(5., 4e5), kx=rng(.05, .4), ky=rng(.3, 3.), kz=rng(.08, .5), CL=rng(.1, 1.5), CD=rng(.005, .2),
               a=rng(2., 6.5), cma=rng(.05, 3.), cmq=rng(1., 40.), cmad=rng(0., 12.), cnb=rng(.01, .3), cnr=rng(.02, .5), clp=rng(.1, .7), clb=rng(-.3, .1), clr=rng(.02, .4), cyp=rng(.1, 1.5),
               cnp=rng(-.15, .1), cyb=rng(-1.5, -.05), j=rng(-.1, .1), czq=rng(0., 8.), czad=rng(0., 2.), theta=rng(-10., 10.), n=st.integers(1, 3))


def check_modes(c, ctx):
    V, rho, S = c['V'], c['rho'], c['S']
    b = math.sqrt(c['ar'] * S)
    mac = S / b
    q = .5 * rho * V * V
    Ix, Iy, Iz = c['m'] * (c['kx'] * b) ** 2, c['m'] * (c['ky'] * mac) ** 2, c['m'] * (c['kz'] * b) ** 2
    f = b / (2 * V)
    d = dutch_roll(V, c['cnb'], S, rho, b, Iz, -c['cnr'])
    M = np.array([[0., 1.], [-q * S * b * c['cnb'] / Iz, -q * S * b * c['cnr'] * f / Iz]])
    close(d.natural_frequency, math.sqrt(np.linalg.det(M)), rtol=1e-9, what='dutch roll frequency')
    close(d.damping_ratio, -np.trace(M) / (2 * math.sqrt(np.linalg.det(M))), rtol=1e-9, what='dutch roll damping')
    close(roll(Ix, S, rho, V, b, -c['clp']), 1 / (-q * S * b * c['clp'] * f / Ix), rtol=1e-9, what='roll time constant')
    s = short_period(V, rho, S, mac, -c['cmq'], -c['a'] - c['CD'], c['m'], -c['cma'], Iy, -c['cmad'])
    M = short_matrix(V, rho, S, mac, -c['cmq'], -c['a'] - c['CD'], c['m'], -c['cma'], Iy, -c['cmad'])
    w = math.sqrt(np.linalg.det(M))
    close(s.natural_frequency, w, rtol=1e-9, what='short period frequency')
    close(s.damping_ratio, -np.trace(M) / (2 * w), rtol=1e-9, what='short period damping')
    p = phugoid(9.81, V, c['CD'], c['CL'])
    # speed and path angle trade energy at constant angle of attack
    M = np.array([[-2 * 9.81 * c['CD'] / c['CL'] / V, -9.81], [2 * 9.81 / V ** 2, 0.]])
    close(p.natural_frequency, math.sqrt(np.linalg.det(M)), rtol=1e-9, what='phugoid frequency')
    close(p.damping_ratio, -np.trace(M) / (2 * math.sqrt(np.linalg.det(M))), rtol=1e-9, what='phugoid damping')
    # spiral: roll and yaw in moment balance while the bank angle drifts
    lhs = np.array([[-c['clp'] * f, c['clr'] * f, c['clb']], [0., -c['cnr'] * f, c['cnb']], [0., 1., 0.]])
    sol = np.linalg.solve(lhs, [0., 0., q * S * c['cyp'] / (c['m'] * V)])
    drift = (c['clb'] * -c['cnr'] - c['cnb'] * c['clr'])
    if abs(drift) > 1e-6:
        tau = spiral(c['m'], V, rho, S, -c['clp'], c['cnb'], c['cyp'], c['clb'], -c['cnr'], c['clr'])
        close(1. / tau, sol[0], rtol=1e-7, what='rate of the spiral mode')
        require((tau < 0) == (drift > 0), 'spiral time constant %g while Clb Cnr - Cnb Clr is %g', tau, drift)
    # arrays give what their elements give
    k = np.arange(1, c['n'] + 1.).reshape(-1, 1)
    arr = dutch_roll(V * k, c['cnb'] / k, S, rho / k, b, Iz, -c['cnr'] * k)
    for i in range(c['n']):
        u = float(k[i, 0])
        close(arr.natural_frequency[i, 0], dutch_roll(V * u, c['cnb'] / u, S, rho / u, b, Iz, -c['cnr'] * u).natural_frequency, rtol=1e-12, what='dutch roll of one point alone')
    ctx.hit(drift < 0 or c['n'] > 1)
    ctx.label('spiral stable' if drift > 0 else 'spiral unstable')


# ------------------------------------------------------------------ full linear equations

def lateral_matrix(V, cnb, S, rho, b, Iz, cnr, Ix, clp, J, clr, clb, cnp, cyf, cyb, m):
    """beta, p, r, phi"""
    q = .5 * rho * V * V * S
    f = b / (2 * V)
    I = np.array([[Ix, -J], [-J, Iz]])
    L = q * b * np.array([[clb, clp * f, clr * f, 0.], [cnb, cnp * f, cnr * f, 0.]])
    X = np.linalg.solve(I, L)
    return np.array([[q * cyb / (m * V), 0., -1., q * cyf / (m * V)], X[0], X[1], [0., 1., 0., 0.]])


def check_full(c, ctx):
    V, rho, S = c['V'], c['rho'], c['S']
    b = math.sqrt(c['ar'] * S)
    mac = S / b
    q = .5 * rho * V * V
    Ix, Iy, Iz = c['m'] * (c['kx'] * b) ** 2, c['m'] * (c['ky'] * mac) ** 2, c['m'] * (c['kz'] * b) ** 2
    J = c['j'] * Ix
    ev = np.linalg.eigvals(lateral_matrix(V, c['cnb'], S, rho, b, Iz, -c['cnr'], Ix, -c['clp'], J, c['clr'], c['clb'], c['cnp'], c['CL'], c['cyb'], c['m']))
    cplx = ev[np.abs(ev.imag) > 1e-3 * np.abs(ev)]
    real = ev[np.abs(ev.imag) <= 1e-3 * np.abs(ev)].real
    done = False
    if len(cplx) == 2 and len(real) == 2 and min(abs(real)) > 1e-5 * max(abs(ev)) and abs(real[0] - real[1]) > 1e-2 * max(abs(real)):
        r = lateral_directional(V, c['cnb'], S, rho, b, Iz, -c['cnr'], Ix, -c['clp'], J, c['clr'], c['clb'], c['cnp'], c['CL'], 0., c['cyb'], c['m'])
        w = abs(cplx[0])
        close(r.dutch_natural_frequency, w, rtol=1e-5, what='dutch roll frequency of the full equations')
        close(r.dutch_damping_ratio, -cplx[0].real / w, rtol=1e-5, atol=1e-6, what='dutch roll damping of the full equations')
        real = sorted(real, key=abs)
        close(r.spiral_tau, 1. / real[0], rtol=1e-5, what='spiral time constant of the full equations')
        close(r.roll_tau, 1. / real[1], rtol=1e-5, what='roll time constant of the full equations')
        done = True
        ctx.label('spiral unstable' if real[0] > 0 else 'spiral stable')
        ctx.label('dutch roll damped' if cplx[0].real < 0 else 'dutch roll growing')
    # pitch: speed, angle of attack, pitch
    th = c['theta'] * DEG
    mv = c['m'] * V / (S * q)
    f = mac / (2 * V)
    cza, cxu, cxa, czu = -c['a'] - c['CD'], -2 * c['CD'], c['CL'] * (1 - 2 * c['a'] / (math.pi * c['ar'] * .8)), -2 * c['CL']
    cw = -c['CL']
    # E(s) x = 0 with x = (u, alpha, theta): first and second order coefficients
    A2 = np.zeros((3, 3))
    A2[2, 2] = Iy / (S * q * mac)
    A1 = np.array([[mv, 0., 0.], [0., mv + f * c['czad'], -mv + f * c['czq']], [0., f * c['cmad'], f * c['cmq']]])
    A0 = np.array([[-cxu, -cxa, -cw * math.cos(th)], [-czu, -cza, -cw * math.sin(th)], [0., c['cma'], 0.]])
    # companion form in (u, alpha, theta, theta')
    E = np.zeros((4, 4))
    E[:3, :2] = A1[:, :2]
    E[:3, 3] = A2[:, 2]
    E[3, 2] = 1.
    F = np.zeros((4, 4))
    F[:3, :2] = -A0[:, :2]
    F[:3, 2] = -A0[:, 2]
    F[:3, 3] = -A1[:, 2]
    F[3, 3] = 1.
    ev = np.linalg.eigvals(np.linalg.solve(E, F))
    up = sorted(ev[ev.imag > 1e-2 * np.abs(ev)], key=abs)
    if len(up) == 2 and abs(up[1]) > 10 * abs(up[0]):
        r = longitudinal(V, rho, S, mac, -c['cmq'], cza, c['m'], -c['cma'], Iy, -c['cmad'], czu, -c['czad'], -c['czq'], cw, th, cxu, cxa)
        # one step of Lin's method: exact in the limit of well separated modes
        e = 4. * abs(up[0] / up[1])
        close(r.short_natural_frequency, abs(up[1]), rtol=.02 * e + 1e-9, what='short period frequency of the full equations')
        close(r.short_damping_ratio, -up[1].real / abs(up[1]), atol=.02 * e, what='short period damping of the full equations')
        close(r.phugoid_natural_frequency, abs(up[0]), rtol=.15 * e, what='phugoid frequency of the full equations')
        close(r.phugoid_damping_ratio, -up[0].real / abs(up[0]), atol=.15 * e, what='phugoid damping of the full equations')
        ctx.label('two oscillations')
        done = True
    ctx.hit(done)


# ------------------------------------------------------------------ state space modes from a table of derivatives

craft = record(base=modes, alpha=vec(rng(-3., 12.), 1, 3), cmu=rng(-.1, .1), ixz=rng(-.15, .15), tail=st.tuples(rng(1., 6.), rng(2., 10.)), e=rng(.7, 1.), mach=rng(.1, .8), iy=rng(1.05, 3.),
               takeoff=st.booleans())


def check_state_space(c, ctx):
    B = c['base']
    n = len(c['alpha'])
    S, ar = B['S'], B['ar']
    b = math.sqrt(ar * S)
    mac = S / b
    Ix, Iz = B['m'] * (B['kx'] * b) ** 2, B['m'] * (B['kz'] * b) ** 2
    Iy = Ix * c['iy']
    Ixz = c['ixz'] * min(Ix, Iz)
    v = SUAVE.Vehicle()
    for tag, s, x, a in (('main_wing', S, 0., ar), ('horizontal_stabilizer', .2 * S, c['tail'][0] * mac, c['tail'][1])):
        w = Wings.Main_Wing() if tag == 'main_wing' else Wings.Horizontal_Tail()
        w.tag = tag
        w.areas.reference = s
        w.aspect_ratio = a
        w.taper = 1.
        w.sweeps.quarter_chord = 0.
        w.origin = [[x, 0., 0.]]
        w.aerodynamic_center = [0., 0., 0.]
        w.chords.mean_aerodynamic = math.sqrt(s / a)
        v.append_component(w)
    v.mass_properties.moments_of_inertia.tensor = np.array([[Ix, 0., Ixz], [0., Iy, 0.], [Ixz, 0., Iz]])
    if c['takeoff']:
        v.mass_properties.mass, v.mass_properties.max_takeoff = 0., B['m']
    else:
        v.mass_properties.mass, v.mass_properties.max_takeoff = B['m'], 0.
    k = np.arange(n).reshape(-1, 1)
    fac = 1. + .13 * k
    col = lambda x: x * np.ones((n, 1))
    V, rho, g = B['V'] * fac, col(B['rho']), col(9.81)
    fc = Data()
    fc.freestream = Data()
    fc.freestream.gravity, fc.freestream.mach_number, fc.freestream.velocity, fc.freestream.density = g, col(c['mach']), V, rho
    r = Data()
    r.b_ref, r.c_ref, r.S_ref = col(b), col(mac), col(S)
    r.aerodynamics = Data()
    r.aerodynamics.AoA = np.array(c['alpha']).reshape(n, 1)
    r.aerodynamics.lift_coefficient = B['CL'] / fac ** 2
    r.aerodynamics.drag_coefficient = col(B['CD'])
    r.aerodynamics.oswald_efficiency = col(c['e'])
    r.stability = Data()
    r.stability.dynamic = Data()
    s = r.stability.static = Data()
    s.CL_alpha, s.Cm_alpha, s.Cm_q, s.CL_q = col(B['a']), -B['cma'] * fac, col(-B['cmq']), col(B['czq'])
    s.CX_u, s.CZ_u, s.Cm_u = col(-2 * B['CD']), -.1 * fac, c['cmu'] * fac
    s.CY_beta, s.CY_p, s.CY_r = col(B['cyb']), .1 * fac, col(.2)
    s.Cl_beta, s.Cl_p, s.Cl_r = col(B['clb']), -B['clp'] * fac, col(B['clr'])
    s.Cn_beta, s.Cn_p, s.Cn_r = col(B['cnb']), col(B['cnp']), -B['cnr'] * fac
    got = compute_dynamic_flight_modes(r, v, fc, []).dynamic_stability
    lon, lat = got.LongModes, got.LatModes
    for x, nm in ((lon.phugoidFreqHz, 'phugoid frequency'), (lat.dutchRollFreqHz, 'dutch roll frequency'), (lat.spiralDamping, 'spiral damping')):
        same_shape(x, (n, 1), what=nm)
    at = slope_ref(c['tail'][1], 1., 0., c['mach'])
    eps = 2 * at / math.pi / c['tail'][1]
    pmax = []
    for i in range(n):
        al = c['alpha'][i] * DEG
        f = float(fac[i, 0])
        u, ro, CL, CD = B['V'] * f, B['rho'], B['CL'] / f ** 2, B['CD']
        m, gg = B['m'], 9.81
        q = .5 * ro * u * u * S
        W = m * gg
        # longitudinal: forces from the derivative table, motion from Newton's law (speed, plunge, pitch rate, pitch angle)
        cma = -B['cma'] * f
        cmad, czad = 2 * cma * eps * c['tail'][0] * mac / mac, 2 * cma * eps
        h = mac / (2 * u)
        X = [q / u * (-2 * CD) + 2 * W * math.sin(al) / u, q / u * (CL - 2 * CL / (math.pi * ar * c['e']) * B['a'])]
        Z = [q / u * (-.1 * f) - 2 * W * math.cos(al) / u, q / u * (-CD - B['a']), q * h * -B['czq']]
        Mo = [q * mac / u * c['cmu'] * f, q * mac / u * cma, q * mac * h * -B['cmq']]
        Zwd, Mwd = q * h / u * czad, q * mac * h / u * cmad
        E = np.array([[m, 0., 0., 0.], [0., m - Zwd, 0., 0.], [0., -Mwd, Iy, 0.], [0., 0., 0., 1.]])
        F = np.array([[X[0], X[1], 0., -W * math.cos(al)], [Z[0], Z[1], Z[2] + m * u, -W * math.sin(al)], [Mo[0], Mo[1], Mo[2], 0.], [0., 0., 1., 0.]])
        ref = np.linalg.eigvals(np.linalg.solve(E, F))
        spectrum(lon.LongModes[i], ref, 'longitudinal eigenvalues')
        up = sorted(ref[ref.imag > 1e-3 * np.abs(ref)], key=abs)
        if len(up) == 2 and abs(up[1]) > 3 * abs(up[0]):
            for z, nm, key in ((up[0], 'phugoid', 'phugoid'), (up[1], 'short period', 'shortPeriod')):
                close(lon[key + 'FreqHz'][i, 0], abs(z) / (2 * math.pi), rtol=1e-5, what=nm + ' frequency')
                close(lon[key + 'Damp'][i, 0], -z.real / abs(z), rtol=1e-4, atol=1e-5, what=nm + ' damping')
                if abs(z.real) > 1e-3 * abs(z):
                    close(lon[key + 'TimeDoubleHalf'][i, 0], math.log(2) / abs(z.real), rtol=1e-3, what=nm + ' time to double or half')
            ctx.label('phugoid and short period')
        # lateral: inertia about the stability axes (x along the flight path)
        R = np.array([[math.cos(al), math.sin(al)], [-math.sin(al), math.cos(al)]])
        I2 = R @ np.array([[Ix, Ixz], [Ixz, Iz]]) @ R.T
        h = b / (2 * u)
        E = np.zeros((4, 4))
        E[0, 0], E[3, 3] = m, 1.
        E[1:3, 1:3] = I2
        F = np.array([[q / u * B['cyb'], q * h * .1 * f, q * h * .2 - m * u, W * math.cos(al)],
                      [q * b / u * B['clb'], -q * b * h * B['clp'] * f, q * b * h * B['clr'], 0.],
                      [q * b / u * B['cnb'], q * b * h * B['cnp'], -q * b * h * B['cnr'] * f, 0.],
                      [0., 1., math.tan(al), 0.]])
        ref = np.linalg.eigvals(np.linalg.solve(E, F))
        spectrum(lat.LatModes[i], ref, 'lateral eigenvalues')
        cp = ref[np.abs(ref.imag) > 1e-4 * np.abs(ref)]
        re = sorted(ref[np.abs(ref.imag) <= 1e-4 * np.abs(ref)].real, key=abs)
        if len(cp) == 2 and len(re) == 2 and abs(re[1]) > 1.05 * abs(re[0]) and abs(re[0]) > 1e-7 * abs(re[1]):
            close(lat.dutchRollFreqHz[i, 0], abs(cp[0]) / (2 * math.pi), rtol=1e-5, what='dutch roll frequency')
            close(lat.dutchRollDamping[i, 0], -cp[0].real / abs(cp[0]), rtol=1e-4, atol=1e-5, what='dutch roll damping')
            close(lat.rollSubsistenceTimeConstant[i, 0], -1. / re[1], rtol=1e-4, what='roll time constant')
            close(lat.spiralFreqHz[i, 0], abs(re[0]) / (2 * math.pi), rtol=1e-4, what='spiral frequency')
            require(lat.spiralDamping[i, 0] == -np.sign(re[0]), 'spiral damping %g for the eigenvalue %g', lat.spiralDamping[i, 0], re[0])
            close(lat.spiralTimeDoubleHalf[i, 0], math.log(2) / abs(re[0]), rtol=1e-4, what='spiral time to double or half')
            ctx.label('one dutch roll')
            ctx.hit(n > 1 or c['ixz'] != 0)
        if Iz > Ix:
            pmax.append(math.sqrt(q * mac * B['cma'] * f / (Iz - Ix)))
        else:
            pmax.append(float('nan'))
        pmax.append(math.sqrt(q * b * B['cnb'] / (Iy - Ix)))
    if not any(math.isnan(x) for x in pmax):
        close(got.pMax, min(pmax), rtol=1e-6, what='largest roll rate before inertial coupling')


def spectrum(got, ref, what):
    got = list(got)
    size = max(abs(ref))
    for z in ref:
        j = min(range(len(got)), key=lambda k: abs(got[k] - z))
        # nearly equal eigenvalues are ill conditioned: tolerance on the scale of the spectrum
        require(abs(got[j] - z) <= 1e-6 * size + 1e-5 * abs(z) or near_double(ref, z), '%s: %r not among %r', what, z, got)
        got.pop(j)


def near_double(ref, z):
    d = sorted(abs(x - z) for x in ref)
    return d[1] < 1e-3 * max(abs(ref))


# ------------------------------------------------------------------ recorded findings

def probe_downwash():
    c = dict(main=dict(x=10., ac=1., s=50., ar=9., taper=.5, sweep=20., eta=1., twist=(0., 0.), al0=None, cmac=None), vert=None, canard=None, fus=None, cg=10., z=0., zf=0., fuel_x=(10., 0.),
             mzf=1e4, fuel=.1, dihedral=0., inertia=None, pts=[dict(mach=.5, alt=5000., alpha=2., fuel=.5, cd=.03, cl=.4, cdw=.01)], k=1., dcg=0.)
    c['tail'] = dict(c['main'], x=25., s=12., ar=4.)
    r, v, q = stability(c)
    return bool(abs(v.wings.main_wing.ep_alpha[0, 0]) > .05)


PROPERTY = Property(
    'C25',
    [
        Sub('slope', slopes, check_slope, quick=250, thorough=6000, rule='several control points, or an effective aspect ratio is given'),
        Sub('static', planes, check_static, quick=120, thorough=3000, rule='several control points or a canard'),
        Sub('modes', modes, check_modes, quick=250, thorough=6000, rule='unstable spiral or several points'),
        Sub('full', modes, check_full, quick=250, thorough=6000, rule='the modes separate into the named ones'),
        Sub('state_space', craft, check_state_space, quick=150, thorough=4000, rule='a named dutch roll, with several cases or a product of inertia'),
    ],
    rule='see the rules of the parts',
    assumptions=['linear aerodynamics; subsonic and supersonic Mach numbers away from one'],
    probes={'own-downwash': probe_downwash})

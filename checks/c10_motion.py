"""C10: a converged segment obeys the equations of motion and burns what its engines burn.

Oracle: forces of a closed-form aeroplane recomputed from the reported attitude, speed, throttle, density and mass;
acceleration by differentiating the polynomial through the reported velocities; mass by integrating the fuel flow."""
import math
import numpy as np
from hypothesis import strategies as st
import SUAVE
from lib import plane, segs
from lib.refatm import std
from lib.prop import Property, Sub, require, close, same_shape, finite, monotone, fail, Discard
from lib.strat import record, rng

DEG = math.pi / 180
S = segs.S


def kinematics(c):
    v = c.frames.inertial.velocity_vector
    V = np.linalg.norm(v, axis=1)
    return V, np.arctan2(-v[:, 2], v[:, 0]), np.ravel(c.frames.inertial.time)


def clipped(par, alpha, CLmax):
    p = dict(plane.STANDARD, **par)
    CL = p['CL0'] + p['CLa'] * alpha
    CD = p['CD0'] + p['K'] * CL ** 2
    return np.clip(CL, -CLmax, CLmax), CD


def forces(par, c, dT, CLmax=np.inf, grav=None):
    p = dict(plane.STANDARD, **par)
    V, gam, t = kinematics(c)
    at = std(np.ravel(c.freestream.altitude), dT)
    th = c.frames.body.inertial_rotations[:, 1]
    alpha = np.arctan2(np.sin(th - gam), np.cos(th - gam))
    q = .5 * at['rho'] * V ** 2
    CL, CD = clipped(par, alpha, CLmax)
    L, D = q * p['S'] * CL, q * p['S'] * CD
    T = plane.thrust(par, c.propulsion.throttle[:, 0], at['rho'])
    m = c.weights.total_mass[:, 0]
    a = th + p['tilt']
    Fx = T * np.cos(a) - L * np.sin(gam) - D * np.cos(gam)
    Fz = -T * np.sin(a) - L * np.cos(gam) + D * np.sin(gam) + m * at['g']
    return Fx, Fz, dict(L=L, D=D, T=T, m=m, alpha=alpha, CL=CL, CD=CD, t=t, g=at['g'], V=V)


def burn(par, c, ctx, m0):
    """Mass is the initial mass less the integral of the fuel flow."""
    p = dict(plane.STANDARD, **par)
    t = np.ravel(c.frames.inertial.time)
    rho = np.ravel(c.freestream.density)
    T = plane.thrust(par, c.propulsion.throttle[:, 0], rho)
    ex = p.get('extra') or 0.
    used, slack = segs.integral(t, p['sfc'] * T + ex)
    m = c.weights.total_mass[:, 0]
    require(m[0] == m0, 'the segment starts at %r kg instead of %r', m[0], m0)
    close(m0 - m, used, rtol=1e-6, atol=1e-9 * m0 + slack, what='fuel burned')
    if ex:
        a, s2 = segs.integral(t, np.full(len(t), ex))
        close(-(c.weights.additional_fuel_mass[:, 0] - c.weights.additional_fuel_mass[0, 0]), a, rtol=1e-6, atol=1e-9 * m0 + s2, what='additional fuel')
        f, s2 = segs.integral(t, p['sfc'] * T)
        close(-(c.weights.fuel_mass[:, 0] - c.weights.fuel_mass[0, 0]), f, rtol=1e-6, atol=1e-9 * m0 + s2, what='fuel')
    close(c.frames.inertial.gravity_force_vector[:, 2], m * std(np.ravel(c.freestream.altitude), 0)['g'], rtol=2e-5, what='weight')


def total(par, c, dT, CLmax=np.inf):
    Fx, Fz, d = forces(par, c, dT, CLmax)
    F = c.frames.inertial.total_force_vector
    s = float(np.max(d['m'] * d['g']))
    close(F[:, 0], Fx, rtol=2e-5, atol=3e-5 * s, what='longitudinal force')
    close(F[:, 2], Fz, rtol=2e-5, atol=3e-5 * s, what='vertical force')
    close(F[:, 1], 0 * Fx, atol=1e-6 * s, what='lateral force')
    close(c.aerodynamics.angle_of_attack[:, 0], d['alpha'], atol=1e-7, what='angle of attack')
    close(c.aerodynamics.lift_coefficient[:, 0], d['CL'], atol=1e-6, what='lift coefficient')
    close(-c.frames.wind.lift_force_vector[:, 2], d['L'], rtol=2e-5, atol=1e-5 * s, what='lift')
    close(-c.frames.wind.drag_force_vector[:, 0], d['D'], rtol=2e-5, atol=1e-5 * s, what='drag')
    return Fx, Fz, d


def par_of(case):
    return dict(m=case['mass'], tilt=case['tilt'], lapse=case['lapse'], CD0=case['CD0'], **(dict(extra=case['extra']) if case['extra'] else {}))


def check_balance(case, ctx):
    par = par_of(case)
    spec, p, seg = segs.build(case, an=plane.analyses(par))
    seg.analyses.aerodynamics.settings.maximum_lift_coefficient = case['CLmax']
    mis = segs.mission(seg)
    s = segs.quiet(mis.evaluate).segments[0]
    c = s.conditions
    if not s.converged and np.any(np.abs(c.frames.body.inertial_rotations[:, 1]) > 1.):
        ctx.label('diverged')
        raise Discard()
    Fx, Fz, d = total(par, c, case['dT'], case['CLmax'])
    burn(par, c, ctx, case['mass'])
    if not s.converged:
        ctx.label('not converged')
        ctx.hit('clipped') if np.any(np.abs(d['CL']) >= case['CLmax']) else None
        return
    if spec.level:
        ax, az = np.full(case['N'], spec.accel(p) if spec.accel else 0.), np.zeros(case['N'])
    else:
        ax = segs.polyfit(d['t'], c.frames.inertial.velocity_vector[:, 0])[1]
        az = segs.polyfit(d['t'], c.frames.inertial.velocity_vector[:, 2])[1]
    close(Fx / d['m'], ax, rtol=1e-4, atol=3e-4, what='longitudinal equation of motion')
    close(Fz / d['m'], az, rtol=1e-4, atol=3e-4, what='vertical equation of motion')
    if np.all(np.abs(d['CL']) < case['CLmax']) and (case['tilt'] or case['extra'] or case['dT'] or np.max(np.abs(ax)) > .02):
        ctx.hit(spec.name)


def check_iterate(case, ctx):
    """One pass of a segment's process at attitudes and throttles nobody has solved for."""
    par = par_of(case)
    spec, p, seg = segs.build(case, an=plane.analyses(par))
    seg.analyses.aerodynamics.settings.maximum_lift_coefficient = case['CLmax']
    segs.quiet(seg.process.initialize, seg)
    n = case['N']
    th = np.array((case['theta'] * n)[:n])
    u = seg.state.unknowns
    u.body_angle[:, 0] = th
    if 'throttle' not in u.keys():
        raise Discard()
    u.throttle[:, 0] = np.array((case['throttle'] * n)[:n])
    for again in range(2):
        segs.quiet(seg.process.iterate, seg)
    c = seg.state.conditions
    close(c.propulsion.throttle[:, 0], u.throttle[:, 0], what='throttle')
    close(c.frames.body.inertial_rotations[:, 1], th, what='attitude')
    Fx, Fz, d = total(par, c, case['dT'], case['CLmax'])
    burn(par, c, ctx, case['mass'])
    if spec.level:
        ax, az = np.full(n, spec.accel(p) if spec.accel else 0.), np.zeros(n)
    else:
        ax = segs.polyfit(d['t'], c.frames.inertial.velocity_vector[:, 0])[1]
        az = segs.polyfit(d['t'], c.frames.inertial.velocity_vector[:, 2])[1]
    r = seg.state.residuals.forces
    # zero residual exactly where the equations of motion hold
    x, z = Fx / d['m'] - ax, Fz / d['m'] - az
    close(np.abs(r[:, 0]), np.abs(x), rtol=1e-4, atol=1e-3, what='longitudinal residual')
    close(np.abs(r[:, 1]), np.abs(z), rtol=1e-4, atol=1e-3, what='vertical residual')
    lo, hi = np.any(d['CL'] == -case['CLmax']), np.any(d['CL'] == case['CLmax'])
    if lo or hi:
        ctx.hit(*((['stalled'] if hi else []) + (['stalled inverted'] if lo else [])))


def check_ground(case, ctx):
    par = dict(m=case['mass'], CL0=case['CL0'], landing=case['mass'] * .8)
    if case['kind'] == 'takeoff':
        seg = S.Ground.Takeoff()
        seg.velocity_start, seg.velocity_end = case['v0'], case['v0'] + case['dv']
        seg.throttle = case['throttle']
    else:
        seg = S.Ground.Landing()
        seg.velocity_start, seg.velocity_end = case['v0'] + case['dv'], case['v0']
        seg.throttle = 0.
    seg.tag = 'roll'
    seg.friction_coefficient = case['mu']
    seg.altitude = case['altitude']
    seg.temperature_deviation = case['dT']
    seg.state.numerics.number_control_points = case['N']
    seg.analyses.extend(plane.analyses(par))
    p = dict(plane.STANDARD, **par)
    at = std(np.array([case['altitude']]), case['dT'])
    push = (plane.thrust(par, seg.throttle, at['rho'][0]) / case['mass'] - case['mu'] * 9.8)
    seg.state.unknowns.time = max(5., min(300., (seg.velocity_end - seg.velocity_start) / push if push else 300.))
    s = segs.quiet(segs.mission(seg).evaluate).segments[0]
    if not s.converged:
        raise Discard()
    c = s.conditions
    if np.any(c.frames.inertial.velocity_vector[:, 0] < 0) or c.frames.inertial.time[-1, 0] <= 0 or c.frames.inertial.time[-1, 0] > 1e3:
        ctx.label('another root')      # the discrete equations also have roots no aeroplane could fly
        raise Discard()
    Fx, Fz, d = forces(par, c, case['dT'])
    N = d['m'] * d['g'] - d['L']
    if np.any(N <= 0):
        raise Discard()      # the aeroplane would have left the ground
    v0, v1 = seg.velocity_start or .01, seg.velocity_end or .01
    v = c.frames.inertial.velocity_vector
    close(v[0, 0], v0, what='speed at the start of the roll')
    close(v[-1, 0], v1, rtol=1e-6, atol=1e-6, what='speed at the end of the roll')
    require(np.all(v[:, 1:] == 0), 'the aeroplane leaves the ground')
    close(c.freestream.altitude[:, 0], np.full(case['N'], case['altitude']), atol=1e-9, what='altitude')
    a = segs.polyfit(d['t'], v[:, 0])[1]
    close(((Fx - case['mu'] * N) / d['m'])[1:], a[1:], rtol=1e-4, atol=1e-3, what='acceleration along the runway')
    close(-c.frames.inertial.ground_force_vector[:, 2], N, rtol=2e-5, what='normal force')
    require(c.frames.inertial.time[-1, 0] > 0, 'the roll takes %r s', c.frames.inertial.time[-1, 0])
    dist, slack = segs.integral(d['t'], v[:, 0])
    close(c.frames.inertial.aircraft_range[:, 0], dist, rtol=1e-7, atol=slack + 1e-6, what='ground roll')
    if case['kind'] == 'takeoff':
        burn(par, c, ctx, case['mass'])
    ctx.hit(case['kind'])


def check_point(case, ctx):
    par = dict(m=case['mass'], tilt=case['tilt'])
    k = case['kind']
    if k == 'altitude':
        seg = S.Single_Point.Set_Speed_Set_Altitude()
        seg.x_accel = case['ax']
    elif k == 'throttle':
        seg = S.Single_Point.Set_Speed_Set_Throttle()
        seg.throttle = case['throttle']
    else:
        seg = S.Single_Point.Set_Speed_Set_Altitude_No_Propulsion()
    seg.tag = 'point'
    seg.z_accel = case['az']
    seg.altitude = case['altitude']
    seg.air_speed = case['V']
    seg.temperature_deviation = case['dT']
    seg.analyses.extend(plane.analyses(par))
    s = segs.quiet(segs.mission(seg).evaluate).segments[0]
    if not s.converged:
        raise Discard()
    c = s.conditions
    V, gam, t = kinematics(c)
    close(V, [case['V']], what='speed')
    p = dict(plane.STANDARD, **par)
    at = std(np.array([case['altitude']]), case['dT'])
    th = c.frames.body.inertial_rotations[:, 1]
    q = .5 * at['rho'] * V ** 2 * p['S']
    CL = p['CL0'] + p['CLa'] * th
    T = plane.thrust(par, c.propulsion.throttle[:, 0], at['rho']) if k != 'glide' else 0.
    m = case['mass']
    close(c.weights.total_mass[:, 0], [m], what='mass')
    Fz = -T * np.sin(th + p['tilt']) - q * CL + m * at['g']
    close(Fz / m, [case['az']], rtol=1e-4, atol=1e-4, what='vertical equation of motion')
    if k != 'glide':
        Fx = T * np.cos(th + p['tilt']) - q * (p['CD0'] + p['K'] * CL ** 2)
        if k == 'altitude':
            close(Fx / m, [case['ax']], rtol=1e-4, atol=1e-4, what='longitudinal equation of motion')
        else:
            close(c.propulsion.throttle[0, 0], case['throttle'], what='throttle')
            close(Fx / m, np.ravel(s.state.unknowns.x_accel), rtol=1e-4, atol=1e-4, what='longitudinal acceleration found')
    ctx.hit(k)


def check_hover(case, ctx):
    par = dict(m=case['mass'], tilt=math.pi / 2, Tmax=2.5e6)
    k = case['kind']
    seg = {'hover': S.Hover.Hover, 'up': S.Hover.Climb, 'down': S.Hover.Descent}[k]()
    if k == 'hover':
        seg.altitude, seg.time = case['h'], case['t']
    elif k == 'up':
        seg.altitude_start, seg.altitude_end, seg.climb_rate = case['h'], case['h'] + case['dh'], case['rate']
    else:
        seg.altitude_start, seg.altitude_end, seg.descent_rate = case['h'] + case['dh'], case['h'], case['rate']
    seg.tag = 'segment'
    seg.temperature_deviation = case['dT']
    seg.state.numerics.number_control_points = case['N']
    seg.analyses.extend(plane.analyses(par))
    s = segs.quiet(segs.mission(seg).evaluate).segments[0]
    if not s.converged:
        raise Discard()
    c = s.conditions
    # documented: hover segments carry no aerodynamic forces
    T = plane.thrust(par, c.propulsion.throttle[:, 0], std(np.ravel(c.freestream.altitude), case['dT'])['rho'])
    m = c.weights.total_mass[:, 0]
    close(T / m, std(np.ravel(c.freestream.altitude), 0)['g'], rtol=1e-5, what='thrust carries the weight')
    burn(par, c, ctx, case['mass'])
    ctx.hit(k)


def check_throttled(case, ctx):
    """Fixed throttle: the climb or the acceleration follows from the thrust available."""
    par = dict(m=case['mass'], lapse=case['lapse'])
    if case['kind'] == 'climb':
        seg = S.Climb.Constant_Throttle_Constant_Speed()
        kw = dict(altitude_start=case['h'], altitude_end=case['h'] + case['dh'], air_speed=case['V'], throttle=case['throttle'])
    else:
        seg = S.Cruise.Constant_Throttle_Constant_Altitude()
        kw = dict(altitude=case['h'], air_speed_start=case['V'], air_speed_end=case['V'] + case['dv'], throttle=case['throttle'])
    seg.tag = 'segment'
    for a, b in kw.items():
        setattr(seg, a, b)
    seg.temperature_deviation = case['dT']
    seg.state.numerics.number_control_points = case['N']
    seg.analyses.extend(plane.analyses(par))
    if case['kind'] != 'climb':
        p = dict(plane.STANDARD, **par)
        at = std(np.array([case['h']]), case['dT'])
        q = .5 * at['rho'][0] * case['V'] ** 2 * p['S']
        ax = (plane.thrust(par, case['throttle'], at['rho'][0]) - q * (p['CD0'] + p['K'] * (case['mass'] * 9.8 / q) ** 2)) / case['mass']
        seg.state.unknowns.time = max(5., min(300., case['dv'] / ax if ax else 300.))
    s = segs.quiet(segs.mission(seg).evaluate).segments[0]
    if not s.converged:
        raise Discard()
    c = s.conditions
    if np.any(c.frames.inertial.velocity_vector[:, 0] < 0) or c.frames.inertial.time[-1, 0] <= 0:
        ctx.label('another root')
        raise Discard()
    Fx, Fz, d = total(par, c, case['dT'])
    if case['kind'] == 'climb':
        ax = segs.polyfit(d['t'], c.frames.inertial.velocity_vector[:, 0])[1]
        az = segs.polyfit(d['t'], c.frames.inertial.velocity_vector[:, 2])[1]
        close(Fx / d['m'], ax, rtol=1e-4, atol=1e-3, what='longitudinal equation of motion')
        close(Fz / d['m'], az, rtol=1e-4, atol=1e-3, what='vertical equation of motion')
    else:
        close(Fz / d['m'], 0 * Fz, atol=1e-3, what='vertical equation of motion')
        dv, slack = segs.integral(d['t'], Fx / d['m'])
        close(c.frames.inertial.velocity_vector[:, 0] - case['V'], dv, rtol=1e-4, atol=1e-2 + slack, what='speed gained')
    burn(par, c, ctx, case['mass'])
    ctx.hit(case['kind'])


mass = rng(3.5e4, 6e4)
dT = rng(-25, 25, [0])
N = st.integers(3, 7)
SUBS = [
    Sub('balance', segs.strategy(extra=dict(tilt=rng(-.1, .1, [0]), lapse=rng(0, 1), CD0=rng(.01, .04), extra=st.sampled_from([0, 0, .5, 2.]), CLmax=st.sampled_from([1e9, 1e9, .4, 1.5]))), check_balance, quick=400,
        rule='converged, with a tilted thrust, extra fuel flow, non-standard day or acceleration'),
    Sub('iterate', segs.strategy(extra=dict(tilt=rng(-.1, .1, [0]), lapse=rng(0, 1), CD0=rng(.01, .04), extra=st.sampled_from([0, .5]), CLmax=rng(.2, 1.6), theta=st.lists(rng(-.5, .5), min_size=1, max_size=8), throttle=st.lists(rng(0, 1.5, [0]), min_size=1, max_size=8))),
        check_iterate, quick=300, rule='the lift coefficient is limited somewhere'),
    Sub('ground', record(kind=st.sampled_from(['takeoff', 'landing']), mass=mass, v0=rng(0, 20, [0]), dv=rng(25, 70), throttle=rng(.3, 1), mu=rng(.01, .4), altitude=rng(0, 3000, [0]), CL0=rng(-.2, .6), dT=dT, N=N),
        check_ground, quick=160, rule='every converged case that stays on the ground'),
    Sub('point', record(kind=st.sampled_from(['altitude', 'throttle', 'glide']), mass=mass, tilt=rng(-.1, .1, [0]), ax=rng(-1, 1, [0]), az=rng(-2, 2, [0]), V=rng(120, 230), altitude=rng(0, 10000), throttle=rng(.1, .9), dT=dT),
        check_point, quick=240, rule='every converged case'),
    Sub('hover', record(kind=st.sampled_from(['hover', 'up', 'down']), mass=mass, h=rng(0, 3000), dh=rng(20, 800), rate=rng(.5, 4), t=rng(10, 600), dT=dT, N=N), check_hover, quick=120, rule='every converged case'),
    Sub('throttled', record(kind=st.sampled_from(['climb', 'accelerate']), mass=mass, lapse=rng(0, 1), h=rng(0, 8000), dh=rng(300, 1500), V=rng(120, 190), dv=rng(5, 40), throttle=rng(.4, 1), dT=dT, N=N), check_throttled, quick=120, rule='every converged case'),
]
PROPERTY = Property('C10', SUBS, rule='Every segment type flown by a closed-form aeroplane with random mass, polar, thrust line, thrust lapse and fuel flow. Non-trivial as stated per sub-check.',
                    assumptions=['wings level, no sideslip', 'on the ground only cases with lift below weight', 'equations of motion are asserted for segments the solver reports as converged, bookkeeping of forces and mass for all'])

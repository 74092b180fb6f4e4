"""C09: a segment flies the profile it is named after.

Oracle: definitions of Mach, calibrated/equivalent airspeed, dynamic pressure, climb rate and angle, evaluated on an
independent standard atmosphere; integration by fitting the polynomial through the control points."""
import math
import numpy as np
from hypothesis import strategies as st
import SUAVE
from lib import plane, segs
from lib.refatm import std
from lib.prop import Property, Sub, require, close, same_shape, finite, monotone, fail, Discard
from lib.strat import record, rng

DEG = math.pi / 180
RE = 6.371e6


def flown(spec, p, seg, ctx):
    mis = segs.mission(seg)
    res = segs.quiet(mis.evaluate)
    if spec.twice:
        res = segs.quiet(mis.evaluate)
    s = res.segments[0]
    return s, s.conditions


def freestream(c, dT):
    h = np.ravel(c.freestream.altitude)
    at = std(h, dT)
    V = np.linalg.norm(c.frames.inertial.velocity_vector, axis=1)
    for k, w in (('pressure', at['p']), ('temperature', at['T']), ('density', at['rho']), ('speed_of_sound', at['a']), ('dynamic_viscosity', at['mu']), ('gravity', at['g']),
                 ('velocity', V), ('mach_number', V / at['a']), ('dynamic_pressure', .5 * at['rho'] * V ** 2), ('reynolds_number', at['rho'] * V / at['mu'])):
        close(np.ravel(c.freestream[k]), w, rtol=2e-5, atol=1e-12, what='freestream ' + k)
    close(-c.frames.inertial.position_vector[:, 2], h, rtol=1e-9, atol=1e-6, what='altitude of the position')
    return at


def check_profile(case, ctx):
    spec, p, seg = segs.build(case)
    s, c = flown(spec, p, seg, ctx)
    n = case['N']
    h = np.ravel(c.freestream.altitude)
    t = np.ravel(c.frames.inertial.time)
    same_shape(c.freestream.altitude, (n, 1), 'altitude')
    vel = c.frames.inertial.velocity_vector
    at = freestream(c, case['dT'])
    V = np.linalg.norm(vel, axis=1)
    if spec.level:
        close(h, np.full(n, p['altitude']), rtol=1e-9, atol=1e-6, what='altitude')
        x = (t - t[0]) / (t[-1] - t[0])
    else:
        if not s.converged:
            # profiles whose altitudes are unknowns are only what they promise once solved
            ctx.label('not converged')
            if 'altitudes' in s.state.unknowns.keys():
                raise Discard()
        close([h[0], h[-1]], [p['h0'], p['h1']], rtol=1e-6, atol=0.1, what='start and end altitude')
        monotone(h if p['h1'] > p['h0'] else h[::-1], strict=True, what='altitude')
        x = (h - p['h0']) / (p['h1'] - p['h0'])
    want = spec.speed(p, at, x)
    close(V, want, rtol=max(spec.rtol, 2e-5), what='true airspeed')
    g = spec.gamma(p, V)
    close(vel[:, 0], V * np.cos(g), rtol=2e-5, what='horizontal speed')
    close(-vel[:, 2], V * np.sin(g), rtol=1e-4, atol=1e-9, what='rate of climb')
    require(np.all(vel[:, 1] == 0), 'lateral velocity %r', vel[:, 1].tolist())
    # elapsed time
    require(t[0] == 0., 'the first segment starts at t=%r', t[0])
    monotone(t, strict=True, what='time')
    if spec.level:
        close(t[-1], spec.time(p, V), rtol=1e-9, what='duration')
    else:
        hh = np.linspace(p['h0'], p['h1'], 801)
        a2 = std(hh, case['dT'])
        v2 = spec.speed(p, a2, (hh - p['h0']) / (p['h1'] - p['h0']))
        if spec.name.endswith('_Angle') and not spec.name.endswith('Speed_Constant_Angle'):
            tol = 1.5e-2 if n == 3 else 4e-3
        else:
            tol = 5e-3 if 'CAS' in spec.name else 1e-4
        if max(p['h0'], p['h1']) > 10900:   # the tropopause is a kink the polynomial cannot follow
            tol = max(tol * 2, 3e-3)
        rocs = v2 * np.sin(spec.gamma(p, v2))
        want = abs(np.trapz(1 / rocs, hh))
        close(t[-1], want, rtol=tol if n > 3 else max(tol, 3e-3), what='time to climb')
    # distance flown, ground track
    R = np.ravel(c.frames.inertial.aircraft_range)
    dist, slack = segs.integral(t, vel[:, 0])
    close(R, dist, rtol=1e-7, atol=1e-7 * abs(dist[-1]) + slack, what='distance flown')
    if spec.level and 'distance' in p:
        close(R[-1], p['distance'], rtol=1e-6, what='distance of the segment')
    psi = case['course'] * DEG
    close(c.frames.inertial.position_vector[:, 0], R * math.cos(psi), rtol=1e-6, atol=1e-6 * R[-1], what='northward position')
    close(c.frames.inertial.position_vector[:, 1], R * math.sin(psi), rtol=1e-6, atol=1e-6 * R[-1], what='eastward position')
    if case['dT'] != 0 or case['course'] != 0:
        ctx.hit(spec.name)


def check_planet(case, ctx):
    """Latitude and longitude follow the course over the sphere."""
    spec, p, seg = segs.build(case)
    seg.latitude, seg.longitude = case['lat'], case['lon']
    s, c = flown(spec, p, seg, ctx)
    t = np.ravel(c.frames.inertial.time)
    h = np.ravel(c.freestream.altitude)
    psi = case['course'] * DEG
    Vh = c.frames.inertial.velocity_vector[:, 0]
    lat, s1 = segs.integral(t, Vh / (RE + h) * math.cos(psi))
    lat = case['lat'] + lat / DEG
    lon, s2 = segs.integral(t, Vh / (RE + h) * math.sin(psi) / np.cos(lat * DEG))
    close(np.ravel(c.frames.planet.latitude), lat, rtol=1e-6, atol=1e-6 + s1 / DEG, what='latitude')
    close(np.ravel(c.frames.planet.longitude), case['lon'] + lon / DEG, rtol=1e-5, atol=1e-5 + (s1 + s2) * 3 / DEG, what='longitude')
    if abs(case['lat']) > 5 and abs(math.sin(psi)) > .1:
        ctx.hit(spec.name)


def check_misc(case, ctx):
    """Hover, single points, pitch-rate and constant-throttle segments."""
    k = case['kind']
    S = segs.S
    u, w = case['u'], case['w']
    n = case['N']
    par = dict(m=case['mass'])
    kw = {}
    alt = 200 + 6000 * u
    if k.startswith('hover'):
        par.update(tilt=math.pi / 2, Tmax=2.5e6)
        seg = {'hover': S.Hover.Hover, 'hover_up': S.Hover.Climb, 'hover_down': S.Hover.Descent}[k]()
        if k == 'hover':
            kw = dict(altitude=alt, time=5 + 300 * w)
        elif k == 'hover_up':
            kw = dict(altitude_start=alt, altitude_end=alt + 10 + 500 * w, climb_rate=.5 + 4 * w)
        else:
            kw = dict(altitude_start=alt + 10 + 500 * w, altitude_end=alt, descent_rate=.5 + 4 * w)
    elif k == 'pitch_rate':
        seg = S.Transition.Constant_Acceleration_Constant_Pitchrate_Constant_Altitude()
        one = seg.state.ones_row
        seg.state.unknowns.throttle = .4 * one(1)
        seg.state.residuals.forces = one(2) * 0.
        seg.process.iterate.unknowns.mission = lambda s: s.state.conditions.propulsion.throttle.__setitem__((slice(None), 0), s.state.unknowns.throttle[:, 0])
        seg.process.converge.converge_root = lambda s: s.process.iterate(s)
        kw = dict(altitude=alt, air_speed_start=100 + 50 * u, air_speed_end=160 + 50 * w, acceleration=.2 + w, pitch_initial=.2 * w, pitch_final=.2 * (1 - u))
    elif k == 'point':
        seg = S.Single_Point.Set_Speed_Set_Altitude()
        n = 1
        kw = dict(altitude=alt, air_speed=130 + 90 * w)
    elif k == 'point_throttle':
        seg = S.Single_Point.Set_Speed_Set_Throttle()
        n = 1
        kw = dict(altitude=alt, air_speed=130 + 90 * w, throttle=.1 + .5 * u)
    elif k == 'throttle_climb':
        seg = S.Climb.Constant_Throttle_Constant_Speed()
        kw = dict(altitude_start=alt, altitude_end=alt + 500 + 1000 * w, air_speed=150 + 50 * u, throttle=.4 + .5 * w)
    elif k == 'throttle_accel':
        seg = S.Cruise.Constant_Throttle_Constant_Altitude()
        kw = dict(altitude=alt, air_speed_start=130 + 20 * u, air_speed_end=155 + 30 * w, throttle=.7 + .3 * w)
    seg.tag = 'segment'
    for a, b in kw.items():
        setattr(seg, a, b)
    seg.temperature_deviation = case['dT']
    seg.true_course = case['course'] * DEG
    seg.state.numerics.number_control_points = n
    seg.analyses.extend(plane.analyses(par))
    m = segs.mission(seg)
    for again in range(1 + case['again']):
        s = segs.quiet(m.evaluate).segments[0]
    c = s.conditions
    at = freestream(c, case['dT'])
    t = np.ravel(c.frames.inertial.time)
    t = t - t[0]
    h = np.ravel(c.freestream.altitude)
    vel = c.frames.inertial.velocity_vector
    x = (1 - np.cos(np.pi * np.arange(n) / max(1, n - 1))) / 2
    if k == 'hover':
        close(t, kw['time'] * x, rtol=1e-9, atol=1e-9, what='time')
        require(np.all(vel == 0), 'a hovering aircraft moves: %r', vel.tolist())
        close(h, np.full(n, kw['altitude']), what='altitude')
    elif k in ('hover_up', 'hover_down'):
        r = kw.get('climb_rate') or -kw['descent_rate']
        close(-vel[:, 2], np.full(n, r), what='rate of climb')
        require(np.all(vel[:, :2] == 0), 'horizontal speed in a vertical segment')
        close(h, kw['altitude_start'] + r * t, rtol=1e-9, atol=1e-6, what='altitude')
        close(h[-1], kw['altitude_end'], what='end altitude')
    elif k == 'pitch_rate':
        dt = (kw['air_speed_end'] - kw['air_speed_start']) / kw['acceleration']
        close(t, dt * x, rtol=1e-9, atol=1e-9, what='time')
        close(vel[:, 0], kw['air_speed_start'] + kw['acceleration'] * t, what='speed')
        close(c.frames.body.inertial_rotations[:, 1], kw['pitch_initial'] + (kw['pitch_final'] - kw['pitch_initial']) * t / dt, rtol=1e-7, atol=1e-9, what='pitch')
    elif k.startswith('point'):
        close(vel[0], [kw['air_speed'], 0, 0], what='velocity')
        close(h[0], kw['altitude'], what='altitude')
        if k == 'point_throttle':
            close(c.propulsion.throttle[0, 0], kw['throttle'], what='throttle')
    else:
        if not s.converged:
            raise Discard()
        close(c.propulsion.throttle[:, 0], np.full(n, kw['throttle']), what='throttle')
        if k == 'throttle_climb':
            close(np.linalg.norm(vel, axis=1), np.full(n, kw['air_speed']), rtol=1e-6, what='speed')
            close([h[0], h[-1]], [kw['altitude_start'], kw['altitude_end']], rtol=1e-6, atol=1e-3, what='altitudes')
            dh, slack = segs.integral(t, -vel[:, 2])
            close(h - h[0], dh, rtol=1e-6, atol=1e-6 * (h[-1] - h[0]) + slack, what='altitude gained')
        else:
            close([vel[0, 0], vel[-1, 0]], [kw['air_speed_start'], kw['air_speed_end']], rtol=1e-5, what='start and end speed')
    ctx.hit(k + (' again' if case['again'] else ''))


kinds = ['hover', 'hover_up', 'hover_down', 'pitch_rate', 'point', 'point_throttle', 'throttle_climb', 'throttle_accel']


def dynamic_pressure_first_time():
    """Known finding: the first evaluation uses the sea-level density."""
    case = dict(kind='Cruise.Constant_Dynamic_Pressure_Constant_Altitude', N=4, course=0., dT=0., mass=5e4, p=dict(altitude=8000., q=1e4, distance=1e5))
    bad = []
    for kind, p in (('Cruise.Constant_Dynamic_Pressure_Constant_Altitude', dict(altitude=8000., q=1e4, distance=1e5)),
                    ('Cruise.Constant_Dynamic_Pressure_Constant_Altitude_Loiter', dict(altitude=8000., q=1e4, time=1e3)),
                    ('Climb.Constant_Dynamic_Pressure_Constant_Rate', dict(altitude_start=5000., dh=1000., q=1e4, rate=5.))):
        spec, p, seg = segs.build(dict(case, kind=kind, p=p))
        c = segs.quiet(segs.mission(seg).evaluate).segments[0].conditions
        if abs(c.freestream.dynamic_pressure[0, 0] / 1e4 - 1) > 1e-3:
            bad.append(kind)
    return bad


SUBS = [
    Sub('profile', segs.strategy(), check_profile, quick=500, rule='a temperature deviation or a course other than north'),
    Sub('planet', segs.strategy(extra=dict(lat=rng(-60, 60, [0]), lon=rng(-180, 180, [0]))), check_planet, quick=200, rule='start latitude beyond 5 degrees and a course with an eastward part'),
    Sub('special', record(kind=st.sampled_from(kinds), N=st.integers(3, 7), u=rng(0, 1), w=rng(0, 1), mass=rng(4e4, 6e4), dT=rng(-20, 20, [0]), course=rng(-180, 180, [0]), again=st.integers(0, 1)),
        check_misc, quick=250, rule='every case not discarded'),
]
PROPERTY = Property('C09', SUBS, rule='Every flight segment with random parameters, discretisations, non-standard days and courses, flown by a stand-in aeroplane through the public mission interface. Non-trivial as stated per sub-check.',
                    assumptions=['stand-in aerodynamics and propulsion (lib/plane.py); standard air and a spherical Earth', 'constant dynamic pressure segments are judged from their second evaluation, see the known finding'],
                    probes={'dynamic_pressure_first_time': dynamic_pressure_first_time})

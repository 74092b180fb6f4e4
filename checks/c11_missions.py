"""C11: a mission is one continuous flight.

Oracles: the previous segment's last point; the same segment flown alone from that point; the same mission cut short,
repeated, or shifted in time; the other way of solving the whole mission at once."""
import math
import numpy as np
from hypothesis import strategies as st
import SUAVE
from lib import plane, segs
from lib.prop import Property, Sub, require, close, same_shape, fail, Discard
from lib.strat import record, rng

DEG = math.pi / 180
FAMILY = [s.name for s in segs.TABLE if not s.twice]
leg = st.fixed_dictionaries(dict(kind=st.sampled_from(FAMILY), N=st.integers(3, 6), course=rng(-180, 180, [0, 90]), dT=st.one_of(st.just(0.), rng(-20, 20)), inherit=st.booleans(), u=st.lists(rng(0, 1), min_size=5, max_size=5)))
P = dict(Tmax=4e5, lapse=.5)


def params(spec, u, h):
    """Parameters of a leg that starts at altitude h, from numbers between 0 and 1."""
    u = list(u)
    out = {}
    lo = {'V': (150, 190), 'M': (.5, .6), 'M2': (.5, .6), 'dV': (5, 25), 'acc': (.1, .6), 'rate': (1, 5), 'angle': (.5, 2), 'q': (1e4, 1.3e4), 'distance': (3e4, 9e4), 'time': (60, 600)}
    for i, k in enumerate(k for k in spec.params if k not in ('altitude', 'altitude_start', 'dh')):
        a, b = lo[k]
        out[k] = a + (b - a) * u[i]
        if k == 'V' and ('CAS' in spec.name or 'EAS' in spec.name):
            out[k] = 115 + 25 * u[i]
    if spec.level:
        out['altitude'] = h
    else:
        d = 200 + 1300 * u[4]
        if spec.name.startswith('Descent'):
            d = min(d, h - 100)
            out['altitude_start'] = h - d
        else:
            out['altitude_start'] = h
        out['dh'] = d
    return out


def plan(case):
    """Segments and the altitudes they should start and end at."""
    h = case['h0']
    out = []
    for i, l in enumerate(case['legs']):
        spec = segs.BYNAME[l['kind']]
        if spec.name.startswith('Descent') and h < 500:
            spec = segs.BYNAME['Cruise.Constant_Speed_Constant_Altitude']
        if spec.name.startswith('Climb') and h > 9000:
            spec = segs.BYNAME['Cruise.Constant_Mach_Constant_Altitude']
        p = params(spec, l['u'], h)
        inherit = l['inherit'] and i > 0
        out.append((spec, p, l, inherit))
        f = segs.fill(spec, p)
        if not spec.level:
            h = f['h1']
    return out


def make(case, upto=None, start=0, mass=None):
    par = dict(P, m=mass if mass is not None else case['mass'])
    an = plane.analyses(par)
    out = []
    for i, (spec, p, l, inherit) in enumerate(plan(case)):
        if i < start or (upto is not None and i >= upto):
            continue
        c = dict(kind=spec.name, p=p, N=l['N'], course=l['course'], dT=l['dT'], mass=case['mass'], tag='leg %d' % i)
        _, _, seg = segs.build(c, an=an, start=not (inherit and i > start))
        if i == 0 and case['where']:
            seg.latitude, seg.longitude = case['where']
        out.append(seg)
    return out


def series(c):
    f = c.frames
    return dict(time=f.inertial.time[:, 0], mass=c.weights.total_mass[:, 0], range=f.inertial.aircraft_range[:, 0], x=f.inertial.position_vector[:, 0], y=f.inertial.position_vector[:, 1],
                z=f.inertial.position_vector[:, 2], lat=np.ravel(f.planet.latitude), lon=np.ravel(f.planet.longitude), vx=f.inertial.velocity_vector[:, 0], vz=f.inertial.velocity_vector[:, 2],
                theta=f.body.inertial_rotations[:, 1], throttle=c.propulsion.throttle[:, 0], altitude=c.freestream.altitude[:, 0], mach=c.freestream.mach_number[:, 0],
                CL=c.aerodynamics.lift_coefficient[:, 0], rate=c.weights.vehicle_mass_rate[:, 0])


SHIFTED = ('time', 'range', 'x', 'y', 'lat', 'lon')
SCALE = dict(time=1., mass=1., range=10., x=10., y=10., z=1., lat=1e-4, lon=1e-4, vx=.01, vz=.01, theta=1e-4, throttle=1e-3, altitude=1., mach=1e-4, CL=1e-3, rate=1e-3)


def fly(segments):
    res = segs.quiet(segs.mission(*segments).evaluate)
    out = []
    for s in res.segments:
        if not s.converged:
            raise Discard()
        out.append({k: np.array(v) for k, v in series(s.conditions).items()})
    return res, out


def check_sequence(case, ctx):
    pl = plan(case)
    m = make(case)
    res, legs = fly(m)
    require(len(legs) == len(pl), '%d of %d segments came back', len(legs), len(pl))
    close(legs[0]['mass'][0], case['mass'], what='takeoff mass')
    if case['where']:
        close([legs[0]['lat'][0], legs[0]['lon'][0]], case['where'], what='start of the mission')
    for i, (spec, p, l, inherit) in enumerate(pl):
        a = legs[i]
        f = segs.fill(spec, p)
        h0 = f['altitude'] if spec.level else f['h0']
        close(a['altitude'][0], h0, rtol=1e-6, atol=.2, what='leg %d: start altitude' % i)
        if i:
            b = legs[i - 1]
            for k in ('time', 'mass', 'range', 'x', 'y', 'lat', 'lon'):
                close(a[k][0], b[k][-1], rtol=1e-12, atol=1e-9, what='leg %d (%s) starts where leg %d ended: %s' % (i, spec.name, i - 1, k))
    # flying the first legs again on their own changes nothing: later legs do not reach back
    cut = 1 + case['cut'] % len(pl)
    _, head = fly(make(case, upto=cut))
    for i in range(cut):
        for k, v in head[i].items():
            close(legs[i][k], v, rtol=1e-9, atol=1e-9, what='leg %d altered by the legs after it: %s' % (i, k))
    # the last leg flown alone from the same mass
    k0 = len(pl) - 1
    if k0:
        _, alone = fly(make(case, start=k0, mass=float(legs[k0]['mass'][0])))
        for k, v in alone[0].items():
            w = legs[k0][k]
            if k in ('lat', 'lon'):
                continue
            if k in SHIFTED:
                v, w = v - v[0], w - w[0]
            close(w, v, rtol=2e-4, atol=2 * SCALE[k], what='leg %d alone and in the mission: %s' % (k0, k))
    # evaluating again gives the same flight
    res2 = segs.quiet(res.evaluate)
    for i, s in enumerate(res2.segments):
        if not s.converged:
            raise Discard()
        for k, v in series(s.conditions).items():
            close(v, legs[i][k], rtol=1e-5, atol=SCALE[k], what='second evaluation, leg %d: %s' % (i, k))
    if len(pl) > 2 and any(x[3] for x in pl):
        ctx.hit(*[x[0].name for x in pl[:2]])


def check_together(case, ctx):
    """Solving every segment at once gives the same flight as one after another."""
    case = dict(case, legs=case['legs'][:3], where=None)
    n = case['legs'][0]['N']
    for l in case['legs']:
        l['kind'] = ['Cruise.Constant_Speed_Constant_Altitude', 'Climb.Constant_Speed_Constant_Rate', 'Descent.Constant_Speed_Constant_Rate', 'Cruise.Constant_Mach_Constant_Altitude', 'Climb.Linear_Speed_Constant_Rate'][int(l['u'][3] * 4.99)]
    _, one = fly(make(case))
    m = SUAVE.Analyses.Mission.Variable_Range_Cruise.Given_Weight()
    for s in make(case):
        m.append_segment(s)
    lv = [i for i, x in enumerate(plan(case)) if x[0].level]
    if not lv:
        raise Discard()
    m.cruise_tag = list(m.segments.keys())[lv[0]]
    end = one[-1]['mass'][-1] * (1 - case['more'])
    m.target_landing_weight = end
    d0 = m.segments[m.cruise_tag].distance
    res = segs.quiet(m.evaluate)
    if not res.converged:
        raise Discard()
    out = [series(s.conditions) for s in res.segments]
    close(out[-1]['mass'][-1], end, rtol=1e-6, what='landing weight')
    got = res.segments[m.cruise_tag].distance
    got = float(np.ravel(got)[0])
    require((got > d0) == (case['more'] > 0) or abs(got - d0) < 1e-3 * d0, 'distance %r for %r less landing weight, was %r', got, case['more'], d0)
    for i in range(1, len(out)):
        for k in ('time', 'mass', 'range', 'x', 'y'):
            close(out[i][k][0], out[i - 1][k][-1], rtol=1e-9, atol=1e-6, what='leg %d starts where leg %d ended: %s' % (i, i - 1, k))
    # the same distance flown sequentially
    seq = make(case)
    seq[lv[0]].distance = got
    _, ref = fly(seq)
    for i in range(len(out)):
        for k, v in ref[i].items():
            close(out[i][k], v, rtol=3e-4, atol=5 * SCALE[k], what='leg %d at once and in turn: %s' % (i, k))
    ctx.hit()


def check_others(case, ctx):
    """Continuity through vertical, ground and fixed-throttle segments, which may take speed or altitude from the leg before."""
    S = segs.S
    vertical = case['kind'] == 'vertical'

    def chain():
        out = []
        h = case['h']
        if vertical:
            for i, (k, u) in enumerate(case['legs']):
                inherit = i > 0 and u < .5
                dh = 20 + 300 * u
                if k == 'hover':
                    seg = S.Hover.Hover()
                    seg.altitude, seg.time = h, 10 + 200 * u
                    if inherit:
                        seg.altitude = None
                else:
                    up = k == 'up' or h - dh < 10
                    seg = S.Hover.Climb() if up else S.Hover.Descent()
                    seg.altitude_start = None if inherit else h
                    h = h + dh if up else h - dh
                    seg.altitude_end = h
                    setattr(seg, 'climb_rate' if up else 'descent_rate', .5 + 2 * u)
                out.append((seg, h))
        else:
            seg = S.Ground.Takeoff()
            seg.velocity_start, seg.velocity_end, seg.throttle, seg.friction_coefficient, seg.altitude = 0., 75., 1., .03, case['h']
            seg.state.unknowns.time = 20.
            out.append((seg, h))
            seg = S.Climb.Constant_Speed_Constant_Rate()
            seg.air_speed, seg.climb_rate, seg.altitude_end = 140., 3., h + 800.
            out.append((seg, h + 800.))
            seg = S.Cruise.Constant_Throttle_Constant_Altitude()
            seg.air_speed_end, seg.throttle = 165., .8
            seg.state.unknowns.time = 20.
            out.append((seg, h + 800.))
            seg = S.Climb.Constant_Throttle_Constant_Speed()
            seg.air_speed, seg.throttle, seg.altitude_end = 165., .8, h + 1300.
            out.append((seg, h + 1300.))
            seg = S.Cruise.Constant_Acceleration_Constant_Altitude()
            seg.air_speed_start, seg.air_speed_end, seg.acceleration = 165., 180., .3
            out.append((seg, h + 1300.))
        an = plane.analyses(dict(m=case['mass'], tilt=math.pi / 2, Tmax=2.5e6) if vertical else dict(P, m=case['mass']))
        for i, (seg, _) in enumerate(out):
            seg.tag = 'leg %d' % i
            seg.state.numerics.number_control_points = case['N']
            seg.true_course = case['course'] * DEG
            seg.analyses.extend(an)
        return out
    ch = chain()
    _, legs = fly([x[0] for x in ch])
    cut = 1 + case['cut'] % len(ch)
    _, head = fly([x[0] for x in chain()][:cut])
    for i, a in enumerate(legs):
        close(a['altitude'][-1], ch[i][1], rtol=1e-6, atol=.2, what='leg %d: end altitude' % i)
        if i:
            b = legs[i - 1]
            for k in ('time', 'mass', 'range', 'x', 'y', 'lat', 'lon', 'altitude'):
                close(a[k][0], b[k][-1], rtol=1e-9, atol=.2 if k == 'altitude' else 1e-9, what='leg %d starts where leg %d ended: %s' % (i, i - 1, k))
        if i < cut:
            for k, v in head[i].items():
                close(a[k], v, rtol=1e-9, atol=1e-9, what='leg %d altered by the legs after it: %s' % (i, k))
    if not vertical:
        close(legs[2]['vx'][0], 140., rtol=1e-3, what='speed taken from the climb')
    if len(ch) > 2:
        ctx.hit(case['kind'])


case = dict(h0=rng(300, 6000), mass=rng(4e4, 5.5e4), legs=st.lists(leg, min_size=1, max_size=5), cut=st.integers(0, 4), where=st.one_of(st.none(), st.tuples(rng(-50, 50), rng(-150, 150)).map(list)))
SUBS = [
    Sub('sequence', record(**case), check_sequence, quick=300, rule='three legs or more, one of which takes its altitude from the leg before'),
    Sub('others', record(kind=st.sampled_from(['vertical', 'runway']), h=rng(0, 1500), mass=rng(4e4, 5.5e4), N=st.integers(3, 6), course=rng(-180, 180, [0, 90]), cut=st.integers(0, 4),
                         legs=st.lists(st.tuples(st.sampled_from(['hover', 'up', 'down']), rng(0, 1)).map(list), min_size=1, max_size=5)), check_others, quick=120, rule='three segments or more'),
    Sub('landing weight', record(more=rng(-.01, .02), **dict(case, legs=st.lists(leg, min_size=2, max_size=3))), check_together, quick=60, rule='every converged case'),
]
PROPERTY = Property('C11', SUBS, rule='Random sequences of segments with random parameters, inherited or given altitudes, courses, starting places and non-standard days. Non-trivial as stated per sub-check.',
                    assumptions=['stand-in aeroplane of lib/plane.py', 'missions in which every segment converged; others are discarded'])

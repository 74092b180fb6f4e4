"""Every flight segment: how to generate it, and what it promises, written from the definitions of the
quantities it is named after."""
import contextlib
import io
import math
import warnings
import numpy as np
import SUAVE
from hypothesis import strategies as st
from lib import plane
from lib.refatm import std
from lib.strat import rng, inner, record

S = SUAVE.Analyses.Mission.Segments
DEG = math.pi / 180
A0, P0, RHO0 = math.sqrt(1.4 * 287.0528742 * 288.15), 101325., 101325. / (287.0528742 * 288.15)


def cas_to_tas(cas, at):
    qc = P0 * ((1 + 0.2 * (cas / A0) ** 2) ** 3.5 - 1)
    M = math.sqrt(5.) * np.sqrt((qc / at['p'] + 1) ** (2 / 7.) - 1)
    return M * np.sqrt(1.4 * at['p'] / at['rho'])


class Spec(object):
    """speed(par, at, x): true airspeed; climb(par, V): climb angle; x is the fraction of the climb (or of the time)."""

    def __init__(self, name, cls, params, speed, gamma=None, level=False, accel=None, time=None, rtol=1e-9, twice=False, fixed_throttle=False, setup=None, par=None):
        self.name = name
        self.cls = cls
        self.params = params
        self.speed = speed
        self.gamma = gamma or (lambda p, V: np.zeros_like(V))
        self.level = level
        self.accel = accel
        self.time = time
        self.rtol = rtol
        self.twice = twice
        self.fixed_throttle = fixed_throttle
        self.setup = setup
        self.par = par or {}


v = rng(130, 230)
M = rng(0.45, 0.75)
up = dict(altitude_start=rng(0, 9000), dh=rng(300, 3000))
rate = rng(1, 9)
ang = rng(0.5, 3)
q = rng(7e3, 1.4e4)
cr = dict(altitude=rng(0, 11500))
dist = rng(5e3, 4e5)
dur = rng(30, 4000)


def by_rate(sign):
    return lambda p, V: np.arcsin(sign * p['rate'] / V)


def by_angle(sign):
    return lambda p, V: np.full_like(V, sign * p['angle'] * DEG)


def by_slope(p, V):
    return np.full_like(V, math.atan2(p['dh'], p['distance']))


def const(p, at, x):
    return np.full_like(x, p['V'])


def mach(p, at, x):
    return p['M'] * at['a']


def cas(p, at, x):
    return cas_to_tas(p['V'], at)


def eas(p, at, x):
    return p['V'] * np.sqrt(RHO0 / at['rho'])


def dyn(p, at, x):
    return np.sqrt(2 * p['q'] / at['rho'])


def lin(p, at, x):
    return p['V'] + (p['V2'] - p['V']) * x


def linm(p, at, x):
    return (p['M'] + (p['M2'] - p['M']) * x) * at['a']


# names of the generated parameters -> attribute of the segment
def names(**kw):
    return kw


TABLE = []


def add(family, cls, strategies, attrs, *a, **k):
    sp = Spec(family + '.' + cls, (family, cls), strategies, *a, **k)
    sp.attrs = attrs
    TABLE.append(sp)


def add_level(cls, strategies, attrs, *a, **k):
    add('Cruise', cls, dict(cr, **strategies), dict(attrs, altitude='altitude'), *a, level=True, **k)


def t_dist(p, V):
    return p['distance'] / V[0]


def t_time(p, V):
    return p['time']


add_level('Constant_Speed_Constant_Altitude', dict(V=v, distance=dist), dict(V='air_speed', distance='distance'), const, time=t_dist)
add_level('Constant_Speed_Constant_Altitude_Loiter', dict(V=v, time=dur), dict(V='air_speed', time='time'), const, time=t_time)
add_level('Constant_Mach_Constant_Altitude', dict(M=M, distance=dist), dict(M='mach', distance='distance'), mach, time=t_dist)
add_level('Constant_Mach_Constant_Altitude_Loiter', dict(M=M, time=dur), dict(M='mach', time='time'), mach, time=t_time)
add_level('Constant_Dynamic_Pressure_Constant_Altitude', dict(q=q, distance=dist), dict(q='dynamic_pressure', distance='distance'), dyn, time=t_dist, twice=True)
add_level('Constant_Dynamic_Pressure_Constant_Altitude_Loiter', dict(q=q, time=dur), dict(q='dynamic_pressure', time='time'), dyn, time=t_time, twice=True)
add_level('Constant_Acceleration_Constant_Altitude', dict(V=rng(120, 180), dV=rng(5, 60), acc=rng(0.05, 1.)), dict(V='air_speed_start', V2='air_speed_end', acc='acceleration'),
          lin, accel=lambda p: p['acc'], time=lambda p, V: p['dV'] / p['acc'])
for fam, sg in (('Climb', 1), ('Descent', -1)):
    r = 'climb_rate' if sg == 1 else 'descent_rate'
    g = 'climb_angle' if sg == 1 else 'descent_angle'
    base = dict(h0='altitude_start', h1='altitude_end')
    add(fam, 'Constant_Speed_Constant_Rate', dict(up, V=v, rate=rate), dict(base, V='air_speed', rate=r), const, by_rate(sg))
    add(fam, 'Constant_Speed_Constant_Angle', dict(up, V=v, angle=ang), dict(base, V='air_speed', angle=g), const, by_angle(sg))
    add(fam, 'Constant_CAS_Constant_Rate', dict(up, V=rng(110, 160), rate=rate), dict(base, V='calibrated_air_speed', rate=r), cas, by_rate(sg), rtol=5e-3)
    add(fam, 'Constant_EAS_Constant_Rate', dict(up, V=rng(110, 160), rate=rate), dict(base, V='equivalent_air_speed', rate=r), eas, by_rate(sg), rtol=1e-5)
    add(fam, 'Linear_Mach_Constant_Rate', dict(up, M=M, M2=M, rate=rate), dict(base, M='mach_start', M2='mach_end', rate=r), linm, by_rate(sg))
base = dict(h0='altitude_start', h1='altitude_end')
add('Climb', 'Linear_Speed_Constant_Rate', dict(up, V=v, dV=rng(-40, 40), rate=rate), dict(base, V='air_speed_start', V2='air_speed_end', rate='climb_rate'), lin, by_rate(1))
add('Climb', 'Constant_Mach_Constant_Rate', dict(up, M=M, rate=rate), dict(base, M='mach_number', rate='climb_rate'), mach, by_rate(1))
add('Climb', 'Constant_Mach_Constant_Angle', dict(up, M=M, angle=ang), dict(base, M='mach', angle='climb_angle'), mach, by_angle(1), rtol=1e-6)
add('Climb', 'Constant_Dynamic_Pressure_Constant_Rate', dict(up, q=q, rate=rate), dict(base, q='dynamic_pressure', rate='climb_rate'), dyn, by_rate(1), twice=True)
add('Climb', 'Constant_Dynamic_Pressure_Constant_Angle', dict(up, q=q, angle=ang), dict(base, q='dynamic_pressure', angle='climb_angle'), dyn, by_angle(1), rtol=1e-6)
add('Climb', 'Constant_Mach_Linear_Altitude', dict(up, M=M, distance=rng(3e4, 1e5)), dict(base, M='mach', distance='distance'), mach, by_slope)
add('Climb', 'Constant_Speed_Linear_Altitude', dict(up, V=v, distance=rng(3e4, 1e5)), dict(base, V='air_speed', distance='distance'), const, by_slope)
BYNAME = {s.name: s for s in TABLE}
hover_up = dict(altitude_start=rng(0, 3000), dh=rng(20, 800))

common = dict(N=st.integers(3, 8), course=rng(-180, 180, [0, 90]), dT=st.one_of(st.just(0.), rng(-25, 25)), mass=rng(3.5e4, 6e4))


def strategy(names=None, extra=None):
    sp = [s for s in TABLE if names is None or s.name in names]
    return st.one_of([st.fixed_dictionaries(dict(common, kind=st.just(s.name), p=st.fixed_dictionaries(s.params), **(extra or {}))) for s in sp])


def fill(spec, p):
    p = dict(p)
    down = spec.name.startswith('Descent')
    if 'altitude_start' in p:
        a, d = p['altitude_start'], p['dh']
        p['h0'], p['h1'] = (a + d, a) if down else (a, a + d)
    if 'dV' in p:
        p['V2'] = p['V'] + p['dV']
    return p


def build(case, an=None, start=True):
    """The SUAVE segment a case describes."""
    spec = BYNAME[case['kind']]
    p = fill(spec, case['p'])
    seg = getattr(getattr(S, spec.cls[0]), spec.cls[1])()
    seg.tag = case.get('tag', 'segment')
    for k, a in spec.attrs.items():
        if a in ('altitude_start', 'altitude') and not start:
            continue
        setattr(seg, a, p[k] * DEG if k == 'angle' else p[k])
    seg.true_course = case['course'] * DEG
    seg.temperature_deviation = case['dT']
    seg.state.numerics.number_control_points = case['N']
    seg.analyses.extend(an if an is not None else plane.analyses(dict(m=case['mass'], **spec.par)))
    return spec, p, seg


def quiet(f, *a):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return f(*a)


def mission(*segments):
    m = SUAVE.Analyses.Mission.Sequential_Segments()
    for s in segments:
        m.append_segment(s)
    return m


def polyfit(t, y):
    """The polynomial through the control points, and its derivative and integral from the first point."""
    t = np.ravel(t)
    c = np.polynomial.chebyshev.Chebyshev.fit(t, np.ravel(y), len(t) - 1)
    i = c.integ()
    return c, c.deriv()(t), i(t) - i(t[0])


def integral(t, y):
    """Integral from the first control point, and the uncertainty of the discretisation (all points against all but
    the first)."""
    t = np.ravel(t)
    y = np.ravel(y)
    full = np.polynomial.chebyshev.Chebyshev.fit(t, y, len(t) - 1).integ()
    part = np.polynomial.chebyshev.Chebyshev.fit(t[1:], y[1:], len(t) - 2, domain=[t[0], t[-1]]).integ()
    a, b = full(t) - full(t[0]), part(t) - part(t[0])
    return a, 1.5 * float(np.max(np.abs(a - b)))

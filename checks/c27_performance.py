"""C27: performance and cost estimates.

Oracle: scalar re-statements of the published relations (FAR 23/25 flight envelopes, field length correlations,
level-flight fuel burn, Raymer climb rate, Eastlake/Burns cost relations) plus conservation of totals."""
import contextlib
import io
import math
import os
import tempfile
import numpy as np
from hypothesis import strategies as st

import SUAVE
from SUAVE.Core import Data, Units
from SUAVE.Methods.Aerodynamics.Fidelity_Zero.Lift.compute_max_lift_coeff import compute_max_lift_coeff
from SUAVE.Methods.Flight_Dynamics.Static_Stability.Approximations.datcom import datcom
from SUAVE.Methods.Costs.Correlations.Industrial_Costs.compute_industrial_costs import compute_industrial_costs
from SUAVE.Methods.Costs.Correlations.Industrial_Costs.distribute_non_recurring_cost import distribute_non_recurring_cost
from SUAVE.Methods.Costs.Correlations.Industrial_Costs.estimate_escalation_factor import estimate_escalation_factor
from SUAVE.Methods.Costs.Correlations.Industrial_Costs.estimate_hourly_rates import estimate_hourly_rates
from SUAVE.Methods.Performance.V_n_diagram import V_n_diagram
from SUAVE.Methods.Performance.electric_V_h_diagram import electric_V_h_diagram
from SUAVE.Methods.Performance.electric_payload_range import electric_payload_range
from SUAVE.Methods.Performance.estimate_landing_field_length import estimate_landing_field_length
from SUAVE.Methods.Performance.estimate_stall_speed import estimate_stall_speed
from SUAVE.Methods.Performance.estimate_take_off_field_length import estimate_take_off_field_length
from SUAVE.Methods.Performance.find_take_off_weight_given_tofl import find_take_off_weight_given_tofl
from SUAVE.Methods.Performance.maximum_lift_to_drag import maximum_lift_to_drag
from SUAVE.Methods.Performance.payload_range import payload_range
from SUAVE.Methods.Performance.propeller_range_endurance_speeds import propeller_range_endurance_speeds
from SUAVE.Methods.Performance.propeller_single_point import propeller_single_point
from lib import plane, refatm
from lib.prop import Property, Sub, Discard, require, close, same_shape, finite
from lib.strat import record, rng, logrng, vec

G0 = 9.80665
FT = .3048
KT = 1852. / 3600.
LB = .45359237
LBF = 4.4482216152605
SLUG = 14.593902937206364


@contextlib.contextmanager
def quiet():
    """Run in a scratch directory with no console output: several methods write logs beside the caller."""
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    here = os.getcwd()
    with tempfile.TemporaryDirectory(prefix='c27_') as d:
        os.chdir(d)
        try:
            with contextlib.redirect_stdout(io.StringIO()), np.errstate(all='ignore'):
                yield
        finally:
            plt.close('all')
            os.chdir(here)


# ---------------------------------------------------------------- industrial costs
def cost_case():
    return record(
        W=logrng(500., 2e5), thrust=logrng(5e3, 5e5), ne=st.integers(1, 4), mmo=rng(.3, 2.), pax=st.integers(1, 400),
        year=rng(1960., 2039.), N=st.integers(20, 2000), amort=st.one_of(st.none(), st.integers(20, 2000)), proto=st.integers(1, 10),
        avionics=rng(0., 4e6), tf=rng(0., 1e8), mf=rng(0., 1e8), years=rng(1., 15.), diff=rng(1., 2.), cad=rng(.8, 1.2), stealth=st.sampled_from([0., 1.]),
        mat=rng(1., 3.), kind=st.sampled_from(['military', 'general aviation', 'regional', 'commercial', 'business', 'Commercial']), flow=st.booleans())


def airframe(c):
    v = SUAVE.Vehicle()
    v.mass_properties.empty = c['W']
    v.passengers = c['pax']
    v.envelope.maximum_mach_operational = c['mmo']
    net = SUAVE.Components.Energy.Networks.Turbofan()
    net.tag = 'turbofan'
    net.number_of_engines = c['ne']
    net.sealevel_static_thrust = c['thrust']
    v.append_component(net)
    k = v.costs.industrial
    k.reference_year = c['year']
    k.production_total_units = c['N']
    k.units_to_amortize = c['amort']
    k.prototypes_units = c['proto']
    k.avionics_cost = c['avionics']
    k.test_facilities_cost = c['tf']
    k.manufacturing_facilities_cost = c['mf']
    k.development_total_years = c['years']
    k.aircraft_type = c['kind']
    k.difficulty_factor = c['diff']
    k.cad_factor = c['cad']
    k.stealth = c['stealth']
    k.material_factor = c['mat']
    return v


def cost_ref(c):
    """DAPCA-type estimate after Gudmundsson / Nicolai & Carichner, hours and 1970-base dollars escalated."""
    W = .62 * c['W'] / LB
    V = 321.32 * c['mmo']
    P, N, F = float(c['proto']), float(c['N']), c['diff']
    yr = c['year']
    eng, tool, man, qc = 2.576 * yr - 5058., 2.883 * yr - 5666., 2.316 * yr - 4552., 2.6 * yr - 5112.
    E = estimate_escalation_factor(yr) / .235
    hours = lambda n: .0396 * W ** .791 * V ** 1.526 * n ** .183 * F * c['cad']
    labour = lambda n: 28.984 * W ** .74 * V ** .543 * n ** .524 * F
    metal = lambda n: 75.264 * c['mat'] * W ** .689 * V ** .624 * n ** .792 * E
    jigs = lambda n: 4.0127 * W ** .764 * V ** .899 * n ** .178 * .33 ** .066 * F
    engine = 520. * (c['thrust'] / LBF) ** .8356 * E * .235
    nr = dict(
        airframe_engineering=hours(P) * eng,
        development_support=.008325 * W ** .873 * V ** 1.89 * P ** .346 * F * E,
        flight_test=.001244 * W ** 1.16 * V ** 1.371 * P ** 1.281 * F * (1. + 3. * c['stealth']) * E,
        engines=1.1 * engine * P * c['ne'], avionics=c['avionics'] * P,
        tooling_development=jigs(P) * tool, tooling_production=(jigs(N) - jigs(P)) * tool,
        manufacturing_labor=labour(P) * man, manufacturing_material=metal(P), quality_control=.13 * labour(P) * qc,
        test_facilities=c['tf'], manufacturing_facilities=c['mf'])
    seat = {'military': 0., 'general aviation': 500., 'regional': 1000., 'commercial': 2000., 'business': 3000.}[c['kind'].lower()]
    re = dict(
        airframe_engineering=2. * hours(P + N) * eng - hours(P) * eng, interior=seat * c['pax'] * N * E * .296,
        manufacturing_labor=(1.3 * labour(N) - labour(P)) * man, manufacturing_material=metal(N) - metal(P),
        quality_control=.13 * 1.3 * labour(N) * qc, engines=engine * N * c['ne'], avionics=c['avionics'] * N)
    return nr, re


def costs(c, ctx):
    ctx.hit(c['amort'] not in (None, c['N']))
    v = airframe(c)
    with quiet():
        compute_industrial_costs(v, c['flow'])
    k = v.costs.industrial
    nr, re = cost_ref(c)
    for part, want in ((k.non_recurring, nr), (k.recurring, re)):
        close(part.total, sum(want.values()), 1e-9, 1e-3, 'total')
        for q, x in want.items():
            close(part.breakdown[q], x, 1e-9, 1e-3, q)
        items = [part.breakdown[q] for q in part.breakdown.keys() if q != 'total']
        close(part.total, sum(items), 1e-12, 1e-6, 'total against its breakdown')
    close(k.unit_cost, sum(re.values()) / c['N'] + sum(nr.values()) / (c['amort'] or c['N']), 1e-9, 1e-6, 'unit cost')
    r = estimate_hourly_rates(c['year'])
    for q in ('engineering', 'tooling', 'manufacturing', 'quality_control'):
        close(k.hourly_rates[q], r[q], 1e-12, 0., 'hourly rate')
    E = estimate_escalation_factor
    require(E(c['year'] + 10.) > E(c['year']) > 0., 'prices do not rise over a decade after 1960')
    close(E(1998.), 1., 1e-12, 0., 'escalation at its base year')
    # what is more expensive
    if c['flow']:
        flow(k, int(c['years']))


STREAMS = dict(engineering=('airframe_engineering', 'flight_test', 'engines', 'avionics'), manufacturing=('manufacturing_labor', 'manufacturing_material'),
               tooling_design=('tooling_development',), tooling_production=('tooling_production',), support=('development_support', 'quality_control'), facilities=('test_facilities', 'manufacturing_facilities'))


def flow(k, years):
    f, n = k.non_recurring.cash_flow, k.non_recurring.breakdown
    same_shape(f.total, (years,), 'cash flow')
    for q, src in STREAMS.items():
        same_shape(f.breakdown[q], (years,), q + ' cash flow')
        want = sum(n[s] for s in src)
        close(np.sum(f.breakdown[q]), want, 5e-4, 1e-6, q + ' cash flow adds up to')
        require(np.all(f.breakdown[q] * math.copysign(1., want) >= -1e-9 * abs(want)), q + ' cash flow changes sign')
    close(f.total, sum(f.breakdown[q] for q in STREAMS), 1e-12, 1e-6, 'cash flow of a year')
    close(np.sum(f.total), k.non_recurring.total, 5e-4, 1., 'cash flow over the development')


def flow_case():
    return record(years=rng(1., 25.), parts=vec(logrng(1e3, 1e9), 12, 12))


def cash(c, ctx):
    names = [s for src in STREAMS.values() for s in src]
    k = Data(industrial=Data(development_total_years=c['years'], non_recurring=Data(breakdown=Data(), total=sum(c['parts']))))
    for q, x in zip(names, c['parts']):
        k.industrial.non_recurring.breakdown[q] = x
    distribute_non_recurring_cost(k)
    ctx.hit(int(c['years']) > 1)
    flow(k.industrial, int(c['years']))
    for q, x in zip(names, c['parts']):
        require(k.industrial.non_recurring.breakdown[q] == x, q + ' changed by its distribution over the years')
    f = k.industrial.non_recurring.cash_flow.breakdown
    for a, b in (('facilities', 'tooling_design'),):
        close(f[a] / np.sum(f[a]), f[b] / np.sum(f[b]), 1e-9, 1e-12, 'share of %s paid in a year against %s' % (a, b))


# ---------------------------------------------------------------- V-n diagram
def vn_case():
    return record(
        part=st.sampled_from([(25, 'transport'), (23, 'normal'), (23, 'commuter'), (23, 'utility'), (23, 'acrobatic')]),
        W=logrng(400., 80e3), load=logrng(40., 600.), AR=rng(5., 14.), taper=rng(.3, 1.), sweep=rng(0., .6), mach=rng(.12, .8), alt=rng(0., 11000., [0., 15000 * FT]),
        np_=rng(1.5, 9.), nn=rng(-7., -.5), cl=rng(1., 2.6), cn=rng(.6, 1.6), dT=st.sampled_from([0., 0., 15., -10.]), tails=st.integers(0, 2), order=st.booleans())


def vn_vehicle(c):
    v = SUAVE.Vehicle()
    v.tag = 'vn'
    S = c['W'] / c['load']
    v.reference_area = S
    v.envelope.FAR_part_number, v.envelope.category = c['part']
    v.envelope.limit_loads.positive = c['np_']
    v.envelope.limit_loads.negative = c['nn']
    v.envelope.cruise_mach = c['mach']
    v.maximum_lift_coefficient = c['cl']
    v.minimum_lift_coefficient = -c['cn']
    w = SUAVE.Components.Wings.Main_Wing()
    w.tag = 'main_wing'
    w.aspect_ratio, w.taper, w.sweeps.quarter_chord, w.thickness_to_chord = c['AR'], c['taper'], c['sweep'], .12
    w.areas.reference = S
    w.spans.projected = math.sqrt(S * c['AR'])
    w.chords.root = 2. * w.spans.projected / c['AR'] / (1. + c['taper'])
    w.chords.tip = c['taper'] * w.chords.root
    w.chords.mean_aerodynamic = 2. / 3. * w.chords.root * (1. + c['taper'] + c['taper'] ** 2) / (1. + c['taper'])
    tails = []
    for q, cls in enumerate([SUAVE.Components.Wings.Horizontal_Tail, SUAVE.Components.Wings.Vertical_Tail][:c['tails']]):
        t = cls()
        t.areas.reference = S * .2
        t.chords.mean_aerodynamic = w.chords.mean_aerodynamic * .5
        tails.append(t)
    for x in (tails + [w] if c['order'] else [w] + tails):
        v.append_component(x)
    return v


def vn_limits(c, lb):
    part, cat = c['part']
    user, neg = c['np_'], c['nn']
    if cat in ('transport', 'normal', 'commuter'):
        n = min(max(2.1 + 24000. / (lb + 10000.), 2.5), 3.8)
        n = max(n, user)
        m = -1. if part == 25 else -.4 * n
    elif cat == 'utility':
        n = max(4.4, user)
        m = -.4 * n
    else:
        n = max(6., user)
        m = -.5 * n
    return n, min(m, neg)


def gusts(part, cat, ft):
    if part == 25:
        U = 56. - .0008 * ft if ft < 15000. else 51.7133 - .0005142 * ft
        return U, U, U / 2.
    U = 50. if ft < 20000. else 66.67 - .0008333 * ft
    D = 25. if ft < 20000. else 33.334 - .0004167 * ft
    R = (66. if ft < 20000. else 84.667 - .000933 * ft) if cat == 'commuter' else U
    return R, U, D


def vn(c, ctx):
    part, cat = c['part']
    v = vn_vehicle(c)
    an = SUAVE.Analyses.Vehicle()
    atm = SUAVE.Analyses.Atmospheric.US_Standard_1976()
    an.append(atm)
    g = float(atm.planet.sea_level_gravity)
    with quiet():
        R = V_n_diagram(v, an, c['W'], c['alt'], c['dT'])
    std = refatm.std(c['alt'])
    T = float(std['T']) + c['dT']
    rho = float(std['p']) / (287.0528742 * T)
    rho0 = 1.225
    W = c['W'] * g
    S = v.reference_area
    lb = W / LBF
    ft = c['alt'] / FT
    near = dict(rtol=2e-4)      # the library's gas constant and tables
    n, m = vn_limits(c, lb)
    ctx.label('FAR %d %s' % (part, cat))
    eas = lambda load, cl: math.sqrt(2. * W * abs(load) / (rho0 * S * cl)) / KT
    close(R.Vs1.positive, eas(1., c['cl']), what='stall speed', atol=0., **near)
    close(R.Vs1.negative, eas(1., c['cn']), what='inverted stall speed', atol=0., **near)
    close(R.Va.positive, eas(n, c['cl']), what='manoeuvring speed', atol=0., **near)
    close(R.Va.negative, eas(m, c['cn']), what='inverted manoeuvring speed', atol=0., **near)
    # gust alleviation with the main wing's chord and lift slope
    slope = float(np.ravel(datcom(v.wings.main_wing, np.array([c['mach']])))[0])
    psf = lb / (S / FT ** 2)
    slug = rho / (SLUG / FT ** 3)
    mac = v.wings.main_wing.chords.mean_aerodynamic / FT
    mu = 2. * psf / (slug * mac * slope * g / FT)
    Kg = .88 * mu / (5.3 + mu)
    Ur, Uc, Ud = gusts(part, cat, ft)
    gust = lambda V, U: 1. + Kg * slope * V * U / (498. * psf)
    # design speeds
    Vc = c['mach'] * math.sqrt(1.4 * 287. * T) * math.sqrt(rho / rho0) / KT
    Va, Vn = R.Va.positive, R.Va.negative
    if max(Va, Vn) > Vc:
        Vc = 1.15 * max(Va, Vn)
    if part == 25:
        # CS/FAR 25.335: Vc >= VB + 1.32 U, VB = Vs1 sqrt(1 + Kg U Vc a / 498 w)
        s1, k = R.Vs1.positive, Kg * slope * Uc / (498. * psf)
        lo, hi = 1.32 * Uc, 1e5
        for _ in range(200):
            mid = .5 * (lo + hi)
            lo, hi = (mid, hi) if mid - 1.32 * Uc < s1 * math.sqrt(1. + k * mid) else (lo, mid)
        Vmin = .5 * (lo + hi)
    elif cat == 'acrobatic':
        Vmin = (36. if psf < 20. else 37.85 - .0925 * psf) * math.sqrt(psf)
    else:
        Vmin = (33. if psf < 20. else 34.1 - .055 * psf) * math.sqrt(psf)
    Vc = max(Vc, Vmin)
    close(R.Vc, Vc, what='cruise speed', atol=0., **near)
    if part == 25:
        Vd = 1.25 * Vc
    else:
        a, b, k = {'acrobatic': (1.55, 1.6, .0025), 'utility': (1.5, 1.5375, .001875)}.get(cat, (1.4, 1.4125, .000625))
        Vd = max((a if psf <= 20. else b - k * psf) * Vmin, 1.15 * Vc)
    close(R.Vd, Vd, what='dive speed', atol=0., **near)
    close([R.weight, R.wing_loading, R.altitude], [lb, psf, ft], what='weight, wing loading, altitude', atol=1e-9, **near)
    Vp, Np = np.asarray(R.airspeeds.positive), np.asarray(R.load_factors.positive)
    Vm, Nm = np.asarray(R.airspeeds.negative), np.asarray(R.load_factors.negative)
    for V, N in ((Vp, Np), (Vm, Nm)):
        require(V.shape == N.shape, 'load factors and airspeeds differ in number')
        finite(V, 'airspeeds')
        finite(N, 'load factors')
    # the stall branch
    for V, N, s in ((Vp, Np, R.Vs1.positive), (Vm, -Nm, R.Vs1.negative)):
        i = slice(1, 23)
        require(np.all(np.diff(V[i]) >= -1e-9 * s) and abs(V[1] - s) < 1e-6 * s, 'stall branch out of order')
        close(N[i], (V[i] / s) ** 2, 1e-3, 1e-9, 'load factor on the stall branch')
    close([Np[22], Nm[22]], [n, m], 1e-3, 0., 'load factor at manoeuvring speed')
    for sg, G, Vx, key in ((1., R.gust_load_factors.positive, Va, 'positive'), (-1., R.gust_load_factors.negative, Vn, 'negative')):
        close(G[:4], [1., gust(Vx, sg * Ur), gust(R.Vc, sg * Uc), gust(R.Vd, sg * Ud)], 1e-3, 1e-3, key + ' gust load factors')
        close(G[4:6], [gust(1.05 * R.Vd, sg * Uc), gust(1.05 * R.Vd, sg * Ud)], 1e-3, 1e-3, key + ' gust lines')
        close(G[6], gust(1.05 * R.Vd, sg * Ur) if cat == 'commuter' else 0., 1e-3, 1e-3, key + ' rough air gust line')
    close(R.limit_loads.positive, np.max(Np), 1e-12, 0., 'largest load factor of the envelope')
    close(R.limit_loads.negative, np.min(Nm), 1e-12, 0., 'smallest load factor of the envelope')
    gp, gm = gust(R.Vc, Uc), gust(R.Vc, -Uc)
    ctx.hit(gp > n or gm < m)
    require(np.max(Np) >= n - 1e-3 and np.min(Nm) <= m + 1e-3, 'envelope within the manoeuvre limits')
    for V, N, lim, gc, q in ((Vp, Np, n, gp, 'positive'), (Vm, -Nm, -m, -gm, 'negative')):
        if gc > lim + 1e-3:
            require(np.any((np.abs(V - R.Vc) < 1e-6 * R.Vc) & (np.abs(N - gc) < 2e-3 * abs(gc))), 'cruise gust not in the envelope')
        else:
            most = max(lim, abs(R.Vb_load_factor[q])) if q in R.Vb.keys() else lim
            require(np.all(N <= most + 2e-3 * most), 'envelope beyond manoeuvre and gust loads')
    key = R.Vb.keys()
    for q, Vx, cl, sg, lim in (('positive', Va, c['cl'], 1., n), ('negative', Vn, c['cn'], -1., -m)):
        rough = sg * gust(Vx, sg * Ur)
        if abs(rough - lim) < 2e-3 * lim:
            continue
        if (rough > lim) != (q in key):
            require(False, 'rough-air speed given without need or missing (%s)' % q)
            continue
        if q in key:
            VB = R.Vb[q]
            close(sg * gust(VB, sg * Ur), (VB / R['Vs1'][q]) ** 2, 2e-3, 0., 'rough-air speed: gust against stall line')
            close(R.Vb_load_factor[q], gust(VB, sg * Ur), 1e-3, 0., 'load factor at rough-air speed')
            require(VB >= Vx * (1. - 1e-6), 'rough-air speed below manoeuvring speed')


# ---------------------------------------------------------------- field lengths
class Jet(SUAVE.Components.Energy.Networks.Network):
    def __defaults__(self):
        self.tag = 'jet'
        self.number_of_engines = 2
        self.T0 = 1e5
        self.k = 0.

    def evaluate_thrust(self, state):
        f = state.conditions.freestream
        r = Data()
        T = self.number_of_engines * self.T0 * (1. - self.k * np.ravel(f.mach_number)[0]) * np.ravel(f.pressure)[0] / 101325. * np.ravel(state.conditions.propulsion.throttle)[0]
        r.thrust_force_vector = np.array([[T, 0., 0.]])
        r.vehicle_mass_rate = np.array([[0.]])
        return r


def field_case():
    return record(
        W=logrng(3e3, 3e5), load=rng(200., 700.), tc=rng(.09, .15), sweep=rng(0., .6), taper=rng(.2, .6), AR=rng(6., 12.), ne=st.integers(1, 6), TW=rng(.2, .45), k=rng(0., .6),
        alt=rng(0., 2500., [0.]), dT=rng(-20., 25., [0.]), flap=rng(0., .7), slat=st.booleans(), r2=st.one_of(st.none(), rng(1.1, 1.4)), rf=st.one_of(st.none(), rng(1.15, 1.4)), own=st.booleans(),
        ks=vec(rng(.5, 2.), 3, 3), goal=rng(.2, .8), other=rng(.7, 1.2))


def field_vehicle(c):
    v = SUAVE.Vehicle()
    S = c['W'] / c['load']
    v.reference_area = S
    m = v.mass_properties
    m.takeoff, m.max_takeoff, m.landing, m.operating_empty = c['other'] * c['W'], c['W'], .8 * c['W'], .5 * c['W']
    w = SUAVE.Components.Wings.Main_Wing()
    w.tag = 'main_wing'
    w.high_lift = True
    w.areas.reference, w.areas.affected = S, .6 * S
    w.thickness_to_chord, w.taper, w.sweeps.quarter_chord, w.aspect_ratio = c['tc'], c['taper'], c['sweep'], c['AR']
    w.chords.mean_aerodynamic = math.sqrt(S / c['AR'])
    f = SUAVE.Components.Wings.Control_Surfaces.Flap()
    f.deflection, f.configuration_type, f.chord_fraction, f.span_fraction_start, f.span_fraction_end = c['flap'], 'double_slotted', .25, .1, .7
    w.append_control_surface(f)
    if c['slat']:
        s = SUAVE.Components.Wings.Control_Surfaces.Slat()
        s.deflection, s.chord_fraction, s.span_fraction_start, s.span_fraction_end = .4, .1, .1, .9
        w.append_control_surface(s)
    v.append_component(w)
    net = Jet()
    net.number_of_engines = c['ne']
    net.T0 = c['TW'] * c['W'] * G0 / c['ne']
    net.k = c['k']
    v.append_component(net)
    if c['r2']:
        v.V2_VS_ratio = c['r2']
    if c['rf']:
        v.Vref_VS_ratio = c['rf']
    return v


def air_at(alt, dT):
    s = refatm.std(alt)
    T = float(s['T']) + dT
    p = float(s['p'])
    mu = 1.458e-6 * T ** 1.5 / (T + 110.4)
    return T, p, p / (287.0528742 * T), math.sqrt(1.4 * 287.0528742 * T), mu


def field(c, ctx):
    v = field_vehicle(c)
    an = SUAVE.Analyses.Vehicle()
    atm = SUAVE.Analyses.Atmospheric.US_Standard_1976()
    an.append(atm)
    aero = SUAVE.Analyses.Aerodynamics.Fidelity_Zero()
    aero.geometry = v
    an.append(aero)
    ap = SUAVE.Attributes.Airports.Airport()
    ap.altitude, ap.delta_isa, ap.atmosphere = c['alt'], c['dT'], atm
    g = float(atm.planet.sea_level_gravity)
    T, p, rho, a, mu = air_at(c['alt'], c['dT'])
    S = v.reference_area
    ctx.hit(c['alt'] > 0. and c['dT'] != 0.)
    clmax = float(np.ravel(compute_max_lift_coeff(Data(conditions=Data(freestream=Data(density=rho, velocity=90. * KT, dynamic_viscosity=mu))), aero.settings, v)[0])[0])
    if clmax < .5:
        raise Discard('no lift')
    K = {2: (857.4, 2.476, .00014), 3: (667.9, 2.343, .000093), 4: (486.7, 2.282, .0000705)}
    k = K.get(min(c['ne'], 4), K[2])
    if c['own']:
        k = (800. * c['ks'][0], 2.4 * c['ks'][1], 1e-4 * c['ks'][2])
        v.takeoff_constants = list(k)

    def tofl(W):
        Vs = math.sqrt(2. * W * g / (rho * S * clmax))
        V2 = (c['r2'] or 1.2) * Vs
        F = c['ne'] * v.networks.jet.T0 * (1. - c['k'] * .7 * V2 / a) * p / 101325.
        x = V2 ** 2 / (F / W)
        return (k[0] + k[1] * x + k[2] * x * x) * FT
    W0 = c['other'] * c['W']
    with quiet():
        L = estimate_take_off_field_length(v, an, ap)
    close(np.ravel(L)[0], tofl(W0), 5e-4, 0., 'take-off field length')
    with quiet():
        D = estimate_landing_field_length(v, an, ap)
    Vr = (c['rf'] or 1.23) * math.sqrt(2. * .8 * c['W'] * g / (rho * S * clmax))
    close(np.ravel(D)[0], 250. + 2.485 / g * Vr ** 2, 5e-4, 0., 'landing field length')
    v.landing_constants = [300. * c['ks'][0], 2. * c['ks'][1], .3 * c['ks'][2]]
    with quiet():
        D = estimate_landing_field_length(v, an, ap)
    q = v.landing_constants
    close(np.ravel(D)[0], q[0] + q[1] * Vr + q[2] * Vr ** 2, 5e-4, 0., "landing field length with the user's constants")
    # the weight that uses up a given field
    Wg = c['W'] * (.5 + .6 * c['goal'])
    goals = [tofl(Wg), tofl(.6 * c['W'])]
    with quiet():
        out = find_take_off_weight_given_tofl(v, an, ap, goals)
    close(np.ravel(out), [Wg, .6 * c['W']], 2e-3, 0., 'take-off weight for a field length')
    m = v.mass_properties
    require(m.takeoff == W0 and m.max_takeoff == c['W'] and m.operating_empty == .5 * c['W'] and m.landing == .8 * c['W'], 'finding the take-off weight for a field changed the masses of the vehicle')
    with quiet():
        L2 = estimate_take_off_field_length(v, an, ap)
    close(np.ravel(L2)[0], np.ravel(L)[0], 1e-12, 0., 'take-off field length evaluated again')
    close(estimate_stall_speed(c['W'], S, c['alt'], clmax), math.sqrt(2. * c['W'] * 9.81 / (air_at(c['alt'], 0.)[2] * S * clmax)), 5e-4, 0., 'stall speed')


# ---------------------------------------------------------------- payload-range
def pr_case():
    return record(
        OEW=logrng(2e3, 2e5), pay=rng(.15, .5), spare=rng(.05, .3), fuel=rng(.15, .7), zf=rng(.9, 1.1), S=rng(250., 650.), CD0=rng(.012, .03), K=rng(.035, .06), V=rng(120., 250.), alt=rng(3000., 11000.), sfc=logrng(1e-5, 3e-5), d0=logrng(3e5, 3e6), res=rng(0., .03), again=st.booleans())


def pr_mission(c, mass, both=True):
    par = dict(S=mass / c['S'], m=mass, CD0=c['CD0'], K=c['K'], sfc=c['sfc'], Tmax=mass * 6., lapse=0.)
    an = plane.analyses(par)
    M = SUAVE.Analyses.Mission.Sequential_Segments()
    M.tag = 'mission'
    base = SUAVE.Analyses.Mission.Segments
    for tag, d in (('out', 2e5), ('cruise', c['d0'])) if both else (('cruise', c['d0']),):
        s = base.Cruise.Constant_Speed_Constant_Altitude()
        s.tag = tag
        s.analyses.extend(an)
        s.altitude, s.air_speed, s.distance = c['alt'], c['V'], d
        s.state.numerics.number_control_points = 12
        M.append_segment(s)
    return M, par, an


def arrive(c, par, g, m1, m2):
    """Distance of a steady level flight burning from mass m1 to m2, thrust along the body axis."""
    rho = float(refatm.std(c['alt'])['rho'])
    qS = .5 * rho * c['V'] ** 2 * par['S']
    m = np.linspace(m1, m2, 401)
    al = np.zeros_like(m)
    for _ in range(60):
        T = qS * (par['CD0'] + par['K'] * (.2 + 5. * al) ** 2) / np.cos(al)
        al = ((m * g - T * np.sin(al)) / qS - .2) / 5.
    T = qS * (par['CD0'] + par['K'] * (.2 + 5. * al) ** 2) / np.cos(al)
    f = c['V'] / (c['sfc'] * T)
    w = np.ones(401)
    w[1:-1:2], w[2:-1:2] = 4., 2.
    return float(np.sum(w * f) * (m1 - m2) / 400. / 3.)


def pr(c, ctx):
    O = c['OEW']
    mtow = O * (1. + c['pay'] + c['spare'])
    maxpl, maxf = c['pay'] * O, c['fuel'] * O
    v = SUAVE.Vehicle()
    m = v.mass_properties
    m.operating_empty, m.max_zero_fuel, m.max_takeoff, m.max_payload, m.max_fuel = O, O + c['zf'] * maxpl, mtow, maxpl, maxf
    P = min(maxpl, c['zf'] * maxpl)
    F = min(maxf, mtow - O)
    res = c['res'] * min(F, mtow - O - P)
    M, par, an = pr_mission(c, mtow)
    g = float(refatm.std(c['alt'])['g'])
    rho = float(refatm.std(c['alt'])['rho'])
    CL = mtow * g / (.5 * rho * c['V'] ** 2 * par['S'])
    if not .2 < CL < 1.2:
        raise Discard('outside the flight regime')
    with quiet():
        R = payload_range(v, M, 'cruise', res)
        if c['again']:
            M2, _, _ = pr_mission(c, mtow)
            m.max_payload = .5 * maxpl
            keep = [np.array(R[k], dtype=float).copy() for k in ('range', 'payload', 'fuel', 'takeoff_weight')]
            payload_range(v, M2, 'cruise', 0.)
    if c['again']:
        for k, x in zip(('range', 'payload', 'fuel', 'takeoff_weight'), keep):
            require(np.array_equal(np.array(R[k], dtype=float), x), 'a later payload-range diagram changed the %s of an earlier one' % k)
    ctx.hit(F + P + O > mtow)
    ctx.label('full tanks with full payload' if F + P + O <= mtow else 'payload traded for fuel')
    f1 = min(mtow - O - P, F)
    want = dict(payload=[P, P, min(P, mtow - O - F), 0.], fuel=[0., f1, F, F])
    want['takeoff_weight'] = [0.] + [O + a + b for a, b in zip(want['payload'][1:], want['fuel'][1:])]
    for k in ('payload', 'fuel', 'takeoff_weight'):
        close(np.array(R[k], dtype=float), want[k], 1e-9, 1e-6, k + ' of the corner points')
    require(R.reserves == res, 'reserves')
    rr = [0.] + [arrive(c, par, g, w, w - f + res) for w, f in zip(want['takeoff_weight'][1:], want['fuel'][1:])]
    # the method accepts a fuel residual of 1 kg
    slack = 3. * max(r / max(f - res, 1.) for r, f in zip(rr[1:], want['fuel'][1:]))
    close(np.array(R.range, dtype=float), rr, 2e-4, slack, 'range of the corner points')


def epr_case():
    return record(OEW=logrng(200., 5e3), pay=rng(.1, .5), d0=logrng(5e3, 5e5), unit=st.sampled_from(['mile', 'nautical_mile', 'km', 'm']), S=rng(250., 650.), CD0=rng(.012, .03), K=rng(.035, .06), V=rng(120., 250.), alt=rng(100., 6000.), sfc=logrng(1e-6, 3e-6))


def epr(c, ctx):
    O = c['OEW']
    v = SUAVE.Vehicle()
    m = v.mass_properties
    m.operating_empty, m.max_takeoff, m.max_payload = O, O * (1. + c['pay']), c['pay'] * O
    M, par, an = pr_mission(c, m.max_takeoff)
    seen = []
    run = M.evaluate

    class Watch(object):
        segments = M.segments

        def evaluate(self):
            seen.append(M.segments[0].analyses.weights.vehicle.mass_properties.takeoff)
            return run()
    with quiet():
        R = electric_payload_range(v, Watch(), 'cruise', display_plot=False, unit=c['unit'])
    ctx.hit()
    L = {'mile': 1609.344, 'nautical_mile': 1852., 'km': 1000., 'm': 1.}[c['unit']]
    d = (2e5 + c['d0']) / L
    close(R.range, [0., d, d], 1e-6, 1e-6, 'range')
    close(R.payload, [m.max_payload, m.max_payload, 0.], 1e-12, 0., 'payload')
    close(R.takeoff_weight, [0., m.max_takeoff, O], 1e-12, 0., 'take-off weight')
    close(seen, [m.max_takeoff, O], 1e-12, 0., 'masses flown')


# ---------------------------------------------------------------- best speeds
def sp_case():
    return record(W=logrng(500., 5e4), load=rng(60., 400.), CD0=rng(.015, .05), K=rng(.03, .08), alt=rng(0., 6000., [0.]), dT=rng(-15., 25., [0.]), cl=rng(1.2, 2.2), CLa=rng(4., 6.))


def speeds(c, ctx):
    S = c['W'] / c['load']
    an = plane.analyses(dict(S=S, m=c['W'], CD0=c['CD0'], K=c['K'], CL0=.1, CLa=c['CLa']))
    an.aerodynamics.geometry.mass_properties = Data(takeoff=c['W'])
    g = float(an.atmosphere.planet.sea_level_gravity)
    rho = air_at(c['alt'], c['dT'])[2]
    speed = lambda CL: math.sqrt(2. * c['W'] * g / (rho * S * CL))
    Vs = speed(c['cl'])
    top = 4. * Vs
    cl = math.sqrt(c['CD0'] / c['K'])
    cl3 = math.sqrt(3. * c['CD0'] / c['K'])
    ctx.hit(cl3 < c['cl'])
    with quiet():
        A = maximum_lift_to_drag(an, c['alt'], c['cl'], top, c['dT'])
        B = propeller_range_endurance_speeds(an, c['alt'], c['cl'], top, c['dT'])

    def expect(CL, power):
        CL = min(CL, c['cl'])
        return speed(CL), CL ** power / (c['CD0'] + c['K'] * CL ** 2)
    V, ld = expect(cl, 1.)
    for r in (A.L_D_max, B.L_D_max):
        close(r.value, ld, 1e-3, 0., 'best lift to drag ratio')
        close(r.air_speed, V, 5e-3, 0., 'speed of best lift to drag ratio')
    V, ld = expect(cl3, 1.5)
    close(B.CL32.value, ld, 1e-3, 0., 'best endurance parameter')
    close(B.CL32.air_speed, V, 5e-3, 0., 'speed of best endurance')


# ---------------------------------------------------------------- electric climb map, single propeller points
class Prop(Data):
    """Power and thrust in closed form of what a propeller is shown."""
    def __defaults__(self):
        self.tag = 'prop'
        self.k = 1.
        self.inputs = Data(omega=None, pitch_command=None)

    def spin(self, conditions):
        f = conditions.freestream
        V = np.ravel(conditions.frames.inertial.velocity_vector)[0]
        rho, om = np.ravel(f.density)[0], np.ravel(self.inputs.omega)[0]
        P = self.k * rho * om ** 3 * (1. + V / 100.) * (1. + np.ravel(self.inputs.pitch_command)[0])
        o = Data()
        for q, x in enumerate(('axial_induced_velocity', 'tangential_induced_velocity', 'radial_distribution', 'thrust_distribution', 'torque_distribution', 'tangential_velocity', 'axial_velocity')):
            o['disc_' + x] = np.full((1, 3, 4), float(q))
        one = np.ones((1, 1))
        self.seen = Data(T=np.ravel(f.temperature)[0], a=np.ravel(f.speed_of_sound)[0], mu=np.ravel(f.dynamic_viscosity)[0], M=np.ravel(f.mach_number)[0])
        return P / (V + 10.) * one, P / om * one, P * one, .1 * one, o, .8 * one


def vh_case():
    return record(W=logrng(500., 5e3), load=rng(60., 200.), CD0=rng(.015, .04), K=rng(.03, .06), dT=rng(-15., 30., [0.]), cl=rng(1.2, 2.), n=st.integers(1, 3), same=st.booleans(), grid=st.integers(3, 5), top=rng(1000., 6000.), vmax=rng(60., 140.), om=rng(60., 250.), k=rng(.2, 1.2), cap=rng(.3, 2.), pitch=rng(-.3, .3))


def v_h(c, ctx):
    S = c['W'] / c['load']
    par = dict(plane.STANDARD, S=S, m=c['W'], CD0=c['CD0'], K=c['K'])
    an = plane.analyses(par)
    g = float(an.atmosphere.planet.sea_level_gravity)
    W = c['W'] * g
    v = SUAVE.Vehicle()
    v.mass_properties.takeoff = c['W']
    v.reference_area = S
    Pref = W * 15.
    props = Data()
    for i in range(c['n']):
        p = Prop()
        p.k = c['k'] * Pref / c['om'] ** 3 * (1. if c['same'] else 1. + i) / c['n']
        props['p%d' % i] = p
    net = Data(tag='battery_propeller', number_of_propeller_engines=c['n'], identical_propellers=c['same'], propellers=props, battery=Data(max_power=c['cap'] * Pref))
    v.networks = Data(battery_propeller=net)
    with quiet():
        R = electric_V_h_diagram(v, an, c['cl'], delta_isa=c['dT'], grid_points=c['grid'], altitude_ceiling=c['top'], max_speed=c['vmax'], test_omega=c['om'], display_plot=False)
    same_shape(R, (c['grid'], c['grid']), 'climb rates')
    some = 0
    for i, V in enumerate(np.arange(c['grid']) * c['vmax'] / c['grid']):
        for j, z in enumerate(np.linspace(0., c['top'], c['grid'])):
            rho = air_at(z, c['dT'])[2]
            Vs = math.sqrt(2. * W / (rho * S * c['cl']))
            if abs(V / Vs - 1.) < 1e-3:
                continue
            want = 0.
            if V > Vs:
                q = .5 * rho * V ** 2
                D = q * S * (c['CD0'] + c['K'] * (W / (q * S)) ** 2)
                P = min(sum(p.k for p in props.values()) * rho * c['om'] ** 3 * (1. + V / 100.), c['cap'] * Pref)
                want = max(0., (P - D * V) / W) / (FT / 60.)
                some += want > 0.
            close(R[i, j], want, 5e-3, 1., 'climb rate, ft/min')
    ctx.hit(some > 0 and c['dT'] != 0.)
    # a propeller on its own
    p = Prop()
    z, V = .5 * c['top'], .7 * c['vmax']
    with quiet():
        same, r = propeller_single_point(p, c['pitch'], c['om'], z, c['dT'], V, analyses=an if c['same'] else None)
    require(same is p, 'another propeller returned')
    T, _, rho, a, mu = air_at(z, c['dT'])
    P = rho * c['om'] ** 3 * (1. + V / 100.) * (1. + c['pitch'])
    close([r.power, r.torque, r.thrust], [P, P / c['om'], P / (V + 10.)], 5e-4, 0., 'power, torque and thrust of a propeller')
    close([p.seen.T, p.seen.a, p.seen.mu, p.seen.M], [T, a, mu, V / a], 1e-3, 0., 'air shown to a propeller')
    for q, k in enumerate(('induced_axial_velocity', 'induced_tangential_velocity', 'radial_distribution', 'thrust_distribution', 'torque_distribution', 'tangential_velocity', 'axial_velocity')):
        close(r[k], np.full(3, float(q)), 0., 0., k)


PROPERTY = Property('C27', [
    Sub('costs', cost_case(), costs, quick=200, thorough=6000, rule='amortised over another number of units'),
    Sub('cash_flow', flow_case(), cash, quick=100, thorough=3000, rule='more than one year'),
    Sub('envelope', vn_case(), vn, quick=40, thorough=800, rule='a cruise gust exceeds the manoeuvre limit'),
    Sub('fields', field_case(), field, quick=80, thorough=2500, rule='hot or cold and high'),
    Sub('payload_range', pr_case(), pr, quick=12, thorough=200, rule='payload is traded for fuel'),
    Sub('electric_range', epr_case(), epr, quick=15, thorough=200, rule='every case'),
    Sub('speeds', sp_case(), speeds, quick=20, thorough=400, rule='best endurance above stall'),
    Sub('climb_map', vh_case(), v_h, quick=25, thorough=500, rule='climbs somewhere, off-standard day'),
], rule='see sub rules')

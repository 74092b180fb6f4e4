"""C23: empty weight breakdowns and the correlations behind them."""
import contextlib
import copy
import io
import math
import warnings

import numpy as np
import SUAVE
from hypothesis import strategies as st
from SUAVE.Core import Data, Units
from SUAVE.Components import Wings
from SUAVE.Methods.Weights.Correlations import General_Aviation as GA, Human_Powered as HPW, UAV, BWB
from SUAVE.Methods.Weights.Correlations import Propulsion as WP
from SUAVE.Methods.Weights.Correlations.Common.wing_main import wing_main
from SUAVE.Methods.Weights.Correlations.General_Aviation.wing_main import wing_main as ga_wing
from SUAVE.Methods.Weights.Correlations.General_Aviation.tail_horizontal import tail_horizontal as ga_tail_h
from SUAVE.Methods.Weights.Correlations.General_Aviation.tail_vertical import tail_vertical as ga_tail_v
from SUAVE.Methods.Weights.Correlations.General_Aviation.landing_gear import landing_gear as ga_gear
from SUAVE.Methods.Weights.Buildups.eVTOL import empty as evtol_empty
from SUAVE.Methods.Weights.Buildups.eVTOL.converge_evtol_weight import converge_evtol_weight
from SUAVE.Methods.Weights.Buildups.Common.prop import prop as prop_mass
from SUAVE.Methods.Weights.Buildups.Common.wing import wing as wing_mass
from SUAVE.Methods.Weights.Buildups.Common.fuselage import fuselage as fuse_mass
from SUAVE.Methods.Weights.Buildups.Common.wiring import wiring as wire_mass
from SUAVE.Methods.Weights.Cooling.Cryogen.Consumption.Coolant_use import Coolant_use
from SUAVE.Methods.Weights.Dynamo_Supply.dynamo_supply_mass_estimation import dynamo_supply_mass_estimation
from lib import refweights as R
from lib.refatm import std
from lib.refweights import V, LB, FT
from lib.prop import Property, Sub, require, fail, close, same_shape, finite, monotone, Discard
from lib.strat import rng, inner, logrng, vec, record

RT = 1e-9
DEG = math.pi / 180.


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        return f(*a, **k)


# ------------------------------------------------------------------ a transport
wing_p = record(S=logrng(20., 500.), AR=rng(4., 14.), taper=rng(.1, .9), tc=rng(.07, .18), sweep=rng(-5., 38.), flap=rng(.05, .5), dih=rng(-2., 8.))
tail_p = record(f=rng(.08, .4), AR=rng(1.2, 6.), taper=rng(.15, .9), tc=rng(.07, .14), sweep=rng(0., 45.), arm=rng(.3, 1.), wet=rng(.6, 1.))
ACC = ['short-range', 'medium-range', 'long-range', 'business', 'commuter', 'cargo', 'sst', 'other']
planes = record(pax=st.one_of(st.integers(0, 420), st.sampled_from([5, 6, 40, 50, 51, 79, 80, 120, 149, 150, 160, 249, 250, 300, 301])), acc=st.sampled_from(ACC),
                ctrl=st.sampled_from(['fully powered', 'partially powered', 'unpowered', 'none']), cargo=st.one_of(rng(0., 30000.), st.sampled_from([0., 950. * LB * 1.0001])), mtow=logrng(5e3, 4e5), mz=rng(.6, .95),
                N=rng(2.5, 6.), Sref=rng(.8, 1.3), mach=rng(.4, .95), range=st.one_of(logrng(4e5, 1.4e7), st.sampled_from([899. * R.NMI, 901. * R.NMI, 2899. * R.NMI, 2901. * R.NMI])),
                alt=rng(3e3, 13e3), coach=st.one_of(st.none(), rng(.3, 1.)), w=wing_p, h=tail_p, v=tail_p, tt=st.booleans(), twin=st.booleans(),
                f=record(l=rng(12., 75.), w=rng(1.6, 7.), hr=rng(.85, 1.2), dp=rng(2e4, 7e4), wet=rng(2.2, 3.)), F=logrng(8e3, 4e5), neng=st.integers(1, 4), won=st.lists(st.booleans(), min_size=4, max_size=4),
                nac=record(d=rng(.7, 3.8), l=rng(1.5, 6.), y=rng(1., 15.)), nw=rng(1., 5.), kf=st.tuples(rng(0., .3), rng(0., .3), rng(0., .3)), st=st.one_of(st.none(), st.none(), rng(.02, .4)),
                flops=st.tuples(rng(0., 1.), rng(0., 1.), rng(0., 1.)), klg=st.sampled_from([1., 1.12]), gear=record(lm=rng(.5, 3.), ln=rng(.4, 2.), nm=st.integers(1, 8), nn=st.integers(1, 4)), tanks=st.integers(0, 3), box=st.booleans())


def lifting(cls, tag, S, b, taper, tc, sweep, x):
    w = cls()
    w.tag = tag
    c = 2. * S / b / (1. + taper)
    w.areas.reference, w.spans.projected, w.taper, w.thickness_to_chord = S, b, taper, tc
    w.sweeps.quarter_chord = sweep
    w.aspect_ratio = b * b / S
    w.chords.root, w.chords.tip = c, c * taper
    w.chords.mean_aerodynamic = 2. / 3. * c * (1 + taper + taper ** 2) / (1 + taper)
    w.aerodynamic_center = [.25 * w.chords.mean_aerodynamic, 0., 0.]
    w.origin = [[x, 0., 0.]]
    w.areas.wetted, w.areas.exposed = 2. * S, 2. * S
    return w


def transport(c, reverse=False, frac=None):
    """The vehicle and the plain numbers it was built from."""
    v = SUAVE.Vehicle()
    p = c['w']
    main = lifting(Wings.Main_Wing, 'main_wing', p['S'], math.sqrt(p['S'] * p['AR']), p['taper'], p['tc'], p['sweep'] * DEG, .35 * c['f']['l'])
    main.flap_ratio, main.dihedral = p['flap'], p['dih'] * DEG
    h = c['h']
    ht = lifting(Wings.Horizontal_Tail, 'horizontal_stabilizer', h['f'] * p['S'], math.sqrt(h['f'] * p['S'] * h['AR']), h['taper'], h['tc'], h['sweep'] * DEG, main.origin[0][0] + h['arm'] * .6 * c['f']['l'] + 2.)
    ht.areas.exposed = h['wet'] * ht.areas.wetted
    u = c['v']
    vt = lifting(Wings.Vertical_Tail, 'vertical_stabilizer', u['f'] * p['S'], math.sqrt(u['f'] * p['S'] * u['AR']), u['taper'], u['tc'], u['sweep'] * DEG, main.origin[0][0] + u['arm'] * .6 * c['f']['l'] + 2.)
    vt.t_tail = c['tt']
    ws = [main, ht, vt]
    if c['twin']:
        v2 = copy.deepcopy(vt)
        v2.tag = 'vertical_stabilizer_2'
        ws.append(v2)
    for k in range(c['tanks']):
        t = SUAVE.Components.Physical_Component()
        t.tag = 'tank_%d' % k
        main.Fuel_Tanks.append(t)
    for w in (reversed(ws) if reverse else ws):
        v.append_component(w)
    f = SUAVE.Components.Fuselages.Fuselage()
    f.tag = 'fuselage'
    q = c['f']
    f.lengths.total, f.width, f.heights.maximum, f.differential_pressure, f.areas.wetted = q['l'], q['w'], q['w'] * q['hr'], q['dp'], q['wet'] * q['l'] * q['w']
    f.effective_diameter = .5 * (f.width + f.heights.maximum)
    if c['coach'] is None:
        if hasattr(f, 'number_coach_seats'):
            del f['number_coach_seats']
    else:
        f.number_coach_seats = math.floor(c['coach'] * c['pax'])
    v.append_component(f)
    n = c['neng']
    for k in range(n):
        nc = SUAVE.Components.Nacelles.Nacelle()
        nc.tag, nc.diameter, nc.length = 'nacelle_%d' % (k + 1), c['nac']['d'], c['nac']['l']
        v.append_component(nc)
    net = SUAVE.Components.Energy.Networks.Turbofan()
    net.tag = 'turbofan'
    net.number_of_engines, net.sealevel_static_thrust = n, c['F']
    net.wing_mounted = list(c['won'][:n])
    net.origin = [[10., (-1) ** k * c['nac']['y'], 0.] for k in range(n)]
    v.append_component(net)
    g = c['gear']
    if not c['box']:
        v.landing_gear = SUAVE.Components.Landing_Gear.Landing_Gear()
    v.landing_gear.main_strut_length, v.landing_gear.nose_strut_length, v.landing_gear.main_wheels, v.landing_gear.nose_wheels = g['lm'], g['ln'], g['nm'], g['nn']
    v.mass_properties.max_takeoff, v.mass_properties.max_zero_fuel, v.mass_properties.cargo = c['mtow'], c['mtow'] * c['mz'], c['cargo']
    v.mass_properties.takeoff = c['mtow']
    v.envelope.ultimate_load, v.envelope.limit_load = c['N'], c['N'] / 1.5
    v.reference_area = c['Sref'] * p['S']
    v.passengers = c['pax']
    v.systems.control, v.systems.accessories = c['ctrl'], c['acc']
    v.design_mach_number, v.design_range, v.design_cruise_alt = c['mach'], c['range'], c['alt']
    a = SUAVE.Analyses.Weights.Weights_Transport()
    a.vehicle = v
    a.settings.weight_reduction_factors.main_wing, a.settings.weight_reduction_factors.fuselage, a.settings.weight_reduction_factors.empennage = c['kf']
    if c['st'] is not None:
        a.settings.weight_reduction_factors.structural = c['st']
    a.settings.FLOPS.aeroelastic_tailoring_factor, a.settings.FLOPS.strut_braced_wing_factor, a.settings.FLOPS.composite_utilization_factor = c['flops']
    a.settings.Raymer.fuselage_mounted_landing_gear_factor = c['klg']
    # plain numbers
    nv = V(mtow=c['mtow'], mzfw=c['mtow'] * c['mz'], Nult=c['N'], Nlim=c['N'] / 1.5, Sref=v.reference_area, pax=c['pax'], acc=c['acc'], ctrl=c['ctrl'], cargo=c['cargo'], range=c['range'], mach=c['mach'],
           coach=None if c['coach'] is None else f.number_coach_seats)

    def wv(w, **k):
        return V(S=w.areas.reference, b=w.spans.projected, taper=w.taper, tc=w.thickness_to_chord, sweep=w.sweeps.quarter_chord, x=w.origin[0][0], ac=w.aerodynamic_center[0], mac=w.chords.mean_aerodynamic,
                 exposed=w.areas.exposed, wetted=w.areas.wetted, AR=w.aspect_ratio, root=w.chords.root, t_tail=c['tt'], **k)
    num = V(v=nv, main=wv(main, flap=p['flap'], dihedral=main.dihedral), h=wv(ht), u=wv(vt), nv=2 if c['twin'] else 1,
            f=V(l=f.lengths.total, w=f.width, h=f.heights.maximum, dp=f.differential_pressure, wet=f.areas.wetted), e=V(thrust=c['F'], n=n, wing=[bool(x) for x in c['won'][:n]]),
            nac=V(**{k: c['nac'][k] for k in ('d', 'l')}), y=c['nac']['y'], g=V(**c['gear']), s=V(faert=c['flops'][0], fstrt=c['flops'][1], fcomp=c['flops'][2]))
    return v, a, num


STRUCT = ('wing', 'horizontal_tail', 'vertical_tail', 'fuselage', 'main_landing_gear', 'nose_landing_gear', 'nacelle', 'paint')
SYS = ('control_systems', 'apu', 'electrical', 'avionics', 'hydraulics', 'furnish', 'air_conditioner', 'instruments')


def scalar(x):
    return float(np.asarray(x).reshape(-1)[0])


def books(v, r, ctx, fam, struct=STRUCT, syst=SYS, payload=True):
    """Sums of a breakdown and the masses it leaves on the components."""
    close(scalar(r.structures.total), sum(scalar(r.structures[k]) for k in struct), rtol=RT, what='structures total')
    close(scalar(r.systems_breakdown.total), sum(scalar(r.systems_breakdown[k]) for k in syst), rtol=RT, atol=1e-9, what='systems total')
    close(scalar(r.empty), scalar(r.structures.total) + scalar(r.propulsion_breakdown.total) + scalar(r.systems_breakdown.total), rtol=RT, what='empty weight')
    o = r.operational_items
    if 'operating_items_less_crew' in o:
        close(scalar(o.total), scalar(o.operating_items_less_crew) + scalar(o.flight_crew) + scalar(o.flight_attendants), rtol=RT, what='operational items')
    close(scalar(r.operating_empty), scalar(r.empty) + scalar(o.total), rtol=RT, what='operating empty weight')
    if payload:
        b = r.payload_breakdown
        close(scalar(b.total), scalar(b.passengers) + scalar(b.baggage) + scalar(b.cargo), rtol=RT, atol=1e-9, what='payload total')
    close(scalar(r.zero_fuel_weight), scalar(r.operating_empty) + scalar(r.payload_breakdown.total), rtol=RT, what='zero fuel weight')
    close(scalar(r.fuel), v.mass_properties.max_takeoff - scalar(r.zero_fuel_weight), rtol=RT, atol=1e-9 * v.mass_properties.max_takeoff, what='fuel')
    for k in ('passengers', 'baggage', 'cargo'):
        close(scalar(v.payload[k].mass_properties.mass), scalar(r.payload_breakdown[k]), rtol=RT, what='mass of the payload component ' + k)
    for k in ('main', 'nose'):
        close(scalar(v.landing_gear[k].mass_properties.mass), scalar(r.structures[k + '_landing_gear']), rtol=RT, what='mass of the %s gear' % k)


def flat(r, pre=''):
    o = {}
    for k, x in r.items():
        if isinstance(x, dict):
            o.update(flat(x, pre + k + '.'))
        elif np.size(x) == 1:
            o[pre + k] = scalar(x)
    return o


def agree(r1, r2, what, rtol=RT):
    a, b = flat(r1), flat(r2)
    require(set(a) == set(b), '%s: entries %s', what, sorted(set(a) ^ set(b)))
    for k in a:
        close(a[k], b[k], rtol=rtol, atol=1e-9 * abs(a.get('empty', 1.)), what='%s: %s' % (what, k))


def factors(c):
    if c['st'] is not None and c['st'] != 0.:
        s = 1. - c['st']
        return s, s, s
    return tuple(1. - k for k in c['kf'])


def usable(c):
    q = c['f']
    if c['range'] * 9e-5 / R.NMI > .95 or q['l'] < 2. * q['w'] * (1. + q['hr']) / 2.:
        raise Discard                                       # outside the correlations: a fuselage as wide as it is long


def check_suave(c, ctx):
    v, a, n = transport(c)
    if c['mtow'] * c['mz'] < 1.2 * R.propulsion(c['F'], c['neng']) + R.wing_simple(n.v, n.main):
        raise Discard                                       # nothing left for the fuselage to carry
    r = quiet(a.evaluate, method='SUAVE')
    kw, kf, ke = factors(c)
    prop = R.propulsion(c['F'], c['neng'])
    wing = R.wing_simple(n.v, n.main) * kw
    want = dict(wing=wing, horizontal_tail=R.tail_h(n.v, n.h, n.main) * ke, vertical_tail=R.tail_v(n.v, n.u) * ke * n.nv, fuselage=R.tube(n.v, n.f, n.main, wing, prop) * kf,
                main_landing_gear=.036 * c['mtow'], nose_landing_gear=.004 * c['mtow'], nacelle=0., paint=0.)
    for k in STRUCT:
        close(scalar(r.structures[k]), want[k], rtol=1e-8, what='SUAVE ' + k)
    close(scalar(r.propulsion_breakdown.total), prop, rtol=1e-8, what='propulsion')
    sw = R.systems(n.v, n.h.S + n.nv * n.u.S)
    for k in SYS:
        close(scalar(r.systems_breakdown[k]), sw[k], rtol=1e-8, what='systems ' + k)
    ow = R.oper(n.v)
    for k in ow:
        close(scalar(r.operational_items[k]), ow[k], rtol=1e-8, what=k)
    pw = R.payload(n.v)
    for k in pw:
        close(scalar(r.payload_breakdown[k]), pw[k], rtol=1e-8, what='payload ' + k)
    shared(v, a, r, c, ctx, 'SUAVE')
    crew = scalar(r.operational_items.flight_crew) + scalar(r.operational_items.flight_attendants)
    out = 0. if c['box'] else .04 * c['mtow']                # a gear put in place of the container is not part of the sum
    close(scalar(v.sum_mass()), c['mtow'] - crew - out, rtol=1e-9, what='sum of the component masses, which leave out the crew')
    ctx.hit(c['acc'], 'twin fin' if c['twin'] else 'one fin', 'structural factor' if c['st'] else 'single factors')


def shared(v, a, r, c, ctx, method, payload=True):
    books(v, r, ctx, method, payload=payload)
    close(scalar(v.wings.main_wing.mass_properties.mass), scalar(r.structures.wing), rtol=RT, what='mass of the main wing')
    close(scalar(v.wings.horizontal_stabilizer.mass_properties.mass), scalar(r.structures.horizontal_tail), rtol=RT, what='mass of the horizontal tail')
    close(sum(scalar(w.mass_properties.mass) for w in v.wings if isinstance(w, Wings.Vertical_Tail)), scalar(r.structures.vertical_tail), rtol=RT, what='mass of the vertical tails')
    close(scalar(v.fuselages.fuselage.mass_properties.mass), scalar(r.structures.fuselage), rtol=RT, what='mass of the fuselage')
    close(scalar(v.networks.turbofan.mass_properties.mass), scalar(r.propulsion_breakdown.total), rtol=RT, what='mass of the network')
    s = v.systems
    for k, want in (('control_systems', r.systems_breakdown.control_systems), ('electrical_systems', r.systems_breakdown.electrical), ('furnishings', r.systems_breakdown.furnish), ('apu', r.systems_breakdown.apu),
                    ('avionics', r.systems_breakdown.avionics + r.systems_breakdown.instruments), ('air_conditioner', r.systems_breakdown.air_conditioner), ('hydraulics', r.systems_breakdown.hydraulics),
                    ('optionals', r.operational_items.operating_items_less_crew), ('fuel', r.fuel)):
        close(scalar(s[k].mass_properties.mass), scalar(want), rtol=RT, what='mass of ' + k)
    require(v.weight_breakdown is r, 'the vehicle does not carry the breakdown')
    # evaluating again, or with the wings listed the other way round, changes nothing
    agree(r, quiet(a.evaluate, method=method), 'a second evaluation')
    a2 = transport(c, reverse=True)[1]
    agree(r, quiet(a2.evaluate, method=method), 'wings in reverse order')


def check_flops(c, ctx):
    usable(c)
    v, a, n = transport(c)
    r = quiet(a.evaluate, method='FLOPS Simple')
    kw, kf, ke = factors(c)
    pw = R.flops_prop(n.v, n.e, n.nac, n.e.n)
    want = dict(horizontal_tail=R.flops_tail_h(n.v, n.h) * ke, vertical_tail=R.flops_tail_v(n.v, n.u) * ke * n.nv, nacelle=pw['nacelle'], paint=0.,
                fuselage=R.flops_fuselage(n.v, n.f, n.e, float(std(c['alt'])['p'] / std(0.)['p'])) * kf)
    ww = R.flops_wing_simple(n.v, n.main, n.e, n.s, 1) * kw
    if isinstance(ww, complex) or not ww > 0:
        raise Discard
    want['wing'] = ww
    g = R.flops_gear(n.v, n.e, n.f, n.nac, n.main, n.y)
    if not isinstance(g[0], complex):
        want['main_landing_gear'], want['nose_landing_gear'] = g
    for k in want:
        close(scalar(r.structures[k]), want[k], rtol=1e-7, what='FLOPS ' + k)
    b = r.propulsion_breakdown
    for k, w in (('engines', pw['engines']), ('thrust_reversers', pw['thrust_reversers']), ('miscellaneous', pw['controls'] + pw['starter']), ('fuel_system', pw['fuel_system']), ('total', sum(pw.values()))):
        close(scalar(b[k]), w, rtol=1e-8, what='propulsion ' + k)
    sw = R.flops_systems(n.v, n.e, n.f, n.main)
    for k in SYS:
        if k != 'air_conditioner':                             # its ice protection leaves the nacelles out: recorded
            close(scalar(r.systems_breakdown[k]), sw[k], rtol=1e-8, what='systems ' + k)
    ac, full = scalar(r.systems_breakdown.air_conditioner), sw['air_conditioner'] + 3.8 * n.nac.d / FT * n.e.n * LB
    require(abs(ac - sw['air_conditioner']) < 1e-8 * full or abs(ac - full) < 1e-8 * full, 'air conditioning and ice protection %r, expected %r (%r without the nacelles)', ac, full, sw['air_conditioner'])
    ow = R.flops_oper(n.v, n.e, c['tanks'])
    for k in ow:
        close(scalar(r.operational_items[k]), ow[k], rtol=1e-8, what=k)
    py = R.flops_payload(n.v)
    for k in py:
        close(scalar(r.payload_breakdown[k]), py[k], rtol=1e-8, what='payload ' + k)
    tot = scalar(r.payload_breakdown.total)                    # the cargo enters in pounds: recorded
    low = py['passengers'] + py['baggage']
    require(abs(tot - low - c['cargo']) < 1e-8 * (tot + 1) or abs(tot - low - c['cargo'] / LB) < 1e-8 * (tot + 1), 'payload total %r of passengers and baggage %r and cargo %r', tot, low, c['cargo'])
    if np.isfinite(scalar(r.empty)):
        shared(v, a, r, c, ctx, 'FLOPS Simple', payload=False)
    ctx.hit(c['acc'], 'seats given' if c['coach'] is not None else 'seats split', 'wing engines' if sum(n.e.wing) else 'body engines')


def check_raymer(c, ctx):
    usable(c)
    v, a, n = transport(c)
    r = quiet(a.evaluate, method='Raymer')
    kw, kf, ke = factors(c)
    pw = R.raymer_prop(n.v, n.e, n.nac, n.e.n, n.f)
    # the nacelle correlation is fed with kilograms: recorded
    g = R.raymer_gear(n.v, n.g)
    fus = R.raymer_fuselage(n.v, n.f, n.main, c['klg'])
    want = dict(wing=R.raymer_wing(n.v, n.main) * kw, horizontal_tail=R.raymer_tail_h(n.v, n.h, n.main, n.f) * ke, vertical_tail=R.raymer_tail_v(n.v, n.u, n.main) * ke * n.nv,
                main_landing_gear=g[0], nose_landing_gear=g[1], paint=0.)
    if not isinstance(fus, complex):
        want['fuselage'] = fus * kf
    for k in want:
        close(scalar(r.structures[k]), want[k], rtol=1e-7, what='Raymer ' + k)
    close(scalar(r.propulsion_breakdown.engines), pw['engines'], rtol=1e-8, what='engines')
    close(scalar(r.propulsion_breakdown.fuel_system), pw['fuel_system'], rtol=1e-8, what='fuel system')
    close(scalar(r.propulsion_breakdown.total), sum(scalar(r.propulsion_breakdown[k]) for k in ('engines', 'thrust_reversers', 'miscellaneous', 'fuel_system')) + scalar(r.structures.nacelle), rtol=RT, what='propulsion total')
    sw = R.raymer_systems(n.v, n.e, n.f, n.main)
    for k in SYS:
        close(scalar(r.systems_breakdown[k]), sw[k], rtol=1e-7, what='systems ' + k)
    shared(v, a, r, c, ctx, 'Raymer')
    ctx.hit(c['acc'])


def check_other(c, ctx):
    """Methods whose wing needs integration: bookkeeping, and every part but the wing as in their simple versions."""
    usable(c)
    c = dict(c)
    for method, simple in (('New SUAVE', 'SUAVE'), ('FLOPS Complex', 'FLOPS Simple')):
        if method == 'FLOPS Complex':
            c['won'] = [False] * 4 if c['neng'] % 2 else [c['won'][0]] * 4
        v, a, n = transport(c)
        if method == 'New SUAVE' and c['mtow'] * c['mz'] < 1.2 * R.propulsion(c['F'], c['neng']) + R.wing_simple(n.v, n.main):
            continue
        segs(v.wings.main_wing, [(0., 1., c['w']['tc'] * 1.1), (.35, .7, c['w']['tc']), (1., c['w']['taper'] * .6 + .05, c['w']['tc'] * .8)], c['w']['sweep'] * DEG)
        r = quiet(a.evaluate, method=method)
        if not np.isfinite(scalar(r.empty)):
            continue
        if method == 'New SUAVE' or not any(c['won']):
            require(scalar(r.structures.wing) > 0., '%s: wing mass %r', method, r.structures.wing)
        books(v, r, ctx, method, payload='FLOPS' not in method)
        v2, a2, _ = transport(c)
        r2 = quiet(a2.evaluate, method=simple)
        x, y = flat(r), flat(r2)
        for k in x:
            if k.startswith(('systems', 'payload', 'operational', 'propulsion')) or k.startswith('structures') and k not in ('structures.wing', 'structures.total', 'structures.fuselage'):
                close(x[k], y[k], rtol=RT, what='%s against %s: %s' % (method, simple, k))
        # the wing factor acts on the wing alone
        c3 = dict(c, kf=[.25] + list(c['kf'][1:]), st=None)
        c4 = dict(c3, kf=[0.] + list(c['kf'][1:]))
        m = []
        for cc in (c3, c4):
            v3, a3, _ = transport(cc)
            segs(v3.wings.main_wing, [(0., 1., c['w']['tc'] * 1.1), (.35, .7, c['w']['tc']), (1., c['w']['taper'] * .6 + .05, c['w']['tc'] * .8)], c['w']['sweep'] * DEG)
            m.append(scalar(quiet(a3.evaluate, method=method).structures.wing))
        close(m[0], .75 * m[1], rtol=RT, what='%s: wing with a quarter taken off' % method)
        ctx.hit(method)
    # the FLOPS wing: only the bending material feels thickness and load factor, and its share follows from one evaluation
    c['won'] = [False] * 4
    c['kf'], c['st'] = (0., 0., 0.), None
    rows = [(0., 1., c['w']['tc'] * 1.1), (.35, .7, c['w']['tc']), (1., c['w']['taper'] * .6 + .05, c['w']['tc'] * .8)]

    def wing(N=1., k=1., rows=rows):
        v, a, n = transport(dict(c, N=c['N'] * N))
        segs(v.wings.main_wing, [(y, ch, t * k) for y, ch, t in rows], c['w']['sweep'] * DEG)
        return scalar(quiet(a.evaluate, method='FLOPS Complex').structures.wing)
    n = transport(c)[2]
    A = (.25, .5, .5, .16, 1.2) if c['acc'] in ('business', 'commuter') else (.68, .34, .6, .035, 1.5)
    S, DG, fc = n.main.S / FT ** 2, c['mtow'] / LB, c['flops'][2]
    rest = A[0] * (1 - .17 * fc) * (n.main.flap * S) ** A[1] * DG ** A[2] + A[3] * (1 - .3 * fc) * S ** A[4]
    w = wing() / LB
    if not np.isfinite(w):
        raise Discard
    X = (w - rest) / (DG - w)
    if rest > .5 * DG or not 1e-3 < X < .8:
        raise Discard
    for N, k in ((1.6, 1.), (1., c['nw']), (2., 2.)):
        x = X * N / k
        close(wing(N, k) / LB, (DG * x + rest) / (1. + x), rtol=1e-7, what='FLOPS wing at %g times the load factor and %g times the thickness' % (N, k))
    ctx.hit('bending share %.1f' % X)


# ------------------------------------------------------------------ the segmented wing
def segs(w, rows, sweep):
    for k, (y, ch, tc) in enumerate(rows):
        s = SUAVE.Components.Wings.Segment()
        s.tag = 'segment_%d' % k
        s.percent_span_location, s.root_chord_percent, s.thickness_to_chord = y, ch, tc
        s.sweeps.quarter_chord = sweep if np.isscalar(sweep) else sweep[k]
        s.dihedral_outboard, s.twist = 0., 0.
        w.append_segment(s)


segwings = record(S=logrng(10., 500.), AR=rng(4., 16.), N=rng(2.5, 6.), mtow=logrng(2e3, 4e5), mz=rng(.6, .95), frac=rng(.5, 1.), sweep=rng(0., 40.), root=rng(1., 10.), t0=rng(.08, .18),
                  drop=st.lists(rng(.5, .9), min_size=1, max_size=4), cut=st.lists(rng(.1, 1.), min_size=4, max_size=4), split=rng(.1, .9), kt=rng(.5, 2.), kn=rng(1.1, 3.))


def seg_wing(c, rows, sweep, N=None, mtow=None, mz=None, kt=1.):
    v = SUAVE.Vehicle()
    b = math.sqrt(c['S'] * c['AR'])
    w = lifting(Wings.Main_Wing, 'main_wing', c['S'], b, .5, .1, sweep, 0.)
    w.chords.root = c['root']
    segs(w, [(y, ch, tc * kt) for y, ch, tc in rows], sweep)
    v.reference_area = c['S'] / c['frac']
    v.envelope.ultimate_load = N or c['N']
    v.mass_properties.max_takeoff = mtow or c['mtow']
    v.mass_properties.max_zero_fuel = mz or c['mtow'] * c['mz']
    al = SUAVE.Attributes.Solids.Aluminum()
    return scalar(quiet(wing_main, v, w, al.density, al.yield_tensile_strength, computation_type='segmented'))


def check_segmented(c, ctx):
    ys = np.cumsum([0.] + c['cut'][:len(c['drop'])])
    ys = list(ys / ys[-1])
    if min(np.diff(ys)) < .08:
        raise Discard
    ct = [1.]
    for d in c['drop']:
        ct.append(ct[-1] * d)
    if ct[-1] < .12:
        raise Discard
    # thickness to chord held: the local thickness is then linear between sections
    rows = [(y, k, c['t0']) for y, k in zip(ys, ct)]
    for (ya, ca, _), (yb, cb, _) in zip(rows, rows[1:]):
        if abs(ca + (cb - ca) / (yb - ya) * (1. - ya)) < .02:
            raise Discard                                   # a panel pointing at a vanishing chord at the wing tip: recorded
    base = 4.22 * c['S'] / FT ** 2 * LB
    sw = c['sweep'] * DEG
    w = seg_wing(c, rows, sw)
    bend = w - base
    require(bend > 0, 'bending material %r', bend)
    tol = dict(rtol=1e-5, atol=1e-6 * abs(w))
    close(seg_wing(c, rows, sw, N=c['N'] * c['kn']) - base, bend * c['kn'], what='bending material at a higher load factor', **tol)
    close(seg_wing(c, rows, sw, mtow=c['mtow'] * c['kn'], mz=c['mtow'] * c['mz'] / c['kn']), w, what='bending material for the same product of masses', **tol)
    close(seg_wing(c, rows, sw, mtow=c['mtow'] * c['kn'] ** 2) - base, bend * c['kn'], what='bending material of a heavier aircraft', **tol)
    close(seg_wing(c, rows, 0.) - base, bend * math.cos(sw) ** 2, what='bending material unswept', **tol)
    close(seg_wing(c, rows, sw, kt=c['kt']) - base, bend / c['kt'], what='bending material of a thicker wing', **tol)
    # an extra section on the straight line between two others is not a change
    k = len(rows) // 2
    (y1, c1, t), (y2, c2, _) = rows[k - 1], rows[k]
    ym = y1 + c['split'] * (y2 - y1)
    cm = c1 + c['split'] * (c2 - c1)
    if min(ym - y1, y2 - ym) > .05:
        more = rows[:k] + [(ym, cm, t)] + rows[k:]
        close(seg_wing(c, more, sw), w, rtol=1e-4, what='wing mass with an extra section')
        ctx.hit('split')
    ctx.hit('%d segments' % (len(rows) - 1))


# ------------------------------------------------------------------ blended wing body, general aviation
bwbs = record(pax=st.integers(0, 500), acc=st.sampled_from(ACC), ctrl=st.sampled_from(['fully powered', 'partially powered', 'none']), cargo=rng(0., 3e4), mtow=logrng(2e4, 5e5), mz=rng(.6, .95), N=rng(2.5, 5.), Sref=rng(.8, 1.2),
              w=wing_p, aft=rng(5., 200.), afttap=rng(.2, 1.), cab=rng(30., 400.), F=logrng(2e4, 4e5), neng=st.integers(1, 4), other=st.one_of(st.none(), rng(0., 2e4)), tail=st.booleans())


def bwb_plane(c):
    v = SUAVE.Vehicle()
    p = c['w']
    main = lifting(Wings.Main_Wing, 'main_wing', p['S'], math.sqrt(p['S'] * p['AR']), p['taper'], p['tc'], p['sweep'] * DEG, 5.)
    v.append_component(main)
    if c['tail']:
        v.append_component(lifting(Wings.Vertical_Tail, 'vertical_stabilizer', .1 * p['S'], 5., .5, .1, .3, 20.))
    f = SUAVE.Components.Fuselages.Fuselage()
    f.tag = 'fuselage_bwb'
    f.aft_centerbody_area, f.aft_centerbody_taper, f.cabin_area = c['aft'], c['afttap'], c['cab']
    v.append_component(f)
    net = SUAVE.Components.Energy.Networks.Turbofan() if c['other'] is None else SUAVE.Components.Energy.Networks.Network()
    net.tag = 'turbofan' if c['other'] is None else 'electric'
    net.number_of_engines = c['neng']
    net.sealevel_static_thrust = c['F']
    if c['other'] is not None:
        net.mass_properties.mass = c['other']
    v.append_component(net)
    v.mass_properties.max_takeoff, v.mass_properties.max_zero_fuel, v.mass_properties.cargo = c['mtow'], c['mtow'] * c['mz'], c['cargo']
    v.envelope.ultimate_load, v.envelope.limit_load = c['N'], c['N'] / 1.5
    v.reference_area = c['Sref'] * p['S']
    v.passengers = c['pax']
    v.systems.control, v.systems.accessories = c['ctrl'], c['acc']
    return v


def check_bwb(c, ctx):
    v = bwb_plane(c)
    a = SUAVE.Analyses.Weights.Weights_BWB()
    a.vehicle = v
    r = quiet(a.evaluate)
    m = v.wings.main_wing
    n = V(mtow=c['mtow'], mzfw=c['mtow'] * c['mz'], Nult=c['N'], Nlim=c['N'] / 1.5, Sref=v.reference_area, pax=c['pax'], acc=c['acc'], ctrl=c['ctrl'], cargo=c['cargo'])
    W = c['mtow'] / LB
    prop = R.propulsion(c['F'], c['neng']) if c['other'] is None else c['other']
    want = dict(wing=R.wing_simple(n, V(S=m.areas.reference, b=m.spans.projected, taper=m.taper, tc=m.thickness_to_chord, sweep=m.sweeps.quarter_chord)),
                fuselage=5.698865 * .316422 * W ** .166552 * (c['cab'] / FT ** 2) ** 1.061158 * LB, afterbody=(1 + .05 * c['neng']) * .53 * c['aft'] / FT ** 2 * W ** .2 * (c['afttap'] + .5) * LB,
                main_landing_gear=.036 * c['mtow'], nose_landing_gear=.004 * c['mtow'], nacelle=0., paint=0.)
    for k in want:
        close(scalar(r.structures[k]), want[k], rtol=1e-8, what='BWB ' + k)
    close(scalar(r.propulsion_breakdown.total), prop, rtol=1e-8, what='BWB propulsion')
    tails = sum(w.areas.reference for w in v.wings if isinstance(w, Wings.Vertical_Tail)) or .01 * m.areas.reference
    sw = R.systems(n, tails)
    for k in SYS:
        close(scalar(r.systems_breakdown[k]), sw[k], rtol=1e-8, what='systems ' + k)
    for k, x in R.oper(n).items():
        close(scalar(r.operational_items[k]), x, rtol=1e-8, what=k)
    for k, x in R.payload(n).items():
        close(scalar(r.payload_breakdown[k]), x, rtol=1e-8, what='payload ' + k)
    books(v, r, ctx, 'BWB', struct=('wing', 'afterbody', 'fuselage', 'main_landing_gear', 'nose_landing_gear', 'nacelle', 'paint'), syst=SYS + ('anti_ice',))
    close(scalar(v.wings.main_wing.mass_properties.mass), want['wing'], rtol=1e-8, what='mass of the wing')
    close(scalar(v.fuselages.fuselage_bwb.mass_properties.mass), want['fuselage'], rtol=1e-8, what='mass of the cabin')
    require(isinstance(v.landing_gear.nose, SUAVE.Components.Landing_Gear.Nose_Landing_Gear) and isinstance(v.landing_gear.main, SUAVE.Components.Landing_Gear.Main_Landing_Gear), 'gear classes swapped')
    agree(r, quiet(a.evaluate), 'a second evaluation')
    ctx.hit('turbofan' if c['other'] is None else 'given propulsion mass', c['acc'], 'tail' if c['tail'] else 'no tail')


gas = record(N=rng(2.5, 6.), mtow=logrng(600., 6000.), fuel=rng(.03, .3), q=logrng(500., 1e4), mach=rng(.1, .5), pax=st.integers(0, 9), cargo=rng(0., 400.), w=wing_p, h=tail_p, v=tail_p, tt=st.booleans(), S=logrng(10., 40.),
             fus=record(l=rng(4., 12.), w=rng(.8, 2.), hr=rng(.8, 1.3), wet=rng(2.2, 3.), dp=rng(1e2, 4e4), vol=rng(2., 20.), seats=st.integers(1, 8)), P=logrng(5e4, 5e5), F=logrng(2e3, 2e4), kind=st.sampled_from(['piston', 'fan', 'given']), neng=st.integers(1, 3), given=rng(50., 500.),
             tanks=st.integers(1, 4), vint=rng(0., .5), rho=rng(650., 850.), uav=rng(1., 60.), ac=st.booleans(), lm=rng(.3, 2.), ln=rng(.3, 1.5))


def ga_plane(c):
    v = SUAVE.Vehicle()
    p = c['w']
    S = c['S']
    main = lifting(Wings.Main_Wing, 'main_wing', S, math.sqrt(S * p['AR']), p['taper'], p['tc'], p['sweep'] * DEG, .35 * c['fus']['l'])
    h, u = c['h'], c['v']
    ht = lifting(Wings.Horizontal_Tail, 'horizontal_stabilizer', h['f'] * S, math.sqrt(h['f'] * S * h['AR']), h['taper'], h['tc'], h['sweep'] * DEG, main.origin[0][0] + (.5 + h['arm']) * .6 * c['fus']['l'])
    vt = lifting(Wings.Vertical_Tail, 'vertical_stabilizer', u['f'] * S, math.sqrt(u['f'] * S * u['AR']), u['taper'], u['tc'], u['sweep'] * DEG, main.origin[0][0] + u['arm'] * .6 * c['fus']['l'])
    vt.t_tail = c['tt']
    for w in (main, ht, vt):
        v.append_component(w)
    f = SUAVE.Components.Fuselages.Fuselage()
    f.tag = 'fuselage'
    q = c['fus']
    f.lengths.total = f.lengths.structure = q['l']
    f.width, f.heights.maximum, f.areas.wetted, f.differential_pressure, f.mass_properties.volume, f.number_coach_seats = q['w'], q['w'] * q['hr'], q['wet'] * q['l'] * q['w'], q['dp'], q['vol'], q['seats']
    v.append_component(f)
    if c['kind'] == 'piston':
        net = SUAVE.Components.Energy.Networks.Internal_Combustion_Propeller()
        net.tag = 'internal_combustion'
        e = SUAVE.Components.Energy.Converters.Internal_Combustion_Engine()
        e.sea_level_power = c['P']
        net.engines.append(e)
    elif c['kind'] == 'fan':
        net = SUAVE.Components.Energy.Networks.Turbofan()
        net.tag = 'turbofan'
        net.sealevel_static_thrust = c['F']
    else:
        net = SUAVE.Components.Energy.Networks.Network()
        net.tag = 'electric'
        net.mass_properties.mass = c['given']
    net.number_of_engines = c['neng']
    v.append_component(net)
    fuel = SUAVE.Components.Physical_Component()
    fuel.mass_properties.mass = c['fuel'] * c['mtow']
    fuel.number_of_tanks, fuel.internal_volume, fuel.density = c['tanks'], c['vint'], c['rho']
    v.fuel = fuel
    lg = SUAVE.Components.Landing_Gear.Landing_Gear()
    lg.main, lg.nose = SUAVE.Components.Landing_Gear.Main_Landing_Gear(), SUAVE.Components.Landing_Gear.Nose_Landing_Gear()
    lg.main.strut_length, lg.nose.strut_length = c['lm'], c['ln']
    v.landing_gear = lg
    av = SUAVE.Components.Energy.Peripherals.Avionics()
    av.mass_properties.uninstalled = c['uav']
    v.avionics = av
    if c['ac']:
        v.air_conditioner = SUAVE.Components.Physical_Component()
    v.mass_properties.max_takeoff, v.mass_properties.cargo = c['mtow'], c['cargo']
    v.envelope.ultimate_load = c['N']
    v.design_dynamic_pressure, v.design_mach_number = c['q'], c['mach']
    v.reference_area = S
    v.passengers = c['pax']
    return v


def oneof(got, wants, what, rtol=1e-8):
    got = scalar(got)
    require(any(abs(got - w) <= rtol * abs(w) for w in wants), '%s: got %r, expected %r', what, got, wants[0])


def check_ga(c, ctx):
    v = ga_plane(c)
    a = SUAVE.Analyses.Weights.Weights()
    a.vehicle, a.settings.empty = v, GA.empty
    g = lambda w: (w.areas.reference, w.aspect_ratio, w.sweeps.quarter_chord)
    main, ht, vt = v.wings.main_wing, v.wings.horizontal_stabilizer, v.wings.vertical_stabilizer
    mf = c['fuel'] * c['mtow']
    N, M, q = c['N'], c['mtow'], c['q']
    r = quiet(a.evaluate)
    close(scalar(r.structures.wing), R.ga_wing(c['S'], mf, main.aspect_ratio, main.sweeps.quarter_chord, q, main.taper, main.thickness_to_chord, N, M), rtol=1e-2, what='wing')
    exact = [R.ga_wing(c['S'], mf, main.aspect_ratio, main.sweeps.quarter_chord, qq, main.taper, main.thickness_to_chord, N, M) for qq in (q * (LB / FT ** 2) / R.PSF, q)]
    oneof(r.structures.wing, exact, 'wing')
    oneof(r.structures.horizontal_tail, [R.ga_tail_h(ht.areas.reference, ht.aspect_ratio, ht.sweeps.quarter_chord, q, t, ht.thickness_to_chord, N, M) for t in (ht.taper, ht.spans.projected)], 'horizontal tail')
    close(scalar(r.structures.vertical_tail), R.ga_tail_v(vt.areas.reference, vt.aspect_ratio, vt.sweeps.quarter_chord, q, vt.taper, vt.thickness_to_chord, N, M, c['tt']), rtol=1e-8, what='vertical tail')
    gm, gn = R.ga_gear(M - mf, N, c['lm'], c['ln'])
    close(scalar(r.structures.main_landing_gear), gm, rtol=1e-8, what='main gear')
    close(scalar(r.structures.nose_landing_gear), gn, rtol=1e-8, what='nose gear')
    prop = {'piston': R.ga_propulsion(R.engine_piston(c['P']), c['neng']), 'fan': R.propulsion(c['F'], c['neng']), 'given': c['given']}[c['kind']]
    close(scalar(r.propulsion_breakdown.total), prop, rtol=1e-8, what='propulsion')
    Q, Qi = mf / c['rho'] / R.GAL, c['vint'] / R.GAL
    fs = 2.49 * Q ** .726 * (Q / (Q + Qi)) ** .363 * c['tanks'] ** .242 * c['neng'] ** .157
    close(scalar(r.propulsion_breakdown.fuel_system), fs * LB, rtol=1e-8, what='fuel system')
    s = r.systems_breakdown
    av = 2.117 * (c['uav'] / LB) ** .933
    W0 = M / LB
    l, b = c['fus']['l'] / FT, main.spans.projected / FT
    oneof(s.control_systems, [.053 * l ** 1.536 * b ** .371 * x ** .8 * LB for x in (N * W0 * 1e-4, N * W0 ** 1e-4)], 'flight controls')
    for k, w in (('hydraulics', .001 * M), ('avionics', av * LB), ('electrical', 12.57 * (av + fs) ** .51 * LB), ('furnish', (.0582 * W0 - 65.) * LB),
                 ('air_conditioner', c['ac'] * .265 * W0 ** .52 * c['fus']['seats'] ** .68 * av ** .17 * c['mach'] ** .08 * LB)):
        close(scalar(s[k]), w, rtol=1e-8, what=k)
    books(v, r, ctx, 'GA', syst=SYS + ('anti_ice',))
    pb = r.payload_breakdown
    close(scalar(pb.passengers), 225. * LB * c['pax'], rtol=1e-8, what='passengers')
    close(scalar(v.wings.main_wing.mass_properties.mass), scalar(r.structures.wing), rtol=RT, what='wing component')
    close(scalar(ht.mass_properties.mass), scalar(r.structures.horizontal_tail), rtol=RT, what='tail component')
    close(scalar(vt.mass_properties.mass), scalar(r.structures.vertical_tail), rtol=RT, what='fin component')
    close(scalar(v.fuselages.fuselage.mass_properties.mass), scalar(r.structures.fuselage), rtol=RT, what='fuselage component')
    close(scalar(list(v.networks.values())[0].mass_properties.mass), prop, rtol=1e-8, what='network')
    # the pressurised fuselage is heavier, as is the one under a larger load factor
    base = scalar(r.structures.fuselage)
    for ch in (dict(fus=dict(c['fus'], dp=c['fus']['dp'] * 2.)), dict(N=N * 1.3), dict(q=q * 1.5)):
        a2 = SUAVE.Analyses.Weights.Weights()
        a2.vehicle, a2.settings.empty = ga_plane(dict(c, **ch)), GA.empty
        require(scalar(quiet(a2.evaluate).structures.fuselage) > base, 'fuselage no heavier after %s', list(ch))
    ctx.hit(c['kind'], 't-tail' if c['tt'] else 'low tail', 'cooled' if c['ac'] else 'no air conditioning')


# ------------------------------------------------------------------ small correlations
smalls = record(P=logrng(1e3, 2e6), Q=logrng(1., 5e4), F=logrng(1e3, 5e5), n=st.integers(1, 8), k=rng(1.2, 3.), S=logrng(.5, 80.), AR=rng(4., 35.), N=rng(1.5, 5.), W=rng(50., 200.), q=rng(20., 200.), ribs=st.integers(6, 80), ends=st.integers(0, 6),
                tc=rng(.08, .18), tS=rng(.05, .2), tAR=rng(3., 8.), L=rng(2., 8.), given=st.sampled_from(['all', 'wing', 'tails']), cryo=st.just('Liquid_H2'),
                dT=rng(1., 250.), t0=rng(.3, 1.3), cool=logrng(1., 1e6), p=rng(5e4, 2e5))


def check_small(c, ctx):
    lb = LB
    close(WP.air_cooled_motor(c['P']), 1.96 * (c['P'] / 1e3) ** .8897 * lb, rtol=1e-8, what='air cooled motor')
    close(WP.hts_motor(c['P']), 2.28 * (c['P'] / 1e3) ** .6616 * lb, rtol=1e-8, what='superconducting motor')
    close(WP.nasa_motor(c['Q']), .3928 * (c['Q'] / (FT * R.LBF)) ** .8587 * lb, rtol=1e-8, what='motor by torque')
    close(WP.engine_jet(c['F']), R.engine_jet(c['F']), rtol=1e-8, what='jet engine')
    close(WP.engine_piston(c['P']), R.engine_piston(c['P']), rtol=1e-8, what='piston engine')
    m = R.engine_piston(c['P'])
    close(WP.integrated_propulsion(m, c['n']), 1.6 * m * c['n'], rtol=1e-8, what='installed jet engines')
    close(WP.integrated_propulsion(m, c['n'], c['k']), c['k'] * m * c['n'], rtol=1e-8, what='installed jet engines, factor given')
    close(WP.integrated_propulsion_general_aviation(m, c['n']), R.ga_propulsion(m, c['n']), rtol=1e-8, what='installed piston engines')
    d = Data()
    d.rated_power = c['P'] / 1e3
    d.mass_properties = Data()
    x = dynamo_supply_mass_estimation(d)
    close(x, .013 + .0046 * d.rated_power + .0109 + .0015 * d.rated_power + .005 + d.rated_power / 5e4, rtol=1e-9, what='dynamo supply')
    close(d.mass_properties.mass, x, rtol=0., what='dynamo supply mass stored')
    # unmanned and human powered aircraft
    v = SUAVE.Vehicle()
    b = math.sqrt(c['S'] * c['AR'])
    w = lifting(Wings.Main_Wing, 'main_wing', c['S'], b, .6, c['tc'], 0., 0.)
    w.number_ribs, w.number_end_ribs = c['ribs'], c['ends']
    v.reference_area = c['S']
    v.append_component(w)
    a = SUAVE.Analyses.Weights.Weights_UAV()
    a.vehicle = v
    r = quiet(a.evaluate)
    close(scalar(r.empty), 5.58 * c['S'] ** 1.59 * c['AR'] ** .71 / 9.80665, rtol=1e-5, what='unmanned airframe')
    close(scalar(v.mass_properties.operating_empty), scalar(r.empty), rtol=0., what='vehicle operating empty')
    v.envelope.ultimate_load, v.mass_properties.max_takeoff, v.envelope.maximum_dynamic_pressure = c['N'], c['W'], c['q']
    v.Ltb = c['L']
    want = dict(wing=R.hp_wing(c['S'], b, w.chords.mean_aerodynamic, c['ribs'], c['tc'], c['ends'], c['N'], c['W']), horizontal_tail=0., vertical_tail=0., fuselage=0.)
    if c['given'] != 'wing':
        for tag, cls, k, key in (('horizontal_stabilizer', Wings.Horizontal_Tail, 1., 'horizontal_tail'), ('vertical_stabilizer', Wings.Vertical_Tail, .6, 'vertical_tail')):
            S = c['tS'] * c['S'] * k
            t = lifting(cls, tag, S, math.sqrt(S * c['tAR']), .7, c['tc'], 0., 5.)
            t.number_ribs = max(4, c['ribs'] // 4)
            v.append_component(t)
            want[key] = R.hp_tail(S, t.spans.projected, t.chords.mean_aerodynamic, t.number_ribs, c['tc'], c['q'])
    if c['given'] == 'all':
        f = SUAVE.Components.Fuselages.Fuselage()
        f.tag = 'fuselage'
        v.append_component(f)
        want['fuselage'] = R.hp_boom(c['tS'] * c['S'], c['q'], c['L'])
    a = SUAVE.Analyses.Weights.Weights()
    a.vehicle, a.settings.empty = v, HPW.empty
    r = quiet(a.evaluate)
    for k, x in want.items():
        close(scalar(r[k]), x, rtol=1e-9, what='human powered ' + k)
    close(scalar(r.empty), sum(want.values()), rtol=1e-9, what='human powered empty weight')
    close(scalar(w.mass_properties.mass), want['wing'], rtol=1e-9, what='human powered wing component')
    ctx.hit(c['given'])


def check_coolant(c, ctx):
    cls = getattr(SUAVE.Attributes.Cryogens, c['cryo'], None)
    if cls is None:
        raise Discard
    k = cls()
    if not hasattr(k, 'LCP_C0'):
        raise Discard
    p = c['p']
    Tb = k.antoine_B / (k.antoine_A - math.log10(p)) - k.antoine_C
    T0 = Tb * c['t0']
    T1 = T0 + c['dT']
    poly = lambda pre, t0, t1: sum(getattr(k, pre + '_C%d' % j) * (t1 ** (j + 1) - t0 ** (j + 1)) / (j + 1) for j in range(4))
    e = 0.
    if T0 < Tb:
        e += poly('LCP', T0, min(Tb, T1))
    if T1 > Tb:
        e += poly('GCP', max(T0, Tb), T1)
    boils = T0 < Tb < T1
    if boils:
        e += sum(getattr(k, 'H_C%d' % j) * p ** j for j in range(4))
    if abs(e) < 1e-3:
        raise Discard
    m = Coolant_use(k, T0, T1, c['cool'], p)
    close(m, c['cool'] / (1e3 * e), rtol=1e-6, what='coolant flow of ' + c['cryo'])
    close(Coolant_use(k, T0, T1, 2. * c['cool'], p), 2. * m, rtol=1e-9, what='coolant flow at twice the load')
    ctx.hit('boils' if boils else 'liquid' if T0 < Tb else 'gas', c['cryo'])


# ------------------------------------------------------------------ electric vertical takeoff
evtols = record(kind=st.sampled_from(['lift+cruise', 'lift+cruise', 'lift', 'propellers']), nl=st.integers(2, 8), np=st.integers(1, 4), mtow=logrng(500., 5000.), pax=st.integers(0, 6), bat=rng(50., 1500.), pay=rng(0., 400.),
                mm=st.tuples(rng(2., 60.), rng(2., 60.)), R=logrng(.5, 3.), Rp=logrng(.5, 2.), B=st.integers(2, 6), sol=rng(.05, .2), vp=st.tuples(st.booleans(), st.booleans()), b=rng(6., 16.), ch=rng(.6, 2.), tc=rng(.1, .18), msl=st.one_of(st.none(), st.lists(rng(.1, .95), min_size=1, max_size=4)),
                canard=st.booleans(), sym=st.booleans(), fl=rng(4., 9.), fw=rng(1., 2.2), fh=rng(1., 2.2), cont=rng(1., 1.4), g=rng(2.5, 5.), sf=rng(1.2, 2.), k=rng(1.1, 2.), tw=rng(1.05, 1.6), tip=rng(.4, .7))


def evtol(c, **over):
    c = dict(c, **over)
    v = SUAVE.Vehicle()
    v.mass_properties.max_takeoff = c['mtow']
    v.passengers = c['pax']
    w = lifting(Wings.Main_Wing, 'main_wing', c['b'] * c['ch'], c['b'], 1., c['tc'], 0., 2.)
    if c['msl'] is not None:
        w.motor_spanwise_locations = np.array(c['msl'])
    v.append_component(w)
    if c['canard']:
        t = lifting(Wings.Horizontal_Tail, 'horizontal_stabilizer', .5 * c['b'] * .5 * c['ch'], .5 * c['b'], 1., c['tc'], 0., .5)
        t.symbolic = c['sym']
        v.append_component(t)
    f = SUAVE.Components.Fuselages.Fuselage()
    f.tag = 'fuselage'
    f.lengths.total, f.lengths.nose, f.width, f.heights.maximum = c['fl'], .2 * c['fl'], c['fw'], c['fh']
    v.append_component(f)
    E = SUAVE.Components.Energy
    lift = c['kind'] != 'propellers'
    cruise = c['kind'] != 'lift'
    net = E.Networks.Lift_Cruise() if c['kind'] == 'lift+cruise' else E.Networks.Battery_Propeller()
    nl, npr = (c['nl'] if lift else 0), (c['np'] if cruise else 0)

    def fill(rot, mot, cls, n, R, m, vp, name):
        for k in range(n):
            r = cls()
            r.tag, r.tip_radius, r.blade_solidity, r.number_of_blades, r.variable_pitch = '%s_%d' % (name, k), R, c['sol'], c['B'], vp
            rot.append(r)
            q = E.Converters.Motor()
            q.tag = '%s_motor_%d' % (name, k)
            q.mass_properties.mass = m
            mot.append(q)
    if c['kind'] == 'lift+cruise':
        fill(net.lift_rotors, net.lift_rotor_motors, E.Converters.Lift_Rotor, nl, c['R'], c['mm'][0], c['vp'][0], 'rotor')
        fill(net.propellers, net.propeller_motors, E.Converters.Propeller, npr, c['Rp'], c['mm'][1], c['vp'][1], 'prop')
        net.number_of_lift_rotor_engines, net.number_of_propeller_engines = nl, npr
    elif lift:
        fill(net.propellers, net.propeller_motors, E.Converters.Lift_Rotor, nl, c['R'], c['mm'][0], c['vp'][0], 'rotor')
        net.number_of_propeller_engines = nl
    else:
        fill(net.propellers, net.propeller_motors, E.Converters.Propeller, npr, c['Rp'], c['mm'][1], c['vp'][1], 'prop')
        net.number_of_propeller_engines = npr
    net.battery = E.Storages.Batteries.Constant_Mass.Lithium_Ion()
    net.battery.mass_properties.mass = c['bat']
    net.payload = E.Peripherals.Payload()
    net.payload.mass_properties.mass = c['pay']
    net.avionics = E.Peripherals.Avionics()
    v.append_component(net)
    return v, net, nl, npr


def fuse_ref(c):
    S = SUAVE.Attributes.Solids
    uni, bi, steel = S.Unidirectional_Carbon_Fiber(), S.Bidirectional_Carbon_Fiber(), S.Steel()
    L, W, H = c['fl'], c['fw'], c['fh']
    wet = math.pi * (((L * W) ** 1.6 + (L * H) ** 1.6 + (W * H) ** 1.6) / 3.) ** (1. / 1.6)
    m = wet * (1.2995 + 3.7465 / 8.) + 3. * math.pi * H * W / 4. * 1.2995
    lift = 3.8 * c['mtow'] * 9.8 * 1.5
    m += lift * L / 2. * (H / 10.) / (4. * uni.ultimate_tensile_strength * (H / 20.) ** 2) * L * uni.density
    m += 2. * (H / 10. + W / 3.) * (.5 * lift * c['b'] / 4.) / (bi.ultimate_shear_strength * H / 10. * W / 3.) * bi.density
    F = 1.5 * c['mtow'] * 9.8 * 3.5 * .6403
    t = F / (2. * math.sqrt(F / steel.ultimate_shear_strength / math.pi) * bi.ultimate_bearing_strength)
    return m + 4. * math.pi * 400. * t ** 3 / 3. * bi.density


def check_evtol(c, ctx):
    v, net, nl, npr = evtol(c)
    kw = dict(contingency_factor=c['cont'], max_g_load=c['g'], safety_factor=c['sf'], max_thrust_to_weight_ratio=c['tw'], max_tip_mach=c['tip'])
    r = quiet(evtol_empty, v, Data(), **kw)
    M = c['mtow']
    T = M * c['tw'] * 9.81
    pm = scalar(prop_mass(list(net.propellers.values())[0], T / 5.)) if npr else 0.
    rots = net.lift_rotors if nl else []
    rm = scalar(prop_mass(list(rots.values())[0], T / (nl - 1))) if nl else 0.
    parts = dict(propellers=npr * pm, lift_rotors=nl * rm, propeller_motors=npr * c['mm'][1], lift_rotor_motors=nl * c['mm'][0], battery=c['bat'], payload=c['pay'], seats=15. * c['pax'], passengers=70. * c['pax'], avionics=15.,
                 ECS=7. * c['pax'], landing_gear=.02 * M, servos=nl * .65 * c['vp'][0] + npr * 5.2 * c['vp'][1], hubs=4. * nl + .04 * M * npr, BRS=16. + (16. if nl + npr > 1 else 0.), fuselage=fuse_ref(c))
    for k, x in parts.items():
        close(scalar(r[k]), x, rtol=1e-7, atol=1e-9, what=k)
    close(scalar(r.motors), parts['propeller_motors'] + parts['lift_rotor_motors'], rtol=RT, what='motors')
    # wings and wires
    wm = {w.tag: scalar(wing_mass(w, v, T / 5., safety_factor=c['sf'], max_g_load=c['g'])) for w in v.wings if not w.symbolic}
    close(scalar(r.total_wing_weight), sum(wm.values()), rtol=RT, what='wings')
    for t, x in wm.items():
        close(scalar(r.wings[t]), x, rtol=RT, what='wing ' + t)
        close(scalar(v.wings[t].mass_properties.mass), x, rtol=RT, what='mass of the wing ' + t)
    Rl = c['R'] if nl else c['Rp']
    A = math.pi * Rl ** 2
    P = 1.15 * T * (1.15 * math.sqrt(T / (2 * 1.225 * A)) + c['sol'] * .012 / 8. * (340.294 * c['tip']) ** 3 / (T / (1.225 * A)))
    wires = 0.
    if c['msl'] is not None:
        n = len(c['msl'])
        l = n * (c['fl'] + c['fh']) / 2. + sum(c['msl']) * c['b'] / 2.
        wires = 5.7e-6 * P / (.85 * .98 * (nl + npr)) * l + 2 * .0046 * 6 * (l + 10 * c['fl'] + 4 * c['b'])
    close(scalar(r.wiring), wires, rtol=1e-6, what='wiring')
    struct = sum(parts[k] for k in ('lift_rotors', 'propellers', 'hubs', 'fuselage', 'landing_gear')) + sum(wm.values())
    close(scalar(r.structural), struct, rtol=1e-7, what='structure')
    e = c['cont'] * (struct + parts['seats'] + 15. + parts['ECS'] + scalar(r.motors) + parts['servos'] + wires + parts['BRS']) + c['bat']
    close(scalar(r.empty), e, rtol=1e-7, what='empty weight')
    close(scalar(r.total), e + c['pay'] + parts['passengers'], rtol=1e-7, what='all up weight')
    # what it leaves on the components
    for rs, one, hub, n, servo in ((rots, rm, 4., nl, .65 * c['vp'][0]), (net.propellers if npr else [], pm, .04 * M, npr, 5.2 * c['vp'][1])):
        for x in rs:
            close(scalar(x.mass_properties.mass), one + hub + servo, rtol=1e-8, what='mass of ' + x.tag)
    close(scalar(v.fuselages.fuselage.mass_properties.mass), parts['fuselage'] + parts['passengers'] + parts['seats'] + wires + parts['BRS'], rtol=1e-7, what='mass of the fuselage')
    close(scalar(v.landing_gear.main.mass_properties.mass), .02 * M, rtol=RT, what='mass of the gear')
    close(scalar(net.avionics.mass_properties.mass), 15., rtol=RT, what='mass of the avionics')
    agree(r, quiet(evtol_empty, v, Data(), **kw), 'a second buildup')
    # more to carry is heavier
    one = list(net.propellers.values())[0] if npr else list(rots.values())[0]
    require(scalar(prop_mass(one, T / 5. * c['k'])) >= scalar(prop_mass(one, T / 5.)) * (1 - 1e-9), 'a propeller lighter at more thrust')
    big = copy.deepcopy(one)
    big.number_of_blades = one.number_of_blades + 2
    require(scalar(prop_mass(big, T / 5.)) > 0., 'propeller mass')
    w = v.wings.main_wing
    a = scalar(wing_mass(w, v, T / 5., safety_factor=c['sf'], max_g_load=c['g']))
    require(scalar(wing_mass(w, v, T / 5., safety_factor=c['sf'], max_g_load=c['g'] * c['k'])) >= a, 'a wing lighter at a higher load factor')
    close(scalar(wing_mass(w, v, T / 5., safety_factor=c['sf'] * c['k'], max_g_load=c['g'] / c['k'])), a, rtol=1e-9, what='wing for the same ultimate load factor')
    require(scalar(wing_mass(w, v, T / 5. * c['k'], safety_factor=c['sf'], max_g_load=c['g'])) >= a * (1 - 1e-12), 'a wing lighter under more thrust')
    close(scalar(wing_mass(w, v, T / 5., margin_factor=2.4)), 2. * scalar(wing_mass(w, v, T / 5., margin_factor=1.2)), rtol=1e-9, what='wing margin')
    ctx.hit(c['kind'], 'wired' if c['msl'] is not None else 'no wires')


def check_converge(c, ctx):
    v, net, nl, npr = evtol(c)
    ok = quiet(converge_evtol_weight, v, contingency_factor=c['cont'], max_g_load=c['g'], max_tip_mach=c['tip'], max_thrust_to_weight_ratio=c['tw'])
    if ok is not True:
        ctx.label('no convergence')
        return
    M = scalar(v.mass_properties.max_takeoff)
    r = quiet(evtol_empty, evtol(c, mtow=M)[0], Data(), contingency_factor=c['cont'], max_g_load=c['g'], max_tip_mach=c['tip'], max_thrust_to_weight_ratio=c['tw'])
    require(abs(M - scalar(r.total)) <= 1.0001, 'takeoff mass %r, built up %r', M, r.total)
    require(M >= c['bat'] + c['pay'] + 70. * c['pax'], 'takeoff mass %r', M)
    ctx.hit(c['kind'])


# ------------------------------------------------------------------ recorded findings
def sample(**k):
    c = dict(pax=150, acc='medium-range', ctrl='fully powered', cargo=1000., mtow=79000., mz=.8, N=3.75, Sref=1., mach=.8, range=5e6, alt=1e4, coach=None, w=dict(S=125., AR=10., taper=.2, tc=.1, sweep=25., flap=.3, dih=3.),
             h=dict(f=.26, AR=4., taper=.3, tc=.1, sweep=30., arm=.8, wet=1.), v=dict(f=.2, AR=1.9, taper=.3, tc=.1, sweep=30., arm=.8, wet=1.), tt=False, twin=False, f=dict(l=38., w=3.7, hr=1., dp=5e4, wet=2.8), F=1e5, neng=2,
             won=[True] * 4, nac=dict(d=2., l=2.7, y=4.8), nw=1., kf=(0., 0., 0.), st=None, flops=(0., 0., .5), klg=1., gear=dict(lm=1.8, ln=1.3, nm=2, nn=2), tanks=0, box=False)
    c.update(k)
    return c


def run(method, **k):
    v, a, n = transport(sample(**k))
    return v, quiet(a.evaluate, method=method), n


def probe_nacelle():
    v, r, n = run('FLOPS Simple')
    return scalar(r.propulsion_breakdown.total) > sum(scalar(r.propulsion_breakdown[k]) for k in ('engines', 'thrust_reversers', 'miscellaneous', 'fuel_system')) + .5 * scalar(r.structures.nacelle)


def probe_payload():
    v, r, n = run('FLOPS Simple')
    b = r.payload_breakdown
    return abs(scalar(b.total) - scalar(b.passengers) - scalar(b.baggage) - scalar(b.cargo)) > 1.


def probe_ice():
    v, r, n = run('FLOPS Simple')
    return abs(scalar(r.systems_breakdown.air_conditioner) - R.flops_systems(n.v, n.e, n.f, n.main)['air_conditioner']) < 1e-3


def probe_wing_integral():
    c = dict(S=100., AR=10., N=3.75, mtow=7e4, mz=.8, frac=1., sweep=0., root=5.)
    a = seg_wing(c, [(0., 1., .12), (1., .5, .12)], 0.)
    b = seg_wing(c, [(0., 1., .12), (1., .8, .15000001)], 0.)   # nearly the same thickness all along
    d = seg_wing(c, [(0., 1., .12), (1., 1., .12)], 0.)
    return not (abs(b - d) < .02 * d)


def ga_sample():
    return dict(N=3.8, mtow=1500., fuel=.1, q=3000., mach=.2, pax=3, cargo=0., w=dict(S=1., AR=8., taper=.7, tc=.12, sweep=0., flap=.3, dih=0.), h=dict(f=.2, AR=5., taper=.5, tc=.1, sweep=0., arm=.8, wet=1.),
                v=dict(f=.1, AR=1.9, taper=.3, tc=.1, sweep=30., arm=.8, wet=1.), tt=False, S=16., fus=dict(l=8., w=1.2, hr=1., wet=2.5, dp=1e4, vol=8., seats=4), P=1.5e5, F=1e4, kind='piston', neng=1, given=100., tanks=2, vint=.1, rho=700., uav=15., ac=True, lm=.5, ln=.5)


def probe_pointed():
    c = dict(S=100., AR=10., N=3.75, mtow=7e4, mz=.8, frac=1., sweep=0., root=5.)
    return not np.isfinite(seg_wing(c, [(0., 1., .12), (.5, .5, .12), (1., .25, .12)], 0.))


def probe_ga_units():
    v = ga_plane(ga_sample())
    r = quiet(GA.empty, v)
    b, l = v.wings.main_wing.spans.projected / FT, 8. / FT
    return abs(scalar(r.systems_breakdown.control_systems) - .053 * l ** 1.536 * b ** .371 * (3.8 * 1500. / LB * 1e-4) ** .8 * LB) > .1


def probe_ga_taper():
    v = ga_plane(ga_sample())
    r = quiet(GA.empty, v)
    t = v.wings.horizontal_stabilizer
    return abs(scalar(r.structures.horizontal_tail) / R.ga_tail_h(t.areas.reference, t.aspect_ratio, t.sweeps.quarter_chord, 3000., t.taper, t.thickness_to_chord, 3.8, 1500.) - 1.) > 1e-3


def probe_ga_again():
    v = ga_plane(ga_sample())
    a, b = scalar(quiet(GA.empty, v).empty), None
    try:
        b = scalar(quiet(GA.empty, v).empty)
    except Exception:
        return True
    return abs(a - b) > 1e-6


PROPERTY = Property('C23', [
    Sub('suave', planes, check_suave, quick=260, rule='the whole SUAVE breakdown compared with the reference'),
    Sub('flops', planes, check_flops, quick=260, rule='the whole FLOPS (simple) breakdown compared with the reference'),
    Sub('raymer', planes, check_raymer, quick=220, rule='the whole Raymer breakdown compared with the reference'),
    Sub('integrated', planes, check_other, quick=60, rule='a segmented or FLOPS complex breakdown was compared with its simple version'),
    Sub('segmented', segwings, check_segmented, quick=300, rule='scaling relations of the segmented wing checked'),
    Sub('bwb', bwbs, check_bwb, quick=250, rule='the whole blended wing body breakdown compared with the reference'),
    Sub('ga', gas, check_ga, quick=200, rule='the whole general aviation breakdown compared with the reference'),
    Sub('evtol', evtols, check_evtol, quick=200, rule='the whole buildup compared with the reference'),
    Sub('converge', evtols, check_converge, quick=80, rule='the converged mass built up again'),
    Sub('small', smalls, check_small, quick=200, rule='propulsion, unmanned and human powered correlations compared'),
    Sub('coolant', smalls, check_coolant, quick=200, rule='cryogen consumption compared with the enthalpy rise'),
], rule='a vehicle was weighed and compared with the reference', probes={
    'nacelle-twice': probe_nacelle, 'flops-cargo-pounds': probe_payload, 'flops-ice-nacelle': probe_ice, 'segmented-uniform-thickness': probe_wing_integral, 'segmented-pointed': probe_pointed, 'ga-flight-controls': probe_ga_units,
    'ga-tail-taper': probe_ga_taper, 'ga-second-evaluation': probe_ga_again})

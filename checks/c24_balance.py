"""C24: masses and centres of gravity of vehicles, components, fuel and missions."""
import copy
import math

import numpy as np
import SUAVE
from hypothesis import strategies as st
from SUAVE.Core import Data
from SUAVE.Components import Wings
from SUAVE.Methods.Center_of_Gravity.compute_component_centers_of_gravity import compute_component_centers_of_gravity
from SUAVE.Methods.Center_of_Gravity.compute_fuel_center_of_gravity_longitudinal_range import compute_fuel_center_of_gravity_longitudinal_range
from SUAVE.Methods.Center_of_Gravity.compute_mission_center_of_gravity import compute_mission_center_of_gravity
from lib.prop import Property, Sub, require, fail, close, same_shape, finite, monotone, Discard
from lib.strat import rng, inner, logrng, vec, record

DEG = math.pi / 180.
C = SUAVE.Components
Physical = C.Physical_Component

point = st.tuples(rng(-5., 60.), rng(-20., 20.), rng(-5., 5.))
place = record(m=st.one_of(logrng(.1, 5e4), st.just(0.)), o=vec(point, 1, 4), cg=point)


def put(x, p):
    x.mass_properties.mass = p['m']
    x.origin = [list(o) for o in p['o']]
    x.mass_properties.center_of_gravity = np.array([list(p['cg'])])
    return x


KINDS = ['wing', 'fuselage', 'nacelle', 'network', 'system', 'payload', 'gear', 'nested', 'avionics']
fleets = record(parts=st.lists(st.tuples(st.sampled_from(KINDS), place), min_size=0, max_size=9), shift=point, k=rng(.3, 3.), seed=st.integers(0, 99))


def build(c, shift=(0., 0., 0.), k=1., order=None):
    v = SUAVE.Vehicle()
    parts = c['parts'] if order is None else [c['parts'][i] for i in order]
    for i, (kind, p) in enumerate(parts):
        p = dict(p, m=p['m'] * k, o=[[a + b for a, b in zip(o, shift)] for o in p['o']])
        j = i if order is None else order[i]
        if kind == 'wing':
            x = Wings.Wing()
        elif kind == 'fuselage':
            x = C.Fuselages.Fuselage()
        elif kind == 'nacelle':
            x = C.Nacelles.Nacelle()
        elif kind == 'network':
            x = C.Energy.Networks.Network()
        elif kind == 'system':
            x = C.Systems.System()
        else:
            x = C.Physical_Component()
        put(x, p)
        x.tag = '%s_%d' % (kind, j)
        if kind in ('wing', 'fuselage', 'nacelle', 'network', 'system'):
            v.append_component(x)
        elif kind == 'payload':
            v.payload[x.tag] = x
        elif kind == 'gear':
            v.landing_gear[x.tag] = x
        elif kind == 'avionics':
            v.systems[x.tag] = put(C.Energy.Peripherals.Avionics(), p)
        else:                                                   # a container within a container
            box = C.Systems.System.Container()
            box[x.tag] = x
            v.systems['box_%d' % j] = box
    return v


def check_sum(c, ctx):
    v = build(c)
    parts = [p for _, p in c['parts']]
    M = math.fsum(p['m'] for p in parts)
    mom = np.zeros(3)
    size = 1e-30
    for p in parts:
        r = np.mean(np.array(p['o'], float), axis=0) + np.array(p['cg'])
        mom += p['m'] * r
        size += p['m'] * np.max(np.abs(r))
    before = {}
    close(v.sum_mass(), M, rtol=1e-10, what='sum of the masses')
    cg = np.array(v.center_of_gravity())
    same_shape(cg, (1, 3), 'centre of gravity')
    close(cg[0], mom / M if M else np.zeros(3), rtol=1e-10, atol=1e-10 * size / (M or 1.), what='centre of gravity')
    close(v.mass_properties.center_of_gravity, cg, rtol=0., what='centre of gravity kept on the vehicle')
    close(v.sum_mass(), M, rtol=1e-10, what='sum of the masses again')
    close(v.center_of_gravity(), cg, rtol=0., what='centre of gravity again')
    if not M:
        return
    tol = dict(rtol=1e-9, atol=1e-9 * size / M + 1e-9)
    close(build(c, shift=c['shift']).center_of_gravity(), cg + np.array([c['shift']]), what='centre of gravity of the moved vehicle', **tol)
    close(build(c, k=c['k']).center_of_gravity(), cg, what='centre of gravity with every mass scaled', **tol)
    close(build(c, k=c['k']).sum_mass(), M * c['k'], rtol=1e-10, what='sum of scaled masses')
    order = list(np.random.RandomState(c['seed']).permutation(len(parts)))
    w = build(c, order=order)
    close(w.center_of_gravity(), cg, what='centre of gravity in another order', **tol)
    close(w.sum_mass(), M, rtol=1e-10, what='sum of the masses in another order')
    for p in range(3):
        xs = [np.mean(np.array(q['o'], float), axis=0)[p] + q['cg'][p] for q in parts if q['m']]
        require(min(xs) - tol['atol'] <= cg[0][p] <= max(xs) + tol['atol'], 'centre of gravity %r outside its parts %r', cg[0][p], xs)
    cp = copy.deepcopy(v)
    close(cp.center_of_gravity(), cg, rtol=1e-12, what='centre of gravity of a copy')
    if len([1 for p in parts if p['m']]) > 1:
        ctx.hit(*sorted({k for k, _ in c['parts']}))


# ------------------------------------------------------------------ component by component
lift = record(S=logrng(3., 300.), AR=rng(1.5, 12.), taper=rng(.1, 1.), qc=rng(-10., 40.), x=rng(0., 50.), m=rng(0., 2e4), le=st.booleans(), ac=rng(0., 5.))
fus = record(l=rng(1.5, 70.), nose=rng(.3, 8.), m=rng(0., 3e4))
comp = record(main=lift, h=st.one_of(st.none(), lift), v=st.one_of(st.none(), lift), other=st.one_of(st.none(), lift), fs=st.lists(fus, min_size=0, max_size=2),
              nets=st.lists(record(m=rng(0., 2e4), L=rng(.5, 6.), o=vec(point, 1, 4), bat=st.one_of(st.none(), place)), min_size=0, max_size=2), masses=vec(rng(0., 2e4), 14), nose=rng(.02, .2), mto=rng(1.05, 2.), boxed=st.booleans())
NAMES = ['avionics', 'furnishings', 'apu', 'air_conditioner', 'optionals', 'fuel', 'control_systems', 'electrical_systems', 'hydraulics']


def make_wing(cls, tag, p):
    w = cls()
    w.tag = tag
    b = math.sqrt(p['S'] * p['AR'])
    cr = 2. * p['S'] / b / (1. + p['taper'])
    w.areas.reference, w.spans.projected, w.taper, w.aspect_ratio = p['S'], b, p['taper'], p['AR']
    w.chords.root, w.chords.tip = cr, cr * p['taper']
    t = p['taper']
    w.chords.mean_aerodynamic = 2. / 3. * cr * (1 + t + t * t) / (1 + t)
    w.sweeps.quarter_chord = p['qc'] * DEG
    w.sweeps.leading_edge = math.atan(math.tan(p['qc'] * DEG) + (1 - t) / (p['AR'] * (1 + t))) if p['le'] else None
    w.origin = [[p['x'], 0., 0.]]
    w.aerodynamic_center = [p['ac'], 0., 0.]
    w.mass_properties.mass = p['m']
    w.vertical = isinstance(w, Wings.Vertical_Tail)
    w.symmetric = not w.vertical
    return w


def plane(c):
    v = SUAVE.Vehicle()
    v.append_component(make_wing(Wings.Main_Wing, 'main_wing', c['main']))
    for k, cls in (('h', Wings.Horizontal_Tail), ('v', Wings.Vertical_Tail), ('other', Wings.Wing)):
        if c[k]:
            v.append_component(make_wing(cls, 'surface_' + k, c[k]))
    for i, f in enumerate(c['fs']):
        x = C.Fuselages.Fuselage()
        x.tag = 'fuselage_%d' % i
        x.lengths.total, x.lengths.nose, x.mass_properties.mass = f['l'], f['nose'], f['m']
        v.append_component(x)
    for i, q in enumerate(c['nets']):
        n = C.Energy.Networks.Network()
        n.tag = 'net_%d' % i
        n.engine_length, n.mass_properties.mass, n.origin = q['L'], q['m'], [list(o) for o in q['o']]
        if q['bat']:
            n.battery = put(C.Energy.Energy_Component(), q['bat'])
        v.append_component(n)
    ms = list(c['masses'])
    for k in NAMES:
        x = C.Physical_Component()
        x.mass_properties.mass = ms.pop()
        v.systems[k] = x
    for k in ('passengers', 'baggage', 'cargo'):
        x = C.Physical_Component()
        x.mass_properties.mass = ms.pop()
        v.payload[k] = x
    if not c['boxed']:
        v.landing_gear = C.Landing_Gear.Landing_Gear()
    v.landing_gear.main, v.landing_gear.nose = C.Landing_Gear.Main_Landing_Gear(), C.Landing_Gear.Nose_Landing_Gear()
    v.landing_gear.main.mass_properties.mass, v.landing_gear.nose.mass_properties.mass = ms.pop() + 1., ms.pop()
    v.mass_properties.takeoff = c['mto'] * (v.sum_mass() + 100.) + v.landing_gear.main.mass_properties.mass
    return v


def x_of(comp):
    return float(np.mean(np.array(comp.origin, float), axis=0)[0] + np.array(comp.mass_properties.center_of_gravity, float).reshape(-1)[0])


def check_components(c, ctx):
    v = plane(c)
    compute_component_centers_of_gravity(v, c['nose'])
    m = c['main']
    w = v.wings.main_wing
    close(w.mass_properties.center_of_gravity[0][0], .05 * w.chords.mean_aerodynamic + m['ac'], rtol=1e-9, what='main wing')
    for k, half in (('h', .5), ('v', 1.)):
        if c[k]:
            x = v.wings['surface_' + k]
            ch = x.chords.root + .35 * (x.chords.tip - x.chords.root)
            close(x.mass_properties.center_of_gravity[0][0], .3 * ch + .35 * half * x.spans.projected * math.tan(x.sweeps.quarter_chord), rtol=1e-9, atol=1e-9, what='tail surface at 35% of its semispan (' + k + ')')
    if c['other']:
        x = v.wings.surface_other
        t = c['other']['taper']
        y = x.spans.projected / 2. * (x.chords.root - x.chords.mean_aerodynamic) / (x.chords.root - x.chords.tip) if x.chords.root - x.chords.tip > 1e-9 else 0.
        le = math.tan(c['other']['qc'] * DEG) + (1 - t) / (c['other']['AR'] * (1 + t))
        if t < 1. - 1e-6 or t == 1.:
            close(x.mass_properties.center_of_gravity[0][0], .3 * x.chords.mean_aerodynamic + le * y, rtol=1e-6, atol=1e-6, what='another lifting surface')
    for f, q in zip(v.fuselages, c['fs']):
        close(f.mass_properties.center_of_gravity[0][0], .45 * q['l'], rtol=1e-12, what='fuselage')
    # reference lengths
    L, N = 1., 0.
    if c['fs']:
        for q in c['fs']:
            if q['l'] > L:
                L, N = q['l'], q['nose']
    elif w.chords.root > L:
        L, N = w.chords.root, .25 * w.chords.root
    pm, mm = 0., 0.
    for n, q in zip(v.networks, c['nets']):
        close(n.mass_properties.center_of_gravity[0][0], .5 * q['L'], rtol=1e-12, what='network')
        pm += q['m']
        mm += q['m'] * (np.mean([o[0] for o in q['o']]) + .5 * q['L'])
        if q['bat']:
            k = len(q['bat']['o'])
            pm += k * q['bat']['m']
            mm += q['bat']['m'] * (sum(o[0] for o in q['bat']['o']) + k * q['bat']['cg'][0])
    pcg = mm / pm if pm else 0.
    s, p, g = v.systems, v.payload, v.landing_gear
    wing = m['x'] + .05 * w.chords.mean_aerodynamic + m['ac']
    want = [(s.avionics, .4 * N), (s.furnishings, .51 * L), (s.apu, .9 * L), (p.passengers, .51 * L), (p.baggage, .51 * L), (p.cargo, .51 * L), (s.air_conditioner, N), (s.optionals, .51 * L),
            (s.fuel, wing), (s.control_systems, wing + .1 * w.chords.mean_aerodynamic), (s.electrical_systems, .75 * .5 * L + .25 * pcg), (s.hydraulics, .75 * wing + .25 * .95 * L), (g.nose, .25 * N)]
    for i, (x, r) in enumerate(want):
        close(x_of(x), r, rtol=1e-9, atol=1e-9 * L, what='position %d of %s' % (i, [k for k in list(s.keys()) + list(p.keys()) if s.get(k) is x or p.get(k) is x] or 'nose gear'))
    # the main gear: where the rest balances, the nose gear taking its share
    box = [x for b in (v.wings, v.fuselages, v.networks, s, p) for x in b.values()] + ([g.nose] if c['boxed'] else [])
    mom = sum(x.mass_properties.mass * x_of(x) for x in box)
    mg = g.main.mass_properties.mass
    close(g.main.origin[0][0], mom / (v.mass_properties.takeoff - mg) / (1. - c['nose']), rtol=1e-8, atol=1e-8 * L, what='main gear')
    # and once more, with everything in place
    pos = [x_of(x) for x in box] + [x_of(g.main)]
    compute_component_centers_of_gravity(v, c['nose'])
    close([x_of(x) for x in box] + [x_of(g.main)], pos, rtol=1e-9, atol=1e-9 * L, what='positions found a second time')
    # the vehicle as a whole, its gear included when it sits in the container
    full = box + ([g.main] if c['boxed'] else [])
    M = sum(x.mass_properties.mass for x in full)
    if M > 1e-6:
        close(v.center_of_gravity()[0][0], sum(x.mass_properties.mass * x_of(x) for x in full) / M, rtol=1e-8, atol=1e-8 * L, what='centre of gravity of the vehicle')
    ctx.hit('%d fuselages' % len(c['fs']), '%d networks' % len(c['nets']), 'gear boxed' if c['boxed'] else 'gear loose', *[k for k in ('h', 'v', 'other') if c[k]])


# ------------------------------------------------------------------ fuel
tank = record(m=logrng(10., 5e4), x=rng(0., 60.), on=st.sampled_from(['wing', 'wing', 'fuselage']))
fuels = record(tanks=st.one_of(st.lists(tank, min_size=2, max_size=7), st.lists(tank, min_size=2, max_size=7), st.lists(tank, min_size=1, max_size=1)), same=st.sampled_from([False, False, False, True]), fill=vec(rng(0., 1.), 7), swap=st.booleans())


def tanks_of(c, tanks):
    v = SUAVE.Vehicle()
    w, w2, f = Wings.Main_Wing(), Wings.Horizontal_Tail(), C.Fuselages.Fuselage()
    w.tag, w2.tag, f.tag = 'main_wing', 'tail', 'fuselage'
    for x in (w, w2, f):
        v.append_component(x)
    for i, t in enumerate(tanks):
        k = C.Physical_Component()
        k.tag = 'tank_%d' % i
        k.mass_properties.center_of_gravity = np.array([[t['x'], 0., 0.]])
        k.mass_properties.fuel_mass_when_full = t['m']
        (f if t['on'] == 'fuselage' else w2 if i % 3 == 2 else w).Fuel_Tanks.append(k)
    return v


def check_fuel(c, ctx):
    tanks = [dict(t) for t in c['tanks']]
    if c['same']:
        for t in tanks[1:]:
            t['x'] = tanks[0]['x']
    m, lo, hi = compute_fuel_center_of_gravity_longitudinal_range(tanks_of(c, tanks))
    M = sum(t['m'] for t in tanks)
    require(len(m) == len(lo) == len(hi), 'lengths %r', (len(m), len(lo), len(hi)))
    monotone(m, strict=True, what='fuel masses')
    close(m[-1], M, rtol=1e-12, what='all tanks full')
    require(0. < m[0] <= 1e-3 * M, 'smallest fuel mass %r', m[0])
    by = sorted(tanks, key=lambda t: t['x'])

    def extreme(mass, order):
        left, mom = mass, 0.
        for t in order:
            take = min(left, t['m'])
            mom += take * t['x']
            left -= take
        return mom / mass
    for a, p, q in zip(m, lo, hi):
        close(p, extreme(a, by), rtol=1e-8, atol=1e-9, what='foremost centre of gravity of %r kg' % float(a))
        close(q, extreme(a, by[::-1]), rtol=1e-8, atol=1e-9, what='rearmost centre of gravity of %r kg' % float(a))
        require(p <= q + 1e-9, 'range reversed at %r: %r > %r', a, p, q)
    full = sum(t['m'] * t['x'] for t in tanks) / M
    close(lo[-1], full, rtol=1e-9, atol=1e-9, what='full tanks, front')
    close(hi[-1], full, rtol=1e-9, atol=1e-9, what='full tanks, rear')
    monotone(lo, rtol=1e-9, what='foremost limit with the fuel on board')
    monotone(hi[::-1], rtol=1e-9, what='rearmost limit with the fuel on board')
    # any way of filling lies inside
    use = [f * t['m'] for f, t in zip(c['fill'], tanks)]
    mass = sum(use)
    if mass > 1e-2 * M:
        cg = sum(u * t['x'] for u, t in zip(use, tanks)) / mass
        span = max(t['x'] for t in tanks) - min(t['x'] for t in tanks)
        require(extreme(mass, by) - 1e-9 <= cg <= extreme(mass, by[::-1]) + 1e-9, 'reference range')
        i = np.searchsorted(m, mass)
        require(lo[max(i - 1, 0)] - 1e-9 <= cg <= hi[max(i - 1, 0)] + 1e-9, 'a filling of %r kg at %r is outside [%r, %r]', mass, cg, lo[max(i - 1, 0)], hi[max(i - 1, 0)])
    m2, lo2, hi2 = compute_fuel_center_of_gravity_longitudinal_range(tanks_of(c, tanks[::-1]))
    close(lo2, lo, rtol=1e-9, atol=1e-9, what='foremost limit, tanks listed in reverse')
    close(hi2, hi, rtol=1e-9, atol=1e-9, what='rearmost limit, tanks listed in reverse')
    if len(tanks) > 1 and not c['same']:
        ctx.hit('%d tanks' % len(tanks))
    else:
        ctx.label('one place')


missions = record(z=logrng(100., 3e5), zc=point, fc=point, fo=point, f=st.one_of(rng(0., 1e5), st.just(0.)))


def check_mission(c, ctx):
    v = SUAVE.Vehicle()
    v.mass_properties.zero_fuel_center_of_gravity = np.array([list(c['zc'])])
    v.mass_properties.max_zero_fuel = c['z']
    v.fuel = C.Physical_Component()
    v.fuel.origin = np.array([list(c['fo'])])
    v.fuel.mass_properties.center_of_gravity = np.array([list(c['fc'])])
    cg = np.array(compute_mission_center_of_gravity(v, c['f'])).reshape(-1)
    want = [(c['z'] * a + c['f'] * (b + o)) / (c['z'] + c['f']) for a, b, o in zip(c['zc'], c['fc'], c['fo'])]
    close(cg, want, rtol=1e-10, atol=1e-9, what='centre of gravity with the mission fuel')
    if c['f'] == 0.:
        close(cg, c['zc'], rtol=1e-12, atol=1e-12, what='centre of gravity without fuel')
    ctx.hit('fuel' if c['f'] else 'no fuel')


PROPERTY = Property('C24', [
    Sub('sum', fleets, check_sum, quick=400, rule='a vehicle with at least two masses'),
    Sub('components', comp, check_components, quick=300, rule='every component placed and compared'),
    Sub('fuel', fuels, check_fuel, quick=300, rule='two or more tanks at different places'),
    Sub('mission', missions, check_mission, quick=200, rule='a zero fuel mass and a fuel mass combined'),
], rule='masses and positions compared with the reference')

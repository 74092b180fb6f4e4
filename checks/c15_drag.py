"""C15: the drag build-ups follow their documented correlations, and the parts add up to the total."""
import math

import numpy as np
from hypothesis import strategies as st

import SUAVE
from SUAVE.Core import Data, Units
from SUAVE.Components.Wings import Main_Wing, Wing, Horizontal_Tail, Vertical_Tail, Segment
from SUAVE.Components.Fuselages import Fuselage
from SUAVE.Components.Nacelles import Nacelle
from SUAVE.Methods.Aerodynamics.Common.Fidelity_Zero.Helper_Functions.compressible_mixed_flat_plate import compressible_mixed_flat_plate
from SUAVE.Methods.Aerodynamics.Common.Fidelity_Zero.Helper_Functions.compressible_turbulent_flat_plate import compressible_turbulent_flat_plate
from SUAVE.Methods.Aerodynamics.Common.Fidelity_Zero.Helper_Functions.windmilling_drag import windmilling_drag
from SUAVE.Methods.Aerodynamics.Common.Fidelity_Zero.Helper_Functions.asymmetry_drag import asymmetry_drag
from SUAVE.Methods.Aerodynamics.Supersonic_Zero.Drag.Cubic_Spline_Blender import Cubic_Spline_Blender
from lib.prop import Property, Sub, require, fail, close, same_shape, finite
from lib.strat import rng, inner, logrng, vec, record

PI = math.pi


# ------------------------------------------------------------------ reference, one point at a time
def wall(Re, M, T):
    Tw = T * (1. + .178 * M * M)
    Td = T * (1. + .035 * M * M + .45 * (Tw / T - 1.))
    Rd = Re * (Td / T) ** 1.5 * (Td + 216.) / (T + 216.)
    return T / Td, (Re / Rd) ** .2


def line(Re):
    return .455 / math.log10(Re) ** 2.58


def turbulent(Re, M, T):
    kc, kr = wall(Re, M, T)
    return line(Re) * kc * kr, kc, kr


def mixed(Re, M, T, xt):
    kc, kr = wall(Re, M, T)
    if xt == 0.:
        cf = line(Re)
    else:
        theta = .671 * xt / math.sqrt(Re * xt)
        xe = (27.78 * theta * Re ** .2) ** 1.25
        cf = 1.328 / math.sqrt(Re * xt) * xt + line(Re * (1. - xt + xe)) * (1. - xt + xe) - line(Re * xe) * xe
    return cf * kc * kr, kc, kr


def blend(x, a, b):
    e = (x - a) / (b - a)
    return 1. if e < 0 else 0. if e > 1 else 1. - e * e * (3. - 2. * e)


def wing_form(M, C, tc, sweep):
    h = blend(M, .95, 1.)
    if M >= 1.:
        return 1.
    c2 = math.cos(sweep) ** 2
    b2 = 1. - M * M * c2
    k = 1. + 2. * C * tc * c2 / math.sqrt(b2) + (C * tc) ** 2 * c2 * (1. + 5. * c2) / (2. * b2)
    return k * h + 1. - h


def body_overspeed(M, dd, compressible):
    b2 = 1. - M * M if compressible else 1.
    D = math.sqrt(1. - b2 * dd * dd)
    a = 2. * b2 * dd * dd * (math.atanh(D) - D) / D ** 3
    return a / ((2. - a) * math.sqrt(b2))


def crest(tc, cl, sweep):
    c = math.cos(sweep)
    t = tc / c
    l = cl / (c * c)
    return (0.922321524499352 - 1.15388516617062 * t - 0.304541067183461 * l + 0.332881324404729 * t * t + 0.467317361111105 * t * l +
            0.087490431201549 * l * l) / c


def rise(M, mcc, sweep):
    return .0019 * (M / mcc) ** 14.641 * math.cos(sweep) ** 3


# ------------------------------------------------------------------ generators
XT = st.one_of(st.just(0.), rng(.02, 1))
SEG = record(area=logrng(1, 120), wet=rng(1.6, 2.4), mac=logrng(.3, 9), sweep=rng(-.5, 1.1, [0.]))
WING = record(area=logrng(2, 400), wet=st.one_of(rng(1.6, 2.4), rng(1.6, 2.4), st.just(0.)), mac=logrng(.3, 12), span=logrng(2, 60), root=logrng(.5, 14),
              taper=rng(.1, 1.), offset=st.one_of(st.just(0.), rng(0., .3)), sweep=rng(-.4, 1.1, [0.]), tc=rng(.03, .2, [.05]), ar=rng(1.5, 15),
              xtu=XT, xtl=XT, segs=st.one_of(st.just([]), st.just([]), vec(SEG, 2, 4)), symmetric=st.booleans(),
              cl=vec(rng(-.4, 1.2, [0.]), 5), cdi=vec(rng(0, .05), 5), kind=st.integers(0, 2), fast=st.booleans())
FUSE = record(length=logrng(4, 90), fine=rng(4, 16), wet=logrng(10, 1500), front=logrng(.5, 60), bwb=st.sampled_from([False] * 9 + [True]))
NAC = record(length=logrng(.6, 8), diameter=logrng(.3, 4), wet=logrng(1, 60), count=st.integers(1, 3))
COMMON = dict(points=st.integers(1, 5), T=vec(rng(200, 310), 5), re=vec(logrng(2e5, 2e7), 5), sref=logrng(5, 400), main=WING, wings=vec(WING, 0, 3),
              fuses=vec(FUSE, 0, 2), nacs=vec(NAC, 0, 3), nets=st.integers(0, 2), CL=vec(rng(-.3, 1.3, [0.]), 5), CDi=vec(rng(0, .06), 5),
              lift_factor=rng(.9, 1.3), trim=rng(1., 1.1), cw=rng(.8, 1.4), cf=rng(1.5, 3), K=rng(0, .6), inc=st.one_of(st.just(0.), rng(0, .02)),
              spoiler=st.one_of(st.just(0.), rng(0, .02)), ld=st.one_of(st.just(0.), rng(-.1, .2)), osw=st.one_of(st.none(), st.none(), rng(.6, 1)),
              spane=st.one_of(st.none(), rng(.7, 1)), recalc=st.booleans())
SUBSONIC = record(M=vec(rng(.02, .97, [.3, .949, .95]), 5), **COMMON)
SUPER = record(M=vec(rng(.05, 2.6, [.91, .94, .95, .9725, .99, 1., 1.01, 1.04, 1.2, 1.3]), 5), length=logrng(15, 80), section=logrng(.5, 20), les=rng(.2, 1.25),
               kind=st.sampled_from(['Raymer', 'Sears-Haack']), low=st.one_of(st.just(.95), rng(.88, .97)), peak=st.one_of(st.just(1.04), rng(1.02, 1.1)),
               high=st.one_of(st.just(1.2), rng(1.12, 1.6)), factor=rng(1., 1.6), scale=rng(1, 4), span=logrng(8, 60), mainlen=logrng(8, 60), **COMMON)


def make_wing(w, tag, main=False):
    cls = Main_Wing if main else [Wing, Horizontal_Tail, Vertical_Tail][w['kind']]
    wing = cls()
    wing.tag = tag
    wing.vertical = (not main) and w['kind'] == 2
    wing.symmetric = w['symmetric']
    wing.areas.reference = w['area']
    wing.areas.wetted = w['wet'] * w['area']
    wing.chords.mean_aerodynamic = w['mac']
    wing.chords.root = w['root']
    wing.chords.tip = w['root'] * w['taper']
    wing.taper = w['taper']
    wing.spans.projected = w['span']
    wing.exposed_root_chord_offset = w['offset'] * w['span'] / 2.
    wing.sweeps.quarter_chord = w['sweep']
    wing.thickness_to_chord = w['tc']
    wing.aspect_ratio = w['ar']
    wing.transition_x_upper = w['xtu']
    wing.transition_x_lower = w['xtl']
    wing.high_mach = w['fast']
    for k, s in enumerate(w['segs']):
        seg = Segment()
        seg.tag = 'part_%d' % k
        seg.areas = Data(reference=s['area'], wetted=s['area'] * s['wet'])
        seg.chords = Data(mean_aerodynamic=s['mac'])
        seg.sweeps.quarter_chord = s['sweep']
        wing.append_segment(seg)
    return wing


def setup(c, supersonic):
    n = c['points']
    ws = [dict(w) for w in [c['main']] + c['wings']]
    recalc = c['recalc'] and not any(w['segs'] for w in ws)
    for w in ws:
        if w['segs'] and w['wet'] == 0.:
            w['wet'] = 2.
    v = SUAVE.Vehicle()
    v.reference_area = c['sref']
    tags = []
    for k, w in enumerate(ws):
        tag = 'main_wing' if k == 0 else 'wing_%d' % k
        tags.append(tag)
        v.append_component(make_wing(w, tag, k == 0))
    for k, f in enumerate(c['fuses']):
        b = Fuselage()
        b.tag = 'fuselage_bwb' if f['bwb'] and k == 0 else 'fuselage_%d' % k
        b.lengths.total = f['length']
        b.effective_diameter = f['length'] / f['fine']
        b.areas.wetted = f['wet']
        b.areas.front_projected = f['front']
        v.append_component(b)
    for k, m in enumerate(c['nacs']):
        b = Nacelle()
        b.tag = 'nacelle_%d' % k
        b.length = m['length']
        b.diameter = m['diameter']
        b.areas.wetted = m['wet']
        b.origin = [[1., float(j), 0.] for j in range(m['count'])]
        v.append_component(b)
    for k in range(c['nets']):
        net = SUAVE.Components.Energy.Networks.Network()
        net.tag = 'net_%d' % k
        v.append_component(net)

    an = (SUAVE.Analyses.Aerodynamics.Supersonic_Zero if supersonic else SUAVE.Analyses.Aerodynamics.Fidelity_Zero)()
    an.geometry = v
    s = an.settings
    s.fuselage_lift_correction = c['lift_factor']
    s.trim_drag_correction_factor = c['trim']
    s.wing_parasite_drag_form_factor = c['cw']
    s.fuselage_parasite_drag_form_factor = c['cf']
    s.viscous_lift_dependent_drag_factor = c['K']
    s.drag_coefficient_increment = c['inc']
    s.spoiler_drag_increment = c['spoiler']
    s.lift_to_drag_adjustment = c['ld']
    s.oswald_efficiency_factor = c['osw']
    s.span_efficiency = c['spane']
    s.recalculate_total_wetted_area = recalc

    col = lambda x: np.array([x[:n]]).T * 1.

    def lift(state, settings, geometry):
        a = state.conditions.aerodynamics
        a.lift_coefficient = col(c['CL'])
        a.lift_breakdown.total = col(c['CL'])
        a.lift_breakdown.inviscid_wings = Data()
        a.lift_breakdown.compressible_wings = Data()
        a.drag_breakdown.induced = Data()
        a.drag_breakdown.induced.inviscid = col(c['CDi'])
        a.drag_breakdown.induced.inviscid_wings = Data()
        for t, w in zip(tags, ws):
            a.lift_breakdown.inviscid_wings[t] = col(w['cl'])
            a.lift_breakdown.compressible_wings[t] = col(w['cl']) * .9
            a.drag_breakdown.induced.inviscid_wings[t] = col(w['cdi'])
    an.process.compute.lift.inviscid_wings = lift

    state = SUAVE.Analyses.Mission.Segments.Conditions.State()
    state.conditions = SUAVE.Analyses.Mission.Segments.Conditions.Aerodynamics()
    state.expand_rows(n)
    f = state.conditions.freestream
    f.mach_number = col(c['M'])
    f.temperature = col(c['T'])
    f.reynolds_number = col(c['re'])
    return an, v, state, ws, tags, recalc


def wing_area(w, recalc):
    if not recalc and w['wet'] != 0.:
        return w['wet'] * w['area']
    b = w['span'] / 2. if w['symmetric'] else w['span']
    off = w['offset'] * w['span'] / 2.
    local = w['root'] + off * (w['root'] * w['taper'] - w['root']) / b
    S = w['area'] - (w['root'] + local) * off * (1. if w['symmetric'] else .5)
    return (2.003 if w['tc'] < .05 else 1.977 + .52 * w['tc']) * S


def parasite_wing(w, M, T, re, C, recalc):
    def panel(mac, sweep, area, wet):
        k = wing_form(M, C, w['tc'], sweep)
        return k * (mixed(re * mac, M, T, w['xtu'])[0] + mixed(re * mac, M, T, w['xtl'])[0]) / 2. * wet
    if w['segs']:
        return sum(panel(s['mac'], s['sweep'], s['area'], s['wet'] * s['area']) for s in w['segs'][:-1]) / w['area']
    return panel(w['mac'], w['sweep'], w['area'], wing_area(w, recalc)) / w['area']


def overall(c, v, state, ws, tags, recalc, fuse, nac, misc, comp, pylons):
    """Compare every entry of the breakdown with the reference, point by point."""
    n = c['points']
    A = state.conditions.aerodynamics
    B = A.drag_breakdown
    close(A.lift_coefficient, np.array([c['CL'][:n]]).T * c['lift_factor'], what='lift coefficient')
    S = c['sref']
    for i in range(n):
        M, T, re = c['M'][i], c['T'][i], c['re'][i]
        parts = []
        for t, w in zip(tags, ws):
            cd = parasite_wing(w, M, T, re, c['cw'], recalc) * w['area'] / S
            close(B.parasite[t].parasite_drag_coefficient[i, 0], cd, rtol=1e-9, what='parasite drag of ' + t)
            parts.append(cd)
        total = sum(parts)
        for b, f in zip(v.fuselages, c['fuses']):
            cd = fuse(f, M, T, re)
            if b.tag == 'fuselage_bwb':
                continue
            cd *= f['front'] / S
            close(B.parasite[b.tag].parasite_drag_coefficient[i, 0], cd, rtol=1e-8, what='parasite drag of ' + b.tag)
            total += cd
        pylon = 0.
        for b, m in zip(v.nacelles, c['nacs']):
            cd = nac(m, M, T, re) * PI * m['diameter'] ** 2 / 4. / S
            close(B.parasite[b.tag].parasite_drag_coefficient[i, 0], cd, rtol=1e-9, what='parasite drag of ' + b.tag)
            total += cd
            pylon += .2 * cd
        if pylons:
            if c['nacs']:
                close(B.parasite['pylon'].parasite_drag_coefficient[i, 0], pylon, rtol=1e-9, what='parasite drag of the pylons')
                cfs = [turbulent(re * m['length'], M, T)[0] for m in c['nacs']]
                got = float(np.ravel(B.parasite['pylon'].skin_friction_coefficient)[i])
                close(got, sum(cfs) / len(cfs), rtol=1e-9, what='skin friction of the pylons')
            total += pylon
        close(B.parasite.total[i, 0], total, rtol=1e-8, what='parasite total')

        CL = c['CL'][i] * c['lift_factor']
        big = max(range(len(ws)), key=lambda k: ws[k]['area'])
        AR = ws[big]['ar']
        if c['osw'] is not None:
            induced = [CL * CL / (PI * AR * c['osw'])]
            viscous = [induced[0] - c['CDi'][i]]
        else:
            inv = 0.
            for w in ws:
                one = w['cdi'][i] if c['spane'] is None else w['cl'][i] ** 2 / (PI * w['ar'] * c['spane'])
                inv += one * w['area'] / S
            right = sum(c['K'] * cd * w['cl'][i] ** 2 for w, cd in zip(ws, parts))
            twice = sum(c['K'] * cd * w['cl'][i] ** 2 * w['area'] / S for w, cd in zip(ws, parts))
            viscous = [right, twice]
            induced = [inv + right, inv + twice]
        got = float(B.induced.total[i, 0])
        pick = min(range(len(induced)), key=lambda k: abs(induced[k] - got))
        close(got, induced[pick], rtol=1e-9, atol=1e-15, what='induced drag')
        close(B.induced.viscous[i, 0], viscous[pick], rtol=1e-9, atol=1e-14, what='viscous induced drag')
        if c['osw'] is None and got > 0:
            close(np.ravel(B.induced.oswald_efficiency_factor)[i], CL * CL / (PI * AR * got), rtol=1e-8, what='Oswald factor')

        cm = comp(i, M)
        close(B.compressible.total[i, 0], cm, rtol=1e-7, atol=1e-14, what='compressibility drag')
        close(B.miscellaneous.total[i, 0], misc, rtol=1e-9, what='miscellaneous drag')
        flat = total + got + cm + misc
        close(B.untrimmed[i, 0], flat, rtol=1e-8, what='untrimmed drag')
        want = (flat * c['trim'] + c['inc'] + c['spoiler']) / (1. + c['ld'])
        close(B.total[i, 0], want, rtol=1e-8, what='total drag')
        close(A.drag_coefficient[i, 0], want, rtol=1e-8, what='drag coefficient')


def again(an, state):
    """A second evaluation of the same state gives the same coefficients."""
    A = state.conditions.aerodynamics
    before = np.array(A.drag_coefficient), np.array(A.lift_coefficient)
    an.evaluate(state)
    close(A.drag_coefficient, before[0], rtol=1e-12, what='drag coefficient evaluated twice')
    close(A.lift_coefficient, before[1], rtol=1e-12, what='lift coefficient evaluated twice')


def check_subsonic(c, ctx):
    an, v, state, ws, tags, recalc = setup(c, False)
    an.evaluate(state)
    S = c['sref']

    def fuse(f, M, T, re):
        q = body_overspeed(M, 1. / f['fine'], M < .95)
        return (1. + c['cf'] * q) ** 2 * turbulent(re * f['length'], M, T)[0] * f['wet'] / f['front']

    def nac(m, M, T, re):
        return (1. + .35 * m['diameter'] / m['length']) * turbulent(re * m['length'], M, T)[0] * m['wet'] / (PI * m['diameter'] ** 2 / 4.)

    wet = 1.1 * (sum((wing_area(w, recalc)) for w in ws) + sum(f['wet'] for f in c['fuses']) + sum(m['wet'] * m['count'] for m in c['nacs']))
    misc = .4 * (.0184 + .000469 * wet - 1.13e-7 * wet * wet) / S

    def comp(i, M):
        return sum(rise(M, crest(w['tc'], .9 * w['cl'][i], w['sweep']), w['sweep']) * w['area'] / S for w in ws)

    overall(c, v, state, ws, tags, recalc, fuse, nac, misc, comp, True)
    B = state.conditions.aerodynamics.drag_breakdown
    for i in range(c['points']):
        for t, w in zip(tags, ws):
            mc = crest(w['tc'], .9 * w['cl'][i], w['sweep'])
            close(B.compressible[t].crest_critical[i, 0], mc, rtol=1e-9, what='crest critical Mach number')
            close(B.compressible[t].divergence_mach[i, 0], mc * (1.02 + .08 * (1. - math.cos(w['sweep']))), rtol=1e-9, what='divergence Mach number')
    again(an, state)
    if len(ws) > 1 and c['points'] > 1:
        ctx.hit('several surfaces')
    ctx.label('segmented' if any(w['segs'] for w in ws) else 'plain', 'wetted areas computed' if recalc else 'wetted areas given',
              'no network' if not c['nets'] else 'networks', 'nacelles %d' % len(c['nacs']))


def check_supersonic(c, ctx):
    an, v, state, ws, tags, recalc = setup(c, True)
    s = an.settings
    s.begin_drag_rise_mach_number, s.peak_mach_number, s.end_drag_rise_mach_number = c['low'], c['peak'], c['high']
    s.transonic_drag_multiplier = c['factor']
    s.volume_wave_drag_scaling = c['scale']
    s.wave_drag_type = c['kind']
    v.total_length = c['length']
    v.maximum_cross_sectional_area = c['section']
    v.wings.main_wing.sweeps.leading_edge = c['les']
    v.wings.main_wing.total_length = c['mainlen']
    an.evaluate(state)
    S = c['sref']

    def fuse(f, M, T, re):
        h = blend(M, .91, .99)
        q = 0.
        if h > 0:
            q += h * body_overspeed(M, 1. / f['fine'], True)
        if h < 1:
            q += (1. - h) * body_overspeed(M, 1. / f['fine'], False)
        return (1. + c['cf'] * q) ** 2 * turbulent(re * f['length'], M, T)[0] * f['wet'] / f['front']

    def nac(m, M, T, re):
        k = 1. + .35 * m['diameter'] / m['length'] * blend(M, c['low'], c['high'])
        return k * turbulent(re * m['length'], M, T)[0] * m['wet'] / (PI * m['diameter'] ** 2 / 4.)

    misc = (.006 + sum(.5 / 12. * PI * m['diameter'] * .2 for m in c['nacs'])) / S

    def volume(M):
        if c['kind'] == 'Sears-Haack':
            d2 = 4. * c['section'] / PI
            return 1.5 * PI * PI * d2 / c['length'] ** 2 * c['section'] / S * c['scale']
        sh = 4.5 * PI * (c['section'] / c['length']) ** 2
        h = blend(M, 1.2, 1.3)
        full = 0.
        if M >= 1.2:
            full = (1. - .2 * (M - 1.2) ** .57 * (1. - PI * math.degrees(c['les']) ** .77 / 100.)) * sh
        return c['scale'] * (sh * h + full * (1. - h)) / S

    def div(i, M):
        out = 0.
        for k, w in enumerate(ws):
            if w['fast']:
                cd = .0019 * (M / .95) ** 14.641
            else:
                cd = rise(M, crest(w['tc'], .9 * w['cl'][i] if k == 0 else 0., w['sweep']), w['sweep'])
            out += cd * w['area'] / S
        return out

    Ml, Mp, Mh = c['low'], c['peak'], c['high']
    Vh = volume(Mh)
    Vp = Vh * c['factor']

    def comp(i, M):
        if M < Mp:
            h = blend(M, Ml, Mp - .75 * (Mp - Ml))
            cv = div(i, M) * h + (1. - h) * (Vp + (div(i, Ml) - Vp) * ((M - Mp) / (Ml - Mp)) ** 2)
        else:
            h = blend(M, Mp, Mh)
            cv = h * (Vp + (Vh - Vp) * ((M - Mp) / (Mh - Mp)) ** 2) + (1. - h) * volume(M)
        cl = 0.
        if M >= 1.01:
            w = ws[0]
            b = math.sqrt(M * M - 1.)
            sl = w['span'] / 2. / c['mainlen']
            p = 2. / w['ar'] * sl
            x = b * sl
            f = 0. if x <= .178 else .4935 - .2382 * x + 1.6306 * x ** 2 - .86 * x ** 3 + .2232 * x ** 4 - .0365 * x ** 5 - .5
            CL = c['CL'][i] * c['lift_factor']
            cl = CL * CL / PI * p * (1. + 1. / p) * f / (2. * sl) * (1. - blend(M, Mp, Mh)) * w['area'] / S
        return cv + cl

    overall(c, v, state, ws, tags, recalc, fuse, nac, misc, comp, False)
    again(an, state)
    band = set('subsonic' if M < Ml else 'transonic' if M < Mh else 'supersonic' for M in c['M'][:c['points']])
    if len(band) > 1:
        ctx.hit('mixed regimes')
    ctx.label(c['kind'], *sorted(band))


# ------------------------------------------------------------------ flat plates and blender
PLATE = record(Re=vec(logrng(1e4, 1e9), 1, 6), M=rng(0, 3, [0.]), T=rng(180, 320), xt=XT)


def check_plate(c, ctx):
    Re = np.array(c['Re'])
    keep = Re.copy()
    got = compressible_turbulent_flat_plate(Re, c['M'], c['T'])
    want = [turbulent(r, c['M'], c['T']) for r in c['Re']]
    for k in range(3):
        close(got[k] * np.ones(len(Re)), [w[k] for w in want], rtol=1e-10, what='turbulent plate output %d' % k)
    if min(c['Re']) * c['xt'] > 3e3 or c['xt'] == 0.:
        mix = compressible_mixed_flat_plate(Re * 1., c['M'], c['T'], c['xt'])
        want = [mixed(r, c['M'], c['T'], c['xt']) for r in c['Re']]
        for k in range(3):
            close(mix[k] * np.ones(len(Re)), [w[k] for w in want], rtol=1e-8, what='mixed plate output %d' % k)
        if c['xt'] == 0.:
            close(mix[0], got[0], rtol=1e-10, what='plate without laminar run')
        elif c['xt'] >= .2 and min(c['Re']) > 1e6:
            require(np.all(mix[0] < got[0]), 'a laminar run does not reduce friction: %r against %r', mix[0], got[0])
        ctx.hit('mixed')
    require(np.array_equal(Re, keep), 'Reynolds numbers changed')
    for bad in (-.01, 1.01):
        try:
            compressible_mixed_flat_plate(Re * 1., c['M'], c['T'], bad)
        except ValueError:
            continue
        fail('transition at %r accepted', bad)


BLEND = record(a=rng(-2, 2), w=logrng(.01, 3), t=vec(rng(-.5, 1.5, [0., .5, 1.]), 2, 8))


def check_blend(c, ctx):
    b = Cubic_Spline_Blender(c['a'], c['a'] + c['w'])
    x = np.array([c['a'] + c['w'] * t for t in c['t']])
    y = b.compute(x)
    same_shape(y, x.shape, 'blend')
    want = [blend(xx, c['a'], c['a'] + c['w']) for xx in x]
    close(y, want, rtol=1e-8, atol=1e-9, what='blend')
    yc = b.compute(x[:, None])
    same_shape(yc, (len(x), 1), 'blend of a column')
    mirrored = b.compute(2 * c['a'] + c['w'] - x)
    close(y + mirrored, np.ones(len(x)), rtol=1e-9, what='blend weights')
    if any(0 < t < 1 for t in c['t']) and any(t > 1 for t in c['t']):
        ctx.hit('inside and outside')


# ------------------------------------------------------------------ engine out
OUT = record(nacs=vec(NAC, 1, 3), sref=logrng(5, 400), q=vec(logrng(500, 3e4), 1, 4), thrust=logrng(1e3, 5e5), engines=st.integers(1, 4), y=rng(-12, 12),
             height=logrng(1, 12), ac=rng(0, 3), xv=rng(10, 50), xcg=rng(2, 8), zv=rng(0, 4), yv=rng(0, 2), zcg=rng(-1, 1), given=st.booleans())


def check_out(c, ctx):
    v = SUAVE.Vehicle()
    v.reference_area = c['sref']
    v.mass_properties.center_of_gravity = [[c['xcg'], 0., c['zcg']]]
    for k, m in enumerate(c['nacs']):
        b = Nacelle()
        b.tag = 'nacelle_%d' % k
        b.areas.wetted = m['wet']
        v.append_component(b)
    main = Main_Wing()
    main.tag = 'main_wing'
    v.append_component(main)
    fin = Vertical_Tail()
    fin.tag = 'fin'
    fin.vertical = True
    fin.spans.projected = c['height']
    fin.aerodynamic_center = [c['ac'], 0., .2]
    fin.origin = [[c['xv'], c['yv'], c['zv']]]
    v.append_component(fin)

    class Net(SUAVE.Components.Energy.Networks.Network):
        def evaluate_thrust(self, state):
            r = Data()
            r.thrust_force_vector = np.array([[c['thrust'], 0., 0.]] * len(c['q']))
            return r
        __call__ = evaluate_thrust
    net = Net()
    net.tag = 'net'
    net.number_of_engines = c['engines']
    net.origin = [[5., c['y'], 0.], [5., -c['y'], 0.]]
    v.append_component(net)
    state = Data()
    state.conditions = Data(freestream=Data(dynamic_pressure=np.array([c['q']]).T), aerodynamics=Data(drag_breakdown=Data()))
    cw = windmilling_drag(v, state)
    swet = sum(m['wet'] for m in c['nacs'])
    close(cw, .007274 * swet / c['sref'], rtol=1e-10, what='windmilling drag coefficient')
    rec = state.conditions.aerodynamics.drag_breakdown.windmilling_drag
    close(rec.wetted_area, swet, rtol=1e-12, what='windmilling wetted area')
    close(rec.windmilling_drag_coefficient, cw, rtol=1e-12, what='recorded windmilling drag')
    got = asymmetry_drag(state, v, cw) if c['given'] else asymmetry_drag(state, v)
    same_shape(got, (len(c['q']), 1), 'asymmetry drag')
    arm = c['ac'] + c['xv'] - c['xcg']
    for i, q in enumerate(c['q']):
        D = c['y'] ** 2 * (c['thrust'] / c['engines'] + cw * q * c['sref']) ** 2 / (q * 3.141593 * (c['height'] * arm) ** 2)
        close(got[i, 0], D / q / c['sref'], rtol=1e-6, atol=1e-14, what='asymmetry drag coefficient')
    close(state.conditions.aerodynamics.drag_breakdown.asymmetry_trim_coefficient, got, rtol=1e-12, what='recorded asymmetry drag')
    if c['y'] and len(c['q']) > 1:
        ctx.hit('offset engine')


def probe_rescaled():
    """Viscous lift dependent drag of a wing half the size of the vehicle's reference area."""
    from hypothesis import strategies  # noqa
    base = dict(points=1, T=[250.] * 5, re=[5e6] * 5, sref=100., wings=[], fuses=[], nacs=[], nets=1, CL=[.5] * 5, CDi=[.01] * 5, lift_factor=1., trim=1.,
                cw=1.1, cf=2.3, K=.38, inc=0., spoiler=0., ld=0., osw=None, spane=None, recalc=False, M=[.5] * 5,
                main=dict(area=50., wet=2., mac=3., span=20., root=4., taper=.5, offset=0., sweep=0., tc=.1, ar=8., xtu=0., xtl=0., segs=[],
                          symmetric=True, cl=[1.] * 5, cdi=[0.] * 5, kind=0, fast=False))
    an, v, state, ws, tags, recalc = setup(base, False)
    an.evaluate(state)
    B = state.conditions.aerodynamics.drag_breakdown
    right = .38 * float(B.parasite['main_wing'].parasite_drag_coefficient[0, 0])
    return abs(float(B.induced.viscous[0, 0]) - right) > 1e-9


PROPERTY = Property('C15', [
    Sub('subsonic', SUBSONIC, check_subsonic, quick=700, rule='several surfaces and several points'),
    Sub('supersonic', SUPER, check_supersonic, quick=700, rule='points in several speed regimes'),
    Sub('plates', PLATE, check_plate, quick=400, rule='a laminar run is part of the case'),
    Sub('blend', BLEND, check_blend, quick=300, rule='points inside and beyond the interval'),
    Sub('engine_out', OUT, check_out, quick=250, rule='an engine off the centreline and several points'),
], rule='each sub-check states its own',
    assumptions=['the lift of the wings is supplied by the harness in place of the vortex lattice, so that any combination of lifts can be tried',
                 'bodies have a fineness ratio of at least 4, Reynolds numbers per metre between 2e5 and 2e7',
                 'the induced drag may use the parasite coefficient of a wing rescaled once (documented) or twice (known finding)'],
    probes={'viscous_lift_drag_rescaled': probe_rescaled})

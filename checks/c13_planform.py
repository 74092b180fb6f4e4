"""C13: planform geometry of lifting surfaces, fuselages and nacelles.

Oracle: the surface rebuilt as a polygon from its sections and integrated numerically (Gauss-Legendre, exact for the
piecewise-linear chord), plus scaling and refinement relations."""
import copy
import math
import numpy as np
from hypothesis import strategies as st
from scipy.special import ellipe

import SUAVE
from SUAVE.Core import Data, Units
from SUAVE.Components.Wings.Control_Surfaces import Aileron, Elevator, Slat, Flap, Rudder
from SUAVE.Methods.Geometry.Two_Dimensional.Planform.wing_planform import wing_planform
from SUAVE.Methods.Geometry.Two_Dimensional.Planform.wing_segmented_planform import wing_segmented_planform, segment_properties
from SUAVE.Methods.Geometry.Two_Dimensional.Planform.populate_control_sections import populate_control_sections
from SUAVE.Methods.Geometry.Two_Dimensional.Planform.fuselage_planform import fuselage_planform
from SUAVE.Methods.Geometry.Two_Dimensional.Planform.wing_fuel_volume import wing_fuel_volume
from SUAVE.Methods.Geometry.Two_Dimensional.Planform.horizontal_tail_planform_raymer import horizontal_tail_planform_raymer
from SUAVE.Methods.Geometry.Two_Dimensional.Planform.vertical_tail_planform_raymer import vertical_tail_planform_raymer
from SUAVE.Methods.Geometry.Two_Dimensional.Planform.rescale_non_dimensional import set_origin_dimensional, set_origin_non_dimensional
from SUAVE.Methods.Geometry.Two_Dimensional.Cross_Section.Propulsion.compute_turbofan_geometry import compute_turbofan_geometry
from SUAVE.Methods.Geometry.Three_Dimensional.compute_chord_length_from_span_location import compute_chord_length_from_span_location
from SUAVE.Methods.Geometry.Three_Dimensional.compute_span_location_from_chord_length import compute_span_location_from_chord_length
from SUAVE.Methods.Geometry.Three_Dimensional.estimate_naca_4_series_internal_volume import estimate_naca_4_series_internal_volume
from SUAVE.Methods.Flight_Dynamics.Static_Stability.Approximations.Supporting_Functions.convert_sweep import convert_sweep, convert_sweep_segments
from SUAVE.Methods.Flight_Dynamics.Static_Stability.Approximations.Supporting_Functions.trapezoid_ac_x import trapezoid_ac_x
from SUAVE.Methods.Flight_Dynamics.Static_Stability.Approximations.Supporting_Functions.trapezoid_mac import trapezoid_mac
from lib.prop import Property, Sub, Discard, require, close, fail
from lib.strat import record, rng, logrng, inner

XG, WG = np.polynomial.legendre.leggauss(4)


def polygon(stations, chords, c4sweeps, dihedrals):
    """Integrals over one half of the surface.  stations: spanwise positions in metres; sweeps and dihedrals per panel."""
    x = [0.]
    z = [0.]
    for i in range(len(stations) - 1):
        L = stations[i + 1] - stations[i]
        x.append(x[i] + chords[i] / 4 + math.tan(c4sweeps[i]) * L - chords[i + 1] / 4)
        z.append(z[i] + math.tan(dihedrals[i]) * L)
    I = dict(S=0., c2=0., xc=0., yc=0., zc=0., arc=0.)
    for i in range(len(stations) - 1):
        a, b = stations[i], stations[i + 1]
        for g, w in zip(XG, WG):
            t = 0.5 * (g + 1)
            wt = 0.5 * w * (b - a)
            c = chords[i] + t * (chords[i + 1] - chords[i])
            I['S'] += wt * c
            I['c2'] += wt * c * c
            I['xc'] += wt * c * (x[i] + t * (x[i + 1] - x[i]) + c / 4)
            I['yc'] += wt * c * (a + t * (b - a))
            I['zc'] += wt * c * (z[i] + t * (z[i + 1] - z[i]))
        I['arc'] += math.hypot(b - a, z[i + 1] - z[i])
    I['mac'] = I['c2'] / I['S']
    I['ac'] = [I['xc'] / I['S'], I['yc'] / I['S'], I['zc'] / I['S']]
    I['x'] = x
    I['z'] = z
    return I


def either(got, want, recorded, ctx, rtol=1e-9, atol=0., what='value'):
    """The right value, or exactly the wrong one described in known_findings.json; anything else is a violation."""
    try:
        close(got, want, rtol=rtol, atol=atol, what=what)
    except AssertionError:
        try:
            close(got, recorded, rtol=rtol, atol=atol)
        except AssertionError:
            pass
        else:
            ctx.label('known finding')
            return
        raise


def trapezoid(case):
    w = {'main': SUAVE.Components.Wings.Main_Wing, 'h': SUAVE.Components.Wings.Horizontal_Tail, 'v': SUAVE.Components.Wings.Vertical_Tail, 'wing': SUAVE.Components.Wings.Wing}[case['kind']]()
    w.areas.reference = case['S']
    w.aspect_ratio = case['AR']
    w.taper = case['taper']
    w.sweeps.quarter_chord = case['sweep']
    w.thickness_to_chord = case['tc']
    w.dihedral = case['dih']
    w.symmetric = case['sym']
    w.vertical = case['vert']
    if case['flap']:
        f = Flap()
        f.tag = 'flap'
        f.span_fraction_start, f.span_fraction_end = sorted(case['flap'][:2])
        f.chord_fraction = case['flap'][2]
        w.append_control_surface(f)
        w.high_lift = True
    return w


def half_geometry(case):
    b = math.sqrt(case['S'] * case['AR'])
    semi = b / (2 if case['sym'] else 1)
    cr = 2 * case['S'] / (b * (1 + case['taper']))
    return b, semi, cr, polygon([0., semi], [cr, cr * case['taper']], [case['sweep']], [case['dih']])


def check_trapezoid(case, ctx):
    w = wing_planform(trapezoid(case))
    b, semi, cr, I = half_geometry(case)
    n = 2 if case['sym'] else 1
    ct = cr * case['taper']
    close(I['S'] * n, case['S'], rtol=1e-9, what='(self-check) area')
    close(w.chords.root, cr, rtol=1e-9, what='root chord')
    close(w.chords.tip, ct, rtol=1e-9, what='tip chord')
    close(w.spans.projected, b, rtol=1e-9, what='projected span')
    close(w.spans.total, I['arc'] * n, rtol=1e-9, what='total span')
    close(w.chords.mean_aerodynamic, I['mac'], rtol=1e-9, what='mean aerodynamic chord')
    close(w.chords.mean_geometric, case['S'] / b, rtol=1e-9, what='mean geometric chord')
    # recorded finding: a one-sided surface is given the leading edge of a symmetric pair of the same span
    J = half_geometry(dict(case, sym=True))[3]
    either(math.tan(w.sweeps.leading_edge), I['x'][1] / semi, J['x'][1] / (b / 2), ctx, atol=1e-12, what='tangent of the leading edge sweep')
    close(w.areas.wetted, 2 * case['S'] * (1 + 0.2 * case['tc']), rtol=1e-9, what='wetted area')
    either(w.total_length, I['x'][1] + ct, J['x'][1] + ct, ctx, atol=1e-9, what='streamwise length')

    def place(G):
        y, z = G['ac'][1], G['ac'][2]
        if case['vert']:
            y, z = z, y
        if case['sym']:
            y = 0.
        return [G['ac'][0], y, z]
    either(w.aerodynamic_center, place(I), place(J), ctx, atol=1e-9 * cr, what='aerodynamic centre')
    close(w.areas.reference, case['S'], rtol=0, what='reference area after planform')
    if case['flap']:
        y0, y1 = sorted(case['flap'][:2])
        c0, c1 = [cr + (ct - cr) * t for t in (y0, y1)]
        F = polygon([y0 * semi, y1 * semi], [c0, c1], [0], [0]) if y1 > y0 else dict(S=0., mac=c0)
        close(w.areas.affected, F['S'] * n, rtol=1e-9, atol=1e-12, what='area affected by the flap')
        close(w.control_surfaces.flap.area, F['S'] * n * case['flap'][2], rtol=1e-9, atol=1e-12, what='flap area')
        close(w.control_surfaces.flap.chord_dimensional, F['mac'] * case['flap'][2], rtol=1e-9, what='flap chord')
        ctx.label('flap')
    # chord along the span and back
    t = case['t']
    if case['sym']:
        c = compute_chord_length_from_span_location(w, t * semi)
        close(c, cr + (ct - cr) * t, rtol=1e-9, what='chord at a span location')
        if abs(cr - ct) > 1e-3 * cr:
            close(compute_span_location_from_chord_length(w, c), t * semi, rtol=1e-7, atol=1e-9 * b, what='span location of that chord')
    again = wing_planform(copy.deepcopy(w))
    close(again.aerodynamic_center, w.aerodynamic_center, rtol=1e-12, what='second evaluation')
    # sweep references
    le0 = w.sweeps.leading_edge
    w.sweeps.leading_edge = math.atan(I['x'][1] / semi)
    for new in (0., case['t'], 1.):
        want = math.atan((I['x'][1] + new * (ct - cr)) / semi)
        # recorded finding: convert_sweep takes every surface for a symmetric pair
        either(math.tan(convert_sweep(w, 0.25, new)), math.tan(want), math.tan(case['sweep']) + (new - 0.25) * (ct - cr) / (b / 2), ctx, atol=1e-10, what='sweep of the %g chord line, from the quarter chord' % new)
        either(math.tan(convert_sweep(w, 0., new)), math.tan(want), I['x'][1] / semi + new * (ct - cr) / (b / 2), ctx, atol=1e-10, what='sweep of the %g chord line, from the leading edge' % new)
        A, B = Data(), Data()
        A.root_chord_percent, B.root_chord_percent = 1., case['taper']
        A.percent_span_location, B.percent_span_location = 0., 1.
        for old in (0., 0.25, 0.6):
            sw = math.atan((I['x'][1] + old * (ct - cr)) / semi)
            close(math.tan(convert_sweep_segments(sw, A, B, w, old, new)), math.tan(want), rtol=1e-9, atol=1e-10, what='segment sweep from %g to %g chord' % (old, new))
    close(trapezoid_mac(w), I['mac'], rtol=1e-9, what='mean aerodynamic chord (stability)')
    # recorded finding: trapezoid_ac_x runs the quarter chord sweep from the leading edge
    lam = case['taper']
    y = (b * (1 - 0.5 * case['sym'])) * (cr - I['mac']) / (cr * (1 - lam)) if lam != 1. else b / 2
    either(trapezoid_ac_x(w), I['ac'][0], y * math.tan(case['sweep']) + I['mac'] / 4, ctx, rtol=1e-7, atol=1e-7 * cr, what='aerodynamic centre (stability)')
    bare = copy.deepcopy(w)
    bare.chords.root = bare.chords.tip = bare.chords.mean_aerodynamic = 0.
    close(trapezoid_mac(bare), I['mac'], rtol=1e-9, what='mean aerodynamic chord from area, span and taper')
    k = 1.7
    big = wing_planform(trapezoid(dict(case, S=case['S'] * k * k)))
    close(big.aerodynamic_center, np.array(w.aerodynamic_center) * k, rtol=1e-9, atol=1e-12, what='aerodynamic centre of a scaled wing')
    close(big.sweeps.leading_edge, le0, rtol=1e-9, atol=1e-12, what='leading edge sweep of a scaled wing')
    if case['taper'] != 1. and case['sweep'] != 0.:
        ctx.hit('symmetric' if case['sym'] else 'one-sided', 'vertical' if case['vert'] else 'horizontal')


def segmented(case):
    w = SUAVE.Components.Wings.Main_Wing()
    w.spans.projected = case['b']
    w.chords.root = case['cr']
    w.symmetric = case['sym']
    w.exposed_root_chord_offset = case.get('offset', 0.)
    w.areas.reference = case.get('S0', 0.)
    for i, (y, c, sw, di, tc) in enumerate(case['secs']):
        s = SUAVE.Components.Wings.Segment()
        s.tag = 'section_%d' % i
        s.percent_span_location = y
        s.root_chord_percent = c
        s.sweeps.quarter_chord = sw
        s.dihedral_outboard = di
        s.thickness_to_chord = tc
        s.twist = 0.
        w.append_segment(s)
    return w


@st.composite
def sections(draw):
    n = draw(st.integers(0, 3))
    inner_y = sorted(draw(st.lists(st.integers(1, 19), min_size=n, max_size=n, unique=True)))
    ys = [0.] + [k / 20. for k in inner_y] + [1.]
    out = []
    for y in ys:
        c = 1. if y == 0. else draw(st.integers(4, 24)) / 20.
        out.append([y, c, draw(rng(-0.4, 1.0, [0.])), draw(rng(-0.2, 0.3, [0.])), draw(rng(0.04, 0.2))])
    return out


def outputs(w):
    return [w.chords.mean_geometric, w.chords.mean_aerodynamic, w.chords.tip, w.spans.total, w.total_length] + list(w.aerodynamic_center) + list(w.single_side_aerodynamic_center)


def check_segmented(case, ctx):
    w = wing_segmented_planform(segmented(case), overwrite_reference=case['over'])
    n = 2 if case['sym'] else 1
    semi = case['b'] / n
    secs = case['secs']
    ys = [s[0] * semi for s in secs]
    cs = [s[1] * case['cr'] for s in secs]
    I = polygon(ys, cs, [s[2] for s in secs[:-1]], [s[3] for s in secs[:-1]])
    S = I['S'] * n
    A = [(ys[i + 1] - ys[i]) * (cs[i] + cs[i + 1]) / 2 for i in range(len(ys) - 1)]
    if case['over']:
        close(w.areas.reference, S, rtol=1e-9, what='reference area')
        close(w.aspect_ratio, case['b'] ** 2 / S, rtol=1e-9, what='aspect ratio')
        close(w.areas.wetted, n * sum(2 * (1 + 0.2 * s[4]) * a for s, a in zip(secs, A)), rtol=1e-9, what='wetted area')
    elif case['S0']:
        close(w.areas.reference, case['S0'], rtol=0, what='reference area given by the user')
    else:
        close(w.areas.reference, S, rtol=1e-9, what='reference area when none is given')
    close(w.spans.total, I['arc'] * n, rtol=1e-9, what='total span')
    close(w.chords.mean_geometric, S / case['b'], rtol=1e-9, what='mean geometric chord')
    close(w.chords.mean_aerodynamic, I['mac'], rtol=1e-8, what='mean aerodynamic chord')
    close(w.chords.tip, cs[-1], rtol=1e-12, what='tip chord')
    close(w.taper, cs[-1] / cs[0], rtol=1e-12, what='taper')
    close(math.tan(w.sweeps.leading_edge), I['x'][-1] / semi, rtol=1e-9, atol=1e-10, what='tangent of the leading edge sweep')
    close(math.tan(w.sweeps.quarter_chord), (I['x'][-1] + cs[-1] / 4 - cs[0] / 4) / semi, rtol=1e-9, atol=1e-10, what='tangent of the quarter chord sweep')
    tc = sum(s[4] * a for s, a in zip(secs, A)) / sum(A)
    either(w.thickness_to_chord, tc, tc * 2 / n, ctx, what='mean thickness to chord')      # recorded finding: doubled on one-sided surfaces
    close(w.total_length, I['x'][-1] + cs[-1], rtol=1e-9, atol=1e-9, what='streamwise length')
    close(w.single_side_aerodynamic_center, I['ac'], rtol=1e-7, atol=1e-8 * case['cr'], what='aerodynamic centre of one side')
    want = list(I['ac'])
    if case['sym']:
        want[1] = 0.
    close(w.aerodynamic_center, want, rtol=1e-7, atol=1e-8 * case['cr'], what='aerodynamic centre')
    # sections: areas outboard of the fuselage side
    off = min(case['offset'], 0.9 * (ys[1] - ys[0]))
    w2 = segmented(dict(case, offset=off))
    w2.thickness_to_chord = case['secs'][0][4]
    segment_properties(w2, update_wet_areas=True, update_ref_areas=True)
    wet = 0.
    for i in range(len(ys) - 1):
        a0 = ys[i] + (off if i == 0 else 0.)
        c0 = cs[i] + (cs[i + 1] - cs[i]) * (a0 - ys[i]) / (ys[i + 1] - ys[i])
        E = polygon([a0, ys[i + 1]], [c0, cs[i + 1]], [0], [0])
        seg = w2.Segments[i]
        close(seg.areas.reference, A[i] * n, rtol=1e-9, what='section reference area')
        close(seg.areas.exposed, E['S'] * n, rtol=1e-9, what='section exposed area')
        close(seg.chords.mean_aerodynamic, E['mac'], rtol=1e-9, what='section mean aerodynamic chord')
        close(seg.taper, cs[i + 1] / c0, rtol=1e-9, what='section taper')
        k = 2.003 if w2.thickness_to_chord < 0.05 else 1.977 + 0.52 * w2.thickness_to_chord
        close(seg.areas.wetted, k * E['S'] * n, rtol=1e-9, what='section wetted area')
        wet += k * E['S'] * n
    close(w2.areas.wetted, wet, rtol=1e-9, what='wetted area of the sections')
    close(w2.areas.reference, S, rtol=1e-9, what='reference area of the sections')
    # the same wing with one more section described
    j = case['split'] % (len(secs) - 1)
    t = case['t']
    new = [secs[j][0] + t * (secs[j + 1][0] - secs[j][0]), secs[j][1] + t * (secs[j + 1][1] - secs[j][1]), secs[j][2], secs[j][3], secs[j][4]]
    w3 = wing_segmented_planform(segmented(dict(case, secs=secs[:j + 1] + [new] + secs[j + 1:])))
    if abs(secs[j][1] - secs[j + 1][1]) > 1e-6 or secs[j][1] == secs[j + 1][1]:
        close(outputs(w3), outputs(w), rtol=1e-6, atol=1e-7 * case['cr'], what='wing described with one more section')
    # applying it again changes nothing
    before = outputs(w)
    wing_segmented_planform(w)
    close(outputs(w), before, rtol=1e-12, what='second evaluation')
    if len(secs) > 2:
        ctx.hit('%d sections' % len(secs), 'symmetric' if case['sym'] else 'one-sided')


CS = {'aileron': Aileron, 'elevator': Elevator, 'slat': Slat, 'flap': Flap, 'rudder': Rudder}


def check_controls(case, ctx):
    w = segmented(dict(b=20., cr=4., sym=True, secs=[[k / 20., 1 - 0.02 * k, 0.1, 0., 0.1] for k in [0] + sorted(set(case['cuts'])) + [20]]))
    surf = {}
    for i, (kind, a, b, hinge, chord, sign, defl) in enumerate(case['cs']):
        lo, hi = sorted((a, b))
        if lo == hi:
            hi = lo + 1
        if hi > 20:
            lo, hi = 19, 20
        c = CS[kind]()
        c.tag = '%s_%d' % (kind, i)
        c.span_fraction_start, c.span_fraction_end = lo / 20., hi / 20.
        c.span = 3. * (hi - lo)
        c.hinge_fraction, c.chord_fraction, c.sign_duplicate, c.deflection = hinge, chord, sign, defl
        w.append_control_surface(c)
        surf[c.tag] = c
    for _ in range(case['times']):
        out = populate_control_sections(w)
    require(out is w, 'another wing came back')
    require(list(w.control_surfaces.keys()) == list(surf), 'the wing lost control surfaces')
    pieces = {t: [] for t in surf}
    for i in range(len(w.Segments)):
        seg = w.Segments[i]
        lo = w.Segments[i - 1].percent_span_location if i else 0.
        for c in seg.control_surfaces.values():
            require(c.tag in pieces, 'piece of unknown surface %r', c.tag)
            require(lo - 1e-12 <= c.span_fraction_start < c.span_fraction_end <= seg.percent_span_location + 1e-12, 'piece %r..%r lies outside its section %r..%r', c.span_fraction_start, c.span_fraction_end, lo, seg.percent_span_location)
            whole = surf[c.tag]
            require(type(c) is type(whole), 'piece of another kind')
            for f in ('hinge_fraction', 'chord_fraction', 'sign_duplicate', 'deflection', 'configuration_type', 'gain'):
                require(c[f] == whole[f], 'piece of %s has another %s: %r instead of %r', c.tag, f, c[f], whole[f])
            pieces[c.tag].append(c)
    for tag, c in surf.items():
        ps = sorted(pieces[tag], key=lambda p: p.span_fraction_start)
        require(ps, 'surface %s from %r to %r was lost', tag, c.span_fraction_start, c.span_fraction_end)
        close(ps[0].span_fraction_start, c.span_fraction_start, rtol=0, atol=1e-12, what='start of %s' % tag)
        close(ps[-1].span_fraction_end, c.span_fraction_end, rtol=0, atol=1e-12, what='end of %s' % tag)
        for p, q in zip(ps, ps[1:]):
            close(q.span_fraction_start, p.span_fraction_end, rtol=0, atol=1e-12, what='gap or overlap in %s' % tag)
        close(sum(p.span for p in ps), c.span, rtol=1e-9, what='span of the pieces of %s' % tag)
        if len(ps) > 1:
            ctx.hit('surface over several sections')


def check_fuselage(case, ctx):
    f = SUAVE.Components.Fuselages.Fuselage()
    f.number_coach_seats = case['seats']
    f.seat_pitch = case['pitch']
    f.seats_abreast = case['abreast']
    f.fineness.nose, f.fineness.tail = case['fn'], case['ft']
    f.lengths.fore_space, f.lengths.aft_space = case['fore'], case['aft']
    f.width, f.heights.maximum = case['w'], case['w'] * case['hw']
    f.lengths.total = case['L']
    fuselage_planform(f)
    nose, tail = case['fn'] * case['w'], case['ft'] * case['w']
    if case['L'] == 0.:
        cabin = case['seats'] * case['pitch'] / case['abreast'] + case['fore'] + case['aft']
        total = cabin + nose + tail
        require(f.number_coach_seats == case['seats'], 'seats changed to %r', f.number_coach_seats)
        ctx.label('sized from the seats')
    else:
        total = case['L']
        cabin = total - nose - tail
        if cabin <= 1.:
            raise Discard
        close(f.number_coach_seats, np.round(cabin * case['abreast'] / case['pitch']), rtol=0, atol=1e-9, what='seats that fit')
    close([f.lengths.nose, f.lengths.cabin, f.lengths.tail, f.lengths.total], [nose, cabin, tail, total], rtol=1e-9, what='nose, cabin, tail and total length')
    a, b = case['w'] / 2, case['w'] * case['hw'] / 2
    m = max(a, b)
    circ = 4 * m * ellipe(1 - (min(a, b) / m) ** 2)
    close(f.areas.front_projected, math.pi * a * b, rtol=1e-9, what='frontal area')
    close(f.effective_diameter, circ / math.pi, rtol=2e-3, what='effective diameter vs perimeter of the ellipse')
    close(f.areas.wetted, circ * cabin + 0.75 * circ * (nose + tail), rtol=2e-3, what='wetted area vs perimeter of the ellipse')
    R = (a - b) / (a + b)
    C = math.pi * (a + b) * (1 + 3 * R ** 2 / (10 + math.sqrt(4 - 3 * R ** 2)))
    D = (a + b) * (64 - 3 * R ** 4) / (64 - 16 * R ** 2)
    close(f.effective_diameter, D, rtol=1e-9, what='effective diameter')
    close(f.areas.wetted, C * cabin + 0.75 * math.pi * D * (nose + tail), rtol=1e-9, what='wetted area')
    if case['hw'] != 1.:
        ctx.hit('not round')


def check_tails(case, ctx):
    main = wing_planform(trapezoid(dict(kind='main', S=case['S'], AR=case['AR'], taper=case['taper'], sweep=case['sweep'], tc=0.1, dih=0., sym=True, vert=False, flap=None)))
    for kind, fun, ref, sym in (('h', horizontal_tail_planform_raymer, main.chords.mean_aerodynamic, True), ('v', vertical_tail_planform_raymer, main.spans.projected, False)):
        t = trapezoid(dict(kind=kind, S=1., AR=case['ARt'], taper=case['tt'], sweep=case['st'], tc=0.1, dih=0., sym=sym, vert=not sym, flap=None))
        fun(t, main, case['arm'], case['vol'])
        close(t.areas.reference * case['arm'] / (ref * case['S']), case['vol'], rtol=1e-9, what='tail volume coefficient')
        close(t.spans.projected, math.sqrt(case['ARt'] * t.areas.reference), rtol=1e-9, what='tail span')
        close((t.chords.root + t.chords.tip) / 2 * t.spans.projected, t.areas.reference, rtol=1e-9, what='tail area from its chords')
    wing_fuel_volume_ref(main, case, ctx)


def wing_fuel_volume_ref(main, case, ctx):
    main.thickness_to_chord = case['tc']
    wing_fuel_volume(main)
    close(main.fuel_volume, 0.9 * 0.55 * case['tc'] * case['S'] ** 1.5 / math.sqrt(case['AR']), rtol=1e-9, what='fuel volume')
    ctx.hit('tails')


def check_rescale(case, ctx):
    v = SUAVE.Vehicle()
    f = SUAVE.Components.Fuselages.Fuselage()
    f.tag = 'fuselage'
    f.lengths.total = case['L']
    f.origin = [case['of']]
    if case['fus']:
        v.append_component(f)
    scale = case['k'] if case['fus'] else 1.
    for i, o in enumerate(case['ow']):
        w = SUAVE.Components.Wings.Wing()
        w.tag = 'wing_%d' % i
        w.origin = [o]
        v.append_component(w)
    if case['eng']:
        n = SUAVE.Components.Energy.Networks.Network()
        n.tag = 'net'
        n.number_of_engines = case['eng']
        x, y, z = case['oe']
        n.origin = [[x, 0. if case['eng'] == 1 else y, z]] + ([[x, -y, z]] if case['eng'] == 2 else [])
        n.non_dimensional_origin = []
        v.append_component(n)
        eng = copy.deepcopy(n.origin)
    set_origin_non_dimensional(v)
    if case['fus']:
        v.fuselages.fuselage.lengths.total *= case['k']
    for w in v.wings:
        w.origin = [[0., 0., 0.]]
    set_origin_dimensional(v)
    for w, o in zip(v.wings, case['ow']):
        close(w.origin, np.array([o]) * scale, rtol=1e-9, atol=1e-12, what='origin of %s' % w.tag)
    if case['fus']:
        close(v.fuselages.fuselage.origin, np.array([case['of']]) * scale, rtol=1e-9, atol=1e-12, what='origin of the fuselage')
    if case['eng']:
        close(v.networks.net.origin, np.array(eng) * scale, rtol=1e-9, atol=1e-12, what='origins of the engines')
    if case['fus'] and case['k'] != 1.:
        ctx.hit('rescaled')


def naca_volume(w, m, p, known_defect=False):
    def heights(c):
        yt = lambda x: 5 * w.thickness_to_chord * c * (0.2969 * x ** .5 - 0.126 * x - 0.3516 * x ** 2 + 0.2843 * x ** 3 - 0.1015 * x ** 4)
        f = math.cos(math.atan(2 * m / p ** 2 * (p - 0.1)))
        r = math.cos(math.atan(2 * m / (1 - p) ** 2 * (p - 0.6)))
        cf = m * 0.1 * c / p ** 2 * (2 * p - 0.1)
        cb = m * 0.4 * c / (1 - p) ** 2 * (1 + 0.6 - 2 * p)
        return [cf + yt(.1) * f, cf - yt(.1) * f, cb + yt(.6) * r, cb - yt(.6) * r]
    hr, ht = heights(w.chords.root), heights(w.chords.tip)
    hm = [(a + b) / 2 for a, b in zip(hr, ht)]
    if known_defect:
        hm[1] = ht[1] + (hr[0] - ht[0]) / 2
    area = lambda h, c: 0.5 * c * ((h[0] - h[1]) + (h[2] - h[3])) / 2
    return w.spans.projected / 6 * (area(hr, w.chords.root) + 4 * area(hm, (w.chords.root + w.chords.tip) / 2) + area(ht, w.chords.tip))


def volume_wing(case):
    w = SUAVE.Components.Wings.Wing()
    w.thickness_to_chord, w.taper, w.chords.root = case['tc'], case['taper'], case['cr']
    w.chords.tip = case['cr'] * case['taper']
    w.spans.projected = case['b']
    return w


def check_volume(case, ctx):
    w = volume_wing(case)
    got = estimate_naca_4_series_internal_volume(w, case['m'], case['p'])
    want = naca_volume(w, case['m'], case['p'])
    if abs(got - want) > 1e-9 * want and abs(got - naca_volume(w, case['m'], case['p'], True)) < 1e-9 * abs(want):
        ctx.label('known finding')
        return
    close(got, want, rtol=1e-9, what='volume between the spars')
    ctx.hit()


def probe_volume():
    w = volume_wing(dict(tc=0.12, taper=0.3, cr=5., b=30.))
    got = estimate_naca_4_series_internal_volume(w, 0.02, 0.4)
    want = naca_volume(w, 0.02, 0.4)
    return 'volume %r, expected %r' % (got, want) if abs(got - want) > 1e-9 * want else None


def check_nacelle(case, ctx):
    from SUAVE.Components.Nacelles import Nacelle
    tf = SUAVE.Components.Energy.Networks.Turbofan()
    na = Nacelle()
    tf.sealevel_static_thrust = case['F']
    compute_turbofan_geometry(tf, na)
    lb = case['F'] / (9.80665 * 0.45359237)
    close(na.diameter, 0.0254 * 1.0827 * lb ** 0.4134, rtol=1e-6, what='nacelle diameter')
    close(tf.engine_length, 0.0254 * 2.4077 * lb ** 0.3876, rtol=1e-6, what='engine length')
    close(na.areas.wetted, 1.1 * math.pi * na.diameter * tf.engine_length, rtol=1e-9, what='nacelle wetted area')
    close(na.inlet_diameter ** 2 * 2.1, na.diameter ** 2, rtol=1e-9, what='inlet area')
    close(tf.inlet_diameter, na.inlet_diameter, rtol=1e-12, what='inlet diameter of the engine')
    ctx.hit()


def probe_one_sided():
    case = dict(kind='v', S=20., AR=1.5, taper=0.4, sweep=0.6, tc=0.1, dih=0., sym=False, vert=True, flap=None)
    w = wing_planform(trapezoid(case))
    b, semi, cr, I = half_geometry(case)
    return 'aerodynamic centre at %r m' % w.aerodynamic_center[0] if abs(w.aerodynamic_center[0] - I['ac'][0]) > 1e-6 else None


def probe_sweep():
    case = dict(kind='v', S=20., AR=1.5, taper=0.4, sweep=0.6, tc=0.1, dih=0., sym=False, vert=True, flap=None)
    w = trapezoid(case)
    b, semi, cr, I = half_geometry(case)
    return 'leading edge sweep wrong' if abs(math.tan(convert_sweep(w, 0.25, 0.)) - I['x'][1] / semi) > 1e-6 else None


def probe_thickness():
    w = wing_segmented_planform(segmented(dict(b=6., cr=4., sym=False, secs=[[0., 1., 0.5, 0., 0.1], [1., 0.4, 0., 0., 0.1]])))
    return 'thickness %r' % w.thickness_to_chord if abs(w.thickness_to_chord - 0.1) > 1e-6 else None


def probe_ac():
    case = dict(kind='main', S=20., AR=8., taper=0.4, sweep=0.3, tc=0.1, dih=0., sym=True, vert=False, flap=None)
    w = wing_planform(trapezoid(case))
    return 'ac at %r' % trapezoid_ac_x(w) if abs(trapezoid_ac_x(w) - half_geometry(case)[3]['ac'][0]) > 1e-6 else None


xyz = st.tuples(rng(-20, 40, [0.]), rng(0, 10, [0.]), rng(-5, 5, [0.])).map(list)
half = st.integers(0, 20)
SUBS = [
    Sub('trapezoid', record(kind=st.sampled_from(['main', 'h', 'v', 'wing']), S=logrng(0.5, 800), AR=rng(1, 25), taper=rng(0.05, 1.3, [1.]), sweep=rng(-0.6, 1.1, [0.]), tc=rng(0.02, 0.25), dih=rng(-0.3, 0.5, [0.]), sym=st.booleans(), vert=st.booleans(),
                            flap=st.one_of(st.none(), st.tuples(rng(0, 1), rng(0, 1), rng(0.05, 0.5)).map(list)), t=rng(0, 1)), check_trapezoid, quick=800, rule='tapered and swept'),
    Sub('segmented', record(secs=sections(), b=logrng(1, 80), cr=logrng(0.3, 15), sym=st.booleans(), over=st.booleans(), offset=rng(0, 2), S0=st.sampled_from([0., 0., 33.]), split=st.integers(0, 3), t=inner(0.1, 0.9)), check_segmented, quick=800, rule='three or more sections'),
    Sub('controls', record(cuts=st.lists(st.integers(1, 19), max_size=4), cs=st.lists(st.tuples(st.sampled_from(sorted(CS)), half, half, rng(0, 1), rng(0.05, 0.5), st.sampled_from([1., -1.]), rng(-0.5, 0.5)).map(list), min_size=1, max_size=3), times=st.integers(1, 2)),
        check_controls, quick=500, rule='a control surface that spans several sections'),
    Sub('fuselage', record(seats=st.integers(1, 500), pitch=rng(0.6, 1.2), abreast=st.integers(1, 10), fn=rng(0.5, 3), ft=rng(0.5, 4), fore=rng(0, 8), aft=rng(0, 8), w=rng(0.5, 8), hw=rng(0.5, 2, [1.]), L=st.one_of(st.just(0.), rng(8, 90))), check_fuselage, quick=500, rule='section not round'),
    Sub('tails', record(S=logrng(1, 800), AR=rng(2, 20), taper=rng(0.1, 1), sweep=rng(0, 0.7), ARt=rng(1, 8), tt=rng(0.1, 1), st=rng(0, 0.8), arm=rng(1, 40), vol=rng(0.02, 1.2), tc=rng(0.05, 0.2)), check_tails, quick=200, rule='every case'),
    Sub('rescale', record(L=rng(3, 80), of=xyz, ow=st.lists(xyz, max_size=3), oe=xyz, eng=st.integers(0, 2), k=rng(0.5, 2, [1.]), fus=st.booleans()), check_rescale, quick=200, rule='fuselage length changed'),
    Sub('volume', record(tc=rng(0.06, 0.2), taper=st.one_of(st.just(1.), rng(0.1, 1)), cr=rng(0.5, 10), b=rng(2, 60), m=rng(0, 0.06), p=rng(0.2, 0.7)), check_volume, quick=200, rule='agrees with the section integral'),
    Sub('nacelle', record(F=logrng(500, 5e5)), check_nacelle, quick=100, rule='every case'),
]
PROPERTY = Property('C13', SUBS, rule='Random surfaces, control surfaces and bodies, against numerical integration of the polygon they describe and scaling or refinement relations.',
                    assumptions=['sections run from root to tip in increasing span; fuselages with a cabin longer than 1 m; engines in mirrored pairs or single on the centre line'], 
                    probes={'naca_volume_taper': probe_volume, 'planform_one_sided': probe_one_sided, 'convert_sweep_one_sided': probe_sweep, 'segmented_thickness_one_sided': probe_thickness, 'trapezoid_ac_x': probe_ac})

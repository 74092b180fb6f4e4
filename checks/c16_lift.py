"""C16: lifting line, stalled sections (AERODAS) and maximum lift follow the theory they are taken from."""
import math

import numpy as np
from hypothesis import strategies as st

import SUAVE
from SUAVE.Core import Data, Units
from SUAVE.Components.Wings import Main_Wing, Wing, Horizontal_Tail, Vertical_Tail, Segment
from SUAVE.Methods.Aerodynamics.Lifting_Line.Lifting_Line import lifting_line
from SUAVE.Methods.Aerodynamics.AERODAS.section_properties import section_properties
from SUAVE.Methods.Aerodynamics.AERODAS.finite_aspect_ratio import finite_aspect_ratio
from SUAVE.Methods.Aerodynamics.AERODAS.pre_stall_coefficients import pre_stall_coefficients
from SUAVE.Methods.Aerodynamics.AERODAS.post_stall_coefficients import post_stall_coefficients
from SUAVE.Methods.Aerodynamics.AERODAS.AERODAS_setup import lift_drag_total, setup_data
from SUAVE.Methods.Aerodynamics.Fidelity_Zero.Lift.compute_max_lift_coeff import compute_max_lift_coeff
from SUAVE.Methods.Aerodynamics.Fidelity_Zero.Lift.compute_flap_lift import compute_flap_lift
from SUAVE.Methods.Aerodynamics.Fidelity_Zero.Lift.compute_slat_lift import compute_slat_lift
from SUAVE.Methods.Aerodynamics.Common.Fidelity_Zero.Helper_Functions.estimate_2ndseg_lift_drag_ratio import estimate_2ndseg_lift_drag_ratio
from lib.prop import Property, Sub, require, fail, close, same_shape, finite
from lib.strat import rng, inner, logrng, vec, record

PI = math.pi
DEG = PI / 180.


# ------------------------------------------------------------------ lifting line
def reference_line(r, b, S, chord, twist):
    """Glauert's method: returns (lift per radian and at zero incidence as series coefficients)."""
    N = r - 1
    th = np.array([(k + 1) * PI / r for k in range(N)])
    eta = [abs(math.cos(t)) for t in th]
    mu = np.array([chord(e) * 2. * PI / (4. * b) for e in eta])
    M = np.zeros((N, N))
    for i in range(N):
        for n in range(1, N + 1):
            M[i, n - 1] = math.sin(n * th[i]) * (math.sin(th[i]) + n * mu[i])
    one = np.linalg.solve(M, mu * np.sin(th))
    tw = np.linalg.solve(M, mu * np.sin(th) * np.array([twist(e) for e in eta]))
    return one, tw


def line_result(one, tw, alpha, AR):
    A = one * alpha + tw
    return PI * AR * A[0], PI * AR * sum((n + 1) * A[n] ** 2 for n in range(len(A)))


LLWING = record(span=logrng(2, 60), root=logrng(.5, 8), taper=rng(.15, 1., [1.]), troot=rng(-.1, .1, [0.]), ttip=rng(-.1, .1, [0.]),
                breaks=st.one_of(st.just([]), vec(record(eta=inner(.05, .95), chord=rng(.2, 1.2), twist=rng(-.1, .1, [0.])), 1, 3)),
                area=st.one_of(st.none(), logrng(2, 300)), vertical=st.sampled_from([False] * 5 + [True]))
LINE = record(wing=LLWING, r=st.integers(4, 60), alpha=vec(rng(-.3, .3, [0.]), 1, 4))


def ll_wing(w, tag='wing', cls=Wing):
    wing = cls()
    wing.tag = tag
    wing.spans.projected = w['span']
    wing.chords.root = w['root']
    wing.chords.tip = w['root'] * w['taper']
    wing.taper = w['taper']
    wing.vertical = w['vertical']
    wing.twists.root = w['troot']
    wing.twists.tip = w['ttip']
    S = .5 * (1 + w['taper']) * w['root'] * w['span'] if w['area'] is None else w['area']
    wing.areas.reference = S
    wing.aspect_ratio = w['span'] ** 2 / S
    wing.chords.mean_aerodynamic = S / w['span']
    knots = [(0., 1., w['troot'])]
    for q in sorted(w['breaks'], key=lambda q: q['eta']):
        if q['eta'] > knots[-1][0] + .01:
            knots.append((q['eta'], q['chord'], q['twist']))
    knots.append((1., w['taper'], w['ttip']))
    if w['breaks']:
        for k, (e, ch, t) in enumerate(knots):
            seg = Segment()
            seg.tag = 'part_%d' % k
            seg.percent_span_location, seg.root_chord_percent, seg.twist = e, ch, t
            wing.append_segment(seg)
    return wing, knots


def table(knots, which, scale=1.):
    xs = [k[0] for k in knots]
    ys = [k[which] * scale for k in knots]
    return lambda e: float(np.interp(e, xs, ys))


def on_break(knots, r):
    """A station that falls on a break is given the chord of either side of rounding."""
    etas = [abs(math.cos((k + 1) * PI / r)) for k in range(r - 1)]
    return any(abs(e - k[0]) < 1e-9 for e in etas for k in knots[1:-1])


def check_line(c, ctx):
    w = c['wing']
    wing, knots = ll_wing(w)
    if w['breaks'] and on_break(knots, c['r']):
        ctx.label('station on a break')
        return
    alpha = np.array([c['alpha']]).T
    cond = Data(aerodynamics=Data(angle_of_attack=alpha))
    CL, CD = lifting_line(cond, Data(number_of_stations=c['r']), wing)
    if w['vertical']:
        require(np.all(np.array(CL) == 0.) and np.all(np.array(CD) == 0.), 'a vertical surface carries lift %r or drag %r', CL, CD)
        ctx.label('vertical')
        return
    one, tw = reference_line(c['r'], w['span'], wing.areas.reference, table(knots, 1, w['root']), table(knots, 2))
    for i, a in enumerate(c['alpha']):
        l, d = line_result(one, tw, a, wing.aspect_ratio)
        close(np.ravel(CL)[i], l, rtol=1e-8, atol=1e-11, what='lift coefficient')
        close(np.ravel(CD)[i], d, rtol=1e-8, atol=1e-12, what='induced drag coefficient')
        if w['area'] is None and not w['breaks']:
            require(np.ravel(CD)[i] >= l * l / (PI * wing.aspect_ratio) * (1. - 1e-9), 'induced drag %r below that of an elliptic wing', np.ravel(CD)[i])
    if w['breaks'] or w['troot'] != w['ttip']:
        ctx.hit('twisted or cranked')
    ctx.label('cranked' if w['breaks'] else 'straight')


LLVEH = record(wings=vec(LLWING, 1, 3), r=st.integers(6, 40), sref=logrng(5, 300), alpha=vec(rng(-.25, .25, [0.]), 1, 4))


def check_analysis(c, ctx):
    v = SUAVE.Vehicle()
    v.reference_area = c['sref']
    refs = []
    for k, w in enumerate(c['wings']):
        wing, knots = ll_wing(w, 'wing_%d' % k, Main_Wing if k == 0 else Horizontal_Tail)
        if w['breaks'] and on_break(knots, c['r']):
            ctx.label('station on a break')
            return
        v.append_component(wing)
        refs.append(reference_line(c['r'], w['span'], wing.areas.reference, table(knots, 1, w['root']), table(knots, 2)) +
                    (wing.aspect_ratio, wing.areas.reference))
    an = SUAVE.Analyses.Aerodynamics.Lifting_Line()
    an.geometry = v
    an.initialize(True, c['r'], None, False, False, False, False)
    state = SUAVE.Analyses.Mission.Segments.Conditions.State()
    state.conditions = SUAVE.Analyses.Mission.Segments.Conditions.Aerodynamics()
    state.expand_rows(len(c['alpha']))
    state.conditions.aerodynamics.angle_of_attack = np.array([c['alpha']]).T
    an.evaluate(state, Data(), v)
    A = state.conditions.aerodynamics
    for i, a in enumerate(c['alpha']):
        L = D = 0.
        for k, w in enumerate(c['wings']):
            l, d = (0., 0.) if w['vertical'] else line_result(refs[k][0], refs[k][1], a, refs[k][2])
            t = 'wing_%d' % k
            close(np.ravel(A.lift_breakdown.inviscid_wings[t])[i], l, rtol=1e-7, atol=1e-9, what='lift of ' + t)
            close(np.ravel(A.lift_breakdown.compressible_wings[t])[i], l, rtol=1e-7, atol=1e-9, what='compressible lift of ' + t)
            close(np.ravel(A.drag_breakdown.induced.inviscid_wings[t])[i], d, rtol=1e-6, atol=1e-9, what='induced drag of ' + t)
            L += l * refs[k][3] / c['sref']
            D += d * refs[k][3] / c['sref']
        s = max(1., max(r[3] for r in refs) / c['sref'])
        close(np.ravel(A.lift_coefficient)[i], L, rtol=1e-7, atol=1e-9 * s, what='lift coefficient')
        close(np.ravel(A.drag_breakdown.induced.total)[i], D, rtol=1e-6, atol=1e-9 * s, what='induced drag')
    if len(c['wings']) > 1:
        ctx.hit('several wings')


# ------------------------------------------------------------------ AERODAS
SECTION = record(re=vec(logrng(1e5, 1e7), 1, 5), mac=logrng(.2, 8), tc=rng(.05, .25), A0=rng(-.08, .05, [0.]), slope=rng(4.5, 6.6), acd=rng(-.05, .05, [0.]), ar=rng(2, 20))


def either(got, right, wrong, what, rtol=1e-9):
    got, right, wrong = [np.ravel(np.asarray(x, float)) for x in (got, right, wrong)]
    if not np.allclose(got, right, rtol=rtol, atol=1e-13):
        close(got, wrong, rtol=rtol, atol=1e-13, what=what)


def check_section(c, ctx):
    n = len(c['re'])
    state = Data(conditions=Data(freestream=Data(reynolds_number=np.array([c['re']]).T, altitude=np.zeros((n, 1)))))
    s = Data(section_zero_lift_angle_of_attack=c['A0'], section_lift_curve_slope=c['slope'], section_minimum_drag_coefficient_angle_of_attack=c['acd'])
    wing = Wing()
    wing.chords.mean_aerodynamic = c['mac']
    wing.thickness_to_chord = c['tc']
    wing.aspect_ratio = c['ar']
    section_properties(state, s, wing)
    q = wing.section
    t = c['tc']
    cf = [.0576 * (r * c['mac']) ** -.2 for r in c['re']]
    k = 1. + 2. * 1.1 * t + 1.1 ** 2 * 6. * t * t / 2.
    kw = 1. + 2. * 1.1 * t + 1.1 ** 2 * 6. ** t * t / 2.
    cd = q.minimum_drag_coefficient
    either(cd, [2 * k * f for f in cf], [2 * kw * f for f in cf], 'section drag')
    close(q.zero_lift_drag_coefficient, cd, what='zero lift drag')
    close(q.maximum_coefficient_lift, np.full((n, 1), 1.5), what='maximum lift')
    close(q.angle_attack_max_prestall_lift, np.full((n, 1), c['A0'] + 1.5 / c['slope']), rtol=1e-9, what='angle of maximum lift')
    close(q.pre_stall_maximum_drag_coefficient, 10. * cd, rtol=1e-9, what='drag at maximum lift')
    close(q.pre_stall_maximum_drag_coefficient_angle, np.full((n, 1), c['A0'] + 1.5 / c['slope']), rtol=1e-9, what='angle of that drag')
    close(q.minimum_drag_coefficient_angle_of_attack, c['acd'], what='angle of minimum drag')
    for x in (cd, q.maximum_coefficient_lift, q.angle_attack_max_prestall_lift):
        same_shape(x, (n, 1), 'section property')
    section = {k2: np.array(v2) * 1. for k2, v2 in q.items()}
    finite_aspect_ratio(state, s, wing)
    AR = c['ar']
    wide = 18.2 * 1.5 * AR ** -.9 * DEG
    close(wing.pre_stall_maximum_lift_coefficient, np.full((n, 1), 1.5 * (.67 + .33 * math.exp(-(4. / AR) ** 2))), rtol=1e-9, what='wing maximum lift')
    close(wing.pre_stall_maximum_lift_drag_coefficient, section['pre_stall_maximum_drag_coefficient'] + .28 * 2.25 * AR ** -.9, rtol=1e-9, what='wing drag at maximum lift')
    close(wing.pre_stall_lift_curve_slope, c['slope'] * AR / (2. + math.sqrt(4. + AR * AR)), rtol=1e-9, what='wing lift slope')
    close(wing.pre_stall_maximum_drag_coefficient_angle, np.full((n, 1), c['A0'] + 1.5 / c['slope'] + wide), rtol=1e-9, what='wing angle of maximum drag')
    either(wing.section.angle_attack_max_prestall_lift, np.full((n, 1), c['A0'] + 1.5 / c['slope'] + wide), np.full((n, 1), c['A0'] + 1.5 / c['slope']), 'wing stall angle')
    if n > 1:
        ctx.hit('several points')


STALL = record(alpha=vec(rng(-1.57, 1.57, [0., .1, -.1]), 1, 8), A0=rng(-.08, .05, [0.]), ACL1=rng(.2, .45), dACD=rng(0, .15), CL1max=rng(.8, 1.8), slack=rng(.05, .6),
               CDmin=rng(.004, .03), CD1max=rng(.08, .5), acd=rng(-.03, .03, [0.]), ar=rng(2, 20), tc=rng(.05, .25), vertical=st.sampled_from([False] * 6 + [True]),
               area=logrng(1, 100), sref=logrng(1, 100), inc=st.one_of(st.just(0.), rng(0, .05)))


def check_stall(c, ctx):
    n = len(c['alpha'])
    col = lambda x: np.full((n, 1), float(x))
    A0, ACL1, CLm = c['A0'], c['ACL1'], c['CL1max']
    ACD1 = ACL1 + c['dACD']
    S1 = (CLm + c['slack']) / (ACL1 - A0)
    alpha = np.array([c['alpha']]).T
    state = Data(conditions=Data(aerodynamics=Data(angle_of_attack=alpha.copy())))
    s = Data(section_zero_lift_angle_of_attack=A0, drag_coefficient_increment=c['inc'])
    wing = Wing()
    wing.tag = 'w'
    wing.vertical = c['vertical']
    wing.aspect_ratio = c['ar']
    wing.thickness_to_chord = c['tc']
    wing.areas.reference = c['area']
    wing.section = Data(angle_attack_max_prestall_lift=col(ACL1), minimum_drag_coefficient=col(c['CDmin']), minimum_drag_coefficient_angle_of_attack=c['acd'])
    wing.pre_stall_maximum_drag_coefficient_angle = col(ACD1)
    wing.pre_stall_maximum_lift_coefficient = col(CLm)
    wing.pre_stall_lift_curve_slope = S1
    wing.pre_stall_maximum_lift_drag_coefficient = col(c['CD1max'])
    setup_data(state, s, None)
    CL1, CD1 = pre_stall_coefficients(state, s, wing)
    CL2, CD2 = post_stall_coefficients(state, s, wing)
    require(np.array_equal(state.conditions.aerodynamics.angle_of_attack, alpha), 'the angles of attack were changed')
    CL2m = 1.19 * (1. - c['tc'] ** 2) * (.65 + .35 * math.exp(-(9. / c['ar']) ** 2.3))
    CD2m = 2.3 * math.exp(-(.65 * c['tc']) ** .9) * (.52 + .48 * math.exp(-(6.5 / c['ar']) ** 1.1))
    R1 = S1 * (ACL1 - A0) - CLm
    N1 = 1. + CLm / R1
    R2 = 1.632 - CL2m
    N2 = 1. + CL2m / R2

    def pre(a):
        x = abs(a - A0)
        # the curve is mirrored about the zero lift angle; the code measures the negative side with the same span
        l = S1 * (a - A0) - math.copysign(R1 * (x / (ACL1 - A0)) ** N1, a - A0) if x else 0.
        d = c['CDmin'] + (c['CD1max'] - c['CDmin']) * ((a - c['acd']) / (ACD1 - c['acd'])) ** 2 if 2 * A0 - ACD1 <= a <= ACD1 else 0.
        return l, d

    def lift2(a):
        if a < ACL1:
            return 0.
        x = abs(92. * DEG - a) / (51. * DEG)
        return -.032 * (a / DEG - 92.) - math.copysign(R2 * x ** N2, 92. * DEG - a)

    def drag2(a, f):
        return c['CD1max'] + (CD2m - c['CD1max']) * math.sin((a - ACD1) / (PI / 2 - ACD1) * f) if a > ACD1 else 0.

    want = []
    for i, a in enumerate(c['alpha']):
        a = 0. if c['vertical'] else a
        near = [ACL1, ACD1, 2 * A0 - ACL1, 2 * A0 - ACD1]
        if any(abs(a - z) < 1e-9 for z in near):
            want.append(None)
            continue
        b = 2 * A0 - a
        l1, d1 = pre(a)
        l2 = lift2(a) if a > 0 and a >= ACL1 else -lift2(b) if b >= ACL1 else 0.
        d2 = drag2(a, PI / 2) or drag2(b, PI / 2)
        d2w = drag2(a, 1.) or drag2(b, 1.)
        close(CL1[i, 0], l1, rtol=1e-8, atol=1e-11, what='lift before stall at %r' % a)
        close(CD1[i, 0], d1, rtol=1e-8, atol=1e-11, what='drag before stall at %r' % a)
        close(CL2[i, 0], l2, rtol=1e-8, atol=1e-11, what='lift after stall at %r' % a)
        either(CD2[i, 0], d2, d2w, 'drag after stall at %r' % a, rtol=1e-8)
        want.append((l1, d1, l2))
    v = SUAVE.Vehicle()
    v.reference_area = c['sref']
    v.append_component(wing)
    lift_drag_total(state, s, v)
    A = state.conditions.aerodynamics
    for i, a in enumerate(c['alpha']):
        if want[i] is None:
            continue
        l = max(want[i][0], want[i][2]) if a > A0 else min(want[i][0], want[i][2])
        d = max(want[i][1], float(CD2[i, 0]))
        close(np.ravel(A.lift_coefficient * np.ones((n, 1)))[i], 0. if c['vertical'] else l * c['area'] / c['sref'], rtol=1e-8, atol=1e-11, what='total lift')
        close(A.drag_coefficient[i, 0], d * c['area'] / c['sref'] + c['inc'], rtol=1e-8, atol=1e-11, what='total drag')
    if any(a > ACL1 for a in c['alpha']) and any(a < ACL1 for a in c['alpha']):
        ctx.hit('both sides of stall')
    ctx.label('vertical' if c['vertical'] else 'lifting')


# ------------------------------------------------------------------ maximum lift
HL = record(high=st.booleans(), area=logrng(5, 400), mac=logrng(.5, 9), tc=rng(.06, .2), sweep=rng(0, .7, [0.]), taper=rng(.1, 1.), affected=rng(.1, .9), ar=rng(3, 15),
            flap=st.one_of(st.none(), record(kind=st.sampled_from([None, 'plain', 'single_slotted', 'Single_Slotted', 'double_slotted', 'triple_slotted', 'TRIPLE_SLOTTED']),
                                             chord=rng(.1, .4), angle=rng(0, .9))),
            slat=st.one_of(st.none(), rng(0, .6)))
MAXL = record(wings=vec(HL, 1, 3), V=vec(rng(30, 120), 1, 4), rho=rng(.5, 1.3), mu=rng(1.4e-5, 1.9e-5), sref=logrng(20, 400), factor=rng(.8, 1.2),
              ratio=st.one_of(st.none(), rng(1.1, 1.4)))


def flap_lift(tc, f, sweep, S, area):
    if f['kind'] is None:
        return 0.
    d = -4e-5 * tc ** 4 + .0014 * tc ** 3 - .0093 * tc ** 2 + .0436 * tc + .9734
    d *= {'single_slotted': .93, 'triple_slotted': 1.08}.get(f['kind'].lower(), 1.)
    a = f['angle'] / DEG
    return (.0395 * f['chord'] * 100. + .0057) * (-.00017857 * a * a + .029214 * a - .014) * (1. - .08 * math.cos(sweep) ** 2) * math.cos(sweep) ** .75 * d * area / S


def check_max(c, ctx):
    v = SUAVE.Vehicle()
    v.reference_area = c['sref']
    v.tag = 'v'
    for k, w in enumerate(c['wings']):
        wing = (Main_Wing if k == 0 else Wing)()
        wing.tag = 'main_wing' if k == 0 else 'wing_%d' % k
        wing.high_lift = w['high']
        wing.areas.reference = w['area']
        wing.areas.affected = w['affected'] * w['area']
        wing.chords.mean_aerodynamic = w['mac']
        wing.thickness_to_chord = w['tc']
        wing.sweeps.quarter_chord = w['sweep']
        wing.taper = w['taper']
        wing.aspect_ratio = w['ar']
        if w['flap']:
            f = SUAVE.Components.Wings.Control_Surfaces.Flap()
            f.tag = 'flap'
            f.configuration_type = w['flap']['kind']
            f.chord_fraction = w['flap']['chord']
            f.deflection = w['flap']['angle']
            wing.append_control_surface(f)
        if w['slat'] is not None:
            f = SUAVE.Components.Wings.Control_Surfaces.Slat()
            f.tag = 'slat'
            f.deflection = w['slat']
            wing.append_control_surface(f)
        v.append_component(wing)
    n = len(c['V'])
    col = lambda x: np.full((n, 1), float(x))
    state = Data(conditions=Data(freestream=Data(velocity=np.array([c['V']]).T, density=col(c['rho']), dynamic_viscosity=col(c['mu']))))
    s = Data(maximum_lift_coefficient_factor=c['factor'])
    CL, CD = compute_max_lift_coeff(state, s, v)
    lift, drag = [0.] * n, 0.
    for w in c['wings']:
        if not w['high']:
            continue
        t, x, z = w['tc'] * 100., w['taper'], w['sweep'] / DEG
        ref = -.0009 * t ** 3 + .0217 * t ** 2 - .0442 * t + .7005
        shape = (0.919729714285715 - 0.044504761904771 * x - 0.0018359 * z + 0.247071428571446 * x ** 2 + 0.0031915 * x * z - 0.000056632142857 * z ** 2 -
                 0.279166666666676 * x ** 3 + 0.0023 * x ** 2 * z + 0.000049982142857 * x * z ** 2 - 0.00000028 * z ** 3)
        sl = 0. if w['slat'] is None else w['slat'] / DEG / 23. * math.cos(w['sweep']) ** 1.4 * math.cos(w['slat']) ** 2
        fl = 0. if w['flap'] is None else flap_lift(t, w['flap'], w['sweep'], c['sref'], w['affected'] * w['area'])
        if w['flap']:
            close(compute_flap_lift(t, w['flap']['kind'], w['flap']['chord'], w['flap']['angle'], w['sweep'], c['sref'], w['affected'] * w['area']), fl, rtol=1e-9,
                  atol=1e-13, what='flap lift')
        if w['slat'] is not None:
            close(compute_slat_lift(w['slat'], w['sweep']), sl, rtol=1e-9, what='slat lift')
        for i, V in enumerate(c['V']):
            R = V * c['rho'] * w['mac'] / c['mu']
            lift[i] += (1.1 * ref * (R / 9e6) ** .1 * shape - .2 + sl + fl) * w['area'] / c['sref'] * c['factor']
        drag += .01 * w['area'] / c['sref']
    close(CL * np.ones((n, 1)), np.array([lift]).T, rtol=1e-8, atol=1e-12, what='maximum lift coefficient')
    close(CD, drag, rtol=1e-9, what='induced drag increment')
    if c['ratio'] is not None:
        v.V2_VS_ratio = c['ratio']
    got = estimate_2ndseg_lift_drag_ratio(state, s, v)
    want = [-6.464 * l / (c['ratio'] or 1.2) ** 2 + 7.264 * c['wings'][0]['ar'] ** .5 for l in lift]
    close(got * np.ones((n, 1)), np.array([want]).T, rtol=1e-7, what='lift to drag ratio of the second segment')
    if any(w['high'] and (w['flap'] or w['slat'] is not None) for w in c['wings']):
        ctx.hit('high lift devices')


# ------------------------------------------------------------------ recorded defects
def _section():
    n = 1
    state = Data(conditions=Data(freestream=Data(reynolds_number=np.array([[1e6]]), altitude=np.zeros((n, 1)))))
    s = Data(section_zero_lift_angle_of_attack=0., section_lift_curve_slope=2 * PI, section_minimum_drag_coefficient_angle_of_attack=0.)
    wing = Wing()
    wing.chords.mean_aerodynamic, wing.thickness_to_chord, wing.aspect_ratio = 1., .12, 8.
    section_properties(state, s, wing)
    return state, s, wing


def probe_form():
    _, _, wing = _section()
    k = 1. + 2.2 * .12 + 1.21 * 6. * .12 ** 2 / 2.
    return abs(float(wing.section.minimum_drag_coefficient[0, 0]) / (2 * k * .0576 * 1e6 ** -.2) - 1.) > 1e-6


def probe_angle():
    state, s, wing = _section()
    a = float(wing.section.angle_attack_max_prestall_lift[0, 0])
    finite_aspect_ratio(state, s, wing)
    return abs(float(wing.section.angle_attack_max_prestall_lift[0, 0]) - a) < 1e-9


def probe_sine():
    state, s, wing = _section()
    finite_aspect_ratio(state, s, wing)
    wing.tag = 'w'
    state.conditions.aerodynamics = Data(angle_of_attack=np.array([[PI / 2]]))
    setup_data(state, s, None)
    CL, CD = post_stall_coefficients(state, s, wing)
    top = 2.3 * math.exp(-(.65 * .12) ** .9) * (.52 + .48 * math.exp(-(6.5 / 8.) ** 1.1))
    return abs(float(CD[0, 0]) - top) > 1e-6


PROPERTY = Property('C16', [
    Sub('line', LINE, check_line, quick=400, rule='the wing is twisted or cranked'),
    Sub('analysis', LLVEH, check_analysis, quick=120, rule='several wings'),
    Sub('section', SECTION, check_section, quick=250, rule='several points'),
    Sub('stall', STALL, check_stall, quick=600, rule='angles on both sides of stall'),
    Sub('max_lift', MAXL, check_max, quick=500, rule='a high lift device is deflected'),
], rule='each sub-check states its own',
    assumptions=['a station of the lifting line that falls on a break of the wing to within rounding is left out', 'angles within 1e-9 of a switch of the stall model are left out'],
    probes={'aerodas_form_factor': probe_form, 'aerodas_stall_angle': probe_angle, 'aerodas_sine': probe_sine})

"""Scalar restatement of the published weight correlations, in the customary units of their sources (lb, ft, lbf, nmi)."""
import math

LB = .45359237
FT = .3048
LBF = 4.4482216152605
NMI = 1852.
IN = .0254
HP = 745.6998715822702
GAL = 3.785411784e-3
PSF = LBF / FT ** 2
cos, tan, sqrt, pi = math.cos, math.tan, math.sqrt, math.pi


class V(dict):
    __getattr__ = dict.__getitem__


def crew(pax):
    return (3 if pax >= 150 else 2), (1 if pax < 51 else 1 + math.floor(pax / 40.))


# ------------------------------------------------------------------ SUAVE correlations
def engine_jet(thrust):
    return .4054 * (thrust / LBF) ** .9255 * LB


def propulsion(thrust, n):
    return 1.6 * n * engine_jet(thrust)


def wing_simple(v, w):
    S, b = w.S / FT ** 2, w.b / FT
    return (4.22 * S + 1.642e-6 * v.Nult * b ** 3 * sqrt(v.mtow / LB * v.mzfw / LB) * (1 + 2 * w.taper) / (w.tc * cos(w.sweep) ** 2 * S * (1 + w.taper))) * LB


def tail_h(v, w, main):
    S, b = w.S / FT ** 2, w.b / FT
    arm = (w.x + w.ac - main.x - main.ac) / FT
    return (5.25 * S + .8e-6 * v.Nult * b ** 3 * (v.mtow / LB) * (main.mac / FT) * sqrt(w.exposed / w.wetted * S) / (w.tc * cos(w.sweep) ** 2 * arm * S ** 1.5)) * LB


def tail_v(v, w):
    S, b = w.S / FT ** 2, w.b / FT
    W = (1.25 if w.t_tail else 1.) * (2.62 * S + 1.5e-5 * v.Nult * b ** 3 * (8. + .44 * (v.mtow / LB) / (v.Sref / FT ** 2)) / (w.tc * cos(w.sweep) ** 2))
    return W * LB * (1 + .25 * 1.6)                     # with its rudder


def tube(v, f, main, wing, prop):
    dp = f.dp / PSF
    w, h = f.w / FT, f.h / FT
    L = (f.l - main.root / 2.) / FT
    W = (v.mzfw - wing - prop) / LB
    Ip = 1.5e-3 * dp * w
    Ib = 1.91e-4 * v.Nlim * W * L / h ** 2
    I = Ip if Ip > Ib else (Ip ** 2 + Ib ** 2) / (2 * Ib)
    return (1.051 + .102 * I) * f.wet / FT ** 2 * LB


def systems(v, s_tail):
    n, t = v.pax, v.acc
    o = {}
    o['control_systems'] = {'fully powered': 3.5, 'partially powered': 2.5}.get(v.ctrl, 1.7) * s_tail / FT ** 2 * LB
    o['apu'] = max(7. * n * LB if n >= 6 else 0., 70.)
    o['hydraulics'] = .65 * v.Sref / FT ** 2 * LB
    o['electrical'] = (1950. if t == 'cargo' else 13. * n) * LB
    o['furnish'] = ((43.7 - .037 * min(n, 300.)) * n + 46. * n + (23. * n if t in ('long-range', 'sst') else 0.)) * LB
    o['air_conditioner'] = 15. * n * LB
    i, a = {'long-range': (1200., 1500.), 'sst': (1200., 1500.), 'business': (100., 300.), 'commuter': (300., 500.)}.get(t, (800., 900.))
    o['instruments'], o['avionics'] = i * LB, a * LB
    return o


def oper(v):
    pilots, att = crew(v.pax)
    per = {'short-range': 17., 'commuter': 17., 'sst': 40.}.get(v.acc, 28.)
    items = 56. if v.acc == 'cargo' else per * v.pax
    return dict(operating_items_less_crew=items * LB, flight_crew=pilots * 240. * LB, flight_attendants=att * 210. * LB)


def payload(v, pax=195., bag=30.):
    return dict(passengers=pax * LB * v.pax, baggage=bag * LB * v.pax, cargo=v.cargo)


# ------------------------------------------------------------------ FLOPS (NASA TM 2017-219627)
def flops_prop(v, e, nac, n_origins):
    F, n = e.thrust / LBF, e.n
    tn = lambda k: k + .5 * (k - 2 * math.floor(k / 2.))
    o = {}
    o['nacelle'] = .25 * tn(n_origins) * nac.d / FT * nac.l / FT * F ** .36 * LB
    o['thrust_reversers'] = .034 * F * tn(n) * LB
    o['controls'] = .26 * n * sqrt(F) * LB
    o['starter'] = 11. * n * v.mach ** .32 * (nac.d / FT) ** 1.6 * LB
    o['fuel_system'] = 1.07 * (v.mzfw / LB) ** .58 * n ** .43 * v.mach ** .34 * LB
    o['engines'] = n * F / (10.5 if v.acc in ('short-range', 'commuter') else 5.5) * LB
    return o


def flops_oper(v, e, tanks):
    n, F = e.n, e.thrust / LBF
    nt = tanks or 5
    wuf = 11.5 * n * F ** .2 + .07 * v.Sref / FT ** 2 + 1.6 * nt * (v.mzfw / LB) ** .28
    woil = .082 * n * F ** .65
    npf, npb, npt = seats(v)
    wsrv = (5.164 * npf + 3.846 * npb + 2.529 * npt) * (v.range / NMI / v.mach) ** .255
    wcon = 175. * math.ceil(v.cargo / LB / 950. - 1e-12)
    pilots, att = crew(v.pax)
    galley = 1 + math.floor(v.pax / 250.) if v.pax >= 150 else 0
    return dict(operating_items_less_crew=(wuf + woil + wsrv + wcon) * LB, flight_crew=225. * pilots * LB, flight_attendants=(155. * att + 200. * galley) * LB)


def seats(v):
    if v.coach is not None:
        f = (v.pax - v.coach) / 4.
        return f, v.pax - f - v.coach, v.coach
    return v.pax / 20., v.pax / 10., v.pax - v.pax / 20. - v.pax / 10.


def flops_payload(v):
    r = v.range / NMI
    bag = 35. if r <= 900 else 40. if r <= 2900 else 44.
    return dict(passengers=165. * LB * v.pax, baggage=bag * LB * v.pax, cargo=v.cargo)


def flops_systems(v, e, f, main, n_fuse=1):
    xl, wf, df = f.l / FT, f.w / FT, f.h / FT
    fp = xl * wf
    pilots = crew(v.pax)[0]
    few = sum(e.wing)
    fef = e.n - few
    npf, npb, npt = seats(v)
    o = {}
    o['control_systems'] = 1.1 * v.mach ** .52 * (main.S * main.flap / FT ** 2) ** .6 * (v.mtow / LB) ** .32
    o['apu'] = 54. * fp ** .3 + 5.4 * v.pax ** .9
    o['instruments'] = .48 * fp ** .57 * v.mach ** .5 * (10. + 2.5 * pilots + few + 1.5 * fef)
    o['hydraulics'] = .57 * (fp + .27 * v.Sref / FT ** 2) * (1 + .03 * few + .05 * fef) * v.mach ** .33
    o['electrical'] = 92. * xl ** .4 * wf ** .14 * n_fuse ** .27 * e.n ** .69 * (1 + .044 * pilots + .0015 * v.pax)
    av = o['avionics'] = 15.8 * (v.range / NMI) ** .1 * pilots ** .7 * fp ** .43
    o['furnish'] = 127. * pilots + 112. * npf + 78. * npb + 44. * npt + 2.6 * .8 * xl * (wf + df) * n_fuse
    o['air_conditioner'] = (3.2 * (fp * df) ** .6 + 9. * v.pax ** .83) * v.mach + .075 * av
    o['anti_ice'] = main.b / FT / cos(main.sweep) + 1.5 * wf          # wing and fuselage; the nacelle part is a recorded finding
    o = {k: x * LB for k, x in o.items()}
    o['air_conditioner'] += o.pop('anti_ice')
    return o


def flops_fuselage(v, f, e, delta):
    xl, d = f.l / FT, (f.w + f.h) / 2. / FT
    if v.acc in ('short-range', 'commuter'):
        s = pi * (xl / d - 1.7) * d * d
        return .052 * s ** 1.086 * (v.Nult * v.mtow / LB) ** .177 * (1481.35 * delta * v.mach ** 2) ** .241 * LB
    return 1.35 * (xl * d) ** 1.28 * (1 + .05 * (e.n - sum(e.wing))) * (1.38 if v.acc == 'cargo' else 1.) * LB


def flops_gear(v, e, f, nac, main, y_engine):
    wl = v.mtow / LB * (1 - (9e-5 if v.acc == 'sst' else 4e-5) * v.range / NMI)
    if sum(e.wing):
        x = 12. * nac.d / FT + (.26 - tan(main.dihedral)) * (y_engine / FT - 6. * f.w / FT)
    else:
        x = .75 * f.l / FT
    return .0117 * wl ** .95 * x ** .43 * LB, .048 * wl ** .67 * (.7 * x) ** .43 * LB


def flops_tail_h(v, w):
    return .53 * w.S / FT ** 2 * (v.mtow / LB) ** .2 * (w.taper + .5) * LB


def flops_tail_v(v, w):
    return .32 * (v.mtow / LB) ** .3 * (w.taper + .5) * (w.S / FT ** 2) ** .85 * LB


def flops_wing_simple(v, w, e, s, n_main, n_fuse=1):
    S, b = w.S / FT ** 2, w.b / FT
    AR = b * b / S
    caya = max(AR - 5., 0.)
    tl = tan(w.sweep) - 2. * (1 - w.taper) / (AR * (1 + w.taper))
    sl = tl / sqrt(1 + tl * tl)
    cayl = (1 - sl * sl) * (1 + (.5 * s.faert - .16 * s.fstrt) * sl * sl + .03 * caya * (1 - .5 * s.faert) * sl)
    bt = .215 * (.37 + .7 * w.taper) * AR ** (1 - .25 * s.fstrt) / (cayl * w.tc)
    A = (30., 0., .25, .5, .5, .16, 1.2) if v.acc in ('business', 'commuter') else (8.8, 6.25, .68, .34, .6, .035, 1.5)
    DG = v.mtow / LB
    nir = A[0] * bt * (1 + sqrt(A[1] / b)) * v.Nult * b * (1 - .4 * s.fcomp) * (1 - .1 * s.faert) * (1. if n_fuse == 1 else .5) / n_main * 1e-6
    w2 = A[2] * (1 - .17 * s.fcomp) * (w.flap * S) ** A[3] * DG ** A[4]
    w3 = A[5] * (1 - .3 * s.fcomp) * S ** A[6]
    return (DG * (1 - .03 * sum(e.wing)) * nir + w2 + w3) / (1 + nir) * LB


# ------------------------------------------------------------------ Raymer, transports
def raymer_prop(v, e, nac, n_nac, f):
    F, n = e.thrust / LBF, e.n
    one = F / (10.5 if v.acc in ('short-range', 'commuter') else 5.5)
    o = {}
    l, d = nac.l / FT, nac.d / FT
    sn = pi * d * l + pi * d * d / 2.
    o['nacelle'] = .6724 * l ** .1 * d ** .294 * v.Nult ** .119 * (2.331 * one ** .901 * 1.18) ** .611 * n_nac * .984 * sn ** .224 * LB
    o['thrust_reversers'] = 0.
    o['controls'] = (5. * n + .8 * n * f.l / FT) * LB
    o['starter'] = 49.19 * (n * one / 1000.) ** .541 * LB
    o['fuel_system'] = 1.07 * (v.mzfw / LB) ** .58 * n ** .43 * v.mach ** .34 * LB
    o['engines'] = n * one * LB
    return o


def raymer_wing(v, w):
    S = w.S / FT ** 2
    sw = 0. if v.acc == 'sst' else w.sweep
    return .0051 * (v.mtow / LB * v.Nult) ** .557 * S ** .649 * sqrt(w.AR) * w.tc ** -.4 * (1 + w.taper) ** .1 / cos(sw) * (.1 * S) ** .1 * LB


def raymer_tail_h(v, w, main, f):
    S = w.S / FT ** 2
    L = (w.x + w.ac - main.x - main.ac) / FT
    return .0379 * (1 + f.w / w.b) ** -.25 * (v.mtow / LB) ** .639 * v.Nult ** .1 * S ** .75 / L * (.3 * L) ** .704 / cos(w.sweep) * w.AR ** .166 * 1.4 ** .1 * LB


def raymer_tail_v(v, w, main):
    S = w.S / FT ** 2
    L = (w.x + w.ac - main.x - main.ac) / FT
    return .0026 * (2. if w.t_tail else 1.) ** .225 * (v.mtow / LB) ** .556 * v.Nult ** .536 * L ** -.5 * sqrt(S) * L ** .875 / cos(w.sweep) * w.AR ** .35 * w.tc ** -.5 * LB


def raymer_fuselage(v, f, main, klg):
    L, D = f.l / FT, (f.w + f.h) / 2. / FT
    sf = pi * (L / D - 1.7) * D * D
    kws = .75 * (1 + 2 * main.taper) / (1 + main.taper) * (main.b / FT) * tan(main.sweep) / L
    return .328 * 1.06 * klg * sqrt(v.mtow / LB * v.Nult) * L ** .25 * sf ** .302 * (1 + kws) ** .04 * (L / D) ** .1 * LB


def raymer_gear(v, g):
    wl = v.mtow / LB * (1 - (9e-5 if v.acc == 'sst' else 4e-5) * v.range / NMI)
    nl = 4.5
    m = .0106 * wl ** .888 * nl ** .25 * (g.lm / IN) ** .4 * (2. * g.nm) ** .321 * 2. ** -.5 * (51. * NMI / 3600.) ** .1
    n = .032 * wl ** .646 * nl ** .2 * (g.ln / IN) ** .5 * g.nn ** .45
    return m * LB, n * LB


def raymer_systems(v, e, f, main):
    L, B = f.l / FT, main.b / FT
    pilots = crew(v.pax)[0]
    D = (f.w + f.h) / 2. / FT
    sf = pi * (L / D - 1.7) * D * D
    o = {}
    o['control_systems'] = 36.28 * v.mach ** .003 * (main.flap * v.Sref / FT ** 2) ** .489 * 4. ** .484 * pilots ** .124
    o['apu'] = max(7. * v.pax if v.pax >= 6 else 0., 70. / LB)
    o['instruments'] = 4.509 * pilots ** .541 * e.n * sqrt(L + B)
    o['hydraulics'] = .2673 * 7. * (L + B) ** .937
    o['electrical'] = 7.291 * 60. ** .782 * (2 * L) ** .346 * e.n ** .1
    o['avionics'] = 1.73 * 1400. ** .983
    o['furnish'] = .0577 * pilots ** .1 * (v.cargo / LB) ** .393 * sf ** .75 + 46. * v.pax + 75. * pilots + 2.5 * v.pax ** 1.33
    o['air_conditioner'] = 62.36 * v.pax ** .25 * (D * D * pi / 4. * L / 1000.) ** .604 * 1400. ** .1 + .002 * v.mtow / LB
    return {k: x * LB for k, x in o.items()}


# ------------------------------------------------------------------ general aviation (Raymer)
def ga_wing(S, m_fuel, AR, sweep, q, taper, tc, N, mtow):
    # dynamic pressure in pounds (mass) per square foot: recorded
    return .036 * (S / FT ** 2) ** .758 * (m_fuel / LB) ** .0035 * (AR / cos(sweep) ** 2) ** .6 * (q / (LB / FT ** 2)) ** .006 * taper ** .04 * (100. * tc / cos(sweep)) ** -.3 * (N * mtow / LB) ** .49 * LB


def ga_tail_h(S, AR, sweep, q, taper, tc, N, mtow):
    return .016 * (N * mtow / LB) ** .414 * (q / PSF) ** .168 * (S / FT ** 2) ** .896 * (100. * tc / cos(sweep)) ** -.12 * (AR / cos(sweep) ** 2) ** .043 * taper ** -.02 * LB


def ga_tail_v(S, AR, sweep, q, taper, tc, N, mtow, t_tail):
    return .073 * (1.2 if t_tail else 1.) * (N * mtow / LB) ** .376 * (q / PSF) ** .122 * (S / FT ** 2) ** .873 * (100. * tc / cos(sweep)) ** -.49 * (AR / cos(sweep) ** 2) ** .357 * taper ** .039 * LB


def ga_gear(W, N, lm, ln):
    return .095 * (N * W / LB) ** .768 * (lm / FT) ** .409 * LB, .125 * (N * W / LB) ** .566 * (ln / FT) ** .845 * LB


# ------------------------------------------------------------------ small correlations
def engine_piston(P):
    return 5.22 * (P / HP) ** .78 * LB


def ga_propulsion(dry, n):
    return 2.575 * (dry / LB) ** .922 * n * LB


def hp_wing(S, b, c, ribs, tc, ends, N, W):
    d = b * b / (S * ribs)
    return (b * .117 + .011 * b * b) * (1 + (N * W / 100. - 2.) / 4.) + ribs * (c * c * tc * .055 + c * .00191) + ends * (c * c * tc * .662 + c * .00657) \
        + .456 * S * S * d ** (4. / 3.) / b + b * .0277 + S * .0308


def hp_tail(S, b, c, ribs, tc, q):
    d = b * b / (S * ribs)
    return (b * .0415 + b * b * .00391) * (1 + (q * S / 78.5 - 1.) / 12.) + ribs * (c * c * tc * .116 + c * .00401) + .174 * S * S * d ** (4. / 3.) / b + S * .0193


def hp_boom(S, q, L):
    return (L * .114 + .0196 * L * L) * (1 + (q * S / 78.5 - 1.) / 2.)

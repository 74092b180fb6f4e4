"""C26: noise: decibel arithmetic, annoyance metrics, microphones, rotor and airframe noise against independent references."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy.special import jv

from SUAVE.Core import Data, Units
from SUAVE.Core import Container
from SUAVE.Analyses.Mission.Segments.Conditions.Conditions import Conditions
from SUAVE.Components.Energy.Converters import Propeller
from SUAVE.Methods.Noise.Fidelity_Zero.shevell import shevell
from SUAVE.Methods.Noise.Fidelity_One.Noise_Tools.decibel_arithmetic import SPL_arithmetic, SPL_spectra_arithmetic, pressure_ratio_to_SPL_arithmetic
from SUAVE.Methods.Noise.Fidelity_One.Noise_Tools.dbA_noise import dbA_noise, A_weighting
from SUAVE.Methods.Noise.Fidelity_One.Noise_Tools.SPL_harmonic_to_third_octave import SPL_harmonic_to_third_octave
from SUAVE.Methods.Noise.Fidelity_One.Noise_Tools.pnl_noise import pnl_noise
from SUAVE.Methods.Noise.Fidelity_One.Noise_Tools.noise_tone_correction import noise_tone_correction
from SUAVE.Methods.Noise.Fidelity_One.Noise_Tools.epnl_noise import epnl_noise
from SUAVE.Methods.Noise.Fidelity_One.Noise_Tools.senel_noise import senel_noise
from SUAVE.Methods.Noise.Fidelity_One.Noise_Tools.atmospheric_attenuation import atmospheric_attenuation
from SUAVE.Methods.Noise.Fidelity_One.Noise_Tools.noise_certification_limits import noise_certification_limits
from SUAVE.Methods.Noise.Fidelity_One.Noise_Tools.generate_microphone_points import generate_ground_microphone_points, generate_building_microphone_points
from SUAVE.Methods.Noise.Fidelity_One.Noise_Tools.compute_noise_evaluation_locations import compute_ground_noise_evaluation_locations, compute_building_noise_evaluation_locations
from SUAVE.Methods.Noise.Fidelity_One.Noise_Tools.noise_geometric import noise_geometric
from SUAVE.Methods.Noise.Fidelity_One.Airframe.noise_clean_wing import noise_clean_wing
from SUAVE.Methods.Noise.Fidelity_One.Airframe.noise_leading_edge_slat import noise_leading_edge_slat
from SUAVE.Methods.Noise.Fidelity_One.Airframe.noise_trailing_edge_flap import noise_trailing_edge_flap
from SUAVE.Methods.Noise.Fidelity_One.Airframe.noise_landing_gear import noise_landing_gear
from SUAVE.Methods.Noise.Fidelity_One.Airframe.noise_airframe_Fink import noise_airframe_Fink
from SUAVE.Methods.Noise.Fidelity_One.Propeller.compute_harmonic_noise import compute_harmonic_noise
from SUAVE.Methods.Noise.Fidelity_One.Propeller.propeller_mid_fidelity import propeller_mid_fidelity
from SUAVE.Analyses.Noise.Fidelity_One import Fidelity_One
from lib.refatm import std
from lib.prop import Property, Sub, require, fail, close, same_shape, finite, monotone, Discard
from lib.strat import rng, inner, logrng, vec, record

PI = math.pi
CENTER = [50, 63, 80, 100, 125, 160, 200, 250, 315, 400, 500, 630, 800, 1000, 1250, 1600, 2000, 2500, 3150, 4000, 5000, 6300, 8000, 10000]
F24 = np.array(CENTER, dtype=float)
SET = Fidelity_One().settings


def esum(levels):
    return 10. * math.log10(sum(10. ** (l / 10.) for l in levels))


# ---------------------------------------------------------------- decibels
@st.composite
def dec_case(draw):
    n, k, r, h = (draw(st.integers(1, 4)) for _ in range(4))
    v = draw(vec(rng(-20., 140.), n * k * r * h, n * k * r * h))
    return dict(shape=[n, k, r, h], v=v, axis=draw(st.integers(0, 3)), shift=draw(rng(-30., 30.)), f=draw(vec(logrng(12., 14000.), n * h, n * h)), b=draw(st.integers(0, 23)))


def a_weight(f):
    """IEC 61672 A weighting [dB]."""
    c1, c2, c3, c4 = 20.598997, 107.65265, 737.86223, 12194.217
    ra = lambda x: c4 ** 2 * x ** 4 / ((x * x + c1 ** 2) * math.sqrt((x * x + c2 ** 2) * (x * x + c3 ** 2)) * (x * x + c4 ** 2))
    return 20. * math.log10(ra(f) / ra(1000.))


def decibels(c, ctx):
    sh = c['shape']
    S = np.array(c['v']).reshape(sh)
    ctx.hit(S.size > 1)
    tot = SPL_arithmetic(S.copy(), sum_axis=c['axis'])
    ref = np.apply_along_axis(lambda v: esum(v), c['axis'], S)
    close(tot, ref, 1e-9, 1e-9, 'energy sum of levels')
    close(SPL_spectra_arithmetic(S.copy()), np.apply_along_axis(lambda v: esum(v), 2, S), 1e-9, 1e-9, 'spectra energy sum')
    close(pressure_ratio_to_SPL_arithmetic(10. ** (S / 10.)), np.apply_along_axis(lambda v: esum(v), 3, S), 1e-9, 1e-9, 'pressure ratio sum')
    close(SPL_arithmetic(S + c['shift'], sum_axis=c['axis']), tot + c['shift'], 1e-9, 1e-9, 'adding a gain to every source adds it to the total')
    require(np.all(tot >= S.max(axis=c['axis']) - 1e-9), 'total level below its loudest source')
    # third octave bands: every tone lands, with its energy, in exactly the band that contains it
    f = np.array(c['f']).reshape(sh[0], sh[3])
    lo, hi = np.asarray(SET.lower_frequencies, float), np.asarray(SET.upper_frequencies, float)
    if np.min(np.abs(f[:, :, None] - np.concatenate([lo, hi])[None, None, :])) < 1e-9:
        raise Discard()
    B = SPL_harmonic_to_third_octave(S.copy(), f, SET)
    same_shape(B, (sh[0], sh[1], sh[2], len(lo)), 'band levels')
    for i in range(sh[0]):
        for b in range(len(lo)):
            idx = [k for k in range(sh[3]) if lo[b] < f[i, k] < hi[b]]
            for m in range(sh[1]):
                for r in range(sh[2]):
                    w = esum(S[i, m, r, idx]) if idx else 0.
                    close(B[i, m, r, b], w, 1e-9, 1e-9, 'third octave band %d level' % b)
                    if len(idx) > 1:
                        ctx.label('shared band')
    for i in range(sh[0]):
        for k in range(sh[3]):
            if 16. <= f[i, k] <= 20000.:
                close(A_weighting(S[i, :, :, k], f[i, k]) - S[i, :, :, k], a_weight(f[i, k]), 0., .06, 'A weighting at %.1f Hz' % f[i, k])
    L = S.reshape(-1)[0] + np.linspace(0, 10, 24)
    g = dbA_noise(L.copy()) - L
    for b in range(24):
        nom = 10. ** ((17 + b) / 10.)
        close(g[b], a_weight(nom), 0., .16, 'A weighting of band %d' % b)
    close(A_weighting(L, F24) - L, g, 0., .35, 'table and formula A weighting')


# ---------------------------------------------------------------- annoyance
# FAR 36 table A36-3: a, b, c, d, e, Mb, Mc, Md, Me for bands 50 Hz - 10 kHz
INF = 1e9
NOY = [(91., 64, 52, 49, 55, .043478, .030103, .07952, .058098), (85.9, 60, 51, 44, 51, .04057, .030103, .06816, .058098), (87.3, 56, 49, 39, 46, .036831, .030103, .06816, .052288),
       (79.9, 53, 47, 34, 42, .036831, .030103, .05964, .047534), (79.8, 51, 46, 30, 39, .035336, .030103, .053013, .043573), (76., 48, 45, 27, 36, .033333, .030103, .053013, .043573),
       (74., 46, 43, 24, 33, .033333, .030103, .053013, .040221), (74.9, 44, 42, 21, 30, .032051, .030103, .053013, .037349), (94.6, 42, 41, 18, 27, .030675, .030103, .053013, .034859)] + \
      [(INF, 40, 40, 16, 25, .030103, 0, .053013, .034859)] * 5 + \
      [(INF, 38, 38, 15, 23, .030103, 0, .05964, .034859), (INF, 34, 34, 12, 21, .02996, 0, .053013, .040221), (INF, 32, 32, 9, 18, .02996, 0, .053013, .037349),
       (INF, 30, 30, 5, 15, .02996, 0, .047712, .034859), (INF, 29, 29, 4, 14, .02996, 0, .047712, .034859), (INF, 29, 29, 5, 14, .02996, 0, .053013, .034859),
       (INF, 30, 30, 6, 15, .02996, 0, .053013, .034859), (INF, 31, 31, 10, 17, .02996, 0, .06816, .037349), (44.3, 37, 34, 17, 23, .042285, .02996, .07952, .037349),
       (50.7, 41, 37, 21, 29, .042285, .02996, .05964, .043573)]


def noy(b, L):
    a, sb, sc, sd, se, mb, mc, md, me = NOY[b]
    if L >= a:
        return 10. ** (mc * (L - sc))
    if L >= sb:
        return 10. ** (mb * (L - sb))
    if L >= se:
        return .3 * 10. ** (me * (L - se))
    if L >= sd:
        return .1 * 10. ** (md * (L - sd))
    return 0.


def pnl_ref(row):
    n = [noy(b, row[b]) for b in range(24)]
    N = .85 * max(n) + .15 * sum(n)
    return 40. + 10. / math.log10(2.) * math.log10(N) if N > 0 else 40. + 10. / math.log10(2.) * math.log10(.0625)


def tone_ref(L):
    """FAR 36 A36.4.3, bands numbered 1..24."""
    L = dict((i + 1, float(L[i])) for i in range(24))
    s = dict((i, L[i] - L[i - 1]) for i in range(4, 25))
    ringed = set()
    for i in range(5, 25):
        if abs(s[i] - s[i - 1]) > 5.:
            if s[i] > 0 and s[i] > s[i - 1]:
                ringed.add(i)
            elif s[i] <= 0 and s[i - 1] > 0:
                ringed.add(i - 1)
    P = {}
    for i in range(3, 25):
        if i not in ringed:
            P[i] = L[i]
        elif i < 24:
            P[i] = .5 * (L[i - 1] + L[i + 1])
        else:
            P[i] = L[23] + s[23]
    sp = dict((i, P[i] - P[i - 1]) for i in range(4, 25))
    sp[3] = sp[4]
    sp[25] = sp[24]
    B = {3: L[3]}
    for i in range(4, 25):
        B[i] = B[i - 1] + (sp[i - 1] + sp[i] + sp[i + 1]) / 3.
    best = 0.
    margin = 1e9
    for i in range(3, 25):
        F = L[i] - B[i]
        margin = min(margin, abs(F - 1.5), abs(F - 3.), abs(F - 20.))
        k = 2. if 11 <= i <= 21 else 1.
        if F < 1.5:
            C = 0.
        elif F < 3.:
            C = k * (F / 3. - .5)
        elif F < 20.:
            C = k * F / 6.
        else:
            C = k * (10. / 3.)
        best = max(best, C)
    d = min(abs(abs(s[i] - s[i - 1]) - 5.) for i in range(5, 25))
    return best, min(d, margin), len(ringed)


@st.composite
def ann_case(draw):
    n = draw(st.integers(1, 6))
    rows = []
    for _ in range(n):
        base, tilt = draw(rng(35., 105.)), draw(rng(-1.5, .5))
        jit = draw(vec(rng(-2.2, 2.2), 24, 24))
        tones = draw(st.lists(st.tuples(st.integers(3, 23), rng(2., 28.)), max_size=3))
        row = [base + tilt * i + jit[i] for i in range(24)]
        for b, t in tones:
            row[b] += t
        rows.append([max(x, .5) for x in row])
    m = draw(st.integers(1, 15))
    up = draw(st.integers(0, m))
    hist = draw(vec(rng(.2, 6.), m, m))
    return dict(rows=rows, peak=draw(rng(60., 120.)), up=min(up, m - 1), steps=hist, shift=draw(rng(-20., 20.)), W=draw(logrng(2e4, 4e5)), E=draw(st.integers(1, 6)))


def annoyance(c, ctx):
    S = np.array(c['rows'])
    got = pnl_noise(S.copy())
    tone = noise_tone_correction(S.copy())
    same_shape(np.asarray(got), (len(S),), 'PNL')
    same_shape(np.asarray(tone), (len(S),), 'tone correction')
    for j in range(len(S)):
        close(got[j], pnl_ref(S[j]), 1e-9, 1e-6, 'PNL of step %d' % j)
        w, margin, rings = tone_ref(S[j])
        if margin > 1e-7:
            close(tone[j], w, 1e-8, 1e-8, 'tone correction of step %d' % j)
            if w > 0:
                ctx.label('tone')
            if j:
                ctx.label('later step')
        require(pnl_noise(S[j:j + 1] + 1.)[0] >= got[j] - 1e-9, 'PNL falls when every band gets louder')
    # a single-peaked flyover history
    m = len(c['steps'])
    h = np.empty(m)
    h[c['up']] = c['peak']
    for i in range(c['up'] - 1, -1, -1):
        h[i] = h[i + 1] - c['steps'][i]
    for i in range(c['up'] + 1, m):
        h[i] = h[i - 1] - c['steps'][i]
    if np.min(np.abs(h - (h.max() - 10.))) < 1e-6:
        raise Discard()
    inside = np.where(h > h.max() - 10.)[0]
    a, b = inside[0], inside[-1]
    ctx.hit(m > 1 and len(inside) < m)
    if a == 0 or b == m - 1:
        ctx.label('window reaches the record end')
    E, N = epnl_noise(h.copy()), senel_noise(h.copy())
    lo = esum(h[a:b + 1])
    hi = esum(h[max(a - 1, 0):b + 2])
    require(lo - 1e-9 <= E + 13. <= hi + 1e-9, 'EPNL is not the energy in the 10 dB-down window', E, lo - 13., hi - 13.)
    require(lo - 1e-9 <= N <= hi + 1e-9, 'SENEL is not the energy in the 10 dB-down window', N, lo, hi)
    close(epnl_noise(h + c['shift']), E + c['shift'], 1e-9, 1e-9, 'EPNL shift')
    close(senel_noise(h + c['shift']), N + c['shift'], 1e-9, 1e-9, 'SENEL shift')
    require(epnl_noise(np.zeros(m)) == 0, 'silent source has an EPNL')
    # FAR 36 stage 3 limits, without their floors and caps
    r, v = Data(), Data()
    for k, s in (('approach', 'descent'), ('flyover', 'climb')):
        r[k] = Data(segments=Data())
        r[k].segments[s] = Data(conditions=Data(weights=Data(total_mass=np.array([[2. * c['W']], [c['W']]]))))
    v.networks = Data(turbofan=Data(number_of_engines=c['E']))
    L = noise_certification_limits(r, v)
    lb = c['W'] / .45359237
    fly = {1: 101., 2: 101., 3: 104.}.get(c['E'], 106.)
    close(L.noise_flyover_limit, fly + 4. * math.log2(lb / 850000.), 0., .08, 'flyover limit')
    close(L.noise_sideline_limit, 103. + 2.56 * math.log2(lb / 882000.), 0., .08, 'sideline limit')
    close(L.noise_approach_limit, 105. + 2.33 * math.log2(lb / 617300.), 0., .08, 'approach limit')


# ---------------------------------------------------------------- microphones
@st.composite
def mic_case(draw):
    nb = draw(st.integers(1, 3))
    return dict(x=sorted([draw(rng(-3000., 3000.)), draw(rng(-3000., 3000.))]), y=sorted([draw(rng(-900., 900.)), draw(rng(-900., 900.))]), nx=draw(st.integers(1, 6)), ny=draw(st.integers(1, 6)),
                bx=draw(st.lists(st.tuples(rng(-500., 500.), rng(-500., 500.), rng(5., 90.), rng(5., 90.), rng(4., 200.)), min_size=nb, max_size=nb)),
                n=[draw(st.integers(2, 5)) for _ in range(3)], pos=draw(st.lists(st.tuples(rng(-4000., 4000.), rng(-500., 500.), rng(20., 3000.)), min_size=1, max_size=5)), urban=draw(st.booleans()))


def grid1(lo, hi, n):
    return [lo] if n == 1 else [lo + (hi - lo) * i / (n - 1) for i in range(n)]


def as_set(P):
    return sorted(tuple(round(float(v), 6) + 0. for v in p) for p in P)


def mics(c, ctx):
    ctx.hit(c['nx'] != c['ny'] or len(set(c['n'])) > 1)
    G = generate_ground_microphone_points(c['x'][0], c['x'][1], c['y'][0], c['y'][1], c['nx'], c['ny'])
    want = [(x, y, 0.) for x in grid1(c['x'][0], c['x'][1], c['nx']) for y in grid1(c['y'][0], c['y'][1], c['ny'])]
    same_shape(G, (c['nx'] * c['ny'], 3), 'ground grid')
    close(np.array(as_set(G)), np.array(as_set(want)), 1e-9, 3e-6, 'ground grid')
    nx, ny, nz = c['n']
    loc = [[b[0], b[1], 0.] for b in c['bx']]
    dim = [[b[2], b[3], b[4]] for b in c['bx']]
    U = generate_building_microphone_points(loc, dim, nx, ny, nz)
    want = []
    for (x, y, z), (l, w, h) in zip(loc, dim):
        X, Y, Z = grid1(x - l / 2, x + l / 2, nx), grid1(y - w / 2, y + w / 2, ny), grid1(0., h, nz)
        want += [(s, b, d) for s in (X[0], X[-1]) for b in Y for d in Z] + [(a, s, d) for s in (Y[0], Y[-1]) for a in X for d in Z] + [(a, b, h) for a in X for b in Y]
    same_shape(U, (len(want), 3), 'building microphones')
    close(np.array(as_set(U)), np.array(as_set(want)), 1e-9, 3e-6, 'building microphones')
    # relative positions: from the microphone to the aircraft, z up
    P = np.array([[p[0], p[1], -p[2]] for p in c['pos']])
    seg = Data(state=Data(conditions=Data(frames=Data(inertial=Data(position_vector=P.copy())))))
    s = Data(ground_microphone_locations=G.copy(), urban_canyon_microphone_locations=U.copy() if c['urban'] else None)
    for fn, M in ((compute_ground_noise_evaluation_locations, G), (compute_building_noise_evaluation_locations, U if c['urban'] else np.zeros((0, 3)))):
        th, ph, R, n = fn(s, seg)
        require(n == len(M), 'number of microphones', n, len(M))
        same_shape(R, (len(P), n, 3), 'relative positions')
        for i in range(len(P)):
            for j in range(n):
                d = (P[i, 0] - M[j, 0], P[i, 1] - M[j, 1], -P[i, 2] - M[j, 2])
                close(R[i, j], np.array(d), 1e-9, 1e-7, 'aircraft position seen from a microphone')
                if abs(d[0]) > 1e-3 and abs(d[1]) > 1e-3:
                    close(math.tan(th[i, j]) * d[0], d[2], 1e-6, 1e-6, 'theta')
                    close(math.tan(ph[i, j]) * d[1], d[2], 1e-6, 1e-6, 'phi')
    # approach certification point: on the centreline, 2000 m from the threshold
    P2 = P.copy()
    P2[:, 1] = 0.
    if np.min(np.abs(P2[:, 0] - 2000.)) > 1e-3 and np.min(np.abs(P2[:, 0])) > 0:
        seg = Data(conditions=Data(frames=Data(inertial=Data(position_vector=P2.copy()))))
        an = Data(noise=Data(settings=Data(sideline=False, flyover=False, approach=True, mic_x_position=0)))
        o = noise_geometric(seg, an, None)
        for i in range(len(P)):
            dx, h = P2[i, 0] - 2000., -P2[i, 2]
            d = math.hypot(dx, h)
            close(o.dist[i], d, 1e-9, 0, 'approach slant distance')
            close(d * math.cos(o.theta[i]), dx, 1e-7, 1e-6, 'approach polar angle')
            require(0. <= o.theta[i] <= PI and o.phi[i] == 0, 'approach angles')
        close(seg.conditions.frames.inertial.position_vector, P2, 0, 1e-6, 'position after the noise geometry')


# ---------------------------------------------------------------- rotors
@st.composite
def rot_case(draw):
    Nr = draw(st.sampled_from([6, 9, 13]))
    n = draw(st.integers(1, 3))
    m = draw(st.integers(1, 3))
    p = lambda: draw(st.lists(st.tuples(rng(-1500., 1500.), rng(20., 900.), rng(40., 1500.)), min_size=1, max_size=1))[0]
    return dict(B=draw(st.integers(2, 6)), R=draw(logrng(.3, 3.)), hub=draw(rng(.12, .25)), Nr=Nr, chord=draw(rng(.05, .15)), tc=draw(rng(.06, .18)), sweep=draw(st.sampled_from([0., .1, .25])), tilt=draw(rng(0., .6)),
                Mt=draw(vec(rng(.3, .75), n, n)), Mx=draw(vec(rng(.03, .3), n, n)), climb=draw(rng(0., .3)), aoa=draw(vec(rng(-.08, .15), n, n)), alt=draw(vec(rng(0., 4000.), n, n)), T=draw(vec(rng(300., 6000.), n, n)),
                ratio=draw(rng(.05, .4)), mic=[[p() for _ in range(m)] for _ in range(n)], nrot=draw(st.integers(1, 3)), org=draw(vec(rng(-6., 6.), 9, 9)), nh=draw(st.integers(2, 8)), k=draw(rng(1.5, 4.)), pitch=draw(vec(rng(-.2, .2), n, n)),
                seedy=draw(vec(rng(.2, 1.), 12, 12)))


class Noisy(object):
    def __init__(self, c):
        self.c = c
        self.n, self.m = len(c['Mt']), len(c['mic'][0])
        R, N = c['R'], c['Nr']
        self.r = np.linspace(c['hub'] * R, R, N)
        self.ch = c['chord'] * R * (1.1 - .5 * self.r / R)
        self.mca = c['sweep'] * R * (self.r / R) ** 2
        air = [std(z) for z in c['alt']]
        self.rho, self.a, self.mu = (np.array([float(x[k]) for x in air]) for k in ('rho', 'a', 'mu'))
        self.om = np.array(c['Mt']) * self.a / R
        s = self.r / R
        dT = s ** 2 * np.sqrt(np.maximum(1.0001 - s ** 2, 0))
        dT = dT / np.trapz(dT, self.r)
        self.dT = np.array([T * dT for T in c['T']])
        self.dQ = c['ratio'] * self.dT * self.r
        self.V = np.array([[Mx * a, 0., -c['climb'] * Mx * a] for Mx, a in zip(c['Mx'], self.a)])
        self.rel = np.array(c['mic'], dtype=float)

    def rotor(self, tag='prop', origin=(0., 0., 0.)):
        c = self.c
        p = Propeller()
        p.tag = tag
        p.origin = [list(origin)]
        p.number_of_blades, p.tip_radius, p.hub_radius = c['B'], c['R'], c['hub'] * c['R']
        p.radius_distribution, p.chord_distribution, p.mid_chord_alignment = self.r.copy(), self.ch.copy(), self.mca.copy()
        p.thickness_to_chord = np.full(c['Nr'], c['tc'])
        p.orientation_euler_angles = [0., c['tilt'], 0.]
        p.airfoil_polar_stations = [0] * c['Nr']
        p.nonuniform_freestream = False
        bl = Data()
        y = c['seedy']
        bl.reynolds_numbers = np.array([1e4, 1e5, 1e6, 1e7])
        bl.angle_of_attacks = np.array([-.2, 0., .2])
        A, Q = np.meshgrid(bl.angle_of_attacks, np.array([1.3, 1.1, .9, .7]))
        for side, k in (('lower', 0), ('upper', 6)):
            d = (.02 + .03 * y[k]) * Q * (1 + .5 * A * (1 if k else -1))
            for nm, v in (('theta', d * .12), ('delta', d), ('delta_star', d * .16), ('Ue_Vinf', .8 + .4 * y[k + 1] + .1 * A + 0 * Q), ('cf', .003 * y[k + 2] * Q), ('dcp_dx', .02 + .5 * y[k + 3] + .3 * A + 0 * Q)):
                bl['%s_%s_surface' % (nm, side)] = np.repeat(v[:, :, None], 4, axis=2)
        p.Airfoils = Container()
        af = Data(tag='foil', polars=Data(boundary_layer=bl))
        p.Airfoils.append(af)
        return p

    def data(self, idx):
        Na, Nr = 6, self.c['Nr']
        om = self.om[idx]
        az = np.linspace(0, 2 * PI, Na)
        n = len(idx)
        d = Data(omega=om[:, None].copy(), blade_dT_dr=self.dT[idx].copy(), blade_dQ_dr=self.dQ[idx].copy())
        d.disc_azimuthal_distribution = np.tile(az[None, None, :], (n, Nr, 1))
        d.disc_tangential_velocity = np.tile((om[:, None] * self.r[None, :])[:, :, None], (1, 1, Na))
        d.disc_axial_velocity = np.tile(self.V[idx, 0][:, None, None] + 1., (1, Nr, Na))
        d.disc_effective_angle_of_attack = np.tile((.03 + .05 * np.array(self.c['seedy'])[idx][:, None] * np.ones(Nr)[None, :])[:, :, None], (1, 1, Na))
        return d

    def segment(self, idx, mic):
        n = len(idx)
        fs = Data(speed_of_sound=self.a[idx][:, None].copy(), density=self.rho[idx][:, None].copy(), dynamic_viscosity=self.mu[idx][:, None].copy())
        T = np.zeros((n, 3, 3))
        for i, k in enumerate(idx):
            ct, s = math.cos(self.c['pitch'][k]), math.sin(self.c['pitch'][k])
            T[i] = [[ct, 0, s], [0, 1, 0], [-s, 0, ct]]
        rel = self.rel[idx][:, mic] if len(mic) else self.rel[idx][:, :0]
        cond = Conditions()
        cond._size = n
        cond.update(Data(noise=Data(total_microphone_locations=rel.copy()), aerodynamics=Data(angle_of_attack=np.array(self.c['aoa'])[idx][:, None]), frames=Data(inertial=Data(velocity_vector=self.V[idx].copy()), body=Data(transform_to_inertial=T)), freestream=fs))
        return Data(state=Data(conditions=cond))

    def settings(self):
        s = Fidelity_One().settings
        s.harmonics = np.arange(1, self.c['nh'] + 1)
        return s


def hanson(o, i, pos, m):
    """Level of harmonic m at control point i for a source-to-observer vector: Hanson's far field thickness + loading noise."""
    c = o.c
    B, R, D = c['B'], c['R'], 2. * c['R']
    x, y, z = pos
    S = math.sqrt(x * x + y * y + z * z)
    th = math.acos(x / S)
    Yr = math.hypot(y, z)
    V = math.sqrt(sum(o.V[i] ** 2))
    Mx, Mt = V / o.a[i], R * o.om[i] / o.a[i]
    al = c['aoa'][i] + c['tilt']
    thr = math.acos(math.cos(th) * math.sqrt(1. - Mx ** 2 * math.sin(th) ** 2) + Mx * math.sin(th) ** 2)
    phi = math.atan(z / y)
    thp = math.acos(math.cos(thr) * math.cos(al) + math.sin(thr) * math.sin(phi) * math.sin(al))
    dop = 1. - Mx * math.cos(thr)
    fV, fL = [], []
    for j, rr in enumerate(o.r):
        s = rr / R
        Mr = math.sqrt(Mx ** 2 + s ** 2 * Mt ** 2)
        k = 2. * m * B * (o.ch[j] / D) * Mt / (Mr * dop)
        ps = 2. * m * B * Mt / (Mr * dop) * o.mca[j] / D
        if j == 0:
            pV, pL = 2. / 3., 1.
        else:
            pV = 8. / k ** 2 * (2. / k * math.sin(k / 2.) - math.cos(k / 2.))
            pL = 2. / k * math.sin(k / 2.)
        J = jv(m * B, m * B * s * Mt * math.sin(thp) / dop)
        e = complex(math.cos(ps), math.sin(ps))
        fV.append(Mr ** 2 * c['tc'] * e * J * k ** 2 * pV)
        fL.append((math.cos(thp) / dop * o.dT[i][j] - o.dQ[i][j] / (s ** 2 * Mt * R)) * e * J * pL)
    tr = lambda f: abs(sum((f[j] + f[j + 1]) / 2. * (o.r[j + 1] - o.r[j]) / R for j in range(len(f) - 1)))
    pT = o.rho[i] * o.a[i] ** 2 * B * math.sin(thr) / (4. * math.sqrt(2.) * PI * (Yr / D) * dop) * tr(fV)
    pL = m * B * Mt * math.sin(thr) / (2. * math.sqrt(2.) * PI * Yr * R * dop) * tr(fL)
    p = pT + pL
    return 20. * math.log10(p / 2e-5) if p > 0 else -math.inf


def harm(o, pos, idx, scale=1.):
    c = o.c
    res = Data()
    rot = Container()
    rot.append(o.rotor())
    seg = o.segment(idx, list(range(o.m))).state.conditions
    compute_harmonic_noise(o.settings().harmonics, seg.freestream, seg.aerodynamics.angle_of_attack, pos, seg.frames.inertial.velocity_vector, rot, o.data(idx), o.settings(), res)
    return res


def harmonic(c, ctx):
    o = Noisy(c)
    ctx.hit(o.n * o.m > 1)
    idx = list(range(o.n))
    pos = -o.rel[:, :, None, :]
    R = harm(o, pos.copy(), idx)
    L = R.SPL_prop_harmonic_bpf_spectrum
    same_shape(L, (o.n, o.m, 1, c['nh']), 'harmonic spectrum')
    f = np.asarray(R.f)
    for i in range(o.n):
        for h in range(c['nh']):
            close(f[i, 0, 0, 0, h], c['B'] * (h + 1) * o.om[i] / (2 * PI), 1e-10, 0, 'blade passing frequency')
        for k in range(o.m):
            for h in range(c['nh']):
                w = hanson(o, i, pos[i, k, 0], h + 1)
                if w > -100.:
                    close(L[i, k, 0, h], w, 1e-7, 1e-5, 'harmonic level')
                    fb = c['B'] * (h + 1) * o.om[i] / (2 * PI)
                    close(R.SPL_prop_harmonic_bpf_spectrum_dBA[i, k, 0, h] - L[i, k, 0, h], a_weight(fb), 0., .06, 'A weighted harmonic')
    far = harm(o, pos * c['k'], idx).SPL_prop_harmonic_bpf_spectrum
    ok = np.isfinite(L)
    close(far[ok], L[ok] - 20. * math.log10(c['k']), 1e-7, 1e-5, 'spherical spreading')


def whole(o, idx, mic, origins, scale=1.):
    rot = Container()
    for q, org in enumerate(origins):
        rot.append(o.rotor('p%d' % q, org))
    with np.errstate(all='ignore'):
        return propeller_mid_fidelity(rot, o.data(idx), o.segment(idx, mic), o.settings())


def rotor_noise(c, ctx):
    o = Noisy(c)
    idx, mic = list(range(o.n)), list(range(o.m))
    org = [c['org'][3 * q:3 * q + 3] for q in range(c['nrot'])]
    ctx.hit(c['nrot'] > 1)
    A = whole(o, idx, mic, org)
    NF = len(SET.center_frequencies)
    for k, sh in (('SPL', (o.n, o.m)), ('SPL_dBA', (o.n, o.m)), ('SPL_1_3_spectrum', (o.n, o.m, NF)), ('SPL_harmonic_bpf_spectrum', (o.n, o.m, c['nh']))):
        same_shape(A[k], sh, k)
    keys = ['SPL', 'SPL_dBA', 'SPL_1_3_spectrum', 'SPL_1_3_spectrum_dBA', 'SPL_harmonic', 'SPL_broadband', 'SPL_harmonic_1_3_spectrum', 'SPL_broadband_1_3_spectrum', 'SPL_harmonic_bpf_spectrum']
    finite(A.SPL, 'SPL')
    finite(A.SPL_broadband, 'broadband SPL')
    # each control point and microphone is heard on its own
    for i in idx:
        for j in mic:
            B = whole(o, [i], [j], org)
            for k in keys:
                g, w = np.asarray(A[k])[i, j], np.asarray(B[k])[0, 0]
                fin = np.isfinite(w)
                close(np.asarray(g)[fin], np.asarray(w)[fin], 1e-8, 1e-7, k + ' of one control point and microphone')
    # sources add as energies
    each = [whole(o, idx, mic, [g]) for g in org]
    for k in ('SPL_1_3_spectrum', 'SPL', 'SPL_broadband_1_3_spectrum', 'SPL_harmonic_1_3_spectrum', 'SPL_1_3_spectrum_dBA'):
        e = 10. * np.log10(sum(10. ** (np.asarray(x[k]) / 10.) for x in each))
        close(A[k], e, 1e-8, 1e-7, k + ' of several rotors')
    same = whole(o, idx, mic, [org[0]] * 3)
    close(same.SPL, each[0].SPL + 10. * math.log10(3.), 1e-8, 1e-7, 'three rotors in one place')
    for x in (A, same):
        close(x.SPL, 10. * np.log10(np.sum(10. ** (np.asarray(x.SPL_1_3_spectrum) / 10.), axis=2)), 1e-8, 1e-7, 'overall level of the band spectrum')
        close(x.SPL_dBA, 10. * np.log10(np.sum(10. ** (np.asarray(x.SPL_1_3_spectrum_dBA) / 10.), axis=2)), 1e-8, 1e-7, 'overall A level of the band spectrum')
        require(np.all(x.SPL >= x.SPL_broadband - 1e-6) and np.all(x.SPL >= x.SPL_harmonic - 1e-6), 'total below one of its parts')
    # with its axis at the aircraft position, the source vector is the reversed microphone-to-aircraft vector
    lev = whole(o, idx, mic, [(0., 0., 0.)]).SPL_harmonic_bpf_spectrum
    w = harm(o, -o.rel[:, :, None, :], idx).SPL_prop_harmonic_bpf_spectrum[:, :, 0, :]
    fin = np.isfinite(w)
    close(lev[fin], w[fin], 1e-7, 1e-6, 'harmonics heard at the microphones')


class Evaluated(object):
    """Fidelity_One noise of a segment with a propeller network."""
    def __init__(self, o, origins, identical, scales):
        an = Fidelity_One()
        an.settings = o.settings()
        an.settings.level_ground_microphone_x_resolution = 2
        an.settings.level_ground_microphone_y_resolution = 2
        seg = o.segment(list(range(o.n)), [])
        c = seg.state.conditions
        P = np.array([[200. * i - 300., 5., -o.rel[i, 0, 2]] for i in range(o.n)])
        c.frames.inertial.position_vector = P
        seg.state.numerics = Data(number_control_points=o.n)
        seg.conditions = c
        props, src = Container(), Data()
        for q, g in enumerate(origins):
            p = o.rotor('p%d' % q, g)
            props.append(p)
            d = o.data(list(range(o.n)))
            d.blade_dT_dr = d.blade_dT_dr * scales[q]
            d.blade_dQ_dr = d.blade_dQ_dr * scales[q]
            src['p%d' % q] = d
        net = Data(tag='battery_propeller', propellers=props, identical_propellers=identical)
        cfg = Data(networks=Data(battery_propeller=net))
        c.noise.sources = Data(propellers=src)
        seg.analyses = Data(noise=an)
        an.geometry = cfg
        with np.errstate(all='ignore'):
            an.evaluate_noise(seg)
        self.dBA = c.noise.total_SPL_dBA


def aircraft(c, ctx):
    o = Noisy(c)
    org = [c['org'][3 * q:3 * q + 3] for q in range(c['nrot'])]
    ctx.hit(c['nrot'] > 1)
    one = [1.] * len(org)
    A, B = Evaluated(o, org, True, one), Evaluated(o, org, False, one)
    same_shape(A.dBA, (o.n, 4), 'total A level')
    each = [Evaluated(o, [g], False, [1.]).dBA for g in org]
    close(A.dBA, heard(each), 1e-7, 1e-3, 'total of identical rotors')
    apart(B.dBA, o, org, one, each, 'the same rotors declared non-identical')
    sc = [.3 + q for q in range(len(org))]
    C = Evaluated(o, org, False, sc)
    each = [Evaluated(o, [g], False, [s]).dBA for g, s in zip(org, sc)]
    apart(C.dBA, o, org, sc, each, 'total of differently loaded rotors')


def heard(each):
    """Energy sum; every evaluation carries one empty source of 0 dB."""
    return 10. * np.log10(sum(10. ** (x / 10.) - 1. for x in each) + 1.)


def apart(got, o, org, sc, each, what):
    """Each rotor heard once - or, known finding rotors-counted-again, rotor r heard at the places of rotors 0..r."""
    want = heard(each)
    if np.allclose(got, want, rtol=1e-7, atol=1e-3):
        return
    again = [Evaluated(o, [g], False, [sc[r]]).dBA for r in range(len(org)) for g in org[:r + 1]]
    if len(org) > 1 and np.allclose(got, heard(again), rtol=1e-7, atol=1e-3):
        return
    close(got, want, 1e-7, 1e-3, what)


def air_case():
    return record(S=logrng(10., 500.), AR=rng(4., 14.), V=rng(45., 130.), alt=rng(0., 1500.), d=vec(logrng(60., 4000.), 2, 5), th=vec(rng(.2, 2.9), 5, 5), ph=vec(rng(-1.2, 1.2), 5, 5), Sf=rng(.05, .25), cf=rng(.2, 1.5), df=rng(.1, .75), slots=st.sampled_from([1, 2, 3]), Dm=rng(.4, 1.4),
                  Hm=rng(.8, 3.), Dn=rng(.3, .9), Hn=rng(.6, 2.), wheels=st.sampled_from([(2, 2), (4, 2), (1, 1), (4, 4)]), units=st.integers(1, 4), gear=st.sampled_from(['up', 'down']), k=rng(1.3, 5.), E=st.integers(1, 6), TS=logrng(2e4, 4e5), red=rng(.2, 1.), W=logrng(2e4, 4e5))


def wing_ref(S, b, ND, V, nu, M, phi, th, d):
    """Fink's clean wing: trailing edge noise, S, b, d in ft, V in m/s, nu in ft2/s."""
    v = V / .3048
    dl = .37 * S / b * (v * S / (b * nu)) ** -.2
    fm = .1 * v / (dl * (1. - M * math.cos(th)))
    oa = 50. * math.log10(V / (1852. / 3600.) / 100.) + 10. * math.log10(dl * b / d ** 2) + 8. * ND + 20. * math.log10(math.cos(phi) * math.sin(th) * math.cos(th / 2.)) + 104.3
    x = F24 / fm
    return oa + 10. * np.log10(.613 * x ** 4 * (x ** 1.5 + .5) ** -4) - .03 * np.abs(x - 1.) ** 1.5


def flap_ref(Sf, cf, df, slots, V, M, phi, th, d):
    G = []
    for f in F24:
        s = f * cf / (V / .3048 * (1. - M * math.cos(th)))
        if s < 2.:
            g = 99. + 10. * math.log10(s)
        elif slots < 3:
            g = 103.82 - 6. * math.log10(s) if s < 20. else 135.04 - 30. * math.log10(s)
        else:
            g = 102.61 - 2. * math.log10(s) if s < 75. else 158.11 - 30. * math.log10(s)
        G.append(g)
    D = 0. if th + df >= PI else 20. * math.log10(math.sin(th) * math.cos(phi) ** 2 * math.sin(th + df))
    return np.array(G) + 10. * math.log10(Sf * math.sin(df) ** 2 / d ** 2) + 60. * math.log10(V / (1852. / 3600.) / 100.) + D


ATT = np.array([.09, .11, .14, .17, .22, .28, .35, .44, .55, .7, .88, 1.11, 1.42, 1.78, 2.24, 2.88, 3.64, 4.6, 5.89, 7.63, 8.68, 11.08, 14.87, 20.61])


def es(*a):
    return 10. * np.log10(sum(10. ** (x / 10.) for x in a))


def airframe(c, ctx):
    ft = .3048
    air = std(c['alt'])
    a, nu = float(air['a']), float(air['mu'] / air['rho'])
    V = c['V']
    M = V / a
    S, b = c['S'] / ft ** 2, math.sqrt(c['S'] * c['AR']) / ft
    th, ph, d = c['th'][0], c['ph'][0], c['d'][0]
    nf = nu * 10.
    ctx.hit()
    W = noise_clean_wing(S, b, 0, 1, V, nf, M, ph, th, d, F24)
    close(W, wing_ref(S, b, 0, V, nf, M, ph, th, d), 1e-8, 1e-7, 'clean wing spectrum')
    Sl = noise_leading_edge_slat(W, S, b, V, nf, M, ph, th, d, F24)
    aux = wing_ref(.15 * S, b, 1, V, nf, M, ph, th, d)
    close(Sl, es(W + 3., aux - aux.max() + W.max() + 3.), 1e-8, 1e-7, 'slat spectrum')
    Fl = noise_trailing_edge_flap(c['Sf'] * S, c['cf'] / ft, c['df'], c['slots'], V, M, ph, th, d, F24)
    close(Fl, flap_ref(c['Sf'] * S, c['cf'] / ft, c['df'], c['slots'], V, M, ph, th, d), 1e-8, 1e-7, 'flap spectrum')
    D, H = c['Dm'] / ft, c['Hm'] / ft
    w = c['wheels'][0]
    G = noise_landing_gear(D, H, w, M, V, ph, th, d, F24)
    finite(G, 'landing gear spectrum')
    close(noise_landing_gear(D, H, w, M, V, ph, th, d * c['k'], F24), G - 20. * math.log10(c['k']), 1e-8, 1e-7, 'landing gear spreading')
    # geometric similarity: the spectrum moves with D f / V
    close(noise_landing_gear(D * c['k'], H * c['k'], w, M, V, ph, th, d * c['k'], F24 / c['k']), G, 1e-8, 1e-7, 'scaled landing gear')
    close(noise_clean_wing(S, b, 0, 1, V, nf, M, ph, th, d * c['k'], F24), W - 20. * math.log10(c['k']), 1e-8, 1e-7, 'wing spreading')
    close(atmospheric_attenuation(d), ATT * d / 1000., 1e-9, 0, 'atmospheric attenuation')
    # whole airframe: every control point is the energy sum of the parts at its distance and angles
    n = len(c['d']) + 1
    dist, tt, pp = (np.array((list(c[k]) * 3)[:n - 1] + [1. if k != 'd' else 500.]) for k in ('d', 'th', 'ph'))
    lg = Data(main_tire_diameter=c['Dm'], nose_tire_diameter=c['Dn'], main_strut_length=c['Hm'], nose_strut_length=c['Hn'], gear_condition=c['gear'], nose_wheels=c['wheels'][1], main_wheels=c['wheels'][0], main_units=c['units'])
    sp = lambda s, k=1.: Data(areas=Data(reference=c['S'] * s), spans=Data(projected=b * ft * math.sqrt(s)))
    mw = sp(1.)
    mw.control_surfaces = Data(flap=Data(deflection=c['df'], area=c['Sf'] * c['S'], chord_dimensional=c['cf'], configuration_type={1: 'single_slotted', 2: 'double_slotted', 3: 'triple_slotted'}[c['slots']]))
    cfg = Data(tag='cfg', wings=Data(main_wing=mw, horizontal_stabilizer=sp(.2), vertical_stabilizer=sp(.15)), landing_gear=lg)
    col = lambda v: np.full((n, 1), v)
    fs = Data(velocity=col(V), altitude=col(c['alt']), speed_of_sound=col(a), dynamic_viscosity=col(nf / ft ** 2))
    seg = Data(conditions=Data(freestream=fs, frames=Data(inertial=Data(time=np.arange(n, dtype=float)[:, None]))), dist=dist, theta=tt, phi=pp)
    with np.errstate(all='ignore'):
        R = noise_airframe_Fink(seg, None, cfg, SET)
    nv = float(fs.dynamic_viscosity[0, 0]) * .3048 ** 2
    for i in range(n - 1):
        at = ATT * dist[i] / 1000.
        p = (V, nv, M, pp[i], tt[i], dist[i])
        wing = wing_ref(S, b, 0, *p) - at
        tail = wing_ref(.2 * S, b * math.sqrt(.2), 0, *p) - at
        ax = wing_ref(.15 * S, b, 1, *p)
        slat = es(wing + 3., ax - ax.max() + wing.max() + 3.) - at
        flap = flap_ref(c['Sf'] * S, c['cf'] / ft, c['df'], c['slots'], V, M, pp[i], tt[i], dist[i]) - at
        if c['gear'] == 'down':
            mg = noise_landing_gear(c['Dm'] / ft, c['Hm'] / ft, c['wheels'][0], M, V, pp[i], tt[i], dist[i], F24) - at
            ng = noise_landing_gear(c['Dn'] / ft, c['Hn'] / ft, c['wheels'][1], M, V, pp[i], tt[i], dist[i], F24) - at
        else:
            mg = ng = np.zeros(24)
        mg = mg + 3. * (c['units'] - 1)
        tot = es(wing, tail, slat, flap, mg, ng)
        close(R.SPL_spectrum[i], tot, 1e-8, 1e-6, 'airframe spectrum of control point %d' % i)
        close(R.SPL[i], esum(tot), 1e-8, 1e-6, 'airframe level of control point %d' % i)
    # Shevell correlation
    k = shevell(c['W'], c['E'], c['TS'], c['TS'] * c['red'])
    k1 = shevell(c['W'], 1, c['TS'], c['TS'] * c['red'])
    lE = 10. * math.log10(c['E'])
    tp = c['TS'] / 4.4482216152605 / 250.
    tn = -.0002193 * tp ** 2 + .09454 * tp - 7.30116
    rr = 100. * c['red']
    ln = -.0015766 * rr ** 2 + .34882 * rr - 19.2569
    close(k.takeoff, 93. + tn + lE, 1e-7, 1e-5, 'take-off noise')
    close(k.side_line, 90.5 + tn + lE, 1e-7, 1e-5, 'sideline noise')
    close(k.landing, esum([105.1 + tn + ln + lE, 40. + 10. * math.log10(c['W'] / .45359237)]), 1e-7, 1e-5, 'landing noise')


def p_last():
    c = dict(S=120., AR=9., V=75., alt=300., d=[500., 600.], th=[1.] * 5, ph=[.2] * 5, Sf=.1, cf=.6, df=.5, slots=2, Dm=1., Hm=2., Dn=.7, Hn=1.5, wheels=(4, 2), units=2, gear='down', k=2., E=2, TS=1e5, red=.5, W=6e4)
    n = 3
    ft = .3048
    lg = Data(main_tire_diameter=1., nose_tire_diameter=.7, main_strut_length=2., nose_strut_length=1.5, gear_condition='down', nose_wheels=2, main_wheels=4, main_units=2)
    sp = lambda s: Data(areas=Data(reference=120. * s), spans=Data(projected=33. * math.sqrt(s)))
    mw = sp(1.)
    mw.control_surfaces = Data(flap=Data(deflection=.5, area=12., chord_dimensional=.6, configuration_type='double_slotted'))
    cfg = Data(tag='cfg', wings=Data(main_wing=mw, horizontal_stabilizer=sp(.2), vertical_stabilizer=sp(.15)), landing_gear=lg)
    col = lambda v: np.full((n, 1), v)
    fs = Data(velocity=col(75.), altitude=col(300.), speed_of_sound=col(339.), dynamic_viscosity=col(1.5e-3))
    seg = Data(conditions=Data(freestream=fs, frames=Data(inertial=Data(time=np.arange(n, dtype=float)[:, None]))), dist=np.full(n, 500.), theta=np.full(n, 1.), phi=np.full(n, .2))
    with np.errstate(all='ignore'):
        R = noise_airframe_Fink(seg, None, cfg, SET)
    s = R.SPL_spectrum
    if np.allclose(s[0], s[1]) and not np.allclose(s[2], s[0]):
        return 'noise_airframe_Fink does not evaluate the last control point: its spectrum stays at 0 dB'
    return False


PROBE = dict(B=3, R=1., hub=.2, Nr=9, chord=.1, tc=.12, sweep=0., tilt=0., Mt=[.6], Mx=[.15], climb=0., aoa=[.02], alt=[300.], T=[1500.], ratio=.15, mic=[[(100., 50., 300.)]], nrot=2, org=[0.] * 9, nh=4, k=2., pitch=[0.], seedy=[.5] * 12)


def p_again():
    c = dict(PROBE)
    o = Noisy(c)
    org = [(0., 0., 0.), (0., 2., 0.)]
    each = [Evaluated(o, [g], False, [1.]).dBA for g in org]
    B = Evaluated(o, org, False, [1., 1.]).dBA
    if np.allclose(B, heard([each[0], each[0], each[1]]), rtol=1e-7, atol=1e-3):
        return 'non-identical rotors: the first of two rotors is counted again with the second'
    return False


PROPERTY = Property('C26', [
    Sub('decibels', dec_case(), decibels, quick=150, thorough=4000, rule='more than one level combined'),
    Sub('annoyance', ann_case(), annoyance, quick=250, thorough=6000, rule='the 10 dB-down window is a strict part of the history'),
    Sub('microphones', mic_case(), mics, quick=120, thorough=3000, rule='different resolutions along the axes'),
    Sub('harmonic', rot_case(), harmonic, quick=80, thorough=2500, rule='several control points or microphones'),
    Sub('rotors', rot_case(), rotor_noise, quick=25, thorough=600, rule='several rotors'),
    Sub('aircraft', rot_case(), aircraft, quick=20, thorough=400, rule='several rotors'),
    Sub('airframe', air_case(), airframe, quick=120, thorough=4000, rule='every case'),
], rule='see sub rules', probes={'fink-last-point': p_last, 'rotors-counted-again': p_again})

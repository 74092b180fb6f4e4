"""C07: the standard atmosphere, air properties and gravity.

Oracle: an independent scalar implementation of the 1976 standard from its published lapse rates and sea-level
state (loose), the same with the published base pressures (tight), and relations between the returned fields."""
import copy
import math
import numpy as np
from hypothesis import strategies as st

import SUAVE
from SUAVE.Attributes.Gases import Air
from SUAVE.Attributes.Planets import Earth
from lib.prop import Property, Sub, require, close, same_shape, finite, fail
from lib.strat import record, rng

R_AIR, G0, RE = 287.0528742, 9.80665, 6.371e6
HB = [-2e3, 0., 11e3, 20e3, 32e3, 47e3, 51e3, 71e3, 84852.]
TB = [301.15, 288.15, 216.65, 216.65, 228.65, 270.65, 270.65, 214.65, 186.95]
PB = [127774., 101325., 22632.1, 5474.89, 868.019, 110.906, 66.9389, 3.95642, 0.3734]
# published lapse rates, K/m, by layer starting at HB[1]
LAPSE = [(0., -6.5e-3), (11e3, 0.), (20e3, 1e-3), (32e3, 2.8e-3), (47e3, 0.), (51e3, -2.8e-3), (71e3, -2e-3)]


def geopotential(z):
    return min(max(z / (1 + z / RE), HB[0]), HB[-1])


def first_principles(z):
    """T and p by marching through the layers from the sea-level state."""
    h = geopotential(z)
    T, p = 288.15, 101325.
    for i, (h0, L) in enumerate(LAPSE):
        top = LAPSE[i + 1][0] if i + 1 < len(LAPSE) else HB[-1]
        if h <= h0 and i > 0:
            break
        dh = min(h, top) - h0
        if L == 0.:
            p *= math.exp(-G0 * dh / (R_AIR * T))
        else:
            p *= (1 + L * dh / T) ** (-G0 / (L * R_AIR))
            T += L * dh
        if h <= top:
            break
    return T, p


def from_table(z):
    """Candidates (T, p) from the published base values; at a layer boundary either layer is acceptable."""
    h = geopotential(z)
    out = []
    for i in range(8):
        if HB[i] - 1e-6 <= h <= HB[i + 1] + 1e-6:
            L = (TB[i + 1] - TB[i]) / (HB[i + 1] - HB[i])
            T = TB[i] + L * (h - HB[i])
            p = PB[i] * math.exp(-G0 * (h - HB[i]) / (R_AIR * TB[i])) if L == 0 else PB[i] * (T / TB[i]) ** (-G0 / (L * R_AIR))
            out.append((T, p))
    return out


def sutherland(T):
    return 1.458e-6 * T ** 1.5 / (T + 110.4)


def conductivity(T):
    return 3.99e-4 + 9.89e-5 * T - 4.57e-8 * T ** 2 + 1.4e-11 * T ** 3


altitude = st.one_of(rng(-3000, 90000), rng(-500, 13000), st.sampled_from([0., 11000., 11019.07, 20000., 20063., 32000., 47000., 51000., 71000., 85000., -2000., -1999., 1e5, -5e3]),
                     st.sampled_from(HB).map(lambda h: h / (1 - h / RE)))
dev = st.one_of(st.just(0.), rng(-40, 40))
FIELDS = ['pressure', 'temperature', 'density', 'speed_of_sound', 'dynamic_viscosity', 'kinematic_viscosity', 'thermal_conductivity', 'prandtl_number']


def snapshot(a):
    return [(k, np.array(a.breaks[k]).tolist()) for k in sorted(a.breaks.keys())]


def check_model(case, ctx):
    atm = SUAVE.Analyses.Atmospheric.US_Standard_1976()
    before = snapshot(atm)
    zs = case['z']
    d = case['dT']
    vg = case['var_gamma']
    shape = case['shape']
    arg = {'list': list(zs), 'row': np.array(zs), 'col': np.array(zs)[:, None]}[shape]
    keep = np.array(arg, copy=True)
    got = atm.compute_values(arg, d, vg)
    require(np.array_equal(keep, np.array(arg)), 'the altitudes handed in were changed')
    require(snapshot(atm) == before, 'evaluating changed the model')
    for f in FIELDS:
        same_shape(got[f], (len(zs), 1), f)
        finite(got[f], f)
    for i, z in enumerate(zs):
        p, T, rho, a, mu, nu, k, pr = [float(got[f][i, 0]) for f in FIELDS]
        cand = from_table(z)
        require(any(abs(T - d - ct) <= 1e-8 * ct and abs(p - cp) <= 1e-8 * cp for ct, cp in cand), 'at %r m: T=%r, p=%r, expected one of %r (+%r K)', z, T, p, cand, d)
        ft, fp = first_principles(z)
        close(T, ft + d, rtol=3e-5, what='temperature at %r m (lapse rates)' % z)
        close(p, fp, rtol=3e-4 if z >= 0 else 6e-3, what='pressure at %r m (hydrostatic march)' % z)
        close(rho, p / (R_AIR * T), rtol=1e-9, what='density (ideal gas) at %r m' % z)
        gam = 1.4
        if vg:
            gam = 1.629e-10 * T**3 - 3.588e-7 * T**2 + 1.418e-4 * T + 1.386
        close(a, math.sqrt(gam * R_AIR * T), rtol=1e-9, what='speed of sound at %r m' % z)
        close(mu, sutherland(T), rtol=1e-9, what='viscosity at %r m' % z)
        close(nu, mu / rho, rtol=1e-9, what='kinematic viscosity at %r m' % z)
        close(k, conductivity(T), rtol=1e-9, what='conductivity at %r m' % z)
        close(pr, mu * 1006. / k, rtol=1e-9, what='Prandtl number at %r m' % z)
    # one altitude alone gives the same as in the batch
    j = case['j'] % len(zs)
    one = atm.compute_values(zs[j], d, vg)
    for f in FIELDS:
        same_shape(one[f], (1, 1), f + ' of one altitude')
        close(one[f][0, 0], got[f][j, 0], rtol=1e-12, what=f + ' alone and in a batch')
    again = atm.compute_values(list(reversed(zs)), d, vg)
    for f in FIELDS:
        close(np.array(again[f])[::-1], got[f], rtol=1e-12, what=f + ' in reversed order')
    layers = {sum(geopotential(z) > h for h in HB) for z in zs}
    ctx.label(*['layer %d' % i for i in layers])
    if len(layers) > 1 or d != 0.:
        ctx.hit(*(['deviation'] if d else []), *(['several layers'] if len(layers) > 1 else []))
    if any(z < -2000 or z > 86000 for z in zs):
        ctx.label('clamped')


def check_profile(case, ctx):
    """Pressure and density fall with altitude and hydrostatic balance holds on any pair of altitudes."""
    atm = SUAVE.Analyses.Atmospheric.US_Standard_1976()
    z0, dz = case['z'], case['dz']
    z = np.linspace(z0, z0 + dz, 41)
    got = atm.compute_values(z, 0.)
    p = np.array(got.pressure).ravel()
    rho = np.array(got.density).ravel()
    h = z / (1 + z / RE)
    require(np.all(np.diff(p) < 0), 'pressure does not fall with altitude from %r to %r m', z0, z0 + dz)
    # Simpson on each pair of intervals, in geopotential altitude and constant gravity
    lhs = p[0] - p[-1]
    rhs = G0 * np.trapz(rho, h)
    close(lhs, rhs, rtol=2e-3, atol=2e-5 * p[0], what='pressure drop vs weight of the air column between %r and %r m' % (z0, z0 + dz))
    if sum(1 for b in HB if h[0] < b < h[-1]):
        ctx.hit('crosses a boundary')


def check_isothermal(case, ctx):
    atm = SUAVE.Analyses.Atmospheric.Constant_Temperature()
    T = case['T']
    zs = case['z']
    got = atm.compute_values(np.array(zs), T)
    ref = []
    for i, z in enumerate(zs):
        p = float(np.ravel(got.pressure)[i])
        rho = float(np.ravel(got.density)[i])
        close(rho, p / (R_AIR * T), rtol=1e-9, what='density (ideal gas)')
        h = geopotential(z)
        cands = [PB[k] * math.exp(-(h - HB[k]) * G0 / (R_AIR * T)) for k in range(8) if HB[k] - 1e-6 <= h <= HB[k + 1] + 1e-6]
        require(any(abs(p - c) <= 1e-8 * c for c in cands), 'pressure %r at %r m, expected one of %r', p, z, cands)
    close(np.unique(got.temperature), T, rtol=1e-12, what='temperature')
    close(np.unique(np.array(got.speed_of_sound)), math.sqrt(1.4 * R_AIR * T), rtol=1e-9, what='speed of sound')
    one = atm.compute_values(zs[0], T)
    close(np.ravel(one.pressure)[0], np.ravel(got.pressure)[0], rtol=1e-12, what='pressure alone and in a batch')
    close(np.ravel(one.kinematic_viscosity)[0], sutherland(T) / np.ravel(one.density)[0], rtol=1e-9, what='kinematic viscosity')
    if T != 288.15:
        ctx.hit('temperature other than the default')


def check_air(case, ctx):
    air = Air()
    T = np.array(case['T'])
    p = np.array(case['p'][:len(case['T'])] + [1e5] * max(0, len(case['T']) - len(case['p'])))
    close(air.compute_density(T, p), p / (R_AIR * T), rtol=1e-9, what='density')
    close(air.compute_speed_of_sound(T, p), np.sqrt(1.4 * R_AIR * T), rtol=1e-9, what='speed of sound')
    g = air.compute_gamma(T, p)
    close(air.compute_speed_of_sound(T, p, True), np.sqrt(g * R_AIR * T), rtol=1e-9, what='speed of sound, variable gamma')
    close(g, np.polyval([1.629e-10, -3.588e-7, 1.418e-4, 1.386], T), rtol=1e-9, what='gamma')
    cp = air.compute_cp(T, p)
    close(cp, np.polyval([-7.357e-7, 1.307e-3, -5.558e-1, 1.074e3], T), rtol=1e-9, what='cp')
    close(air.compute_absolute_viscosity(T), [sutherland(t) for t in T], rtol=1e-9, what='viscosity')
    close(air.compute_thermal_conductivity(T), [conductivity(t) for t in T], rtol=1e-9, what='conductivity')
    close(air.compute_prandtl_number(T), [sutherland(t) * 1006. / conductivity(t) for t in T], rtol=1e-9, what='Prandtl number')
    ctx.hit('n=%d' % len(T))


def check_gravity(case, ctx):
    e = Earth()
    H = np.array(case['h'])
    want = np.array([G0 * (RE / (RE + h)) ** 2 for h in case['h']])
    got = e.compute_gravity(H)
    close(got, want, rtol=1e-12, what='gravity')
    close(e.compute_gravity(H[:, None]), want[:, None], rtol=1e-12, what='gravity of a column')
    close(e.compute_gravity(case['h'][0]), want[0], rtol=1e-12, what='gravity of one altitude')
    close(e.compute_gravity(0.), e.sea_level_gravity, rtol=1e-15, what='gravity at sea level')
    require(np.array_equal(H, case['h']), 'altitudes changed')
    if any(h > 1000 for h in case['h']):
        ctx.hit('high')


SUBS = [
    Sub('standard', record(z=st.lists(altitude, min_size=1, max_size=6), dT=dev, var_gamma=st.booleans(), shape=st.sampled_from(['list', 'row', 'col']), j=st.integers(0, 5)),
        check_model, quick=1200, rule='altitudes in two or more layers, or a temperature deviation'),
    Sub('profile', record(z=rng(0, 80000), dz=rng(200, 5000)), check_profile, quick=400, rule='the interval crosses a layer boundary'),
    Sub('isothermal', record(z=st.lists(altitude, min_size=1, max_size=4), T=rng(200, 330, [288.15])), check_isothermal, quick=300, rule='temperature is not the default'),
    Sub('air', record(T=st.lists(rng(180, 1500), min_size=1, max_size=4), p=st.lists(rng(10, 2e6), min_size=1, max_size=4)), check_air, quick=300, rule='every case'),
    Sub('gravity', record(h=st.lists(rng(-2000, 4e5), min_size=1, max_size=4)), check_gravity, quick=200, rule='an altitude above 1 km'),
]
PROPERTY = Property('C07', SUBS, rule='Random altitude batches (including layer boundaries and beyond both ends), temperature deviations and input shapes, against an independent implementation of the 1976 standard. Non-trivial as stated per sub-check.',
                    assumptions=['Earth radius 6371 km as the model states; altitudes outside -2..84.852 km (geopotential) are clamped, as documented'])

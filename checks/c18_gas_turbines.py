"""C18: gas dynamics, gas turbine components and the jet and rocket networks built from them."""
import math
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy.optimize import brentq

import SUAVE
from SUAVE.Core import Data, Units
from SUAVE.Analyses.Mission.Segments.Conditions import Aerodynamics as AeroConditions
from SUAVE.Analyses.Mission.Segments.Conditions import State
from SUAVE.Attributes.Gases import Air
from SUAVE.Attributes.Propellants import Jet_A, Liquid_H2, LOX_RP1, LOX_LH2
from SUAVE.Components.Energy import Converters as Cv, Networks as Nw, Processes as Pr
from SUAVE.Methods.Propulsion.fm_id import fm_id
from SUAVE.Methods.Propulsion.fm_solver import fm_solver
from SUAVE.Methods.Propulsion.rayleigh import rayleigh
from SUAVE.Methods.Propulsion.nozzle_calculations import (exit_Mach_shock, mach_area, normal_shock, pressure_ratio_isentropic,
                                                          pressure_ratio_shock_in_nozzle)
from SUAVE.Methods.Propulsion.shock_train import shock_train
from SUAVE.Methods.Aerodynamics.Common.Gas_Dynamics.Oblique_Shock import oblique_shock_relations, theta_beta_mach
from SUAVE.Methods.Propulsion.turbofan_sizing import turbofan_sizing
from SUAVE.Methods.Propulsion.turbojet_sizing import turbojet_sizing
from SUAVE.Methods.Propulsion.ramjet_sizing import ramjet_sizing
from SUAVE.Methods.Propulsion.scramjet_sizing import scramjet_sizing
from SUAVE.Methods.Propulsion.liquid_rocket_sizing import liquid_rocket_sizing
from SUAVE.Methods.Propulsion.ducted_fan_sizing import ducted_fan_sizing
from lib.prop import Property, Sub, require, fail, close, same_shape, finite, Discard
from lib.strat import rng, inner, logrng, vec, record

PI = math.pi


# ------------------------------------------------------------------ scalar gas dynamics, written from the textbook relations
def Trat(M, g):
    return 1. + .5 * (g - 1.) * M * M


def Prat(M, g):
    return Trat(M, g) ** (g / (g - 1.))


def A_star(M, g):
    return (2. / (g + 1.) * Trat(M, g)) ** ((g + 1.) / (2. * (g - 1.))) / M


def mach_of_area(A, g, sub):
    if sub:
        return brentq(lambda m: A_star(m, g) - A, 1e-7, 1., xtol=1e-14)
    return brentq(lambda m: A_star(m, g) - A, 1., 100., xtol=1e-14)


def mach_of_pressure(r, g):
    return math.sqrt(max(0., (r ** ((g - 1.) / g) - 1.) * 2. / (g - 1.)))


def behind_shock(M, g):
    """Normal shock: downstream Mach, static pressure and temperature ratios, stagnation pressure ratio."""
    p = 1. + 2. * g / (g + 1.) * (M * M - 1.)
    d = (g + 1.) * M * M / (2. + (g - 1.) * M * M)
    m = math.sqrt((1. + .5 * (g - 1.) * M * M) / (g * M * M - .5 * (g - 1.)))
    return m, p, p / d, p * Prat(m, g) / Prat(M, g)


def rayleigh_T(M, g):
    """Stagnation temperature relative to that at M = 1 in constant-area heating."""
    return 2. * (g + 1.) * M * M * Trat(M, g) / (1. + g * M * M) ** 2


def rayleigh_after(M, ratio, g):
    t = rayleigh_T(M, g) * ratio
    f = lambda m: rayleigh_T(m, g) - t
    if t >= 1.:
        return 1.
    return brentq(f, 1e-6, 1., xtol=1e-14) if M <= 1. else brentq(f, 1., 60., xtol=1e-14)


def rayleigh_pt(M0, M1, g):
    return (1. + g * M0 * M0) / (1. + g * M1 * M1) * (Trat(M1, g) / Trat(M0, g)) ** (g / (g - 1.))


def deflection(M, b, g):
    return math.atan(2. / math.tan(b) * (M * M * math.sin(b) ** 2 - 1.) / (M * M * (g + math.cos(2. * b)) + 2.))


def weak_shock_angle(M, theta, g):
    mu = math.asin(1. / M)
    lo, hi = mu, PI / 2
    for _ in range(200):                                                     # the angle of greatest deflection
        a, b = lo + (hi - lo) / 3, hi - (hi - lo) / 3
        if deflection(M, a, g) < deflection(M, b, g):
            lo = a
        else:
            hi = b
    top = .5 * (lo + hi)
    if theta >= .97 * deflection(M, top, g):
        return None
    return brentq(lambda x: deflection(M, x, g) - theta, mu, top, xtol=1e-15)


# ------------------------------------------------------------------ 1. flow relations
RELATIONS = record(g=vec(inner(1.15, 1.42), 1, 4), M0=inner(.05, .95), M1=inner(.05, .95), S0=inner(1.05, 3.), S1=inner(1.05, 3.),
                   area=logrng(1.02, 80.), heat=rng(.02, 1., [1.]))


def check_relations(c, ctx):
    gs = np.array(c['g'])
    n = len(gs)
    col = gs[:, None]
    if n > 1:
        ctx.hit('several points')
    one = np.ones(n)
    for lab, M0, M1, sub in (('subsonic', c['M0'], c['M1'], True), ('supersonic', c['S0'], c['S1'], False)):
        close(fm_id(M0 * one, gs), [1. / A_star(M0, g) for g in gs], 1e-11, what='mass flow function (%s)' % lab)
        # area change from one Mach number to another on the same branch
        got = np.ravel(fm_solver(np.array([A_star(M1, g) / A_star(M0, g) for g in gs]), M0 * one, gs))
        close(got, M1 * one, 2e-6, what='fm_solver %s from Mach %.4f' % (lab, M0))
        # heat addition part of the way to choking
        R = [1. + c['heat'] * (1. / rayleigh_T(M0, g) - 1.) for g in gs]
        m, p = rayleigh(gs, M0 * one, np.array(R))
        want = [rayleigh_after(M0, r, g) for r, g in zip(R, gs)]
        tol = 1e-7 if c['heat'] < .999 else 1e-4
        close(m, want, tol, what='Mach after heating (%s)' % lab)
        close(p, [rayleigh_pt(M0, w, g) for w, g in zip(want, gs)], 1e-6, what='total pressure after heating (%s)' % lab)
        require(np.all(p < 1. + 1e-9), 'heating raised the total pressure (%s): %r', lab, p)
        # Mach number for an area ratio
        got = mach_area(c['area'], col, sub)
        same_shape(got, (n, 1), 'mach_area')
        want = np.array([mach_of_area(c['area'], g, sub) for g in gs])[:, None]
        close(got, want, 2e-6, what='mach_area (%s), area %.4f' % (lab, c['area']))
        pr = pressure_ratio_isentropic(c['area'], col, sub)
        close(pr, [[1. / Prat(w, g)] for w, g in zip(want[:, 0], gs)], 2e-5, what='isentropic pressure ratio (%s)' % lab)
    M = c['S0']
    close(normal_shock(M, gs), [behind_shock(M, g)[0] for g in gs], 1e-10, what='Mach behind a normal shock')
    # shock standing in the exit plane: static pressure behind it over the reservoir pressure
    want = []
    for g in gs:
        m = mach_of_area(c['area'], g, False)
        want.append([behind_shock(m, g)[1] / Prat(m, g)])
    close(pressure_ratio_shock_in_nozzle(c['area'], col), want, 1e-5, what='pressure ratio with a shock at the exit')
    # shock inside the nozzle: the exit state passes the choked mass flow at ambient pressure
    g = gs[0]
    lo, hi = want[0][0], 1. / Prat(mach_of_area(c['area'], g, True), g)
    back = lo + (hi - lo) * min(.98, c['heat'])
    got = float(np.ravel(exit_Mach_shock(c['area'], np.array([g]), np.array([1. / back]), np.array([1.])))[0])
    pt = back * Prat(got, g)                                                 # total pressure at the exit
    close(pt * c['area'] / A_star(got, g), 1., 1e-6, what='mass flow through a nozzle with a shock inside')
    require(back / Prat(0, g) - 1e-9 <= pt <= 1. + 1e-6, 'exit total pressure %r outside (ambient, reservoir)', pt)


SHOCKS = record(M=inner(1.3, 12.), g=inner(1.15, 1.42), turns=vec(inner(.01, .45), 1, 4), n=st.integers(1, 3))


def check_shocks(c, ctx):
    g, M = c['g'], c['M']
    turns, Ms, tot, T, P = [], [M], 1., 1., 1.
    m = M
    for th in c['turns']:
        if m < 1.05:
            break
        b = weak_shock_angle(m, th, g)
        if b is None:
            break
        mn = m * math.sin(b)
        m2, p, t, pt = behind_shock(mn, g)
        vec_m = m * np.ones((c['n'], 1))
        beta = theta_beta_mach(vec_m, g * np.ones((c['n'], 1)), th)
        close(beta, b * np.ones((c['n'], 1)), 1e-7, what='shock angle at Mach %.4f turning %.4f' % (m, th))
        M1, Pr_, Tr, Ptr = oblique_shock_relations(m, g, th, b)
        close(Pr_, p, 1e-9, what='oblique shock pressure ratio')
        close(Tr, t, 1e-9, what='oblique shock temperature ratio')
        close(Ptr, pt, 1e-9, what='oblique shock total pressure ratio')
        close(M1, m2 / math.sin(b - th), 1e-9, what='Mach behind an oblique shock')
        # adiabatic: total temperature is kept
        close(Tr * Trat(float(M1), g), Trat(m, g), 1e-7, what='total temperature across an oblique shock')
        tot, T, P, m = tot * pt, T * t, P * p, float(M1)
        turns.append(th)
        Ms.append(m)
    if not turns:
        raise Discard('the first shock is detached')
    if len(turns) > 1:
        ctx.hit('several shocks')
    got = shock_train(M * np.ones((c['n'], 1)), g * np.ones((c['n'], 1)), float(len(turns)), turns)
    close(got[0], T * np.ones((c['n'], 1)), 1e-6, what='temperature ratio of a train of %d shocks' % len(turns))
    close(got[1], tot * np.ones((c['n'], 1)), 1e-6, what='total pressure ratio of a train of %d shocks' % len(turns))


# ------------------------------------------------------------------ freestream
POINT = record(p=logrng(1500., 1.05e5), T=rng(200., 320., [288.15, 216.65]), M=rng(.05, 2.2, [.3, .8, 1.]), throttle=rng(0., 1.2, [0., 1.]))
SUBPOINT = record(p=logrng(1500., 1.05e5), T=rng(200., 320., [288.15, 216.65]), M=rng(.05, .95, [.3, .8]), throttle=rng(0., 1.2, [0., 1.]))
SUPERPOINT = record(p=logrng(1500., 1.05e5), T=rng(200., 320., [288.15, 216.65]), M=rng(1.3, 4.5, [2., 3.]), throttle=rng(0., 1.2, [0., 1.]))
HYPERPOINT = record(p=logrng(500., 2e4), T=rng(200., 270., [216.65]), M=rng(5., 10., [6., 8.]), throttle=rng(0., 1.2, [0., 1.]))
AIR = Air()


def stream(points, g0=9.81):
    """Mission-like conditions for the points and one scalar record per point."""
    n = len(points)
    cond = AeroConditions()
    cond.expand_rows(n)
    f = cond.freestream
    col = lambda k: np.array([[float(p[k])] for p in points])
    f.pressure, f.temperature, f.mach_number = col('p'), col('T'), col('M')
    f.density = f.pressure / (287.0528742 * f.temperature)
    f.speed_of_sound = np.sqrt(1.4 * 287.0528742 * f.temperature)
    f.velocity = f.mach_number * f.speed_of_sound
    f.gravity = g0 * np.ones((n, 1))
    f.altitude = np.zeros((n, 1))
    cond.propulsion.throttle = col('throttle')
    out = []
    for i, p in enumerate(points):
        s = Data()
        s.p, s.T, s.M, s.throttle = float(p['p']), float(p['T']), float(p['M']), float(p['throttle'])
        s.a = math.sqrt(1.4 * 287.0528742 * s.T)
        s.u, s.grav = s.M * s.a, g0
        s.g, s.cp, s.R = float(AIR.compute_gamma(s.T, s.p)), float(AIR.compute_cp(s.T, s.p)), 287.0528742
        s.Tt, s.Pt = s.T * Trat(s.M, s.g), s.p * Prat(s.M, s.g)
        out.append(s)
    f.isentropic_expansion_factor = np.array([[s.g] for s in out])
    f.specific_heat_at_constant_pressure = np.array([[s.cp] for s in out])
    f.gas_specific_constant = np.array([[AIR.gas_specific_constant]] * n)
    f.stagnation_temperature = np.array([[s.Tt] for s in out])
    f.stagnation_pressure = np.array([[s.Pt] for s in out])
    return cond, out


def state_of(cond):
    st_ = Data()
    st_.numerics = Data()
    st_.conditions = cond
    return st_


# ------------------------------------------------------------------ scalar components
def r_inlet(s, Tt, Pt, pi, eta, rec, shock):
    pt, tt = Pt * pi * rec, Tt * (pi * rec) ** ((s.g - 1) / (s.g * eta))
    if not shock:
        pt = max(pt, s.p)
        m = mach_of_pressure(pt / s.p, s.g)
    elif s.M > 1.:
        m, _, _, loss = behind_shock(s.M, s.g)
        pt *= loss
    else:
        m = mach_of_pressure(max(1., pt / s.p), s.g)
    return tt, pt, m


def r_compress(s, Tt, Pt, pi, eta):
    tt = Tt * pi ** ((s.g - 1) / (s.g * eta))
    return tt, Pt * pi, s.cp * (tt - Tt)


def r_burn(s, Tt, Tt4, eta, lhv, carried=1.):
    """Fuel per unit of core air: what the gas (air and fuel burnt before) needs to reach Tt4, the fuel itself included."""
    return carried * s.cp * (Tt4 - Tt) / (eta * lhv - s.cp * Tt4)


def r_turbine(s, Tt, Pt, f, eta_m, eta_p, work):
    tt = Tt - work / ((1. + f) * eta_m * s.cp)
    if tt <= .25 * Tt:
        raise Discard('the turbine cannot drive the spool')
    return tt, Pt * (tt / Tt) ** (s.g / ((s.g - 1) * eta_p))


def r_nozzle(s, Tt, Pt, pi, eta):
    """Convergent nozzle; returns static pressure, velocity, exit area over capture area, density, Mach, static temperature."""
    pt, tt = max(Pt * pi, s.p), Tt * pi ** ((s.g - 1) / s.g * eta)
    m = mach_of_pressure(pt / s.p, s.g)
    p = s.p
    if m >= 1.:
        m = 1.
        p = pt / Prat(1., s.g)
    if m == 0.:
        m = .001
    t = tt / Trat(m, s.g)
    v = math.sqrt(2. * s.cp * (tt - t))
    return Data(Tt=tt, Pt=pt, p=p, v=v, ar=exit_area(s, m, tt, pt), rho=p / (s.R * t), M=m, T=t)


def exit_area(s, m, tt, pt):
    """Continuity between the capture stream tube and the exit, equal mass flow."""
    return A_star(m, s.g) / A_star(s.M, s.g) * s.Pt / pt * math.sqrt(tt / s.Tt)


def r_thrust(s, mdot, streams):
    """Momentum and pressure thrust of the streams [(share of mdot, nozzle)], mdot being all the air."""
    F = 0.
    for share, z in streams:
        A0 = share * mdot * s.a ** 2 / (s.g * s.p * s.u)
        F += share * mdot * (z.v - s.u) + A0 * z.ar * (z.p - s.p)
    return F


COMPONENTS = record(pts=vec(POINT, 1, 4), inlet=record(pi=rng(.9, 1., [1.]), eta=rng(.85, 1., [1.]), rec=rng(.9, 1., [1.]), shock=st.booleans()),
                    comp=record(pi=logrng(1.01, 30.), eta=rng(.7, 1., [1.])), fan=record(pi=logrng(1.01, 3.), eta=rng(.7, 1., [1.])),
                    burn=record(T=rng(1100., 2000.), eta=rng(.8, 1., [1.]), pi=rng(.85, 1., [1.]), carried=st.one_of(st.none(), rng(1., 1.05))),
                    turb=record(em=rng(.8, 1., [1.]), ep=rng(.7, 1., [1.]), alpha=rng(0., 8., [0.]), offtake=st.one_of(st.none(), rng(0., 5e4, [0.]))),
                    noz=record(pi=rng(.9, 1., [1.]), eta=rng(.8, 1., [1.])))


def check_components(c, ctx):
    cond, S = stream(c['pts'])
    n = len(S)
    if n > 1:
        ctx.hit('several points')
    f = cond.freestream
    A = lambda seq: np.array([[x] for x in seq])
    # ram
    ram = Cv.Ram()
    ram.inputs.working_fluid = AIR
    for k in ('stagnation_temperature', 'stagnation_pressure', 'isentropic_expansion_factor', 'specific_heat_at_constant_pressure'):
        f[k] = np.zeros((n, 1))
    ram(cond)
    for k, v in (('stagnation_temperature', 'Tt'), ('stagnation_pressure', 'Pt'), ('isentropic_expansion_factor', 'g'), ('specific_heat_at_constant_pressure', 'cp')):
        close(f[k], A([s[v] for s in S]), 1e-10, what='ram: freestream %s' % k)
        close(ram.outputs[k], A([s[v] for s in S]), 1e-10, what='ram: %s' % k)
    # inlet
    i = c['inlet']
    inl = Cv.Compression_Nozzle()
    inl.pressure_ratio, inl.polytropic_efficiency, inl.pressure_recovery, inl.compressibility_effects = i['pi'], i['eta'], i['rec'], i['shock']
    inl.inputs.stagnation_temperature, inl.inputs.stagnation_pressure = ram.outputs.stagnation_temperature, ram.outputs.stagnation_pressure
    inl(cond)
    R = [r_inlet(s, s.Tt, s.Pt, i['pi'], i['eta'], i['rec'], i['shock']) for s in S]
    close(inl.outputs.stagnation_temperature, A([r[0] for r in R]), 1e-10, what='inlet: total temperature')
    close(inl.outputs.stagnation_pressure, A([r[1] for r in R]), 1e-10, what='inlet: total pressure')
    good = [k for k, s in enumerate(S) if i['shock'] and s.M > 1. or R[k][1] > s.p * (1 + 1e-9)]
    close(inl.outputs.mach_number[good], A([R[k][2] for k in good]).reshape(-1, 1), 1e-7, 1e-9, what='inlet: exit Mach')
    if any(s.M > 1. for s in S) and i['shock']:
        ctx.label('shock at the inlet')
    # compressor and fan
    for cls, d in ((Cv.Compressor, c['comp']), (Cv.Fan, c['fan'])):
        x = cls()
        x.pressure_ratio, x.polytropic_efficiency = d['pi'], d['eta']
        x.inputs.stagnation_temperature, x.inputs.stagnation_pressure = inl.outputs.stagnation_temperature, inl.outputs.stagnation_pressure
        x(cond)
        q = [r_compress(s, r[0], r[1], d['pi'], d['eta']) for s, r in zip(S, R)]
        close(x.outputs.stagnation_temperature, A([k[0] for k in q]), 1e-10, what='%s: total temperature' % x.tag)
        close(x.outputs.stagnation_pressure, A([k[1] for k in q]), 1e-10, what='%s: total pressure' % x.tag)
        close(x.outputs.work_done, A([k[2] for k in q]), 1e-9, what='%s: work' % x.tag)
        close(x.outputs.stagnation_enthalpy, A([s.cp * k[0] for s, k in zip(S, q)]), 1e-10, what='%s: enthalpy' % x.tag)
        if cls is Cv.Compressor:
            comp, Q = x, q
        else:
            fan, QF = x, q
    # combustor
    b = c['burn']
    z = Cv.Combustor()
    z.fuel_data = Jet_A()
    z.turbine_inlet_temperature, z.efficiency, z.pressure_ratio = b['T'], b['eta'], b['pi']
    z.inputs.stagnation_temperature, z.inputs.stagnation_pressure = comp.outputs.stagnation_temperature, comp.outputs.stagnation_pressure
    if b['carried'] is not None:
        z.inputs.nondim_mass_ratio = b['carried']
    z(cond)
    fr = [r_burn(s, q[0], b['T'], b['eta'], 43.02e6, b['carried'] or 1.) for s, q in zip(S, Q)]
    close(z.outputs.fuel_to_air_ratio, A(fr), 1e-9, 1e-12, what='combustor: fuel to air ratio')
    close(np.asarray(z.outputs.stagnation_temperature) * np.ones((n, 1)), b['T'] * np.ones((n, 1)), 1e-12, what='combustor: total temperature')
    close(z.outputs.stagnation_pressure, A([q[1] * b['pi'] for q in Q]), 1e-10, what='combustor: total pressure')
    # turbine
    t = c['turb']
    w = Cv.Turbine()
    w.mechanical_efficiency, w.polytropic_efficiency = t['em'], t['ep']
    w.inputs.stagnation_temperature, w.inputs.stagnation_pressure = z.outputs.stagnation_temperature, z.outputs.stagnation_pressure
    w.inputs.fuel_to_air_ratio, w.inputs.compressor, w.inputs.fan, w.inputs.bypass_ratio = z.outputs.fuel_to_air_ratio, comp.outputs, fan.outputs, t['alpha']
    extra = 0.
    if t['offtake'] is not None:
        w.inputs.shaft_power_off_take = Data(work_done=t['offtake'] * np.ones((n, 1)))
        extra = t['offtake']
    try:
        q = [r_turbine(s, b['T'], Q[k][1] * b['pi'], fr[k], t['em'], t['ep'], Q[k][2] + t['alpha'] * QF[k][2] + extra) for k, s in enumerate(S)]
    except Discard:
        ctx.label('turbine overloaded')
        return
    w(cond)
    close(w.outputs.stagnation_temperature, A([k[0] for k in q]), 1e-9, what='turbine: total temperature')
    close(w.outputs.stagnation_pressure, A([k[1] for k in q]), 1e-8, what='turbine: total pressure')
    # convergent nozzle
    d = c['noz']
    e = Cv.Expansion_Nozzle()
    e.pressure_ratio, e.polytropic_efficiency = d['pi'], d['eta']
    e.inputs.stagnation_temperature, e.inputs.stagnation_pressure = w.outputs.stagnation_temperature, w.outputs.stagnation_pressure
    e(cond)
    r = [r_nozzle(s, k[0], k[1], d['pi'], d['eta']) for s, k in zip(S, q)]
    skip = [abs(k.M - 1.) < 1e-9 and abs(k.p / s.p - 1.) < 1e-9 for s, k in zip(S, r)]
    for name, key in (('stagnation_temperature', 'Tt'), ('stagnation_pressure', 'Pt'), ('mach_number', 'M'), ('static_temperature', 'T'), ('velocity', 'v'),
                      ('static_pressure', 'p'), ('density', 'rho'), ('area_ratio', 'ar')):
        same_shape(e.outputs[name], (n, 1), 'nozzle: ' + name)
        close(e.outputs[name], A([k[key] for k in r]), 1e-7, 1e-7 if key in ('M', 'v') else 0., what='nozzle: ' + name)
    if any(k.M == 1. for k in r):
        ctx.label('choked')


# ------------------------------------------------------------------ turbofan and turbojet
SPOOL = dict(inl=rng(.95, 1., [1.]), ei=rng(.9, 1., [1.]), lpc=logrng(1.05, 4.), hpc=logrng(1.5, 14.), ec=rng(.8, 1.), T4=rng(1300., 1900.), eb=rng(.9, 1., [1.]),
             pb=rng(.9, 1., [1.]), em=rng(.9, 1., [1.]), et=rng(.8, 1.), pn=rng(.95, 1., [1.]), en=rng(.9, 1., [1.]), engines=st.integers(1, 4), adj=st.one_of(st.just(0.), rng(-.1, .1)))
TURBOFAN = record(bpr=rng(.3, 9., [5.4]), fpr=logrng(1.1, 2.), ef=rng(.8, 1.), offtake=st.one_of(st.none(), logrng(1e3, 3e5)), design=record(alt=rng(0., 12500., [0., 11000.]), M=rng(.1, .9, [.8]), disa=rng(-15., 20., [0.])),
                  F=logrng(5e3, 4e5), pts=vec(SUBPOINT, 1, 4), **SPOOL)


def build_core(net, c):
    def add(x, tag, **kw):
        x.tag = tag
        for k, v in kw.items():
            x[k] = v
        net.append(x)
        return x
    net.number_of_engines = float(c['engines'])
    net.working_fluid = Air()
    add(Cv.Ram(), 'ram')
    add(Cv.Compression_Nozzle(), 'inlet_nozzle', pressure_ratio=c['inl'], polytropic_efficiency=c['ei'], pressure_recovery=c.get('rec', 1.), compressibility_effects=c.get('shock', False))
    add(Cv.Compressor(), 'low_pressure_compressor', pressure_ratio=c['lpc'], polytropic_efficiency=c['ec'])
    add(Cv.Compressor(), 'high_pressure_compressor', pressure_ratio=c['hpc'], polytropic_efficiency=c['ec'])
    add(Cv.Turbine(), 'low_pressure_turbine', mechanical_efficiency=c['em'], polytropic_efficiency=c['et'])
    add(Cv.Turbine(), 'high_pressure_turbine', mechanical_efficiency=c['em'], polytropic_efficiency=c['et'])
    add(Cv.Combustor(), 'combustor', turbine_inlet_temperature=c['T4'], efficiency=c['eb'], pressure_ratio=c['pb'], fuel_data=Jet_A())
    net.thrust = Pr.Thrust()
    net.thrust.tag = 'thrust'
    net.thrust.total_design = c['F']
    net.thrust.SFC_adjustment = c['adj']
    return add


def make_turbofan(c):
    net = Nw.Turbofan()
    net.tag = 'turbofan'
    net.bypass_ratio = c['bpr']
    add = build_core(net, c)
    add(Cv.Fan(), 'fan', pressure_ratio=c['fpr'], polytropic_efficiency=c['ef'])
    add(Cv.Expansion_Nozzle(), 'core_nozzle', pressure_ratio=c['pn'], polytropic_efficiency=c['en'])
    add(Cv.Expansion_Nozzle(), 'fan_nozzle', pressure_ratio=c['pn'], polytropic_efficiency=c['en'])
    return net


def r_turbofan(s, c, work_out=0., bpr=None):
    """Gas path of the engine at one point: specific quantities per unit of core air."""
    bpr = c.get('bpr', 0.)
    tt, pt, _ = r_inlet(s, s.Tt, s.Pt, c['inl'], c['ei'], c.get('rec', 1.), c.get('shock', False))
    t2, p2, w_lp = r_compress(s, tt, pt, c['lpc'], c['ec'])
    t3, p3, w_hp = r_compress(s, t2, p2, c['hpc'], c['ec'])
    f = r_burn(s, t3, c['T4'], c['eb'], 43.02e6)
    if f <= 0:
        raise Discard('no fuel is needed')
    w_fan, streams = 0., []
    if bpr:
        t13, p13, w_fan = r_compress(s, tt, pt, c['fpr'], c['ef'])
    t45, p45 = r_turbine(s, c['T4'], p3 * c['pb'], f, c['em'], c['et'], w_hp)
    t5, p5 = r_turbine(s, t45, p45, f, c['em'], c['et'], w_lp + bpr * w_fan + work_out)
    ft = f
    if c.get('ab') is not None:
        a = c['ab']
        f2 = r_burn(s, t5, a['T'], a['eta'], 43.02e6, 1. + f)
        ft, t5, p5 = f + f2, a['T'], p5 * a['pi']
    if c.get('con'):
        z = r_supersonic(s, t5, p5, c['pn'], c['en'], c['nrec'])
    else:
        z = r_nozzle(s, t5, p5, c['pn'], c['en'])
    core = z
    streams = [(1. / (1. + bpr), core)]
    zf = None
    if bpr:
        zf = r_nozzle(s, t13, p13, c['pn'], c['en'])
        streams.append((bpr / (1. + bpr), zf))
    return Data(f=ft, t2=t2, p2=p2, streams=streams, unit=r_thrust(s, 1. + bpr, streams), core=core, fan=zf)


def r_supersonic(s, Tt, Pt, pi, eta, rec):
    """Fully expanded nozzle."""
    pt, tt = Pt * pi * rec, Tt * (pi * rec) ** ((s.g - 1) / s.g * eta)
    if pt <= s.p * 1.0001:
        raise Discard('no pressure left to expand')
    m = mach_of_pressure(pt / s.p, s.g)
    t = tt / Trat(m, s.g)
    return Data(Tt=tt, Pt=pt, p=s.p, v=math.sqrt(2. * s.cp * (tt - t)), ar=exit_area(s, m, tt, pt), rho=s.p / (s.R * t), M=m, T=t)


def standard(alt, disa, M, throttle=1.):
    a = SUAVE.Analyses.Atmospheric.US_Standard_1976().compute_values(alt, disa)
    return dict(p=float(a.pressure), T=float(a.temperature), M=M, throttle=throttle)


def compare_engine(net, c, cond, S, mdhc, ctx, lab, work=lambda s: 0.):
    n = len(S)
    R = [r_turbofan(s, c, work(s)) for s in S]
    res = net.evaluate_thrust(state_of(cond))
    core = [mdhc * math.sqrt(288.15 / r.t2) * r.p2 / 101325. for r in R]
    F = np.array([m * c['engines'] * s.throttle * r.unit for m, s, r in zip(core, S, R)])
    fuel = np.array([[m * c['engines'] * s.throttle * r.f * (1. - c['adj'])] for m, s, r in zip(core, S, R)])
    same_shape(res.thrust_force_vector, (n, 3), lab + ': thrust')
    same_shape(res.vehicle_mass_rate, (n, 1), lab + ': fuel flow')
    gross = np.array([m * c['engines'] * s.throttle * max(z.v for _, z in r.streams) * (1. + c.get('bpr', 0.)) for m, s, r in zip(core, S, R)])
    require(np.all(np.abs(res.thrust_force_vector[:, 0] - F) <= 1e-7 * np.abs(gross) + 1e-6), '%s: thrust %r, reference %r', lab, res.thrust_force_vector[:, 0].tolist(), F.tolist())
    close(res.thrust_force_vector[:, 1:], np.zeros((n, 2)), 0., 0., what=lab + ': side forces')
    # the specific consumption is formed from the thrust: skip points where that is nearly zero
    keep = [k for k in range(n) if abs(F[k]) > 1e-3 * gross[k] or S[k].throttle == 0.]
    close(res.vehicle_mass_rate[keep], fuel[keep], 2e-6, 1e-12, what=lab + ': fuel flow')
    require(np.all(res.vehicle_mass_rate >= 0.), '%s: fuel flows back into the tank', lab)
    close(res.network_y_axis_rotation, np.zeros((n, 1)), 0., 0., what=lab + ': rotation of the thrust axis')
    return R, core, res


def check_turbofan(c, ctx):
    design = stream([standard(c['design']['alt'], c['design']['disa'], c['design']['M'])])[1][0]
    g = 9.81
    rd = r_turbofan(design, c)
    zs = [z for _, z in rd.streams]
    if rd.unit < .02 * (1. + c['bpr']) * max(z.v for z in zs):
        raise Discard('hardly any thrust at the design point')
    sls = stream([standard(0., 0., .01)])[1][0]
    rs = r_turbofan(sls, c)
    net = make_turbofan(c)
    turbofan_sizing(net, c['design']['M'], c['design']['alt'], c['design']['disa'])
    core = c['F'] / (rd.unit * c['engines'])
    mdhc = core / (math.sqrt(288.15 / rd.t2) * rd.p2 / 101325.)
    close(net.thrust.mass_flow_rate_design, core, 1e-7, what='design core mass flow')
    close(net.thrust.compressor_nondimensional_massflow, mdhc, 1e-7, what='design corrected mass flow')
    close(net.design_thrust, c['F'], 1e-12, what='design thrust')
    close(net.sealevel_static_thrust, mdhc * math.sqrt(288.15 / rs.t2) * rs.p2 / 101325. * rs.unit, 1e-6, what='sea level static thrust of one engine')
    # at the design point, full throttle, the network gives back the design thrust
    cond, S = stream([standard(c['design']['alt'], c['design']['disa'], c['design']['M'])])
    compare_engine(net, c, cond, S, mdhc, ctx, 'design point')
    close(net.evaluate_thrust(state_of(cond)).thrust_force_vector[0, 0], c['F'], 1e-7, what='thrust at the design point')
    # off design, several points at once, with or without a shaft power off-take
    cond, S = stream(c['pts'])
    if c['offtake'] is not None:
        off = Cv.Shaft_Power_Off_Take()
        off.power_draw = c['offtake']
        net.Shaft_Power_Off_Take = off
        def work(s):
            r = r_turbofan_front(s, c)
            return c['offtake'] / (mdhc * math.sqrt(288.15 / r[0]) * r[1] / 101325.)
    else:
        work = lambda s: 0.
    if len(S) > 1:
        ctx.hit('several points')
    R, core, res = compare_engine(net, c, cond, S, mdhc, ctx, 'off design' + (' with off-take' if c['offtake'] else ''), work)
    close(net.thrust.outputs.core_mass_flow_rate, [[m] for m in core], 1e-8, what='core mass flow')
    close(net.thrust.outputs.power, res.thrust_force_vector[:, :1] * cond.freestream.velocity, 1e-10, what='thrust power')
    src = cond.noise.sources.turbofan
    for name, key in (('exit_static_temperature', 'T'), ('exit_static_pressure', 'p'), ('exit_stagnation_temperature', 'Tt'), ('exit_velocity', 'v')):
        close(src.core[name], [[r.core[key]] for r in R], 1e-7, 1e-7, what='noise source: core ' + name)
        close(src.fan[name], [[r.fan[key]] for r in R], 1e-7, 1e-7, what='noise source: fan ' + name)
    # one engine out: full throttle, one engine fewer, throttles put back
    before = cond.propulsion.throttle.copy()
    out = net.engine_out(state_of(cond))
    close(cond.propulsion.throttle, before, 0., 0., what='throttle after an engine-out evaluation')
    cond.propulsion.throttle = np.ones_like(before)
    full = net.evaluate_thrust(state_of(cond))
    k = (c['engines'] - 1.) / c['engines']
    close(out.thrust_force_vector, full.thrust_force_vector * k, 1e-9, 1e-9, what='thrust with an engine out')
    close(out.vehicle_mass_rate, full.vehicle_mass_rate * k, 1e-9, 1e-12, what='fuel flow with an engine out')


def r_turbofan_front(s, c):
    tt, pt, _ = r_inlet(s, s.Tt, s.Pt, c['inl'], c['ei'], c.get('rec', 1.), c.get('shock', False))
    return r_compress(s, tt, pt, c['lpc'], c['ec'])


TURBOJET = record(rec=rng(.9, 1., [1.]), shock=st.booleans(), nrec=rng(.9, 1., [1.]), ab=st.one_of(st.none(), record(T=rng(1500., 2200.), eta=rng(.8, 1., [1.]), pi=rng(.9, 1., [1.]))), idle=st.booleans(),
                  con=st.booleans(), design=record(alt=rng(0., 18000., [0., 11000.]), M=rng(.1, 2.2, [2.]), disa=rng(-15., 20., [0.])), F=logrng(5e3, 4e5), pts=vec(POINT, 1, 4), **SPOOL)


def make_turbojet(c):
    net = Nw.Turbojet_Super()
    net.tag = 'turbojet'
    add = build_core(net, c)
    if c['ab'] is not None:
        a = c['ab']
        add(Cv.Combustor(), 'afterburner', turbine_inlet_temperature=a['T'], efficiency=a['eta'], pressure_ratio=a['pi'], fuel_data=Jet_A())
    if c['con']:
        add(Cv.Supersonic_Nozzle(), 'core_nozzle', pressure_ratio=c['pn'], polytropic_efficiency=c['en'], pressure_recovery=c['nrec'])
    else:
        add(Cv.Expansion_Nozzle(), 'core_nozzle', pressure_ratio=c['pn'], polytropic_efficiency=c['en'])
    return net


def check_turbojet(c, ctx):
    d = c['design']
    dry = dict(c)
    dry['ab'] = None
    s0 = stream([standard(d['alt'], d['disa'], d['M'])])[1][0]
    rd = r_turbofan(s0, dry)                                                 # sized without reheat
    if rd.unit < .02 * rd.core.v:
        raise Discard('hardly any thrust at the design point')
    sls = r_turbofan(stream([standard(0., 0., .01)])[1][0], dry)
    net = make_turbojet(c)
    turbojet_sizing(net, d['M'], d['alt'], d['disa'])
    mdhc = c['F'] / (rd.unit * c['engines']) / (math.sqrt(288.15 / rd.t2) * rd.p2 / 101325.)
    close(net.thrust.compressor_nondimensional_massflow, mdhc, 1e-7, what='design corrected mass flow')
    close(net.sealevel_static_thrust, mdhc * math.sqrt(288.15 / sls.t2) * sls.p2 / 101325. * sls.unit, 1e-6, what='sea level static thrust of one engine')
    cond, S = stream(c['pts'])
    burning = c['ab'] is not None and not c['idle']
    net.afterburner_active = burning
    use = c if burning else dry
    if burning:
        ctx.hit('reheat')
    compare_engine(net, use, cond, S, mdhc, ctx, 'turbojet' + (' with reheat' if burning else ''))
    # switching reheat off again gives the dry engine back
    if burning:
        net.afterburner_active = False
        compare_engine(net, dry, cond, S, mdhc, ctx, 'turbojet after reheat')
    before = cond.propulsion.throttle.copy()
    net.engine_out(state_of(cond))
    close(cond.propulsion.throttle, before, 0., 0., what='throttle after an engine-out evaluation')


# ------------------------------------------------------------------ ramjet
RAMJET = record(inl=rng(.9, 1., [1.]), rec=rng(.9, 1., [1.]), ei=rng(.9, 1., [1.]), T4=rng(1500., 2600.), eb=rng(.8, 1., [1.]), ar=logrng(1.3, 5.), pn=rng(.95, 1., [1.]), en=rng(.9, 1., [1.]),
                amin=logrng(1.02, 3.), span=rng(1., 12.), engines=st.integers(1, 4), F=logrng(1e4, 4e5), pts=vec(SUPERPOINT, 1, 4))


def r_ramjet(s, c):
    tt, pt, m = r_inlet(s, s.Tt, s.Pt, c['inl'], c['ei'], c['rec'], True)
    m3 = mach_of_area(A_star(m, s.g) * c['ar'], s.g, True)
    limit = tt / rayleigh_T(m3, s.g)
    T4 = min(c['T4'], limit)
    choked = c['T4'] >= limit
    if T4 < tt * 1.02:
        raise Discard('the air arrives hotter than the burner')
    m4 = rayleigh_after(m3, T4 / tt, s.g)
    f = s.cp * (T4 - tt) / (c['eb'] * 43.02e6 - s.cp * T4)
    p4 = pt * rayleigh_pt(m3, m4, s.g)
    pt9, tt9 = p4 * c['pn'], T4 * c['pn'] ** ((s.g - 1) / s.g * c['en'])
    lo, hi = c['amin'], c['amin'] + c['span']
    mid = .5 * (lo + hi)
    q = s.p / pt9
    sub = 1. / Prat(mach_of_area(mid, s.g, True), s.g)
    ms = mach_of_area(mid, s.g, False)
    shock = behind_shock(ms, s.g)[1] / Prat(ms, s.g)
    e_lo, e_hi = 1. / Prat(mach_of_area(lo, s.g, False), s.g), 1. / Prat(mach_of_area(hi, s.g, False), s.g)
    if any(abs(q / x - 1.) < 1e-4 for x in (sub, shock, e_lo, e_hi, 1.)):
        raise Discard('on the border between two nozzle regimes')
    if q >= 1.:
        raise Discard('no pressure left to expand')
    if q < e_hi:
        regime, p9 = 'under-expanded', e_hi * pt9
    elif q <= e_lo:
        regime, p9 = 'fitted', s.p
    elif q < shock:
        regime, p9 = 'over-expanded', e_lo * pt9
    elif q < sub:
        regime, p9 = 'shock inside', s.p
    else:
        regime, p9 = 'subsonic', s.p
    m9 = mach_of_pressure(pt9 / p9, s.g)
    t9 = tt9 / Trat(m9, s.g)
    z = Data(p=p9, v=m9 * math.sqrt(s.g * s.R * t9), ar=exit_area(s, m9, tt9, pt9), M=m9)
    return Data(f=f, T4=T4, p4=p4, m4=m4, choked=choked, z=z, regime=regime, tt9=tt9, pt9=pt9, unit=r_thrust(s, 1., [(1., z)]))


def make_ramjet(c):
    net = Nw.Ramjet()
    net.number_of_engines = float(c['engines'])
    net.working_fluid = Air()
    for x, tag, kw in ((Cv.Ram(), 'ram', {}),
                       (Cv.Compression_Nozzle(), 'inlet_nozzle', dict(polytropic_efficiency=c['ei'], pressure_ratio=c['inl'], pressure_recovery=c['rec'], compressibility_effects=True)),
                       (Cv.Combustor(), 'combustor', dict(efficiency=c['eb'], turbine_inlet_temperature=c['T4'], pressure_ratio=1., area_ratio=c['ar'], fuel_data=Jet_A(), rayleigh_analyses=True)),
                       (Cv.Supersonic_Nozzle(), 'core_nozzle', dict(polytropic_efficiency=c['en'], pressure_ratio=c['pn'], min_area_ratio=c['amin'], max_area_ratio=c['amin'] + c['span']))):
        x.tag = tag
        for k, v in kw.items():
            x[k] = v
        net.append(x)
    net.thrust = Pr.Thrust()
    net.thrust.tag = 'thrust'
    net.thrust.total_design = c['F']
    return net


def check_ramjet(c, ctx):
    cond, S = stream(c['pts'])
    R = [r_ramjet(s, c) for s in S]
    net = make_ramjet(c)
    mdhc = 3.7
    net.thrust.compressor_nondimensional_massflow = mdhc
    net.thrust.inputs.fan_nozzle = Data(velocity=0., area_ratio=0., static_pressure=0.)
    net.thrust.inputs.bypass_ratio = 0.
    res = net.evaluate_thrust(state_of(cond))
    n = len(S)
    tol = 2e-5 if not any(r.choked for r in R) else 1e-4
    close(net.combustor.outputs.fuel_to_air_ratio, [[r.f] for r in R], 1e-6, 1e-9, what='ramjet fuel to air ratio')
    close(net.combustor.outputs.stagnation_temperature, [[r.T4] for r in R], 1e-6, what='ramjet burner temperature')
    close(net.combustor.outputs.stagnation_pressure, [[r.p4] for r in R], tol, what='ramjet burner total pressure')
    o = net.core_nozzle.outputs
    if any(r.choked for r in R):
        ctx.label('thermally choked')
    for r in R:
        ctx.label(r.regime)
    if n > 1:
        ctx.hit('several points')
    close(o.mach_number, [[r.z.M] for r in R], tol, what='ramjet exit Mach')
    close(o.static_pressure, [[r.z.p] for r in R], tol, what='ramjet exit pressure')
    close(o.velocity, [[r.z.v] for r in R], tol, what='ramjet exit velocity')
    mdot = [mdhc * math.sqrt(288.15 / r.tt9) * r.pt9 / 101325. * c['engines'] * s.throttle for s, r in zip(S, R)]
    F = np.array([m * r.unit for m, r in zip(mdot, R)])
    gross = np.array([m * (r.z.v + s.u) for m, s, r in zip(mdot, S, R)])
    require(np.all(np.abs(res.thrust_force_vector[:, 0] - F) <= 10 * tol * gross + 1e-9), 'ramjet thrust %r, reference %r (%s)', res.thrust_force_vector[:, 0].tolist(), F.tolist(), [r.regime for r in R])
    keep = [k for k in range(n) if abs(F[k]) > 1e-2 * gross[k] or mdot[k] == 0.]
    close(res.vehicle_mass_rate[keep], np.array([[m * r.f] for m, r in zip(mdot, R)])[keep], 100 * tol, 1e-9, what='ramjet fuel flow')
    same_shape(res.network_y_axis_rotation, (n, 1), 'ramjet: rotation of the thrust axis')


# ------------------------------------------------------------------ scramjet
SCRAMJET = record(turns=vec(inner(.05, .2), 1, 3), ei=rng(.85, 1., [1.]), eb=rng(.6, 1.), phi=rng(.2, 1., [1.]), Vfx=rng(0., 1., [0., .5]), Vf=rng(0., 1., [0., .5]), Cfb=rng(0., .1, [.01]), hf=rng(0., 1e5, [0.]),
                  en=rng(.85, 1., [1.]), pr=rng(.8, 3., [1.]), engines=st.integers(1, 3), F=logrng(1e4, 4e5), pts=vec(HYPERPOINT, 1, 3))


def r_scramjet(s, c):
    m, T, ptr = s.M, 1., 1.
    for th in c['turns']:
        b = weak_shock_angle(m, th, s.g)
        if b is None:
            raise Discard('detached shock')
        mn = m * math.sin(b)
        m2, _, t, pt = behind_shock(mn, s.g)
        m, T, ptr = m2 / math.sin(b - th), T * t, ptr * pt
    T3 = T * s.T
    p3 = s.p * (T / (T * (1. - c['ei']) + c['ei'])) ** (s.cp / s.R)
    u3 = math.sqrt(s.u ** 2 - 2. * s.cp * s.T * (T - 1.)) if s.u ** 2 > 2. * s.cp * s.T * (T - 1.) else None
    if u3 is None or m < 1.2:
        raise Discard('the inlet stops the flow')
    cpb = s.cp * 1.45
    gb = cpb / (cpb - s.R)
    f = c['phi'] * .0291
    # momentum with burner drag, then energy at constant pressure
    u4 = u3 * ((1. + f * c['Vfx'] - c['Cfb'] / 2.) / (1. + f))
    h = cpb * T3 + c['eb'] * f * 141.86e6 + f * c['hf'] + f * cpb * s.T + (1. + f * c['Vf'] ** 2) * u3 * u3 / 2.
    T4 = h / (1. + f) / cpb - u4 * u4 / (2. * cpb)
    m4 = u4 / math.sqrt(gb * s.R * T4)
    p10 = s.p * c['pr']
    T10 = T4 * (1. - c['en'] * (1. - (p10 / p3) ** (s.R / cpb)))
    e = u4 * u4 + 2. * cpb * (T4 - T10)
    if T10 <= 50. or e <= 100.:
        raise Discard('the nozzle cannot expand the gas')
    u10 = math.sqrt(e)
    ar = (1. + f) * (s.p / p10) * (T10 / s.T) * (s.u / u10)
    # momentum and pressure thrust per unit of air; the capture area follows from continuity
    A0 = s.R * s.T / (s.p * s.u)
    unit = (1. + f) * u10 - s.u + (p10 - s.p) * A0 * ar
    return Data(T3=T3, p3=p3, u3=u3, f=f, u4=u4, T4=T4, M4=m4, Tt4=T4 * Trat(m4, gb), cpb=cpb, T10=T10, p10=p10, u10=u10, ar=ar, unit=unit, ptr=ptr)


def make_scramjet(c):
    net = Nw.Scramjet()
    net.number_of_engines = float(c['engines'])
    net.working_fluid = Air()
    for x, tag, kw in ((Cv.Ram(), 'ram', {}),
                       (Cv.Compression_Nozzle(), 'inlet_nozzle', dict(polytropic_efficiency=c['ei'], pressure_ratio=1., compression_levels=float(len(c['turns'])), theta=list(c['turns']))),
                       (Cv.Combustor(), 'combustor', dict(efficiency=c['eb'], pressure_ratio=1., fuel_data=Liquid_H2(), burner_drag_coefficient=c['Cfb'], fuel_equivalency_ratio=c['phi'],
                                                          axial_fuel_velocity_ratio=c['Vfx'], fuel_velocity_ratio=c['Vf'], absolute_sensible_enthalpy=c['hf'])),
                       (Cv.Supersonic_Nozzle(), 'core_nozzle', dict(polytropic_efficiency=c['en'], pressure_expansion_ratio=c['pr']))):
        x.tag = tag
        for k, v in kw.items():
            x[k] = v
        net.append(x)
    net.thrust = Pr.Thrust()
    net.thrust.tag = 'thrust'
    net.thrust.total_design = c['F']
    return net


def check_scramjet(c, ctx):
    cond, S = stream(c['pts'])
    R = [r_scramjet(s, c) for s in S]
    n = len(S)
    if n > 1:
        ctx.hit('several points')
    net = make_scramjet(c)
    mdhc = 1.9
    net.thrust.compressor_nondimensional_massflow = mdhc
    res = net.evaluate_thrust(state_of(cond))
    A = lambda k: np.array([[r[k]] for r in R])
    i, b, o = net.inlet_nozzle.outputs, net.combustor.outputs, net.core_nozzle.outputs
    for got, key, what in ((i.static_temperature, 'T3', 'inlet temperature'), (i.static_pressure, 'p3', 'inlet pressure'), (i.velocity, 'u3', 'inlet velocity'), (b.velocity, 'u4', 'burner velocity'),
                           (b.static_temperature, 'T4', 'burner temperature'), (b.mach_number, 'M4', 'burner Mach'), (b.stagnation_temperature, 'Tt4', 'burner total temperature'),
                           (o.temperature, 'T10', 'exit temperature'), (o.pressure, 'p10', 'exit pressure'), (o.velocity, 'u10', 'exit velocity'), (o.area_ratio, 'ar', 'exit area')):
        close(got, A(key), 1e-6, what='scramjet: ' + what)
    close(i.stagnation_pressure, [[r.ptr * s.Pt] for r, s in zip(R, S)], 1e-6, what='scramjet: inlet total pressure')
    close(b.fuel_to_air_ratio, A('f') if np.ndim(b.fuel_to_air_ratio) else R[0].f, 1e-9, what='scramjet: fuel to air ratio')
    # corrected flow is referred to the nozzle stagnation state the network hands over
    mdot = []
    Tt, Pt = net.thrust.inputs.total_temperature_reference, net.thrust.inputs.total_pressure_reference
    Tt, Pt = np.asarray(Tt) * np.ones((n, 1)), np.asarray(Pt) * np.ones((n, 1))
    for k, (s, r) in enumerate(zip(S, R)):
        mdot.append(mdhc * math.sqrt(288.15 / Tt[k, 0]) * Pt[k, 0] / 101325. * c['engines'] * s.throttle)
    F = np.array([m * r.unit for m, r in zip(mdot, R)])
    gross = np.array([m * (r.u10 + s.u) for m, s, r in zip(mdot, S, R)])
    require(np.all(np.abs(res.thrust_force_vector[:, 0] - F) <= 1e-6 * gross + 1e-9), 'scramjet thrust %r, reference %r', res.thrust_force_vector[:, 0].tolist(), F.tolist())
    keep = [k for k in range(n) if abs(F[k]) > 1e-3 * gross[k] or mdot[k] == 0.]
    close(res.vehicle_mass_rate[keep], np.array([[m * r.f] for m, r in zip(mdot, R)])[keep], 1e-5, 1e-12, what='scramjet fuel flow')
    same_shape(res.network_y_axis_rotation, (n, 1), 'scramjet: rotation of the thrust axis')


# ------------------------------------------------------------------ rocket
ROCKET = record(fuel=st.sampled_from(['LOX_RP1', 'LOX_LH2']), pc=logrng(1e6, 2e7), throat=logrng(.01, 1.), exp=logrng(2., 80.), pi=rng(.95, 1., [1.]), eta=rng(.9, 1., [1.]), engines=st.integers(1, 9),
                pts=vec(record(p=st.one_of(logrng(1., 1.05e5), st.just(0.)), throttle=rng(0., 1., [0., 1.]), g=rng(9.6, 9.82)), 1, 4))


def check_rocket(c, ctx):
    n = len(c['pts'])
    prop = LOX_RP1() if c['fuel'] == 'LOX_RP1' else LOX_LH2()
    g, T, R = prop.isentropic_expansion_factor, prop.combustion_temperature, prop.gas_specific_constant
    net = Nw.Liquid_Rocket()
    net.number_of_engines = float(c['engines'])
    b, z = Cv.Rocket_Combustor(), Cv.de_Laval_Nozzle()
    b.tag, z.tag = 'combustor', 'core_nozzle'
    b.propellant_data = prop
    b.inputs.combustion_pressure = c['pc']
    z.polytropic_efficiency, z.expansion_ratio, z.area_throat, z.pressure_ratio = c['eta'], c['exp'], c['throat'], c['pi']
    net.append(b)
    net.append(z)
    net.thrust = Pr.Rocket_Thrust()
    net.thrust.tag = 'thrust'
    cond = AeroConditions()
    cond.expand_rows(n)
    cond.freestream.pressure = np.array([[p['p']] for p in c['pts']])
    cond.freestream.gravity = np.array([[p['g']] for p in c['pts']])
    cond.propulsion.throttle = np.array([[p['throttle']] for p in c['pts']])
    res = net.evaluate_thrust(state_of(cond))
    # chamber, two losses in the nozzle, isentropic expansion from the throat
    pt, tt = c['pc'] * c['pi'] ** 2, T * c['pi'] ** (2. * (g - 1.) / g * c['eta'])
    m = mach_of_area(c['exp'], g, False)
    pe, te = pt / Prat(m, g), tt / Trat(m, g)
    ve = m * math.sqrt(g * R * te)
    Ae = c['throat'] * c['exp']
    mdot = pe / (R * te) * ve * Ae
    close(net.core_nozzle.outputs.mach_number, m, 1e-6, what='rocket exit Mach')
    close(net.core_nozzle.outputs.exhaust_velocity, ve, 1e-6, what='rocket exhaust velocity')
    close(net.core_nozzle.outputs.static_pressure, pe, 1e-5, what='rocket exit pressure')
    F = np.array([c['engines'] * p['throttle'] * (mdot * ve + (pe - p['p']) * Ae) for p in c['pts']])
    if n > 1:
        ctx.hit('several points')
    if np.any(F < 0):
        ctx.label('separated')
    want = np.maximum(F, 0.)
    top = c['engines'] * mdot * ve
    require(np.all(np.abs(res.thrust_force_vector[:, 0] - want) <= 2e-5 * top), 'rocket thrust %r, reference %r', res.thrust_force_vector[:, 0].tolist(), want.tolist())
    close(res.vehicle_mass_rate, [[c['engines'] * p['throttle'] * mdot] for p in c['pts']], 1e-5, 1e-9, what='propellant flow of %d engines' % c['engines'])
    isp = [(ve + (pe - p['p']) * Ae / mdot) / p['g'] for p in c['pts']]
    require(np.all(np.abs(np.ravel(res.specific_impulse) - isp) <= 2e-5 * ve / 9.6), 'specific impulse %r, reference %r', np.ravel(res.specific_impulse).tolist(), isp)
    # thrust over weight flow of propellant is the specific impulse
    ok = [k for k in range(n) if want[k] > 1e-3 * top]
    close((res.thrust_force_vector[:, 0] / (res.vehicle_mass_rate[:, 0] * cond.freestream.gravity[:, 0]))[ok] if ok else np.zeros(0), np.ravel(res.specific_impulse)[ok] if ok else np.zeros(0), 1e-6, what='thrust over propellant weight flow')
    same_shape(res.network_y_axis_rotation, (n, 1), 'rocket: rotation of the thrust axis')


# ------------------------------------------------------------------ ducted fan
DUCTED = record(inl=rng(.95, 1., [1.]), ei=rng(.9, 1., [1.]), fpr=logrng(1.05, 1.8), ef=rng(.8, 1., [1.]), pn=rng(.97, 1., [1.]), en=rng(.9, 1., [1.]), engines=st.integers(1, 6), F=logrng(500., 1e5),
                design=record(alt=rng(0., 12000., [0.]), M=rng(.1, .85, [.5]), disa=rng(-15., 20., [0.])), pts=vec(SUBPOINT, 1, 4))


def r_fan(s, c):
    tt, pt, _ = r_inlet(s, s.Tt, s.Pt, c['inl'], c['ei'], 1., False)
    t2, p2, w = r_compress(s, tt, pt, c['fpr'], c['ef'])
    z = r_nozzle(s, t2, p2, c['pn'], c['en'])
    return Data(z=z, t2=t2, p2=p2, tt=tt, pt=pt, unit=r_thrust(s, 1., [(1., z)]))


def check_ducted(c, ctx):
    net = Nw.Ducted_Fan()
    net.number_of_engines = float(c['engines'])
    net.working_fluid = Air()
    for x, tag, kw in ((Cv.Ram(), 'ram', {}), (Cv.Compression_Nozzle(), 'inlet_nozzle', dict(pressure_ratio=c['inl'], polytropic_efficiency=c['ei'])),
                       (Cv.Fan(), 'fan', dict(pressure_ratio=c['fpr'], polytropic_efficiency=c['ef'])), (Cv.Expansion_Nozzle(), 'fan_nozzle', dict(pressure_ratio=c['pn'], polytropic_efficiency=c['en']))):
        x.tag = tag
        for k, v in kw.items():
            x[k] = v
        net.append(x)
    net.thrust = Pr.Thrust()
    net.thrust.tag = 'thrust'
    net.thrust.total_design = c['F']
    d = c['design']
    s0 = stream([standard(d['alt'], d['disa'], d['M'])])[1][0]
    rd = r_fan(s0, c)
    sls = r_fan(stream([standard(0., 0., .01)])[1][0], c)
    if rd.unit < .02 * rd.z.v:
        raise Discard('hardly any thrust at the design point')
    ducted_fan_sizing(net, d['M'], d['alt'], d['disa'])
    cond, S = stream([standard(d['alt'], d['disa'], d['M'])])
    res = net.evaluate_thrust(state_of(cond))
    close(res.thrust_force_vector[0, 0], c['F'], 1e-7, what='ducted fan thrust at the design point')
    close(net.thrust.mass_flow_rate_design, c['F'] / rd.unit / c['engines'], 1e-7, what='ducted fan design mass flow')
    cond, S = stream(c['pts'])
    R = [r_fan(s, c) for s in S]
    n = len(S)
    if n > 1:
        ctx.hit('several points')
    res = net.evaluate_thrust(state_of(cond))
    ref_T, ref_P = np.ravel(net.thrust.inputs.total_temperature_reference) * np.ones(n), np.ravel(net.thrust.inputs.total_pressure_reference) * np.ones(n)
    mdhc = float(np.ravel(net.thrust.compressor_nondimensional_massflow)[0])
    F = np.array([mdhc * math.sqrt(288.15 / ref_T[k]) * ref_P[k] / 101325. * c['engines'] * s.throttle * r.unit for k, (s, r) in enumerate(zip(S, R))])
    gross = np.array([mdhc * math.sqrt(288.15 / ref_T[k]) * ref_P[k] / 101325. * c['engines'] * s.throttle * r.z.v for k, (s, r) in enumerate(zip(S, R))])
    require(np.all(np.abs(res.thrust_force_vector[:, 0] - F) <= 1e-7 * gross + 1e-9), 'ducted fan thrust %r, reference %r', res.thrust_force_vector[:, 0].tolist(), F.tolist())
    # shaft power: thrust power over the propulsive efficiency of the jet
    P = np.array([f * s.u * (1. + r.z.v / s.u) / 2. for f, s, r in zip(F, S, R)])
    require(np.all(np.abs(np.ravel(res.power) - P) <= 1e-6 * (gross * np.array([s.u + r.z.v for s, r in zip(S, R)])) + 1e-9), 'ducted fan power %r, reference %r', np.ravel(res.power).tolist(), P.tolist())
    close(res.vehicle_mass_rate, np.zeros((n, 1)), 0., 0., what='ducted fan fuel flow')
    src = cond.noise.sources.ducted_fan.fan
    for name, key in (('exit_static_temperature', 'T'), ('exit_static_pressure', 'p'), ('exit_stagnation_temperature', 'Tt'), ('exit_stagnation_pressure', 'Pt'), ('exit_velocity', 'v')):
        close(src[name], [[r.z[key]] for r in R], 1e-7, 1e-7, what='noise source: fan ' + name)


# ------------------------------------------------------------------ several networks on one vehicle
class Fixed(Nw.Network):
    """A network with a prescribed answer."""
    def evaluate_thrust(self, state):
        r = Data()
        for k, v in self.answer.items():
            r[k] = np.array(v, dtype=float)
        return r


FUEL = vec(rng(0., 2., [0.]), 3)
ONE = record(F=vec(rng(-1e4, 1e5, [0.]), 9), mdot=FUEL, rot=FUEL, extra=st.one_of(st.none(), record(a=FUEL, b=FUEL)))
NETWORKS = record(nets=vec(ONE, 0, 4), missing=st.lists(st.booleans(), min_size=4, max_size=4))


def check_networks(c, ctx):
    v = SUAVE.Vehicle()
    N = len(c['nets'])
    for k, d in enumerate(c['nets']):
        net = Fixed()
        net.tag = 'net_%d' % k
        a = Data()
        a.thrust_force_vector = np.reshape(d['F'], (3, 3)).tolist()
        a.vehicle_mass_rate = [[x] for x in d['mdot']]
        a.network_y_axis_rotation = [[x] for x in d['rot']]
        if d['extra'] is not None:
            net.has_additional_fuel_type = True
            a.vehicle_fuel_rate = [[x] for x in d['extra']['a']]
            a.vehicle_additional_fuel_rate = [[x] for x in d['extra']['b']]
        elif c['missing'][k]:
            net.has_additional_fuel_type = False
        net.answer = a
        v.append_component(net)
    state = State()
    state.expand_rows(3)
    before = repr([d for d in c['nets']])
    res = v.networks.evaluate_thrust(state)
    add = lambda key, sub=None: sum([np.reshape(d[key] if sub is None else d['extra'][sub], (3, -1)) for d in c['nets'] if sub is None or d['extra'] is not None], np.zeros((3, 3 if key == 'F' else 1)))
    close(res.thrust_force_vector, add('F'), 1e-12, 1e-9, what='thrust of %d networks' % N)
    close(res.vehicle_mass_rate, add('mdot'), 1e-12, 1e-12, what='mass rate of %d networks' % N)
    close(res.network_y_axis_rotation, add('rot'), 1e-12, 1e-12, what='rotation of %d networks' % N)
    some = [d for d in c['nets'] if d['extra'] is not None]
    if some:
        close(res.vehicle_fuel_rate, add('x', 'a'), 1e-12, 1e-12, what='fuel rate of %d networks, %d with two fuels' % (N, len(some)))
        close(res.vehicle_additional_fuel_rate, add('x', 'b'), 1e-12, 1e-12, what='additional fuel rate of %d networks, %d with two fuels' % (N, len(some)))
    else:
        require('vehicle_fuel_rate' not in res, 'a second fuel appeared from nowhere')
    if N > 1:
        ctx.hit('several networks')
    if 0 < len(some) < N:
        ctx.label('mixed fuels')


def probe_noise():
    c = dict(inl=1., ei=1., lpc=1.2, hpc=10., ec=.9, T4=1500., eb=1., pb=1., em=1., et=.9, pn=1., en=1., engines=2, adj=0., bpr=5., fpr=1.5, ef=.9, F=4e4)
    net = make_turbofan(c)
    turbofan_sizing(net, .8, 10000.)
    cond, S = stream([dict(p=3e4, T=230., M=.8, throttle=1.)])
    net.evaluate_thrust(state_of(cond))
    return abs(float(cond.noise.sources.turbofan.fan.exit_stagnation_pressure[0, 0]) / float(net.fan_nozzle.outputs.stagnation_pressure[0, 0]) - 1.) > 1e-3


PROPERTY = Property('C18', [
    Sub('relations', RELATIONS, check_relations, quick=250, rule='several points at once'),
    Sub('shocks', SHOCKS, check_shocks, quick=300, rule='more than one shock'),
    Sub('components', COMPONENTS, check_components, quick=400, rule='several points at once'),
    Sub('turbofan', TURBOFAN, check_turbofan, quick=250, rule='several points at once'),
    Sub('turbojet', TURBOJET, check_turbojet, quick=250, rule='reheat is lit'),
    Sub('ramjet', RAMJET, check_ramjet, quick=250, rule='several points at once'),
    Sub('scramjet', SCRAMJET, check_scramjet, quick=250, rule='several points at once'),
    Sub('rocket', ROCKET, check_rocket, quick=300, rule='several points at once'),
    Sub('ducted', DUCTED, check_ducted, quick=200, rule='several points at once'),
    Sub('networks', NETWORKS, check_networks, quick=300, rule='several networks'),
], rule='each sub-check states its own',
    assumptions=['gas properties are those of the working fluid object (C07) at freestream temperature', 'shocks within 3 % of detachment, nozzles within 1e-4 of a change of regime and turbines that would drop below a quarter of their inlet temperature are left out'],
    probes={'turbofan_exit_stagnation_pressure': probe_noise})

"""C21: rotors and propellers: blade element / vortex solution, integrated loads, frames, similarity and design."""
import contextlib
import io
import math

import numpy as np
from hypothesis import strategies as st

from SUAVE.Core import Data, Units
from SUAVE.Components.Energy import Converters as Cv
from SUAVE.Components.Airfoils.Airfoil import Airfoil
from SUAVE.Methods.Propulsion.propeller_design import propeller_design
from SUAVE.Methods.Propulsion.Rotor_Wake.Fidelity_Zero import compute_fidelity_zero_induced_velocity
from lib.refatm import std
from lib.prop import Property, Sub, require, fail, close, same_shape, finite, monotone, Discard
from lib.strat import rng, inner, logrng, vec, record

PI = math.pi


def rotor_case(edge=False):
    d = dict(B=st.integers(2, 6), R=logrng(.15, 5.), hub=rng(.08, .3), Nr=st.sampled_from([5, 9, 16, 20]), chord=rng(.04, .14), taper=rng(.3, 1.), tc=rng(.06, .2),
             aoa=rng(1., 7.), tipaoa=rng(-2., 2.), J0=rng(.2, 1.4), pts=st.lists(st.tuples(rng(.7, 1.25), rng(.25, .75)), min_size=1, max_size=4), alt=rng(0., 9000.),
             kind=st.sampled_from(['prop', 'lift', 'rotor']), rot=st.sampled_from([1, -1]), pitch=st.sampled_from([0., 0., .03, -.03]))
    if edge:
        d.update(edge=rng(.02, .3), phase=st.integers(0, 23), two=st.booleans())
    return record(**d)


class Blade(object):
    def __init__(self, c, k=1.):
        self.c = c
        cls = {'prop': Cv.Propeller, 'lift': Cv.Lift_Rotor, 'rotor': Cv.Rotor}[c['kind']]
        r = self.rotor = cls()
        self.R = c['R'] * k
        r.number_of_blades, r.tip_radius, r.hub_radius, r.rotation = c['B'], self.R, c['hub'] * self.R, c['rot']
        N = c['Nr']
        chi = np.linspace(c['hub'], 1., N + 1)[:-1]
        self.r = chi * self.R
        r.radius_distribution = self.r.copy()
        self.chord = c['chord'] * self.R * (1. - (1. - c['taper']) * chi) * 1.2
        r.chord_distribution = self.chord.copy()
        # a blade twisted for its middle advance ratio, with a few degrees of incidence left
        phi = np.arctan2(c['J0'] / PI, chi)
        self.beta = phi + np.radians(c['aoa'] + (c['tipaoa'] if c['aoa'] + c['tipaoa'] > .8 else 0.) * chi)
        r.twist_distribution = self.beta.copy()
        r.thickness_to_chord = np.full(N, c['tc'])
        self.tc = c['tc']
        r.airfoil_polar_stations = None
        r.use_2d_analysis = False
        r.variable_pitch = True
        r.orientation_euler_angles = [0., 0., 0.]
        r.inputs.pitch_command = c['pitch']
        self.beta = self.beta + c['pitch']
        self.k = k
        air = std(c['alt'])
        self.rho, self.a, self.nu = float(air['rho']), float(air['a']), float(air['mu'] / air['rho'])
        self.T = float(air['T'])

    def flow(self, pts=None, lateral=None, nu=None, throttle=1., rho=None):
        c = self.c
        pts = c['pts'] if pts is None else pts
        n = len(pts)
        self.om = np.array([p[1] * self.a / self.R for p in pts]).reshape(-1, 1)
        self.V = np.array([p[0] * c['J0'] / PI * p[1] * self.a for p in pts]).reshape(-1, 1)       # V = J n D = J omega R / pi
        q = Data()
        for key in ('freestream', 'frames', 'propulsion'):
            q[key] = Data()
        q.frames.inertial, q.frames.body = Data(), Data()
        vv = np.zeros((n, 3))
        vv[:, 0] = self.V[:, 0]
        if lateral is not None:
            vv = vv + lateral * self.V
        q.frames.inertial.velocity_vector = vv
        q.frames.body.transform_to_inertial = np.tile(np.eye(3), (n, 1, 1))
        rho = self.rho if rho is None else rho
        nu = self.nu if nu is None else nu
        q.freestream.density = np.full((n, 1), rho)
        q.freestream.dynamic_viscosity = np.full((n, 1), nu * rho)
        q.freestream.speed_of_sound = np.full((n, 1), self.a)
        q.freestream.temperature = np.full((n, 1), self.T)
        q.freestream.velocity = np.linalg.norm(vv, axis=1).reshape(-1, 1)
        q.propulsion.throttle = np.full((n, 1), throttle)
        self.rotor.inputs.omega = self.om.copy()
        return q

    def spin(self, q, any_root=False):
        s = io.StringIO()
        keep = q.frames.inertial.velocity_vector.copy(), self.rotor.inputs.omega.copy()
        with contextlib.redirect_stdout(s), np.errstate(all='ignore'):
            out = self.rotor.spin(q)
        if 'did not converge' in s.getvalue():
            raise Discard('stalled')
        if not any_root and float(np.max(np.abs(out[4].disc_effective_angle_of_attack))) > .5:
            raise Discard('a section settled on the far side of the stall')       # the section balance has several roots there
        close(q.frames.inertial.velocity_vector, keep[0], rtol=0., what='velocity after the rotor calculation')
        close(self.rotor.inputs.omega, keep[1], rtol=0., what='rotational speed after the rotor calculation')
        return out


def lift_curve(alpha, Ma, Re, tc):
    t = tc * 100.
    ref = max(.7, -.0009 * t ** 3 + .0217 * t ** 2 - .0442 * t + .7005)
    top = ref * (Re / 9e6) ** .1
    cl = np.minimum(2. * PI * alpha, top)
    b = np.sqrt(np.maximum(1. - Ma * Ma, 1e-12))
    kt = cl / (b + Ma * Ma / (1. + b) * cl / 2.)
    return np.where((Ma < 1.) & (cl > 0.), kt, cl)


def drag_curve(cl, Ma, Re, T):
    cd = (.108 * cl ** 4 - .2612 * cl ** 3 + .181 * cl ** 2 - .0139 * cl + .0278) * (5e4 / Re) ** .2
    tw = 1. + 1.78 * Ma * Ma
    tp = 1. + .035 * Ma * Ma + .45 * (tw - 1.)
    rp = tp ** 2.5 * (tp * T + 110.4) / (T + 110.4)
    return cd / tp * rp ** -.2


def widths(r):
    d = np.diff(r)
    w = np.zeros(len(r))
    w[0], w[-1] = .5 * d[0], .5 * d[-1]
    w[1:-1] = .5 * (d[:-1] + d[1:])
    return w


def check_bemt(c, ctx):
    b = Blade(c)
    q = b.flow()
    F, Q, P, Cp, o, eta = b.spin(q, True)
    n, N, B = len(c['pts']), c['Nr'], c['B']
    Wa, Wt = o.blade_axial_velocity, o.blade_tangential_velocity
    same_shape(Wa, (n, N), 'axial velocity at the blade')
    same_shape(F, (n, 3), 'thrust vector')
    for k in range(n):
        om, V = b.om[k, 0], b.V[k, 0]
        wa, wt = Wa[k], Wt[k]
        U = np.hypot(V, om * b.r)
        va, vt = wa - V, om * b.r - wt
        # Goldstein/Betz: the induced velocity stands across the resultant
        close(va * wa - vt * wt, np.zeros(N), atol=1e-7 * float(np.max(U)) ** 2, what='induced velocity along the resultant')
        W = np.hypot(wa, wt)
        alpha = b.beta - np.arctan2(wa, wt)
        Re, Ma = W * b.chord / b.nu, W / b.a
        cl = lift_curve(alpha, Ma, Re, b.tc)
        close(o.lift_coefficient[k], cl, rtol=1e-6, atol=2e-6, what='section lift coefficient')
        cd = drag_curve(cl, Ma, Re, b.T)
        close(o.drag_coefficient[k], cd, rtol=1e-6, atol=1e-7, what='section drag coefficient')
        close(o.disc_effective_angle_of_attack[k, :, 0], alpha, rtol=1e-7, atol=1e-9, what='section angle of attack')
        lam = np.maximum(b.r * wa / (b.R * wt), 1e-12)
        tip = 2. / PI * np.arccos(np.exp(-B / 2. * (b.R / b.r - 1.) / lam))
        gm = vt * 4. * PI * b.r / B * tip * np.sqrt(1. + (4. * lam * b.R / (PI * B * b.r)) ** 2)
        gl = .5 * W * b.chord * cl
        close(gm, gl, rtol=1e-4, atol=1e-5 * float(np.max(np.abs(gl))) + 1e-9, what='circulation: wake against lift of the section')
        close(o.disc_circulation[k, :, 0], gl, rtol=1e-6, atol=1e-8, what='bound circulation')
        eps = cd / cl
        w = widths(b.r)
        dT, dQ = b.rho * gl * (wt - eps * wa), b.rho * gl * (wa + eps * wt) * b.r
        if float(np.min(np.abs(cl))) < 1e-4:
            raise Discard('a section without lift')
        T, tq = B * float(np.sum(dT * w)), B * float(np.sum(dQ * w))
        ts, qs = B * float(np.sum(np.abs(dT) * w)), B * float(np.sum(np.abs(dQ) * w))
        close(F[k], [T, 0., 0.], rtol=1e-5, atol=1e-6 * ts, what='thrust vector of a rotor facing forward')
        close(Q[k], tq, rtol=1e-5, atol=1e-6 * qs, what='torque')
        close(P[k], tq * om, rtol=1e-5, atol=1e-6 * qs * om, what='power')
        close(o.blade_dT_dr[k], dT, rtol=1e-5, atol=1e-6 * float(np.max(np.abs(dT))), what='thrust per unit span of a blade')
        close(o.blade_dQ_dr[k], dQ, rtol=1e-5, atol=1e-6 * float(np.max(np.abs(dQ))), what='torque per unit span of a blade')
        close(o.blade_thrust_distribution[k], dT * w, rtol=1e-5, atol=1e-6 * float(np.max(np.abs(dT * w))), what='thrust of the blade elements')
        close(o.blade_torque_distribution[k], dQ * w, rtol=1e-5, atol=1e-6 * float(np.max(np.abs(dQ * w))), what='torque of the blade elements')
        close(o.thrust_per_blade[k] * B, T, rtol=1e-5, atol=1e-6 * ts, what='thrust per blade')
        close(o.torque_per_blade[k] * B, tq, rtol=1e-5, atol=1e-6 * qs, what='torque per blade')
        nn, D = om / 2. / PI, 2. * b.R
        close(o.thrust_coefficient[k], max(0., T / (b.rho * nn ** 2 * D ** 4)), rtol=1e-5, atol=1e-6 * ts / (b.rho * nn ** 2 * D ** 4), what='thrust coefficient')
        close(o.torque_coefficient[k], max(0., tq / (b.rho * nn ** 2 * D ** 5)), rtol=1e-5, atol=1e-6 * qs / (b.rho * nn ** 2 * D ** 5), what='torque coefficient')
        close(Cp[k], max(0., 2. * PI * tq / (b.rho * nn ** 2 * D ** 5)), rtol=1e-5, atol=1e-5 * qs / (b.rho * nn ** 2 * D ** 5), what='power coefficient')
        close(o.power_coefficient[k], Cp[k], rtol=0., what='power coefficient output')
        if abs(tq) > .05 * qs and abs(T) > .05 * ts:
            close(eta[k], V * T / (tq * om), rtol=1e-4, what='propulsive efficiency')
            if T > 0. and tq > 0.:
                require(float(eta[k]) < 1., 'propulsive efficiency above one')
                A = PI * b.R ** 2 * (1. - c['hub'] ** 2)
                close(o.figure_of_merit[k], T * math.sqrt(T / (2. * b.rho * A)) / (tq * om), rtol=1e-4, what='figure of merit')
                ctx.hit('thrusting')
        close(o.tip_mach[k], om * b.R / b.a, rtol=1e-9, what='tip Mach number')
    close(o.omega, b.om, rtol=0., what='rotational speed output')
    close(o.power, P, rtol=0., what='power output')


def close_spin(x, y, rtol, what, n=3):
    s = float(np.max(np.abs(x[0]))) + 1e-12
    close(y[0], x[0], rtol=rtol, atol=rtol * s, what='thrust, ' + what)
    close(y[1], x[1], rtol=rtol, atol=rtol * (float(np.max(np.abs(x[1]))) + 1e-12), what='torque, ' + what)
    close(y[2], x[2], rtol=rtol, atol=rtol * (float(np.max(np.abs(x[2]))) + 1e-12), what='power, ' + what)


def check_batch(c, ctx):
    b = Blade(c)
    whole = b.spin(b.flow())
    for k, p in enumerate(c['pts']):
        one = Blade(c)
        got = one.spin(one.flow([p]))
        close_spin([x[k:k + 1] for x in whole[:3]], got, 2e-5, 'a flight condition alone and among others')
    # the same rotor solved around the azimuth
    d = Blade(c)
    d.rotor.use_2d_analysis = True
    d.rotor.number_azimuthal_stations = 8
    two = d.spin(d.flow())
    close_spin(whole, two, 2e-5, 'with and without azimuthal resolution in axial flow')
    close(two[4].disc_dT_dr, np.repeat(whole[4].blade_dT_dr[:, :, None], 8, axis=2), rtol=2e-5, atol=2e-5 * float(np.max(np.abs(whole[4].blade_dT_dr))), what='disc loading in axial flow')
    # density
    e = Blade(c)
    thin = e.spin(e.flow(rho=e.rho * .5))
    close_spin([x * .5 for x in whole[:3]], thin, 2e-5, 'in air of half the density and the same kinematic viscosity')
    # similarity: same Mach, Reynolds and advance ratio at another size
    f = Blade(c, 2.5)
    big = f.spin(f.flow(nu=f.nu * 2.5))
    close_spin([whole[0] * 2.5 ** 2, whole[1] * 2.5 ** 3, whole[2] * 2.5 ** 2], big, 5e-5, 'of a rotor two and a half times as large')
    # no throttle, no rotor
    g = Blade(c)
    off = g.spin(g.flow(throttle=0.))
    close(off[0], np.zeros_like(off[0]), rtol=0., what='thrust without throttle')
    close(off[1], np.zeros_like(off[1]), rtol=0., what='torque without throttle')
    close(off[2], np.zeros_like(off[2]), rtol=0., what='power without throttle')
    # pitching the blades by command or by twisting them is the same
    if c['pitch']:
        h = Blade(dict(c, pitch=0.))
        h.rotor.twist_distribution = h.rotor.twist_distribution + c['pitch']
        close_spin(whole, h.spin(h.flow()), 2e-5, 'pitched by command and by twist')
    ctx.hit('batch:%d' % len(c['pts']))


def rot_y(a):
    return np.array([[math.cos(a), 0., math.sin(a)], [0., 1., 0.], [-math.sin(a), 0., math.cos(a)]])


def check_frames(c, ctx):
    """Tilting the rotor and the air together tilts the thrust and changes nothing else."""
    b = Blade(c)
    ref = b.spin(b.flow())
    a = c['tilt']
    M = rot_y(a)                                     # tilt a: the x axis goes up (body z down is negative)
    for how in ('command', 'mounted'):
        d = Blade(c)
        q = d.flow()
        q.frames.inertial.velocity_vector = q.frames.inertial.velocity_vector.dot(M.T)
        n = len(c['pts'])
        want = ref[0].dot(M.T)
        if how == 'command':                         # another tilt at every control point
            each = np.array([a * (1. - .7 * i / n) for i in range(n)])
            q.frames.inertial.velocity_vector = np.array([rot_y(each[i]).dot(b.flow().frames.inertial.velocity_vector[i]) for i in range(n)])
            want = np.array([rot_y(each[i]).dot(ref[0][i]) for i in range(n)])
            d.rotor.inputs.y_axis_rotation = each.reshape(n, 1)
        else:
            d.rotor.orientation_euler_angles = [0., a, 0.]
        got = d.spin(q)
        s = float(np.max(np.abs(want))) + 1e-9
        close(got[0], want, rtol=1e-6, atol=1e-4 * s, what='thrust vector of a rotor tilted by %s' % how)
        close(got[1], ref[1], rtol=1e-4, atol=1e-4 * float(np.max(np.abs(ref[1]))), what='torque of a tilted rotor in tilted flow')
    # attitude: the aircraft turned in space with its velocity
    d = Blade(c)
    q = d.flow()
    cy, sy = math.cos(c['yaw']), math.sin(c['yaw'])
    Z = np.array([[cy, -sy, 0.], [sy, cy, 0.], [0., 0., 1.]]).dot(M)
    q.frames.inertial.velocity_vector = q.frames.inertial.velocity_vector.dot(Z.T)
    q.frames.body.transform_to_inertial = np.tile(Z, (len(c['pts']), 1, 1))
    got = d.spin(q)
    close_spin(ref, got, 1e-4, 'of the whole aircraft turned in space (thrust in body axes)')
    # pointing up: thrust along -z
    if c['kind'] == 'lift':
        e = Cv.Lift_Rotor()
        b2 = Blade(c)
        b2.rotor.orientation_euler_angles = e.orientation_euler_angles
        q = b2.flow()
        q.frames.inertial.velocity_vector = q.frames.inertial.velocity_vector.dot(np.array([[0., 0., -1.], [0., 1., 0.], [1., 0., 0.]]))
        up = b2.spin(q)[0]
        close(up[:, 2], -ref[0][:, 0], rtol=1e-4, atol=1e-4 * float(np.max(np.abs(ref[0]))), what='lift of a lift rotor climbing straight up')
        close(up[:, :2], np.zeros_like(up[:, :2]), atol=1e-6 * float(np.max(np.abs(ref[0]))), what='sideways thrust of a lift rotor')
    m = b.rotor.body_to_prop_vel()[0]
    close(m.dot(m.T), np.eye(3), atol=1e-12, what='rotor frame is orthonormal')
    close(b.rotor.prop_vel_to_body()[0].dot(m), np.eye(3), atol=1e-12, what='rotor frame there and back')
    ctx.hit(c['kind'])


def check_edge(c, ctx):
    """Edgewise flow: the disc has no preferred azimuth, and its loads are the average over the revolution."""
    Na = 24
    res = []
    for ph in (0, c['phase']):
        b = Blade(c)
        b.rotor.use_2d_analysis = True
        b.rotor.number_azimuthal_stations = Na
        ang = 2. * PI * ph / Na
        res.append((b, b.spin(b.flow(lateral=np.array([[0., c['edge'] * math.cos(ang), c['edge'] * math.sin(ang)]])))))
    (b, x), (d, y) = res
    close_spin(x, y, 3e-4, 'with the cross flow from another azimuth')
    o = x[4]
    n, N = len(c['pts']), c['Nr']
    same_shape(o.disc_dT_dr, (n, N, Na), 'disc loading')
    close(np.mean(o.disc_dT_dr, axis=2), o.blade_dT_dr, rtol=1e-9, atol=1e-9 * float(np.max(np.abs(o.disc_dT_dr))), what='mean loading over the azimuth')
    close(c['B'] * np.sum(o.blade_dT_dr * widths(b.r), axis=1), x[0][:, 0], rtol=1e-7, atol=1e-7 * float(np.max(np.abs(x[0]))), what='thrust from the azimuth average')
    # each element sees the air it meets: total velocity at the blade between the extremes
    Ut = o.disc_tangential_velocity
    spread = np.max(Ut, axis=2) - np.min(Ut, axis=2)
    cross = c['edge'] * b.V
    require(np.all(spread[:, -1] > .9 * cross[:, 0]) and np.all(spread[:, -1] < 2.6 * cross[:, 0]),
            'advancing and retreating blades differ by %s with a cross flow of %s', spread[:, -1].tolist(), cross[:, 0].tolist())
    # a first harmonic: opposite azimuths lie on opposite sides of the mean
    ctx.hit('phase:%d' % c['phase'])


# ------------------------------------------------------------------ design
def check_design(c, ctx):
    p = Cv.Propeller()
    p.number_of_blades, p.tip_radius, p.hub_radius = c['B'], c['R'], c['hub'] * c['R']
    air = std(c['alt'])
    rho, a = float(air['rho']), float(air['a'])
    om = c['Mt'] * a / c['R']
    V = c['J'] / PI * c['Mt'] * a
    p.angular_velocity, p.freestream_velocity, p.design_Cl, p.design_altitude = om, V, c['Cl'], c['alt']
    qA = .5 * rho * V * V * PI * c['R'] ** 2
    load = c['Tc']
    if c['by'] == 'thrust':
        p.design_thrust = load * qA
    else:
        p.design_power = load * qA * V
    s = io.StringIO()
    with contextlib.redirect_stdout(s), np.errstate(all='ignore'):
        propeller_design(p, number_of_stations=c['N'])
    if 'infeasible' in s.getvalue():
        raise Discard('infeasible')
    N = c['N']
    for k in ('twist_distribution', 'chord_distribution', 'radius_distribution', 'thickness_to_chord', 'max_thickness_distribution', 'mid_chord_alignment'):
        same_shape(p[k], (N,), k)
        finite(p[k], k)
    if c['by'] == 'thrust':
        close(p.design_thrust, load * qA, rtol=1e-12, what='design thrust after the design')
    else:
        close(p.design_power, load * qA * V, rtol=1e-12, what='design power after the design')
    T, P = float(p.design_thrust), float(p.design_power)
    close(p.radius_distribution, np.linspace(c['hub'], 1., N + 1)[:-1] * c['R'], rtol=1e-12, what='stations')
    close(p.design_torque * om, P, rtol=1e-9, what='design torque times speed')
    n, D = om / 2. / PI, 2. * c['R']
    close(p.design_thrust_coefficient, T / (rho * n ** 2 * D ** 4), rtol=1e-4, what='design thrust coefficient')
    close(p.design_power_coefficient, P / (rho * n ** 3 * D ** 5), rtol=1e-4, what='design power coefficient')
    require(T > 0. and P > T * V, 'propeller design with efficiency above one: T V = %g, P = %g', T * V, P)
    # actuator disc bound
    ideal = T * V * .5 * (1. + math.sqrt(1. + T / qA))
    require(P > ideal * (1. - 1e-6), 'designed propeller beats the actuator disc: %g < %g', P, ideal)
    require(np.all(p.chord_distribution > 0.), 'designed chord not positive')
    sig = c['B'] * float(np.trapz(p.chord_distribution, p.radius_distribution)) / (PI * c['R'] ** 2)
    close(p.blade_solidity, sig, rtol=1e-6, what='solidity')
    # optimum propeller: helical wake of constant pitch: tan(phi) * chi constant
    phi = p.twist_distribution - c['Cl'] / (2. * PI)
    close(np.tan(phi) * p.radius_distribution, np.full(N, (np.tan(phi) * p.radius_distribution)[0]), rtol=1e-6, what='pitch of the wake along the blade')
    lam = V / om / c['R']
    zeta = 2. * (float(np.tan(phi[0])) * c['hub'] / lam - 1.)
    require(zeta > 0., 'displacement velocity of a thrusting wake is negative')
    # Betz/Adkins: circulation from the wake displacement against the designed chord
    chi = p.radius_distribution / c['R']
    phit = math.atan(lam * (1. + zeta / 2.))
    F = 2. / PI * np.arccos(np.exp(-c['B'] / 2. * (1. - chi) / math.sin(phit)))
    x = om * p.radius_distribution / V
    G = F * x * np.cos(phi) * np.sin(phi)
    Wc = 4. * PI * lam * G * V * c['R'] * zeta / (c['Cl'] * c['B'])
    nu, Tk = float(air['mu']) / rho, float(air['T'])
    eps = drag_curve(c['Cl'], Wc / a, Wc / nu, Tk) / c['Cl']
    W = V * (1. + .5 * zeta * np.cos(phi) ** 2 * (1. - eps * np.tan(phi))) / np.sin(phi)
    close(p.chord_distribution, Wc / W, rtol=1e-5, what='designed chord')
    i1 = 4. * chi * G * (1. - eps * np.tan(phi))
    i2 = lam * i1 / (2. * chi) * (1. + eps / np.tan(phi)) * np.sin(phi) * np.cos(phi)
    j1 = 4. * chi * G * (1. + eps / np.tan(phi))
    j2 = .5 * j1 * (1. - eps * np.tan(phi)) * np.cos(phi) ** 2
    I1, I2, J1, J2 = (float(np.sum(v)) * (chi[1] - chi[0]) for v in (i1, i2, j1, j2))
    close(T / qA, I1 * zeta - I2 * zeta ** 2, rtol=1e-5, what='design thrust from the optimum circulation')
    close(P / qA / V, J1 * zeta + J2 * zeta ** 2, rtol=1e-5, what='design power from the optimum circulation')
    close(p.thickness_to_chord * p.chord_distribution, p.max_thickness_distribution, rtol=1e-9, what='blade thickness')
    # flown at its design point
    d = Data()
    for key in ('freestream', 'frames', 'propulsion'):
        d[key] = Data()
    d.frames.inertial, d.frames.body = Data(), Data()
    d.frames.inertial.velocity_vector = np.array([[V, 0., 0.]])
    d.frames.body.transform_to_inertial = np.eye(3)[None]
    d.freestream.density, d.freestream.speed_of_sound = np.array([[rho]]), np.array([[a]])
    d.freestream.dynamic_viscosity, d.freestream.temperature = np.array([[float(air['mu'])]]), np.array([[float(air['T'])]])
    d.propulsion.throttle = np.ones((1, 1))
    p.inputs.omega = np.array([[om]])
    s = io.StringIO()
    with contextlib.redirect_stdout(s), np.errstate(all='ignore'):
        F, Q, Pw, Cp, o, eta = p.spin(d)
    if 'did not converge' in s.getvalue():
        ctx.label('stalled')
        return
    if .08 < load < 1. and c['Cl'] < .41 and c['Mt'] < .5 and c['J'] < 1.2 and N >= 15:
        close(float(F[0, 0]), T, rtol=.35, what='thrust of the designed propeller at its design point')
        close(float(Pw[0, 0]), P, rtol=.4, what='power of the designed propeller at its design point')
        ctx.hit('flown')
    else:
        ctx.hit('designed')


PROPERTY = Property('C21', [
    Sub('bemt', rotor_case(), check_bemt, quick=250, rule='a converged rotor with positive thrust and power'),
    Sub('relations', rotor_case(), check_batch, quick=70, rule='a converged rotor'),
    Sub('frames', st.builds(lambda a, b: dict(a, **b), rotor_case(), record(tilt=rng(-1.5, 1.5), yaw=rng(-3., 3.))), check_frames, quick=90, rule='a tilted rotor, a turned aircraft'),
    Sub('edgewise', rotor_case(True).map(lambda c: dict(c, pts=c['pts'][:2], Nr=min(c['Nr'], 9))), check_edge, quick=40, rule='a rotor in cross flow from two azimuths'),
    Sub('design', record(B=st.integers(2, 6), R=logrng(.2, 4.), hub=rng(.08, .25), alt=rng(0., 8000.), Mt=rng(.25, .75), J=rng(.35, 1.6), Cl=rng(.3, .75), Tc=logrng(.02, 2.),
                         by=st.sampled_from(['thrust', 'power']), N=st.sampled_from([10, 15, 20, 30])), check_design, quick=120, rule='a feasible design requirement'),
], rule='the reported blade velocities satisfied the section balance and every load followed from them, or the relation between two runs held',
    assumptions=['the built-in section data (no airfoil files), unswept blades, wake model Fidelity_Zero', 'rotors whose solver reports no convergence (stall) are discarded'])

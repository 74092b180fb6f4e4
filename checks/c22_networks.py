"""C22: propeller and ducted-fan energy networks: totals, power and current balance, reported conditions, residuals."""
import contextlib
import copy
import io
import math

import numpy as np
from hypothesis import strategies as st

import SUAVE
from SUAVE.Core import Data, Units
from SUAVE.Components.Energy import Converters as Cv, Distributors as Di, Peripherals as Pe, Processes as Pr
from SUAVE.Components.Energy import Networks as Ne
from SUAVE.Components.Energy.Networks.Internal_Combustion_Propeller_Constant_Speed import Internal_Combustion_Propeller_Constant_Speed
from SUAVE.Components.Energy.Storages.Batteries.Constant_Mass import Lithium_Ion_LiFePO4_18650
from SUAVE.Methods.Power.Battery.Sizing import initialize_from_circuit_configuration
from SUAVE.Methods.Missions.Segments.Common.Numerics import initialize_differentials_dimensionless
from SUAVE.Methods.Missions.Segments.Common.Energy import initialize_battery
from SUAVE.Methods.Missions.Segments import expand_state
from SUAVE.Analyses.Mission.Segments.Cruise import Constant_Speed_Constant_Altitude
from SUAVE.Components.Energy.Networks.Network import Network
from lib.refatm import std
from lib.prop import Property, Sub, require, fail, close, same_shape, finite, Discard
from lib.strat import rng, logrng, record
from checks.c21_rotors import Blade

PI = math.pi
MODES = ('cruise', 'lift', 'transition')


def rotor_case():
    return record(B=st.integers(2, 5), R=logrng(.2, 2.), hub=rng(.1, .25), Nr=st.sampled_from([7, 12]), chord=rng(.05, .12), taper=rng(.4, 1.), tc=rng(.08, .16),
                  aoa=rng(2., 6.), tipaoa=rng(-1., 1.), J0=rng(.3, 1.), pts=st.just([]), alt=st.just(0.), kind=st.sampled_from(['prop', 'lift', 'rotor']),
                  rot=st.sampled_from([1, -1]), pitch=st.just(0.), tip=rng(.3, .65), tilt=st.sampled_from([0., 0., .1, .6]))


def mixed(c):
    k = c['mix']
    return dict(c, same=k % 2 == 1, same2=k // 2 % 2 == 1, mode=MODES[k // 4 % 3])


def net_case():
    return record(rotors=st.lists(rotor_case(), min_size=3, max_size=3), n=st.integers(2, 6), count=st.integers(2, 8), n_exp=st.integers(1, 3), mix=st.integers(0, 9999),
                  thr=st.lists(rng(.35, 1.2), min_size=6, max_size=6), off=st.booleans(), cp=st.lists(rng(.7, 1.4), min_size=6, max_size=6), Vm=st.lists(rng(.8, 1.2), min_size=6, max_size=6), alt=rng(0., 5000.),
                  dalt=rng(0., 800.), esc=rng(.85, 1.), av=rng(0., 2000.), pay=rng(0., 2000.), series=st.integers(20, 120), par=st.integers(5, 60), soc=rng(.4, 1.), T=rng(20., 600.),
                  drop=rng(.03, .2), io=rng(.005, .05), G=st.sampled_from([1., 1., 2.5]), count2=st.integers(2, 8),
                  thr2=st.lists(rng(.35, 1.1), min_size=6, max_size=6), V=rng(100., 600.)).map(mixed)


def quiet(f, *a):
    s = io.StringIO()
    with contextlib.redirect_stdout(s), np.errstate(all='ignore'):
        out = f(*a)
    if 'did not converge' in s.getvalue():
        raise Discard('stalled rotor')
    return out


def build_rotor(c, J0, tag):
    b = Blade(dict(c, J0=J0))
    b.rotor.tag = tag
    b.rotor.orientation_euler_angles = [0., c['tilt'], 0.]
    b.rotor.origin = [[0., 0., 0.]]
    b.om0 = c['tip'] * b.a / b.R
    return b


def shaft(b, V, rho):
    """The shaft power of the rotor at its nominal speed, to choose a motor or an engine for it."""
    q = b.flow([(1., .5)])
    q.frames.inertial.velocity_vector = np.array([[V, 0., 0.]])
    q.freestream.velocity = np.array([[V]])
    q.freestream.density[:] = rho
    b.rotor.inputs.omega = np.array([[b.om0]])
    out = quiet(b.rotor.spin, q)
    P, Cp = float(out[2]), float(out[3])
    if not P > 0.:
        raise Discard('windmilling')
    return P, Cp


class Rig(object):
    """A flight segment, its atmosphere and a set of rotors that fit the speed."""

    def __init__(self, c, electric=True):
        self.c = c
        c0 = c['rotors'][0]
        tip = c0['tip'] * 340.
        self.V0 = c0['J0'] / PI * tip
        self.blades = []
        for i, r in enumerate(c['rotors']):
            J = min(max(PI * self.V0 / (r['tip'] * 340.), .2), 1.6)
            self.blades.append(build_rotor(r, J, 'rotor_%d' % i))
        n = self.n = c['n']
        self.h = (c['alt'] + c['dalt'] * np.linspace(0., 1., n)).reshape(-1, 1)
        air = self.air = std(self.h)
        self.rho = float(np.mean(air['rho']))
        self.Vs = self.V0 * np.array(c['Vm'][:n]).reshape(-1, 1)
        self.thr = np.array(c['thr'][:n]).reshape(-1, 1)
        self.Pc = [shaft(b, self.V0, self.rho) for b in self.blades]

    def segment(self, net, add, extra=None):
        c, n = self.c, self.n
        s = Constant_Speed_Constant_Altitude()
        s.state.numerics.number_control_points = n
        s.analyses = Data()
        s.analyses.energy = Data()
        s.analyses.energy.network = Data()
        s.analyses.energy.network[net.tag] = net
        s.temperature_deviation = 0.
        if 'battery' in net.keys() and net.battery is not None:
            s.battery_energy = c['soc'] * net.battery.max_energy
        if extra:
            extra(s)
        q = s.state.conditions
        q.frames.inertial.position_vector[:, 2] = -c['alt']
        if add:
            getattr(net, add)(s)
        expand_state(s)
        initialize_differentials_dimensionless(s)
        s.state.numerics.time.differentiate = s.state.numerics.dimensionless.differentiate / c['T']
        s.state.numerics.time.integrate = s.state.numerics.dimensionless.integrate * c['T']
        s.state.numerics.time.control_points = s.state.numerics.dimensionless.control_points * c['T']
        q = s.state.conditions
        q.frames.inertial.velocity_vector[:, 0] = self.Vs[:, 0]
        q.frames.inertial.position_vector[:, 2] = -self.h[:, 0]
        q.frames.inertial.time[:, 0] = s.state.numerics.time.control_points[:, 0]
        q.frames.body.transform_to_inertial = np.tile(np.eye(3), (n, 1, 1))
        f = q.freestream
        f.altitude, f.velocity = self.h.copy(), self.Vs.copy()
        f.temperature, f.pressure, f.density, f.speed_of_sound = [self.air[k].copy() for k in ('T', 'p', 'rho', 'a')]
        f.dynamic_viscosity = self.air['mu'].copy()
        f.kinematic_viscosity = self.air['mu'] / self.air['rho']
        f.thermal_conductivity = .0241 * (self.air['T'] / 273.15) ** .9
        f.prandtl_number = np.full_like(self.h, .71)
        f.mach_number = self.Vs / self.air['a']
        f.delta_ISA = 0.
        f.gravity = np.full_like(self.h, 9.80665)
        q.propulsion.throttle = self.thr.copy()
        return s

    def motor(self, i, V):
        """A motor that turns rotor i at about its nominal speed at a throttle of .8."""
        c, (P, Cp) = self.c, self.Pc[i]
        b = self.blades[i]
        U = .8 * V
        I = 1.15 * P / U
        m = Cv.Motor()
        m.tag = 'motor_%d' % i
        m.gear_ratio = c['G']
        m.gearbox_efficiency = 1. if c['G'] == 1. else .97
        m.resistance = c['drop'] * U / I
        m.no_load_current = c['io'] * I
        m.expected_current = I
        m.speed_constant = b.om0 * c['G'] / (U * (1. - c['drop']))
        m.propeller_radius = b.R
        m.origin = [[0., 0., 0.]]
        return m


def peripherals(net, c, esc):
    net.avionics, net.payload = Pe.Avionics(), Pe.Payload()
    net.avionics.power_draw, net.payload.power_draw = c['av'], c['pay']
    e = Di.Electronic_Speed_Controller()
    e.efficiency = c['esc']
    for k in esc:
        net[k] = copy.deepcopy(e)


def battery_of(c):
    b = Lithium_Ion_LiFePO4_18650()
    b.pack_config.series, b.pack_config.parallel = c['series'], c['par']
    initialize_from_circuit_configuration(b)
    b.max_voltage = 3.6 * c['series'] if not b.max_voltage else b.max_voltage
    b.module_config.normal_count, b.module_config.parallel_count = 4, 4
    return b


def by_hand(rig, s, motors, rotors, thr, volts, cps):
    """Each rotor turned on its own by its own motor: what one of them makes."""
    out = []
    for i, (m0, r0) in enumerate(zip(motors, rotors)):
        q = Data()
        q.freestream = s.state.conditions.freestream
        q.frames = s.state.conditions.frames
        q.propulsion = Data()
        q.propulsion.throttle = thr.copy()
        m, r = copy.deepcopy(m0), copy.deepcopy(r0)
        m.inputs.voltage = np.clip(thr, 0., 1.) * volts
        m.inputs.propeller_CP = cps[:, i:i + 1].copy()
        quiet(m.omega, q)
        r.inputs.omega = m.outputs.omega.copy()
        if 'y' in vars(rig):
            r.inputs.y_axis_rotation = rig.y
        F, Q, P, Cp, o, eta = quiet(r.spin, q)
        i_, em = quiet(m.current, q)
        boost = np.maximum(thr, 1.)
        d = dict(F=F * boost, P=P * boost, Q=Q, Qm=m.outputs.torque.copy(), I=m.outputs.current.copy(), om=m.outputs.omega.copy(), R=r.tip_radius, etam=em, eta=eta, fm=o.figure_of_merit)
        for k in ('F', 'P', 'Q', 'I', 'om'):
            if not np.all(np.isfinite(d[k])):
                raise Discard('no solution for the motor')
        out.append(d)
    return out


def totals(parts, k):
    return sum(p['F'] for p in parts) * k, sum(p['P'] for p in parts) * k, sum(p['I'] for p in parts) * k


def reported(q, parts, a, names, scale, rtol=1e-9):
    """The columns of the results that belong to each of the rotors."""
    for i, p in enumerate(parts):
        F = np.linalg.norm(p['F'], axis=1)
        want = {names['Q']: p['Q'][:, 0], names['rpm']: p['om'][:, 0] * 30. / PI, names['tip']: p['om'][:, 0] * p['R'] / a[:, 0],
                names['DL']: F / (PI * p['R'] ** 2), names['PL']: F / p['P'][:, 0]}
        if 'Qm' in names:
            want[names['Qm']] = p['Qm'][:, 0]
        if 'etam' in names:
            want[names['etam']] = p['etam'][:, 0]
        if 'eta' in names:
            want[names['eta']] = p['eta'][:, 0]
        for k, w in want.items():
            got = q.propulsion[k]
            same_shape(got, (len(a), len(parts)), k)
            close(got[:, i], w, rtol=rtol, atol=1e-9 * float(np.max(np.abs(w))), what='reported %s of rotor %d' % (k, i))


PROP = dict(Q='propeller_torque', rpm='propeller_rpm', tip='propeller_tip_mach', DL='disc_loading', PL='power_loading', Qm='propeller_motor_torque', etam='propeller_motor_efficiency', eta='propeller_efficiency')


def settle(f, s, unpack=lambda s: None):
    """Calculate twice: the second pass must not see anything of the first."""
    e = s.state.conditions.propulsion
    unpack(s)
    r = quiet(f, s.state)
    first = (r.thrust_force_vector.copy(), np.array(r.vehicle_mass_rate).copy(), {k: np.array(v).copy() for k, v in e.items() if isinstance(v, np.ndarray)})
    for k, v in first[2].items():
        if not np.all(np.isfinite(v)) and k in ('battery_energy', 'propeller_torque'):
            raise Discard('battery or rotor out of range')
    unpack(s)
    r = quiet(f, s.state)
    close(r.thrust_force_vector, first[0], rtol=1e-9, atol=1e-9, what='thrust on calculating again')
    for k, v in first[2].items():
        close(np.array(e[k]), v, rtol=1e-7, atol=1e-9 * float(np.max(np.abs(v)) if v.size else 0.), what='%s on calculating again' % k)
    return r


def battery_balance(q, b0, s, I, P, shaft_power, av, n, discharge=True):
    """What reached the battery and what it made of it."""
    close(q.propulsion.battery_current, I, rtol=1e-9, what='battery current')
    close(q.propulsion.battery_power_draw, -P, rtol=1e-9, what='battery power')
    b = copy.deepcopy(b0)
    b.inputs.current, b.inputs.power_in = I.copy(), -P.copy()
    quiet(b.energy_calc, s.state.numerics, discharge)
    close(q.propulsion.battery_energy, b.current_energy, rtol=1e-9, atol=1e-9 * b.max_energy, what='battery energy')
    close(q.propulsion.battery_state_of_charge, b.state_of_charge, rtol=1e-9, atol=1e-9, what='state of charge')
    close(q.propulsion.battery_voltage_under_load, b.voltage_under_load, rtol=1e-9, what='battery voltage')
    close(q.propulsion.battery_cell_current, np.abs(b.cell_current), rtol=1e-9, what='cell current')
    if shaft_power is not None:
        close(q.propulsion.electronics_efficiency * P, shaft_power, rtol=1e-9, atol=1e-9 * float(np.max(np.abs(P))), what='electronics efficiency times battery power, against the shaft power')
        close(q.propulsion.payload_efficiency * P, P - av, rtol=1e-9, atol=1e-9 * float(np.max(np.abs(P))), what='power not taken by avionics and payload')


# ------------------------------------------------------------------ battery and propellers
def check_battery_propeller(c, ctx):
    rig = Rig(c)
    same = c['same']
    k = c['count'] if same else c['n_exp']

    def make(same, k, copies=False, order=None):
        net = Ne.Battery_Propeller()
        net.tag = 'net'
        net.battery = battery_of(c)
        V = net.battery.max_voltage
        net.voltage = V
        peripherals(net, c, ['esc'])
        net.identical_propellers = same
        net.number_of_propeller_engines = k
        for i in (order or range(k)):
            j = 0 if (same or copies) else i
            m, r = rig.motor(j, V), copy.deepcopy(rig.blades[j].rotor)
            m.tag, r.tag = 'm%d' % i, 'r%d' % i
            net.propeller_motors.append(m)
            net.propellers.append(r)
        net.y_axis_rotation = c['rotors'][0]['tilt'] * .5
        return net

    rig.y = c['rotors'][0]['tilt'] * .5 * np.ones((rig.n, 1))

    def run(net, order=None):
        def extra(s):
            for r in net.propellers:
                r.design_power_coefficient = rig.Pc[0][1]
        s = rig.segment(net, 'add_unknowns_and_residuals_to_segment', extra)
        m = 1 if net.identical_propellers else net.number_of_propeller_engines
        u = s.state.unknowns
        same_shape(u.propeller_power_coefficient, (rig.n, m), 'unknown power coefficients')
        cps = np.array([[rig.Pc[0 if net.identical_propellers else j][1] * f for j in range(m)] for f in c['cp'][:rig.n]])
        if order:
            cps = cps[:, order]
        u.propeller_power_coefficient = cps
        net.unpack_unknowns(s)
        s.state.conditions.propulsion.throttle = rig.thr.copy()
        return s, cps

    net = make(same, k)
    s, cps = run(net)
    q = s.state.conditions
    keep = rig.thr.copy()
    b0 = copy.deepcopy(net.battery)
    def unpack(s):
        net.unpack_unknowns(s)
        s.state.conditions.propulsion.throttle = rig.thr.copy()

    res = settle(net.evaluate_thrust, s, unpack)
    volts = net.esc.inputs.voltagein
    close(volts, s.state.unknowns.battery_voltage_under_load, rtol=0., what='supply voltage')
    ms, rs = list(net.propeller_motors.values()), list(net.propellers.values())
    base = make(same, k)
    parts = by_hand(rig, s, list(base.propeller_motors.values())[:cps.shape[1]], list(base.propellers.values())[:cps.shape[1]], rig.thr, volts, cps)
    mult = k if same else 1.
    F, P, I = totals(parts, mult)
    close(res.thrust_force_vector, F, rtol=1e-9, atol=1e-9 * float(np.max(np.abs(F))), what='thrust against the propellers one by one')
    same_shape(res.vehicle_mass_rate, (rig.n, 1), 'mass rate')
    require(np.all(res.vehicle_mass_rate == 0.), 'a battery network burns fuel')
    close(res.network_y_axis_rotation, rig.y, rtol=0., what='rotation of the thrust')
    reported(q, parts, rig.air['a'], PROP, mult)
    close(q.propulsion.throttle, keep, rtol=0., what='throttle after the calculation')
    inside = rig.thr <= 1.
    V = volts
    thr = np.minimum(rig.thr, 1.)
    i_esc = net.esc.outputs.currentin
    close(i_esc[inside] * c['esc'], (I * rig.thr)[inside], rtol=1e-9, what='current into the controller')
    p_esc = i_esc * V
    close(p_esc[inside] * c['esc'], (I * thr * V)[inside], rtol=1e-9, what='power into the controller')
    av = c['av'] + c['pay']
    for key in ('battery_energy',):
        b0.current_energy = c['soc'] * b0.max_energy * np.ones((rig.n, 1))
    prep(b0, s)
    if np.all(inside):
        battery_balance(q, b0, s, i_esc + av / net.voltage, p_esc + av, P, av, k)
    # residuals: the motors against the propellers
    net.residuals(s)
    close(s.state.residuals.network.propellers, np.hstack([p['Qm'] - p['Q'] for p in parts]), rtol=1e-9, atol=1e-9 * float(max(np.max(np.abs(p['Q'])) for p in parts)), what='torque residual')
    # the same aircraft described engine by engine
    if same:
        kk = min(k, 3)
        one, many = make(True, kk), make(False, kk, copies=True)
        s1, c1 = run(one)
        s2, c2 = run(many)
        s2.state.conditions.propulsion.propeller_power_coefficient = np.repeat(c1, kk, axis=1)
        r1, r2 = quiet(one.evaluate_thrust, s1.state), quiet(many.evaluate_thrust, s2.state)
        close(r2.thrust_force_vector, r1.thrust_force_vector, rtol=1e-9, atol=1e-9, what='thrust, engine by engine')
        for key in ('battery_current', 'battery_power_draw', 'battery_energy', 'electronics_efficiency'):
            close(s2.state.conditions.propulsion[key], s1.state.conditions.propulsion[key], rtol=1e-9, atol=1e-9, what='%s, engine by engine' % key)
        for key in ('propeller_torque', 'propeller_rpm', 'disc_loading', 'power_loading', 'propeller_tip_mach'):
            a, b = s1.state.conditions.propulsion[key], s2.state.conditions.propulsion[key]
            close(b, np.repeat(a, kk, axis=1), rtol=1e-9, what='%s, engine by engine' % key)
    elif k > 1:
        order = list(range(k))[::-1]
        other = make(False, k, order=order)
        s2, c2 = run(other, order)
        r2 = quiet(other.evaluate_thrust, s2.state)
        close(r2.thrust_force_vector, res.thrust_force_vector, rtol=1e-9, atol=1e-9 * float(np.max(np.abs(F))), what='thrust with the engines listed the other way')
        for key in ('battery_current', 'battery_power_draw', 'battery_energy', 'electronics_efficiency'):
            close(s2.state.conditions.propulsion[key], q.propulsion[key], rtol=1e-9, atol=1e-9, what='%s with the engines listed the other way' % key)
    ctx.hit('identical' if same else 'explicit %d' % k)
    if np.any(rig.thr > 1.):
        ctx.hit('throttle above one')


def prep(b, s):
    """Give the battery its own copy of the conditions at the start of the segment."""
    q = s.state.conditions
    b.pack_temperature = q.propulsion.battery_pack_temperature[0, 0] * np.ones_like(q.freestream.altitude)
    b.pack_temperature[:] = s0_temperature(q)
    b.cell_charge_throughput = np.zeros_like(q.freestream.altitude)
    b.age = 0
    b.R_growth_factor, b.E_growth_factor = 1., 1.
    b.ambient_temperature, b.ambient_pressure = q.freestream.temperature, q.freestream.pressure
    f = b.cooling_fluid
    f.thermal_conductivity, f.kinematic_viscosity, f.prandtl_number, f.density = q.freestream.thermal_conductivity, q.freestream.kinematic_viscosity, q.freestream.prandtl_number, q.freestream.density


def s0_temperature(q):
    return q.propulsion.battery_pack_temperature[0, 0]



# ------------------------------------------------------------------ lift + cruise
LIFT = dict(Q='lift_rotor_torque', rpm='lift_rotor_rpm', tip='lift_rotor_tip_mach', DL='lift_rotor_disc_loading', PL='lift_rotor_power_loading', Qm='lift_rotor_motor_torque', etam='lift_rotor_motor_efficiency', eta='lift_rotor_efficiency')
FORWARD = dict(PROP, DL='propeller_disc_loading', PL='propeller_power_loading')


def check_lift_cruise(c, ctx):
    rig = Rig(c)
    mode = c['mode']
    n = rig.n
    same, same2 = c['same'], c['same2']
    k1, k2 = (c['count'] if same else c['n_exp']), (c['count2'] if same2 else 1 + c['n_exp'] % 3)
    thr2 = np.array(c['thr2'][:n]).reshape(-1, 1)
    net = Ne.Lift_Cruise()
    net.tag = 'net'
    net.battery = battery_of(c)
    V = net.battery.max_voltage
    net.voltage = V
    peripherals(net, c, ['lift_rotor_esc', 'propeller_esc'])
    net.lift_rotor_esc.efficiency = .5 + .5 * c['esc']
    net.identical_propellers, net.identical_lift_rotors = same, same2
    net.number_of_propeller_engines, net.number_of_lift_rotor_engines = k1, k2
    for i in range(k1):
        m, r = rig.motor(0 if same else i, V), copy.deepcopy(rig.blades[0 if same else i].rotor)
        m.tag, r.tag = 'm%d' % i, 'r%d' % i
        r.design_power_coefficient = rig.Pc[0][1]
        net.propeller_motors.append(m)
        net.propellers.append(r)
    for i in range(k2):
        j = 2 if same2 else 2 - i
        m, r = rig.motor(j, V), copy.deepcopy(rig.blades[j].rotor)
        m.tag, r.tag = 'lm%d' % i, 'lr%d' % i
        r.design_power_coefficient = rig.Pc[2][1]
        r.orientation_euler_angles = [0., .3, 0.]
        net.lift_rotor_motors.append(m)
        net.lift_rotors.append(r)
    fresh = copy.deepcopy(net)
    s = rig.segment(net, 'add_%s_unknowns_and_residuals_to_segment' % mode)
    u = s.state.unknowns
    m1, m2 = (1 if same else k1), (1 if same2 else k2)
    cp1 = np.array([[rig.Pc[0 if same else j][1] * f for j in range(m1)] for f in c['cp'][:n]])
    cp2 = np.array([[rig.Pc[2 if same2 else 2 - j][1] * f for j in range(m2)] for f in c['cp'][::-1][:n]])
    if mode != 'lift':
        same_shape(u.propeller_power_coefficient, (n, m1), 'unknown power coefficients')
        u.propeller_power_coefficient = cp1
        u.throttle = rig.thr.copy()
    if mode != 'cruise':
        same_shape(u.lift_rotor_power_coefficient, (n, m2), 'unknown lift power coefficients')
        u.lift_rotor_power_coefficient = cp2
        u.throttle_lift = thr2.copy()

    def unpack(_=None):
        getattr(net, 'unpack_unknowns_' + mode)(s)

    unpack()
    q = s.state.conditions
    b0 = copy.deepcopy(net.battery)
    b0.current_energy = c['soc'] * b0.max_energy * np.ones((n, 1))

    res = settle(net.evaluate_thrust, s, unpack)
    idle = np.zeros((n, 1))
    t1 = idle if mode == 'lift' else rig.thr
    t2 = idle if mode == 'cruise' else thr2
    close(q.propulsion.throttle, t1, rtol=0., what='cruise throttle')
    close(q.propulsion.throttle_lift, t2, rtol=0., what='lift throttle')
    c1 = cp1 if mode != 'lift' else np.zeros((n, m1))
    c2 = cp2 if mode != 'cruise' else np.zeros((n, m2))
    volts = net.propeller_esc.inputs.voltagein
    close(volts, u.battery_voltage_under_load, rtol=0., what='supply voltage')
    p1 = by_hand(rig, s, list(fresh.propeller_motors.values())[:m1], list(fresh.propellers.values())[:m1], t1, volts, c1) if mode != 'lift' else None
    p2 = by_hand(rig, s, list(fresh.lift_rotor_motors.values())[:m2], list(fresh.lift_rotors.values())[:m2], t2, volts, c2) if mode != 'cruise' else None
    # what the idle half draws is not the matter here: only its share of the reported totals is taken out
    if p1 is not None:
        F1, P1, I1 = totals(p1, k1 if same else 1.)
        close(net.propeller_esc.outputs.currentin * c['esc'], I1 * t1, rtol=1e-9, what='current into the propeller controller') if np.all(t1 <= 1.) else None
        reported(q, p1, rig.air['a'], FORWARD, 1.)
    if p2 is not None:
        F2, P2, I2 = totals(p2, k2 if same2 else 1.)
        close(net.lift_rotor_esc.outputs.currentin * net.lift_rotor_esc.efficiency, I2 * t2, rtol=1e-9, what='current into the lift controller') if np.all(t2 <= 1.) else None
        reported(q, p2, rig.air['a'], LIFT, 1.)
    av = c['av'] + c['pay']
    I = net.lift_rotor_esc.outputs.currentin + net.propeller_esc.outputs.currentin + av / volts
    shaft_power = None
    if mode == 'transition':
        F = F1 + F2
        close(res.thrust_force_vector, F, rtol=1e-9, atol=1e-9 * float(np.max(np.abs(F1)) + np.max(np.abs(F2))), what='thrust against the rotors one by one')
        shaft_power = P1 + P2
    elif np.all(np.isfinite(res.thrust_force_vector)):
        # the idle rotors add no more than a windmill: their controllers pass no current
        half = net.lift_rotor_esc if mode == 'cruise' else net.propeller_esc
        close(half.outputs.currentin, idle, rtol=0., atol=1e-9, what='current of the idle controller')
    prep(b0, s)
    if np.all(np.isfinite(I)):
        battery_balance(q, b0, s, I, I * volts, shaft_power, av, n)
    getattr(net, 'residuals_' + mode)(s)
    R = s.state.residuals.network
    if p1 is not None:
        close(R.propellers, np.hstack([p['Qm'] - p['Q'] for p in p1]), rtol=1e-9, atol=1e-9 * float(max(np.max(np.abs(p['Q'])) for p in p1)), what='propeller torque residual')
    if p2 is not None:
        close(R.lift_rotors, np.hstack([p['Qm'] - p['Q'] for p in p2]), rtol=1e-9, atol=1e-9 * float(max(np.max(np.abs(p['Q'])) for p in p2)), what='lift rotor torque residual')
    require(('propellers' in R.keys()) == (mode != 'lift') and ('lift_rotors' in R.keys()) == (mode != 'cruise'), 'residuals of the %s mode: %s' % (mode, list(R.keys())))
    ctx.hit(mode)
    ctx.hit('identical' if same and same2 else 'explicit')


# ------------------------------------------------------------------ charging
def check_charging(c, ctx):
    rig = Rig(c)
    n = rig.n
    kind = Ne.Battery_Propeller if c['same'] else Ne.Lift_Cruise
    net = kind()
    net.tag = 'net'
    net.battery = battery_of(c)
    net.battery.cell.charging_current, net.battery.cell.charging_voltage = 1. + c['esc'], 4.1
    net.voltage = net.battery.max_voltage
    peripherals(net, c, ['esc'] if c['same'] else ['lift_rotor_esc', 'propeller_esc'])
    groups = [('propeller_motors', 'propellers', 'number_of_propeller_engines')] + ([] if c['same'] else [('lift_rotor_motors', 'lift_rotors', 'number_of_lift_rotor_engines')])
    for g, (a, b, k) in enumerate(groups):
        net[k] = 2
        for i in range(2):
            m, r = rig.motor(g, net.voltage), copy.deepcopy(rig.blades[g].rotor)
            m.tag, r.tag = '%d%d' % (g, i), 'r%d%d' % (g, i)
            r.design_power_coefficient = rig.Pc[g][1]
            net[a].append(m)
            net[b].append(r)

    def extra(s):
        s.battery_discharge = False

    s = rig.segment(net, 'add_unknowns_and_residuals_to_segment' if c['same'] else 'add_%s_unknowns_and_residuals_to_segment' % c['mode'], extra)
    q = s.state.conditions
    getattr(net, 'unpack_unknowns' if c['same'] else 'unpack_unknowns_' + c['mode'])(s)
    res = quiet(net.evaluate_thrust, s.state)
    close(res.thrust_force_vector, np.zeros((n, 3)), rtol=0., what='thrust while charging')
    close(res.vehicle_mass_rate, np.zeros((n, 1)), rtol=0., what='mass rate while charging')
    I = net.battery.cell.charging_current * net.battery.pack_config.parallel
    U = net.battery.cell.charging_voltage * net.battery.pack_config.series
    close(np.abs(q.propulsion.battery_current), np.full((n, 1), I), rtol=1e-12, what='charging current')
    close(np.abs(q.propulsion.battery_power_draw), np.full((n, 1), I * U), rtol=1e-12, what='charging power')
    E = q.propulsion.battery_energy
    if np.all(np.isfinite(E)):
        require(np.all(np.diff(E[:, 0]) >= -1e-9 * net.battery.max_energy), 'charging takes energy out of the battery')
        require(np.all(E <= net.battery.max_energy * (1. + 1e-9)), 'charged beyond the capacity')
    ctx.hit('%s' % kind.__name__)


# ------------------------------------------------------------------ solar
def check_solar(c, ctx):
    rig = Rig(c)
    n = rig.n
    same = c['same']
    k = c['count'] if same else c['n_exp']
    net = Ne.Solar()
    net.tag = 'net'
    net.battery = SUAVE.Components.Energy.Storages.Batteries.Constant_Mass.Lithium_Ion()
    b = net.battery
    b.mass_properties.mass = 20. + c['series']
    SUAVE.Methods.Power.Battery.Sizing.initialize_from_mass(b)
    b.pack_config.series, b.pack_config.parallel = 1, 1
    b.max_voltage = c['V']
    net.solar_flux = Pr.Solar_Radiation()
    net.solar_panel = Cv.Solar_Panel()
    net.solar_panel.area, net.solar_panel.efficiency, net.solar_panel.ratio = 2. * c['series'], .15 + .1 * c['esc'], .9
    net.solar_logic = Di.Solar_Logic()
    net.solar_logic.system_voltage, net.solar_logic.MPPT_efficiency = c['V'], .9 + .1 * c['soc']
    peripherals(net, c, ['esc'])
    net.identical_propellers = same
    net.number_of_engines = k
    for i in range(k):
        j = 0 if same else i
        m, r = rig.motor(j, c['V']), copy.deepcopy(rig.blades[j].rotor)
        m.tag, r.tag = 'm%d' % i, 'r%d' % i
        r.design_power_coefficient = rig.Pc[0][1]
        net.motors.append(m)
        net.propellers.append(r)
    fresh = copy.deepcopy(net)

    def extra(s):
        s.battery_energy = c['soc'] * b.max_energy

    s = rig.segment(net, 'add_unknowns_and_residuals_to_segment', extra)
    q = s.state.conditions
    f = q.frames
    f.planet.start_time = __import__('time').strptime('Thu, Jun %d 10:30:00 2021' % (1 + c['series'] % 28), '%a, %b %d %H:%M:%S %Y')
    f.planet.latitude, f.planet.longitude = np.full((n, 1), 20. + 40. * c['soc']), np.full((n, 1), 5.)
    m1 = 1 if same else k
    cps = np.array([[rig.Pc[0 if same else j][1] * g for j in range(m1)] for g in c['cp'][:n]])
    s.state.unknowns.propeller_power_coefficient = cps

    def unpack(_=None):
        net.unpack_unknowns(s)

    b0 = copy.deepcopy(b)
    res = settle(net.evaluate_thrust, s, unpack)
    parts = by_hand(rig, s, list(fresh.motors.values())[:m1], list(fresh.propellers.values())[:m1], rig.thr, c['V'], cps)
    F, P, I = totals(parts, k if same else 1.)
    close(res.thrust_force_vector, F, rtol=1e-9, atol=1e-9 * float(np.max(np.abs(F))), what='thrust against the propellers one by one')
    close(res.vehicle_mass_rate, np.zeros((n, 1)), rtol=0., what='mass rate')
    names = dict(PROP)
    reported(q, parts, rig.air['a'], names, 1.)
    av = c['av'] + c['pay']
    flux = q.propulsion.solar_flux
    sun = flux * net.solar_panel.area * net.solar_panel.efficiency * net.solar_logic.MPPT_efficiency
    thr = rig.thr
    if np.all(thr <= 1.):
        i_esc = I * thr / c['esc']
        close(q.propulsion.battery_power_draw, sun - av - c['V'] * i_esc, rtol=1e-9, atol=1e-9 * float(np.max(np.abs(c['V'] * i_esc))), what='solar, motor, avionics and payload power against the battery power')
    d = q.propulsion.battery_power_draw
    close(q.propulsion.electronics_efficiency * d, -P, rtol=1e-9, atol=1e-9 * float(np.max(np.abs(P))), what='electronics efficiency times battery power, against the shaft power')
    net.residuals(s)
    close(s.state.residuals.network, np.hstack([p['Qm'] - p['Q'] for p in parts]), rtol=1e-9, atol=1e-9 * float(max(np.max(np.abs(p['Q'])) for p in parts)), what='torque residual')
    ctx.hit('surplus' if np.all(d >= 0.) else 'deficit' if np.all(d < 0.) else 'both')
    ctx.hit('identical' if same else 'explicit %d' % k)


# ------------------------------------------------------------------ piston engines
def engine_of(rig, i):
    e = Cv.Internal_Combustion_Engine()
    e.tag = 'engine_%d' % i
    e.sea_level_power = 2.2 * rig.Pc[i][0]
    e.flat_rate_altitude = 500. * i
    e.power_specific_fuel_consumption = .5 + .05 * i
    return e


def check_piston(c, ctx):
    constant = c['same2']
    rig = Rig(c)
    n = rig.n
    same = c['same']
    k = c['count'] if same else c['n_exp']
    om = rig.blades[0].om0 * np.array(c['cp'][:n]).reshape(-1, 1) ** .3
    rig.y = np.zeros((n, 1))

    def make(same, k, copies=False):
        net = Internal_Combustion_Propeller_Constant_Speed() if constant else Ne.Internal_Combustion_Propeller()
        net.tag = 'net'
        net.identical_propellers = same
        net.number_of_engines = k
        net.engines, net.propellers = SUAVE.Core.Container(), SUAVE.Core.Container()
        for i in range(k):
            j = 0 if (same or copies) else i
            e, r = engine_of(rig, j), copy.deepcopy(rig.blades[j].rotor)
            e.tag, r.tag = 'e%d' % i, 'r%d' % i
            r.variable_pitch = constant
            net.engines.append(e)
            net.propellers.append(r)
        return net

    def run(net, rows=slice(None)):
        s = rig.segment(net, None if constant else 'add_unknowns_and_residuals_to_segment')
        q = s.state.conditions
        q.propulsion.throttle = (np.array(c['thr'][:n]).reshape(-1, 1) if not constant else .5 + .06 * (np.array(c['thr'][:n]).reshape(-1, 1) - .7))
        if constant:
            q.propulsion.rpm = om.copy()
            return s, lambda s: None
        s.state.unknowns.rpm = om * 30. / PI
        net.unpack_unknowns(s)
        return s, net.unpack_unknowns

    net = make(same, k)
    s, un = run(net)
    q = s.state.conditions
    thr = q.propulsion.throttle.copy()
    res = settle(net.evaluate_thrust, s, un)
    F = np.zeros((n, 3))
    P, md = np.zeros((n, 1)), np.zeros((n, 1))
    parts = []
    m1 = 1 if same else k
    fresh = make(same, k)
    for i in range(m1):
        e, r = list(fresh.engines.values())[i], list(fresh.propellers.values())[i]
        g = Data()
        g.freestream, g.frames = q.freestream, q.frames
        g.propulsion = Data()
        g.propulsion.throttle = thr.copy()
        g.propulsion.combustion_engine_throttle = thr.copy()
        r.inputs.omega = om.copy()
        if constant:
            r.inputs.pitch_command = thr - .5
        f, Q, p, Cp, o, eta = quiet(r.spin, g)
        boost = 1. if constant else np.maximum(thr, 1.)
        if constant:
            e.inputs.power = p.copy()
            e.calculate_throttle(g)
        else:
            e.inputs.speed = om.copy()
            e.power(g)
        mult = k if same else 1.
        F += f * boost * mult
        P += p * boost * mult
        md += e.outputs.fuel_flow_rate * mult
        parts.append(dict(F=f * boost, P=p * boost, Q=Q, Qm=None if constant else e.outputs.torque.copy(), om=om, R=r.tip_radius, eta=eta, thr=e.outputs.throttle if constant else None))
    close(res.thrust_force_vector, F, rtol=1e-9, atol=1e-9 * float(np.max(np.abs(F))), what='thrust against the propellers one by one')
    close(q.propulsion.power, P, rtol=1e-9, atol=1e-9 * float(np.max(np.abs(P))), what='power of the propellers together')
    same_shape(res.vehicle_mass_rate, (n, 1), 'mass rate')
    close(res.vehicle_mass_rate, md, rtol=1e-9, atol=1e-15, what='fuel flow of the engines together')
    close(q.propulsion.throttle, thr, rtol=0., what='throttle after the calculation')
    names = dict(Q='propeller_torque', tip='propeller_tip_mach', DL='disc_loading', PL='power_loading', eta='propeller_efficiency', rpm='propeller_rpm')
    if constant:
        q.propulsion.propeller_rpm = np.repeat(om * 30. / PI, m1, axis=1)
        close(q.propulsion.combustion_engine_throttle, np.hstack([p['thr'] for p in parts]), rtol=1e-9, what='throttle of each engine')
    else:
        names['Qm'] = 'engine_torque'
    reported(q, parts, rig.air['a'], names, 1.)
    if not constant:
        net.residuals(s)
        close(s.state.residuals.network, np.hstack([p['Qm'] - p['Q'] for p in parts]), rtol=1e-9, atol=1e-9 * float(max(np.max(np.abs(p['Q'])) for p in parts)), what='torque residual')
    if same:
        kk = min(k, 3)
        one, many = make(True, kk), make(False, kk, copies=True)
        r1, r2 = [quiet(x.evaluate_thrust, run(x)[0].state) for x in (one, many)]
        close(r2.thrust_force_vector, r1.thrust_force_vector, rtol=1e-9, atol=1e-9, what='thrust, engine by engine')
        close(r2.vehicle_mass_rate, r1.vehicle_mass_rate, rtol=1e-9, what='fuel flow, engine by engine')
    ctx.hit('constant speed' if constant else 'throttled')
    ctx.hit('identical' if same else 'explicit %d' % k)


# ------------------------------------------------------------------ ducted fans
class Fan(object):
    """A propulsor of known thrust and power."""

    def __init__(self, F, P):
        self.F, self.P = F, P

    def evaluate_thrust(self, state):
        r = Data()
        r.thrust_force_vector = np.hstack([self.F, 0. * self.F, 0. * self.F])
        r.power = self.P[:, 0].copy()
        r.vehicle_mass_rate = self.F * 0. + 9.
        r.network_y_axis_rotation = 0. * self.F
        return r


def check_ducted(c, ctx):
    hybrid = c['same']
    n = c['n']
    rig = Rig.__new__(Rig)
    rig.c, rig.n = c, n
    rig.h = (c['alt'] + c['dalt'] * np.linspace(0., 1., n)).reshape(-1, 1)
    rig.air = std(rig.h)
    rig.Vs = 100. * np.array(c['Vm'][:n]).reshape(-1, 1)
    rig.thr = np.minimum(np.array(c['thr'][:n]).reshape(-1, 1), 1.)
    net = (Ne.Serial_Hybrid_Ducted_Fan if hybrid else Ne.Battery_Ducted_Fan)()
    net.tag = 'net'
    b = net.battery = SUAVE.Components.Energy.Storages.Batteries.Constant_Mass.Lithium_Ion()
    b.mass_properties.mass = 20. + c['series']
    SUAVE.Methods.Power.Battery.Sizing.initialize_from_mass(b)
    b.pack_config.series, b.pack_config.parallel = 1, 1
    b.max_voltage = c['V']
    net.voltage = c['V']
    peripherals(net, c, ['esc'])
    net.motor_efficiency = .8 + .2 * c['soc']
    P = 200. * c['par'] * np.array(c['cp'][:n]).reshape(-1, 1)
    F = P / 90.
    net.propulsor = Fan(F, P)
    if hybrid:
        g = net.generator = Cv.Generator_Zero_Fid()
        g.sfc, g.max_power = 1e-7, 50. * c['par']
    s = rig.segment(net, None)
    q = s.state.conditions
    e = q.propulsion
    e.battery_energy = c['soc'] * b.max_energy * np.ones((n, 1))
    e.battery_pack_temperature = 300. * np.ones((n, 1))
    e.battery_cell_charge_throughput = np.zeros((n, 1))
    e.battery_cycle_day, e.battery_resistance_growth_factor, e.battery_capacity_fade_factor = 0, 1., 1.
    b0 = copy.deepcopy(b)
    res = settle(net.evaluate_thrust, s)
    close(res.thrust_force_vector[:, 0:1], F, rtol=1e-12, what='thrust of the fan')
    av = c['av'] + c['pay']
    gen = 50. * c['par'] if hybrid else 0.
    want = -(P / net.motor_efficiency / c['esc'] + av) + gen
    close(e.battery_power_draw, want, rtol=1e-9, atol=1e-6, what='battery power')
    same_shape(res.vehicle_mass_rate, (n, 1), 'mass rate')
    close(res.vehicle_mass_rate, 5e-6 * c['par'] + 0. * P if hybrid else 0. * P, rtol=1e-9, what='mass rate')
    close(b.inputs.current * c['V'], P / net.motor_efficiency / c['esc'] + av - gen, rtol=1e-9, atol=1e-6, what='battery current times voltage')
    b0.inputs.current, b0.inputs.power_in = b.inputs.current.copy(), want.copy()
    b0.current_energy = c['soc'] * b.max_energy * np.ones((n, 1))
    b0.pack_temperature = 300. * np.ones((n, 1))
    b0.cell_charge_throughput = np.zeros((n, 1))
    b0.R_growth_factor = b0.E_growth_factor = 1.
    quiet(b0.energy_calc, s.state.numerics)
    close(e.battery_energy, b0.current_energy, rtol=1e-9, atol=1e-9 * b.max_energy, what='battery energy')
    ctx.hit('hybrid' if hybrid else 'battery')


# ------------------------------------------------------------------ wakes of identical rotors
def check_wakes(c, ctx):
    from SUAVE.Analyses.Propulsion import Rotor_Wake_Fidelity_One
    lift = c['same']
    c = dict(c, n=2, rotors=[dict(r, Nr=7, tilt=0.) for r in c['rotors']])
    rig = Rig(c)
    rig.thr = np.minimum(rig.thr, 1.)
    net = (Ne.Lift_Cruise if lift else Ne.Battery_Propeller)()
    net.tag = 'net'
    net.battery = battery_of(c)
    V = net.voltage = net.battery.max_voltage
    peripherals(net, c, ['lift_rotor_esc', 'propeller_esc'] if lift else ['esc'])
    groups = [('propeller_motors', 'propellers', 'number_of_propeller_engines')] + ([('lift_rotor_motors', 'lift_rotors', 'number_of_lift_rotor_engines')] if lift else [])
    for g, (a, b, k) in enumerate(groups):
        net[k] = 2 + g
        for i in range(2 + g):
            m, r = rig.motor(g, V), copy.deepcopy(rig.blades[g].rotor)
            m.tag, r.tag = '%d%d' % (g, i), 'r%d%d' % (g, i)
            r.design_power_coefficient = rig.Pc[g][1]
            r.origin = [[1. * g, c['thr'][i] * (i + 1.) * (g + 1.), .1 * i]]
            r.number_azimuthal_stations = 6
            section = SUAVE.Components.Airfoils.Airfoil()
            section.geometry = Data(x_upper_surface=np.array([0., 1.]), y_upper_surface=np.zeros(2), x_lower_surface=np.array([0., 1.]), y_lower_surface=np.zeros(2))
            r.Airfoils.append(section)
            r.Wake = Rotor_Wake_Fidelity_One()
            r.Wake.wake_settings.number_rotor_rotations, r.Wake.wake_settings.number_steps_per_rotation = 1, 6
            net[a].append(m)
            net[b].append(r)
    s = rig.segment(net, 'add_transition_unknowns_and_residuals_to_segment' if lift else 'add_unknowns_and_residuals_to_segment')
    u = s.state.unknowns
    u.throttle = rig.thr.copy()
    u.propeller_power_coefficient = np.full((2, 1), rig.Pc[0][1])
    if lift:
        u.throttle_lift = np.minimum(np.array(c['thr2'][:2]).reshape(-1, 1), 1.)
        u.lift_rotor_power_coefficient = np.full((2, 1), rig.Pc[1][1])
        net.unpack_unknowns_transition(s)
    else:
        net.unpack_unknowns(s)
        s.state.conditions.propulsion.throttle = rig.thr.copy()
    quiet(net.evaluate_thrust, s.state)
    for a, b, k in groups:
        rs = list(net[b].values())
        first = rs[0].Wake.vortex_distribution
        keys = [k for k in first.reshaped_wake.keys() if k[0] in 'XYZ' and np.size(first.reshaped_wake[k])]
        require(len(keys) >= 6, 'wake has no vortices')
        for r in rs[1:]:
            d = np.array(r.origin[0]) - np.array(rs[0].origin[0])
            for key in keys:
                close(r.Wake.vortex_distribution.reshaped_wake[key] - first.reshaped_wake[key], np.full(np.shape(first.reshaped_wake[key]), d['XYZ'.index(key[0])]), rtol=0., atol=1e-9,
                      what='%s of the wake of %s, relative to the first rotor' % (key, b))
    ctx.hit('lift rotors' if lift else 'propellers')


PROPERTY = Property('C22', [Sub('battery-propeller', net_case(), check_battery_propeller, quick=150, thorough=1200, rule='every case: three different rotors and motors, 2-6 control points'),
                            Sub('lift-cruise', net_case(), check_lift_cruise, quick=150, thorough=1200, rule='every case'),
                            Sub('charging', net_case(), check_charging, quick=60, thorough=400, rule='every case'),
                            Sub('solar', net_case(), check_solar, quick=120, thorough=900, rule='every case'),
                            Sub('piston', net_case(), check_piston, quick=150, thorough=1200, rule='every case'),
                            Sub('wakes', net_case(), check_wakes, quick=16, thorough=300, rule='every case'),
                            Sub('ducted', net_case(), check_ducted, quick=150, thorough=1500, rule='every case')],
                    rule='the network ran and every total, balance and reported column was compared with the same rotors, motors and battery turned by hand',
                    assumptions=['rotors whose solver reports no convergence (stall) are discarded', 'built-in section data, wake model Fidelity_Zero except in the wakes sub-check', 'LiFePO4 packs in the battery networks'])

"""C20: motors, speed controllers, gearboxes, generators, piston engines, fuel cells and solar cells."""
import contextlib
import io
import math
import time

import numpy as np
from hypothesis import strategies as st
from scipy.optimize import brentq

from SUAVE.Core import Data, Units
from SUAVE.Components.Energy import Converters as Cv, Distributors as Di, Peripherals as Pe
from SUAVE.Components.Energy.Processes import Solar_Radiation
from SUAVE.Methods.Propulsion.electric_motor_sizing import size_from_kv, size_from_mass, size_optimal_motor
from SUAVE.Methods.Power.Fuel_Cell.Discharge import larminie, setup_larminie, zero_fidelity
from SUAVE.Methods.Power.Fuel_Cell.Discharge.find_voltage_larminie import find_voltage_larminie
from SUAVE.Methods.Power.Fuel_Cell.Sizing import initialize_from_power, initialize_larminie_from_power
from SUAVE.Methods.Utilities.Chebyshev.chebyshev_data import chebyshev_data
from lib.refatm import std
from lib.prop import Property, Sub, require, fail, close, same_shape, finite, monotone, Discard
from lib.strat import rng, inner, logrng, vec, record

PI = math.pi
RPM = 2. * PI / 60.


def col(v):
    return np.array(v, float).reshape(-1, 1)


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def air(n, rho=1.2, V=50.):
    c = Data()
    c.freestream = Data()
    c.freestream.velocity = np.full((n, 1), V)
    c.freestream.density = np.full((n, 1), rho)
    c.freestream.speed_of_sound = np.full((n, 1), 340.)
    c.freestream.dynamic_viscosity = np.full((n, 1), 1.8e-5)
    c.freestream.temperature = np.full((n, 1), 288.)
    c.propulsion = Data()
    return c


# ------------------------------------------------------------------ motor
motors = record(kv=logrng(.2, 30.), res=logrng(.002, .5), io=rng(.0, 8.), G=st.sampled_from([1., 1., 2., 5.5, 12.]), etaG=rng(.8, 1.),
                exp_i=rng(0., 60.), pts=st.lists(st.tuples(rng(5., 800.), rng(0., 1.2), logrng(.005, .6)), min_size=1, max_size=5), rho=rng(.2, 1.3), R=logrng(.1, 3.))


def motor_of(c, lo=False):
    m = Cv.Motor_Lo_Fid() if lo else Cv.Motor()
    m.speed_constant, m.resistance, m.no_load_current = c['kv'], c['res'], c['io']
    m.gear_ratio, m.gearbox_efficiency, m.expected_current = c['G'], c['etaG'], c['exp_i']
    if not lo:
        m.propeller_radius = c['R']
    return m


def check_motor(c, ctx):
    n = len(c['pts'])
    io = c['io'] + c['exp_i'] * (1. - c['etaG'])
    kv = c['kv'] / c['G']
    v = col([p[0] for p in c['pts']])
    w = v * kv * col([p[1] for p in c['pts']])
    cond = air(n, c['rho'])
    # torque at a speed and a voltage
    m = motor_of(c)
    m.inputs.voltage, m.inputs.omega = v.copy(), w.copy()
    Q = m.torque(cond)
    i = (v - w / kv) / c['res']
    close(Q, (i - io) / kv, rtol=1e-9, atol=1e-9 * float(np.max(v)) / c['res'] / kv, what='shaft torque')
    close(m.outputs.torque, Q, rtol=0., what='torque output')
    close(m.outputs.omega, w, rtol=0., what='speed output')
    close(m.inputs.voltage, v, rtol=0., what='voltage after the torque calculation')
    # the way back: voltage and current from torque and speed
    b = motor_of(c)
    b.inputs.torque, b.inputs.omega = Q.copy(), w.copy()
    b.voltage_current(cond)
    close(b.outputs.voltage, v, rtol=1e-8, atol=1e-9 * float(np.max(v)), what='voltage recovered from torque and speed')
    close(b.outputs.current, i, rtol=1e-7, atol=1e-8 * float(np.max(v)) / c['res'], what='current recovered from torque and speed')
    ok = i[:, 0] > 1.01 * max(io, 1e-9)
    with np.errstate(all='ignore'):
        eta = Q * w / (v * i)
    if np.any(ok):
        close(np.broadcast_to(cond.propulsion.etam, v.shape)[ok], eta[ok], rtol=1e-6, atol=1e-6, what='efficiency: shaft power over electric power')
    # current at a given propeller speed
    d = motor_of(c)
    d.inputs.voltage, d.outputs.omega = v.copy(), w.copy()
    i2, eta2 = d.current(cond)
    close(i2, np.maximum(i, 0.), rtol=1e-9, atol=1e-9 * float(np.max(v)) / c['res'], what='motor current')
    close(d.outputs.current, i2, rtol=0., what='current output')
    if np.any(ok):
        close(np.reshape(eta2, (-1, 1))[ok], eta[ok], rtol=1e-6, atol=1e-6, what='motor efficiency')
        require(np.all(eta2[ok] <= 1. + 1e-9), 'motor efficiency above one')
        # electric power = shaft + copper + no-load
        close((v * i)[ok], (Q * w + i * i * c['res'] + io * w / kv)[ok], rtol=1e-7, what='motor power balance')
    # equilibrium with a propeller
    e = motor_of(c)
    cp = col([p[2] for p in c['pts']])
    e.inputs.voltage, e.inputs.propeller_CP = v.copy(), cp.copy()
    om = e.omega(cond)
    same_shape(om, (n, 1), 'propeller speed')
    for k in range(n):
        load = 4. * cp[k, 0] * c['rho'] * c['R'] ** 5 / PI ** 3            # Q = load * omega^2

        def gap(x):
            return ((v[k, 0] - x / kv) / c['res'] - io) / kv - load * x * x
        if gap(0.) <= 0.:
            ctx.label('stalled')
            continue
        want = brentq(gap, 0., v[k, 0] * kv, xtol=1e-13 * v[k, 0] * kv, rtol=1e-13)
        x = 16. * cp[k, 0] * c['rho'] * (v[k, 0] - io * c['res']) * kv ** 3 * c['R'] ** 5 * c['res']      # against pi^3: cancellation
        if x < 1e-7:
            ctx.label('unloaded')
            continue
        close(om[k, 0], want, rtol=1e-6 + 1e-12 / x, atol=1e-9 * v[k, 0] * kv, what='propeller speed balancing motor and propeller torque')
        close(e.outputs.torque[k, 0], load * want ** 2, rtol=1e-3, atol=1e-4 * (v[k, 0] / c['res']) / kv, what='torque at equilibrium')
        close(e.outputs.omega[k, 0], om[k, 0], rtol=0., what='speed output')
        ctx.hit('equilibrium')
    ctx.label('gear:%g' % c['G'])


def check_lofi(c, ctx):
    n = len(c['pts'])
    m = motor_of(c, True)
    io = c['io'] + c['exp_i'] * (1. - c['etaG'])
    kv = c['kv'] / c['G']
    v = col([p[0] for p in c['pts']])
    m.motor_efficiency = c['eta']
    m.rated_power, m.rated_voltage = c['prated'], c['vrated']
    cond = air(n)
    m.inputs.voltage = v.copy()
    w = m.omega(cond)
    i = (v - w / kv) / c['res']
    q = m.outputs.torque
    close(q, (i - io) / kv, rtol=1e-6, atol=1e-8 * float(np.max(v)) / c['res'] / kv, what='torque of the simple motor')
    cur = m.current(cond)
    close(cur, np.maximum(i, 0.), rtol=1e-6, atol=1e-8 * float(np.max(v)) / c['res'], what='current of the simple motor')
    for k in range(n):
        vk = v[k, 0]
        # (1 - io/i)(1 - iR/v) = eta has a real solution?
        disc = (c['res'] * io + vk * (1. - c['eta'])) ** 2 - 4. * c['res'] * vk * io
        if disc > 1e-6 * vk * vk and i[k, 0] > 0.:
            eta = q[k, 0] * w[k, 0] / (vk * i[k, 0])
            if i[k, 0] > 1e-5 * vk / c['res']:
                close(eta, c['eta'], rtol=1e-4, atol=1e-6, what='efficiency the simple motor runs at')
                ctx.hit('solved')
    p, i = m.power_lo(cond)
    close(p, c['prated'] * c['eta'] * v / c['vrated'], rtol=1e-12, what='power of the rated motor')
    close(i * v * c['eta'], p, rtol=1e-9, what='electric power of the rated motor')
    close(m.outputs.power, p, rtol=0., what='power output')
    # and its propeller
    pr = Cv.Propeller_Lo_Fid()
    pr.tip_radius, pr.propulsive_efficiency = c['R'], .8
    pr.inputs.omega, pr.inputs.torque = np.abs(w) + 1., np.abs(q)
    cond = air(n, c['rho'], 30.)
    F, Qp, P, Cp = pr.spin(cond)
    close(P, np.abs(q) * (np.abs(w) + 1.), rtol=1e-9, what='simple propeller power')
    close(F * 30., .8 * P, rtol=1e-9, what='simple propeller thrust power')
    close(Cp * c['rho'] * ((np.abs(w) + 1.) / 2. / PI) ** 3 * (2. * c['R']) ** 5, P, rtol=1e-9, what='simple propeller power coefficient')


def check_msize(c, ctx):
    a = Cv.Motor()
    a.speed_constant = c['kv']
    size_from_kv(a)
    rpmv = c['kv'] / RPM                        # rpm per volt
    close(a.mass_properties.mass, 50. / rpmv, rtol=1e-9, what='motor mass from its speed constant')
    close(a.resistance, 60000. / rpmv ** 2, rtol=1e-9, what='motor resistance from its speed constant')
    close(a.no_load_current, .2 / a.resistance ** .6, rtol=1e-9, what='no-load current')
    b = Cv.Motor()
    b.mass_properties.mass = a.mass_properties.mass
    size_from_mass(b)
    close([b.speed_constant, b.resistance, b.no_load_current], [c['kv'], a.resistance, a.no_load_current], rtol=1e-9, what='motor recovered from its mass')
    ctx.hit('sized')


def check_optimal(c, ctx):
    """A motor designed for a propeller delivers its torque at its speed, through the gearbox, at the wanted efficiency."""
    pr = Cv.Propeller()
    pr.tip_radius = 1.
    pr.origin = [[1., 2., 3.]]
    pr.angular_velocity = c['om']
    pr.design_torque = c['P'] / c['om']
    m = Cv.Motor()
    m.gear_ratio, m.efficiency, m.no_load_current, m.nominal_voltage = c['G'], c['eta'], c['iofrac'] * c['P'] / c['V'], c['V']
    text = io.StringIO()
    try:
        with contextlib.redirect_stdout(text):
            size_optimal_motor(m, pr)
    except Exception as e:
        if 'failed' in text.getvalue():
            raise Discard('no optimum')
        raise
    if 'failed' in text.getvalue():
        raise Discard('no optimum')
    require(m.origin == pr.origin and m.propeller_radius == 1., 'motor does not sit with its propeller')
    m.inputs.voltage, m.inputs.omega = col([c['V']]), col([c['om']])
    cond = air(1)
    Q = m.torque(cond)
    close(Q, c['P'] / c['om'], rtol=2e-3, atol=1e-3, what='torque of the designed motor at the propeller speed')
    i, eta = m.current(cond)
    close(eta, c['eta'], rtol=2e-3, what='efficiency of the designed motor')
    close(float(c['V'] * i), c['P'] / c['eta'], rtol=5e-3, what='electric power of the designed motor')
    ctx.hit('gear:%g' % c['G'])


# ------------------------------------------------------------------ ESC, gearbox, peripherals, generator
def check_esc(c, ctx):
    e = Di.Electronic_Speed_Controller()
    e.efficiency = c['eff']
    t = col([p[0] for p in c['pts']])
    v = col([p[1] for p in c['pts']])
    i = col([p[2] for p in c['pts']])
    cond = Data()
    cond.propulsion = Data()
    cond.propulsion.throttle = t.copy()
    e.inputs.voltagein = v.copy()
    out = e.voltageout(cond)
    close(out, np.clip(t, 0., 1.) * v, rtol=1e-12, what='controller output voltage')
    close(e.outputs.voltageout, out, rtol=0., what='voltage output')
    e.inputs.currentout = i.copy()
    cin = e.currentin(cond)
    inside = (t >= 0.) & (t <= 1.)
    close(cin[inside], (i * t / c['eff'])[inside], rtol=1e-12, what='controller input current')
    close((e.outputs.power_in * c['eff'])[inside], (out * i)[inside], rtol=1e-9, what='controller power balance')
    close(cond.propulsion.throttle, t, rtol=0., what='throttle after the controller')
    close(e.inputs.voltagein, v, rtol=0., what='input voltage after the controller')
    g = Cv.Gearbox()
    g.gearwheel_radius1, g.gearwheel_radius2, g.efficiency = c['r1'], c['r2'], c['eff']
    w, q = v, i
    g.inputs.speed, g.inputs.torque, g.inputs.power = w, q, w * q
    g.compute()
    close(g.outputs.speed * c['r2'], w * c['r1'], rtol=1e-12, what='rim speed of the gears')
    close(g.outputs.power, c['eff'] * w * q, rtol=1e-12, what='gearbox power')
    close(g.outputs.torque * g.outputs.speed, g.outputs.power, rtol=1e-9, what='gearbox: torque times speed against power out')
    a = Cv.Generator_Zero_Fid()
    a.sfc, a.max_power = 1e-7, c['r1'] * 1e5
    a.calculate_power(cond)
    close(a.outputs.power_generated, np.full_like(t, c['r1'] * 1e5), rtol=1e-12, what='generator power')
    close(a.outputs.vehicle_mass_rate, np.full_like(t, c['r1'] * 1e-2), rtol=1e-9, what='generator fuel flow')
    for k in (Pe.Avionics(), Pe.Payload()):
        k.power_draw = c['r2']
        close([k.power(), k.outputs.power], [c['r2']] * 2, rtol=0., what='peripheral power')
    ctx.hit('r1!=r2' if c['r1'] != c['r2'] else 'r1==r2')


# ------------------------------------------------------------------ piston engine
def check_ice(c, ctx):
    h = col([p[0] for p in c['pts']])
    thr = col([p[1] for p in c['pts']])
    n = len(h)
    e = Cv.Internal_Combustion_Engine()
    e.sea_level_power, e.flat_rate_altitude, e.power_specific_fuel_consumption = c['P'], c['flat'], c['sfc']
    sp = col([c['speed']] * n)
    e.inputs.speed = sp
    cond = Data()
    cond.freestream = Data()
    cond.freestream.altitude = h.copy()
    cond.freestream.delta_ISA = c['dT']
    cond.propulsion = Data()
    cond.propulsion.combustion_engine_throttle = thr.copy()
    e.power(cond)
    o = e.outputs
    sig = std(np.maximum(h - c['flat'], 0.), c['dT'])['rho'] / 1.225
    avail = np.where(h < c['flat'], c['P'], c['P'] * (sig - .117) / .883)
    want = np.maximum(avail * thr, 0.)
    same_shape(o.power, (n, 1), 'power')
    close(o.power, want, rtol=1e-4, atol=1e-4 * c['P'], what='engine power')
    close(o.torque * sp, o.power, rtol=1e-9, what='torque times speed')
    close(o.fuel_flow_rate, o.power * c['sfc'] * .45359237 / 745.699872 / 3600., rtol=1e-4, what='fuel flow')
    require(np.all(o.fuel_flow_rate >= 0.), 'negative fuel flow')
    close(cond.freestream.altitude, h, rtol=0., what='altitude after the engine calculation')
    close(cond.propulsion.combustion_engine_throttle, thr, rtol=0., what='throttle after the engine calculation')
    # throttle for that power
    b = Cv.Internal_Combustion_Engine()
    b.sea_level_power, b.flat_rate_altitude, b.power_specific_fuel_consumption = c['P'], c['flat'], c['sfc']
    p = np.array(o.power)
    b.inputs.power = p.copy()
    ff = np.array(o.fuel_flow_rate)
    b.calculate_throttle(cond)
    ok = avail > .05 * c['P']
    close(b.outputs.throttle[ok], thr[ok], rtol=1e-6, atol=1e-9, what='throttle recovered from the power')
    close(b.outputs.fuel_flow_rate, ff, rtol=1e-9, what='fuel flow for that power')
    close(b.inputs.power, p, rtol=0., what='power demand after the calculation')
    # at one throttle, higher is never stronger
    f = Cv.Internal_Combustion_Engine()
    f.sea_level_power, f.flat_rate_altitude = c['P'], c['flat']
    hs = col(np.linspace(0., 12000., 9))
    cond.freestream.altitude = hs
    cond.propulsion.combustion_engine_throttle = np.ones_like(hs)
    f.inputs.speed = np.ones_like(hs)
    f.power(cond)
    if c['dT'] >= 0.:
        require(np.all(np.diff(f.outputs.power[:, 0]) <= 1e-9 * c['P']), 'piston engine gains power with altitude')
    ctx.hit('flat' if np.any(h < c['flat']) else 'lapse')


# ------------------------------------------------------------------ fuel cell
def cell_volts(i):                              # mA/cm2
    return .931 - .000245 * i - .03 * math.log(i) - .000105 * math.exp(.008 * i)


def check_cell(c, ctx):
    f = Cv.Fuel_Cell()
    h2 = f.propellant.specific_energy
    P = np.array(c['P'], float)
    f.inputs.power_in = P
    z = f.energy_calc(None, None)
    close(z, P / (h2 * .65), rtol=1e-9, what='hydrogen flow of the simple fuel cell')
    initialize_from_power(f, max(c['P']))
    close(f.mass_properties.mass * 2080., max(c['P']), rtol=1e-9, what='fuel cell mass')
    g = Cv.Fuel_Cell()
    setup_larminie(g)
    for i in (1., c['i'], 900.):
        close(find_voltage_larminie(g, i * 10.), cell_volts(i), rtol=1e-9, what='cell voltage')     # A/m2
    rated = c['rated']
    initialize_larminie_from_power(g, rated)
    grid = np.arange(400., 1000., .05)
    pw = np.array([cell_volts(i) for i in grid]) * grid * .875
    pmax = float(np.max(pw))
    ipk = float(grid[int(np.argmax(pw))])
    n = math.ceil(rated / pmax - 1e-6)
    if abs(rated / pmax - round(rated / pmax)) > 1e-4:
        close(g.number_of_cells, n, rtol=0., what='cells in the stack')
    close(g.max_power, g.number_of_cells * pmax, rtol=1e-4, what='maximum power of the stack')
    require(g.max_power >= rated * (1. - 1e-6), 'the stack is weaker than its requirement')
    vol = g.number_of_cells * .0875 * .0022224
    close(g.volume, vol, rtol=1e-9, what='stack volume')
    close(g.mass_properties.mass, vol * 1988. * .6, rtol=1e-9, what='stack mass')
    close(g.specific_power * g.mass_properties.mass, g.max_power, rtol=1e-9, what='stack specific power')
    want = []
    load = np.array([x * rated for x in c['load']])
    g.inputs.power_in = load
    got = quiet(g.energy_calc, None, None)
    for x in load:
        each = x / float(g.number_of_cells)
        i = brentq(lambda j: cell_volts(j) * j * .875 - each, 1e-3, ipk) if each < pmax * (1. - 1e-9) else ipk
        want.append(x / (h2 * cell_volts(i) / 1.48))
    ok = load < .97 * float(g.max_power)
    if np.any(ok):
        close(got[ok], np.array(want)[ok], rtol=2e-3, what='hydrogen flow of the polarisation curve model')
        ctx.hit('cells:%s' % ('1' if n == 1 else 'many'))


# ------------------------------------------------------------------ sunlight
def sun(n, lat, lon, alt, t0, t, phi=0., theta=0., psi=0.):
    c = Data()
    c.frames = Data()
    for k in ('body', 'planet', 'inertial'):
        c.frames[k] = Data()
    c.freestream = Data()
    c.frames.body.inertial_rotations = np.tile([phi, theta, psi], (n, 1)).astype(float)
    c.frames.planet.start_time = time.strptime(t0, '%Y-%m-%d %H:%M:%S')
    c.frames.planet.latitude = np.full((n, 1), float(lat))
    c.frames.planet.longitude = np.full((n, 1), float(lon))
    c.freestream.altitude = np.full((n, 1), float(alt))
    c.frames.inertial.time = col(t)
    return c


def zenith(lat, lon, day, sec):
    B = 2. * PI * (day - 81.) / 365.
    eot = 9.87 * math.sin(2. * B) - 7.53 * math.cos(B) - 1.5 * math.sin(B)
    ha = math.radians(15. * (sec / 3600. + (4. * lon + eot) / 60. - 12.))
    d = -math.radians(23.44) * math.cos(2. * PI / 365. * (day + 10.))
    p = math.radians(lat)
    cz = math.sin(d) * math.sin(p) + math.cos(d) * math.cos(p) * math.cos(ha)
    return cz, d, ha, p


def check_sun(c, ctx):
    rad = Solar_Radiation()
    day = c['day']
    y = time.strptime('2015-%03d' % day, '%Y-%j')
    h, mi, s = c['clock']
    t0 = '2015-%02d-%02d %02d:%02d:%02d' % (y.tm_mon, y.tm_mday, h, mi, s)
    t = c['t']
    n = len(t)
    cond = sun(n, c['lat'], c['lon'], c['alt'], t0, t)
    keep = cond.freestream.altitude.copy()
    f = rad.solar_radiation(cond)
    same_shape(f, (n, 1), 'flux')
    close(rad.outputs.flux, f, rtol=0., what='flux output')
    require(np.all(f >= 0.) and np.all(f <= 1367. * (1. + 1e-9)), 'flux outside 0..solar constant: %s', f[:, 0].tolist())
    close(cond.freestream.altitude, keep, rtol=0., what='altitude after the calculation')
    for k in range(n):
        cz, d, ha, p = zenith(c['lat'], c['lon'], day + math.floor(t[k] / 86400.), h * 3600. + mi * 60. + s + t[k] % 86400.)
        if cz <= 0.:
            close(f[k, 0], 0., atol=1e-6, what='flux on a level panel with the sun below the horizon')
            ctx.label('night')
        elif c['alt'] > 9000.:
            close(f[k, 0], 1367. * cz, rtol=1e-7, atol=1e-6, what='flux above the atmosphere')
            ctx.hit('space')
        elif cz > .35:                            # a high sun: the curvature of the air layer hardly matters
            x = (1. - c['alt'] / 9000.) / cz
            close(f[k, 0], 1367. * .7 ** (x ** .678) * cz, rtol=4e-3, atol=1e-6, what='flux on a level panel through the air')
            ctx.hit('day')
        else:
            require(f[k, 0] <= 1367. * .7 ** ((1. - c['alt'] / 9000.) ** .678) * cz * (1. + 1e-9) + 1e-6, 'low sun through less air than a vertical one')
            ctx.label('low sun')
    # higher up there is less air
    hi = rad.solar_radiation(sun(n, c['lat'], c['lon'], c['alt'] + 700., t0, t))
    require(np.all(hi >= f - 1e-9), 'flux falls with altitude')
    # an hour later, fifteen degrees further west: the same sun
    if max(t) % 86400. < 82000.:
        w = rad.solar_radiation(sun(n, c['lat'], c['lon'] - 15., c['alt'], t0, [x + 3600. for x in t]))
        if all(math.floor(x / 86400.) == math.floor((x + 3600.) / 86400.) for x in t):
            close(w, f, rtol=1e-7, atol=1e-6, what='flux an hour later and fifteen degrees further west')
    # turning a level panel about the vertical changes nothing
    r = rad.solar_radiation(sun(n, c['lat'], c['lon'], c['alt'], t0, t, psi=c['psi']))
    close(r, f, rtol=1e-7, atol=1e-6, what='flux on a level panel after a turn')


def check_solar(c, ctx):
    p = Cv.Solar_Panel()
    p.area, p.efficiency = c['area'], c['eff']
    x, D, I = chebyshev_data(c['N'])
    flux = 600. + 300. * x.reshape(-1, 1) * c['eff']
    p.inputs.flux = flux
    w = p.power()
    close(w, flux * c['area'] * c['eff'], rtol=1e-12, what='panel power')
    close(p.outputs.power, w, rtol=0., what='panel power output')
    s = Di.Solar_Logic()
    s.MPPT_efficiency, s.system_voltage = c['mppt'], c['V']
    s.inputs.powerin, s.inputs.pavionics, s.inputs.ppayload = w, c['av'], c['pay']
    esc = c['amp'] * (1. + x.reshape(-1, 1))
    s.inputs.currentesc = esc
    num = Data()
    num.time = Data()
    num.time.integrate = I * c['T']
    s.logic(None, num)
    net = w * c['mppt'] - c['av'] - c['pay'] - c['V'] * esc
    close(s.outputs.power_in, net, rtol=1e-9, atol=1e-9 * float(np.max(w)), what='power left for the battery')
    close(s.outputs.current * c['V'], net, rtol=1e-9, atol=1e-9 * float(np.max(w)), what='current left for the battery')
    close(s.outputs.energy_transfer, (I * c['T']).dot(net), rtol=1e-9, atol=1e-9 * float(np.max(w)) * c['T'], what='energy transferred')
    close(s.voltage(), c['V'], rtol=0., what='system voltage')
    ctx.hit('surplus' if np.all(net > 0) else 'deficit')


# ------------------------------------------------------------------ findings
def probe_air_mass():
    """Looking at the horizon from sea level through a 9 km layer on a 6371 km earth: 38 air masses, not 1190."""
    f = Solar_Radiation().solar_radiation(sun(1, 0., 0., 0., '2014-03-20 06:20:00', [0.]))
    cz, d, ha, p = zenith(0., 0., 79, 6 * 3600. + 20 * 60.)
    r = 6371. / 9.
    am = math.sqrt((r * cz) ** 2 + 2. * r + 1.) - r * cz
    return abs(float(f[0, 0]) / (1367. * .7 ** (am ** .678) * cz) - 1.) > .01


def probe_tilt():
    """A panel banked 30 degrees towards the afternoon sun over the equator (flying north, sun in the west)."""
    lat, lon, hour = 0., 0., 15
    cz, d, ha, p = zenith(lat, lon, 79, hour * 3600.)
    s = np.array([math.cos(p) * math.sin(d) - math.sin(p) * math.cos(d) * math.cos(ha), -math.cos(d) * math.sin(ha), cz])     # north, east, up
    b = math.radians(30.)
    best = []
    for phi in (b, -b):
        n = np.array([0., math.sin(phi), math.cos(phi)])          # right wing down: the panel leans east
        best.append(max(0., 1367. * float(n.dot(s))))
    got = [float(Solar_Radiation().solar_radiation(sun(1, lat, lon, 2e4, '2014-03-20 15:00:00', [0.], phi=phi))[0, 0]) for phi in (b, -b)]
    return max(abs(g - w) for g, w in zip(got, best)) > 20.


PROPERTY = Property('C20', [
    Sub('motor', motors, check_motor, quick=500, rule='a motor, gearbox and propeller with a load the motor can start'),
    Sub('simple-motor', st.builds(lambda a, b: dict(a, **b), motors, record(eta=rng(.6, .98), prated=logrng(10., 1e6), vrated=logrng(5., 900.))), check_lofi,
        quick=250, rule='the prescribed efficiency can be reached'),
    Sub('motor-sizing', record(kv=logrng(.05, 300.)), check_msize, quick=150, rule='a speed constant'),
    Sub('motor-design', record(om=logrng(40., 600.), P=logrng(2e3, 3e5), V=rng(200., 900.), G=st.sampled_from([1., 1., 2., 4., .5]), eta=rng(.85, .96), iofrac=rng(.004, .02)),
        check_optimal, quick=120, rule='a propeller torque and speed, a voltage and an efficiency for which the optimiser reports success'),
    Sub('controller', record(eff=inner(.5, 1.), r1=logrng(.02, 2.), r2=logrng(.02, 2.), pts=st.lists(st.tuples(rng(-.1, 1.3, edges=(0., 1.)), rng(1., 900.), rng(0., 600.)), min_size=1, max_size=5)),
        check_esc, quick=250, rule='a throttle history, voltages and currents, gear wheels'),
    Sub('piston', record(P=logrng(2e4, 2e6), flat=st.sampled_from([0., 0., 500., 2000., 5000.]), sfc=rng(.25, .6), speed=rng(80., 400.), dT=st.sampled_from([0., 0., 15., -20., 30.]),
                         pts=st.lists(st.tuples(rng(0., 11000.), rng(.05, 1.)), min_size=1, max_size=5)), check_ice, quick=250, rule='altitudes and throttles of a flat rated engine'),
    Sub('fuel-cell', record(P=st.lists(logrng(1., 1e6), min_size=1, max_size=4), i=rng(5., 700.), rated=logrng(20., 3e5), load=st.lists(rng(.05, .95), min_size=1, max_size=4)),
        check_cell, quick=120, rule='a stack sized for a power and run at part load'),
    Sub('sun', record(lat=rng(-80., 80.), lon=rng(-180., 180.), alt=rng(-200., 25000., edges=(0., 9000.)), day=st.integers(2, 360), clock=st.tuples(st.integers(0, 23), st.integers(0, 59), st.integers(0, 59)),
                      t=st.lists(rng(0., 250000.), min_size=1, max_size=6), psi=rng(-6., 6.)), check_sun, quick=300, rule='the sun is up'),
    Sub('solar', record(area=logrng(.1, 100.), eff=rng(.1, .4), mppt=rng(.8, 1.), V=rng(10., 400.), av=rng(0., 500.), pay=rng(0., 500.), amp=rng(0., 50.), N=st.sampled_from([4, 8, 16]),
                        T=logrng(1., 1e4)), check_solar, quick=120, rule='a panel, its loads and the power balance of the logic'),
], rule='every output of the components in the case was compared with the circuit, gear, engine or sun geometry equations',
    assumptions=['sun position from the declination and equation-of-time fits the code documents; level panels only (see the findings for tilted ones)',
                 'motor design is judged where the optimiser itself reports success'],
    probes={'solar_air_mass': probe_air_mass, 'solar_tilted_panel': probe_tilt})

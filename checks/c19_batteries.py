"""C19: batteries: energy bookkeeping over a segment, cell electro-thermal model, pack scaling, sizing and ageing."""
import copy
import math

import numpy as np
from hypothesis import strategies as st

from SUAVE.Core import Data, Units
from SUAVE.Components.Energy.Storages import Batteries as Bt
from SUAVE.Methods.Power.Battery.Sizing import (initialize_from_circuit_configuration, initialize_from_energy_and_power,
                                                initialize_from_mass)
from SUAVE.Methods.Power.Battery.Ragone import find_ragone_optimum, find_ragone_properties
from SUAVE.Methods.Power.Battery.Variable_Mass import find_mass_gain_rate, find_total_mass_gain
from SUAVE.Methods.Power.Battery.pack_battery_conditions import pack_battery_conditions
from SUAVE.Methods.Power.Battery.Cell_Cycle_Models.LiNiMnCoO2_cell_cycle_model import compute_NMC_cell_state_variables
from SUAVE.Methods.Utilities.Chebyshev.chebyshev_data import chebyshev_data
from SUAVE.Attributes.Gases import Air
from lib.prop import Property, Sub, require, fail, close, same_shape, finite, monotone, Discard
from lib.strat import rng, inner, logrng, vec, record

Wh = 3600.
CM = Bt.Constant_Mass
VM = Bt.Variable_Mass
KINDS = {'generic': CM.Lithium_Ion, 'lfp': CM.Lithium_Ion_LiFePO4_18650, 'nmc': CM.Lithium_Ion_LiNiMnCoO2_18650}
CELL = {'lfp': dict(m=.03, cap=1.5, vn=3.6, vm=3.6), 'nmc': dict(m=.048, cap=3.55, vn=3.6, vm=4.2)}
_nmc = {}


def battery_of(kind):
    if kind == 'nmc':                                   # building the discharge map takes a while: once per process
        if 'x' not in _nmc:
            _nmc['x'] = KINDS[kind]()
        b = KINDS['lfp'].__new__(KINDS['nmc'])
        b = copy.copy(_nmc['x'])
        for k in ('cell', 'pack_config', 'module_config', 'mass_properties', 'inputs', 'cooling_fluid'):
            if k in b.keys():
                b[k] = copy.deepcopy(b[k])
        return b
    return KINDS[kind]()


# ------------------------------------------------------------------ a battery flying a segment
def pack_case():
    return record(kind=st.sampled_from(['generic', 'lfp', 'nmc', 'nmc', 'nmc']), series=st.integers(1, 140), parallel=st.integers(1, 60),
                  N=st.sampled_from([4, 5, 8, 12, 16]), T=logrng(5., 3000.), soc=rng(.35, 1.), amp=rng(.1, 6.),
                  slope=rng(-.8, .8), wave=rng(-.5, .5), power=rng(.85, 1.15), grow=st.sampled_from([1., 1., 1.1, 1.6]),
                  fade=st.sampled_from([1., 1., .9, .7]), T0=rng(275., 318.), amb=rng(255., 315.), Q0=rng(0., 40.),
                  nn=st.integers(1, 12), npar=st.integers(1, 12), gap=rng(1e-4, .02), gap2=rng(1e-4, .02),
                  flow=st.sampled_from([.01, .01, .05, .3, 2., 8.]), eff=st.sampled_from([1., .5]))


class Run(object):
    """A battery, the numerics of a segment and the load profile on it."""

    def __init__(self, c, charge=False):
        self.c = c
        b = self.b = battery_of(c['kind'])
        self.nmc = c['kind'] == 'nmc'
        if c['kind'] == 'generic':
            b.mass_properties.mass = .05 * c['series'] * c['parallel']
            b.max_voltage = 4. * c['series']
            initialize_from_mass(b, 1.)
            b.pack_config.series, b.pack_config.parallel = c['series'], c['parallel']
            b.pack_config.total = c['series'] * c['parallel']
            per = .05 * 200. * Wh
        else:
            b.pack_config.series, b.pack_config.parallel = c['series'], c['parallel']
            initialize_from_circuit_configuration(b)
            per = CELL[c['kind']]['cap'] * CELL[c['kind']]['vn'] * Wh
        self.ns, self.npar = c['series'], c['parallel']
        self.n = self.ns * self.npar
        self.Emax = per * self.n
        close(b.max_energy, self.Emax, rtol=1e-9, what='pack energy')
        if self.n == 1:
            b.module_config.normal_count = b.module_config.parallel_count = 1
        else:
            b.module_config.normal_count, b.module_config.parallel_count = c['nn'], c['npar']
        b.module_config.normal_spacing = .0185 + c['gap']
        b.module_config.parallel_spacing = .0185 + c['gap2']
        b.heat_transfer_efficiency = c['eff']
        x, D, I = chebyshev_data(c['N'])
        self.x = x = x.reshape(-1, 1)
        # never more than a third of the pack, so nothing runs dry
        self.T = min(c['T'], .3 * per / (c['amp'] * 4. * 2.))
        num = self.num = Data()
        num.time = Data()
        num.time.control_points = x * self.T
        num.time.differentiate = D / self.T
        num.time.integrate = I * self.T
        s = -1. if charge else 1.
        self.Ic = c['amp'] * (1. + c['slope'] * (x - .5) + c['wave'] * x * (1. - x))
        self.V = 3.7 * self.ns
        ones = np.ones_like(x)
        b.inputs.current = s * self.Ic * self.npar
        b.inputs.power_in = -b.inputs.current * self.V * c['power']
        self.P = b.inputs.power_in.copy()
        b.inputs.voltage = self.V * ones
        self.E0 = c['soc'] * self.Emax * c['fade']
        b.current_energy = self.E0 * ones
        b.pack_temperature = c['T0'] * ones
        b.cell_temperature = c['T0'] * ones
        b.cell_charge_throughput = c['Q0'] * ones
        b.R_growth_factor = c['grow']
        b.E_growth_factor = 1. if self.nmc else c['fade']
        if self.nmc:
            b.max_energy = self.Emax * c['fade']
        self.cap = self.Emax * c['fade']
        b.ambient_temperature = c['amb'] * ones
        b.ambient_pressure = 101325. * ones
        air = self.air = Air()
        f = b.cooling_fluid
        f.cooling_flowspeed = c['flow']
        rho = 101325. / 287.0528742 / c['amb']
        self.fluid = dict(k=.0241 * (c['amb'] / 273.15) ** .9, nu=1.4e-5 * (c['amb'] / 288.) ** 1.7, Pr=.71, rho=rho, cp=1006.)
        f.thermal_conductivity = self.fluid['k'] * ones
        f.kinematic_viscosity = self.fluid['nu'] * ones
        f.prandtl_number = self.fluid['Pr'] * ones
        f.density = rho * ones
        f.specific_heat_capacity = self.fluid['cp']

    def go(self, charge=False):
        b = self.b
        keep = (b.inputs.current.copy(), b.inputs.power_in.copy())
        b.energy_calc(self.num, not charge)
        if not charge:                                 # a charging generic battery takes the sign of the current as reported
            close(b.inputs.current, keep[0], rtol=0., what='current demand after the calculation')
        if np.all(keep[1] <= 0.):
            close(b.inputs.power_in, keep[1], rtol=0., what='power demand after the calculation')
        return b

    def quad(self, y):
        return self.num.time.integrate.dot(np.reshape(y, (-1, 1)))


def entropy(s):
    return -496.66 * s ** 6 + 1729.4 * s ** 5 - 2278. * s ** 4 + 1382.2 * s ** 3 - 380.47 * s ** 2 + 46.508 * s - 10.692


def nmc_voltage(b, s, T, i):
    """Trilinear interpolation in the cell test data (current 0..8 A, temperature 0..50 C, depth of discharge)."""
    grid = b.discharge_performance_map.Voltage
    data = grid.values[..., 1]
    ax = (np.linspace(0, 8, 5), np.linspace(0, 50, 6) + 272.65, np.linspace(0, 1, 15))
    pt = (min(max(i, 0.), 8.), min(max(T, 272.65), 322.65), 1. - min(max(s, 0.), 1.))
    w = []
    for a, p in zip(ax, pt):
        k = min(max(int(np.searchsorted(a, p, side='right')) - 1, 0), len(a) - 2)
        w.append((k, (p - a[k]) / (a[k + 1] - a[k])))
    tot = 0.
    for d in range(8):
        f = 1.
        idx = []
        for j in range(3):
            up = (d >> j) & 1
            f *= w[j][1] if up else 1. - w[j][1]
            idx.append(w[j][0] + up)
        tot += f * data[tuple(idx)]
    return tot


def coolant_ref(run, T_wall_mid, q_cell):
    """Net heating rate (K/s) of the module, from Pacheco / Incropera's tube bank relations."""
    c, b, f = run.c, run.b, run.fluid
    D, H = .0185, .0653
    area = math.pi * D * H + .5 * math.pi * D * D
    m_cell, cp = {'lfp': (.03, 1115.), 'nmc': (.048, 1108.)}[c['kind']]
    if run.n == 1:
        return (q_cell - 35. * area * (c['T0c'] - c['amb'])) / (m_cell * cp)
    ST, SL = .0185 + c['gap'], .0185 + c['gap2']
    SD = math.hypot(ST, SL)
    V = c['flow']
    vmax = V * ST / (2. * (SD - D)) if 2. * (SD - D) < ST - D else V * ST / (ST - D)
    re = vmax * D / f['nu']
    C, mm = (.35 * (ST / SL) ** .2, .6) if re > 1000. else (.51, .5)
    T = .5 * (c['amb'] + c['T0'])
    pw = float(run.b.cooling_fluid.compute_prandtl_number(T))
    h = C * re ** mm * f['Pr'] ** .36 * (f['Pr'] / pw) ** .25 * f['k'] / D
    n = c['nn'] * c['npar']
    ti = T - c['amb']
    if ti == 0.:
        qc = 0.
    else:
        ex = math.pi * D * n * h / (f['rho'] * V * c['nn'] * ST * f['cp'])
        to = ti * math.exp(-ex)
        qc = c['eff'] * h * math.pi * D * H * n * (ti * -math.expm1(-ex) / ex)
    return (q_cell * n - qc) / (m_cell * n * cp)


def check_discharge(c, ctx):
    run = Run(c)
    b = run.b
    I_map = run.num.time.integrate
    ci = np.array(run.Ic)
    soc_old = np.clip((run.E0 + run.quad(run.P)) / run.cap, 0., 1.)
    run.go()
    n = len(ci)
    for k in ('current_energy', 'state_of_charge', 'depth_of_discharge', 'voltage_under_load', 'voltage_open_circuit', 'cell_temperature',
              'pack_temperature', 'cell_charge_throughput', 'internal_resistance', 'resistive_losses', 'load_power', 'current',
              'heat_energy_generated', 'cell_voltage_under_load', 'cell_current'):
        same_shape(getattr(b, k), (n, 1), k)
        finite(getattr(b, k), k)
    # energy and charge bookkeeping
    E = b.current_energy
    close(E, run.E0 + run.quad(run.P - np.abs(b.resistive_losses)), rtol=1e-9, atol=1e-9 * run.cap, what='energy left in the battery')
    require(np.all(np.diff(E[:, 0]) < 1e-9 * run.cap), 'a discharging battery gains energy')
    close(E[0], run.E0, rtol=1e-10, what='energy at the start of the segment')
    close(b.state_of_charge, np.clip(E / run.cap, 0., 1.), rtol=1e-9, what='state of charge')
    close(b.state_of_charge + b.depth_of_discharge, np.ones((n, 1)), rtol=1e-12, what='state of charge + depth of discharge')
    t = run.num.time.control_points
    flow = ci if run.nmc else ci * run.npar
    q = c['Q0'] + np.concatenate([[0.], np.cumsum(.5 * (flow[1:, 0] + flow[:-1, 0]) * np.diff(t[:, 0]))]) / Wh
    close(b.cell_charge_throughput[:, 0], q, rtol=1e-9, atol=1e-9, what='charge throughput, A h')
    close(b.current, ci * run.npar, rtol=1e-12, what='pack current')
    close(b.load_power, b.voltage_under_load * b.current, rtol=1e-9, what='load power')
    if run.nmc:
        close(b.cell_current, ci, rtol=1e-9, what='cell current')
        R = .01483 * soc_old ** 2 - .02518 * soc_old + .1036
        close(b.internal_resistance, R * run.ns, rtol=1e-9, what='internal resistance')
        V = np.array([nmc_voltage(b, s, c['T0'], i) for s, i in zip(soc_old[:, 0], ci[:, 0])]).reshape(-1, 1)
        close(b.cell_voltage_under_load, V, rtol=1e-9, what='cell voltage under load')
        close(b.voltage_under_load, V * run.ns, rtol=1e-9, what='voltage under load')
        close(b.cell_voltage_open_circuit, V + ci * R, rtol=1e-9, what='cell open circuit voltage')
        close(b.voltage_open_circuit, (V + ci * R) * run.ns, rtol=1e-9, what='open circuit voltage')
        dens = ci / .0342
        joule = dens ** 2 / 139.
        rev = -c['T0'] * entropy(soc_old) * dens / 96485.
        area = math.pi * .0653 * .0185 + .5 * math.pi * .0185 ** 2
        heat = (joule + rev) * area
        close(b.resistive_losses, run.n * heat, rtol=1e-9, atol=1e-12 * run.n, what='heat loss of the pack')
        close(b.heat_energy_generated, heat * c['nn'] * c['npar'] if run.n > 1 else heat, rtol=1e-9, atol=1e-12, what='heat of a module')
        close(b.cell_joule_heat_fraction + b.cell_entropy_heat_fraction, np.ones((n, 1)), rtol=1e-7, what='heat fractions')
        rate = np.array([coolant_ref(run, None, qq) if run.n > 1 else (qq - 35. * area * (c['T0'] - c['amb'])) / (.048 * 1108.)
                         for qq in heat[:, 0]])
        Tref = np.maximum(c['T0'] + run.quad(rate), c['amb'])
        close(b.cell_temperature, Tref, rtol=1e-9, what='cell temperature')
        close(b.pack_temperature, Tref, rtol=1e-9, what='pack temperature')
        if np.any(ci > 8.):
            ctx.label('over-current')
    else:
        s = soc_old
        R = np.maximum(c['grow'] * (-.0169 * s ** 4 + .0418 * s ** 3 - .0273 * s ** 2 + .0069 * s + .0043), 0.)
        close(b.internal_resistance, R, rtol=1e-9, what='internal resistance')
        Ip = ci * run.npar
        close(b.resistive_losses, Ip ** 2 * R, rtol=1e-9, what='resistive loss')
        v = b.state_of_charge
        vn = np.minimum((-1.031 * np.exp(-35. * v) + 3.685 + .2156 * v - .1178 * v ** 2 + .3201 * v ** 3) / 4.1, 1.)
        vmax = (4. if c['kind'] == 'generic' else 3.6) * run.ns
        close(b.voltage_open_circuit, vn * vmax, rtol=1e-9, what='open circuit voltage')
        close(b.voltage_under_load, vn * vmax - Ip * R, rtol=1e-8, atol=1e-9 * vmax, what='voltage under load')
        mass = .05 * run.n if c['kind'] == 'generic' else .03 * run.n * 1.42
        cp = 1100. if c['kind'] == 'generic' else 1115.
        close(b.pack_temperature, c['T0'] + run.quad(Ip ** 2 * R / (mass * cp)), rtol=1e-9, what='pack temperature')
    ctx.hit(c['kind'], 'cells:%s' % ('1' if run.n == 1 else 'many'))
    ctx.label('flow:%g' % c['flow'])


def check_charge(c, ctx):
    c = dict(c)
    c['soc'] = .1 + .5 * (c['soc'] - .35)
    run = Run(c, charge=True)
    b = run.b
    soc_old = np.clip((run.E0 + run.quad(run.P)) / run.cap, 0., 1.)
    run.go(True)
    E = b.current_energy
    close(E, run.E0 + run.quad(run.P - np.abs(b.resistive_losses)), rtol=1e-8, atol=1e-8 * run.cap, what='energy in a charging battery')
    close(b.state_of_charge, np.clip(E / run.cap, 0., 1.), rtol=1e-9, what='state of charge while charging')
    close(b.depth_of_discharge, 1. - b.state_of_charge, rtol=1e-9, atol=1e-12, what='depth of discharge')
    q = b.cell_charge_throughput[:, 0]
    require(np.all(np.diff(q) > 0.) and abs(q[0] - c['Q0']) < 1e-9, 'charge throughput does not grow while charging: %s', q.tolist())
    if run.nmc:
        close(b.cell_current, run.Ic, rtol=1e-9, what='cell charging current')
    else:
        # power flows in: the terminals stand above the open circuit voltage by the resistive drop, in size
        gap = np.abs(b.voltage_under_load - b.voltage_open_circuit)
        close(gap, run.Ic * run.npar * b.internal_resistance, rtol=1e-7, atol=1e-9 * run.V, what='resistive voltage step while charging')
        require(np.all(b.voltage_under_load >= b.voltage_open_circuit - 1e-9 * run.V), 'charging lowers the terminal voltage')
    ctx.hit(c['kind'])


# ------------------------------------------------------------------ relations between runs
def check_iterate(c, ctx):
    """A battery starts from its first point: what an earlier iteration left at the later ones is not seen."""
    charge = c['charge']
    c = dict(c, soc=.9 + .1 * c['soc']) if charge else c
    out = []
    for stale in (0., c['stale'], -c['stale']):
        run = Run(c, charge=charge)
        b = run.b
        ramp = np.arange(len(run.x)).reshape(-1, 1) / (len(run.x) - 1.)
        b.current_energy = b.current_energy * (1. - stale * ramp)
        b.cell_charge_throughput = b.cell_charge_throughput + 30. * abs(stale) * ramp
        with np.errstate(all='ignore'):
            run.go(charge)
        out.append({k: np.array(b[k], float) for k in ('current_energy', 'state_of_charge', 'depth_of_discharge', 'voltage_under_load', 'cell_temperature', 'cell_charge_throughput') if k in b})
        E = out[-1]['current_energy']
        require(float(E[-1]) <= run.cap * 1.02, 'a pack charged to %s times its capacity', float(E[-1]) / run.cap)
    for o in out[1:]:
        for k in o:
            close(o[k], out[0][k], rtol=1e-9, atol=1e-9 * float(np.max(np.abs(out[0][k])) + 1e-30), what='%s after another iteration' % k)
    full = charge and float(out[0]['current_energy'][-1]) > .995 * run.cap
    ctx.hit('full' if full else 'charge' if charge else 'discharge')


def check_scale(c, ctx):
    """The same cell history from a different pack: series and parallel counts only rescale pack quantities."""
    c = dict(c)
    if c['kind'] == 'generic':
        c['kind'] = 'nmc'
    if c['kind'] == 'lfp':
        c['kind'] = 'nmc'
    d = dict(c)
    d['series'], d['parallel'] = c['series'] % 97 + 2, c['parallel'] % 41 + 2
    c['series'], c['parallel'] = c['series'] + 1, c['parallel']
    a, b = Run(c), Run(d)
    a.go(), b.go()
    x, y = a.b, b.b
    for k in ('state_of_charge', 'cell_voltage_under_load', 'cell_voltage_open_circuit', 'cell_current', 'cell_temperature', 'cell_charge_throughput'):
        close(getattr(x, k), getattr(y, k), rtol=1e-8, atol=1e-12, what='%s of two packs of the same cells under the same cell load' % k)
    close(x.voltage_under_load / a.ns, y.voltage_under_load / b.ns, rtol=1e-9, what='pack voltage per series cell')
    close(x.internal_resistance / a.ns, y.internal_resistance / b.ns, rtol=1e-9, what='resistance per series cell')
    close(x.current_energy / a.n, y.current_energy / b.n, rtol=1e-8, what='energy per cell')
    close(x.resistive_losses / a.n, y.resistive_losses / b.n, rtol=1e-8, atol=1e-12, what='loss per cell')
    close(x.load_power / a.n, y.load_power / b.n, rtol=1e-8, what='power per cell')
    ctx.hit('scaled')


def check_split(c, ctx):
    """Flying a leg in one segment or in two gives the same energy left (constant load)."""
    c = dict(c, slope=0., wave=0., N=max(c['N'], 8))
    if c['kind'] == 'nmc':
        c['kind'] = 'lfp'
    one = Run(c)
    one.go()
    two = Run(c)
    for k in ('control_points', 'differentiate', 'integrate'):
        f = {'control_points': .5, 'differentiate': 2., 'integrate': .5}[k]
        two.num.time[k] = two.num.time[k] * f
    two.go()
    mid = two.b.current_energy[-1, 0]
    b = two.b
    ones = np.ones_like(two.x)
    b.current_energy = mid * ones
    b.pack_temperature = b.pack_temperature[-1, 0] * ones
    b.cell_charge_throughput = b.cell_charge_throughput[-1, 0] * ones
    b.inputs.current = two.Ic * two.npar
    b.inputs.power_in = two.P.copy()
    b.energy_calc(two.num, True)
    a = one.b
    spent = one.E0 - a.current_energy[-1, 0]
    # the second half starts from the energy after losses, so its resistance may differ by the share of the losses
    tol = 1e-9 + 3. * float(np.max(np.abs(a.resistive_losses / one.P))) ** 2
    close(one.E0 - b.current_energy[-1, 0], spent, rtol=min(tol, .2), what='energy spent flying in two halves')
    close(b.cell_charge_throughput[-1], a.cell_charge_throughput[-1], rtol=1e-9, what='charge throughput of two halves')
    ctx.hit(c['kind'])


# ------------------------------------------------------------------ cell map
def check_cell(c, ctx):
    b = battery_of('nmc')
    m = c['pts']
    s = np.array([p[0] for p in m]).reshape(-1, 1)
    T = np.array([p[1] for p in m]).reshape(-1, 1)
    i = np.array([p[2] for p in m]).reshape(-1, 1)
    keep = s.copy(), T.copy(), i.copy()
    v = compute_NMC_cell_state_variables(b.discharge_performance_map, s, T, i)
    same_shape(v, (len(m), 1), 'cell voltage')
    want = np.array([nmc_voltage(b, *p) for p in m])
    close(v[:, 0], want, rtol=1e-9, what='cell voltage from the test data')
    for got, was, what in ((i, keep[2], 'current'),):
        close(got, was, rtol=0., what='%s handed to the cell model' % what)
    require(np.all(v < 4.35) and np.all(v > 1.8), 'cell voltage outside what a lithium ion cell can show: %s', v[:, 0].tolist())
    out = any(not (0. <= p[0] <= 1. and 272.65 <= p[1] <= 322.65 and 0. <= p[2] <= 8.) for p in m)
    ctx.hit('clipped' if out else 'inside')


# ------------------------------------------------------------------ sizing
def check_circuit(c, ctx):
    b = battery_of(c['kind'])
    d = CELL[c['kind']]
    b.pack_config.series, b.pack_config.parallel = c['series'], c['parallel']
    args = {} if c['factor'] is None else {'module_weight_factor': c['factor']}
    f = 1.42 if c['factor'] is None else c['factor']
    initialize_from_circuit_configuration(b, **args)
    n = c['series'] * c['parallel']
    close(b.mass_properties.mass, d['m'] * n * f, rtol=1e-12, what='pack mass')
    close(b.specific_energy, d['cap'] * d['vn'] * Wh / d['m'], rtol=1e-12, what='specific energy')
    close(b.max_energy, d['cap'] * d['vn'] * Wh * n, rtol=1e-12, what='pack energy')
    close(b.initial_max_energy, b.max_energy, rtol=0., what='initial pack energy')
    close(b.max_voltage, d['vm'] * c['series'], rtol=1e-12, what='pack voltage')
    close(b.max_power, b.specific_power * b.mass_properties.mass, rtol=1e-12, what='pack power')
    close(b.pack_config.total, n, rtol=0., what='cells in the pack')
    close(b.charging_voltage, d['vn'] * c['series'], rtol=1e-12, what='charging voltage')
    close(b.charging_current, 3. * c['parallel'], rtol=1e-12, what='charging current')
    # and back from the mass and the voltage
    a = battery_of(c['kind'])
    a.mass_properties.mass = b.mass_properties.mass * (1. + 1e-9)
    a.max_voltage = b.max_voltage * (1. + 1e-9)
    initialize_from_mass(a, **args)
    close([a.pack_config.series, a.pack_config.parallel, a.pack_config.total], [c['series'], c['parallel'], n], rtol=0.,
          what='circuit recovered from the mass and voltage of the pack')
    close(a.max_energy, b.max_energy, rtol=1e-8, what='energy recovered from the mass')
    close(a.initial_max_energy, a.max_energy, rtol=0., what='initial energy from the mass')
    close(a.charging_voltage, b.charging_voltage, rtol=1e-12, what='charging voltage from the mass')
    close(a.charging_current, b.charging_current, rtol=1e-12, what='charging current from the mass')
    ctx.hit(c['kind'])


CHEM = {'lion': (lambda: CM.Lithium_Ion(), 200., 1000.), 'lis': (lambda: CM.Lithium_Sulfur(), 500., 1000.), 'alair': (lambda: VM.Aluminum_Air(), 1300., 200.),
        'liair': (lambda: VM.Lithium_Air(), 2000., 660.)}
RAGONE = {'lion': (88818., -.01533, 60., 225.), 'lis': (245848., -.00478, 300., 700.), 'alair': (843.9, -.00048647, 1100., 1600.)}
GAIN = {'alair': .000110145, 'liair': .000192}


def check_sizing(c, ctx):
    kind = c['chem']
    b = CHEM[kind][0]()
    es, ps = CHEM[kind][1] * Wh, CHEM[kind][2]
    E, P = c['E'], c['E'] / c['hours'] / Wh
    close([b.specific_energy, b.specific_power], [es, ps], rtol=1e-12, what='specific energy and power of %s' % kind)
    initialize_from_energy_and_power(b, E, P)
    m = max(E / es, P / ps)
    close(b.mass_properties.mass, m, rtol=1e-12, what='battery mass for an energy and a power')
    close([b.max_energy, b.max_power], [m * es, m * ps], rtol=1e-12, what='energy and power of the sized battery')
    require(b.max_energy >= E * (1. - 1e-12) and b.max_power >= P * (1. - 1e-12), 'the sized battery does not meet its requirement')
    soft = CHEM[kind][0]()
    initialize_from_energy_and_power(soft, E, P, max='soft')
    k = soft.mass_properties.mass
    require(k >= m * (1. - 1e-9), 'soft sizing is below the hard requirement: %r < %r', float(k), m)
    if max(E / es, P / ps) < 600. and abs(E / es - P / ps) < 600.:
        close(k, math.log(math.exp(E / es - m) + math.exp(P / ps - m)) + m, rtol=1e-7, what='soft maximum of the two masses')
    if kind in GAIN:
        close(find_total_mass_gain(b), b.max_energy * GAIN[kind] / Wh, rtol=1e-9, what='total mass gain')
        close(find_mass_gain_rate(b, -P), P * GAIN[kind] / Wh, rtol=1e-9, what='mass gain rate')
        # drawing all of it at a constant power
        close(find_mass_gain_rate(b, -P) * b.max_energy / P, find_total_mass_gain(b), rtol=1e-9, what='mass gained over a full discharge')
    if kind == 'alair':
        close(b.find_water_mass(E), E * .000123913 / Wh, rtol=1e-9, what='water mass')
        close(b.find_aluminum_mass(E), E * .000123828 / Wh, rtol=1e-9, what='aluminium mass')
    g = CHEM[kind][0]()
    g.mass_properties.mass = c['mass']
    initialize_from_mass(g, c['factor']) if kind == 'lion' else None
    if kind == 'lion':
        close([g.max_energy, g.max_power], [c['mass'] / c['factor'] * es, c['mass'] / c['factor'] * ps], rtol=1e-12, what='energy and power of a battery of given mass')
    if kind in RAGONE:
        k1, k2, lo, hi = RAGONE[kind]

        def mass_at(e):
            return max(E / (e * Wh), P / (k1 * 10. ** (k2 * e)))
        o = CHEM[kind][0]()
        find_ragone_optimum(o, E, P)
        require(lo * Wh * (1 - 1e-9) <= o.specific_energy <= hi * Wh * (1 + 1e-9), 'optimal specific energy outside the Ragone range')
        e = o.specific_energy / Wh
        close(o.specific_power, k1 * 10. ** (k2 * e), rtol=1e-7, what='specific power on the Ragone line')
        close(o.mass_properties.mass, mass_at(e), rtol=1e-7, what='mass at the Ragone optimum')
        best = min(mass_at(x) for x in np.linspace(lo, hi, 400))
        require(o.mass_properties.mass <= best * (1. + 1e-4), 'Ragone sizing misses the lightest battery: %r > %r', float(o.mass_properties.mass), best)
        require(o.max_energy >= E * (1. - 1e-9) and o.max_power >= P * (1. - 1e-9), 'the Ragone battery does not meet its requirement')
        q = CHEM[kind][0]()
        e = lo + c['where'] * (hi - lo)
        close(find_ragone_properties(e * Wh, q, E, P), mass_at(e), rtol=1e-9, what='mass at a point of the Ragone line')
        ctx.label('energy-limited' if abs(mass_at(o.specific_energy / Wh) - E / o.specific_energy) < 1e-6 * m else 'power-limited')
    ctx.hit(kind)


# ------------------------------------------------------------------ ageing and conditions
def check_age(c, ctx):
    b = battery_of('nmc')
    b.pack_config.series, b.pack_config.parallel = c['series'], 3
    initialize_from_circuit_configuration(b)
    n = 6
    seg = Data()
    seg.conditions = Data()
    p = seg.conditions.propulsion = Data()
    soc = np.linspace(c['soc'][0], c['soc'][1], n).reshape(-1, 1)
    p.battery_state_of_charge = soc
    vc = np.linspace(c['v'][0], c['v'][1], n).reshape(-1, 1)
    p.battery_voltage_under_load = vc * c['series']
    p.battery_cycle_day = c['day']
    p.battery_cell_charge_throughput = np.linspace(c['q'] * .9, c['q'], n).reshape(-1, 1)
    p.battery_cell_temperature = np.full((n, 1), c['T'])
    p.battery_capacity_fade_factor = c['fade']
    p.battery_resistance_growth_factor = c['grow']
    b.update_battery_state_of_health(seg, increment_battery_cycle_day=c['inc'])
    vm, rms = float(np.mean(vc)), math.sqrt(float(np.mean(vc ** 2)))
    dod = abs(c['soc'][0] - c['soc'][1])
    ac = (7.542 * vm - 23.75) * 1e6 * math.exp(-6976. / c['T'])
    ar = (5.27 * vm - 16.32) * 1e5 * math.exp(-5986. / c['T'])
    bc = 7.348e-3 * (rms - 3.667) ** 2 + 7.6e-4 + 4.081e-3 * dod
    br = 2.153e-4 * (rms - 3.725) ** 2 - 1.521e-5 + 2.798e-4 * dod
    fade = min(c['fade'], 1. - ac * c['day'] ** .75 - bc * math.sqrt(c['q']))
    grow = max(c['grow'], 1. + ar * c['day'] ** .75 + br * c['q'])
    close(p.battery_capacity_fade_factor, fade, rtol=1e-8, what='capacity fade factor')
    close(p.battery_resistance_growth_factor, grow, rtol=1e-8, what='resistance growth factor')
    close(p.battery_cycle_day, c['day'] + (1 if c['inc'] else 0), rtol=0., what='cycle day')
    ctx.hit('aged' if fade < c['fade'] else 'kept')


def check_pack(c, ctx):
    run = Run(c)
    run.go()
    b = run.b
    b.age = 4
    cond = Data()
    cond.propulsion = Data()
    pay = c['amp'] * 100.
    ones = np.ones_like(run.x)
    P = .9 * (-run.P)
    pack_battery_conditions(cond, b, pay * ones, P)
    p = cond.propulsion
    draw = -run.P
    close(p.battery_power_draw, -draw, rtol=1e-12, what='battery power draw')
    close(p.battery_current, run.Ic * run.npar, rtol=1e-12, what='battery current')
    close(p.battery_energy, b.current_energy, rtol=0., what='battery energy')
    close(p.battery_cell_energy * run.n, b.current_energy, rtol=1e-12, what='energy of all cells')
    close(p.battery_cell_power_draw * run.n, -draw, rtol=1e-12, what='power drawn from all cells')
    close(p.battery_state_of_charge, b.state_of_charge, rtol=0., what='state of charge')
    close(p.battery_voltage_under_load, b.voltage_under_load, rtol=0., what='voltage under load')
    close(p.battery_voltage_open_circuit, b.voltage_open_circuit, rtol=0., what='open circuit voltage')
    close(p.battery_pack_temperature, b.pack_temperature, rtol=0., what='pack temperature')
    close(p.battery_cell_temperature, b.cell_temperature, rtol=0., what='cell temperature')
    close(p.battery_internal_resistance, b.internal_resistance, rtol=0., what='internal resistance')
    close(p.battery_cell_charge_throughput, b.cell_charge_throughput, rtol=0., what='charge throughput')
    close(p.battery_cycle_day, 4, rtol=0., what='cycle day')
    close(p.battery_efficiency, 1. - b.resistive_losses / draw, rtol=1e-9, what='battery efficiency')
    close(p.payload_efficiency, 1. - pay / draw, rtol=1e-9, atol=1e-12, what='payload efficiency')
    close(p.electronics_efficiency, P / draw, rtol=1e-9, what='electronics efficiency')
    close(p.battery_specfic_power, draw / b.mass_properties.mass, rtol=1e-9, what='specific power')
    ctx.hit(c['kind'])


pts = st.lists(st.tuples(rng(-.1, 1.1, edges=(0., 1., .5)), rng(265., 330., edges=(272.65, 322.65)), rng(-1., 10., edges=(0., 2., 8.))), min_size=1, max_size=6)

PROPERTY = Property('C19', [
    Sub('discharge', pack_case(), check_discharge, quick=400, rule='a generated cell, pack, load profile, ageing and cooling state flown over a segment'),
    Sub('over-current', pack_case().map(lambda c: dict(c, amp=c['amp'] + 5., kind='nmc')), check_discharge, quick=80,
        rule='cell currents around and beyond the tested range'),
    Sub('charge', pack_case(), check_charge, quick=150, rule='the same, charging'),
    Sub('iterate', st.builds(lambda a, b: dict(a, **b), pack_case(), record(stale=rng(.05, .6), charge=st.booleans())), check_iterate, quick=120, rule='conditions left over from another iteration'),
    Sub('scale', pack_case(), check_scale, quick=80, rule='two packs of the same cells under the same load per cell'),
    Sub('split', pack_case(), check_split, quick=120, rule='a constant load flown in one and in two segments'),
    Sub('cell', record(pts=pts), check_cell, quick=200, rule='states of charge, temperatures and currents in and around the tested range'),
    Sub('circuit', record(kind=st.sampled_from(['lfp', 'nmc']), series=st.integers(1, 200), parallel=st.integers(1, 200), factor=st.sampled_from([None, 1., 1.2, 1.42, 2.])),
        check_circuit, quick=150, rule='a pack circuit, and the way back from its mass and voltage'),
    Sub('sizing', record(chem=st.sampled_from(sorted(CHEM)), E=logrng(1e4, 1e10), hours=logrng(.02, 30.), mass=logrng(.1, 1e4), factor=rng(1., 2.), where=rng(0., 1.)),
        check_sizing, quick=250, rule='an energy and a power requirement for each chemistry'),
    Sub('age', record(series=st.integers(1, 150), soc=st.tuples(rng(.1, 1.), rng(.1, 1.)), v=st.tuples(rng(3.2, 4.2), rng(3.2, 4.2)), day=st.integers(0, 1500),
                      q=rng(0., 3000.), T=rng(275., 320.), fade=rng(.6, 1.), grow=rng(1., 1.8), inc=st.booleans()), check_age, quick=200,
        rule='a flown segment of an NMC pack of any age'),
    Sub('pack', pack_case(), check_pack, quick=100, rule='the conditions a network stores from its battery'),
], rule='every reported battery quantity of the case was compared with the reference model of the cell and pack',
    assumptions=['trapezoidal charge counting, Chebyshev integration of energy and heat as in the segments (their accuracy is C08)',
                 'polynomial fits of the cell tests (resistance, entropy, open circuit voltage, ageing) taken from the cited papers as the code documents them',
                 'the battery does not run dry within the segment'])

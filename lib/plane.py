"""A stand-in aeroplane for mission checks: closed-form aerodynamics and propulsion behind the interfaces a
mission segment uses, so that forces at any flight condition can be recomputed independently."""
import numpy as np
import SUAVE
from SUAVE.Core import Data

STANDARD = dict(S=100., m=50e3, CLa=5., CL0=0.2, CD0=0.02, K=0.05, Tmax=2.5e5, lapse=0.6, sfc=1.6e-5, tilt=0.)


class StubAero(SUAVE.Analyses.Aerodynamics.Aerodynamics):
    def __defaults__(self):
        self.tag = 'aerodynamics'
        self.par = None

    def evaluate(self, state):
        p = self.par
        a = state.conditions.aerodynamics.angle_of_attack
        CL = p['CL0'] + p['CLa'] * a
        CD = p['CD0'] + p['K'] * CL ** 2
        r = Data()
        r.lift = Data()
        r.drag = Data()
        r.lift.total = CL
        r.drag.total = CD
        return r


class StubEnergy(SUAVE.Analyses.Energy.Energy):
    def __defaults__(self):
        self.tag = 'energy'
        self.par = None

    def evaluate_thrust(self, state):
        p = self.par
        c = state.conditions
        T = c.propulsion.throttle * p['Tmax'] * (c.freestream.density / 1.225) ** p['lapse']
        F = np.zeros((len(T), 3))
        F[:, 0] = T[:, 0] * np.cos(p['tilt'])
        F[:, 2] = -T[:, 0] * np.sin(p['tilt'])
        r = Data()
        r.thrust_force_vector = F
        r.vehicle_mass_rate = p['sfc'] * T
        r.network_y_axis_rotation = 0. * T
        if p.get('extra'):
            r.vehicle_fuel_rate = p['sfc'] * T
            r.vehicle_additional_fuel_rate = p['extra'] * np.ones_like(T)
            r.vehicle_mass_rate = r.vehicle_fuel_rate + r.vehicle_additional_fuel_rate
        return r


def analyses(par):
    par = dict(STANDARD, **par)
    an = SUAVE.Analyses.Vehicle()
    aero = StubAero()
    aero.par = par
    aero.geometry.reference_area = par['S']
    an.append(aero)
    en = StubEnergy()
    en.par = par
    an.append(en)
    w = SUAVE.Analyses.Weights.Weights()
    v = SUAVE.Vehicle()
    v.mass_properties.takeoff = par['m']
    v.mass_properties.landing = par.get('landing', 0.8 * par['m'])
    w.vehicle = v
    an.append(w)
    an.append(SUAVE.Analyses.Planets.Planet())
    atm = SUAVE.Analyses.Atmospheric.US_Standard_1976()
    atm.features.planet = an.planet.features
    an.append(atm)
    return an


def thrust(par, throttle, rho):
    par = dict(STANDARD, **par)
    return throttle * par['Tmax'] * (rho / 1.225) ** par['lapse']


def force(par, theta, V, gamma, throttle, rho, m, g):
    """Total force (x forward, z down) in the inertial frame, from first principles."""
    par = dict(STANDARD, **par)
    alpha = theta - gamma
    q = 0.5 * rho * V ** 2
    CL = par['CL0'] + par['CLa'] * alpha
    L = q * par['S'] * CL
    D = q * par['S'] * (par['CD0'] + par['K'] * CL ** 2)
    T = thrust(par, throttle, rho)
    th = theta + par['tilt']
    Fx = T * np.cos(th) - L * np.sin(gamma) - D * np.cos(gamma)
    Fz = -T * np.sin(th) - L * np.cos(gamma) + D * np.sin(gamma) + m * g
    return Fx, Fz

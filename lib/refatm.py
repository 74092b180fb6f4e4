"""Scalar/array 1976 standard atmosphere written from its published table (independent of SUAVE)."""
import numpy as np
R_AIR, G0, RE = 287.0528742, 9.80665, 6.371e6
HB = np.array([-2e3, 0., 11e3, 20e3, 32e3, 47e3, 51e3, 71e3, 84852.])
TB = np.array([301.15, 288.15, 216.65, 216.65, 228.65, 270.65, 270.65, 214.65, 186.95])
PB = np.array([127774., 101325., 22632.1, 5474.89, 868.019, 110.906, 66.9389, 3.95642, 0.3734])


def std(z, dT=0.):
    z = np.asarray(z, float)
    h = np.clip(z / (1 + z / RE), HB[0], HB[-1])
    i = np.clip(np.searchsorted(HB, h, side='right') - 1, 0, 7)
    L = (TB[i + 1] - TB[i]) / (HB[i + 1] - HB[i])
    T = TB[i] + L * (h - HB[i])
    with np.errstate(all='ignore'):
        p = np.where(L == 0, PB[i] * np.exp(-G0 * (h - HB[i]) / (R_AIR * TB[i])), PB[i] * (T / TB[i]) ** (-G0 / (np.where(L == 0, 1, L) * R_AIR)))
    T = T + dT
    rho = p / (R_AIR * T)
    return dict(T=T, p=p, rho=rho, a=np.sqrt(1.4 * R_AIR * T), mu=1.458e-6 * T ** 1.5 / (T + 110.4), g=G0 * (RE / (RE + z)) ** 2)

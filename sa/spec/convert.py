"""Published conversion formulas (reference)."""
import numpy as np

EPS = 0.621970585
RV = 461.52e-5      # hPa m3 g-1 K-1


def es_water(t):
    """Goff-Gratch over water"""
    u = 373.16 / t
    e1 = -7.90298 * (u - 1) + 5.02808 * np.log10(u) + np.log10(1013.246)
    e2 = -1.3816e-7 * (10 ** (11.344 * (1 - t / 373.16)) - 1)
    return e1, e2, u


def es_water_smithsonian(t):
    e1, e2, u = es_water(t)
    return 10 ** (e1 + e2 + 0.0081328 * (10 ** (-3.49149 * (u - 1)) - 1))


def es_ice(t, t0):
    """Goff-Gratch over ice"""
    u = t0 / t
    return 10 ** (-9.09718 * (u - 1) - 3.56654 * np.log10(u) + 0.876793 * (1 - t / t0) + np.log10(6.1071))


def e_of_mr(p, w):
    return p * w / (1000 * EPS + w)


def mr_of_e(p, e):
    return 1000 * EPS * e / (p - e)


def satvap(t, tc):
    w = es_water_smithsonian(t)
    if tc is None:
        return w
    return np.where(t <= tc, es_ice(t, 273.15), w)


def satmix(p, t, tc):
    return mr_of_e(p, satvap(t, tc))


def mr2rh(p, t, w, tc):
    return 100 * e_of_mr(p, w) / satvap(t, tc), 100 * w / satmix(p, t, tc)


def mr2rho(w, t, p):
    return e_of_mr(p, w) / (RV * t)


def rho2mr(rho, t, p):
    return mr_of_e(p, rho * RV * t)


def rho2rh(rho, t, p):
    return mr2rh(p, t, mr_of_e(p, rho * t / 216.7), None)


def planck_mod(hvk, t):
    return 1 / (np.exp(hvk / t) - 1)


def bright(hvk, b):
    if b != 0:
        return hvk / np.log(1 + 1 / b)
    return 0


RD = 8.314462618 / 28.96546e-3
G = 9.80665


def pressure_to_height(p):
    return 288.0 / -0.0065 * (1 - (p / 1013.25) ** (RD * -0.0065 / G))


def height_to_pressure(z):
    return 1013.25 * np.exp(G / (RD * -0.0065) * np.log(1 + z * 0.0065 / 288.0))


def virtual_temperature(t, mr):
    r = 287.04 / 461.52
    return t * (mr + r) / (r * (1 + mr))


def thickness(p, t, mr, n):
    tv = t if mr is None else virtual_temperature(t, mr)
    h = np.zeros(n)
    for i in range(n):
        s = 0.0
        for j in range(1, i + 1):
            s = s + (tv[j] + tv[j - 1]) / 2 * (np.log(p[j]) - np.log(p[j - 1]))
        h[i] = -RD / G * s / 1000
    return h


def dewpoint2rh(td, t, ice, method):
    if method == 'arm':
        return np.exp(17.625 * td / (243.04 + td)) / np.exp(17.625 * t / (243.04 + t))
    a, b = (9.5, 265.5) if ice else (7.5, 237.3)
    return 10 ** (a * td / (td + b)) / 10 ** (a * t / (t + b))


def kgkg_to_kgm3(q, p, t):
    return 100 * p / (287.04 * (1 + (1 - EPS) / EPS * q) * t)


def ppmv_to_molecules(mr, p, t):
    return 6.022140857e23 * p / (8.31446261815324 * t) * mr * 1e-6


def ppmv2gkg(ppmv, mass, air):
    return ppmv * 1e-6 * mass / air * 1000


# ---------------------------------------------------------------- radiative transfer helpers
def vapor(t, rh, ice):
    es = es_water_smithsonian(t)
    if ice:
        es = np.where(t < 263.16, es_ice(t, 273.16), es)
    e = rh * es
    return e, e / (RV * t)


def refractivity(p, t, e):
    """Thayer 1974"""
    d = p - e
    c = t - 273.16
    zd = 1 + d * (5.79e-7 * (1 + 0.52 / t) - 9.4611e-4 * c / t ** 2)
    zw = 1 + 1650.0 * e / t ** 3 * (1 - 0.01317 * c + 1.75e-4 * c ** 2 + 1.44e-6 * c ** 3)
    dry = 77.6036 * d / t * zd
    wet = (64.79 * e / t + 377600.0 * e / t ** 2) * zw
    return dry, wet, 1 + (dry + wet) * 1e-6


def ray(z, n, angle, z0, nl):
    """Bean and Dutton; Dutton, Thayer and Westwater"""
    for i in range(nl):
        if n[i] < 1:
            return None
    ds = np.zeros(nl)
    if 89 <= angle <= 91 or -91 <= angle <= -89:
        for i in range(1, nl):
            ds[i] = z[i] - z[i - 1]
        return ds
    th0 = angle * np.pi / 180
    r0 = 6370.949 + z[0] + z0
    a0 = 2 * np.sin(th0 / 2) ** 2
    below = th0
    tan_below = np.tan(th0)
    phi_below = 0.0
    tau = 0.0
    r_below = r0
    for i in range(1, nl):
        r = 6370.949 + z[i] + z0
        if n[i] == n[i - 1] or n[i] == 1 or n[i - 1] == 1:
            mean = (n[i] + n[i - 1]) / 2
        else:
            mean = 1 + (n[i - 1] - n[i]) / np.log((n[i - 1] - 1) / (n[i] - 1))
        dth = z[i] / r0 - (n[0] - n[i]) * np.cos(th0) / n[i]
        arg = (a0 + dth) / 2 / r
        if arg <= 0:
            return ds
        s = np.sqrt(r * arg)
        th = 2 * np.arcsin(s)
        if th - 2 * th0 <= 0:
            den = 2 * (s + np.sin(th0 / 2)) * np.cos((th + th0) / 4)
            turn = 4 * np.arcsin((dth / 2 - z[i] * arg) / den)
            th = th0 + turn
        else:
            turn = th - th0
        tan = np.tan(th)
        dtau = (1 / tan + 1 / tan_below) / 2 * (n[i - 1] - n[i]) / mean
        new = tau + dtau
        phi = turn + new
        seg = np.sqrt((z[i] - z[i - 1]) ** 2 + 4 * r * r_below * np.sin((phi - phi_below) / 2) ** 2)
        if dtau != 0:
            a = np.abs(new - tau)
            seg = seg * a / (2 * np.sin(a / 2))
        ds[i] = seg
        phi_below = phi
        tau = new
        r_below = r
        tan_below = tan
    return ds

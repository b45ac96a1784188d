"""Recommendation ITU-R P.835-6: reference atmospheres (annex 1), for one height (km)."""
from math import exp, sqrt


def standard_temperature(h):
    hp = 6356.766 * h / (6356.766 + h)
    if hp <= 11:
        return 288.15 - 6.5 * hp
    if hp <= 20:
        return 216.65
    if hp <= 32:
        return 216.65 + (hp - 20)
    if hp <= 47:
        return 228.65 + 2.8 * (hp - 32)
    if hp <= 51:
        return 270.65
    if hp <= 71:
        return 270.65 - 2.8 * (hp - 51)
    if hp <= 84.852:
        return 214.65 - 2.0 * (hp - 71)
    if h <= 91:
        return 186.8673
    return 263.1905 - 76.3232 * sqrt(1 - ((h - 91) / 19.9429) ** 2)


def standard_pressure(h):
    hp = 6356.766 * h / (6356.766 + h)
    if hp <= 11:
        return 1013.25 * (288.15 / (288.15 - 6.5 * hp)) ** (-34.1632 / 6.5)
    if hp <= 20:
        return 226.3226 * exp(-34.1632 * (hp - 11) / 216.65)
    if hp <= 32:
        return 54.74980 * (216.65 / (216.65 + (hp - 20))) ** 34.1632
    if hp <= 47:
        return 8.680422 * (228.65 / (228.65 + 2.8 * (hp - 32))) ** (34.1632 / 2.8)
    if hp <= 51:
        return 1.109106 * exp(-34.1632 * (hp - 47) / 270.65)
    if hp <= 71:
        return 0.6694167 * (270.65 / (270.65 - 2.8 * (hp - 51))) ** (-34.1632 / 2.8)
    if hp <= 84.852:
        return 0.03956649 * (214.65 / (214.65 - 2.0 * (hp - 71))) ** (-34.1632 / 2.0)
    return exp(95.571899 - 4.011801 * h + 6.424731e-2 * h ** 2 - 4.789660e-4 * h ** 3 + 1.340543e-6 * h ** 4)


def standard_water_vapour_density(h, h_0, rho_0):
    return rho_0 * exp(-h / h_0)


def standard_water_vapour_pressure(h, h_0, rho_0):
    return standard_water_vapour_density(h, h_0, rho_0) * standard_temperature(h) / 216.7


def low_temperature(h):
    if h < 17:
        return 300.4222 - 6.3533 * h + 0.005886 * h ** 2
    if h < 47:
        return 194 + (h - 17) * 2.533
    if h < 52:
        return 270
    if h < 80:
        return 270 - (h - 52) * 3.0714
    return 184


def mid_summer_temperature(h):
    if h < 13:
        return 294.9838 - 5.2159 * h - 0.07109 * h ** 2
    if h < 17:
        return 215.15
    if h < 47:
        return 215.15 * exp((h - 17) * 0.008128)
    if h < 53:
        return 275
    if h < 80:
        return 275 + 20 * (1 - exp((h - 53) * 0.06))
    return 175


def mid_winter_temperature(h):
    if h < 10:
        return 272.7241 - 3.6217 * h - 0.1759 * h ** 2
    if h < 33:
        return 218
    if h < 47:
        return 218 + (h - 33) * 3.3571
    if h < 53:
        return 265
    if h < 80:
        return 265 - (h - 53) * 2.0370
    return 210


def high_summer_temperature(h):
    if h < 10:
        return 286.8374 - 4.7805 * h - 0.1402 * h ** 2
    if h < 23:
        return 225
    if h < 48:
        return 225 * exp((h - 23) * 0.008317)
    if h < 53:
        return 277
    if h < 79:
        return 277 - (h - 53) * 4.0769
    return 171


def high_winter_temperature(h):
    if h < 8.5:
        return 257.4345 + 2.3474 * h - 1.5479 * h ** 2 + 0.08473 * h ** 3
    if h < 30:
        return 217.5
    if h < 50:
        return 217.5 + (h - 30) * 2.125
    if h < 54:
        return 260
    return 260 - (h - 54) * 1.667


def _pressure(h, a, b, c, p10, k1, p72, k2):
    if h <= 10:
        return a - b * h + c * h ** 2
    if h <= 72:
        return p10 * exp(-k1 * (h - 10))
    return p72 * exp(-k2 * (h - 72))


def low_pressure(h):
    return _pressure(h, 1012.0306, 109.0338, 3.6316, 284.8526, 0.147, 0.0313660, 0.165)


def mid_summer_pressure(h):
    return _pressure(h, 1012.8186, 111.5569, 3.8646, 283.7096, 0.147, 0.03124022, 0.165)


def mid_winter_pressure(h):
    return _pressure(h, 1018.8627, 124.2954, 4.8307, 258.9787, 0.147, 0.02851702, 0.155)


def high_summer_pressure(h):
    return _pressure(h, 1008.0278, 113.2494, 3.9408, 269.6138, 0.140, 0.04582115, 0.165)


def high_winter_pressure(h):
    return _pressure(h, 1010.8828, 122.2411, 4.554, 243.8718, 0.147, 0.02685355, 0.150)


def low_water(h):
    return 19.6542 * exp(-0.2313 * h - 0.1122 * h ** 2 + 0.01351 * h ** 3 - 0.0005923 * h ** 4) if h <= 15 else 0


def mid_summer_water(h):
    return 14.3542 * exp(-0.4174 * h - 0.02290 * h ** 2 + 0.001007 * h ** 3) if h <= 15 else 0


def mid_winter_water(h):
    return 3.4742 * exp(-0.2697 * h - 0.03604 * h ** 2 + 0.0004489 * h ** 3) if h <= 10 else 0


def high_summer_water(h):
    return 8.988 * exp(-0.3614 * h - 0.005402 * h ** 2 - 0.001955 * h ** 3) if h <= 15 else 0


def high_winter_water(h):
    return 1.2319 * exp(0.07481 * h - 0.0981 * h ** 2 + 0.00281 * h ** 3) if h <= 10 else 0


def temperature(lat, h, season):
    a = abs(lat)
    if season == 'summer':
        return low_temperature(h) if a < 22 else mid_summer_temperature(h) if a < 45 else high_summer_temperature(h)
    return low_temperature(h) if a < 22 else mid_winter_temperature(h) if a < 45 else high_winter_temperature(h)


def pressure(lat, h, season):
    a = abs(lat)
    if season == 'summer':
        return low_pressure(h) if a < 22 else mid_summer_pressure(h) if a < 45 else high_summer_pressure(h)
    return low_pressure(h) if a < 22 else mid_winter_pressure(h) if a < 45 else high_winter_pressure(h)


def water_vapour_density(lat, h, season):
    a = abs(lat)
    if season == 'summer':
        return low_water(h) if a < 22 else mid_summer_water(h) if a < 45 else high_summer_water(h)
    return low_water(h) if a < 22 else mid_winter_water(h) if a < 45 else high_winter_water(h)

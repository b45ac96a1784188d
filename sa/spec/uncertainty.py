"""Propagation of uncertainty, as tabulated in the documentation of uncertainty_propagation."""
import numpy as np


def propagate(fun, A, B, sA, sB, a, b, sAB):
    if fun == 'aA':
        return a * A, np.abs(a) * sA
    if fun == 'aA+bB':
        return a * A + b * B, np.sqrt(a * a * sA * sA + b * b * sB * sB + 2 * a * b * sAB)
    if fun == 'aA-bB':
        return a * A - b * B, np.sqrt(a * a * sA * sA + b * b * sB * sB - 2 * a * b * sAB)
    if fun == 'A*B':
        f = A * B
        return f, np.abs(f) * np.sqrt((sA / A) ** 2 + (sB / B) ** 2 + 2 * (sAB / (A * B)))
    if fun == 'A/B':
        f = A / B
        return f, np.abs(f) * np.sqrt((sA / A) ** 2 + (sB / B) ** 2 - 2 * (sAB / (A * B)))
    return A ** a, np.abs(a) * A ** (a - 1) * sA

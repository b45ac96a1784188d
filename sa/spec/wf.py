# Reference rules for the weighting functions.  Parsed and interpreted by the analyser, never run.
import numpy as np


def heights(z, step):
    return np.arange(0, np.max(z) + step, step)


def on(grid, z, x):
    return np.interp(grid, z, x)


def weights(tau, absorption, sat, nf, nz):
    """transmittance between the level and the receiver times the absorption at the level;
    tau[f][j]: opacity of the layer below level j (none below the first)"""
    w = np.zeros((nf, nz))
    for f in range(nf):
        for j in range(nz):
            total = 0.0
            if sat:
                for k in range(j, nz):
                    total += tau[f, 0, k]
            else:
                for k in range(0, j + 1):
                    total += tau[f, 0, k]
            w[f, j] = np.exp(-total) * absorption[f, 0, j]
    return w

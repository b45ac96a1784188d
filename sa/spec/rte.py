# Reference rules for the radiative transfer part.  Parsed and interpreted by the analyser, never run.
import numpy as np
from pyrtlib.rt_equation import RTEquation
from pyrtlib.absorption_model import H2OAbsModel, O2AbsModel, N2AbsModel, O3AbsModel, LiqAbsModel

from pyrtlib.utils import constants

H_PLANCK = constants('planck')[0]
K_BOLTZ = constants('boltzmann')[0]
T_COSMIC = constants('Tcosmicbkg')[0]
EXPMAX = 125.0


def hvk_of(frq):
    return H_PLANCK * frq * 1e9 / K_BOLTZ


def planck_mod(hvk, t):
    return 1.0 / (np.exp(hvk / t) - 1.0)


def bright(hvk, b):
    if b != 0:
        return hvk / np.log(1.0 + 1.0 / b)
    return 0


def layer_mean(near, far, tau):
    # Planck function linear in opacity across the layer: the end nearer to the receiver counts fully
    return (near + far * np.exp(-tau)) / (1.0 + np.exp(-tau))


def look_up(frq, t, tau, nl):
    """ground-based receiver: tau[i] is the opacity of the layer between levels i-1 and i"""
    hvk = hvk_of(frq)
    b = np.zeros(nl)
    atm = np.zeros(nl)
    cum = np.zeros(nl)
    b[0] = planck_mod(hvk, t[0])
    for i in range(1, nl):
        b[i] = planck_mod(hvk, t[i])
        emit = layer_mean(b[i - 1], b[i], tau[i]) * (1.0 - np.exp(-tau[i]))
        atm[i] = atm[i - 1] + emit * np.exp(-cum[i - 1])
        cum[i] = cum[i - 1] + tau[i]
    top = nl - 1
    if cum[top] < EXPMAX:
        bg = planck_mod(hvk, T_COSMIC) * np.exp(-cum[top])
        mr = atm[top] / (1.0 - np.exp(-cum[top]))
    else:
        bg = 0.0
        mr = atm[top]
    return bg + atm[top], atm, mr, cum, hvk, b, bg, atm[top]


def look_down(frq, t, tau, nl, es, reflect):
    hvk = hvk_of(frq)
    b = np.zeros(nl)
    atm = np.zeros(nl)
    cum = np.zeros(nl)
    b[nl - 1] = planck_mod(hvk, t[nl - 1])
    for i in range(nl - 2, -1, -1):
        b[i] = planck_mod(hvk, t[i])
        emit = layer_mean(b[i + 1], b[i], tau[i + 1]) * (1.0 - np.exp(-tau[i + 1]))
        atm[i] = atm[i + 1] + emit * np.exp(-cum[i + 1])
        cum[i] = cum[i + 1] + tau[i + 1]
    if cum[0] < EXPMAX:
        down = 0.0
        if reflect:
            down = look_up(frq, t, tau, nl)[0]
        bg = (es * planck_mod(hvk, t[0]) + (1 - es) * down) * np.exp(-cum[0])
        mr = atm[0] / (1.0 - np.exp(-cum[0]))
    else:
        bg = 0.0
        mr = atm[0]
    return bg + atm[0], atm, mr, cum, hvk, b, bg, atm[0]


def path(z, angle):
    return np.append([0], np.diff(z) / np.sin(angle * np.pi / 180))


def expint(zeroflg, x, ds, ibeg, iend, factor):
    """integral of a profile varying exponentially inside each layer"""
    s = 0.0
    lay = np.zeros(ds.shape)
    for i in range(ibeg, iend):
        if x[i - 1] < 0.0 or x[i] < 0.0:
            return s, lay
        if np.abs(x[i] - x[i - 1]) < 1e-09:
            m = x[i]
        elif x[i - 1] == 0.0 or x[i] == 0.0:
            if zeroflg:
                m = 0.5 * (x[i] + x[i - 1])
            else:
                m = 0.0
        else:
            m = (x[i] - x[i - 1]) / np.log(x[i] / x[i - 1])
        lay[i] = m * ds[i]
        s = s + lay[i]
    return s * factor, lay


def cloud_levels(z, bound, nl):
    lev = 0
    for i in range(0, nl):
        if z[i] == bound:
            lev = i
    return lev


def cloud_path(den, ds, base, top):
    """cm of water, layers from base to top, all clouds"""
    s = 0.0
    for i in range(len(base)):
        for j in range(int(base[i]) + 1, int(top[i]) + 1):
            s += ds[j] * 0.5 * (den[j] + den[j - 1])
    return 0.1 * s


def cloud_tmr(ibase, itop, hvk, cum, atm):
    ibase = int(ibase)
    itop = int(itop)
    if cum[ibase] > EXPMAX:
        return None
    batm = atm[itop] - atm[ibase]
    tau = cum[itop] - cum[ibase]
    if tau > EXPMAX:
        b = batm * np.exp(cum[ibase])
    else:
        b = batm * np.exp(cum[ibase]) / (1.0 - np.exp(-tau))
    return bright(hvk, b)


def execute(z, p, t, rh, frq, angles, nl, nf, nang, cloudy, sat, ray, es, o3n, amu, cldh, denice, denliq, reflect, ncld):
    """Everything a simulation reports, the species absorption and the ray geometry taken from the package itself.
    z, p, t, rh bottom-up."""
    z0 = z[0]
    zz = z - z0
    tb = np.zeros((nf, nang))
    tbatm = np.zeros((nf, nang))
    tmr = np.zeros((nf, nang))
    tmrcld = np.zeros((nf, nang))
    tauwet = np.zeros((nf, nang))
    taudry = np.zeros((nf, nang))
    tauliq = np.zeros((nf, nang))
    tauice = np.zeros((nf, nang))
    laywet = np.zeros((nf, nang, nl))
    laydry = np.zeros((nf, nang, nl))
    layliq = np.zeros((nf, nang, nl))
    layice = np.zeros((nf, nang, nl))
    awet = np.zeros((nf, nang, nl))
    adry = np.zeros((nf, nang, nl))
    srho = np.zeros((1, nang))
    swet = np.zeros((1, nang))
    sdry = np.zeros((1, nang))
    sliq = np.zeros((1, nang))
    sice = np.zeros((1, nang))
    e, rho = RTEquation.vapor(t, rh, False)
    dryn, wetn, refindx = RTEquation.refractivity(p, t, e)
    if cloudy:
        beg = np.zeros(ncld)
        end = np.zeros(ncld)
        for c in range(0, ncld):
            for i in range(0, nl):
                if zz[i] == cldh[0, c] - z0:
                    beg[c] = i
                if zz[i] == cldh[1, c] - z0:
                    end[c] = i
    for k in range(0, nang):
        if ray:
            ds = RTEquation.ray_tracing(zz, refindx, angles[k], z0)
            if ds is None:
                raise ValueError('ray tracing')
        else:
            ds = path(zz, angles[k])
        srho[0, k] = expint(True, rho, ds, 0, nl, 0.1)[0]
        swet[0, k] = expint(True, wetn, ds, 0, nl, 0.1)[0]
        sdry[0, k] = expint(True, dryn, ds, 0, nl, 0.1)[0]
        if cloudy:
            sliq[0, k] = cloud_path(denliq, ds, beg, end)
            sice[0, k] = cloud_path(denice, ds, beg, end)
        for j in range(0, nf):
            w, d = RTEquation.clearsky_absorption(p, t, e, frq[j], o3n, amu)
            awet[j, k, :] = w
            adry[j, k, :] = d
            sw, lw = expint(True, w, ds, 1, nl, 1)
            sd, ld = expint(True, d, ds, 1, nl, 1)
            tauwet[j, k] = sw
            laywet[j, k, :] = lw
            taudry[j, k] = sd
            laydry[j, k, :] = ld
            lay = lw + ld
            if cloudy:
                al, ai = RTEquation.cloudy_absorption(t, denliq, denice, frq[j])
                sl, ll = expint(False, al, ds, 1, nl, 1)
                si, li = expint(False, ai, ds, 1, nl, 1)
                tauliq[j, k] = sl
                layliq[j, k, :] = ll
                tauice[j, k] = si
                layice[j, k, :] = li
                lay = lay + ll + li
            if sat:
                tot, atm, mr, cum, hvk, b, bg, full = look_down(frq[j], t, lay, nl, es[j], reflect)
            else:
                tot, atm, mr, cum, hvk, b, bg, full = look_up(frq[j], t, lay, nl)
            tb[j, k] = bright(hvk, tot)
            tbatm[j, k] = bright(hvk, full)
            tmr[j, k] = bright(hvk, mr)
            if cloudy:
                tmrcld[j, k] = cloud_tmr(beg[0], end[0], hvk, cum, atm)
    return {'tbtotal': tb, 'tbatm': tbatm, 'tmr': tmr, 'tmrcld': tmrcld, 'tauwet': tauwet, 'taudry': taudry, 'tauliq': tauliq,
            'tauice': tauice, 'taulaywet': laywet, 'taulaydry': laydry, 'taulayliq': layliq, 'taulayice': layice, 'awet': awet,
            'adry': adry, 'srho': srho, 'swet': swet, 'sdry': sdry, 'sliq': sliq, 'sice': sice}


def transfer(t, frq, lay, nl, nf, nang, sat, es, reflect):
    """brightness temperatures for given layer opacities lay[frequency, angle, level], profile bottom-up"""
    tb = np.zeros((nf, nang))
    tbatm = np.zeros((nf, nang))
    tmr = np.zeros((nf, nang))
    for k in range(0, nang):
        for j in range(0, nf):
            if sat:
                tot, atm, mr, cum, hvk, b, bg, full = look_down(frq[j], t, lay[j, k, :], nl, es[j], reflect)
            else:
                tot, atm, mr, cum, hvk, b, bg, full = look_up(frq[j], t, lay[j, k, :], nl)
            tb[j, k] = bright(hvk, tot)
            tbatm[j, k] = bright(hvk, full)
            tmr[j, k] = bright(hvk, mr)
    return {'tbtotal': tb, 'tbatm': tbatm, 'tmr': tmr}


def lowest_cloud(z, t, frq, lay, nl, nf, nang, sat, es, cldh):
    """mean radiating temperature of the first declared cloud"""
    out = np.zeros((nf, nang))
    beg = 0
    end = 0
    for i in range(0, nl):
        if z[i] - z[0] == cldh[0, 0] - z[0]:
            beg = i
        if z[i] - z[0] == cldh[1, 0] - z[0]:
            end = i
    for k in range(0, nang):
        for j in range(0, nf):
            if sat:
                tot, atm, mr, cum, hvk, b, bg, full = look_down(frq[j], t, lay[j, k, :], nl, es[j], False)
            else:
                tot, atm, mr, cum, hvk, b, bg, full = look_up(frq[j], t, lay[j, k, :], nl)
            out[j, k] = cloud_tmr(beg, end, hvk, cum, atm)
    return {'tmrcld': out}


def layer_sums(lay, nl, nf, nang):
    out = np.zeros((nf, nang))
    for k in range(0, nang):
        for j in range(0, nf):
            s = 0.0
            for i in range(1, nl):
                s = s + lay[j, k, i]
            out[j, k] = s
    return out


def clearsky(p, t, e, frq, nl, with_n2, with_o3, o3n, amu):
    """np/km; h2o and o2 give the imaginary refractivity, line and non-resonant part, in ppm"""
    awet = np.zeros(nl)
    adry = np.zeros(nl)
    for i in range(0, nl):
        theta = 300.0 / t[i]
        ekpa = e[i] / 10.0
        pdkpa = (p[i] - e[i]) / 10.0
        to_np = 0.182 * frq * (0.1 * np.log(10.0))
        line, cont = H2OAbsModel().h2o_absorption(pdkpa, theta, ekpa, frq, amu)
        awet[i] = to_np * (line + cont)
        line, cont = O2AbsModel().o2_absorption(pdkpa, theta, ekpa, frq, amu)
        dry = to_np * (line + cont)
        if with_n2:
            dry = dry + N2AbsModel.n2_absorption(t[i], p[i] - e[i], frq)
        if with_o3:
            dry = dry + O3AbsModel().o3_absorption(t[i], p[i], frq, o3n[i], amu)
        adry[i] = dry
    return {'awet': awet, 'adry': adry}


def cloudy(t, denl, deni, frq, nl):
    """np/km"""
    al = np.zeros(nl)
    ai = np.zeros(nl)
    wave = constants('light')[0] * 100 / (frq * 1e9)
    for i in range(0, nl):
        if denl[i] > 0:
            al[i] = LiqAbsModel.liquid_water_absorption(denl[i], frq, t[i])
        if deni[i] > 0:
            ai[i] = 8.18645 / wave * deni[i] * 0.000959553 * (0.1 * np.log(10.0))
    return {'aliq': al, 'aice': ai}

# Reference formulations of the absorbers, one function per published form.  Parsed and interpreted by the
# analyser, never run.  Line tables: h2o mtx columns 1 FL, 2 S1, 3 B2, 4 W0 ..., see C03.
import os
import numpy as np
from netCDF4 import Dataset
from pyrtlib.utils import constants, _dcerror, dilec12
from pyrtlib.absorption_model import H2OAbsModel, N2AbsModel
import pyrtlib.absorption_model as am

DIR = os.path.join(am.PATH, '_lineshape')
DB2NP = np.log(10.0) * 0.1


def h2o_table(model):
    """the parameters of a water-vapour line list, by physical quantity"""
    nc = Dataset(os.path.join(DIR, 'h2o_lineshape.nc'), mode='r')
    d = nc.groups[model]
    m = d.variables['mtx'][:].data
    c = d.variables['ctr'][:].data
    t = {'fl': m[:, 1], 's1': m[:, 2], 'b2': m[:, 3], 'w0': m[:, 4] / 1000.0, 'x': m[:, 5],
         'reftcon': c[0], 'cf': c[1], 'xcf': c[2], 'cs': c[3], 'xcs': c[4], 'reftline': d.variables['reftline'][:].data.item()}
    if model in ('R03', 'R16', 'R17'):
        t['sr'] = m[:, 6]
        t['w0s'] = m[:, 7] / 1000.0
        t['xs'] = m[:, 8]
    else:
        t['w0s'] = m[:, 6] / 1000.0
        t['xs'] = m[:, 7]
    if model not in ('R98', 'R03', 'R16', 'R17'):
        t['sh'] = m[:, 8] / 1000.0
        t['xh'] = m[:, 9]
        t['shs'] = m[:, 10] / 1000.0
        t['xhs'] = m[:, 11]
        if model != 'R18':
            t['aair'] = m[:, 12]
            t['aself'] = m[:, 13]
    if model in ('R19SD', 'R20SD'):
        t['w2'] = m[:, 14] / 1000.0
        t['w2s'] = m[:, 15] / 1000.0
    if model == 'R20SD':
        t['d2air'] = d.variables['d2air'][:].data.item()
        t['d2self'] = d.variables['d2self'][:].data.item()
    if model in ('R21SD', 'R22SD', 'R23SD', 'R24', 'MWL24'):
        t['w2'] = m[:, 14] / 1000.0
        t['xw2'] = m[:, 15]
        t['w2s'] = m[:, 16] / 1000.0
        t['xw2s'] = m[:, 17]
        t['d2'] = m[:, 18] / 1000.0
        t['d2s'] = m[:, 19] / 1000.0
    nc.close()
    return t


def lorentz(df, w, base, strict):
    """line wing to 750 GHz, minus the value there"""
    if strict:
        near = np.abs(df) < 750.0
    else:
        near = np.abs(df) <= 750.0
    if near:
        return w / (df * df + w * w) - base
    return 0.0


def voigt_sd(w0, w2c, z):
    """speed-dependent profile, Re part; w2c complex second-order width, z = (width, detuning) term"""
    xc = z / w2c
    xrt = np.sqrt(xc)
    pxw = 1.77245385090551603 * xrt * _dcerror(-np.imag(xrt), np.real(xrt))
    return np.real(2.0 * (1.0 - pxw) / w2c)


def h2o(model, t, pdrykpa, vx, ekpa, frq):
    """(line, continuum) in ppm of refractivity"""
    temp = 300.0 / vx
    p = (pdrykpa + ekpa) * 10.0
    rho = ekpa * 10.0 / (0.01 * 8.31451 / 18.01528 * temp)
    if rho <= 0.0:
        return 0, 0
    if model in ('R98', 'R03', 'R16', 'R17'):
        pv = rho * temp / 217.0
    elif model in ('R22SD', 'R23SD', 'R24', 'MWL24'):
        pv = constants('Rwatvap')[0] * 1e-05 * rho * temp
    else:
        pv = rho * temp / 216.68
    pd = p - pv
    # continuum, np/km
    tic = t['reftcon'] / temp
    if model in ('R98', 'R03'):
        con = (5.43e-10 * pd * tic ** 3 + 1.8e-08 * pv * tic ** 7.5) * pv * frq ** 2
    elif model == 'MWL24':
        con = H2OAbsModel().h2o_continuum_mwl24(frq, vx) * pv ** 2 + 7.1e-10 * (300.0 / temp) ** 4.4 * frq ** 1.96 * pd * pv
    elif model in ('R23SD', 'R24'):
        til = t['reftline'] / temp
        if t['cs'] > 0:
            self_ = t['cs'] * til ** t['xcs']
        else:
            self_ = H2OAbsModel().h2o_continuum(frq, vx, 1)
        con = (t['cf'] * til ** t['xcf'] * pd + self_ * pv) * pv * frq ** 2
    else:
        con = (t['cf'] * pd * tic ** t['xcf'] + t['cs'] * pv * tic ** t['xcs']) * pv * frq ** 2
    # lines
    ti = t['reftline'] / temp
    tiln = np.log(ti)
    total = 0.0
    for i in range(len(t['fl'])):
        wf = t['w0'][i] * pd * ti ** t['x'][i]
        ws = t['w0s'][i] * pv * ti ** t['xs'][i]
        w = wf + ws
        if model == 'R98':
            shift = 0.0
        elif model == 'R03':
            shift = t['sr'][i] * w
        elif model in ('R16', 'R17'):
            shift = t['sr'][i] * wf
        elif model == 'R18':
            shift = t['sh'][i] * pd * ti ** t['xh'][i] + t['shs'][i] * pv * ti ** t['xhs'][i]
        else:
            shift = t['sh'][i] * pd * (1.0 - t['aair'][i] * tiln) * ti ** t['xh'][i] + t['shs'][i] * pv * (1.0 - t['aself'][i] * tiln) * ti ** t['xhs'][i]
        if model in ('R19SD', 'R20SD', 'R21SD', 'R22SD', 'R23SD', 'R24', 'MWL24'):
            ti25 = np.exp(2.5 * tiln)
        else:
            ti25 = ti ** 2.5
        s = t['s1'][i] * ti25 * np.exp(t['b2'][i] * (1.0 - ti))
        base = w / (562500.0 + w ** 2)
        dm = frq - t['fl'][i] - shift
        dp = frq + t['fl'][i] + shift
        if model in ('R98', 'R03', 'R16', 'R17'):
            res = lorentz(dm, w, base, False) + lorentz(dp, w, base, False)
        elif model in ('R18', 'R19', 'R20'):
            res = lorentz(dm, w, base, True) + lorentz(dp, w, base, True)
        else:
            if model in ('R19SD', 'R20SD'):
                w2 = t['w2'][i] * pd + t['w2s'][i] * pv
            elif t['w2'][i] > 0:
                w2 = t['w2'][i] * pd * ti ** t['xw2'][i] + t['w2s'][i] * pv * ti ** t['xw2s'][i]
            else:
                w2 = 0
            if model == 'R19SD':
                d2 = 0.0
            elif model == 'R20SD':
                if i == 1:
                    d2 = t['d2air'] * pd + t['d2self'] * pv
                else:
                    d2 = 0.0
            else:
                d2 = t['d2'][i] * pd + t['d2s'][i] * pv
            if w2 > 0 and np.abs(dm) < 10 * w:
                res = voigt_sd(w, complex(w2, -d2), complex(w - 1.5 * w2, dm + 1.5 * d2)) - base
            else:
                res = lorentz(dm, w, base, True)
            res = res + lorentz(dp, w, base, True)
        total += s * res * (frq / t['fl'][i]) ** 2
    if model in ('R22SD', 'R23SD', 'R24'):
        line = 1e-10 * rho * total / (np.pi * 2.9915075E-23)
    elif model in ('R98', 'R03', 'R16'):
        line = 3.1831e-05 * 3.335e+16 * rho * total
    else:
        line = 3.1831e-05 * 3.344e+16 * rho * total
    return line / DB2NP / (0.182 * frq), con / DB2NP / (0.182 * frq)


def o2_table(model):
    """the parameters of an oxygen line list, by physical quantity"""
    nc = Dataset(os.path.join(DIR, 'o2_lineshape.nc'), mode='r')
    v = nc.groups[model].variables
    t = {'f': v['f'][:].data, 's300': v['s300'][:].data, 'be': v['be'][:].data, 'w300': v['w300'][:].data,
         'wb300': v['wb300'][:].data.item(), 'x': v['x'][:].data.item()}
    if model in ('R98', 'R03', 'R17', 'R18', 'R19', 'R19SD'):
        t['y'] = v['y300'][:].data
        t['yt'] = v['v'][:].data
    elif model in ('R23', 'R24'):
        t['y'] = v['y300'][:].data
        t['yt'] = v['y1'][:].data
    else:
        t['y'] = v['y0'][:].data
        t['yt'] = v['y1'][:].data
    if model in ('R16', 'R20', 'R20SD', 'R22', 'R23', 'R24'):
        t['g'] = v['g0'][:].data
        t['gt'] = v['g1'][:].data
        t['dnu'] = v['dnu0'][:].data
        t['dnut'] = v['dnu1'][:].data
    nc.close()
    return t


def first_line_sd(width, df, y):
    """speed-dependent shape of the 118-GHz line with mixing"""
    w2 = .076 * width
    xc = complex(width - 1.5 * w2, df) / w2
    xrt = np.sqrt(xc)
    pxw = 1.77245385090551603 * xrt * _dcerror(-np.imag(xrt), np.real(xrt))
    return np.real(complex(1., y) * 2. * (1. - pxw) / w2)


def mixed(width, df, y, gfac, sgn):
    return (width * gfac + sgn * df * y) / (df ** 2 + width ** 2)


def o2(model, t, pdrykpa, vx, ekpa, frq):
    """(resonant, non-resonant) in ppm of refractivity"""
    temp = 300.0 / vx
    th = vx
    th1 = th - 1.0
    pres = (pdrykpa + ekpa) * 10.0
    vapden = ekpa * 10.0 / (0.01 * 8.314510 / 18.01528 * temp)
    if model in ('R98', 'R03', 'R16', 'R17', 'R18'):
        pv = vapden * temp / 217.0
    elif model in ('R22', 'R23', 'R24'):
        pv = 4.615228e-3 * vapden * temp
    else:
        pv = vapden * temp / 216.68
    pd = pres - pv
    bth = th ** t['x']
    if model == 'R98':
        den = .001 * (pd + 1.1 * pv) * th
    elif model == 'R03':
        den = .001 * (pd * th ** 0.9 + 1.1 * pv * th)
    elif model == 'R16':
        den = .001 * (pd * bth + 1.1 * pv * th)
    else:
        den = .001 * (pd * bth + 1.2 * pv * th)
    f2 = frq * frq
    wnr = t['wb300'] * den
    nonres = f2 * wnr / (th * (f2 + wnr * wnr))
    n = len(t['f'])
    if model == 'R23':
        pe1 = .99 * den
        pe2 = pe1 ** 2
        num = 0.
        anorm = 0.
        for k in range(n):
            if k > 0 and k <= 37:
                a = t['s300'][k] * np.exp(-t['be'][k] * th1) / t['f'][k] ** 2
                num += a * (t['g'][k] + t['gt'][k] * th1)
                anorm += a
        off = num / anorm
        total = 1.584e-17 / th * wnr / (f2 + wnr * wnr)
        for k in range(n):
            a = t['s300'][k] * np.exp(-t['be'][k] * th1) / t['f'][k] ** 2
            width = t['w300'][k] * den
            y = pe1 * (t['y'][k] + t['yt'][k] * th1)
            gfac = 1.
            if k > 0 and k <= 37:
                gfac = 1. + pe2 * (t['g'][k] + t['gt'][k] * th1 - off)
            fcen = t['f'][k] + pe2 * (t['dnu'][k] + t['dnut'][k] * th1)
            if k == 0 and np.abs(frq - fcen) < 10. * width:
                near = first_line_sd(width, frq - fcen, y)
            else:
                near = mixed(width, frq - fcen, y, gfac, 1.)
            total += a * (near + mixed(width, frq + fcen, y, gfac, -1.))
            if k == 37:
                total = np.maximum(total, 0.)
        o2abs = np.maximum(1.6097e+11 * total * pd * f2 * th ** 3, 0.0)
    elif model == 'R24':
        pe1 = den
        pe2 = pe1 ** 2
        anorm = 0.
        sumy = 1.584e-17 * t['wb300']
        sumg = 0.
        asq = 0.
        a = np.zeros(n)
        y = np.zeros(n)
        g = np.zeros(n)
        for k in range(n):
            a[k] = t['s300'][k] * np.exp(-t['be'][k] * th1) * th / t['f'][k] ** 2
            y[k] = .99 * (t['y'][k] + t['yt'][k] * th1)
            if k <= 37:
                sumy += 2. * a[k] * (t['w300'][k] + y[k] * t['f'][k])
            g[k] = t['g'][k] + t['gt'][k] * th1
            if k > 0 and k <= 37:
                sumg += a[k] * g[k]
                asq += a[k] ** 2
                anorm += a[k]
        bias = sumy / (2. * anorm)
        ratio = sumg / asq
        for k in range(1, 38):
            y[k] -= bias / t['f'][k]
            g[k] -= a[k] * ratio
        total = 1.584e-17 * wnr / (f2 + wnr * wnr)
        for k in range(n):
            width = t['w300'][k] * pe1
            yk = pe1 * y[k]
            gfac = 1.
            if k > 0 and k <= 37:
                gfac = 1. + pe2 * g[k]
            fcen = t['f'][k] + pe2 * (t['dnu'][k] + t['dnut'][k] * th1)
            if k == 0 and np.abs(frq - fcen) < 10. * width:
                near = first_line_sd(width, frq - fcen, yk)
            else:
                near = mixed(width, frq - fcen, yk, gfac, 1.)
            total += a[k] * (near + mixed(width, frq + fcen, yk, gfac, -1.))
        o2abs = np.maximum(1.6097e+11 * total * pd * (frq * th) ** 2, 0.0)
    else:
        if model in ('R98', 'R03', 'R16', 'R17', 'R18'):
            total = 0.0
        else:
            total = 1.584e-17 * nonres
        for k in range(n):
            width = t['w300'][k] * den
            if model in ('R98', 'R03'):
                y = .001 * pres * bth * (t['y'][k] + t['yt'][k] * th1)
            else:
                y = den * (t['y'][k] + t['yt'][k] * th1)
            gfac = 1.
            fcen = t['f'][k]
            if model in ('R16', 'R20', 'R20SD', 'R22'):
                gfac = 1. + den * den * (t['g'][k] + t['gt'][k] * th1)
                fcen = t['f'][k] + den * den * (t['dnu'][k] + t['dnut'][k] * th1)
            s = t['s300'][k] * np.exp(-t['be'][k] * th1)
            total += s * (mixed(width, frq - fcen, y, gfac, 1.) + mixed(width, frq + fcen, y, gfac, -1.)) * (frq / t['f'][k]) ** 2
        if model in ('R98', 'R03'):
            o2abs = 5.034e+11 * total * pd * th ** 3 / 3.14159
        else:
            o2abs = 1.6097e+11 * total * pd * th ** 3
        if model != 'R98':
            o2abs = np.maximum(o2abs, 0.0)
        if model in ('R20', 'R20SD', 'R22'):
            o2abs = 1.004 * o2abs
    if model in ('R98', 'R03'):
        cont = 1.6e-17 * nonres * 5.034e+11 * pd * th ** 3 / 3.14159
    elif model in ('R16', 'R17', 'R18'):
        cont = 1.584e-17 * nonres * 1.6097e11 * pd * th ** 3
    else:
        cont = 0     # already part of the resonant sum
    return o2abs / DB2NP / (0.182 * frq), cont / DB2NP / (0.182 * frq)


def o3_table(model):
    nc = Dataset(os.path.join(DIR, 'o3_lineshape.nc'), mode='r')
    d = nc.groups[model]
    m = d.variables['mtx'][:].data
    t = {'fl': m[:, 1], 's1': m[:, 2], 'b': m[:, 3], 'w': m[:, 4] / 1000.0, 'x': m[:, 5], 'reftline': d.variables['reftline'][:].data.item()}
    nc.close()
    return t


def o3(model, t, temp, p, f, o3n):
    """ozone, Np/km"""
    if not o3n > 0:
        return 0
    ti = t['reftline'] / temp
    summ = 0.0
    for k in range(len(t['fl'])):
        fl = t['fl'][k]
        if fl > f + 1.0:
            break
        if fl >= f - 1.0:
            wc = t['w'][k] * p * ti ** t['x'][k]
            s = t['s1'][k] * np.exp(t['b'][k] * (1.0 - ti))
            if model == 'R22':
                bd = .62065e-7 * fl * np.sqrt(temp)
                summ += s * np.real(_dcerror((fl - f) / bd, wc / bd)) / bd
            else:
                width = 0.5346 * wc + np.sqrt(0.2166 * wc * wc + 0.6931 * 3.85e-15 * temp * fl ** 2)
                summ += s * (f / fl) ** 2 * width / ((f - fl) ** 2 + width * width)
    if model == 'R22':
        c = .56419e-4
    else:
        c = 3.183e-05
    return c * summ * (1.0 - np.exp(-1008.0 / temp)) * ti ** 2.5 * (1e-06 * o3n)


def n2(model, t, p, f):
    """nitrogen, Np/km"""
    th = 300.0 / t
    cia = 0.5 + 0.5 / (1.0 + (f / 450.0) ** 2)
    if model == 'R98':
        return 6.4e-14 * p * p * f * f * th ** 3.55
    if model == 'R03':
        return 1.29 * 6.5e-14 * cia * p * p * f * f * th ** 3.6
    if model in ('R16', 'R17', 'R18', 'R19', 'R19SD'):
        return 1.34 * 6.5e-14 * cia * p * p * f * f * th ** 3.6
    if model == 'MWL24':
        return 0.84 * 1e5 * N2AbsModel.n2_absorption_mwl24(t, p, f)
    return 9.95e-14 * cia * p * p * f * f * th ** 3.22


def n2_mwl24(t, p, f):
    """nitrogen, 1/cm"""
    ti = 300. / t
    torr = p * 0.7500616827
    d = 108. / (0.6950354549 * t)
    dr = 108. / (0.6950354549 * 300.)
    pot = (np.exp(d) - 1. - d) / (np.exp(dr) - 1. - dr)
    m0 = 1.4359 - 0.0005385 * f + 1.6182e-7 * f ** 2 + 1.8845e-10 * f ** 3
    aa = 0.07988 - 0.0005165 * f + 1.131e-6 * f ** 2 - 5.738e-10 * f ** 3
    shape = 1. + 1.033 * (1. + 0.1510 / (1. + ((f - 358.) / 127.) ** 2)) / (1. + ((f - 44.) / 568.) ** 2) \
        + 0.1420 * np.exp(-(f / 92. - 1.) ** 2)
    return 1.754e-18 * 0.5 * shape * ti ** (m0 + aa * np.log(ti)) * pot * torr ** 2 * f ** 2


def liquid(model, water, freq, temp):
    """cloud droplets, Np/km"""
    if water <= 0:
        return 0
    if model in ('R98', 'R03'):
        th1 = 1.0 - 300.0 / temp
        e0 = 77.66 - 103.3 * th1
        e1 = 0.0671 * e0
        if model == 'R98':
            fp = 316.0 * th1 * th1 + 146.4 * th1 + 20.2
        else:
            fp = 20.1 * np.exp(7.88 * th1)
        eps = (e0 - e1) / complex(1.0, freq / fp) + (e1 - 3.52) / complex(1.0, freq / (39.8 * fp)) + 3.52
    else:
        eps = dilec12(freq, temp)
    return -0.06286 * np.imag((eps - 1.0) / (eps + 2.0)) * freq * water


def permittivity(f, t):
    """complex permittivity of liquid water (Rosenkranz 2015)"""
    tc = t - 273.15
    th = 300.0 / t
    z = complex(0.0, f)
    k = -43.7527 * th ** 0.05 + 299.504 * th ** 1.47 - 399.364 * th ** 2.11 + 221.327 * th ** 2.31
    k = k - 80.69715 * np.exp(-tc / 226.45) * z / (1164.023 * np.exp(-651.4728 / (tc + 133.07)) + z)
    half = 4.008724 * np.exp(-tc / 103.05) / 2.0
    f1 = 10.46012 + 0.1454962 * tc + 0.063267156 * tc ** 2 + 0.00093786645 * tc ** 3
    z1 = complex(-0.75, 1.0) * f1
    z2 = complex(-4500.0, 2000.0)
    norm = np.log(z2 / z1)
    c1 = half * np.log((z - z2) / (z - z1)) / norm
    c2 = half * np.log((z - np.conj(z2)) / (z - np.conj(z1))) / np.conj(norm)
    return k + c1 + c2 - 2 * half


def cerror(x, y):
    """complex error function, sixth-order rational approximation (Hui et al. 1978)"""
    zh = complex(np.abs(y), -x)
    a = 122.607931777104326 + 214.382388694706425 * zh + 181.928533092181549 * zh ** 2 + 93.155580458138441 * zh ** 3 \
        + 30.180142196210589 * zh ** 4 + 5.912626209773153 * zh ** 5 + 0.564189583562615 * zh ** 6
    b = 122.607931773875350 + 352.730625110963558 * zh + 457.334478783897737 * zh ** 2 + 348.703917719495792 * zh ** 3 \
        + 170.354001821091472 * zh ** 4 + 53.992906912940207 * zh ** 5 + 10.479857114260399 * zh ** 6 + zh ** 7
    if y >= 0:
        return a / b
    return 2.0 * np.exp(-complex(x, y) ** 2) - a / b


def h2o_self(frq, vx):
    """MT_CKD water-vapour self continuum by four-point interpolation"""
    nf = 6
    con = [2.855e-21, 2.877e-21, 2.855e-21, 2.731e-21, 2.49e-21, 2.178e-21, 1.863e-21]
    ex = [6.414, 6.413, 6.414, 6.275, 6.049, 5.789, 5.557]
    th = 296. / (300.0 / vx)
    a = np.zeros(7)
    for i in range(7):
        a[i] = 6.532e+12 * con[i] * th ** (ex[i] + 3.)
    fj = frq / 299.792458
    j = np.minimum(int(fj), nf - 2)
    p = fj - j
    c = (3. - 2. * p) * p * p
    b = 0.5 * p * (1. - p)
    b1 = b * (1. - p)
    b2 = b * p
    return -a[j] * b1 + a[j + 1] * (1. - c + b2) + a[j + 2] * (c + b1) - a[j + 3] * b2


def h2o_self_mwl24(frq, vx):
    """MWL24 water-vapour self continuum"""
    atm = 1013.25
    t = 300.0 / vx
    bt = -7.804242E+6 + 8.345651E+4 * t - 4.212794E+2 * t ** 2 + 1.242946 * t ** 3 - 2.409822E-3 * t ** 4 + 3.017768E-6 * t ** 5 \
        - 2.518957E-9 * t ** 6 + 1.350628E-12 * t ** 7 - 4.134191E-16 * t ** 8 + 5.530774E-20 * t ** 9
    bt = -bt * (100. / t) ** 6
    kb = 4.7856E-4 * np.exp(1669.8 / t - 5.10485E-3 * t)
    km = ((bt - 30.5) / (82.05746 * t) - kb) / atm
    kb = kb / atm
    bd = (5.55E-8 / (434.8 * 434.8 + (frq - 219.5) ** 2) + 4.93E-10 / (21.06 * 21.06 + frq * frq) + 1.34E-14) * (268.0 / t) ** 10.0
    md = (1.E-13 * (4.06 + 7.12E-3 * frq) / atm * (1 - 0.7) * (266.0 / t) ** 2.9 + 0.7 * bd / kb) * km
    fw = 8.5E-15 * frq ** 2.2 * (296.0 / t) ** 1.5
    return ((bd + md) * frq ** 2 + fw) * 1.E5

"""C16: extending a measured profile upwards."""
from fractions import Fraction

from ..harness import *
from ..core import *
from ..regions import fval
from .c15 import EX
from ._rte import sym

EXPLANATION = ('profile_extrapolation is interpreted twice in a row on the same arrays. (a) For three measured levels with symbolic heights and values: the first three entries of every returned array must be the measured ones, '
               'whatever branch is taken. (b) For a set of height grids given as constants (tops from 0.1 to 110 km, ascending and descending, both latitudes and all seasons) with symbolic measured values: '
               'lengths must agree, appended heights must lie above the measured top and ascend, and each appended pressure, temperature and humidity must be that of the reference atmosphere at its own level.')
F = Fraction
GRIDS = [('0', '0.05', '0.1'), ('0', '.5', '1'), ('0', '1', '3.3'), ('.2', '1', '8.9'), ('0', '1', '12'), ('0', '20', '30.5'), ('0', '30', '46.7'), ('0', '30', '46.8'), ('0', '20', '48.1'), ('0', '20', '49.9'),
         ('0', '20', '50'), ('0', '20', '50.2'), ('0', '20', '63'), ('0', '50', '99.9'), ('0', '50', '100'), ('0', '60', '110'), ('8', '4', '0'), ('60', '4', '0'), ('0', '5', '3'), ('0', '52', '48')]
PLACES = [(30, 7, 'summer'), (30, 1, 'winter'), (-30, 1, 'summer'), (-30, 7, 'winter'), (60, 8, 'summer'), (60, 12, 'winter'), (-60, 2, 'summer'), (-60, 6, 'winter'), (10, 7, 'standard'), (-10, 1, 'standard'),
          (45, 4, 'standard'), (-70, 10, 'standard'), (20, 7, 'standard'), (21, 7, 'summer'), (0, 3, 'standard')]
NAMES = ('height', 'pressure', 'temperature', 'humidity')


def call(s, z, lat, month, data):
    ex = s.call(s.get(EX, 'ProfileExtrapolation'))
    r = [s.method(ex, 'profile_extrapolation', lat, month, z, Tup(list(data))) for _ in (0, 1)]
    out = []
    for x in r:
        if not isinstance(x, Tup) or len(x.items) != 4:
            raise Undecided('result is not four arrays')
        out.append([s.final(s.t(y)) for y in x.items])
    return out


def three(s, name):
    return s.I.new_arr(tm.mk('arr', *[sym(f'{name}{i}', 0) for i in range(3)], rank=1))


def near(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(abs(a), abs(b), 1e-290)


def run(ctx):
    ctx.rule('measured', 'the measured levels come first, unchanged, in all four arrays')
    ctx.rule('above', 'appended levels lie above the highest measured one, each above the one before')
    ctx.rule('aligned', 'the four arrays have the same length, and an appended entry belongs to the level at the same position')
    ctx.rule('repeat', 'a second call with the same arguments returns the same, and the arguments are left alone')
    where = Session().where(EX, 'ProfileExtrapolation', 'profile_extrapolation')

    def measured():
        s = Session()
        z = three(s, 'z')
        zs = [sym(f'z{i}', 0) for i in range(3)]
        data = [three(s, k) for k in ('p', 't', 'rh')]
        a, b = call(s, z, sym('lat', 0), sym('month', 0), data)
        ctx.seen(s)
        want = [[*zs]] + [[tm.idx(s.t(d), (num(i),)) for i in range(3)] for d in data]
        pairs = {}
        for n, x, y, w in zip(NAMES, a, b, want):
            for i in range(3):
                pairs['measured', n, i] = tm.idx(x, (num(i),)), w[i]
                pairs['repeat', n, i] = tm.idx(y, (num(i),)), w[i]
        for d, n, w in zip([z] + data, ('z', 'p', 't', 'rh'), want):
            for i in range(3):
                pairs['repeat', 'argument ' + n, i] = tm.idx(s.t(d), (num(i),)), w[i]
        put(ctx, pairs, where, 'symbolic heights')
    ctx.guard('measured', 'symbolic heights', measured, dead='violated')

    for gi, g in enumerate(GRIDS):
        for pi, (lat, month, season) in enumerate(PLACES):
            if not ctx.thorough and gi % 3 and (gi + pi) % 4:
                continue

            def go():
                grid(ctx, [F(x) for x in g], lat, month, season, where)
            ctx.guard('aligned', f'heights {",".join(g)} latitude {lat} month {month}', go, dead='violated')


def put(ctx, pairs, where, lab):
    res = ctx.decide_all(pairs)
    for rule, n in dict.fromkeys(k[:2] for k in pairs):
        r = [v for k, v in res.items() if k[:2] == (rule, n)]
        cons = f'{lab}: {n}'
        if any(v[0] == 'different' for v in r):
            ctx.bad(rule, cons, where, [v[1] for v in r if v[0] == 'different'][0])
        elif any(v[0] == 'unknown' for v in r):
            ctx.unk(rule, cons, where, [v[1] for v in r if v[0] == 'unknown'][0])
        else:
            ctx.ok(rule, cons)


def grid(ctx, hs, lat, month, season, where):
    lab = f'heights {",".join(str(float(x)) for x in hs)} latitude {lat} month {month}'
    s = Session()
    z = s.I.new_arr(tm.mk('arr', *[num(h) for h in hs], rank=1))
    data = [three(s, k) for k in ('p', 't', 'rh')]
    first, second = call(s, z, num(lat), num(month), data)
    ctx.seen(s)
    ns = [tm.length(x) for x in first]
    if not all(tm.isnum(n) for n in ns):
        raise Undecided('length not a number: ' + ', '.join(tm.show(n, 3) for n in ns))
    ns = [int(tm.cval(n)) for n in ns]
    if not ctx.must(len(set(ns)) == 1, 'aligned', lab + ': length', where, 'lengths ' + ', '.join(map(str, ns))):
        return
    top = float(max(hs))
    el = [[tm.idx(x, (num(i),)) for i in range(ns[0])] for x in first]
    want = [[num(h) for h in hs]] + [[tm.idx(s.t(d), (num(i),)) for i in range(3)] for d in data]
    pairs = {('measured', n, i): (e[i], w[i]) for n, e, w in zip(NAMES, el, want) for i in range(3)}
    pairs.update({('repeat', n, i): (tm.idx(y, (num(i),)), e[i]) for n, e, y in zip(NAMES, el, second) for i in range(ns[0])})
    for d, n, w in zip([z] + data, ('z', 'p', 't', 'rh'), want):
        pairs.update({('repeat', 'argument ' + n, i): (tm.idx(s.t(d), (num(i),)), w[i]) for i in range(3)})
    put(ctx, pairs, where, lab)
    # appended levels
    last = top
    ok = True
    for i in range(3, ns[0]):
        h = fval(el[0][i])
        ok &= ctx.must(h > last, 'above', lab + (f': level {i}' if h <= last else ''), where, f'{h} km after {last} km (measured top {top} km)')
        last = h
    rho2rh = s.get(UT, 'rho2rh')
    std = season == 'standard'
    for i in range(3, ns[0]):
        h = el[0][i]
        ref = {}
        for n, f in (('pressure', 'pressure'), ('temperature', 'temperature'), ('w', 'water_vapour_density')):
            if std:
                args = (h,) if n != 'w' else (h, num(2), num(F(15, 2)))
                ref[n] = s.t(s.spec('atmosphere', 'standard_' + f, *args))
            else:
                ref[n] = s.t(s.spec('atmosphere', f, num(lat), h, const(season)))
        rh = s.t(s.call(rho2rh, ref['w'], ref['temperature'], ref['pressure']).items[0])
        ref['humidity'] = tm.div(rh, num(100))
        for n, e in zip(NAMES[1:], el[1:]):
            a, b = fval(e[i]), fval(ref[n])
            ctx.must(near(a, b, 1e-6), 'aligned', f'{lab}: {n}' + ('' if near(a, b, 1e-6) else f' at level {i}'), where,
                     f'{a:.8g} at {fval(h):g} km, the reference atmosphere has {b:.8g}')

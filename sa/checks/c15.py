"""C15: the reference atmospheres of the extrapolation."""
from fractions import Fraction

from ..harness import *
from ..core import *
from ..regions import reps, region, at, fval, constants
from ._rte import sym

EX = 'pyrtlib.climatology.extrapolation'
EXPLANATION = ('Temperature, pressure and water vapour density are interpreted for symbolic heights (scalar and array). The value graph is split at every height breakpoint of the code and of ITU-R P.835-6 and '
               'at the latitude limits; on each region (and at each limit) it is compared with the formula of the recommendation, and no region between 0 and 100 km may give an undefined value. '
               'Season selection must agree between a latitude and its opposite six months apart.')
LATS = [Fraction(x) for x in ('0', '10', '21.99', '22', '30', '44.99', '45', '60', '90')]
QUANT = dict(temperature='temperature', pressure='pressure', water_vapour_density='water_vapour_density')
RE = Fraction('6356.766')


def breakpoints(*ts):
    out = set()
    for t in ts:
        for c in constants(t):
            if 0 < c <= 100:
                out.add(c)
                out.add(RE * c / (RE - c))
    return out


def run(ctx):
    ctx.rule('formula', 'the value at a height is that of the formula of its band, season and height segment')
    ctx.rule('defined', 'no height between 0 and 100 km gives an undefined value')
    ctx.rule('mirror', 'a latitude and its opposite have the same atmosphere in the matching season')
    S = Session()
    S.mod(EX)
    wh = lambda *n: S.where(EX, *n)

    def inst(s):
        return s.call(s.get(EX, 'ProfileExtrapolation'))

    def heights(s, kind):
        """height argument, the scalar it stands for, how to get the scalar result"""
        if kind == 'scalar':
            h = sym('h', 0)
            return h, h, lambda r: r
        a = s.prof('hs')
        i = sym('i', 0)
        return a, tm.idx(s.t(a), (i,)), lambda r: tm.idx(r, (i,))

    def judge(cons, t, ref, h, lab, where):
        """one height segmentation"""
        bad = und = None
        pairs, info = {}, {}
        n = 0
        for x, edge in reps(breakpoints(t, ref), 0, 100):
            n += 1
            if edge:
                a, b = at(t, h, x), at(ref, h, x)
                try:
                    u, v = fval(a), fval(b)
                except Undecided as e:
                    und = und or str(e)
                    continue
                if u != u and v == v:
                    ctx.bad('defined', f'{cons} at {float(x):.4f} km', where, 'not a number')
                    bad = True
                elif abs(u - v) > 3e-3 * abs(v) + 1e-300:
                    bad = f'at {float(x):.4f} km: {u:.6g}, should be {v:.6g}'
            else:
                pairs[x] = region(t, h, x), region(ref, h, x)
        res = ctx.decide_all(pairs)
        for x, r in res.items():
            if r[0] == 'equal':
                continue
            try:        # a difference has to show in the numbers as well
                u, v = fval(at(pairs[x][0], h, x)), fval(at(pairs[x][1], h, x))
            except Undecided as e:
                und = und or str(e)
                continue
            if u != u:
                ctx.bad('defined', f'{cons} around {float(x):.3f} km', where, 'not a number')
                bad = bad or True
            elif abs(u - v) > 1e-9 * abs(v):
                bad = f'around {float(x):.3f} km: {u:.6g}, should be {v:.6g}'
        ctx.count('height_regions', n)
        if isinstance(bad, str):
            ctx.bad('formula', cons, where, bad)
        elif und and not bad:
            ctx.unk('formula', cons, where, und)
        elif not bad:
            ctx.ok('formula', cons)
            ctx.ok('defined', cons)

    for f in QUANT:
        for season in ('summer', 'winter'):
            for kind in ('scalar', 'array'):
                def go():
                    s = Session()
                    lat = sym('lat', 0)
                    h, hv, el = heights(s, kind)
                    r = el(s.final(s.t(s.method(inst(s), f, lat, h, const(season)))))
                    ctx.seen(s)
                    for l in LATS:
                        ref = s.t(s.spec('atmosphere', f, num(l), hv, const(season)))
                        for sg in (1, -1) if l else (1,):
                            judge(f'{f} {season} {kind} latitude {float(sg * l):g}', tm.subst(r, {lat: num(sg * l)}), ref, hv, '', wh('ProfileExtrapolation', f))
                ctx.guard('formula', f'{f} {season} {kind}', go, dead='violated')

    h0, rho0 = sym('h_0', 0, 1), sym('rho_0', 0, 1)
    std = {'standard_temperature': ((sym('T_0', 0, 1),), ()), 'standard_pressure': ((sym('T_0', 0, 1), sym('P_0', 0, 1)), ()),
           'standard_water_vapour_density': ((h0, rho0), (h0, rho0)), 'standard_water_vapour_pressure': ((h0, rho0), (h0, rho0))}
    for f, (args, rargs) in std.items():
        for kind in ('scalar', 'array'):
            def go():
                s = Session()
                h, hv, el = heights(s, kind)
                r = el(s.final(s.t(s.method(inst(s), f, h, *args))))
                ctx.seen(s)
                ref = s.t(s.spec('atmosphere', f, hv, *rargs))
                fix = {h0: num(2), rho0: num(Fraction(15, 2)), **{a: num(v) for a, v in zip(args, (288, 1013)) if a not in (h0, rho0)}}
                if rargs:
                    d = ctx.decide_all({x: (region(r, hv, x), region(ref, hv, x)) for x, e in reps(breakpoints(r, ref), 0, 100) if not e})
                    worst = [v for v in d.values() if v[0] == 'different']
                    if worst:
                        ctx.bad('formula', f'{f} {kind} any scale', wh('ProfileExtrapolation', f), worst[0][1])
                judge(f'{f} {kind}', tm.subst(r, fix), tm.subst(ref, fix), hv, '', wh('ProfileExtrapolation', f))
            ctx.guard('formula', f'{f} {kind}', go, dead='violated')

    def mirror():
        for m in range(1, 13):
            m2 = (m + 5) % 12 + 1
            for l in [Fraction(x) for x in ('0', '10', '20', '20.01', '21', '22', '30', '45', '60', '90')]:
                s = Session()
                r = inst(s)
                a, b = (s.t(s.method(r, '_get_season', num(l * g), num(k))) for g, k in ((1, m), (-1, m2)))
                want = 'standard' if l <= 20 or m not in (1, 2, 6, 7, 8, 12) else 'summer' if m in (6, 7, 8) else 'winter'
                cons = f'season of latitude {float(l):g}, month {m}'
                if not (tm.isconst(a) and tm.isconst(b)):
                    ctx.unk('mirror', cons, wh('ProfileExtrapolation', '_get_season'), 'not a constant')
                    continue
                ctx.must(a is b and tm.cval(a) == want, 'mirror', cons, wh('ProfileExtrapolation', '_get_season'), f'{tm.cval(a)} north, {tm.cval(b)} south, should be {want}')
    ctx.guard('mirror', 'season', mirror)

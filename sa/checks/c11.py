"""C11: quantities cross internal interfaces in the unit the receiving side documents."""
from fractions import Fraction

from ..harness import *
from ..core import *
from . import c03, c04, c05, c15, c19, c20, c23, c24, c26, c28, c29
from ._rte import *
from ._rte import hooks as rte_hooks
from .c14 import q
from .c15 import EX


EXPLANATION = ('Interfaces: every call of a documented routine by another part of the package is recorded while the calling routine is interpreted on symbolic profiles in documented units; each argument that '
               'is a physical quantity must, by value numbering, be that quantity in the unit the called routine documents. Receivers: the value graph of each receiving routine is compared with its published '
               'formula in documented units; a difference is a violation of this property when a change of unit explains it (one argument rescaled or shifted, or constants that differ by a power of ten, '
               'by the Celsius offset or by the degree).')
AMQ = 'pyrtlib.absorption_model.'
POW = [Fraction(10) ** k for k in (1, -1, 2, -2, 3, -3, 4, -4, 5, -5, 6, -6, 9, -9)]
OFF = [Fraction(x) for x in ('273.15', '-273.15', '273.16', '-273.16', '273.25', '-273.25', '273', '-273')]


def factors():
    deg = tm.div(tm.PI, num(180))
    return [(str(float(c)), num(c)) for c in POW + [Fraction(60), Fraction(1, 60), Fraction(3600), Fraction(1, 3600)]] + [('pi/180', deg), ('180/pi', tm.div(ONE, deg))]


def bases(t):
    return {tm.show(x).split('@')[0].split('_up')[0] for x in tm.walk(t) if x.op in ('sym', 'ncdata')}


def relation(ctx, a, b, depth=0):
    """('equal' | 'bad' | 'unknown', text): is a the quantity b, or b in another unit, or something else"""
    r = ctx.decide(a, b)
    if r[0] != 'different':
        return r[0], str(r[1])
    for name, u in factors():
        if ctx.decide(a, tm.mul(u, b))[0] == 'equal':
            return 'bad', f'{name} times the quantity in the documented unit'
    for o in OFF:
        if ctx.decide(a, tm.add(b, num(o)))[0] == 'equal':
            return 'bad', f'the quantity in the documented unit plus {float(o)}'
    c = next((x for x in tm.walk(a) if x.op == 'phi'), None)
    if c is not None and depth < 3:
        for v in (TRUE, FALSE):
            r2 = relation(ctx, tm.subst(a, {c.args[0]: v}), b, depth + 1)
            if r2[0] == 'bad' and ('times' in r2[1] or 'plus' in r2[1]):
                return 'bad', r2[1] + (' when ' if v is TRUE else ' unless ') + tm.show(c.args[0], 3)[:80]
        return 'unknown', str(r[1])
    x, y = bases(a), bases(b)
    if x != y:
        return 'bad', 'computed from ' + ', '.join(sorted(x)) + ' and not from ' + ', '.join(sorted(y))
    inv = tm.mul(a, b)
    for name, u in [('1', ONE)] + factors():
        if ctx.decide(inv, u)[0] == 'equal':
            return 'bad', 'the reciprocal of the quantity'
    return 'unknown', str(r[1])


class Watchman:
    """records the arguments (as they are at the call) and the result of every call of some routines"""

    def __init__(self, s):
        self.s, self.calls = s, {}

    def watch(self, qual, opaque=None, then=None):
        """opaque: arguments of opaque_fn"""
        I = self.s.I
        self.calls[qual] = []
        if opaque:
            opaque_fn(I, qual, *opaque)
        inner = I.func_hooks.get(qual)

        def hook(I2, args, kw, node):
            f = find(I2, qual)
            env = I2.bind_args(f, args, kw, node)
            rec = {}
            for n, v in env.items():
                if n in ('self', 'cls'):
                    continue
                try:
                    rec[n] = self.s.final(I2.to_t(v))
                except Exception:
                    rec[n] = None
            r = inner(I2, args, kw, node) if inner else then(I2, args, kw, node) if then else None
            self.calls[qual].append((rec, r, getattr(node, 'lineno', 0)))
            return r
        I.func_hooks[qual] = hook


def judge(ctx, w, qual, want, n, where, caller):
    """every recorded call of qual: its arguments are the wanted quantities (as arrays, or all of one level)"""
    short = '.'.join(qual.split('.')[-2:]) if qual.split('.')[-2][0].isupper() else qual.split('.')[-1]
    calls = w.calls.get(qual, [])
    if not calls:
        for k in want:
            ctx.unk('interface', f'{caller} to {short}: {k}', where, 'no such call')
        return
    verdict = {}
    for rec, _, line in calls:
        for k, b in want.items():
            a = rec.get(k)
            if a is None:
                verdict.setdefault(k, []).append(('unknown', 'not followed'))
                continue
            cand = [b] if b.rank == 0 or n is None else [tm.idx(b, (num(i),)) for i in range(n)] if not a.rank else [b]
            if b.rank and a.rank:
                cand = [b]
                if n is not None:      # part of an array, cell by cell
                    cells = [(tm.idx(a, (num(i),)), tm.idx(b, (num(i),))) for i in range(n)]
                    res = [relation(ctx, x, y) for x, y in cells] if ctx.decide(a, b)[0] != 'equal' else [('equal', '')]
                    r = next((x for x in res if x[0] == 'bad'), next((x for x in res if x[0] == 'unknown'), res[0]))
                    verdict.setdefault(k, []).append(r)
                    continue
            # several candidates: levels, channels
            eq = [c for c in cand if ctx.decide(a, c)[0] == 'equal']
            if eq:
                r = 'equal', ''
            else:
                res = [relation(ctx, a, c) for c in cand]
                if all(x[0] == 'bad' for x in res):
                    r = res[0]
                else:
                    r = next((x for x in res if x[0] == 'bad' and 'times' in x[1] or 'plus' in x[1]), ('unknown', res[0][1]))
            verdict.setdefault(k, []).append(r)
    for k, rs in verdict.items():
        cons = f'{caller} to {short}: {k}'
        if any(r[0] == 'bad' for r in rs):
            ctx.bad('interface', cons, where, 'the value passed is ' + next(r[1] for r in rs if r[0] == 'bad'))
        elif any(r[0] == 'unknown' for r in rs):
            ctx.unk('interface', cons, where, next(r[1] for r in rs if r[0] == 'unknown'))
        else:
            ctx.ok('interface', cons, f'{len(rs)} calls')


# ------------------------------------------------------------------------------------------ the interfaces
def simulation(ctx):
    for cfg in (dict(), dict(ray=True), dict(cloudy=True), dict(cloudy=True, sat=True, ray=True), dict(sat=True, o3n=True), dict(mono=-1, cloudy=True)):
        def go():
            s = Session(sizes=dict(nl=3, nf=2, nang=1, ncld=1))
            s.mod(RT)
            w = Watchman(s)
            w.watch(RT + '.RTEquation.vapor', (2, 1, (2, 2)))
            w.watch(RT + '.RTEquation.refractivity', (3, 1, (2, 2, 1)))
            w.watch(CLEAR, (2, 1, (2, 2)))
            w.watch(CLOUD, (2, 1, (2, 2)))
            w.watch(RT + '.RTEquation.planck')
            w.watch(RT + '.RTEquation.ray_tracing', (1, 1))
            sat, mono = bool(cfg.get('sat')), cfg.get('mono', 1)
            rte = s.tb(cloudy=const(bool(cfg.get('cloudy'))), ray_tracing=const(bool(cfg.get('ray'))), from_sat=const(sat), o3n=True if cfg.get('o3n') else None, mono=mono)
            s.method(rte, 'init_absmdl', const('R19SD'))
            if cfg.get('cloudy'):
                s.clouds()
            s.method(rte, 'execute', FALSE)
            ctx.seen(s)
            d = inputs(s, cfg)
            T = lambda r: s.final(s.t(r))
            z, p, t, rh, frq, ang = (T(d[k]) for k in ('z', 'p', 't', 'rh', 'frq', 'ang'))
            v, r = w.calls[RT + '.RTEquation.vapor'], w.calls[RT + '.RTEquation.refractivity']
            where = s.where(TB, 'TbCloudRTE', 'execute')
            name = 'simulation ' + (' '.join(k for k in cfg) or 'plain')
            at = lambda qual, want, n=3: judge(ctx, w, qual, want, n, where, name)
            at(RT + '.RTEquation.vapor', dict(t=t, rh=rh))
            e = T(v[-1][1].items[0]) if v else None
            ref = T(r[-1][1].items[2]) if r else None
            if e is None:
                ctx.unk('interface', name + ': vapour pressure', where, 'vapor is not called')
                return
            at(RT + '.RTEquation.refractivity', dict(p=p, t=t, e=e))
            at(CLEAR, dict(p=p, t=t, e=e))
            two(ctx, w, CLEAR, 'frq', frq, where, name)
            if cfg.get('o3n'):
                at(CLEAR, {'o3n': T(s.prof('o3n'))})
            if cfg.get('cloudy'):
                at(CLOUD, dict(t=t, denl=T(d['denliq']), deni=T(d['denice'])))
                two(ctx, w, CLOUD, 'frq', frq, where, name)
            at(RT + '.RTEquation.planck', dict(t=t))
            two(ctx, w, RT + '.RTEquation.planck', 'frq', frq, where, name)
            if cfg.get('ray') and ref is not None:
                z0 = tm.idx(z, (ZERO,))
                at(RT + '.RTEquation.ray_tracing', dict(refindx=ref, angle=tm.idx(ang, (ZERO,)), z0=z0))
                heights(ctx, w, z, z0, where, name)
        ctx.guard('interface', 'simulation ' + ' '.join(cfg), go)


def heights(ctx, w, z, z0, where, name):
    """ray tracing takes km above z0"""
    judge(ctx, w, RT + '.RTEquation.ray_tracing', dict(z=tm.sub(z, z0)), 3, where, name)


def two(ctx, w, qual, k, frq, where, caller):
    """a scalar argument that is one of the two channels"""
    f = [tm.idx(frq, (num(i),)) for i in range(2)]
    short = '.'.join(qual.split('.')[-2:])
    cons = f'{caller} to {short}: {k}'
    rs = []
    for rec, _, line in w.calls.get(qual, []):
        a = rec.get(k)
        if a is None or a.rank:
            rs.append(('unknown', 'not one frequency'))
            continue
        res = [relation(ctx, a, c) for c in f]
        rs.append(next((x for x in res if x[0] == 'equal'), next((x for x in res if x[0] == 'bad' and ('times' in x[1] or 'plus' in x[1])), res[0])))
    put(ctx, cons, rs, where)


def put(ctx, cons, rs, where):
    if not rs:
        ctx.unk('interface', cons, where, 'no such call')
    elif any(r[0] == 'bad' for r in rs):
        ctx.bad('interface', cons, where, 'the value passed is ' + next(r[1] for r in rs if r[0] == 'bad'))
    elif any(r[0] == 'unknown' for r in rs):
        ctx.unk('interface', cons, where, next(r[1] for r in rs if r[0] == 'unknown'))
    else:
        ctx.ok('interface', cons, f'{len(rs)} calls')


def clear(ctx):
    def go():
        s = Session(sizes=dict(nl=3))
        s.mod(RT)
        s.mod(AM)
        w = Watchman(s)
        for qual, n, sg in ((H2O_, 2, (2, 2)), (O2_, 2, None), (N2_, 1, (2,)), (O3_, 1, (2,))):
            w.watch(qual, (n, 0, sg, True))
        s.I.setattr_(s.get(AM, 'N2AbsModel'), 'model', const('R98'), None)
        s.I.setattr_(s.get(AM, 'O3AbsModel'), 'model', const('R22'), None)
        P, T, E, f, O = s.prof('p'), s.prof('t'), s.prof('e'), sym('frq0', 0, 1), s.prof('o3n')
        s.call(s.get(RT, 'RTEquation', 'clearsky_absorption'), P, T, E, f, O, NONE)
        ctx.seen(s)
        p, t, e, o = (s.t(x) for x in (P, T, E, O))
        where = s.where(RT, 'RTEquation', 'clearsky_absorption')
        dry = tm.sub(p, e)
        kpa = lambda x: tm.div(x, num(10))
        gas = dict(pdrykpa=kpa(dry), vx=tm.div(num(300), t), ekpa=kpa(e), frq=f)
        judge(ctx, w, H2O_, gas, 3, where, 'clear sky')
        judge(ctx, w, O2_, gas, 3, where, 'clear sky')
        for qual, want in ((N2_, (t, dry, f)), (O3_, (t, p, f, o))):
            names = params(s, qual)
            judge(ctx, w, qual, dict(zip(names, want)), 3, where, 'clear sky')
    ctx.guard('interface', 'clear sky', go)


def params(s, qual):
    f = find(s.I, qual)
    return [a.arg for a in f.node.args.posonlyargs + f.node.args.args if a.arg not in ('self', 'cls')]


def cloud(ctx):
    def go():
        s = Session(sizes=dict(nl=3))
        s.mod(RT)
        s.mod(AM)
        w = Watchman(s)
        w.watch(LIQ_, (1, 0, (2,), True))
        T, L, D, f = s.prof('t'), s.prof('denliq'), s.prof('denice'), sym('frq0', 0, 1)
        s.call(s.get(RT, 'RTEquation', 'cloudy_absorption'), T, L, D, f)
        ctx.seen(s)
        names = params(s, LIQ_)
        judge(ctx, w, LIQ_, dict(zip(names, (s.t(L), f, s.t(T)))), 3, s.where(RT, 'RTEquation', 'cloudy_absorption'), 'cloud')
    ctx.guard('interface', 'cloud', go)

    for m in ('R98', 'R16', 'R24'):
        def liq():
            s = Session()
            s.mod(AM)
            s.mod(UT)
            w = Watchman(s)
            w.watch(UT + '.dilec12', (1, 0, None, True))
            c = s.get(AM, 'LiqAbsModel')
            s.I.setattr_(c, 'model', const(m), None)
            x, f, t = sym('droplets', 0, 1), sym('frq0', 0, 1), sym('temp', 0, 1)
            s.call(s.I.getattr_(c, 'liquid_water_absorption', None), x, f, t)
            ctx.seen(s)
            if m == 'R98' and not w.calls[UT + '.dilec12']:
                return
            judge(ctx, w, UT + '.dilec12', dict(zip(params(s, UT + '.dilec12'), (f, t))), None, s.where(AM, 'LiqAbsModel', 'liquid_water_absorption'), f'liquid {m}')
        ctx.guard('interface', f'liquid {m}', liq)


def radiance(ctx):
    for sat in (False, True):
        def go():
            s = Session(sizes=dict(nl=3))
            s.mod(RT)
            s.mod(UT)
            w = Watchman(s)
            w.watch(UT + '.tk2b_mod', (1, 0, (1,), True))
            c = s.get(RT, 'RTEquation')
            s.I.setattr_(c, '_from_sat', const(sat), None)
            s.I.setattr_(c, '_emissivity', sym('emis', 0, 1), None)
            f = sym('frq0', 0, 1)
            T, tau = s.prof('t'), s.prof('taulay')
            s.call(s.I.getattr_(c, 'planck', None), f, T, tau)
            ctx.seen(s)
            where = s.where(RT, 'RTEquation', 'planck')
            kb = s.spec('rte', 'hvk_of', f)
            name = 'radiance ' + ('down' if sat else 'up')
            judge(ctx, w, UT + '.tk2b_mod', dict(hvk=s.t(kb)), None, where, name)
            t = s.t(T)
            rs = []
            tc = s.t(s.I.getitem(s.call(s.get(UT, 'constants'), const('Tcosmicbkg')), ZERO, None))
            for rec, _, line in w.calls[UT + '.tk2b_mod']:
                a = rec.get('t')
                if a is None:
                    rs.append(('unknown', 'not followed'))
                    continue
                cand = [tc] + [tm.idx(t, (num(i),)) for i in range(3)] if not a.rank else [t]
                res = [relation(ctx, a, b) for b in cand]
                rs.append(next((x for x in res if x[0] == 'equal'), next((x for x in res if x[0] == 'bad' and ('times' in x[1] or 'plus' in x[1])),
                               ('unknown', 'another value') if not all(x[0] == 'bad' for x in res) else res[-1])))
            put(ctx, f'{name} to utils.tk2b_mod: t', rs, where)
        ctx.guard('interface', f'radiance {"down" if sat else "up"}', go)


def utilities(ctx):
    """one utility calling another"""
    table = (
        ('mr2rh', ('p', 't', 'mr', '!tconvert'), {'satvap': dict(t='t', Tconvert='!tconvert'), 'satmix': dict(p='p', t='t', Tconvert='!tconvert'), 'mr2e': dict(p='p')}),
        ('satmix', ('p', 't', '!tconvert'), {'satvap': dict(t='t', Tconvert='!tconvert'), 'e2mr': dict(p='p')}),
        ('satvap', ('t', '!tconvert'), {'eswat_goffgratch': dict(t='t'), 'esice_goffgratch': dict(t='t')}),
        ('rho2rh', ('rho', 't', 'p'), {'e2mr': dict(p='p'), 'mr2rh': dict(p='p', t='t')}),
    )
    for f, args, callees in table:
        def go():
            s = Session(sizes=dict(nl=2))
            s.mod(UT)
            w = Watchman(s)
            for c in callees:
                w.watch(f'{UT}.{c}', then=lambda *a: None)
            vals = {a: s.prof(a) if a[0] != '!' else q(a[1:]) for a in args}
            s.call(s.get(UT, f), *vals.values())
            ctx.seen(s)
            for c, want in callees.items():
                known = set(params(s, f'{UT}.{c}'))
                for k, a in want.items():
                    if k not in known:
                        ctx.unk('interface', f'{f} to utils.{c}: {k}', '', 'no such parameter')
                        continue
                    b = s.t(vals[a])
                    rs = []
                    for rec, _, line in w.calls[f'{UT}.{c}']:
                        x = rec.get(k)
                        if x is None or x is NONE:
                            continue
                        parts = [y for y in tm.walk(x) if y.op == 'idx' and y.args[0] is b]     # a selection of elements
                        res = [unit(ctx, x, y) for y in [b] + parts]
                        rs.append(next((y for y in res if y[0] == 'equal'), next((y for y in res if y[0] == 'bad'), res[0])))
                    if rs:
                        put(ctx, f'{f} to utils.{c}: {k}', rs, s.where(UT, f))
        ctx.guard('interface', f, go)


def unit(ctx, a, b):
    """only a change of unit is reported (a routine may pass on part of an array)"""
    r = relation(ctx, a, b)
    if r[0] == 'bad' and 'times' not in r[1] and 'plus' not in r[1]:
        return 'unknown', r[1]
    return r


def extrapolation(ctx):
    from .c16 import three, F
    for lat, month, season in ((30, 7, 'summer'), (-60, 2, 'summer'), (10, 7, 'standard')):
        def go():
            s = Session()
            s.mod(EX)
            s.mod(UT)
            w = Watchman(s)
            w.watch(UT + '.rho2rh', (2, 0, None, True))
            z = s.I.new_arr(tm.mk('arr', *[num(F(h)) for h in ('0', '20', '63')], rank=1))
            ex = s.call(s.get(EX, 'ProfileExtrapolation'))
            r = s.method(ex, 'profile_extrapolation', num(lat), num(month), z, Tup([three(s, k) for k in ('p', 't', 'rh')]))
            ctx.seen(s)
            where = s.where(EX, 'ProfileExtrapolation', 'profile_extrapolation')
            hs = s.t(r.items[0])
            if not tm.isnum(tm.length(hs)):
                raise Undecided('number of levels unknown')
            total = int(tm.cval(tm.length(hs)))
            cons = f'extrapolation latitude {lat} month {month} to utils.rho2rh'
            rs = {k: [] for k in ('rho', 't', 'p')}
            for rec, _, line in w.calls[UT + '.rho2rh']:
                for k in rs:
                    a = rec.get(k)
                    n = tm.length(a) if a is not None and a.rank else None
                    if n is None or not tm.isnum(n):
                        continue
                    n = int(tm.cval(n))
                    for i in range(max(3 - (total - n), 0), n):
                        rs[k].append(level(s, tm.idx(a, (num(i),)), k, lat, season, tm.idx(hs, (num(i + total - n),))))
            for k in rs:
                put(ctx, f'{cons}: {k}', rs[k], where)
            out = []
            rh = s.final(s.t(r.items[3]))
            for i in range(3, total):
                a = tm.idx(rh, (num(i),))
                src = [x for x in tm.walk(a) if x.op == 'call' and x.args[0] == 'rho2rh.0' and not x.rank] + [x for x in tm.walk(a) if x.op == 'idx' and x.args[0].op == 'call' and x.args[0].args[0] == 'rho2rh.0']
                out.append(unit(ctx, a, tm.div(src[0], num(100))) if src else ('unknown', 'not followed'))
            put(ctx, f'extrapolation latitude {lat} month {month}: humidity returned as a fraction', out, where)
        ctx.guard('interface', f'extrapolation latitude {lat} month {month}', go)


def level(s, a, k, lat, season, h):
    """a number against that of the reference atmosphere at its height"""
    from ..regions import fval
    f = dict(rho='water_vapour_density', t='temperature', p='pressure')[k]
    if season == 'standard':
        b = s.spec('atmosphere', 'standard_' + f, *((h,) if k != 'rho' else (h, num(2), num(Fraction(15, 2)))))
    else:
        b = s.spec('atmosphere', f, num(lat), h, const(season))
    try:
        x, y = fval(a), fval(s.t(b))
    except Exception:
        return 'unknown', 'not a number'
    near = lambda u, v: abs(u - v) <= 1e-6 * abs(v)
    if near(x, y):
        return 'equal', ''
    for c in POW:
        if near(x, y * float(c)):
            return 'bad', f'{float(c)} times the quantity in the documented unit'
    if any(abs(x - y - float(o)) < 1e-6 for o in OFF):
        return 'bad', 'the quantity in the documented unit, shifted by the Celsius offset'
    return 'unknown', f'{x:g} where the reference atmosphere has {y:g}'


# ------------------------------------------------------------------------------------------ the receivers
class Receivers:
    """rules of another check; of their differences those that a change of unit explains"""

    def __init__(self, ctx, name, rules, direct=lambda rule, construct: False):
        """direct: obligations that are about a unit as they stand"""
        self.ctx, self.name, self.direct = ctx, name, direct
        self.rules_ = rules
        self.pairs = []

    def wanted(self, rule, construct):
        return rule in self.rules_ or self.direct(rule, construct)

    def rule(self, name, text):
        if name in self.rules_:
            self.ctx.rule('receiver', 'a routine handed documented units yields its published value, or differs by more than a unit')

    def ok(self, rule, construct, detail=''):
        if self.wanted(rule, construct):
            self.ctx.ok('receiver', f'{self.name} {construct}', detail)

    def unk(self, rule, construct, where='', detail=''):
        if self.wanted(rule, construct):
            self.ctx.unk('receiver', f'{self.name} {construct}', where, detail)

    def bad(self, rule, construct, where='', detail=''):
        if self.direct(rule, construct):
            self.ctx.bad('receiver', f'{self.name} {construct}', where, detail)
            return
        if rule not in self.rules_:
            return
        why = None
        for x, y in self.pairs:
            why = why or explained(self.ctx, x, y)
        if why:
            self.ctx.bad('receiver', f'{self.name} {construct}', where, f'{why}; {detail}')
        else:
            self.ctx.ok('receiver', f'{self.name} {construct}', 'differs from its rule, but not by a unit')

    def agree(self, rule, construct, *a, **k):
        self.pairs = []
        if rule in self.rules_:
            Ctx.agree(self, rule, construct, *a, **k)

    def decide_all(self, pairs, cap=None):
        out = self.ctx.decide_all(pairs, cap)
        self.pairs = [pairs[k] for k, r in out.items() if r[0] == 'different'][:4]
        return out

    def decide(self, a, b):
        return self.decide_all({'': (a, b)})['']

    must, guard = Ctx.must, Ctx.guard

    def __getattr__(self, k):
        return getattr(self.ctx, k)


def numbers(t):
    out = set()
    for x in tm.walk(t):
        if tm.isnum(x):
            try:
                out.add(Fraction(tm.cval(x)))
            except Exception:
                pass
    return out


def explained(ctx, x, y):
    a, b = numbers(x), numbers(y)
    for c in a - b:
        for d in b - a:
            if c and d:
                r = c / d
                if r in POW:
                    return f'constant {float(c)} where {float(d)} belongs (a power of ten)'
                if abs(c - d) in {abs(o) for o in OFF}:
                    return f'constant {float(c)} where {float(d)} belongs (the Celsius offset)'
    for c in a ^ b:
        if c in OFF:
            return f'the Celsius offset {float(c)} on one side only'
        if c in POW:
            return f'the factor {float(c)} on one side only'
    pi = [any(v is tm.PI for v in tm.walk(t)) or bool(numbers(t) & {Fraction(180)}) for t in (x, y)]
    if pi[0] != pi[1]:
        return 'an angle in degrees where radians belong' if pi[1] else 'an angle converted to radians where degrees belong'
    for name, u in factors():
        if ctx.decide(x, tm.mul(u, y))[0] == 'equal':
            return f'{name} times the published value'
    args = {s for s in tm.walk(y) if s.op == 'sym' and s in set(tm.walk(x))}
    todo = {}
    for s in list(args)[:8]:
        for name, u in factors()[:10]:
            todo[tm.show(s) + ' times ' + name] = tm.subst(x, {s: tm.mul(u, s)}), y
        for o in OFF[:2]:
            todo[tm.show(s) + f' plus {float(o)}'] = tm.subst(x, {s: tm.add(s, num(o))}), y
    for k, (p, r) in todo.items():
        if ctx.decide(p, r)[0] == 'equal':
            return f'right for {k} (argument expected in another unit)'
    return None


def run(ctx):
    ctx.rule('interface', 'each physical argument of an internal call is the quantity in the unit the called routine documents')
    ctx.assumptions.append('physical signs of the inputs; strictly monotone heights')
    simulation(ctx)
    clear(ctx)
    cloud(ctx)
    radiance(ctx)
    utilities(ctx)
    extrapolation(ctx)
    c28.run(Receivers(ctx, 'conversion', {'formula'}))
    c29.run(Receivers(ctx, 'equation', {'formula'}))
    c04.run(Receivers(ctx, 'absorption', {'formulation', 'helper'}))
    c15.run(Receivers(ctx, 'atmosphere', {'formula'}))
    c24.run(Receivers(ctx, 'dry absorption', {'sum'}))
    c26.run(Receivers(ctx, 'integral', {'amount', 'opacity'}))
    c23.run(Receivers(ctx, 'cloud', {'levels'}))
    c03.run(Receivers(ctx, 'line table', {'column'}))
    c05.run(Receivers(ctx, 'parameter', {'named', 'acts'}))
    c19.run(Receivers(ctx, 'sounding', {'computed'}, lambda rule, c: rule == 'units'))
    c20.run(Receivers(ctx, 'reanalysis', {'variable'}, lambda rule, c: rule == 'units' or rule == 'nearest' and c.split()[-1] in ('unit', 'radians')))

"""C07: channels, angles and profiles are independent of each other."""
from ._rte import *

EXPLANATION = ('The simulation is interpreted for two and three frequencies and angles with symbolic values (levels symbolic or four). Rule "own": the value graph of the '
               'cell of frequency j and angle k contains, of the frequency, emissivity and angle arrays, only elements j and k. Rule "same": the value of every cell is the '
               'value a simulation of that frequency and angle alone gives (value numbering), so the answer does not depend on how many or which others were asked for. '
               'Row order of the table: angle first, then frequency as given.')


def syms_of(t):
    """(array, index) pairs read of the frequency/angle/emissivity arrays; whole-array uses give index None"""
    out = set()
    names = ('frq', 'angles', 'es')
    base = lambda x: x.op == 'sym' and str(x.args[0]).split('@')[0] in names
    for x in tm.walk(t, stop=lambda x: x.op == 'idx' and isinstance(x.args[0], T) and base(x.args[0])):
        if x.op == 'idx' and isinstance(x.args[0], T) and base(x.args[0]):
            out.add((str(x.args[0].args[0]).split('@')[0], x.args[1].args[0] if tm.isnum(x.args[1]) else None))
        elif base(x):
            out.add((str(x.args[0]).split('@')[0], None))
    return out


def outputs(cfg):
    return [o for o in ALL if cfg.get('cloudy') or not ('liq' in o or 'ice' in o or o == 'tmrcld')]


def cells(n, t, nf, na):
    for k in range(na):
        for j in range(nf):
            if n in TABLE:
                yield j, k, tm.idx(t, (num(k * nf + j),))
            elif n in PATH:
                if j == 0:
                    yield None, k, tm.idx(t, (num(k),))
            else:
                yield j, k, tm.idx(t, (num(j), num(k), tm.FULL))


def check(ctx, name, cfg, nf, na, w, nl=None):
    def go():
        sz = dict(nf=nf, nang=na, ncld=1)
        if nl:
            sz['nl'] = nl
        outs = outputs(cfg)
        s = Session(sizes=sz)
        r = sim(s, cfg, outs)
        ctx.seen(s)
        frq, ang, es = s.t(s.frq), s.t(s.ang), None
        pairs = {}
        for j in range(nf):
            for k in range(na):
                s1 = Session(sizes=dict(sz, nf=1, nang=1))
                one = sim1(s1, cfg, outs, frq, ang, tm.sym('es@' + str(nf), rank=1) if cfg.get('sat') else None, j, k, sz)
                for n in outs:
                    c = list(cells(n, one[n], 1, 1))[0][2]
                    for jj, kk, t in cells(n, r[n], nf, na):
                        if kk == k and jj in (j, None):
                            pairs[n, jj, kk] = (t, c)
        for n in outs:
            bad = {}
            for j, k, t in cells(n, r[n], nf, na):
                allow = {('angles', k)} | ({('frq', j), ('es', j)} if j is not None else set())
                extra = syms_of(t) - allow
                if extra:
                    bad[j, k] = extra
            res = ctx.decide_all({key: v for key, v in pairs.items() if key[0] == n})
            diff = {k[1:]: v for k, v in res.items() if v[0] == 'different'}
            unk = {k[1:]: v for k, v in res.items() if v[0] == 'unknown'}
            cons = f'{name}:{n}'
            if diff:
                # dependence on another element shows as a difference as well; say which
                k = sorted(diff, key=str)[0]
                ctx.bad('same', cons, w, f'cell (frequency {k[0]}, angle {k[1]}) differs from the run of it alone'
                        + (f'; it also reads {sorted(bad[k], key=str)}' if k in bad else '') + f': {diff[k][1]}')
            elif unk:
                ctx.unk('same', cons, w, str(list(unk.values())[0][1]))
            else:
                ctx.ok('same', cons)
            if not diff and not unk:
                ctx.ok('own', cons, 'reads other elements without depending on them' if bad else '')
    ctx.guard('same', name, go, 'violated')


def sim1(s, cfg, outs, frq, ang, es, j, k, sz):
    """the run of frequency j and angle k alone, of the same profile objects"""
    I = s.I
    one = lambda a, i: I.new_arr(mk('arr', tm.idx(a, (num(i),)), rank=1))
    s.over = dict(frq=one(frq, j), angles=one(ang, k))
    if es is not None:
        esa = s.prof('es', num(sz['nf']))
        s.over['es'] = one(s.t(esa), j)
    return sim(s, cfg, outs)


def run(ctx):
    ctx.rule('same', 'every cell equals the result of simulating that frequency and angle alone')
    ctx.rule('own', 'a cell reads only its own frequency, emissivity and angle')
    ctx.assumptions.append('physical signs of the inputs; strictly increasing heights')
    w = Session().where(TB, 'TbCloudRTE', 'execute')
    check(ctx, 'clear ground 2x2', {}, 2, 2, w)
    check(ctx, 'cloudy satellite 2x2', dict(cloudy=1, sat=1), 2, 2, w, nl=None if ctx.thorough else 3)
    check(ctx, 'cloudy ground refracted ozone 3x2', dict(cloudy=1, ray=1, o3n=1), 3, 2, w, nl=3)
    check(ctx, 'descending profile 2x2', dict(mono=-1), 2, 2, w, nl=3)
    if ctx.thorough:
        check(ctx, 'clear ground 3x3', {}, 3, 3, w, nl=4)
        check(ctx, 'cloudy ground 1x3', dict(cloudy=1), 1, 3, w)
        check(ctx, 'cloudy satellite 3x1', dict(cloudy=1, sat=1), 3, 1, w)

"""C20: extraction from reanalysis files and the download request."""
from ..harness import *
from ..core import *
from ._web import API, pieces, items, frame_facts
from fractions import Fraction

from .. import lib
from .. import term as tm

EXPLANATION = ('The readers are interpreted on a symbolic data set. The grid indices that reach every variable are extracted from the value graph: they must be the same for all variables, on the right axes, and come from '
               'a search in which coordinates and point are given in the same order. Every returned column is compared by value numbering with its variable at that point, in the same level order and unit. '
               'The request handed to the download client is compared field by field with the place and time asked for.')

ERA, EPS = API + 'erafive', API + 'eps_sandbox'
LON, LAT = tm.sym('lon', rank=0), tm.sym('lat', rank=0)
V4 = ('t', 'r', 'clwc', 'ciwc', 'crwc', 'cswc', 'o3', 'q')
COLS = {'p': 'level', 't': 't', 'rh': 'r', 'clwc': 'clwc', 'ciwc': 'ciwc', 'crwc': 'crwc', 'cswc': 'cswc', 'o3': 'o3', 'q': 'q'}
UNITS = {'p': ('hPa', 'mbar', 'mb'), 'z': ('km', 'kilometer'), 't': ('K', 'kelvin', 'Kelvin'), 'rh': ('fraction', '1', 'decimal'), **{v: ('kg kg-1', 'kg/kg', 'kg kg**-1') for v in ('clwc', 'ciwc', 'crwc', 'cswc', 'o3', 'q')}}
NAMES = {'t': 'temperature', 'r': 'relative_humidity', 'clwc': 'specific_cloud_liquid_water_content', 'ciwc': 'specific_cloud_ice_water_content', 'crwc': 'specific_rain_water_content',
         'cswc': 'specific_snow_water_content', 'o3': 'ozone_mass_mixing_ratio', 'q': 'specific_humidity'}


class Scene:
    def __init__(self, mod, cls):
        s = self.s = Session()
        I = s.I
        I.exact = True
        I.hooks['netCDF4.Dataset'] = self.nc
        I.hooks['pandas.DataFrame'] = lambda I_, a, k, node: s.call(s.get('spec.frame', 'Frame'), a[0]) if a and isinstance(a[0], Ref) and I.kind(a[0]) == 'dict' else None
        self.queries = []
        for n in ('BallTree', 'KDTree'):
            I.hooks['sklearn.neighbors.' + n] = lambda I_, a, k, node, n=n: s.call(s.get('spec.nc', 'Tree'), const(n), a[0] if a else k['X'], k.get('metric', NONE))
        I.func_hooks['spec.nc.Tree.query'] = self.query
        r = s.method(s.get(mod, cls), 'read_data', tm.sym('file'), Tup([LON, LAT]))
        self.cols, self.units, _ = frame_facts(s, r)

    def nc(self, I, a, k, node):
        s = self.s
        d = [(const(v), I.new_arr(mk('sym', 'nc:' + v, rank=4 if v in V4 else 1))) for v in ('latitude', 'longitude', 'level', 'time') + V4]
        return s.call(s.get('spec.nc', 'Dataset'), I.new_dict(d), I.new_dict([]))

    def query(self, I, a, k, node):
        """the nearest neighbour of one point, as a symbol of the points searched and the point given"""
        m = I.st.m
        d = dict(zip(('X', 'k', 'return_distance'), a[1:]))
        d.update(k)
        kind, pts, metric = (I.to_t(m[('f', a[0].oid, n)]) for n in ('kind', 'points', 'metric'))
        q, n = I.to_t(d['X']), I.to_t(d.get('k', ONE))
        self.queries.append((pts, metric, q, n))
        if n is not ONE:
            return None
        cell = lambda name: I.new_arr(mk('arr', mk('arr', mk('call', name, pts, q, rank=0), rank=1), rank=2))
        return cell('nearest') if I.to_t(d.get('return_distance', TRUE)) is FALSE else Tup([cell('distance'), cell('nearest')])

    def var(self, v):
        return mk('sym', 'nc:' + v, rank=4 if v in V4 else 1)


def indices(t):
    """[(variable, index terms of its four axes)] of the accesses to gridded variables in t"""
    out = []
    for x in tm.walk(t, conds=True):
        if x.op == 'idx' and isinstance(x.args[0], tm.T) and x.args[0].op == 'sym' and str(x.args[0].args[0]).startswith('nc:') and x.args[0].rank == 4:
            ix = x.args[1] if isinstance(x.args[1], tuple) else x.args[1:]
            out.append((x.args[0].args[0][3:], tuple(ix)))
    return out


def reader(ctx, mod, cls, extra):
    f = Session()
    where = f.where(mod, cls)
    tag = cls
    got = {}

    def read():
        got['s'] = Scene(mod, cls)
        ctx.seen(got['s'].s)
        ctx.ok('variable', f'{tag} reads')
    ctx.guard('variable', f'{tag} reads', read, dead='undecided')
    if 's' not in got:
        return
    sc = got['s']
    s, cols = sc.s, sc.cols
    pts = {}
    for c, t in cols.items():
        for v, ix in indices(t):
            if len(ix) != 4:
                pts.setdefault(None, []).append((c, v, ix))
            else:
                pts.setdefault(ix[2:], []).append((c, v, ix))
    if None in pts or not pts:
        ctx.unk('same point', tag, where, 'grid indices are not recognised')
        return
    if len(pts) > 1:
        main = max(pts, key=lambda k: len(pts[k]))
        for k, us in pts.items():
            if k is not main:
                for c, v, ix in us:
                    same = all(ctx.decide(a, b)[0] == 'equal' for a, b in zip(k, main))
                    ctx.must(same, 'same point', f'{tag} {c}', where, f'{v} is read at another grid point than the other variables')
    else:
        main = next(iter(pts))
        ctx.ok('same point', tag)
    iy, ix = main

    # the levels, in the order of the returned pressure column
    def column(c):
        def go():
            if c not in cols:
                ctx.bad('variable', f'{tag} {c}', where, 'the column is not returned')
                return
            v = sc.var(COLS[c])
            n = tm.length(sc.var('level'))
            if COLS[c] in V4:
                v = tm.idx(v, (ZERO, tm.FULL, iy, ix))
                if c == 'rh':
                    v = tm.div(v, num(100))
            k = tm.fresh('k')
            spec = tm.idx(v, (tm.sub(tm.sub(n, ONE), k),))
            code = tm.idx(cols[c], (k,))
            code = tm.subst(code, {tm.length(x): n for x in tm.walk(code, conds=True) if x.op in ('idx', 'mul') and x.rank == 1} | {})
            r, wit = ctx.decide(norm_len(code, n), norm_len(spec, n))
            if r == 'equal':
                ctx.ok('variable', f'{tag} {c}')
            elif r == 'different':
                ctx.bad('variable', f'{tag} {c}', where, f'is {tm.show(cols[c], 4)[:160]}; {str(wit)[:120]}')
            else:
                ctx.unk('variable', f'{tag} {c}', where, str(wit)[:200])
        ctx.guard('variable', f'{tag} {c}', go)
    for c in COLS:
        if c != 'o3' or extra:
            column(c)

    def height():
        UT = 'pyrtlib.utils'
        if extra:
            lv = lambda v: s.call(s.get('spec.nc', 'upward'), s.I.new_arr(sc.var(v) if v == 'level' else tm.idx(sc.var(v), (ZERO, tm.FULL, iy, ix))))
            want = s.call(s.get(UT, 'atmospheric_tickness'), lv('level'), lv('t'), lv('q'))
        else:
            lev = s.I.new_arr(sc.var('level'))
            k = tm.fresh('k')
            want = tm.idx(tm.div(s.t(s.call(s.get(UT, 'pressure_to_height'), lev)), num(1000)), (tm.sub(tm.sub(tm.length(sc.var('level')), ONE), k),))
        if 'z' not in cols:
            ctx.bad('variable', f'{tag} z', where, 'the column is not returned')
            return
        n = tm.length(sc.var('level'))
        r, wit = ctx.decide(norm_len(cols['z'] if extra else tm.idx(cols['z'], (k,)), n), norm_len(s.t(want), n))
        if r == 'equal':
            ctx.ok('variable', f'{tag} z')
        elif r == 'different':
            ctx.bad('variable', f'{tag} z', where, f'{str(wit)[:200]}')
        else:
            ctx.unk('variable', f'{tag} z', where, str(wit)[:200])
    ctx.guard('variable', f'{tag} z', height)
    ctx.guard('point', tag, lambda: point(ctx, sc, tag, iy, ix, where))
    ctx.guard('time', tag, lambda: when(ctx, cols, tag, where))
    if extra:
        u = sc.units if isinstance(sc.units, dict) else {}
        for c, alts in UNITS.items():
            g = u.get(c)
            if g is None:
                ctx.bad('units', f'{tag} {c}', where, 'no unit')
            elif g.op == 'const':
                ctx.must(str(g.args[0]) in alts, 'units', f'{tag} {c}', where, f'labelled {g.args[0]}, the values are in {alts[0]}')
            else:
                ctx.unk('units', f'{tag} {c}', where, tm.show(g, 2))


def norm_len(t, n):
    """all profiles read from one file have the same number of levels"""
    m = {}
    for x in tm.walk(t, conds=True):
        if x.op == 'len' and x is not n and isinstance(x.args[0], tm.T) and any(y.op == 'sym' and str(y.args[0]).startswith('nc:') for y in tm.walk(x.args[0])):
            m[x] = n
    return tm.subst(t, m) if m else t


def mentions(t, *names):
    ss = {x.args[0] for x in tm.walk(t, conds=True) if x.op == 'sym'}
    return [n in ss for n in names]


def point(ctx, sc, tag, iy, ix, where):
    if tm.isnum(iy) and tm.isnum(ix):
        ctx.bad('point', f'{tag} one index', where, 'the grid point does not depend on the location')
        return
    if iy is ix:
        ctx.bad('point', f'{tag} one index', where, 'one index is used for latitude and longitude: only grid points on the diagonal are ever read')
    else:
        for name, t, own, other in (('latitude', iy, 'nc:latitude', 'nc:longitude'), ('longitude', ix, 'nc:longitude', 'nc:latitude')):
            a, b = mentions(t, own, other)
            if a and not b:
                p = LAT if name == 'latitude' else LON
                q = LON if name == 'latitude' else LAT
                has = mentions(t, p.args[0], q.args[0])
                if has == [False, True]:
                    ctx.bad('point', f'{tag} {name}', where, f'the {name} index is searched with the other coordinate of the location')
                elif t.op == 'call' and t.args[0] in ('argmin', 'numpy.argmin'):
                    d = tm.call('abs', tm.sub(mk('sym', own, rank=1), p))
                    r = max((ctx.decide(t.args[1], x)[0] for x in (d, tm.power(tm.sub(mk('sym', own, rank=1), p), num(2)))), key=['different', 'unknown', 'equal'].index)
                    ctx.ok('point', f'{tag} {name}') if r == 'equal' else ctx.unk('point', f'{tag} {name}', where, tm.show(t, 4))
                else:
                    ctx.unk('point', f'{tag} {name}', where, tm.show(t, 4)[:200])
            elif b and not a:
                ctx.bad('point', f'{tag} {name}', where, f'the {name} index is searched among the other coordinates')
            elif not a and not b:
                ctx.bad('point', f'{tag} {name}', where, f'the {name} index does not depend on the grid')
            else:
                ctx.unk('point', f'{tag} {name}', where, tm.show(t, 3)[:200])
    # searches in a tree: coordinates and point in the same order, latitude first for great-circle distances
    for q in sc.queries:
        tree(ctx, tag, q, where)
    for name, t in (('latitude', iy), ('longitude', ix)):
        if any(x.op == 'call' and x.args[0] == 'distance' for x in tm.walk(t)):
            ctx.bad('nearest', f'{tag} {name} result', where, 'the distance, not the index, is used')


def tree(ctx, tag, x, where):
    pts, metric, q, k = x
    metric = metric.args[0] if metric.op == 'const' else None
    ctx.must(k is ONE, 'nearest', f'{tag} neighbours', where, f'{tm.show(k, 2)} neighbours asked') if tm.isnum(k) else None
    lat, lon = mk('sym', 'nc:latitude', rank=1), mk('sym', 'nc:longitude', rank=1)
    j = num(5)
    order = []
    for c in (0, 1):
        e = tm.idx(pts, (j, num(c)))
        m = mentions(e, 'nc:latitude', 'nc:longitude')
        p = tm.idx(q, (ZERO, num(c)) if q.rank == 2 else (num(c),))
        w = mentions(p, 'lat', 'lon')
        if sum(m) != 1 or sum(w) != 1:
            ctx.unk('nearest', tag, where, 'coordinates of the search are not recognised: ' + tm.show(e, 4)[:120] + ' / ' + tm.show(p, 4)[:120])
            return
        order.append((m[0], w[0]))
        src, val = (lat, LAT) if m[0] else (lon, LON)
        if m == w:
            # the same conversion for both
            z = tm.fresh('z')
            r, wit = ctx.decide(tm.subst(e, {tm.idx(src, (j,)): z}), tm.subst(p, {val: z}))
            if r == 'equal':
                ctx.ok('nearest', f'{tag} coordinate {c} unit')
            elif r == 'different':
                ctx.bad('nearest', f'{tag} coordinate {c} unit', where, f'grid and location are converted differently: {str(wit)[:120]}')
            else:
                ctx.unk('nearest', f'{tag} coordinate {c} unit', where, str(wit)[:160])
    ctx.must(all(a == b_ for a, b_ in order), 'nearest', f'{tag} order', where, 'grid and location are given in different coordinate order')
    if metric == 'haversine':
        ctx.must(order[0][0], 'nearest', f'{tag} latitude first', where, 'great-circle distance takes latitude first')
        ctx.must(any(y is tm.PI for y in tm.walk(pts)), 'nearest', f'{tag} radians', where, 'great-circle distance takes radians')


def when(ctx, cols, tag, where):
    t = cols.get('time')
    if t is None:
        ctx.bad('time', tag, where, 'the column is not returned')
        return
    x = next((y for y in tm.walk(t, conds=True) if y.op == 'call' and str(y.args[0]).endswith('to_datetime')), None)
    if x is None:
        ctx.unk('time', tag, where, tm.show(t, 3))
        return
    kw = {str(a.args[0]): a.args[1].args[0] for a in x.args[1:] if isinstance(a, tm.T) and a.op == 'kw' and a.args[1].op == 'const'}
    ctx.must(mentions(x, 'nc:time')[0], 'time', f'{tag} source', where, 'not read from the time of the file')
    if 'unit' in kw and 'origin' in kw:
        ctx.must(kw['unit'] == 'h' and str(kw['origin']).startswith('1900-01-01'), 'time', f'{tag} epoch', where, f'unit {kw["unit"]} since {kw["origin"]}, the files count hours since 1900-01-01')
    else:
        ctx.unk('time', f'{tag} epoch', where, str(kw))


# ------------------------------------------------------------------ request

def request(ctx):
    f = Session()
    where = f.where(ERA, 'ERA5Reanalysis')
    T, PATH = tm.sym('time'), tm.sym('path')
    RES, OFF = tm.sym('resolution', rank=0), tm.sym('offset', rank=0)

    def go(default):
        s = Session()
        I = s.I
        I.exact = True
        asked = []
        I.hooks['cdsapi.Client'] = lambda I_, a, k, node: s.call(s.get('spec.nc', 'Client'))

        def rec(I_, a, k, node):
            d = dict(zip(('name', 'request', 'target'), a[1:]))
            d.update(k)
            asked.append(({x: v for x, v in items(I, d['request'])} if isinstance(d.get('request'), Ref) else None, d))
        I.func_hooks['spec.nc.Client.retrieve'] = rec
        r = s.method(s.get(ERA, 'ERA5Reanalysis'), 'request_data', PATH, T, Tup([LON, LAT]), *([] if default else [RES, OFF]))
        ctx.seen(s)
        if len(asked) != 1 or asked[0][0] is None:
            raise Undecided('one request is not recognised')
        q, d = asked[0]
        tag = 'default' if default else 'asked grid'
        res, off = (num(Fraction(1, 4)), num(Fraction(2, 5))) if default else (RES, OFF)

        def vals(v):
            xs = lib.known_list(I, v) if isinstance(v, Ref) else list(v.items) if isinstance(v, Tup) else [v]
            return None if xs is None else [I.to_t(x) for x in xs]
        for k, alts in (('year', [['%Y']]), ('month', [['%m'], ['month']]), ('day', [['%d'], ['day']]), ('time', [['%H', ':00'], ['hour', ':00'], ['%H', ':', '%M'], ['%H:%M']])):
            if k not in q:
                ctx.bad('request', f'{tag} {k}', where, 'the request does not say it')
                continue
            v = vals(q[k])
            if v is None or len(v) != 1:
                ctx.unk('request', f'{tag} {k}', where, 'one value is not recognised') if v is None else ctx.bad('request', f'{tag} {k}', where, f'{len(v)} values asked for')
                continue
            p = pieces(v[0])
            base = {x[2] for x in p if not isinstance(x, str) and x[0] != 'value'}
            g = [x if isinstance(x, str) else x[1] for x in p]
            if g in alts and base == {T}:
                ctx.ok('request', f'{tag} {k}')
            elif all(isinstance(x, str) or x[0] != 'value' and x[2] is T for x in p):
                ctx.bad('request', f'{tag} {k}', where, f'asks for {g}')
            else:
                ctx.unk('request', f'{tag} {k}', where, tm.show(v[0], 4))
        for k, want in (('area', (tm.add(LAT, off), tm.sub(LON, off), tm.sub(LAT, off), tm.add(LON, off))), ('grid', (res, res))):
            v = vals(q[k]) if k in q else None
            if v is None or len(v) != len(want):
                ctx.unk('request', f'{tag} {k}', where, 'not recognised') if k in q and v is None else ctx.bad('request', f'{tag} {k}', where, 'missing or incomplete')
                continue
            for n, a, b in zip(('north', 'west', 'south', 'east') if k == 'area' else ('latitude', 'longitude'), v, want):
                r_, wit = ctx.decide(a, b)
                (ctx.ok('request', f'{tag} {k} {n}') if r_ == 'equal' else ctx.bad('request', f'{tag} {k} {n}', where, f'{tm.show(a, 4)} instead of {tm.show(b, 4)}') if r_ == 'different' else ctx.unk('request', f'{tag} {k} {n}', where, str(wit)[:160]))
        v = vals(q['variable']) if 'variable' in q else None
        if v is None or any(x.op != 'const' for x in v):
            ctx.unk('request', f'{tag} variables', where, 'not constants')
        else:
            have = {x.args[0] for x in v}
            for x, n in NAMES.items():
                ctx.must(n in have, 'request', f'{tag} variable {n}', where, f'the variable {x} is read from the file but not asked for')
        v = vals(q['pressure_level']) if 'pressure_level' in q else None
        if v is not None and all(x.op == 'const' or tm.isnum(x) for x in v):
            lv = [float(x.args[0]) for x in v]
            ctx.must(len(set(lv)) == len(lv) and {1000., 500., 100., 10., 1.} <= set(lv), 'request', f'{tag} levels', where, 'levels from 1000 to 1 hPa are not all asked for')
        fmt = q.get('format', q.get('data_format'))
        ctx.must(fmt is not None and I.to_t(fmt) is const('netcdf'), 'request', f'{tag} format', where, 'the reader needs netcdf')
        tgt = d.get('target')
        if tgt is None:
            ctx.unk('request', f'{tag} file', where, 'no target')
        else:
            r_, wit = ctx.decide(I.to_t(tgt), I.to_t(r))
            ctx.must(r_ != 'different', 'request', f'{tag} file', where, 'the path returned is not the file written')
            ctx.must(any(x is T for x in tm.walk(I.to_t(r))) and any(x is PATH for x in tm.walk(I.to_t(r))), 'request', f'{tag} file name', where, 'the file is not named after directory and time')
    for default in (False, True):
        ctx.guard('request', 'default' if default else 'asked grid', lambda: go(default), dead='violated')


def run(ctx):
    ctx.rule('variable', 'each column is its variable at the point, surface first, in the documented unit')
    ctx.rule('same point', 'all variables are read at one grid point')
    ctx.rule('point', 'the latitude index is that of the nearest latitude, the longitude index that of the nearest longitude')
    ctx.rule('nearest', 'the search compares like coordinates')
    ctx.rule('time', 'the time column is the time of the file')
    ctx.rule('units', 'the unit given with a column is the unit of its values')
    ctx.rule('request', 'the request asks for the given place and time')
    reader(ctx, ERA, 'ERA5Reanalysis', True)
    reader(ctx, EPS, 'EUMETSATProduct', False)
    request(ctx)

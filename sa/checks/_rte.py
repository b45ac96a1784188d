"""The simulation as a value graph, and the reference rule for it."""
from .. import term as tm
from ..harness import *
from ..core import Undecided, FREE

SIZES = dict(nl=4, nf=2, nang=2, ncld=1)
TABLE = ('tbtotal', 'tbatm', 'tmr', 'tmrcld', 'tauwet', 'taudry', 'tauliq', 'tauice')
LAYER = ('taulaywet', 'taulaydry', 'taulayliq', 'taulayice', 'awet', 'adry')
PATH = ('srho', 'swet', 'sdry', 'sliq', 'sice')
ALL = TABLE + LAYER + PATH


def opaque_fn(I, qual, nout, rank, sign=None, elementwise=False, mask=None):
    """Replace a function of the package by an uninterpreted one of its (named) parameters. sign: per output, the
    range of its values (1 positive, 2 non-negative). mask: per output, the input that has to be positive for it
    not to vanish (levels rule of C23)."""
    mod, _, rest = qual.rpartition('.')
    hits = [0]
    short = qual.rsplit('.', 1)[1]

    def hook(I2, args, kw, node):
        f = find(I2, qual)
        env = I2.bind_args(f, args, kw, node)
        names = [a.arg for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs if a.arg not in ('self', 'cls')]
        ts = [I2.to_t(env[n]) for n in names]
        hits[0] += 1
        rk = rank
        if elementwise:
            rk = 0 if all(t.rank == 0 for t in ts) else max([t.rank for t in ts if t.rank is not None] + [0])
            for i in range(nout):
                tm.ELEMWISE.add(short + f'.{i}')
        outs = [mk('call', short + f'.{i}', *ts, rank=rk) for i in range(nout)]
        for i, o in enumerate(outs):
            if sign and sign[i] and not (o.info or {}).get('sign'):
                set_sign(o, sign[i])
            if rk == 1:
                shape_like(o, ts)
            FREE.add(short + f'.{i}')
        if mask:        # an output vanishes where an input does
            outs = [tm.phi(tm.lt(ZERO, ts[k]), o, ZERO) for o, k in zip(outs, mask)]
        vals = [I2.new_arr(o) if rk else o for o in outs]
        return Tup(vals) if nout > 1 else vals[0]
    I.func_hooks[qual] = hook
    return hits


def shape_like(o, ts):
    for t in ts:
        if t.rank == 1 and not (o.info or {}).get('shape'):
            try:
                n = tm.length(t)
            except Exception:
                continue
            o.info = dict(o.info or {}, shape=(n,))
            return


def find(I, qual):
    parts = qual.split('.')
    for i in range(len(parts) - 1, 0, -1):
        m = '.'.join(parts[:i])
        if m in I.modules:
            v = I.modules[m]
            for n in parts[i:]:
                v = I.getattr_(v, n, None)
            while isinstance(v, Bound):
                v = v.f
            return v
    raise Undecided(qual + ' not found')


CLEAR = RT + '.RTEquation.clearsky_absorption'
CLOUD = RT + '.RTEquation.cloudy_absorption'


def hooks(s, cfg):
    h = {}
    s.mod(RT)
    h['clear'] = opaque_fn(s.I, CLEAR, 2, 1, (2, 2))
    if not cfg.get('inline_cloud'):
        h['cloud'] = opaque_fn(s.I, CLOUD, 2, 1, (2, 2), mask=None if cfg.get('nomask') else (1, 2))
    if cfg.get('ray'):
        h['ray'] = opaque_fn(s.I, RT + '.RTEquation.ray_tracing', 1, 1)
    h['vapor'] = opaque_fn(s.I, RT + '.RTEquation.vapor', 2, 1, (2, 2))
    h['refractivity'] = opaque_fn(s.I, RT + '.RTEquation.refractivity', 3, 1, (2, 2, 1))
    return h


def sim(s, cfg, outputs=ALL, table=True):
    """the package: construct, select models, (clouds), execute"""
    I = s.I
    h = hooks(s, cfg)
    if table and not (s.sizes and 'nang' in s.sizes and any(n in TABLE for n in outputs)) and any(n in TABLE for n in outputs):
        raise Undecided('table layout needs fixed angle count')
    o3n = True if cfg.get('o3n') else None
    rte = s.tb(cloudy=const(bool(cfg.get('cloudy'))), ray_tracing=const(bool(cfg.get('ray'))), from_sat=const(bool(cfg.get('sat'))), o3n=o3n, mono=cfg.get('mono', 1))
    if cfg.get('sat') and cfg.get('es', True):
        I.setattr_(rte, 'emissivity', s.over.get('es') or s.prof('es', s.NF), None)
        # the setter accepts arrays
    s.method(rte, 'init_absmdl', const(cfg.get('model', 'R19SD')))
    if cfg.get('cloudy'):
        s.clouds()
        if cfg.get('late_clear'):
            I.setattr_(rte, 'cloudy', FALSE, None)
    r = s.method(rte, 'execute', FALSE)
    if h['clear'][0] == 0:
        raise Undecided('the simulation no longer calls clearsky_absorption')
    if not isinstance(r, Tup) or len(r.items) != 2:
        raise Undecided('execute does not return a pair')
    df, dic = r.items
    s.rte, s.df, s.dic = rte, df, dic
    out = {}
    for n in outputs:
        if n in TABLE:
            src, key = df, n
        else:
            src, key = dic, n
        t = s.t(I.getitem(src, const(key), None))
        t = s.final(t)
        out[n] = tm.idx(t, (ZERO, tm.FULL)) if n in PATH else t
    return out


def ref(s, cfg, outputs=ALL, reflect=False, flat=True):
    I = s.I
    hooks(s, cfg)
    z, p, t, rh = (s.prof(n, mono=cfg.get('mono', 1) if n == 'z' else 0) for n in 'z p t rh'.split())
    frq, ang = s.prof('frq', s.NF), s.prof('angles', s.NA)
    es = s.prof('es', s.NF) if cfg.get('sat') and cfg.get('es', True) else I.new_arr(mk('full', ONE, s.NF, rank=1))
    o3n = s.prof('o3n') if cfg.get('o3n') else NONE
    cldh = s.prof('cldh', rank=2, shape=(num(2), s.NC))
    di, dl = s.prof('denice'), s.prof('denliq')
    if cfg.get('mono', 1) < 0:
        rev = lambda r: I.getitem(r, mk('slice', NONE, NONE, num(-1)), None)
        z, p, t, rh, di, dl = (rev(x) for x in (z, p, t, rh, di, dl))
        o3n = rev(o3n) if o3n is not NONE else NONE
    # facts about the height array are the same on both sides
    d = s.spec('rte', cfg.get('fn', 'execute'), z, p, t, rh, frq, ang, s.NL, s.NF, s.NA, const(bool(cfg.get('cloudy'))), const(bool(cfg.get('sat'))),
               const(bool(cfg.get('ray'))), es, o3n, NONE, cldh, di, dl, const(bool(reflect)), s.NC)
    out = {}
    for n in outputs:
        t = s.final(s.t(I.getitem(d, const(n), None)))
        if n in TABLE and flat and s.sizes and 'nang' in s.sizes and 'nf' in s.sizes:
            # angle-major, then frequency
            cells = [tm.idx(t, (num(j), num(k))) for k in range(s.sizes['nang']) for j in range(s.sizes['nf'])]
            out[n] = (mk('arr', *cells, rank=1), (len(cells),))
        elif n in LAYER:
            out[n] = (t, ('nf', 'nang', 'nl'))
        elif n in PATH:
            out[n] = (tm.idx(t, (ZERO, tm.FULL)), ('nang',))
        else:
            out[n] = (t, ('nf', 'nang'))
    return out


def own(s, cfg, outputs):
    return sim(s, cfg, outputs)


def inputs(s, cfg):
    """the profile as the rules want it, bottom-up; frequencies, angles, emissivities, cloud table"""
    I = s.I
    z, p, t, rh = (s.prof(n, mono=cfg.get('mono', 1) if n == 'z' else 0) for n in 'z p t rh'.split())
    di, dl = s.prof('denice'), s.prof('denliq')
    if cfg.get('mono', 1) < 0:
        rev = lambda r: I.getitem(r, mk('slice', NONE, NONE, num(-1)), None)
        z, p, t, rh, di, dl = (rev(x) for x in (z, p, t, rh, di, dl))
    es = s.prof('es', s.NF) if cfg.get('sat') and cfg.get('es', True) else I.new_arr(mk('full', ONE, s.NF, rank=1))
    return dict(z=z, p=p, t=t, rh=rh, frq=s.prof('frq', s.NF), ang=s.prof('angles', s.NA), es=es, denice=di, denliq=dl,
                cldh=s.prof('cldh', rank=2, shape=(num(2), s.NC)))


def flat(s, t):
    """a (frequency, angle) array in the row order of the result table: by angle, then frequency"""
    cells = [tm.idx(t, (num(j), num(k))) for k in range(s.sizes['nang']) for j in range(s.sizes['nf'])]
    return mk('arr', *cells, rank=1), (len(cells),)


def grid(s, t):
    """inverse of flat"""
    nf = s.sizes['nf']
    return lambda j, k: tm.idx(t, (num(k * nf + j),))


H2O_, O2_, N2_, O3_, LIQ_ = (AM + x for x in ('.H2OAbsModel.h2o_absorption', '.O2AbsModel.o2_absorption', '.N2AbsModel.n2_absorption',
                                              '.O3AbsModel.o3_absorption', '.LiqAbsModel.liquid_water_absorption'))


def species_hooks(s):
    s.mod(RT)
    s.mod(AM)
    I = s.I
    return dict(h2o=opaque_fn(I, H2O_, 2, 0, (2, 2), True), o2=opaque_fn(I, O2_, 2, 0, None, True), n2=opaque_fn(I, N2_, 1, 0, (2,), True),
                o3=opaque_fn(I, O3_, 1, 0, (2,), True), liq=opaque_fn(I, LIQ_, 1, 0, (2,), True))


def clear_sim(s, o3n=True, n2='R98', o3='R22', amu=NONE):
    """clearsky_absorption with the absorbers uninterpreted"""
    h = species_hooks(s)
    s.I.setattr_(s.get(AM, 'N2AbsModel'), 'model', const(n2), None)
    s.I.setattr_(s.get(AM, 'O3AbsModel'), 'model', const(o3), None)
    p, t, e, frq = s.prof('p'), s.prof('t'), s.prof('e'), sym('frq0', 0, 1)
    r = s.call(s.get(RT, 'RTEquation', 'clearsky_absorption'), p, t, e, frq, s.prof('o3n') if o3n else NONE, amu)
    if not isinstance(r, Tup) or len(r.items) != 2 or not h['h2o'][0]:
        raise Undecided('clearsky_absorption has changed its interface')
    return dict(awet=s.t(r.items[0]), adry=s.t(r.items[1]))


def clear_ref(s, o3n=True, n2='R98', o3='R22', amu=NONE):
    species_hooks(s)
    s.I.setattr_(s.get(AM, 'N2AbsModel'), 'model', const(n2), None)
    s.I.setattr_(s.get(AM, 'O3AbsModel'), 'model', const(o3), None)
    p, t, e, frq = s.prof('p'), s.prof('t'), s.prof('e'), sym('frq0', 0, 1)
    d = s.spec('rte', 'clearsky', p, t, e, frq, s.NL, const(bool(n2)), const(bool(o3n and o3)), s.prof('o3n') if o3n else NONE, amu)
    return {k: (s.t(s.I.getitem(d, const(k), None)), ('nl',)) for k in ('awet', 'adry')}


def sym(name, rank=0, sign=None):
    t = tm.sym(name, rank=rank)
    if sign:
        set_sign(t, sign)
    return t


def cloud_sim(s):
    species_hooks(s)
    t, denl, deni, frq = s.prof('t'), s.prof('denliq'), s.prof('denice'), sym('frq0', 0, 1)
    r = s.call(s.get(RT, 'RTEquation', 'cloudy_absorption'), t, denl, deni, frq)
    if not isinstance(r, Tup) or len(r.items) != 2:
        raise Undecided('cloudy_absorption has changed its interface')
    return dict(aliq=s.t(r.items[0]), aice=s.t(r.items[1]))


def cloud_ref(s):
    species_hooks(s)
    t, denl, deni, frq = s.prof('t'), s.prof('denliq'), s.prof('denice'), sym('frq0', 0, 1)
    d = s.spec('rte', 'cloudy', t, denl, deni, frq, s.NL)
    return {k: (s.t(s.I.getitem(d, const(k), None)), ('nl',)) for k in ('aliq', 'aice')}

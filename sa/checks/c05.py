"""C05: the default spectroscopic parameter set."""
from ._abs import *
from ..core import *

EXPLANATION = ('For every model the parameter set the package offers is built in the abstract interpreter and passed to the absorption routine; the value graph must equal the one computed without a '
               'parameter set, by value numbering with every table entry and thermodynamic state symbolic. Every named parameter must equal the table quantity of that name with its documented unit, '
               'and a parameter set with every value replaced by a fresh symbol must give the reference formulation with exactly those values substituted (each parameter acts on its own quantity, in its '
               'own unit). The documented empirical continuum factors of the models up to R17 are set to one first.')
SETS = dict(h2o='water_parameters', o2='oxygen_parameters', o3='ozono_parameters')
MODELS = dict(h2o=H2O_MODELS, o2=O2_MODELS, o3=O3_MODELS)
# parameter: (quantity of the reference table, factor from the parameter's unit to the table's)
NAMES = dict(
    h2o={'con_Cf': ('cf', 1), 'con_Cs': ('cs', 1), 'con_Xf': ('xcf', 1), 'con_Xs': ('xcs', 1), 'FL': ('fl', 1), 'S': ('s1', 1), 'B2': ('b2', 1), 'gamma_a': ('w0', 1000), 'gamma_w': ('w0s', 1000),
         'n_a': ('x', 1), 'n_w': ('xs', 1), 'n_da': ('xh', 1), 'n_dw': ('xhs', 1), 'delta_a': ('sh', 1000), 'delta_w': ('shs', 1000), 'SR': ('sr', 1)},
    o2={'O2FL': ('f', 1), 'O2S': ('s300', 1), 'O2BE': ('be', 1), 'O2gamma': ('w300', 1), 'WB300': ('wb300', 1), 'X05': ('x', 1), 'Y300': ('y', 1), 'y0': ('y', 1), 'y1': ('yt', 1), 'O2_V': ('yt', 1),
        'dnu0': ('dnu', 1), 'dnu1': ('dnut', 1)},
    o3={'O3_FL': ('fl', 1), 'O3_S1': ('s1', 1), 'O3_B': ('b', 1), 'O3_W': ('w', 1), 'O3_X': ('x', 1)})
FN = dict(h2o='h2o_absorption', o2='o2_absorption', o3='o3_absorption')


def absorb(s, sp, o, amu):
    if sp == 'o3':
        return one(s, s.method(o, FN[sp], *o3_state(), amu))
    return pair(s, s.method(o, FN[sp], *state(s), amu))


def params(s, sp, m):
    return s.call(s.I.getattr_(s.get(UN, 'SpectroscopicParameter'), SETS[sp], None), const(m))


def item(s, d, k):
    """entry of a parameter set, or None"""
    ks = s.I.items_of(d)
    if ks is None:
        raise Undecided('parameter set is not a plain dictionary')
    return s.I.getitem(d, const(k), None) if any(s.t(x) is const(k) for x in ks) else None


def neutral(s, d):
    for k in ('con_Cf_factr', 'con_Cs_factr'):
        e = item(s, d, k)
        if e is not None:
            s.I.setattr_(e, 'value', ONE, None)


def default(sp, m):
    def f(s):
        o = load(s, sp, m)
        d = params(s, sp, m)
        neutral(s, d)
        return absorb(s, sp, o, d)
    return f


def run(ctx):
    ctx.rule('default', 'absorption with the unmodified default parameter set equals absorption with none')
    ctx.rule('named', 'each named parameter is the table quantity of that name, in its documented unit')
    ctx.rule('acts', 'each parameter acts on the quantity it names, with the reciprocal unit factor, and on nothing else')
    ctx.rule('reaches', 'the parameter set given to the simulation reaches every absorber that supports it; without one, none does')
    S = Session()
    S.mod(AM)
    S.mod(UN)
    for how in ('constructor', 'set_amu', 'none'):
        ctx.guard('reaches', 'simulation ' + how, lambda: simulation(ctx, how))
    for given in (True, False):
        ctx.guard('reaches', f'clear sky {given}', lambda: clearsky(ctx, given))
    for sp in ('h2o', 'o2', 'o3'):
        w = S.where(AM, CLS[sp], FN[sp])
        wp = S.where(UN, 'SpectroscopicParameter', SETS[sp])
        sz = dict(rows=49 if sp == 'o2' else 3)
        for m in MODELS[sp]:
            ctx.agree('default', f'{sp} {m}', default(sp, m), lambda s: absorb(s, sp, load(s, sp, m), NONE), w, sizes=sz, dead='violated')
            ctx.guard('named', f'{sp} {m}', lambda: named(ctx, sp, m, wp), dead='violated')
            ctx.guard('acts', f'{sp} {m}', lambda: acts(ctx, sp, m, w))


def table(s, sp, m):
    s.mod(AM)
    return s.spec('absorb', sp + '_table', const(m))


def named(ctx, sp, m, where):
    s = Session()
    d = params(s, sp, m)
    ctx.seen(s)
    s2 = Session()
    t = table(s2, sp, m)
    pairs = {}
    for k, (q, f) in NAMES[sp].items():
        e = item(s, d, k)
        if e is None:
            continue
        if item(s2, t, q) is None:
            continue
        pairs[k] = s.final(s.t(s.I.getattr_(e, 'value', None))), tm.mul(num(f), s2.t(item(s2, t, q)))
    if len(pairs) < 5:
        raise Undecided('parameter set not recognised')
    for k, r in ctx.decide_all(pairs).items():
        if r[0] == 'different':
            ctx.bad('named', f'{sp} {m}:{k}', where, f'{k} is {tm.show(pairs[k][0], 4)}, should be {tm.show(pairs[k][1], 4)}')
        elif r[0] == 'equal':
            ctx.ok('named', f'{sp} {m}:{k}')
        else:
            ctx.unk('named', f'{sp} {m}:{k}', where, r[1])


def fresh_like(s, k, v):
    """a fresh value of the same shape"""
    t = s.t(v)
    shape = (t.info or {}).get('shape')
    if t.rank in (0, None):
        return sym('new_' + k, 0), 1
    n = tm.length(t)
    r = s.I.new_sym(f'new_{k}:{s.I.rows}', frozenset({'new_' + k}), rank=1, shape=(n,))
    return r, r


def acts(ctx, sp, m, where):
    """every parameter gets a new value, against the reference with exactly those quantities replaced"""
    sz = dict(rows=49 if sp == 'o2' else 3)

    def code(s):
        o = load(s, sp, m)
        d = params(s, sp, m)
        neutral(s, d)
        for k in keys:
            e = item(s, d, k)
            new = fresh_like(s, k, s.I.getattr_(e, 'value', None))[0]
            s.I.setattr_(e, 'value', new, None)
            if k in ('O2gamma', 'Y300', 'O2_V'):
                nl = item(s, d, k + '_NL')
                if nl is not None:
                    s.I.setattr_(nl, 'value', new, None)
        return absorb(s, sp, o, d)

    def spec(s):
        t = table(s, sp, m)
        for k in keys:
            q, fac = NAMES[sp][k]
            new = fresh_like(s, k, item(s, t, q))[0]
            if fac != 1:
                new = s.I.new_arr(tm.div(s.t(new), num(fac)))
            s.I.setitem(t, const(q), new, None)
        if sp == 'o3':
            return one(s, s.spec('absorb', sp, const(m), t, *o3_state()))
        return pair(s, s.spec('absorb', sp, const(m), t, *state(s)))

    s = Session()
    d = params(s, sp, m)
    s2 = Session()
    t = table(s2, sp, m)
    keys = [k for k in NAMES[sp] if item(s, d, k) is not None and item(s2, t, NAMES[sp][k][0]) is not None]
    ctx.count('parameters_replaced', len(keys))
    ctx.agree('acts', f'{sp} {m}', code, spec, where, sizes=sz)


def recorder(s, qual, result):
    """replace a function by one that records the parameter set it is given"""
    got = []
    old = s.I.func_hooks.get(qual)

    def hook(I, args, kw, node):
        env = I.bind_args(find(I, qual), args, kw, node)
        if 'amu' not in env:
            raise Undecided(qual + ' takes no parameter set')
        got.append(env['amu'])
        return old(I, args, kw, node)
    s.I.func_hooks[qual] = hook
    return got


def judge(ctx, s, cons, got, want, where):
    ctx.seen(s)
    if not got:
        raise Undecided('the absorption routine is not called')
    bad = [g for g in got if not (g == want if isinstance(g, Ref) or isinstance(want, Ref) else s.t(g) is want)]
    if any(isinstance(g, PhiV) or isinstance(g, T) and g.op == 'phi' for g in bad):
        raise Undecided('which parameter set is passed depends on a condition')
    ctx.must(not bad, 'reaches', cons, where, 'passes another value' if bad else '')


def simulation(ctx, how):
    s = Session(sizes=dict(nf=1, nang=1))
    hooks(s, {})
    got = recorder(s, CLEAR, 2)
    d = s.I.new_dict([(const('FL'), sym('parameter'))])
    s.tb(amu=d if how == 'constructor' else None)
    s.method(s.rte, 'init_absmdl', const('R19SD'))
    if how == 'set_amu':
        s.method(s.rte, 'set_amu', d)
    s.method(s.rte, 'execute', FALSE)
    judge(ctx, s, 'simulation ' + how, got, NONE if how == 'none' else d, s.where(TB, 'TbCloudRTE', 'execute'))


def clearsky(ctx, given):
    s = Session()
    d = s.I.new_dict([(const('FL'), sym('parameter'))]) if given else NONE
    species_hooks(s)
    rec = {n: recorder(s, q, 1) for n, q in (('h2o', H2O_), ('o2', O2_), ('o3', O3_))}
    s.set_model(n2='R98', o3='R22')
    s.call(s.get(RT, 'RTEquation', 'clearsky_absorption'), s.prof('p'), s.prof('t'), s.prof('e'), sym('frq0', 0, 1), s.prof('o3n'), d)
    for n, got in rec.items():
        judge(ctx, s, f'clear sky {n} {"given" if given else "none"}', got, d, s.where(RT, 'RTEquation', 'clearsky_absorption'))

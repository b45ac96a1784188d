"""C03: which table entry every line parameter comes from."""
from ._abs import *
from ..core import *

EXPLANATION = ('For every water-vapour, oxygen and ozone model: the model is chosen and its line list loaded in the abstract interpreter, the absorption routine is interpreted with symbolic inputs, and '
               'every line-list attribute it reads must (a) be defined for that model, (b) equal, by value numbering, the column or variable of that model\'s own table that holds the quantity, with its '
               'scale. (c) With all other models of that gas loaded before, in two orders, and perturbed parameters written in between, no leaf of the absorption value may come from another model\'s '
               'table and the value must be that of a fresh session. (d) The same through the simulation object built with another model first.')
FN = dict(h2o='h2o_absorption', o2='o2_absorption', o3='o3_absorption')
LL = dict(h2o='h2oll', o2='o2ll', o3='o3ll')
O2ATTR = {'f': 'f', 's300': 's300', 'be': 'be', 'w300': 'w300', 'wb300': 'wb300', 'x': 'x', 'g0': 'g', 'g1': 'gt', 'dnu0': 'dnu', 'dnu1': 'dnut',
          'y300': 'y', 'v': 'yt', 'y0': 'y', 'y1': 'yt'}
MODELS = dict(h2o=H2O_MODELS, o2=O2_MODELS, o3=O3_MODELS)
NEED = dict(h2o=7, o2=7, o3=5)


def absorb(s, sp, o):
    if sp == 'o3':
        return one(s, s.method(o, FN[sp], *o3_state(), NONE))
    return pair(s, s.method(o, FN[sp], *state(s), NONE))


def run(ctx):
    ctx.rule('defined', 'every line parameter the absorption of a model reads is defined for that model')
    ctx.rule('column', 'every line parameter read comes from the column or variable of the model\'s own table that holds it, with its scale')
    ctx.rule('fresh', 'nothing of a previously chosen model survives into the computation')
    ctx.rule('object', 'building a simulation object with a model selects that model\'s line lists for every absorber')
    S = Session()
    S.mod(AM)
    for sp in ('h2o', 'o2', 'o3'):
        w = S.where(AM, CLS[sp], FN[sp])
        for m in MODELS[sp]:
            ctx.guard('column', f'{sp} {m}', lambda: columns(ctx, sp, m, w), dead='violated')
            for back in (False, True):
                others = [x for x in MODELS[sp] if x != m]
                ctx.agree('fresh', f'{sp} {m} after {"Z-A" if back else "A-Z"}', lambda s: after(ctx, s, sp, m, others[::-1] if back else others),
                          lambda s: absorb(s, sp, load(s, sp, m)), w, sizes=dict(rows=49 if sp == 'o2' else 3))
    for m in ('R98', 'R18', 'R19SD', 'R20', 'R24'):
        for prev in ('R03', 'R20SD', 'R24', 'R98'):
            if prev != m:
                for o3n in (False, True):
                    ctx.guard('object', f'{prev} then {m}' + (' with ozone' if o3n else ''), lambda: through(ctx, prev, m, o3n))


def groups_in(t):
    def text(a):
        return tm.cval(a) if isinstance(a, T) else a
    return {(text(x.args[0]), text(x.args[1])) for x in tm.walk(t) if x.op == 'ncdata'}


def only(ctx, rule, name, sp, m, vals, where):
    for lab, t in vals.items():
        bad = {g for g in groups_in(t) if g != (f'{sp}_lineshape.nc', m)}
        if bad:
            ctx.bad(rule, f'{name}:{lab}', where, 'uses the table of ' + ', '.join(f'{b} in {a}' for a, b in sorted(bad)))
        else:
            ctx.ok(rule, f'{name}:{lab}')


def after(ctx, s, sp, m, others):
    for x in others:
        load(s, sp, x)
    out = absorb(s, sp, load(s, sp, m))
    only(ctx, 'fresh', f'{sp} {m} tables', sp, m, out, s.where(AM, CLS[sp], 'set_ll'))
    return out


def columns(ctx, sp, m, where):
    s = Session()
    o = load(s, sp, m)
    n0 = len(s.I.events)
    absorb(s, sp, o)
    ctx.seen(s)
    ev = s.I.events[n0:]
    missing = sorted({str(e.data) for e in ev if e.kind in ('missing-attr', 'maybe-missing-attr', 'none-attr') and not raised(e)})
    ctx.must(not missing, 'defined', f'{sp} {m}', where, 'not defined: ' + ', '.join(missing))
    read = {e.data[1] for e in ev if e.kind == 'modread' and e.data[0].startswith('pyrtlib._lineshape')}
    ctx.count('line_parameters_read', len(read))
    if len(read) < NEED[sp]:
        raise Undecided('line-list module not read attribute by attribute')
    mod = s.I.getattr_(s.get(AM, CLS[sp]), LL[sp], None)
    s2 = Session()
    s2.mod(AM)
    ref = s2.spec('absorb', sp + '_table', const(m))
    pairs = {}
    for a in sorted(read):
        k = O2ATTR.get(a) if sp == 'o2' else a
        try:
            want = s2.t(s2.I.getitem(ref, const(k), None)) if k else None
        except PathDead:
            want = None
        if want is None:
            continue
        pairs[a] = s.final(s.t(s.I.getattr_(mod, a, None))), want
    if len(pairs) < NEED[sp]:
        raise Undecided('line-list attributes not recognised')
    for a, r in ctx.decide_all(pairs).items():
        cons = f'{sp} {m}:{a}'
        if r[0] == 'equal':
            ctx.ok('column', cons)
        elif r[0] == 'different':
            ctx.bad('column', cons, where, f'{a} is {tm.show(pairs[a][0], 4)}, should be {tm.show(pairs[a][1], 4)}')
        else:
            ctx.unk('column', cons, where, r[1])


def raised(e):
    return any(any(x.op == 'opaque' for x in tm.walk(c)) for c, b in getattr(e, 'pc', ()) or ())


def through(ctx, prev, m, o3n):
    s = Session()
    for x in (prev, m):
        if x in O3_MODELS:
            s.set_model(o3=x)
        sim(s, dict(model=x, o3n=o3n), outputs=())
    ctx.seen(s)
    w = s.where(TB, 'TbCloudRTE', 'init_absmdl')
    for sp in ('h2o', 'o2') + (('o3',) if o3n and m in O3_MODELS else ()):
        if m not in MODELS[sp]:
            continue
        out = absorb(s, sp, s.I.instantiate(s.get(AM, CLS[sp]), [], {}, None))
        only(ctx, 'object', f'{prev} then {m}' + (' with ozone' if o3n else '') + f' {sp}', sp, m, out, w)

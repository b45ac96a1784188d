"""C06: perturbed parameter sets."""
from ._abs import *
from ..core import *
from .c05 import SETS, MODELS, params, item

EXPLANATION = ('parameters_perturbation interpreted for the parameter set of every species and model, every parameter, every mode and index, with all values and uncertainties symbolic. The entries '
               'of the returned set are compared with the base set by value numbering: the named one must be value +/- uncertainty (at the given index only), all others unchanged. Afterwards the base '
               'set and all sets returned earlier in the same history must still hold the terms they held, and a request-free call must return the base values.')
FIELDS = ('value', 'uncer')


def entries(s, d):
    ks = s.I.items_of(d)
    if ks is None:
        raise Undecided('parameter set is not a plain dictionary')
    out = {}
    for k in ks:
        e = s.I.getitem(d, k, None)
        n = tm.show(s.t(k)).strip("'\"")
        for f in FIELDS:
            out[n, f] = s.t(s.I.getattr_(e, f, None))
    return out


def base(s, sp, m, rows):
    """the parameter set with symbolic contents; scalars are distinct numbers"""
    d = params(s, sp, m)
    shared = {}
    kind = {}
    for i, k in enumerate(s.I.items_of(d)):
        e = s.I.getitem(d, k, None)
        n = s.t(k).args[0] if s.t(k).op == 'const' else str(k)
        kind[n] = {}
        for f in FIELDS:
            v = s.I.getattr_(e, f, None)
            t = s.t(v)
            if t.rank == 1 and isinstance(v, Ref):
                if v not in shared or f == 'uncer':
                    shared[v] = s.prof(f'{n}_{f}_{rows}', num(rows))
                s.I.setattr_(e, f, shared[v], None)
                kind[n][f] = 'array'
            elif t.rank == 0:
                s.I.setattr_(e, f, const(3.5 + i + (0.25 if f == 'uncer' else 0)), None)
                kind[n][f] = 'scalar'
            else:
                raise Undecided(f'{n}.{f} is neither scalar nor array')
    s.call(s.I.getattr_(s.get(UN, 'SpectroscopicParameter'), 'set_parameters', None), d)
    return d, kind


def lst(s, names):
    return s.I.new_list([const(n) for n in names])


def expected(before, kind, names, sign, index, rows):
    out = dict(before)
    for n in names:
        v, u = before[n, 'value'], before[n, 'uncer']
        if not sign:
            continue
        if 'scalar' in kind[n].values() or index is None:
            out[n, 'value'] = tm.add(v, tm.mul(num(sign), u))
        else:
            out[n, 'value'] = mk('arr', *[tm.add(tm.idx(v, (num(j),)), tm.mul(num(sign), tm.idx(u, (num(j),)))) if j == index else tm.idx(v, (num(j),)) for j in range(rows)], rank=1)
    return out


def compare(ctx, rule, cons, got, want, kind, rows, where, asked=(), before=None):
    ok = True
    if set(got) != set(want):
        ctx.bad(rule, cons, where, f'entries differ: {sorted(set(x[0] for x in set(got) ^ set(want)))}')
        return
    pairs = {}
    for k in want:
        if kind.get(k[0], {}).get(k[1]) == 'array' and k in want and want[k] is not got[k]:
            for j in range(rows):
                pairs[k, j] = tm.idx(got[k], (num(j),)), tm.idx(want[k], (num(j),))
        else:
            pairs[k, None] = got[k], want[k]
    res = ctx.decide_all(pairs)
    diff = sorted({k[0] for (k, j), r in res.items() if r[0] == 'different'})
    unk = [r for r in res.values() if r[0] == 'unknown']
    leak = [n for n in diff if n not in asked]
    for n in leak:
        src = [x for x in asked if (x, 'value') in want and before and before[x, 'value'] is before[n, 'value']] or list(asked)
        ctx.bad(rule, f'{src[0] if src else cons} leaks into {n}', where, f'{n} was not asked for ({cons}) and differs from the base set')
    if [n for n in diff if n in asked]:
        k = [k for k, r in res.items() if r[0] == 'different' and k[0][0] in asked][0]
        ctx.bad(rule, cons, where, f'{k[0][0]}.{k[0][1]} element {k[1]} is {tm.show(pairs[k][0], 4)}, should be {tm.show(pairs[k][1], 4)}')
    if not diff:
        if unk:
            ctx.unk(rule, cons, where, unk[0][1])
        else:
            ctx.ok(rule, cons)


def history(ctx, sp, m, rows, mode):
    s = Session(sizes=dict(rows=rows))
    s.mod(UN)
    where = s.where(UN, 'AbsModUncertainty', 'parameters_perturbation')
    d, kind = base(s, sp, m, rows)
    before = entries(s, d)
    f = s.get(UN, 'AbsModUncertainty', 'parameters_perturbation')
    kept = []
    sign = dict(max=1, min=-1, non=0)[mode]

    def ask(names, index):
        args = [lst(s, names), const(mode)] + ([] if index is None else [const(index)])
        r = s.call(f, *args)
        got = {k: s.final(v) for k, v in entries(s, r).items()}
        cons = f'{"+".join(names)}' + (' element' if index is not None else '')
        compare(ctx, 'perturbed', cons, got, expected(before, kind, names, sign, index, rows), kind, rows, where, names, before)
        kept.append((r, got))
    names = list(kind)
    for n in names:
        for ix in ([None] if 'scalar' in kind[n].values() else [0, rows - 1]):
            ask([n], ix)
    arr = [n for n in names if 'scalar' not in kind[n].values()]
    sca = [n for n in names if kind[n]['value'] == 'scalar']
    if len(sca) > 1:
        ask(sca[:2], None)
    if len(arr) > 1 and sca:
        ask([arr[1], sca[0]], 1)
    r = s.call(f)
    compare(ctx, 'no-request', f'{sp} {m}', {k: s.final(v) for k, v in entries(s, r).items()}, before, kind, rows, where)
    if mode == 'non':
        r = s.call(f, lst(s, names), const('non'))
        compare(ctx, 'no-request', f'{sp} {m} all names', {k: s.final(v) for k, v in entries(s, r).items()}, before, kind, rows, where)
    ctx.seen(s)
    ctx.must(all(a is before[k] for k, a in entries(s, d).items()), 'untouched', f'{sp} {m} base set', where,
             'changed: ' + ', '.join(sorted({k[0] for k, a in entries(s, d).items() if k not in before or a is not before[k]})))
    for i, (r, got) in enumerate(kept):
        now = {k: s.final(v) for k, v in entries(s, r).items()}
        ch = sorted({k[0] for k in got if now.get(k) is not got[k]})
        if ch:
            ctx.bad('untouched', f'{sp} {m} returned set', where, 'a set returned earlier changed: ' + ', '.join(ch))
            break
    else:
        ctx.ok('untouched', f'{sp} {m} {mode} returned sets')


def run(ctx):
    ctx.rule('perturbed', 'the returned set differs from the base set in the named entry (and index) only, by plus or minus its uncertainty')
    ctx.rule('no-request', 'without a request the returned set equals the base set')
    ctx.rule('untouched', 'the base set and sets returned earlier keep their contents')
    w = Session().where(UN, 'AbsModUncertainty', 'parameters_perturbation')
    for sp in ('h2o', 'o2', 'o3'):
        for m in MODELS[sp]:
            for mode in ('max', 'min', 'non'):
                ctx.guard('perturbed', f'{sp} {m} {mode}', lambda: history(ctx, sp, m, 49 if sp == 'o2' and ctx.thorough else 3, mode), dead='violated')

"""C01: data handed to the package is never modified."""
import ast

from ..harness import *
from ..core import *
from . import c05
from ._abs import load, select, CLS, H2O_MODELS, O2_MODELS, O3_MODELS, N2_MODELS, LIQ_MODELS
from .c15 import EX
from ._rte import sym

EXPLANATION = ('Every public routine of the simulation, the absorption models, the weighting functions, the extrapolation, the parameter perturbation and the conversion utilities is interpreted on input arrays, lists and '
               'dictionaries with symbolic contents of unknown sign, with views and attributes aliasing as in numpy. After the call the contents of every input must be the term they were before '
               '(compared by value numbering when the terms differ).')
WF = 'pyrtlib.weighting_functions'


def flat(s, v, path, out, depth=0):
    """contents of a value as {path: term}"""
    I = s.I
    if isinstance(v, Tup):
        for i, x in enumerate(v.items):
            flat(s, x, f'{path}[{i}]', out, depth + 1)
    elif isinstance(v, Ref) and I.kind(v) in ('list', 'dict'):
        items = I.items_of(v)
        if items is None:
            out[path] = s.t(v)
            return out
        out[path + ' length'] = num(len(items))
        for i, x in enumerate(items):
            if I.kind(v) == 'dict':
                flat(s, I.getitem(v, x, None), f'{path}[{tm.show(s.t(x))}]', out, depth + 1)
            else:
                flat(s, x, f'{path}[{i}]', out, depth + 1)
    elif isinstance(v, Ref) and I.kind(v) == 'obj' and depth < 4:
        for k in [k for k in I.st.m if k[0] == 'f' and k[1] == v.oid]:
            flat(s, I.st.m[k], f'{path}.{k[2]}', out, depth + 1)
    else:
        out[path] = s.t(v)
    return out


class Watch:
    def __init__(self, ctx, rule, cons, where, sizes=None):
        self.ctx, self.rule, self.cons, self.where = ctx, rule, cons, where
        self.s = Session(sizes=sizes)
        self.seen = []

    def arr(self, name, n=None, **kw):
        r = self.s.prof('user_' + name, n, **kw)
        return self.add(name, r)

    def add(self, name, v):
        self.seen.append((name, v, flat(self.s, v, name, {})))
        return v

    def done(self):
        s, ctx = self.s, self.ctx
        ctx.seen(s)
        pairs, gone = {}, []
        for name, v, was in self.seen:
            now = flat(s, v, name, {})
            gone += [k for k in was if k not in now] + [k for k in now if k not in was]
            pairs.update({k: (now[k], was[k]) for k in was if k in now})
        ctx.count('inputs_watched', len(pairs))
        if gone:
            ctx.bad(self.rule, f'{self.cons}: {gone[0]}', self.where, 'entries appear or disappear: ' + ', '.join(gone[:5]))
            return
        bad = False
        for k, r in ctx.decide_all({k: p for k, p in pairs.items() if p[0] is not p[1]}).items():
            if r[0] == 'equal':
                continue
            bad = True
            # an undecided condition or value: the array is written to all the same, unless what is written may be what was there
            if r[0] == 'unknown' and not stored(pairs[k][0], pairs[k][1]):
                ctx.unk(self.rule, f'{self.cons}: {k}', self.where, r[1])
            else:
                ctx.bad(self.rule, f'{self.cons}: {k}', self.writer() or self.where, f'becomes {tm.show(pairs[k][0], 4)[:200]}')
        if not bad:
            ctx.ok(self.rule, self.cons)

    def writer(self):
        for e in self.s.I.events:
            if e.kind == 'mutate' and any(str(x).startswith('input:') for x in e.data[2]):
                return e.where
        return ''


def stored(now, was):
    """a write to the array itself, not an object the analyser lost track of"""
    if now.op == 'call' and now.args[0] in ('sort', 'partition', 'shuffle', 'nan_to_num', 'clip', 'round'):
        return True
    return now.op == 'store' or now.op in ('fill', 'phi') and any(x is was for x in tm.walk(now)) and not any(x.op in OPAQUE_OPS for x in tm.walk(now, conds=False))


def run(ctx):
    ctx.rule('unchanged', 'after the call every array, list and dictionary passed in holds what it held before')
    S = Session()
    for m in (UT, RT, AM, TB, UN, EX, WF):
        S.mod(m)

    def go(cons, mod, names, fn, sizes=None, optional=False):
        """fn(w, s): register inputs, call"""
        def body():
            w = Watch(ctx, 'unchanged', cons, S.where(mod, *names), sizes)
            fn(w, w.s)
            w.done()
        if optional:
            try:
                return body()
            except (PathDead, Undecided, Broken):
                return None
        ctx.guard('unchanged', cons, body)

    # ---- conversion utilities, from their signatures
    ns = S.mod(UT)
    for k, v in sorted(functions(S, UT).items()):
        for variant in ('plain', 'all'):
            def fn(w, s):
                f = s.get(UT, k)
                args, kw = [], {}
                for a, ann, default in signature(v):
                    if default is not None and variant == 'plain':
                        continue
                    if 'ndarray' in ann or 'float' in ann:
                        x = w.arr(a)
                    elif 'bool' in ann:
                        x = TRUE
                    elif 'int' in ann:
                        x = ONE
                    elif default is not None:
                        continue
                    else:
                        raise Undecided('argument ' + a)
                    if default is None:
                        args.append(x)
                    else:
                        kw[a] = x
                if not w.seen:
                    return
                s.call(f, *args, **kw)
            if variant == 'plain' or any(d is not None and ('ndarray' in n or 'bool' in n) for _, n, d in signature(v)):
                go(f'{k} {variant}', UT, (k,), fn, optional=k in ('import_lineshape', 'constants', 'get_frequencies', 'get_frequencies_sat'))

    # ---- radiative transfer steps
    R = lambda s, n: s.get(RT, 'RTEquation', n)

    def rt(name, args, cons='', before=None, sizes=None):
        def fn(w, s):
            if before:
                before(w, s)
            s.call(R(s, name), *[x(w, s) if callable(x) else w.arr(x) if isinstance(x, str) else x for x in args])
        go(f'{name} {cons}'.strip(), RT, ('RTEquation', name), fn, sizes)
    for b in (TRUE, FALSE):
        rt('vapor', ('t', 'rh', b), f'ice {tm.cval(b)}')
        rt('exponential_integration', (b, 'x', 'ds', sym('ibeg', 0), sym('iend', 0), ONE), f'zero {tm.cval(b)}')

        def view(w, s):
            s.I.setattr_(s.get(RT, 'RTEquation'), '_from_sat', b, None)
            s.I.setattr_(s.get(RT, 'RTEquation'), '_emissivity', w.arr('emissivity', s.NF), None)
        for fr in ('scalar', 'array'):
            rt('planck', ((lambda w, s: sym('frq0', 0)) if fr == 'scalar' else (lambda w, s: w.arr('frq', s.NF)), 't', 'taulay'), f'{fr} frequency, satellite {tm.cval(b)}',
               (lambda w, s: s.I.setattr_(s.get(RT, 'RTEquation'), '_from_sat', b, None)) if fr == 'scalar' else view)
    rt('bright', ('hvk', 'boft'))
    rt('refractivity', ('p', 't', 'e'))
    rt('ray_tracing', ('z', 'refindx', sym('angle', 0), sym('z0', 0)))
    rt('cloud_radiating_temperature', (sym('ibase', 0), sym('itop', 0), 'hvk', 'tauprof', 'boftatm'))
    rt('cloud_integrated_density', ('dencld', 'ds', lambda w, s: w.arr('lbase', s.NC), lambda w, s: w.arr('ltop', s.NC)))
    for m in ('R03', 'R98', 'R22', 'R24') if not ctx.thorough else LIQ_MODELS:
        rt('cloudy_absorption', ('t', 'denl', 'deni', sym('frq0', 0)), m, lambda w, s: select(s, 'liq', m))

    # ---- absorption routines with a parameter set
    for sp, models, fn_ in (('h2o', H2O_MODELS, 'h2o_absorption'), ('o2', O2_MODELS, 'o2_absorption'), ('o3', O3_MODELS, 'o3_absorption')):
        for m in models:
            for kind in ('scalar', 'array'):
                def fn(w, s):
                    o = load(s, sp, m)
                    d = w.add('amu', distinct(s, c05.params(s, sp, m)))
                    if kind == 'scalar':
                        args = [sym('a0', 0), sym('a1', 0), sym('a2', 0), sym('a3', 0)]
                    else:
                        args = [w.arr('first'), w.arr('second'), w.arr('third') if sp != 'o3' else sym('a2', 0), sym('a3', 0) if sp != 'o3' else w.arr('ozone')]
                    s.method(o, fn_, *args, d)
                go(f'{fn_} {m} {kind} state', AM, (CLS[sp], fn_), fn, dict(rows=49) if sp == 'o2' else None, optional=kind == 'array')
    for sp, models, fn_ in (('n2', N2_MODELS, 'n2_absorption'), ('liq', LIQ_MODELS, 'liquid_water_absorption')):
        for m in models:
            def fn(w, s):
                c = select(s, sp, m)
                s.call(s.I.getattr_(c, fn_, None), w.arr('first'), w.arr('second'), w.arr('third'))
            go(f'{fn_} {m}', AM, (CLS[sp], fn_), fn, optional=True)

    # ---- uncertainty

    def perturb(mode, what, index):
        def fn(w, s):
            c = s.get(UN, 'SpectroscopicParameter')
            m = 'R19SD'
            d = s.call(s.I.getattr_(c, 'water_parameters', None), const(m))
            w.add('parameter set', d)
            s.call(s.I.getattr_(c, 'set_parameters', None), d)
            w.add('parameter set', s.I.getattr_(c, 'SP', None))
            names = w.add('what', s.I.new_list([const(x) for x in what]))
            s.call(s.get(UN, 'AbsModUncertainty', 'parameters_perturbation'), names, const(mode), index)
        return fn
    for mode in ('max', 'min', 'non'):
        for what in ((), ('gamma_a',), ('con_Cf', 'S', 'gamma_w')):
            for ix in (NONE, ZERO):
                if ix is NONE and what != ('con_Cf',) and what:
                    continue
                go(f'parameters_perturbation {mode} {"+".join(what)} index {tm.show(ix)}', UN, ('AbsModUncertainty', 'parameters_perturbation'), perturb(mode, what, ix))
    for f in ('aA', 'aA+bB', 'aA-bB', 'A*B', 'A/B', 'A^a'):
        go(f'uncertainty_propagation {f}', UN, ('AbsModUncertainty', 'uncertainty_propagation'),
           lambda w, s: s.call(s.get(UN, 'AbsModUncertainty', 'uncertainty_propagation'), const(f), *[w.arr(k) for k in ('A', 'B', 'sA', 'sB')], sym('a', 0), sym('b', 0), sym('sAB', 0)))

    # ---- extrapolation
    new = lambda s: s.call(s.get(EX, 'ProfileExtrapolation'))
    for f in ('temperature', 'pressure', 'water_vapour_density'):
        for season in ('summer', 'winter'):
            go(f'{f} {season}', EX, ('ProfileExtrapolation', f), lambda w, s: s.method(new(s), f, sym('lat', 0), w.arr('h'), const(season)))
    for f, n in (('standard_temperature', 1), ('standard_pressure', 2), ('standard_water_vapour_density', 2), ('standard_water_vapour_pressure', 2)):
        go(f, EX, ('ProfileExtrapolation', f), lambda w, s: s.method(new(s), f, w.arr('h'), *[sym(f'a{i}', 0) for i in range(n)]))
    for grid in ('built-in', 'given'):
        def fn(w, s):
            e = new(s)
            if grid == 'given':
                s.I.setattr_(e, 'height', w.arr('grid', tm.sym('ngrid', rank=0)), None)
            s.method(e, 'profile_extrapolation', sym('lat', 0), sym('month', 0), w.arr('z'), Tup([w.arr('p'), w.arr('t'), w.arr('rh')]))
        go(f'profile_extrapolation {grid} heights', EX, ('ProfileExtrapolation', 'profile_extrapolation'), fn)

    # ---- simulation, nothing left uninterpreted
    every = dict(ray=True, cloudy=True, o3n=True, sat=True, amu=False, mono=1, model='R20SD', es=True)
    cfgs = [dict(every), dict(every, ray=False, sat=False, mono=-1, model='R98', o3n=False), dict(every, ray=False, cloudy=False, amu=True, model='R19SD', mono=-1), dict(every, mono=-1, model='R24', ray=False)]
    if ctx.thorough:
        cfgs += [dict(every, model=m, mono=mo, sat=sa, amu=False) for m in ('R03', 'R17', 'R19', 'R22', 'R23') for mo in (1, -1) for sa in (True, False)]
    for c in cfgs:
        go('simulation ' + ' '.join(f'{k}={v}' for k, v in c.items()), TB, ('TbCloudRTE', 'execute'), lambda w, s: simulate(w, s, c))

    # ---- weighting functions
    for sat in (TRUE, FALSE):
        go(f'generate_wf satellite={tm.cval(sat)}', WF, ('WeightingFunctions', 'generate_wf'), lambda w, s: s.method(weighting(w, s, sat), 'generate_wf'))
        for band in (False, True):
            for norm in (FALSE, TRUE):
                def fn(w, s):
                    o = weighting(w, s, sat)
                    if band:
                        s.I.setattr_(o, 'bandpass', w.arr('bandpass', tm.sym('nband', rank=0)), None)
                    s.I.setattr_(o, 'legend_labels', w.add('labels', s.I.new_list([const('a'), const('b')])), None)
                    s.method(o, 'plot_wf', w.arr('wgt', rank=2, shape=(s.NF, s.NL)), const('title'), w.add('ylim', s.I.new_list([ZERO, num(60)])), w.add('xlim', s.I.new_list([ZERO, ONE])), TRUE, norm)
                go(f'plot_wf satellite={tm.cval(sat)} bands={band} normalized={tm.cval(norm)}', WF, ('WeightingFunctions', 'plot_wf'), fn)
    for band in (False, True):
        def fn(w, s):
            o = weighting(w, s, TRUE)
            if band:
                s.I.setattr_(o, 'bandpass', w.arr('bandpass', tm.sym('nband', rank=0)), None)
            s.method(o, 'plot_wf_grouped', w.arr('wgt', rank=2, shape=(s.NF, s.NL)), const('title'), w.add('ylim', s.I.new_list([ZERO, num(60)])), w.add('groups', s.I.new_list([num(2), num(3)])),
                     w.add('labels', s.I.new_list([const('a'), const('b')])))
        go(f'plot_wf_grouped bands={band}', WF, ('WeightingFunctions', 'plot_wf_grouped'), fn)


def distinct(s, d):
    """no two parameters share an array"""
    for k in s.I.items_of(d):
        e = s.I.getitem(d, k, None)
        v = s.I.getattr_(e, 'value', None)
        if isinstance(v, Ref) and s.t(v).rank == 1:
            n = tm.length(s.t(v))
            s.I.setattr_(e, 'value', s.I.new_sym(f'user_{tm.show(s.t(k))}:{s.I.rows}', frozenset({'input:' + tm.show(s.t(k))}), rank=1, shape=(n,)), None)
    return d


def weighting(w, s, sat):
    o = s.call(s.get(WF, 'WeightingFunctions'), *[w.arr(k) for k in ('z', 'p', 't', 'rh')])
    s.I.setattr_(o, 'satellite', sat, None)
    s.I.setattr_(o, 'frequencies', w.arr('frequencies', s.NF), None)
    from ._rte import opaque_fn
    for q, n in ((RT + '.RTEquation.clearsky_absorption', 2), (RT + '.RTEquation.ray_tracing', 1)):
        opaque_fn(s.I, q, n, 1)
    return o


def simulate(w, s, c):
    s.over = {k: w.arr(k) for k in ('p', 't', 'rh')}
    s.over['tk'] = s.over['t']
    s.over['z'] = w.arr('z', mono=c['mono'])
    s.over['frq'], s.over['angles'] = w.arr('frq', s.NF), w.arr('angles', s.NA)
    kw = {}
    if c['o3n']:
        s.over['o3n'] = kw['o3n'] = w.arr('o3n')
    if c['amu']:
        d = s.I.new_dict({})
        for sp in ('h2o', 'o2'):
            p = c05.params(s, sp, c['model'])
            for k in s.I.items_of(p):
                s.I.setitem(d, k, s.I.getitem(p, k, None), None)
        distinct(s, d)
        kw['amu'] = w.add('amu', d)
    r = s.tb(cloudy=const(c['cloudy']), ray_tracing=const(c['ray']), from_sat=const(c['sat']), **kw)
    if c['es']:
        s.I.setattr_(r, 'emissivity', w.arr('emissivity', s.NF), None)
    s.method(r, 'init_absmdl', const(c['model']))
    if c['o3n']:
        s.set_model(o3='R22')
    if c['cloudy']:
        s.method(r, 'init_cloudy', w.arr('cldh', rank=2, shape=(num(2), s.NC)), w.arr('denice'), w.arr('denliq'))
    s.method(r, 'execute', FALSE)


def functions(s, mod):
    """functions defined in the module: name -> node"""
    s.mod(mod)
    tree = ast.parse(open(s.I.modpath(mod), encoding='utf-8').read())
    return {n.name: n for n in tree.body if isinstance(n, ast.FunctionDef)}


def signature(node):
    a = node.args
    pos = a.posonlyargs + a.args
    d = [None] * (len(pos) - len(a.defaults)) + list(a.defaults)
    return [(x.arg, ast.unparse(x.annotation) if x.annotation else 'np.ndarray', y) for x, y in zip(pos, d)] + \
        [(x.arg, ast.unparse(x.annotation) if x.annotation else 'np.ndarray', y) for x, y in zip(a.kwonlyargs, a.kw_defaults)]

"""C25: every documented argument influences the result."""
import ast

from ._abs import *
from ._web import Web, API, WY, IG, items
from .. import lib
from ..core import *
from . import c01, c05, c06, c18, c22
from .c15 import EX
from .c01 import flat, distinct, functions, signature

EXPLANATION = ('Dependence analysis on value graphs. Each public computation is interpreted with a distinct symbol for every numeric argument; the symbol of each argument must occur in the value graph of what it returns '
               '(or sets, sends or draws), other than as the length of an array. For arguments that select something, the graphs for two documented values must not be equal. An argument whose symbol does not occur '
               'cannot influence the result on any path.')
PR, WF = 'pyrtlib.climatology.atmospheric_profiles', 'pyrtlib.weighting_functions'
ERA, EPS = API + 'erafive', API + 'eps_sandbox'


def symbols(ts):
    out, seen = set(), set()
    for t in ts:
        for x in tm.walk(t, seen, stop=lambda y: y.op == 'len'):
            if x.op == 'sym':
                out.add(x)
    return out


class Reg:
    """the arguments of one scenario"""

    def __init__(self, s):
        self.s, self.args = s, {}

    def arr(self, name, n=None, **kw):
        r = self.s.prof(name, n or self.s.NL, **kw)
        self.args[name] = self.atoms(self.s.t(r))
        return r

    def sy(self, name, sign=None):
        t = sym(name, 0, sign)
        self.args[name] = {t}
        return t

    def put(self, name, *ts):
        self.args[name] = set(ts)
        return ts[0]

    @staticmethod
    def atoms(t):
        return {x for x in tm.walk(t) if x.op == 'sym' and x.rank != 0} or {t}


def outcome(s, v):
    return list(flat(s, v, '', {}).values())


def run(ctx):
    ctx.rule('influence', 'the value of every documented argument occurs in the value graph of the result')
    ctx.rule('choice', 'two documented values of a selecting argument do not give the same value graph')
    S = Session()

    def dep(cons, mod, names, fn, sizes=None, which=None, optional=False):
        """fn(s, reg) -> list of terms"""
        def go():
            s = Session(sizes)
            for m in (RT, AM, TB, UT):
                s.mod(m)
            r = Reg(s)
            ts = fn(s, r)
            ctx.seen(s)
            got = symbols([s.final(t) for t in ts])
            for k, atoms in r.args.items():
                if which is None or k in which:
                    ctx.must(bool(atoms & got), 'influence', f'{cons} {k}', S.where(mod, *names), f'{k} does not occur in what is returned')
        if optional:
            try:
                return go()
            except (PathDead, Undecided, Broken):
                return None
        ctx.guard('influence', cons, go)

    def opt(cons, mod, names, fn, values, sizes=None):
        """fn(s, value) -> {label: term}"""
        def go():
            outs = []
            for v in values:
                s = Session(sizes)
                for m in (RT, AM, TB, UT):
                    s.mod(m)
                outs.append({k: s.final(t) for k, t in fn(s, v).items()})
                ctx.seen(s)
            for i in range(1, len(outs)):
                a, b = outs[0], outs[i]
                lab = f'{cons}: {show(values[0])} or {show(values[i])}'
                if set(a) != set(b):
                    ctx.ok('choice', lab)
                    continue
                rs = [k for k in a if a[k] is not b[k]]
                if not rs or all(ctx.decide(a[k], b[k])[0] == 'equal' for k in rs):
                    ctx.bad('choice', lab, S.where(mod, *names), 'both give the same result')
                else:
                    ctx.ok('choice', lab)
        ctx.guard('choice', cons, go)

    utils(ctx, S, dep, opt)
    transfer(dep, opt)
    absorbers(ctx, dep, opt)
    simulation(dep, opt)
    weights(ctx, dep, opt)
    uncertainty(dep, opt)
    climate(dep, opt)
    web(ctx, S, dep, opt)


def show(v):
    return v if isinstance(v, str) else tm.show(v, 3) if isinstance(v, T) else str(v)


# ------------------------------------------------------------------ conversions

def utils(ctx, S, dep, opt):
    S.mod(UT)
    for k, node in sorted(functions(S, UT).items()):
        def fn(s, r):
            f = s.get(UT, k)
            args, kw = [], {}
            for a, ann, default in signature(node):
                txt = ast.unparse(default) if default is not None else ''
                num_ = 'ndarray' in ann or 'float' in ann
                if default is None:
                    if not num_:
                        raise Undecided(a)
                    args.append(r.arr(a))
                elif num_ and a not in ('method', 'ice') and not txt.startswith(("'", 'True', 'False')):
                    kw[a] = r.sy(a)
            res = s.call(f, *args, **kw)
            return outcome(s, res)
        dep(k, UT, (k,), fn, optional=k not in ('mr2rh', 'mr2rho', 'mr2e', 'rho2rh', 'rho2mr', 'e2mr', 'satmix', 'satvap', 'tk2b_mod', 'dilec12', 'virtual_temperature', 'atmospheric_tickness', 'dewpoint2rh',
                                               'kgkg_to_kgm3', 'ppmv_to_moleculesm3', 'pressure_to_height', 'height_to_pressure', 'to_kelvin', 'to_celsius', 'eswat_goffgratch', 'esice_goffgratch'))
    dep('ppmv2gkg', UT, ('ppmv2gkg',), lambda s, r: [s.t(s.call(s.get(UT, 'ppmv2gkg'), r.arr('ppmv'), s.I.getattr_(s.get(PR, 'AtmosphericProfiles'), 'O3', None)))])
    opt('ppmv2gkg gas', UT, ('ppmv2gkg',), lambda s, v: {'': s.t(s.call(s.get(UT, 'ppmv2gkg'), s.prof('ppmv'), s.I.getattr_(s.get(PR, 'AtmosphericProfiles'), v, None)))}, ['O3', 'H2O', 'CO2'])
    one_ = lambda f: (lambda s, v: {'': s.t(s.call(s.get(UT, f), const(v)))})
    for f, vs in (('get_frequencies', ('hat', 'mp3', 'k2w')), ('get_frequencies_sat', ('ICI', 'MWS', 'ATMS'))):
        opt(f, UT, (f,), one_(f), list(vs))
    opt('constants', UT, ('constants',), lambda s, v: {str(i): t for i, t in enumerate(outcome(s, s.call(s.get(UT, 'constants'), const(v))))}, ['Tcosmicbkg', 'planck', 'light', 'gravity', 'boltzmann'])
    opt('gas_mass', UT, ('gas_mass',), lambda s, v: {'': s.t(s.call(s.get(UT, 'gas_mass'), s.I.getattr_(s.get(PR, 'AtmosphericProfiles'), v, None)))}, ['H2O', 'O3', 'CO2'])


# ------------------------------------------------------------------ radiative transfer steps

def transfer(dep, opt):
    R = lambda s, n: s.get(RT, 'RTEquation', n)
    where = lambda n: (RT, ('RTEquation', n))

    def both(name, args, before=None, tag=''):
        def fn(s, r):
            if before:
                before(s, r)
            return outcome(s, s.call(R(s, name), *[a(s, r) if callable(a) else r.arr(a) if isinstance(a, str) else a for a in args]))
        dep((name + ' ' + tag).strip(), *where(name), fn)
    V = lambda n: (lambda s, r: r.sy(n))
    for b in (TRUE, FALSE):
        both('vapor', ('t', 'rh', b), tag=f'ice {tm.cval(b)}')
        both('exponential_integration', (b, 'x', 'ds', V('ibeg'), V('iend'), V('factor')), tag=f'zero {tm.cval(b)}')

        def view(s, r):
            s.I.setattr_(s.get(RT, 'RTEquation'), '_from_sat', b, None)
            s.I.setattr_(s.get(RT, 'RTEquation'), '_emissivity', sym('emissivity', 0), None)
        both('planck', (V('frq'), 't', 'taulay'), view, f'satellite {tm.cval(b)}')
    both('bright', (V('hvk'), V('boft')))
    both('refractivity', ('p', 't', 'e'))
    both('ray_tracing', ('z', 'refindx', V('angle'), V('z0')))
    both('cloud_radiating_temperature', (V('ibase'), V('itop'), V('hvk'), 'tauprof', 'boftatm'))
    both('cloud_integrated_density', ('dencld', 'ds', lambda s, r: r.arr('lbase', s.NC), lambda s, r: r.arr('ltop', s.NC)))
    opt('vapor ice', *where('vapor'), lambda s, v: dict(enumerate(outcome(s, s.call(R(s, 'vapor'), s.prof('t'), s.prof('rh'), v)))), [FALSE, TRUE])
    opt('exponential_integration zeroflg', *where('exponential_integration'),
        lambda s, v: dict(enumerate(outcome(s, s.call(R(s, 'exponential_integration'), v, s.prof('x'), s.prof('ds'), sym('ibeg', 0), sym('iend', 0), ONE)))), [FALSE, TRUE])

    def clear(o3):
        def fn(s, r):
            species_hooks(s)
            s.set_model(n2='R98', o3='R22')
            return outcome(s, s.call(R(s, 'clearsky_absorption'), r.arr('p'), r.arr('t'), r.arr('e'), r.sy('frq', 1), r.arr('o3n') if o3 else NONE, NONE))
        return fn
    for o3 in (True, False):
        dep('clearsky_absorption' + ('' if o3 else ' no ozone'), *where('clearsky_absorption'), clear(o3))

    def cloud(s, r):
        species_hooks(s)
        return outcome(s, s.call(R(s, 'cloudy_absorption'), r.arr('t'), r.arr('denl'), r.arr('deni'), r.sy('frq', 1)))
    dep('cloudy_absorption', *where('cloudy_absorption'), cloud)

    def cloud2(i, names):
        def fn(s, r):
            species_hooks(s)
            res = s.call(R(s, 'cloudy_absorption'), r.arr('t'), r.arr('denl'), r.arr('deni'), r.sy('frq', 1))
            return outcome(s, res.items[i])
        dep(f'cloudy_absorption output {i}', *where('cloudy_absorption'), fn, which=names)
    cloud2(0, ('t', 'denl', 'frq'))
    cloud2(1, ('deni', 'frq'))


# ------------------------------------------------------------------ absorption models

def absorbers(ctx, dep, opt):
    for sp, models, fn_ in (('h2o', H2O_MODELS, 'h2o_absorption'), ('o2', O2_MODELS, 'o2_absorption')):
        for m in models:
            def fn(s, r):
                o = load(s, sp, m)
                st = state(s)
                for n, x in zip(('pdrykpa', 'vx', 'ekpa', 'frq'), st):
                    r.put(n, x)
                return outcome(s, s.method(o, fn_, *st))
            dep(f'{fn_} {m}', AM, (CLS[sp], fn_), fn, dict(rows=49) if sp == 'o2' else None)
    for m in O3_MODELS:
        def fn(s, r):
            o = load(s, 'o3', m)
            return outcome(s, s.method(o, 'o3_absorption', *[r.sy(k, 1) for k in ('t', 'p', 'f', 'o3n')]))
        dep(f'o3_absorption {m}', AM, ('O3AbsModel', 'o3_absorption'), fn)
    for sp, models, fn_, names in (('n2', N2_MODELS, 'n2_absorption', ('t', 'p', 'f')), ('liq', LIQ_MODELS, 'liquid_water_absorption', ('water', 'freq', 'temp'))):
        for m in models:
            dep(f'{fn_} {m}', AM, (CLS[sp], fn_), lambda s, r: outcome(s, s.call(s.I.getattr_(select(s, sp, m), fn_, None), *[r.sy(k, 1) for k in names])))
    # a parameter set takes the place of the table's values
    for sp, fn_, ms in (('h2o', 'h2o_absorption', H2O_MODELS), ('o2', 'o2_absorption', O2_MODELS), ('o3', 'o3_absorption', O3_MODELS)):
        for m in ms if ctx.thorough else ms[-4:]:
            def fn(s, r):
                o = load(s, sp, m)
                d = distinct(s, c05.params(s, sp, m))
                mine = symbols(outcome(s, d))
                r.put('amu', *[x for x in mine if 'user_' in str(x.args[0])])
                return outcome(s, c05_absorb(s, sp, o, fn_, d))
            dep(f'{fn_} {m} amu', AM, (CLS[sp], fn_), fn, dict(rows=49) if sp == 'o2' else None)


def c05_absorb(s, sp, o, fn_, d):
    return s.method(o, fn_, *(state(s) if sp != 'o3' else [sym(k, 0, 1) for k in ('t', 'p', 'f', 'o3n')]), d)


# ------------------------------------------------------------------ simulation

def simulation(dep, opt):
    where = (TB, ('TbCloudRTE', 'execute'))
    P = ('z', 'p', 't', 'rh', 'frq', 'angles')
    OUT = ('tbtotal', 'tauwet', 'taudry')

    def one(cfg, out, names):
        def fn(s, r):
            for k in names:
                n = dict(frq=s.NF, angles=s.NA, es=s.NF).get(k)
                x = s.prof('cldh', rank=2, shape=(num(2), s.NC)) if k == 'cldh' else s.prof(k, n or s.NL, mono=1 if k == 'z' else 0)
                r.args[k] = Reg.atoms(s.t(x))
            res = sim(s, cfg, (out,))
            return [x[0] if isinstance(x, tuple) else x for x in res.values()]
        dep('simulation ' + ' '.join(k for k, v in cfg.items() if v) + ' ' + out, *where, fn, sizes=dict(nl=3, nf=1, nang=1, ncld=1))
    for sat in (True, False):
        for ray in (True, False):
            for o3n in (True, False):
                for cloudy in (True, False):
                    if sum((ray, o3n, cloudy)) == 2 and not sat:
                        continue
                    cfg = dict(sat=sat, ray=ray, o3n=o3n, cloudy=cloudy)
                    base = P + (('o3n',) if o3n else ())
                    one(cfg, 'tbtotal', base + (('es',) if sat else ()) + (('denliq', 'denice') if cloudy else ()))
                    one(cfg, 'tauwet', base[:6])
                    one(cfg, 'taudry', base)
                    if cloudy:
                        one(cfg, 'tauliq', ('denliq', 'z', 'frq', 'angles'))
                        one(cfg, 'tauice', ('denice', 'z', 'frq', 'angles'))
    small = dict(nl=3, nf=1, nang=1, ncld=1)

    def flag(s, cfg, out='tbtotal'):
        return {k: x[0] if isinstance(x, tuple) else x for k, x in sim(s, cfg, (out,)).items()}
    opt('from_sat', TB, ('TbCloudRTE', '__init__'), lambda s, v: flag(s, dict(sat=v, es=False)), [False, True], small)
    opt('ray_tracing', TB, ('TbCloudRTE', '__init__'), lambda s, v: flag(s, dict(sat=True, ray=v)), [False, True], small)
    opt('cloudy', TB, ('TbCloudRTE', '__init__'), lambda s, v: flag(s, dict(sat=True, cloudy=v)), [False, True], small)
    opt('o3n', TB, ('TbCloudRTE', '__init__'), lambda s, v: flag(s, dict(sat=True, o3n=v)), [False, True], small)
    opt('emissivity', TB, ('TbCloudRTE', 'emissivity'), lambda s, v: flag(s, dict(sat=True, es=v)), [False, True], small)

    def result(s, v):
        hooks(s, {})
        r = s.tb(from_sat=TRUE)
        s.method(r, 'init_absmdl', const('R19SD'))
        x = s.method(r, 'execute', v)
        return {'pair' if isinstance(x, Tup) else 'table': ONE}
    opt('only_bt', TB, ('TbCloudRTE', 'execute'), result, [TRUE, FALSE], small)

    def models(s, v, how):
        if how == 'argument':
            s.tb(absmdl=v)
        else:
            s.method(s.tb(), 'init_absmdl', const(v))
        return {c: s.t(s.I.getattr_(s.get(AM, c), 'model', None)) for c in ('H2OAbsModel', 'O2AbsModel', 'N2AbsModel', 'LiqAbsModel')}
    for how in ('argument', 'method'):
        for c in ('H2OAbsModel', 'O2AbsModel', 'N2AbsModel', 'LiqAbsModel'):
            opt(f'absmdl {how} {c}', TB, ('TbCloudRTE', 'init_absmdl'), lambda s, v: {c: models(s, v, how)[c]}, ['R19SD', 'R98', 'R03'])


# ------------------------------------------------------------------ weighting functions

def weights(ctx, dep, opt):
    def calc(mk_, opts, outs=None):
        def fn(s, r):
            c = c22.Calc(1)
            ctx.seen(c.s)
            w = c.new()
            c.set(w, frequencies='', **opts)
            r.put('frequencies', *[x for x in tm.walk(c.s.t(c.freqs(''))) if x.op == 'sym'])
            for n, x in zip(('p', 't', 'rh'), c.prof):
                r.args[n] = Reg.atoms(c.s.t(x))
            if isinstance(opts.get('angle'), str):
                r.put('angle', sym(opts['angle'], 0, 1))
            return [c.weights(w)]
        return fn
    for sat in (True, False):
        dep(f'generate_wf satellite {sat}', WF, ('WeightingFunctions', 'generate_wf'), calc(c22.Calc, dict(satellite=sat, angle='theta', model='R19SD')))


    def step(s, v):
        c = c22.Calc(1, step=v)
        w = c.new()
        c.set(w, frequencies='', satellite=True)
        return {'': c.weights(w)}
    opt('value_prof_interpolation', WF, ('WeightingFunctions', '__init__'), step, [0.5, 1.25])

    def plotted(method, sat, normal, legend=TRUE):
        def fn(s, r):
            c = c22.Calc(2)
            s, I = c.s, c.s.I
            w = c.new()
            c.set(w, frequencies='', satellite=sat)
            rows = [[sym(f'w{i}_{j}', 0) for j in range(4)] for i in range(2)]
            r.put('wgt', *[x for y in rows for x in y])
            g = I.new_arr(mk('arr', *[mk('arr', *y, rank=1) for y in rows], rank=2))
            kw = dict(title=r.put('title', tm.sym('title')), ylim=Tup([r.put('ylim', sym('y0', 0)), sym('y1', 0)]))
            r.put('upper ylim', sym('y1', 0))
            if method == 'plot_wf':
                kw.update(xlim=Tup([r.put('xlim', sym('x0', 0)), sym('x1', 0)]), legend=legend, normalized=normal)
                r.put('upper xlim', sym('x1', 0))
                r.put('frequencies', *[x for x in tm.walk(s.t(c.freqs(''))) if x.op == 'sym'])
                if legend is FALSE:
                    del r.args['frequencies']
            else:
                labels = [tm.sym('label0'), tm.sym('label1')]
                kw.update(grouped_frequencies=I.new_list([num(1), num(1)]), grouped_labels=I.new_list(labels))
                r.put('grouped_labels', labels[0])
            e0 = len(I.events)
            s.method(w, method, g, **kw)
            ctx.seen(s)
            out = []
            for n, a, k, e in c22.drawn(I, e0):
                for x in a + list(k.values()):
                    out += outcome(s, x)
            return out
        return fn
    for sat in (True, False):
        for normal in (FALSE, TRUE):
            for legend in (TRUE, FALSE):
                dep(f'plot_wf satellite {sat} normalized {tm.cval(normal)} legend {tm.cval(legend)}', WF, ('WeightingFunctions', 'plot_wf'), plotted('plot_wf', sat, normal, legend))
        if sat:
            dep(f'plot_wf_grouped', WF, ('WeightingFunctions', 'plot_wf_grouped'), plotted('plot_wf_grouped', True, None))


# ------------------------------------------------------------------ uncertainty

def uncertainty(dep, opt):
    A = lambda s: s.get(UN, 'AbsModUncertainty')
    where = (UN, ('AbsModUncertainty', 'uncertainty_propagation'))
    for f, used in (('aA', ('a', 'A', 'sA')), ('aA+bB', ('A', 'B', 'a', 'b', 'sA', 'sB', 'sAB')), ('aA-bB', ('A', 'B', 'a', 'b', 'sA', 'sB', 'sAB')), ('A*B', ('A', 'B', 'sA', 'sB', 'sAB')),
                    ('A/B', ('A', 'B', 'sA', 'sB', 'sAB')), ('A^a', ('A', 'a', 'sA'))):
        def fn(s, r):
            return outcome(s, s.call(s.I.getattr_(A(s), 'uncertainty_propagation', None), const(f), *[r.arr(k) for k in ('A', 'B', 'sA', 'sB')], *[r.sy(k) for k in ('a', 'b', 'sAB')]))
        dep(f'uncertainty_propagation {f}', *where, fn, which=used)
    for f in ('water_parameters', 'oxygen_parameters', 'ozono_parameters'):
        def fn(s, v):
            d = s.call(s.I.getattr_(s.get(UN, 'SpectroscopicParameter'), f, None), const(v))
            return flat(s, d, '', {})
        opt(f, UN, ('SpectroscopicParameter', f), fn, ['R22', 'R18'] if f == 'ozono_parameters' else ['R19SD', 'R98'] if f == 'water_parameters' else ['R19SD', 'R98'])

    def perturbed(s, what, mode, index):
        c = s.get(UN, 'SpectroscopicParameter')
        d = distinct(s, s.call(s.I.getattr_(c, 'water_parameters', None), const('R19SD')))
        for k in s.I.items_of(d):
            e = s.I.getitem(d, k, None)
            v = s.t(s.I.getattr_(e, 'value', None))
            if v.rank in (0, 1):
                x = mk('sym', f'uncertainty:{tm.show(s.t(k))}', rank=v.rank)
                s.I.setattr_(e, 'uncer', s.I.new_arr(x) if v.rank else x, None)
        s.call(s.I.getattr_(c, 'set_parameters', None), d)
        r = s.call(s.I.getattr_(A(s), 'parameters_perturbation', None), s.I.new_list([const(x) for x in what]), const(mode), index)
        return flat(s, r, '', {})
    w2 = (UN, ('AbsModUncertainty', 'parameters_perturbation'))
    opt('parameters_perturbation what', *w2, lambda s, v: perturbed(s, v, 'max', ZERO), [('gamma_a',), ('S',), ('con_Cf',), ('gamma_a', 'S'), ()])
    opt('parameters_perturbation mode', *w2, lambda s, v: perturbed(s, ('gamma_a',), v, ZERO), ['max', 'min', 'non'])
    opt('parameters_perturbation index', *w2, lambda s, v: perturbed(s, ('gamma_a',), 'max', v), [ZERO, ONE, num(2)])

    def given(s, r):
        c = s.get(UN, 'SpectroscopicParameter')
        d = distinct(s, s.call(s.I.getattr_(c, 'water_parameters', None), const('R19SD')))
        r.put('SP', *[x for x in symbols(outcome(s, d)) if 'user_' in str(x.args[0])])
        s.call(s.I.getattr_(c, 'set_parameters', None), d)
        return outcome(s, s.call(s.I.getattr_(A(s), 'parameters_perturbation', None), s.I.new_list([const('con_Cf')]), const('max'), NONE))
    dep('set_parameters', UN, ('SpectroscopicParameter', 'set_parameters'), given)


# ------------------------------------------------------------------ climatology

def climate(dep, opt):
    new = lambda s: s.call(s.get(EX, 'ProfileExtrapolation'))
    for f in ('temperature', 'pressure', 'water_vapour_density'):
        for season in ('summer', 'winter'):
            dep(f'{f} {season}', EX, ('ProfileExtrapolation', f), lambda s, r: [s.t(s.method(new(s), f, r.sy('lat'), r.arr('h'), const(season)))])
        opt(f'{f} season', EX, ('ProfileExtrapolation', f), lambda s, v: {'': s.t(s.method(new(s), f, sym('lat', 0), s.prof('h'), const(v)))}, ['summer', 'winter'])
    for f, ns in (('standard_temperature', ('T_0',)), ('standard_pressure', ('T_0', 'P_0')), ('standard_water_vapour_density', ('h_0', 'rho_0')), ('standard_water_vapour_pressure', ('h_0', 'rho_0'))):
        dep(f, EX, ('ProfileExtrapolation', f), lambda s, r: [s.t(s.method(new(s), f, r.arr('h'), *[r.sy(n) for n in ns]))])

    def prof(s, r):
        q = [r.arr(k) for k in ('p', 't', 'rh')]
        return outcome(s, s.method(new(s), 'profile_extrapolation', r.sy('lat'), r.sy('month'), r.arr('z'), Tup(q)))
    dep('profile_extrapolation', EX, ('ProfileExtrapolation', 'profile_extrapolation'), prof)

    def heights(s, r):
        e = new(s)
        s.I.setattr_(e, 'height', r.arr('height', tm.sym('nh', rank=0)), None)
        return outcome(s, s.method(e, 'profile_extrapolation', sym('lat', 0), sym('month', 0), s.prof('z'), Tup([s.prof(k) for k in ('p', 't', 'rh')])))
    dep('profile_extrapolation own heights', EX, ('ProfileExtrapolation', 'profile_extrapolation'), heights)


# ------------------------------------------------------------------ web services

def web(ctx, S, dep, opt):
    def asked(w):
        ts = []
        for pc, path, q in w.asked:
            for x in [path] + list(q.values()):
                for y in x:
                    if isinstance(y, T):
                        ts.append(y)
                    elif isinstance(y, tuple):
                        ts += [z for z in y if isinstance(z, T)]
        return ts
    T_, ID = tm.sym('time'), tm.sym('site_id')

    def sounding(mod, cls):
        def fn(s, r):
            w = Web(s, 200)
            r.put('time', T_), r.put('site_id', ID)
            try:
                v = outcome(s, s.method(s.get(mod, cls), 'request_data', T_, ID))
            except PathDead:
                v = []
            return asked(w) + v
        return fn
    dep('WyomingUpperAir.request_data', WY, ('WyomingUpperAir', 'request_data'), sounding(WY, 'WyomingUpperAir'))
    dep('IGRAUpperAir.request_data', IG, ('IGRAUpperAir', 'request_data'), sounding(IG, 'IGRAUpperAir'))

    def stations(s, r):
        w = Web(s, 200)
        reg = r.put('region', tm.sym('region'))
        try:
            s.method(s.get(WY, 'WyomingUpperAir'), 'get_stations', reg)
        except PathDead:
            pass
        return asked(w)
    dep('get_stations', WY, ('WyomingUpperAir', 'get_stations'), stations)
    for mod, cls in ((ERA, 'ERA5Reanalysis'), (EPS, 'EUMETSATProduct')):
        def read(s, r):
            I = s.I
            I.exact = True
            seen = []
            I.hooks['netCDF4.Dataset'] = lambda I_, a, k, node: seen.append(I.to_t(a[0])) or None
            ll = [tm.sym('lon', rank=0), tm.sym('lat', rank=0)]
            f = r.put('file', tm.sym('file'))
            r.put('longitude', ll[0]), r.put('latitude', ll[1])
            v = outcome(s, s.method(s.get(mod, cls), 'read_data', f, Tup(ll)))
            return seen + v
        dep(f'{cls}.read_data', mod, (cls, 'read_data'), read)

        def request(s, r):
            I = s.I
            I.exact = True
            sent = []
            I.hooks['cdsapi.Client'] = lambda I_, a, k, node: s.call(s.get('spec.nc', 'Client'))

            def rec(I_, a, k, node):
                for x in list(a[1:]) + list(k.values()):
                    sent.extend(outcome(s, x))
            I.func_hooks['spec.nc.Client.retrieve'] = rec
            ll = [r.sy('longitude'), r.sy('latitude')]
            args = [r.put('path', tm.sym('path')), r.put('time', T_), Tup(ll), r.sy('resolution'), r.sy('offset')]
            v = outcome(s, s.method(s.get(mod, cls), 'request_data', *args))
            return sent + v
        dep(f'{cls}.request_data', mod, (cls, 'request_data'), request)

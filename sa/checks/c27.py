"""C27: no supported option combination fails with an internal naming error."""
import itertools
import os

from ._abs import *
from ..interp import Interp
from ..core import *
from ..lint import Package
from . import c01, c02, c04, c05, c12, c13, c15, c17, c22
from .c15 import EX

EXPLANATION = ('(1) Every function of the package: names, package attributes and imports, attributes of self and of package classes, arguments of calls whose target is known, and names taken from the installed '
               'libraries are resolved from the syntax trees. (2) The scenarios of C01, C12 and C22 and a matrix of all simulation options are interpreted abstractly and every read of an unassigned variable, missing '
               'attribute, dereference or unpacking of None, wrong call and assignment to a read-only property on a feasible path is collected; there must be none.')
KINDS = {'unbound': 'a variable is read before it is assigned', 'unresolved': 'a name is defined nowhere', 'missing-attr': 'an attribute does not exist', 'maybe-missing-attr': 'an attribute is not set on every path',
         'none-deref': 'an optional value is used without a check', 'none-attr': 'None is used as an object', 'none-unpack': 'None is unpacked', 'bad-call': 'the arguments do not fit the callee',
         'unpack-mismatch': 'the number of values does not fit', 'readonly-property': 'a read-only property is assigned'}
WS = 'pyrtlib.apiwebservices.'


class Silent:
    """another property's scenarios, for their events only"""

    def __init__(self, ctx, name, floor):
        self.__dict__.update(ctx=ctx, name=name, n=0)

    def rule(self, *a):
        pass

    def ok(self, *a, **k):
        self.__dict__['n'] += 1

    bad = unk = ok

    def must(self, cond, *a, **k):
        self.ok()
        return cond

    guard, agree = Ctx.guard, Ctx.agree

    def __getattr__(self, k):
        return getattr(self.ctx, k)


def optional_import(e):
    """on a path where an optional library could not be imported"""
    cs = [c for c, b in e.pc]
    if e.kind in ('unbound', 'maybe-missing-attr') and isinstance(e.data[-1], (list, tuple)):
        cs += [c for c in e.data[-1] if isinstance(c, T)]
    return any('raised' in tm.show(c, 3) for c in cs)


class Collector:
    def __init__(self):
        self.found, self.scenario, self.off = {}, '', False

    def __call__(self, I, e):
        if self.off or e.kind not in KINDS or e.mod.startswith('spec') or optional_import(e):
            return
        d = e.data[0] if isinstance(e.data, tuple) and e.data else e.data
        d = ' '.join(str(x) for x in e.data if isinstance(x, str)) if isinstance(e.data, tuple) else str(d)
        self.found.setdefault((e.kind, e.mod, e.func, d[:60]), (e.where, self.scenario, [('' if b else 'not ') + tm.show(c, 3)[:80] for c, b in e.pc][:4]))


def run(ctx):
    ctx.rule('name', 'every name read is defined in its scope, its module or the language')
    ctx.rule('import', 'every imported name exists in the module it comes from')
    ctx.rule('attribute', 'every attribute of a package module or class, of self, and of the installed libraries exists')
    ctx.rule('call', 'the arguments of every call with a known target fit its parameters')
    ctx.rule('run', 'no feasible path of a supported configuration reads an unassigned variable or missing attribute, or dereferences an optional value that was not given')
    S = Session()
    S.mod(TB)
    for rule, cons, ok, where, detail in Package(os.path.dirname(os.path.dirname(S.I.modpath("pyrtlib")))).run():
        (ctx.ok if ok else ctx.bad)(rule, cons, *(() if ok else (where, detail)))
    col = Collector()
    Interp.listener = col
    gone = c04.refused
    try:
        for m in (c04, c12, c13, c17):
            m.refused = lambda *a, **k: None      # what happens to unsupported values is C12's subject
        scenarios(ctx, col)
    finally:
        Interp.listener = None
        for m in (c04, c12, c13, c17):
            m.refused = gone
    for (kind, mod, func, d), (where, sc, pc) in sorted(col.found.items()):
        ctx.bad('run', f'{kind} {mod}.{func} {d}', where, f'{KINDS[kind]} (first in: {sc}; under: {"; ".join(pc)})')


def scenarios(ctx, col):
    def go(name, fn, sizes=None):
        def body():
            s = Session(sizes=sizes)
            col.scenario = name
            n = len(col.found)
            fn(s)
            ctx.seen(s)
            if len(col.found) == n:
                ctx.ok('run', name)
        ctx.guard('run', name, body)

    for n, m in (('C01', c01), ('C12', c12), ('C22', c22)):
        col.scenario = 'scenarios of ' + n
        sil = Silent(ctx, n, 1)
        k = len(col.found)
        m.run(sil)
        ctx.count('scenarios of ' + n, sil.n)
        if k == len(col.found):
            ctx.ok('run', f'scenarios of {n}', f'{sil.n} obligations interpreted')

    # ---- the simulation, every combination of options; absorption coefficients uninterpreted
    for cloudy, ray, sat, o3n, amu, only, mono in itertools.product((False, True), (False, True), (False, True), ('none', 'array'), (False, True), (True, False), (1, -1)):
        if not ctx.thorough and (only != (cloudy != sat) or (mono == 1) != (ray != amu)):
            continue
        def fn(s):
            c02.prepare(s)
            kw = {}
            if o3n == 'array':
                kw['o3n'] = True
            if amu:
                kw['amu'] = s.I.new_dict([(const('con_Cf'), s.I.new_sym('par', frozenset(), rank=0))])
            r = s.tb(cloudy=const(cloudy), ray_tracing=const(ray), from_sat=const(sat), absmdl='R20SD', mono=mono, **kw)
            if cloudy:
                s.clouds()
            if only:
                s.I.setattr_(r, 'emissivity', const(0.9), None)
            s.method(r, 'execute', const(only))
        go(f'execute cloudy={cloudy} ray_tracing={ray} from_sat={sat} o3n={o3n} amu={amu} only_bt={only} order={mono}', fn)

    # ---- every model through the simulation object, everything interpreted
    for m in LIQ_MODELS if ctx.thorough else ('R98', 'R16', 'R21SD', 'R22SD', 'R24'):
        for o3 in (None,) + (O3_MODELS if ctx.thorough else ()):
            def fn(s):
                r = s.tb(from_sat=TRUE, o3n=True if o3 else None)
                s.method(r, 'init_absmdl', const(m))
                if o3:
                    s.set_model(o3=o3)
                # the oxygen list of the models without one of their own is the nearest earlier one
                if m.endswith('SD') and m not in O2_MODELS:
                    s.set_model(o2=m[:-2] if m[:-2] in O2_MODELS else 'R20')
                s.method(r, 'execute')
            go(f'execute model {m} ozone {o3}', fn)

    # ---- absorbers without a parameter set
    for sp, models, f in (('h2o', H2O_MODELS, h2o_code), ('o2', O2_MODELS, o2_code), ('o3', O3_MODELS, o3_code), ('n2', N2_MODELS, n2_code), ('liq', LIQ_MODELS, liq_code)):
        for m in models:
            go(f'{sp} {m}', f(m))

    # ---- web services: the optional libraries present, the server's answer unknown
    t, site = tm.sym('time'), tm.sym('site')
    ll = lambda: Tup([tm.sym('lon', rank=0), tm.sym('lat', rank=0)])
    web = [('wyoming', 'wyomingupperair', 'WyomingUpperAir', 'request_data', lambda s: ((t, site), {})), ('wyoming stations', 'wyomingupperair', 'WyomingUpperAir', 'get_stations', lambda s: ((const('pac'),), {})),
           ('era5 read', 'erafive', 'ERA5Reanalysis', 'read_data', lambda s: ((tm.sym('file'), ll()), {})), ('era5 request', 'erafive', 'ERA5Reanalysis', 'request_data', lambda s: ((tm.sym('path'), t, ll()), {})),
           ('eps read', 'eps_sandbox', 'EUMETSATProduct', 'read_data', lambda s: ((tm.sym('file'), ll()), {})), ('igra stations', 'igra2', 'IGRAUpperAir', 'get_stations', lambda s: ((), {}))]
    web += [(f'igra beg2021={b} derived={d}', 'igra2', 'IGRAUpperAir', 'request_data', lambda s, b=b, d=d: ((t, site), dict(beg2021=const(b), derived=const(d)))) for b in (False, True) for d in (False, True)]
    for name, mod, cls, meth, args in web:
        def fn(s):
            if not s.has(WS + mod, cls, meth):
                return
            a, kw = args(s)
            s.method(s.get(WS + mod, cls), meth, *a, **kw)
        go('web ' + name, fn)

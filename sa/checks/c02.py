"""C02: the history of a simulation object does not show in its results."""
from ._rte import *

EXPLANATION = ('Histories of setting changes and runs on one or two simulation objects are interpreted abstractly (all contents symbolic; three levels, and any number of levels in the thorough tier); every value the last run reports must be '
               'equal, by value numbering, to the value a freshly built object with the same settings reports, and the arrays and columns handed out by earlier runs must still hold the terms they held '
               'when returned. The absorption coefficients are uninterpreted functions of their arguments and of the selected models.')
MODELS = ('H2OAbsModel', 'O2AbsModel', 'N2AbsModel', 'O3AbsModel', 'LiqAbsModel')


def prepare(s):
    """absorption functions that see the selected models as well"""
    I = s.I
    hooks(s, dict(nomask=1))
    for q in (CLEAR, CLOUD):
        inner = I.func_hooks[q]
        short = q.rsplit('.', 1)[1]

        def hook(I2, args, kw, node, inner=inner, short=short):
            r = inner(I2, args, kw, node)
            st = [I2.to_t(I2.getattr_(s.get(AM, c), 'model', None)) for c in MODELS]
            vals = []
            for i, v in enumerate(r.items):
                t = I2.to_t(v)
                o = mk('call', f'{short}.{i}', *t.args[1:], *st, rank=t.rank)
                set_sign(o, 2)
                shape_like(o, list(t.args[1:]))
                vals.append(I2.new_arr(o))
            return Tup(vals)
        I.func_hooks[q] = hook


class Run:
    """one abstract interpretation of a history"""

    def __init__(self, sizes):
        self.s = Session(sizes=sizes)
        prepare(self.s)
        self.kept = []

    def build(self, mono=1, sat=True, cloudy=False, ray=False, o3n=False, model='R19SD', profile=''):
        s = self.s
        if profile:
            s.over = {n: s.prof(n + profile) for n in 'p t rh'.split()}
            s.over['z'] = s.prof('z' + profile, mono=mono)
        else:
            s.over = {}
        r = s.tb(cloudy=const(cloudy), ray_tracing=const(ray), from_sat=const(sat), o3n=True if o3n else None, mono=mono)
        s.method(r, 'init_absmdl', const(model))
        return r

    def clouds(self, r):
        self.s.rte = r
        self.s.clouds()

    def set(self, r, name, v):
        self.s.I.setattr_(r, name, const(v) if isinstance(v, (bool, float, int, str)) else v, None)

    def es(self, name):
        return self.s.prof(name, self.s.NF)

    def model(self, r, m):
        self.s.method(r, 'init_absmdl', const(m))

    def run(self, r, keep=True):
        s = self.s
        res = s.method(r, 'execute', FALSE)
        if not isinstance(res, Tup):
            raise Undecided('execute does not return a pair')
        df, dic = res.items
        out, refs = {}, {}
        for n in ALL:
            v = s.I.getitem(df if n in TABLE else dic, const(n), None)
            refs[n] = v
            out[n] = s.t(v)
        final = {n: s.final(out[n]) for n in ALL}
        if keep:
            self.kept.append((df, dic, refs, dict(out)))
        return final

    def stale(self):
        """outputs of earlier runs that changed since they were returned"""
        bad = []
        for i, (df, dic, refs, out) in enumerate(self.kept):
            for n in ALL:
                now = self.s.t(self.s.I.getitem(df if n in TABLE else dic, const(n), None))
                for v in (now, self.s.t(refs[n])):
                    if v is not out[n]:
                        bad.append((i, n, v, out[n]))
                        break
        return bad


def fresh(sizes, es=None, clouds=False, **kw):
    f = Run(sizes)
    r = f.build(**kw)
    if es:
        f.set(r, 'emissivity', f.es(es) if isinstance(es, str) else es)
    if clouds:
        f.clouds(r)
    return f.run(r)


# each history: (name, steps(run) -> outputs of the last run, settings of the equivalent fresh object)
def h_twice(**kw):
    def f(h):
        k = dict(kw)
        es, cl = k.pop('es', None), k.pop('clouds', False)
        r = h.build(**k)
        if es:
            h.set(r, 'emissivity', h.es(es) if isinstance(es, str) else es)
        if cl:
            h.clouds(r)
        h.run(r)
        return h.run(r)
    return f, kw


def h_cloudy_clear(sat):
    def f(h):
        r = h.build(sat=sat, cloudy=True)
        h.clouds(r)
        h.run(r)
        h.set(r, 'cloudy', False)
        return h.run(r)
    return f, dict(sat=sat)


def h_clear_cloudy(sat):
    def f(h):
        r = h.build(sat=sat)
        h.run(r)
        h.set(r, 'cloudy', True)
        h.clouds(r)
        return h.run(r)
    return f, dict(sat=sat, cloudy=True, clouds=True)


def h_views(first, *then):
    def f(h):
        r = h.build(sat=first)
        o = None
        for v in (first,) + then:
            h.set(r, 'satellite', v)
            o = h.run(r)
        return o
    return f, dict(sat=(then or (first,))[-1])


def h_emiss():
    def f(h):
        r = h.build()
        h.set(r, 'emissivity', h.es('es1'))
        h.run(r)
        h.set(r, 'emissivity', h.es('es'))
        return h.run(r)
    return f, dict(es='es')


def h_shared(kind):
    """a second object made from the very same arrays, given another emissivity / clouds and run in between"""
    def f(h):
        r = h.build(cloudy=True)
        e = h.es('es')
        h.set(r, 'emissivity', e)
        h.clouds(r)
        o = h.build(cloudy=True)
        h.set(o, 'emissivity', e)
        h.clouds(o)
        if kind == 'run first':
            h.run(r)
        h.set(o, 'emissivity', 0.25)
        if kind == 'view':
            h.set(o, 'satellite', False)
        h.run(o)
        return h.run(r)
    return f, dict(cloudy=True, clouds=True, es='es')


def h_scalar():
    def f(h):
        r = h.build()
        h.set(r, 'emissivity', 0.25)
        h.run(r)
        h.set(r, 'emissivity', h.es('es'))
        h.run(r)
        h.set(r, 'emissivity', 0.75)
        return h.run(r)
    return f, dict(es=0.75)


def h_models(a, b):
    def f(h):
        r = h.build(model=a)
        h.run(r)
        h.model(r, b)
        h.run(r)
        h.model(r, a)
        return h.run(r)
    return f, dict(model=a)


def h_other(sat, other):
    """another object with another profile and view built and run in between"""
    def f(h):
        r = h.build(sat=sat)
        o = h.build(sat=other, profile='B')
        h.set(o, 'emissivity', h.es('es1'))
        h.run(o)
        h.s.over = {}
        h.run(r)
        h.run(o)
        return h.run(r)
    return f, dict(sat=sat)


def h_clouds_twice(mono):
    def f(h):
        r = h.build(cloudy=True, mono=mono)
        h.clouds(r)
        h.run(r)
        h.clouds(r)
        return h.run(r)
    return f, dict(cloudy=True, clouds=True, mono=mono)


HIST = [('shared arrays', h_shared('')), ('shared arrays, run first', h_shared('run first')), ('shared arrays, other view', h_shared('view')), ('scalar emissivities', h_scalar()),
        ('run twice', h_twice()), ('run twice, cloudy ground', h_twice(sat=False, cloudy=True, clouds=True)), ('run twice, descending ozone cloudy', h_twice(mono=-1, o3n=True, cloudy=True, clouds=True)),
        ('run twice, refracted', h_twice(ray=True, sat=False)),
        ('cloudy then clear, ground', h_cloudy_clear(False)), ('cloudy then clear, satellite', h_cloudy_clear(True)), ('clear then cloudy', h_clear_cloudy(False)),
        ('clear then cloudy, satellite', h_clear_cloudy(True)),
        ('satellite, ground, satellite', h_views(True, False, True)), ('ground, satellite, ground', h_views(False, True, False)), ('satellite then ground', h_views(True, False)),
        ('emissivity changed', h_emiss()), ('models R16, R24, R16', h_models('R16', 'R24')), ('models R98, R20, R98', h_models('R98', 'R20')),
        ('other object in between, ground/satellite', h_other(False, True)), ('other object in between, satellite/ground', h_other(True, False)),
        ('clouds declared twice', h_clouds_twice(1)), ('clouds declared twice, descending', h_clouds_twice(-1))]


def run(ctx):
    ctx.rule('history', 'the last run of a history reports what a fresh object with the same settings reports')
    ctx.rule('handed-out', 'results returned by earlier runs keep their values')
    ctx.assumptions.append('physical signs of the inputs; the selection of absorption models is package-wide by design')
    w = Session().where(TB, 'TbCloudRTE', 'execute')
    for name, (f, settings) in HIST:
        for sizes in (dict(nl=3, nf=1, nang=1, ncld=1), dict(nl=3, nf=2, nang=2, ncld=2)) + ((dict(nf=1, nang=1, ncld=1),) if ctx.thorough else ()):
            tag = name + (' 2x2' if sizes['nf'] == 2 else '') + ('' if 'nl' in sizes else ' any number of levels')

            def go():
                def at(sz):
                    h = Run(sz)
                    a = f(h)
                    ctx.seen(h.s)
                    b = fresh(sz, **settings)
                    return h, a, b, ctx.decide_all({n: (a[n], b[n]) for n in ALL})
                h, a, b, res = at(sizes)
                if any(r[0] != 'equal' for r in res.values()) or h.stale():
                    h, a, b, res = at(dict(sizes, nl=3))
                for n in ALL:
                    r = res[n]
                    if r[0] == 'equal':
                        ctx.ok('history', f'{tag}:{n}')
                    elif r[0] == 'unknown':
                        ctx.unk('history', f'{tag}:{n}', w, r[1])
                    else:
                        ctx.bad('history', f'{tag}:{n}', w, 'differs from a fresh object: ' + r[1])
                st = h.stale()
                real = {}
                for i, n, v, old in st:
                    r = ctx.decide(v, old)
                    if r[0] == 'different':
                        real[n] = (i, r[1])
                for n, (i, d) in real.items():
                    ctx.bad('handed-out', f'{tag}:{n}', w, f'the {n} returned by run {i + 1} changed afterwards: {d}')
                if not real:
                    ctx.ok('handed-out', tag)
            ctx.guard('history', tag, go, 'violated')

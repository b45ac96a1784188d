"""C22: the options of the weighting-function calculator take effect; band means and plots leave it as it was."""
from fractions import Fraction

from .c02 import *
from .c01 import flat
from ._rte import sym
from ..term import FULL

EXPLANATION = ('The weighting functions are interpreted for every combination of viewing direction, several absorption models, frequency counts and interpolation steps with symbolic angle, frequencies and profile, and compared by '
               'value numbering with the rule (transmittance to the receiver times absorption, from a simulation of the interpolated profile built directly with those settings); also after other settings have been used '
               'on the same calculator. The curves handed to the plotting library are collected and compared with the rows, or the means over exactly the rows of each band, of the array passed in; '
               'the calculator and the arrays must hold the same terms after plotting.')
WF = 'pyrtlib.weighting_functions'


def arr(I, *xs):
    return I.new_arr(mk('arr', *[x if isinstance(x, T) else num(x) for x in xs], rank=1))


class Calc:
    def __init__(self, nf=2, z=(0, 1.2, 2.5), step=None):
        self.s = s = Session(sizes=dict(nl=len(z), nf=nf, nang=1, ncld=1))
        prepare(s)
        for m in (RT, AM, TB, WF):
            s.mod(m)
        self.nf, self.step = nf, step
        self.z = arr(s.I, *z)
        self.prof = [s.prof(n) for n in ('p', 't', 'rh')]
        self.frq = {}

    def freqs(self, tag=''):
        """explicit array of symbolic frequencies"""
        if tag not in self.frq:
            self.frq[tag] = arr(self.s.I, *[sym(f'nu{tag}{i}', 0, 1) for i in range(self.nf)])
        return self.frq[tag]

    def new(self):
        s = self.s
        kw = {} if self.step is None else dict(value_prof_interpolation=num(self.step))
        return s.call(s.get(WF, 'WeightingFunctions'), self.z, *self.prof, **kw)

    def set(self, w, **o):
        I = self.s.I
        for k, v in o.items():
            if k == 'frequencies':
                v = self.freqs(v)
            elif k == 'angle':
                v = sym(v, 0, 1) if isinstance(v, str) else num(v)
            elif isinstance(v, (bool, str)):
                v = const(v)
            I.setattr_(w, k, v, None)

    def weights(self, w):
        r = self.s.t(self.s.method(w, 'generate_wf'))
        return r


def ref(c, o, latest):
    """the rule, from a simulation built directly"""
    s = c.s
    I = s.I
    grid = s.spec('wf', 'heights', c.z, num(1 if c.step is None else c.step))
    p, t, rh = (s.spec('wf', 'on', grid, c.z, x) for x in c.prof)
    ang = o.get('angle', 90)
    angles = arr(I, sym(ang, 0, 1) if isinstance(ang, str) else num(ang))
    rte = s.call(s.get(TB, 'TbCloudRTE'), grid, p, t, rh, c.freqs(o['frequencies']), angles=angles, ray_tracing=TRUE)
    I.setattr_(rte, 'satellite', const(o.get('satellite', True)), None)
    model = o.get('model', 'R24')
    s.method(rte, 'init_absmdl', const(model))
    if latest:
        names = I.items_of(I.getitem(s.method(s.get(AM, 'AbsModel'), 'implemented_models'), const('Oxygen'), None))
        o2 = s.get(AM, 'O2AbsModel')
        I.setattr_(o2, 'model', names[-1], None)
        s.method(o2, 'set_ll')
    _, dic = s.method(rte, 'execute', FALSE).items
    get = lambda n: I.getitem(dic, const(n), None)
    tau = I.new_arr(tm.add(s.t(get('taulaywet')), s.t(get('taulaydry'))))
    ab = I.new_arr(tm.add(s.t(get('awet')), s.t(get('adry'))))
    nz = tm.length(s.t(grid))
    if not tm.isnum(nz):
        raise Undecided('number of interpolation levels not constant')
    return s.t(s.spec('wf', 'weights', tau, ab, const(o.get('satellite', True)), num(c.nf), nz)), int(tm.cval(nz))


def cells(t, nf, nz):
    return {(i, j): tm.idx(t, (num(i), num(j))) for i in range(nf) for j in range(nz)}


def computed(ctx, name, steps, nf, z, step):
    """the last of `steps` (each a dictionary of settings, applied to one calculator in turn) against the rule"""
    def go():
        c = Calc(nf, z, step)
        w = c.new()
        o = {}
        for st in steps:
            c.set(w, **st)
            o.update(st)
            t = c.weights(w)
        t = c.s.final(t)
        ctx.seen(c.s)
        where = c.s.where(WF, 'WeightingFunctions', 'generate_wf')
        res = []
        for latest in (True, False):
            d = Calc(nf, z, step)
            r, nz = ref(d, o, latest)
            r = d.s.final(r)
            if t.rank is not None and t.rank != 2:
                ctx.bad('computed', name, where, f'array of rank {t.rank}, not 2')
                return
            got, want = cells(t, nf, nz), cells(r, nf, nz)
            res = [(k, v) for k, v in ctx.decide_all({k: (got[k], want[k]) for k in want}).items() if v[0] != 'equal']
            if not res:
                ctx.ok('computed', name)
                return
        k, v = next(((k, v) for k, v in res if v[0] == 'different'), res[0])
        if v[0] == 'different':
            ctx.bad('computed', name, where, f'frequency {k[0]}, level {k[1]} of the weighting functions is not that of a simulation with these settings: {v[1]}')
        else:
            ctx.unk('computed', name, where, str(v[1]))
    ctx.guard('computed', name, go, dead='violated')


# ------------------------------------------------------------------ plots
PLOT = ('plot',)


def drawn(I, e0):
    """(what, args, kw) of the plotting calls logged since event e0"""
    for e in I.events[e0:]:
        if e.kind == 'extcall':
            n, a, k = e.data
            if 'matplotlib' in n or 'pyplot' in n:
                yield n.rsplit('.', 1)[1], list(a), dict(k), e
        elif e.kind == 'mcall':
            t, n, a, k = e.data
            if any(x.op == 'call' and 'matplotlib' in str(x.args[0]) or x.op in ('ext', 'mcall', 'opcall') for x in tm.walk(t)):
                yield n, list(a), dict(k), e


def seq(t, n=None):
    """elements of a one-dimensional term with a known length"""
    try:
        k = tm.length(t)
    except Exception:
        return None
    if not tm.isnum(k):
        return None
    return [tm.idx(t, (num(i),)) for i in range(int(tm.cval(k)))]


def curves(s, e0):
    """x values, y values, label of every curve; None if they cannot be read off"""
    I = s.I
    out = []
    for n, a, k, e in drawn(I, e0):
        if n not in ('plot', 'semilogy', 'semilogx', 'loglog'):
            continue
        a = [s.t(x) for x in a if not (isinstance(x, T) and tm.isstr(x))]
        if len(a) < 2:
            return None
        x, y = a[0], a[1]
        if x.rank == 2 and y.rank == 1:     # one column per curve
            from ..lib import tshape
            sh = tshape(x)
            if not sh or not tm.isnum(sh[1]):
                return None
            xs = [tm.idx(x, (FULL, num(i))) for i in range(int(tm.cval(sh[1])))]
        else:
            xs = [x]
        for x in xs:
            x, yy = seq(x), seq(y)
            if x is None or yy is None:
                return None
            out.append((x, yy, s.t(k['label']) if 'label' in k else None, e))
    return out


def symbols(t):
    return {str(x.args[0]) for x in tm.walk(t) if x.op == 'sym'}


def same(ctx, pairs):
    r = ctx.decide_all(pairs)
    if all(v[0] == 'equal' for v in r.values()):
        return 'equal', None
    d = [(k, v) for k, v in r.items() if v[0] == 'different']
    if d:
        return 'different', d[0]
    return 'unknown', next((k, v) for k, v in r.items() if v[0] == 'unknown')


def plot(ctx, method, name, nf, opts, bands=None, kw=None, groups=None):
    kw = kw or {}

    def go():
        c = Calc(nf)
        s = c.s
        I = s.I
        w = c.new()
        c.set(w, frequencies='', **opts)
        watched = {}
        if bands:
            b = arr(I, *bands)
            c.set(w, bandpass=b)
            flat(s, b, 'bandpass', watched)
        nz = 4
        rows = [[sym(f'w{i}_{j}', 0) for j in range(nz)] for i in range(nf)]
        g = I.new_arr(mk('arr', *[mk('arr', *r, rank=1) for r in rows], rank=2))
        objs = dict(wgt=g, frequencies=c.freqs(''), calculator=w)
        was = {}
        for k, v in objs.items():
            flat(s, v, k, was)
        was.update(watched)
        args = dict(kw)
        if groups:
            args['grouped_frequencies'] = I.new_list([num(x) for x in groups])
            args['grouped_labels'] = I.new_list([const(f'group {i}') for i in range(len(groups))])
        e0 = len(I.events)
        where = s.where(WF, 'WeightingFunctions', method)
        s.method(w, method, g, **args)
        ctx.seen(s)
        # ---- nothing changed
        now = {}
        for k, v in objs.items():
            flat(s, v, k, now)
        if bands:
            flat(s, b, 'bandpass', now)
        gone = sorted(set(was) - set(now))
        new = sorted(set(now) - set(was))
        d = {k: (now[k], was[k]) for k in was if k in now and now[k] is not was[k]}
        res = ctx.decide_all(d)
        bad = [k for k in d if res[k][0] != 'equal']
        if gone or bad:
            ctx.bad('unchanged', f'{method} {name}: {(gone + bad)[0]}', where, 'plotting changes ' + ', '.join((gone + bad)[:4]))
        else:
            ctx.ok('unchanged', f'{method} {name}')
        # ---- curves
        cs = curves(s, e0)
        n = len(bands) if bands else nf
        sat = opts.get('satellite', True)
        if cs is None or not cs:
            ctx.unk('curves', f'{method} {name}', where, 'no curve handed to the plotting library could be read')
            return
        if len(cs) != n:
            ctx.bad('curves', f'{method} {name}', where, f'{len(cs)} curves for {n} {"bands" if bands else "frequencies"}')
            return
        start = [sum(bands[:i]) for i in range(n)] if bands else list(range(n))
        size = bands or [1] * n
        want = []
        for i in range(n):
            mean = [tm.div(sum_(rows[q][j] for q in range(start[i], start[i] + size[i])), num(size[i])) for j in range(nz)]
            if kw.get('normalized') is TRUE:
                top = mean[0]
                for x in mean[1:]:
                    top = tm.tmax(top, x)
                mean = [tm.div(x, top) for x in mean]
            want.append(mean)
        z = seq(s.t(I.getattr_(w, 'zinterp', None)))
        alt = ([x[1:] for x in want], z[:-1]), (want, z)
        xs, ys = alt[0] if sat else alt[1]
        tag = f'{method} {name}'
        shift = []
        for i, (x, y, label, e) in enumerate(cs):
            if groups:
                # one shift for all curves of a group
                if len(x) != len(xs[i]):
                    ctx.bad('curves', tag, e.where, f'curve {i} has {len(x)} points, not {len(xs[i])}')
                    return
                ds = [tm.sub(p, q) for p, q in zip(x, xs[i])]
                shift.append(ds[0])
                pairs = {('x', j): (ds[j], ds[0]) for j in range(1, len(x))}
            else:
                if len(x) != len(xs[i]):
                    ctx.bad('curves', tag, e.where, f'curve {i} has {len(x)} points, not {len(xs[i])}')
                    return
                pairs = {('x', j): (x[j], xs[i][j]) for j in range(len(x))}
            if len(y) != len(ys):
                ctx.bad('curves', tag, e.where, f'curve {i} has {len(y)} heights, not {len(ys)}')
                return
            pairs.update({('y', j): (y[j], ys[j]) for j in range(len(y))})
            r, info = same(ctx, pairs)
            cons = f'{tag}: curve {i}'
            if r == 'equal':
                ctx.ok('curves', cons)
            elif r == 'different':
                ctx.bad('curves', cons, e.where, f'point {info[0][1]} ({info[0][0]}) is not that of rows {start[i]}..{start[i] + size[i] - 1}{" over its maximum" if kw.get("normalized") is TRUE else ""}: {info[1][1]}')
            else:
                ctx.unk('curves', cons, e.where, str(info[1][1]))
            if label is not None:
                nu = {v for v in symbols(label) if v.startswith('nu')}
                mine = {f'nu{q}' for q in range(start[i], start[i] + size[i])}
                if nu and nu != mine:
                    ctx.bad('label', f'{tag}: curve {i}', e.where, f'the frequency of the curve is computed from {sorted(nu)} instead of {sorted(mine)}')
                elif nu:
                    ctx.ok('label', f'{tag}: curve {i}')
                else:
                    ctx.unk('label', f'{tag}: curve {i}', e.where, 'no frequency in the label')
        if groups:
            of = [k for k, m in enumerate(groups) for _ in range(m)]
            pairs = {(i, j): (shift[i], shift[j]) for i in range(n) for j in range(i)}
            r = ctx.decide_all(pairs)
            for (i, j), v in r.items():
                together = of[i] == of[j]
                if v[0] == 'unknown':
                    ctx.unk('groups', f'{tag}: curves {j}, {i}', where, v[1])
                elif (v[0] == 'equal') != together:
                    ctx.bad('groups', f'{tag}: curves {j}, {i}', where, 'shifted ' + ('apart although of one group' if together else 'alike although of different groups'))
                else:
                    ctx.ok('groups', f'{tag}: curves {j}, {i}')
            txt = [a for m, a, k, e in drawn(I, e0) if m in ('text', 'annotate')]
            got = [[tm.cval(t) for t in map(s.t, a) if t.op == 'const' and isinstance(t.args[0], str)] for a in txt]
            if got and all(got):
                ctx.must([x[0] for x in got] == [f'group {i}' for i in range(len(groups))], 'groups', f'{tag}: labels', where, f'labels written: {got}')
            else:
                ctx.unk('groups', f'{tag}: labels', where, 'labels not readable')
    ctx.guard('curves', f'{method} {name}', go, dead='violated')


def sum_(xs):
    r = None
    for x in xs:
        r = x if r is None else tm.add(r, x)
    return r


def effects(ctx):
    """each plotting option reaches the plotting library"""
    a, b, d = sym('opt_a', 0, 1), sym('opt_b', 0, 1), sym('opt_c', 0, 1)
    pair = lambda: Tup([a, b])
    common = dict(title=const('a title'), ylim=pair, figsize=pair, dpi=d)
    for method, extra, opts in (('plot_wf', dict(xlim=pair), {}), ('plot_wf', dict(xlim=pair), dict(satellite=False)), ('plot_wf_grouped', {}, {})):
        for o, v in dict(common, **extra).items():
            cons = f'{method}{" ground" if opts else ""}: {o}'

            def go():
                c = Calc(2)
                s = c.s
                I = s.I
                w = c.new()
                c.set(w, frequencies='', **opts)
                g = I.new_arr(mk('arr', *[mk('arr', *[sym(f'w{i}_{j}', 0) for j in range(4)], rank=1) for i in range(2)], rank=2))
                kw = {o: v() if callable(v) else v}
                if method == 'plot_wf_grouped':
                    kw.update(grouped_frequencies=I.new_list([num(1), num(1)]), grouped_labels=I.new_list([const('x'), const('y')]))
                e0 = len(I.events)
                where = s.where(WF, 'WeightingFunctions', method)
                s.method(w, method, g, **kw)
                ctx.seen(s)
                want = {tm.cval(v)} if not callable(v) and v.op == 'const' else {'opt_c'} if o == 'dpi' else {'opt_a', 'opt_b'}
                got = set()
                for n, ar, k, e in drawn(I, e0):
                    for x in list(ar) + list(k.values()):
                        for y in tm.walk(s.t(x)):
                            if y.op == 'sym':
                                got.add(str(y.args[0]))
                            elif y.op == 'const' and isinstance(y.args[0], str):
                                got.add(y.args[0])
                ctx.must(want <= got, 'options', cons, where, f'{sorted(want - got)} never reaches the plot')
            ctx.guard('options', cons, go, dead='violated')
    for lab in (False, True):
        for on in (True, False):
            cons = f'plot_wf: legend={on}{" with labels" if lab else ""}'

            def go():
                c = Calc(2)
                s = c.s
                I = s.I
                w = c.new()
                c.set(w, frequencies='')
                if lab:
                    c.set(w, legend_labels=I.new_list([const('first'), const('second')]))
                g = I.new_arr(mk('arr', *[mk('arr', *[sym(f'w{i}_{j}', 0) for j in range(4)], rank=1) for i in range(2)], rank=2))
                e0 = len(I.events)
                where = s.where(WF, 'WeightingFunctions', 'plot_wf')
                s.method(w, 'plot_wf', g, legend=const(on))
                ls = [(a, k) for n, a, k, e in drawn(I, e0) if n == 'legend']
                if not on:
                    ctx.must(not ls, 'options', cons, where, 'a legend is drawn')
                elif not ls:
                    ctx.bad('options', cons, where, 'no legend is drawn')
                elif lab:
                    txt = {y.args[0] for a, k in ls for x in list(a) + list(k.values()) for y in tm.walk(s.t(x)) if y.op == 'const' and isinstance(y.args[0], str)}
                    ctx.must({'first', 'second'} <= txt, 'options', cons, where, 'the legend labels are not used')
                else:
                    ctx.ok('options', cons)
            ctx.guard('options', cons, go, dead='violated')


def run(ctx):
    ctx.rule('computed', 'the weighting functions are those of a simulation of the interpolated profile with the settings of the calculator')
    ctx.rule('curves', 'the curves plotted are the rows, or the means over exactly the rows of each band, of the array given, over the largest value of each when normalised')
    ctx.rule('label', 'the frequency in the label of a band is computed from exactly the frequencies of the band')
    ctx.rule('groups', 'grouped curves are shifted by group')
    ctx.rule('options', 'every plotting option reaches the plot')
    ctx.rule('unchanged', 'plotting leaves the calculator and the arrays as they were')
    z3, z4 = (0, 1.2, 2.5), (0.3, 1, 2)
    models = ('R98', 'R17', 'R19SD', 'R24') if ctx.thorough else ('R98', 'R20')
    base = dict(frequencies='', angle='a')
    for sat in (True, False):
        v = 'satellite' if sat else 'ground'
        for m in models:
            computed(ctx, f'{v} {m}', [dict(base, satellite=sat, model=m)], 2, z3, None)
        computed(ctx, f'{v} defaults', [dict(frequencies='', satellite=sat)], 1, z3, None)
        computed(ctx, f'{v} half step', [dict(base, satellite=sat)], 1, z4, Fraction(1, 2))
        computed(ctx, f'{v} one frequency', [dict(base, satellite=sat)], 1, z4, None)
    computed(ctx, 'satellite by default', [dict(base)], 3, z4, None)
    for name, first, then in (('view changed', dict(satellite=True), dict(satellite=False)), ('view changed back', dict(satellite=False), dict(satellite=True)),
                              ('model changed', dict(model='R98'), dict(model='R20')), ('angle changed', dict(angle='b'), dict(angle='a')),
                              ('frequencies changed', dict(frequencies='x'), dict(frequencies='')), ('nothing changed', {}, {})):
        computed(ctx, name, [dict(base, **first), dict(base, **then)], 2, z4, None)
    for norm in (False, True):
        nm = ' normalised' if norm else ''
        kw = dict(normalized=TRUE) if norm else {}
        for sat in (True, False):
            v = ('satellite' if sat else 'ground') + nm
            plot(ctx, 'plot_wf', v, 2, dict(satellite=sat), kw=kw)
            for b in ((1, 2), (2, 1), (3, 1, 2), (2, 2)) if ctx.thorough else ((1, 2), (2, 1, 3)):
                plot(ctx, 'plot_wf', f'{v} bands {b}', sum(b), dict(satellite=sat), bands=list(b), kw=kw)
    for g in ((1, 1), (2, 1), (3, 1), (2, 1, 2)):
        plot(ctx, 'plot_wf_grouped', f'groups {g}', sum(g), {}, groups=list(g))
    effects(ctx)
    ctx.assumptions.append('the plotting library does not modify the arrays it is given')

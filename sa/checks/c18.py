"""C18: sounding requests carry what was asked, failures are errors, and only the asked soundings are returned."""
from ..harness import *
from ..core import *
from ._web import *
from .c04 import refused, accepted

EXPLANATION = ('The download clients are interpreted with symbolic station and time; the HTTP library is replaced by a recording stand-in. The requested address is split into its fields, whose values must be the '
               'fields of the time and station given. Scenarios with error statuses and answers without data must leave no normal path. Archives of known layout are propagated through the selection of soundings.')

T, T2, SITE = tm.sym('time'), tm.sym('time2'), tm.sym('site')


def wy(s):
    return s.get(WY, 'WyomingUpperAir')


def ig(s):
    return s.get(IG, 'IGRAUpperAir')


def last(w):
    if not w.asked:
        raise Undecided('no request recorded')
    pc, path, q = w.asked[-1]
    final = w.I.st.pc
    if any(x not in final for x in pc):
        raise Undecided('the request is made on a condition: ' + tm.show(next(x for x in pc if x not in final)[0], 3))
    if len(w.asked) < w.asks:
        return None, {}
    return path, q


def same(val, want):
    """tri-state comparison of an address field with the wanted pieces (a list of alternatives)"""
    known = True
    for alt in want:
        if len(val) == len(alt) and all(x == y if isinstance(x, str) or isinstance(y, str) else x[:2] == y[:2] and x[2] is y[2] if x[0] != 'value' else y[0] == 'value' and x[1] is y[1] for x, y in zip(val, alt)):
            return True
    for x in val:
        if isinstance(x, str):
            continue
        base = x[1] if x[0] == 'value' else x[2]
        if base not in (T, T2, SITE):
            known = False
    return False if known else None


def show(val):
    return ''.join(x if isinstance(x, str) else '{%s}' % (tm.show(x[1], 3) if x[0] == 'value' else f'{tm.show(x[2], 3)}:{x[1]}') for x in val)[:160]


def tf(t, *fs):
    return tuple(('time', f, t) for f in fs)


def sid():
    return (('value', SITE, None),)


def part(t, n):
    return (('part', n, t),)


def field(ctx, construct, val, want, where):
    if val is None:
        ctx.bad('request', construct, where, 'the address does not carry it')
        return
    r = same(val, want)
    if r:
        ctx.ok('request', construct)
    elif r is None:
        ctx.unk('request', construct, where, 'address field is ' + show(val))
    else:
        ctx.bad('request', construct, where, f'the address carries {show(val)}, asked {show(want[0])}')


def wyoming(ctx):
    f = Session()
    where = f.where(WY, 'WyomingUpperAir')

    def one(name, run, t):
        def go():
            s = Session()
            w = Web(s, 200, dates={T, T2})
            run(s)
            ctx.seen(s)
            w.asks = name.count('after') + 1
            path, q = last(w)
            if path is None:
                ctx.bad('request', f'Wyoming {name}', where, 'the second call asks the server nothing')
                return
            q = {k.upper(): v for k, v in q.items()}
            d = f'Wyoming {name}'
            field(ctx, d + ' station', q.get('STNM'), [sid()], where)
            field(ctx, d + ' year', q.get('YEAR'), [tf(t, '%Y')], where)
            field(ctx, d + ' month', q.get('MONTH'), [tf(t, '%m'), part(t, 'month')], where)
            field(ctx, d + ' first hour', q.get('FROM'), [tf(t, '%d', '%H')], where)
            field(ctx, d + ' last hour', q.get('TO'), [tf(t, '%d', '%H')], where)
            field(ctx, d + ' listing', q.get('TYPE'), [('TEXT:LIST',)], where)
        ctx.guard('request', f'Wyoming {name}', go, dead='violated')

    one('request', lambda s: s.method(wy(s), 'request_data', T, SITE), T)
    one('after the station list', lambda s: (s.method(wy(s), 'get_stations', tm.sym('region')), s.method(wy(s), 'request_data', T, SITE)), T)
    one('after another time of the same station', lambda s: (s.method(wy(s), 'request_data', T2, SITE), s.method(wy(s), 'request_data', T, SITE)), T)
    one('after another request', lambda s: (s.method(wy(s), 'request_data', T2, tm.sym('site2')), s.method(wy(s), 'request_data', T, SITE)), T)

    def stations():
        s = Session()
        w = Web(s, 200)
        s.method(wy(s), 'get_stations', SITE)
        ctx.seen(s)
        path, q = last(w)
        base = 'http://weather.uwyo.edu/upperair/'
        field(ctx, 'Wyoming station list', path, [(base,) + sid() + ('.html',), (base.replace('http', 'https'),) + sid() + ('.html',)], where)
    ctx.guard('request', 'Wyoming station list', stations, dead='violated')


FILES = {(False, False): ('data-por/', '-data.txt.zip'), (True, False): ('data-y2d/', '-data-beg2021.txt.zip'), (False, True): ('derived-por/', '-drvd.txt.zip')}


def igra(ctx):
    f = Session()
    where = f.where(IG, 'IGRAUpperAir')
    base = 'https://www.ncei.noaa.gov/data/integrated-global-radiosonde-archive/access/'

    def opts(o):
        return dict(beg2021=TRUE if o[0] else FALSE, derived=TRUE if o[1] else FALSE)

    def one(name, run, o):
        def go():
            s = Session()
            w = Web(s, 200, dates={T, T2})
            run(s)
            ctx.seen(s)
            w.asks = name.count('after') + 1
            path, q = last(w)
            if path is None:
                ctx.bad('request', f'IGRA {name}', where, 'the second call asks the server nothing')
                return
            a, b = FILES[o]
            field(ctx, f'IGRA {name}', path, [(base + a,) + sid() + (b,)], where)
        ctx.guard('request', f'IGRA {name}', go, dead='violated')

    names = {(False, False): 'whole record', (True, False): 'recent years', (False, True): 'derived parameters'}
    for o, n in names.items():
        one(n, lambda s, o=o: s.method(ig(s), 'request_data', T, SITE, **opts(o)), o)
        one(n + ', two dates', lambda s, o=o: s.method(ig(s), 'request_data', Tup([T, T2]), SITE, **opts(o)), o)
        for o2, n2 in names.items():
            if o2 != o:
                one(f'{n} after {n2}', lambda s, o=o, o2=o2: (s.method(ig(s), 'request_data', T2, tm.sym('site2'), **opts(o2)), s.method(ig(s), 'request_data', T, SITE, **opts(o))), o)
    one('default', lambda s: s.method(ig(s), 'request_data', T, SITE), (False, False))


CALLS = (
    ('Wyoming sounding', WY, 'WyomingUpperAir', lambda s: s.method(wy(s), 'request_data', T, SITE)),
    ('Wyoming stations', WY, 'WyomingUpperAir', lambda s: s.method(wy(s), 'get_stations', SITE)),
    ('IGRA whole record', IG, 'IGRAUpperAir', lambda s: s.method(ig(s), 'request_data', T, SITE)),
    ('IGRA two dates', IG, 'IGRAUpperAir', lambda s: s.method(ig(s), 'request_data', Tup([T, T2]), SITE)),
    ('IGRA recent years', IG, 'IGRAUpperAir', lambda s: s.method(ig(s), 'request_data', T, SITE, beg2021=TRUE)),
    ('IGRA derived', IG, 'IGRAUpperAir', lambda s: s.method(ig(s), 'request_data', T, SITE, derived=TRUE)),
)


def status(ctx):
    f = Session()
    for n, m, c, call in CALLS:
        for st in (400, 401, 403, 404, 410, 429, 500, 502, 503, 504):
            def run(s, st=st, call=call):
                Web(s, st, dates={T, T2})
                call(s)
            refused(ctx, 'status', f'{n}, status {st}', run, f.where(m, c))

        def good(s, call=call):
            Web(s, 200, dates={T, T2})
            call(s)
        accepted(ctx, 'answer', n, good, f.where(m, c))


EMPTY = ("Can't get 16245 UPPERAIR Observations at 12Z 22 Jun 2022.", "<HTML>\n<TITLE>x</TITLE>\nCan't get NXXX Observations at 00Z 01 Jan 2020.\n</HTML>", "Sorry, Can't", "<BODY>No luck\nCan't get XYZ</BODY>")


def nodata(ctx):
    f = Session()
    for i, text in enumerate(EMPTY):
        def run(s):
            Web(s, 200, text=text, dates={T})
            s.method(wy(s), 'request_data', T, SITE)
        refused(ctx, 'nodata', f'Wyoming answer {i} without data', run, f.where(WY, 'WyomingUpperAir'))


# ------------------------------------------------------------------ selection of soundings

def head(y, m, d, h, n):
    return f'#ITM00016245 {y:4d} {m:02d} {d:02d} {h:02d} 9999 {n:4d} ncdc-gts ncdc-gts  416500   124300\n'


def level(i):
    return f'21 -9999  {100000 - i * 100:6d}B{i:5d} {200 - i:4d}B-9999    30   180    20 \n'


def archive(soundings):
    r, out, k = [], [], 0
    for y, m, d, h, n in soundings:
        hd = head(y, m, d, h, n)
        body = [level(k + j) for j in range(n)]
        k += n
        out.append((((y * 100 + m) * 100 + d) * 100 + (h if h < 24 else 0), hd, body))
        r += [hd] + body
    return r, out


A1 = ((2020, 1, 1, 0, 2), (2020, 1, 1, 12, 1), (2020, 1, 2, 0, 3), (2020, 1, 2, 12, 2), (2020, 1, 3, 99, 4), (2020, 1, 4, 0, 1), (2020, 1, 4, 12, 3))
A2 = ((2019, 12, 30, 23, 1), (2019, 12, 31, 0, 4), (2019, 12, 31, 12, 4), (2020, 1, 1, 0, 2))
A3 = ((2021, 6, 5, 12, 12),)
A4 = ((2021, 6, 5, 0, 3), (2021, 6, 5, 12, 1104), (2021, 6, 6, 0, 100))
CASES = (
    ('one date', A1, (2020010200,)), ('first sounding', A1, (2020010100,)), ('last sounding', A1, (2020010412,)), ('unknown hour', A1, (2020010300,)),
    ('two dates', A1, (2020010112, 2020010212)), ('whole archive', A1, (2020010100, 2020010412)), ('beyond the archive', A1, (2019010100, 2021010100)),
    ('dates between soundings', A1, (2020010106, 2020010206)), ('across an unknown hour', A1, (2020010206, 2020010400)), ('until the last', A1, (2020010400, 2020010600)),
    ('across years', A2, (2019123112, 2020010100)), ('year end', A2, (2019123000, 2019123123)), ('last hour of a day', A2, (2019123023,)), ('only sounding', A3, (2021060512,)),
    ('thousand levels', A4, (2021060512,)), ('after a thousand levels', A4, (2021060600,)),
    ('around the only sounding', A3, (2021060100, 2021063000)),
)
NONE_ = (('between soundings', A1, (2020010206,)), ('before the archive', A1, (2019010100,)), ('after the archive', A1, (2022010100,)), ('span before', A2, (2018010100, 2018123123)),
         ('span between', A2, (2019123001, 2019123022)), ('span after', A3, (2021060513, 2022010100)))


def pick(s, soundings, dates):
    lines, out = archive(soundings)
    ds = [num(d) for d in dates]
    w = Web(s, 200, lines=lines, dates=set(ds))
    r = s.method(ig(s), 'request_data', ds[0] if len(ds) == 1 else Tup(ds), SITE)
    b, e = dates[0], dates[-1]
    return w, r, [x for x in out if b <= x[0] <= e]


def text_of(t):
    if t is not None and t.op == 'call' and t.args[0] in ('io.StringIO', 'io.BytesIO') and t.args[1].op == 'const':
        return t.args[1].args[0]
    raise Undecided('table text is ' + (tm.show(t, 3) if t is not None else 'unknown'))


def selection(ctx):
    f = Session()
    where = f.where(IG, 'IGRAUpperAir')
    for name, arch, dates in CASES:
        def go(name=name, arch=arch, dates=dates):
            s = Session()
            w, r, want = pick(s, arch, dates)
            ctx.seen(s)
            body, header = '', ''
            for how, src, names, kw, n in w.read:
                if 'site_id' in names:
                    header = text_of(src)
                else:
                    body = text_of(src)
            ctx.must(body == ''.join(x for d, h, b in want for x in b), 'selection', f'{name}: levels', where, f'{body.count(chr(10))} level lines selected')
            ctx.must(header == ''.join(h for d, h, b in want), 'selection', f'{name}: headers', where, f'{header.count(chr(10))} header lines selected')
            if not isinstance(r, Tup) or len(r.items) != 2:
                raise Undecided('result is not a pair')
            for what, x, exp in (('level', r.items[0], [d for d, h, b in want for _ in b]), ('header', r.items[1], [d for d, h, b in want])):
                cols, units, _ = frame_facts(s, x)
                if 'date' not in cols:
                    raise Undecided('no date column')
                v = lib.known_list(s.I, cols['date'])
                v = v and [s.I.to_t(x) for x in v]
                if v is None or not all(tm.isnum(x) for x in v):
                    raise Undecided('dates are ' + tm.show(cols['date'], 3))
                ctx.must([int(tm.cval(x)) for x in v] == exp, 'selection', f'{name}: {what} dates', where, f'{[int(tm.cval(x)) for x in v]} given, {exp} expected')
        ctx.guard('selection', name, go, dead='violated')
    for name, arch, dates in NONE_:
        refused(ctx, 'nodata', f'IGRA {name}', lambda s: pick(s, arch, dates), where)


def endpoint(ctx):
    WS = API + 'webservices'
    f = Session()
    where = f.where(WS, 'HTTPEndPoint')

    def build(s, call):
        w = Web(s)
        e = s.call(s.get(WS, 'HTTPEndPoint'), const('http://host/base/'))
        call(s, e)
        return w

    def path():
        s = Session()
        w = build(s, lambda s, e: s.method(e, '_get_path', SITE))
        ctx.seen(s)
        field(ctx, 'path of an address', last(w)[0], [('http://host/base/',) + sid()], where)
    ctx.guard('request', 'path of an address', path, dead='violated')
    for st in (404, 500):
        def run(s, m, st=st):
            Web(s, st)
            e = s.call(s.get(WS, 'HTTPEndPoint'), const('http://host/base/'))
            s.method(e, m, SITE if m == '_get_path' else s.I.new_dict([(const('q'), SITE)]))
        for m in ('_get_path', '_get_query'):
            refused(ctx, 'status', f'{m}, status {st}', lambda s: run(s, m), where)


def run(ctx):
    ctx.rule('request', 'each field of the requested address is the corresponding field of what was asked')
    ctx.rule('status', 'an answer with an error status leaves no normal path')
    ctx.rule('answer', 'an answer with data is accepted')
    ctx.rule('nodata', 'an answer without the asked data leaves no normal path')
    ctx.rule('selection', 'exactly the soundings within the asked dates are returned, each level with its date')
    wyoming(ctx)
    igra(ctx)
    status(ctx)
    nodata(ctx)
    selection(ctx)
    endpoint(ctx)

"""C19: parsed sounding columns against the published record formats."""
from ..harness import *
from ..core import *
from ._web import *
from ._web import IG, WY
from fractions import Fraction

from .. import term as tm

EXPLANATION = ('The table descriptions that reach the table reader (names, character positions, converters, missing-value markers) are extracted by abstract interpretation of the download clients and compared with the '
               'published IGRA 2 and Wyoming listing formats. Each column of the returned table is followed from its characters through converter and later arithmetic and evaluated by constant propagation '
               'on the format\'s markers and on values covering its range; columns computed from others are compared as value graphs.')

SITE = tm.sym('site')

# name: (first, last+1) characters, decoding, unit
RAW_BODY = {
    'lvltyp1': ((0, 1), 'int', None), 'lvltyp2': ((1, 2), 'int', None), 'etime': ((3, 8), 'MMMSS', 'second'), 'pressure': ((9, 15), 2, 'hPa'),
    'pflag': ((15, 16), 'flag', None), 'height': ((16, 21), 'int', 'meter'), 'zflag': ((21, 22), 'flag', None), 'temperature': ((22, 27), 1, 'degC'), 'tflag': ((27, 28), 'flag', None),
    'relative_humidity': ((28, 33), 1, None), 'dewpoint_depression': ((34, 39), 1, None), 'direction': ((40, 45), 'int', 'degrees'), 'speed': ((46, 51), 1, 'meter / second')}
RAW_HEAD = {
    'site_id': ((1, 12), 'text', None), 'year': ((13, 17), 'int', None), 'month': ((18, 20), 'int', None), 'day': ((21, 23), 'int', None), 'hour': ((24, 26), 'hour', None),
    'release_time': ((27, 31), 'HHMM', 'second'), 'number_levels': ((32, 36), 'int', None), 'pressure_source_code': ((37, 45), 'text', None), 'non_pressure_source_code': ((46, 54), 'text', None),
    'latitude': ((55, 62), 4, 'degrees'), 'longitude': ((63, 71), 4, 'degrees')}
DRV_BODY = {n: ((8 * i, 8 * i + 7), k, u) for i, (n, k, u) in enumerate((
    ('pressure', 2, 'hPa'), ('reported_height', 'int', 'meter'), ('calculated_height', 'int', 'meter'), ('temperature', 1, 'Kelvin'), ('temperature_gradient', 1, 'Kelvin / kilometer'),
    ('potential_temperature', 1, 'Kelvin'), ('potential_temperature_gradient', 1, 'Kelvin / kilometer'), ('virtual_temperature', 1, 'Kelvin'), ('virtual_potential_temperature', 1, 'Kelvin'),
    ('vapor_pressure', 3, 'hPa'), ('saturation_vapor_pressure', 3, 'hPa'), ('reported_relative_humidity', 1, 'percent'), ('calculated_relative_humidity', 1, 'percent'),
    ('relative_humidity_gradient', 1, 'percent / kilometer'), ('u_wind', 1, 'meter / second'), ('u_wind_gradient', 1, '(meter / second) / kilometer'), ('v_wind', 1, 'meter / second'),
    ('v_wind_gradient', 1, '(meter / second) / kilometer'), ('refractive_index', 'int', 'unitless')))}
DRV_HEAD = {
    'site_id': ((1, 12), 'text', None), 'year': ((13, 17), 'int', None), 'month': ((18, 20), 'int', None), 'day': ((21, 23), 'int', None), 'hour': ((24, 26), 'hour', None),
    'release_time': ((27, 31), 'HHMM', 'second'), 'number_levels': ((31, 36), 'int', None)}
DRV_HEAD.update({n: ((37 + 6 * i, 43 + 6 * i), k, u) for i, (n, k, u) in enumerate((
    ('precipitable_water', 2, 'millimeter'), ('inv_pressure', 2, 'hPa'), ('inv_height', 'int', 'meter'), ('inv_strength', 1, 'Kelvin'), ('mixed_layer_pressure', 2, 'hPa'), ('mixed_layer_height', 'int', 'meter'),
    ('freezing_point_pressure', 2, 'hPa'), ('freezing_point_height', 'int', 'meter'), ('lcl_pressure', 2, 'hPa'), ('lcl_height', 'int', 'meter'), ('lfc_pressure', 2, 'hPa'), ('lfc_height', 'int', 'meter'),
    ('lnb_pressure', 2, 'hPa'), ('lnb_height', 'int', 'meter'), ('lifted_index', 'int', 'degC'), ('showalter_index', 'int', 'degC'), ('k_index', 'int', 'degC'), ('total_totals_index', 'int', 'degC'),
    ('cape', 'int', 'Joule / kilogram'), ('convective_inhibition', 'int', 'Joule / kilogram')))})
WYO = {'pressure': ((0, 7), 'number', 'hPa'), 'height': ((7, 14), 'number', 'meter'), 'temperature': ((14, 21), 'number', 'degC'), 'dewpoint': ((21, 28), 'number', 'degC'),
       'rh': ((28, 35), 'number', '%'), 'mixr': ((35, 42), 'number', 'g/kg')}

SYN = {'m': 'meter', 'metre': 'meter', 'meters': 'meter', 'metres': 'meter', 's': 'second', 'seconds': 'second', 'mbar': 'hpa', 'mb': 'hpa', 'k': 'kelvin', 'celsius': 'degc', 'degree': 'degrees', 'deg': 'degrees',
       '%': 'percent', 'mm': 'millimeter', 'm / second': 'meter / second', 'm/s': 'meter / second', 'j/kg': 'joule / kilogram', '(meter / second) / kilometer)': '(meter / second) / kilometer', 'meter / second / kilometer': '(meter / second) / kilometer',
       'dimensionless': 'unitless', 'g kg-1': 'g/kg', '°c': 'degc', 'deg_c': 'degc'}


def unit(u):
    u = u.strip().lower()
    return SYN.get(u, u)


def samples(kind, width, marks):
    """texts as they may stand in the field with the value they mean (None: missing)"""
    if kind == 'flag':
        return [('', 0), ('A', 1), ('B', 2)]
    if kind == 'MMMSS':
        return [('0', 0), ('5', 5), ('45', 45), ('130', 90), ('1259', 779), ('10230', 6150), ('-8888', None), ('-9999', None)]
    if kind == 'HHMM':
        return [('0000', 0), ('0005', 300), ('0930', 34200), ('1200', 43200), ('2359', 86340), ('9999', None)]
    if kind == 'hour':
        return [('00', 0), ('06', 6), ('12', 12), ('23', 23), ('99', None)]
    if kind == 'int' and width < 4:
        return [('1', 1), ('0', 0)] + ([('12', 12)] if width > 1 else []) + ([] if width < 2 else [('07', 7)])
    k = 0 if kind == 'int' else kind
    r = ['0', '1', '7', '15', '230', '999', '4321'] + (['-2', '-731'] if width > 4 else []) + (['-9998', '-8887', '27315', '9999', '8888', '99999'] if width > 4 and marks else []) + (['101325', '-12345'] if width > 5 else [])
    if kind == 4:       # coordinates: the format defines no marker
        marks = []
    return [(x, Fraction(int(x), 10 ** k)) for x in r if len(x) <= width] + [(m, None) for m in marks if len(m) <= width]


def seq(I, v):
    xs = lib.known_list(I, v) if not isinstance(v, Tup) else v.items
    return None if xs is None else list(xs)


def positions(I, kw, n):
    """[(first, last+1)] of the columns read"""
    if 'colspecs' in kw:
        xs = seq(I, kw['colspecs'])
        out = []
        for x in xs or ():
            y = seq(I, x)
            y = [I.to_t(z) for z in y] if y else []
            if len(y) != 2 or not all(tm.isnum(z) for z in y):
                raise Undecided('column positions are not constants')
            out.append(tuple(int(tm.cval(z)) for z in y))
        if xs is None:
            raise Undecided('column positions are not constants')
        return out
    if 'widths' in kw:
        xs = seq(I, kw['widths'])
        xs = xs and [I.to_t(x) for x in xs]
        if not xs or not all(tm.isnum(x) for x in xs):
            raise Undecided('column widths are not constants')
        out, a = [], 0
        for x in xs:
            out.append((a, a + int(tm.cval(x))))
            a += int(tm.cval(x))
        return out
    return None


def picked(I, kw, pos, names):
    """positions of the named columns, after usecols"""
    if 'usecols' in kw:
        u = seq(I, kw['usecols'])
        u = u and [I.to_t(x) for x in u]
        if not u:
            raise Undecided('columns used are not constants')
        if all(tm.isnum(x) for x in u):
            ix = sorted(int(tm.cval(x)) for x in u)
            if len(names) == len(pos):
                return {names[i]: pos[i] for i in ix}
            if len(names) != len(ix):
                raise Undecided('names do not match the columns used')
            return {n: pos[i] for n, i in zip(names, ix)}
        keep = {x.args[0] for x in u}
        return {n: p for n, p in zip(names, pos) if n in keep}
    return dict(zip(names, pos))


def layout(ctx, tag, table, got, where):
    order = sorted(table.items(), key=lambda x: x[1][0])
    for i, (n, ((a, b), kind, u)) in enumerate(order):
        if n not in got:
            ctx.bad('columns', f'{tag} {n}', where, 'the field is not read')
            continue
        lo = order[i - 1][1][0][1] if i else 0
        hi = order[i + 1][1][0][0] if i + 1 < len(order) else b + 1
        if tag.endswith('header') and n == 'number_levels':
            lo, a = 31, max(a, 32) if got[n][0] > 31 and table is RAW_HEAD else a
        x, y = got[n]
        ctx.must(lo <= x <= a and b <= y <= max(hi, b), 'columns', f'{tag} {n}', where, f'read from characters {x}:{y}, the format has {a}:{b}')


def marker_list(I, kw):
    if 'na_values' not in kw:
        return [], None
    v = kw['na_values']
    if isinstance(v, Ref) and I.kind(v) == 'dict':
        per = {k: seq(I, x) if not isinstance(x, T) or x.op != 'const' else [x] for k, x in items(I, v)}
        if any(x is None for x in per.values()):
            raise Undecided('missing-value markers are not constants')
        return [], {k: [I.to_t(y) for y in x] for k, x in per.items()}
    xs = [v] if isinstance(v, T) and v.op == 'const' else seq(I, v)
    xs = xs and [I.to_t(x) for x in xs]
    if xs is None or not all(tm.isconst(x) or tm.isnum(x) for x in xs):
        raise Undecided('missing-value markers are not constants')
    return xs, None


def number(x):
    try:
        return Fraction(str(x).strip())
    except (ValueError, ZeroDivisionError):
        return None


DEFAULT_NA = {'', '#N/A', 'N/A', 'NA', 'NULL', 'NaN', 'n/a', 'nan', 'null', 'None', '<NA>', '-NaN', '-nan'}


def isnan(t):
    return t.op == 'const' and isinstance(t.args[0], float) and t.args[0] != t.args[0] or t.op == 'call' and t.args[0] == 'float' and getattr(t.args[1], 'op', '') == 'const' and str(t.args[1].args[0]).lower() == 'nan' \
        or tm.show(t, 2).lower() in ('nan', "'nan'", 'none')


def decode(s, kw, name, text, cols):
    """what the returned table holds for the characters `text` of the field: number, text, None when missing"""
    I = s.I
    conv = dict(items(I, kw['converters'])) if 'converters' in kw else {}
    marks, per = marker_list(I, kw)
    if per is not None:
        marks = per.get(name, [])
    marks = [m.args[0] if not tm.isnum(m) else tm.cval(m) for m in marks]
    if name in conv:
        c = conv[name]
        if isinstance(c, Ext) and c.name.split('.')[-1] == 'str':
            v = const(text)
        else:
            v = s.t(s.call(c, const(text)))
    elif any(str(m) == text for m in marks) or text in DEFAULT_NA:
        return None
    else:
        v = num(Fraction(text)) if number(text) is not None else const(text)
    if isnan(v):
        return None
    if tm.isnum(v) and any(number(m) is not None and number(m) == tm.cval(v) for m in marks):
        return None
    if v.op == 'const' and not tm.isnum(v) and any(str(m) == v.args[0] for m in marks):
        return None
    final = cols.get(name)
    if final is not None and not (final.op == 'sym' and final.args[0] == 'col:' + name):
        sy = tm.sym('col:' + name)
        final = tm.subst(final, {sy: v})
        if final.op == 'call' and final.args[0] == 'round':
            final = final.args[1]
        v = final
    if tm.isnum(v):
        return Fraction(tm.cval(v)) if not isinstance(tm.cval(v), float) else Fraction(tm.cval(v)).limit_denominator(10 ** 9)
    if v.op == 'const':
        return v.args[0]
    raise Undecided(f'{name} of {text!r} is {tm.show(v, 3)}')


def values(ctx, s, tag, table, kw, cols, marks, where):
    for n, ((a, b), kind, u) in table.items():
        if kind == 'text':
            def go(n=n, a=a, b=b):
                x = 'ITM00016245'[:b - a] if n == 'site_id' else 'ncdc-gts'
                ctx.must(decode(s, kw, n, x, cols) == x, 'decode', f'{tag} {n}', where, 'the text is changed')
            ctx.guard('decode', f'{tag} {n}', go, dead='violated')
            continue
        for text, want in samples(kind, b - a, marks):
            rule = 'missing' if want is None else 'decode'

            def go(n=n, text=text, want=want, rule=rule):
                try:
                    got = decode(s, kw, n, text, cols)
                except PathDead:
                    ctx.bad(rule, f'{tag} {n} {text!r}', where, 'the value cannot be read')
                    return
                same = got is None if want is None else got is not None and not isinstance(got, str) and abs(got - want) <= Fraction(1, 10 ** 6)
                ctx.must(same, rule, f'{tag} {n} {text!r}', where, f'read as {"missing" if got is None else got}, the format means {"missing" if want is None else want}')
            ctx.guard(rule, f'{tag} {n} {text!r}', go)


def igra(ctx):
    f = Session()
    where = f.where(IG, 'IGRAUpperAir')
    for derived, body, head, bm, hm in ((False, RAW_BODY, RAW_HEAD, ['-9999', '-8888'], ['-9999']), (True, DRV_BODY, DRV_HEAD, ['-99999'], ['-99999'])):
        name = 'derived' if derived else 'raw'

        def go():
            s = Session()
            I = s.I
            d = num(2020010112)
            w = Web(s, 200, lines=['#ITM00016245 2020 01 01 12 9999    1 ncdc-gts ncdc-gts  416500   124300\n', 'level\n'], dates={d})
            r = s.method(s.get(IG, 'IGRAUpperAir'), 'request_data', d, SITE, derived=TRUE if derived else FALSE)
            ctx.seen(s)
            if not isinstance(r, Tup) or len(r.items) != 2 or len(w.read) != 2:
                raise Undecided('two tables are not recognised')
            for what, table, marks, x in (('body', body, bm, r.items[0]), ('header', head, hm, r.items[1])):
                tag = f'{name} {what}'

                def one(what=what, table=table, marks=marks, x=x, tag=tag):
                    cols, units, dropped = frame_facts(s, x)
                    how, src, names, kw, n = next(y for y in w.read if ('site_id' in y[2]) == (what == 'header'))
                    pos = positions(I, kw, len(names))
                    if pos is None:
                        ctx.bad('columns', tag, where, 'columns are not read from fixed positions')
                        return
                    if len(names) != len(pos) and 'usecols' not in kw:
                        ctx.bad('columns', tag, where, f'{len(names)} names for {len(pos)} columns')
                        return
                    layout(ctx, tag, table, picked(I, kw, pos, names), where)
                    for c in table:
                        if c != 'dewpoint_depression':
                            ctx.must(c in cols, 'columns', f'{tag} {c} returned', where, 'the column is not in the returned table')
                    values(ctx, s, tag, table, kw, cols, marks, where)
                    want = {n: u for n, (p, k, u) in table.items() if u}
                    if what == 'body' and not derived:
                        want.update(dewpoint='degC', u_wind='meter / second', v_wind='meter / second')
                    check_units(ctx, tag, units, want, where)
                    if what == 'body' and not derived:
                        computed(ctx, s, cols, where)
                ctx.guard('columns', tag, one)
        ctx.guard('columns', name, go, dead='violated')


def check_units(ctx, tag, units, want, where):
    if not isinstance(units, dict):
        ctx.bad('units', tag, where, 'the table has no units')
        return
    for n, u in want.items():
        g = units.get(n)
        if g is None:
            ctx.bad('units', f'{tag} {n}', where, 'no unit')
        elif g.op != 'const' or not isinstance(g.args[0], str):
            ctx.must(False, 'units', f'{tag} {n}', where, 'unit is ' + tm.show(g, 2)) if g is NONE else ctx.unk('units', f'{tag} {n}', where, tm.show(g, 2))
        else:
            ctx.must(unit(g.args[0]) == unit(u), 'units', f'{tag} {n}', where, f'labelled {g.args[0]}, the values are in {u}')


def computed(ctx, s, cols, where):
    c = lambda n: tm.sym('col:' + n)
    for n, spec in (('dewpoint', lambda: tm.sub(c('temperature'), c('dewpoint_depression'))),
                    ('u_wind', lambda: tm.mul(num(-1), tm.mul(c('speed'), tm.call('sin', tm.mul(c('direction'), tm.div(tm.PI, num(180))))))),
                    ('v_wind', lambda: tm.mul(num(-1), tm.mul(c('speed'), tm.call('cos', tm.mul(c('direction'), tm.div(tm.PI, num(180)))))))):
        def go(n=n, spec=spec):
            if n not in cols:
                ctx.bad('computed', n, where, 'the column is not in the returned table')
                return
            t = cols[n]
            while t.op == 'call' and t.args[0] in ('round', 'around'):
                t = t.args[1]
            r, wit = ctx.decide(t, spec())
            if r == 'equal':
                ctx.ok('computed', n)
            elif r == 'different':
                ctx.bad('computed', n, where, f'computed as {tm.show(t, 5)[:200]}: {wit}')
            else:
                ctx.unk('computed', n, where, str(wit)[:200])
        ctx.guard('computed', n, go)


META = """
                         Station identifier: LIRE
                             Station number: 16245
                           Observation time: 220623/1200
                           Station latitude: 41.65
                          Station longitude: -12.43
                          Station elevation: 32.0
                            Showalter index: 1.20
                               Lifted index: -2.34
"""


def wyoming(ctx):
    f = Session()
    where = f.where(WY, 'WyomingUpperAir')

    def scene(meta):
        s = Session()
        I = s.I
        w = Web(s, 200, text=tm.sym('answer'), dates={tm.sym('time')})
        tags = {'pre': [tm.sym('listing'), const(meta)], 'h2': [tm.sym('title')]}
        I.hooks['bs4.BeautifulSoup'] = lambda I_, a, k, node: s.call(s.get('spec.html', 'Page'), I.new_dict([(const(k), I.new_list([s.call(s.get('spec.html', 'Tag'), x) for x in v])) for k, v in tags.items()]))
        I.hooks['datetime.datetime.strptime'] = lambda I_, a, k, node: mk('call', 'strptime', *[I.to_t(x) for x in a], rank=0)
        r = s.method(s.get(WY, 'WyomingUpperAir'), 'request_data', tm.sym('time'), SITE)
        ctx.seen(s)
        return s, w, frame_facts(s, r)

    def table():
        s, w, (cols, units, dropped) = scene(META)
        if len(w.read) != 1:
            raise Undecided('one table is not recognised')
        how, src, names, kw, n = w.read[0]
        ctx.must(src is not None and any(x is tm.sym('listing') for x in tm.walk(src)), 'columns', 'Wyoming listing', where, 'the table is not read from the listing') if src is not None else None
        if how != 'read_fwf':
            ctx.bad('columns', 'Wyoming', where, 'the listing leaves missing values blank: fields separated by blanks shift when one is missing')
        else:
            pos = positions(s.I, kw, len(names))
            if pos is None:
                ctx.bad('columns', 'Wyoming', where, 'positions are inferred from the data, not given')
            else:
                got = picked(s.I, kw, pos, names)
                for nme, ((a, b), kind, u) in WYO.items():
                    ctx.must(got.get(nme) == (a, b), 'columns', f'Wyoming {nme}', where, f'read from characters {got.get(nme)}, the listing has {a}:{b}')
        k = s.I.to_t(kw['skiprows']) if 'skiprows' in kw else ZERO
        if tm.isnum(k):
            ctx.must(tm.cval(k) == 5, 'columns', 'Wyoming heading', where, f'{tm.cval(k)} lines of heading skipped, the listing has 5')
        for nme, (p, kind, u) in WYO.items():
            if nme not in cols:
                ctx.bad('columns', f'Wyoming {nme} returned', where, 'the column is not in the returned table')
                continue
            ctx.must(cols[nme] is tm.sym('col:' + nme) or None, 'decode', f'Wyoming {nme}', where, 'the column is changed') if cols[nme] is tm.sym('col:' + nme) or cols[nme].op == 'sym' else ctx.unk('decode', f'Wyoming {nme}', where, tm.show(cols[nme], 3))
        check_units(ctx, 'Wyoming', units, dict({n: u for n, (p, k, u) in WYO.items()}, latitude='degrees', longitude='degrees', elevation='meter'), where)
    ctx.guard('columns', 'Wyoming', table, dead='violated')

    for tag, meta, station in (('with name', META, 'LIRE'), ('without name', META.replace('                         Station identifier: LIRE\n', ''), '')):
        def info(tag=tag, meta=meta, station=station):
            s, w, (cols, units, dropped) = scene(meta)
            want = dict(station=const(station), station_number=num(16245), latitude=num(Fraction('41.65')), longitude=num(Fraction('-12.43')), elevation=num(32),
                        time=mk('call', 'strptime', const('220623/1200'), const('%y%m%d/%H%M'), rank=0))
            for k, v in want.items():
                if k not in cols:
                    ctx.bad('metadata', f'{tag} {k}', where, 'not in the returned table')
                elif cols[k] is v or tm.isnum(v) and tm.isnum(cols[k]) and abs(float(tm.cval(v)) - float(tm.cval(cols[k]))) < 1e-9:
                    ctx.ok('metadata', f'{tag} {k}')
                elif cols[k].op == 'const' or tm.isnum(cols[k]) or cols[k].op == 'call' and cols[k].args[0] == 'strptime':
                    ctx.bad('metadata', f'{tag} {k}', where, f'is {tm.show(cols[k], 4)}, the page says {tm.show(v, 4)}')
                else:
                    ctx.unk('metadata', f'{tag} {k}', where, tm.show(cols[k], 3))
        ctx.guard('metadata', tag, info, dead='violated')


def run(ctx):
    ctx.rule('columns', 'each field is read from the character positions of the published format')
    ctx.rule('decode', 'the characters of a field mean the number the format says')
    ctx.rule('missing', 'the format\'s missing-value markers become missing values')
    ctx.rule('units', 'the unit given with a column is the unit of its values')
    ctx.rule('computed', 'dewpoint and wind components follow from the fields read')
    ctx.rule('metadata', 'station data are those of the page')
    igra(ctx)
    wyoming(ctx)
    stations(ctx)


def stations(ctx):
    f = Session()
    where = f.where(WY, 'WyomingUpperAir')

    def go():
        s = Session()
        I = s.I
        Web(s, 200, text=tm.sym('answer'))
        seen = []
        areas = [{'title': const('16245  Pratica Di Mare')}, {}, {'title': const('03005 Lerwick')}, {'title': const('LIRE Pratica')}]

        def page(I_, a, k, node):
            tags = [s.call(s.get('spec.html', 'Tag'), NONE, I.new_dict([(const(x), y) for x, y in d.items()])) for d in areas]
            return s.call(s.get('spec.html', 'Page'), I.new_dict([(const('area'), I.new_list(tags))]))
        I.hooks['bs4.BeautifulSoup'] = page

        def frame(I_, a, k, node):
            seen.append(([list(seq(I, x) or ()) for x in seq(I, a[0]) or ()], seq(I, k['columns']) if 'columns' in k else None) if not isinstance(a[0], Ref) or I.kind(a[0]) == 'list' else None)
        I.hooks['pandas.DataFrame'] = frame
        s.method(s.get(WY, 'WyomingUpperAir'), 'get_stations', SITE)
        ctx.seen(s)
        if len(seen) != 1 or seen[0] is None or seen[0][1] is None:
            raise Undecided('the table of stations is not recognised')
        rows = [[I.to_t(x) for x in r] for r in seen[0][0]]
        if any(x.op != 'const' for r in rows for x in r):
            raise Undecided('the rows are not constants')
        want = [['16245', 'Pratica Di Mare'], ['03005', 'Lerwick'], ['LIRE', 'Pratica']]
        names = [I.to_t(x).args[0] for x in seen[0][1]]
        ctx.must([[x.args[0] for x in r] for r in rows] == want and names == ['station_id', 'station_name'], 'metadata', 'station list', where, f'rows {[[x.args[0] for x in r] for r in rows]} under {names}')
    ctx.guard('metadata', 'station list', go, dead='violated')

"""Scenarios for the download clients: the HTTP library, the archive and the table reader are replaced by
recording stand-ins (sa/spec/http.py, sa/spec/frame.py); everything of the package itself is analysed."""
import urllib.parse

from ..harness import *
from ..core import *
from .. import lib
from .. import term as tm

API = 'pyrtlib.apiwebservices.'
WY, IG = API + 'wyomingupperair', API + 'igra2'


class Web:
    """What was asked of the network and read from tables during one scenario."""

    def __init__(self, s, status=200, text=None, lines=None, dates=()):
        I = s.I
        self.s, self.I = s, I
        self.asked, self.read, self.asks = [], [], 1
        text = tm.sym('text') if text is None else const(text)
        I.exact = I.bytes_known = True
        I.unroll = 4000
        I.dates = set(dates)

        def session(I_, a, k, node):
            return s.call(s.get('spec.http', 'Session'), I.new_list([]), num(status), text, tm.sym('content'))

        def get(I_, a, k, node):
            self.asked.append((tuple(I.st.pc),) + self.url(a[1] if len(a) > 1 else k['url'], a[2] if len(a) > 2 else k.get('params', NONE)))
        for n in ('requests.Session', 'requests.session', 'requests.sessions.Session'):
            I.hooks[n] = session
        I.func_hooks['spec.http.Session.get'] = get
        I.hooks['requests.get'] = lambda I_, a, k, node: s.method(session(I, (), {}, node), 'get', *a, **{x: v for x, v in k.items() if x == 'params'})
        if lines is not None:
            ls = [const(x) for x in lines]
            I.hooks['zipfile.ZipFile'] = lambda I_, a, k, node: s.call(s.get('spec.http', 'ZipFile'), I.new_list(list(ls)))
        for n in ('read_fwf', 'read_csv', 'read_table'):
            I.hooks['pandas.' + n] = lambda I_, a, k, node, n=n: self.frame(n, a, k, node)
        I.hooks['datetime.datetime'] = moment

    def frame(self, how, a, k, node):
        """A table with one column symbol for each name given."""
        I, s = self.I, self.s
        names = lib.known_list(I, k['names']) if 'names' in k else None
        names = names and [I.to_t(x) for x in names]
        if not names or any(n.op != 'const' for n in names):
            return None
        names = [n.args[0] for n in names]
        use = lib.known_list(I, k['usecols']) if 'usecols' in k and how == 'read_csv' else None
        src = a[0] if a else k.get('filepath_or_buffer')
        self.read.append((how, I.to_t(src) if src is not None else None, names, k, len(a)))
        return s.call(s.get('spec.frame', 'Frame'),
                      s.call(s.get('spec.frame', 'mkcols'), Tup([const(n) for n in names]), Tup([tm.sym('col:' + n) for n in names])))

    def url(self, url, params):
        """[host, path atoms, query fields] of an address."""
        atoms = pieces(self.I.to_t(url))
        q = {}
        path = []
        i = None
        for j, x in enumerate(atoms):
            if isinstance(x, str) and '?' in x:
                i = j
                break
        if i is None:
            path = atoms
        else:
            a, b = atoms[i].split('?', 1)
            path = atoms[:i] + ([a] if a else [])
            key, val = None, []
            for x in [b] + atoms[i + 1:]:
                if not isinstance(x, str):
                    val.append(x)
                    continue
                parts = x.split('&')
                for n, part in enumerate(parts):
                    if n:
                        if key is not None:
                            q[key] = tuple(val)
                        key, val = None, []
                    if key is None and part:
                        key, _, v = part.partition('=')
                        val = [urllib.parse.unquote(v)] if v else []
                    elif part:
                        val.append(urllib.parse.unquote(part))
            if key is not None:
                q[key] = tuple(val)
        if isinstance(params, Ref):
            for k, v in self.s.I.dict_items(params) if hasattr(self.s.I, 'dict_items') else items(self.I, params):
                q[k] = tuple(pieces(self.I.to_t(v)))
        elif self.I.to_t(params) is not NONE:
            raise Undecided('query given as ' + tm.show(self.I.to_t(params), 3))
        return merge(path), {k: merge(v) for k, v in q.items()}


def items(I, d):
    m = I.st.m
    return [(k[2].args[0] if isinstance(k[2], tm.T) else k[2], v) for k, v in m.items() if k[0] == 'd' and k[1] == d.oid]


def merge(xs):
    r = []
    for x in xs:
        if isinstance(x, str) and r and isinstance(r[-1], str):
            r[-1] += x
        elif x != '':
            r.append(x)
    return tuple(r)


PAD = {'year': ('%Y', ('', 'd', '04', '04d', '4d', '4')), 'month': ('%m', ('02', '02d')), 'day': ('%d', ('02', '02d')), 'hour': ('%H', ('02', '02d'))}


def split_fmt(x, f):
    import re
    r = []
    for lit, d in re.findall(r'([^%]+)|(%-?.)', f):
        if lit:
            r.append(lit)
        elif d == '%%':
            r.append('%')
        elif d == '%y':
            r.append(('time', '%y', x))
        elif d == '%F':
            r += [('time', '%Y', x), '-', ('time', '%m', x), '-', ('time', '%d', x)]
        else:
            r.append(('time', d, x))
    return r


def pieces(t):
    """A text as literal pieces, fields of a time and other values."""
    if t.op == 'const' or tm.isnum(t):
        return [t.args[0] if isinstance(t.args[0], str) else str(tm.cval(t))] if t is not NONE else ['None']
    if t.op == 'fstr' or t.op == 'add':
        return list(merge([p for x in t.args for p in pieces(x)]))
    if t.op == 'call' and t.args[0] in ('posixpath.join', 'os.path.join'):
        r = []
        for x in t.args[1:]:
            p = pieces(x)
            if r and not (isinstance(r[-1], str) and r[-1].endswith('/')):
                r.append('/')
            r += p
        return list(merge(r))
    if t.op == 'call' and t.args[0] in ('urllib.parse.urljoin',):
        a, b = pieces(t.args[1]), pieces(t.args[2])
        if len(a) != 1 or not isinstance(a[0], str):
            raise Undecided('address joined to ' + tm.show(t.args[1], 3))
        if isinstance(b[0], str) and b[0][:1] == '/':
            u = urllib.parse.urlsplit(a[0])
            base = u.scheme + '://' + u.netloc
        elif isinstance(b[0], str) and b[0][:1] == '?':
            base = a[0]
        else:
            base = a[0].rsplit('/', 1)[0] + '/'
        return list(merge([base] + b))
    if t.op == 'call' and t.args[0] in ('str', 'builtins.str', 'urllib.parse.quote', 'urllib.parse.quote_plus', 'format') and len(t.args) == 2:
        return pieces(t.args[1])
    verb = None
    if t.op == 'mcall':
        verb = t.args[1].args[0] if isinstance(t.args[1], tm.T) else t.args[1]
    if verb == 'strftime' and len(t.args) == 3 and t.args[2].op == 'const':
        return split_fmt(t.args[0], t.args[2].args[0])
    if verb == 'zfill' and t.args[2] is num(2):
        p = pieces(t.args[0])
        if len(p) == 1 and p[0][0] == 'part' and p[0][1] in PAD:
            return [('time', PAD[p[0][1]][0], p[0][2])]
    if verb in ('upper', 'strip', 'lower') and len(t.args) == 2:
        return pieces(t.args[0])
    if t.op in ('method', 'attr') and len(t.args) == 2:
        n = t.args[1].args[0] if isinstance(t.args[1], tm.T) else t.args[1]
        return [('time', '%Y', t.args[0])] if n == 'year' else [('part', n, t.args[0])]
    if t.op == 'fmt':
        f = t.args[1].args[0] if isinstance(t.args[1], tm.T) else t.args[1]
        if '%' in f:
            return split_fmt(t.args[0], f)
        p = pieces(t.args[0])
        if len(p) == 1 and p[0][0] == 'part' and p[0][1] in PAD and f in PAD[p[0][1]][1]:
            return [('time', PAD[p[0][1]][0], p[0][2])]
        if len(p) == 1 and p[0][0] == 'time' and p[0][1] == '%Y' and f in PAD['year'][1]:
            return p
        if f in ('', 's', 'd'):
            return p
    return [('value', t, None)]


def moment(I, a, k, node):
    """datetime(...) of known numbers as the number YYYYMMDDHH."""
    v = list(a) + [k[n] for n in ('year', 'month', 'day', 'hour')[len(a):] if n in k]
    v = [I.to_t(x) for x in v]
    if not all(tm.isnum(x) for x in v) or len(v) > 4:
        return None
    v = [int(tm.cval(x)) for x in v] + [0] * (4 - len(v))
    if v[3] > 23 or not 1 <= v[1] <= 12 or not 1 <= v[2] <= 31:
        I.raise_('ValueError', None, node)
    return num(((v[0] * 100 + v[1]) * 100 + v[2]) * 100 + v[3])


def frame_facts(s, f):
    """(columns, units, dropped) of a returned stand-in table."""
    I = s.I
    if not (isinstance(f, Ref) and ('f', f.oid, 'cols') in I.st.m):
        raise Undecided('result is not a table')
    cols = {k: I.to_t(v) for k, v in items(I, I.st.m[('f', f.oid, 'cols')])}
    attrs = dict(items(I, I.st.m[('f', f.oid, 'attrs')]))
    units = attrs.get('units')
    if isinstance(units, Ref):
        units = {k: I.to_t(v) for k, v in items(I, units)}
    return cols, units, I.st.m.get(('f', f.oid, 'dropped'))

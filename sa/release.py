"""Typestate of opened files and data sets: every explicit path through the code from an opening to an exit of the scope that opened it must close it."""
import ast

OPENERS = {'netCDF4.Dataset', 'netCDF4.MFDataset', 'open', 'io.open', 'builtins.open', 'codecs.open', 'gzip.open', 'bz2.open', 'lzma.open', 'gzip.GzipFile', 'bz2.BZ2File', 'lzma.LZMAFile', 'zipfile.ZipFile', 'tarfile.open', 'tarfile.TarFile',
           'tempfile.TemporaryFile', 'tempfile.NamedTemporaryFile', 'tempfile.SpooledTemporaryFile', 'h5py.File', 'xarray.open_dataset', 'xarray.open_mfdataset', 'scipy.io.netcdf_file', 'shelve.open',
           'sqlite3.connect', 'os.open', 'os.fdopen', 'pandas.HDFStore', 'pandas.ExcelFile', 'mmap.mmap', 'netCDF4.MFTime'}
MEMORY = ('BytesIO', 'StringIO')
NEUTRAL = {'print', 'len', 'str', 'repr', 'id', 'type', 'isinstance', 'hasattr', 'getattr', 'bool', 'hash', 'dir', 'vars', 'any', 'all', 'callable'}
BOXING = {'list', 'tuple', 'set', 'sorted', 'iter', 'reversed', 'frozenset', 'dict', 'enumerate', 'zip'}
CLOSERS = {'close', '__exit__', 'detach', 'terminate'}
LIMIT = 400


class St:
    """one abstract path: variables, state of each opening, truth of tests passed"""
    __slots__ = ('env', 'status', 'known')

    def __init__(self, env=None, status=None, known=None):
        self.env, self.status, self.known = dict(env or {}), dict(status or {}), dict(known or {})

    def copy(self):
        return St(self.env, self.status, self.known)

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.status.items()), frozenset(self.known.items()))


def uniq(states):
    out = {}
    for s in states:
        out.setdefault(s.key(), s)
    return list(out.values())


class Too(Exception):
    pass


class Out:
    def __init__(self):
        self.ret, self.brk, self.cont, self.exc, self.rai = [], [], [], [], []


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        d = dotted(e.value)
        return d and d + '.' + e.attr
    return None


class Scope:
    """analysis of one function (or module) body"""

    def __init__(self, an, mod, node, cls, name, param=None):
        self.an, self.mod, self.node, self.cls, self.name = an, mod, node, cls, name
        self.out = Out()
        self.found = {}         # opening -> set of exit states
        self.leaks = {}         # opening -> (line, how)
        self.returns = False
        self.site_of = {}
        self.trying = []
        self.globals_ = set()
        start = St()
        self.param = param
        if param:
            start.env[param] = ('h', ('param', param))
            start.status[('param', param)] = 'open'
        body = node.body
        if isinstance(node, ast.Lambda):
            body = [ast.Return(value=node.body, lineno=node.lineno, col_offset=node.col_offset)]
        live = self.block(body, [start])
        for s in live:
            self.leave(s, getattr(body[-1], 'lineno', 0) if body else 0, 'the end of ' + name)

    # -- exits
    def leave(self, s, line, how, value=None):
        held = self.sites(value)
        for site, st in s.status.items():
            if site in held and st == 'open':
                self.returns = True
                st = 'returned'
            if st == 'open' and site[0] != 'param':
                attrs = [k for k, v in s.env.items() if '.' in k and site in self.sites(v)]
                if any(self.an.closed_somewhere(k.split('.')[-1]) for k in attrs):
                    st = 'unknown'
            self.found.setdefault(site, set()).add(st)
            if st == 'open':
                self.leaks.setdefault(site, (line, how))

    def sites(self, v):
        if not v or v[0] == 'none':
            return frozenset()
        return frozenset([v[1]]) if v[0] == 'h' else v[1]

    # -- statements
    def block(self, body, states):
        for st in body:
            states = uniq(states)
            if len(states) > LIMIT:
                raise Too()
            if not states:
                return []
            for t in self.trying:
                t.extend(s.copy() for s in states)
            states = self.stmt(st, states)
        return states

    def stmt(self, n, states):
        f = getattr(self, 's_' + type(n).__name__, None)
        if f is not None:
            return f(n, states)
        for s in states:
            for c in ast.iter_child_nodes(n):
                if isinstance(c, ast.expr):
                    self.ev(c, s)
        return states

    def s_FunctionDef(self, n, states):
        for s in states:
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and s.env.get(x.id):
                    self.unknown(s, s.env[x.id])
        return states

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, n, states):
        return states

    def s_Global(self, n, states):
        self.globals_ |= set(n.names)
        return states

    def s_Expr(self, n, states):
        for s in states:
            self.drop(self.ev(n.value, s), s, n)
        return states

    def drop(self, v, s, n):
        pass

    def s_Assign(self, n, states):
        for s in states:
            v = self.ev(n.value, s)
            for t in n.targets:
                self.bind(t, v, s, n)
        return states

    def s_AnnAssign(self, n, states):
        for s in states:
            if n.value is not None:
                self.bind(n.target, self.ev(n.value, s), s, n)
        return states

    def s_AugAssign(self, n, states):
        for s in states:
            v = self.ev(n.value, s)
            k = dotted(n.target)
            if self.sites(v) and k:
                s.env[k] = ('box', self.sites(v) | self.sites(s.env.get(k)))
            elif k:
                self.forget(k, s)
        return states

    def forget(self, k, s):
        for t in [t for t in s.known if k.split('.')[0] in t[1]]:
            del s.known[t]

    def bind(self, t, v, s, n):
        if isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, tuple) and v and v[0] == 'tup' and len(v[2]) == len(t.elts):
                for x, y in zip(t.elts, v[2]):
                    self.bind(x, y, s, n)
            else:
                for x in t.elts:
                    self.bind(x, ('each', self.sites(v)) if self.sites(v) else None, s, n)
            return
        if isinstance(t, ast.Starred):
            return self.bind(t.value, v, s, n)
        if isinstance(t, ast.Subscript):
            k = dotted(t.value)
            self.ev(t.value, s)
            self.ev(t.slice, s)
            if self.sites(v):
                if k:
                    s.env[k] = ('box', self.sites(v) | self.sites(s.env.get(k)))
                else:
                    self.unknown(s, v)
            return
        k = dotted(t)
        if k is None:
            self.unknown(s, v)
            return
        old = s.env.pop(k, None)
        if v:
            s.env[k] = v if v[0] != 'tup' else ('box', v[1])
        self.forget(k, s)
        for site in self.sites(old):
            if s.status.get(site) == 'open' and not any(site in self.sites(x) for x in s.env.values()):
                s.status[site] = 'lost'
                self.found.setdefault(site, set()).add('open')
                self.leaks.setdefault(site, (n.lineno, f'{k} is assigned again'))
        if k in self.globals_:
            pass

    def s_Delete(self, n, states):
        for s in states:
            for t in n.targets:
                k = dotted(t)
                if k and k in s.env:
                    self.unknown(s, s.env.pop(k))
        return states

    def s_Return(self, n, states):
        for s in states:
            v = self.ev(n.value, s) if n.value is not None else None
            self.out.ret.append((s, n.lineno, v))
        return []

    def s_Raise(self, n, states):
        for s in states:
            if n.exc is not None:
                self.ev(n.exc, s)
            self.out.rai.append((s, n.lineno, n.exc is None))
        return []

    def s_Break(self, n, states):
        self.out.brk += states
        return []

    def s_Continue(self, n, states):
        self.out.cont += states
        return []

    def flush(self):
        """leave the scope with everything that is pending and not caught"""
        o, self.out = self.out, Out()
        return o

    def s_If(self, n, states):
        yes, no = [], []
        for s in states:
            a, b = self.test(n.test, s)
            yes += a
            no += b
        return self.block(n.body, yes) + (self.block(n.orelse, no) if n.orelse else no)

    def test(self, t, s):
        """states in which the test succeeds, states in which it fails"""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            a, b = self.test(t.operand, s)
            return b, a
        if isinstance(t, ast.BoolOp):
            live, done = [s], []
            for x in t.values:
                nxt = []
                for y in live:
                    a, b = self.test(x, y)
                    if isinstance(t.op, ast.And):
                        nxt += a
                        done += b
                    else:
                        nxt += b
                        done += a
                live = nxt
            return (live, done) if isinstance(t.op, ast.And) else (done, live)
        if isinstance(t, ast.Constant):
            return ([s], []) if t.value else ([], [s])
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Is, ast.IsNot)) and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
            v = s.env.get(dotted(t.left) or '')
            if v:
                isnone = v[0] == 'none'
                return ([s], []) if isnone == isinstance(t.ops[0], ast.Is) else ([], [s])
        v = s.env.get(dotted(t) or '')
        if v:
            return ([], [s]) if v[0] == 'none' else ([s], [])
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Attribute) and t.func.attr == 'isopen' or isinstance(t, ast.Attribute) and t.attr == 'closed':
            h = s.env.get(dotted(t.func.value if isinstance(t, ast.Call) else t.value) or '')
            ss = {s.status.get(x) for x in self.sites(h)}
            if len(ss) == 1 and ss <= {'open', 'closed'}:
                o = (ss == {'open'}) == isinstance(t, ast.Call)
                return ([s], []) if o else ([], [s])
        self.ev(t, s)
        key = None
        if not any(isinstance(x, (ast.Call, ast.Subscript, ast.NamedExpr, ast.Await, ast.Yield)) for x in ast.walk(t)):
            key = (ast.dump(t), frozenset(x.id for x in ast.walk(t) if isinstance(x, ast.Name)))
            if key in s.known:
                return ([s], []) if s.known[key] else ([], [s])
        a, b = s.copy(), s.copy()
        if key:
            a.known[key], b.known[key] = True, False
        return [a], [b]

    def loop(self, n, states, enter, always):
        """body repeated until no new state turns up"""
        outer = self.out
        done, seen, front = ([] if always else list(states)), {s.key() for s in states}, [s.copy() for s in states]
        broken = []
        for _ in range(4):
            self.out = Out()
            ins, outs = enter(front)
            done += outs
            end = self.block(n.body, ins) + self.out.cont
            broken += self.out.brk
            outer.ret += self.out.ret
            outer.rai += self.out.rai
            front = []
            for s in uniq(end):
                done.append(s)
                if s.key() not in seen:
                    seen.add(s.key())
                    front.append(s.copy())
            if not front or always:
                break
        self.out = outer
        done = uniq(done)
        if n.orelse:
            done = self.block(n.orelse, done)
        return done, broken

    def s_For(self, n, states):
        boxed = []
        plain = []
        for s in states:
            v = self.ev(n.iter, s)
            if self.sites(v):
                self.each(n.target, n.iter, v, s, n)
                boxed.append(s)
            else:
                plain.append(s)
        res = []
        if boxed:
            d, b = self.loop(n, boxed, lambda f: (f, []), True)
            for s in b:     # the rest of the collection is not visited
                for k, v in list(s.env.items()):
                    if v and v[0] == 'box':
                        self.unknown(s, v)
            res += d + b
        if plain:
            def enter(front):
                for s in front:
                    self.bind(n.target, None, s, n)
                return front, []
            d, b = self.loop(n, plain, enter, False)
            res += d + b
        return res

    s_AsyncFor = s_For

    def each(self, target, it, v, s, n):
        """bind the loop variables of a walk over a collection of openings"""
        first = None
        if isinstance(it, ast.Call):
            fn = dotted(it.func) or ''
            if (fn == 'enumerate' or fn.endswith('.items')) and isinstance(target, ast.Tuple) and len(target.elts) == 2:
                self.bind(target.elts[0], None, s, n)
                return self.bind(target.elts[1], ('each', self.sites(v)), s, n)
            if fn == 'zip' and isinstance(target, ast.Tuple) and len(target.elts) == len(it.args):
                for t, a in zip(target.elts, it.args):
                    w = self.ev(a, s)
                    self.bind(t, ('each', self.sites(w)) if self.sites(w) else None, s, n)
                return
        k = it
        if isinstance(k, ast.Name) and False:
            first = k
        self.bind(target, ('each', self.sites(v)), s, n)

    def s_While(self, n, states):
        def enter(front):
            ins, outs = [], []
            for s in front:
                a, b = self.test(n.test, s.copy())
                ins += a
                outs += b
            return ins, outs
        forever = isinstance(n.test, ast.Constant) and n.test.value
        d, b = self.loop(n, states, enter, False)
        return b if forever else d + b

    def s_With(self, n, states):
        hs = []
        for s in states:
            mine = []
            for it in n.items:
                v = self.ev(it.context_expr, s)
                if self.sites(v) and v[0] in ('h', 'each', 'box'):
                    mine += self.sites(v)
                if it.optional_vars is not None:
                    self.bind(it.optional_vars, v, s, n)
            hs += mine
        hs = set(hs)

        def shut(s):
            for h in hs:
                if s.status.get(h) == 'open':
                    s.status[h] = 'closed'
        outer, self.out = self.out, Out()
        mark = [len(t) for t in self.trying]
        live = self.block(n.body, states)
        for t, m in zip(self.trying, mark):
            for s in t[m:]:
                shut(s)
        for s in live + self.out.brk + self.out.cont + [x[0] for x in self.out.ret] + [x[0] for x in self.out.rai]:
            shut(s)
        for k in ('ret', 'brk', 'cont', 'rai'):
            getattr(outer, k).extend(getattr(self.out, k))
        self.out = outer
        return live

    s_AsyncWith = s_With

    def s_Try(self, n, states):
        outer, self.out = self.out, Out()
        caught = []
        if n.handlers:
            self.trying.append(caught)
        live = self.block(n.body, states)
        if n.handlers:
            self.trying.pop()
            caught += [s for s, _, _ in self.out.rai]
            self.out.rai = []
        if n.orelse:
            live = self.block(n.orelse, live)
        caught = uniq(caught)
        for h in n.handlers:
            cs = [s.copy() for s in caught]
            if h.name:
                for s in cs:
                    s.env.pop(h.name, None)
            live = live + self.block(h.body, cs)
        o, self.out = self.out, outer
        if not n.finalbody:
            for k in ('ret', 'brk', 'cont', 'rai'):
                getattr(outer, k).extend(getattr(o, k))
            return live
        live = self.block(n.finalbody, live)
        for s, line, v in o.ret:
            for r in self.block(n.finalbody, [s]):
                outer.ret.append((r, line, v))
        for s, line, bare in o.rai:
            for r in self.block(n.finalbody, [s]):
                outer.rai.append((r, line, bare))
        outer.brk += self.block(n.finalbody, o.brk)
        outer.cont += self.block(n.finalbody, o.cont)
        return live

    s_TryStar = s_Try

    def s_Match(self, n, states):
        for s in states:
            self.ev(n.subject, s)
        res = list(states)
        for c in n.cases:
            res += self.block(c.body, [s.copy() for s in states])
        return res

    # -- expressions
    def unknown(self, s, v):
        for x in self.sites(v):
            if s.status.get(x) == 'open':
                s.status[x] = 'unknown'

    def close(self, s, v):
        for x in self.sites(v):
            if s.status.get(x) in ('open', 'unknown'):
                s.status[x] = 'closed'

    def ev(self, e, s):
        if e is None:
            return None
        f = getattr(self, 'e_' + type(e).__name__, None)
        if f is not None:
            return f(e, s)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, s)
        return None

    def e_Name(self, e, s):
        return s.env.get(e.id)

    def e_Constant(self, e, s):
        return ('none', frozenset()) if e.value is None else None

    def e_Lambda(self, e, s):
        for x in ast.walk(e):
            if isinstance(x, ast.Name) and s.env.get(x.id):
                self.unknown(s, s.env[x.id])

    def e_Attribute(self, e, s):
        k = dotted(e)
        if k and k in s.env:
            return s.env[k]
        self.ev(e.value, s)
        return None

    def e_Subscript(self, e, s):
        v = self.ev(e.value, s)
        self.ev(e.slice, s)
        if v and v[0] in ('box', 'tup'):
            return ('each', self.sites(v))
        return None

    def group(self, es, s):
        vs = [self.ev(x, s) for x in es]
        ss = frozenset().union(*[self.sites(v) for v in vs]) if vs else frozenset()
        return ('tup', ss, tuple(vs)) if ss else None

    def e_Tuple(self, e, s):
        return self.group(e.elts, s)

    e_List = e_Set = e_Tuple

    def e_Dict(self, e, s):
        for k in e.keys:
            self.ev(k, s)
        return self.group(e.values, s)

    def e_Starred(self, e, s):
        return self.ev(e.value, s)

    def e_NamedExpr(self, e, s):
        v = self.ev(e.value, s)
        self.bind(e.target, v, s, e)
        return v

    def e_IfExp(self, e, s):
        self.ev(e.test, s)
        a, b = self.ev(e.body, s), self.ev(e.orelse, s)
        if self.sites(a) or self.sites(b):
            return ('each', self.sites(a) | self.sites(b))
        return None

    def e_BoolOp(self, e, s):
        vs = [self.ev(x, s) for x in e.values]
        ss = frozenset().union(*[self.sites(v) for v in vs])
        return ('each', ss) if ss else None

    def e_BinOp(self, e, s):
        ss = self.sites(self.ev(e.left, s)) | self.sites(self.ev(e.right, s))
        return ('box', ss) if ss else None

    def comp(self, e, s, elts):
        saved = dict(s.env)
        for g in e.generators:
            v = self.ev(g.iter, s)
            if self.sites(v):
                self.each(g.target, g.iter, v, s, e)
            else:
                for x in ast.walk(g.target):
                    if isinstance(x, ast.Name):
                        s.env.pop(x.id, None)
            for c in g.ifs:
                self.ev(c, s)
        vs = [self.ev(x, s) for x in elts]
        s.env = saved
        ss = frozenset().union(*[self.sites(v) for v in vs])
        return ('box', ss) if ss else None

    def e_ListComp(self, e, s):
        return self.comp(e, s, [e.elt])

    e_SetComp = e_GeneratorExp = e_ListComp

    def e_DictComp(self, e, s):
        return self.comp(e, s, [e.key, e.value])

    def opened(self, e, s):
        site = (self.name, e.lineno, e.col_offset)
        if s.status.get(site) == 'open' and any(site in self.sites(v) and v[0] != 'box' for v in s.env.values()):
            pass
        s.status[site] = 'open'
        self.found.setdefault(site, set())
        self.an.opened.add((self.mod.dotted, e.lineno, e.col_offset))
        return ('h', site)

    def e_Call(self, e, s):
        fn = dotted(e.func)
        # a method of an opening
        if isinstance(e.func, ast.Attribute):
            recv = self.ev(e.func.value, s)
            if self.sites(recv):
                for a in e.args + [k.value for k in e.keywords]:
                    self.ev(a, s)
                if recv[0] in ('h', 'each'):
                    if e.func.attr in CLOSERS:
                        self.close(s, recv)
                    if e.func.attr == '__enter__':
                        return recv
                    return None
                if e.func.attr in ('values', 'items', 'copy', '__iter__'):
                    return ('box', self.sites(recv))
                if e.func.attr in ('pop', 'get', 'popitem', 'popleft', '__getitem__'):
                    return ('each', self.sites(recv))
        if self.an.is_opener(self, e):
            for a in e.args + [k.value for k in e.keywords]:
                self.unknown(s, self.ev(a, s))
            return self.opened(e, s)
        vals = [self.ev(a, s) for a in e.args]
        kws = [(k.arg, self.ev(k.value, s)) for k in e.keywords]
        if not isinstance(e.func, (ast.Name, ast.Attribute)):
            self.ev(e.func, s)
        held = [v for v in vals + [v for _, v in kws] if self.sites(v)]
        target = self.an.target(self, e.func)
        if target is not None:
            if held:
                for i, v in enumerate(vals):
                    if self.sites(v):
                        self.passed(target, i, None, v, s)
                for k, v in kws:
                    if self.sites(v):
                        self.passed(target, None, k, v, s)
            if self.an.returns(target):
                return self.opened(e, s)
            return None
        if not held:
            return None
        last = (fn or '').split('.')[-1]
        if isinstance(e.func, ast.Name) and last in NEUTRAL:
            return None
        ss = frozenset().union(*[self.sites(v) for v in held])
        if isinstance(e.func, ast.Name) and last in BOXING:
            return ('box', ss)
        if last == 'closing' or last == 'suppress':
            return held[0]
        if isinstance(e.func, ast.Attribute) and last in ('append', 'add', 'insert', 'extend', 'update', 'setdefault', 'appendleft'):
            k = dotted(e.func.value)
            if k:
                s.env[k] = ('box', ss | self.sites(s.env.get(k)))
                return None
        if last in ('map', 'filter'):
            self.unknown(s, ('box', ss))
            return None
        if isinstance(e.func, ast.Attribute) and last == 'enter_context':
            self.unknown(s, ('box', ss))
            return held[0]
        self.unknown(s, ('box', ss))
        return None

    def passed(self, target, i, kw, v, s):
        r = self.an.closes(target, i, kw)
        if r == 'closes':
            self.close(s, v)
        elif r == 'unknown':
            self.unknown(s, v)


class Nothing:
    """a scope in which nothing is opened"""
    found, leaks, returns = {}, {}, False


class Analysis:
    def __init__(self, pkg):
        self.pkg = pkg          # lint.Package
        self.scopes, self.summ, self.busy = {}, {}, set()
        self.opened = set()
        self.funcs = {}         # id(node) -> (mod, node, cls, qualname)
        self.classes = {}
        self.touch = None
        self.attr_closed = set()
        for m in pkg.mods.values():
            for st in ast.walk(m.tree):
                if isinstance(st, ast.ClassDef):
                    for x in st.body:
                        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                            self.funcs[id(x)] = (m, x, st, f'{m.dotted}.{st.name}.{x.name}')
                            self.classes.setdefault((m.dotted, st.name), {})[x.name] = id(x)
                if isinstance(st, ast.Call) and isinstance(st.func, ast.Attribute) and st.func.attr in CLOSERS and isinstance(st.func.value, ast.Attribute):
                    self.attr_closed.add(st.func.value.attr)
            for st in ast.walk(m.tree):
                if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    self.funcs.setdefault(id(st), (m, st, None, f'{m.dotted}.{st.name}'))

    def closed_somewhere(self, attr):
        return attr in self.attr_closed

    # -- names
    def resolve(self, m, name):
        """dotted origin of a dotted name used in module m"""
        head, _, rest = name.partition('.')
        imp = m.imports.get(head)
        if imp is None:
            return name
        base = imp[1] if imp[0] == 'mod' else imp[1] + '.' + imp[2]
        return base + ('.' + rest if rest else '')

    def is_opener(self, sc, e):
        fn = dotted(e.func)
        if isinstance(e.func, ast.Attribute) and e.func.attr == 'open' and (fn is None or self.local(sc, e.func)):
            v = e.func.value
            txt = ast.dump(v)
            return ("'Path'" in txt or 'PurePath' in txt) and not any(w in txt for w in MEMORY)
        if fn is None:
            return False
        head = fn.split('.')[0]
        if isinstance(e.func, ast.Name) and head in sc.mod.defs:
            return False
        r = self.resolve(sc.mod, self.local_import(sc, fn))
        if r not in OPENERS:
            return False
        if any(w in ast.dump(a) for a in e.args[:1] for w in MEMORY):
            return False
        if r.startswith('zipfile') and e.args and isinstance(e.args[0], ast.Name) and self.in_memory(sc, e.args[0].id):
            return False
        return True

    def in_memory(self, sc, name):
        return any(isinstance(n, (ast.Assign, ast.AnnAssign, ast.withitem)) and any(w in ast.dump(n) for w in MEMORY) and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n)) for n in ast.walk(sc.node))

    def local(self, sc, f):
        head = dotted(f).split('.')[0]
        return head not in sc.mod.imports and head not in sc.mod.defs

    def local_import(self, sc, fn):
        """imports inside the function and simple aliases of a name"""
        head, _, rest = fn.partition('.')
        for n in ast.walk(sc.node):
            if isinstance(n, ast.ImportFrom):
                for a in n.names:
                    if (a.asname or a.name) == head:
                        return '.'.join(x for x in (self.pkg.base(sc.mod, n), a.name, rest) if x)
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname == head:
                        return '.'.join(x for x in (a.name, rest) if x)
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id == head and isinstance(n.value, (ast.Name, ast.Attribute)):
                d = dotted(n.value)
                if d and d.split('.')[0] != head:
                    return '.'.join(x for x in (d, rest) if x)
        return fn

    def target(self, sc, f):
        """the package function called, when known"""
        d = dotted(f)
        if d is None:
            return None
        parts = d.split('.')
        if parts[0] in ('self', 'cls') and sc.cls is not None and len(parts) == 2:
            return self.member(sc.mod, sc.cls, parts[1])
        r = self.resolve(sc.mod, d)
        return self.find(sc.mod, r)

    def member(self, m, cls, name, depth=0):
        t = self.classes.get((m.dotted, cls.name), {}).get(name)
        if t is not None or depth > 5:
            return t
        for b in cls.bases:
            d = dotted(b)
            if d:
                r = self.cls(m, self.resolve(m, d))
                if r:
                    t = self.member(r[0], r[1], name, depth + 1)
                    if t is not None:
                        return t
        return None

    def cls(self, m, r):
        mod, _, name = r.rpartition('.')
        m2 = self.pkg.mods.get(mod) if mod else m
        for x in (m2.defs.get(name, []) if m2 else []):
            if isinstance(x, ast.ClassDef):
                return m2, x

    def find(self, m, r):
        if '.' not in r:
            for x in m.defs.get(r, []):
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    return id(x)
                if isinstance(x, ast.ClassDef):
                    return None
            return None
        head, _, name = r.rpartition('.')
        if head in self.pkg.mods:
            return self.find(self.pkg.mods[head], name)
        c = self.cls(m, head)
        if c:
            return self.member(c[0], c[1], name)
        return None

    # -- summaries
    def scope(self, fid, param=None):
        k = (fid, param)
        if k in self.scopes:
            return self.scopes[k]
        if k in self.busy:
            return None
        self.busy.add(k)
        m, node, cls, name = self.funcs[fid]
        self.scopes[k] = self.run(m, node, cls, name, param)
        self.busy.discard(k)
        return self.scopes[k]

    def touching(self):
        """scopes that open something or call a package function that does"""
        if self.touch is None:
            class Bare:
                pass
            direct, uses = set(), {}
            scopes = [(id(m.tree), m, m.tree, None) for m in self.pkg.mods.values()] + [(k, m, n, c) for k, (m, n, c, _) in self.funcs.items()]
            for k, m, n, c in scopes:
                b = Bare()
                b.mod, b.node, b.cls = m, n, c
                uses[k] = set()
                for x in ast.walk(n):
                    if isinstance(x, ast.Call):
                        if self.is_opener(b, x):
                            direct.add(k)
                        t = self.target(b, x.func)
                        if t is not None:
                            uses[k].add(t)
            new = True
            while new:
                new = {k for k in uses if k not in direct and uses[k] & direct}
                direct |= new
            self.touch = direct
        return self.touch

    def run(self, m, node, cls, name, param=None):
        if param is None and id(node) not in self.touching():
            return Nothing
        try:
            return self.finish(Scope(self, m, node, cls, name, param))
        except (Too, RecursionError):
            return None

    def finish(self, sc):
        for s, line, v in sc.out.ret:
            sc.leave(s, line, f'the return in line {line}', v)
        for s, line, bare in sc.out.rai:
            if not bare:
                sc.leave(s, line, f'the error raised in line {line}')
        return sc

    def returns(self, fid):
        m, node, cls, name = self.funcs[fid]
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(node)):
            return False
        sc = self.scope(fid)
        return bool(sc and sc.returns)

    def closes(self, fid, i, kw):
        m, node, cls, name = self.funcs[fid]
        a = node.args.posonlyargs + node.args.args
        names = [x.arg for x in a]
        static = any(dotted(d) == 'staticmethod' for d in node.decorator_list)
        if i is not None:
            j = i + (1 if cls is not None and not static else 0)
            if j >= len(names):
                return 'unknown'
            p = names[j]
        else:
            p = kw
            if p not in names + [x.arg for x in node.args.kwonlyargs]:
                return 'unknown'
        sc = self.scope(fid, p)
        if sc is None:
            return 'unknown'
        got = sc.found.get(('param', p), set()) or {'open'}
        if got == {'closed'}:
            return 'closes'
        if got <= {'open'}:
            return 'keeps'
        return 'unknown'

    def all(self):
        """[(scope name, module, scope or None)] of every function and module body"""
        out = []
        for m in self.pkg.mods.values():
            out.append((m.dotted, m, self.run(m, m.tree, None, m.dotted)))
        for fid, (m, node, cls, name) in self.funcs.items():
            out.append((name, m, self.scope(fid)))
        return out

"""Name, attribute and call resolution over every function of the package, from the syntax trees alone."""
import ast
import builtins
import importlib
import importlib.util
import os
import symtable
import sys

OBJ = set(dir(object)) | {'__dict__', '__name__', '__qualname__', '__module__', '__annotations__', '__mro__', '__bases__', '__subclasses__', '__wrapped__'}
MODATTR = {'__name__', '__file__', '__doc__', '__path__', '__package__', '__spec__', '__loader__', '__builtins__', '__dict__', '__all__', '__version__'}


class Module:
    def __init__(self, dotted, path, pkg):
        self.dotted, self.path, self.pkg = dotted, path, pkg
        src = open(path, encoding='utf-8').read()
        self.tree = ast.parse(src)
        self.table = symtable.symtable(src, path, 'exec')
        self.names, self.star, self.imports, self.defs = set(), False, {}, {}
        self.dynamic = '__getattr__' in {n.name for n in self.tree.body if isinstance(n, ast.FunctionDef)} or any(isinstance(n, ast.Name) and n.id in ('globals', 'exec', 'vars') for n in ast.walk(self.tree))


class Package:
    def __init__(self, root, name='pyrtlib'):
        self.root, self.name, self.mods = root, name, {}
        base = os.path.join(root, name)
        for d, ds, fs in os.walk(base):
            ds[:] = sorted(x for x in ds if x not in ('tests', '__pycache__'))
            for f in sorted(fs):
                if f.endswith('.py'):
                    rel = os.path.relpath(os.path.join(d, f), root)[:-3].replace(os.sep, '.')
                    pkg = rel.rsplit('.', 1)[0]
                    if rel.endswith('.__init__'):
                        rel = pkg = rel[:-9]
                    self.mods[rel] = Module(rel, os.path.join(d, f), pkg)
        for m in self.mods.values():
            self.scan(m)

    # ------------------------------------------------------------ what a module defines
    def scan(self, m):
        glob = set()
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                glob |= set(n.names)
        m.names |= {s.get_name() for s in m.table.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()} | glob
        for st in self.flat(m.tree.body):
            if isinstance(st, ast.Import):
                for a in st.names:
                    m.imports[a.asname or a.name.split('.')[0]] = ('mod', a.name if a.asname else a.name.split('.')[0])
            elif isinstance(st, ast.ImportFrom):
                b = self.base(m, st)
                for a in st.names:
                    if a.name == '*':
                        m.star = True
                    else:
                        m.imports[a.asname or a.name] = ('from', b, a.name)
            elif isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                m.defs.setdefault(st.name, []).append(st)
        assigned = {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                assigned[n.id] = 1
        m.assigned = assigned

    def base(self, m, st):
        if not st.level:
            return st.module or ''
        p = m.pkg.split('.')
        p = p[:len(p) - (st.level - 1)]
        return '.'.join(p + ([st.module] if st.module else []))

    def flat(self, body):
        for st in body:
            yield st
            for f in ('body', 'orelse', 'finalbody'):
                if isinstance(st, (ast.If, ast.Try, ast.With, ast.For, ast.While)) and hasattr(st, f):
                    yield from self.flat(getattr(st, f))
            if isinstance(st, ast.Try):
                for h in st.handlers:
                    yield from self.flat(h.body)

    def exports(self, dotted, name):
        """does module dotted have attribute name? None = unknown"""
        m = self.mods[dotted]
        if name in m.names or name in MODATTR or f'{dotted}.{name}' in self.mods:
            return True
        return None if m.star or m.dynamic else False

    # ------------------------------------------------------------ resolution of a name to a definition
    def resolve(self, m, name, depth=0):
        """('mod', dotted) | ('def', module, node) | ('ext', dotted) | None"""
        if depth > 8:
            return None
        if name in m.defs and name not in m.imports and name not in m.assigned:
            return ('def', m, m.defs[name][0]) if len(m.defs[name]) == 1 else None
        if name in m.imports and name not in m.defs and name not in m.assigned:
            k = m.imports[name]
            if k[0] == 'mod':
                return ('mod', k[1])
            if k[1] in self.mods:
                if k[2] in self.mods[k[1]].names and k[2] not in self.mods[k[1]].imports or k[2] in self.mods[k[1]].imports:
                    return self.resolve(self.mods[k[1]], k[2], depth + 1)
                if f'{k[1]}.{k[2]}' in self.mods:
                    return ('mod', f'{k[1]}.{k[2]}')
                return None
            return ('ext', f'{k[1]}.{k[2]}')
        return None

    def chain(self, m, e, shadow):
        """resolution of a dotted expression"""
        if isinstance(e, ast.Name):
            return None if e.id in shadow else self.resolve(m, e.id)
        if isinstance(e, ast.Attribute):
            b = self.chain(m, e.value, shadow)
            if b and b[0] == 'mod' and b[1] in self.mods:
                if f'{b[1]}.{e.attr}' in self.mods:
                    return ('mod', f'{b[1]}.{e.attr}')
                return self.resolve(self.mods[b[1]], e.attr)
            if b and b[0] == 'def' and isinstance(b[2], ast.ClassDef):
                r = self.member(b[1], b[2], e.attr)
                return ('member', *r) if r else None
            if b and b[0] in ('mod', 'ext'):
                return ('ext', f'{b[1]}.{e.attr}')
        return None

    # ------------------------------------------------------------ classes
    def bases(self, m, c):
        """resolved bases; None where one is outside the package"""
        out = []
        for b in c.bases:
            if isinstance(b, ast.Name) and b.id == 'object':
                continue
            r = self.chain(m, b, ())
            if not r or r[0] != 'def' or not isinstance(r[2], ast.ClassDef):
                return None
            out.append((r[1], r[2]))
        if c.keywords:
            return None
        return out

    def lineage(self, m, c, seen=()):
        if c in seen:
            return None
        bs = self.bases(m, c)
        if bs is None:
            return None
        out = [(m, c)]
        for bm, b in bs:
            l = self.lineage(bm, b, (*seen, c))
            if l is None:
                return None
            out += l
        return out

    def member(self, m, c, name):
        for mm, k in self.lineage(m, c) or []:
            hit = [x for x in k.body if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) and x.name == name]
            if hit:
                return (mm, k, hit[0]) if len(hit) == 1 and not any(isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets) for n in k.body) else None
        return None

    def attributes(self, m, c):
        """every attribute name the class or its instances can have, or None"""
        line = self.lineage(m, c)
        if line is None:
            return None
        out = set(OBJ)
        for mm, k in line:
            if any(d for d in k.decorator_list if not (isinstance(d, ast.Name) and d.id == 'dataclass' or isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == 'dataclass')):
                return None
            for st in self.flat(k.body):
                if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    if st.name in ('__getattr__', '__getattribute__'):
                        return None
                    out.add(st.name)
                else:
                    out |= {n.id for n in ast.walk(st) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
                    out |= {(a.asname or a.name).split('.')[0] for n in ast.walk(st) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
        # anything stored as an attribute anywhere in the package may be an attribute of this class
        return out | self.stored

    @property
    def stored(self):
        if not hasattr(self, '_stored'):
            s = set()
            for m in self.mods.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        s.add(n.attr)
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) == 3:
                        if isinstance(n.args[1], ast.Constant):
                            s.add(n.args[1].value)
                        else:
                            self.opaque_setattr = True
            self._stored = s
        return self._stored

    # ------------------------------------------------------------ the rules
    def run(self):
        """(rule, construct, ok, where, detail)"""
        for m in self.mods.values():
            yield from self.names(m)
            yield from self.import_names(m)
            yield from self.attrs(m)
            yield from self.calls(m)

    def names(self, m):
        """every global name a scope reads is defined somewhere at module level or is a builtin"""
        lines = {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                lines.setdefault(n.id, n.lineno)

        def scopes(t, q):
            yield t, q
            for c in t.get_children():
                yield from scopes(c, f'{q}.{c.get_name()}')
        for t, q in scopes(m.table, m.dotted):
            n = 0
            for s in t.get_symbols():
                nm = s.get_name()
                if not s.is_referenced() or not (s.is_global() or t.get_type() == 'module'):
                    continue
                n += 1
                if nm in m.names or hasattr(builtins, nm) or nm in MODATTR or m.star or m.dynamic:
                    continue
                if nm.startswith('.') or nm in ('__class__', '__debug__'):
                    continue
                yield 'name', f'{q}:{nm}', False, f'{m.path}:{lines.get(nm, "?")}', f'name {nm} is defined nowhere'
            yield 'name', q, True, '', f'{n} names'

    def import_names(self, m):
        tries = self.guarded(m.tree)
        for st in ast.walk(m.tree):
            if isinstance(st, ast.ImportFrom):
                b = self.base(m, st)
                if b.split('.')[0] != self.name:
                    for a in st.names if id(st) not in tries else ():
                        ok = external(b, a.name)
                        if ok is not None:
                            yield 'import', f'{m.dotted}:{b}.{a.name}', ok, f'{m.path}:{st.lineno}', f'module {b} has no {a.name}'
                    continue
                if b not in self.mods:
                    yield 'import', f'{m.dotted}:{b}', False, f'{m.path}:{st.lineno}', f'no module {b}'
                    continue
                for a in st.names:
                    if a.name == '*':
                        continue
                    ok = self.exports(b, a.name)
                    if ok is not None:
                        yield 'import', f'{m.dotted}:{b}.{a.name}', ok, f'{m.path}:{st.lineno}', f'module {b} has no {a.name}'
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.name.split('.')[0] == self.name:
                        yield 'import', f'{m.dotted}:{a.name}', a.name in self.mods, f'{m.path}:{st.lineno}', f'no module {a.name}'

    def dead(self, fn):
        """a private function nothing in the package mentions"""
        if not hasattr(self, 'mentioned'):
            self.mentioned = {n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else str(n.value)
                              for m in self.mods.values() for n in ast.walk(m.tree) if isinstance(n, (ast.Attribute, ast.Name)) or isinstance(n, ast.Constant) and isinstance(n.value, str)}
        return fn.name.startswith('_') and not fn.name.startswith('__') and fn.name not in self.mentioned

    def functions(self, m):
        """(function, class or None, names bound in enclosing function scopes)"""
        def go(body, cls, shadow):
            for st in body:
                if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    sh = shadow | bound(st)
                    yield st, cls, sh
                    yield from go(st.body, None, sh)
                elif isinstance(st, ast.ClassDef):
                    yield from go(st.body, st, shadow)
                else:
                    for f in ('body', 'orelse', 'finalbody'):
                        yield from go(getattr(st, f, []) or [], cls, shadow)
                    for h in getattr(st, 'handlers', []):
                        yield from go(h.body, cls, shadow)
        yield from go(m.tree.body, None, frozenset())

    def own_nodes(self, fn):
        """nodes of a function without those of nested functions"""
        todo = list(fn.body)
        while todo:
            n = todo.pop()
            yield n
            for c in ast.iter_child_nodes(n):
                if not isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    todo.append(c)

    def guarded(self, fn):
        """nodes inside a try that catches attribute or name errors, or behind hasattr"""
        out = set()
        for n in ast.walk(fn):
            if isinstance(n, ast.Try) and n.handlers:
                for st in n.body:
                    out |= {id(x) for x in ast.walk(st)}
            if isinstance(n, (ast.If, ast.IfExp)) and any(isinstance(x, ast.Name) and x.id in ('hasattr', 'getattr') for x in ast.walk(n.test)):
                out |= {id(x) for x in ast.walk(n)}
        return out

    def attrs(self, m):
        tries = self.guarded(m.tree)
        cache = {}
        for fn, cls, shadow in self.functions(m):
            if self.dead(fn):
                continue
            selfname = None
            if cls is not None and fn.args.args and not any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in fn.decorator_list):
                selfname = fn.args.args[0].arg
                if any(isinstance(x, ast.Name) and x.id == selfname and isinstance(x.ctx, ast.Store) for x in ast.walk(fn)):
                    selfname = None
            n = 0
            for e in self.own_nodes(fn):
                if not isinstance(e, ast.Attribute) or not isinstance(e.ctx, ast.Load) or id(e) in tries:
                    continue
                ok = None
                if isinstance(e.value, ast.Name) and e.value.id == selfname:
                    if cls not in cache:
                        cache[cls] = self.attributes(m, cls)
                    if cache[cls] is not None and not getattr(self, 'opaque_setattr', False) or cache[cls] is not None and e.attr in cache[cls]:
                        ok, what = e.attr in cache[cls], f'class {cls.name}'
                else:
                    r = self.chain(m, e.value, shadow)
                    if r and r[0] == 'mod' and r[1] in self.mods:
                        ok, what = self.exports(r[1], e.attr), f'module {r[1]}'
                    elif r and r[0] == 'mod':
                        ok, what = external(r[1], e.attr), f'module {r[1]}'
                    elif r and r[0] == 'def' and isinstance(r[2], ast.ClassDef):
                        if (r[1], r[2]) not in cache:
                            cache[r[1], r[2]] = self.attributes(r[1], r[2])
                        c = cache[r[1], r[2]]
                        if c is not None:
                            ok, what = e.attr in c, f'class {r[2].name}'
                if ok is None:
                    continue
                n += 1
                if not ok:
                    yield 'attribute', f'{m.dotted}.{fn.name}:{ast.unparse(e)}', False, f'{m.path}:{e.lineno}', f'{what} has no attribute {e.attr}'
            yield 'attribute', f'{m.dotted}.{(cls.name + ".") if cls else ""}{fn.name}', True, '', f'{n} attributes'

    def calls(self, m):
        for fn, cls, shadow in self.functions(m):
            if self.dead(fn):
                continue
            n = 0
            for e in self.own_nodes(fn):
                if not isinstance(e, ast.Call):
                    continue
                t = self.target(m, e.func, cls, fn, shadow)
                if t is None:
                    continue
                n += 1
                err = mismatch(t[0], t[1], e)
                if err:
                    yield 'call', f'{m.dotted}.{fn.name}:{ast.unparse(e.func)}', False, f'{m.path}:{e.lineno}', err
            yield 'call', f'{m.dotted}.{(cls.name + ".") if cls else ""}{fn.name}', True, '', f'{n} calls'

    def target(self, m, f, cls, fn, shadow):
        """(function node, number of implicit arguments)"""
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and cls is not None and fn.args.args and f.value.id == fn.args.args[0].arg and not kind(fn) == 'static':
            if any(isinstance(x, ast.Name) and x.id == f.value.id and isinstance(x.ctx, ast.Store) for x in ast.walk(fn)) or f.attr in self.stored:
                return None
            # a subclass may override
            if any(c is not cls and (mm, cls) in (self.lineage(m2, c) or []) for m2 in self.mods.values() for c in ast.walk(m2.tree) if isinstance(c, ast.ClassDef) for mm in (m,)):
                return None
            r = self.member(m, cls, f.attr)
            if not r:
                return None
            k = kind(r[2])
            if k is None or k == 'func' and kind(fn) == 'classm':
                return None
            return r[2], 0 if k == 'static' else 1
        r = self.chain(m, f, shadow)
        if not r:
            return None
        if r[0] == 'def' and isinstance(r[2], (ast.FunctionDef, ast.AsyncFunctionDef)):
            return (r[2], 0) if kind(r[2]) == 'func' else None
        if r[0] == 'member':
            k = kind(r[3])
            if k is None or r[3].name in self.stored:
                return None
            return r[3], 1 if k == 'classm' else 0
        if r[0] == 'def' and isinstance(r[2], ast.ClassDef):
            if r[2].decorator_list or self.lineage(r[1], r[2]) is None or self.member(r[1], r[2], '__new__'):
                return None
            i = self.member(r[1], r[2], '__init__')
            return (i[2], 1) if i and kind(i[2]) == 'func' else None
        return None


def kind(fn):
    ds = fn.decorator_list
    if not ds:
        return 'func'
    if len(ds) == 1 and isinstance(ds[0], ast.Name):
        return {'staticmethod': 'static', 'classmethod': 'classm'}.get(ds[0].id)
    return None


def mismatch(fn, implicit, e):
    a = fn.args
    pos = [x.arg for x in a.posonlyargs + a.args][implicit:]
    if any(isinstance(x, ast.Starred) for x in e.args) or any(k.arg is None for k in e.keywords):
        return None
    if len(e.args) > len(pos) and not a.vararg:
        return f'{fn.name} takes {len(pos)} positional arguments, {len(e.args)} given'
    got = set(pos[:len(e.args)])
    names = set(pos) - {x.arg for x in a.posonlyargs} | {x.arg for x in a.kwonlyargs}
    for k in e.keywords:
        if k.arg in got:
            return f'{fn.name} got {k.arg} twice'
        if k.arg not in names and not a.kwarg:
            return f'{fn.name} has no parameter {k.arg}'
        got.add(k.arg)
    need = pos[:len(pos) - len(a.defaults)] if a.defaults else pos
    need = need + [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    miss = [x for x in need if x not in got]
    return f'{fn.name} needs {", ".join(miss)}' if miss else None


def bound(fn):
    a = fn.args
    out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
    g = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(x.asname or x.name).split('.')[0] for x in n.names}
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not fn:
            out.add(n.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.Global):
            g |= set(n.names)
    return frozenset(out - g)


EXTERNAL = {}


def external(mod, name):
    """does this installed module have this name? Standard library: asked; others: their source or stub is read. None = not known"""
    if mod not in EXTERNAL:
        EXTERNAL[mod] = None
        try:
            EXTERNAL[mod] = collect(mod)
        except Exception:
            pass
    names = EXTERNAL[mod]
    if names is None or name.startswith('__'):
        return None
    return True if name in names else None if '*' in names else False


def collect(mod):
    top = mod.split('.')[0]
    if top in sys.stdlib_module_names:
        return set(dir(importlib.import_module(mod)))
    d = os.path.dirname(importlib.util.find_spec(top).origin)
    d = os.path.join(d, *mod.split('.')[1:])
    names = set()
    if os.path.isdir(d):
        names |= {f.split('.')[0] for f in os.listdir(d)}
        files = [os.path.join(d, '__init__.pyi'), os.path.join(d, '__init__.py')]
    else:
        files = [d + '.pyi', d + '.py']
    f = next(x for x in files if os.path.isfile(x))
    for n in ast.walk(ast.parse(open(f, encoding='utf-8').read())):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            names.add('*' if n.name == '__getattr__' else n.name)
        elif isinstance(n, ast.alias):
            names.add((n.asname or n.name).split('.')[0])
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            names.add(n.id)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('globals', 'exec'):
            names.add('*')
    return names

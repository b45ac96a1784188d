"""Abstract interpreter: from /repo's current Python sources to a gated value graph plus logs.

Nothing of the analysed package is imported or run.  Conditions that are constant under the chosen
configuration prune branches; all others are analysed on both sides and merged with gates.
"""
import ast
import os
import sys
from fractions import Fraction
from . import term as tm
from .term import T, mk, num, const, NONE, TRUE, FALSE, ZERO, ONE, Loop, FULL

sys.setrecursionlimit(20000)
REPO = os.environ.get('VERIF_REPO', '/repo')
UNROLL = 16


class Broken(Exception):
    """The analysis lost an anchor it needs."""


class PathDead(Exception):
    pass


class Budget(Exception):
    pass


# ------------------------------------------------------------------ values
class Ref:
    __slots__ = ('oid',)

    def __init__(self, oid):
        self.oid = oid

    def __eq__(self, o):
        return isinstance(o, Ref) and o.oid == self.oid

    def __hash__(self):
        return hash(('ref', self.oid))

    def __repr__(self):
        return f'&{self.oid}'


class Tup:
    __slots__ = ('items', 'names')

    def __init__(self, items, names=None):
        self.items = tuple(items)
        self.names = names

    def __repr__(self):
        return 'Tup' + repr(self.items)


class PhiV:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return f'PhiV({self.c},{self.a},{self.b})'


class Func:
    __slots__ = ('node', 'mod', 'cls', 'name', 'defaults', 'fid', 'kind')

    def __init__(self, node, mod, name, defaults, cls=None, fid=None, kind='func'):
        self.node, self.mod, self.name, self.defaults, self.cls, self.fid, self.kind = node, mod, name, defaults, cls, fid, kind

    def __repr__(self):
        return f'<{self.name}>'


class Bound:
    __slots__ = ('f', 'self')

    def __init__(self, f, s):
        self.f, self.self = f, s

    def __repr__(self):
        return f'<bound {self.f}>'


class Method:
    """builtin method of an abstract container / opaque value"""
    __slots__ = ('obj', 'name')

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Prop:
    __slots__ = ('fget', 'fset')

    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class Ext:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'ext:{self.name}'

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Partial:
    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw


class _Unb:
    def __repr__(self):
        return 'UNBOUND'


UNB = _Unb()

BUILTINS = {'len', 'range', 'enumerate', 'zip', 'min', 'max', 'abs', 'all', 'any', 'sum', 'list', 'tuple', 'dict', 'set', 'str',
            'int', 'float', 'bool', 'complex', 'isinstance', 'getattr', 'setattr', 'hasattr', 'print', 'sorted', 'reversed',
            'round', 'type', 'super', 'map', 'filter', 'open', 'object', 'ValueError', 'KeyError', 'TypeError', 'Exception',
            'RuntimeError', 'SystemExit', 'NotImplementedError', 'AttributeError', 'IndexError', 'ImportError', 'property',
            'staticmethod', 'classmethod', 'callable', 'iter', 'next', 'repr', 'id', 'hash', 'vars', 'dir', 'slice', 'pow', 'divmod',
            'OSError', 'IOError', 'FileNotFoundError', 'StopIteration', 'AssertionError', 'UnboundLocalError', 'NameError', 'format', 'bytes', 'frozenset',
            'LookupError', 'ArithmeticError', 'ZeroDivisionError', 'Warning', 'UserWarning', 'DeprecationWarning', 'BaseException', 'locals', 'globals',
            '__import__', 'chr', 'ord', 'input', 'issubclass', 'NotImplemented', 'Ellipsis', 'ModuleNotFoundError', 'RuntimeWarning', 'FutureWarning', 'UnicodeDecodeError', 'EOFError', 'KeyboardInterrupt', 'TimeoutError', 'ConnectionError', 'bytearray', 'memoryview', 'eval', 'exec'}

PKG = 'pyrtlib'
DECIDED_EXC = {'KeyError', 'IndexError', 'AttributeError', 'ImportError', 'ModuleNotFoundError', 'NameError', 'UnboundLocalError'}
EXC_PARENTS = {'KeyError': ['LookupError', 'Exception'], 'IndexError': ['LookupError', 'Exception'], 'FileNotFoundError': ['OSError', 'Exception'],
               'IOError': ['OSError', 'Exception'], 'UnboundLocalError': ['NameError', 'Exception'], 'ModuleNotFoundError': ['ImportError', 'Exception'],
               'SystemExit': ['BaseException'], 'HTTPError': ['RequestException', 'OSError', 'Exception']}


class Event:
    __slots__ = ('kind', 'data', 'node', 'func', 'pc', 'stack', 'mod')

    def __init__(self, kind, data, node, func, pc, stack, mod):
        self.kind, self.data, self.node, self.func, self.pc, self.stack, self.mod = kind, data, node, func, pc, stack, mod

    @property
    def where(self):
        return f"{self.mod}:{getattr(self.node, 'lineno', '?')} in {self.func}"

    def __repr__(self):
        return f'{self.kind}@{self.where}: {self.data}'


class State:
    __slots__ = ('m', 'pc')

    def __init__(self, m, pc):
        self.m, self.pc = m, pc

    def copy(self):
        return State(dict(self.m), self.pc)


class Exit:
    __slots__ = ('pc', 'val', 'st', 'node')

    def __init__(self, pc, val, st, node):
        self.pc, self.val, self.st, self.node = pc, val, st, node


class Frame:
    __slots__ = ('fid', 'func', 'mod', 'cls', 'returns', 'loops', 'pc0', 'globals_', 'selfv', 'parents', 'yields')

    def __init__(self, fid, func, mod, cls, pc0):
        self.fid, self.func, self.mod, self.cls, self.pc0 = fid, func, mod, cls, pc0
        self.returns, self.loops, self.globals_, self.selfv, self.parents = [], [], set(), None, ()
        self.yields = None


class LoopCtx:
    def __init__(self, pc0):
        self.breaks, self.continues, self.returns, self.pc0 = [], [], [], pc0


def conj(pcs):
    c = TRUE
    for t, b in pcs:
        c = tm.land(c, t if b else tm.lnot(t))
    return c


class Source:
    """Parsed files of the repository (and of the reference specs)."""
    cache = {}

    @classmethod
    def get(cls, path):
        if path not in cls.cache:
            with open(path, encoding='utf-8') as f:
                src = f.read()
            tree = ast.parse(src, path)
            cls.cache[path] = tree
        return cls.cache[path]


class Interp:
    def __init__(self, repo=None, budget=4000000):
        self.unroll, self.rows = UNROLL, None
        self.repo = repo or REPO
        self.m = None
        self.st = State({}, ())
        self.meta = {}
        self.noid = 0
        self.nfid = 0
        self.events = []
        self.raises = []
        self.stack = []
        self.frames = []
        self.modules = {}       # dotted name -> Ref
        self.reads = []         # (oid, attr) log when watch enabled
        self.try_depth = 0
        self.budget = budget
        self.steps = 0
        self.exact = False      # the scenario models every external operation that can fail
        self.hooks = {}         # ext name -> callable(interp, args, kw, node) -> value or None
        self.func_hooks = {}    # qualified repo function name -> callable
        self.quiet = 0
        self.ncmeta = NCSchema()
        self.deftag = 'default'
        self.analysed = set()   # qualified function names interpreted
        self.opaque_calls = {}
        self.spec_paths = {}
        self._closure_used = {}
        self._locals = {}

    # -------------------------------------------------------------- infra
    listener = None

    def log(self, kind, data, node=None):
        fr = self.frames[-1] if self.frames else None
        e = Event(kind, data, node, fr.func if fr else '<module>', self.st.pc, tuple(self.stack), fr.mod if fr else '?')
        self.events.append(e)
        if Interp.listener is not None:
            Interp.listener(self, e)

    def new(self, kind, roots=frozenset(), **kw):
        self.noid += 1
        oid = self.noid
        d = dict(kind=kind, roots=roots, **kw)
        self.meta[oid] = d
        return Ref(oid)

    def new_arr(self, content, roots=frozenset(), **kw):
        r = self.new('arr', roots, **kw)
        self.st.m[('a', r.oid)] = content
        return r

    def new_list(self, items, kind='list'):
        r = self.new(kind)
        self.st.m[('l', r.oid)] = tuple(items)
        return r

    def new_dict(self, pairs=()):
        r = self.new('dict')
        ks = []
        for k, v in pairs:
            self.st.m[('d', r.oid, k)] = v
            if k not in ks:
                ks.append(k)
        self.st.m[('dk', r.oid)] = tuple(ks)
        return r

    def new_sym(self, path, roots, rank=None, shape=None):
        """a value supplied from outside; materialised lazily and deterministically."""
        oid = ('S', path)
        if oid not in self.meta:
            info = {'shape': shape} if shape else None
            self.meta[oid] = dict(kind='sym', roots=roots, path=path, term=tm.sym(path, rank=rank, info=info), rank=rank)
        return Ref(oid)

    def kind(self, v):
        return self.meta[v.oid]['kind'] if isinstance(v, Ref) else None

    def roots(self, v):
        if isinstance(v, Ref):
            return self.meta[v.oid]['roots']
        if isinstance(v, PhiV):
            return self.roots(v.a) | self.roots(v.b)
        return frozenset()

    def tick(self):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget('step budget exceeded')

    # content of an array-like reference
    def content(self, r):
        md = self.meta[r.oid]
        k = md['kind']
        if k == 'view':
            base = self.content(md['base'])
            if md['sel'] is None:
                return base if md.get('wrap') is None else mk('call', md['wrap'], base, rank=base.rank)
            return tm.idx(base, md['sel'])
        if k == 'arr':
            return self.st.m[('a', r.oid)]
        if k == 'sym':
            return self.st.m.get(('a', r.oid), md['term'])
        return self.to_t(r)

    def set_content(self, r, t):
        md = self.meta[r.oid]
        if md['kind'] == 'view':
            b = md['base']
            if md['sel'] is None:
                self.set_content(b, t if md.get('wrap') is None else mk('call', md['wrap'], t, rank=t.rank))
            else:
                self.set_content(b, tm.store(self.content(b), md['sel'], t))
            return
        self.st.m[('a', r.oid)] = t

    def is_arr(self, v):
        return isinstance(v, Ref) and self.meta[v.oid]['kind'] in ('arr', 'view', 'sym')

    def to_t(self, v):
        if isinstance(v, T):
            return self.refine(v)
        if isinstance(v, Ref):
            k = self.meta[v.oid]['kind']
            if k in ('arr', 'view', 'sym'):
                return self.content(v)
            if k in ('list', 'set'):
                it = self.st.m[('l', v.oid)]
                if isinstance(it, tuple):
                    ts = [self.to_t(x) for x in it]
                    rk = None
                    if ts and all(t.rank == 0 for t in ts):
                        rk = 1
                    return mk('list', *ts, rank=rk)
                return it
            if k == 'dict':
                ks = self.st.m.get(('dk', v.oid))
                if ks is None:
                    return mk('opaque', 'dict', v.oid)
                return mk('dict', *[mk('pair', self.to_t(kk) if not isinstance(kk, T) else kk, self.to_t(self.st.m[('d', v.oid, kk)])) for kk in ks])
            if k == 'module':
                return mk('module', self.meta[v.oid]['name'])
            if k == 'class':
                return mk('class', self.meta[v.oid]['name'])
            return mk('obj', str(v.oid))
        if isinstance(v, Tup):
            return mk('tup', *[self.to_t(x) for x in v.items])
        if isinstance(v, PhiV):
            a = self.to_t(v.a) if v.a is not UNB else mk('unbound')
            b = self.to_t(v.b) if v.b is not UNB else mk('unbound')
            return tm.phi(v.c, a, b)
        if isinstance(v, Func):
            return mk('func', f'{v.mod}.{v.name}')
        if isinstance(v, Bound):
            return mk('bound', self.to_t(v.f), self.to_t(v.self))
        if isinstance(v, Ext):
            return mk('ext', v.name)
        if isinstance(v, Method):
            return mk('method', self.to_t(v.obj), v.name)
        if v is UNB:
            return mk('unbound')
        return mk('value', repr(type(v)))

    def refine(self, t, depth=0):
        if depth > 30 or not self.st.pc:
            return t
        if t.op == 'phi':
            b = self.known(t.args[0])
            if b is True:
                return self.refine(t.args[1], depth + 1)
            if b is False:
                return self.refine(t.args[2], depth + 1)
        return t

    def known(self, c):
        if c.op == 'const':
            return bool(tm.cval(c))
        for t, b in self.st.pc:
            if t is c:
                return b
            if t.op == 'not' and t.args[0] is c:
                return not b
            if b and t.op == 'and' and (t.args[0] is c or t.args[1] is c):
                return True
            if not b and t.op == 'or' and (t.args[0] is c or t.args[1] is c):
                return False
        if c.op == 'not':
            k = self.known(c.args[0])
            return None if k is None else not k
        if c.op == 'and':
            a, b = self.known(c.args[0]), self.known(c.args[1])
            if a is False or b is False:
                return False
            if a and b:
                return True
        if c.op == 'or':
            a, b = self.known(c.args[0]), self.known(c.args[1])
            if a or b:
                return True
            if a is False and b is False:
                return False
        if c.op == 'eq' and tm.isconst(c.args[1]) and not tm.isnum(c.args[1]):
            # x == 'a' known true excludes x == 'b'
            for t, b in self.st.pc:
                if b and t.op == 'eq' and t.args[0] is c.args[0] and tm.isconst(t.args[1]):
                    return tm.cval(t.args[1]) == tm.cval(c.args[1])
        return None

    def assume(self, st, c, b):
        if c.op == 'not':
            return self.assume(st, c.args[0], not b)
        if c.op == 'and' and b:
            self.assume(st, c.args[0], True)
            self.assume(st, c.args[1], True)
            return
        if c.op == 'or' and not b:
            self.assume(st, c.args[0], False)
            self.assume(st, c.args[1], False)
            return
        st.pc = st.pc + ((c, b),)

    # -------------------------------------------------------------- merging
    def merge_val(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, T) and isinstance(b, T):
            return tm.phi(c, a, b)
        if isinstance(a, Ref) and isinstance(b, Ref) and a == b:
            return a
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.merge_val(c, x, y) for x, y in zip(a.items, b.items)], a.names)
        if type(a) is type(b) and isinstance(a, (Ext,)) and a == b:
            return a
        if isinstance(a, Func) and isinstance(b, Func) and a.node is b.node:
            return a
        if isinstance(a, PhiV) and a.c is c:
            a = a.a
        if isinstance(b, PhiV) and b.c is c:
            b = b.b
        if a is b:
            return a
        return PhiV(c, a, b)

    def merge(self, c, s1, s2):
        """state that is s1 when c else s2"""
        if s1 is s2:
            return s1
        pc = []
        for x, y in zip(s1.pc, s2.pc):
            if x == y:
                pc.append(x)
            else:
                break
        out = State({}, tuple(pc))
        m1, m2 = s1.m, s2.m
        om = out.m
        for k, v1 in m1.items():
            v2 = m2.get(k, UNB)
            if v1 is v2:
                om[k] = v1
                continue
            om[k] = self._merge_cell(c, k, v1, v2)
        for k, v2 in m2.items():
            if k not in m1:
                om[k] = self._merge_cell(c, k, UNB, v2)
        return out

    def _symdefault(self, k):
        # default content of lazily materialised outside values
        oid = k[1]
        if k[0] == 'a' and oid in self.meta and self.meta[oid]['kind'] == 'sym':
            return self.meta[oid]['term']
        if k[0] == 'f' and oid in self.meta and self.meta[oid]['kind'] == 'sym':
            return self.sym_child(oid, 'attr', k[2])
        if k[0] == 'd' and oid in self.meta and self.meta[oid]['kind'] == 'sym':
            return self.sym_child(oid, 'item', k[2])
        return UNB

    def _merge_cell(self, c, k, v1, v2):
        tag = k[0]
        if v1 is UNB:
            v1 = self._symdefault(k)
        if v2 is UNB:
            v2 = self._symdefault(k)
        if tag in ('a', 'l', 'dk'):
            if v1 is UNB:
                return v2
            if v2 is UNB:
                return v1
        if tag == 'a':
            return tm.phi(c, v1, v2)
        if tag == 'l':
            if isinstance(v1, tuple) and isinstance(v2, tuple) and len(v1) == len(v2):
                return tuple(self.merge_val(c, x, y) for x, y in zip(v1, v2))
            if v1 == v2:
                return v1
            t1 = self._list_t(v1)
            t2 = self._list_t(v2)
            return tm.phi(c, t1, t2)
        if tag == 'dk':
            if v1 is None or v2 is None:
                return None
            return tuple(list(v1) + [x for x in v2 if x not in v1])
        if tag == 'd' and (v1 is UNB or v2 is UNB):
            oid = k[1]
            # dict allocated on one side only: its cells are only reachable there
        if v1 is UNB and v2 is UNB:
            return UNB
        if v1 is UNB or v2 is UNB:
            if tag in ('f', 'd') and self._fresh_oid(k[1], v1, v2):
                return v2 if v1 is UNB else v1
            return PhiV(c, v1, v2)
        return self.merge_val(c, v1, v2)

    def _fresh_oid(self, oid, v1, v2):
        return False

    def _list_t(self, v):
        if isinstance(v, tuple):
            return mk('list', *[self.to_t(x) for x in v])
        return v

    def merge_exits(self, exits):
        """[(guard T, State, val)] in priority order -> (State, val)"""
        g, st, val = exits[-1]
        for g2, s2, v2 in reversed(exits[:-1]):
            st = self.merge(g2, s2, st)
            val = self.merge_val(g2, v2, val) if (v2 is not None or val is not None) else None
        return st, val

    # -------------------------------------------------------------- modules
    def load(self, dotted):
        """Interpret the body of a repository module (once)."""
        if dotted in self.modules:
            return self.modules[dotted]
        path = self.modpath(dotted)
        if path is None:
            raise Broken(f'module {dotted} not found in {self.repo}')
        r = self.new('module', frozenset({'module:' + dotted}), name=dotted, path=path)
        self.modules[dotted] = r
        self.exec_module(r)
        return r

    def modpath(self, dotted):
        if dotted in self.spec_paths:
            return self.spec_paths[dotted]
        p = os.path.join(self.repo, *dotted.split('.'))
        if os.path.isfile(p + '.py'):
            return p + '.py'
        if os.path.isfile(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py')
        return None

    def exec_module(self, r):
        md = self.meta[r.oid]
        tree = Source.get(md['path'])
        self.st.m[('f', r.oid, '__file__')] = const(md['path'])
        self.st.m[('f', r.oid, '__name__')] = const(md['name'])
        fr = Frame(('mod', r.oid), '<module>', md['name'], None, self.st.pc)
        self.frames.append(fr)
        self.stack.append((md['name'], '<module>'))
        try:
            st = self.block(tree.body, self.st)
        finally:
            self.frames.pop()
            self.stack.pop()
        if st is None:
            raise PathDead()
        self.st = st

    # variable access -------------------------------------------------
    def varkey(self, name):
        fr = self.frames[-1]
        if isinstance(fr.fid, tuple) and fr.fid[0] in ('mod', 'cls'):
            return ('f', fr.fid[1], name)
        if name in fr.globals_:
            return ('f', self.modules[fr.mod].oid, name)
        return ('v', fr.fid, name)

    def setvar(self, name, v):
        self.st.m[self.varkey(name)] = v

    def getvar(self, name, node):
        fr = self.frames[-1]
        k = self.varkey(name)
        m = self.st.m
        if k in m:
            return self.bound_check(m[k], name, node, k)
        for pf in fr.parents:
            k2 = ('v', pf, name)
            if k2 in m:
                return self.bound_check(m[k2], name, node, k2)
        # is it a local that has not been assigned?
        if fr.fid and not (isinstance(fr.fid, tuple) and fr.fid[0] in ('mod', 'cls')) and name in self.locals_of(fr):
            self.log('unbound', (name, 'always'), node)
            self.raise_('UnboundLocalError', None, node)
        if isinstance(fr.fid, tuple) and fr.fid[0] == 'cls':
            k2 = ('f', fr.fid[1], name)
            if k2 in m:
                return m[k2]
        gm = self.modules.get(fr.mod)
        if gm is not None:
            k2 = ('f', gm.oid, name)
            if k2 in m:
                return self.bound_check(m[k2], name, node, k2)
        if name in BUILTINS:
            return Ext('builtins.' + name)
        if name in ('True', 'False', 'None'):
            return {'True': TRUE, 'False': FALSE, 'None': NONE}[name]
        if name in ('__name__', '__file__', '__doc__'):
            return const(name)
        self.log('unresolved', (name,), node)
        return tm.fresh('unresolved:' + name)

    def locals_of(self, fr):
        return self._locals.get(fr.fid, ())

    def bound_check(self, v, name, node, key):
        if v is UNB:
            self.log('unbound', (name, 'always'), node)
            self.raise_('UnboundLocalError', None, node)
        if isinstance(v, PhiV):
            v2 = self.refine_v(v)
            r, conds = self.strip_unb(v2)
            if conds:
                self.log('unbound', (name, conds), node)
            if r is UNB:
                self.raise_('UnboundLocalError', None, node)
            return r
        return v

    def refine_v(self, v):
        while isinstance(v, PhiV):
            k = self.known(v.c)
            if k is True:
                v = v.a
            elif k is False:
                v = v.b
            else:
                a, b = self.refine_v(v.a), self.refine_v(v.b)
                if a is v.a and b is v.b:
                    return v
                return self.merge_val(v.c, a, b)
        return v

    def strip_unb(self, v):
        """remove unbound alternatives -> (value, [conditions under which unbound])"""
        if isinstance(v, PhiV):
            a, ca = self.strip_unb(v.a)
            b, cb = self.strip_unb(v.b)
            if a is UNB and b is UNB:
                return UNB, [TRUE]
            if a is UNB:
                return b, [v.c] + [tm.land(tm.lnot(v.c), x) for x in cb]
            if b is UNB:
                return a, [tm.lnot(v.c)] + [tm.land(v.c, x) for x in ca]
            if ca or cb:
                return self.merge_val(v.c, a, b), [tm.land(v.c, x) for x in ca] + [tm.land(tm.lnot(v.c), x) for x in cb]
            return v, []
        if v is UNB:
            return UNB, [TRUE]
        return v, []

    # -------------------------------------------------------------- exceptions
    def raise_(self, exc, msg, node):
        self.raises.append((exc, msg, self.st.pc, self.st.copy() if self.try_depth else None, node, tuple(self.stack),
                            self.frames[-1].func if self.frames else '?'))
        raise PathDead()

    # -------------------------------------------------------------- statements
    def block(self, stmts, st):
        for s in stmts:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        self.tick()
        self.st = st
        try:
            return getattr(self, 's_' + type(s).__name__, self.s_default)(s)
        except PathDead:
            return None

    def s_default(self, s):
        self.log('unhandled-stmt', type(s).__name__, s)
        return self.st

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return self.st
        self.ev(s.value)
        return self.st

    def s_Pass(self, s):
        return self.st

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v, s)
        return self.st

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value), s)
        return self.st

    def s_AugAssign(self, s):
        op = s.op
        tgt = s.target
        if isinstance(tgt, ast.Name):
            cur = self.getvar(tgt.id, tgt)
            v = self.ev(s.value)
            nv = self.aug(cur, op, v, s)
            self.setvar(tgt.id, nv)
        elif isinstance(tgt, ast.Attribute):
            obj = self.ev(tgt.value)
            cur = self.getattr_(obj, tgt.attr, tgt)
            v = self.ev(s.value)
            nv = self.aug(cur, op, v, s)
            self.setattr_(obj, tgt.attr, nv, s, aug=True)
        elif isinstance(tgt, ast.Subscript):
            obj = self.ev(tgt.value)
            ix = self.ev_index(tgt.slice)
            cur = self.getitem(obj, ix, tgt)
            v = self.ev(s.value)
            nv = self.aug(cur, op, v, s)
            if isinstance(cur, Ref) and cur == nv and self.kind(cur) == 'view':
                pass
            else:
                self.setitem(obj, ix, nv, s)
        return self.st

    def aug(self, cur, op, v, node):
        """in-place operator: mutates arrays/lists, rebinds everything else"""
        if isinstance(cur, PhiV):
            a = self.aug_branch(cur.c, True, cur.a, op, v, node)
            b = self.aug_branch(cur.c, False, cur.b, op, v, node)
            return self.merge_val(cur.c, a, b)
        if isinstance(cur, Ref):
            k = self.kind(cur)
            if k in ('arr', 'view', 'sym'):
                t = self.binop(op, self.content(cur), v, node)
                self.effect(cur, 'in-place operator', node)
                self.set_content(cur, self.to_t(t))
                return cur
            if k == 'list' and isinstance(op, ast.Add):
                self.effect(cur, 'list +=', node)
                it = self.st.m[('l', cur.oid)]
                vi = self.items_of(v)
                if isinstance(it, tuple) and vi is not None:
                    self.st.m[('l', cur.oid)] = it + tuple(vi)
                else:
                    self.st.m[('l', cur.oid)] = mk('concat', self._list_t(it), self.to_t(v))
                return cur
        return self.binop(op, cur, v, node)

    def aug_branch(self, c, b, cur, op, v, node):
        if cur is UNB:
            return UNB
        if isinstance(cur, Ref) and self.kind(cur) in ('arr', 'view', 'sym'):
            old = self.content(cur)
            t = self.to_t(self.binop(op, old, v, node))
            self.effect(cur, 'in-place operator', node)
            self.set_content(cur, tm.phi(c, t, old) if b else tm.phi(c, old, t))
            return cur
        return self.aug(cur, op, v, node)

    def effect(self, ref, what, node):
        """in-place mutation of the object behind ref"""
        r = self.roots(ref)
        self.log('mutate', (what, ref, r), node)

    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else NONE
        fr = self.frames[-1]
        e = Exit(self.st.pc, v, self.st, s)
        if fr.loops:
            fr.loops[-1].returns.append(e)
        else:
            fr.returns.append(e)
        return None

    def s_Raise(self, s):
        name, msg = 'Exception', None
        if s.exc is not None:
            e = s.exc
            if isinstance(e, ast.Call):
                name = ast.unparse(e.func)
                args = [self.ev(a) for a in e.args]
                for k in e.keywords:
                    self.ev(k.value)
                f = self.ev(e.func)
                if isinstance(f, Ref) and self.kind(f) == 'class':
                    name = self.meta[f.oid]['name']
                msg = args
            else:
                name = ast.unparse(e)
                v = self.ev(e)
                msg = [v]
        else:
            name = '<reraise>'
        self.raise_(name.split('.')[-1], msg, s)

    def s_Import(self, s):
        for a in s.names:
            nm = a.name
            if self.modpath(nm.split('.')[0]) and nm.split('.')[0] == 'pyrtlib':
                m = self.load(nm)
                if a.asname:
                    self.setvar(a.asname, m)
                else:
                    self.setvar(nm.split('.')[0], self.load(nm.split('.')[0]))
            elif a.asname:
                self.setvar(a.asname, Ext(nm))
            else:
                self.setvar(nm.split('.')[0], Ext(nm.split('.')[0]))
        return self.st

    def s_ImportFrom(self, s):
        fr = self.frames[-1]
        base = s.module or ''
        if s.level:
            path = self.meta[self.modules[fr.mod].oid]['path']
            parts = fr.mod.split('.')
            if not path.endswith('__init__.py'):
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            base = '.'.join(parts + ([s.module] if s.module else []))
        if base.split('.')[0] == 'pyrtlib' or base in self.spec_paths:
            m = self.load(base)
            for a in s.names:
                if a.name == '*':
                    for k in list(self.st.m):
                        if k[0] == 'f' and k[1] == m.oid and not k[2].startswith('_'):
                            self.setvar(k[2], self.st.m[k])
                    continue
                k = ('f', m.oid, a.name)
                if k in self.st.m:
                    v = self.st.m[k]
                elif self.modpath(base + '.' + a.name):
                    v = self.load(base + '.' + a.name)
                else:
                    self.log('unresolved', (f'{base}.{a.name}',), s)
                    v = tm.fresh('import')
                self.setvar(a.asname or a.name, v)
        else:
            for a in s.names:
                self.setvar(a.asname or a.name, Ext(base + '.' + a.name))
        return self.st

    def s_FunctionDef(self, s):
        fr = self.frames[-1]
        cls = None
        fid = None
        if isinstance(fr.fid, tuple) and fr.fid[0] == 'cls':
            cls = Ref(fr.fid[1])
        elif isinstance(fr.fid, tuple) and fr.fid[0] == 'mod':
            pass
        else:
            fid = (fr.fid,) + tuple(fr.parents)
            self._closure_used.update((x, True) for x in fid)
        qn = (self.meta[cls.oid]['name'] + '.' + s.name) if cls else s.name
        f = Func(s, fr.mod, qn, self.eval_defaults(s.args, fr.mod + '.' + qn), cls, fid)
        v = f
        for d in reversed(s.decorator_list):
            dn = ast.unparse(d)
            if dn == 'staticmethod':
                f.kind = 'static'
            elif dn == 'classmethod':
                f.kind = 'classm'
            elif dn == 'property' or dn.endswith('cached_property'):
                v = Prop(f)
            elif dn.endswith('.setter'):
                old = self.st.m.get(self.varkey(s.name))
                v = Prop(old.fget if isinstance(old, Prop) else None, f)
            elif dn.endswith('.getter') or dn.endswith('.deleter'):
                v = self.st.m.get(self.varkey(s.name), f)
        self.setvar(s.name, v)
        return self.st

    s_AsyncFunctionDef = s_FunctionDef

    def eval_defaults(self, a, tag):
        out = {}
        pos = a.posonlyargs + a.args
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            out[p.arg] = self.mark(self.ev(d), f'default:{tag}.{p.arg}')
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                out[p.arg] = self.mark(self.ev(d), f'default:{tag}.{p.arg}')
        return out

    def mark(self, v, root):
        if isinstance(v, Ref):
            md = self.meta[v.oid]
            if md['kind'] in ('arr', 'list', 'dict', 'set'):
                md['roots'] = md['roots'] | {root}
        return v

    def s_ClassDef(self, s):
        fr = self.frames[-1]
        bases = [self.ev(b) for b in s.bases]
        qual = fr.mod + '.' + s.name
        r = self.new('class', frozenset({'class:' + qual}), name=s.name, qual=qual, bases=bases, mod=fr.mod, node=s)
        f2 = Frame(('cls', r.oid), s.name, fr.mod, r, self.st.pc)
        # class body executes with its own namespace
        f2.fid = ('cls', r.oid)
        self.frames.append(f2)
        try:
            old = self.varkey
            st = self.block(s.body, self.st)
        finally:
            self.frames.pop()
        if st is None:
            raise PathDead()
        self.st = st
        # mutable class-level containers are shared state
        for k, v in list(self.st.m.items()):
            if k[0] == 'f' and k[1] == r.oid:
                self.mark(v, f'classattr:{qual}.{k[2]}')
        self.setvar(s.name, r)
        return self.st

    def s_Global(self, s):
        self.frames[-1].globals_ |= set(s.names)
        return self.st

    def s_Nonlocal(self, s):
        return self.st

    def s_Assert(self, s):
        c = self.truth(self.ev(s.test), s)
        k = self.known(c)
        if k is False:
            self.raise_('AssertionError', None, s)
        if k is None:
            st2 = self.st.copy()
            self.assume(st2, c, False)
            self.raises.append(('AssertionError', None, st2.pc, None, s, tuple(self.stack), self.frames[-1].func))
            self.assume(self.st, c, True)
        return self.st

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.st.m[self.varkey(t.id)] = UNB
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value)
                ix = self.ev_index(t.slice)
                self.effect(o, 'del item', s)
                if isinstance(o, Ref) and self.kind(o) == 'dict':
                    ks = self.st.m.get(('dk', o.oid))
                    k = ix if not isinstance(ix, T) else ix
                    if ks and k in ks:
                        self.st.m[('dk', o.oid)] = tuple(x for x in ks if x is not k)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value)
                if isinstance(o, Ref):
                    self.st.m.pop(('f', o.oid, t.attr), None)
        return self.st

    def s_If(self, s):
        c = self.truth(self.ev(s.test), s.test)
        return self.branch(c, lambda st: self.block(s.body, st), lambda st: self.block(s.orelse, st))

    def branch(self, c, fa, fb):
        k = self.known(c)
        if k is True:
            return fa(self.st)
        if k is False:
            return fb(self.st)
        base = self.st
        s1, s2 = base.copy(), base.copy()
        self.assume(s1, c, True)
        self.assume(s2, c, False)
        r1 = fa(s1)
        r2 = fb(s2)
        if r1 is None:
            return r2
        if r2 is None:
            return r1
        return self.merge(c, r1, r2)

    def s_Try(self, s):
        base = self.st.copy()
        n0 = len(self.raises)
        ev0 = len(self.events)
        self.try_depth += 1
        try:
            st = self.block(s.body, self.st)
        finally:
            self.try_depth -= 1
        new = self.raises[n0:]
        caught = []
        kept = []
        names = []
        for h in s.handlers:
            if h.type is None:
                names.append(None)
            elif isinstance(h.type, ast.Tuple):
                names.append([ast.unparse(e).split('.')[-1] for e in h.type.elts])
            else:
                names.append([ast.unparse(h.type).split('.')[-1]])

        def matches(exc, nm):
            if nm is None:
                return True
            if exc in nm:
                return True
            ps = EXC_PARENTS.get(exc, ['Exception'])
            return any(p in nm for p in ps) or 'BaseException' in nm
        percase = {i: [] for i in range(len(names))}
        for r in new:
            for i, nm in enumerate(names):
                if matches(r[0], nm):
                    percase[i].append(r)
                    break
            else:
                kept.append(r)
        self.raises[n0:] = kept
        # could an unknown (external) operation raise?
        may_ext = any(e.kind in ('extcall', 'opaque-call', 'mcall') and not (self.exact and e.kind == 'extcall' and e.data[0] in TOTAL) for e in self.events[ev0:]) or \
            any(isinstance(x, (ast.Import, ast.ImportFrom)) for b in s.body for x in ast.walk(b)) or \
            (not new and not self.exact and any(nm is None or any(q not in DECIDED_EXC for q in nm) for nm in names))
        def foreign_import(x):
            if isinstance(x, ast.Import):
                return any(a.name.split('.')[0] != PKG for a in x.names)
            return isinstance(x, ast.ImportFrom) and not x.level and (x.module or '').split('.')[0] != PKG
        imports = any(foreign_import(x) for b in s.body for x in ast.walk(b))
        may_any = may_ext
        outs = []
        if st is not None and s.orelse:
            st = self.block(s.orelse, st)
        if st is not None:
            outs.append((None, st))
        for i, h in enumerate(s.handlers):
            # importing a module that is part of the package succeeds
            may_ext = imports if names[i] and all(q in ('ImportError', 'ModuleNotFoundError') for q in names[i]) else may_any
            certain = [r for r in percase[i]]
            if not certain and st is None and not may_ext:
                continue
            if not certain and not may_ext:
                continue
            cand = [r[3] for r in certain if r[3] is not None]
            if may_ext or not cand:
                cand = cand + [base]
            hs = cand[0].copy()
            for x in cand[1:]:
                hs = self.merge(tm.fresh('exc', 0), hs, x)
            hs = hs.copy()
            hs.pc = base.pc
            g = None
            if certain and not may_ext:
                # guard of the raise relative to try entry
                g = FALSE
                for r in certain:
                    g = tm.lor(g, conj(r[2][len(base.pc):]))
            if g is TRUE and st is None:
                hs.pc = base.pc
            else:
                hs.pc = base.pc + (((g, True),) if g is not None and g.op != 'const' else ((tm.fresh('raised', 0), True),))
            self.st = hs
            if h.name:
                self.setvar(h.name, tm.fresh('exception'))
            rh = self.block(h.body, hs)
            if rh is not None:
                outs.append((g, rh))
        # priority: handlers first by guard
        hd = [(g if g is not None else tm.fresh('raised', 0), x, None) for g, x in outs[1:]] if st is not None else \
             [(g if g is not None else tm.fresh('raised', 0), x, None) for g, x in outs]
        res = None
        allx = hd + ([(TRUE, st, None)] if st is not None else [])
        if allx:
            res, _ = self.merge_exits(allx)
        if s.finalbody:
            if res is None:
                # still analyse the cleanup for its effects
                self.block(s.finalbody, base.copy())
                return None
            res = self.block(s.finalbody, res)
        return res

    s_TryStar = s_Try

    def s_With(self, s):
        for it in s.items:
            v = self.ev(it.context_expr)
            self.log('with', v, s)
            if isinstance(v, Ref) and self.kind(v) == 'obj':
                m = self.lookup(v, '__enter__')
                if m is not None:
                    v = self.call(m, [], {}, s)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, s)
        return self.block(s.body, self.st)

    def s_Break(self, s):
        lc = self.frames[-1].loops[-1]
        lc.breaks.append(Exit(self.st.pc, None, self.st, s))
        return None

    def s_Continue(self, s):
        lc = self.frames[-1].loops[-1]
        lc.continues.append(Exit(self.st.pc, None, self.st, s))
        return None

    def s_Match(self, s):
        subj = self.ev(s.subject)

        def go(cases):
            if not cases:
                return lambda st: st
            cs = cases[0]

            def run(st):
                self.st = st
                c = self.match_cond(cs.pattern, subj, cs)
                if cs.guard is not None:
                    c = tm.land(c, self.truth(self.ev(cs.guard), cs.guard))
                return self.branch(c, lambda st: self.block(cs.body, st), go(cases[1:]))
            return run
        return go(s.cases)(self.st)

    def match_cond(self, p, subj, node):
        if isinstance(p, ast.MatchValue):
            return self.compare(ast.Eq(), subj, self.ev(p.value), node)
        if isinstance(p, ast.MatchOr):
            c = FALSE
            for q in p.patterns:
                c = tm.lor(c, self.match_cond(q, subj, node))
            return c
        if isinstance(p, ast.MatchAs):
            if p.name:
                self.setvar(p.name, subj)
            return TRUE if p.pattern is None else self.match_cond(p.pattern, subj, node)
        if isinstance(p, ast.MatchSingleton):
            return self.compare(ast.Is(), subj, const(p.value), node)
        return tm.fresh('match', 0)

    # -------------------------------------------------------------- loops
    def s_For(self, s):
        it = self.ev(s.iter)
        return self.for_iter(it, s)

    s_AsyncFor = s_For

    def items_of(self, v):
        """finite list of element values, or None"""
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, T) and v.op in ('ncvars', 'ncgroups'):
            sch = self.ncmeta.get(tm.cval(v.args[0]))
            return [const(x) for x in (sch if v.op == 'ncgroups' else sch.get(tm.cval(v.args[1]), ()))]
        if isinstance(v, Ref):
            k = self.kind(v)
            if k in ('list', 'set'):
                it = self.st.m[('l', v.oid)]
                if isinstance(it, tuple):
                    return list(it)
            if k == 'dict':
                ks = self.st.m.get(('dk', v.oid))
                if ks is not None:
                    return list(ks)
            if k == 'arr':
                t = self.content(v)
                if t.op == 'arr':
                    return list(t.args)
            if k in ('arr', 'sym', 'view'):
                t = self.content(v)
                if t.rank == 1:
                    n = tm.length(t)
                    if tm.isnum(n) and tm.cval(n) <= self.unroll:
                        return [tm.idx(t, (num(i),)) for i in range(int(tm.cval(n)))]
            if k == 'range':
                lo, n, step = self.meta[v.oid]['r']
                if tm.isnum(n) and tm.isnum(lo) and tm.isnum(step) and tm.cval(n) <= self.unroll:
                    return [num(tm.cval(lo) + i * tm.cval(step)) for i in range(int(tm.cval(n)))]
            if k == 'iter':
                md = self.meta[v.oid]
                return md['items']
        if isinstance(v, T):
            if v.op == 'const' and isinstance(tm.cval(v), str):
                return [const(ch) for ch in tm.cval(v)]
            if v.op in ('arr', 'tup', 'list'):
                return list(v.args)
        return None

    def symiter(self, v):
        """(count T, fn(iv)->element value)"""
        if isinstance(v, Ref):
            md = self.meta[v.oid]
            if md['kind'] == 'range':
                lo, n, step = md['r']
                return n, lambda t: tm.add(lo, tm.mul(step, t))
            if md['kind'] == 'iter':
                return md['count'], md['fn']
            if md['kind'] in ('arr', 'view', 'sym'):
                c = self.content(v)
                ref = v
                return tm.length(c), lambda t: self.getitem(ref, t, None)
        t0 = self.to_t(v)
        return tm.length(t0), lambda t: tm.idx(t0, (t,))

    def for_iter(self, it, s):
        items = self.items_of(it)
        if items is not None and len(items) <= max(64, self.unroll):
            return self.unrolled(items, s)
        if isinstance(it, PhiV):
            it = self.to_t(it)
        n, fn = self.symiter(it)
        # direction normalisation is done on closed forms
        return self.symloop(s, n, lambda t: self.assign(s.target, fn(t), s), None)

    def unrolled(self, items, s):
        fr = self.frames[-1]
        brk = []
        st = self.st
        for x in items:
            lc = LoopCtx(st.pc)
            fr.loops.append(lc)
            self.st = st
            try:
                self.assign(s.target, x, s)
                r = self.block(s.body, self.st)
            except PathDead:
                r = None
            finally:
                fr.loops.pop()
            n0 = len(st.pc)
            self.pass_returns(fr, lc.returns)
            ex = [(conj(e.pc[n0:]), e.st, None) for e in lc.continues]
            if r is not None:
                ex.append((TRUE, r, None))
            for e in lc.breaks:
                brk.append((conj(e.pc), e.st, None))
            if not ex:
                st = None
                break
            st, _ = self.merge_exits(ex)
        if st is not None and s.orelse:
            st = self.block(s.orelse, st)
        if brk:
            return self.merge_exits(brk + ([(TRUE, st, None)] if st is not None else []))[0]
        return st

    def pass_returns(self, fr, rets):
        if fr.loops:
            fr.loops[-1].returns.extend(rets)
        else:
            fr.returns.extend(rets)

    def s_While(self, s):
        c0 = self.truth(self.ev(s.test), s.test)
        if self.known(c0) is False:
            return self.block(s.orelse, self.st)
        # try bounded concrete unrolling for constant conditions
        st = self.st
        if c0.op == 'const':
            r = self.while_unroll(s, st.copy())
            if r is not False:
                return r
            self.st = st
        return self.symloop(s, None, None, s.test)

    def while_unroll(self, s, st):
        fr = self.frames[-1]
        n_ev, n_ra = len(self.events), len(self.raises)
        brk, rets = [], []
        for _ in range(UNROLL + 1):
            self.st = st
            c = self.truth(self.ev(s.test), s.test)
            if c.op != 'const':
                del self.events[n_ev:], self.raises[n_ra:]
                return False
            if not tm.cval(c):
                self.pass_returns(fr, rets)
                if brk:
                    return self.merge_exits(brk + [(TRUE, st, None)])[0]
                return st
            lc = LoopCtx(st.pc)
            fr.loops.append(lc)
            try:
                r = self.block(s.body, self.st)
            finally:
                fr.loops.pop()
            rets += lc.returns
            n0 = len(st.pc)
            ex = [(conj(e.pc[n0:]), e.st, None) for e in lc.continues]
            if r is not None:
                ex.append((TRUE, r, None))
            brk += [(conj(e.pc), e.st, None) for e in lc.breaks]
            if not ex:
                self.pass_returns(fr, rets)
                return self.merge_exits(brk)[0] if brk else None
            st, _ = self.merge_exits(ex)
        del self.events[n_ev:], self.raises[n_ra:]
        return False

    def symloop(self, s, count, bind, wtest):
        fr = self.frames[-1]
        base = self.st
        loop = Loop(count, f'{fr.mod}:{fr.func}')
        iv = mk('iv', loop, rank=0)
        changed = {}       # state key -> ('t'|'ref', muT, Ref)
        closed = {}        # state key -> closed form term valid at iteration start
        bound_w = {}       # induction variables of while loops
        n_ev, n_ra = len(self.events), len(self.raises)
        final = None
        tried_while = False
        arr_rec = {}
        for rnd in range(14):
            del self.events[n_ev:], self.raises[n_ra:]
            self.st = base.copy()
            for k, how in changed.items():
                self.havoc(k, how, loop, closed)
            lc = LoopCtx(self.st.pc)
            fr.loops.append(lc)
            hdr = self.st.copy()
            wc = None
            try:
                try:
                    if bind is not None:
                        bind(iv)
                    if wtest is not None:
                        wc = self.truth(self.ev(wtest), wtest)
                        if count is None and wc.op != 'const':
                            self.assume(self.st, wc, True)
                    n0 = len(hdr.pc)
                    r = self.block(s.body, self.st)
                except PathDead:
                    r = None
            finally:
                fr.loops.pop()
            ex = [(conj(e.pc[n0:]), e.st, None) for e in lc.continues]
            if r is not None:
                ex.append((TRUE, r, None))
            end = self.merge_exits(ex)[0] if ex else None
            # which keys changed?
            newk = {}
            srcs = [end] if end is not None else []
            srcs += [e.st for e in lc.breaks]
            for src in srcs:
                for k, v in src.m.items():
                    if k in changed or k in newk:
                        continue
                    h = hdr.m.get(k, UNB)
                    if v is h:
                        continue
                    if h is UNB and k[0] != 'v':
                        d = self._symdefault(k)
                        if d is UNB:
                            if k[0] in ('f', 'd') and k[1] in self.meta and self._preexists(k, base):
                                newk[k] = ('new', v)
                            continue
                        if d is v:
                            continue
                        h = d
                    if k[0] == 'v' and k[1] != fr.fid and k[1] not in fr.parents:
                        continue
                    if isinstance(v, T) and isinstance(h, T) and v is h:
                        continue
                    if isinstance(v, Ref) and isinstance(h, Ref) and v == h:
                        continue
                    newk[k] = ('c', v, h)
            if newk:
                for k, info in newk.items():
                    changed[k] = self.classify(k, info, base)
                continue
            if end is None and not lc.breaks:
                final = (None, lc, hdr, wc, n0)
                break
            # induction variables / while -> counted
            upd = False
            if end is not None:
                for k, how in changed.items():
                    if k in closed or how[0] != 't':
                        continue
                    mu = mk('mu', loop, k)
                    nv = end.m.get(k)
                    if not isinstance(nv, T) or not isinstance(base.m.get(k), T):
                        continue
                    d, c = tm.linear(tm.sub(nv, mu))
                    if not d and c != 0 and not lc.continues and (count is not None or wtest is not None):
                        if count is None:
                            cnt = self.while_count(wc, mu, num(c), base.m[k]) if not lc.breaks else None
                            if cnt is not None and not tried_while:
                                count = cnt
                                loop.count = cnt
                                tried_while = True
                                closed[k] = tm.add(base.m[k], tm.mul(num(c), iv))
                                upd = True
                                break
                        else:
                            closed[k] = tm.add(base.m[k], tm.mul(num(c), iv))
                            upd = True
                if not upd and count is not None and not lc.breaks:
                    # prefix sums: mu = init + sum_{u<t} f(u)
                    mus = {mk('mu', loop, k) for k in changed}
                    for k, how in changed.items():
                        if k in closed or how[0] != 't':
                            continue
                        nv = end.m.get(k)
                        init = base.m.get(k)
                        if not isinstance(nv, T) or not isinstance(init, T):
                            continue
                        f = self.delta(nv, mk('mu', loop, k))
                        if f is None or self.has_mu(f, loop):
                            continue
                        u = Loop(iv, 'prefix')
                        u.done = True
                        body = tm.subst(f, {iv: mk('iv', u, rank=0)})
                        closed[k] = tm.add(init, tm.mksum(u, body))
                        upd = True
                    if not upd:
                        # array recurrences  X[t+c] = init + X[t+c-1] + f(t)
                        for k, how in changed.items():
                            if k[0] != 'a' or k in closed:
                                continue
                            nv, init = end.m.get(k), base.m.get(k, self._symdefault(k))
                            cf = self.array_prefix(loop, iv, k, nv, init)
                            if cf is None:
                                cf = self.array_sum(loop, iv, k, nv, init)
                            if cf is not None:
                                closed[k] = cf
                                upd = True
            if upd:
                continue
            final = (end, lc, hdr, wc, n0)
            break
        if final is None:
            self.log('loop-unstable', (), s)
            final = (end, lc, hdr, wc, n0)
        end, lc, hdr, wc, n0 = final
        # fill in the loop record
        loop.whilecond = wc if (count is None and wc is not None) else None
        for k, how in changed.items():
            b = base.m.get(k, self._symdefault(k))
            loop.init[k] = self.key_t(b, how)
            if end is not None:
                loop.next[k] = self.key_t(end.m.get(k, UNB), how, end)
            else:
                loop.next[k] = mk('mu', loop, k)
        for e in lc.breaks:
            loop.brk.append((conj(e.pc[n0:]), {k: self.key_t(e.st.m.get(k, UNB), how, e.st) for k, how in changed.items()}))
        loop.done = True
        # exit state
        out = base.copy()
        src = end
        for k, how in changed.items():
            xv = self.exit_value(loop, iv, k, how, base, end, lc, closed)
            if isinstance(xv, _Late):
                out.m[xv.key] = xv.t
                xv = xv.ref
            out.m[k] = xv
        # cells created in the loop body stay reachable
        for sx in ([end] if end is not None else []) + [e.st for e in lc.breaks]:
            for k, v in sx.m.items():
                if k not in out.m:
                    out.m[k] = v
        # returns from inside the loop
        for e in lc.returns:
            g = conj(e.pc[n0:])
            gt = mk('anyiter', loop, g, rank=0) if loop in g.free else g
            vt = e.val
            if isinstance(vt, (T,)):
                vt = mk('atfirst', loop, g, vt, rank=vt.rank) if loop in vt.free else vt
            elif isinstance(vt, Tup):
                def first(x):
                    t = self.t_in(x, e.st)
                    return mk('atfirst', loop, g, t, rank=t.rank) if loop in t.free else t
                vt = Tup([first(x) if self.kind(x) not in ('obj',) else x for x in vt.items])
            else:
                vt = self.t_in(vt, e.st)
                vt = mk('atfirst', loop, g, vt, rank=vt.rank) if loop in vt.free else vt
            e2 = Exit(base.pc + ((gt, True),), vt, e.st, e.node)
            e2.st = State(e.st.m, base.pc + ((gt, True),))
            self.pass_returns(fr, [e2])
        if end is None and not lc.breaks and count is None and lc.returns:
            return None
        self.st = out
        if s.orelse if hasattr(s, 'orelse') else False:
            return self.block(s.orelse, out)
        return out

    def t_in(self, v, st):
        old = self.st
        self.st = st
        try:
            return self.to_t(v)
        finally:
            self.st = old

    def _preexists(self, k, base):
        oid = k[1]
        if k[0] == 'f':
            return self.meta[oid]['kind'] in ('obj', 'class', 'module') and any(kk[1] == oid for kk in base.m if kk[0] == 'f')
        if k[0] == 'd':
            return ('dk', oid) in base.m
        return False

    def array_sum(self, loop, iv, k, nv, init):
        """whole array X = X + f(t), elementwise"""
        mu = mk('mu', loop, k)
        if not isinstance(nv, T) or not isinstance(init, T) or init.rank != 1 or nv.op != 'add':
            return None
        f = self.delta(nv, mu)
        if f is None or self.has_mu(f, loop) or f.rank not in (0, 1):
            return None
        u = Loop(iv, 'prefix')
        u.done = True
        body = tm.subst(f, {iv: mk('iv', u, rank=0)})
        from . import lib
        at = lambda x, j: tm.idx(x, (j,)) if x.rank else x
        return lib.lam(tm.length(init), lambda j: tm.add(at(init, j), tm.mksum(u, at(body, j))))

    def classify(self, k, info, base):
        tag = k[0]
        if tag in ('a',):
            return ('cell',)
        if tag == 'l':
            return ('list',)
        if tag == 'dk':
            return ('dk',)
        if info[0] == 'new':
            v = info[1]
            return ('t', 'new') if not (isinstance(v, Ref) and self.kind(v) in ('arr', 'view')) else ('ref', 'new', v)
        v, h = info[1], info[2]
        if isinstance(v, Tup) and isinstance(h, Tup) and len(v.items) == len(h.items):
            return ('tup', len(v.items))
        if isinstance(v, Ref) and (isinstance(h, Ref) or h is UNB) and self.is_arr(v):
            return ('ref', None, v)
        return ('t',)

    def havoc(self, k, how, loop, closed):
        st = self.st
        init = st.m.get(k, UNB)
        if init is UNB:
            init = self._symdefault(k)
        if k in closed:
            st.m[k] = closed[k]
            return
        if how[0] == 'cell':
            i = init
            st.m[k] = mk('mu', loop, k, rank=i.rank if isinstance(i, T) else None)
            loop.init.setdefault(k, i if isinstance(i, T) else mk('unbound'))
        elif how[0] == 'list':
            st.m[k] = mk('mu', loop, k)
            loop.init.setdefault(k, self._list_t(init) if init is not UNB else mk('unbound'))
        elif how[0] == 'dk':
            st.m[k] = None
        elif how[0] == 'tup':
            st.m[k] = Tup([mk('mu', loop, k + (i,)) for i in range(how[1])])
        elif how[0] == 'ref':
            it = self.key_t(init, how)
            loop.init.setdefault(k, it)
            if init is UNB:
                st.m[k] = UNB
                return
            oid = ('mu', loop.id, k)
            self.meta[oid] = dict(kind='arr', roots=self.roots(init) if isinstance(init, Ref) else frozenset())
            st.m[('a', oid)] = mk('mu', loop, k, rank=it.rank)
            st.m[k] = Ref(oid)
        else:
            if init is UNB:
                st.m[k] = UNB      # refined: must be assigned before use in the first iteration
                return
            it = self.key_t(init, how)
            st.m[k] = mk('mu', loop, k, rank=it.rank)

    def key_t(self, v, how, st=None):
        old = self.st
        if st is not None:
            self.st = st
        try:
            if v is UNB or v is None:
                return mk('unbound')
            if how[0] == 'list':
                return self._list_t(v)
            if how[0] == 'dk':
                return mk('keys', *[x for x in (v or ()) if isinstance(x, T)])
            return self.to_t(v)
        finally:
            self.st = old

    def has_mu(self, t, loop):
        if loop not in t.free:
            return False
        for x in tm.walk(t, into_loops=True):
            if x.op == 'mu' and x.args[0] is loop:
                return True
        return False

    def delta(self, t, mu):
        """f with t == mu + f, or None"""
        if t is mu:
            return ZERO
        if t.op == 'add':
            a, b = t.args
            d = self.delta(a, mu)
            if d is not None and not self.mentions(b, mu):
                return tm.add(d, b)
            d = self.delta(b, mu)
            if d is not None and not self.mentions(a, mu):
                return tm.add(d, a)
            return None
        if t.op == 'phi':
            if self.mentions(t.args[0], mu):
                return None
            a, b = self.delta(t.args[1], mu), self.delta(t.args[2], mu)
            if a is None or b is None:
                return None
            return tm.phi(t.args[0], a, b)
        return None

    def mentions(self, t, mu):
        if not (mu.free <= t.free):
            return False
        return any(x is mu for x in tm.walk(t))

    def while_count(self, wc, mu, step, init):
        """trip count of  while mu < bound  style loops"""
        if wc is None:
            return None
        neg = False
        c = wc
        if c.op == 'not':
            neg, c = True, c.args[0]
        if c.op not in ('lt', 'eq'):
            return None
        x, y = c.args
        st = tm.cval(step)
        d, k = tm.linear(tm.sub(x, y))
        if mu not in d:
            return None
        co = d[mu]
        if co not in (1, -1):
            return None
        rest = tm.sub(tm.sub(x, y), tm.mul(num(co), mu))   # x-y = co*mu + rest
        if self.mentions(rest, mu):
            return None
        if c.op == 'eq' and neg and st in (1, -1):
            # mu != bound ; bound = -rest/co
            bound = tm.mul(num(-1), rest) if co == 1 else rest
            return tm.mul(step, tm.sub(bound, init))
        if c.op != 'lt':
            return None
        # lt: co*mu + rest < 0   (neg: >= 0)
        if not neg:
            if co == 1 and st == 1:       # mu < -rest
                return tm.sub(tm.neg(rest), init)
            if co == -1 and st == -1:     # mu > rest
                return tm.sub(init, rest)
        else:
            if co == 1 and st == -1:      # mu >= -rest
                return tm.add(tm.sub(init, tm.neg(rest)), ONE)
            if co == -1 and st == 1:      # mu <= rest
                return tm.add(tm.sub(rest, init), ONE)
        return None

    def array_prefix(self, loop, iv, k, nxt, init):
        """closed form at iteration start for X[i] = X[i-1] + f recurrences over one array cell."""
        if not isinstance(nxt, T) or not isinstance(init, T):
            return None
        mu = mk('mu', loop, k, rank=init.rank)
        if nxt.op != 'store' or nxt.args[0] is not mu or len(nxt.args) != 3:
            return None
        ix, v = nxt.args[1], nxt.args[2]
        d, c = tm.linear(ix)
        kk = d.get(iv)
        if kk not in (1, -1) or loop in tm.sub(ix, tm.mul(num(kk), iv)).free:
            return None
        prev = tm.sub(ix, num(kk))
        p = mk('idx', mu, prev, rank=0)
        p = tm.idx(mu, (prev,))
        f = self.delta(v, p)
        if f is None or self.has_mu(f, loop):
            return None
        first = tm.subst(prev, {iv: ZERO})
        i0 = tm.idx(init, (first,))
        # at iteration start t: entries ix(u) for u<t are set to i0 + sum_{w<=u} f(w)
        u = Loop(iv, 'prefixfill')
        u.done = True
        uiv = mk('iv', u, rank=0)
        w = Loop(tm.add(uiv, ONE), 'prefix')
        w.done = True
        val = tm.add(i0, tm.mksum(w, tm.subst(f, {iv: mk('iv', w, rank=0)})))
        return mk('fill', init, 1, u, tm.subst(ix, {iv: uiv}), val, rank=init.rank)

    def exit_value(self, loop, iv, k, how, base, end, lc, closed):
        init = base.m.get(k, UNB)
        if init is UNB:
            init = self._symdefault(k)
        if end is None and not lc.breaks:
            return init
        nxt = loop.next[k]
        brk = bool(lc.breaks) or loop.count is None
        last = tm.sub(loop.count, ONE) if loop.count is not None else None
        if how[0] == 'dk':
            return None
        if how[0] == 'tup':
            v = end.m.get(k) if end is not None else None
            return Tup([mk('eta', loop, k + (i,)) for i in range(how[1])])
        if how[0] == 'ref':
            t = self.exit_t(loop, iv, k, nxt, self.key_t(init, how), brk, last, closed)
            roots = frozenset()
            v = end.m.get(k) if end is not None else None
            roots = self.roots(v) if v is not None else frozenset()
            if isinstance(init, Ref):
                roots = roots | self.roots(init)
            # aliasing of caller objects survives through roots
            oid = ('eta', loop.id, k)
            self.meta[oid] = dict(kind='arr', roots=roots)
            r = Ref(oid)
            return _Late(r, ('a', oid), t)
        if how[0] == 'cell':
            return self.exit_t(loop, iv, k, nxt, init if isinstance(init, T) else mk('unbound'), brk, last, closed)
        if how[0] == 'list':
            return self.exit_t(loop, iv, k, nxt, self._list_t(init) if init is not UNB else mk('unbound'), brk, last, closed)
        if init is UNB:
            # assigned inside the loop only
            v = end.m.get(k, UNB) if end is not None else UNB
            if isinstance(v, T):
                t = self.exit_t(loop, iv, k, nxt, mk('unbound'), brk, last, closed)
            elif v is UNB:
                return UNB
            elif isinstance(v, (Ref, Func, Ext, Bound)) and not self.is_arr(v):
                t = v
            else:
                t = self.exit_t(loop, iv, k, nxt, mk('unbound'), brk, last, closed)
            return t
        return self.exit_t(loop, iv, k, nxt, self.key_t(init, how), brk, last, closed)

    def exit_t(self, loop, iv, k, nxt, init, brk, last, closed):
        mu = mk('mu', loop, k)
        gen = lambda: mk('eta', loop, k, rank=init.rank)
        if brk:
            return gen()
        if k in closed:
            # value at iteration start t=count
            return tm.subst(closed[k], {iv: loop.count})
        if nxt is mu:
            return init
        if nxt.op in ('store', 'phi', 'fill') and (init.rank is None or init.rank > 0 or init.op == 'unbound'):
            r = self.close_array(loop, iv, mu, nxt, init)
            if r is not None:
                return r
        if not self.has_mu(nxt, loop):
            if loop not in nxt.free:
                return nxt          # assumes at least one iteration
            return tm.subst(nxt, {iv: last})
        return gen()

    def close_array(self, loop, iv, mu, nxt, init):
        """mu -> store(mu, ix(t), v) with v not depending on other entries: a fill."""
        if nxt.op == 'phi':
            c, a, b = nxt.args
            if self.has_mu(c, loop):
                return None
            ra, rb = self._peel(a, mu), self._peel(b, mu)
            if ra is None or rb is None:
                return None
            if ra == () and rb == ():
                return init
            ixs = (ra or rb)[0]
            if ra and rb and not (len(ra[0]) == len(rb[0]) and all(x is y for x, y in zip(ra[0], rb[0]))):
                return None
            va = ra[1] if ra else tm.idx(mu, ixs)
            vb = rb[1] if rb else tm.idx(mu, ixs)
            nxt = mk('store', mu, *ixs, tm.phi(c, va, vb), rank=mu.rank)
            if nxt.op != 'store':
                return None
        if nxt.op == 'fill' and nxt.args[0] is mu:
            nl = nxt.args[1]
            loops = nxt.args[2:2 + nl]
            ix = nxt.args[2 + nl:-1]
            val = nxt.args[-1]
        elif nxt.op == 'store' and nxt.args[0] is mu:
            loops = ()
            ix = nxt.args[1:-1]
            val = nxt.args[-1]
        else:
            return None
        # injective in t?
        inj = False
        for x in ix:
            if x.op != 'slice' and loop in x.free:
                d, _ = tm.linear(x)
                if d.get(iv) in (1, -1) and loop not in tm.sub(x, tm.mul(num(d[iv]), iv)).free:
                    inj = True
        own = tm.idx(mu, ix)
        if self.has_mu(val, loop):
            if not inj:
                # slot accumulated over the iterations
                e = tm.sub(val, own)
                if any(loop in x.free for x in ix) or self.has_mu(e, loop) or any(x.op == 'slice' for x in ix) or \
                        any(lp.count is None or loop in lp.count.free for lp in loops):
                    return None
                v = tm.add(tm.idx(init, ix), tm.mksum(loop, e))
                return mk('fill', init, len(loops), *loops, *ix, v, rank=init.rank) if loops else tm.store(init, ix, v)
            val = tm.subst(val, {own: tm.idx(init, ix)})
            if self.has_mu(val, loop):
                return None
        if not inj:
            if loops:
                return None
            if all(loop not in x.free for x in ix):
                # same slot overwritten each iteration: the last value stays
                return tm.store(init, ix, tm.subst(val, {iv: tm.sub(loop.count, ONE)}))
            return None
        for lp in loops:
            if lp.count is not None and loop in lp.count.free:
                return None
        return mk('fill', init, len(loops) + 1, *loops, loop, *ix, val, rank=init.rank)

    def _peel(self, t, mu):
        if t is mu:
            return ()
        if t.op == 'store' and t.args[0] is mu:
            return (t.args[1:-1], t.args[-1])
        return None

    # -------------------------------------------------------------- assignment
    def assign(self, tgt, v, node):
        if isinstance(v, _Late):
            v = v.ref
        if isinstance(tgt, ast.Name):
            self.setvar(tgt.id, v)
        elif isinstance(tgt, ast.Attribute):
            obj = self.ev(tgt.value)
            self.setattr_(obj, tgt.attr, v, node)
        elif isinstance(tgt, ast.Subscript):
            obj = self.ev(tgt.value)
            ix = self.ev_index(tgt.slice)
            self.setitem(obj, ix, v, node)
        elif isinstance(tgt, (ast.Tuple, ast.List)):
            n = len(tgt.elts)
            vs = self.unpack(v, n, tgt)
            for t, x in zip(tgt.elts, vs):
                if isinstance(t, ast.Starred):
                    t = t.value
                self.assign(t, x, node)
        elif isinstance(tgt, ast.Starred):
            self.assign(tgt.value, v, node)

    def unpack(self, v, n, tgt):
        star = [i for i, e in enumerate(tgt.elts) if isinstance(e, ast.Starred)]
        if isinstance(v, PhiV):
            v = self.refine_v(v)
        if isinstance(v, PhiV):
            ok = []
            def leaves(x):
                if isinstance(x, PhiV):
                    return leaves(x.a) + leaves(x.b)
                return [x]
            ls = leaves(v)
            if any(isinstance(x, T) and x is NONE for x in ls):
                self.log('none-unpack', v, tgt)
            def pick(x, i):
                if isinstance(x, PhiV):
                    return self.merge_val(x.c, pick(x.a, i), pick(x.b, i))
                it = self.items_of(x)
                if it is not None and len(it) == n:
                    return it[i]
                return tm.idx(self.to_t(x), (num(i),))
            return [pick(v, i) for i in range(n)]
        it = self.items_of(v)
        if it is not None:
            if star:
                i = star[0]
                tail = n - i - 1
                return it[:i] + [self.new_list(it[i:len(it) - tail])] + (it[len(it) - tail:] if tail else [])
            if len(it) == n:
                return it
            self.log('unpack-mismatch', (len(it), n), tgt)
            self.raise_('ValueError', None, tgt)
        if self.is_arr(v):
            return [self.getitem(v, num(i), tgt) for i in range(n)]
        t = self.to_t(v)
        return [tm.idx(t, (num(i),)) for i in range(n)]

    # -------------------------------------------------------------- expressions
    def ev(self, e):
        self.tick()
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            self.log('unhandled-expr', type(e).__name__, e)
            return tm.fresh(type(e).__name__)
        return m(e)

    def e_Constant(self, e):
        v = e.value
        if v is Ellipsis:
            return mk('ellipsis')
        if isinstance(v, bytes):
            return mk('bytes', repr(v))
        return const(v)

    def e_Name(self, e):
        v = self.getvar(e.id, e)
        if isinstance(v, _Late):
            v = v.ref
        if isinstance(v, PhiV):
            v = self.refine_v(v)
        if isinstance(v, T):
            v = self.refine(v)
        return v

    def e_Tuple(self, e):
        return Tup(self.ev_list(e.elts))

    def ev_list(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                it = self.items_of(v)
                if it is None:
                    out.append(mk('star', self.to_t(v)))
                else:
                    out += it
            else:
                out.append(self.ev(x))
        return out

    def e_List(self, e):
        return self.new_list(self.ev_list(e.elts))

    def e_Set(self, e):
        return self.new_list(self.ev_list(e.elts), 'set')

    def e_Dict(self, e):
        pairs = []
        unknown = False
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.ev(v)
                if isinstance(d, Ref) and self.kind(d) == 'dict' and self.st.m.get(('dk', d.oid)) is not None:
                    for kk in self.st.m[('dk', d.oid)]:
                        pairs.append((kk, self.st.m[('d', d.oid, kk)]))
                else:
                    unknown = True
                continue
            pairs.append((self.keyof(self.ev(k)), self.ev(v)))
        r = self.new_dict(pairs)
        if unknown:
            self.st.m[('dk', r.oid)] = None
        return r

    def keyof(self, v):
        return self.to_t(v)

    def e_JoinedStr(self, e):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(const(x.value))
            else:
                v = self.to_t(self.ev(x.value))
                if x.format_spec is not None:
                    spec = self.to_t(self.ev(x.format_spec))
                    parts.append(self.fmt(v, spec))
                else:
                    parts.append(v)
        return tm.fstr(parts)

    def fmt(self, v, spec):
        if tm.isconst(v) and tm.isconst(spec):
            try:
                x = tm.cval(v)
                if isinstance(x, Fraction):
                    x = float(x)
                return const(format(x, tm.cval(spec)))
            except Exception:
                pass
        if tm.isconst(spec) and tm.cval(spec) in ('', 's'):
            return v
        return mk('fmt', v, spec, rank=0)

    def e_FormattedValue(self, e):
        return self.to_t(self.ev(e.value))

    def e_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        return self.binop(e.op, a, b, e)

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return tm.lnot(self.truth(v, e))
        if isinstance(e.op, ast.USub):
            return self.wrap_like([v], tm.neg(self.to_t(v)))
        if isinstance(e.op, ast.UAdd):
            return v
        t = self.to_t(v)
        if t.op in ('lt', 'eq', 'not', 'and', 'or', 'phi'):
            return self.wrap_like([v], tm.lnot(t))
        return self.wrap_like([v], mk('invert', t, rank=t.rank))

    def wrap_like(self, vs, t):
        """fresh array object when an operand is an array object"""
        if any(self.is_arr(v) for v in vs) and t.rank != 0:
            return self.new_arr(t)
        if any(isinstance(v, PhiV) for v in vs) and t.rank != 0:
            return self.new_arr(t)
        return t

    def binop(self, op, a, b, node):
        # sequences
        if isinstance(op, ast.Add):
            ia = self.items_of(a) if not isinstance(a, T) and not self.is_arr(a) else None
            ib = self.items_of(b) if not isinstance(b, T) and not self.is_arr(b) else None
            if ia is not None and ib is not None:
                return Tup(ia + ib) if isinstance(a, Tup) else self.new_list(ia + ib)
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (Tup, Ref)) and not self.is_arr(x) and isinstance(y, T) and tm.isnum(y):
                    it = self.items_of(x)
                    if it is not None and len(it) * tm.cval(y) <= 256:
                        z = it * int(tm.cval(y))
                        return Tup(z) if isinstance(x, Tup) else self.new_list(z)
        if isinstance(op, ast.Mod) and isinstance(a, T) and tm.isstr(a):
            return self.percent(a, b, node)
        ta, tb = self.to_t(a), self.to_t(b)
        if isinstance(op, ast.BitOr) and isinstance(a, Ref) and self.kind(a) == 'dict':
            return mk('dictor', ta, tb)
        t = self.binop_t(op, ta, tb)
        return self.wrap_like([a, b], t)

    def binop_t(self, op, a, b):
        if isinstance(op, ast.Add):
            return tm.add(a, b)
        if isinstance(op, ast.Sub):
            return tm.sub(a, b)
        if isinstance(op, ast.Mult):
            return tm.mul(a, b)
        if isinstance(op, ast.Div):
            return tm.div(a, b)
        if isinstance(op, ast.Pow):
            return tm.power(a, b)
        if isinstance(op, ast.FloorDiv):
            if tm.isnum(a) and tm.isnum(b) and tm.cval(b) != 0:
                return num(tm.cval(a) // tm.cval(b))
            return mk('floordiv', a, b, rank=tm._r(a, b))
        if isinstance(op, ast.Mod):
            if tm.isnum(a) and tm.isnum(b) and tm.cval(b) != 0:
                return num(tm.cval(a) % tm.cval(b))
            return mk('mod', a, b, rank=tm._r(a, b))
        if isinstance(op, ast.MatMult):
            return self.dot(a, b)
        if isinstance(op, ast.BitAnd):
            return mk('and', a, b, rank=tm._r(a, b)) if not (a.op == 'const' or b.op == 'const') else tm.land(a, b)
        if isinstance(op, ast.BitOr):
            return mk('or', a, b, rank=tm._r(a, b)) if not (a.op == 'const' or b.op == 'const') else tm.lor(a, b)
        return mk('bin' + type(op).__name__, a, b, rank=tm._r(a, b))

    def dot(self, a, b):
        if a.rank == 0 or b.rank == 0:
            return tm.mul(a, b)
        if a.rank == 1 and b.rank == 1:
            lp = Loop(tm.length(a), 'dot')
            lp.done = True
            iv = mk('iv', lp, rank=0)
            return tm.mksum(lp, tm.mul(tm.idx(a, (iv,)), tm.idx(b, (iv,))))
        if a.rank is None and b.rank is None:
            return mk('call', 'dot', a, b)
        if (a.rank, b.rank) in ((2, 1), (1, 2)):
            from . import lib
            m, v = (a, b) if a.rank == 2 else (b, a)
            s = lib.tshape(m)
            if s is not None:
                if m is a:
                    return lib.lam(s[0], lambda i: lib.total(s[1], lambda k: tm.mul(tm.idx(m, (i, k)), tm.idx(v, (k,)))))
                return lib.lam(s[1], lambda i: lib.total(s[0], lambda k: tm.mul(tm.idx(m, (k, i)), tm.idx(v, (k,)))))
        if tm.isnum(a) or tm.isnum(b):
            return tm.mul(a, b)
        return mk('call', 'dot', a, b)

    def percent(self, a, b, node):
        args = list(b.items) if isinstance(b, Tup) else [b]
        if not tm.isconst(a):
            return mk('percent', a, *[self.to_t(x) for x in args], rank=0)
        s = tm.cval(a)
        import re
        parts, pos, i = [], 0, 0
        for m in re.finditer(r'%(\((\w+)\))?([-#0 +]*\d*(?:\.\d+)?)([diouxXeEfFgGcrs%])', s):
            parts.append(const(s[pos:m.start()]))
            pos = m.end()
            if m.group(4) == '%':
                parts.append(const('%'))
                continue
            if m.group(2):
                v = self.getitem(b, const(m.group(2)), node)
            else:
                v = args[i] if i < len(args) else tm.fresh('percent')
                i += 1
            v = self.to_t(v)
            if m.group(3):
                parts.append(self.fmt(v, const(m.group(3) + m.group(4))))
            else:
                parts.append(v if m.group(4) in 'sdi' else self.fmt(v, const(m.group(4))))
        parts.append(const(s[pos:]))
        return tm.fstr(parts)

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        res = self.ev(e.values[0])
        for nx in e.values[1:]:
            c = self.truth(res, e)
            k = self.known(c)
            if k is not None:
                if (isand and k) or (not isand and not k):
                    res = self.ev(nx)
                continue
            # evaluate the second operand under the assumption (it may have effects / raise)
            base = self.st
            s1 = base.copy()
            self.assume(s1, c, isand)
            self.st = s1
            v = self.ev(nx)
            s1 = self.st
            s1c = s1.copy()
            self.st = self.merge(c, s1c, base) if isand else self.merge(c, base, s1c)
            self.st.pc = base.pc
            ct = self.truth_in(v, s1, e)
            if self.boolish(res) and self.boolish(v):
                res = tm.land(c, ct) if isand else tm.lor(c, ct)
            else:
                a, b = (v, res) if isand else (res, v)
                res = self.merge_val(c, a, b)
        return res

    def truth_in(self, v, st, node):
        old = self.st
        self.st = st
        try:
            return self.truth(v, node)
        finally:
            self.st = old

    def boolish(self, v):
        return isinstance(v, T) and (v.op in ('lt', 'eq', 'not', 'and', 'or', 'in', 'truth', 'isinstance', 'inrange', 'anyiter') or v in (TRUE, FALSE)
                                     or (v.op == 'phi' and self.boolish(v.args[1]) and self.boolish(v.args[2])))

    def truth(self, v, node):
        if isinstance(v, T):
            v = self.refine(v)
            if v.op == 'const':
                x = tm.cval(v)
                return TRUE if x else FALSE
            if v.op in ('lt', 'eq', 'not', 'and', 'or', 'in', 'isinstance', 'inrange', 'truth'):
                return v
            if v.op == 'phi':
                a, b = self.truth(v.args[1], node), self.truth(v.args[2], node)
                return tm.phi(v.args[0], a, b)
            if v.op == 'fstr' and any(tm.isconst(x) and tm.cval(x) for x in v.args):
                return TRUE
            if v.op in ('list', 'tup', 'arr') :
                return TRUE if v.args else FALSE
            if v.op in ('func', 'ext', 'class', 'module', 'bound', 'obj'):
                return TRUE
            if v.rank == 0 and isinstance(v.info, dict) and v.info.get('sign') == 1:
                return TRUE
            return mk('truth', v, rank=0)
        if isinstance(v, Tup):
            return TRUE if v.items else FALSE
        if isinstance(v, Ref):
            k = self.kind(v)
            if k in ('list', 'set'):
                it = self.st.m[('l', v.oid)]
                if isinstance(it, tuple):
                    return TRUE if it else FALSE
            if k == 'dict':
                ks = self.st.m.get(('dk', v.oid))
                if ks is not None:
                    return TRUE if ks else FALSE
            if k in ('obj', 'class', 'module'):
                return TRUE
            if k == 'sym' and self.meta[v.oid].get('truthy'):
                return TRUE
            return mk('truth', self.to_t(v), rank=0)
        if isinstance(v, PhiV):
            return tm.phi(v.c, self.truth(v.a, node) if v.a is not UNB else FALSE, self.truth(v.b, node) if v.b is not UNB else FALSE)
        return TRUE

    def e_Compare(self, e):
        left = self.ev(e.left)
        res = None
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c)
            r = self.compare(op, left, right, e)
            res = r if res is None else tm.land(res, r)
            left = right
        return res

    def nonnull(self, v):
        if isinstance(v, (Tup, Func, Bound, Ext, Method, Prop)):
            return True
        if isinstance(v, Ref):
            return self.kind(v) != 'sym' or self.meta[v.oid].get('nonnull', True)
        if isinstance(v, T):
            if v.op == 'const':
                return v is not NONE
            if v.op == 'sym' and isinstance(v.info, dict) and v.info.get('sign'):
                return True
            if v.op == 'atfirst':
                return self.nonnull(v.args[-1])
            if v.op == 'phi':
                return self.nonnull(v.args[1]) and self.nonnull(v.args[2])
            return v.op in ('add', 'mul', 'div', 'pow', 'list', 'tup', 'dict', 'arr', 'zeros', 'full', 'fstr', 'store', 'fill', 'sum', 'obj', 'class', 'iv', 'lt', 'not', 'idx', 'sl')
        return False

    def seqkind(self, v):
        if isinstance(v, Tup):
            return 'tuple'
        if isinstance(v, Ref) and self.kind(v) == 'list':
            return 'list'

    def compare(self, op, a, b, node):
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and (a is NONE or b is NONE):
            x = b if a is NONE else a
            if isinstance(x, PhiV):
                r = tm.phi(x.c, self.compare(ast.Is(), x.a, NONE, node), self.compare(ast.Is(), x.b, NONE, node))
            elif x is NONE:
                r = TRUE
            elif self.nonnull(x):
                r = FALSE
            else:
                t = self.to_t(x)
                if t.op == 'phi':
                    r = tm.phi(t.args[0], self.compare(ast.Is(), t.args[1], NONE, node), self.compare(ast.Is(), t.args[2], NONE, node))
                else:
                    r = mk('eq', t, NONE, rank=0)
            return tm.lnot(r) if isinstance(op, (ast.IsNot, ast.NotEq)) else r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(a, b, node)
            return tm.lnot(r) if isinstance(op, ast.NotIn) else r
        if isinstance(op, (ast.Is, ast.IsNot)):
            if isinstance(a, Ref) and isinstance(b, Ref):
                r = TRUE if a == b else FALSE
            elif isinstance(a, T) and isinstance(b, T) and (tm.isconst(a) or tm.isconst(b)):
                r = tm.eq(a, b)
            else:
                r = mk('is', self.to_t(a), self.to_t(b), rank=0)
            return tm.lnot(r) if isinstance(op, ast.IsNot) else r
        if isinstance(a, Ref) and isinstance(b, Ref) and self.kind(a) in ('module', 'class') and self.kind(b) in ('module', 'class') and isinstance(op, (ast.Eq, ast.NotEq)):
            return TRUE if (a == b) == isinstance(op, ast.Eq) else FALSE
        if isinstance(op, (ast.Eq, ast.NotEq)):
            ka, kb = (self.seqkind(x) for x in (a, b))
            if ka and kb:
                ia, ib = self.items_of(a), self.items_of(b)
                if ka != kb:
                    r = FALSE
                elif ia is not None and ib is not None:
                    r = TRUE if len(ia) == len(ib) else FALSE
                    for x, y in zip(ia, ib) if r is TRUE else ():
                        r = tm.land(r, self.truth(self.compare(ast.Eq(), x, y, node), node))
                else:
                    r = None
                if r is not None:
                    return tm.lnot(r) if isinstance(op, ast.NotEq) else r
        ta, tb = self.to_t(a), self.to_t(b)
        if ta.op == 'phi' and tm.isconst(tb) and all(tm.isconst(x) or x.op == 'phi' for x in ta.args[1:]):
            return self.refine_cond(tm.phi(ta.args[0], self.compare(op, ta.args[1], tb, node), self.compare(op, ta.args[2], tb, node)))
        if isinstance(op, ast.Eq):
            r = tm.eq(ta, tb)
        elif isinstance(op, ast.NotEq):
            r = tm.lnot(tm.eq(ta, tb))
        elif isinstance(op, ast.Lt):
            r = tm.lt(ta, tb)
        elif isinstance(op, ast.Gt):
            r = tm.lt(tb, ta)
        elif isinstance(op, ast.LtE):
            r = tm.lnot(tm.lt(tb, ta))
        else:
            r = tm.lnot(tm.lt(ta, tb))
        if self.is_arr(a) or self.is_arr(b):
            if r.rank != 0 and r.op != 'const':
                return self.new_arr(r)
        return r

    def refine_cond(self, t):
        return t

    def contains(self, a, b, node):
        it = self.items_of(b)
        ta = self.to_t(a)
        if isinstance(b, T) and tm.isconst(b) and isinstance(tm.cval(b), str) and tm.isconst(ta) and isinstance(tm.cval(ta), str):
            return TRUE if tm.cval(ta) in tm.cval(b) else FALSE
        if isinstance(b, Ref) and self.kind(b) == 'range' and it is None:
            lo, n, step = self.meta[b.oid]['r']
            if all(tm.isnum(x) for x in (lo, n, step)):
                if tm.isnum(ta):
                    k = (tm.cval(ta) - tm.cval(lo)) / Fraction(tm.cval(step))
                    return TRUE if k.denominator == 1 and 0 <= k < tm.cval(n) else FALSE
                if tm.isconst(ta):
                    return FALSE
                if tm.cval(n) <= 64:
                    it = [num(tm.cval(lo) + i * tm.cval(step)) for i in range(int(tm.cval(n)))]
        if isinstance(b, Ref) and self.kind(b) == 'module' and tm.isconst(ta):
            return TRUE if ('f', b.oid, tm.cval(ta)) in self.st.m else FALSE
        if it is not None:
            r = FALSE
            for x in it:
                if isinstance(a, Ref) and isinstance(x, Ref) and self.kind(a) in ('module', 'class', 'obj') and self.kind(x) in ('module', 'class'):
                    r = tm.lor(r, TRUE if a == x else FALSE)
                    continue
                tx = self.to_t(x)
                if tx is ta and (tx.rank == 0 or tx.op == 'sym'):
                    return TRUE
                r = tm.lor(r, self.compare(ast.Eq(), ta, tx, node) if not isinstance(a, Tup) else tm.eq(ta, tx))
            return r
        tb = self.to_t(b)
        if tm.isconst(ta) and tm.isconst(tb) and isinstance(tm.cval(ta), str) and isinstance(tm.cval(tb), str):
            return TRUE if tm.cval(ta) in tm.cval(tb) else FALSE
        return mk('in', ta, tb, rank=0)

    def e_IfExp(self, e):
        c = self.truth(self.ev(e.test), e.test)
        return self.select(c, lambda: self.ev(e.body), lambda: self.ev(e.orelse))

    def select(self, c, fa, fb):
        k = self.known(c)
        if k is True:
            return fa()
        if k is False:
            return fb()
        base = self.st
        out = []
        for b, f in ((True, fa), (False, fb)):
            s = base.copy()
            self.assume(s, c, b)
            self.st = s
            try:
                v = f()
                out.append((v, self.st))
            except PathDead:
                out.append(None)
        if out[0] is None and out[1] is None:
            raise PathDead()
        if out[0] is None:
            self.st = out[1][1]
            return out[1][0]
        if out[1] is None:
            self.st = out[0][1]
            return out[0][0]
        self.st = self.merge(c, out[0][1], out[1][1])
        return self.merge_val(c, out[0][0], out[1][0])

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v, e)
        return v

    def e_Lambda(self, e):
        fr = self.frames[-1]
        fid = None
        if not (isinstance(fr.fid, tuple) and fr.fid[0] in ('mod', 'cls')):
            fid = (fr.fid,) + fr.parents
        return Func(e, fr.mod, '<lambda>', self.eval_defaults(e.args, 'lambda'), None, fid)

    def e_Attribute(self, e):
        obj = self.ev(e.value)
        return self.getattr_(obj, e.attr, e)

    def e_Subscript(self, e):
        obj = self.ev(e.value)
        ix = self.ev_index(e.slice)
        return self.getitem(obj, ix, e)

    def ev_index(self, s):
        if isinstance(s, ast.Slice):
            return self.slice_t(s)
        if isinstance(s, ast.Tuple):
            return Tup([self.slice_t(x) if isinstance(x, ast.Slice) else self.ev(x) for x in s.elts])
        return self.ev(s)

    def slice_t(self, s):
        f = lambda x: NONE if x is None else self.to_t(self.ev(x))
        lo, hi, st = f(s.lower), f(s.upper), f(s.step)
        if tm.isnum(lo) and tm.cval(lo) == 0:
            lo = NONE
        if tm.isnum(st) and tm.cval(st) == 1:
            st = NONE
        return mk('slice', lo, hi, st)

    def e_Slice(self, e):
        return self.slice_t(e)

    def e_Starred(self, e):
        return self.ev(e.value)

    def e_Await(self, e):
        return self.ev(e.value)

    def e_Yield(self, e):
        v = self.ev(e.value) if e.value else NONE
        fr = self.frames[-1]
        if fr.yields is None:
            fr.yields = []
        fr.yields.append(v)
        return NONE

    def e_YieldFrom(self, e):
        v = self.ev(e.value)
        fr = self.frames[-1]
        if fr.yields is None:
            fr.yields = []
        it = self.items_of(v)
        fr.yields += it if it is not None else [self.to_t(v)]
        return NONE

    def comp(self, e, elt_fn, kind):
        """list/set/dict/generator comprehension"""
        out = []
        symbolic = []
        fr = self.frames[-1]

        def rec(gens):
            if not gens:
                out.append(elt_fn())
                return
            g = gens[0]
            it = self.ev(g.iter)
            items = self.items_of(it)
            if items is None or len(items) > max(400, self.unroll):
                raise _SymComp(it, gens)
            for x in items:
                self.assign(g.target, x, e)
                dead = False
                maybe = None
                for c in g.ifs:
                    t = self.truth(self.ev(c), c)
                    k = self.known(t)
                    if k is False:
                        dead = True
                        break
                    if k is None:
                        maybe = t if maybe is None else tm.land(maybe, t)
                if dead:
                    continue
                if maybe is not None:
                    n0 = len(out)
                    rec(gens[1:])
                    out[n0:] = [('maybe', maybe, x) for x in out[n0:]]
                else:
                    rec(gens[1:])
        try:
            rec(list(e.generators))
        except _SymComp as sc:
            if len(sc.gens) == 1 and len(e.generators) == 1:
                n, fn = self.symiter(sc.it)
                lp = Loop(n, 'comp')
                lp.done = True
                iv = mk('iv', lp, rank=0)
                self.assign(sc.gens[0].target, fn(iv), e)
                conds = TRUE
                for c in sc.gens[0].ifs:
                    conds = tm.land(conds, self.truth(self.ev(c), c))
                v = self.to_t(elt_fn()) if kind != 'dict' else None
                if kind == 'dict':
                    kk, vv = elt_fn()
                    v = mk('pair', self.to_t(kk), self.to_t(vv))
                if conds is TRUE and kind != 'dict':
                    base = mk('zeros', n, rank=1) if v.rank in (0, None) else mk('emptyarr', n)
                    t = mk('fill', base, 1, lp, iv, v, rank=(v.rank + 1) if v.rank is not None else None)
                    return t
                return mk('gen', lp, conds, v)
            for g in sc.gens:
                for nm in ast.walk(g.target):
                    if isinstance(nm, ast.Name):
                        self.setvar(nm.id, tm.fresh('comp'))
            v = elt_fn()
            if kind == 'dict':
                v = v[1]
            return mk('gen2', tm.fresh('comp'), self.to_t(v))
        return out

    def e_ListComp(self, e):
        r = self.comp(e, lambda: self.ev(e.elt), 'list')
        if isinstance(r, T):
            x = self.new('list')
            self.st.m[('l', x.oid)] = r
            return x
        if any(isinstance(x, tuple) for x in r):
            x = self.new('list')
            self.st.m[('l', x.oid)] = mk('filtered', *[mk('maybe', y[1], self.to_t(y[2])) if isinstance(y, tuple) else self.to_t(y) for y in r])
            return x
        return self.new_list(r)

    def e_GeneratorExp(self, e):
        return self.e_ListComp(e)

    def e_SetComp(self, e):
        r = self.e_ListComp(e)
        return r

    def e_DictComp(self, e):
        r = self.comp(e, lambda: (self.keyof(self.ev(e.key)), self.ev(e.value)), 'dict')
        if isinstance(r, T) or any(len(x) == 3 for x in r):
            d = self.new_dict()
            self.st.m[('dk', d.oid)] = None
            return d
        return self.new_dict(r)

    # -------------------------------------------------------------- attributes
    def mro(self, cref):
        out = [cref]
        for b in self.meta[cref.oid].get('bases', []):
            if isinstance(b, Ref) and self.kind(b) == 'class':
                for x in self.mro(b):
                    if x not in out:
                        out.append(x)
        return out

    def cls_lookup(self, cref, name):
        for c in self.mro(cref):
            v = self.st.m.get(('f', c.oid, name))
            if v is not None:
                return v
        return None

    def lookup(self, obj, name):
        """method lookup on an instance, bound"""
        c = self.meta[obj.oid].get('cls')
        if c is None:
            return None
        v = self.cls_lookup(c, name)
        if isinstance(v, Func):
            return Bound(v, obj) if v.kind == 'func' else Bound(v, c) if v.kind == 'classm' else v
        return v

    def sym_child(self, oid, how, name):
        md = self.meta[oid]
        key = name if isinstance(name, str) else tm.show(name) if isinstance(name, T) else str(name)
        path = f"{md['path']}.{key}" if how == 'attr' else f"{md['path']}[{key}]"
        coid = ('S', path)
        if coid not in self.meta:
            self.meta[coid] = dict(kind='sym', roots=md['roots'], path=path, term=tm.sym(path), rank=None, nonnull=False,
                                   parent=oid, pstep=(how, name))
        return Ref(coid)

    def getattr_(self, obj, name, node):
        if isinstance(obj, _Late):
            obj = obj.ref
        if isinstance(obj, PhiV):
            obj = self.refine_v(obj)
        if isinstance(obj, PhiV):
            return self.phi_map(obj, lambda x: self.getattr_(x, name, node), node, f'.{name}')
        if isinstance(obj, Ref):
            md = self.meta[obj.oid]
            k = md['kind']
            if k == 'module':
                v = self.st.m.get(('f', obj.oid, name))
                if v is None:
                    sub = md['name'] + '.' + name
                    if self.modpath(sub) and md['path'].endswith('__init__.py') and sub in self.modules:
                        return self.modules[sub]
                    self.log('missing-attr', (md['name'], name), node)
                    return tm.sym(f"missing:{md['name']}.{name}")
                self.log('modread', (md['name'], name), node) if md['name'].startswith('pyrtlib._lineshape') else None
                if isinstance(v, _Late):
                    v = v.ref
                r, conds = self.strip_unb(self.refine_v(v))
                if conds:
                    self.log('missing-attr', (md['name'], name), node)
                    if r is UNB:
                        return tm.sym(f"missing:{md['name']}.{name}")
                if isinstance(r, T):
                    r = self.refine(r)
                return r
            if k == 'class':
                v = self.cls_lookup(obj, name)
                if v is None:
                    if name == '__name__':
                        return const(md['name'])
                    if name == '__mro__' or name.startswith('__'):
                        return tm.fresh('class.' + name)
                    if any(isinstance(b, Ext) for c in self.mro(obj) for b in self.meta[c.oid].get('bases', []) if not (isinstance(b, Ext) and b.name == 'builtins.object')):
                        return mk('attr', self.to_t(obj), name)
                    self.log('missing-attr', (md['qual'], name), node)
                    return tm.sym(f"missing:{md['qual']}.{name}")
                if isinstance(v, Func):
                    return Bound(v, obj) if v.kind == 'classm' else v
                if isinstance(v, Prop):
                    self.log('property-object', (md['qual'], name), node)
                    return mk('propobj', md['qual'], name)
                r, conds = self.strip_unb(self.refine_v(v))
                if isinstance(r, T):
                    r = self.refine(r)
                return r
            if k == 'obj':
                cls = md['cls']
                cv = self.cls_lookup(cls, name)
                if isinstance(cv, Prop):
                    if cv.fget is None:
                        return tm.fresh('prop')
                    return self.call(Bound(cv.fget, obj), [], {}, node)
                v = self.st.m.get(('f', obj.oid, name))
                if v is not None:
                    if isinstance(v, _Late):
                        v = v.ref
                    v = self.refine_v(v)
                    r, conds = self.strip_unb(v)
                    if conds:
                        if cv is not None:
                            return self.merge_val(conds[0], cv, r) if len(conds) == 1 else r
                        self.log('maybe-missing-attr', (self.meta[cls.oid]['qual'], name, conds), node)
                        if r is UNB:
                            self.raise_('AttributeError', None, node)
                    if isinstance(r, T):
                        r = self.refine(r)
                    return r
                if cv is not None:
                    if isinstance(cv, Func):
                        return Bound(cv, obj) if cv.kind == 'func' else Bound(cv, cls) if cv.kind == 'classm' else cv
                    return cv
                if name == '__class__':
                    return cls
                if name == '__dict__':
                    return tm.fresh('__dict__')
                ga = self.cls_lookup(cls, '__getattr__')
                if ga is not None:
                    return self.call(Bound(ga, obj), [const(name)], {}, node)
                if any(isinstance(b, Ext) and b.name not in ('builtins.object',) for c in self.mro(cls) for b in self.meta[c.oid].get('bases', [])):
                    return mk('attr', mk('obj', str(obj.oid)), name)
                if md.get('open'):
                    return self.open_field(obj, name)
                self.log('missing-attr', (self.meta[cls.oid]['qual'], name), node)
                self.raise_('AttributeError', None, node)
            if k in ('arr', 'view'):
                return self.arr_attr(obj, name, node)
            if k == 'sym':
                kk = ('f', obj.oid, name)
                if kk in self.st.m:
                    v = self.st.m[kk]
                    return self.strip_unb(self.refine_v(v))[0]
                if name in ARR_METHODS or (md.get('rank') is not None and name in ('T', 'shape', 'size', 'ndim', 'dtype')):
                    return self.arr_attr(obj, name, node)
                if name in ('T', 'shape', 'size', 'ndim', 'dtype', 'values', 'loc', 'iloc', 'at', 'iat'):
                    return self.arr_attr(obj, name, node)
                if name in LIST_METHODS or name in DICT_METHODS:
                    return Method(obj, name)
                return self.sym_child(obj.oid, 'attr', name)
            if k in ('list', 'set', 'dict', 'range', 'iter'):
                return Method(obj, name)
            return Method(obj, name)
        if isinstance(obj, Ext):
            return self.ext_attr(obj, name)
        if isinstance(obj, Super):
            for c in self.mro(obj.cls)[1:]:
                v = self.st.m.get(('f', c.oid, name))
                if isinstance(v, Func):
                    return Bound(v, obj.obj) if v.kind != 'static' else v
            if name == '__init__':
                return Ext('builtins.object.__init__')
            return tm.fresh('super.' + name)
        if isinstance(obj, Tup):
            if obj.names and name in obj.names:
                return obj.items[obj.names.index(name)]
            return Method(obj, name)
        if isinstance(obj, (Func, Bound)):
            if name == '__name__':
                return const(obj.name.split('.')[-1] if isinstance(obj, Func) else obj.f.name.split('.')[-1])
            return tm.fresh('func.' + name)
        if isinstance(obj, T):
            obj = self.refine(obj)
            if obj is NONE:
                self.log('none-attr', (name,), node)
                self.raise_('AttributeError', None, node)
            if obj.op == 'phi':
                return self.phi_map(PhiV(obj.args[0], obj.args[1], obj.args[2]), lambda x: self.getattr_(x, name, node), node, f'.{name}')
            r = self.nc_attr(obj, name, node)
            if r is not None:
                return r
            if name == 'real':
                return tm.call('real', obj)
            if name == 'imag':
                return tm.call('imag', obj)
            return Method(obj, name)
        return tm.fresh('attr.' + name)

    def open_field(self, obj, name):
        md = self.meta[obj.oid]
        v = md['open'](self, obj, name)
        self.st.m[('f', obj.oid, name)] = v
        return v

    def phi_map(self, v, f, node, what=''):
        """apply f to the alternatives of a gated value"""
        base = self.st
        out = []
        alts = ((True, v.a), (False, v.b))
        for b, x in alts:
            if x is UNB:
                out.append(None)
                continue
            s = base.copy()
            self.assume(s, v.c, b)
            self.st = s
            try:
                if isinstance(x, T) and x is NONE and what:
                    self.log('none-deref', (what,), node)
                r = f(x)
                out.append((r, self.st))
            except PathDead:
                out.append(None)
        if out[0] is None and out[1] is None:
            raise PathDead()
        if out[0] is None or out[1] is None:
            o = out[0] or out[1]
            self.st = o[1]
            return o[0]
        self.st = self.merge(v.c, out[0][1], out[1][1])
        return self.merge_val(v.c, out[0][0], out[1][0])

    def setattr_(self, obj, name, v, node, aug=False):
        if isinstance(v, _Late):
            v = v.ref
        if isinstance(obj, PhiV):
            obj = self.refine_v(obj)
        if isinstance(obj, PhiV):
            self.phi_map(obj, lambda x: (self.setattr_(x, name, v, node), NONE)[1], node, f'.{name} =')
            return
        if isinstance(obj, Ref):
            md = self.meta[obj.oid]
            k = md['kind']
            if k == 'obj':
                cv = self.cls_lookup(md['cls'], name)
                if isinstance(cv, Prop):
                    if cv.fset is not None:
                        self.call(Bound(cv.fset, obj), [v], {}, node)
                        return
                    self.log('readonly-property', (name,), node)
                    self.raise_('AttributeError', None, node)
                if md['roots']:
                    self.log('mutate', ('attribute ' + name, obj, md['roots']), node)
                self.st.m[('f', obj.oid, name)] = v
                self.log('setattr', (obj, name), node)
                return
            if k == 'sym':
                self.log('mutate', ('attribute ' + name, obj, md['roots']), node)
                self.st.m[('f', obj.oid, name)] = v
                return
            if k in ('class', 'module'):
                self.log('setglobal', (md.get('qual', md['name']), name, v), node)
                self.st.m[('f', obj.oid, name)] = v
                return
            if k in ('arr', 'view'):
                self.log('mutate', ('attribute ' + name, obj, md['roots']), node)
                return
        self.log('setattr-opaque', (name,), node)

    # -------------------------------------------------------------- items
    def getitem(self, obj, ix, node):
        if isinstance(obj, _Late):
            obj = obj.ref
        if isinstance(obj, PhiV):
            obj = self.refine_v(obj)
        if isinstance(obj, PhiV):
            return self.phi_map(obj, lambda x: self.getitem(x, ix, node), node, '[]')
        if isinstance(ix, PhiV):
            return self.phi_map(ix, lambda x: self.getitem(obj, x, node), node)
        if isinstance(obj, Ref) and self.kind(obj) == 'module' and isinstance(ix, T) and tm.isconst(ix) and isinstance(tm.cval(ix), str):
            return self.getattr_(obj, tm.cval(ix), node)
        if isinstance(obj, T):
            obj = self.refine(obj)
            if obj is NONE:
                self.log('none-attr', ('[]',), node)
                self.raise_('TypeError', None, node)
            if obj.op == 'phi' and not (self.boolish(obj)):
                pass
        if isinstance(obj, Tup) or (isinstance(obj, Ref) and self.kind(obj) in ('list', 'range', 'iter')):
            it = self.items_of(obj)
            t = self.to_t(ix)
            if it is not None:
                if tm.isnum(t):
                    i = int(tm.cval(t))
                    if -len(it) <= i < len(it):
                        return it[i]
                    self.log('index-error', (i, len(it)), node)
                    self.raise_('IndexError', None, node)
                if t.op == 'slice' and all(x is NONE or tm.isnum(x) for x in t.args):
                    a, b, c = [None if x is NONE else int(tm.cval(x)) for x in t.args]
                    sub = it[a:b:c]
                    return Tup(sub) if isinstance(obj, Tup) else self.new_list(sub)
                if t.op == 'phi' and all(tm.isnum(x) or x.op == 'phi' for x in t.args[1:]):
                    return self.phi_map(PhiV(t.args[0], t.args[1], t.args[2]), lambda x: self.getitem(obj, x, node), node)
                if isinstance(t, T) and t.op in ('lt', 'eq', 'not', 'and', 'or', 'truth') and len(it) == 2:
                    return self.merge_val(t, it[1], it[0])
                return tm.idx(mk('arr', *[self.to_t(x) for x in it], rank=1), (t,)) if t.op != 'slice' else tm.fresh('slice')
            if isinstance(obj, Ref) and self.kind(obj) == 'range':
                n, fn = self.symiter(obj)
                if t.op != 'slice':
                    return fn(t)
            return tm.idx(self.to_t(obj), (t,))
        if isinstance(obj, Ref):
            md = self.meta[obj.oid]
            k = md['kind']
            if k == 'dict':
                return self.dict_get(obj, ix, node)
            if k == 'obj':
                m = self.lookup(obj, '__getitem__')
                if m is not None:
                    return self.call(m, [ix], {}, node)
                return tm.fresh('item')
            if k == 'sym' and (isinstance(ix, T) and tm.isconst(ix) and isinstance(tm.cval(ix), str)):
                kk = ('d', obj.oid, ix)
                if kk in self.st.m:
                    return self.strip_unb(self.refine_v(self.st.m[kk]))[0]
                return self.sym_child(obj.oid, 'item', ix)
            if k == 'sym' and md.get('rank') is None and isinstance(ix, T) and ix.op != 'slice' and (md.get('mapping') or (ix.rank == 0 and ix.op in ('sym', 'idx') and md.get('mapping'))):
                return self.sym_child(obj.oid, 'item', ix)
            if k == 'sym' and isinstance(ix, Ref) and self.kind(ix) == 'sym' and md.get('mapping'):
                return self.sym_child(obj.oid, 'item', self.to_t(ix))
            if k in ('arr', 'view', 'sym'):
                return self.arr_get(obj, ix, node)
            if k == 'class':
                return obj     # typing subscript
            return tm.idx(self.to_t(obj), self.ixt(ix))
        if isinstance(obj, Ext):
            return obj
        t = self.to_t(obj)
        r = self.nc_item(t, ix, node)
        if r is not None:
            return r
        if tm.isconst(t) and isinstance(tm.cval(t), str):
            it = self.to_t(ix)
            if tm.isnum(it):
                try:
                    return const(tm.cval(t)[int(tm.cval(it))])
                except IndexError:
                    self.raise_('IndexError', None, node)
            if it.op == 'slice' and all(x is NONE or tm.isnum(x) for x in it.args):
                a, b, c = [None if x is NONE else int(tm.cval(x)) for x in it.args]
                return const(tm.cval(t)[a:b:c])
        if t.op == 'dict':
            kt = self.to_t(ix)
            for p in t.args:
                if p.args[0] is kt:
                    return p.args[1]
        return tm.idx(t, self.ixt(ix))

    def ixt(self, ix):
        if isinstance(ix, Tup):
            return tuple(self.to_t(x) for x in ix.items)
        return (self.to_t(ix),)

    def dict_get(self, obj, ix, node, default=None):
        k = self.keyof(ix)
        m = self.st.m
        ks = m.get(('dk', obj.oid))
        kk = ('d', obj.oid, k)
        if kk in m:
            v = self.refine_v(m[kk])
            r, conds = self.strip_unb(v)
            if conds and r is UNB:
                self.raise_('KeyError', None, node)
            return r
        if ks is None:
            return tm.idx(self.to_t(obj), (k,))
        if tm.isconst(k) and all(tm.isconst(x) for x in ks):
            if default is not None:
                return default
            self.log('key-error', (tm.cval(k),), node)
            self.raise_('KeyError', None, node)
        # symbolic key over a finite table
        res = default
        ok = FALSE
        for x in reversed(ks):
            if not tm.isconst(x):
                return tm.idx(self.to_t(obj), (k,))
            v = m[('d', obj.oid, x)]
            c = self.compare(ast.Eq(), k, x, node)
            ok = tm.lor(c, ok)
            res = v if res is None else self.merge_val(c, v, res)
        if res is None:
            self.raise_('KeyError', None, node)
        if default is None:
            st2 = self.st.copy()
            self.assume(st2, ok, False)
            self.raises.append(('KeyError', None, st2.pc, st2 if self.try_depth else None, node, tuple(self.stack), self.frames[-1].func if self.frames else '?'))
            if self.known(ok) is False:
                raise PathDead()
            if self.known(ok) is None:
                self.assume(self.st, ok, True)
        return res

    def arr_get(self, obj, ix, node):
        t = self.ixt(ix)
        c = self.content(obj)
        t = tuple(mk('slice', NONE, NONE, NONE) if x.op == 'ellipsis' else x for x in t)
        basic = all(x.op == 'slice' or x.rank == 0 or tm.isnum(x) or x is NONE or x.op in ('iv',) for x in t)
        has_slice = any(x.op == 'slice' for x in t)
        rk = c.rank
        nints = sum(1 for x in t if x.op != 'slice' and x is not NONE)
        strkey = any(tm.isconst(x) and isinstance(tm.cval(x), str) for x in t)
        if strkey:
            return tm.idx(c, t)
        if basic and (has_slice or (rk is not None and nints < rk)):
            return self.view(obj, t)
        if not basic:
            # fancy/boolean or unknown-rank index
            r = tm.idx(c, t)
            if r.rank == 0:
                return r
            if rk is not None and all((x.rank == 0 or x.op == 'slice') for x in t) and nints >= rk:
                return r
            if any(x.rank not in (0, None) for x in t):
                return self.new_arr(r)
            if any(x.rank is None for x in t):
                return mk('idx', c, *t, rank=0 if rk == 1 else None) if r.op == 'idx' else r
            return r
        return tm.idx(c, t)

    def view(self, base, sel):
        md = self.meta[base.oid]
        oid = ('V', base.oid, tuple(x.id for x in sel))
        if oid not in self.meta:
            self.meta[oid] = dict(kind='view', roots=md['roots'], base=base, sel=sel)
        return Ref(oid)

    def alias_view(self, base, wrap):
        """same storage, different arrangement (reshape/transpose)"""
        md = self.meta[base.oid]
        oid = ('W', base.oid, wrap)
        if oid not in self.meta:
            self.meta[oid] = dict(kind='view', roots=md['roots'], base=base, sel=None, wrap=wrap)
        return Ref(oid)

    def setitem(self, obj, ix, v, node):
        if isinstance(v, _Late):
            v = v.ref
        if isinstance(obj, PhiV):
            obj = self.refine_v(obj)
        if isinstance(obj, PhiV):
            base = obj
            for b, x in ((True, obj.a), (False, obj.b)):
                if isinstance(x, Ref) and self.is_arr(x):
                    old = self.content(x)
                    new = tm.store(old, self.ixt(ix), self.to_t(v))
                    self.effect(x, 'item store', node)
                    self.set_content(x, tm.phi(obj.c, new, old) if b else tm.phi(obj.c, old, new))
                elif x is not UNB and not isinstance(x, T):
                    self.setitem(x, ix, v, node)
            return
        if isinstance(obj, Ref):
            md = self.meta[obj.oid]
            k = md['kind']
            if k == 'module' and isinstance(ix, T) and tm.isconst(ix) and isinstance(tm.cval(ix), str):
                self.setattr_(obj, tm.cval(ix), v, node)
                return
            if k == 'dict':
                if md['roots']:
                    self.effect(obj, 'item store', node)
                key = self.keyof(ix)
                ks = self.st.m.get(('dk', obj.oid))
                self.st.m[('d', obj.oid, key)] = v
                if ks is not None and key not in ks:
                    self.st.m[('dk', obj.oid)] = ks + (key,)
                return
            if k in ('list',):
                self.effect(obj, 'item store', node)
                it = self.st.m[('l', obj.oid)]
                t = self.to_t(ix)
                if isinstance(it, tuple) and tm.isnum(t) and -len(it) <= tm.cval(t) < len(it):
                    l = list(it)
                    l[int(tm.cval(t))] = v
                    self.st.m[('l', obj.oid)] = tuple(l)
                else:
                    self.st.m[('l', obj.oid)] = tm.store(self._list_t(it), self.ixt(ix), self.to_t(v))
                return
            if k == 'sym' and isinstance(ix, T) and (tm.isconst(ix) and isinstance(tm.cval(ix), str) or md.get('mapping')):
                self.effect(obj, 'item store', node)
                self.st.m[('d', obj.oid, ix)] = v
                return
            if k in ('arr', 'view', 'sym'):
                self.effect(obj, 'item store', node)
                tv = self.to_t(v)
                tix = self.ixt(ix)
                js = self.items_of(ix) if isinstance(ix, Ref) and self.kind(ix) == 'list' else None
                if js is not None and 0 < len(js) <= 64 and all(isinstance(j, T) and tm.isnum(j) for j in js) and tv.rank in (0, 1):
                    c = self.content(obj)
                    for i, j in enumerate(js):
                        c = tm.store(c, (j,), tv if tv.rank == 0 else tm.idx(tv, (num(i),)))
                    self.set_content(obj, c)
                    return
                self.set_content(obj, tm.store(self.content(obj), tix, tv))
                return
            if k == 'obj':
                m = self.lookup(obj, '__setitem__')
                if m is not None:
                    self.call(m, [ix, v], {}, node)
                    return
                self.effect(obj, 'item store', node)
                return
        self.log('setitem-opaque', (obj, ix, v), node)
        # immutable opaque term: rebind when it is held by a simple name/attribute
        tgt = None
        for tgt in (getattr(node, 'targets', None) or [getattr(node, 'target', None)]):
            if isinstance(tgt, ast.Subscript):
                nt = tm.store(self.to_t(obj), self.ixt(ix), self.to_t(v)) if isinstance(obj, T) else None
                if nt is None:
                    return
                if isinstance(tgt.value, ast.Name):
                    self.setvar(tgt.value.id, nt)
                elif isinstance(tgt.value, ast.Attribute):
                    o = self.ev(tgt.value.value)
                    self.setattr_(o, tgt.value.attr, nt, node)

    # -------------------------------------------------------------- calls
    def e_Call(self, e):
        f = self.ev(e.func)
        if isinstance(f, Ext) and f.name == 'builtins.super':
            fr = self.frames[-1]
            if e.args:
                c = self.ev(e.args[0])
                o = self.ev(e.args[1])
            else:
                c, o = fr.cls, fr.selfv
            if isinstance(c, Ref) and o is not None:
                return Super(c, o)
            return tm.fresh('super')
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                it = self.items_of(v)
                if it is None:
                    args.append(mk('star', self.to_t(v)))
                else:
                    args += it
            else:
                args.append(self.ev(a))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                if isinstance(v, Ref) and self.kind(v) == 'dict' and self.st.m.get(('dk', v.oid)) is not None:
                    for kk in self.st.m[('dk', v.oid)]:
                        if tm.isconst(kk):
                            kw[tm.cval(kk)] = self.st.m[('d', v.oid, kk)]
                else:
                    kw['**'] = v
            else:
                kw[k.arg] = v
        return self.call(f, args, kw, e)

    def call(self, f, args, kw, node):
        if isinstance(f, _Late):
            f = f.ref
        args = [a.ref if isinstance(a, _Late) else a for a in args]
        if isinstance(f, PhiV):
            f = self.refine_v(f)
        if isinstance(f, PhiV):
            return self.phi_map(f, lambda x: self.call(x, args, kw, node), node)
        if isinstance(f, Bound):
            return self.call_func(f.f, [f.self] + args, kw, node)
        if isinstance(f, Func):
            return self.call_func(f, args, kw, node)
        if isinstance(f, Partial):
            k2 = dict(f.kw)
            k2.update(kw)
            return self.call(f.f, list(f.args) + args, k2, node)
        if isinstance(f, Ext):
            return self.call_ext(f.name, args, kw, node)
        if isinstance(f, Method):
            return self.call_method(f.obj, f.name, args, kw, node)
        if isinstance(f, Ref):
            k = self.kind(f)
            if k == 'class':
                return self.instantiate(f, args, kw, node)
            if k == 'obj':
                m = self.lookup(f, '__call__')
                if m is not None:
                    return self.call(m, args, kw, node)
            if k == 'sym':
                return self.opaque_call(self.to_t(f), args, kw, node)
            if k in ('arr', 'view', 'list', 'dict'):
                self.log('call-noncallable', (k,), node)
                self.raise_('TypeError', None, node)
        return self.opaque_call(self.to_t(f), args, kw, node)

    def opaque_call(self, ft, args, kw, node):
        ts = [self.to_t(a) for a in args] + [mk('kw', k, self.to_t(v)) for k, v in sorted(kw.items())]
        self.log('opaque-call', (ft, tuple(args), dict(kw)), node)
        return mk('opcall', ft, *ts)

    def instantiate(self, cref, args, kw, node):
        md = self.meta[cref.oid]
        qual = md['qual']
        if qual in self.func_hooks:
            r = self.func_hooks[qual](self, args, kw, node)
            if r is not None:
                return r
        nt = self.namedtuple_fields(cref)
        if nt is not None:
            names, defaults = nt
            vals = dict(zip(names, args))
            vals.update(kw)
            for n, d in defaults.items():
                vals.setdefault(n, d)
            return Tup([vals.get(n, NONE) for n in names], names)
        obj = self.new('obj', frozenset(), cls=cref)
        init = self.cls_lookup(cref, '__init__')
        dec = [ast.unparse(d) for d in md['node'].decorator_list]
        if isinstance(init, Func):
            self.call_func(init, [obj] + args, kw, node)
        elif any('dataclass' in d for d in dec):
            self.dataclass_init(cref, obj, args, kw, node)
        else:
            # builtin base __init__ (Exception etc.)
            for i, a in enumerate(args):
                self.st.m[('f', obj.oid, f'__arg{i}')] = a
        return obj

    def namedtuple_fields(self, cref):
        md = self.meta[cref.oid]
        for b in md.get('bases', []):
            if isinstance(b, Ext) and b.name.endswith('NamedTuple'):
                names, defaults = [], {}
                for s in md['node'].body:
                    if isinstance(s, ast.AnnAssign):
                        names.append(s.target.id)
                        if s.value is not None:
                            defaults[s.target.id] = self.st.m.get(('f', cref.oid, s.target.id), NONE)
                return names, defaults
        return None

    def dataclass_init(self, cref, obj, args, kw, node):
        fields = []
        for c in reversed(self.mro(cref)):
            for s in self.meta[c.oid]['node'].body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    if s.target.id not in [f[0] for f in fields]:
                        fields.append((s.target.id, s.value, c))
        vals = {}
        for (n, d, c), a in zip(fields, args):
            vals[n] = a
        for k, v in kw.items():
            if k not in [f[0] for f in fields]:
                self.log('bad-call', (self.meta[cref.oid]['qual'], k), node)
                self.raise_('TypeError', None, node)
            vals[k] = v
        for n, d, c in fields:
            if n in vals:
                v = vals[n]
            elif d is not None:
                v = self.st.m.get(('f', c.oid, n), NONE)
            else:
                self.log('bad-call', (self.meta[cref.oid]['qual'], n), node)
                v = tm.fresh('missing-arg')
            # dataclass fields behave as plain attributes unless a property of that name exists
            self.setattr_(obj, n, v, node)
        pi = self.cls_lookup(cref, '__post_init__')
        if isinstance(pi, Func):
            self.call_func(pi, [obj], {}, node)

    def bind_args(self, f, args, kw, node):
        a = f.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        out = {}
        extra = []
        stars = [x for x in args if isinstance(x, T) and x.op == 'star']
        for i, v in enumerate(args):
            if isinstance(v, T) and v.op == 'star':
                for j in range(i, len(pos)):
                    out.setdefault(pos[j], tm.idx(v.args[0], (num(j - i),)))
                break
            if i < len(pos):
                out[pos[i]] = v
            else:
                extra.append(v)
        kwonly = [p.arg for p in a.kwonlyargs]
        kwx = {}
        for k, v in kw.items():
            if k == '**':
                continue
            if k in pos or k in kwonly:
                if k in out:
                    self.log('bad-call', (f.name, k, 'duplicate'), node)
                out[k] = v
            else:
                kwx[k] = v
        if extra and a.vararg is None:
            self.log('bad-call', (f.name, 'too many positional arguments'), node)
            self.raise_('TypeError', None, node)
        if kwx and a.kwarg is None:
            self.log('bad-call', (f.name, 'unexpected keyword ' + ','.join(kwx)), node)
            self.raise_('TypeError', None, node)
        for p in pos + kwonly:
            if p not in out:
                if p in f.defaults:
                    out[p] = f.defaults[p]
                elif '**' in kw or stars:
                    out[p] = tm.fresh('kwarg:' + p)
                else:
                    self.log('bad-call', (f.name, 'missing argument ' + p), node)
                    self.raise_('TypeError', None, node)
        if a.vararg is not None:
            out[a.vararg.arg] = Tup(extra)
        if a.kwarg is not None:
            d = self.new_dict([(const(k), v) for k, v in kwx.items()])
            if '**' in kw:
                self.st.m[('dk', d.oid)] = None
            out[a.kwarg.arg] = d
        return out

    def call_func(self, f, args, kw, node):
        qn = f'{f.mod}.{f.name}'
        if qn in self.func_hooks:
            r = self.func_hooks[qn](self, args, kw, node)
            if r is not None:
                return r
        depth = sum(1 for s in self.stack if s == (f.mod, f.name))
        if depth > 4 or len(self.stack) > 60:
            self.log('recursion', (qn,), node)
            return tm.fresh('recursion:' + qn)
        env = self.bind_args(f, args, kw, node)
        self.log('call', (qn, env), node)
        self.analysed.add(qn)
        self.nfid += 1
        fid = self.nfid
        fr = Frame(fid, f.name, f.mod, f.cls, self.st.pc)
        fr.parents = f.fid or ()
        if f.cls is not None and f.kind in ('func', 'classm') and args:
            fr.selfv = args[0]
        body = f.node.body if not isinstance(f.node, ast.Lambda) else None
        self._locals[fid] = local_names(f.node) if body is not None else ()
        for k, v in env.items():
            self.st.m[('v', fid, k)] = v
        self.frames.append(fr)
        self.stack.append((f.mod, f.name))
        base_pc = self.st.pc
        try:
            if body is None:
                v = self.ev(f.node.body)
                return v
            st = self.block(body, self.st)
        finally:
            self.frames.pop()
            self.stack.pop()
        if is_generator(f.node):
            ys = fr.yields or []
            if st is None and fr.returns:
                st = fr.returns[-1].st
            self.st = st if st is not None else self.st
            lst = self.new('iter', items=list(ys), count=num(len(ys)), fn=None)
            self.cleanup(fid, self.st, base_pc)
            return lst
        exits = [(conj(x.pc[len(base_pc):]), x.st, x.val) for x in fr.returns]
        if st is not None:
            exits.append((TRUE, st, NONE))
        if not exits:
            raise PathDead()
        st, val = self.merge_exits(exits)
        if len(exits) > 1 or True:
            # facts that hold on every normal return
            st = State(st.m, base_pc) if len(exits) > 1 else st
        self.st = st
        if len(exits) == 1 and exits[0][0] is not TRUE:
            pass
        self.cleanup(fid, st, base_pc)
        return val

    def cleanup(self, fid, st, pc):
        if not self._closure_used.get(fid):
            for k in [k for k in st.m if k[0] == 'v' and k[1] == fid]:
                del st.m[k]


    # -------------------------------------------------------------- library models (see lib.py)
    def arr_attr(self, obj, name, node):
        from . import lib
        return lib.arr_attr(self, obj, name, node)

    def ext_attr(self, obj, name):
        from . import lib
        return lib.ext_attr(self, obj, name)

    def call_ext(self, name, args, kw, node):
        from . import lib
        return lib.call_ext(self, name, args, kw, node)

    def call_method(self, obj, name, args, kw, node):
        from . import lib
        return lib.call_method(self, obj, name, args, kw, node)

    def nc_attr(self, t, name, node):
        from . import lib
        return lib.nc_attr(self, t, name, node)

    def nc_item(self, t, ix, node):
        from . import lib
        return lib.nc_item(self, t, ix, node)


class _SymComp(Exception):
    def __init__(self, it, gens):
        self.it, self.gens = it, gens


class _Late:
    def __init__(self, ref, key, t):
        self.ref, self.key, self.t = ref, key, t


def local_names(fn):
    if hasattr(fn, '_locals'):
        return fn._locals
    out = set()
    glob = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            out.add(n.name)

        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_Global(self, n):
            glob.update(n.names)

        def visit_Import(self, n):
            for a in n.names:
                out.add(a.asname or a.name.split('.')[0])

        def visit_ImportFrom(self, n):
            for a in n.names:
                out.add(a.asname or a.name)

        def visit_ExceptHandler(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)
    v = V()
    for s in fn.body:
        v.visit(s)
    for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs:
        out.add(a.arg)
    fn._locals = out - glob
    return fn._locals


def is_generator(fn):
    if hasattr(fn, '_isgen'):
        return fn._isgen
    r = False
    st = list(fn.body) if not isinstance(fn, ast.Lambda) else []
    while st:
        n = st.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            r = True
            break
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))
    fn._isgen = r
    return r


class NCSchema:
    """Schema (group, variable, shape) of the bundled netCDF line tables; data files, not code."""
    cache = {}

    def get(self, path):
        if path not in self.cache:
            from netCDF4 import Dataset
            ds = Dataset(path, 'r')
            try:
                self.cache[path] = {g: {v: tuple(x.shape) for v, x in grp.variables.items()} for g, grp in ds.groups.items()}
            finally:
                ds.close()
        return self.cache[path]

    vals = {}

    def small(self, path, g, v):
        """the numbers of a scalar or short header variable of a table"""
        k = (path, g, v)
        if k not in self.vals:
            from netCDF4 import Dataset
            ds = Dataset(path, 'r')
            try:
                x = ds.groups[g].variables[v][:].data
                self.vals[k] = [float(y) for y in x.ravel()]
            finally:
                ds.close()
        return self.vals[k]


ARR_METHODS = {'any', 'all', 'sum', 'min', 'max', 'mean', 'copy', 'astype', 'reshape', 'flatten', 'ravel', 'item', 'tolist',
               'argmin', 'argmax', 'fill', 'sort', 'transpose', 'squeeze', 'cumsum', 'dot', 'round', 'clip', 'std', 'nonzero',
               'take', 'repeat', 'conj', 'conjugate', 'prod', 'view', 'swapaxes', 'put', 'resize', 'itemset', 'setflags', 'argsort', 'to_numpy', 'ptp', 'var', 'diagonal', 'byteswap', 'partition', 'searchsorted', 'cumprod'}
TOTAL = {'posixpath.join', 'os.path.join', 'io.BytesIO', 'io.StringIO', 'warnings.warn'}
LIST_METHODS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'reverse', 'index', 'count'}
DICT_METHODS = {'keys', 'values', 'items', 'get', 'update', 'setdefault', 'popitem'}

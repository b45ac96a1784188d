"""C21: opened files and data sets are closed by the call that opened them."""
import ast
import os

from ..interp import REPO
from ..core import *
from ..lint import Package
from ..release import Analysis

EXPLANATION = ('Typestate analysis over the syntax tree of every function and module body: each opening of a file or data set is followed along every explicit path (branches with remembered tests, loops, with, try/except/finally, '
               'helpers that return or close what they are given, collections of openings) to every exit of the scope, and must be closed there. Statements inside a try body may leave for its handlers at any point.')

POSITIVE = '''
from netCDF4 import Dataset
def early(f):
    nc = Dataset(f)
    if not nc.variables:
        return None
    nc.close()
def handler(f):
    try:
        nc = Dataset(f)
        x = nc.variables['a'][:]
        nc.close()
    except KeyError:
        return None
    return x
def loop(fs):
    for f in fs:
        nc = Dataset(f)
        if not nc.groups:
            continue
        nc.close()
def made(f):
    return Dataset(f)
def user(f):
    nc = made(f)
    return list(nc.groups)
'''
NEGATIVE = '''
from netCDF4 import Dataset
from contextlib import closing
def a(f):
    with Dataset(f) as nc:
        if not nc.groups:
            return None
        return list(nc.groups)
def b(f):
    nc = None
    try:
        nc = Dataset(f)
        return nc.variables['a'][:]
    except KeyError:
        return None
    finally:
        if nc is not None:
            nc.close()
def c(fs):
    ds = {f: Dataset(f) for f in fs}
    out = {k: list(d.groups) for k, d in ds.items()}
    for d in ds.values():
        d.close()
    return out
def made(f):
    return Dataset(f)
def shut(nc):
    nc.close()
def d(f):
    nc = made(f)
    x = nc['a'][:]
    shut(nc)
    return x
def e(f, g):
    if g:
        nc = Dataset(f)
    x = 1
    if g:
        nc.close()
    return x
def h(f):
    with closing(Dataset(f)) as nc:
        return nc['a'][:]
'''


def sample(text):
    import tempfile
    d = tempfile.mkdtemp()
    try:
        os.mkdir(os.path.join(d, 'sample'))
        p = os.path.join(d, 'sample', '__init__.py')
        with open(p, 'w') as f:
            f.write(text)
        r = Analysis(Package(d, 'sample')).all()
        os.remove(p)
        os.rmdir(os.path.join(d, 'sample'))
        return {n.split('.')[-1] for n, m, sc in r if sc is not None and sc.leaks}
    finally:
        if os.path.isdir(d) and not os.listdir(d):
            os.rmdir(d)


def run(ctx):
    ctx.rule('close', 'an opening reaches every exit of its scope closed or handed to the caller, which must close it')
    if sample(POSITIVE) != {'early', 'handler', 'loop', 'user'} or sample(NEGATIVE):
        ctx.unk('close', 'self-test', 'sa/release.py', 'the analysis does not decide its own examples')
        return
    root = REPO
    pk = Package(root)
    an = Analysis(pk)
    seen = an.all()
    n = 0
    for name, m, sc in seen:
        rel = os.path.relpath(m.path, root)
        if sc is None:
            src = [x for x in ast.walk(m.tree) if isinstance(x, ast.Call)]
            if src:
                ctx.unk('close', name, rel, 'too many paths')
            continue
        for i, (site, got) in enumerate(sorted(sc.found.items(), key=str)):
            if site[0] == 'param':
                continue
            n += 1
            where = f'{rel}:{site[1]} ({name})'
            key = f'{name}#{i}'
            if 'open' in got:
                line, how = sc.leaks[site]
                ctx.bad('close', key, where, f'what is opened here is still open at {how}')
            elif 'unknown' in got or got <= {'returned'} and not callers(an, seen, name):
                ctx.unk('close', key, where, 'kept in a way that is not followed')
            else:
                ctx.ok('close', key)
    ctx.functions |= {n for n, _, sc in seen if sc is not None}
    ctx.count('openings', n)
    if n < 6:
        ctx.unk('close', 'openings', 'pyrtlib', f'only {n} openings found')


def callers(an, seen, name):
    last = name.split('.')[-1]
    return any(isinstance(x, ast.Call) and isinstance(x.func, (ast.Name, ast.Attribute)) and (x.func.id if isinstance(x.func, ast.Name) else x.func.attr) == last
               for m in an.pkg.mods.values() for x in ast.walk(m.tree))

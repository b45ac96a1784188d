"""C13: reference profiles and molecular masses."""
import re

from ..harness import *
from ..core import *
from .c04 import refused

CP = 'pyrtlib.climatology.atmospheric_profiles'
EXPLANATION = ('The profile functions are interpreted for every identifier of the catalogue with the data files as uninterpreted tables named by the file that is read; the returned value graphs must '
               'be the column of the file that belongs to that climate or gas. The mass returned for every gas name must be the sum of the atomic masses in the name. Identifiers outside the '
               'catalogue must end every path in an exception.')
CLIMATES = dict(TROPICAL='tropical.dat', MIDLATITUDE_SUMMER='midlatitude_summer.dat', MIDLATITUDE_WINTER='midlatitude_winter.dat', SUBARCTIC_SUMMER='subarctic_summer.dat',
                SUBARCTIC_WINTER='subarctic_winter.dat', US_STANDARD='us_standard.dat')
TITLES = dict(TROPICAL='Tropical', MIDLATITUDE_SUMMER='Midlatitude Summer', MIDLATITUDE_WINTER='Midlatitude Winter', SUBARCTIC_SUMMER='Subarctic Summer', SUBARCTIC_WINTER='Subarctic Winter',
              US_STANDARD='US Standard')
MAJOR = 'H2O CO2 O3 N2O CO CH4 O2'.split()
MINOR = 'NO SO2 NO2 NH3 HNO3 OH HF HCL HBR HI CLO OCS H2CO HOCL N2 HCN CH3CL H2O2 C2H2 C2H6 PH3'.split()
TRACE = 'COF2 SF6 H2S CCL3F CCL2F2 CCLF3 CF4 CHCl2F CHCLF2 C2CL3F3 C2CL2F4 C2CLF5 CCL4 CLONO2 N2O5 HNO4'.split()
ATOMS = dict(H=1, C=12, N=14, O=16, F=19, S=32, CL=35, BR=80, I=127, P=31)
PROTON = 1.6726485e-27


def mass_of(name):
    n = 0
    left = re.sub(r'(CL|BR|[HCNOFSIP])(\d*)', '', name.upper())
    assert not left, name
    for a, k in re.findall(r'(CL|BR|[HCNOFSIP])(\d*)', name.upper()):
        n += ATOMS[a] * int(k or 1)
    return n


def table(s, name, cols):
    return tm.mk('dat', name, rank=2, info=dict(shape=(num(50), num(cols))))


def session():
    s = Session()

    def load(I, args, kw, node):
        p = I.to_t(args[0])
        names = [x.args[0] for x in tm.walk(p) if x.op == 'const' and isinstance(x.args[0], str) and x.args[0].endswith('.dat')]
        if len(set(names)) != 1:
            raise Undecided('file read depends on ' + tm.show(p, 3))
        base = os.path.basename(names[0])
        t = table(s, base, {'gas_minor.dat': 21, 'gas_trace.dat': 16}.get(base, 11))
        if 'unpack' in kw or len(args) > 1 or set(kw) - {'dtype', 'ndmin'}:
            raise Undecided('file is read in another way')
        return I.new_arr(t)
    for f in ('loadtxt', 'genfromtxt'):
        s.I.hooks['numpy.' + f] = load
    return s


def cell(t, *ix):
    return tm.idx(t, tuple(num(i) if isinstance(i, int) else i for i in ix))


def ident(s, name):
    v = s.t(s.get(CP, 'AtmosphericProfiles', name))
    if not tm.isnum(v):
        raise Undecided(f'identifier {name} is not a number')
    return v


R = tm.sym('level', rank=0)


def run(ctx):
    ctx.rule('climate', 'gl_atm returns altitude, pressure, density, temperature and the seven major gases of the named climate')
    ctx.rule('gas', 'gl_atm_minor / gl_atm_trace return the profile of the named gas')
    ctx.rule('mass', 'gas_mass returns the molecular mass of the named gas')
    ctx.rule('refuse', 'an identifier outside the catalogue is an error')
    S = Session()
    S.mod(CP)
    wh = lambda f: S.where(CP, 'AtmosphericProfiles', f)

    def climate(name):
        s = session()
        r = s.call(s.get(CP, 'AtmosphericProfiles', 'gl_atm'), ident(s, name))
        ctx.seen(s)
        if not isinstance(r, Tup) or len(r.items) != 5:
            raise Undecided('gl_atm does not return five values')
        d = table(s, CLIMATES[name], 11)
        pairs = {n: (cell(s.final(s.t(r.items[i])), R), cell(d, R, c)) for n, i, c in (('altitude', 0, 0), ('pressure', 1, 1), ('density', 2, 2), ('temperature', 3, 3))}
        md = s.final(s.t(r.items[4]))
        for j, g in enumerate(MAJOR):
            pairs[g] = cell(md, R, int(tm.cval(ident(s, g)))), cell(d, R, 4 + j)
        report(ctx, 'climate', name, pairs, wh('gl_atm'))

    for n in CLIMATES:
        ctx.guard('climate', n, lambda: climate(n), dead='violated')

    def titles():
        s = session()
        r = s.call(s.get(CP, 'AtmosphericProfiles', 'atm_profiles'))
        ctx.seen(s)
        for n, t in TITLES.items():
            v = s.t(s.I.getitem(r, ident(s, n), None))
            ctx.must(v is const(t), 'climate', f'title of {n}', wh('atm_profiles'), 'is ' + tm.show(v))
    ctx.guard('climate', 'titles', titles)

    def gas(f, file, names, cols):
        for j, g in enumerate(names):
            def one():
                s = session()
                r = s.call(s.get(CP, 'AtmosphericProfiles', f), ident(s, g))
                ctx.seen(s)
                report(ctx, 'gas', g, {'profile': (cell(s.final(s.t(r)), R), cell(table(s, file, cols), R, j))}, wh(f))
            ctx.guard('gas', g, one, dead='violated')
    gas('gl_atm_minor', 'gas_minor.dat', MINOR, 21)
    gas('gl_atm_trace', 'gas_trace.dat', TRACE, 16)
    out = [-100, -3, -1] + list(range(50, 54)) + [98, 100, 1000]
    for f, ids in (('gl_atm', [-2, -6] + list(range(6, 14)) + out), ('gl_atm_minor', list(range(-2, 7)) + list(range(28, 46)) + out),
                   ('gl_atm_trace', list(range(-20, 28)) + list(range(44, 48)) + out)):
        for i in sorted(set(ids)):
            def code(s):
                s2 = session()
                s.I = s2.I
                s.call(s.get(CP, 'AtmosphericProfiles', f), num(i))
            refused(ctx, 'refuse', f'{f} {i}', code, wh(f))

    def mass(name, want):
        s = session()
        try:
            r = s.call(s.get(UT, 'gas_mass'), ident(s, name))
        except PathDead:
            ctx.seen(s)
            if name in MAJOR + MINOR + ['AIR']:
                ctx.bad('mass', name, S.where(UT, 'gas_mass'), 'refused')
            else:
                ctx.ok('mass', name, 'refused')
            return
        ctx.seen(s)
        report(ctx, 'mass', name, {'': (s.final(s.t(r)), want)}, S.where(UT, 'gas_mass'))
    for n in MAJOR + MINOR + TRACE:
        ctx.guard('mass', n, lambda: mass(n, tm.mul(num(PROTON), num(mass_of(n)))), dead='violated')
    ctx.guard('mass', 'AIR', lambda: mass('AIR', tm.mul(num(PROTON), num(28.9402753669))), dead='violated')
    for i in [-5, -1, 44, 45, 60, 98, 100, 1000]:
        refused(ctx, 'refuse', f'gas_mass {i}', lambda s: s.call(s.get(UT, 'gas_mass'), num(i)), S.where(UT, 'gas_mass'))


def report(ctx, rule, cons, pairs, where):
    for k, r in ctx.decide_all(pairs).items():
        c = f'{cons}:{k}' if k else cons
        if r[0] == 'different':
            ctx.bad(rule, c, where, f'is {tm.show(pairs[k][0], 4)}, should be {tm.show(pairs[k][1], 4)}')
        elif r[0] == 'equal':
            ctx.ok(rule, c)
        else:
            ctx.unk(rule, c, where, r[1])

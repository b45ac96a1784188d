"""C17: instrument channel tables."""
from ..harness import *
from ..core import *
from .c04 import refused

EXPLANATION = ('get_frequencies and get_frequencies_sat are interpreted for every listed name in three spellings and for names outside the lists; the returned table is evaluated to exact decimal numbers from the '
               'literals of the source. Around every double-sideband centre of an instrument the offsets must be symmetric; no number may repeat; all must be positive; spellings must agree.')
GROUND = ('hat', 'mp3', 'arm', 'tem', 'k2w')
C183 = (183.31, 12)
C57 = (57.290344, .5)
SAT = dict(SAPHIR=[C183], AMSU=[C183], ATMS=[C183], MWI=[(118.7503, 4), (165.5, 2), C183],
           MWS=[(53.246, .16), (53.596, .16), (53.948, .16), C57, (165.5, 2), C183],
           ICI=[C183, (243.2, 5), (325.15, 15), (448.0, 10), (664.0, 10)])
OTHER = ['', 'X', 'hat2', 'AMSUA', 'AMSU-B', 'MW', 'I', 'MWSI', ' ', 'HATPRO', 'SAPHIR ', 'None', 'mp', '3', 'ATM', 'at']


def table(s, r):
    t = s.final(s.t(r))
    n = tm.length(t)
    if t.rank != 1 or not tm.isnum(n):
        raise Undecided('not a table of known length: ' + tm.show(t, 3))
    out = []
    for i in range(int(tm.cval(n))):
        v = tm.idx(t, (num(i),))
        if not tm.isnum(v):
            raise Undecided('not a number: ' + tm.show(v, 3))
        out.append(float(tm.cval(v)))
    return out


def spellings(n):
    return [n.lower(), n.upper(), n.capitalize()]


def run(ctx):
    ctx.rule('case', 'the spelling of the name does not matter')
    ctx.rule('repeat', 'no frequency appears twice, all are positive')
    ctx.rule('symmetric', 'the sidebands of a centre lie symmetrically about it')
    ctx.rule('refuse', 'an unlisted instrument is an error')
    S = Session()
    S.mod(UT)

    def inst(f, name, centres):
        w = S.where(UT, f)

        def go():
            tabs = []
            for sp in spellings(name):
                s = Session()
                try:
                    r = s.call(s.get(UT, f), const(sp))
                except PathDead:
                    ctx.seen(s)
                    ctx.bad('case', f'{f} {name}', w, f'{sp!r} is refused')
                    return
                ctx.seen(s)
                tabs.append(table(s, r))
            ctx.must(tabs[0] == tabs[1] == tabs[2], 'case', f'{f} {name}', w, 'different tables for different spellings')
            t = tabs[0]
            q = [round(x, 7) for x in t]
            rep = sorted({x for x in q if q.count(x) > 1})
            ctx.must(t and not rep and min(t) > 0, 'repeat', f'{f} {name}', w, f'repeated or not positive: {rep}')
            ctx.count('frequencies', len(t))
            for c, h in centres:
                off = [x - c for x in t if abs(x - c) <= h and abs(x - c) > 1e-7]
                lone = [round(o, 6) for o in off if not any(abs(o + p) < 1e-6 for p in off)]
                ctx.must(off and not lone, 'symmetric', f'{f} {name} {c}', w, f'offsets without their mirror: {lone}' if off else 'no sidebands')
        ctx.guard('case', f'{f} {name}', go)
    for n in GROUND:
        inst('get_frequencies', n, [])
    for n, c in SAT.items():
        inst('get_frequencies_sat', n, c)
    for f, mine, theirs in (('get_frequencies', GROUND, SAT), ('get_frequencies_sat', SAT, GROUND)):
        for n in OTHER + [x for x in theirs if x.lower() not in [m.lower() for m in mine]]:
            for sp in dict.fromkeys((n, n.lower(), n.upper())):
                refused(ctx, 'refuse', f'{f} {sp!r}', lambda s: s.call(s.get(UT, f), const(sp)), S.where(UT, f))

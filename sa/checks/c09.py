"""C09: profile orientation."""
import itertools

from ._rte import *

EXPLANATION = ('Rule "orientation": the simulation interpreted on a top-down profile (heights known only to be strictly decreasing) and on the same per-level values in the opposite '
               'order; every per-level input (height, pressure, temperature, humidity, ozone, cloud ice, cloud liquid) is symbolic; all reported values must be equal by value numbering. '
               'Rule "refused": the constructor interpreted for every one of the 27 orderings (up, equal, down per step) of four symbolic heights; exactly the all-up and all-down ones may complete. '
               'Nothing but the ordering of the heights is assumed.')
NAMES = ('p', 't', 'rh', 'o3n', 'denice', 'denliq')


def reversed_(s, r):
    return s.I.getitem(r, mk('slice', NONE, NONE, num(-1)), None)


def outputs(cfg):
    return [o for o in ALL if cfg.get('cloudy') or not ('liq' in o or 'ice' in o or o == 'tmrcld')]


def pair(cfg, pre):
    outs = outputs(cfg)

    def down(s):
        return sim(s, dict(cfg, mono=-1), outs)

    def up(s):
        s.over = {n: reversed_(s, s.prof(n)) for n in NAMES}
        s.over['z'] = reversed_(s, s.prof('z', mono=-1))
        r = sim(s, cfg, outs)
        dims = {}
        for n in outs:
            dims[n] = ('rows',) if n in TABLE else ('nang',) if n in PATH else ('nf', 'nang', 'nl')
        s.sizes = dict(s.sizes, rows=s.sizes['nf'] * s.sizes['nang'])
        return {n: (r[n], dims[n]) for n in outs}
    return down, up


def refused(ctx, w):
    n = 4
    good = [(1,) * (n - 1), (-1,) * (n - 1)]
    done = []
    for signs in itertools.product((1, 0, -1), repeat=n - 1):
        s = Session(sizes=dict(nl=n, nf=1, nang=1, ncld=1))
        # heights as sums of positive steps: the analyser decides comparisons of neighbouring levels from these signs
        h = [sym('z0')]
        for i, g in enumerate(signs):
            d = sym(f'dz{i}', 0, 1)
            h.append(tm.add(h[-1], tm.mul(num(g), d)) if g else h[-1])
        s.over = dict(z=s.I.new_arr(mk('arr', *h, rank=1)))

        def go():
            try:
                s.tb()
                res = 'accepted'
            except PathDead:
                res = 'refused' if s.I.raises else 'dead'
            done.append((signs, res, s))
        ctx.guard('refused', f'ordering {signs}', go)
    for signs, res, s in done:
        ctx.seen(s)
        cons = 'ordering ' + ''.join({1: '<', 0: '=', -1: '>'}[g] for g in signs)
        exc = [r[0] for r in s.I.raises]
        if signs in good:
            ctx.must(res == 'accepted', 'refused', cons, w, 'a strictly monotone height array is refused')
        elif res == 'accepted' and s.I.st.pc and not all(c is TRUE for c in pcs(s)):
            ctx.unk('refused', cons, w, 'the constructor completes under a condition the analyser cannot decide')
        else:
            ctx.must(res != 'accepted', 'refused', cons, w, 'a height array that is not strictly monotone is accepted')
    ctx.count('orderings', len(done))


def pcs(s):
    pc = s.I.st.pc
    return list(pc) if isinstance(pc, (tuple, list, set, frozenset)) else [pc]


def run(ctx):
    ctx.rule('orientation', 'top-down and bottom-up input give equal values for every output')
    ctx.rule('refused', 'only strictly monotone height arrays are accepted')
    ctx.assumptions.append('physical signs of temperatures, pressures, densities and absorption coefficients')
    w = Session().where(TB, 'TbCloudRTE', '__init__')
    small = dict(nl=4, nf=1, nang=1, ncld=1)
    first = dict(nf=1, nang=1, ncld=1)
    for name, cfg in (('clear ozone', dict(o3n=1)), ('clear ozone satellite', dict(o3n=1, sat=1)), ('cloudy', dict(cloudy=1)), ('cloudy ozone satellite', dict(cloudy=1, o3n=1, sat=1)), ('refracted', dict(ray=1))):
        a, b = pair(cfg, name)
        ctx.agree('orientation', name, a, b, w, sizes=small, first=dict(first, nf=2, nang=2) if ctx.thorough else first, dead='violated')
    refused(ctx, w)

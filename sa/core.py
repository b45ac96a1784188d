"""Obligations, known findings, evidence, and the tri-state comparison of value graphs."""
import itertools
import json
import os
import sys
import time
import traceback

from . import term as tm
from .harness import Session, PathDead, Broken
from .interp import Budget

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ELEMENTARY = {'exp', 'log', 'sqrt', 'sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'abs', 'real', 'imag', 'conj', 'max', 'min',
              'floor', 'ceil', 'round', 'int', 'sinh', 'cosh', 'tanh', 'sign', 'all', 'any', 'amin', 'amax', 'log10', 'length', 'len', 'float', 'str'}
FREE = set()      # functions deliberately left uninterpreted: any value is possible
OPAQUE_OPS = {'opaque', 'mcall', 'ext', 'method', 'obj', 'value', 'genexp', 'unbound', 'loopret'}


class Undecided(Exception):
    """The source is outside what this rule can decide."""


def load_known():
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.isfile(p):
        for line in open(p, encoding='utf-8'):
            line = line.strip()
            if line.startswith('finding:'):
                head, _, desc = line[8:].partition(' | ')
                kv = dict(x.split('=', 1) for x in head.split())
                out.append((kv['property'], kv['key'], desc.strip()))
    return out


class Ctx:
    def __init__(self, pid, tier='quick', seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == 'thorough'
        self.obs = []
        self.counts = {}
        self.functions = set()
        self.rules = {}
        self.events = 0
        self.assumptions = []
        self.t0 = time.time()

    def rule(self, name, text):
        self.rules[name] = text

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def ok(self, rule, construct, detail=''):
        self.obs.append((rule, construct, 'ok', '', detail))

    def bad(self, rule, construct, where='', detail=''):
        self.obs.append((rule, construct, 'violated', where, detail))

    def unk(self, rule, construct, where='', detail=''):
        self.obs.append((rule, construct, 'undecided', where, detail))

    def must(self, cond, rule, construct, where='', detail=''):
        (self.ok(rule, construct) if cond else self.bad(rule, construct, where, detail))
        return cond

    def guard(self, rule, construct, fn, dead='undecided'):
        """Run fn; an analysis failure leaves the obligation undecided. `dead` tells what it means that no path of
        the analysed code ends normally."""
        try:
            return fn()
        except Undecided as e:
            self.unk(rule, construct, '', str(e))
        except PathDead:
            if dead == 'violated':
                self.bad(rule, construct, '', 'every path ends in an exception')
            else:
                self.unk(rule, construct, '', 'no path of the analysed code ends normally')
        except (Broken, Budget) as e:
            self.unk(rule, construct, '', f'{type(e).__name__}: {e}')
        except RecursionError:
            self.unk(rule, construct, '', 'recursion depth of the analyser exceeded')
        except Exception as e:      # a construct the analyser does not model
            tb = traceback.extract_tb(e.__traceback__)
            last = [f'{os.path.basename(f.filename)}:{f.lineno}' for f in tb[-3:]]
            self.unk(rule, construct, '', f'analyser: {type(e).__name__}: {str(e)[:200]} at {" < ".join(reversed(last))}')
            if os.environ.get('SA_DEBUG'):
                traceback.print_exc()
        return None

    def seen(self, s):
        self.functions |= s.I.analysed
        self.events += len(s.I.events)
        self.count('interpreter_steps', s.I.steps)

    # ------------------------------------------------------------ value graphs
    def decide(self, code, spec):
        """'equal' | 'different' | 'unknown', witness"""
        return self.decide_all({'': (code, spec)})['']

    def decide_all(self, pairs, cap=None):
        """the same for many pairs at once: one value numbering per sampled assignment serves all of them"""
        self.count('value_graphs_compared', len(pairs))
        out = {}
        live = {k: p for k, p in pairs.items() if p[0] is not p[1]}
        for k in pairs:
            if k not in live:
                out[k] = ('equal', None)
        if not live:
            return out
        pool, strs, n = tm.collect_pools(*[t for p in live.values() for t in p])
        cap = cap or (1500 if self.thorough else 160)
        samples = 1 if n == 0 else min(cap, 24 + 12 * n)
        bad = {}
        for i in range(samples):
            vn = tm.VN(self.seed * 7919 + i, pool, strs)
            for k, (x, y) in live.items():
                if k not in bad and vn.val(x) != vn.val(y):
                    bad[k] = i
        self.count('value_numbering_samples', samples)
        for k, (x, y) in live.items():
            if k not in bad:
                out[k] = ('equal', None)
            elif foreign(x, y):
                out[k] = ('unknown', 'uninterpreted: ' + ', '.join(sorted(foreign(x, y)))[:200])
            else:
                out[k] = ('different', diffinfo(x, y, bad[k]))
        return out

    def agree(self, rule, construct, code, spec, where='', sizes=None, first=None, alts=None, dead='undecided'):
        """code(s) and spec(s) give {label: term or (term, dims)} in a session; they must denote the same values.
        First for symbolic array sizes (or `first`, sizes of some dimensions); a difference there has to show on a
        small instance (fixed `sizes`, symbolic contents) as well before it is reported, so that a loop the analyser
        merely could not normalise stays quiet.
        alts: {name: spec_fn} known other behaviours; a match with one is reported under the key suffix `name`."""
        def run(f, sz):
            s = Session(sizes=sz)
            out = f(s)
            if f is code:
                self.seen(s)
            return s, out

        def compare(a, b, s, labels):
            pairs = {}
            res = {}
            for lab in labels:
                if a.get(lab) is None:
                    res[lab] = 'different', 'no such output'
                    continue
                for ix, x, y in elements(a[lab], b[lab], s):
                    pairs[lab, ix] = (x, y)
                res[lab] = 'equal', None
            for (lab, ix), r in self.decide_all(pairs).items():
                if r[0] != 'equal' and res[lab][0] != 'different':
                    res[lab] = r[0], (f'element {ix}: {r[1]}' if ix else r[1])
            return res

        def go():
            s1, a = run(code, first)
            s2, b = run(spec, first)
            state = compare(a, b, s2, b)
            todo = [l for l in b if state[l][0] != 'equal']
            small = {}
            src = a
            if todo:
                if sizes is not None and sizes != first:
                    s1, src = run(code, sizes)
                    s2, b2 = run(spec, sizes)
                    small = compare(src, b2, s2, todo)
                else:
                    small = {l: state[l] for l in todo}
            altres = {}
            bad = [l for l in small if small[l][0] == 'different']
            if bad and alts:
                for nm, f in alts.items():
                    s5, c = run(f, sizes if sizes is not None else first)
                    res = compare(src, c, s5, [l for l in bad if l in c])
                    altres[nm] = {l for l in res if res[l][0] == 'equal'}
            for lab in b:
                cons = f'{construct}:{lab}' if lab else construct
                if lab not in small:
                    self.ok(rule, cons, 'for all array sizes' if first is None else f'for sizes {first}, every other size')
                elif small[lab][0] == 'equal':
                    self.ok(rule, cons, f'for array sizes {sizes} only')
                    self.count('equal_only_at_fixed_sizes')
                elif small[lab][0] == 'unknown':
                    self.unk(rule, cons, where, small[lab][1])
                else:
                    nm = [n for n in altres if lab in altres[n]]
                    self.bad(rule, cons + ('#' + nm[0] if nm else ''), where, str(small[lab][1]))
        self.guard(rule, construct, go, dead)

    # ------------------------------------------------------------ reporting
    def finish(self, explanation):
        known = [(k, d) for p, k, d in load_known() if p == self.pid]
        viol, kf = [], []
        for rule, cons, st, where, detail in self.obs:
            if st != 'violated':
                continue
            key = f'{rule}|{cons}'
            hit = [d for k, d in known if k == key.replace(' ', '_')]
            (kf if hit else viol).append((key, where, detail, hit))
        n = {s: sum(1 for o in self.obs if o[2] == s) for s in ('ok', 'violated', 'undecided')}
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level='other',
                  coverage=dict(explanation=explanation, rules=self.rules, obligations=len(self.obs), obligations_ok=n['ok'],
                                obligations_violated=n['violated'], obligations_undecided=n['undecided'], known_findings=len(kf),
                                functions_analysed=sorted(self.functions), functions_analysed_count=len(self.functions),
                                events_recorded=self.events, counts=self.counts,
                                samples=[dict(rule=r, construct=c, status=s, where=w, detail=d[:300]) for r, c, s, w, d in self.obs[:400]],
                                undecided=[dict(rule=r, construct=c, where=w, detail=d[:300]) for r, c, s, w, d in self.obs if s == 'undecided']),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(viol))
        d = os.path.join(HERE, 'evidence')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, self.pid + '.json')
        with open(path, 'w') as f:
            json.dump(ev, f, indent=1)
        for line in dict.fromkeys(f'KNOWN-FINDING: property={self.pid} {hit[0]}' for key, where, detail, hit in kf):
            print(line)
        if viol:
            rp = os.path.join(d, self.pid + '.violations.txt')
            with open(rp, 'w') as f:
                for key, where, detail, _ in viol:
                    f.write(f'{key}\n  at {where}\n  {detail}\n')
            for key, where, detail, _ in list({v[0]: v for v in viol}.values())[:20]:
                print(f'  {key} at {where}: {detail[:600]}')
            print(f'VIOLATION property={self.pid} replay={rp}')
            return 1
        print(f'{self.pid}: {n["ok"]} obligations hold, {n["undecided"]} undecided, {len(kf)} known findings, {len(self.functions)} functions analysed, {ev["wall_s"]} s')
        return 0


def tterm(x):
    return x[0] if isinstance(x, tuple) else x


def elements(x, y, s):
    """pairs of corresponding elements; y gives the dims. Dimensions of unknown size stay whole."""
    if isinstance(y, tuple):
        t, dims = y
        rng = []
        for d in dims:
            n = d if isinstance(d, int) else (s.sizes or {}).get(d)
            rng.append(range(n) if n is not None else [tm.FULL])
        if all(r == [tm.FULL] for r in rng):
            yield (), tterm(x), t
            return
        for ix in itertools.product(*rng):
            k = tuple(tm.num(i) if isinstance(i, int) else i for i in ix)
            yield tuple(i if isinstance(i, int) else ':' for i in ix), tm.idx(tterm(x), k), tm.idx(t, k)
    else:
        yield (), tterm(x), y


def calls_of(t):
    names, ops = set(), set()
    for x in tm.walk(t):
        if x.op == 'call':
            names.add(str(x.args[0]))
        elif x.op in OPAQUE_OPS:
            ops.add(x.op + ':' + str(x.args[0] if x.args else '')[:60])
    return names, ops


def foreign(code, spec):
    cn, co = calls_of(code)
    sn, so = calls_of(spec)
    return {n for n in cn - sn - ELEMENTARY - FREE} | (co - so)


def consts_of(t):
    return {x for x in tm.walk(t) if x.op == 'const'}


def diffinfo(code, spec, w):
    ca, cb = consts_of(code), consts_of(spec)
    sa = {tm.show(x) for x in tm.walk(code) if x.op in ('sym', 'ncdata')}
    sb = {tm.show(x) for x in tm.walk(spec) if x.op in ('sym', 'ncdata')}
    f = lambda xs: ', '.join(sorted(tm.show(x) if not isinstance(x, str) else x for x in xs)[:8])
    parts = []
    if ca - cb:
        parts.append('constants only in code: ' + f(ca - cb))
    if cb - ca:
        parts.append('constants only in rule: ' + f(cb - ca))
    if sa - sb:
        parts.append('inputs only in code: ' + f(sa - sb))
    if sb - sa:
        parts.append('inputs only in rule: ' + f(sb - sa))
    parts.append('code=' + tm.show(code, 4)[:160] + ' rule=' + tm.show(spec, 4)[:160])
    return '; '.join(parts)

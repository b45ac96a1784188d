"""python -m sa.run <ID> [--thorough]"""
import importlib
import os
import sys

sys.setrecursionlimit(40000)


def main(argv):
    import threading
    threading.stack_size(512 * 1024 * 1024)
    res = []

    def work():
        from .core import Ctx
        pid = argv[0]
        tier = 'thorough' if '--thorough' in argv else os.environ.get('VERIF_TIER', 'quick')
        if tier not in ('quick', 'thorough'):
            tier = 'quick'
        try:
            seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            seed = 1
        mod = importlib.import_module('sa.checks.' + pid.lower())
        ctx = Ctx(pid, tier, seed)
        ctx.guard('analysis', pid, lambda: mod.run(ctx))
        res.append(ctx.finish(mod.EXPLANATION))
    th = threading.Thread(target=work)
    th.start()
    th.join()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(res[0] if res else 2)


if __name__ == '__main__':
    main(sys.argv[1:])

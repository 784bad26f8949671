import importlib
import json
import os
import sys

# one thread per process: the workers are processes, and forking must not meet a thread pool
for _k, _v in dict(NUMBA_NUM_THREADS = '1',
                   NUMBA_THREADING_LAYER = 'workqueue',
                   OMP_NUM_THREADS = '1',
                   OPENBLAS_NUM_THREADS = '1',
                   MKL_NUM_THREADS = '1',
                   PYTHONHASHSEED = '0',
                   TZ = 'UTC').items():
    os.environ.setdefault(_k, _v)
sys.dont_write_bytecode = True


def main():
    from mc import core
    args = sys.argv[1:]
    if args and args[0] == 'replay':
        with open(args[1]) as f:
            rec = json.load(f)
        mod = importlib.import_module('mc.props.' + rec['property'].lower())
        return core.replay(mod, rec)
    pid = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    mod = importlib.import_module('mc.props.' + pid.lower())
    return core.main(mod, tier)


if __name__ == '__main__':
    sys.exit(main())

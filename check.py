#!/usr/bin/env python3
"""check.py <property id> : decide one property from the source in /repo."""
import importlib
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.setrecursionlimit(20000)

REGISTRY = {
    'U': ('checks_py', 'unit_both'),
    'P01': ('checks_py', 'unit_independence'),
    'P02': ('checks_py', 'unit_labels'),
    'P03': ('checks_py', 'unit_attributes'),
    'P04': ('checks_io', 'round_trips'),
    'P05': ('checks_ffi', 'contract'),
    'P15': ('checks_opts', 'validated'),
    'P06': ('checks_c', 'threads'),
    'P07': ('checks_c', 'resources'),
    'P08': ('checks_c', 'errors'),
    'P11': ('checks_alias', 'caller_memory'),
    'P12': ('checks_alias', 'independent_results'),
    'P16': ('checks_deps', 'arguments'),
    'P18': ('checks_deps', 'carried'),
    'P20': ('checks_env', 'reproducible'),
    'P21': ('checks_state', 'untouched'),
    'P22': ('checks_imports', 'isolated'),
    'P27': ('checks_c', 'bounds'),
}


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    mod, fn = REGISTRY[prop]
    import core
    try:
        m = importlib.import_module(mod)
        res = getattr(m, fn)()
    except Exception as e:          # analysis could not be carried out
        traceback.print_exc()
        print(f'ANALYSIS-BROKEN property={prop} {type(e).__name__}: {e}')
        return 2
    return core.finish(prop, tier, seed, res, t0,
                       (getattr(m, fn).__doc__ or '').strip())


if __name__ == '__main__':
    sys.exit(main())

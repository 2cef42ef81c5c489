#!/usr/bin/env python3
"""run.py <property id> [quick|thorough]"""
import importlib
import os
import resource
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def main():
    pid = sys.argv[1]
    try:
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    except (ValueError, OSError):
        pass
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from sa.check import Check
    mod = importlib.import_module('checks.' + pid.lower())
    chk = Check(pid, tier, seed)
    chk.absorb_tables = True
    mod.run(chk)
    return chk.finish(mod.RULE, assumptions=getattr(mod, 'ASSUMPTIONS', ()), minimum=getattr(mod, 'MINIMUM', 1))


if __name__ == '__main__':
    sys.exit(main())

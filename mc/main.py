"""usage: main.py PROPERTY quick|thorough"""
import importlib
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'props'))
sys.dont_write_bytecode = True
import core
import common


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    common.TIER = tier
    m = importlib.import_module(pid.lower())
    sp = m.spaces()
    only = os.environ.get('BXMC_SPACE')
    if only:
        sp = [s for s in sp if s.name in only.split(',')]
    return core.run_property(pid, tier, sp, level=getattr(m, 'LEVEL', 'model_checking'),
                             assumptions=getattr(m, 'ASSUME', ()), rule=getattr(m, 'RULE', ''))


sys.exit(main())

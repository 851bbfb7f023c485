import argparse
import importlib
import os
import sys
import warnings


def run():
    p = argparse.ArgumentParser()
    p.add_argument('id')
    p.add_argument('--replay')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = p.parse_args()
    warnings.simplefilter('ignore')
    from . import core
    module = importlib.import_module('mc.checks.' + a.id.lower())
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    sys.exit(core.main(module, tier, seed, a.replay))


run()

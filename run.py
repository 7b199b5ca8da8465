#!/opt/venv/bin/python
""" Runs one property's check: run.py ID [--tier T] [--seed N] [--replay F]. """
import argparse
import importlib
import os
import sys
import warnings

warnings.simplefilter('ignore')
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.realpath(__file__))
# The code under test is always imported from the repository's working tree.
REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
warnings.simplefilter('ignore')

if os.environ.get('PYTHONHASHSEED') != '0':
    # Set order must not depend on the run: re-execute with a fixed hash seed.
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)

from vmon import core  # noqa: E402


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('property')
    parser.add_argument('--tier', default=os.environ.get(
        'VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    parser.add_argument('--seed', type=int, default=int(
        os.environ.get('VERIF_SEED', '1')))
    parser.add_argument('--replay')
    parser.add_argument('--budget', type=float)
    parser.add_argument('--jobs', type=int)
    args = parser.parse_args()
    import forecaster
    where = os.path.realpath(forecaster.__file__)
    if not where.startswith(REPO + os.sep):
        print('forecaster imported from %s, not %s' % (where, REPO))
        return 3
    module = importlib.import_module('checks.' + args.property.lower())
    return core.main(
        module, args.tier, args.seed, args.replay, args.budget, args.jobs)


if __name__ == '__main__':
    sys.exit(main())

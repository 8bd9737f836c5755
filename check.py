#!/opt/venv/bin/python
"""check.py <property id> [--tier quick|thorough] [--seed N] | --replay FILE | --list

Decides one property: (1) model-checks the subsystem's specification with TLC,
(2) drives the real code in /repo, records traces and validates them with TLC
against the same specification.  Exit 0: held on everything explored; exit 1 with
a VIOLATION line otherwise."""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vh import env           # noqa
env.setup_paths()
from vh import runner        # noqa

if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=None)
    ap.add_argument('--seed', type=int, default=None)
    ap.add_argument('--replay')
    ap.add_argument('--list', action='store_true')
    a = ap.parse_args()
    if a.list:
        print('\n'.join(sorted(runner.PROPS)))
        sys.exit(0)
    if a.replay:
        sys.exit(runner.replay(a.replay))
    tier = a.tier or os.environ.get('VERIF_TIER', 'quick')
    seed = a.seed if a.seed is not None else int(os.environ.get('VERIF_SEED', '1') or 1)
    sys.exit(runner.run(a.prop, tier, seed))

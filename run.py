#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] [--replay FILE] : decides one property on /repo's working tree."""
import argparse
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))

JAVASCRIPT = [f'C{n}' for n in [*range(25, 36), 37, 40, 42]]


def main():
    p = argparse.ArgumentParser()
    p.add_argument('property', nargs='?')
    p.add_argument('--selftest', action='store_true')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    p.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    p.add_argument('--replay')
    p.add_argument('--digests', nargs=3, type=int)
    a = p.parse_args()
    if a.property in JAVASCRIPT:
        os.environ['VERIF_IMPL'] = 'js'     # before anything of lib is imported
    import json
    import checks
    import harness
    if a.selftest:
        print(f"{len(checks.CHECKS)} checks can be loaded, enolib comes from {checks.R.ROOT}")
        return 0
    if os.environ.get('VERIF_IMPL') == 'js':
        import javascript       # noqa: F401 (registers its checks)
    if a.property == 'C38':
        import generation       # noqa: F401
    if a.property in ('C39', 'C40'):
        import memory           # noqa: F401
    if a.property in ('C41', 'C42'):
        import scale            # noqa: F401
    if a.property == 'C43':
        import blueprints       # noqa: F401
    check = checks.CHECKS[a.property]
    if a.digests:
        print(json.dumps(check.digests(*a.digests)))
        return 0
    if a.replay:
        return harness.replay(check, a.replay)
    return harness.run(check, a.tier, a.seed)


if __name__ == '__main__':
    sys.exit(main())

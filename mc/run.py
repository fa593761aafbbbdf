"""Entry point: run.py <property id> [--tier quick|thorough] [--replay file]"""
import argparse
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import boot  # noqa: E402
import core  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--workers', type=int)
    args = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if args.selftest:
        boot.load()
        import oracle
        print(oracle.validate(), 'reference points agree with literal 60-digit evaluation')
        return 0
    boot.load(instrument=args.prop.upper() == 'C12')
    mod = importlib.import_module('props.' + args.prop.lower())
    if args.replay:
        return core.replay(mod, args.replay)
    return core.explore(mod, 'thorough' if args.tier == 'thorough' else 'quick', seed,
                        args.workers)


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    sys.exit(code)

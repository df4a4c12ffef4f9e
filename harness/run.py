"""run.py ID [--tier quick|thorough] [--seed N] [--scenario NAME]... [--replay FILE]"""
import argparse
import importlib
import os
import sys

os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('TQDM_DISABLE', '1')
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import engine  # noqa: E402

sys.path.insert(0, engine.REPO)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--scenario', action='append')
    ap.add_argument('--replay')
    a = ap.parse_args()
    import atomtoolkit
    where = os.path.realpath(os.path.dirname(atomtoolkit.__file__))
    if where != os.path.realpath(os.path.join(engine.REPO, 'atomtoolkit')):
        print(f'wrong library under test: {where}')
        return 2
    mod = importlib.import_module(a.id.lower())
    if a.replay:
        return engine.replay(mod, a.replay)
    return engine.run_check(mod, a.tier, a.seed, a.scenario)


if __name__ == '__main__':
    sys.exit(main())

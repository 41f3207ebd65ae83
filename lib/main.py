"""Entry point of all checks: see ./check."""
import argparse
import importlib
import os
import sys
import tempfile
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[0] = os.path.dirname(HERE)
# Never use byte code that was compiled from another state of the repository.
sys.dont_write_bytecode = True
sys.pycache_prefix = os.path.join(tempfile.gettempdir(), 'dsch-no-pycache')
sys.path.insert(1, os.environ.get('DSCH_REPO', '/repo'))


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('prop')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER')
                        or 'quick')
    parser.add_argument('--seed', default=os.environ.get('VERIF_SEED') or '1')
    parser.add_argument('--case')
    args = parser.parse_args()
    warnings.simplefilter('ignore')
    module = importlib.import_module('checks.' + args.prop.lower())
    if hasattr(module, 'restart'):
        module.restart()
    from lib import core
    if args.case is not None:
        case = args.case if args.case.startswith('known') else int(args.case)
        return core.replay(module, args.tier, int(args.seed), case)
    return core.run_check(module, args.tier, int(args.seed))


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    # Skip the interpreter's tear-down: h5py objects may still be open.
    os._exit(code)

import argparse
import importlib
import os
import sys
import time


def main():
    ap = argparse.ArgumentParser(prog='rv')
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--case', action='append')
    ap.add_argument('--jobs', type=int)
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args()
    # dependencies first, then never use cached bytecode for the code under
    # test: it is compiled from the sources of the working tree on every run.
    import numpy, scipy.stats, scipy.linalg, sklearn.covariance  # noqa
    import joblib, pymanopt.solvers, autograd, tqdm  # noqa
    from rv import core
    sys.dont_write_bytecode = True
    sys.pycache_prefix = '/nonexistent/rv'
    import robuststats
    where = os.path.abspath(robuststats.__file__)
    if not where.startswith(core.REPO.rstrip('/') + '/'):
        print('robuststats imported from', where, 'instead of', core.REPO)
        return 3
    from rv.props import REGISTRY
    mod = importlib.import_module('rv.props.' + REGISTRY[a.property])
    prop = mod.PROPS[a.property]
    if a.replay:
        return core.replay(prop, a.replay)
    code, results = core.run_property(prop, a.tier, a.seed, a.jobs, a.case,
                                      quiet=not a.verbose)
    if a.verbose:
        by = {}
        for r in results:
            by.setdefault(r['case'], []).append(r['wall'])
        for k, v in by.items():
            print(f'   {k:40s} n={len(v):5d} mean={sum(v)/len(v):.3f} '
                  f'max={max(v):.2f}')
    return code


if __name__ == '__main__':
    sys.exit(main())

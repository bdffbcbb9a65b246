#!/usr/bin/env python
"""check.py PROPERTY [--tier quick|thorough]   decide one property against /repo's current source"""
import argparse
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
os.environ.setdefault('OPENMDAO_REPORTS', '0')
os.environ.setdefault('TESTFLO_RUNNING', '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(k, '1')
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
REPO = os.environ.get('AVIARY_REPO', '/repo')
sys.path.insert(1, REPO)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--only', default=None)
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    import tempfile
    import shutil
    scratch = tempfile.mkdtemp(prefix='sx_')
    os.chdir(scratch)
    try:
        from sx.runner import Report, run_tasks
        from props import REGISTRY
        import time
        spec = REGISTRY[a.prop]
        mod = importlib.import_module('props.' + spec['module'])
        rep = Report(a.prop, a.tier, seed, spec.get('level', 'model_checking'))
        tasks = mod.tasks(a.prop, a.tier, seed, rep, a.only)
        budget = mod.BUDGET[a.tier] if hasattr(mod, 'BUDGET') else {'quick': 420, 'thorough': 3000}[a.tier]
        for name, rec in run_tasks(tasks, nproc=int(os.environ.get('SX_NPROC', '8')), deadline=time.time() + budget):
            rep.add(name, rec)
        rc = rep.finish()
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()

"""Properties decided by scenarios (sx/prove.py)."""
import importlib

from sx import prove
from sx.runner import Known
from sx.scen import REG

BUDGET = {'quick': 420, 'thorough': 3000}
MODULES = {'C08': ['mass']}


def one(prop, scn, tier, seed):
    kw = dict(scn.kw)
    secs = kw.pop('seconds', 60)
    mp = kw.pop('max_paths', 64)
    kw.setdefault('total', True)
    if tier == 'thorough':
        secs, mp = secs * 5, mp * 6
    return prove.run(scn.name, scn.fn, seconds=secs, max_paths=mp, seed=seed, known=Known(prop), **kw)


def load(prop):
    from props.catalog import PROPS
    spec = next(p for p in PROPS if p['id'] == prop)
    for m in spec['scn']:
        importlib.import_module('props.s_' + m)
    return spec


def tasks(prop, tier, seed, rep, only=None):
    spec = load(prop)
    rep.bounds = dict(spec.get('bounds') or {}, scenarios=sum(1 for t, s in REG[prop] if t == 'quick' or tier == 'thorough'),
                      inputs='every scalar input of a scenario is symbolic over the box its source states')
    rep.assumptions = ['real arithmetic stands for floating point (relative tolerance 1e-7 on coefficients)'] + list(spec.get('assume', ()))
    out = []
    for t, s in REG[prop]:
        if t == 'thorough' and tier != 'thorough':
            continue
        if only and only not in s.name:
            continue
        secs = s.kw.get('seconds', 60) * (5 if tier == 'thorough' else 1)
        out.append((s.name, one, (prop, s, tier, seed), secs + 60))
    return out

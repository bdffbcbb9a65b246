"""C01..C06: analytic derivatives, purity and re-evaluation independence of every component."""
import os
import time

from sx import deriv, omharness as H
from sx.runner import Known

GROUPS = {
    'C01': ('subsystems.geometry.',),
    'C02': ('subsystems.mass.flops_based.',),
    'C03': ('subsystems.mass.gasp_based.', 'subsystems.mass.simple_mass.'),
    'C04': ('subsystems.aerodynamics.',),
    'C05': ('subsystems.propulsion.', 'subsystems.atmosphere.', 'subsystems.energy.', 'subsystems.performance.'),
    'C06': ('mission.', 'utils.', 'core.', 'variable_info.', 'subsystems.'),
}
# conversion-tool components that are only ever run, never differentiated
EXCLUDE = ('utils.engine_deck_conversion.',)
SLOW = ('SkinFrictionDrag', 'LiftDependentDrag', 'CompressibilityDrag', 'BWBDetailedCabinLayout', 'HamiltonStandard',
        'BWBCabinLayout', 'GroundEffect')
NCFG = {'quick': 8, 'thorough': 40}
TIME = {'quick': 40, 'thorough': 240}
PATHS = {'quick': 24, 'thorough': 120}
BUDGET = {'quick': 420, 'thorough': 3000}


def group_of(name):
    for g, pre in GROUPS.items():
        if name.startswith(EXCLUDE):
            return None
        if name.startswith(pre):
            return g


def one(prop, cls, label, opts, tier, seed):
    known = Known(prop)
    r = deriv.analyse(cls, opts, time.time() + TIME[tier], max_paths=PATHS[tier], seed=seed, known=known)
    nm = H.cname(cls)
    r['functions'] = [f'{nm}.{m}' for m in ('compute', 'compute_partials', 'apply_nonlinear', 'linearize')
                      if m in cls.__dict__]
    return r


def tasks(prop, tier, seed, rep, only=None):
    rep.bounds = {'nodes per vector': 2, 'option variants per component': NCFG[tier], 'paths per variant': PATHS[tier],
                  'seconds per variant': TIME[tier],
                  'inputs': 'every scalar input and run-time numeric option symbolic over its physical box '
                            '(sign by kind of quantity, 20x its default magnitude)',
                  'outside': 'measure-zero equality branches; complex-step declared pairs; components listed as undecided'}
    rep.assumptions = ['real arithmetic stands for floating point (relative tolerance 1e-7 on coefficients)',
                       'path conditions hold on an open neighbourhood, so the derivative is one-sided at no boundary',
                       'bases of fractional powers and logarithm arguments are positive on the path']
    cl, bad = H.discover()
    out = []
    for c in cl:
        n = H.cname(c)
        if group_of(n) != prop or (only and only not in n):
            continue
        try:
            cf = H.configs(c, NCFG[tier])
        except Exception:  # noqa: BLE001
            cf = []
        for lab, o in cf:
            out.append((f'{n} [{lab}]', one, (prop, c, lab, o, tier, seed), TIME[tier] + 60))
    out.sort(key=lambda t: 0 if any(s in t[0] for s in SLOW) else 1)
    return out

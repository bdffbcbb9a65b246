"""C19: every scaler multiplies its own item and nothing else."""
import inspect

import openmdao.api as om

from aviary.subsystems.mass.flops_based import wing_common as FW, furnishings as FF
from aviary.subsystems.mass.gasp_based import control as GC, engine as GE, fuel as GF, fixed as GX, wing as GW
from aviary.variable_info.variables import Aircraft as A
from sx import omharness as H
from sx.expr import Unsupported
from sx.scen import REG, Scn, scenario
from props.s_types import inputs, shapes

# scaler -> item where the two are not named alike
ITEM = {
    'aircraft:propulsion:engine_oil_mass': ['aircraft:propulsion:total_engine_oil_mass'],
    'aircraft:propulsion:misc_mass': ['aircraft:propulsion:total_misc_mass'],
    'aircraft:engine:thrust_reversers_mass': ['aircraft:engine:thrust_reversers_mass', 'aircraft:propulsion:total_thrust_reversers_mass'],
    'aircraft:engine:pod_mass': ['aircraft:propulsion:total_engine_pod_mass'],
    'aircraft:furnishings:mass': ['aircraft:furnishings:mass', 'aircraft:furnishings:mass_base'],
}
# by documentation: an exponent; a coefficient per passenger
NOT_LINEAR = {('EngineMass', 'aircraft:engine:mass_scaler'), ('FurnishingMass', 'aircraft:furnishings:mass_scaler'), ('BWBFurnishingMass', 'aircraft:furnishings:mass_scaler')}
# further results that include the item: (calculation, result)
ALSO = {('TotalEngineMass', 'pylon_mass'), ('WingMountEngineMass', 'eng_comb_mass'), ('WingMountEngineMass', 'wing_mounted_mass')}


def scalers(k):
    return [n for n in k._var_rel_names['input'] if n.endswith('_scaler')]


def items(s, outs):
    base = s[:-len('_scaler')]
    return [n for n in ITEM.get(base, [base]) if n in outs]


def scaled(c, cls, opts, s):
    si, k = shapes(cls, opts, 'input')
    so, _ = shapes(cls, opts, 'output')
    own = items(s, so)
    x = inputs(c, k, si)
    n = x[s].size
    one = c.arr([1.0] * n).reshape(si[s])
    f = c.arr([c.real(f'scaler {i}', 0.0, 20.0, 1.3) for i in range(n)])
    a = c.comp(cls, opts, dict(x, **{s: one}))
    b = c.comp(cls, opts, dict(x, **{s: f.reshape(si[s])}))
    for o in so:
        if o in own and (n == 1 or tuple(so[o]) == tuple(si[s])):
            c.equal(f'{o} is its unscaled value times the scaler', b[o].reshape((-1,)), a[o].reshape((-1,)) * (f if n > 1 else f[0]))
        elif o in own:
            same = c.comp(cls, opts, dict(x, **{s: (one * f[0]).reshape(si[s])}))
            c.equal(f'{o} is its unscaled value times the common scaler', same[o], a[o] * f[0])
        elif (cls.__name__, o) not in ALSO:
            c.equal(f'{o} does not change with the scaler of another item', b[o], a[o])


def _register():
    for cls in H.discover()[0]:
        if inspect.isabstract(cls) or not issubclass(cls, om.ExplicitComponent):
            continue
        nm = H.cname(cls)
        if not nm.startswith(('subsystems.mass', 'subsystems.geometry')):
            continue
        try:
            cfgs = H.configs(cls, 200, numbers=True)
        except Exception:  # noqa: BLE001
            continue
        for j, (lab, o) in enumerate(cfgs):
            try:
                k = H.build(cls, o)[1]
            except H.SetupFailed:
                continue
            sc = scalers(k)
            if not sc:
                if j > 2:
                    break
                continue
            outs = k._var_rel_names['output']
            for s in sc:
                if (cls.__name__, s) in NOT_LINEAR or not items(s, outs):
                    continue

                def fn(c, cls=cls, o=o, s=s):
                    return scaled(c, cls, o, s)
                REG.setdefault('C19', []).append(('quick' if j < 6 else 'thorough', Scn('C19', f'{nm} {lab} {s.split("aircraft:")[-1]}', fn, dict(
                    functions=[cls.__name__], seconds=30, max_paths=24, total=False, skip_eq=True))))


_register()


def symbolic_inputs(c, cls, opts, tag):
    si, k = shapes(cls, opts, 'input')
    return inputs(c, k, si)


def chain(c, steps, scaler_names, watch, label):
    """steps: (class, options); results of a step feed the later ones. Every watched result with all scalers one and with them free."""
    free = {}
    res = []
    for on in (False, True):
        have = {}
        for cls, opts in steps:
            si, k = shapes(cls, opts, 'input')
            x = inputs(c, k, si)
            for n in si:
                if n in have:
                    x[n] = have[n]
                elif n in scaler_names:
                    if n not in free:
                        free[n] = c.arr([c.real(f'{n} value', 0.1, 10.0, 1.2) for _ in range(x[n].size)]).reshape(si[n])
                    x[n] = free[n] if on else free[n] * 0.0 + 1.0
            have.update(c.comp(cls, opts, x))
        res.append(have)
    for w in watch:
        c.equal(f'{w} {label}', res[1][w], res[0][w])
    return res


def opts_of(cls, **kw):
    d = dict(H.configs(cls, 1)[0][1])
    d.update(kw)
    return d


@scenario('C19', functions=['WingMiscMass', 'WingShearControlMass', 'WingBendingMass'], seconds=60)
def flops_wing_parts(c):
    st = [(FW.WingMiscMass, opts_of(FW.WingMiscMass)), (FW.WingShearControlMass, opts_of(FW.WingShearControlMass)),
          (FW.WingBendingMass, opts_of(FW.WingBendingMass))]
    r = chain(c, st, {A.Wing.MISC_MASS_SCALER, A.Wing.SHEAR_CONTROL_MASS_SCALER}, [A.Wing.BENDING_MATERIAL_MASS],
              'does not change with the scalers of the other wing parts')
    for s, n in ((A.Wing.MISC_MASS_SCALER, A.Wing.MISC_MASS), (A.Wing.SHEAR_CONTROL_MASS_SCALER, A.Wing.SHEAR_CONTROL_MASS)):
        c.equal(f'{n} scales', r[1][n], r[0][n] * c.arr([c.real(f'{s} value', 0.1, 10.0, 1.2)]))


@scenario('C19', functions=['MiscControlMass', 'SurfaceControlMass'], seconds=60)
def gasp_controls(c):
    st = [(k, opts_of(k)) for k in (GC.MiscControlMass, GC.SurfaceControlMass)]
    chain(c, st, {A.Controls.COCKPIT_CONTROL_MASS_SCALER, A.Controls.STABILITY_AUGMENTATION_SYSTEM_MASS_SCALER},
          [A.Wing.SURFACE_CONTROL_MASS], 'does not change with the scalers of the other controls')


@scenario('C19', functions=['TotalEngineMass', 'AdditionalEngineMass'], seconds=60)
def gasp_engine(c):
    st = [(k, opts_of(k)) for k in (GE.TotalEngineMass, GE.AdditionalEngineMass)]
    chain(c, st, {A.Nacelle.MASS_SCALER}, [A.Propulsion.TOTAL_ENGINE_MASS, A.Engine.ADDITIONAL_MASS],
          'does not change with the nacelle scaler')

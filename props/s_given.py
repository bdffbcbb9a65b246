"""C30: values the user gives are the values used, also where the program would compute them."""
import copy
import warnings

import dymos as dm
import numpy as np
import openmdao.api as om
from openmdao.utils.units import unit_conversion

import aviary.core.aviary_group as ag
import aviary.utils.aviary_options_dict as aod
import aviary.utils.aviary_values as av_mod
import aviary.utils.merge_variable_metadata as merge_mod
import aviary.utils.named_values as nv_mod
import aviary.utils.utils as ut
from aviary.core.aviary_group import AviaryGroup
from aviary.core.aviary_problem import AviaryProblem
from aviary.utils.aviary_values import AviaryValues
from aviary.utils.named_values import NamedValues
from aviary.subsystems.subsystem_builder import SubsystemBuilder
from aviary.variable_info.enums import Verbosity
from aviary.variable_info.functions import add_aviary_input, add_aviary_option, add_aviary_output, setup_model_options, setup_trajectory_params
from aviary.variable_info.variable_meta_data import CoreMetaData
from aviary.variable_info.variables import Aircraft
from sx import shim
from sx.expr import Term
from sx.group import SymGroup, conv
from sx.sarr import SArr, sarray
from sx.scen import scenario

shim.install(ut, av_mod, nv_mod, aod, merge_mod)

OTHER = {'lbm': 'kg', 'ft': 'm', 'ft**2': 'm**2', 'ft**3': 'm**3', 'deg': 'rad', 'lbf': 'N', 'inch': 'ft', 'nmi': 'km', 'NM': 'km', 'lbf/ft**2': 'Pa',
         'psi': 'Pa', 'kn': 'm/s', 'kW': 'hp', 'lbm/ft': 'kg/m', 'gal/ft**3': None, 'lbm/lbf': 'kg/N', 'rad': 'deg', 'min': 's', 'h': 'min', 's': 'min',
         'lbm/h': 'kg/s', 'lbm/ft**2': 'kg/m**2', 'lbm/ft**3': 'kg/m**3', 'mi': 'm', 'rpm': 'rad/s', 'ft/s': 'm/s', 'lbm/galUS': 'kg/m**3',
         'galUS': 'ft**3', 'hp': 'kW', 'kW*h': 'J', '1/rad': '1/deg', '1/deg': '1/rad', '1/ft': '1/m', 'lbf/lbm': 'N/kg'}


class Marks:
    """symbolic values handed to OpenMDAO travel as numbers of their own and are found again in its vectors"""

    def __init__(self):
        self.by = {}
        self.no = {}

    def one(self, t):
        if not isinstance(t, Term):
            return float(t)
        if t.id not in self.no:
            x = 3.0 + 0.1234567 * (len(self.no) + 1)
            self.no[t.id] = x
            self.by[x] = t
        return self.no[t.id]

    def put(self, v):
        if isinstance(v, Term):
            return self.one(v)
        a = np.asarray(v, dtype=object) if not isinstance(v, np.ndarray) else v
        if not any(isinstance(t, Term) for t in a.reshape(-1).view(np.ndarray)):
            return v
        return np.array([self.one(t) for t in a.reshape(-1).view(np.ndarray)]).reshape(a.shape)

    def get(self, x):
        return [self.by.get(float(t), float(t)) for t in np.asarray(x).reshape(-1)]


class caught:
    """OpenMDAO's own storage of input defaults takes numbers only"""

    def __init__(self, marks):
        self.marks = marks

    def __enter__(self):
        self.old = []
        for k, n in ((om.Group, 'set_input_defaults'), (dm.Trajectory, 'add_parameter'), (dm.Phase, 'add_parameter')):
            self.old.append((k, n, getattr(k, n)))
            setattr(k, n, self.marked(getattr(k, n)))

    def marked(self, old):
        marks = self.marks

        def call(self, name, *a, **kw):
            if 'val' in kw:
                kw['val'] = marks.put(kw['val'])
            return old(self, name, *(marks.put(x) for x in a), **kw)
        return call

    def __exit__(self, *a):
        for k, n, old in self.old:
            setattr(k, n, old)


DECKS = {
    'flops': 'models/aircraft/advanced_single_aisle/advanced_single_aisle_FLOPS.csv',
    'flops2': 'models/aircraft/large_single_aisle_2/large_single_aisle_2_altwt_FLOPS.csv',
    'detailed wing': 'models/aircraft/large_single_aisle_2/large_single_aisle_2_detailwing_FLOPS.csv',
    'minimum': 'models/aircraft/minimum_single_aisle/minimum_single_aisle_FLOPS.csv',
    'bwb flops': 'models/aircraft/blended_wing_body/bwb_detailed_FLOPS.csv',
    'gasp': 'models/aircraft/large_single_aisle_1/large_single_aisle_1_GASP.csv',
    'small gasp': 'models/aircraft/small_single_aisle/small_single_aisle_GASP.csv',
    'bwb gasp': 'models/aircraft/blended_wing_body/generic_BWB_GASP.csv',
    'turboprop': 'models/aircraft/large_turboprop_freighter/large_turboprop_freighter_GASP.csv',
    'flops gasp': 'validation_cases/validation_data/test_models/aircraft_for_bench_FwGm.csv',
    'gasp flops': 'validation_cases/validation_data/test_models/aircraft_for_bench_GwFm.csv',
}
PARKED = list(DECKS)
DECKS['solved'] = 'validation_cases/validation_data/test_models/aircraft_for_bench_solved2dof.csv'
PREP = {}


def quietly(f, *a, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return f(*a, **kw)


def prepared(deck):
    """the aircraft of a deck, after preprocessing (numbers)"""
    if deck not in PREP:
        g = AviaryGroup(verbosity=Verbosity.QUIET)
        g.meta_data = CoreMetaData
        quietly(g.load_inputs, DECKS[deck], verbosity=Verbosity.QUIET)
        quietly(g.check_and_preprocess_inputs, verbosity=Verbosity.QUIET)
        g.pre_mission_info['include_takeoff'] = False
        PREP[deck] = g
    return PREP[deck]


def build(deck, av, external=()):
    b = prepared(deck)
    g = AviaryGroup(verbosity=Verbosity.QUIET)
    for k in ('meta_data', 'configurator', 'pre_mission_info', 'post_mission_info', 'engine_models', 'subsystems', 'mission_info', 'external_subsystems'):
        setattr(g, k, getattr(b, k))
    g.aviary_inputs = av
    g.external_subsystems = list(b.external_subsystems) + list(external)
    g.add_pre_mission_systems(verbosity=Verbosity.QUIET)
    p = om.Problem(g, reports=False)
    setup_model_options(p, b.aviary_inputs, engine_models=g.engine_models)
    return p


def numeric(v):
    try:
        a = np.asarray(v)
    except ValueError:
        return False
    return a.dtype.kind == 'f' or (a.dtype.kind == 'i')


COMPUTED = {}


def computed(deck):
    """what the core subsystems compute that the deck does not give: name -> (shape, units)"""
    if deck not in COMPUTED:
        s = SymGroup(lambda: build(deck, copy.deepcopy(prepared(deck).aviary_inputs)))
        out = {}
        for c in s.comps:
            if not c.pathname.startswith('pre_mission.core_subsystems.'):
                continue
            for n in c._var_rel_names['output']:
                p = s.prom(c.pathname + '.' + n, 'output')
                if p in CoreMetaData and not CoreMetaData[p]['option'] and (p.startswith('aircraft:') or p.startswith('mission:')):
                    m = c._var_rel2meta[n]
                    out[p] = (m['shape'], m.get('units'))
        COMPUTED[deck] = out
    return COMPUTED[deck]


def value(c, name, like, units):
    """a symbolic quantity of that name, in a unit of its own where there is one"""
    u = OTHER.get(units) or units
    k = unit_conversion(units, u)[0] if u != units else 1.0
    a = np.asarray(like, dtype=float)
    if a.shape == ():
        d = float(a)
        return c.real(name, -1e9, 1e9, d * k), u
    vs = [c.real(f'{name}[{i}]', -1e9, 1e9, float(x) * k) for i, x in enumerate(a.reshape(-1))]
    return c.arr(vs), u


def given_values(c, deck, more):
    base = prepared(deck).aviary_inputs
    av, given = AviaryValues(), {}
    for key, (val, units) in base:
        m = CoreMetaData.get(key)
        if m is None or m['option'] or not numeric(val) or not (key.startswith('aircraft:') or key.startswith('mission:')):
            av.set_val(key, val, units)
            continue
        given[key] = value(c, key, val, units)
    names = sorted(computed(deck))
    if isinstance(more, str):
        names = [more]
    else:
        names = names[more[0]::more[1]] if more else []
    for key in names:
        shape, units = computed(deck)[key]
        multi = CoreMetaData[key]['multivalue']
        given[key] = value(c, key, np.full(shape, 2.0) if multi or np.prod(shape) > 1 else 2.0, units or 'unitless')
    for key, (v, u) in given.items():
        NamedValues.set_val(av, key, v, u)
    return av, given


def flat(v):
    if isinstance(v, np.ndarray):
        return list(v.reshape(-1).view(np.ndarray))
    return [v]


def read(s, marks, abs_in, meta):
    """what a component's input receives: (computed?, values in its own unit)"""
    src = s.conn[abs_in]
    if not src.startswith('_auto_ivc.'):
        return src, None
    vals = marks.get(s.prob.model._outputs[src])
    su = s.model._var_allprocs_abs2meta['output'][src].get('units')
    vals = [vals[i] for i in s.index[abs_in]]
    return None, [conv(v, su, meta.get('units')) for v in vals]


def source(s, a, meta):
    """as read, through the parameters of trajectory and phases, which hand on what they get"""
    src = s.conn[a]
    cn, rel = src.rsplit('.', 1)
    if cn.endswith('.param_comp') and rel.startswith('parameter_vals:'):
        up = cn + '.parameters:' + rel[len('parameter_vals:'):]
        top, vals, unit, prom = source(s, up, s.model._var_allprocs_abs2meta['input'][up])
    else:
        top, vals, prom = src, None, s.prom(a, 'input')
        unit = s.model._var_allprocs_abs2meta['output'][src].get('units')
        if src.startswith('_auto_ivc.'):
            vals = s.marks.get(s.prob.model._outputs[src])
            by = s.prob.model._get_subsystem(a.rsplit('.', 1)[0])
            own = s.given(by, a[len(by.pathname) + 1:]) if by is not None else None
            if own is not None:
                return src, flat(own), meta.get('units'), prom
    if vals is not None:
        vals = [conv(vals[i], unit, meta.get('units')) for i in s.index[a]]
    return top, vals, meta.get('units'), prom


def used(k, n):
    """off the ground there is no friction, though the component has the coefficient among its inputs"""
    if n.endswith('rolling_friction_coefficient') and 'ground_roll' in k.options:
        return k.options['ground_roll'] or 'rotation' in k.options and k.options['rotation']
    return True


def same(c, label, got, want):
    for x, y in zip(got, want):
        c.equal(label, x, y)


@scenario('C30', functions=['override_aviary_vars', 'AviaryGroup.configure', 'AviaryGroup.add_pre_mission_systems', 'promote_aircraft_and_mission_vars',
                            'CorePreMission', 'StaticGroup.configure'],
          params=[dict(deck=d, more=m) for d in PARKED for m in (None, (0, 2), (1, 2))],
          thorough=[dict(deck=d, more=(i, 9)) for d in PARKED for i in range(9)], seconds=60, max_paths=8)
def whole_aircraft(c, deck, more):
    av, given = given_values(c, deck, more)
    marks = Marks()
    with caught(marks):
        s = SymGroup(lambda: build(deck, av))
    c.model = s.model
    outs = {}
    for k in s.comps:
        for n in k._var_rel_names['output']:
            outs.setdefault(s.prom(k.pathname + '.' + n, 'output'), []).append(k.pathname + '.' + n)
    core = {k.pathname: k.pathname.startswith('pre_mission.core_subsystems.') for k in s.comps}
    for k in s.comps:
        for n in k._var_rel_names['input']:
            a = k.pathname + '.' + n
            p = s.prom(a, 'input')
            if not (p.startswith('aircraft:') or p.startswith('mission:')) or p not in CoreMetaData:
                continue
            meta = k._var_rel2meta[n]
            src, vals = read(s, marks, a, meta)
            if p in given:
                if src is not None and not core[src.rsplit('.', 1)[0]]:
                    continue      # the propulsion system and external subsystems provide it
                c.true(f'{p} is the given one', src is None)
                if src is None:
                    v, u = given[p]
                    want = [conv(x, u, meta.get('units')) for x in flat(v)]
                    if len(want) == 1:
                        want = want * len(vals)
                    same(c, f'{p} is the given one', vals, want)
            elif src is None and p not in av:
                d = CoreMetaData[p]['default_value']
                if d is not None and np.ndim(d) == 0 and not isinstance(d, (str, bool)):
                    same(c, f'{p} by default', vals, [conv(float(d), CoreMetaData[p]['units'], meta.get('units'))] * len(vals))
    for k in s.comps:
        if not core[k.pathname]:
            continue
        for n in k._var_rel_names['output']:
            p = s.prom(k.pathname + '.' + n, 'output')
            c.true(f'{p} as computed stands aside', p not in given)
    for name, (shape, units) in computed(deck).items():
        if name not in given:
            c.true(f'{name} is computed once', len(outs.get(name, [])) == 1)


class Outside(om.ExplicitComponent):
    """an analysis of the user's own: computes some quantities from others"""

    def initialize(self):
        self.options.declare('ins')
        self.options.declare('outs')

    def setup(self):
        for n, (shape, units) in self.options['ins'].items():
            self.add_input(n, shape=shape, units=units)
        for n, (shape, units) in self.options['outs'].items():
            self.add_output(n, shape=shape, units=units)


class Own(SubsystemBuilder):
    def __init__(self, name, ins, outs, masses=()):
        super().__init__(name)
        self.ins, self.outs, self.masses = ins, outs, masses

    def build_pre_mission(self, aviary_inputs, subsystem_options=None):
        return Outside(ins=self.ins, outs=self.outs)

    def get_mass_names(self, aviary_inputs=None):
        return list(self.masses)


ALIASED = {'aircraft:design:lift_coefficient_max_flaps_up', 'mission:takeoff:lift_coefficient_max', 'mission:landing:lift_coefficient_max',
           'mission:takeoff:lift_coefficient_flap_increment', 'mission:landing:lift_coefficient_flap_increment',
           'mission:takeoff:drag_coefficient_flap_increment', 'mission:landing:drag_coefficient_flap_increment'}   # known findings of whole_aircraft


@scenario('C30', functions=['override_aviary_vars', 'promote_aircraft_and_mission_vars', 'AviaryGroup.add_pre_mission_systems',
                            'AviaryGroup._add_premission_external_subsystem_masses', 'StaticGroup.configure'],
          params=[dict(deck=d, part=i, of=3) for d in ('flops', 'gasp', 'bwb flops', 'flops gasp', 'gasp flops') for i in range(3)],
          thorough=[dict(deck=d, part=i, of=5) for d in PARKED for i in range(5)], seconds=60, max_paths=8)
def own_analyses(c, deck, part, of):
    free = {n: v for n, v in sorted(computed(deck).items()) if n not in ALIASED}
    names = list(free)
    ext = names[part::of]
    asked = names[(part + 1) % of::of][:6]
    av, given = AviaryValues(), {}
    for key, (val, units) in prepared(deck).aviary_inputs:
        av.set_val(key, val, units)
    for key in names[(part + 2) % of::of]:
        shape, units = free[key]
        multi = CoreMetaData[key]['multivalue']
        given[key] = value(c, key, np.full(shape, 2.0) if multi or np.prod(shape) > 1 else 2.0, units or 'unitless')
        NamedValues.set_val(av, key, *given[key])
    dims = {n: (s, OTHER.get(u) or u) for n, (s, u) in free.items()}
    half = len(ext) // 2
    own = [Own('first', {n: dims[n] for n in asked}, {n: dims[n] for n in ext[:half]} | {'first:mass': (1, 'lbm'), 'aircraft:first:mass': (1, 'kg')},
               ['aircraft:first:mass']),
           Own('second', {}, {n: dims[n] for n in ext[half:]} | {'aircraft:second:mass': (1, 'lbm'), 'mission:second:mass': (1, None)},
               ['aircraft:second:mass', 'mission:second:mass'])]
    marks = Marks()
    with caught(marks):
        s = SymGroup(lambda: build(deck, av, own))
    c.model = s.model
    mine = {n: ('pre_mission.first.' if n in ext[:half] else 'pre_mission.second.') + n for n in ext}
    for k in s.comps:
        for n in k._var_rel_names['input']:
            a = k.pathname + '.' + n
            p = s.prom(a, 'input')
            if p in mine:
                c.true(f'{p} is the one of the added analysis', s.conn[a] == mine[p])
            elif p in given:
                src, vals = read(s, marks, a, k._var_rel2meta[n])
                c.true(f'{p} is the given one beside added analyses', src is None)
                if src is None:
                    v, u = given[p]
                    want = [conv(x, u, k._var_rel2meta[n].get('units')) for x in flat(v)]
                    same(c, f'{p} is the given one beside added analyses', vals, want * len(vals) if len(want) == 1 else want)
            elif p in asked:
                c.true(f'{p} is the computed one beside added analyses', not s.conn[a].startswith('_auto_ivc.'))
    for k in s.comps:
        for n in k._var_rel_names['output']:
            a = k.pathname + '.' + n
            p = s.prom(a, 'output')
            if p in mine:
                c.true(f'{p} of the program stands aside', a == mine[p])
    name = Aircraft.Design.EXTERNAL_SUBSYSTEMS_MASS
    total = [k for k in s.comps for n in k._var_rel_names['output'] if s.prom(k.pathname + '.' + n, 'output') == name]
    c.true('masses of added analyses are summed', len(total) == 1)
    if len(total) == 1:
        vals, want = {}, 0.0
        for n, u in (('first.aircraft:first:mass', 'kg'), ('second.aircraft:second:mass', 'lbm'), ('second.mission:second:mass', None)):
            x = c.real(n, 0, 1e5, 100.0 + len(n))
            vals['pre_mission.' + n] = sarray([x])
            want = want + conv(x, u, 'kg')
        s.step(c, total[0], vals, ())
        a = [v for n, v in vals.items() if n.startswith(total[0].pathname + '.')][0]
        c.equal('masses of added analyses are summed', flat(a)[0], want)
        used = [a for a, src in s.conn.items() if s.prom(a, 'input') == name]
        c.true('the sum of the masses is used', all(s.conn[a].startswith(total[0].pathname + '.') for a in used) and bool(used))


ENGINE = {Aircraft.Engine.SUBSONIC_FUEL_FLOW_SCALER: 'unitless', Aircraft.Engine.SUPERSONIC_FUEL_FLOW_SCALER: 'unitless',
          Aircraft.Engine.FUEL_FLOW_SCALER_CONSTANT_TERM: 'unitless', Aircraft.Engine.FUEL_FLOW_SCALER_LINEAR_TERM: 'unitless',
          Aircraft.Engine.RPM_DESIGN: 'rpm', Aircraft.Engine.FIXED_RPM: 'rpm', Aircraft.Engine.REFERENCE_SLS_THRUST: 'lbf',
          Aircraft.Engine.CONSTANT_FUEL_MASS_CONSUMPTION: 'lbm/h'}


class Part(om.ExplicitComponent):
    """a component of an engine, with the options an engine may have"""

    def initialize(self):
        for n in ENGINE:
            add_aviary_option(self, n)

    def setup(self):
        self.add_output('y')


class Named:
    def __init__(self, name):
        self.name = name


def tree(prob, path, leaf):
    g = prob.model
    for k in path.split('.'):
        h = getattr(g, k, None)
        g = h if h is not None else g.add_subsystem(k, om.Group())
    for n in leaf:
        g.add_subsystem(n, Part())


@scenario('C30', functions=['setup_model_options', 'extract_options', 'units_setter', 'add_aviary_option'],
          params=[dict(names=n, missions=m) for m in (0, 2) for n in (('inner', 'outer'), ('fan', 'fan_2', 'fan_23'), ('fan_2', 'fan'), ('turbo',))],
          total=True, max_paths=40, seconds=30)
def engine_options(c, names, missions):
    """per-engine options reach that engine, before and during the mission, of that mission"""
    groups = [f'trip{i}' if i else 'trip' for i in range(missions)] or ['']
    prob = om.Problem(reports=False)
    want = {}
    for i, g in enumerate(groups):
        av = AviaryValues()
        for n, home in ENGINE.items():
            u = {'rpm': 'rad/s', 'lbf': 'N', 'lbm/h': 'kg/s'}.get(home, 'unitless')
            k = unit_conversion(u, home)[0] if u != home else 1.0
            vs = [c.real(f'{n} of {e} in {g or "the mission"}', 0, 1e6, 1.0 + i + 2 * j) for j, e in enumerate(names)]
            NamedValues.set_val(av, n, c.arr(vs), u)
            for e, v in zip(names, vs):
                want[g, e, n] = v * k
        engines = [Named(e) for e in names]
        pre = g + '.' if g else ''
        for e in names:
            tree(prob, f'{pre}pre_mission.propulsion.{e}', ['sizing'])
            tree(prob, f'{pre}traj.phases.cruise.rhs_all.core_propulsion.{e}', ['base', 'max'])
        if missions:
            h = getattr(prob.model, g)
            h.engine_models = engines
            setup_model_options(prob, av, CoreMetaData, prefix=g, group=h)
        elif len(names) > 2:
            setup_model_options(prob, av, CoreMetaData, engine_models=engines)
        else:
            prob.model.engine_models = engines
            setup_model_options(prob, av, CoreMetaData)
    s = SymGroup(lambda: prob)
    for k in s.comps:
        parts = k.pathname.split('.')
        g, e = (parts[0] if missions else ''), parts[-2]
        for n, home in ENGINE.items():
            v = k.options[n]
            if home != 'unitless':
                c.true(f'{n} keeps the unit of the component', v[1] == home)
                v = v[0]
            got = flat(v)
            c.true(f'{n} of one engine is one value', len(got) == 1)
            c.equal(f'{n} of {e} in {g or "the mission"}', got[0], want[g, e, n])


def phases_of(where, name='phase_info'):
    import importlib
    return copy.deepcopy(getattr(importlib.import_module('aviary.' + where), name))


def subsystem(info, **options):
    for k, v in info.items():
        if k not in ('pre_mission', 'post_mission'):
            v['subsystem_options'] = {'aerodynamics': options}
    return info


def trip(mission):
    """the mission, as in the examples"""
    if mission in ('energy', 'takeoff'):
        info = phases_of('models.missions.energy_state_default')
        for k, n in (('pre_mission', 'include_takeoff'), ('post_mission', 'include_landing')):
            info[k] = dict(info.get(k, {}), **{n: mission == 'takeoff'})
        return info
    if mission == 'two_dof':
        return phases_of('models.missions.two_dof_default')
    if mission == 'bwb two_dof':
        return phases_of('validation_cases.validation_data.test_data.generic_BWB_2dof_phase_info')
    if mission == 'gasp energy':
        return phases_of('validation_cases.validation_data.test_models.GwFm_phase_info')
    if mission == 'freighter':
        return phases_of('models.aircraft.large_turboprop_freighter.phase_info', 'two_dof_phase_info')
    info = phases_of('models.missions.solved2dof_default')
    return subsystem(info, method='low_speed', ground_altitude=0.0, angles_of_attack=[-5.0, 0.0, 5.0, 10.0], lift_coefficients=[0.1, 0.5, 1.0, 1.5],
                     drag_coefficients=[0.04, 0.02, 0.05, 0.2], lift_coefficient_factor=1.0, drag_coefficient_factor=1.0)


FLYING = {}


def whole(deck, mission):
    """the problem of a user: aircraft, mission and all, checked and preprocessed"""
    info = trip(mission)
    p = AviaryProblem(verbosity=Verbosity.QUIET)
    if mission == 'freighter':
        from aviary.subsystems.propulsion.turboprop_model import TurbopropModel
        from aviary.utils.process_input_decks import create_vehicle
        options, _ = quietly(create_vehicle, DECKS[deck], verbosity=Verbosity.QUIET)
        quietly(p.load_inputs, options, info, verbosity=Verbosity.QUIET)
        p.load_external_subsystems([quietly(TurbopropModel, 'turboprop', options=options)])
    else:
        quietly(p.load_inputs, DECKS[deck], info, verbosity=Verbosity.QUIET)
    quietly(p.check_and_preprocess_inputs, verbosity=Verbosity.QUIET)
    return p


def assembled(deck, mission, av=None):
    p = whole(deck, mission)
    if av is not None:
        p.model.aviary_inputs = p.aviary_inputs = av
    quietly(p.build_model, verbosity=Verbosity.QUIET)
    p.set_initial_guesses = lambda **kw: None
    return p


def flown(deck, mission):
    """what the mission of this aircraft reads: name -> shape, units"""
    key = deck, mission
    if key not in FLYING:
        p = whole(deck, mission)
        base = copy.deepcopy(p.aviary_inputs)
        s = SymGroup(lambda: assembled(deck, mission))
        made = {s.prom(k.pathname + '.' + n, 'output') for k in s.comps for n in k._var_rel_names['output']}
        uses = {}
        for k in s.comps:
            if k.pathname.startswith('pre_mission.'):
                continue
            for n in k._var_rel_names['input']:
                q = s.prom(k.pathname + '.' + n, 'input').rsplit('.', 1)[-1]
                if q in CoreMetaData and q not in made and q.split(':')[0] in ('aircraft', 'mission'):
                    m = k._var_rel2meta[n]
                    uses[q] = (m['shape'], CoreMetaData[q]['units'])
        FLYING[key] = base, uses
    return FLYING[key]


@scenario('C30', functions=['AviaryGroup.configure', 'AviaryGroup.add_phases', 'setup_trajectory_params', 'get_parameters of all core builders',
                            'AviaryProblem.build_model'],
          params=[dict(deck=d, mission=m) for d, m in (('flops', 'energy'), ('gasp', 'two_dof'), ('flops2', 'takeoff'), ('bwb flops', 'energy'),
                                                          ('bwb gasp', 'bwb two_dof'), ('turboprop', 'freighter'), ('gasp flops', 'gasp energy'),
                                                          ('solved', 'solved'), ('flops gasp', 'two_dof'))],
          thorough=[dict(deck=d, mission=m) for d, m in (('detailed wing', 'energy'), ('small gasp', 'two_dof'), ('minimum', 'energy'))], seconds=120, max_paths=8)
def whole_mission(c, deck, mission):
    base, uses = flown(deck, mission)
    av, given = AviaryValues(), {}
    for key, (val, units) in base:
        m = CoreMetaData.get(key)
        if m is None or m['option'] and key not in uses or not numeric(val) or key.split(':')[0] not in ('aircraft', 'mission'):
            av.set_val(key, val, units)
        else:
            given[key] = value(c, key, val, units)
    for key, (shape, units) in uses.items():
        if key in given:
            continue
        multi = CoreMetaData[key]['multivalue']
        given[key] = value(c, key, np.full(shape, 2.0) if multi or np.prod(shape) > 1 else 2.0, units or 'unitless')
    for key, (v, u) in given.items():
        NamedValues.set_val(av, key, v, u)
    marks = Marks()
    with caught(marks):
        s = SymGroup(lambda: assembled(deck, mission, av))
    s.marks = marks
    c.model = s.model
    for k in s.comps:
        if k.pathname.startswith('pre_mission.') or k.pathname.endswith('.param_comp'):
            continue
        for n in k._var_rel_names['input']:
            a = k.pathname + '.' + n
            q = s.prom(a, 'input').rsplit('.', 1)[-1]
            if q not in given or not used(k, n):
                continue
            top, vals, unit, prom = source(s, a, k._var_rel2meta[n])
            label = f'{q} in the mission'
            if vals is None:
                # results of the mission and of the propulsion system are not overridden
                c.true(label + ' is the given one', not top.startswith('pre_mission.core_subsystems.'))
                continue
            v, u = given[q]
            want = [conv(x, u, unit) for x in flat(v)]
            if len(want) == 1:
                want = want * len(vals)
            if len(want) != len(vals):
                want = list(np.array(want, dtype=object)[np.arange(len(vals)) % len(want)])
            same(c, label + ' is the given one', vals, want)


@scenario('C30', functions=['CoreAerodynamicsBuilder.get_parameters'],
          params=[dict(code=k, method=m) for k, ms in (('FLOPS', ('computed', 'low_speed', 'tabular')),
                                                       ('GASP', ('cruise', 'low_speed', 'tabular_cruise', 'tabular_low_speed'))) for m in ms], seconds=30, max_paths=40)
def aerodynamic_parameters(c, code, method):
    """what a phase asks for by name is given with its value, whatever the kind of aircraft"""
    from aviary.subsystems.aerodynamics.aerodynamics_builder import CoreAerodynamicsBuilder
    from aviary.variable_info.enums import AircraftTypes, LegacyCode
    for kind in AircraftTypes:
        for tails in ((1, 1), (0, 1), (1, 0), (0, 0)):
            given, got = AviaryValues(), {}
            given.set_val(Aircraft.Engine.NUM_ENGINES, [2])
            given.set_val(Aircraft.Design.TYPE, kind)
            given.set_val(Aircraft.HorizontalTail.NUM_TAILS, tails[0])
            given.set_val(Aircraft.VerticalTail.NUM_TAILS, tails[1])
            b = CoreAerodynamicsBuilder(code_origin=getattr(LegacyCode, code))
            opts = {'method': method, 'CD0_data': None, 'CDI_data': None}
            names = sorted(b.get_parameters(aviary_inputs=given, subsystem_options=opts))
            c.true('the area of the wing is a parameter', method == 'tabular_low_speed' or Aircraft.Wing.AREA in names)
            for n in names:
                m = CoreMetaData[n]
                if m['multivalue'] or not isinstance(m['default_value'], (int, float, type(None))):
                    continue
                got[n] = value(c, f'{n} of {kind.name} {tails}', 2.0, m['units'])
                NamedValues.set_val(given, n, *got[n])
            ps = b.get_parameters(aviary_inputs=given, subsystem_options=opts)
            for n, (v, u) in got.items():
                c.true('parameters do not depend on which values are given', n in ps)
                if n in ps:
                    same(c, f'{n} as a parameter', flat(ps[n]['val']), [conv(v, u, ps[n]['units'])])

"""C28: options given for a subsystem reach that subsystem.  C29: what subsystems, engines and their components declare."""
from types import SimpleNamespace

import numpy as np
import openmdao.api as om

import aviary.core.aviary_group as ag
import aviary.mission.phase_builder as pb
import aviary.mission.utils as mu
import aviary.utils.aviary_values as av_mod
import aviary.utils.named_values as nv_mod
import aviary.utils.utils as ut
from aviary.core.aviary_group import AviaryGroup
from aviary.mission.energy_state.ode.energy_state_ODE import EnergyStateODE
from aviary.mission.energy_state.ode.landing_ode import FlareODE, LandingODE
from aviary.mission.energy_state.ode.takeoff_ode import TakeoffODE
from aviary.mission.solved_two_dof.ode.groundroll_ode import GroundrollODE
from aviary.mission.solved_two_dof.ode.unsteady_solved_ode import UnsteadySolvedODE
from aviary.mission.two_dof.ode.accel_ode import AccelODE
from aviary.mission.two_dof.ode.breguet_cruise_ode import BreguetCruiseODE, ElectricBreguetCruiseODE
from aviary.mission.two_dof.ode.flight_ode import FlightODE
from aviary.mission.two_dof.ode.simple_cruise_ode import SimpleCruiseODE
from aviary.mission.two_dof.ode.takeoff_ode import TakeOffODE
from aviary.subsystems.aerodynamics.aerodynamics_builder import AerodynamicsBuilder
from aviary.subsystems.propulsion.engine_model import EngineModel
from aviary.subsystems.propulsion.propulsion_builder import CorePropulsionBuilder, PropulsionBuilder
from aviary.subsystems.propulsion.propulsion_mission import PropulsionMission
from aviary.subsystems.propulsion.propulsion_premission import PropulsionPreMission
from aviary.subsystems.propulsion.turboprop_model import TurbopropModel
from aviary.subsystems.subsystem_builder import SubsystemBuilder
from aviary.utils.aviary_values import AviaryValues
from aviary.variable_info.enums import AlphaModes, LegacyCode, SpeedType, Verbosity
from aviary.variable_info.variables import Aircraft as A, Dynamic as D, Settings
from sx import shim
from sx.rec import Interp, RecDymos
from sx.scen import scenario

from .s_phases import BUILDERS

shim.install(ut, av_mod, nv_mod, mu)
P = D.Vehicle.Propulsion
SUBSETS = [tuple(i for i in range(3) if m >> i & 1) for m in range(8)]

# ----------------------------------------------------------------------------------------------------------------------
# C28
# ----------------------------------------------------------------------------------------------------------------------


class Told:
    """mixed into a builder: keeps the options every call was given, as they were at that moment"""

    def _keep(self, what, opts):
        self.__dict__.setdefault('told', []).append((what, None if opts is None else dict(opts)))

    def build_mission(self, num_nodes, aviary_inputs, user_options, subsystem_options):
        self._keep('build_mission', subsystem_options)
        return om.Group()

    def build_pre_mission(self, aviary_inputs, subsystem_options=None):
        self._keep('build_pre_mission', subsystem_options)
        return om.Group()

    def needs_mission_solver(self, aviary_inputs=None, user_options=None, subsystem_options=None):
        self._keep('needs_mission_solver', subsystem_options)
        return True

    def mission_inputs(self, aviary_inputs=None, user_options=None, subsystem_options=None):
        self._keep('mission_inputs', subsystem_options)
        return ['*']

    def mission_outputs(self, aviary_inputs=None, user_options=None, subsystem_options=None):
        self._keep('mission_outputs', subsystem_options)
        return ['*']

    def get_states(self, aviary_inputs=None, user_options=None, subsystem_options=None):
        self._keep('get_states', subsystem_options)
        return {}

    def get_controls(self, aviary_inputs=None, user_options=None, subsystem_options=None):
        self._keep('get_controls', subsystem_options)
        return {}

    def get_constraints(self, aviary_inputs=None, user_options=None, subsystem_options=None):
        self._keep('get_constraints', subsystem_options)
        return {}


class Aero(Told, AerodynamicsBuilder):
    code_origin = LegacyCode.GASP


class Prop(Told, PropulsionBuilder):
    pass


class Extra(Told, SubsystemBuilder):
    pass


class Eng(Told, EngineModel):
    pass


NAMES = ('aerodynamics', 'propulsion', 'battery')


def subsystems(order, extra='battery'):
    made = [Aero('aerodynamics'), Prop('propulsion'), Extra(extra)]
    return made, [made[i] for i in order]


def chosen(c, names, who, tag=''):
    """options of those in who: one key of its own, one that others have as well, and a text for the aerodynamics"""
    out = {}
    for i in who:
        n = names[i]
        out[n] = {'own_' + n: c.real(f'{tag}{n}.own', -1e6, 1e6, 7.0 + i), 'shared': c.real(f'{tag}{n}.shared', -1e6, 1e6, 100.0 * (i + 1))}
        if i == 0:
            out[n]['method'] = 'my_method'
            out[n]['output_alpha'] = 'my_choice'
    return out


def copy2(d):
    return {k: dict(v) for k, v in d.items()}


def reached(c, label, given, names, told, exact=False):
    """each call of each was given its own options and nobody else's"""
    for i, n in enumerate(names):
        own = given.get(n, {})
        c.true(f'{label}: {n} is built', any(w.startswith('build') for w, _ in told[i]))
        for w, o in told[i]:
            o = o or {}
            for k, v in own.items():
                if k not in o:
                    c.true(f'{label}: {w} of {n} is given {k}', False)
                elif isinstance(v, str):
                    c.true(f"{label}: {w} of {n} is given the user's {k}", o[k] is v)
                else:
                    c.equal(f"{label}: {w} of {n} is given the user's {k}", o[k], v)
            foreign = [k for m in names if m != n for k in given.get(m, {}) if k not in own and k in o and (
                k not in ('method', 'output_alpha') or o[k] is given[m][k])]
            c.true(f'{label}: {w} of {n} is given nothing meant for another one', not foreign)
            if exact:
                c.true(f'{label}: {w} of {n} is given nothing else', set(o) == set(own))


def untouched(c, label, now, before):
    c.true(f"{label}: the user's own entries stay as they are", set(now) == set(before) and all(
        set(now[n]) == set(before[n]) and all(now[n][k] is before[n][k] for k in before[n]) for n in before))


def inputs(ntypes=1):
    av = AviaryValues()
    av.set_val(A.Engine.NUM_ENGINES, np.array([2] * ntypes))
    av.set_val(A.Propulsion.TOTAL_NUM_ENGINES, 2 * ntypes)
    av.set_val(Settings.VERBOSITY, Verbosity.QUIET)
    return av


ODES = {
    'energy': (EnergyStateODE, {}), 'energy control': (EnergyStateODE, {'throttle_enforcement': 'control'}),
    'takeoff': (TakeoffODE, {'friction_key': 'mission:takeoff:rolling_friction_coefficient'}), 'landing': (LandingODE, {
        'friction_key': 'mission:takeoff:rolling_friction_coefficient'}),
    'flare': (FlareODE, {}), 'accel': (AccelODE, {}), 'flight mach': (FlightODE, {'input_speed_type': SpeedType.MACH, 'EAS_target': 250.0}),
    'flight eas': (FlightODE, {'input_speed_type': SpeedType.EAS, 'EAS_target': 250.0}), 'simple': (SimpleCruiseODE, {}),
    'breguet': (BreguetCruiseODE, {}), 'electric': (ElectricBreguetCruiseODE, {}), 'roll': (GroundrollODE, {}),
    'solved': (UnsteadySolvedODE, {}), 'solved clean': (UnsteadySolvedODE, {'clean': True}), 'solved roll': (UnsteadySolvedODE, {'ground_roll': True}),
    'ascent': (TakeOffODE, {}), 'ascent clean': (TakeOffODE, {'clean': True}), 'ground roll': (TakeOffODE, {'ground_roll': True}),
    'rotation': (TakeOffODE, {'rotation': True}), 'ascent lift': (TakeOffODE, {'alpha_mode': AlphaModes.REQUIRED_LIFT}),
}


@scenario('C28', ('setup', 'add_subsystems', 'OptionsDictionary'), params=[dict(ode=o, order=r) for o in ODES for r in ((0, 1, 2), (2, 1, 0), (1, 0, 2))])
def to_the_subsystems(c, ode, order):
    """the equations of each kind of phase, with every choice of subsystems that have options"""
    cls, opts = ODES[ode]
    for who in SUBSETS:
        made, subs = subsystems(order)
        given = chosen(c, NAMES, who, f'{who}.')
        before = copy2(given)
        g = cls(num_nodes=2, aviary_options=inputs(), subsystems=subs, subsystem_options=given, **opts)
        g.setup()
        reached(c, f'{who}', before, NAMES, [m.told for m in made])
        untouched(c, f'{who}', given, before)


@scenario('C28', ('setup', 'add_subsystems'), params=[dict(ode=o) for o in ODES])
def two_phases(c, ode):
    """the same subsystems in a second phase with options of its own"""
    cls, opts = ODES[ode]
    for first in ((0, 1, 2), (0,), (2,)):
        made, subs = subsystems((0, 1, 2))
        one = chosen(c, NAMES, first, f'{first}a.')
        two = chosen(c, NAMES, (1,), f'{first}b.')
        cls(num_nodes=2, aviary_options=inputs(), subsystems=subs, subsystem_options=one, **opts).setup()
        for m in made:
            m.told.clear()
        before = copy2(two)
        cls(num_nodes=3, aviary_options=inputs(), subsystems=subs, subsystem_options=two, **opts).setup()
        reached(c, f'{first}', {**{n: {} for n in NAMES}, **before}, NAMES, [m.told for m in made])
        for i, n in enumerate(NAMES):
            if n in before:
                continue
            for w, o in made[i].told:
                c.true(f'{first}: {w} of {n} has nothing of the first phase', not any(
                    k in (o or {}) and o[k] is v for k, v in one.get(n, {}).items()))


@scenario('C28', ('build_phase', 'add_subsystem_variables_to_phase', '_extra_ode_init_kwargs'), params=[dict(builder=b) for b in BUILDERS if b != 'solved'])
def through_the_phase(c, builder):
    """options given to the phase are handed to the equations and to everything a subsystem declares for the phase"""
    for who in SUBSETS:
        made, subs = subsystems((0, 1, 2))
        given = chosen(c, NAMES, who, f'{who}.')
        before = copy2(given)
        old = pb.dm
        pb.dm = RecDymos()
        try:
            b = BUILDERS[builder]('p', subsystems=subs, user_options={'num_segments': 3, 'order': 3} if builder == 'flight' else {},
                                  subsystem_options=given)
            for m in made:   # a phase may ask whether it can take a subsystem before it has a description
                m.built = len(getattr(m, 'told', ()))
            ph = b.build_phase(aviary_options=inputs())
        finally:
            pb.dm = old
        got = ph.init['ode_init_kwargs'].get('subsystem_options', {})
        c.true(f'{who}: the equations know the same subsystems', list(ph.init['ode_init_kwargs']['subsystems']) == subs)
        for n in before:
            c.true(f'{who}: the equations are given the options of {n}', set(got.get(n, ())) == set(before[n]))
            for k, v in before[n].items():
                if not isinstance(v, str):
                    c.equal(f'{who}: the equations are given {k} of {n}', got[n][k], v)
        for m in made:
            m.told[:] = m.told[m.built:]
        told = [[(w if w != 'get_states' else 'build: get_states', o) for w, o in m.told] for m in made]
        reached(c, f'{who}', before, NAMES, told, exact=True)


ENGINES = ('left', 'right', 'tail')


@scenario('C28', ('setup', 'build_mission'), params=[dict(kind=k, n=n, maxes=m) for k in ('mission', 'builder') for n in (1, 2, 3) for m in (False, True)])
def to_the_engines(c, kind, n, maxes):
    """options of the propulsion are sorted by engine"""
    names = ENGINES[:n]
    for mask in range(2 ** n):
        who = tuple(i for i in range(n) if mask >> i & 1)
        engines = [Eng(name=x) for x in names]
        for e in engines:
            e.compute_max_values = maxes
        given = {names[i]: {'own_' + names[i]: c.real(f'{who}.{names[i]}.own', -1e6, 1e6, 7.0 + i),
                            'shared': c.real(f'{who}.{names[i]}.shared', -1e6, 1e6, 10.0 * i + 3)} for i in who}
        before = copy2(given)
        if kind == 'mission':
            g = PropulsionMission(num_nodes=2, aviary_options=inputs(n), engine_models=engines, engine_options=given)
        else:
            g = CorePropulsionBuilder(engine_models=engines).build_mission(2, inputs(n), {}, given)
        g.promotes = lambda *a, **k: None
        g.setup()
        reached(c, f'{who}', before, names, [e.told for e in engines], exact=True)
        untouched(c, f'{who}', given, before)
        for e in engines:
            c.true(f'{who}: the engine is built once, or twice where its maximum is needed', len(e.told) == (1 if maxes else 2))


class Part(Told, SubsystemBuilder):
    def __init__(self, name, empty=False):
        super().__init__(name)
        self.empty = empty

    def build_mission(self, num_nodes, aviary_inputs, user_options, subsystem_options):
        super().build_mission(num_nodes, aviary_inputs, user_options, subsystem_options)
        return None if self.empty else om.Group()


PARTS = ('shaft', 'gears', 'blades')


@scenario('C28', ('setup', 'build_mission'), params=[dict(empty=e) for e in (False, True)])
def to_the_parts(c, empty):
    """options of a turboprop are sorted by component"""
    for who in SUBSETS:
        parts = [Part(x, empty) for x in PARTS]
        m = TurbopropModel('tp', inputs(), parts[0], parts[2], parts[1])
        given = {PARTS[i]: {'own_' + PARTS[i]: c.real(f'{who}.{PARTS[i]}.own', -1e6, 1e6, 7.0 + i),
                            'shared': c.real(f'{who}.{PARTS[i]}.shared', -1e6, 1e6, 10.0 * i + 3)} for i in who}
        before = copy2(given)
        m.build_mission(2, inputs(), {}, given).setup()
        reached(c, f'{who}', before, PARTS, [p.told for p in parts], exact=True)
        untouched(c, f'{who}', given, before)


# ----------------------------------------------------------------------------------------------------------------------
# C29
# ----------------------------------------------------------------------------------------------------------------------


class Says:
    """mixed into a builder: declares what it is told to"""

    says = None

    def _get(self, k):
        v = self.says.get(k, {})
        return {n: (dict(x) if isinstance(x, dict) else x) for n, x in v.items()} if isinstance(v, dict) else list(v)

    def build_mission(self, num_nodes, aviary_inputs, user_options, subsystem_options):
        return om.Group()

    def needs_mission_solver(self, aviary_inputs=None, user_options=None, subsystem_options=None):
        return self.says['solver']

    def get_states(self, aviary_inputs=None, user_options=None, subsystem_options=None):
        return self._get('states')

    def get_controls(self, aviary_inputs=None, user_options=None, subsystem_options=None):
        return self._get('controls')

    def get_constraints(self, aviary_inputs=None, user_options=None, subsystem_options=None):
        return self._get('constraints')

    def get_parameters(self, aviary_inputs=None, user_options=None, subsystem_options=None):
        return self._get('parameters')

    def get_linked_variables(self, aviary_inputs=None, user_options=None, subsystem_options=None):
        return self._get('linked')

    def get_pre_mission_bus_variables(self, aviary_inputs=None, mission_info=None):
        return self._get('bus')

    def get_design_vars(self, aviary_inputs=None):
        return self._get('design')

    def get_initial_guesses(self, aviary_inputs=None, user_options=None, subsystem_options=None):
        return self._get('guesses')

    def get_mass_names(self, aviary_inputs=None):
        return self._get('masses')

    def get_timeseries(self, aviary_inputs=None, user_options=None, subsystem_options=None):
        return self._get('series')

    def get_post_mission_bus_variables(self, aviary_inputs=None, mission_info=None):
        return {p: dict(v) for p, v in self.says.get('post', {}).items()}

    def preprocess_inputs(self, aviary_inputs=None):
        how, name, v = self.says['prepares']
        if how == 'none':
            return aviary_inputs
        out = aviary_inputs.deepcopy() if how == 'copy' else aviary_inputs
        out.set_val(name, v, 'ft')
        return out


class SaysEng(Says, EngineModel):
    pass


class SaysPart(Says, SubsystemBuilder):
    pass


WANTS = {A.Fuselage.LENGTH: 0, A.Wing.SPAN: 1, A.Fuselage.MAX_WIDTH: 2}


def declares(c, name, i, how='in place', share=False):
    """what one of them declares, with numbers of its own"""
    v = lambda k, lo=-1e5, hi=1e5, w=1.0: c.real(f'{name}.{k}', lo, hi, w * (i + 1))  # noqa: E731
    lo, up = v('control.lower', 0.0, 10.0), v('control.upper', 10.0, 1e4, 20.0)
    common = 'common_phase' if share else f'{name}_phase'
    return {
        'solver': False,
        'states': {f'{name}_state': {'units': 'J', 'rate_source': f'{name}_rate', 'ref': v('state.ref', 1.0, 1e9, 5.0)},
                   f'{name}_state2': {'units': 'kg', 'rate_source': f'{name}_rate2', 'lower': v('state2.lower')}},
        'controls': {f'{name}_control': {'units': 'rpm', 'opt': True, 'lower': lo, 'upper': up}},
        'constraints': {f'{name}_con': {'type': 'path', 'upper': v('con.upper'), 'units': 'degC'},
                        f'{name}_con2': {'type': 'boundary', 'loc': 'final', 'equals': v('con2.equals'), 'units': 'kW'}},
        'parameters': {f'{name}_param': {'val': v('param'), 'units': 'kg'}, f'{name}_param2': {'val': v('param2'), 'units': 'm'}},
        'linked': [f'{name}_state', f'{name}_linked'],
        'bus': {f'{name}_bus': {'mission_name': f'{name}_mission', 'units': 'kg', 'scale': v('bus')}},
        'design': {f'{name}_dv': {'lower': v('dv.lower'), 'upper': v('dv.upper', 1e5, 1e6, 2e5), 'units': 'm'}},
        'guesses': {f'{name}_state': {'type': 'state', 'val': v('guess'), 'units': 'J'},
                    f'{name}_control': {'type': 'control', 'val': v('guess2', 10.0, 20.0), 'units': 'rpm'}},
        'masses': [f'{name}_mass', f'{name}_mass2'],
        'series': [f'{name}_series', f'{name}_series2'],
        'post': {common: {f'{name}_post': {'post_mission_name': f'{name}_final', 'scale': v('post')}}, f'{name}_only': {
            f'{name}_post2': {'post_mission_name': f'{name}_final2', 'scale': v('post2')}}},
        'prepares': (how, list(WANTS)[i], v('prepared', 1.0, 1e3, 30.0)),
    }


def holds(c, label, got, want, rename=None):
    """every declared entry is among the result, with its values"""
    rename = rename or {}
    if isinstance(want, list):
        c.true(f'{label}: a list of names', isinstance(got, list) and all(isinstance(x, str) for x in got))
        for n in want:
            c.true(f'{label}: {n}', n in got)
        return
    for n, w in want.items():
        n = rename.get(n, n)
        if n not in got:
            c.true(f'{label}: {n}', False)
            continue
        for k, x in w.items():
            if k not in got[n]:
                c.true(f'{label}: {k} of {n}', False)
            elif isinstance(x, (str, bool)):
                c.true(f'{label}: {k} of {n}', got[n][k] == x)
            else:
                c.equal(f'{label}: {k} of {n}', got[n][k], x)


HOOKS = {'states': 'get_states', 'controls': 'get_controls', 'constraints': 'get_constraints', 'parameters': 'get_parameters',
         'linked': 'get_linked_variables', 'guesses': 'get_initial_guesses', 'series': 'get_timeseries'}
PLAIN = {'design': 'get_design_vars', 'masses': 'get_mass_names'}


def all_hooks(c, model, members, av, prefix=''):
    for s in members:
        for k, f in HOOKS.items():
            got = getattr(model, f)(aviary_inputs=av, user_options={}, subsystem_options={})
            holds(c, f'{s.name} {k}', got, s.says[k])
        for k, f in PLAIN.items():
            holds(c, f'{s.name} {k}', getattr(model, f)(aviary_inputs=av), s.says[k])
        holds(c, f'{s.name} bus', model.get_pre_mission_bus_variables(av, mission_info={}), {prefix + n: v for n, v in s.says['bus'].items()})


@scenario('C29', ('get_states', 'get_controls', 'get_constraints', 'get_parameters', 'get_linked_variables', 'get_initial_guesses', 'get_timeseries',
                  'get_design_vars', 'get_mass_names', 'get_pre_mission_bus_variables'), params=[dict(n=n) for n in (1, 2, 3)])
def engines_declare(c, n):
    engines = [SaysEng(name=x) for x in ENGINES[:n]]
    for i, e in enumerate(engines):
        e.says = declares(c, e.name, i)
    model = CorePropulsionBuilder(engine_models=engines)
    for again in (False, True):
        all_hooks(c, model, engines, inputs(n), 'propulsion.')


@scenario('C29', ('get_parameters',), params=[dict(n=n) for n in (1, 2, 3)])
def shared_parameter(c, n):
    """a quantity of the engines has one entry per kind of engine; anything else keeps the shape it is declared with"""
    engines = [SaysEng(name=x) for x in ENGINES[:n]]
    v = [c.real(f'v{i}', 0.0, 100.0, i + 1.0) for i in range(n)]
    for i, e in enumerate(engines):
        e.says = {'parameters': {A.Engine.SCALE_FACTOR: {'units': 'unitless'}, f'own{i}': {'val': v[i], 'units': 'kg'}, A.Wing.AREA: {'units': 'ft**2'}}}
    got = CorePropulsionBuilder(engine_models=engines).get_parameters(aviary_inputs=inputs(n))
    c.true('one entry for each kind of engine', tuple(got[A.Engine.SCALE_FACTOR]['shape']) == (n,))
    c.true('a quantity of the aircraft keeps its shape', 'shape' not in got[A.Wing.AREA])
    for i in range(n):
        c.true(f'own quantity {i} keeps its shape', 'shape' not in got[f'own{i}'])
        c.equal(f'own quantity {i}', got[f'own{i}']['val'], v[i])


@scenario('C29', ('needs_mission_solver',), params=[dict(what=w) for w in ('engines', 'parts')])
def any_solver(c, what):
    """a solver is needed as soon as one of them needs one"""
    for mask in range(8):
        need = [bool(mask >> i & 1) for i in range(3)]
        if what == 'engines':
            ms = [SaysEng(name=x) for x in ENGINES]
            model = CorePropulsionBuilder(engine_models=ms)
        else:
            ms = [SaysPart(x) for x in PARTS]
            model = TurbopropModel('tp', inputs(), ms[0], ms[2], ms[1])
        for m, x in zip(ms, need):
            m.says = {'solver': x}
        c.true(f'{need}', bool(model.needs_mission_solver(inputs(), {}, {})) is any(need))


@scenario('C29', ('get_states', 'get_controls', 'get_constraints', 'get_parameters', 'get_linked_variables', 'get_initial_guesses', 'get_timeseries',
                  'get_design_vars', 'get_mass_names', 'get_pre_mission_bus_variables'), params=[dict(who=w) for w in SUBSETS if w])
def parts_declare(c, who):
    """components of a turboprop; the others declare nothing"""
    parts = [SaysPart(x) for x in PARTS]
    for i, s in enumerate(parts):
        s.says = declares(c, s.name, i) if i in who else {'solver': False, 'linked': [], 'masses': [], 'series': []}
    m = TurbopropModel('tp', inputs(), parts[0], parts[2], parts[1])
    for again in (False, True):
        all_hooks(c, m, [parts[i] for i in who], inputs())


@scenario('C29', ('get_controls',), params=[dict(i=i) for i in range(3)])
def speed_control(c, i):
    """a shaft speed declared as a control by a component controls the input of the shaft speed"""
    parts = [SaysPart(x) for x in PARTS]
    for s in parts:
        s.says = {'controls': {}}
    lo, up = c.real('lower', 0.0, 1e3, 100.0), c.real('upper', 1e3, 1e5, 2e3)
    parts[i].says = {'controls': {P.RPM: {'units': 'rpm', 'opt': True, 'lower': lo, 'upper': up}, 'pitch': {'units': 'deg', 'lower': lo}}}
    got = TurbopropModel('tp', inputs(), parts[0], parts[2], parts[1]).get_controls(aviary_inputs=inputs(), user_options={}, subsystem_options={})
    c.true('the speed itself is no control', P.RPM not in got)
    holds(c, 'control', got, parts[i].says['controls'], {P.RPM: P.RPM + '_control'})


@scenario('C29', ('get_post_mission_bus_variables',), params=[dict(share=s, again=a) for s in (False, True) for a in (False, True)])
def parts_after_the_mission(c, share, again):
    parts = [SaysPart(x) for x in PARTS]
    for i, s in enumerate(parts):
        s.says = declares(c, s.name, i, share=share)
    m = TurbopropModel('tp', inputs(), parts[0], parts[2], parts[1])
    got = m.get_post_mission_bus_variables(inputs(), {})
    if again:
        got = m.get_post_mission_bus_variables(inputs(), {})
    for s in parts:
        for phase, vs in s.says['post'].items():
            c.true(f'{s.name}: {phase}', phase in got)
            holds(c, f'{s.name} {phase}', got.get(phase, {}), vs)


@scenario('C29', ('preprocess_inputs', 'set_val', 'get_val', 'update'), params=[
    dict(what=w, how=h) for w in ('engines', 'parts') for h in ('in place', 'copy', 'none')])
def inputs_prepared(c, what, how):
    """each may change the inputs, or hand back a changed copy of them"""
    av = inputs(3 if what == 'engines' else 1)
    w0 = c.real('area', 1.0, 1e4, 1300.0)
    av.set_val(A.Wing.AREA, w0, 'ft**2')
    if what == 'engines':
        ms = [SaysEng(name=x) for x in ENGINES]
        model = CorePropulsionBuilder(engine_models=ms)
    else:
        ms = [SaysPart(x) for x in PARTS]
        model = TurbopropModel('tp', inputs(), ms[0], ms[2], ms[1])
    for i, m in enumerate(ms):
        m.says = declares(c, m.name, i, how=how if i != 1 else ('in place' if how == 'copy' else how))
    got = model.preprocess_inputs(aviary_inputs=av)
    c.true('inputs come back', isinstance(got, AviaryValues))
    c.equal('what nobody changed', got.get_val(A.Wing.AREA, 'ft**2'), w0)
    for m in ms:
        h, name, v = m.says['prepares']
        if h == 'none':
            c.true(f'{name} is not made up', name not in got)
        else:
            c.equal(f'{m.name}: {name}', got.get_val(name, 'ft'), v)


class SaysSub(Says, SubsystemBuilder):
    pass


ANALYTIC = ('simple', 'breguet')


@scenario('C29', ('add_subsystem_variables_to_phase', 'build_phase'), params=[dict(builder=b, n=n) for b in BUILDERS for n in (1, 2, 3)
                                                                             if b != 'solved'])
def onto_the_phase(c, builder, n):
    """states, controls and limits of subsystems become those of the phase"""
    subs = [SaysSub(x) for x in ('battery', 'cooling', 'noise')[:n]]
    for i, s in enumerate(subs):
        s.says = declares(c, s.name, i)
        if builder in ANALYTIC:
            s.says['controls'] = {}
        if builder == 'breguet':
            s.says['states'] = {}
    old = pb.dm
    pb.dm = RecDymos()
    try:
        b = BUILDERS[builder]('p', subsystems=subs, user_options={'num_segments': 3, 'order': 3} if builder == 'flight' else {})
        ph = b.build_phase(aviary_options=inputs())
    finally:
        pb.dm = old
    for s in subs:
        if builder in ANALYTIC:
            for st in s.says['states']:
                c.true(f'{s.name}: {st} is a state of the phase', st in ph.states)
        else:
            holds(c, f'{s.name} states', ph.states, s.says['states'])
            holds(c, f'{s.name} controls', ph.controls, s.says['controls'])
        for k, w in s.says['constraints'].items():
            where = ph.path if w['type'] == 'path' else ph.boundary
            got = [x for x in where if x['name'] == k]
            c.true(f'{s.name}: {k} is one limit of its kind', len(got) == 1 and not any(x['name'] == k for x in (
                ph.boundary if w['type'] == 'path' else ph.path)))
            for y in got:
                for a, x in w.items():
                    if a == 'type':
                        continue
                    if isinstance(x, str):
                        c.true(f'{s.name}: {a} of {k}', y[a] == x)
                    else:
                        c.equal(f'{s.name}: {a} of {k}', y[a], x)
                for a in ('lower', 'upper', 'equals'):
                    if a not in w:
                        c.true(f'{s.name}: no {a} for {k}', y[a] is None)
        c.true(f'{s.name}: what it declares is left as it was', all(w['type'] for w in s.says['constraints'].values()))


class FreePhase:
    """what a phase of the trajectory is told"""

    def __new__(cls):
        from sx.rec import RecPhase
        return RecPhase()


class Owner:
    """a builder of a phase that wants parameters of its own"""

    def __init__(self, params):
        self.params = params

    def get_parameters(self):
        return {k: dict(v) for k, v in self.params.items()}


class Traj(om.Group):
    made = None

    def __init__(self, parallel_phases=False):
        super().__init__()
        self.got, self.told = {}, {}
        Traj.made = self

    def add_phase(self, name, phase):
        self.got[name] = phase

    def add_parameter(self, name, targets=None, **kw):
        self.told.setdefault(name, []).append((targets, kw))


def mission(phases, subs, own=None):
    """a mission whose phases are recorders"""
    class Mission(AviaryGroup):
        def _get_phase(self, name, idx, comm):
            return self.rec[name], Owner((own or {}).get(name, {}))

        def promotes(self, name, inputs=None, **kw):
            self.promoted += list(inputs)
    g = Mission()
    g.verbosity = Verbosity.QUIET
    g.promoted = []
    g.rec = {p: FreePhase() for p in phases}
    g.mission_info = {p: {'user_options': {}} for p in phases}
    g.subsystems = subs
    g.aviary_inputs = inputs()
    g.phase_info_modifier = None
    g.initialization_guesses = {}
    return g


PHASES = ('climb', 'cruise', 'descent')


@scenario('C29', ('add_phases', 'setup_trajectory_params'), params=[dict(n=n) for n in (1, 2, 3)])
def to_the_trajectory(c, n):
    """parameters, reported histories and histories needed after the mission reach each phase of the trajectory"""
    subs = [SaysSub(x) for x in ('battery', 'cooling', 'noise')[:n]]
    for i, s in enumerate(subs):
        s.says = declares(c, s.name, i, share=True)
        s.says['post'] = {'cruise': s.says['post']['common_phase'], 'descent': s.says['post'][s.name + '_only']}
    v = c.real('own', 0.0, 10.0, 3.0)
    own = {'cruise': {'own_param': {'val': v, 'units': 'm'}}}
    g = mission(PHASES, subs, own)
    old = ag.dm
    ag.dm = SimpleNamespace(Trajectory=Traj)
    try:
        t = g.add_phases()
    finally:
        ag.dm = old
    c.true('every phase is part of it', t.got == g.rec)
    wanted = {k: (w, PHASES) for s in subs for k, w in s.says['parameters'].items()}
    wanted['own_param'] = (own['cruise']['own_param'], ('cruise',))
    c.true('nothing but these', set(t.told) == set(wanted))
    for k, (w, where) in wanted.items():
        c.true(f'{k} is one parameter', len(t.told.get(k, ())) == 1)
        targets, kw = t.told[k][0]
        c.true(f'{k} goes to its phases', set(targets) == set(where) and all(list(x) == [k] for x in targets.values()))
        c.true(f'{k} is open to the aircraft', g.promoted.count((f'parameters:{k}', k)) == 1)
        holds(c, 'parameter', {k: kw}, {k: w})
    for ph in PHASES:
        names = [a[0] for a, kw in g.rec[ph].series if not kw.get('timeseries')]
        bus = [a[0] for a, kw in g.rec[ph].series if kw.get('timeseries') == 'mission_bus_variables']
        for s in subs:
            for x in s.says['series']:
                c.true(f'{x} is reported in {ph}', names.count(x) == 1)
            for p, vs in s.says['post'].items():
                for x in vs:
                    c.true(f'{x} is kept in {p} only', bus.count(x) == (1 if p == ph else 0))


@scenario('C29', ('_add_subsystem_guesses', 'process_guess_var'), params=[dict(n=n, kind=k) for n in (1, 2) for k in ('one', 'many', 'single', 'whole')])
def guesses_of_subsystems(c, n, kind):
    """guesses of subsystems reach the variables they name"""
    subs = [SaysSub(x) for x in ('battery', 'cooling')[:n]]
    want = {}
    for i, s in enumerate(subs):
        s.says = {'guesses': {}}
        for t in ('state', 'control'):
            if kind == 'whole':
                x = 5 + i
            else:
                m = {'one': 0, 'many': 3, 'single': 1}[kind]
                x = [c.real(f'{s.name}.{t}.{j}', -1e3, 1e3, 4.0 + j) for j in range(m)] if m else c.real(f'{s.name}.{t}', -1e3, 1e3, 4.0)
            s.says['guesses'][f'{s.name}_{t}'] = {'val': x, 'units': 'kW', 'type': t}
            want[f'{s.name}_{t}'] = (t, x)
    g = mission(('climb',), subs)
    ph = g.rec['climb']
    g._add_subsystem_guesses('climb', ph)
    c.true('nothing else is guessed', len(ph.vals) == len(want))
    for nm, (t, x) in want.items():
        b = [y for k, y in ph.vals if k == t and y['name'] == nm]
        c.true(f'{nm} is guessed once', len(b) == 1)
        profile(c, nm, b[0]['vals'], 'one', b[0]['units'], x, nm)


def profile(c, label, got, _, unit, want, name):
    c.true(f'{label}: in its unit', unit == 'kW')
    if isinstance(got, Interp):
        c.true(f'{label}: interpolated as itself', got.b['name'] == name and got.b['kind'] == 'linear')
        if got.b['xs'] is not None:
            c.equal(f'{label}: evenly', np.asarray(got.b['xs'], dtype=float), np.linspace(-1, 1, len(want)))
        got = got.b['ys']
    g, w = (list(x) if isinstance(x, (list, tuple, np.ndarray)) else [x] for x in (got, want))
    c.true(f'{label}: all of it', len(g) == len(w))
    for i, (a, b) in enumerate(zip(g, w)):
        c.equal(f'{label} {i}', a, b)


@scenario('C29', ('check_and_preprocess_inputs', 'preprocess_inputs'), params=[dict(a=a, b=b) for a in ('in place', 'copy', 'none') for b in ('in place', 'copy', 'none')])
def prepared_for_the_mission(c, a, b):
    """inputs changed by external subsystems are the inputs the mission, and whoever holds them, goes on with"""
    subs = [SaysSub('battery'), SaysSub('cooling')]
    for i, (s, how) in enumerate(zip(subs, (a, b))):
        s.says = declares(c, s.name, i, how=how)
    g = mission((), [])
    g.engine_models = [SaysEng(name='left')]
    g.external_subsystems = list(subs)
    g.mass_method = g.aero_method = LegacyCode.GASP
    held = g.aviary_inputs
    w0 = c.real('area', 1.0, 1e4, 1300.0)
    held.set_val(A.Wing.AREA, w0, 'ft**2')
    seen = []
    old = ag.preprocess_options, ag.initialization_guessing
    ag.preprocess_options = lambda av, **k: seen.append(av)
    ag.initialization_guessing = lambda av, *r: seen.append(av)
    g.configurator = SimpleNamespace(initial_guesses=lambda grp: seen.append(grp.aviary_inputs), get_code_origin=lambda: LegacyCode.GASP)
    try:
        g.check_and_preprocess_inputs()
    finally:
        ag.preprocess_options, ag.initialization_guessing = old
    c.true('later steps are reached', len(seen) == 3)
    for label, av in (('options are prepared from', seen[0]), ('guesses are made from', seen[1]), ('the mission goes on with', g.aviary_inputs),
                      ('whoever holds the inputs sees', held)):
        c.equal(f'{label}: what nobody changed', av.get_val(A.Wing.AREA, 'ft**2'), w0)
        for s in subs:
            how, name, v = s.says['prepares']
            if how == 'none':
                c.true(f'{label}: nothing made up', name not in av)
            else:
                c.true(f'{label}: {name}', name in av)
                c.equal(f'{label}: {name} of {s.name}', av.get_val(name, 'ft'), v)


# ----------------------------------------------------------------------------------------------------------------------
# C28, the aerodynamics that come with Aviary
# ----------------------------------------------------------------------------------------------------------------------

MODELS = ('ComputedAeroGroup', 'TakeoffAeroGroup', 'TabularAeroGroup', 'CruiseAero', 'TabularCruiseAero', 'LowSpeedAero', 'TabularLowSpeedAero')
TABLES = ('free_aero_data', 'free_flaps_data', 'free_ground_data')
METHODS = {LegacyCode.FLOPS: {None: ('ComputedAeroGroup', ()), 'computed': ('ComputedAeroGroup', ()), 'low_speed': ('TakeoffAeroGroup', ()),
                              'tabular': ('TabularAeroGroup', ('CD0_data', 'CDI_data'))},
           LegacyCode.GASP: {None: ('CruiseAero', ()), 'cruise': ('CruiseAero', ()), 'low_speed': ('LowSpeedAero', ()),
                             'tabular_cruise': ('TabularCruiseAero', ('aero_data',)), 'tabular_low_speed': ('TabularLowSpeedAero', TABLES)}}


@scenario('C28', ('build_mission',), params=[dict(code=c, method=m, alpha=a) for c in METHODS for m in METHODS[c] for a in (None, False, True)
                                             if not (a and m == 'tabular_low_speed')])
def aerodynamics_of_a_phase(c, code, method, alpha):
    """the model the method names is built with the options of the phase, which stay as they were"""
    import aviary.subsystems.aerodynamics.aerodynamics_builder as ab
    model, tables = METHODS[code][method]
    made = []
    old = {m: getattr(ab, m) for m in MODELS}

    def stand_in(name):
        def make(**kw):
            made.append((name, kw))
            return om.Group()
        return make
    opts = {k: c.real(k, -1e3, 1e3, 1.0 + i) for i, k in enumerate(('gamma', 'own') + tables)}
    given = dict(opts)
    if method is not None:
        opts['method'] = method
    if alpha is not None:
        opts['solve_alpha'] = alpha
    before = dict(opts)
    n = c.real('nodes', 1.0, 100.0, 5.0)
    try:
        for m in MODELS:
            setattr(ab, m, stand_in(m))
        if code is LegacyCode.GASP and alpha:
            old['SolveAlphaGroup'] = ab.SolveAlphaGroup
            ab.SolveAlphaGroup = lambda **kw: om.Group()
        av = inputs()
        got = ab.CoreAerodynamicsBuilder('aerodynamics', code_origin=code).build_mission(n, av, {}, opts)
    finally:
        for m, v in old.items():
            setattr(ab, m, v)
    c.true('one model is built', got is not None and len(made) == 1 and made[0][0] == model)
    kw = dict(made[0][1])
    c.equal('for every node', kw.pop('num_nodes'), n)
    c.true('nothing but the options', set(kw) == set(given))
    for k, v in given.items():
        c.equal(f'{k} of the phase', kw[k], v)
    c.true('the options of the phase are left alone', set(opts) == set(before) and all(opts[k] is before[k] for k in before))


WAYS = {LegacyCode.FLOPS: (None, 'nothing', 'computed', 'tabular'), LegacyCode.GASP: (None, 'nothing', 'cruise', 'tabular_cruise', 'tabular_low_speed')}


@scenario('C28', ('check_and_preprocess_inputs', 'build_pre_mission'), params=[dict(code=k, n=n) for k in WAYS for n in (1, 2, 3)])
def aerodynamics_before_the_mission(c, code, n):
    """it is left out only when every phase has tables of its own, whatever the order of the phases"""
    from itertools import product
    from aviary.subsystems.aerodynamics.aerodynamics_builder import CoreAerodynamicsBuilder
    gamma = c.real('gamma', 1.0, 2.0, 1.4)
    old = ag.preprocess_options, ag.initialization_guessing
    ag.preprocess_options = lambda *a, **k: None
    ag.initialization_guessing = lambda *a: {}
    try:
        for ways in product(WAYS[code], repeat=n):
            g = mission(PHASES[:n], [])
            g.engine_models = [SaysEng(name='left')]
            g.external_subsystems = []
            g.mass_method = g.aero_method = code
            g.mission_info = {}
            for ph, w in zip(PHASES, ways):
                g.mission_info[ph] = {'user_options': {}}
                if w != 'nothing':
                    o = {'gamma': gamma}
                    if w is not None:
                        o['method'] = w
                    g.mission_info[ph]['subsystem_options'] = {'aerodynamics': o}
            g.configurator = SimpleNamespace(initial_guesses=lambda grp: None, get_code_origin=lambda: code)
            g.check_and_preprocess_inputs()
            aero = [s for s in g.subsystems if isinstance(s, CoreAerodynamicsBuilder)]
            c.true(f'{ways}: one aerodynamics', len(aero) == 1)
            for label, o in (('', {}), (' with options', {'gamma': gamma})):
                built = type(aero[0].build_pre_mission(g.aviary_inputs, o)).__name__
                wanted = 'TakeoffLoverD' if all('tabular' in (w or '') for w in ways) else 'PreMissionAero'
                c.true(f'{ways}{label}: built before the mission', built.endswith(wanted))
            if n > 1:
                for ph, w in zip(PHASES, ways):
                    o = g.mission_info[ph].get('subsystem_options')
                    c.true(f'{ways}: {ph} keeps its own', (o is None) == (w == 'nothing') and (o is None or o['aerodynamics'].get('method') == w))
                    if o is not None:
                        c.equal(f'{ways}: {ph} keeps gamma', o['aerodynamics']['gamma'], gamma)
    finally:
        ag.preprocess_options, ag.initialization_guessing = old

"""C23: the fuel, mass, time and range bookkeeping around a mission."""
from types import SimpleNamespace

import numpy as np
import openmdao.api as om

import aviary.core.aviary_group as ag
import aviary.utils.aviary_options_dict as aod
import aviary.utils.aviary_values as av_mod
import aviary.utils.named_values as nv_mod
import aviary.utils.utils as ut
from aviary.core.aviary_group import AviaryGroup
from aviary.mission.energy_state_problem_configurator import EnergyStateProblemConfigurator
from aviary.mission.solved_two_dof_problem_configurator import SolvedTwoDOFProblemConfigurator
from aviary.mission.two_dof_problem_configurator import TwoDOFProblemConfigurator
from aviary.mission.utils import separate_reserve_phases
from aviary.subsystems.energy.energy_builder import CoreEnergyBuilder
from aviary.subsystems.subsystem_builder import SubsystemBuilder
from aviary.utils.aviary_values import AviaryValues
from aviary.variable_info.enums import EquationsOfMotion, PhaseType, Verbosity
from aviary.variable_info.functions import extract_options
from aviary.variable_info.variable_meta_data import CoreMetaData
from aviary.variable_info.variables import Aircraft as A, Dynamic as D, Mission as M, Settings
from sx import shim
from sx.scen import scenario

shim.install(ut, av_mod, nv_mod, aod)
N = 3
LB = 0.45359237
UNSET = {f'{v}_{e}': (None, None) for v in ('mass', 'distance', 'mach', 'altitude') for e in ('initial', 'final')}
UNITS = {'mass': 'kg', 'distance': 'm', 'time': 's'}


class Phase(om.Group):
    """what a flown phase offers the rest of the model: its histories, free at every node"""

    def __init__(self, log, name, with_bus=True):
        super().__init__()
        self.log, self.nm = log, name
        self.time_options = {'name': 'time'}
        self.state_options = {'mass': {}, 'distance': {}}
        self.control_options = {}
        self._tx = SimpleNamespace(grid_data=SimpleNamespace(num_nodes=N))

    def set_state_options(self, name, **kw):
        self.log.append((self.nm, name, kw))

    def setup(self):
        def ident(name, vs, n=N, pre=''):
            out = {v: (u, n) for v, u in vs.items()}
            kw = {}
            for v, (u, k) in out.items():
                kw[v] = {'units': u, 'shape': k}
                kw['free_' + v] = {'units': u, 'shape': k}
            self.add_subsystem(name, om.ExecComp([f'{v} = 1.0*free_{v}' for v in out], **kw),
                               promotes_inputs=[(f'free_{v}', f'free:{v}') for v in out],
                               promotes_outputs=[(v, f'{pre}{v}') for v in out] if pre else [])
        ident('timeseries', UNITS)
        ident('mission_bus_variables', {'mass': 'kg'})
        ident('states', {'mass': 'kg'}, pre='states:')
        ident('controls', {'mach': 'unitless', 'altitude': 'ft'}, pre='control_values:')
        self.add_subsystem('starts', om.ExecComp(['got_mass = 1.0*m', 'got_distance = 1.0*d'], m={'units': 'kg'}, got_mass={'units': 'kg'},
                                                 d={'units': 'm'}, got_distance={'units': 'm'}),
                           promotes_inputs=[('m', 'initial_states:mass'), ('d', 'initial_states:distance')],
                           promotes_outputs=['got_mass', 'got_distance'])
        for v, u in UNITS.items():
            self.set_input_defaults(f'free:{v}', np.ones(N), units=u)
        self.set_input_defaults('free:mach', np.ones(N), units='unitless')
        self.set_input_defaults('free:altitude', np.ones(N), units='ft')


class Traj(om.Group):
    def __init__(self, names, log):
        super().__init__()
        self._phases = {n: Phase(log, n) for n in names}
        self.phases = SimpleNamespace(system_iter=lambda **k: [], **self._phases)
        self.log = log
        self.options.declare('parallel_phases', default=True)

    def setup(self):
        for n, p in self._phases.items():
            self.add_subsystem(n, p)

    def link_phases(self, **kw):
        self.log.append(('link', kw))

    def add_linkage_constraint(self, *a, **kw):
        self.log.append(('link', a, kw))


EOM = {'energy': (EquationsOfMotion.ENERGY_STATE, EnergyStateProblemConfigurator),
       'solved': (EquationsOfMotion.SOLVED_2DOF, SolvedTwoDOFProblemConfigurator),
       'twodof': (EquationsOfMotion.TWO_DEGREES_OF_FREEDOM, TwoDOFProblemConfigurator)}


class PlainTwoDOF(TwoDOFProblemConfigurator):
    """the 2DOF landing and gear-timing parts need a detailed trajectory; the rest of its post-mission system is common"""

    def add_post_mission_systems(self, group):
        pass

    def configure_trajectory(self, *a):
        pass


class Source(SubsystemBuilder):
    """a subsystem that computes values before the mission and takes values of the mission and of its own after it"""

    def get_pre_mission_bus_variables(self, aviary_inputs=None, mission_info=None):
        return {'src.made': {'post_mission_name': ['src.copied', 'src.again'], 'src_indices': [1]}}

    def get_post_mission_bus_variables(self, aviary_inputs=None, mission_info=None):
        ph = list(mission_info)
        return {ph[0]: {'mass': {'post_mission_name': 'src.first', 'src_indices': [1]}},
                ph[-1]: {'mass': {'post_mission_name': ['src.last', 'src.last_too'], 'src_indices': [-1]}}}

    def build_post_mission(self, aviary_inputs=None, mission_info=None, subsystem_options=None, phase_mission_bus_lengths=None):
        kw = {f'{p}{n}': {'units': u} for n, u in (('copied', 'm'), ('again', 'ft'), ('first', 'lbm'), ('last', 'kg'), ('last_too', 'lbm'))
              for p in ('', 'out_')}
        return om.ExecComp([f'{n} = 1.0*{n[4:]}' for n in kw if n.startswith('out_')], **kw)


def build(c, eom, phases, reserve, margin, additional, options=None, takeoff=False, ignore=False, extra=(), target_range=1500.0,
          log=None):
    """the real group of a mission whose flown phases are stand-ins"""
    e, conf = EOM[eom]
    conf = PlainTwoDOF if conf is TwoDOFProblemConfigurator else conf
    log = log if log is not None else []

    def make():
        av = AviaryValues()
        av.set_val(Settings.EQUATIONS_OF_MOTION, e)
        av.set_val(Settings.VERBOSITY, Verbosity.QUIET)
        av.set_val(M.RESERVE_FUEL_MARGIN, margin)
        av.set_val(M.RESERVE_FUEL_MASS_ADDITIONAL, additional, 'lbm')
        av.set_val(A.Fuel.IGNORE_FUEL_CAPACITY_CONSTRAINT, ignore)
        g = AviaryGroup(verbosity=Verbosity.QUIET)
        g.configure = lambda: None
        g.aviary_inputs, g.meta_data = av, CoreMetaData
        g.mission_info = {n: {'user_options': {'phase_type': PhaseType.DEFAULT, 'reserve': n in reserve, **UNSET, **(options or {}).get(n, {})}}
                          for n in phases}
        g.main_phases, g.reserve_phases = separate_reserve_phases(g.mission_info)
        g.configurator = conf()
        g.pre_mission_info = {'include_takeoff': takeoff}
        g.post_mission_info = {'include_landing': False}
        g.target_range = target_range
        g.mission_method = e
        g.external_subsystems = []
        g.subsystems = [CoreEnergyBuilder('energy'), *extra]
        if takeoff:
            g.add_subsystem('flown', om.ExecComp(['a = 1.0*ma', 'b = 1.0*mb', 'cc = 1.0*mc', 'd = 1.0*md'], ma={'units': 'lbm'}, a={'units': 'lbm'},
                                                 mb={'units': 'ft'}, b={'units': 'ft'}, mc={'units': 'unitless'}, cc={'units': 'unitless'},
                                                 md={'units': 'ft'}, d={'units': 'ft'}),
                            promotes_outputs=[('a', M.Takeoff.FINAL_MASS), ('b', M.Takeoff.GROUND_DISTANCE), ('cc', M.Takeoff.FINAL_MACH),
                                              ('d', M.Takeoff.FINAL_ALTITUDE)])
        if extra:
            pre = g.add_subsystem('pre_mission', om.Group())
            pre.add_subsystem('src', om.ExecComp('made = 1.0*x', made={'units': 'm', 'shape': 2}, x={'units': 'm', 'shape': 2}))
        # the same expression the pre-mission group adds is checked in zero_fuel below
        g.set_input_defaults(M.GROSS_MASS, 1.0, units='lbm')
        g.traj = Traj(phases, log)
        g.add_subsystem('traj', g.traj)
        g.phase_objects = [SimpleNamespace(name=n, get_linked_variables=lambda: set()) for n in phases]
        old = ag.get_phase_mission_bus_lengths
        ag.get_phase_mission_bus_lengths = lambda t: {}
        try:
            g.add_post_mission_systems()
            g.link_phases(comm=SimpleNamespace(size=1))
        finally:
            ag.get_phase_mission_bus_lengths = old
        p = om.Problem(g, reports=False)
        p.model_options['*'] = extract_options(av, CoreMetaData)
        return p
    return make


MAIN = {1: ['climb'], 2: ['climb', 'cruise'], 3: ['climb', 'cruise', 'descent']}
SHAPES = [dict(nmain=m, nres=r) for m in (1, 2, 3) for r in (0, 1, 2, 3)]


def histories(c, phases):
    h, ins = {}, {}
    for p in phases:
        h[p] = {v: c.array(f'{p}.{v}', N, 0.0, hi, d) for v, hi, d in (('mass', 4e5, 5e4), ('distance', 2e7, 1e6), ('time', 1e5, 3e3))}
        for v in h[p]:
            ins[f'traj.{p}.free:{v}'] = (h[p][v], UNITS[v])
    return h, ins


def opt(c, kind, name, hi, d):
    return 0.0 if kind == 'zero' else c.real(name, 1e-3, hi, d)


@scenario('C23', functions=['FuelSummationGroup.setup', 'CoreEnergyBuilder.get_post_mission_bus_variables', 'AviaryGroup.add_post_mission_systems',
                            'AviaryGroup._connect_mission_bus_variables', 'AviaryGroup.link_phases', 'separate_reserve_phases'],
          params=[dict(eom=e, margin=m, **s) for e in EOM for m in ('zero', 'free') for s in (SHAPES if e == 'energy' else SHAPES[1::4] + SHAPES[2:3])],
          seconds=60)
def fuel(c, eom, margin, nmain, nres):
    main = MAIN[nmain]
    reserve = [f'extra{i}' for i in range(nres)]
    phases = main + reserve
    mg = opt(c, margin, 'margin', 100.0, 5.0)
    add = opt(c, margin, 'additional', 1e5, 300.0)
    h, ins = histories(c, phases)
    gross = c.real('gross', 0.0, 1e6, 1.5e5)
    total, taxi_in = c.real('total', 0.0, 5e5, 3e4), c.real('taxi_in', 0.0, 5e3, 50.0)
    cap, unus = c.real('capacity', 0.0, 5e5, 5e4), c.real('unusable', 0.0, 5e3, 300.0)
    ins.update({M.GROSS_MASS: (gross, 'lbm'), M.TOTAL_FUEL_MASS: (total, 'lbm'), M.Taxi.FUEL_MASS_TAXI_IN: (taxi_in, 'lbm'),
                A.Fuel.MAX_CAPACITY_MASS: (cap, 'lbm'), A.Fuel.UNUSABLE_FUEL_MASS: (unus, 'lbm')})
    o = c.group(None, build(c, eom, phases, reserve, mg, add), ins)
    end = h[main[-1]]['mass'][N - 1] / LB
    burned = gross - end
    c.equal('fuel burned', o[M.FUEL_MASS], burned)
    extra = 0.0
    if reserve:
        extra = (h[reserve[0]]['mass'][0] - h[reserve[-1]]['mass'][N - 1]) / LB
        c.equal('fuel burned in reserve', o[M.RESERVE_FUEL_MASS], extra)
    held = mg / 100.0 * burned + add + extra
    c.equal('total reserve', o[M.TOTAL_RESERVE_FUEL_MASS], held)
    c.equal('fuel left over', o[M.Constraints.MASS_RESIDUAL], total - burned - held)
    c.equal('excess capacity', o[M.Constraints.EXCESS_FUEL_MASS_CAPACITY], cap - unus - total)
    c.equal('block fuel', o[M.BLOCK_FUEL_MASS], burned + taxi_in)
    last = h[main[-1]]
    c.equal('final mass', o[M.FINAL_MASS], end)
    c.equal('final time', o[M.FINAL_TIME], last['time'][N - 1] / 60.0)
    c.equal('range', o[M.RANGE], last['distance'][N - 1] / 1852.0)
    constraints(c, eom)


def constraints(c, eom):
    con = c.model.get_constraints(recurse=True)
    by = {v.get('name', k): v for k, v in con.items()}
    m = next((v for k, v in by.items() if k.endswith(M.Constraints.MASS_RESIDUAL) or v['source'].endswith('total_fuel_mass_constraint')), None)
    c.true('the fuel balance is constrained', m is not None)
    if m is not None:
        if eom == 'solved':
            c.true('no less fuel than needed', m['equals'] is None and m['lower'] == 0.0 and (m['upper'] is None or m['upper'] > 1e20))
        else:
            c.true('exactly the fuel needed', m['equals'] == 0.0)


@scenario('C23', functions=['FuelSummationGroup.setup'], params=[dict(ignore=b) for b in (False, True)])
def capacity(c, ignore):
    _, ins = histories(c, ['climb'])
    c.group(None, build(c, 'energy', ['climb'], [], 0.0, 0.0, ignore=ignore), ins)
    con = [v for v in c.model.get_constraints(recurse=True).values() if v['source'].endswith('excess_fuel_capacity')]
    if ignore:
        c.true('no constraint on the tank size', not con)
    else:
        c.true('the tanks must hold the fuel', len(con) == 1 and con[0]['lower'] == 0.0 and con[0]['equals'] is None)


@scenario('C23', functions=['EnergyStateProblemConfigurator.add_post_mission_systems'], params=[dict(nres=r) for r in (0, 2)])
def range_and_start(c, nres):
    main, reserve = MAIN[3], [f'extra{i}' for i in range(nres)]
    tr = c.real('target_range', 1.0, 2e4, 1500.0)
    h, ins = histories(c, main + reserve)
    gross, tx, to = c.real('gross', 0.0, 1e6, 1.5e5), c.real('taxi', 0.0, 5e3, 300.0), c.real('takeoff', 0.0, 5e3, 500.0)
    ins.update({M.GROSS_MASS: (gross, 'lbm'), M.Taxi.FUEL_MASS_TAXI_OUT: (tx, 'lbm'), M.Takeoff.FUEL_MASS: (to, 'lbm')})
    log = []
    o = c.group(None, build(c, 'energy', main + reserve, reserve, 0.0, 0.0, target_range=tr, log=log), ins)
    c.equal('range still to fly', o[M.Constraints.RANGE_RESIDUAL], tr - h['descent']['distance'][N - 1] / 1852.0)
    c.equal('mass at the start of the flight', o[M.Takeoff.FINAL_MASS], gross - tx - to)
    c.equal('first phase starts at that mass', o['link_climb_mass.mass'], h['climb']['mass'][0] / LB - (gross - tx - to))
    con = [v for v in c.model.get_constraints(recurse=True).values() if v['source'].endswith('link_climb_mass.mass')]
    c.true('start mass constrained', len(con) == 1 and con[0]['equals'] == 0.0)
    st = {}
    for nm, var, kw in [x for x in log if len(x) == 3 and isinstance(x[2], dict) and x[0] == 'climb']:
        st.setdefault(var, {}).update(kw)
    c.true('the start mass is free to follow', st.get('mass', {}).get('fix_initial') is False and not st.get('mass', {}).get('input_initial'))


@scenario('C23', functions=['SolvedTwoDOFProblemConfigurator.add_post_mission_systems'])
def solved_start(c):
    h, ins = histories(c, MAIN[2])
    gross = c.real('gross', 0.0, 1e6, 1.5e5)
    ins[M.GROSS_MASS] = (gross, 'lbm')
    o = c.group(None, build(c, 'solved', MAIN[2], [], 0.0, 0.0), ins)
    c.equal('first phase starts at the gross mass', o['link_climb_mass.mass'], h['climb']['mass'][0] / LB - gross)
    con = [v for v in c.model.get_constraints(recurse=True).values() if v['source'].endswith('link_climb_mass.mass')]
    c.true('start mass constrained', len(con) == 1 and con[0]['equals'] == 0.0)


@scenario('C23', functions=['EnergyStateProblemConfigurator._add_post_mission_takeoff_systems'],
          params=[dict(mach=a, altitude=b) for a in (False, True) for b in (False, True)])
def after_takeoff(c, mach, altitude):
    h, ins = histories(c, MAIN[2])
    m, d, mc, al = c.real('m', 0.0, 1e6, 1.5e5), c.real('d', 0.0, 1e5, 6e3), c.real('mc', 0.0, 0.5, 0.25), c.real('al', 0.0, 1e4, 35.0)
    ins.update({'flown.ma': (m, 'lbm'), 'flown.mb': (d, 'ft'), 'flown.mc': (mc, 'unitless'), 'flown.md': (al, 'ft')})
    ph = {v: c.array(f'c.{v}', N, 0.0, hi, x) for v, hi, x in (('mach', 0.9, 0.4), ('altitude', 5e4, 1e3))}
    ins['traj.climb.free:mach'] = (ph['mach'], 'unitless')
    ins['traj.climb.free:altitude'] = (ph['altitude'], 'ft')
    log = []
    o = c.group(None, build(c, 'energy', MAIN[2], [], 0.0, 0.0, takeoff=True, log=log,
                            options={'climb': {'mach_optimize': mach, 'altitude_optimize': altitude}}), ins)
    c.equal('first phase starts at the mass after takeoff', o['traj.climb.got_mass'], m * LB)
    c.equal('first phase starts at the distance of the takeoff', o['traj.climb.got_distance'], d * 0.3048)
    st = {}
    for nm, var, kw in [x for x in log if len(x) == 3 and isinstance(x[2], dict) and x[0] == 'climb']:
        st.setdefault(var, {}).update(kw)
    c.true('mass takes its start from takeoff', st.get('mass', {}).get('input_initial') is True)
    c.true('distance takes its start from takeoff', st.get('distance', {}).get('input_initial') is True)
    con = {v['source']: v for v in c.model.get_constraints(recurse=True).values()}
    for on, nm, a, b in ((mach, 'mach', mc, ph['mach'][0]), (altitude, 'altitude', al, ph['altitude'][0])):
        k = [n for n in o if n.endswith(f'{nm}_resid_for_connecting_takeoff')]
        c.true(f'{nm} joined iff it is free', bool(k) == on)
        if on and k:
            c.equal(f'{nm} step at the end of takeoff', o[k[0]], a - b)
            cc = [v for s, v in con.items() if s.endswith(f'{nm}_resid_for_connecting_takeoff')]
            c.true(f'{nm} step constrained', len(cc) == 1 and cc[0]['equals'] == 0.0)


@scenario('C23', functions=['AviaryGroup.add_post_mission_systems'], params=[dict(eom=e, unit=u, tu=t) for e, u, t in
          (('energy', 'nmi', 'min'), ('energy', 'km', 's'), ('energy', 'ft', 'h'), ('solved', 'm', 'min'), ('twodof', 'mi', 's'))])
def targets(c, eom, unit, tu):
    """a phase given a distance or (where mass is integrated) a duration is held to it"""
    phases = MAIN[3] + ['reserve1']
    td, dur = c.real('distance', 1e-3, 1e5, 200.0), c.real('duration', 1e-3, 1e5, 30.0)
    h, ins = histories(c, phases)
    options = {'cruise': {'target_distance': (td, unit)}, 'reserve1': {'phase_type': PhaseType.BREGUET_RANGE, 'time_duration': (dur, tu)},
               'descent': {'time_duration': (dur, tu)}}
    o = c.group(None, build(c, eom, phases, ['reserve1'], 0.0, 0.0, options=options), ins)
    size = {'nmi': 1852.0, 'km': 1000.0, 'ft': 0.3048, 'm': 1.0, 'mi': 1609.344}
    res = lambda ph: [n for n in o if n.split('.')[-1] in ('distance_resid', 'duration_resid') and ph in n]  # noqa: E731
    c.true('one residual for the phase with a distance', len(res('cruise')) == 1)
    c.true('one residual for the phase with a duration', len(res('reserve1')) == 1)
    c.true('none for the others', not res('climb') and not res('descent'))
    x, t = h['cruise']['distance'], h['reserve1']['time']
    c.equal('distance', o[res('cruise')[0]], td * size[unit] / 1852.0 - (x[N - 1] - x[0]) / 1852.0)
    sec = {'s': 1.0, 'min': 60.0, 'h': 3600.0}
    c.equal('duration', o[res('reserve1')[0]], dur * sec[tu] / 60.0 - (t[N - 1] - t[0]) / 60.0)
    con = c.model.get_constraints(recurse=True).values()
    for nm, last in (('cruise', 'distance_resid'), ('reserve1', 'duration_resid')):
        k = [v for v in con if nm in v['source'] and v['source'].endswith(last)]
        c.true(f'{nm} constrained', len(k) == 1 and k[0]['equals'] == 0.0)


@scenario('C23', functions=['AviaryGroup._add_bus_variables_and_connect', 'AviaryGroup._connect_mission_bus_variables'],
          params=[dict(nres=r) for r in (0, 1)])
def bus(c, nres):
    """values a subsystem hands from one part of the analysis to a later one arrive there"""
    reserve = [f'extra{i}' for i in range(nres)]
    phases = MAIN[2] + reserve
    h, ins = histories(c, phases)
    x = c.array('x', 2, -1e4, 1e4, 10.0)
    ins['pre_mission.src.x'] = (x, 'm')
    o = c.group(None, build(c, 'energy', phases, reserve, 0.0, 0.0, extra=[Source('src')]), ins)
    c.equal('before the mission to after it', o['src.out_copied'], x[1])
    c.equal('... to a second place, in other units', o['src.out_again'], x[1] / 0.3048)
    c.equal('from the first phase', o['src.out_first'], h['climb']['mass'][1] / LB)
    c.equal('from the last phase', o['src.out_last'], h[phases[-1]]['mass'][N - 1])
    c.equal('... to a second place', o['src.out_last_too'], h[phases[-1]]['mass'][N - 1] / LB)


class Heavy(SubsystemBuilder):
    def __init__(self, name, masses):
        super().__init__(name)
        self.masses = masses

    def get_mass_names(self, aviary_inputs=None):
        return self.masses


@scenario('C23', functions=['AviaryGroup._add_premission_external_subsystem_masses'], params=[dict(n=k) for k in ([1], [2, 1], [1, 0, 3])])
def external_masses(c, n):
    names = [[f'aircraft:ext{i}:mass_{j}' for j in range(k)] for i, k in enumerate(n)]

    def make():
        g = AviaryGroup(verbosity=Verbosity.QUIET)
        g.configure = lambda: None
        g.aviary_inputs = AviaryValues()
        g.external_subsystems = [Heavy(f'ext{i}', x) for i, x in enumerate(names)]
        g.add_subsystem('pre_mission', om.Group(), promotes=['*'])
        g.pre_mission = g._static_subsystems_allprocs['pre_mission'].system
        g._add_premission_external_subsystem_masses()
        return om.Problem(g, reports=False)
    flat = [x for y in names for x in y]
    m = {x: c.real(x, 0.0, 1e5, 100.0) for x in flat}
    o = c.group(repr(n), make, {x: (v, 'lbm') for x, v in m.items()})
    t = 0.0
    for v in m.values():
        t = t + v
    c.equal('mass of the added subsystems', o[A.Design.EXTERNAL_SUBSYSTEMS_MASS], t * LB)

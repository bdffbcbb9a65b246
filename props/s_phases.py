"""C21: what the user asks of a phase is what the trajectory problem is told."""
import inspect
from types import SimpleNamespace

import dymos as dm
import numpy as np

import aviary.mission.energy_state_problem_configurator as esc
import aviary.mission.phase_builder as pb
import aviary.mission.solved_two_dof_problem_configurator as s2c
import aviary.mission.two_dof_problem_configurator as tdc
import aviary.mission.utils as mu
import aviary.utils.aviary_options_dict as aod
import aviary.utils.aviary_values as av_mod
import aviary.utils.named_values as nv_mod
import aviary.utils.utils as ut
from aviary.mission.energy_state.phases.energy_phase import EnergyPhase
from aviary.mission.solved_two_dof.phases.groundroll_phase import GroundrollPhase
from aviary.mission.solved_two_dof.phases.solved_twodof_phase import SolvedTwoDOFPhase
from aviary.mission.two_dof.phases.accel_phase import AccelPhase
from aviary.mission.two_dof.phases.breguet_cruise_phase import BreguetCruisePhase
from aviary.mission.two_dof.phases.flight_phase import FlightPhase
from aviary.mission.two_dof.phases.simple_cruise_phase import SimpleCruisePhase
from aviary.mission.two_dof.phases.takeoff_phase import TakeoffPhase
from aviary.utils.aviary_values import AviaryValues
from aviary.variable_info.enums import PhaseType, SpeedType, ThrottleAllocation, Verbosity
from aviary.variable_info.variables import Aircraft as A, Dynamic as D
from sx import shim
from sx.rec import Interp, RecDymos, RecPhase, RecProb
from sx.scen import scenario

shim.install(ut, av_mod, nv_mod, aod, pb, mu)

SIZE = {'unitless': 1.0, None: 1.0, 'm': 1.0, 'ft': 0.3048, 'NM': 1852.0, 'nmi': 1852.0, 'km': 1000.0, 'kg': 1.0, 'lbm': 0.45359237, 's': 1.0,
        'min': 60.0, 'h': 3600.0, 'm/s': 1.0, 'kn': 1852 / 3600, 'ft/s': 0.3048, 'ft/min': 0.3048 / 60, 'rad': 1.0, 'deg': np.pi / 180}
OTHER = {'kg': 'lbm', 'lbm': 'kg', 'm': 'NM', 'NM': 'ft', 'ft': 'km', 'kn': 'm/s', 'rad': 'deg', 'deg': 'rad', 's': 'min', 'unitless': 'unitless'}
RANGE = {'kg': 4e5, 'lbm': 4e5, 'm': 1e7, 'NM': 1e4, 'ft': 6e4, 'kn': 600.0, 'rad': 1.5, 'deg': 45.0, 's': 4e4, 'unitless': 1.0}

BUILDERS = {'energy': EnergyPhase, 'solved': SolvedTwoDOFPhase, 'roll': GroundrollPhase, 'flight': FlightPhase, 'takeoff': TakeoffPhase,
            'accel': AccelPhase, 'simple': SimpleCruisePhase, 'breguet': BreguetCruisePhase}
CONF = {'energy': esc.EnergyStateProblemConfigurator, 'solved': s2c.SolvedTwoDOFProblemConfigurator,
        'roll': s2c.SolvedTwoDOFProblemConfigurator, 'flight': tdc.TwoDOFProblemConfigurator, 'takeoff': tdc.TwoDOFProblemConfigurator,
        'accel': tdc.TwoDOFProblemConfigurator, 'simple': tdc.TwoDOFProblemConfigurator}
# (builder, extra options, state, its variable, declared unit)
STATES = [('energy', {}, 'mass', D.Vehicle.MASS, 'kg'), ('energy', {}, 'distance', D.Mission.DISTANCE, 'm'),
          ('solved', {}, 'mass', D.Vehicle.MASS, 'lbm'), ('roll', {}, 'mass', D.Vehicle.MASS, 'lbm'), ('roll', {}, 'distance', D.Mission.DISTANCE, 'ft'),
          ('flight', {}, 'mass', D.Vehicle.MASS, 'lbm'), ('flight', {}, 'distance', D.Mission.DISTANCE, 'NM'),
          ('flight', {}, 'altitude', D.Mission.ALTITUDE, 'ft'),
          ('accel', {}, 'mass', D.Vehicle.MASS, 'lbm'), ('accel', {}, 'distance', D.Mission.DISTANCE, 'NM'),
          ('accel', {}, 'velocity', D.Mission.VELOCITY, 'kn'), ('simple', {}, 'mass', D.Vehicle.MASS, 'lbm'),
          ('takeoff', {'ground_roll': True}, 'velocity', D.Mission.VELOCITY, 'kn'), ('takeoff', {'ground_roll': True}, 'mass', D.Vehicle.MASS, 'lbm'),
          ('takeoff', {'rotation': True}, 'angle_of_attack', D.Vehicle.ANGLE_OF_ATTACK, 'rad'),
          ('takeoff', {}, 'altitude', D.Mission.ALTITUDE, 'ft'), ('takeoff', {}, 'distance', D.Mission.DISTANCE, 'ft'),
          ('takeoff', {}, 'flight_path_angle', D.Mission.FLIGHT_PATH_ANGLE, 'rad')]
CONTROLS = [('energy', {}, 'mach', D.Atmosphere.MACH, 'unitless'), ('energy', {}, 'altitude', D.Mission.ALTITUDE, 'ft'),
            ('energy', {'throttle_enforcement': 'control'}, 'throttle', D.Vehicle.Propulsion.THROTTLE, 'unitless'),
            ('energy', {'ground_roll': True}, 'mach', D.Atmosphere.MACH, 'unitless'),
            ('solved', {}, 'mach', D.Atmosphere.MACH, 'unitless'), ('solved', {}, 'altitude', D.Mission.ALTITUDE, 'ft'),
            ('solved', {'rotation': True}, 'angle_of_attack', D.Vehicle.ANGLE_OF_ATTACK, 'deg'),
            ('takeoff', {}, 'angle_of_attack', D.Vehicle.ANGLE_OF_ATTACK, 'rad')]


def aviary_options(ntypes=1):
    av = AviaryValues()
    av.set_val(A.Engine.NUM_ENGINES, np.array([2] * ntypes))
    return av


def make(builder, opts, ntypes=1):
    """the real builder's phase, with a recorder in the place of the dymos phase"""
    cls = BUILDERS[builder]
    old = pb.dm
    pb.dm = RecDymos()
    try:
        kw = {'subsystems': []}
        b = cls('phase1', user_options={**({'num_segments': 3, 'order': 3} if builder == 'flight' else {}), **opts}, **kw)
        ph = b.build_phase(aviary_options=aviary_options(ntypes))
    finally:
        pb.dm = old
    return b, ph


def same(c, label, got, unit, val, given, rel=1e-7):
    """got in unit is the quantity val in given"""
    if got is None:
        c.true(label + ' (given)', False)
        return
    c.equal(label, got * SIZE[unit], val * SIZE[given], rel=rel)


def val(c, name, unit, declared, signed=False):
    """a value in some unit within the range sensible for the declared one"""
    hi = RANGE[declared] * SIZE[declared] / SIZE[unit]
    return c.real(name, -hi if signed else 0.0, hi, 0.4 * hi)


def nonzero(c, label, v):
    if v is None:
        return
    c.true(label, v != 0)


def bounds_of(c, kind, name, unit, declared):
    lo = val(c, name + '.lo', unit, declared) if kind in ('lower', 'both') else None
    up = val(c, name + '.up', unit, declared) if kind in ('upper', 'both') else None
    if kind == 'both':
        c.assume(lo < up)
    return lo, up


def finals(ph, target, loc='final'):
    return [b for b in ph.boundary if b['name'] == target and b['loc'] == loc]


@scenario('C21', functions=['PhaseBuilder.add_state', 'units_setter'], seconds=40,
          params=[dict(k=k, what=f'{s[0]}.{s[2]}', initial=i, final=f, bounds=b, unit=u)
                  for k, s in enumerate(STATES) for i, f, b, u in ((False, False, 'both', True), (True, True, 'none', False),
                                                                   (False, True, 'upper', True), (True, False, 'lower', False))])
def state(c, k, what, initial, final, bounds, unit):
    builder, extra, name, target, declared = STATES[k]
    u = OTHER[declared] if unit else declared
    o = dict(extra)
    ref = None
    if initial:
        o[f'{name}_initial'] = (val(c, 'initial', u, declared), u)
    if final:
        fin = val(c, 'final', u, declared, signed=declared in ('rad', 'deg'))
        o[f'{name}_final'] = (fin, u)
    lo, up = bounds_of(c, bounds, 'b', u, declared)
    o[f'{name}_bounds'] = ((lo, up), u)
    if unit:
        ref, ref0, dref = (c.real(x, 1e-3, 1e6, d) for x, d in (('ref', 900.0), ('ref0', 30.0), ('defect', 70.0)))
        o.update({f'{name}_ref': (ref, u), f'{name}_ref0': (ref0, u), f'{name}_defect_ref': (dref, u), f'{name}_solve_segments': True})
    _, ph = make(builder, o)
    s = ph.states[target]
    w = s['units']
    c.true('held at the start iff a start value is given', bool(s.get('fix_initial')) == initial)
    for nm, v, g in (('lower', lo, s.get('lower')), ('upper', up, s.get('upper'))):
        if v is None:
            c.true(f'no {nm} bound', g is None)
        else:
            same(c, f'{nm} bound', g, w, v, u)
    nonzero(c, 'scaling is not zero', s['ref'])
    if unit:
        for nm, v in (('ref', ref), ('ref0', ref0), ('defect_ref', dref)):
            same(c, nm, s.get(nm), w, v, u)
        c.true('solved within segments when asked', bool(s.get('solve_segments')))
    else:
        c.true('not solved within segments otherwise', not s.get('solve_segments'))
    b = finals(ph, target)
    c.true('held at the end iff an end value is given', len(b) == (1 if final else 0))
    if final and b:
        same(c, 'end value', b[0]['equals'], b[0]['units'] or w, fin, u)
        nonzero(c, 'end condition scaling is not zero', b[0]['ref'])


@scenario('C21', functions=['PhaseBuilder.add_state'], params=[dict(k=k, what=f'{s[0]}.{s[2]}') for k, s in enumerate(STATES)])
def state_constraint_ref(c, k, what):
    """the scaling of an end condition is the one the user asks for"""
    builder, extra, name, target, declared = STATES[k]
    u = OTHER[declared]
    fin, ref = val(c, 'final', u, declared), c.real('ref', 1e-3, 1e6, 900.0)
    _, ph = make(builder, {**extra, f'{name}_final': (fin, u), f'{name}_constraint_ref': (ref, u)})
    b = finals(ph, target)
    c.true('held at the end', len(b) == 1)
    same(c, 'end value', b[0]['equals'], b[0]['units'], fin, u)
    same(c, 'scaling', b[0]['ref'], b[0]['units'], ref, u)


@scenario('C21', functions=['PhaseBuilder.add_control', 'FlightPhaseBase.build_phase'], seconds=40,
          params=[dict(k=k, what=f'{s[0]}.{s[2]}', opt=o, initial=i, final=f, bounds=b, scaled=r)
                  for k, s in enumerate(CONTROLS) for o, i, f, b, r in ((True, False, False, 'both', True), (True, True, True, 'none', False),
                                                                        (True, True, False, 'lower', False), (True, False, True, 'both', False),
                                                                        (False, True, True, 'both', False), (True, True, True, 'upper', True))])
def control(c, k, what, opt, initial, final, bounds, scaled):
    builder, extra, name, target, declared = CONTROLS[k]
    u = OTHER[declared]
    o = {**extra, f'{name}_optimize': opt}
    ini = val(c, 'initial', u, declared) if initial else None
    fin = val(c, 'final', u, declared) if final else None
    o[f'{name}_initial'], o[f'{name}_final'] = (ini, u), (fin, u)
    lo, up = bounds_of(c, bounds, 'b', u, declared)
    o[f'{name}_bounds'] = ((lo, up), u)
    if scaled:
        # a scale of one in the unit of the phase means that none was given
        ref, ref0 = c.real('ref', 60.0, 1e6, 900.0), c.real('ref0', 1e-3, 1.0, 0.5)
        o.update({f'{name}_ref': (ref, u), f'{name}_ref0': (ref0, u), f'{name}_polynomial_order': 3})
    else:
        o[f'{name}_polynomial_order'] = None
    _, ph = make(builder, o)
    s = ph.controls[target]
    w = s.get('units', 'unitless')
    c.true('chosen by the optimizer iff asked', bool(s.get('opt')) == opt)
    if opt:
        for nm, v, g in (('lower', lo, s.get('lower')), ('upper', up, s.get('upper'))):
            if v is None:
                c.true(f'no {nm} bound', g is None)
            else:
                same(c, f'{nm} bound', g, w, v, u)
        nonzero(c, 'scaling is not zero', s.get('ref'))
        nonzero(c, 'continuity scaling is not zero', s.get('continuity_ref'))
        nonzero(c, 'rate scaling is not zero', s.get('rate_continuity_ref'))
        if scaled and declared != 'unitless':
            same(c, 'ref', s['ref'], w, ref, u)
            same(c, 'ref0', s['ref0'], w, ref0, u)
    c.true('polynomial iff an order is given', (s.get('control_type') == 'polynomial') == scaled and s.get('order') == (3 if scaled else None))
    for loc, given, v in (('initial', initial, ini), ('final', final, fin)):
        b = finals(ph, target, loc)
        c.true(f'{loc} condition iff given and free', len(b) == (1 if given and opt else 0))
        if b:
            same(c, f'{loc} value', b[0]['equals'], b[0]['units'] or w, v, u)
            nonzero(c, f'{loc} condition scaling is not zero', b[0]['ref'])


@scenario('C21', functions=['FlightPhaseBase.build_phase', 'FlightPhase.build_phase', 'AccelPhase.build_phase', 'TakeoffPhase.build_phase'],
          params=[dict(case=x) for x in ('climb rate', 'climb rate 2dof', 'equivalent airspeed', 'accel', 'pitch', 'rotation', 'cruise', 'breguet',
                                         'accel altitude', 'no limits')])
def limits(c, case):
    """the limits and fixed quantities of a phase, in any unit"""
    if case in ('climb rate', 'climb rate 2dof'):
        r = c.real('rate', 0.0, 100.0, 5.0)
        _, ph = make('energy' if case == 'climb rate' else 'flight', {'required_available_climb_rate': (r, 'm/s')})
        if case == 'climb rate':
            b = [x for x in ph.path if x['name'] == D.Mission.ALTITUDE_RATE_MAX]
        else:
            b = [x for x in ph.boundary if x['name'].startswith(D.Mission.ALTITUDE_RATE) and x['loc'] == 'final']
        c.true('climb capability required', len(b) == 1 and b[0]['upper'] is None and b[0]['equals'] is None)
        same(c, 'least climb rate', b[0]['lower'], b[0]['units'], r, 'm/s')
    elif case == 'no limits':
        for kind in ('energy', 'flight', 'solved'):
            _, ph = make(kind, {})
            c.true(f'{kind}: no climb capability required', not [x for x in ph.path + ph.boundary if 'altitude_rate' in x['name']])
    elif case == 'equivalent airspeed':
        v = c.real('v', 1.0, 300.0, 120.0)
        b, ph = make('flight', {'EAS_target': (v, 'm/s'), 'input_speed_type': SpeedType.EAS})
        p = ph.params['EAS']
        c.true('not chosen by the optimizer', not p.get('opt', False))
        same(c, 'airspeed flown', p['val'], p['units'], v, 'm/s')
        same(c, 'airspeed the equations see', ph.init['ode_init_kwargs']['EAS_target'], 'kn', v, 'm/s')
    elif case == 'accel':
        v = c.real('v', 1.0, 300.0, 120.0)
        b, ph = make('accel', {'EAS_constraint_eq': (v, 'm/s')})
        x = [q for q in ph.boundary if q['name'] == 'EAS' and q['loc'] == 'final']
        c.true('airspeed at the end', len(x) == 1)
        same(c, 'value', x[0]['equals'], x[0]['units'], v, 'm/s')
    elif case == 'accel altitude':
        h = c.real('h', 0.0, 1e4, 150.0)
        _, ph = make('accel', {'alt': (h, 'm')})
        p = ph.params[D.Mission.ALTITUDE]
        same(c, 'altitude', p['val'], p['units'], h, 'm')
        c.true('fixed', not p.get('opt', False))
    elif case == 'pitch':
        lo, up = c.real('lo', -0.3, 0.1, 0.0), c.real('up', 0.1, 0.6, 0.3)
        _, ph = make('takeoff', {'pitch_constraint_bounds': ((lo, up), 'rad')})
        x = [q for q in ph.path if q['name'] == 'fuselage_pitch']
        c.true('pitch limited', len(x) == 1)
        same(c, 'lower', x[0]['lower'], x[0]['units'], lo, 'rad')
        same(c, 'upper', x[0]['upper'], x[0]['units'], up, 'rad')
    elif case == 'rotation':
        _, ph = make('takeoff', {'rotation': True})
        x = [q for q in ph.boundary if q['name'] == 'normal_force' and q['loc'] == 'final']
        c.true('ends when the wheels carry nothing', len(x) == 1 and x[0]['equals'] == 0)
        for o in ({'ground_roll': True}, {}):
            _, ph = make('takeoff', o)
            c.true('no such end otherwise', not [q for q in ph.boundary if q['name'] == 'normal_force'])
    else:
        h, m = c.real('h', 0.0, 2e4, 1e4), c.real('m', 0.1, 0.9, 0.7)
        _, ph = make('simple' if case == 'cruise' else 'breguet', {'alt_cruise': (h, 'm'), 'mach_cruise': m})
        p = ph.params[D.Mission.ALTITUDE]
        same(c, 'altitude', p['val'], p['units'], h, 'm')
        c.equal('Mach', ph.params[D.Atmosphere.MACH]['val'], m)
        c.true('both fixed', not p.get('opt', False) and not ph.params[D.Atmosphere.MACH].get('opt', False))


@scenario('C21', functions=['FlightPhaseBase.build_phase', 'PhaseBuilder._add_user_defined_constraints'],
          params=[dict(builder=b, own=o) for b in ('energy', 'solved') for o in (False, True)])
def constraints(c, builder, own):
    """the flight restrictions a user switches on, and constraints of the user's own, which take their place"""
    up, lo = c.real('up', 0.0, 100.0, 20.0), c.real('lo', -100.0, 0.0, -20.0)
    cons = {}
    if own:
        cons = {D.Mission.ALTITUDE_RATE: {'type': 'path', 'lower': lo, 'upper': up, 'units': 'ft/s', 'ref': 30.0},
                'top': {'type': 'boundary', 'target': D.Mission.ALTITUDE, 'loc': 'final', 'equals': up, 'units': 'km'},
                D.Vehicle.Propulsion.THROTTLE: {'type': 'boundary', 'loc': 'initial', 'lower': lo}}
    for nd in (False, True):
        for nc in (False, True):
            for te in ('path_constraint', 'boundary_constraint', 'bounded', None):
                o = {'no_descent': nd, 'no_climb': nc, 'throttle_enforcement': te, 'constraints': cons, 'altitude_initial': (3.0, 'km'), 'mach_initial': (0.5, 'unitless')}
                keep = {k: dict(v) for k, v in cons.items()}
                _, ph = make(builder, o)
                t = f'{nd}{nc}{te}: '
                rate = [b for b in ph.path if b['name'] == D.Mission.ALTITUDE_RATE]
                thr = [b for b in ph.path if b['name'] == D.Vehicle.Propulsion.THROTTLE]
                thb = [b for b in ph.boundary if b['name'] == D.Vehicle.Propulsion.THROTTLE]
                if own:
                    c.true(t + 'climb rate limited as the user says only', len(rate) == 1 and rate[0]['ref'] == 30.0 and rate[0]['units'] == 'ft/s')
                    c.equal(t + 'lowest climb rate', rate[0]['lower'], lo)
                    c.equal(t + 'highest climb rate', rate[0]['upper'], up)
                    x = [b for b in ph.boundary if b['constraint_name'] == 'top']
                    c.true(t + 'named constraint', len(x) == 1 and x[0]['name'] == D.Mission.ALTITUDE and x[0]['loc'] == 'final' and x[0]['units'] == 'km')
                    c.equal(t + 'its value', x[0]['equals'], up)
                    c.true(t + 'throttle limited as the user says only', not thr and len(thb) == 1 and thb[0]['loc'] == 'initial')
                    c.true(t + 'the user keeps the description', all(set(keep[k]) == set(cons[k]) for k in keep))
                else:
                    c.true(t + 'never descends iff asked', sum(b['lower'] == 0 and b['upper'] is None for b in rate) == nd)
                    c.true(t + 'never climbs iff asked', sum(b['upper'] == 0 and b['lower'] is None for b in rate) == nc)
                    c.true(t + 'nothing else on climb rate', len(rate) == nd + nc)
                    c.true(t + 'throttle limited everywhere', (len(thr) == 1 and thr[0]['lower'] == 0 and thr[0]['upper'] == 1) == (te == 'path_constraint'))
                    c.true(t + 'throttle limited at the ends', (sorted(b['loc'] for b in thb) == ['final', 'initial'] and all(b['lower'] == 0 and b['upper'] == 1 for b in thb))
                           == (te == 'boundary_constraint'))
    try:
        make(builder, {'constraints': {'x': {'type': 'other'}}})
        ok = False
    except ValueError:
        ok = True
    c.true('a constraint of no known kind is refused', ok)


@scenario('C21', functions=['FlightPhaseBase.build_phase'], params=[dict(n=n, alloc=a.name) for n in (1, 2, 3) for a in ThrottleAllocation])
def allocation(c, n, alloc):
    """with several kinds of engines the thrust is shared as the user chose"""
    a = ThrottleAllocation[alloc]
    _, ph = make('energy', {'throttle_allocation': a}, ntypes=n)
    p, q = ph.params.get('throttle_allocations'), ph.controls.get('throttle_allocations')
    if n == 1:
        c.true('nothing to share', p is None and q is None)
        return
    d = q if a is ThrottleAllocation.DYNAMIC else p
    c.true('the right kind', d is not None and (p is None or q is None))
    c.true('one share less than kinds', tuple(d['shape']) == (n - 1,))
    c.true('chosen by the optimizer unless fixed', bool(d.get('opt', False)) == (a is not ThrottleAllocation.FIXED))
    c.equal('even at first', np.asarray(d['val']), np.full(n - 1, 1.0 / n))
    if d.get('opt'):
        c.true('shares between none and all', d['lower'] == 0 and d['upper'] == 1)


def full(builder, opts):
    b, ph = make(builder, opts)
    return ph, b.user_options.to_phase_info()


@scenario('C21', functions=['EnergyStateProblemConfigurator.set_phase_options', 'TwoDOFProblemConfigurator.set_phase_options',
                            'SolvedTwoDOFProblemConfigurator.set_phase_options'], seconds=40,
          params=[dict(builder=b, idx=i, initial=a, duration=d, bounds=k, size=z) for b in ('energy', 'flight', 'takeoff', 'accel', 'simple', 'solved', 'roll')
                  for i, a, d, k, z in ((0, True, False, 'both', 1), (0, False, True, 'both', 1), (1, False, False, 'both', 1),
                                        (1, False, False, 'lower', 1), (1, True, False, 'upper', 1), (0, False, False, 'upper', 1),
                                        (0, False, False, 'lower', 1), (1, True, True, 'none', 1), (0, False, False, 'both', 2), (1, False, False, 'both', 2))])
def timing(c, builder, idx, initial, duration, bounds, size):
    declared = {'solved': 'ft', 'roll': 'kn'}.get(builder, 's')
    u = {'s': 'min', 'ft': 'km', 'kn': 'm/s'}[declared]
    o = {}
    if initial:
        o['time_initial'] = (val(c, 't0', u, declared), u)
    if duration:
        o['time_duration'] = (val(c, 'dt', u, declared), u)
    ib, db = bounds_of(c, bounds, 'ib', u, declared), bounds_of(c, bounds, 'db', u, declared)
    o['time_initial_bounds'], o['time_duration_bounds'] = (ib, u), (db, u)
    scaled = bounds in ('both', 'none')
    if scaled:
        iref, dref = c.real('iref', 20.0, 1e5, 900.0), c.real('dref', 20.0, 1e5, 800.0)
        o['time_initial_ref'], o['time_duration_ref'] = (iref, u), (dref, u)
    pt = {'simple': PhaseType.SIMPLE_CRUISE, 'takeoff': PhaseType.TWO_DOF_TAKEOFF, 'accel': PhaseType.ACCEL}.get(builder)
    if pt:
        o['phase_type'] = pt
    ph, opts = full(builder, o)
    CONF[builder]().set_phase_options(SimpleNamespace(mission_info={'p': {}}), 'p', idx, ph, opts, SimpleNamespace(size=size))
    t = ph.time
    w = t['units']
    c.true('start held iff given', bool(t.get('fix_initial')) == initial)
    c.true('duration held iff given', bool(t.get('fix_duration')) == duration)
    if not duration:
        d = t.get('duration_bounds') or (None, None)
        for nm, v, g in (('shortest', db[0], d[0]), ('longest', db[1], d[1])):
            if v is None:
                c.true(f'no {nm}', g is None)
            else:
                same(c, nm, g, w, v, u)
        nonzero(c, 'duration scaling is not zero', t.get('duration_ref'))
        if scaled:
            same(c, 'duration scaling', t.get('duration_ref'), w, dref, u)
    if not initial and idx == 0:
        d = t.get('initial_bounds') or (None, None)
        for nm, v, g in (('earliest', ib[0], d[0]), ('latest', ib[1], d[1])):
            if v is None:
                c.true(f'no {nm}', g is None)
            else:
                same(c, nm, g, w, v, u)
    nonzero(c, 'start scaling is not zero', t.get('initial_ref'))
    if not initial and t.get('initial_ref') is not None and scaled and (idx == 0 or builder == 'energy'):
        same(c, 'start scaling', t['initial_ref'], w, iref, u)


def guess(c, builder, opts, guesses, name='p', rotation=None):
    """what the phase and the problem are told by the real configurator"""
    ph, o = full(builder, opts)
    g = SimpleNamespace(mission_info={name: {'user_options': o}}, aviary_inputs=AviaryValues(), initialization_guesses={'rotation_mass': rotation})
    prob = RecProb()
    CONF[builder]().set_phase_initial_guesses(g, name, ph, guesses, prob, '')
    return ph, prob, g


def told(ph, kind, name=None):
    return [b for k, b in ph.vals if k == kind and (name is None or b['name'] == name)]


@scenario('C21', functions=['EnergyStateProblemConfigurator.set_phase_initial_guesses'],
          params=[dict(start=s, length=d) for s in ('fixed', 'bounds', 'given') for d in ('fixed', 'bounds')])
def guessed_time(c, start, length):
    """time is guessed as the user says; without a guess, from the fixed values or the middle of the bounds"""
    o, ini, dur = {}, None, None
    g = {'mass': (5e4, 'kg')}
    base = {'altitude_initial': (1.0, 'km'), 'mach_initial': (0.5, 'unitless')}
    t0, dt = c.real('t0', 0.0, 300.0, 20.0), c.real('dt', 1.0, 300.0, 30.0)
    lo, up, dl, du = (c.real(x, 0.0, 300.0, d) for x, d in (('lo', 10.0), ('up', 30.0), ('dl', 40.0), ('du', 90.0)))
    c.assume(lo < up)
    c.assume(dl < du)
    if start == 'fixed':
        o['time_initial'] = (t0, 'min')
    else:
        o['time_initial_bounds'] = ((lo, up), 'min')
    if length == 'fixed':
        o['time_duration'] = (dt, 'min')
    else:
        o['time_duration_bounds'] = ((dl, du), 'min')
    if start == 'given':
        g['time'] = ([t0, dt], 'min')
    av = AviaryValues()
    ph, opts = full('energy', {**base, **o})
    esc.EnergyStateProblemConfigurator().set_phase_initial_guesses(
        SimpleNamespace(mission_info={'p': {'user_options': opts}}, aviary_inputs=av), 'p', ph, g, RecProb(), '')
    b = told(ph, 'time')
    c.true('time is guessed', len(b) == 1)
    u = b[0]['units']
    if start != 'bounds':
        same(c, 'start', b[0]['initial'], u, t0, 'min')
    else:
        same(c, 'start guessed in the middle of its bounds', b[0]['initial'], u, 0.5 * (lo + up), 'min')
        c.true('start guessed within its bounds', (b[0]['initial'] * SIZE[u] >= lo * 60 * (1 - 1e-9)) & (b[0]['initial'] * SIZE[u] <= up * 60 * (1 + 1e-9)))
    if length == 'fixed' or start == 'given':
        same(c, 'duration', b[0]['duration'], u, dt, 'min')
    else:
        same(c, 'duration guessed in the middle of its bounds', b[0]['duration'], u, 0.5 * (dl + du), 'min')
        c.true('duration guessed within its bounds', (b[0]['duration'] * SIZE[u] >= dl * 60 * (1 - 1e-9)) & (b[0]['duration'] * SIZE[u] <= du * 60 * (1 + 1e-9)))


@scenario('C21', functions=['EnergyStateProblemConfigurator.set_phase_initial_guesses'],
          params=[dict(var=v, initial=i, final=f) for v in ('altitude', 'mach') for i in (False, True) for f in (False, True)])
def guessed_profile(c, var, initial, final):
    """without a guess, altitude and Mach number run from the fixed start to the fixed end"""
    u = 'km' if var == 'altitude' else 'unitless'
    x0, x1, lo = c.real('x0', 0.0, 0.9, 0.3), c.real('x1', 0.0, 0.9, 0.8), c.real('lo', 0.0, 0.5, 0.2)
    o = {'time_initial': (0.0, 's'), 'time_duration': (100.0, 's'), f'{var}_bounds': ((lo, 1.0), u)}
    o['mach_initial' if var == 'altitude' else 'altitude_initial'] = (0.5, 'unitless' if var == 'altitude' else 'km')
    if initial:
        o[f'{var}_initial'] = (x0, u)
    if final:
        o[f'{var}_final'] = (x1, u)
    gm = c.real('gross', 1.0, 1e6, 1.5e5)
    av = AviaryValues()
    av.set_val(A.Design.GROSS_MASS, gm, 'lbm')
    ph, opts = full('energy', o)
    esc.EnergyStateProblemConfigurator().set_phase_initial_guesses(
        SimpleNamespace(mission_info={'p': {'user_options': opts}}, aviary_inputs=av), 'p', ph, {}, RecProb(), '')
    b = told(ph, 'control', var)
    c.true('guessed', len(b) == 1)
    st = x0 if initial else lo
    same(c, 'start', b[0]['vals'][0], b[0]['units'] or 'unitless', st, u)
    same(c, 'end', b[0]['vals'][-1], b[0]['units'] or 'unitless', x1 if final else st, u)
    m = told(ph, 'state', 'mass')
    c.true('mass guessed', len(m) == 1)
    same(c, 'mass', m[0]['vals'], m[0]['units'], gm, 'lbm')


@scenario('C21', functions=['EnergyStateProblemConfigurator.set_phase_initial_guesses', 'TwoDOFProblemConfigurator.set_phase_initial_guesses', 'process_guess_var'],
          params=[dict(builder=b) for b in ('energy', 'flight', 'ascent', 'breguet')])
def guesses_given(c, builder):
    """a guess reaches the variable it names, in the unit it was given in"""
    x = {n: c.real(n, 0.1, 1e4, d) for n, d in (('m0', 100.0), ('m1', 90.0), ('h', 3.0), ('th', 0.5), ('t0', 1.0), ('t1', 5.0), ('s', 7.0), ('mid', 95.0))}
    g = {'mass': ([x['m0'], x['m1']], 'kg'), 'throttle': (x['th'], 'unitless'), 'time': ([x['t0'], x['t1']], 'min'), 'distance': ([x['s'], x['m0'], x['mid']], 'km')}
    if builder == 'breguet':
        g = {'mass': ([x['m0'], x['m1']], 'kg'), 'initial_distance': (x['s'], 'km'), 'altitude': (x['h'], 'km')}
        o = {'phase_type': PhaseType.BREGUET_RANGE}
        _, opts = full('breguet', o)
        prob = RecProb()
        tdc.TwoDOFProblemConfigurator().set_phase_initial_guesses(SimpleNamespace(mission_info={'p': {'user_options': opts}}), 'p', RecPhase(), g, prob, 'top.')
        for nm, v, u in (('t_initial', x['m0'], 'kg'), ('t_duration', x['m1'], 'kg'), ('parameters:initial_distance', x['s'], 'km'), ('parameters:altitude', x['h'], 'km')):
            got = prob.set.get(f'top.traj.p.{nm}')
            c.true(f'{nm} set', got is not None)
            same(c, nm, got[0], got[1], v, u)
        return
    kind = {'ascent': 'takeoff'}.get(builder, builder)
    o = {'throttle_enforcement': 'control'} if builder == 'energy' else {}
    name = 'ascent' if builder == 'ascent' else 'p'
    ph, prob, _ = guess(c, kind, {**o, **({'altitude_initial': (1.0, 'km'), 'mach_initial': (0.5, 'unitless')} if builder == 'energy' else {})}, g, name)
    if builder == 'ascent':
        from aviary.variable_info.variables import Mission as M
        for nm, v in ((M.Takeoff.ASCENT_T_INITIAL, x['t0']), (M.Takeoff.ASCENT_DURATION, x['t1'])):
            c.true(f'{nm} set', nm in prob.set)
            same(c, nm, prob.set[nm][0], prob.set[nm][1], v, 'min')
    else:
        t = told(ph, 'time')
        c.true('time set', len(t) == 1)
        same(c, 'start', t[0]['initial'], t[0]['units'], x['t0'], 'min')
        same(c, 'duration', t[0]['duration'], t[0]['units'], x['t1'], 'min')
    for kind, nm, v, u in (('state', 'mass', [x['m0'], x['m1']], 'kg'), ('control', 'throttle', x['th'], 'unitless'),
                           ('state', 'distance', [x['s'], x['m0'], x['mid']], 'km')):
        b = told(ph, kind, nm)
        c.true(f'{nm} set once', len(b) == 1)
        profile(c, nm, b[0]['vals'], b[0]['units'], v, u, nm)


def profile(c, label, got, unit, want, u, name):
    """the values, or an even interpolation of them over the phase"""
    if isinstance(got, Interp):
        c.true(f'{label}: interpolated as itself', got.b['name'] == name and got.b['kind'] == 'linear')
        xs = got.b['xs']
        if xs is not None:
            c.equal(f'{label}: evenly', np.asarray(xs, dtype=float), np.linspace(-1, 1, len(want)))
        got = got.b['ys']
    if not isinstance(want, list):
        same(c, label, got, unit, want, u)
        return
    c.true(f'{label}: all values', len(got) == len(want))
    for i, (a, b) in enumerate(zip(got, want)):
        same(c, f'{label} {i}', a, unit, b, u)


@scenario('C21', functions=['SolvedTwoDOFProblemConfigurator.set_phase_initial_guesses', 'TwoDOFProblemConfigurator.set_phase_initial_guesses'],
          params=[dict(which=w) for w in ('solved', 'rotation mass')])
def guessed_otherwise(c, which):
    if which == 'rotation mass':
        m = c.real('m', 1.0, 1e6, 1.5e5)
        ph, _, _ = guess(c, 'flight', {}, {}, rotation=m)
        b = told(ph, 'state', 'mass')
        c.true('mass guessed', len(b) == 1)
        same(c, 'mass', b[0]['vals'], b[0]['units'], m, 'lbm')
        return
    h0, h1, m0, m1 = c.real('h0', 0.0, 12.0, 1.0), c.real('h1', 0.0, 12.0, 5.0), c.real('m0', 0.0, 1.0, 0.3), c.real('m1', 0.0, 1.0, 0.6)
    ph, _, _ = guess(c, 'solved', {'altitude_initial': (h0, 'km'), 'altitude_final': (h1, 'km'), 'mach_initial': (m0, 'unitless'),
                                   'mach_final': (m1, 'unitless')}, {})
    for nm, a, b, u in (('altitude', h0, h1, 'km'), ('mach', m0, m1, 'unitless')):
        x = told(ph, 'control', nm)
        c.true(f'{nm} guessed', len(x) == 1)
        profile(c, nm, x[0]['vals'], x[0]['units'], [a, b], u, nm)

"""C18: segment summaries (taxi, takeoff, cruise, landing) follow from the motion they summarise."""
import numpy as np

from aviary.mission.energy_state.phases.simplified_landing import LandingCalc
from aviary.mission.energy_state.phases.simplified_takeoff import FinalTakeoffConditions, StallSpeed
from aviary.mission.two_dof.ode.breguet_cruise_eom import ElectricRangeComp, RangeComp
from aviary.mission.two_dof.ode.constraints.flight_constraints import FlightConstraints
from aviary.mission.two_dof.ode.constraints.speed_constraints import SpeedConstraints
from aviary.mission.two_dof.ode.landing_eom import (
    GlideConditionComponent, LandingAltitudeComponent, LandingGroundRollComponent)
from aviary.mission.two_dof.ode.simple_cruise_eom import DistanceComp
from aviary.mission.two_dof.ode.taxi_eom import TaxiFuelComponent
from aviary.mission.two_dof.ode.v_rotate_comp import VRotateComp
from aviary.variable_info.variables import Aircraft as A, Dynamic as D, Mission as M
from sx.scen import scenario

FLOW = D.Vehicle.Propulsion.FUEL_MASS_FLOW_RATE_NEGATIVE_TOTAL
POWER, ENERGY = D.Vehicle.Propulsion.ELECTRIC_POWER_IN_TOTAL, D.Vehicle.CUMULATIVE_ELECTRIC_ENERGY_USED
LBF = 4.44822
RHO0 = 0.0023769


@scenario('C18', functions=['TaxiFuelComponent'])
def taxi(c):
    t = c.real('duration', 0.0, 7200.0, 600.0)
    ff, m = c.real('flow', -20.0, 0.0, -2.0), c.real('gross', 1e4, 1e6, 1.5e5)
    r = c.comp(TaxiFuelComponent, {}, {FLOW: c.arr([ff]), M.GROSS_MASS: c.arr([m])}, sopts={M.Taxi.DURATION: (t, 's')})
    used = r['taxi_fuel_consumed'][0]
    c.equal('fuel used is flow times time', used, -ff * t)
    c.equal('mass is conserved', r[D.Vehicle.MASS][0] + used, m)
    c.ge('taxi burns fuel', used, 0.0)


@scenario('C18', functions=['DistanceComp'], params=[dict(nn=n) for n in (2, 3, 5)])
def constant_speed_cruise(c, nn):
    t = c.array('time', nn, 0.0, 1e5, 1e3)
    v = c.real('tas', 0.01, 0.5, 0.12)
    r0, s = c.real('r0', 0.0, 5e3, 100.0), c.real('shift', -1e4, 1e4, 50.0)
    run = lambda tt, vv, rr: c.comp(DistanceComp, {'num_nodes': nn}, {  # noqa: E731
        'time': tt, 'TAS_cruise': vv, 'cruise_distance_initial': c.arr([rr])})[D.Mission.DISTANCE]
    x = run(t, c.arr([v] * nn), r0)
    c.equal('starts at the initial distance', x[0], r0)
    for i in range(1, nn):
        c.equal(f'speed times elapsed time {i}', x[i] - x[i - 1], v * (t[i] - t[i - 1]))
    y = run(c.arr([t[i] + s for i in range(nn)]), c.arr([v] * nn), r0)
    for i in range(nn):
        c.equal(f'does not depend on the time origin {i}', y[i], x[i])


def cruise_inputs(c, nn, electric):
    v = c.array('tas', nn, 0.02, 0.5, 0.12)
    if electric:
        a, b = c.array('energy', nn, 0.0, 1e5, 1e3), c.array('power', nn, 10.0, 1e5, 3e3)
        return {'TAS_cruise': v, ENERGY: a, POWER: b}
    a, b = c.array('mass', nn, 1e4, 1e6, 1.5e5), c.array('flow', nn, -1e5, -10.0, -5e3)
    return {'TAS_cruise': v, 'mass': a, FLOW: b}


def cruise(c, electric, ins, r0, t0, idx=None):
    if idx is not None:
        ins = {k: c.arr([v[i] for i in idx]) for k, v in ins.items()}
    nn = len(ins['TAS_cruise'])
    r = c.comp(ElectricRangeComp if electric else RangeComp, {'num_nodes': nn},
               dict(ins, cruise_time_initial=c.arr([t0]), cruise_distance_initial=c.arr([r0])))
    return r['cruise_range'], r['cruise_time']


@scenario('C18', functions=['RangeComp', 'ElectricRangeComp'], params=[dict(electric=e, nn=n) for e in (False, True) for n in (2, 3, 4)],
          thorough=[dict(electric=e, nn=6) for e in (False, True)])
def breguet_cruise(c, electric, nn):
    """distance and time belong together at every step, and splitting the cruise changes nothing"""
    ins = cruise_inputs(c, nn, electric)
    r0, t0 = c.real('r0', 0.0, 5e3, 100.0), c.real('t0', 0.0, 1e5, 1e3)
    x, t = cruise(c, electric, ins, r0, t0)
    v = ins['TAS_cruise']
    c.equal('starts at the initial distance', x[0], r0)
    c.equal('starts at the initial time', t[0], t0)
    for i in range(1, nn):
        c.equal(f'distance is mean speed times time {i}', 2.0 * (x[i] - x[i - 1]), (v[i] + v[i - 1]) * (t[i] - t[i - 1]))
    for k in range(1, nn - 1):
        xa, ta = cruise(c, electric, ins, r0, t0, range(k + 1))
        xb, tb = cruise(c, electric, ins, xa[k], ta[k], range(k, nn))
        for i in range(k, nn):
            c.equal(f'flown in two legs split at {k}: distance {i}', xb[i - k], x[i])
            c.equal(f'flown in two legs split at {k}: time {i}', tb[i - k], t[i])


@scenario('C18', functions=['RangeComp'], params=[dict(nn=2), dict(nn=3)])
def breguet_equation(c, nn):
    """constant speed and fuel flow per weight: the classical closed form, in one step or many"""
    v, cs = c.real('tas', 0.02, 0.5, 0.12), c.real('flow per mass', 0.01, 0.2, 0.04)
    m = c.array('mass', nn, 1e4, 1e6, 1.5e5)
    for i in range(1, nn):
        c.assume(m[i] < 0.999 * m[i - 1])
    ins = {'TAS_cruise': c.arr([v] * nn), 'mass': m, FLOW: c.arr([-cs * m[i] for i in range(nn)])}
    x, t = cruise(c, False, ins, 0.0, 0.0)
    c.equal('range', x[nn - 1] * cs, 3600.0 * v * np.log(m[0] / m[nn - 1]))
    c.equal('endurance', t[nn - 1] * cs, 3600.0 * np.log(m[0] / m[nn - 1]))
    for i in range(1, nn):
        c.ge(f'burning fuel takes the aircraft forward {i}', x[i], x[i - 1])
        c.ge(f'time passes {i}', t[i], t[i - 1])


@scenario('C18', functions=['ElectricRangeComp'], params=[dict(nn=2), dict(nn=3)])
def electric_cruise(c, nn):
    v, p = c.real('tas', 0.02, 0.5, 0.12), c.real('power', 10.0, 1e5, 3e3)
    e = c.array('energy', nn, 0.0, 1e5, 1e3)
    x, t = cruise(c, True, {'TAS_cruise': c.arr([v] * nn), ENERGY: e, POWER: c.arr([p] * nn)}, 0.0, 0.0)
    for i in range(1, nn):
        c.equal(f'energy used is power times time {i}', (t[i] - t[i - 1]) * p, 3600.0 * (e[i] - e[i - 1]))


def lift_at(rho, v, s, cl):
    return 0.5 * rho * v * v * s * cl


@scenario('C18', functions=['StallSpeed', 'VRotateComp', 'FlightConstraints', 'LandingCalc', 'GlideConditionComponent'])
def stall(c):
    """every model's stall speed is the speed at which the largest lift carries the weight"""
    m, s, cl, rho = c.real('mass', 1e3, 1e6, 1.5e5), c.real('area', 50.0, 1e4, 1400.0), c.real('clmax', 0.5, 4.0, 2.0), c.real('rho', 5e-4, 3e-3, 0.0023)
    a = lambda x: c.arr([x])  # noqa: E731
    v = c.comp(StallSpeed, {}, {'mass': a(m), D.Atmosphere.DENSITY: a(rho), A.Wing.AREA: a(s), 'Cl_max': a(cl)})['v_stall'][0]
    c.equal('simplified takeoff (SI)', lift_at(rho, v, s, cl), m * LBF)
    d1, d2 = c.real('dV1', 0.0, 50.0, 5.0), c.real('dVR', 0.0, 50.0, 5.0)
    vr = c.comp(VRotateComp, {}, {'mass': a(m), 'density': a(rho), A.Wing.AREA: a(s), 'CL_max': a(cl), 'dV1': a(d1), 'dVR': a(d2)})['Vrot'][0]
    c.equal('rotation speed', lift_at(rho, vr - d1 - d2, s, cl), m)
    tas = c.real('tas', 50.0, 900.0, 400.0)
    g, al, inc = c.real('gamma', -20.0, 20.0, 3.0), c.real('alpha', -10.0, 20.0, 4.0), c.real('incidence', -5.0, 5.0, 1.0)
    f = c.comp(FlightConstraints, {'num_nodes': 1}, {
        D.Vehicle.MASS: a(m), A.Wing.AREA: a(s), D.Atmosphere.DENSITY: a(rho), 'CL_max': a(cl), D.Mission.FLIGHT_PATH_ANGLE: a(g),
        A.Wing.INCIDENCE: a(inc), D.Vehicle.ANGLE_OF_ATTACK: a(al), D.Mission.VELOCITY: a(tas)})
    c.equal('ten percent above the stall', lift_at(rho, f['TAS_min'][0] / 1.1, s, cl), m)
    c.equal('too slow by', f['TAS_violation'][0], f['TAS_min'][0] - tas)
    ld = c.comp(LandingCalc, {}, {M.FINAL_MASS: a(m), D.Atmosphere.DENSITY: a(rho), A.Wing.AREA: a(s), M.Landing.LIFT_COEFFICIENT_MAX: a(cl)},
                sopts={M.SEA_LEVEL_DENSITY: (RHO0, 'slug/ft**3')})
    c.equal('approach at 1.3 times the stall', lift_at(rho, ld[M.Landing.INITIAL_VELOCITY][0] / 1.3, s, cl), m)


@scenario('C18', functions=['SpeedConstraints'], params=[dict(nn=1), dict(nn=2)])
def limits(c, nn):
    eas, mach = c.array('eas', nn, 10.0, 600.0, 270.0), c.array('mach', nn, 0.05, 1.5, 0.7)
    r = c.comp(SpeedConstraints, {'num_nodes': nn, 'EAS_target': 270.0, 'mach_target': 0.78}, {'EAS': eas, D.Atmosphere.MACH: mach})
    for i in range(nn):
        c.equal(f'over the airspeed limit by {i}', r['speed_constraint'][i, 0], eas[i] - 270.0)
        c.equal(f'over the Mach limit by {i}', r['speed_constraint'][i, 1], 270.0 * (mach[i] - 0.78))


def takeoff_args(c, tag=''):
    return [c.real(n + tag, *b) for n, b in (('v_stall', (10.0, 150.0, 60.0)), ('mass', (1e4, 1e6, 1.5e5)), ('fuel', (0.0, 5e3, 500.0)),
                                             ('rho', (0.5, 1.4, 1.2)), ('area', (100.0, 1e4, 1400.0)), ('clmax', (0.8, 4.0, 2.0)),
                                             ('thrust', (1e3, 5e5, 5e4)), ('LD', (5.0, 30.0, 17.0)), ('fraction', (0.2, 1.0, 0.5)))]


TAKEOFF = ('v_stall', 'mass', M.Takeoff.FUEL_MASS, D.Atmosphere.DENSITY, A.Wing.AREA, M.Takeoff.LIFT_COEFFICIENT_MAX,
           A.Propulsion.TOTAL_SCALED_SLS_THRUST, M.Takeoff.LIFT_OVER_DRAG, M.Takeoff.CLIMBOUT_THRUST_FRACTION)


def takeoff_run(c, vals):
    return c.comp(FinalTakeoffConditions, {}, {k: c.arr([v]) for k, v in zip(TAKEOFF, vals)}, sopts={M.SEA_LEVEL_DENSITY: (1.225, 'kg/m**3')})


@scenario('C18', functions=['FinalTakeoffConditions'])
def takeoff_end(c):
    x = takeoff_args(c)
    r = takeoff_run(c, x)
    c.equal('mass is conserved', r[M.Takeoff.FINAL_MASS][0] + x[2], x[1])
    v2 = r[M.Takeoff.FINAL_VELOCITY][0]
    c.le('safety speed leaves the lift margin', 0.66 * v2 * v2, 1.0003 * x[0] * x[0])
    c.ge('safety speed is where 0.66 of the largest lift coefficient carries the weight', 0.66 * v2 * v2, 0.9997 * x[0] * x[0])
    c.equal('clears the 35 ft screen', r[M.Takeoff.FINAL_ALTITUDE][0], 35.0)


@scenario('C18', functions=['FinalTakeoffConditions'],
          params=[dict(which=k, sign=s) for k, s in ((1, 1), (3, -1), (4, -1), (5, -1), (6, -1), (7, -1), (8, -1), (0, 0), (2, 0))])
def takeoff_distance(c, which, sign):
    """a heavier aircraft needs more runway; denser air, more wing, more lift or more thrust need less"""
    x = takeoff_args(c)
    e = c.real('excess thrust per weight', 0.01, 1.0, 0.2)
    x[6] = x[1] * ((0.2 + 0.0055 * x[1] / x[4]) / x[7] + e)
    y = list(x)
    k = c.real('root of the factor', 1.0, 1.5, 1.1) ** 2
    y[which] = x[which] * k
    if which == 1:
        x[6] = y[6] = y[1] * ((0.2 + 0.0055 * y[1] / x[4]) / x[7] + e)
    a, b = takeoff_run(c, x)[M.Takeoff.GROUND_DISTANCE][0], takeoff_run(c, y)[M.Takeoff.GROUND_DISTANCE][0]
    c.ge('the takeoff run is a positive distance', a, 0.0)
    if sign > 0:
        c.ge('longer', b, a)
    elif sign < 0:
        c.le('shorter', b, a)
    else:
        c.equal('the same', b, a)


@scenario('C18', functions=['LandingCalc'])
def landing_distance(c):
    m, s, cl, rho = c.real('mass', 1e3, 1e6, 1.5e5), c.real('area', 50.0, 1e4, 1400.0), c.real('clmax', 0.5, 4.0, 2.0), c.real('rho', 5e-4, 3e-3, 0.0023)
    k = c.real('factor', 1.0, 2.0, 1.2)
    rho0 = c.real('rho0', 1e-3, 3e-3, RHO0)

    def run(m, s, cl, rho):
        r = c.comp(LandingCalc, {}, {M.FINAL_MASS: c.arr([m]), D.Atmosphere.DENSITY: c.arr([rho]), A.Wing.AREA: c.arr([s]),
                                     M.Landing.LIFT_COEFFICIENT_MAX: c.arr([cl])}, sopts={M.SEA_LEVEL_DENSITY: (rho0, 'slug/ft**3')})
        return r[M.Landing.GROUND_DISTANCE][0], r[M.Landing.INITIAL_VELOCITY][0]
    d, v = run(m, s, cl, rho)
    c.equal('energy at touchdown sets the field length above its constant part', (d - 2500.0) * 1.69, 105.0 / 2.0 * rho0 * v * v)
    for name, args in (('wing loading', (m * k, s * k, cl, rho)), ('lift per weight', (m * k, s, cl * k, rho)), ('density for area', (m, s * k, cl, rho / k))):
        d2, v2 = run(*args)
        c.equal(f'distance depends on {name} alone', d2, d)
        c.equal(f'speed depends on {name} alone', v2, v)
    c.ge('heavier is longer', run(m * k, s, cl, rho)[0], d)


@scenario('C18', functions=['LandingAltitudeComponent'])
def landing_altitude(c):
    a, b = c.real('airport', -500.0, 1.5e4, 0.0), c.real('obstacle', 0.0, 500.0, 50.0)
    r = c.comp(LandingAltitudeComponent, {}, {M.Landing.OBSTACLE_HEIGHT: c.arr([b]), M.Landing.AIRPORT_ALTITUDE: c.arr([a])})
    c.equal('height of the obstacle above the airport', r[M.Landing.INITIAL_ALTITUDE][0] - a, b)


@scenario('C18', functions=['GlideConditionComponent'])
def glide(c):
    box = {D.Atmosphere.DENSITY: (1e-3, 3e-3, 0.0023), M.Landing.MAXIMUM_SINK_RATE: (200.0, 1500.0, 900.0), D.Vehicle.MASS: (1e4, 1e6, 1.2e5),
           A.Wing.AREA: (100.0, 1e4, 1400.0), M.Landing.GLIDE_TO_STALL_RATIO: (1.0, 2.0, 1.3), 'CL_max': (0.8, 4.0, 2.5),
           M.Landing.MAXIMUM_FLARE_LOAD_FACTOR: (1.05, 1.5, 1.15), M.Landing.TOUCHDOWN_SINK_RATE: (0.0, 10.0, 3.0),
           M.Landing.INITIAL_ALTITUDE: (10.0, 500.0, 50.0), M.Landing.BRAKING_DELAY: (0.0, 10.0, 1.0)}
    x = {k: c.real(k, *b) for k, b in box.items()}
    g, rho0 = c.real('g', 1.0, 100.0, 32.2), c.real('rho0', 1e-3, 3e-3, RHO0)
    m, s, cl, rho, sink = x[D.Vehicle.MASS], x[A.Wing.AREA], x['CL_max'], x[D.Atmosphere.DENSITY], x[M.Landing.MAXIMUM_SINK_RATE]
    c.assume(m > 10.0 * s)
    r = {k: v[0] for k, v in c.comp(GlideConditionComponent, {}, {k: c.arr([v]) for k, v in x.items()},
                                    sopts={M.GRAVITY: (g, 'ft/s**2'), M.SEA_LEVEL_DENSITY: (rho0, 'slug/ft**3')}).items()}
    vs, vg, vt, th = r[M.Landing.STALL_VELOCITY], r[M.Landing.INITIAL_VELOCITY], r['TAS_touchdown'], r['theta']
    n1, gt = x[M.Landing.MAXIMUM_FLARE_LOAD_FACTOR] - 1.0, x[M.Landing.TOUCHDOWN_SINK_RATE]
    c.equal('stall', lift_at(rho, vs, s, cl), m)
    c.equal('wing loading', r['wing_loading_land'] * s, m)
    c.equal('glide speed', vg, vs * x[M.Landing.GLIDE_TO_STALL_RATIO])
    c.equal('touchdown halfway between glide and stall', 2.0 * vt, vs + vg)
    c.equal('sink rate along the glide path', np.sin(th) * vg * 60.0, sink)
    c.equal('glide path geometry', r['glide_distance'] * np.tan(th), x[M.Landing.INITIAL_ALTITUDE])
    c.equal('density ratio', r['density_ratio'] * rho0, rho)
    c.equal('free roll', r['delay_distance'], vt * x[M.Landing.BRAKING_DELAY])
    # circular flare of radius vg**2 / (g (n - 1)) from the glide angle to the touchdown angle
    rad = vg * vg / (g * n1)
    c.equal('flare height', 2.0 * r['flare_alt'] * vg * vg, rad * ((th * vg) ** 2 - gt ** 2))
    c.equal('flare distance', 2.0 * r['tr_distance'] * th * vg * vg, rad * (th * vg - gt) ** 2)


@scenario('C18', functions=['LandingGroundRollComponent'])
def braking(c):
    box = {'touchdown_CD': (0.02, 0.4, 0.2), 'touchdown_CL': (0.0, 1.5, 0.5), M.Landing.STALL_VELOCITY: (100.0, 400.0, 180.0), 'TAS_touchdown': (100.0, 500.0, 200.0),
           'thrust_idle': (0.0, 5e3, 500.0), 'density_ratio': (0.5, 1.2, 1.0), 'wing_loading_land': (10.0, 250.0, 110.0), 'glide_distance': (0.0, 5e3, 900.0),
           'tr_distance': (0.0, 3e3, 300.0), 'delay_distance': (0.0, 3e3, 250.0), 'CL_max': (0.8, 4.0, 2.5), D.Vehicle.MASS: (1e4, 1e6, 1.2e5),
           M.Landing.BRAKING_FRICTION_COEFFICIENT: (0.05, 0.6, 0.35)}
    x = {k: c.real(k, *b) for k, b in box.items()}
    g = c.real('g', 1.0, 100.0, 32.2)
    mu, cd, cl, w = x[M.Landing.BRAKING_FRICTION_COEFFICIENT], x['touchdown_CD'], x['touchdown_CL'], x[D.Vehicle.MASS]
    c.assume(x['TAS_touchdown'] > x[M.Landing.STALL_VELOCITY])
    c.assume(mu * w > 1.05 * x['thrust_idle'])
    c.assume(cd > mu * cl + 0.005)
    r = {k: v[0] for k, v in c.comp(LandingGroundRollComponent, {}, {k: c.arr([v]) for k, v in x.items()}, sopts={M.GRAVITY: (g, 'ft/s**2')}).items()}
    d, v = r['ground_roll_distance'], x['TAS_touchdown']
    c.equal('total distance is the sum of its four parts', r[M.Landing.GROUND_DISTANCE],
            d + x['tr_distance'] + x['delay_distance'] + x['glide_distance'])
    c.equal('average deceleration', r['average_acceleration'] * 2.0 * g * d, v * v)
    c.ge('the roll is a positive distance', d, 0.0)
    # exact stopping distance with friction, drag, lift and idle thrust: ln(1 + drag/friction) / (g rho S K / W)
    k = (cd - mu * cl) / (x['CL_max'] * x[M.Landing.STALL_VELOCITY] ** 2 / (v * v))
    f = mu - x['thrust_idle'] / w
    c.equal('stopping distance', d * x['density_ratio'] * (cd - mu * cl), 13.0287 * x['wing_loading_land'] * np.log((f + k) / f))

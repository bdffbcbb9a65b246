"""C10: equations of motion are Newton's law for a point mass."""
import numpy as np
import openmdao.api as om


from aviary.mission.energy_state.ode.landing_eom import FlareEOM, GlideSlopeForces, GroundSumForces
from aviary.mission.energy_state.ode.mission_EOM import MissionEOM
from aviary.mission.energy_state.ode.takeoff_eom import StallSpeed, TakeoffEOM as DetailedTakeoffEOM
from aviary.mission.solved_two_dof.ode.gamma_comp import GammaComp
from aviary.mission.solved_two_dof.ode.groundroll_eom import GroundrollEOM
from aviary.mission.solved_two_dof.ode.unsteady_solved_eom import UnsteadySolvedEOM
from aviary.mission.two_dof.ode.accel_eom import AccelerationRates
from aviary.mission.two_dof.ode.flight_eom import EOMRates
from aviary.mission.two_dof.ode.flight_path_eom import FlightPathEOM
from aviary.mission.two_dof.ode.takeoff_eom import TakeoffEOM
from aviary.utils.aviary_values import AviaryValues
from aviary.variable_info.functions import setup_model_options
from aviary.variable_info.variables import Aircraft as A, Dynamic as D, Mission as M
from sx.scen import scenario

MASS, LIFT, DRAG, THRUST = D.Vehicle.MASS, D.Vehicle.LIFT, D.Vehicle.DRAG, D.Vehicle.Propulsion.THRUST_TOTAL
V, GAM, ALPHA, INC = D.Mission.VELOCITY, D.Mission.FLIGHT_PATH_ANGLE, D.Vehicle.ANGLE_OF_ATTACK, A.Wing.INCIDENCE
VR, GR, HR, XR = D.Mission.VELOCITY_RATE, D.Mission.FLIGHT_PATH_ANGLE_RATE, D.Mission.ALTITUDE_RATE, D.Mission.DISTANCE_RATE
MU = M.Takeoff.ROLLING_FRICTION_COEFFICIENT
GRAV_ENGLISH_LBM, LBF_TO_N = 1.0, 4.4482216152605
RAD = np.pi / 180.0


def state(c, nn, keys, alpha='deg'):
    box = {MASS: (1e4, 1e6, 1.5e5), LIFT: (0.0, 1e6, 1.2e5), DRAG: (0.0, 2e5, 9e3), THRUST: (0.0, 3e5, 4e4), V: (10.0, 1200.0, 300.0),
           GAM: (-0.5, 0.5, 0.07), ALPHA: (-10.0, 20.0, 4.0) if alpha == 'deg' else (-0.2, 0.35, 0.06)}
    return {k: c.array(k, nn, *box[k]) for k in keys}


def path_equations(c, i, r, m, g, W, v, gam, tx, tn, drag, lift, mu_n, free=True, path=True):
    """m dV/dt and m V dgamma/dt; kinematics; rate of energy"""
    cg, sg = np.cos(gam), np.sin(gam)
    c.equal(f'force along the path {i}', r[VR][i] * W, g * (tx - drag - W * sg - mu_n))
    c.equal(f'distance rate {i}', r[XR][i], v * cg)
    if HR in r:
        c.equal(f'altitude rate {i}', r[HR][i], v * sg)
        c.equal(f'speed is the sum of its components {i}', r[HR][i] ** 2 + r[XR][i] ** 2, v * v)
        c.equal(f'work and energy {i}', W * r[HR][i] + W / g * v * r[VR][i], v * (tx - drag - mu_n))
    if GR in r and path:
        if free:
            c.equal(f'force across the path {i}', r[GR][i] * v * W, g * (tn + lift - W * cg))
        else:
            c.equal(f'no turning on the runway {i}', r[GR][i], 0.0)


@scenario('C10', functions=['AccelerationRates'], params=[dict(nn=1), dict(nn=3)])
def level_acceleration(c, nn):
    s = state(c, nn, [MASS, DRAG, THRUST, V])
    g = c.real('g', 1.0, 100.0, 32.2)
    r = c.comp(AccelerationRates, {'num_nodes': nn}, s, sopts={M.GRAVITY: (g, 'ft/s**2')})
    for i in range(nn):
        W = s[MASS][i] * GRAV_ENGLISH_LBM
        c.equal(f'Newton {i}', r[VR][i] * W, g * (s[THRUST][i] - s[DRAG][i]))
        c.equal(f'distance rate {i}', r[XR][i], s[V][i])


@scenario('C10', functions=['EOMRates'], params=[dict(nn=1), dict(nn=3)])
def steady_climb(c, nn):
    """constant speed: excess thrust carries the weight component, lift balances the rest"""
    s = state(c, nn, [MASS, DRAG, THRUST, V, ALPHA], 'rad')
    for i in range(nn):
        c.assume(s[THRUST][i] - s[DRAG][i] < 0.9 * s[MASS][i])
        c.assume(s[DRAG][i] - s[THRUST][i] < 0.9 * s[MASS][i])
    r = c.comp(EOMRates, {'num_nodes': nn}, s)
    for i in range(nn):
        W = s[MASS][i] * GRAV_ENGLISH_LBM
        c.equal(f'altitude rate from excess power {i}', r[HR][i] * W, s[V][i] * (s[THRUST][i] - s[DRAG][i]))
        c.equal(f'speed is the sum of its components {i}', r[HR][i] ** 2 + r[XR][i] ** 2, s[V][i] ** 2)
        c.equal(f'sine of the path angle {i}', np.sin(r[GAM][i]) * s[V][i], r[HR][i])
        c.equal(f'lift balance {i}', (r['required_lift'][i] + s[THRUST][i] * np.sin(s[ALPHA][i])) * s[V][i], W * r[XR][i])


@scenario('C10', functions=['FlightPathEOM'], params=[dict(gr=g, nn=n) for g in (False, True) for n in (1, 2)])
def flight_path(c, gr, nn):
    s = state(c, nn, [MASS, LIFT, DRAG, THRUST, V, GAM] + ([] if gr else [ALPHA]))
    inc, mu, g = c.real('incidence', -5.0, 5.0, 1.0), c.real('mu', 0.0, 0.2, 0.03), c.real('g', 1.0, 100.0, 32.2)
    ins = dict(s, **{INC: inc})
    if gr:
        ins[MU] = mu
    r = c.comp(FlightPathEOM, {'num_nodes': nn, 'ground_roll': gr}, ins, sopts={M.GRAVITY: (g, 'ft/s**2')})
    for i in range(nn):
        W = s[MASS][i] * GRAV_ENGLISH_LBM
        a = 0.0 if gr else (s[ALPHA][i] - inc) * RAD
        tx, tn = s[THRUST][i] * np.cos(a), s[THRUST][i] * np.sin(a)
        c.equal(f'normal force {i}', r['normal_force'][i], W - s[LIFT][i] - tn)
        path_equations(c, i, r, None, g, W, s[V][i], s[GAM][i], tx, tn, s[DRAG][i], s[LIFT][i],
                       mu * r['normal_force'][i] if gr else 0.0)
        c.equal(f'load factor {i}', r['load_factor'][i] * W * np.cos(s[GAM][i]), s[LIFT][i] + tn)
        c.equal(f'pitch {i}', r['fuselage_pitch'][i] * RAD, s[GAM][i] + a)


@scenario('C10', functions=['TakeoffEOM'], params=[dict(mode=m, nn=n) for m in ('ground', 'rotation', 'air') for n in (1, 2)])
def takeoff(c, mode, nn):
    gr, rot = mode == 'ground', mode == 'rotation'
    s = state(c, nn, [MASS, LIFT, DRAG, THRUST, V, GAM] + ([] if gr else [ALPHA]))
    inc, mu, g = c.real('incidence', -5.0, 5.0, 1.0), c.real('mu', 0.0, 0.2, 0.03), c.real('g', 1.0, 100.0, 32.2)
    ins = dict(s, **{INC: inc})
    if gr or rot:
        ins[MU] = mu
    rate = 3.33
    r = c.comp(TakeoffEOM, {'num_nodes': nn, 'ground_roll': gr, 'rotation': rot, 'rotation_pitch_rate': rate}, ins, sopts={M.GRAVITY: (g, 'ft/s**2')})
    for i in range(nn):
        W = s[MASS][i] * GRAV_ENGLISH_LBM
        a = 0.0 if gr else (s[ALPHA][i] - inc) * RAD
        tx, tn = s[THRUST][i] * np.cos(a), s[THRUST][i] * np.sin(a)
        N = W - s[LIFT][i] - tn if gr or rot else 0.0
        if gr or rot:
            if N < 0:
                N = 0.0
        c.equal(f'normal force {i}', r['normal_force'][i], N)
        path_equations(c, i, r, None, g, W, s[V][i], s[GAM][i], tx, tn, s[DRAG][i], s[LIFT][i], mu * N, free=mode == 'air')
        c.equal(f'load factor {i}', r['load_factor'][i] * W * np.cos(s[GAM][i]), s[LIFT][i] + tn)
        c.equal(f'pitch {i}', r['fuselage_pitch'][i] * RAD, s[GAM][i] + a)
        c.equal(f'pitch rate {i}', r['angle_of_attack_rate'][i], rate if rot else 0.0)


@scenario('C10', functions=['GroundrollEOM'], params=[dict(nn=1), dict(nn=2)])
def ground_roll(c, nn):
    s = state(c, nn, [MASS, LIFT, DRAG, THRUST, V, GAM, ALPHA])
    inc, mu, g = c.real('incidence', -5.0, 5.0, 1.0), c.real('mu', 0.0, 0.2, 0.03), c.real('g', 1.0, 100.0, 32.2)
    r = c.comp(GroundrollEOM, {'num_nodes': nn}, dict(s, **{INC: inc, MU: mu}), sopts={M.GRAVITY: (g, 'ft/s**2')})
    for i in range(nn):
        W = s[MASS][i] * GRAV_ENGLISH_LBM
        a = (s[ALPHA][i] - inc) * RAD
        tx, tn = s[THRUST][i] * np.cos(a), s[THRUST][i] * np.sin(a)
        N = W - s[LIFT][i] - tn
        if N < 0:
            N = 0.0
        c.equal(f'normal force {i}', r['normal_force'][i], N)
        path_equations(c, i, r, None, g, W, s[V][i], s[GAM][i], tx, tn, s[DRAG][i], s[LIFT][i], mu * N, free=False)


@scenario('C10', functions=['UnsteadySolvedEOM', 'GammaComp'], params=[dict(gr=g, nn=n) for g in (False, True) for n in (1, 2)])
def range_based(c, gr, nn):
    """the range-parametrised equations: metric forces, mass in lbm"""
    s = state(c, nn, [LIFT, DRAG, THRUST, V, ALPHA] + ([] if gr else [GAM]), 'rad')
    m = c.array('m', nn, 1e4, 1e6, 1.5e5)
    inc, mu, g = c.real('incidence', -0.1, 0.1, 0.02), c.real('mu', 0.0, 0.2, 0.03), c.real('g', 1.0, 30.0, 9.8)
    ins = dict(s, **{INC: inc, 'mass': m})
    if gr:
        ins[MU] = mu
    else:
        dh, d2h = c.array('dh_dr', nn, -0.4, 0.4, 0.1), c.array('d2h_dr2', nn, -1e-3, 1e-3, 1e-5)
        ins.update({'dh_dr': dh, 'd2h_dr2': d2h})
    r = c.comp(UnsteadySolvedEOM, {'num_nodes': nn, 'ground_roll': gr}, ins, sopts={M.GRAVITY: (g, 'm/s**2')})
    for i in range(nn):
        W = m[i] * GRAV_ENGLISH_LBM * LBF_TO_N
        a = s[ALPHA][i] - inc
        tx, tn = s[THRUST][i] * np.cos(a), s[THRUST][i] * np.sin(a)
        gam = 0.0 if gr else s[GAM][i]
        N = W - s[LIFT][i] - tn
        c.equal(f'normal force {i}', r['normal_force'][i], N)
        c.equal(f'time per distance {i}', r['dt_dr'][i] * s[V][i] * np.cos(gam), 1.0)
        c.equal(f'force along the path {i}', r['dTAS_dt'][i] * W, g * (tx - s[DRAG][i] - W * np.sin(gam) - (mu * N if gr else 0.0)))
        c.equal(f'load factor {i}', r['load_factor'][i] * W * np.cos(gam), s[LIFT][i] + tn)
        c.equal(f'pitch {i}', r['fuselage_pitch'][i], gam + a)
        if not gr:
            c.equal(f'force across the path {i}', r['dgam_dt'][i] * s[V][i] * W, g * (tn + s[LIFT][i] - W * np.cos(gam)))
    if not gr:
        q = c.comp(GammaComp, {'num_nodes': nn}, {'dh_dr': dh, 'd2h_dr2': d2h})
        for i in range(nn):
            c.equal(f'slope {i}', np.sin(q[GAM][i]), dh[i] * np.cos(q[GAM][i]))
            # d gamma/dt = d gamma/dr dr/dt
            c.equal(f'turn rate of the trajectory {i}', r['dgam_dt_approx'][i], q['dgam_dr'][i] * s[V][i] * np.cos(s[GAM][i]))
            c.equal(f'curvature {i}', q['dgam_dr'][i] * (1.0 + dh[i] ** 2), d2h[i])


ALPHA0, TINC = 0.02, 0.035


def prob(cls, pass_options=False, **kw):
    def make():
        av = AviaryValues()
        av.set_val(M.Takeoff.ANGLE_OF_ATTACK_RUNWAY, ALPHA0, 'rad')
        av.set_val(M.Takeoff.THRUST_INCIDENCE, TINC, 'rad')
        av.set_val(M.Takeoff.ROLLING_FRICTION_COEFFICIENT, 0.025)
        av.set_val(M.Takeoff.BRAKING_FRICTION_COEFFICIENT, 0.31)
        p = om.Problem(reports=False)
        more = {'aviary_options': av} if pass_options else {}
        p.model.add_subsystem('eom', cls(**kw, **more), promotes=['*'])
        setup_model_options(p, av)
        return p
    return make


@scenario('C10', functions=['MissionEOM', 'RequiredThrust', 'RangeRate', 'SpecificEnergyRate', 'AltitudeRate'], params=[dict(nn=1), dict(nn=2)])
def energy_method(c, nn):
    """required thrust, ground speed and excess power satisfy one energy balance"""
    keys = [MASS, DRAG, V, VR, HR, D.Vehicle.Propulsion.THRUST_MAX_TOTAL]
    box = {MASS: (1e3, 1e6, 7e4), DRAG: (0.0, 1e6, 4e4), V: (20.0, 600.0, 150.0), VR: (-5.0, 5.0, 0.2), HR: (-15.0, 15.0, 5.0),
           keys[5]: (0.0, 2e6, 1e5)}
    s = {k: c.array(k, nn, *box[k]) for k in keys}
    o = c.group(('energy', nn), prob(MissionEOM, num_nodes=nn), s)
    g = 9.80665
    for i in range(nn):
        m, v = s[MASS][i], s[V][i]
        c.equal(f'power balance {i}', (o['thrust_required'][i] - s[DRAG][i]) * v, m * g * s[HR][i] + m * v * s[VR][i], rel=1e-4)
        c.equal(f'speed components {i}', o[XR][i] ** 2 + s[HR][i] ** 2, v * v)
        c.ge(f'forward {i}', o[XR][i], 0.0)
        ps = o[D.Mission.SPECIFIC_ENERGY_RATE_EXCESS][i]
        c.equal(f'excess power {i}', ps * m * g, v * (s[keys[5]][i] - s[DRAG][i]), rel=1e-4)
        # at the altitude rate the excess power allows, the required thrust is the maximum one
        c.equal(f'climb capability {i}', m * g * o[D.Mission.ALTITUDE_RATE_MAX][i] + m * v * s[VR][i], v * (s[keys[5]][i] - s[DRAG][i]), rel=1e-4)


@scenario('C10', functions=['DistanceRates', 'SumForces', 'Accelerations', 'VelocityRate', 'FlightPathAngleRate', 'ClimbGradientForces'],
          params=[dict(climbing=k, nn=n, brakes=b) for k in (False, True) for n in (1, 2) for b in (False, True)])
def detailed_takeoff(c, climbing, nn, brakes):
    s = metric_state(c, nn, [MASS, LIFT, DRAG, THRUST, V, GAM, ALPHA])
    key = M.Takeoff.BRAKING_FRICTION_COEFFICIENT if brakes else M.Takeoff.ROLLING_FRICTION_COEFFICIENT
    mu = 0.31 if brakes else 0.025
    o = c.group(('det', climbing, nn, brakes), prob(DetailedTakeoffEOM, True, num_nodes=nn, climbing=climbing, friction_key=key), s)
    g = 9.80665
    for i in range(nn):
        W = s[MASS][i] * g
        if climbing:
            a = s[ALPHA][i] - ALPHA0 + TINC
            tx, tn = s[THRUST][i] * np.cos(a), s[THRUST][i] * np.sin(a)
            path_equations(c, i, o, None, g, W, s[V][i], s[GAM][i], tx, tn, s[DRAG][i], s[LIFT][i], 0.0)
            c.equal(f'climb margin along {i}', o['climb_gradient_forces_horizontal'][i], tx - s[DRAG][i] - W * np.sin(s[GAM][i]))
            c.equal(f'climb margin across {i}', o['climb_gradient_forces_vertical'][i], tn + s[LIFT][i] - W * np.cos(s[GAM][i]))
        else:
            tx, tn = s[THRUST][i] * np.cos(TINC), s[THRUST][i] * np.sin(TINC)
            c.equal(f'distance rate {i}', o[XR][i], s[V][i])
            c.equal(f'Newton {i}', o[VR][i] * s[MASS][i], tx - s[DRAG][i] - mu * (W - s[LIFT][i] - tn))


def metric_state(c, nn, keys):
    box = {MASS: (1e3, 5e5, 7e4), LIFT: (0.0, 4e6, 6e5), DRAG: (0.0, 1e6, 5e4), THRUST: (0.0, 1e6, 1e5), V: (10.0, 300.0, 80.0),
           GAM: (-0.4, 0.4, 0.05), ALPHA: (-0.2, 0.35, 0.07)}
    return {k: c.array(k, nn, *box[k]) for k in keys}


@scenario('C10', functions=['FlareEOM', 'FlareSumForces', 'GlideSlopeForces'], params=[dict(nn=1), dict(nn=2)])
def detailed_flare(c, nn):
    s = metric_state(c, nn, [MASS, LIFT, DRAG, THRUST, V, GAM, ALPHA])
    fr, ar = c.real('flare rate', 0.0, 5.0, 1.0), c.array('alpha rate', nn, 0.0, 5.0, 0.5)
    ins = dict(s, **{M.Landing.FLARE_RATE: fr, 'angle_of_attack_rate': ar})
    o = c.group(('flare', nn), prob(FlareEOM, num_nodes=nn), ins)
    g = 9.80665
    for i in range(nn):
        a = s[ALPHA][i] - ALPHA0 + TINC
        tx, tn = s[THRUST][i] * np.cos(a), s[THRUST][i] * np.sin(a)
        path_equations(c, i, o, None, g, s[MASS][i] * g, s[V][i], s[GAM][i], tx, tn, s[DRAG][i], s[LIFT][i], 0.0)
        c.equal(f'pitch rate {i}', o['net_alpha_rate'][i], fr - ar[i])


@scenario('C10', functions=['GlideSlopeForces'])
def glide_slope(c):
    """at an equilibrium glide the two thrust estimates agree and equal the thrust"""
    m, gam, a, thrust = c.real('m', 1e3, 5e5, 7e4), c.real('gamma', -0.2, 0.2, -0.05), c.real('alpha', 0.01, 0.3, 0.08), c.real('thrust', 0.0, 1e6, 4e4)
    g = 9.80665
    W = m * g
    drag = thrust * np.cos(a) - W * np.sin(gam)
    lift = W * np.cos(gam) - thrust * np.sin(a)
    r = c.comp(GlideSlopeForces, {'num_nodes': 1},
               {MASS: c.arr([m]), GAM: c.arr([gam]), ALPHA: c.arr([a + ALPHA0 - TINC]), DRAG: c.arr([drag]), LIFT: c.arr([lift])},
               sopts={M.GRAVITY: (g, 'm/s**2'), M.Takeoff.ANGLE_OF_ATTACK_RUNWAY: (ALPHA0, 'rad'), M.Takeoff.THRUST_INCIDENCE: (TINC, 'rad')})
    c.equal('required thrust', r['required_thrust'], thrust, atol=1e-3)
    c.equal('balance', r['forces_perpendicular'], 0.0, atol=1e-3)


@scenario('C10', functions=['StallSpeed'])
def stall_speed(c):
    """at the stall speed the maximum lift carries the weight"""
    n = 2
    m, rho = c.array('m', n, 1e3, 1e6, 7e4), c.array('rho', n, 0.1, 1.4, 1.1)
    s, cl, g = c.real('area', 10.0, 1000.0, 120.0), c.real('clmax', 0.5, 4.0, 2.0), c.real('g', 1.0, 30.0, 9.8)
    r = c.comp(StallSpeed, {'num_nodes': n}, {'mass': m, D.Atmosphere.DENSITY: rho, A.Wing.AREA: s, 'lift_coefficient_max': cl},
               sopts={M.GRAVITY: (g, 'm/s**2')})
    for i in range(n):
        c.equal(f'lift at stall {i}', 0.5 * rho[i] * r['stall_speed'][i] ** 2 * s * cl, m[i] * g)

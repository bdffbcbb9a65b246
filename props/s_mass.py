"""C08: mass roll-ups."""
import numpy as np
import openmdao.api as om

from aviary.utils.aviary_values import AviaryValues
from aviary.variable_info.functions import setup_model_options
from aviary.variable_info.variables import Aircraft as A, Mission as M
from aviary.subsystems.mass.flops_based import mass_summation as FS, engine as FE, misc_engine as FM, payload as FP, \
    fuel_capacity as FC, landing_gear as FL, cargo_containers as FCC, engine_pod as FEP, wing_common as FW, \
    thrust_reverser as FT, paint as FPT, empty_margin as FEM
from aviary.subsystems.mass.gasp_based import mass_summation as GS, control as GC, engine as GE, landing as GL, wing as GW, fixed as GF
from aviary.subsystems.mass.mass_to_weight import MassToWeight
from sx.scen import scenario

BIG = 1e6


def problem(group, **opts):
    def make():
        p = om.Problem(reports=False)
        p.model = group()
        av = AviaryValues()
        av.set_val(A.Design.USE_ALT_MASS, opts.get('alt', False))
        av.set_val(A.Engine.NUM_ENGINES, np.array(opts.get('engines', [2])))
        setup_model_options(p, av)
        return p
    return make


STRUCT_F = [A.Canard.MASS, A.Fins.MASS, A.HorizontalTail.MASS, A.VerticalTail.MASS, A.Fuselage.MASS,
            A.LandingGear.TOTAL_MASS, A.Paint.MASS, A.Wing.MASS]
PROP_F = [A.Fuel.FUEL_SYSTEM_MASS, A.Propulsion.TOTAL_MISC_MASS, A.Propulsion.TOTAL_THRUST_REVERSERS_MASS,
          A.Propulsion.TOTAL_ENGINE_MASS, A.Battery.MASS]
SYS = [A.AirConditioning.MASS, A.AntiIcing.MASS, A.APU.MASS, A.Avionics.MASS, A.Electrical.MASS, A.Hydraulics.MASS,
       A.Instruments.MASS]
ITEMS = [A.CrewPayload.CARGO_CONTAINER_MASS, A.CrewPayload.CABIN_CREW_MASS, A.CrewPayload.FLIGHT_CREW_MASS,
         A.CrewPayload.PASSENGER_SERVICE_MASS, A.Fuel.UNUSABLE_FUEL_MASS, A.Propulsion.TOTAL_ENGINE_OIL_MASS,
         M.OPERATING_ITEMS_MASS_ADDITIONAL]


def leaves(c, names):
    return {n: c.real(n, 0.0, BIG, 5000.0) for n in names}


def tot(d, names):
    t = 0.0
    for n in names:
        t = t + d[n]
    return t


def common(c, x, o):
    c.equal('empennage', o[A.Design.EMPENNAGE_MASS],
            tot(x, [n for n in (A.Canard.MASS, A.Fins.MASS, A.HorizontalTail.MASS, A.VerticalTail.MASS) if n in x]))
    c.equal('operating items', o[M.OPERATING_ITEMS_MASS], tot(x, [n for n in ITEMS if n in x]) + x.get(A.Design.EMERGENCY_EQUIPMENT_MASS, 0.0))
    c.equal('operating mass', o[M.OPERATING_MASS], o[A.Design.EMPTY_MASS] + o[M.OPERATING_ITEMS_MASS])
    c.equal('zero fuel mass', o[M.ZERO_FUEL_MASS], o[M.OPERATING_MASS] + x[A.CrewPayload.TOTAL_PAYLOAD_MASS])
    c.equal('useful load', o[A.Design.USEFUL_LOAD_MASS], x[A.Design.GROSS_MASS] - o[A.Design.EMPTY_MASS])


@scenario('C08', functions=['mass.flops_based.mass_summation.MassSummation'],
          params=[dict(engines=[2]), dict(engines=[2, 1]), dict(engines=[1, 2, 4]), dict(engines=[6]), dict(engines=[3, 8])])
def flops_rollup(c, engines):
    names = STRUCT_F + PROP_F + SYS + ITEMS + [A.Furnishings.MASS, A.Wing.SURFACE_CONTROL_MASS, A.Design.EXTERNAL_SUBSYSTEMS_MASS,
                                               A.CrewPayload.TOTAL_PAYLOAD_MASS, A.Design.GROSS_MASS]
    x = leaves(c, names)
    nac = c.array('nacelle', len(engines), 0.0, BIG, 800.0)
    ms = c.real('margin scaler', 0.0, 0.5, 0.05)
    o = c.group(('flops', tuple(engines)), problem(FS.MassSummation, engines=engines),
                dict(x, **{A.Nacelle.MASS: nac, A.Design.EMPTY_MASS_MARGIN_SCALER: ms}))
    s = tot(x, STRUCT_F) + sum((n * v for n, v in zip(engines, nac)), 0.0)
    p = tot(x, PROP_F)
    e = tot(x, SYS) + x[A.Furnishings.MASS] + x[A.Wing.SURFACE_CONTROL_MASS]
    c.equal('structure', o[A.Design.STRUCTURE_MASS], s)
    c.equal('propulsion', o[A.Propulsion.MASS], p)
    c.equal('systems and equipment', o[A.Design.SYSTEMS_AND_EQUIPMENT_MASS], e)
    c.equal('margin', o[A.Design.EMPTY_MASS_MARGIN], ms * (s + p + e))
    c.equal('empty', o[A.Design.EMPTY_MASS], (1 + ms) * (s + p + e) + x[A.Design.EXTERNAL_SUBSYSTEMS_MASS])
    c.equal('controls', o[A.Controls.MASS], x[A.Wing.SURFACE_CONTROL_MASS])
    common(c, x, o)
    c.equal('every item once', o[M.ZERO_FUEL_MASS],
            (1 + ms) * (s + p + e) + x[A.Design.EXTERNAL_SUBSYSTEMS_MASS] + tot(x, ITEMS) + x[A.CrewPayload.TOTAL_PAYLOAD_MASS])


@scenario('C08', functions=['mass.flops_based.mass_summation.MassSummation (alternate)'],
          params=[dict(engines=[2]), dict(engines=[2, 1]), dict(engines=[3, 8])])
def flops_alternate_rollup(c, engines):
    names = STRUCT_F + PROP_F + SYS + ITEMS + [A.Furnishings.MASS_BASE, A.Wing.SURFACE_CONTROL_MASS,
                                               A.Design.EXTERNAL_SUBSYSTEMS_MASS, A.CrewPayload.TOTAL_PAYLOAD_MASS, A.Design.GROSS_MASS]
    x = leaves(c, names)
    nac = c.array('nacelle', len(engines), 0.0, BIG, 800.0)
    ms = c.real('margin scaler', 0.0, 0.5, 0.05)
    o = c.group(('alt', tuple(engines)), problem(FS.MassSummation, engines=engines, alt=True),
                dict(x, **{A.Nacelle.MASS: nac, A.Design.EMPTY_MASS_MARGIN_SCALER: ms}))
    s = tot(x, STRUCT_F) + sum((n * v for n, v in zip(engines, nac)), 0.0)
    p = tot(x, PROP_F)
    e = tot(x, SYS) + x[A.Furnishings.MASS_BASE] + x[A.Wing.SURFACE_CONTROL_MASS]
    c.equal('structure', o[A.Design.STRUCTURE_MASS], s)
    c.equal('propulsion', o[A.Propulsion.MASS], p)
    c.equal('systems base', o[A.Design.SYSTEMS_AND_EQUIPMENT_MASS_BASE], e)
    c.equal('empty is the sum of its groups', o[A.Design.EMPTY_MASS],
            o[A.Design.STRUCTURE_MASS] + o[A.Propulsion.MASS] + o[A.Design.SYSTEMS_AND_EQUIPMENT_MASS]
            + o[A.Design.EMPTY_MASS_MARGIN] + x[A.Design.EXTERNAL_SUBSYSTEMS_MASS])
    c.equal('margin', o[A.Design.EMPTY_MASS_MARGIN], ms * (s + p + o[A.Design.SYSTEMS_AND_EQUIPMENT_MASS]))
    c.equal('controls', o[A.Controls.MASS], x[A.Wing.SURFACE_CONTROL_MASS])
    common(c, x, o)


@scenario('C08', functions=['mass.gasp_based.mass_summation.MassSummation'])
def gasp_rollup(c):
    S = [A.HorizontalTail.MASS, A.VerticalTail.MASS, A.Fuselage.MASS, A.LandingGear.TOTAL_MASS,
         A.Propulsion.TOTAL_ENGINE_POD_MASS, A.Wing.MASS]
    P = [A.Fuel.FUEL_SYSTEM_MASS, 'eng_comb_mass', 'prop_mass_sum', A.Battery.MASS]
    E = SYS + [A.Furnishings.MASS, A.Controls.MASS, A.OxygenSystem.MASS]
    x = leaves(c, S + P + E + ITEMS + [A.Design.EXTERNAL_SUBSYSTEMS_MASS, A.Design.EMERGENCY_EQUIPMENT_MASS,
                                       A.CrewPayload.TOTAL_PAYLOAD_MASS, A.Design.GROSS_MASS])
    inc = c.real('structural increment', -BIG, BIG, 100.0)
    o = c.group('gasp', problem(GS.MassSummation), dict(x, **{A.Design.STRUCTURAL_MASS_INCREMENT: inc}))
    s, p, e = tot(x, S) + inc, tot(x, P), tot(x, E)
    c.equal('structure', o[A.Design.STRUCTURE_MASS], s)
    c.equal('propulsion', o[A.Propulsion.MASS], p)
    c.equal('systems and equipment', o[A.Design.SYSTEMS_AND_EQUIPMENT_MASS], e)
    c.equal('empty', o[A.Design.EMPTY_MASS], s + p + e + x[A.Design.EXTERNAL_SUBSYSTEMS_MASS])
    common(c, x, o)


@scenario('C08', functions=['EngineMass', 'EngineMiscMass', 'ThrustReverserMass'],
          params=[dict(n=[2]), dict(n=[2, 1]), dict(n=[1, 2, 4]), dict(n=[6]), dict(n=[3, 8])])
def flops_engine_totals(c, n):
    k = len(n)
    o = {A.Engine.NUM_ENGINES: np.array(n)}
    ref = c.array('reference mass', k, 1.0, 2e4, 6000.0)
    thr = c.array('scaled thrust', k, 1e3, 1e5, 25000.0)
    rth = c.array('reference thrust', k, 1e3, 1e5, 25000.0)
    sc = c.array('scaler', k, 0.1, 2.0, 1.15)
    for flag in (True, False):
        r = c.comp(FE.EngineMass, dict(o, **{A.Engine.SCALE_MASS: [flag] * k, A.Engine.ADDITIONAL_MASS_FRACTION: np.full(k, 0.1)}),
                   {A.Engine.REFERENCE_MASS: ref, A.Engine.SCALED_SLS_THRUST: thr, A.Engine.REFERENCE_SLS_THRUST: rth,
                    A.Engine.MASS_SCALER: sc})
        c.equal(f'total engine mass scale={flag}', r[A.Propulsion.TOTAL_ENGINE_MASS],
                sum((m * v for m, v in zip(n, r[A.Engine.MASS])), 0.0))
        c.equal(f'additional mass scale={flag}', r[A.Engine.ADDITIONAL_MASS], 0.1 * r[A.Engine.MASS])
        if not flag:
            c.equal('unscaled engine mass', r[A.Engine.MASS], ref * 1.0)
    r = c.comp(FE.EngineMass, dict(o, **{A.Engine.SCALE_MASS: [True] * k, A.Engine.ADDITIONAL_MASS_FRACTION: np.full(k, 0.1)}),
               {A.Engine.REFERENCE_MASS: ref, A.Engine.SCALED_SLS_THRUST: rth, A.Engine.REFERENCE_SLS_THRUST: rth, A.Engine.MASS_SCALER: sc})
    c.equal('no thrust change, no mass change', r[A.Engine.MASS], ref * 1.0)
    add = c.array('additional', k, 0.0, 5e3, 300.0)
    ctl, st, ms = c.real('controls', 0, 1e4, 80.0), c.real('starter', 0, 1e4, 500.0), c.real('misc scaler', 0, 3, 1.0)
    r = c.comp(FM.EngineMiscMass, o, {A.Engine.ADDITIONAL_MASS: add, A.Propulsion.MISC_MASS_SCALER: ms,
                                      A.Propulsion.TOTAL_ENGINE_CONTROLS_MASS: ctl, A.Propulsion.TOTAL_STARTER_MASS: st})
    c.equal('miscellaneous mass', r[A.Propulsion.TOTAL_MISC_MASS],
            (sum((m * v for m, v in zip(n, add)), 0.0) + ctl + st) * ms)
    r = c.comp(FT.ThrustReverserMass, o, {A.Engine.THRUST_REVERSERS_MASS_SCALER: sc, A.Engine.SCALED_SLS_THRUST: thr})
    c.equal('thrust reversers', r[A.Propulsion.TOTAL_THRUST_REVERSERS_MASS], sum(r[A.Engine.THRUST_REVERSERS_MASS], 0.0))


@scenario('C08', functions=['PaxPayloadMass', 'CargoMass', 'TotalPayload', 'TotalFuelCapacity', 'LandingGearTotalMass', 'PaintMass'])
def flops_small_sums(c):
    bag, per = c.real('bag', 0, 200, 45.0), c.real('pax', 0, 400, 180.0)
    r = c.comp(FP.PaxPayloadMass, {},
               {A.CrewPayload.BAGGAGE_MASS_PER_PASSENGER: bag, A.CrewPayload.MASS_PER_PASSENGER: per})
    c.equal('passenger payload', r[A.CrewPayload.PASSENGER_PAYLOAD_MASS],
            r[A.CrewPayload.PASSENGER_MASS_TOTAL] + r[A.CrewPayload.BAGGAGE_MASS])
    w, m = c.real('wing cargo', 0, BIG), c.real('misc cargo', 0, BIG)
    r = c.comp(FP.CargoMass, {}, {A.CrewPayload.WING_CARGO: w, A.CrewPayload.MISC_CARGO: m})
    c.equal('cargo', r[A.CrewPayload.CARGO_MASS], w + m)
    r = c.comp(FP.TotalPayload, {}, {A.CrewPayload.CARGO_MASS: w, A.CrewPayload.PASSENGER_PAYLOAD_MASS: m})
    c.equal('payload', r[A.CrewPayload.TOTAL_PAYLOAD_MASS], w + m)
    x = leaves(c, [A.Fuel.WING_FUEL_MASS_CAPACITY, A.Fuel.FUSELAGE_FUEL_MASS_CAPACITY, A.Fuel.AUXILIARY_FUEL_MASS_CAPACITY])
    r = c.comp(FC.TotalFuelCapacity, {}, x)
    c.equal('fuel capacity', r[A.Fuel.MAX_CAPACITY_MASS], tot(x, list(x)))
    t = c.real('total fuel', 0.0, BIG)
    r = c.comp(FC.AuxFuelCapacity, {}, {A.Fuel.MAX_CAPACITY_MASS: t, A.Fuel.WING_FUEL_MASS_CAPACITY: x[A.Fuel.WING_FUEL_MASS_CAPACITY],
                                        A.Fuel.FUSELAGE_FUEL_MASS_CAPACITY: x[A.Fuel.FUSELAGE_FUEL_MASS_CAPACITY]})
    c.equal('auxiliary capacity closes the total', r[A.Fuel.AUXILIARY_FUEL_MASS_CAPACITY] + x[A.Fuel.WING_FUEL_MASS_CAPACITY]
            + x[A.Fuel.FUSELAGE_FUEL_MASS_CAPACITY], t)
    r = c.comp(FL.LandingGearTotalMass, {}, {A.LandingGear.MAIN_GEAR_MASS: w, A.LandingGear.NOSE_GEAR_MASS: m})
    c.equal('landing gear', r[A.LandingGear.TOTAL_MASS], w + m)
    a = c.real('area', 0, 1e5)
    u = c.real('unit mass', 0, 1)
    r = c.comp(FPT.PaintMass, {}, {A.Design.TOTAL_WETTED_AREA: a, A.Paint.MASS_PER_UNIT_AREA: u})
    c.equal('paint', r[A.Paint.MASS], a * u)
    g = c.real('mass', 0, BIG)
    r = c.comp(MassToWeight, {'num_nodes': 2}, {'mass': c.arr([g, w])})
    c.equal('weight', r['weight'], c.arr([g, w]))


@scenario('C08', functions=['SumControlMass', 'LandingGearMass', 'WingMassTotal', 'EnginePodMass', 'WingMountEngineMass', 'PayloadGroup'],
          params=[dict(n=[2]), dict(n=[2, 1]), dict(n=[3, 8])])
def gasp_small_sums(c, n):
    k = len(n)
    o = {A.Engine.NUM_ENGINES: np.array(n)}
    x = leaves(c, [A.Controls.COCKPIT_CONTROL_MASS, A.Controls.STABILITY_AUGMENTATION_SYSTEM_MASS, A.Wing.SURFACE_CONTROL_MASS])
    inc = c.real('increment', -1e4, 1e4, 10.0)
    r = c.comp(GC.SumControlMass, {}, dict(x, **{A.Controls.CONTROL_MASS_INCREMENT: inc}))
    c.equal('controls', r[A.Controls.MASS], tot(x, list(x)) + inc)
    f, t = c.real('main gear fraction', 0, 1, 0.85), c.real('gear', 0, BIG)
    r = c.comp(GL.LandingGearMass, {}, {A.LandingGear.MAIN_GEAR_MASS_FRACTION: f, A.LandingGear.TOTAL_MASS: t})
    c.equal('gear split', r[A.LandingGear.MAIN_GEAR_MASS] + r[A.LandingGear.NOSE_GEAR_MASS], t)
    c.equal('main gear share', r[A.LandingGear.MAIN_GEAR_MASS], f * t)
    s, iso = c.real('wing scaler', 0, 3, 1.0), c.real('isolated', 0, BIG)
    r = c.comp(GW.WingMassTotal, {A.Wing.HAS_STRUT: True, A.Wing.HAS_FOLD: True}, {A.Wing.MASS_SCALER: s, 'isolated_wing_mass': iso,
               A.Strut.MASS: c.real('strut', 0, BIG), A.Wing.FOLD_MASS: c.real('fold', 0, BIG)})
    c.equal('wing', r[A.Wing.MASS], s * (iso + c.real('strut', 0, BIG) + c.real('fold', 0, BIG)))
    nac, pyl, sc = c.array('nacelle', k, 0, 1e4, 500.0), c.array('pylon', k, 0, 1e4, 100.0), c.array('pod scaler', k, 0, 3, 1.0)
    r = c.comp(GE.EnginePodMass, o, {A.Engine.POD_MASS_SCALER: sc, A.Nacelle.MASS: nac, 'pylon_mass': pyl})
    c.equal('pods', r[A.Propulsion.TOTAL_ENGINE_POD_MASS], sum((m * q * v for m, q, v in zip(n, sc, r[A.Engine.POD_MASS])), 0.0))
    c.equal('pod', r[A.Engine.POD_MASS], nac + pyl)


@scenario('C08', functions=['WingMountEngineMass'], params=[dict(n=2), dict(n=4)])
def gasp_wing_mounted(c, n):
    """the wing carries every engine, pod and propeller once, and the main gear once"""
    o = {A.Engine.NUM_ENGINES: np.array([n]), A.Propulsion.TOTAL_NUM_WING_ENGINES: n, A.Engine.ADDITIONAL_MASS_FRACTION: np.array([0.1])}
    spec, thr = c.real('specific mass', 0.01, 1.0, 0.2), c.real('thrust', 1e3, 1e5, 25000.0)
    add, pod, prop = (c.real(s, 0.0, 2e4, 500.0) for s in ('additional', 'pod', 'propeller'))
    loc, gear, gloc = c.array('locations', n // 2, 0.01, 1.0, 0.3), c.real('gear', 0.0, 1e5, 6000.0), c.real('gear location', 0.0, 1.0, 0.15)
    sc = c.real('scaler', 0.1, 3.0, 1.0)
    r = c.comp(GE.WingMountEngineMass, o, {
        A.Engine.MASS_SPECIFIC: c.arr([spec]), A.Engine.SCALED_SLS_THRUST: c.arr([thr]), A.Engine.MASS_SCALER: c.arr([sc]),
        A.Propulsion.MISC_MASS_SCALER: 1.0, A.LandingGear.MAIN_GEAR_MASS: gear, A.LandingGear.MAIN_GEAR_LOCATION: gloc,
        A.Engine.WING_LOCATIONS: loc, A.Engine.Propeller.MASS: c.arr([prop]), A.Engine.POD_MASS: c.arr([pod]),
        A.Engine.ADDITIONAL_MASS: c.arr([add])})
    every = n * (spec * thr + add + pod + prop)
    c.le(f'wing-mounted mass is at most the mass of the items mounted, {n} engines', r['wing_mounted_mass'], every + gear)
    if n == 2:
        c.equal('engines and gear, each once', r['wing_mounted_mass'],
                every * (loc[0] / (loc[0] + 0.001)) + gear * (gloc / (gloc + 0.001)))
    c.equal('dry and additional engine mass', r['eng_comb_mass'], n * (sc * spec * thr + add))
    c.equal('propellers', r['prop_mass_sum'], n * prop)

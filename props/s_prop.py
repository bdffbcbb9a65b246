"""C12: engine scaling, throttle allocation, propulsion totals."""
import numpy as np
import openmdao.api as om

from aviary.subsystems.propulsion.engine_model import EngineModel
from aviary.subsystems.propulsion.engine_scaling import EngineScaling
from aviary.subsystems.propulsion.engine_sizing import SizeEngine
from aviary.subsystems.propulsion.propulsion_mission import PropulsionMission, PropulsionSum
from aviary.subsystems.propulsion.propulsion_premission import PropulsionPreMission, PropulsionSum as PreSum
from aviary.subsystems.propulsion.throttle_allocation import ThrottleAllocator
from aviary.subsystems.propulsion.utils import EngineModelVariables as V, default_units, max_variables
from aviary.utils.aviary_values import AviaryValues
from aviary.variable_info.enums import ThrottleAllocation
from aviary.variable_info.functions import setup_model_options
from aviary.variable_info.variables import Aircraft as A, Dynamic as D
from sx.scen import scenario

P = D.Vehicle.Propulsion
SCALED = [V.THRUST, V.SHAFT_POWER, V.FUEL_FLOW, V.ELECTRIC_POWER_IN, V.NOX_RATE]


@scenario('C12', functions=['EngineScaling', 'SizeEngine'], params=[dict(nn=1), dict(nn=2), dict(nn=3)])
def scaling(c, nn):
    ev = {v: default_units[v] for v in SCALED + [V.MACH, V.ALTITUDE, V.THROTTLE, V.TEMPERATURE_T4]}
    ev.pop(V.TEMPERATURE_T4)
    sf = c.real('scale factor', 0.05, 5.0, 1.1)
    mach = c.array('mach', nn, 0.0, 3.0, 0.8)
    sub, sup = c.real('subsonic', 0.5, 2.0, 1.05), c.real('supersonic', 0.5, 2.0, 1.3)
    con, lin = c.real('constant term', -0.5, 1.0, 0.02), c.real('linear term', -0.5, 1.0, 0.03)
    cff = c.real('constant flow', 0.0, 1e3, 10.0)
    x = {v: c.array(v.name, nn, -1e5, 1e5, 2000.0) for v in SCALED}
    xm = {v: c.array('max ' + v.name, nn, -1e5, 1e5, 3000.0) for v in max_variables}
    ins = {A.Engine.SCALE_FACTOR: c.arr([sf]), D.Atmosphere.MACH: mach}
    ins.update({v.value + '_unscaled': x[v] for v in SCALED})
    ins.update({max_variables[v] + '_unscaled': xm[v] for v in max_variables})
    r = c.comp(EngineScaling, {'num_nodes': nn, 'engine_variables': ev}, ins,
               sopts={A.Engine.SUBSONIC_FUEL_FLOW_SCALER: sub, A.Engine.SUPERSONIC_FUEL_FLOW_SCALER: sup,
                      A.Engine.FUEL_FLOW_SCALER_CONSTANT_TERM: con, A.Engine.FUEL_FLOW_SCALER_LINEAR_TERM: lin,
                      A.Engine.CONSTANT_FUEL_MASS_CONSUMPTION: (cff, 'lbm/h')})
    for v in SCALED:
        if v is V.FUEL_FLOW:
            for i in range(nn):
                m = sup if mach[i] >= 1.0 else sub
                want = -(x[v][i] * sf * m * (1 + con + lin * (1 - sf)) + cff)
                c.equal(f'fuel flow {i}', r[P.FUEL_MASS_FLOW_RATE_NEGATIVE][i], want)
        else:
            c.equal(v.name, r[v.value], x[v] * sf)
    for v in max_variables:
        c.equal('max ' + v.name, r[max_variables[v]], xm[v] * sf)
    ref = c.real('reference thrust', 1.0, 2e5, 28000.0)
    r = c.comp(SizeEngine, {}, {A.Engine.REFERENCE_SLS_THRUST: ref, A.Engine.SCALE_FACTOR: sf})
    c.equal('rated thrust', r[A.Engine.SCALED_SLS_THRUST], ref * sf)


@scenario('C12', functions=['EngineScaling'])
def scaling_unit(c):
    """scale factor one with neutral fuel terms returns the deck values"""
    ev = {v: default_units[v] for v in SCALED}
    x = {v: c.array(v.name, 2, -1e5, 1e5, 2000.0) for v in SCALED}
    mach = c.array('mach', 2, 0.0, 3.0, 0.8)
    ins = {A.Engine.SCALE_FACTOR: c.arr([1.0]), D.Atmosphere.MACH: mach}
    ins.update({v.value + '_unscaled': x[v] for v in SCALED})
    ins.update({max_variables[v] + '_unscaled': x[v] for v in max_variables})
    lin = c.real('linear term', -0.5, 1.0, 0.03)
    r = c.comp(EngineScaling, {'num_nodes': 2, 'engine_variables': ev}, ins,
               sopts={A.Engine.SUBSONIC_FUEL_FLOW_SCALER: 1.0, A.Engine.SUPERSONIC_FUEL_FLOW_SCALER: 1.0,
                      A.Engine.FUEL_FLOW_SCALER_CONSTANT_TERM: 0.0, A.Engine.FUEL_FLOW_SCALER_LINEAR_TERM: lin,
                      A.Engine.CONSTANT_FUEL_MASS_CONSUMPTION: (0.0, 'lbm/h')})
    for v in SCALED:
        if v is V.FUEL_FLOW:
            c.equal('deck fuel flow', r[P.FUEL_MASS_FLOW_RATE_NEGATIVE], x[v] * -1.0)
        else:
            c.equal('deck ' + v.name, r[v.value], x[v])


@scenario('C12', functions=['ThrottleAllocator'],
          params=[dict(nn=n, k=k, mode=m) for n in (1, 2, 3) for k in (2, 3) for m in ('FIXED', 'STATIC', 'DYNAMIC')],
          thorough=[dict(nn=5, k=5, mode=m) for m in ('FIXED', 'STATIC', 'DYNAMIC')])
def throttles(c, nn, k, mode):
    mode = ThrottleAllocation[mode]
    agg = c.array('throttle', nn, 0.0, 1.0, 0.7)
    dyn = mode is ThrottleAllocation.DYNAMIC
    al = c.array('allocation', (k - 1) * (nn if dyn else 1), 0.0, 1.0, 0.8 / k)
    al = al.reshape((nn, k - 1)) if dyn else al
    r = c.comp(ThrottleAllocator, {'num_nodes': nn, 'throttle_allocation': mode, A.Engine.NUM_ENGINES: np.ones(k, dtype=int)},
               {'aggregate_throttle': agg, 'throttle_allocations': al})
    t = r[P.THROTTLE]
    for i in range(nn):
        row = al[i] if dyn else al
        c.equal(f'engine throttles add up to the aggregate at node {i}', sum([t[i, j] for j in range(k)], 0.0), agg[i])
        for j in range(k - 1):
            c.equal(f'share of engine {j} at node {i}', t[i, j], agg[i] * row[j])
        c.equal(f'allocation sum {i}', r['throttle_allocation_sum'][i if dyn else 0], sum(list(row), 0.0))


@scenario('C12', functions=['PropulsionSum'], params=[dict(n=[2]), dict(n=[2, 1]), dict(n=[4, 2, 1])])
def totals(c, n):
    k, nn = len(n), 2
    pairs = [(P.THRUST, P.THRUST_TOTAL), (P.THRUST_MAX, P.THRUST_MAX_TOTAL),
             (P.FUEL_MASS_FLOW_RATE_NEGATIVE, P.FUEL_MASS_FLOW_RATE_NEGATIVE_TOTAL),
             (P.ELECTRIC_POWER_IN, P.ELECTRIC_POWER_IN_TOTAL), (P.NOX_RATE, P.NOX_RATE_TOTAL)]
    x = {a: c.array(a, nn * k, -1e5, 1e5, 1000.0).reshape((nn, k)) for a, _ in pairs}
    r = c.comp(PropulsionSum, {'num_nodes': nn, A.Engine.NUM_ENGINES: np.array(n)}, x)
    for a, b in pairs:
        for i in range(nn):
            c.equal(f'{b} {i}', r[b][i], sum([m * x[a][i, j] for j, m in enumerate(n)], 0.0))
    s = c.array('sls', k, 0.0, 1e5, 1e4)
    r = c.comp(PreSum, {A.Engine.NUM_ENGINES: np.array(n)}, {A.Engine.SCALED_SLS_THRUST: s})
    c.equal('total rated thrust', r[A.Propulsion.TOTAL_SCALED_SLS_THRUST], sum([m * v for m, v in zip(n, s)], 0.0))


COEF = [(11.0, 0.3), (7.0, 0.9), (5.0, 1.7)]


class Eng(om.ExplicitComponent):
    def initialize(self):
        self.options.declare('num_nodes', types=int)
        self.options.declare('which', types=int)
        self.options.declare('maxes', types=bool)
        self.options.declare('hybrid', types=bool)
        self.options.declare('own', types=bool)

    def setup(self):
        nn = self.options['num_nodes']
        self.add_input(D.Atmosphere.MACH, shape=nn, units='unitless')
        self.add_input(P.THROTTLE, shape=nn, units='unitless')
        if self.options['hybrid']:
            self.add_input(P.HYBRID_THROTTLE, shape=nn, units='unitless')
        self.add_input(A.Engine.SCALE_FACTOR, val=1.0, units='unitless')
        if self.options['own']:
            self.add_input(A.Engine.Propeller.DIAMETER, val=1.0, units='inch')
        self.add_output(P.THRUST, shape=nn, units='lbf')
        self.add_output(P.SHAFT_POWER, shape=nn, units='hp')
        self.add_output(P.FUEL_MASS_FLOW_RATE_NEGATIVE, shape=nn, units='lbm/h')
        self.add_output(P.ELECTRIC_POWER_IN, shape=nn, units='kW')
        self.add_output(P.NOX_RATE, shape=nn, units='lbm/h')
        self.add_output(P.TEMPERATURE_T4, shape=nn, units='degR')
        if self.options['maxes']:
            self.add_output(P.THRUST_MAX, shape=nn, units='lbf')
            self.add_output(P.SHAFT_POWER_MAX, shape=nn, units='hp')

    def compute(self, inputs, outputs):
        h = inputs[P.HYBRID_THROTTLE] if self.options['hybrid'] else 0.0
        s = inputs[A.Engine.SCALE_FACTOR]
        if self.options['own']:
            s = s + inputs[A.Engine.Propeller.DIAMETER] / 12.0
        r = law(self.options['which'], inputs[D.Atmosphere.MACH], inputs[P.THROTTLE], h, s)
        for n, v in r.items():
            outputs[n] = v
        if self.options['maxes']:
            r = law(self.options['which'], inputs[D.Atmosphere.MACH], 1.5, 0.0, s)
            outputs[P.THRUST_MAX], outputs[P.SHAFT_POWER_MAX] = r[P.THRUST], r[P.SHAFT_POWER]


def law(w, m, t, h, s):
    a, b = COEF[w]
    y = s * (t * a + h * b) * (1.0 - 0.1 * b * m)
    return {P.THRUST: y, P.SHAFT_POWER: 2.0 * y + b, P.FUEL_MASS_FLOW_RATE_NEGATIVE: -0.4 * y - 1.0, P.ELECTRIC_POWER_IN: 0.3 * y,
            P.NOX_RATE: 0.01 * y + b, P.TEMPERATURE_T4: y * 0.0 + 1000.0 + a * t}


class Model(EngineModel):
    def __init__(self, which, maxes=False, hybrid=False, own=False):
        super().__init__(f'engine_{which}', options=AviaryValues())
        self.which, self.compute_max_values, self.use_hybrid_throttle, self.own = which, maxes, hybrid, own

    def build_mission(self, num_nodes, aviary_inputs, user_options, subsystem_options):
        return Eng(num_nodes=num_nodes, which=self.which, maxes=self.compute_max_values, hybrid=self.use_hybrid_throttle,
                   own=self.own)

    def build_pre_mission(self, aviary_inputs, subsystem_options=None):
        g = om.Group()
        g.add_subsystem('sizing', SizeEngine(), promotes=['*'])
        if self.own:
            g.add_subsystem('own', om.ExecComp('d=2.0*s+%d.0' % self.which, d={'units': 'ft'}, s={'units': 'unitless'}),
                            promotes_inputs=[('s', A.Engine.SCALE_FACTOR)], promotes_outputs=[('d', A.Nacelle.AVG_DIAMETER)])
        return g

    def get_parameters(self, aviary_inputs=None, user_options=None, subsystem_options=None):
        r = {A.Engine.SCALE_FACTOR: {'val': 1.0, 'units': 'unitless'}}
        if self.own:
            r[A.Engine.Propeller.DIAMETER] = {'val': 1.0, 'units': 'ft'}
        return r


def mission(n, maxes, hybrid, nn, own):
    def make():
        av = AviaryValues()
        av.set_val(A.Engine.NUM_ENGINES, np.array(n))
        from aviary.variable_info.enums import Verbosity
        from aviary.variable_info.variables import Settings
        av.set_val(Settings.VERBOSITY, Verbosity.QUIET)
        p = om.Problem(reports=False)
        p.model.add_subsystem('prop', PropulsionMission(num_nodes=nn, aviary_options=av,
                                                        engine_models=[Model(i, m, h, w) for i, (m, h, w) in enumerate(zip(maxes, hybrid, own))]),
                              promotes=['*'])
        p.model.set_input_defaults(D.Atmosphere.MACH, np.full(nn, 0.5), units='unitless')
        k = len(n)
        p.model.set_input_defaults(P.THROTTLE, np.full((nn, k) if k > 1 else nn, 0.5), units='unitless')
        if any(hybrid):
            p.model.set_input_defaults(P.HYBRID_THROTTLE, np.full((nn, k) if k > 1 else nn, 0.5), units='unitless')
        p.model.set_input_defaults(A.Engine.SCALE_FACTOR, np.ones(k), units='unitless')
        if any(own):
            p.model.set_input_defaults(A.Engine.Propeller.DIAMETER, np.ones(k), units='ft')
        setup_model_options(p, av)
        return p
    return make


@scenario('C12', functions=['PropulsionMission', 'PropulsionSum'],
          params=[dict(n=[2], maxes=[False], hybrid=[False]), dict(n=[2], maxes=[False], hybrid=[True]),
                  dict(n=[2, 1], maxes=[False, False], hybrid=[False, False]),
                  dict(n=[2, 1], maxes=[True, False], hybrid=[False, False]),
                  dict(n=[2, 4], maxes=[False, False], hybrid=[True, False]),
                  dict(n=[2, 1, 4], maxes=[False, True, False], hybrid=[False, True, True]),
                  dict(n=[2, 6], maxes=[False, False], hybrid=[False, False], own=[True, False]),
                  dict(n=[2, 8], maxes=[False, True], hybrid=[False, False], own=[False, True]),
                  dict(n=[1, 2, 3], maxes=[True, False, True], hybrid=[True, False, False], own=[False, True, False])])
def mission_group(c, n, maxes, hybrid, own=None):
    own = own or [False] * len(n)
    nn, k = 2, len(n)
    mach = c.array('mach', nn, 0.0, 0.9, 0.5)
    t = c.array('throttle', nn * k, 0.0, 1.0, 0.6)
    h = c.array('hybrid', nn * k, 0.0, 1.0, 0.4)
    t2, h2 = t.reshape((nn, k)), h.reshape((nn, k))
    sf = c.array('scale factor', k, 0.1, 3.0, 1.2)
    ins = {D.Atmosphere.MACH: mach, P.THROTTLE: t2 if k > 1 else t, A.Engine.SCALE_FACTOR: sf}
    if any(hybrid):
        ins[P.HYBRID_THROTTLE] = h2 if k > 1 else h
    if any(own):
        dia = c.array('diameter', k, 0.1, 20.0, 3.0)
        ins[A.Engine.Propeller.DIAMETER] = (dia, 'ft')
        sf = [s + d if w else s for s, d, w in zip(sf, dia, own)]
    o = c.group(('mission', tuple(n), tuple(maxes), tuple(hybrid), tuple(own)), mission(n, maxes, hybrid, nn, own), ins)
    for i in range(nn):
        one = [law(j, mach[i], t2[i, j], h2[i, j] if hybrid[j] else 0.0, sf[j]) for j in range(k)]
        top = [law(j, mach[i], 1.5 if maxes[j] else 1.0, 1.0 if hybrid[j] and not maxes[j] else 0.0, sf[j]) for j in range(k)]
        for j in range(k):
            for v in (P.THRUST, P.SHAFT_POWER, P.FUEL_MASS_FLOW_RATE_NEGATIVE, P.ELECTRIC_POWER_IN, P.NOX_RATE, P.TEMPERATURE_T4):
                c.equal(f'{v} of engine {j} at node {i}', o[v][i, j], one[j][v])
            c.equal(f'max thrust of engine {j} at node {i}', o[P.THRUST_MAX][i, j], top[j][P.THRUST])
            c.equal(f'max power of engine {j} at node {i}', o[P.SHAFT_POWER_MAX][i, j], top[j][P.SHAFT_POWER])
        for v, w in ((P.THRUST, P.THRUST_TOTAL), (P.FUEL_MASS_FLOW_RATE_NEGATIVE, P.FUEL_MASS_FLOW_RATE_NEGATIVE_TOTAL),
                     (P.ELECTRIC_POWER_IN, P.ELECTRIC_POWER_IN_TOTAL), (P.NOX_RATE, P.NOX_RATE_TOTAL)):
            c.equal(f'{w} at node {i}', o[w][i], sum([m * x[v] for m, x in zip(n, one)], 0.0))
        c.equal(f'max thrust total at node {i}', o[P.THRUST_MAX_TOTAL][i], sum([m * x[P.THRUST] for m, x in zip(n, top)], 0.0))


def premission(n, own, given=True):
    def make():
        av = AviaryValues()
        av.set_val(A.Engine.NUM_ENGINES, np.array(n))
        from aviary.variable_info.enums import Verbosity
        from aviary.variable_info.variables import Settings
        av.set_val(Settings.VERBOSITY, Verbosity.QUIET)
        if any(own) and given:
            av.set_val(A.Nacelle.AVG_DIAMETER, np.array([5.0, 6.0, 7.0])[:len(n)] * 12.0, 'inch')
        p = om.Problem(reports=False)
        p.model.add_subsystem('prop', PropulsionPreMission(aviary_options=av, engine_models=[Model(i, own=w) for i, w in enumerate(own)]),
                              promotes=['*'])
        k = len(n)
        p.model.set_input_defaults(A.Engine.SCALE_FACTOR, np.ones(k), units='unitless')
        p.model.set_input_defaults(A.Engine.REFERENCE_SLS_THRUST, np.ones(k), units='lbf')
        setup_model_options(p, av)
        return p
    return make


@scenario('C12', functions=['PropulsionPreMission', 'SizeEngine'], params=[dict(n=[2]), dict(n=[2, 1]), dict(n=[1, 2, 4]),
                                                                              dict(n=[2, 6], own=[True, False]), dict(n=[2, 6], own=[False, True]),
                                                                              dict(n=[2, 1, 8], own=[False, True, True]),
                                                                              dict(n=[2, 3], own=[False, True], given=False)])
def premission_group(c, n, own=None, given=True):
    k = len(n)
    own = own or [False] * k
    sf, ref = c.array('scale factor', k, 0.1, 3.0, 1.2), c.array('reference', k, 1.0, 1e5, 2e4)
    ins = {A.Engine.SCALE_FACTOR: sf, A.Engine.REFERENCE_SLS_THRUST: ref}
    if any(own):
        # a type that does not compute the quantity keeps the value that is there
        there = np.array([5.0, 6.0, 7.0])[:k] if given else np.zeros(k)
    o = c.group(('pre', tuple(n), tuple(own), given), premission(n, own, given), ins)
    if any(own):
        for j, w in enumerate(own):
            c.equal(f'diameter of engine {j}', o[A.Nacelle.AVG_DIAMETER][j], 2.0 * sf[j] + float(j) if w else there[j])
    c.equal('rated thrust per engine', o[A.Engine.SCALED_SLS_THRUST], sf * ref)
    c.equal('total rated thrust', o[A.Propulsion.TOTAL_SCALED_SLS_THRUST], sum([m * a * b for m, a, b in zip(n, sf, ref)], 0.0))

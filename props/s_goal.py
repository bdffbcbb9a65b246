"""C27: what the optimizer is given to minimise, to vary and to hold is what was asked for."""
import openmdao.api as om

import aviary.core.aviary_problem as ap
import aviary.utils.aviary_values as av_mod
import aviary.utils.named_values as nv_mod
import aviary.utils.utils as ut
from aviary.core.aviary_group import AviaryGroup
from aviary.core.aviary_problem import AviaryProblem
from aviary.utils.aviary_values import AviaryValues
from aviary.subsystems.subsystem_builder import SubsystemBuilder
from aviary.variable_info.enums import EquationsOfMotion, ProblemType, Verbosity
from aviary.variable_info.variables import Aircraft as A, Mission as M
from sx import shim
from sx.scen import scenario

shim.install(ap, av_mod, nv_mod, ut)
shim.install_float(ap)
N = 3
LB = 0.45359237
KM = 1.852


class Logged(om.Group):
    """a group that keeps what it is told to optimise"""

    def __init__(self, **kw):
        super().__init__(**kw)
        self.goals = []
        self.configurator = None

    def add_objective(self, name, **kw):
        self.goals.append((name, kw))
        super().add_objective(name, **kw)


class Flight(Logged):
    """what one flown mission offers: results at the top of its group, and the histories of its phases"""

    def __init__(self, phases=('climb', 'cruise'), reserve=(), units=('lbm', 's')):
        super().__init__()
        self.main_phases, self.reserve_phases = list(phases), list(reserve)
        self.mission_info = {p: {} for p in (*phases, *reserve)}
        self.target_range = 1000.0
        self.units = units

    def setup(self):
        outs = {M.TOTAL_FUEL_MASS: 'lbm', M.FUEL_MASS: 'lbm', M.RANGE: 'NM', M.FINAL_MASS: 'lbm', M.FINAL_TIME: 'min', M.GROSS_MASS: 'lbm'}
        kw = {}
        for i, u in enumerate(outs.values()):
            kw[f'o{i}'] = {'units': u}
            kw[f'i{i}'] = {'units': u}
        self.add_subsystem('results', om.ExecComp([f'o{i} = 1.0*i{i}' for i in range(len(outs))], **kw),
                           promotes_inputs=[(f'i{i}', 'free:' + v) for i, v in enumerate(outs)],
                           promotes_outputs=[(f'o{i}', v) for i, v in enumerate(outs)])
        traj = self.add_subsystem('traj', om.Group())
        for p in self.mission_info:
            g = traj.add_subsystem(p, om.Group())
            mu, tu = self.units
            g.add_subsystem('timeseries', om.ExecComp(['mass = 1.0*m', 'time = 1.0*t'], mass={'units': mu, 'shape': N}, m={'units': mu, 'shape': N},
                                                      time={'units': tu, 'shape': N}, t={'units': tu, 'shape': N}))
        # the model's own order: results and histories before anything added to it from outside
        own = ['results', 'traj']
        self.set_order(own + [n for n in self._static_subsystems_allprocs if n not in own])


def problem(kind, model, groups=None, gross=None):
    p = AviaryProblem(problem_type=kind, verbosity=Verbosity.QUIET, reports=False)
    p.model = model
    if groups:
        p.aviary_groups_dict = groups
        for n, g in groups.items():
            model.add_subsystem(n, g)
    if gross is not None:
        model.aviary_inputs = AviaryValues()
        model.aviary_inputs.set_val(A.Design.GROSS_MASS, gross, 'lbm')
    return p


def results(c, pre=''):
    v = {'total': c.real(pre + 'total', 0.0, 5e5, 3e4), 'fuel': c.real(pre + 'fuel', 0.0, 5e5, 2e4), 'range': c.real(pre + 'range', 0.0, 2e4, 1500.0),
         'mass': c.real(pre + 'mass', 0.0, 1e6, 1.2e5), 'time': c.real(pre + 'time', 0.0, 3e3, 200.0), 'ascent': c.real(pre + 'ascent', 0.0, 1e3, 20.0)}
    dot = pre + '.' if pre else ''
    ins = {dot + 'free:' + M.TOTAL_FUEL_MASS: (v['total'], 'lbm'), dot + 'free:' + M.FUEL_MASS: (v['fuel'], 'lbm'), dot + 'free:' + M.RANGE: (v['range'], 'NM'),
           dot + 'free:' + M.FINAL_MASS: (v['mass'], 'lbm'), dot + 'free:' + M.FINAL_TIME: (v['time'], 'min')}
    return v, ins


def objective(c, o, log):
    """the one thing the optimizer minimises, as the model evaluates it, and the scale it is given"""
    c.true('one objective', len(log) == 1)
    name, kw = log[0]
    v = o[name]
    v = v.reshape(-1)[kw.get('index') or 0] if hasattr(v, 'reshape') else v
    return v, kw.get('ref')


MU = {'lbm': 1.0, 'kg': 1.0 / LB}
TU = {'s': 1.0, 'min': 60.0, 'h': 3600.0}
KINDS = ('mass', 'time', 'hybrid_objective', 'fuel_burned', 'fuel')


@scenario('C27', functions=['AviaryProblem.add_objective', 'AviaryProblem._add_hybrid_objective'],
          params=[dict(kind=k, ref=r, res=q, mu=mu, tu=tu) for k in KINDS for r in (False, True)
                  for q, mu, tu in (((), 'lbm', 's'), (('hold',), 'kg', 'min'), (('hold', 'divert'), 'lbm', 'h'))])
def asked(c, kind, ref, res, mu, tu):
    v, ins = results(c)
    h = {}
    for p in ('climb', 'cruise', *res):
        h[p] = c.array(f'{p}.m', N, 0.0, 1e6, 1e5), c.array(f'{p}.t', N, 0.0, 1e5, 50.0)
        ins[f'traj.{p}.timeseries.m'], ins[f'traj.{p}.timeseries.t'] = (h[p][0], mu), (h[p][1], tu)
    gross = c.real('gross', 1.0, 1e6, 1.5e5)
    r = c.real('ref', 1e-3, 1e6, 10.0) if ref else None
    made = []

    def make():
        f = Flight(reserve=res, units=(mu, tu))
        p = problem(ProblemType.SIZING, f, gross=gross)
        p.add_objective(kind, ref=r)
        made.append(f.goals)
        return om.Problem(p.model, reports=False)
    ins[M.Takeoff.ASCENT_DURATION] = (v['ascent'], 's')
    with GOAL_SCALE(c):
        o = c.group(None, make, ins)
    x, got = objective(c, o, made[-1])
    end_m, end_t = h['cruise'][0][N - 1] * MU[mu], h['cruise'][1][N - 1] * TU[tu]
    want = {'mass': h['cruise'][0][N - 1], 'time': h['cruise'][1][N - 1], 'hybrid_objective': -end_m / gross + end_t / 3600.0 / 5.0,
            'fuel_burned': v['fuel'], 'fuel': v['total'] / 10000 + v['ascent'] / 30.0}[kind]
    c.equal('what is minimised', x, want)
    if ref:
        c.equal('scaled as asked', got, r)
    elif kind == 'mass':
        c.true('mass left at the end is made large', got < 0)
    else:
        c.true('made small', got is None or got > 0)


class GOAL_SCALE:
    """OpenMDAO turns the scale of an objective into its own representation; the check reads the scale where it is handed over"""

    def __init__(self, c):
        self.c = c

    def __enter__(self):
        self.old = om.Group.add_objective
        if self.c.sym:
            om.Group.add_objective = lambda *a, **k: None

    def __exit__(self, *a):
        om.Group.add_objective = self.old


@scenario('C27', functions=['AviaryProblem.add_objective'],
          params=[dict(kind=k, ref=r, how=w) for k in ProblemType for r in (False, True) for w in ('single', 'composite')])
def inferred(c, kind, ref, how):
    """without an objective the kind of problem decides"""
    v, ins = results(c)
    r = c.real('ref', 1e-3, 1e6, 10.0) if ref else None
    made = []

    def make():
        f = Flight()
        p = problem(kind, f)
        if how == 'single':
            p.add_objective(ref=r)
        else:
            p.add_composite_objective(ref=r)
        made.append(f.goals)
        return om.Problem(p.model, reports=False)
    ins[M.Takeoff.ASCENT_DURATION] = (v['ascent'], 's')
    if kind is ProblemType.MULTI_MISSION:
        try:
            make()
            ok = False
        except ValueError:
            ok = True
        c.true('no objective is made up for several missions', ok)
        return
    with GOAL_SCALE(c):
        o = c.group(None, make, ins)
    x, got = objective(c, o, made[-1])
    far = kind is ProblemType.OFF_DESIGN_MAX_RANGE
    c.equal('what is minimised', x, -v['range'] / 1000 + v['ascent'] / 30.0 if far else v['total'] / 10000 + v['ascent'] / 30.0)
    c.true('made small', got is None or got > 0)
    if ref:
        c.equal('scaled as asked', got, r)


@scenario('C27', functions=['AviaryProblem.add_objective', 'AviaryProblem.add_composite_objective'], total=True)
def refused(c):
    bad = [lambda p: p.add_objective('cost'), lambda p: p.add_objective(''), lambda p: p.add_composite_objective('one'),
           lambda p: p.add_composite_objective(('one', 2.0)), lambda p: p.add_composite_objective(('three', M.FUEL_MASS)),
           lambda p: p.add_composite_objective(('three', M.FUEL_MASS, 1.0)), lambda p: p.add_composite_objective((1.0, M.FUEL_MASS)),
           lambda p: p.add_composite_objective(('fuel', 1.0), 3.0), lambda p: p.add_composite_objective(('one', 'fuel', 1.0), ('one',)),
           lambda p: p.add_composite_objective(('one', 'fuel', 1.0, 2.0))]
    for i, f in enumerate(bad):
        p = problem(ProblemType.MULTI_MISSION if i >= 2 else ProblemType.SIZING, Flight() if i < 2 else Logged(),
                    {n: Flight() for n in ('one', 'two')} if i >= 2 else None)
        try:
            f(p)
            ok = False
        except ValueError:
            ok = True
        c.true(f'request {i} is refused', ok)


WORDS = {'fuel_burned': 'fuel', 'mass': 'mass', 'time': 'time', 'range': 'range', 'fuel': None, M.FUEL_MASS: 'fuel', M.TOTAL_FUEL_MASS: 'total'}


def meant(word, v):
    return v['total'] / 10000 + v['ascent'] / 30.0 if word == 'fuel' else v[WORDS[word]]


# each term: (mission or None, word, weighted)
COMP = {
    'one word': [(None, 'fuel_burned', False)], 'one mass': [(None, 'mass', False)], 'one weighted': [(None, 'time', True)],
    'one fuel': [(None, 'fuel', True)], 'one range': [(None, 'range', False)],
    'two words': [(None, 'fuel_burned', False), (None, 'time', False)], 'two weighted': [(None, 'mass', True), (None, 'time', True)],
    'mixed': [(None, M.TOTAL_FUEL_MASS, True), (None, 'range', False), (None, 'fuel', True)],
    'missions': [('one', M.FUEL_MASS, True), ('two', M.FUEL_MASS, True)], 'missions plain': [('one', 'fuel_burned', False), ('two', 'fuel_burned', False)],
    'missions mixed': [('one', 'time', True), ('two', 'mass', False), ('two', M.TOTAL_FUEL_MASS, True)],
    'missions fuel': [('one', 'fuel', True), ('two', 'fuel', True), ('one', 'range', True)], 'one of two': [('two', 'mass', False)],
}


@scenario('C27', functions=['AviaryProblem.add_composite_objective'], params=[dict(case=k, ref=r) for k in COMP for r in (False, True)])
def composite(c, case, ref):
    """a weighted mean of the quantities named"""
    terms = COMP[case]
    names = ('one', 'two') if terms[0][0] else ()
    v, ins = {}, {}
    for n in names or ('',):
        v[n or None], i = results(c, n)
        ins.update(i)
    if any(w == 'fuel' for _, w, _ in terms):
        for n in names or ('',):
            ins[(n + '.' if n else '') + M.Takeoff.ASCENT_DURATION] = (v[n or None]['ascent'], 's')
    w = [c.real(f'w{i}', 1e-3, 1e3, 2.0 + i) if weighted else None for i, (_, _, weighted) in enumerate(terms)]
    r = c.real('ref', 1e-3, 1e6, 10.0) if ref else None
    made = []

    def make():
        g = {n: Flight() for n in names}
        m = Logged() if names else Flight()
        p = problem(ProblemType.MULTI_MISSION if names else ProblemType.SIZING, m, g)
        args = []
        for (n, word, weighted), x in zip(terms, w):
            a = tuple(y for y in (n, word, x) if y is not None)
            args.append(a if len(a) > 1 else a[0])
        p.add_composite_objective(*args, ref=r)
        made.append(m.goals)
        return om.Problem(p.model, reports=False)
    with GOAL_SCALE(c):
        o = c.group(None, make, ins)
    x, got = objective(c, o, made[-1])
    ww = [1.0 if y is None else y for y in w]
    s, t = 0.0, 0.0
    for (n, word, _), y in zip(terms, ww):
        s = s + meant(word, v[n]) * y
        t = t + y
    c.equal('weighted mean', x * t, s)
    if ref:
        c.equal('scaled as asked', got, r)
    elif [t[1] for t in terms] == ['mass']:
        c.true('mass left at the end is made large', got < 0)
    else:
        c.true('made small', got is None or got > 0)


@scenario('C27', functions=['AviaryProblem.add_composite_objective_adv'],
          params=[dict(mw=a, ow=b, no=n) for a in (False, True) for b in (False, True) for n in (1, 2)])
def fleet(c, mw, ow, no):
    """missions weighted by how often they are flown, results by what they matter"""
    names, outs = ['one', 'two'], [M.FUEL_MASS, M.FINAL_TIME][:no]
    v, ins = {}, {}
    for n in names:
        v[n], i = results(c, n)
        ins.update(i)
    a = [c.real(f'm{i}', 1e-2, 1e2, 2.0 - i) for i in range(2)] if mw else None
    b = [c.real(f'o{i}', 1e-2, 1e2, 1.0 + i) for i in range(no)] if ow else None
    r = c.real('ref', 1e-3, 1e6, 10.0)
    made = []

    def make():
        m = Logged()
        p = problem(ProblemType.MULTI_MISSION, m, {n: Flight() for n in names})
        p.add_composite_objective_adv(names, outs, mission_weights=a, output_weights=b, ref=r)
        made.append(m.goals)
        return om.Problem(p.model, reports=False)
    with GOAL_SCALE(c):
        o = c.group(None, make, ins)
    x, got = objective(c, o, made[-1])
    aa, bb = a or [1.0, 1.0], b or [1.0] * no
    s = 0.0
    for n, y in zip(names, aa):
        for q, z in zip(('fuel', 'time'), bb):
            s = s + v[n][q] * y * z
    c.equal('weighted mean', x * (sum(aa[1:], aa[0]) * sum(bb[1:], bb[0])), s)
    c.equal('scaled as asked', got, r)


class Setter(AviaryProblem):
    def set_val(self, name, val=None, units=None, **kw):
        self.sets.append((name, val, units))


@scenario('C27', functions=['AviaryProblem.set_design_range'], params=[dict(n=k, only=o) for k in (1, 2, 3) for o in (False, True)])
def design_range(c, n, only):
    """the aircraft is designed for the longest of the missions named"""
    p = Setter.__new__(Setter)
    p.sets = []
    units = ['nmi', 'km', 'mi'][:n] + ['nmi'] * only
    size = {'nmi': 1.0, 'km': 1.0 / KM, 'mi': 1.609344 / KM}
    r = [c.real(f'r{i}', 1.0, 2e4, 1000.0 + i) for i in range(len(units))]

    class G:
        pass
    p.aviary_groups_dict = {}
    for i, u in enumerate(units):
        g = G()
        g.post_mission_info = {'target_range': (r[i], u)}
        p.aviary_groups_dict[f'm{i}'] = g
    p.set_design_range([f'm{i}' for i in range(n)], 'Aircraft1.Range')
    c.true('one range set', len(p.sets) == 1 and p.sets[0][0] == 'Aircraft1.Range')
    got = p.sets[0][1] * size[{'NM': 'nmi'}.get(p.sets[0][2], p.sets[0][2])]
    far = [x * size[u] for x, u in zip(r, units)][:n]
    for i, x in enumerate(far):
        c.ge(f'no less than mission {i}', got, x * (1 - 1e-9))
    near = None
    for x in far:
        e = abs(got - x) <= 1e-6 * x
        near = e if near is None else near | e
    c.true('it is the range of one of them', near)


class Lever(SubsystemBuilder):
    def __init__(self, name, dv):
        super().__init__(name)
        self.dv = dv

    def get_design_vars(self, aviary_inputs=None):
        return self.dv


class Designed(AviaryGroup):
    """the real group; what it asks the optimizer to vary and hold is kept"""

    def __init__(self):
        super().__init__(verbosity=Verbosity.QUIET)
        self.configure = lambda: None
        self.varied, self.held = {}, {}

    def add_design_var(self, name, **kw):
        assert name not in self.varied
        self.varied[name] = kw

    def add_constraint(self, name, **kw):
        self.held[name] = kw


LAND = {'energy': EquationsOfMotion.ENERGY_STATE, 'twodof': EquationsOfMotion.TWO_DEGREES_OF_FREEDOM, 'solved': EquationsOfMotion.SOLVED_2DOF}


def big(x):
    return x is None or (not hasattr(x, 'op') and x > 1e15)


@scenario('C27', functions=['AviaryGroup.add_design_variables', 'AviaryProblem.add_design_variables'],
          params=[dict(eom=e, kind=k, rr=r) for e in LAND for k in ProblemType for r in ((True, False) if k is ProblemType.SIZING else (True,))])
def design(c, eom, kind, rr):
    """which masses are free, and which equations close the problem"""
    gross = c.real('gross', 1.0, 1e6, 1.5e5)
    m, d = c.real('m', 1.0, 1e6, 1.4e5), c.real('d', 1.0, 1e6, 1.5e5)
    lo, hi, ref = c.real('lo', -1e3, 0.0, -1.0), c.real('hi', 1.0, 1e3, 5.0), c.real('ref', 1e-2, 1e3, 2.0)
    made = []

    def make():
        g = Designed()
        g.mission_method, g.require_range_residual = LAND[eom], rr
        g.aviary_inputs = AviaryValues()
        g.aviary_inputs.set_val(A.Design.GROSS_MASS, gross, 'lbm')
        g.pre_mission_info = {'optimize_mass': kind is ProblemType.SIZING}
        g.subsystems = [Lever('a', {'a:x': {'lower': lo, 'upper': hi, 'ref': ref, 'units': 'm'}}), Lever('b', {}),
                        Lever('c', {'c:x': {'lower': lo}, 'c:y': {'upper': hi}})]
        p = AviaryProblem(problem_type=kind, verbosity=Verbosity.QUIET, reports=False)
        p.model = om.Group() if kind is ProblemType.MULTI_MISSION else g
        if kind is ProblemType.MULTI_MISSION:
            p.aviary_groups_dict = {'one': g}
            p.model.add_subsystem('one', g, promotes=['*'])
        p.add_design_variables()
        made.append(g)
        return om.Problem(p.model, reports=False)
    masses = (eom != 'solved') and kind in (ProblemType.SIZING, ProblemType.MULTI_MISSION)
    ins = {A.Design.GROSS_MASS: (d, 'lbm'), M.GROSS_MASS: (m, 'lbm')} if masses else {}
    if masses:
        o = c.group(None, make, ins)
    else:
        make()
    g = made[-1]
    for n, want in (('a:x', (lo, hi, ref)), ('c:x', (lo, None, None)), ('c:y', (None, hi, None))):
        k = g.varied.pop(n)
        for q, x in zip(('lower', 'upper', 'ref'), want):
            if x is None:
                c.true(f'{n} {q} open', big(k.get(q)))
            else:
                c.equal(f'{n} {q}', k[q], x)
    for n in (A.Design.GROSS_MASS, M.GROSS_MASS):
        k = g.varied.get(n)
        if k:
            c.true(f'{n} stays positive', k['lower'] > 0)
            c.true(f'{n} in lbm', k['units'] == 'lbm')

    def held(n):
        k = g.held[n]
        c.true(f'{n} is held to zero', k.get('equals') == 0 and k.get('lower') is None and k.get('upper') is None)
    resid = M.Constraints.RANGE_RESIDUAL
    if eom == 'solved':
        c.true('the design gross mass alone', set(g.varied) == ({A.Design.GROSS_MASS} if kind is ProblemType.SIZING else set()))
        return
    own = {M.Takeoff.ASCENT_T_INITIAL, M.Takeoff.ASCENT_DURATION, 'tau_gear', 'tau_flaps'} if eom == 'twodof' else set()
    free = {ProblemType.SIZING: {A.Design.GROSS_MASS, M.GROSS_MASS}, ProblemType.OFF_DESIGN_MIN_FUEL: {M.GROSS_MASS},
            ProblemType.OFF_DESIGN_MAX_RANGE: set(), ProblemType.MULTI_MISSION: {M.GROSS_MASS}}[kind]
    c.true('free masses', set(g.varied) - own == free)
    c.true('free take-off timings', own <= set(g.varied))
    if kind is ProblemType.OFF_DESIGN_MAX_RANGE or not rr:
        c.true('the range is free', resid not in g.held)
    else:
        held(resid)
    if kind is ProblemType.OFF_DESIGN_MIN_FUEL:
        c.equal('no more than the design gross mass', g.varied[M.GROSS_MASS]['upper'], gross)
    if kind is ProblemType.SIZING:
        c.true('design and mission mass are one', ((o['gtow_constraint.GTOW'] == 0) == (d == m)) if c.sym else
               (abs(o['gtow_constraint.GTOW']) < 1e-12) == (abs(d - m) < 1e-12 * d))
        k = [v for v in c.model.get_constraints(recurse=True).values() if v['source'].endswith('gtow_constraint.GTOW')]
        c.true('... and held so', len(k) == 1 and k[0]['equals'] == 0)
    if kind is ProblemType.MULTI_MISSION:
        x = o['gross_mass_resid']
        x = x.reshape(-1)[0]
        c.equal('spare mass', x, (d - m) * LB)
        k = g.held['gross_mass_resid']
        c.true('no mission is heavier than the design', k.get('lower') == 0 and k.get('equals') is None and big(k.get('upper')))
        c.true('scale keeps its sense', k['ref'] > 0)
    if own:
        for n, h in (('h_fit.h_init_gear', 50.0), ('h_fit.h_init_flaps', 400.0)):
            c.true(f'{n} at its height', g.held[n]['equals'] == h and g.held[n]['units'] == 'ft')

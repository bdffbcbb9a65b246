"""C25: further missions of a sized aircraft.  C26: results saved and read back."""
import contextlib
import os
import tempfile
import warnings
from copy import deepcopy
from enum import Enum
from pathlib import Path
from types import SimpleNamespace

import numpy as np

import aviary.core.aviary_problem as ap
import aviary.utils.aviary_values as av_mod
import aviary.utils.named_values as nv_mod
import aviary.utils.preprocessors as pp
import aviary.utils.utils as ut
from aviary.core.aviary_problem import AviaryProblem
from aviary.utils.aviary_values import AviaryValues
from aviary.variable_info.enums import EquationsOfMotion, FlapType, GASPEngineType, LegacyCode, ProblemType, Verbosity
from aviary.variable_info.variable_meta_data import CoreMetaData
from aviary.variable_info.variables import Aircraft as A, Mission as M, Settings
from sx import shim
from sx.sarr import sarray
from sx.scen import scenario

shim.install(ap, av_mod, nv_mod, ut, pp)
shim.install_float(ap)
shim.install_int(ap)
CP = A.CrewPayload
KM = 1.852


class Off:
    """stands where the further mission is built and flown; keeps what it is given"""

    made = []

    def __init__(self, name=None, **kw):
        self.name = name
        self.model = SimpleNamespace(configurator=None, add_design_var=lambda n, **k: self.dvs.append((n, k)))
        self.dvs, self.calls, self.subs = [], [], []
        self.options = kw
        Off.made.append(self)

    def load_inputs(self, inputs, phase_info=None, **kw):
        self.aviary_inputs, self.phases, self.loaded = inputs, phase_info, kw

    def load_external_subsystems(self, subs=(), **kw):
        self.subs += list(subs)

    def __getattr__(self, k):
        if k.startswith('_'):
            raise AttributeError(k)
        return lambda *a, **kw: self.calls.append((k, a, kw))


class Sized(AviaryProblem):
    """a sized aircraft whose results are given"""

    model = None
    result = SimpleNamespace(success=True)
    problem_type = ProblemType.SIZING
    meta_data = CoreMetaData
    driver = SimpleNamespace(options={'optimizer': 'SLSQP'}, opt_settings={'maxiter': 5})

    def __new__(cls, *a, **k):
        return object.__new__(cls)

    def __init__(self, values, inputs, phases, group=None):
        self.values = values
        self.aviary_inputs = inputs
        self._name = 'sized'
        self.verbosity = Verbosity.QUIET
        self.model = SimpleNamespace(aviary_inputs=inputs, mission_info={k: v for k, v in phases.items() if k not in ('pre_mission', 'post_mission')},
                                     pre_mission_info=phases.get('pre_mission', {}), post_mission_info=phases.get('post_mission', {}),
                                     external_subsystems=['own subsystem'], engine_models=['own engine'], configurator=SimpleNamespace())

    def get_val(self, name, units=None, **kw):
        v, u = self.values[name]
        v = conv(v, u, units)
        return sarray([v]) if hasattr(v, 'op') else np.array([v])

    def get_reports_dir(self, force=False):
        return 'nowhere'

    def run_off_design_mission(self, *a, **kw):
        if not hasattr(self, 'asked'):
            return AviaryProblem.run_off_design_mission(self, *a, **kw)
        kw = dict(kw, problem_type=kw.get('problem_type') or a[0])
        kw['phase_info'] = deepcopy(kw.get('phase_info'))
        self.asked.append(kw)
        return self.flown[len(self.asked) - 1]


SIZE = {'lbm': 1.0, 'kg': 1 / 0.45359237, 'NM': 1.0, 'nmi': 1.0, 'km': 1 / KM}


def conv(v, a, b):
    return v if b is None or SIZE[a] == SIZE[b] else v * (SIZE[a] / SIZE[b])


@contextlib.contextmanager
def stand_in():
    old = ap.AviaryProblem, ap.write_data_file
    files = []
    ap.AviaryProblem, ap.write_data_file = Off, lambda *a, **k: files.append(a)
    Off.made = []
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            yield files
    finally:
        ap.AviaryProblem, ap.write_data_file = old


def phases(c, cruise='cruise', bounds=True, rng=None):
    lo, hi = c.real('lo', 0.0, 500.0, 20.0), c.real('hi', 500.0, 2000.0, 700.0)
    d = {'climb': {'user_options': {'time_duration_bounds': ((5.0, 50.0), 'min')}},
         cruise: {'user_options': {'time_duration_bounds': ((lo, hi), 'min')} if bounds else {}},
         'pre_mission': {'include_takeoff': False}, 'post_mission': {'include_landing': False, 'target_range': (rng if rng is not None else 1500.0, 'nmi')}}
    return d, lo, hi


def inputs(c, method, pax=(10, 20, 70), mission=None):
    av = AviaryValues()
    av.set_val(Settings.MASS_METHOD, LegacyCode.FLOPS if method == 'FLOPS' else LegacyCode.GASP)
    av.set_val(Settings.EQUATIONS_OF_MOTION, EquationsOfMotion.ENERGY_STATE)
    av.set_val(Settings.VERBOSITY, Verbosity.QUIET)
    av.set_val(Settings.PROBLEM_TYPE, ProblemType.SIZING)
    av.set_val(A.Design.GROSS_MASS, c.real('guess', 1e3, 1e6, 1.7e5), 'lbm')
    av.set_val(CP.MASS_PER_PASSENGER, 180.0, 'lbm')
    av.set_val(CP.BAGGAGE_MASS_PER_PASSENGER, 40.0, 'lbm')
    tot = sum(pax)
    av.set_val(CP.Design.NUM_PASSENGERS, tot)
    m = mission or pax
    av.set_val(CP.NUM_PASSENGERS, sum(m))
    if method == 'FLOPS':
        for i, (d, f) in enumerate(((CP.Design.NUM_FIRST_CLASS, CP.NUM_FIRST_CLASS), (CP.Design.NUM_BUSINESS_CLASS, CP.NUM_BUSINESS_CLASS),
                                    (CP.Design.NUM_ECONOMY_CLASS, CP.NUM_ECONOMY_CLASS))):
            av.set_val(d, pax[i])
            av.set_val(f, m[i])
        av.set_val(CP.WING_CARGO, c.real('wing', 0.0, 5e4, 1e3), 'lbm')
        av.set_val(CP.MISC_CARGO, c.real('misc', 0.0, 5e4, 2e3), 'lbm')
    else:
        av.set_val(CP.CARGO_MASS, c.real('cargo', 0.0, 5e4, 2e3), 'lbm')
    return av


def values(c):
    g = c.real('sized gross', 1e3, 1e6, 1.6e5)
    return {A.Design.GROSS_MASS: (g, 'lbm'), M.GROSS_MASS: (g, 'lbm'), M.RANGE: (c.real('sized range', 10.0, 1e4, 1500.0), 'NM')}, g


def flat(av):
    return {n: v for n, v in av}


def unchanged(c, what, a, b):
    c.true(f'{what} still has its entries', list(a) == list(b))
    for k in a:
        if isinstance(a[k], dict):
            unchanged(c, f'{what} {k}', a[k], b[k])
        else:
            same(c, f'{what} {k} unchanged', a[k], b[k])


def same(c, lab, x, y):
    if isinstance(x, (tuple, list)):
        c.true(lab, type(x) is type(y) and len(x) == len(y))
        for p, q in zip(x, y):
            same(c, lab, p, q)
    elif isinstance(x, (int, float)) and not isinstance(x, bool) or hasattr(x, 'op'):
        c.equal(lab, y, x)
    else:
        c.true(lab, x is y or x == y)


PAX = {'none': {}, 'total': {'num_pax': 40}, 'zero': {'num_pax': 0}, 'classes': {'num_first_class': 1, 'num_business': 0, 'num_economy': 30},
       'all zero': {'num_first_class': 0, 'num_business': 0, 'num_economy': 0}}


@scenario('C25', functions=['AviaryProblem.run_off_design_mission'],
          params=[dict(kind=k, method=m, pax=p, given=g, own=o) for k in ('off_design_min_fuel', 'off_design_max_range') for m in ('FLOPS', 'GASP')
                  for p in PAX if m == 'FLOPS' or 'classes' != p != 'all zero' for g in (False, True) for o in (False, True)])
def further(c, kind, method, pax, given, own):
    """the same aircraft on another mission: what is asked for, and the sized aircraft otherwise"""
    rng0 = c.real('rng0', 10.0, 1e4, 1400.0)
    desc, lo, hi = phases(c, rng=rng0)
    av = inputs(c, method)
    val, gross = values(c)
    p = Sized(val, av, desc)
    before_in, before = flat(deepcopy(av)), deepcopy({k: desc[k] for k in desc})
    rng, gm, wing, misc, cargo = (c.real(n, lo_, hi_, d) for n, lo_, hi_, d in
                                  (('range', 10.0, 1e4, 900.0), ('gm', 1e3, 1e6, 1.4e5), ('w', 0.0, 5e4, 300.0), ('m', 0.0, 5e4, 400.0), ('cg', 0.0, 5e4, 500.0)))
    kw = dict(PAX[pax])
    if given:
        kw.update(mission_gross_mass=gm, **({'mission_range': rng} if 'fuel' in kind else {}),
                  **({'wing_cargo': wing, 'misc_cargo': misc} if method == 'FLOPS' else {'cargo_mass': cargo}))
    theirs = deepcopy(desc) if own else None
    theirs_before = deepcopy(theirs)
    with stand_in():
        got = p.run_off_design_mission(kind, phase_info=theirs, **kw)
    o = got
    c.true('one new problem', len(Off.made) == 1 and o is Off.made[0])
    unchanged(c, 'inputs of the aircraft', before_in, flat(av))
    unchanged(c, 'mission of the aircraft', before, {**p.model.mission_info, 'pre_mission': p.model.pre_mission_info, 'post_mission': p.model.post_mission_info})
    if own:
        unchanged(c, 'mission handed in', theirs_before, theirs)
    i = o.aviary_inputs
    c.true('kind of problem', i.get_val(Settings.PROBLEM_TYPE) == ProblemType(kind))
    c.equal('design gross mass is the sized one', i.get_val(A.Design.GROSS_MASS, 'lbm'), gross)
    c.true('engines and subsystems come along', 'own engine' in o.subs and 'own subsystem' in o.subs)
    c.true('its variables are known', (o.loaded.get('meta_data') or o.options.get('meta_data')) is p.meta_data)
    want = rng if given else val[M.RANGE][0]
    if 'fuel' in kind:
        v, u = o.phases['post_mission']['target_range']
        c.equal('range to fly', v * SIZE[u], want)
        c.equal('range in the inputs', i.get_val(M.RANGE, 'NM'), want)
        c.true('gross mass is guessed', i.get_val(M.GROSS_MASS, 'lbm') > 0)
    else:
        c.equal('gross mass', i.get_val(M.GROSS_MASS, 'lbm'), gm if given else gross)
    # the load, as the aircraft's own rules read it
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        pp.preprocess_crewpayload(i, verbosity=Verbosity.QUIET)
    people = {'none': 100, 'total': 40, 'zero': 0, 'classes': 31, 'all zero': 0}[pax]
    c.true(f'{people} passengers', i.get_val(CP.NUM_PASSENGERS) == people)
    c.true('built for as many as before', i.get_val(CP.Design.NUM_PASSENGERS) == 100)
    if method == 'FLOPS':
        c.true('in classes', sum(i.get_val(k) for k in (CP.NUM_FIRST_CLASS, CP.NUM_BUSINESS_CLASS, CP.NUM_ECONOMY_CLASS)) == people)
        c.equal('wing cargo', i.get_val(CP.WING_CARGO, 'lbm'), wing if given else c.real('wing', 0.0, 5e4, 1e3))
        c.equal('other cargo', i.get_val(CP.MISC_CARGO, 'lbm'), misc if given else c.real('misc', 0.0, 5e4, 2e3))
    else:
        c.equal('cargo', i.get_val(CP.CARGO_MASS, 'lbm'), cargo if given else c.real('cargo', 0.0, 5e4, 2e3))
    order = [n for n, _, _ in o.calls]
    for n in ('check_and_preprocess_inputs', 'build_model', 'add_driver', 'add_design_variables', 'add_objective', 'setup', 'set_initial_guesses',
              'run_aviary_problem'):
        if n == 'build_model' and n not in order:
            n = 'link_phases'
        c.true(f'{n} once', order.count(n) == 1)
    c.true('flown last', order[-1] == 'run_aviary_problem' and order.index('setup') < order.index('set_initial_guesses'))
    c.true('nothing else varied', not o.dvs)


@scenario('C25', functions=['AviaryProblem.run_off_design_mission'], total=True)
def not_allowed(c):
    desc, _, _ = phases(c)
    for i, a in enumerate((dict(problem_type='sizing'), dict(problem_type=ProblemType.SIZING),
                           dict(problem_type='off_design_max_range', fill_cargo=True, fill_fuel=True), dict(problem_type='round trip'))):
        with stand_in():
            try:
                Sized(values(c)[0], inputs(c, 'FLOPS'), desc).run_off_design_mission(**a)
                ok = False
            except (UserWarning, ValueError):
                ok = True
        c.true(f'request {i} is refused', ok)


@scenario('C25', functions=['AviaryProblem.run_off_design_mission'],
          params=[dict(method=m, what=w) for m, ws in (('FLOPS', ('fuel', 'misc', 'wing', 'nothing', 'none', 'misc zero')), ('GASP', ('fuel', 'cargo', 'nothing', 'none'))) for w in ws])
def filled(c, method, what):
    """what is varied to fill the aircraft up can be varied, and from nothing"""
    desc, _, _ = phases(c)
    val, gross = values(c)
    p = Sized(val, inputs(c, method), desc)
    m = c.real('m', 1e-3, 5e4, 400.0)
    kw = {'fuel': dict(fill_fuel=True), 'misc': dict(fill_cargo=True, misc_cargo=m, wing_cargo=0.0), 'wing': dict(fill_cargo=True, wing_cargo=m),
          'cargo': dict(fill_cargo=True, cargo_mass=m), 'none': dict(fill_cargo=True),
          'nothing': dict(fill_cargo=True, **({'misc_cargo': 0.0, 'wing_cargo': 0.0} if method == 'FLOPS' else {'cargo_mass': 0.0})),
          'misc zero': dict(fill_cargo=True, misc_cargo=0.0, wing_cargo=m)}[what]
    with stand_in():
        o = p.run_off_design_mission('off_design_max_range', **kw)
    c.true('one more thing varied', len(o.dvs) == 1)
    n, k = o.dvs[0]
    one = lambda x: x[0] if isinstance(x, (list, np.ndarray)) else x  # noqa: E731
    lo, hi, ref = one(k['lower']), one(k['upper']), one(k['ref'])
    c.true('from nothing', lo == 0)
    c.true('upwards', hi > 0)
    c.true('with a scale', ref > 0)
    if what == 'fuel':
        c.true('the gross mass', n == M.GROSS_MASS)
        c.equal('up to the design', hi, gross)
    else:
        c.true('a load that is an input', n in ((CP.MISC_CARGO, CP.WING_CARGO) if method == 'FLOPS' else (CP.CARGO_MASS,)))
        if what in ('misc', 'wing', 'cargo', 'misc zero'):
            c.ge('at least what is there', hi, m)
            c.true('the load that is there', n == {'misc': CP.MISC_CARGO, 'wing': CP.WING_CARGO, 'misc zero': CP.WING_CARGO, 'cargo': CP.CARGO_MASS}[what])


@scenario('C25', functions=['AviaryProblem.run_payload_range'],
          params=[dict(method=m, tanks=t, cruise=q, ok=s) for m in ('FLOPS', 'GASP') for t in ('small', 'large') for q in ('cruise', 'flight') for s in ((True, True),)]
          + [dict(method='FLOPS', tanks='small', cruise='cruise', ok=s) for s in ((True, False), (False, True))], seconds=120)
def payload_range(c, method, tanks, cruise, ok):
    """the points of the diagram, and how their missions are loaded"""
    desc, lo, hi = phases(c, cruise=cruise)
    av = inputs(c, method)
    val, gross = values(c)
    op, cap, unus, pay, fuel = (c.real(n, l_, h_, d) for n, l_, h_, d in (('op', 1e3, 1e6, 9e4), ('cap', 1e2, 1e6, 4.5e4), ('unus', 0.0, 5e3, 300.0),
                                                                         ('pay', 1.0, 2e5, 3e4), ('fuel', 1.0, 5e5, 3e4)))
    usable = cap - unus
    c.assume(usable > 1.0)
    c.assume(gross > op + 1.0)
    if tanks == 'small':
        c.assume(op + usable < gross)
        c.assume(gross - op - usable <= pay)
    else:
        c.assume(op + usable >= gross)
    val.update({CP.TOTAL_PAYLOAD_MASS: (pay, 'lbm'), M.OPERATING_MASS: (op, 'lbm'), A.Fuel.MAX_CAPACITY_MASS: (cap, 'lbm'),
                A.Fuel.UNUSABLE_FUEL_MASS: (unus, 'lbm'), M.FUEL_MASS: (fuel, 'lbm')})
    p = Sized(val, av, desc)
    p.asked = []
    res = []
    for k in range(2):
        r = Sized({CP.TOTAL_PAYLOAD_MASS: (c.real(f'pay{k}', 0.0, 2e5, 1e4), 'lbm'), M.RANGE: (c.real(f'rng{k}', 0.0, 1e4, 2e3 + k), 'NM'),
                   M.FUEL_MASS: (c.real(f'fuel{k}', 0.0, 5e5, 4e4), 'lbm')}, None, {})
        r.result = SimpleNamespace(success=ok[k])
        res.append(r)
    p.flown = res
    before = deepcopy(desc)
    with stand_in() as files:
        out = p.run_payload_range()
    unchanged(c, 'mission of the aircraft', before, {**p.model.mission_info, 'pre_mission': p.model.pre_mission_info, 'post_mission': p.model.post_mission_info})
    n = 2 if tanks == 'small' else 1
    c.true('missions flown', len(p.asked) == n)
    for k in p.asked:
        c.true('flown for range', ProblemType(k['problem_type']) is ProblemType.OFF_DESIGN_MAX_RANGE)
        (a, b), u = k['phase_info'][cruise]['user_options']['time_duration_bounds']
        c.true('unit of the cruise', u == 'min')
        c.equal('shortest cruise', a, lo)
        if cruise == 'cruise':
            c.ge('longer cruise allowed', b, hi * 1.5)
        c.true('all parts of the mission', set(k['phase_info']) == set(desc))
    ferry = p.asked[-1]
    for k in ('num_first_class', 'num_business', 'num_economy', 'wing_cargo', 'misc_cargo') if method == 'FLOPS' else ('num_pax', 'cargo_mass'):
        c.true(f'ferry has no {k}', ferry.get(k) == 0)
    c.equal('ferry gross mass', ferry['mission_gross_mass'], op + usable if tanks == 'small' else gross)
    c.true('ferry carries all the fuel it can', ferry.get('fill_fuel') is True and not ferry.get('fill_cargo'))
    if tanks == 'small':
        k = p.asked[0]
        f = (gross - op - usable) / pay
        c.true('filled up with cargo', k.get('fill_cargo') is True and not k.get('fill_fuel'))
        c.true('at the gross mass it was sized for', k.get('mission_gross_mass') is None or abs(k['mission_gross_mass'] - gross) < 1e-6)
        if method == 'FLOPS':
            c.equal('wing cargo', k['wing_cargo'], c.real('wing', 0.0, 5e4, 1e3) * f)
            c.equal('other cargo', k['misc_cargo'], c.real('misc', 0.0, 5e4, 2e3) * f)
            people = (('num_first_class', 10), ('num_business', 20), ('num_economy', 70))
        else:
            c.equal('cargo', k['cargo_mass'], c.real('cargo', 0.0, 5e4, 2e3) * f)
            people = (('num_pax', 100),)
        for q, d in people:
            c.le(f'{q} fit', k[q], d * f * (1 + 1e-9))
            c.gt(f'{q} as many as fit', k[q], d * f * (1 - 1e-9) - 1) if hasattr(c, 'gt') else c.ge(f'{q} as many as fit', k[q], d * f - 1)
    if not all(ok):
        c.true('no diagram from failed missions', not files and not out)
        return
    c.true('one table', len(files) == 1)
    d = files[0][1]
    q3 = res[0] if tanks == 'small' else res[0]
    q4 = res[1] if tanks == 'small' else res[0]
    g = lambda r, n_: r.values[n_][0]  # noqa: E731
    for col, u, want in (('Payload', 'lbm', (pay, pay, g(q3, CP.TOTAL_PAYLOAD_MASS), g(q4, CP.TOTAL_PAYLOAD_MASS))),
                         ('Fuel', 'lbm', (0.0, fuel, g(q3, M.FUEL_MASS), g(q4, M.FUEL_MASS))),
                         ('Range', 'NM', (0.0, val[M.RANGE][0], g(q3, M.RANGE), g(q4, M.RANGE)))):
        x, xu = d.get_item(col)
        c.true(f'{col} in {u}', xu == u and len(x) == 4)
        for i in range(4):
            c.equal(f'{col} of point {i + 1}', x[i], want[i])
    c.true('problems returned', out[0] is q3 and out[1] is q4)


@scenario('C25', functions=['AviaryProblem.run_payload_range'], params=[dict(why=w, talk=t) for w in ('failed', 'multi', 'twodof') for t in range(4)])
def no_diagram(c, why, talk):
    desc, _, _ = phases(c)
    av = inputs(c, 'FLOPS')
    p = Sized(values(c)[0], av, desc)
    p.asked, p.flown = [], []
    if why == 'failed':
        p.result = SimpleNamespace(success=False)
    elif why == 'multi':
        p.problem_type = ProblemType.MULTI_MISSION
    else:
        av.set_val(Settings.EQUATIONS_OF_MOTION, EquationsOfMotion.TWO_DEGREES_OF_FREEDOM)
    with stand_in() as files:
        out = p.run_payload_range(verbosity=talk)
    c.true('no further missions', not p.asked and not files and not out)


# ------------------------------------------------------------------ C26
class Wire:
    """the text form: what a reader gets back is a deep copy in plain lists"""

    def __init__(self, real):
        self.real = real
        self.sent = None

    def plain(self, x):
        if isinstance(x, (list, tuple)):
            return [self.plain(y) for y in x]
        if x is None or isinstance(x, (str, bool, int, float)) or hasattr(x, 'op'):
            if isinstance(x, Enum):
                raise TypeError('an enumeration member has no text form')
            return x
        raise TypeError(f'{type(x)} has no text form')

    def dump(self, obj, fp, **kw):
        self.sent = self.plain(obj)

    def load(self, fp):
        return self.plain(self.sent)


def around(c, av, val, meta=CoreMetaData, verbosity=Verbosity.QUIET):
    p = Sized(val, av, {})
    p.get_val = lambda name, units=None, **kw: c.arr([conv(val[name][0], val[name][1], units)])
    old = ap.json
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'out.json')
        if c.sym:
            ap.json = Wire(old)
        try:
            p.save_results(f)
            return ap._read_sizing_json(f, meta, verbosity)
        finally:
            ap.json = old


class _Number(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or hasattr(x, 'op')


class Number(float, metaclass=_Number):
    """float, for values in lists: a symbolic number is one as it is"""

    def __new__(cls, x):
        return x if hasattr(x, 'op') else float(x)


MEMBERS = [(n, e) for n, m in CoreMetaData.items() for t in (m['types'] if isinstance(m['types'], tuple) else (m['types'],))
           if isinstance(t, type) and issubclass(t, Enum) for e in t]


@scenario('C26', functions=['AviaryProblem.save_results', '_read_sizing_json'], params=[dict(case=k) for k in ('scalar', 'list', 'mission', 'no design')])
def numbers(c, case):
    """every value comes back as it was, in its unit; masses that were sized come back sized"""
    av = AviaryValues()
    x = c.real('x', -1e6, 1e6, 12.5)
    n = c.sint('n', 0, 500)
    xs = [c.real(f'y{i}', 0.0, 1e3, 1.0 + i) for i in range(3)]
    sized, flown = c.real('sized', 1.0, 1e6, 1.6e5), c.real('flown', 1.0, 1e6, 1.4e5)
    val = {A.Design.GROSS_MASS: (sized, 'lbm'), M.GROSS_MASS: (flown, 'lbm')}
    av.set_val(A.Wing.SPAN, x, 'm')
    av.set_val(CP.NUM_PASSENGERS, n)
    meta = dict(CoreMetaData, **{A.Engine.MASS: dict(CoreMetaData[A.Engine.MASS], types=Number)})
    av.set_val(A.Engine.MASS, xs, 'kg', meta_data=meta)
    if case == 'list':
        av.set_val(A.Engine.NUM_ENGINES, [2, 4])
        av.set_val(A.Engine.DATA_FILE, [Path('a/b.csv'), Path('c.csv')])
        av.set_val(A.Engine.GENERATE_FLIGHT_IDLE, [True, False])
    if case == 'mission':
        av.set_val(M.GROSS_MASS, 1.0, 'kg')
    if case != 'no design':
        av.set_val(A.Design.GROSS_MASS, 2.0, 'kg')
    before = flat(deepcopy(av))
    got = around(c, av, val, meta)
    unchanged(c, 'inputs', before, flat(av))
    g = flat(got)
    c.true('same names', set(g) == set(before) | {A.Design.GROSS_MASS})
    for k, (v, u) in before.items():
        if k in (A.Design.GROSS_MASS, M.GROSS_MASS):
            continue
        w, wu = g[k]
        c.true(f'{k} unit', wu == u)
        if k == A.Engine.DATA_FILE:
            c.true(k, [str(q) for q in w] == [str(q) for q in v])
        else:
            same(c, k, v, w)
    c.equal('design gross mass', got.get_val(A.Design.GROSS_MASS, 'lbm'), sized)
    if case == 'mission':
        c.equal('mission gross mass', got.get_val(M.GROSS_MASS, 'lbm'), flown)


@scenario('C26', functions=['AviaryProblem.save_results', '_read_sizing_json'], params=[dict(form=f) for f in ('single', 'list')])
def choices(c, form):
    """choices among named alternatives come back as the same choice"""
    sized = c.real('sized', 1.0, 1e6, 1.6e5)
    val = {A.Design.GROSS_MASS: (sized, 'lbm'), M.GROSS_MASS: (sized, 'lbm')}
    for n, e in MEMBERS:
        v = e if form == 'single' else [e, list(type(e))[0]]
        if form == 'list' and not CoreMetaData[n].get('multivalue'):
            continue
        av = AviaryValues()
        av.set_val(n, v)
        got = around(c, av, val)
        c.true(f'{n} {e} kept by the aircraft', av.get_val(n) == v and all(type(a) is type(b) for a, b in zip(_l(av.get_val(n)), _l(v))))
        c.true(f'{n} {e}', n in got and got.get_val(n) == v)


def _l(v):
    return v if isinstance(v, list) else [v]


@scenario('C26', functions=['AviaryProblem.save_results', '_read_sizing_json'])
def odd(c):
    """empty lists, arrays, texts and unknown names"""
    sized = c.real('sized', 1.0, 1e6, 1.6e5)
    val = {A.Design.GROSS_MASS: (sized, 'lbm'), M.GROSS_MASS: (sized, 'lbm')}
    av = AviaryValues()
    av.set_val(A.Engine.NUM_ENGINES, [])
    av.set_val(A.Engine.MASS, np.array([1.5, 2.5]), 'lbm')
    av.set_val(A.Engine.INTERPOLATION_METHOD, 'slinear')
    av.set_val('own:thing', 3.0, 'm', meta_data={'own:thing': {'units': 'm', 'types': float, 'multivalue': False, 'default_value': 0.0}})
    got = around(c, av, val)
    c.true('empty list', list(got.get_val(A.Engine.NUM_ENGINES)) == [])
    c.true('array', list(got.get_val(A.Engine.MASS, 'lbm')) == [1.5, 2.5])
    c.true('text', got.get_val(A.Engine.INTERPOLATION_METHOD) == 'slinear')
    c.true('a name that is not known is left out', 'own:thing' not in got)
    meta = dict(CoreMetaData, **{'own:thing': {'units': 'm', 'types': float, 'multivalue': False, 'default_value': 0.0}})
    c.true('... and kept where it is known', around(c, av, val, meta).get_val('own:thing', 'm') == 3.0)


@scenario('C26', functions=['reload_aviary_problem'])
def reload(c):
    """a saved aircraft is set up with its own values and variables"""
    gm = c.real('gm', 1.0, 1e6, 1.4e5)
    av = AviaryValues()
    av.set_val(M.GROSS_MASS, gm, 'lbm')
    av.set_val(A.Wing.SPAN, c.real('span', 1.0, 300.0, 110.0), 'ft')
    old = ap._read_sizing_json, ap.get_path
    meta = dict(CoreMetaData)
    seen = []
    ap._read_sizing_json = lambda f, m, v: seen.append((f, m)) or av
    ap.get_path = lambda f, *a, **k: f
    try:
        with stand_in():
            o = ap.reload_aviary_problem('saved.json', {'a': {}}, metadata=meta)
    finally:
        ap._read_sizing_json, ap.get_path = old
    c.true('read with its variables', seen[0][0] == 'saved.json' and seen[0][1] is meta)
    c.true('set up with its variables', (o.loaded.get('meta_data') or o.options.get('meta_data')) is meta)
    c.true('set up with its inputs and mission', o.aviary_inputs is av and o.phases == {'a': {}})
    sets = [(a, k) for n, a, k in o.calls if n == 'set_val' and a[0] == M.GROSS_MASS]
    c.true('gross mass set', len(sets) == 1)
    a, k = sets[0]
    v, u = (a[1] if len(a) > 1 else k['val']), (a[2] if len(a) > 2 else k['units'])
    c.equal('gross mass', conv(v, u, 'lbm'), gm)

"""C13: crew, passenger, cargo and fuel-capacity options come out of preprocessing consistent."""
import warnings

import numpy as np

import aviary.utils.aviary_values as av_mod
import aviary.utils.named_values as nv_mod
import aviary.utils.preprocessors as pp
import aviary.utils.utils as ut
from aviary.utils.aviary_values import AviaryValues
from aviary.variable_info.enums import AircraftTypes, LegacyCode, ProblemType, Verbosity
from aviary.variable_info.variables import Aircraft as A, Mission as M, Settings
from sx import shim
from sx.scen import scenario

shim.install(ut, av_mod, nv_mod, pp)

CP, CD = A.CrewPayload, A.CrewPayload.Design
CLASSES = [(CP.NUM_FIRST_CLASS, CD.NUM_FIRST_CLASS), (CP.NUM_BUSINESS_CLASS, CD.NUM_BUSINESS_CLASS),
           (CP.NUM_ECONOMY_CLASS, CD.NUM_ECONOMY_CLASS)]
MASS = dict(lo=0.0, hi=1e5)


def base(method, verbosity=Verbosity.QUIET):
    o = AviaryValues()
    o.set_val(Settings.MASS_METHOD, method)
    o.set_val(Settings.VERBOSITY, verbosity)
    o.set_val(A.Design.TYPE, AircraftTypes.TRANSPORT)
    return o


def quiet(f, *a):
    """run f; -> (result, warnings)"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        r = f(*a)
    return r, [str(x.message) for x in w]


def pax(c, o, given, prefix, design):
    """set the chosen counts; -> dict of what was set (total under 'n')"""
    out = {}
    names = [('n', CD.NUM_PASSENGERS if design else CP.NUM_PASSENGERS)] + [
        (k, (d if design else m)) for k, (m, d) in zip('fbe', CLASSES)]
    for k, name in names:
        if k in given:
            out[k] = c.sint(f'{prefix}{k}', 0, 1000)
            o.set_val(name, out[k])
    return out


def snapshot(o):
    return {k: v for k, v in o}


def expected(g):
    """total and classes that the given counts mean"""
    s = g.get('f', 0) + g.get('b', 0) + g.get('e', 0)
    return s


GIVEN = ['', 'n', 'e', 'fbe', 'nf', 'nfbe']


@scenario('C13', functions=['preprocess_crewpayload'],
          params=[dict(mission=m, design=d) for m in GIVEN for d in GIVEN], total=True, max_paths=400, seconds=120)
def passengers(c, mission, design):
    o = base(LegacyCode.FLOPS)
    gm, gd = pax(c, o, mission, 'm', False), pax(c, o, design, 'd', True)
    o.set_val(CP.NUM_FLIGHT_ATTENDANTS, 1)
    o.set_val(CP.NUM_GALLEY_CREW, 1)
    o.set_val(CP.NUM_FLIGHT_CREW, 2)
    o.set_val(CP.BAGGAGE_MASS_PER_PASSENGER, 40.0, 'lbm')
    o.set_val(A.HorizontalTail.VERTICAL_TAIL_MOUNT_LOCATION, 0.0)
    quiet(pp.preprocess_crewpayload, o)
    first = {n: o.get_val(n) for n in (CP.NUM_PASSENGERS, CD.NUM_PASSENGERS, *[x for p in CLASSES for x in p])}
    for label, tot, cls, g, other in (('mission', CP.NUM_PASSENGERS, [m for m, _ in CLASSES], gm, gd),
                                      ('design', CD.NUM_PASSENGERS, [d for _, d in CLASSES], gd, gm)):
        n, (f, b, e) = first[tot], [first[x] for x in cls]
        c.equal(f'{label}: classes add up to the total', f + b + e, n)
        src = g or other
        s = src.get('f', 0) + src.get('b', 0) + src.get('e', 0)
        if not src:
            c.equal(f'{label}: nothing given means nobody', n, 0)
        elif s == 0:
            c.equal(f'{label}: a lone total is kept', n, src.get('n', 0))
            c.equal(f'{label}: a lone total is economy', e, src.get('n', 0))
        else:
            c.equal(f'{label}: class counts decide the total', n, s)
            for k, v in zip('fbe', (f, b, e)):
                c.equal(f'{label}: class count {k} is kept', v, src.get(k, 0))
    quiet(pp.preprocess_crewpayload, o)
    for n, v in first.items():
        c.equal(f'preprocessing again changes nothing: {n}', o.get_val(n), v)


@scenario('C13', functions=['preprocess_crewpayload'], params=[dict(design=d, given=g) for d in (False, True) for g in ('nfbe', 'nf')],
          total=True, max_paths=200)
def overridden_total_is_announced(c, design, given):
    """a total the user gave is only replaced with a warning"""
    o = base(LegacyCode.FLOPS, Verbosity.BRIEF)
    g = pax(c, o, given, 'u', design)
    pax(c, o, 'nfbe', 'o', not design)
    s = g['f'] + g.get('b', 0) + g.get('e', 0)
    _, w = quiet(pp.preprocess_crewpayload, o)
    name = CD.NUM_PASSENGERS if design else CP.NUM_PASSENGERS
    word = 'aircraft design' if design else 'current mission'
    said = any('Sum of all passenger classes' in x and word in x for x in w)
    changed = not (o.get_val(name) == g['n'])
    c.true('a replaced total is announced', said == changed)


@scenario('C13', functions=['preprocess_crewpayload'], total=True, max_paths=400)
def crew(c):
    """crew rules: enough attendants, never fewer for more passengers"""
    n = c.sint('pax', 0, 1000)
    k = c.sint('more', 0, 200)
    got = []
    for x in (n, n + k):
        o = base(LegacyCode.FLOPS)
        o.set_val(CD.NUM_PASSENGERS, x)
        o.set_val(CP.NUM_CABIN_CREW, 7)
        quiet(pp.preprocess_crewpayload, o)
        fa, ga, fc = [o.get_val(v) for v in (CP.NUM_FLIGHT_ATTENDANTS, CP.NUM_GALLEY_CREW, CP.NUM_FLIGHT_CREW)]
        got.append((fa, ga, fc))
        c.equal('cabin crew is attendants and galley crew', o.get_val(CP.NUM_CABIN_CREW), fa + ga)
        c.le('an attendant for every 50 seats', x, 50 * fa)
        c.ge('at least two pilots', fc, 2)
        c.ge('no negative crew', ga, 0)
        quiet(pp.preprocess_crewpayload, o)
        for v, y in zip((CP.NUM_FLIGHT_ATTENDANTS, CP.NUM_GALLEY_CREW, CP.NUM_FLIGHT_CREW), (fa, ga, fc)):
            c.equal(f'again: {v}', o.get_val(v), y)
    for i, w in enumerate(('attendants', 'galley crew', 'flight crew')):
        c.le(f'more passengers never need fewer {w}', got[0][i], got[1][i])


@scenario('C13', functions=['preprocess_crewpayload'], total=True, max_paths=400)
def crew_given(c):
    """crew the user gave is kept; the cabin crew follows from it"""
    n = c.sint('pax', 0, 1000)
    fa, ga, fc, cc = [c.sint(x, -1, 40) for x in ('fa', 'ga', 'fc', 'cc')]
    o = base(LegacyCode.FLOPS)
    for k, v in ((CD.NUM_PASSENGERS, n), (CP.NUM_FLIGHT_ATTENDANTS, fa), (CP.NUM_GALLEY_CREW, ga), (CP.NUM_FLIGHT_CREW, fc),
                 (CP.NUM_CABIN_CREW, cc)):
        o.set_val(k, v)
    quiet(pp.preprocess_crewpayload, o)
    if fa >= 0:
        c.equal('attendants given', o.get_val(CP.NUM_FLIGHT_ATTENDANTS), fa)
    if ga >= 0:
        c.equal('galley crew given', o.get_val(CP.NUM_GALLEY_CREW), ga)
    c.equal('flight crew given', o.get_val(CP.NUM_FLIGHT_CREW), fc)
    c.ge('negative counts mean unknown', o.get_val(CP.NUM_FLIGHT_ATTENDANTS), 0)
    c.ge('negative galley count means unknown', o.get_val(CP.NUM_GALLEY_CREW), 0)
    c.equal('cabin crew', o.get_val(CP.NUM_CABIN_CREW), o.get_val(CP.NUM_FLIGHT_ATTENDANTS) + o.get_val(CP.NUM_GALLEY_CREW))


@scenario('C13', functions=['preprocess_crewpayload'], total=True, params=[dict(unit=u) for u in ('NM', 'km')])
def baggage(c, unit):
    r, k = c.real('range', 0.0, 1e4, 2000.0), c.real('more', 0.0, 5e3, 10.0)
    f = 1.0 if unit == 'NM' else 1.852
    got = []
    for x in (r, r + k):
        o = base(LegacyCode.FLOPS)
        o.set_val(CD.NUM_PASSENGERS, 100)
        o.set_val(A.Design.RANGE, x * f, unit)
        quiet(pp.preprocess_crewpayload, o)
        b = o.get_val(CP.BAGGAGE_MASS_PER_PASSENGER, 'lbm')
        c.ge('bags weigh at least 35 lb', b, 35.0)
        c.le('bags weigh at most 44 lb', b, 44.0)
        got.append(b)
    c.le('longer trips never carry lighter bags', *got)


CARGO = [('c', CP.CARGO_MASS), ('m', CD.MAX_CARGO_MASS), ('d', CD.CARGO_MASS)]


@scenario('C13', functions=['preprocess_crewpayload'], total=True, max_paths=200,
          params=[dict(given=g, sizing=s, unit=u) for g in ('', 'c', 'm', 'd', 'cm', 'cd', 'md', 'cmd') for s in (True, False)
                  for u in (('lbm',) if g != 'cmd' else ('lbm', 'kg'))])
def cargo(c, given, sizing, unit):
    o = base(LegacyCode.GASP, Verbosity.BRIEF)
    n = c.sint('pax', 0, 500)
    o.set_val(CD.NUM_PASSENGERS, n)
    o.set_val(CP.NUM_PASSENGERS, n)
    o.set_val(CP.MASS_PER_PASSENGER_WITH_BAGS, 200.0, 'lbm')
    o.set_val(Settings.PROBLEM_TYPE, ProblemType.SIZING if sizing else ProblemType.OFF_DESIGN_MIN_FUEL)
    g = {}
    f = 1.0 if unit == 'lbm' else 0.45359237
    for k, name in CARGO:
        if k in given:
            g[k] = c.real(k, 0.0, 1e5, {'c': 3000.0, 'm': 8000.0, 'd': 5000.0}[k])
            o.set_val(name, g[k] * f, unit)
    try:
        _, w = quiet(pp.preprocess_crewpayload, o)
    except UserWarning:
        bad = False
        if 'm' in g:
            bad = (g.get('c', 0.0) > g['m'] - 1e-6) | (g.get('d', 0.0) > g['m'] - 1e-6)
        elif 'd' in g and 'c' in g:
            bad = g['c'] > g['d'] - 1e-6
        c.true('refused only when more is loaded than fits', bad)
        return
    car, mx, des = [o.get_val(name, 'lbm') for _, name in CARGO]
    c.le('cargo fits', car, mx)
    c.le('design cargo fits', des, mx)
    if 'm' in g:
        c.equal('maximum cargo is kept', mx, g['m'])
    if 'd' in g:
        c.equal('design cargo is kept', des, g['d'])
    if 'c' in g:
        if sizing and given == 'cmd':
            c.equal('a sizing mission flies the design cargo', car, g['d'])
            said = [x for x in w if 'does not equal' in x]
            changed = not (g['c'] * f == g['d'] * f) if unit == 'lbm' else None
            if changed is not None:
                c.true('a replaced cargo is announced', bool(said) == changed)
        else:
            c.equal('cargo is kept', car, g['c'])
    else:
        c.equal('no cargo given, none flown', car, 0.0)
    if sizing and given in ('d', 'cm', 'cd', 'md'):
        # an assumed design cargo counts as given when a sizing mission is prepared again
        return
    quiet(pp.preprocess_crewpayload, o)
    for (k, name), v in zip(CARGO, (car, mx, des)):
        c.equal(f'again: {k}', o.get_val(name, 'lbm'), v)


@scenario('C13', functions=['preprocess_crewpayload'], total=True)
def passenger_mass(c):
    """mass per passenger with bags is the sum of its parts, in any units"""
    p, b = c.real('p', 0.0, 500.0, 165.0), c.real('b', 0.0, 200.0, 35.0)
    o = base(LegacyCode.GASP)
    o.set_val(CD.NUM_PASSENGERS, 100)
    o.set_val(CP.MASS_PER_PASSENGER, p * 0.45359237, 'kg')
    o.set_val(CP.BAGGAGE_MASS_PER_PASSENGER, b, 'lbm')
    quiet(pp.preprocess_crewpayload, o)
    c.equal('with bags', o.get_val(CP.MASS_PER_PASSENGER_WITH_BAGS, 'lbm'), p + b)


FUEL = [('w', A.Fuel.WING_FUEL_MASS_CAPACITY), ('f', A.Fuel.FUSELAGE_FUEL_MASS_CAPACITY), ('x', A.Fuel.AUXILIARY_FUEL_MASS_CAPACITY)]


@scenario('C13', functions=['preprocess_fuel_capacities'], total=True,
          params=[dict(given=g, method=m) for g in ('', 'w', 'wf', 'wfx', 't', 'tw', 'twf', 'twfx', 'tfx')
                  for m in ('FLOPS', 'GASP')])
def fuel_capacities(c, given, method):
    o = base(LegacyCode[method])
    g = {}
    for k, name in FUEL + [('t', A.Fuel.MAX_CAPACITY_MASS)]:
        if k in given:
            g[k] = c.real(k, 0.0, 1e5, 4e3 if k != 't' else 1.2e4)
            o.set_val(name, g[k], 'lbm')
    parts = [g[k] for k in 'wfx' if k in g]
    s = sum(parts) if parts else 0.0
    before = {k: v for k, v in o}
    try:
        quiet(pp.preprocess_fuel_capacities, o)
    except UserWarning:
        c.true('refused only for a contradictory total', 't' in g and (
            not (s == g['t']) if len(parts) == 3 else s > g['t']))
        return
    if method == 'FLOPS' and 't' in g:
        if len(parts) == 3:
            c.equal('tanks add up to the total', s, g['t'], rel=1e-12, atol=0.0)
        elif parts:
            c.le('tanks fit in the total', s, g['t'])
    for k, name in FUEL + [('t', A.Fuel.MAX_CAPACITY_MASS)]:
        if k in g:
            c.equal(f'{k} is kept', o.get_val(name, 'lbm'), g[k])
        elif name in o:
            c.equal(f'{k} set without being given is zero', o.get_val(name, 'lbm'), 0.0)
    first = {k: v for k, v in o}
    quiet(pp.preprocess_fuel_capacities, o)
    c.true('again: same names', sorted(first) == sorted(k for k, _ in o))

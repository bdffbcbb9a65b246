"""C22: what adjacent flight phases share is the same on both sides of their border."""
from types import SimpleNamespace

from openmdao.utils.mpi import FakeComm

import aviary.core.aviary_group as ag
from aviary.mission.problem_configurator import ProblemConfiguratorBase
from aviary.variable_info.enums import PhaseType
from sx import shim
from sx.rec import RecTraj
from sx.scen import scenario

from props.s_phases import CONF, OTHER, SIZE, make, same, val

shim.install(ag)

# (builder, options, quantities it carries along with its declared unit; those of an analytic kind start from a parameter of their own)
KINDS = {
    'energy': ('energy', {'mach_optimize': True, 'altitude_optimize': True}, {'mass': 'kg', 'distance': 'm', 'altitude': 'ft', 'mach': 'unitless', 'time': 's'}),
    'energy static': ('energy', {'mach_optimize': False, 'altitude_optimize': False}, {'mass': 'kg', 'distance': 'm', 'altitude': 'ft', 'mach': 'unitless', 'time': 's'}),
    'solved': ('solved', {'mach_optimize': True, 'altitude_optimize': True, 'rotation': True}, {'mass': 'lbm', 'distance': 'ft', 'altitude': 'ft', 'mach': 'unitless', 'time': 's'}),
    'roll': ('roll', {}, {'mass': 'lbm', 'distance': 'ft', 'time': 's'}),
    'flight': ('flight', {}, {'mass': 'lbm', 'distance': 'NM', 'altitude': 'ft', 'time': 's'}),
    'accel': ('accel', {}, {'mass': 'lbm', 'distance': 'NM', 'velocity': 'kn', 'time': 's'}),
    'taxi': ('takeoff', {'ground_roll': True}, {'mass': 'lbm', 'distance': 'ft', 'velocity': 'kn', 'time': 's'}),
    'rotation': ('takeoff', {'rotation': True}, {'mass': 'lbm', 'distance': 'ft', 'velocity': 'kn', 'time': 's', 'angle_of_attack': 'rad'}),
    'ascent': ('takeoff', {}, {'mass': 'lbm', 'distance': 'ft', 'velocity': 'kn', 'time': 's', 'angle_of_attack': 'rad', 'altitude': 'ft'}),
    'simple': ('simple', {'phase_type': PhaseType.SIMPLE_CRUISE}, {'mass': 'lbm', 'distance': None, 'altitude': None, 'mach': None, 'time': 's'}),
    'breguet': ('breguet', {'phase_type': PhaseType.BREGUET_RANGE}, {'mass': 'lbm', 'distance': None, 'altitude': None, 'mach': None, 'time': None}),
}
ANALYTIC = {'simple': ('distance',), 'breguet': ('distance', 'time')}
PAIRS = [('energy', 'energy'), ('energy static', 'energy'), ('energy', 'energy static'), ('energy static', 'energy static'), ('roll', 'solved'),
         ('solved', 'solved'), ('taxi', 'rotation'), ('rotation', 'ascent'), ('ascent', 'accel'), ('accel', 'flight'), ('flight', 'flight'),
         ('flight', 'simple'), ('flight', 'breguet'), ('simple', 'flight'), ('breguet', 'flight'), ('simple', 'simple'), ('breguet', 'breguet'),
         ('simple', 'breguet'), ('breguet', 'simple')]


def static(kind, q):
    return kind == 'energy static' and q in ('mach', 'altitude')


def control(kind, q):
    return q in ('mach', 'altitude') and kind.split()[0] in ('energy', 'solved') or q == 'angle_of_attack' and kind == 'ascent'


def pinnable(kind, q, end):
    unit = KINDS[kind][2].get(q)
    if q == 'time' or kind == 'breguet' or (kind == 'solved' and q == 'distance') or static(kind, q):
        return False
    return unit is not None


class Comm(FakeComm):
    def __init__(self, size):
        super().__init__()
        self.size = size


def trajectory(phases, reserve=(), size=1, parallel=False, conf=None):
    """the links the real code asks for between these phases: (name, kind, user options) each"""
    g = ag.AviaryGroup()
    g.phase_objects, rec, g.mission_info = [], {}, {}
    conf = conf or ProblemConfiguratorBase()
    for i, (name, kind, o) in enumerate(phases):
        b, ph = make(KINDS[kind][0], {**KINDS[kind][1], **o})
        b.name = ph.name = name
        opts = b.user_options.to_phase_info()
        CONF.get(KINDS[kind][0], CONF['flight'])().set_phase_options(SimpleNamespace(mission_info={name: {}}), name, i, ph, opts, Comm(size))
        g.phase_objects.append(b)
        rec[name] = ph
        g.mission_info[name] = {'user_options': opts, 'subsystem_options': {}}
    g.traj = RecTraj(rec, parallel)
    g.main_phases = [n for n, _, _ in phases if n not in reserve]
    g.reserve_phases = list(reserve)
    g.configurator = conf
    g.external_subsystems, g.subsystems, g.aviary_inputs = [], [], None
    g.pre_mission_info, g.post_mission_info = {'include_takeoff': False}, {'include_landing': False}
    g.verbosity = 0
    for n in ('_add_bus_variables_and_connect', '_connect_mission_bus_variables'):
        setattr(g, n, lambda: None)         # the subject of another property
    g.link_phases(verbosity=0, comm=Comm(size))
    return g.traj.links, rec


def between(links, a, b):
    return [x for x in links if x['phases'] == (a, b)]


def of(links, q):
    return [x for x in links if x['var_a'] in (q, 'initial_' + q) or x['var_b'] in (q, 'initial_' + q)]


def joined(c, t, q, x, kind1, kind2, ph2):
    """the link is one between the end of q and its start"""
    c.true(f'{t}{q}: from its end', x['var_a'] == q and x['locs'][0] == 'final')
    first = 'initial_' + q if q in ANALYTIC.get(kind2, ()) else q
    c.true(f'{t}{q}: to its start', x['var_b'] == first and x['locs'][1] == 'initial')
    if not x['connected']:
        for r in ('ref', 'adder', 'scaler'):
            if x.get(r) is not None and r == 'ref':
                c.true(f'{t}{q}: scaling is not zero', x[r] != 0)
    else:
        c.true(f'{t}{q}: not held as well', not (ph2.states.get(q, {}).get('fix_initial')))
        c.true(f'{t}{q}: no scaling of a direct connection', x.get('ref') is None)


@scenario('C22', functions=['AviaryGroup.link_phases', 'AviaryGroup._find_scaling', 'PhaseBuilder.get_linked_variables'], seconds=60,
          params=[dict(a=a, b=b, case=k) for a, b in PAIRS for k in ('free', 'parallel', 'pinned end', 'pinned start', 'pinned', 'constrained', 'direct')])
def linked(c, a, b, case):
    qa, qb = KINDS[a][2], KINDS[b][2]
    common = [q for q in qa if q in qb]
    oa, ob = {}, {}
    pins = {}
    for q in common:
        if case in ('pinned end', 'pinned') and pinnable(a, q, 'final'):
            u = OTHER[qa[q]]
            oa[f'{q}_final'] = (val(c, q + '.end', u, qa[q]), u)
            pins.setdefault(q, set()).add('end')
        if case in ('pinned start', 'pinned') and pinnable(b, q, 'initial'):
            u = OTHER[qb[q]]
            ob[f'{q}_initial'] = (oa[f'{q}_final'][0] if f'{q}_final' in oa and qa[q] == qb[q] else val(c, q + '.start', u, qb[q]), u)
            pins.setdefault(q, set()).add('start')
        if case in ('constrained', 'direct') and not static(b, q) and not (case == 'direct' and control(b, q)):
            key = 'time_initial_direct_link' if q == 'time' else f'{q}_direct_link'
            ob[key] = case == 'direct'
    if case == 'pinned start' and 'time' in common and qb['time'] and b not in ('solved', 'simple'):
        ob['time_initial'] = (c.real('time.start', 1.0, 600.0, 40.0), 'min')
        pins['time'] = {'start'}
    if b in ANALYTIC:
        for k in ('mach_direct_link', 'mass_direct_link', 'time_initial_direct_link', 'distance_direct_link'):
            if not (k in ('distance_direct_link', 'time_initial_direct_link') or k == 'mach_direct_link' and b == 'simple'):
                ob.pop(k, None)
    refs = {}
    if case == 'constrained':
        for q in common:
            if q == 'time' and qb[q] and b != 'solved':
                refs[q] = (c.real('time.ref', 20.0, 1e5, 900.0), 'min')
                ob['time_initial_ref'] = refs[q]
            elif q != 'time' and qa[q] and a not in ANALYTIC and not (a == 'solved' and q == 'distance') and not static(a, q):
                u = OTHER[qa[q]]
                refs[q] = (c.real(q + '.ref', 20.0, 1e6, 900.0), u)
                oa[f'{q}_ref'] = refs[q]
    size, parallel = (4, True) if case == 'parallel' else (1, False)
    links, rec = trajectory([('p1', a, oa), ('p2', b, ob)], size=size, parallel=parallel)
    ph2 = rec['p2']
    c.true('nothing else is linked', all(any(x in of(links, q) for q in common) or x['var_a'] == 'angle_of_attack' or x['var_a'] == 'mach' for x in links))
    for q in common:
        x = of(links, q)
        if static(a, q) and static(b, q):
            c.true(f'{q}: left as the user sets it', not x)
            continue
        if pins.get(q) == {'end', 'start'}:
            c.true(f'{q}: held on both sides, or joined once', len(x) <= 1 and not any(y['connected'] for y in x))
            if not control(a, q) and not control(b, q):
                c.true(f'{q}: not asked for twice', not x)
            continue
        c.true(f'{q}: joined once', len(x) == 1)
        if not x:
            continue
        x = x[0]
        joined(c, '', q, x, a, b, ph2)
        if 'start' in pins.get(q, ()) or parallel or static(b, q):
            c.true(f'{q}: by a condition', not x['connected'])
        if case == 'constrained' and (f'{q}_direct_link' in ob or q == 'time' and 'time_initial_direct_link' in ob):
            c.true(f'{q}: by a condition as asked', not x['connected'])
            if q in refs and not (q == 'time' and x.get('ref') is None):
                same(c, f'{q}: scaling', x['ref'], x['units'], *refs[q])
        if case == 'direct' and (f'{q}_direct_link' in ob or q == 'time' and 'time_initial_direct_link' in ob):
            c.true(f'{q}: directly as asked', bool(x['connected']))


@scenario('C22', functions=['AviaryGroup.link_phases', 'EnergyStateProblemConfigurator.configure_trajectory', 'EnergyStateProblemConfigurator.check_trajectory'],
          params=[dict(n=n, r=r) for n in (1, 2, 3) for r in (0, 1, 2)])
def reserve(c, n, r):
    """every phase follows the one before; the reserve phases follow each other only"""
    names = [f'm{i}' for i in range(n)] + [f'r{i}' for i in range(r)]
    vals = [c.real(f'h{i}', 0.0, 12.0, 1.0 + i) for i in range(n + r)]
    o = [{'altitude_final': (v, 'km')} for v in vals]
    links, rec = trajectory([(nm, 'energy', x) for nm, x in zip(names, o)], reserve=names[n:], conf=CONF['energy']())
    for i, (x, y) in enumerate(zip(names, names[1:])):
        got = between(links, x, y)
        want = 0 if y == 'r0' else 5
        c.true(f'{x}-{y}: linked iff both in one part', len(got) == want)
        for q in ('mass', 'distance', 'altitude', 'mach', 'time'):
            z = of(got, q)
            c.true(f'{x}-{y}: {q}', len(z) == (1 if want else 0))
            if z:
                joined(c, f'{x}-{y} ', q, z[0], 'energy', 'energy', rec[y])
    c.true('no other links', len(links) == 5 * (n - 1 + max(r - 1, 0)))

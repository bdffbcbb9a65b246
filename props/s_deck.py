"""C17: an engine deck keeps the performance it was given."""
import types
import warnings

import numpy as np

import aviary.subsystems.propulsion.engine_deck as ed
import aviary.subsystems.propulsion.engine_model as em
import aviary.utils.aviary_values as av_mod
import aviary.utils.named_values as nv_mod
import aviary.utils.utils as ut
from aviary.subsystems.propulsion.engine_deck import EngineDeck
from aviary.subsystems.propulsion.utils import EngineModelVariables as V
from aviary.utils.aviary_values import AviaryValues
from aviary.utils.named_values import NamedValues
from aviary.variable_info.enums import Verbosity
from aviary.variable_info.variables import Aircraft, Settings
from sx import shim
from sx.scen import scenario

shim.install(ut, av_mod, nv_mod, ed, em)
shim.install_math(ed)
E_ = Aircraft.Engine
LB = 0.45359237
LBF = 4.4482216152605

# (Mach, altitude): number of throttle settings, in sorted order
FULL = {(m, h): 3 for m in (0.0, 0.4, 0.8) for h in (0.0, 20000.0)}
PARTIAL = {(0.0, 0.0): 3, (0.0, 10000.0): 3, (0.4, 0.0): 3, (0.4, 20000.0): 3, (0.8, 10000.0): 3, (0.8, 20000.0): 3, (0.8, 30000.0): 3}
RAGGED = {(0.0, 0.0): 3, (0.0, 10000.0): 2, (0.4, 0.0): 2, (0.4, 20000.0): 4, (0.8, 10000.0): 2, (0.8, 20000.0): 4, (0.8, 30000.0): 5}
SINGLE = {(0.0, 0.0): 3, (0.0, 10000.0): 1, (0.4, 0.0): 1, (0.4, 20000.0): 2, (0.8, 10000.0): 1, (0.8, 20000.0): 1}
GRIDS = {'full': FULL, 'partial': PARTIAL, 'ragged': RAGGED, 'single': SINGLE}


def orders(n):
    return {'sorted': list(range(n)), 'reversed': list(range(n))[::-1], 'mixed': sorted(range(n), key=lambda i: (i * 7919 + 3) % (n * 13 + 1) % 97)}


def options(**kw):
    o = AviaryValues()
    o.set_val(Settings.VERBOSITY, Verbosity.QUIET)
    for k, (v, u) in {'IGNORE_NEGATIVE_THRUST': (False, 'unitless'), 'GEOPOTENTIAL_ALT': (False, 'unitless'),
                      'GENERATE_FLIGHT_IDLE': (False, 'unitless'), 'GLOBAL_THROTTLE': (True, 'unitless'), **kw}.items():
        o.set_val(getattr(E_, k), v, u)
    return o


def deck(o, cols, **kw):
    d = NamedValues()
    for name, (v, u) in cols.items():
        d.set_val(name, v, u)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return EngineDeck('deck', o, d, **kw)


def reorder(xs, perm):
    return [xs[i] for i in perm]


def rows(grid):
    return [(m, h, j, n) for (m, h), n in grid.items() for j in range(n)]


def table(c, grid, perm, thr, fuel=True, extra=()):
    rs = rows(grid)
    cols = {'mach': ([r[0] for r in rs], 'unitless'), 'altitude': ([r[1] for r in rs], 'ft'), 'throttle': (thr, 'unitless')}
    vals = {}
    for name, u, lo, hi, at in (('thrust', 'lbf', -5e4, 1e5, 5000.0), ('fuel_flow', 'lb/h', -1e4, 5e4, 2000.0)) + tuple(extra):
        vals[name] = [c.real(f'{name}{i}', lo, hi, at + 10 * i) for i in range(len(rs))]
        cols[name] = (vals[name], u)
    return rs, {k: (reorder(v, perm), u) for k, (v, u) in cols.items()}, vals


def get(d, var):
    return list(np.asarray(d.data[var], dtype=object).reshape(-1)) if not isinstance(d.data[var], list) else d.data[var]


@scenario('C17', functions=['EngineDeck._read_data', 'EngineDeck._sort_data', 'EngineDeck._count_data', 'EngineDeck._pack_data',
                            'EngineDeck._normalize_throttle'], total=True, max_paths=60,
          params=[dict(grid=g, order=o, sort=s, glob=gl) for g in GRIDS for o in ('sorted', 'reversed', 'mixed')
                  for s in ('mach', 'altitude') for gl in (True, False) if not (g == 'single' and not gl)])
def points_kept(c, grid, order, sort, glob):
    """every point of the table appears once, in order, whatever the order of the file; throttle runs from 0 to 1"""
    g = GRIDS[grid]
    n = sum(g.values())
    perm = orders(n)[order]
    rs0 = rows(g)
    steps = [c.real(f't{i}', 0.05, 30.0, 1.0 + 0.1 * i) for i in range(n)]
    base = c.real('t_base', 0.0, 20.0, 5.0)
    top = c.real('t_top', 200.0, 300.0, 250.0)
    lo, hi = base, top
    thr, k = [], 0
    for m, h, j, nn in rs0:
        thr.append(top if glob and (m, h) == (0.0, 10000.0 if (0.0, 10000.0) in g else 0.0) and j == nn - 1 else
                   base if j == 0 else thr[-1] + steps[k])
        k += 1
    rs, cols, vals = table(c, g, perm, thr)
    o = options(GLOBAL_THROTTLE=(glob, 'unitless'), INTERPOLATION_SORT=(sort, 'unitless'), REFERENCE_SLS_THRUST=(20000.0, 'lbf'))
    d = deck(o, cols)
    out = {v: get(d, v) for v in (V.MACH, V.ALTITUDE, V.THROTTLE, V.THRUST, V.FUEL_FLOW)}
    c.true('number of points', all(len(x) == n for x in out.values()))
    idx = sorted(range(n), key=lambda i: ((rs[i][1], rs[i][0]) if sort == 'altitude' else rs[i][:2]) + (rs[i][2],))
    for p, i in enumerate(idx):
        m, h, j, nn = rs[i]
        c.equal(f'Mach {p}', out[V.MACH][p], m)
        c.equal(f'altitude {p}', out[V.ALTITUDE][p], h)
        c.equal(f'thrust {p}', out[V.THRUST][p], vals['thrust'][i])
        c.equal(f'fuel flow {p}', out[V.FUEL_FLOW][p], vals['fuel_flow'][i])
        if not glob:
            first, last = thr[i - j], thr[i - j + nn - 1]
            c.equal(f'throttle {p}', out[V.THROTTLE][p], (thr[i] - first) / (last - first))
        else:
            c.equal(f'throttle {p}', out[V.THROTTLE][p], (thr[i] - lo) / (hi - lo))



@scenario('C17', functions=['EngineDeck._normalize_throttle'], total=True, max_paths=200,
          params=[dict(glob=g, kinds=k) for g in (True, False) for k in ('-0+', '0+', '-0', '--0+', '-0++', '0')])
def hybrid_throttle(c, glob, kinds):
    """negative settings run from -1 to 0, positive ones from 0 to 1, idle stays at 0"""
    rs, hyb = [], []
    for m in (0.0, 0.4):
        for h in (0.0, 20000.0):
            for t in (1.0, 2.0):
                vals = []
                for k, s in enumerate(kinds):
                    x = c.real(f'h{m},{h},{t},{k}', 0.05, 40.0, 2.0 + k) if s != '0' else 0.0
                    vals.append(x if s == '+' else (-x if s == '-' else x))
                neg = sum(s == '-' for s in kinds)
                # increasing
                for k in range(neg - 2, -1, -1):
                    vals[k] = vals[k + 1] + vals[k]
                for k in range(neg + 2, len(kinds)):
                    vals[k] = vals[k - 1] + vals[k]
                hyb += vals
                rs += [(m, h, t)] * len(kinds)
    n = len(rs)
    if glob and '-' in kinds:
        hyb[0] = -c.real('lowest', 100.0, 200.0, 150.0)
    if glob and '+' in kinds:
        hyb[-1] = c.real('highest', 100.0, 200.0, 150.0)
    cols = {'mach': ([r[0] for r in rs], 'unitless'), 'altitude': ([r[1] for r in rs], 'ft'), 'throttle': ([r[2] for r in rs], 'unitless'),
            'hybrid_throttle': (hyb, 'unitless'), 'thrust': ([c.real(f'f{i}', 0.0, 1e5, 100.0 + i) for i in range(n)], 'lbf')}
    o = options(GLOBAL_THROTTLE=(True, 'unitless'), GLOBAL_HYBRID_THROTTLE=(glob, 'unitless'), REFERENCE_SLS_THRUST=(20000.0, 'lbf'))
    out = get(deck(o, cols), V.HYBRID_THROTTLE)
    nk = len(kinds)
    for i in range(n):
        cell = i // (2 * nk) * 2 * nk
        grp = range(n) if glob else range(cell, cell + 2 * nk)
        x = hyb[i]
        if x == 0.0 if not isinstance(x, object.__class__) and kinds[i % nk] == '0' else False:
            c.equal(f'idle {i}', out[i], 0.0)
            continue
        s = kinds[i % nk]
        for q in grp:
            if kinds[q % nk] == s and s != '0':
                # the same scale for all settings of one sign, none beyond 1
                c.equal(f'scale {i},{q}', out[i] * hyb[q], out[q] * x)
        if s == '0':
            c.equal(f'idle {i}', out[i], 0.0)
        elif s == '-':
            c.ge(f'from -1 {i}', out[i], -1.0)
            c.lt(f'below 0 {i}', out[i], 0.0)
        else:
            c.le(f'to 1 {i}', out[i], 1.0)
            c.lt(f'above 0 {i}', 0.0, out[i])
    if glob:
        if '-' in kinds:
            c.equal('lowest', out[0], -1.0)
        if '+' in kinds:
            c.equal('highest', out[-1], 1.0)


def simple(c, n_thr=3, lo=100.0, cols=('thrust', 'fuel_flow'), grid=((0.0, 0.0), (0.0, 20000.0), (0.5, 0.0), (0.5, 20000.0)), at=5000.0):
    """a regular table; columns may be any numbers"""
    rs = [(m, h, j) for m, h in grid for j in range(n_thr)]
    v = {k: [c.real(f'{k}{i}', lo, 1e5, at + 13.0 * i) for i in range(len(rs))] for k in cols}
    u = {'thrust': 'lbf', 'fuel_flow': 'lb/h', 'gross_thrust': 'lbf', 'ram_drag': 'lbf', 'tailpipe_thrust': 'lbf', 'shaft_power': 'hp',
         'shaft_power_corrected': 'hp', 'nox_rate': 'lb/h', 't4': 'degR', 'electric_power': 'kW'}
    d = {'mach': ([r[0] for r in rs], 'unitless'), 'altitude': ([r[1] for r in rs], 'ft'), 'throttle': ([float(r[2]) for r in rs], 'unitless')}
    d.update({k: (v[k], u[k]) for k in cols})
    return rs, d, v


SLS = [(0.0, 0.0), (0.004, 5.0), (0.0, 20000.0), (0.5, 0.0), (0.5, 20000.0)]


@scenario('C17', functions=['EngineDeck._set_reference_thrust'], total=True, max_paths=300,
          params=[dict(given=g) for g in ('', 'ref', 'scale', 'target', 'ref+scale', 'ref+target', 'scale+target', 'ref+scale+target')])
def reference_thrust(c, given):
    """scaled thrust is always factor times reference; the reference is the largest sea-level static thrust if not stated"""
    rs, cols, v = simple(c, 3 if 'ref' in given else 2, grid=SLS[:1] + SLS[2:])
    o = options()
    ref = c.real('reference', 500.0, 1e5, 20000.0)
    fac = c.real('factor', 0.2, 4.0, 1.3)
    tgt = c.real('target', 500.0, 2e5, 26000.0)
    if 'ref' in given:
        o.set_val(E_.REFERENCE_SLS_THRUST, ref, 'lbf')
    if 'scale' in given:
        o.set_val(E_.SCALE_FACTOR, fac)
    if 'target' in given:
        o.set_val(E_.SCALED_SLS_THRUST, tgt * LBF, 'N')
    static = [t for r, t in zip(rs, v['thrust']) if r[0] < 0.01 and r[1] <= 10.0]
    if 'ref' not in given:
        ref = static[0]
        for t in static[1:]:
            ref = t if t > ref else ref
    try:
        d = deck(o, cols)
    except AttributeError:
        c.true('refused only if both are given', 'scale' in given and 'target' in given)
        c.lt('and disagree', 0.9e-4 * tgt, abs(tgt - ref * fac))
        return
    r = d.get_val(E_.REFERENCE_SLS_THRUST, 'lbf')
    f = d.get_val(E_.SCALE_FACTOR)
    t = d.get_val(E_.SCALED_SLS_THRUST, 'lbf')
    c.equal('reference', r, ref)
    c.equal('scaled is factor times reference', t, r * f)
    if 'scale' in given:
        c.equal('the stated factor is kept', f, fac)
        if 'target' in given:
            c.le('agreement', abs(tgt - ref * fac), 0.11 + 1.1e-4 * tgt + 1.1e-4 * ref * fac)
    elif 'target' in given:
        c.equal('the stated thrust is kept', t, tgt)
    else:
        c.equal('unscaled', f, 1.0)
    # the table itself is not scaled
    for i, (a, b) in enumerate(zip(get(d, V.THRUST), v['thrust'])):
        c.equal(f'table {i}', a, b)


@scenario('C17', functions=['EngineDeck._set_reference_thrust'], total=True, max_paths=300)
def no_static_point(c):
    """without a sea-level static point the reference cannot be made up"""
    rs, cols, v = simple(c, 2, grid=[(0.2, 0.0), (0.2, 20000.0), (0.5, 0.0), (0.5, 20000.0)])
    try:
        deck(options(), cols)
    except UserWarning:
        c.true('refused', True)
    except Exception as e:  # noqa: BLE001
        c.true(f'refused for the stated reason ({type(e).__name__})', 'static' in str(e))
    else:
        c.true('refused', False)


@scenario('C17', functions=['EngineDeck._check_data'], total=True, max_paths=300,
          params=[dict(have=h) for h in ('gross+ram', 'gross+ram+tail', 'thrust+gross', 'thrust+ram', 'thrust+tail', 'tail', 'thrust+gross+ram')])
def net_thrust(c, have):
    """net thrust is gross thrust less ram drag, plus tailpipe thrust; contradicting columns are refused, agreeing ones accepted"""
    names = {'gross': 'gross_thrust', 'ram': 'ram_drag', 'tail': 'tailpipe_thrust', 'thrust': 'thrust'}
    n = 2
    rs, cols, v = simple(c, n, cols=[names[k] for k in have.split('+')] + ['fuel_flow'],
                         grid=[(0.0, 0.0), (0.0, 20000.0)] if have == 'thrust+gross+ram' else SLS[:1] + SLS[2:])
    o = options(REFERENCE_SLS_THRUST=(20000.0, 'lbf'))
    if have == 'thrust+gross+ram':
        gap = [c.real(f'gap{i}', -50.0, 50.0, 0.1) for i in range(len(rs))]
        v['thrust'] = [g - r + x for g, r, x in zip(v['gross_thrust'], v['ram_drag'], gap)]
        cols['thrust'] = (v['thrust'], 'lbf')
        try:
            d = deck(o, cols)
        except UserWarning:
            worst = abs(gap[0])
            for x in gap[1:]:
                worst = abs(x) if abs(x) > worst else worst
            c.lt('refused only beyond the tolerance', 0.5, worst)
            return
        for i, x in enumerate(gap):
            c.le(f'accepted only within the tolerance {i}', abs(x), 2.0)
    else:
        d = deck(o, cols)
    got = get(d, V.THRUST)
    for i in range(len(rs)):
        if 'thrust' in v:
            e = v['thrust'][i]
        elif 'gross_thrust' in v:
            e = v['gross_thrust'][i] - v['ram_drag'][i]
        else:
            e = 0.0
        if 'tailpipe_thrust' in v:
            e = e + v['tailpipe_thrust'][i]
        c.equal(f'net thrust {i}', got[i], e)


REQ = ['mach', 'altitude', 'throttle', 'thrust']


@scenario('C17', functions=['EngineDeck._check_data'], total=True, params=[dict(missing=m) for m in REQ + ['none', 'custom']])
def required_columns(c, missing):
    """a table without a column it needs is refused, one with all of them accepted"""
    rs, cols, v = simple(c, 2, cols=['thrust', 'fuel_flow'])
    kw = {}
    if missing == 'custom':
        kw['required_variables'] = {V.MACH, V.ALTITUDE, V.THROTTLE, V.THRUST, V.NOX_RATE}
    elif missing != 'none':
        del cols[missing]
    o = options(REFERENCE_SLS_THRUST=(20000.0, 'lbf'))
    try:
        deck(o, cols, **kw)
        ok = True
    except UserWarning as e:
        ok = 'equired' not in str(e)
    c.true('accepted only when complete', ok == (missing == 'none'))


@scenario('C17', functions=['EngineDeck._check_data'], total=True, max_paths=600, params=[dict(ignore=b, rows=r) for b in (True, False) for r in (4, 6)])
def negative_thrust(c, ignore, rows):
    """points of negative thrust go if they are to be ignored, and only they do"""
    grid = [(0.0, 0.0), (0.0, 20000.0)]
    rs = [(m, h, j) for m, h in grid for j in range(rows // 2)]
    f = [c.real(f'f{i}', -1e3, 1e5, 100.0 + 10 * i) for i in range(rows)]
    w = [c.real(f'w{i}', 0.0, 1e5, 50.0 + 10 * i) for i in range(rows)]
    for m in range(2):
        c.assume(f[m * rows // 2 + rows // 2 - 1] > 0)          # each condition keeps a point
    cols = {'mach': ([r[0] for r in rs], 'unitless'), 'altitude': ([r[1] for r in rs], 'ft'), 'throttle': ([float(r[2]) for r in rs], 'unitless'),
            'thrust': (f, 'lbf'), 'fuel_flow': (w, 'lb/h')}
    o = options(IGNORE_NEGATIVE_THRUST=(ignore, 'unitless'), REFERENCE_SLS_THRUST=(20000.0, 'lbf'))
    keep = [i for i in range(rows) if not ignore or f[i] >= 0]
    if len({rs[i][2] for i in keep}) < 2:
        return                                                  # one throttle setting in the whole table has no range
    d = deck(o, cols)
    got = get(d, V.THRUST)
    c.equal('points left', len(got), len(keep))
    for p, i in enumerate(keep):
        c.equal(f'thrust {p}', got[p], f[i])
        c.equal(f'fuel flow {p}', get(d, V.FUEL_FLOW)[p], w[i])
        c.equal(f'altitude {p}', get(d, V.ALTITUDE)[p], rs[i][1])


@scenario('C17', functions=['EngineDeck._read_data'], total=True)
def units_and_names(c):
    """columns arrive under any of their names and in any of their units"""
    rs, cols, v = simple(c, 2)
    want = {V.THRUST: v['thrust'], V.FUEL_FLOW: v['fuel_flow']}
    base = {V.MACH: [r[0] for r in rs], V.ALTITUDE: [r[1] for r in rs]}
    for mach, alt, pc, fn, ff, fac in (('m', 'h', 'pc', 'net_thrust', 'fuel', 1.0), ('mn', 'alt', 'power_code', 'thrust', 'fuel_flow_rate', 1.0),
                                       ('mach_number', 'altitude', 'throttle', 'thrust', 'fuel_flow', 0.3048)):
        si = fac != 1.0
        cc = {mach: cols['mach'], alt: ([x * fac for x in cols['altitude'][0]], 'm' if si else 'ft'), pc: cols['throttle'],
              fn: ([x * LBF for x in v['thrust']], 'N') if si else cols['thrust'],
              ff: ([x * LB / 3600 for x in v['fuel_flow']], 'kg/s') if si else cols['fuel_flow']}
        d = deck(options(REFERENCE_SLS_THRUST=(20000.0, 'lbf')), cc)
        for k, e in list(want.items()) + list(base.items()):
            for i, (a, b) in enumerate(zip(get(d, k), e)):
                c.equal(f'{fn} {k.name} {i}', a, b, rel=1e-6)
    bad = dict(cols, thrust=(v['thrust'], 'kg'))
    try:
        deck(options(REFERENCE_SLS_THRUST=(20000.0, 'lbf')), bad)
        c.true('wrong units refused', False)
    except (TypeError, ValueError):
        c.true('wrong units refused', True)


@scenario('C17', functions=['EngineDeck._check_data'], total=True, params=[dict(verbosity=k) for k in range(3)])
def shaft_powers(c, verbosity):
    """of two shaft powers the uncorrected one is used, whatever is printed"""
    rs, cols, v = simple(c, 2, cols=['shaft_power', 'shaft_power_corrected', 'fuel_flow'])
    o = options()
    o.set_val(Settings.VERBOSITY, Verbosity(verbosity))
    d = deck(o, cols, required_variables={V.MACH, V.ALTITUDE, V.THROTTLE})
    c.true('one of them', V.SHAFT_POWER in d.engine_variables and V.SHAFT_POWER_CORRECTED not in d.engine_variables)
    for i, (a, b) in enumerate(zip(get(d, V.SHAFT_POWER), v['shaft_power'])):
        c.equal(f'shaft power {i}', a, b)


IDLE = {'regular': {(0.0, 0.0): 3, (0.0, 20000.0): 3, (0.5, 0.0): 3, (0.5, 20000.0): 3},
        'two': {(0.0, 0.0): 2, (0.0, 20000.0): 2, (0.5, 0.0): 2},
        'single': {(0.0, 0.0): 3, (0.0, 20000.0): 3, (0.5, 0.0): 1, (0.5, 20000.0): 3},
        'ragged': {(0.0, 0.0): 4, (0.0, 20000.0): 2, (0.5, 0.0): 3, (0.5, 20000.0): 4},
        'last_longest': {(0.0, 0.0): 2, (0.0, 20000.0): 2, (0.5, 0.0): 2, (0.5, 20000.0): 3}}


@scenario('C17', functions=['EngineDeck._generate_flight_idle'], total=True, max_paths=300, seconds=150,
          params=[dict(grid=g, glob=gl) for g in IDLE for gl in (True, False) if not (g == 'single' and not gl)])
def flight_idle(c, grid, glob):
    """one idle point per condition: a fraction of its greatest thrust, other values extrapolated but between the stated fractions
    of those at full throttle; no other point changes"""
    g = IDLE[grid]
    rs = rows(g)
    n = len(rs)
    f = [c.real(f'f{i}', 10.0, 1e4, 1000.0 + 10.0 * i) for i in range(n)]
    w = [c.real(f'w{i}', 10.0, 1e4, 300.0 + 7.0 * i) for i in range(n)]
    for i, r in enumerate(rs):
        if r[2] > 0:
            f[i] = f[i - 1] + f[i]
            w[i] = w[i - 1] + w[i]
    frac = c.real('idle_fraction', 0.0, 0.3, 0.05)
    lo = c.real('min_fraction', 0.0, 0.5, 0.08)
    hi = lo + c.real('max_over_min', 0.0, 0.5, 0.3)
    cols = {'mach': ([r[0] for r in rs], 'unitless'), 'altitude': ([r[1] for r in rs], 'ft'), 'throttle': ([20.0 + r[2] for r in rs], 'unitless'),
            'thrust': (f, 'lbf'), 'fuel_flow': (w, 'lb/h')}
    o = options(GENERATE_FLIGHT_IDLE=(True, 'unitless'), GLOBAL_THROTTLE=(glob, 'unitless'), REFERENCE_SLS_THRUST=(20000.0, 'lbf'),
                FLIGHT_IDLE_THRUST_FRACTION=(frac, 'unitless'), FLIGHT_IDLE_MIN_FRACTION=(lo, 'unitless'), FLIGHT_IDLE_MAX_FRACTION=(hi, 'unitless'))
    d = deck(o, cols)
    out = {k: get(d, k) for k in (V.MACH, V.ALTITUDE, V.THROTTLE, V.THRUST, V.FUEL_FLOW)}
    c.equal('number of points', len(out[V.THRUST]), n + len(g))
    if len(out[V.THRUST]) != n + len(g) or len(out[V.THROTTLE]) != n + len(g):
        return
    p = i = 0
    for (m, h), k in g.items():
        lab = f'M{m} h{h:.0f}'
        c.equal(f'{lab}: Mach', out[V.MACH][p:p + k + 1], m)
        c.equal(f'{lab}: altitude', out[V.ALTITUDE][p:p + k + 1], h)
        top, wtop = f[i + k - 1], w[i + k - 1]
        if k == 1:
            idle, raw = f[i] * frac, w[i] * frac
        else:
            idle = top * frac
            raw = w[i] + (w[i + 1] - w[i]) * (idle - f[i]) / (f[i + 1] - f[i])
        got = out[V.FUEL_FLOW][p]
        want = lo * wtop if raw < lo * wtop else hi * wtop if raw > hi * wtop else raw
        if k < max(g.values()) and got == 0:
            c.le('idle fuel flow is zero where a condition has fewer settings than another', want, 0.0, tol=0.01)
        else:
            c.ge(f'{lab}: idle fuel flow, lower bound', got, lo * wtop)
            c.le(f'{lab}: idle fuel flow, upper bound', got, hi * wtop)
            c.equal(f'{lab}: idle fuel flow', got, want)
        for j in range(k):
            c.equal(f'{lab}: thrust {j}', out[V.THRUST][p + 1 + j], f[i + j])
            c.equal(f'{lab}: fuel flow {j}', out[V.FUEL_FLOW][p + 1 + j], w[i + j])
        for j in range(k):
            c.lt(f'{lab}: throttle rises {j}', out[V.THROTTLE][p + j], out[V.THROTTLE][p + j + 1])
        if not glob or k == max(g.values()):
            c.equal(f'{lab}: full throttle', out[V.THROTTLE][p + k], 1.0)
        c.equal(f'{lab}: idle throttle', out[V.THROTTLE][p], 0.0)
        p, i = p + k + 1, i + k


@scenario('C17', functions=['EngineDeck._count_data'], total=True, params=[dict(sort=s) for s in ('mach', 'altitude')])
def isolated_condition(c, sort):
    """a table in which a Mach number has one altitude only cannot be interpolated and is refused"""
    m1 = c.real('m1', 0.3, 0.9, 0.5)
    h1 = c.real('h1', 5000.0, 40000.0, 20000.0)
    grid = [(0.0, 0.0), (m1, 0.0), (m1, h1)] if sort == 'mach' else [(0.0, 0.0), (0.0, h1), (m1, h1)]
    rs, cols, v = simple(c, 2, grid=grid)
    o = options(REFERENCE_SLS_THRUST=(20000.0, 'lbf'), INTERPOLATION_SORT=(sort, 'unitless'))
    try:
        deck(o, cols)
        c.true('refused', False)
    except UserWarning:
        c.true('refused', True)

"""C15: stored options keep their value under unit changes, copies and updates."""
import numpy as np

import aviary.utils.aviary_options_dict as aod
import aviary.utils.aviary_values as av_mod
import aviary.utils.named_values as nv_mod
import aviary.utils.utils as ut
from aviary.utils.aviary_values import AviaryValues
from aviary.utils.named_values import NamedValues
from aviary.utils.utils import wrapped_convert_units
from aviary.variable_info.enums import GASPEngineType
from aviary.variable_info.functions import extract_options
from aviary.variable_info.variable_meta_data import CoreMetaData
from aviary.variable_info.variables import Aircraft as A, Dynamic as D, Mission as M
from sx import shim
from sx.scen import scenario

shim.install(ut, av_mod, nv_mod, aod)

# units of one dimension, with the size of one of them in the first; (scale, offset) of absolute temperatures
DIMS = {
    'length': [('m', 1.0), ('ft', 0.3048), ('inch', 0.0254), ('NM', 1852.0), ('km', 1000.0), ('mi', 1609.344)],
    'area': [('m**2', 1.0), ('ft**2', 0.3048 ** 2), ('inch**2', 0.0254 ** 2)],
    'volume': [('m**3', 1.0), ('ft**3', 0.3048 ** 3), ('galUS', 231 * 0.0254 ** 3), ('L', 1e-3)],
    'mass': [('kg', 1.0), ('lbm', 0.45359237), ('slug', 14.593903)],
    'force': [('N', 1.0), ('lbf', 4.4482216152605), ('kN', 1000.0)],
    'speed': [('m/s', 1.0), ('ft/s', 0.3048), ('kn', 1852 / 3600), ('ft/min', 0.3048 / 60), ('NM/s', 1852.0), ('km/h', 1 / 3.6)],
    'flow': [('kg/s', 1.0), ('lbm/s', 0.45359237), ('lbm/h', 0.45359237 / 3600), ('kg/h', 1 / 3600)],
    'angle': [('rad', 1.0), ('deg', np.pi / 180), ('rev', 2 * np.pi)],
    'rate': [('rad/s', 1.0), ('deg/s', np.pi / 180), ('rpm', 2 * np.pi / 60)],
    'power': [('W', 1.0), ('kW', 1000.0), ('hp', 745.6998715822701), ('ft*lbf/s', 0.3048 * 4.4482216152605)],
    'energy': [('J', 1.0), ('kJ', 1000.0), ('kW*h', 3.6e6), ('lbf*ft', 0.3048 * 4.4482216152605), ('N*m', 1.0)],
    'pressure': [('Pa', 1.0), ('psi', 6894.757293168361), ('lbf/ft**2', 47.880258980335843)],
    'density': [('kg/m**3', 1.0), ('lbm/ft**3', 0.45359237 / 0.3048 ** 3), ('slug/ft**3', 14.593903 / 0.3048 ** 3)],
    'time': [('s', 1.0), ('min', 60.0), ('h', 3600.0)],
    'acceleration': [('m/s**2', 1.0), ('ft/s**2', 0.3048)],
    'interval': [('degR', 1.0), ('degK', 1.8)],
}
KEY = {'length': M.RANGE, 'area': A.Wing.AREA, 'volume': A.Fuel.MAX_CAPACITY_VOLUME, 'mass': A.Wing.MASS,
       'force': D.Vehicle.DRAG, 'speed': D.Mission.VELOCITY, 'flow': D.Vehicle.Propulsion.FUEL_MASS_FLOW_RATE,
       'angle': A.Wing.SWEEP, 'rate': A.Engine.FIXED_RPM, 'power': A.Engine.Gearbox.SHAFT_POWER_DESIGN,
       'energy': A.Battery.ENERGY_CAPACITY, 'pressure': A.Design.WING_LOADING, 'density': A.Fuel.DENSITY,
       'time': M.Taxi.DURATION, 'acceleration': D.Mission.VELOCITY_RATE, 'interval': A.Engine.REFERENCE_SLS_THRUST}
BIG = 1e6


def store(c, kind):
    return AviaryValues() if kind == 'aviary' else NamedValues()


KEYS = {d: (KEY[d] if KEY[d] in CoreMetaData else None) for d in KEY}


@scenario('C15', functions=['NamedValues.set_val', 'NamedValues.get_val', 'AviaryValues.set_val', 'wrapped_convert_units'],
          params=[dict(dim=d, kind=k) for d in DIMS for k in ('aviary', 'named')])
def units_kept(c, dim, kind):
    x = c.real('x', -BIG, BIG, 12.5)
    key = KEYS[dim] if kind == 'aviary' and dim != 'interval' else 'v'
    us = DIMS[dim]
    for u, su in us:
        s = store(c, kind)
        s.set_val(key, x, u)
        c.equal(f'{u} itself', s.get_val(key, u), x)
        for w, sw in us:
            y = s.get_val(key, w)
            c.equal(f'{u} in {w}', y, x * (su / sw), rel=1e-6)
            s2 = store(c, kind)
            s2.set_val(key, y, w)
            c.equal(f'{u} to {w} and back', s2.get_val(key, u), x, rel=1e-7)
        c.equal(f'{u} after reading', s.get_val(key, u), x)


@scenario('C15', functions=['wrapped_convert_units'])
def temperatures(c):
    x = c.real('x', -400.0, 4000.0, 59.0)
    conv = lambda v, a, b: wrapped_convert_units((v, a), b)  # noqa: E731
    c.equal('F to R', conv(x, 'degF', 'degR'), x + 459.67)
    c.equal('C to K', conv(x, 'degC', 'degK'), x + 273.15)
    c.equal('C to F', conv(x, 'degC', 'degF'), 1.8 * x + 32.0)
    c.equal('F to C to K to R to F', conv(conv(conv(conv(x, 'degF', 'degC'), 'degC', 'degK'), 'degK', 'degR'), 'degR', 'degF'), x)


def shaped(c, form, xs):
    """the values xs in one of the containers the store accepts, and how to read them back as a flat list"""
    if form == 'list':
        return list(xs)
    if form == 'tuple':
        return tuple(xs)
    if form == 'array':
        return c.arr(xs)
    if form == 'matrix':
        return c.arr(xs).reshape(2, 2)
    if form == 'none':
        return [xs[0], None, xs[1], None]
    if form == 'mixed':
        return np.array([xs[0], None, xs[1], None], dtype=object)
    if form == 'listed array':
        return [c.arr(xs[:2]), xs[2], (xs[3], None)]
    if form == 'nested':
        return [[xs[0], xs[1]], [xs[2], xs[3]]]
    if form == 'pairs':
        return ((xs[0], xs[1]), (xs[2], None))
    raise KeyError(form)


def flat(x):
    if isinstance(x, np.ndarray):
        return [v for v in x.reshape(-1)]
    if isinstance(x, (list, tuple)):
        return [v for y in x for v in flat(y)]
    return [x]


@scenario('C15', functions=['wrapped_convert_units', 'NamedValues.get_val', 'units_setter'],
          params=[dict(form=f) for f in ('list', 'tuple', 'array', 'matrix', 'none', 'mixed', 'nested', 'listed array', 'pairs')], total=True)
def containers(c, form):
    xs = [c.real(f'x{i}', -BIG, BIG, 10.0 + i) for i in range(4)]
    val = shaped(c, form, xs)
    s = NamedValues()
    s.set_val('v', val, 'ft')
    got = s.get_val('v', 'm')
    c.true('same container', shim.sym_type(got) is shim.sym_type(val))
    exp = flat(val)
    out = flat(got)
    c.true('same size', len(out) == len(exp))
    for i, (a, b) in enumerate(zip(out, exp)):
        if b is None:
            c.true(f'no value stays no value {i}', a is None)
        else:
            c.equal(f'entry {i}', a, b * 0.3048)
    # the stored value is not touched by reading it in other units
    for i, (a, b) in enumerate(zip(flat(s.get_val('v', 'ft')), [shaped_at for shaped_at in exp])):
        if b is not None:
            c.equal(f'stored entry {i}', a, b)
    c.true('read is not the stored object', got is not val)
    for i, (a, b) in enumerate(zip(flat(aod.units_setter({'val': (None, 'ft')}, (got, 'm'))[0]), exp)):
        if b is not None:
            c.equal(f'phase option entry {i}', a, b)


@scenario('C15', functions=['wrapped_convert_units', 'NamedValues.get_val'], params=[dict(form=f) for f in ('array', 'matrix')])
def whole_numbers(c, form):
    """an array of whole numbers converts like the same numbers written as floats"""
    ks = [c.integer(f'k{i}', -3, 3) for i in range(2)]
    a = np.array(ks if form == 'array' else [ks, ks])
    s = NamedValues()
    s.set_val('v', a, 'ft')
    got = np.asarray(s.get_val('v', 'm'), dtype=float).reshape(-1)
    for i, (g, k) in enumerate(zip(got, (ks * 2))):
        c.equal(f'entry {i}', g, 0.3048 * k)
    c.true('stored', (s.get_val('v', 'ft') == a).all())


@scenario('C15', functions=['wrapped_convert_units'])
def accumulates(c):
    """conversion is linear: the sum of conversions is the conversion of the sum, order is kept"""
    x, y = c.real('x', -BIG, BIG, 3.0), c.real('y', -BIG, BIG, 7.0)
    k = c.real('k', 0.0, 1e3, 2.0)
    f = lambda v: wrapped_convert_units((v, 'lbm'), 'kg')  # noqa: E731
    c.equal('sum', f(x + y), f(x) + f(y))
    c.equal('scale', f(k * x), k * f(x))
    c.le('order', f(x), f(x + k))


UNITS = ['ft', 'm', 'inch']
FAC = {'ft': 1.0, 'm': 1 / 0.3048, 'inch': 1 / 12}
NAMES = [M.RANGE, A.Wing.SPAN]


class Model:
    """what the store should contain: name -> length in feet"""

    def __init__(self, d=None):
        self.d = dict(d or {})


def agree(c, label, s, m):
    c.true(f'{label}: size', len(s) == len(m.d))
    c.true(f'{label}: names', sorted(s.keys()) == sorted(m.d))
    for n in NAMES:
        c.true(f'{label}: has {n}', (n in s) == (n in m.d))
        if n in m.d:
            c.equal(f'{label}: {n}', s.get_val(n, 'ft'), m.d[n])
            v, u = s.get_item(n)
            c.equal(f'{label}: {n} stored', v * FAC[u], m.d[n])
        else:
            try:
                s.get_val(n, 'ft')
                c.true(f'{label}: missing {n}', False)
            except KeyError:
                pass
    c.true(f'{label}: iteration', [k for k, _ in s] == list(s.keys()))


OPS = ['set', 'delete', 'copy', 'deepcopy', 'update', 'merge', 'clear', 'swap', 'badunits', 'kwargs']


def history(c, kind, steps, ops):
    cls = AviaryValues if kind == 'aviary' else NamedValues
    a, ma = cls(), Model()
    b, mb = cls(), Model()          # a second collection that must not follow the first
    a.set_val(NAMES[0], c.real('s0', -BIG, BIG, 5.0), 'm')
    ma.d[NAMES[0]] = c.real('s0', -BIG, BIG, 5.0) * FAC['m']
    for i in range(steps):
        op = ops[c.integer(f'op{i}', 0, len(ops) - 1)]
        if op in ('set', 'delete', 'badunits', 'kwargs'):
            n = NAMES[c.integer(f'n{i}', 0, 1)]
        if op == 'set':
            x = c.real(f'x{i}', -BIG, BIG, 3.0 + i)
            u = UNITS[i % 3]
            a.set_val(n, x, u)
            ma.d[n] = x * FAC[u]
        elif op == 'delete':
            if n in ma.d:
                a.delete(n)
                del ma.d[n]
            else:
                try:
                    a.delete(n)
                    c.true(f'{i} deleting a missing name is an error', False)
                except KeyError:
                    pass
        elif op == 'badunits':
            for u in (None, 7) + (('kg',) if kind == 'aviary' else ()):
                try:
                    a.set_val(n, c.real(f'x{i}', -BIG, BIG, 3.0), u)
                    c.true(f'{i} units {u} are an error', False)
                except (TypeError, ValueError):
                    pass
        elif op == 'copy':
            b, mb = a.copy(), Model(ma.d)
        elif op == 'deepcopy':
            b, mb = a.deepcopy(), Model(ma.d)
        elif op == 'update':
            b.update(a)
            mb.d.update(ma.d)
        elif op == 'merge':
            b, mb = cls(a), Model(ma.d)
        elif op == 'kwargs':
            x = c.real(f'x{i}', -BIG, BIG, 3.0 + i)
            a.update(**{n: (x, 'ft')})
            ma.d[n] = x
        elif op == 'clear':
            a.clear()
            ma.d.clear()
        elif op == 'swap':
            a, ma, b, mb = b, mb, a, ma
        agree(c, f'{i} {op}', a, ma)
        agree(c, f'{i} {op} other', b, mb)
        same = len(ma.d) == len(mb.d) == 0
        if same:
            c.true(f'{i} {op} empty equal', a == b)


@scenario('C15', functions=['NamedValues', 'AviaryValues'], params=[dict(kind=k, steps=3) for k in ('aviary', 'named')],
          thorough=[dict(kind=k, steps=4) for k in ('aviary', 'named')], total=True, max_paths=4000, seconds=300)
def histories(c, kind, steps):
    history(c, kind, steps, ['set', 'delete', 'copy', 'deepcopy', 'update', 'clear', 'swap'])


@scenario('C15', functions=['NamedValues', 'AviaryValues'], params=[dict(kind=k) for k in ('aviary', 'named')],
          total=True, max_paths=2000, seconds=200)
def histories_more(c, kind):
    history(c, kind, 2, OPS)


@scenario('C15', functions=['NamedValues.update', 'NamedValues.__init__'], total=True)
def sources(c):
    """a collection can be filled from another collection of either kind, a dictionary, or pairs"""
    x, y = c.real('x', -BIG, BIG, 3.0), c.real('y', -BIG, BIG, 4.0)
    for cls in (AviaryValues, NamedValues):
        for oth in (AviaryValues, NamedValues):
            o = oth()
            o.set_val(M.RANGE, x, 'm')
            for how, s in (('made from', cls(o)), ('updated from', upd(cls(), o))):
                c.equal(f'{cls.__name__} {how} {oth.__name__}', s.get_val(M.RANGE, 'ft'), x / 0.3048)
        for how, o in (('dict', {M.RANGE: (y, 'm')}), ('pairs', [(M.RANGE, (y, 'm'))])):
            c.equal(f'{cls.__name__} from {how}', cls(o).get_val(M.RANGE, 'ft'), y / 0.3048)


def upd(s, o):
    s.update(o)
    return s


@scenario('C15', functions=['AviaryValues.set_val', 'enum_setter', 'cast_type'], total=True)
def enumerations(c):
    """engine types may be given as members, names or values, alone or one per engine"""
    es = list(GASPEngineType)
    i, j = c.integer('i', 0, len(es) - 1), c.integer('j', 0, len(es) - 1)
    e, f = es[i], es[j]
    for how, g in (('member', lambda v: v), ('name', lambda v: v.name), ('lower name', lambda v: v.name.lower()),
                   ('value', lambda v: v.value)):
        for cont in (list, tuple, np.array):
            s = AviaryValues()
            s.set_val(A.Engine.TYPE, cont([g(e), g(f)]))
            got = list(s.get_val(A.Engine.TYPE)) if isinstance(s.get_val(A.Engine.TYPE), (list, tuple, np.ndarray)) else [s.get_val(A.Engine.TYPE)]
            c.true(f'{how} in {cont.__name__}', got == [e, f])
        s = AviaryValues()
        s.set_val(A.Engine.TYPE, g(e))
        c.true(f'{how} alone', s.get_val(A.Engine.TYPE) is e)


LAST = {'volume': 'volume', 'area': 'area', 'mass': 'mass', 'length': 'length', 'altitude': 'length', 'span': 'length',
        'diameter': 'length', 'height': 'length', 'width': 'length', 'thrust': 'force', 'drag': 'force', 'lift': 'force',
        'velocity': 'speed', 'speed': 'speed', 'duration': 'time', 'delay': 'time', 'power': 'power', 'rpm': 'rate',
        'pressure': 'pressure', 'range': 'length', 'sweep': 'angle', 'incidence': 'angle', 'dihedral': 'angle'}


def named_quantities():
    out = {}
    for n, m in CoreMetaData.items():
        last = n.split(':')[-1].split('_')[-1]
        if last in LAST and m['units'] not in (None, 'unitless') and '_per_' not in n:
            out.setdefault(LAST[last], []).append(n)
    return out


QUANT = named_quantities()


@scenario('C15', functions=['AviaryValues.set_val', 'CoreMetaData'], params=[dict(dim=d) for d in sorted(QUANT)], total=True)
def natural_units(c, dim):
    """a volume can be given in any unit of volume, an area in any unit of area, …"""
    x = c.real('x', 0.0, BIG, 3.0)
    us = DIMS[dim]
    for n in QUANT[dim]:
        for (u, su), (w, sw) in ((us[0], us[1]), (us[1], us[0])):
            s = AviaryValues()
            s.set_val(n, x, u)
            c.equal(f'{n} given in {u}', s.get_val(n, w), x * (su / sw), rel=1e-6)
            home = CoreMetaData[n]['units']
            k = s.get_val(n, home)
            s2 = AviaryValues()
            s2.set_val(n, k, home)
            c.equal(f'{n} through {home}', s2.get_val(n, w), x * (su / sw), rel=1e-6)


OPTS = sorted(n for n, m in CoreMetaData.items() if m['option'] and m['units'] not in (None, 'unitless')
              and m['types'] is float and not m['multivalue'])


@scenario('C15', functions=['extract_options', 'units_setter', 'add_aviary_option'], total=True)
def options_reach_components(c):
    """an option stored in one unit arrives in the unit the component declared"""
    import openmdao.api as om

    from aviary.variable_info.functions import add_aviary_option
    from openmdao.utils.units import _find_unit
    x = c.real('x', 0.0, BIG, 3.0)
    for n in OPTS:
        home = CoreMetaData[n]['units']
        p = _find_unit(home)._powers
        for us in DIMS.values():
            if _find_unit(us[0][0])._powers == p:
                break
        else:
            continue
        size = dict(us).get(home)
        if size is None:
            continue
        for u, su in us:
            s = AviaryValues()
            s.set_val(n, x, u)
            k = om.ExplicitComponent()
            add_aviary_option(k, n)
            k.options[n] = extract_options(s)[n]
            v, un = k.options[n]
            c.true(f'{n} keeps the declared unit', un == home)
            c.equal(f'{n} given in {u}', v, x * (su / size), rel=1e-6)

"""C14: engine options of several engine types are lined up per type and counted consistently."""
import warnings

import numpy as np

import aviary.utils.aviary_values as av_mod
import aviary.utils.named_values as nv_mod
import aviary.utils.preprocessors as pp
import aviary.utils.utils as ut
from aviary.utils.aviary_values import AviaryValues
from aviary.utils.preprocessors import preprocess_propulsion
from aviary.variable_info.enums import Verbosity
from aviary.variable_info.variable_meta_data import CoreMetaData
from aviary.variable_info.variables import Aircraft as A, Settings
from sx import shim
from sx.scen import scenario

shim.install(ut, av_mod, nv_mod, pp)
E_ = A.Engine
TOT = A.Propulsion


class Engine:
    """an engine model as the preprocessor sees it: a name and its own options"""

    def __init__(self, name):
        self.name = name
        self.options = AviaryValues()

    def get_val(self, key, units='unitless'):
        return self.options.get_val(key, units)


def prep(o, engines, verbosity=Verbosity.QUIET):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        preprocess_propulsion(o, engines, verbosity=verbosity)
    return [str(x.message) for x in w]


def flat(x):
    if isinstance(x, np.ndarray):
        return [v for v in x.reshape(-1)]
    if isinstance(x, (list, tuple)):
        return [v for y in x for v in flat(y)]
    return [x]


COUNTS = [('n', E_.NUM_ENGINES), ('f', E_.NUM_FUSELAGE_ENGINES), ('w', E_.NUM_WING_ENGINES)]


def counts(o):
    return [flat(o.get_val(k)) for _, k in COUNTS]


@scenario('C14', functions=['preprocess_propulsion'], total=True, max_paths=600, seconds=150,
          params=[dict(types=t, given=g, where=w) for t in (1, 2) for g in ('n', 'nf', 'nw', 'fw', 'nfw', 'w', 'f')
                  for w in ('engine', 'aircraft')] + [dict(types=3, given='nw', where='engine')])
def engine_counts(c, types, given, where):
    """per type, wing and fuselage engines add up to the engines; the aircraft totals are the sums"""
    hi = 4 if types < 3 else 2
    o = AviaryValues()
    es = [Engine(f'e{i}') for i in range(types)]
    g = {}
    for k, name in COUNTS:
        if k in given:
            g[k] = [c.integer(f'{k}{i}', 0, hi) for i in range(types)]
            if where == 'aircraft':
                o.set_val(name, np.array(g[k]))
            else:
                for e, v in zip(es, g[k]):
                    e.options.set_val(name, v)
    prep(o, es)
    n, f, w = counts(o)
    for i in range(types):
        c.equal(f'type {i}: mounts add up', f[i] + w[i], n[i])
        gf, gw, gn = [g[k][i] if k in g else None for k in 'fwn']
        base = (gf or 0) + (gw or 0)
        default = CoreMetaData[E_.NUM_ENGINES]['default_value']
        if gn is not None:
            c.equal(f'type {i}: no engine is lost or invented', n[i], max(gn, base))
        elif base > 0:
            c.ge(f'type {i}: stated engines are counted', n[i], base)
        if gf is not None:
            c.ge(f'type {i}: fuselage engines are kept', f[i], gf)
        if gw is not None:
            c.ge(f'type {i}: wing engines are kept', w[i], gw)
    for tot, v in ((TOT.TOTAL_NUM_ENGINES, n), (TOT.TOTAL_NUM_FUSELAGE_ENGINES, f), (TOT.TOTAL_NUM_WING_ENGINES, w)):
        c.equal(tot, o.get_val(tot), sum(v))
    # a second pass changes nothing
    es2 = [Engine(f'e{i}') for i in range(types)]
    prep(o, es2)
    for (k, _), a, b in zip(COUNTS, (n, f, w), counts(o)):
        c.equal(f'again: {k}', b, a)


PRIORITY = [(E_.MASS, 'lbm', 'kg', 0.45359237), (A.Nacelle.AVG_DIAMETER, 'ft', 'm', 0.3048),
            (E_.SCALED_SLS_THRUST, 'lbf', 'N', 4.4482216152605), (E_.POD_MASS_SCALER, 'unitless', 'unitless', 1.0)]


@scenario('C14', functions=['preprocess_propulsion'], total=True, max_paths=200,
          params=[dict(var=i, types=t) for i in range(len(PRIORITY)) for t in (1, 2, 3)])
def lined_up(c, var, types):
    """each type gets its own value, else the aircraft's value for it, else the default, in order"""
    name, u, v, f = PRIORITY[var]
    o = AviaryValues()
    es = [Engine(f'e{i}') for i in range(types)]
    own = [c.integer(f'own{i}', 0, 1) for i in range(types)]
    common = c.integer('aircraft', 0, 3)          # none, one for all, one each, one each in other units
    x = [c.real(f'x{i}', 0.1, 1e4, 10.0 + i) for i in range(types)]
    y = [c.real(f'y{i}', 0.1, 1e4, 50.0 + i) for i in range(types)]
    for i, e in enumerate(es):
        e.options.set_val(E_.NUM_ENGINES, 2)
        if own[i]:
            e.options.set_val(name, x[i] * f, v)
    if common == 1:
        o.set_val(name, y[0], u)
    elif common == 2:
        o.set_val(name, c.arr(y), u)
    elif common == 3:
        o.set_val(name, c.arr([a * f for a in y]), v)
    keep = [dict(e.options._mapping) for e in es]
    prep(o, es)
    if not any(own) and not common:
        c.true('nothing is made up', name not in o)
        return
    got = flat(o.get_val(name, u))
    c.equal('one entry per type', len(got), types)
    for i in range(types):
        exp = x[i] if own[i] else (y[0] if common == 1 else y[i]) if common else CoreMetaData[name]['default_value']
        if CoreMetaData[name]['units'] != u and not own[i] and not common:
            continue
        c.equal(f'type {i}', got[i], exp)
    prep(o, es)
    for i, z in enumerate(flat(o.get_val(name, u))):
        c.equal(f'again: type {i}', z, got[i])
    c.true('the models are not changed', all(dict(e.options._mapping).keys() == k.keys() for e, k in zip(es, keep)))


@scenario('C14', functions=['preprocess_propulsion'], total=True, max_paths=200,
          params=[dict(a=a, b=b, where=w) for a in (1, 2, 4) for b in (1, 2, 4) for w in ('engine', 'aircraft')])
def spanwise_locations(c, a, b, where):
    """locations of all wing engine pairs stay in order of type"""
    na, nb = (a + 1) // 2, (b + 1) // 2
    x = [c.real(f'x{i}', 0.05, 0.95, 0.3 + 0.05 * i) for i in range(na)]
    y = [c.real(f'y{i}', 0.05, 0.95, 0.6 + 0.05 * i) for i in range(nb)]
    o = AviaryValues()
    es = [Engine('a'), Engine('b')]
    for e, n, v in zip(es, (a, b), (x, y)):
        e.options.set_val(E_.NUM_ENGINES, n)
        e.options.set_val(E_.NUM_WING_ENGINES, n)
        if where == 'engine':
            e.options.set_val(E_.WING_LOCATIONS, c.arr(v))
    if where == 'aircraft':
        o.set_val(E_.WING_LOCATIONS, c.arr(x + y))
    prep(o, es)
    got = flat(o.get_val(E_.WING_LOCATIONS))
    c.equal('how many', len(got), na + nb)
    for i, (g, v) in enumerate(zip(got, x + y)):
        c.equal(f'location {i}', g, v)
    if where == 'aircraft':
        prep(o, es)
        c.equal('again: how many', len(flat(o.get_val(E_.WING_LOCATIONS))), na + nb)


@scenario('C14', functions=['preprocess_propulsion'], total=True, max_paths=100)
def stored_verbosity(c):
    """without an explicit setting, the stored verbosity decides what is announced"""
    v = c.integer('verbosity', 0, 3)
    o = AviaryValues()
    o.set_val(Settings.VERBOSITY, Verbosity(v))
    e = Engine('e')
    e.options.set_val(E_.NUM_ENGINES, 2)
    e.options.set_val(E_.NUM_WING_ENGINES, 2)
    e.options.set_val(E_.NUM_FUSELAGE_ENGINES, 1)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        preprocess_propulsion(o, [e])
    c.true('announced from the stored level on', bool(w) == (v >= Verbosity.BRIEF.value))

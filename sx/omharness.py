"""Symbolic execution of OpenMDAO components."""
import copy
import enum
import importlib
import inspect
import io
import math
import os
import pkgutil
import re
import time
import warnings

import numpy as np

os.environ.setdefault('OPENMDAO_REPORTS', '0')
os.environ.setdefault('TESTFLO_RUNNING', '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
warnings.filterwarnings('ignore')

import openmdao.api as om  # noqa: E402

from . import expr as E  # noqa: E402
from . import cas, solve  # noqa: E402
from .expr import R, B, Term, Unsupported, EX  # noqa: E402
from .sarr import SArr, sarray, patched, has_sym, elementwise  # noqa: E402
from .solve import Explorer  # noqa: E402

SKIP_PKGS = {'test', 'docs', 'examples', 'models', 'visualization', 'interface', 'validation_cases', 'run_all_benchmarks'}
SKIP_OPTS = {'distributed', 'run_root_only', 'always_opt', 'use_jit', 'derivs_method', 'default_shape',
             'assembled_jac_type', 'settings:verbosity'}


def discover():
    """all component classes defined in /repo's aviary (non test, non example code)"""
    import aviary
    out, bad = [], []
    for m in pkgutil.walk_packages(aviary.__path__, 'aviary.'):
        parts = m.name.split('.')
        if any(p in SKIP_PKGS or p.startswith('test') for p in parts):
            continue
        try:
            mod = importlib.import_module(m.name)
        except Exception as e:  # noqa
            bad.append((m.name, repr(e)[:100]))
            continue
        for n, c in inspect.getmembers(mod, inspect.isclass):
            if c.__module__ == m.name and issubclass(c, (om.ExplicitComponent, om.ImplicitComponent)):
                out.append(c)
    return out, bad


def cname(c):
    return c.__module__.replace('aviary.', '', 1) + '.' + c.__name__


# ------------------------------------------------------------------ configurations
GENERIC = {
    'num_engines': 2, 'num_wing_engines': 2, 'num_fuselage_engines': 0, 'total_num_engines': 2,
    'total_num_wing_engines': 2, 'total_num_fuselage_engines': 0,
    'design:num_passengers': 160, 'design:num_first_class': 12, 'design:num_business_class': 20,
    'design:num_economy_class': 128, 'design:num_economy_class ': 128, 'num_passengers': 150,
    'num_first_class': 10, 'num_business_class': 20, 'num_economy_class': 120,
    'num_seats_abreast_first': 4, 'num_seats_abreast_business': 5, 'num_seats_abreast_economy': 6,
    'num_flight_attendants': 4, 'num_flight_crew': 2, 'num_galley_crew': 1,
    'fins:num_fins': 1, 'num_tanks': 7, 'num_integration_stations': 4,
    'seat_pitch_first': 38.0, 'seat_pitch_business': 36.0, 'seat_pitch_economy': 32.0,
    'wing_root_index': 2, 'num_flap_segments': 2, 'num_blades': 4, 'max_num_bays': 8,
    'max_bay_width': 12.0, 'cruise_altitude': 35000.0, 'airfoil_technology': 1.9,
    'load_distribution_control': 2.0, 'max_mach': 0.82, 'aircraft:fuselage:num_aisles': 1,
    'fuselage:num_fuselages': 1,
}
INT_ALTS = {
    'total_num_wing_engines': [0, 4], 'total_num_fuselage_engines': [1, 3], 'num_tails': [0, 2],
    'num_fuselages': [2], 'design:num_passengers': [90, 400], 'num_passengers': [90, 400],
    'part25_structural_category': [0, 1, 2], 'num_flight_crew': [3],
    'num_galley_crew': [0], 'num_flight_attendants': [0],
    'num_fins': [0, 2], 'num_aisles': [2], 'design:num_first_class': [0], 'design:num_business_class': [0],
    'num_seats_abreast_business': [0], 'num_tanks': [3], 'cruise_altitude': [45000.0],
}


def gen_value(key):
    best = None
    for k, v in GENERIC.items():
        if key.endswith(k) and (best is None or len(k) > len(best)):
            best = k
    return None if best is None else GENERIC[best]


def opt_types(o):
    t = o.get('types')
    if t is None:
        return ()
    return t if isinstance(t, tuple) else (t,)


def is_multi(o):
    t = opt_types(o)
    return np.ndarray in t


def enum_of(o):
    for t in opt_types(o):
        if inspect.isclass(t) and issubclass(t, enum.Enum):
            return t
    v = o.get('val')
    if isinstance(v, enum.Enum):
        return type(v)
    return None


def base_options(cls):
    """generic option values for a class; multi-engine arrays of length 1"""
    k = cls()
    opts = {}
    meta = {}
    for n, o in k.options._dict.items():
        if n in SKIP_OPTS:
            continue
        meta[n] = o
        v = o.get('val')
        g = gen_value(n)
        if n == 'num_nodes':
            opts[n] = 2
            continue
        if n == 'orientation':
            opts[n] = 'horizontal'
            continue
        if n == 'N_cp':
            opts[n] = 3
            continue
        if n == 'num_inputs':
            continue
        if n == 'engine_variables':
            from aviary.subsystems.propulsion.utils import EngineModelVariables as EMV
            opts[n] = {EMV.THRUST: 'lbf', EMV.FUEL_FLOW: 'lbm/h', EMV.ELECTRIC_POWER_IN: 'kW',
                       EMV.NOX_RATE: 'lbm/h', EMV.TEMPERATURE_T4: 'degR', EMV.SHAFT_POWER: 'hp'}
            continue
        if n.endswith('input_station_distribution'):
            opts[n] = np.array([0.0, 0.25, 0.5, 1.0])
            continue
        if n.endswith('engine:num_engines') or (is_multi(o) and not n.endswith('flap_type')):
            if isinstance(v, enum.Enum):
                opts[n] = [v]
            elif isinstance(v, bool):
                opts[n] = [v]
            elif isinstance(v, int) and v is not None:
                opts[n] = np.array([g if g is not None else v])
            elif isinstance(v, float):
                opts[n] = np.array([v])
            continue
        if g is not None:
            if isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], str):
                opts[n] = (float(g), v[1])
            elif isinstance(v, (int, float)) and not isinstance(v, bool):
                opts[n] = type(v)(g)
        if n.endswith('num_tails') or n.endswith('num_fuselages'):
            opts[n] = 1
    opts.update({n: v for n, v in SPECIAL.get(cls.__name__, {}).items()})
    return opts, meta


def moved(name, v):
    """another value of an option that is a real number, or None"""
    if isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], str):
        w = moved(name, v[0])
        return None if w is None else (w, v[1])
    if isinstance(v, np.ndarray) and v.dtype.kind == 'f':
        return np.array([moved(f'{name}', float(x)) * (1 + 0.5 * i) for i, x in enumerate(v)])
    if not isinstance(v, float):
        return None
    for k, w in ZERO_TO.items():
        if name.endswith(k) and v in (0.0, 1.0):
            return w
    return 1.125 * v if v else 0.0625


# other values of real options whose default is zero or one
ZERO_TO = {'ground_altitude': 128.0, 'delta_T_Celcius': 7.0, 'uld_mass_per_passenger': 5.0,
           'constant_fuel_mass_consumption': 24.0, 'fuel_flow_scaler_linear_term': 0.1875,
           'subsonic_fuel_flow_scaler': 0.875, 'supersonic_fuel_flow_scaler': 1.25}


def configs(cls, limit, numbers=False):
    """list of (label, options) variations"""
    base, meta = base_options(cls)
    out = [('base', dict(base))]
    alts = []
    for n, o in meta.items():
        v = o.get('val')
        if n in ('num_nodes', 'N_cp', 'num_inputs', 'engine_variables'):
            continue
        vals = []
        en = enum_of(o)
        if n == 'orientation':
            vals = ['vertical']
        elif en is not None and not is_multi(o):
            vals = [x for x in en if x != v]
        elif o.get('values') is not None:
            vals = [x for x in o['values'] if x != v]
        elif isinstance(v, bool) or bool in opt_types(o):
            if is_multi(o):
                vals = [[not bool(v)]]
            else:
                vals = [not v]
        elif en is not None and is_multi(o):
            cur = base.get(n, [v])
            vals = [[x] for x in en if [x] != cur] if n.endswith('engine:type') else [x for x in en if x != v]
        else:
            for k, a in INT_ALTS.items():
                if n.endswith(k):
                    cur = base.get(n, v)
                    if isinstance(v, tuple):
                        vals = [(float(x), v[1]) for x in a]
                    elif isinstance(v, (int, float)):
                        vals = [type(v)(x) for x in a if x != cur]
        for x in vals:
            alts.append((n, x))
    short = lambda n: n.split(':')[-1]  # noqa
    for n, x in alts:
        d = dict(base)
        d[n] = x
        out.append((f'{short(n)}={x}', d))
    # multi-engine variant
    multi = [n for n, o in meta.items() if is_multi(o) and not n.endswith('flap_type') and not n.endswith('input_station_distribution')]
    if multi:
        d = dict(base)
        for n in multi:
            if n not in base:
                continue
            b = base[n]
            if n.endswith('num_engines') or n.endswith('num_wing_engines'):
                d[n] = np.array([2, 1]) if not n.endswith('num_wing_engines') else np.array([2, 0])
            elif n.endswith('num_fuselage_engines'):
                d[n] = np.array([0, 1])
            elif isinstance(b, list):
                d[n] = b * 2
            else:
                d[n] = np.array(list(b) * 2)
        for n in meta:
            if n.endswith('total_num_engines'):
                d[n] = 3
            if n.endswith('total_num_fuselage_engines'):
                d[n] = 1
        out.insert(1, ('two engine types', d))
    # options that are real numbers, away from their defaults
    d = dict(base)
    for n, o in meta.items():
        v = base.get(n, o.get('val'))
        if n in ('mu', 'x0') or n.endswith('input_station_distribution'):
            continue
        w = moved(n, v)
        if w is not None:
            d[n] = w
    if numbers and (len(d) != len(base) or any(d[n] is not base[n] for n in base)):
        out.insert(1, ('other numbers', d))
    # pairs of boolean options
    bools = [(n, x) for n, x in alts if isinstance(x, bool)]
    for i in range(len(bools)):
        for j in range(i + 1, len(bools)):
            d = dict(base)
            d[bools[i][0]] = bools[i][1]
            d[bools[j][0]] = bools[j][1]
            out.append((f'{short(bools[i][0])}={bools[i][1]},{short(bools[j][0])}={bools[j][1]}', d))
    # enum x bool pairs
    enums = [(n, x) for n, x in alts if isinstance(x, enum.Enum)]
    for n, x in enums:
        for m, y in bools:
            d = dict(base)
            d[n] = x
            d[m] = y
            out.append((f'{short(n)}={x},{short(m)}={y}', d))
    return out[:limit]


class SetupFailed(Exception):
    pass


def _ramps(k):
    k.add_ramp('flap', output_units='deg', initial_val=30.0, final_val=0.0, t_init_val=10.0, t_duration_val=5.0)


# components that are configured by method calls before setup
PREP = {'TanhRampComp': _ramps}
# option values without which a component cannot run
SPECIAL = {
    'ThrottleAllocator': {'aircraft:engine:num_engines': np.array([2, 1, 1])},
    'BWBComputeDetailedWingDist': {'aircraft:wing:input_station_distribution': np.array([0.0, 1.0])},
    'CompressibilityDrag': {'num_nodes': 1}, 'LiftDependentDrag': {'num_nodes': 1}, 'HamiltonStandard': {'num_nodes': 1},
}


def build(cls, opts):
    """a real component inside a real Problem"""
    k = cls()
    if cls.__name__ in PREP:
        PREP[cls.__name__](k)
    read = set()
    for n, v in opts.items():
        try:
            k.options[n] = v
        except (KeyError, TypeError, ValueError):
            o = k.options._dict.get(n)
            if o is not None:
                o['val'] = v
                o['has_been_set'] = True
    orig = type(k.options).__getitem__

    class Spy(type(k.options)):
        def __getitem__(self, name):
            read.add(name)
            return orig(self, name)
    p = om.Problem(reports=False)
    p.model.add_subsystem('c', k, promotes=['*'])
    oc = k.options.__class__
    try:
        k.options.__class__ = Spy
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            p.setup(check=False)
            p.final_setup()
    except Exception as e:
        raise SetupFailed(f'{type(e).__name__}: {e}')
    finally:
        try:
            k.options.__class__ = oc
        except Exception:
            pass
    return p, k, read


# ------------------------------------------------------------------ input domains
UNIT_SCALE = {
    'lbm': 5000.0, 'kg': 2000.0, 'ft': 30.0, 'm': 10.0, 'ft**2': 500.0, 'm**2': 50.0, 'ft**3': 400.0,
    'slug/ft**3': 0.0015, 'kg/m**3': 0.8, 'ft/s': 500.0, 'm/s': 150.0, 'kn': 250.0, 'lbf': 20000.0, 'N': 90000.0,
    'deg': 20.0, 'rad': 0.3, 'lbf/ft**2': 120.0, 'psi': 8.0, 'psf': 100.0, 'lbm/h': 4000.0, 'lbm/s': 1.5, 'kg/s': 1.0,
    'ft/s**2': 20.0, 'm/s**2': 5.0, 'nmi': 1000.0, 'NM': 1000.0, 's': 40.0, 'min': 10.0, 'h': 2.0, 'hp': 2000.0,
    'kW': 500.0, 'degR': 450.0, 'degK': 250.0, 'inch': 40.0, 'galUS': 2000.0, 'W': 3e5, 'V': 300.0, 'A': 50.0,
    'lbm/ft**3': 50.0, 'lbm/galUS': 6.7, 'lbm/ft**2': 100.0, 'lbm/ft': 5.0, 'unitless': 0.7, 'mi/h': 250.0, 'ft**2/s': 0.002,
    'Pa': 30000.0, 'rpm': 1000.0, 'W*h/kg': 200.0, 'kW*h': 100.0, 'ft*lbf': 3000.0, 'deg/s': 3.0, 'rad/s': 0.05,
}


SIGNED = re.compile(r'angle|alpha|gamma|sweep|dihedral|incidence|_rate|rate$|accel|gradient|camber|theta|twist|'
                    r'deflection|^d[A-Za-z]+_d|altitude|forces|x0|lift|cl$|_cl|moment|thrust|power|residual|slope|position|'
                    r'zero_angle|delta|location|time|distance', re.I)
HIGH = [(re.compile(r'mach', re.I), 2.0), (re.compile(r'taper_ratio|thickness_to_chord|_tc$|fraction|efficiency', re.I), 1.5)]


def domain_of(meta, default, name=''):
    u = meta.get('units') or 'unitless'
    short = name.split(':')[-1]
    hier = name.startswith(('aircraft:', 'mission:'))
    signed = bool(SIGNED.search(short)) and not (hier and u not in ('deg', 'rad') and short not in ('thrust',))
    if u in ('deg', 'rad', '1/rad', '1/deg'):
        lim = 80.0 if u == 'deg' else (1.4 if u == 'rad' else 20.0)
        d = min(default, lim) if default and default > 0 else UNIT_SCALE.get(u, 1.0)
        return (-lim if signed else 0.0, lim, d)
    if default and default < 0:
        return (10 * default, -10 * default, float(default))
    s = float(default) if default else UNIT_SCALE.get(u, 1.0)
    hi = 32 * s if not default else max(32 * s, 32 * UNIT_SCALE.get(u, 1.0))
    for rx, h in HIGH:
        if rx.search(short):
            hi = h
            s = min(s, 0.5 * h)
    return (-hi if signed else 0.0, hi, s)


class SymIn(dict):
    """input vector stand-in"""

    def __init__(self, comp):
        super().__init__()
        self._names = comp

    def keys(self):
        return dict.keys(self)

    def get_val(self, name):
        return self[name]

    def asarray(self, *a, **k):
        raise Unsupported('asarray of a symbolic vector')


class SymOut(SymIn):
    def __setitem__(self, k, v):
        if dict.__contains__(self, k):
            tgt = dict.__getitem__(self, k)
            assign(tgt, v)
        else:
            raise KeyError(k)


def assign(tgt, v):
    if isinstance(v, (Term,)) or np.isscalar(v):
        tgt[...] = v if not isinstance(v, np.generic) else v.item()
        return
    v = v if isinstance(v, np.ndarray) else sarray(v)
    if v.shape == tgt.shape:
        tgt[...] = v
    elif v.size == 1:
        tgt[...] = v.reshape(-1)[0]
    elif v.size == tgt.size:
        # OpenMDAO accepts equal-size arrays
        tgt[...] = np.reshape(v, tgt.shape)
    else:
        tgt[...] = v


class SymJac:
    """partials[of, wrt] with OpenMDAO's storage semantics"""

    def __init__(self, comp, stale=False):
        self.comp = comp
        self.ent = {}
        self.written = set()
        pre = comp.pathname + '.' if comp.pathname else ''
        self.cs = set()
        for (of, wrt), d in comp._subjacs_info.items():
            o, w = of[len(pre):], wrt[len(pre):]
            if of == wrt and isinstance(comp, om.ExplicitComponent):
                continue
            val = d['val']
            rows, cols = d.get('rows'), d.get('cols')
            diag = bool(d.get('diagonal')) and rows is None
            shape = d['shape']
            if rows is not None:
                arr = sarray(np.broadcast_to(np.asarray(val, dtype=float).reshape(-1) if np.ndim(val) else np.asarray(float(val)), (len(rows),)))
                kind = 'coo'
            elif diag:
                arr = sarray(np.broadcast_to(np.asarray(val, dtype=float).reshape(-1) if np.ndim(val) else np.asarray(float(val)), (shape[0],)))
                kind = 'diag'
            elif hasattr(val, 'tocoo'):
                raise Unsupported('scipy sparse partial')
            else:
                arr = sarray(np.broadcast_to(np.asarray(val if val is not None else 0.0, dtype=float), shape))
                kind = 'dense'
            # a copy that owns its memory
            a2 = np.empty(arr.shape, dtype=object).view(SArr)
            a2[...] = arr
            e = {'kind': kind, 'rows': rows, 'cols': cols, 'val': a2, 'shape': shape,
                 'method': d.get('method', 'exact') or 'exact', 'dependent': d.get('dependent', True)}
            self.ent[o, w] = e
            if e['method'] in ('cs', 'fd'):
                self.cs.add((o, w))

    def __getitem__(self, key):
        if key not in self.ent:
            raise KeyError(f'undeclared partial {key}')
        self.written.add(key)
        return self.ent[key]['val']

    def __setitem__(self, key, v):
        if key not in self.ent:
            raise KeyError(f'undeclared partial {key}')
        self.written.add(key)
        tgt = self.ent[key]['val']
        if self.ent[key]['kind'] == 'dense':
            if isinstance(v, Term) or np.isscalar(v):
                tgt[...] = v
                return
            v = v if isinstance(v, np.ndarray) else sarray(v)
            if v.size == 1:
                tgt[...] = v.reshape(-1)[0]
            elif v.size == tgt.size:
                tgt[...] = np.reshape(v, tgt.shape)
            else:
                raise ValueError(f'shape mismatch in partial {key}')
        else:
            if isinstance(v, Term) or np.isscalar(v):
                tgt[...] = v
                return
            v = v if isinstance(v, np.ndarray) else sarray(v)
            if v.size == 1:
                tgt[...] = v.reshape(-1)[0]
            else:
                tgt[...] = np.reshape(v, tgt.shape)

    def __contains__(self, key):
        return key in self.ent

    def keys(self):
        return self.ent.keys()

    def dense(self, key):
        """dict (i,j) -> value for the structurally stored entries"""
        e = self.ent[key]
        out = {}
        v = e['val'].view(np.ndarray)
        if e['kind'] == 'coo':
            for r, c, x in zip(e['rows'], e['cols'], v.reshape(-1)):
                k = (int(r), int(c))
                out[k] = x if k not in out else out[k] + x
        elif e['kind'] == 'diag':
            for i, x in enumerate(v.reshape(-1)):
                out[i, i] = x
        else:
            vv = v.reshape(e['shape'])
            for i in range(e['shape'][0]):
                for j in range(e['shape'][1]):
                    out[i, j] = vv[i, j]
        return out


def fresh_scratch(comp, memo):
    """work arrays a component allocates in setup and fills during evaluation"""
    for n, v in list(comp.__dict__.items()):
        if n not in memo:
            memo[n] = v if (isinstance(v, np.ndarray) and not isinstance(v, SArr) and v.dtype.kind == 'f' and v.size
                            and v.size < 5000 and not v.any() and not n.startswith('_var')) else None
        if memo[n] is not None:
            comp.__dict__[n] = sarray(memo[n].copy())


def sym_inputs(comp, ex, kinds=('input',), fixed=None, prefix=''):
    d = SymIn(comp)
    for kind in kinds:
        for n in comp._var_rel_names[kind]:
            m = comp._var_rel2meta[n]
            a = np.empty(m['shape'], dtype=object).view(SArr)
            fl = np.empty(int(np.prod(m['shape'], dtype=int)), dtype=object)
            dv = np.broadcast_to(np.asarray(m['val'], dtype=float), m['shape']).reshape(-1)
            for i in range(fl.size):
                vn = f'{prefix}{n}[{i}]'
                if fixed is not None and vn in fixed:
                    fl[i] = fixed[vn]
                else:
                    fl[i] = E.var(vn)
                    if vn not in ex.domains:
                        ex.domains[vn] = domain_of(m, float(dv[i]), n)
            np.ndarray.__setitem__(a, Ellipsis, fl.reshape(m['shape']))
            dict.__setitem__(d, n, a)
    return d


def sym_outputs(comp, stale=True):
    d = SymOut(comp)
    for n in comp._var_rel_names['output']:
        m = comp._var_rel2meta[n]
        a = np.empty(m['shape'], dtype=object).view(SArr)
        fl = np.empty(int(np.prod(m['shape'], dtype=int)), dtype=object)
        for i in range(fl.size):
            fl[i] = E.var(f'stale:{n}[{i}]') if stale else 0.0
        np.ndarray.__setitem__(a, Ellipsis, fl.reshape(m['shape']))
        dict.__setitem__(d, n, a)
    return d


def settle(comp, outs):
    """elements a fresh instance never wrote keep their initial value"""
    for n in comp._var_rel_names['output']:
        a = dict.__getitem__(outs, n)
        if not (isinstance(a, np.ndarray) and a.dtype == object):
            continue
        fl = a.reshape(-1)
        init = np.broadcast_to(np.asarray(comp._var_rel2meta[n]['val'], dtype=float), a.shape).reshape(-1)
        for i in range(fl.size):
            x = fl.view(np.ndarray)[i]
            if isinstance(x, E.Term) and x is E.var(f'stale:{n}[{i}]'):
                np.ndarray.__setitem__(fl.view(np.ndarray), i, float(init[i]))
        dict.__setitem__(outs, n, fl.reshape(a.shape).view(type(a)))


class SymOptions:
    """replace numeric option values that are read only at run time by symbolic terms"""

    def __init__(self, comp, ex, setup_read, opts):
        self.comp = comp
        self.saved = {}
        self.names = {}
        self.vars = set()
        for n, o in comp.options._dict.items():
            if n in setup_read or n in SKIP_OPTS or n == 'num_nodes' or n.endswith('num_integration_stations'):
                continue
            v = o.get('val')
            if isinstance(v, (bool, enum.Enum, str)) or v is None:
                continue
            if o.get('values') is not None:
                continue
            if enum_of(o) is not None or bool in opt_types(o):
                continue
            if n.endswith('num_engines') and isinstance(v, np.ndarray):
                continue
            vn = f'opt:{n}'
            if isinstance(v, int):
                t = E.var(vn, integer=True)
                ex.domains[vn] = (1 if n.endswith('num_passengers') else 0, max(8, 4 * v), v, 'int')
                new = t
            elif isinstance(v, float):
                new = E.var(vn)
                ex.domains[vn] = domain_of({'units': None}, v, n)
            elif isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], str) and isinstance(v[0], (int, float)):
                ex.domains[vn] = domain_of({'units': v[1]}, v[0], n)
                new = (E.var(vn), v[1])
            elif isinstance(v, np.ndarray) and v.dtype.kind == 'f' and 0 < v.size <= 4 and v.ndim == 1:
                arr = np.empty(v.shape, dtype=object)
                for i, x in enumerate(v.tolist()):
                    ex.domains[f'{vn}[{i}]'] = domain_of({'units': None}, x, n)
                    arr[i] = E.var(f'{vn}[{i}]')
                    self.vars.add(f'{vn}[{i}]')
                new = arr.view(SArr)
            else:
                continue
            self.vars.add(vn)
            self.saved[n] = v
            self.names[n] = vn
            o['val'] = new

    def restore(self):
        for n, v in self.saved.items():
            self.comp.options._dict[n]['val'] = v


def concretise_options(opts, symopts, env):
    """option values at a concrete assignment"""
    o = dict(opts)
    if symopts is None:
        return o
    for n, vn in symopts.names.items():
        v = symopts.saved[n]
        if isinstance(v, np.ndarray):
            o[n] = np.array([float(env.get(f'{vn}[{i}]', x)) for i, x in enumerate(v.tolist())])
        elif vn in env:
            x = env[vn]
            if isinstance(v, int):
                o[n] = int(round(x))
            elif isinstance(v, tuple):
                o[n] = (float(x), v[1])
            else:
                o[n] = float(x)
        else:
            o[n] = v
    return o


def num(v):
    """plain number or term"""
    if isinstance(v, B):
        return v._r()
    if isinstance(v, Term):
        return v
    if isinstance(v, (bool, np.bool_)):
        return float(v)
    if isinstance(v, np.ndarray) and v.size == 1:
        return num(v.reshape(-1)[0])
    if isinstance(v, complex):
        if v.imag != 0:
            raise Unsupported('complex value')
        return v.real
    return float(v)


def rejected(e):
    """the code under test refused the input with an explicit raise"""
    import linecache
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    if last is None:
        return False
    fn = last.tb_frame.f_code.co_filename
    if '/aviary/' not in fn:
        return False
    line = linecache.getline(fn, last.tb_lineno).strip()
    return line.startswith('raise')


# ------------------------------------------------------------------ one component configuration
class Run:
    pass


def is_overridden(comp, name):
    base = om.ImplicitComponent if isinstance(comp, om.ImplicitComponent) else om.ExplicitComponent
    return getattr(type(comp), name) is not getattr(base, name)


def execute(comp, ex, jac=True, fixed=None):
    """one symbolic execution of compute (+ compute_partials) on the current path"""
    implicit = isinstance(comp, om.ImplicitComponent)
    fresh_scratch(comp, ex.scratch)
    ins = sym_inputs(comp, ex, fixed=fixed)
    res = {}
    if implicit:
        outs_in = sym_inputs(comp, ex, kinds=('output',), fixed=fixed)
        resid = sym_outputs(comp)
        args = [ins, outs_in, resid]
        comp.apply_nonlinear(*args)
        outs = resid
    else:
        outs = sym_outputs(comp)
        outs_in = outs
        comp.compute(ins, outs)
    J = None
    if jac:
        J = SymJac(comp)
        if implicit:
            if is_overridden(comp, 'linearize'):
                comp.linearize(ins, outs_in, J)
        elif is_overridden(comp, 'compute_partials'):
            ins2 = sym_inputs(comp, ex, fixed=fixed)
            comp.compute_partials(ins2, J)
    r = Run()
    r.ins, r.outs, r.J, r.implicit = ins, outs, J, implicit
    r.outs_in = outs_in
    return r

"""C07: what a trajectory calculation returns at a point depends on that point alone."""
import inspect

import numpy as np
import openmdao.api as om

from sx import omharness as H, expr as E
from sx.expr import Unsupported
from sx.scen import REG, Scn

# calculations that are defined along the trajectory as a whole
ALONG = {'RangeComp', 'ElectricRangeComp', 'DistanceComp'}
# a smaller box for calculations with many table segments: name -> (low, high) per point, or a constant
BOX = {
    'HamiltonStandard': {'power_coefficient': [(0.20, 0.22), (0.41, 0.43)], 'advance_ratio': [(0.8, 0.82), (1.7, 1.72)],
                         'tip_mach': [(0.6, 0.62), (0.7, 0.72)], 'mach': [(0.3, 0.32), (0.5, 0.52)],
                         'activity_factor': 114.0, 'integrated_lift_coefficient': 0.5},
    'PreHamiltonStandard': {'diameter': [(1.0, 20.0)], 'propeller_tip_speed': [(10.0, 1200.0)] * 2,
                            'speed_of_sound': [(500.0, 1300.0)] * 2, 'density': [(1e-5, 3e-3)] * 2},
    'CompressibilityDrag': {'mach': [(0.3, 0.35), (0.81, 0.82)]},
}


def box(cls, name, i, dom):
    b = BOX.get(cls.__name__, {}).get(name.split(':')[-1])
    if b is None:
        return dom
    if not isinstance(b, list):
        return b, b, b
    lo, hi = b[min(i, len(b) - 1)]
    return lo, hi, 0.5 * (lo + hi)


def shapes(k, kind):
    return {n: tuple(k._var_rel2meta[n]['shape']) for n in k._var_rel_names[kind]}


def axis(a, b):
    """axis along which a (n=2) and b (n=1) differ"""
    if a == b:
        return None
    if len(a) != len(b):
        raise Unsupported(f'shapes {a} and {b}')
    d = [i for i, (x, y) in enumerate(zip(a, b)) if x != y]
    if len(d) != 1 or a[d[0]] != 2 * b[d[0]]:
        raise Unsupported(f'shapes {a} and {b}')
    return d[0]


def take(v, ax, i, size):
    if ax is None:
        return v
    return v[tuple(slice(None) if j != ax else slice(i * size, (i + 1) * size) for j in range(v.ndim))]


def pointwise(c, cls, opts):
    o2, o1 = dict(opts, num_nodes=2), dict(opts, num_nodes=1)
    k2, k1 = H.build(cls, o2)[1], H.build(cls, o1)[1]
    implicit = isinstance(k2, om.ImplicitComponent)
    vals, axes, sizes = {}, {}, {}
    for kind in ('input', 'output') if implicit else ('input',):
        s2, s1 = shapes(k2, kind), shapes(k1, kind)
        for n in s2:
            axes[n] = axis(s2[n], s1[n])
            sizes[n] = None if axes[n] is None else s1[n][axes[n]]
            m = k2._var_rel2meta[n]
            dv = np.broadcast_to(np.asarray(m['val'], dtype=float), s2[n]).reshape(-1)
            doms = [box(cls, n, i, H.domain_of(m, float(dv[i]), n)) for i in range(dv.size)]
            xs = [c.real(f'{n}[{i}]', *d) if isinstance(d, tuple) else d for i, d in enumerate(doms)]
            vals[n] = c.arr(xs).reshape(s2[n])
    if cls.__name__ == 'TimeRamp':
        c.assume(vals['t_curr'][0] <= vals['t_curr'][1])      # time increases along a trajectory
    pick = lambda kind, i: {n: take(vals[n], axes[n], i, sizes[n]) if i is not None else vals[n]  # noqa: E731
                            for n in k2._var_rel_names[kind]}
    st = 'output' if implicit else None
    both = c.comp(cls, o2, pick('input', None), pick(st, None) if st else None)
    out2, out1 = shapes(k2, 'output'), shapes(k1, 'output')
    for i in range(2):
        one = c.comp(cls, o1, pick('input', i), pick(st, i) if st else None)
        for n in out2:
            ax = axis(out2[n], out1[n])
            c.equal(f'{n} at point {i}', take(both[n], ax, i, None if ax is None else out1[n][ax]), one[n])


def _register():
    for cls in H.discover()[0]:
        try:
            k = cls()
        except Exception:  # noqa: BLE001
            continue
        if 'num_nodes' not in k.options._dict or cls.__name__ in ALONG or inspect.isabstract(cls):
            continue
        try:
            cfgs = H.configs(cls, 200, numbers=True)
        except Exception:  # noqa: BLE001
            continue
        for j, (label, opts) in enumerate(cfgs):
            if cls.__name__ == 'EngineScaling' and label == 'two engine types':
                continue        # the component stands for one engine type
            def fn(c, cls=cls, opts=opts):
                return pointwise(c, cls, opts)
            tier = 'quick' if j < 8 else 'thorough'
            REG.setdefault('C07', []).append((tier, Scn('C07', f'{H.cname(cls)} {label}', fn, dict(
                functions=[cls.__name__], seconds=120 if cls.__name__ == 'HamiltonStandard' else 40,
                max_paths=24, total=False, skip_eq=cls.__name__ == 'HamiltonStandard'))))


_register()

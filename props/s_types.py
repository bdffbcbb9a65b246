"""C20: listing the engine types in another order changes nothing but the order of the per-type results."""
import enum
import inspect

import numpy as np
import openmdao.api as om

from sx import omharness as H
from sx.expr import Unsupported
from sx.scen import REG, Scn

# (number of engines, on the wing, on the fuselage) of every type
MIXES = [([2, 1], [2, 0], [0, 1]), ([2, 4], [2, 4], [0, 0]), ([3, 2], [2, 2], [1, 0])]
# calculations that stand for one type: EngineScaling belongs to one engine; the cabin and gear layouts of FLOPS say in
# their source that they do not support several types (MainGearLength)
ONE = {'EngineScaling', 'MainGearLength', 'HamiltonStandard', 'PreHamiltonStandard', 'PostHamiltonStandard', 'ThrottleAllocator', 'DragPolar'}
MIXES3 = [([2, 1, 4], [2, 0, 4], [0, 1, 0])]


def spread(v, k):
    """a different value for every type where the kind of option allows it"""
    x = v[0]
    if isinstance(x, (bool, np.bool_)):
        return [bool(x) if j % 2 == 0 else not x for j in range(k)]
    if isinstance(x, enum.Enum):
        al = list(type(x))
        return [al[(al.index(x) + j) % len(al)] for j in range(k)]
    if isinstance(x, (int, np.integer)):
        return np.array([int(x) + j for j in range(k)])
    if isinstance(x, float):
        return np.array([x + 0.1 * j for j in range(k)])
    return None


def multi(cls, opts, meta):
    return [n for n, o in meta.items() if n in opts and H.is_multi(o) and not n.endswith(('flap_type', 'input_station_distribution'))
            or n in opts and n.endswith('engine:num_engines')]


def with_types(opts, names, mix, vary):
    num, wing, fus = mix
    k = len(num)
    d = dict(opts)
    for n in names:
        if n.endswith('num_wing_engines'):
            d[n] = np.array(wing)
        elif n.endswith('num_fuselage_engines'):
            d[n] = np.array(fus)
        elif n.endswith('num_engines'):
            d[n] = np.array(num)
        else:
            s = spread(opts[n], k) if vary else None
            if s is None:
                s = list(opts[n]) * k if isinstance(opts[n], list) else np.array(list(opts[n]) * k)
            d[n] = s
    for n in opts:
        if n.endswith('total_num_engines'):
            d[n] = sum(num)
        if n.endswith('total_num_wing_engines'):
            d[n] = sum(wing)
        if n.endswith('total_num_fuselage_engines'):
            d[n] = sum(fus)
    return d


def reorder(opts, names, perm):
    d = dict(opts)
    for n in names:
        v = opts[n]
        d[n] = [v[i] for i in perm] if isinstance(v, list) else np.asarray(v)[list(perm)]
    return d


def shapes(cls, opts, kind):
    k = H.build(cls, opts)[1]
    return {n: tuple(k._var_rel2meta[n]['shape']) for n in k._var_rel_names[kind]}, k


def per_type(cls, opts, names, mix, kind):
    """how the entries of every variable belong to the types: name -> list of blocks of flat positions, or None"""
    k = len(mix[0])
    sk, comp = shapes(cls, opts, kind)
    one = tuple([m[0]] for m in mix)
    d1 = with_types({n: (opts[n][:1] if n in names else v) for n, v in opts.items()}, names, one, False)
    s1, _ = shapes(cls, d1, kind)
    out = {}
    for n, s in sk.items():
        if n.endswith('engine:wing_locations'):
            cnt = [w // 2 for w in mix[1]]
            if int(np.prod(s)) == sum(cnt):
                e = np.cumsum([0] + cnt)
                out[n] = [list(range(e[i], e[i + 1])) for i in range(k)]
                continue
        if s == s1[n]:
            out[n] = None
            continue
        if cls.__name__ in ('MuxComponent', 'SkinFrictionDrag') and s[-1] > sum(mix[0]) and s[-1] - s1[n][-1] == sum(mix[0][1:]):
            idx = np.arange(int(np.prod(s))).reshape(s)        # one entry per engine, at the end
            e = s[-1] - sum(mix[0]) + np.cumsum([0] + mix[0])
            out[n] = [list(idx[..., e[i]:e[i + 1]].ravel(order='F')) for i in range(k)]
            continue
        ax = [i for i, (a, b) in enumerate(zip(s, s1[n])) if a != b]
        if len(s) != len(s1[n]) or len(ax) != 1 or s[ax[0]] != k or s1[n][ax[0]] != 1:
            raise Unsupported(f'{n}: shapes {s} and {s1[n]}')
        idx = np.arange(int(np.prod(s))).reshape(s)
        out[n] = [list(np.take(idx, i, ax[0]).ravel()) for i in range(k)]
    return sk, out, comp


def turn(v, blocks, perm, shape, c):
    if blocks is None:
        return v
    f = list(np.ravel(np.asarray(v, dtype=object))) if not hasattr(v, 'reshape') else list(v.reshape((-1,)))
    pos = [p for b in blocks for p in b]
    new = [p for i in perm for p in blocks[i]]
    # positions are written in the order of the (re-ordered) layout: types of equal size keep their slots
    g = list(f)
    if len(set(map(len, blocks))) == 1:
        for j, i in enumerate(perm):
            for a, b in zip(blocks[j], blocks[i]):
                g[a] = f[b]
    else:
        for a, b in zip(pos, new):
            g[a] = f[b]
    return c.arr(g).reshape(shape)


def inputs(c, comp, shp):
    vals = {}
    for n, s in shp.items():
        m = comp._var_rel2meta[n]
        dv = np.broadcast_to(np.asarray(m['val'], dtype=float), s).reshape(-1)
        vals[n] = c.arr([c.real(f'{n}[{i}]', *H.domain_of(m, float(dv[i]), n)) for i in range(dv.size)]).reshape(s)
    return vals


def order(c, cls, opts, names, mix, perm):
    full = with_types(opts, names, mix, True)
    si, bi, comp = per_type(cls, full, names, mix, 'input')
    so, bo, _ = per_type(cls, full, names, mix, 'output')
    x = inputs(c, comp, si)
    a = c.comp(cls, full, x)
    pi = {n: turn(v, bi[n], perm, si[n], c) for n, v in x.items()}
    b = c.comp(cls, reorder(full, names, perm), pi)
    for n in so:
        c.equal(f'{n} with the types in another order', b[n], turn(a[n], bo[n], perm, so[n], c))


def _register():
    for cls in H.discover()[0]:
        if inspect.isabstract(cls) or cls.__name__ in ONE or not issubclass(cls, om.ExplicitComponent):
            continue
        try:
            base, meta = H.base_options(cls)
            names = multi(cls, base, meta)
            if not names:
                continue
            cfgs = [(lab, o) for lab, o in H.configs(cls, 200, numbers=True) if lab != 'two engine types']
        except Exception:  # noqa: BLE001
            continue
        for j, (lab, o) in enumerate(cfgs[:6]):
            for mix in MIXES + MIXES3:
                k = len(mix[0])
                if j and mix is not MIXES[0]:
                    continue
                perm = (1, 0) if k == 2 else (2, 0, 1)

                def fn(c, cls=cls, o=o, mix=mix, perm=perm, names=tuple(names)):
                    return order(c, cls, o, names, mix, perm)
                REG.setdefault('C20', []).append(('quick', Scn('C20', f'{H.cname(cls)} {lab} {mix[0]}', fn, dict(
                    functions=[cls.__name__], seconds=40, max_paths=24, total=False, skip_eq=True))))


_register()

"""C24: the option that smooths switches leaves every value away from the switches alone."""
import sys

import numpy as np

from aviary.utils import math as M
from sx import expr as E, omharness as H
from sx.prove import Skip
from sx.sarr import SArr, sarray, has_sym
from sx.scen import REG, Scn

FAR = 40.0
NAMES = ('sigmoidX', 'smooth_min', 'smooth_max')
REAL = {n: getattr(M, n) for n in NAMES}


def pairs(a, b):
    a = a if isinstance(a, np.ndarray) else np.array([a], dtype=object if isinstance(a, E.Term) else None)
    b = b if isinstance(b, np.ndarray) else np.array([b], dtype=object if isinstance(b, E.Term) else None)
    n = max(a.size, b.size)
    f = lambda v: list(v.reshape(-1).view(np.ndarray)) * (n if v.size == 1 else 1)  # noqa: E731
    return list(zip(f(a), f(b)))


def shaped(v, a, b):
    for x in (a, b):
        if isinstance(x, np.ndarray) and x.size == len(v):
            return sarray(v).reshape(x.shape)
    return v[0]


class Step:
    """the functions the smooth ones stand for; values closer than the transition width are left out"""

    def __init__(self, c):
        self.c = c

    def side(self, d, w):
        if bool(d > w):
            return True
        if bool(d < -w):
            return False
        self.c.assume(False)
        raise Skip()

    def sigmoidX(self, x, x0, mu=1.0):
        up = [self.side(a - b, FAR * abs(mu)) for a, b in pairs(x, x0)]
        if not self.c.sym:
            return REAL['sigmoidX'](x, x0, mu)
        return shaped([1.0 if u == (mu > 0) else 0.0 for u in up], x, x0)

    def pick(self, name, x, b, mu, larger):
        up = [self.side(a - y, FAR / mu) for a, y in pairs(x, b)]
        if not self.c.sym:
            return REAL[name](x, b, mu)
        return shaped([(a if u == larger else y) for u, (a, y) in zip(up, pairs(x, b))], x, b)

    def smooth_max(self, x, b, mu=10.0):
        return self.pick('smooth_max', x, b, mu, True)

    def smooth_min(self, x, b, mu=100.0):
        return self.pick('smooth_min', x, b, mu, False)


class swapped:
    def __init__(self, c):
        self.s = Step(c)

    def __enter__(self):
        self.undo = []
        for mn, m in list(sys.modules.items()):
            if m is None or not mn.startswith('aviary.'):
                continue
            for n in NAMES:
                if m.__dict__.get(n) is REAL[n]:
                    self.undo.append((m.__dict__, n))
                    m.__dict__[n] = getattr(self.s, n)

    def __exit__(self, *a):
        for d, n in self.undo:
            d[n] = REAL[n]
        return False


def compare(c, cls, opts, key):
    on, off = dict(opts, **{key: True}), dict(opts, **{key: False})
    k = H.build(cls, off)[1]
    vals = {}
    for n in k._var_rel_names['input']:
        m = k._var_rel2meta[n]
        dv = np.broadcast_to(np.asarray(m['val'], dtype=float), m['shape']).reshape(-1)
        vals[n] = c.arr([c.real(f'{n}[{i}]', *H.domain_of(m, float(dv[i]), n)) for i in range(dv.size)]).reshape(m['shape'])
    for n in vals:
        if n == 'aircraft:landing_gear:main_gear_location':
            # the smooth form changes over between 0 and 1 % of span, on purpose
            v = vals[n].reshape(-1)[0]
            if not bool(v > 0.01):
                c.assume(v <= 0.0)
    exact = c.comp(cls, off, vals)
    with swapped(c):
        smooth = c.comp(cls, on, vals)
    for n in exact:
        c.equal(n, smooth[n], exact[n])


def _register():
    for cls in H.discover()[0]:
        try:
            k = cls()
        except Exception:  # noqa: BLE001
            continue
        keys = [n for n in k.options._dict if n.split(':')[-1].startswith('smooth')]
        if len(keys) != 1:
            continue
        key, = keys
        seen = set()
        for label, opts in H.configs(cls, 60, numbers=True):
            opts = {n: v for n, v in opts.items() if n != key}
            r = repr(sorted(opts.items(), key=str))
            if r in seen:
                continue
            seen.add(r)

            def fn(c, cls=cls, opts=opts, key=key):
                return compare(c, cls, opts, key)
            REG.setdefault('C24', []).append(('quick' if len(seen) <= 6 else 'thorough', Scn(
                'C24', f'{H.cname(cls)} {label}', fn, dict(functions=[cls.__name__], seconds=60, max_paths=60, total=False, skip_eq=True))))


_register()

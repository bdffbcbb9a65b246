"""Type tests of the code under test, taught about symbolic numbers.

`isinstance`, `type`, `float` and `int` of chosen modules are replaced by versions that treat a symbolic real as a float and
a symbolic integer as an int; for every other value they are the builtins.
"""
import builtins

import numpy as np

from .expr import B, R, Term


def is_int(t):
    if t.op == 'c':
        return isinstance(t.args[0], int)
    if t.op in ('ivar', 'floor'):
        return True
    if t.op in ('+', '*'):
        return all(is_int(a) for a in t.args)
    if t.op == 'ite':
        return all(is_int(a) for a in t.args[1:])
    return False


def _types(x):
    if isinstance(x, B):
        return (bool, int)
    return (int, float) if is_int(x) else (float,)


def sym_isinstance(x, cls):
    if cls is sym_type:
        cls = builtins.type
    if builtins.isinstance(cls, tuple) and (sym_float in cls or sym_int in cls):
        cls = tuple(builtins.float if c is sym_float else builtins.int if c is sym_int else c for c in cls)
    if builtins.isinstance(cls, tuple):
        cls = tuple(getattr(np, c.__name__, c) if callable(c) and not builtins.isinstance(c, builtins.type) and hasattr(c, '__name__') else c for c in cls)
    elif cls is sym_float or cls is sym_int:
        cls = builtins.float if cls is sym_float else builtins.int
    if builtins.isinstance(x, Term):
        cs = cls if builtins.isinstance(cls, tuple) else (cls,)
        flat = []
        for c in cs:
            flat.extend(c if builtins.isinstance(c, tuple) else (c,))
        return any(issubclass(t, c) for t in _types(x) for c in flat) or builtins.isinstance(x, cls)
    return builtins.isinstance(x, cls)


def sym_type(x, *a):
    if not a and builtins.isinstance(x, Term):
        return _types(x)[0]
    return builtins.type(x, *a)


def install(*modules):
    for m in modules:
        m.isinstance = sym_isinstance
        m.type = sym_type


class _Math:
    """the math module, with the functions a symbolic number can take part in"""

    def __init__(self, m):
        self._m = m

    def __getattr__(self, k):
        return getattr(self._m, k)

    def isclose(self, a, b, *, rel_tol=1e-09, abs_tol=0.0):
        if builtins.isinstance(a, Term) or builtins.isinstance(b, Term):
            if b in (float('inf'), float('-inf')) if not builtins.isinstance(b, Term) else False:
                return False
            d, m = abs(a - b), abs(a)
            n = abs(b)
            if n > m:
                m = n
            t = rel_tol * m
            return bool(d <= t) or bool(d <= abs_tol)
        return self._m.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)


def install_math(*modules):
    import math
    for mod in modules:
        mod.math = _Math(math)


def sym_float(x=0.0):
    if builtins.isinstance(x, np.ndarray) and x.size == 1:
        x = x.reshape(-1)[0]
    return x if builtins.isinstance(x, Term) else builtins.float(x)


def install_float(*modules):
    for m in modules:
        m.float = sym_float


def sym_int(x=0, *a):
    if not a and builtins.isinstance(x, Term):
        return x.__trunc__()
    return builtins.int(x, *a)


def install_int(*modules):
    for m in modules:
        m.int = sym_int

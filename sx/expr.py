"""Symbolic real/boolean terms with operator overloading, and symbolic execution by path forking.

The real Python code of the system under test is *run* on these terms.  A branch on a symbolic
condition asks the current Explorer, which forks the execution (by re-execution with a decision
prefix).  Terms are hash-consed; constants are Python floats/ints.
"""
import math
import numpy as np
from fractions import Fraction


class Unsupported(Exception):
    """The code under test did something the symbolic executor cannot represent."""


class PathAbort(BaseException):
    """Stop the current path (infeasible, or budget exceeded)."""


class Pool:
    def __init__(self):
        self.tab = {}
        self.n = 0


POOL = Pool()


def reset_pool():
    global POOL
    POOL = Pool()
    try:
        from . import cas
        cas.CACHE.clear()
    except ImportError:
        pass


_NUM = (int, float, np.floating, np.integer, Fraction)


def isnum(x):
    return isinstance(x, _NUM) and not isinstance(x, bool) or isinstance(x, (bool, np.bool_))


def mk(op, *args):
    key = (op,) + tuple(a.id if isinstance(a, Term) else ('k', a) for a in args)
    t = POOL.tab.get(key)
    if t is None:
        cls = B if op in BOOL_OPS else R
        t = cls.__new__(cls)
        t.op = op
        t.args = args
        POOL.n += 1
        t.id = POOL.n
        POOL.tab[key] = t
    return t


BOOL_OPS = {'lt', 'le', 'eq', 'and', 'or', 'not', 'bconst', 'bvar'}


def _ufunc_dispatch(self, ufunc, method, *inputs, **kwargs):
    from .sarr import apply_ufunc
    return apply_ufunc(ufunc, method, inputs, kwargs)


class Term:
    __slots__ = ('op', 'args', 'id', '__weakref__')
    __array_priority__ = 1000.0
    __array_ufunc__ = _ufunc_dispatch

    def __hash__(self):
        # when histories are studied, equal keys of the code's own tables must be found: lookups compare the terms
        return 7 if EX.same_hash else self.id

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported('pickle of symbolic term')


def const(x):
    if isinstance(x, Term):
        return x
    if isinstance(x, (bool, np.bool_)):
        return mk('c', int(x))
    if isinstance(x, (int, np.integer)):
        return mk('c', int(x))
    if isinstance(x, Fraction):
        return mk('c', float(x))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x != x or x in (math.inf, -math.inf):
            raise Unsupported(f'non-finite constant {x} mixed with symbolic value')
        if x == int(x) and abs(x) < 1e15:
            x = int(x)
        return mk('c', x)
    if isinstance(x, (complex, np.complexfloating)):
        if x.imag == 0:
            return const(float(x.real))
    if isinstance(x, np.ndarray) and x.size == 1:
        return const(x.item())
    raise Unsupported(f'cannot convert {type(x)} to a symbolic real')


def cval(t):
    """Python number if the term is a constant, else None."""
    if isinstance(t, Term):
        return t.args[0] if t.op == 'c' else None
    return t


def var(name, integer=False):
    return mk('ivar' if integer else 'v', name)


def _num(x):
    """normalise numeric results: plain python numbers for constants."""
    if isinstance(x, R) and x.op == 'c':
        return float(x.args[0]) if not isinstance(x.args[0], int) else float(x.args[0])
    return x


def add(a, b):
    a = const(a)
    b = const(b)
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None:
        return const(ca + cb)
    if ca is not None and ca == 0:
        return b
    if cb is not None and cb == 0:
        return a
    if ca is not None or (cb is None and a.id > b.id):
        a, b = b, a
    return mk('+', a, b)


def neg(a):
    return mul(-1, a)


def sub(a, b):
    if isinstance(a, Term) and a is b:
        return const(0)
    return add(a, neg(b))


def mul(a, b):
    a = const(a)
    b = const(b)
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None:
        return const(ca * cb)
    if ca is not None:
        a, b, ca, cb = b, a, cb, ca
    if cb is not None:
        if cb == 0:
            return const(0)
        if cb == 1:
            return a
        if a.op == '*' and a.args[1].op == 'c':
            return mul(a.args[0], a.args[1].args[0] * cb)
    elif a.id > b.id:
        a, b = b, a
    return mk('*', a, b)


def div(a, b):
    b = const(b)
    cb = cval(b)
    if cb is not None:
        if cb == 0:
            ca = cval(a) if isinstance(a, Term) else a
            raise ZeroDivisionError('symbolic division by constant zero')
        ca = cval(const(a))
        if ca is not None:
            return const(ca / cb)
        return mul(a, rationalize_inv(cb))
    return mul(a, pow_(b, -1))


def rationalize_inv(c):
    return 1.0 / c


def pow_(a, e):
    a = const(a)
    e = const(e)
    ca, ce = cval(a), cval(e)
    if ca is not None and ce is not None:
        if ca == 0 and ce < 0:
            raise ZeroDivisionError('0 ** negative')
        r = float(ca) ** ce if not (isinstance(ca, int) and isinstance(ce, int) and ce >= 0) else ca ** ce
        if isinstance(r, complex):
            raise Unsupported('negative base with fractional exponent')
        return const(r)
    if ce is not None:
        if ce == 0:
            return const(1)
        if ce == 1:
            return a
        if a.op == 'pow':
            e1 = a.args[1]
            # (x^e1)^ce = x^(e1*ce) sound if e1 is an odd integer-ish/fractional (base>0), not for even ints
            if isinstance(e1, int) and isinstance(ce, int):
                return pow_(a.args[0], e1 * ce)
            if not isinstance(e1, int):
                return pow_(a.args[0], e1 * ce)
        return mk('pow', a, ce)
    if ca is not None:
        if ca <= 0:
            raise Unsupported('non-positive constant base with symbolic exponent')
        return exp(mul(e, math.log(ca)))
    return exp(mul(e, log(a)))


def fn1(name, f):
    def g(a):
        a = const(a)
        c = cval(a)
        if c is not None:
            return const(f(c))
        return mk(name, a)
    return g


exp = fn1('exp', math.exp)
sin = fn1('sin', math.sin)
cos = fn1('cos', math.cos)
arctan = fn1('arctan', math.atan)
arcsin = fn1('arcsin', math.asin)
arccos = fn1('arccos', math.acos)


def log(a):
    a = const(a)
    c = cval(a)
    if c is not None:
        return const(math.log(c))
    if a.op == 'exp':
        return a.args[0]
    return mk('log', a)


def tan(a):
    return div(sin(a), cos(a))


def tanh(a):
    a = const(a)
    if cval(a) is not None:
        return const(math.tanh(cval(a)))
    return mk('tanh', a)


def cosh(a):
    return mul(0.5, add(exp(a), exp(neg(a))))


def sinh(a):
    return mul(0.5, sub(exp(a), exp(neg(a))))


def sqrt(a):
    return pow_(a, 0.5)


def fabs(a):
    if not isinstance(a, Term):
        return abs(a)
    if a.op == 'c':
        return const(abs(a.args[0]))
    if a.op == 'exp' or (a.op == 'pow' and not isinstance(a.args[1], int)):
        return a
    if EX.cur is not None and EX.cur.opaque_abs:
        return mk('absop', a)
    if bool(ge(a, 0)):
        return a
    return neg(a)


def floor(a):
    a = const(a)
    c = cval(a)
    if c is not None:
        return const(math.floor(c))
    if a.op in ('floor', 'ivar'):
        return a
    return mk('floor', a)


def ceil(a):
    return neg(floor(neg(a)))


# ------------------------------------------------------------------ booleans
def bconst(x):
    return mk('bconst', bool(x))


def asB(x):
    if isinstance(x, B):
        return x
    if isinstance(x, (bool, np.bool_)):
        return bconst(x)
    if isinstance(x, R):
        return ne(x, 0)
    if isnum(x):
        return bconst(bool(x))
    raise Unsupported(f'not a boolean: {type(x)}')


def _cmp(op, a, b):
    # infinities compare concretely
    for s, x in ((0, a), (1, b)):
        if isinstance(x, (float, np.floating)) and (math.isinf(x) or x != x):
            if x != x:
                return bconst(False)
            big = x > 0
            if op == 'eq':
                return bconst(False)
            return bconst(big if s == 1 else not big)
    a = const(a)
    b = const(b)
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None:
        return bconst({'lt': ca < cb, 'le': ca <= cb, 'eq': ca == cb}[op])
    if a is b:
        return bconst(op != 'lt')
    if op == 'eq' and a.id > b.id:
        a, b = b, a
    return mk(op, a, b)


def lt(a, b):
    return _cmp('lt', a, b)


def le(a, b):
    return _cmp('le', a, b)


def gt(a, b):
    return _cmp('lt', b, a)


def ge(a, b):
    return _cmp('le', b, a)


def eq(a, b):
    return _cmp('eq', a, b)


def ne(a, b):
    return not_(eq(a, b))


def not_(b):
    b = asB(b)
    if b.op == 'bconst':
        return bconst(not b.args[0])
    if b.op == 'not':
        return b.args[0]
    if b.op == 'lt':
        return mk('le', b.args[1], b.args[0])
    if b.op == 'le':
        return mk('lt', b.args[1], b.args[0])
    return mk('not', b)


def and_(a, b):
    a, b = asB(a), asB(b)
    if a.op == 'bconst':
        return b if a.args[0] else a
    if b.op == 'bconst':
        return a if b.args[0] else b
    return mk('and', a, b)


def or_(a, b):
    a, b = asB(a), asB(b)
    if a.op == 'bconst':
        return a if a.args[0] else b
    if b.op == 'bconst':
        return b if b.args[0] else a
    return mk('or', a, b)


def strict(c):
    """interior of a condition: non-strict comparisons made strict, equalities of reals made false"""
    if not isinstance(c, Term):
        return c
    if c.op == 'le':
        if any(v.op == 'ivar' for v in variables([c])):
            return c
        return lt(*c.args)
    if c.op == 'eq' and not any(v.op == 'ivar' for v in variables([c])):
        return bconst(False)
    if c.op == 'and':
        r = bconst(True)
        for x in c.args:
            r = and_(r, strict(x))
        return r
    if c.op == 'or':
        r = bconst(False)
        for x in c.args:
            r = or_(r, strict(x))
        return r
    return c


def smax(a, b):
    if not isinstance(a, Term) and not isinstance(b, Term):
        return max(a, b)
    return a if bool(ge(a, b)) else b


def smin(a, b):
    if not isinstance(a, Term) and not isinstance(b, Term):
        return min(a, b)
    return a if bool(le(a, b)) else b


class B(Term):
    __slots__ = ()

    def __bool__(self):
        if self.op == 'bconst':
            return self.args[0]
        if EX.cur is None:
            raise Unsupported('symbolic branch outside an exploration')
        return EX.cur.decide(self)

    def __and__(self, o):
        return _lift2(and_, self, o)
    __rand__ = __and__

    def __or__(self, o):
        return _lift2(or_, self, o)
    __ror__ = __or__

    def __invert__(self):
        return not_(self)

    def __eq__(self, o):
        if isinstance(o, (B, bool, np.bool_)):
            o = asB(o)
            if o.op == 'bconst':
                return self if o.args[0] else not_(self)
            return mk('or', and_(self, o), and_(not_(self), not_(o)))
        if isnum(o):
            return self == bool(o) if o in (0, 1) else bconst(False)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)
    __hash__ = Term.__hash__

    def _r(self):
        return const(1) if bool(self) else const(0)

    def __add__(self, o): return self._r() + o
    __radd__ = __add__
    def __sub__(self, o): return self._r() - o
    def __rsub__(self, o): return o - self._r()
    def __mul__(self, o): return self._r() * o
    __rmul__ = __mul__
    def __int__(self): return int(bool(self))
    __index__ = __int__

    def astype(self, dt):
        return self._r()

    def any(self): return self
    def all(self): return self
    def item(self): return self


def _lift2(f, a, b):
    if isinstance(b, np.ndarray):
        from .sarr import elementwise
        return elementwise(f, a, b)
    return f(a, b)


def _rop(f, swap=False):
    def g(self, o):
        if isinstance(o, np.ndarray):
            from .sarr import elementwise
            return elementwise((lambda x, y: f(y, x)) if swap else f, self, o)
        if isinstance(o, B):
            o = o._r()
        if not (isnum(o) or isinstance(o, R) or isinstance(o, (complex, np.complexfloating))):
            return NotImplemented
        return f(o, self) if swap else f(self, o)
    return g


def floordiv(a, b):
    return floor(div(a, b))


def mod(a, b):
    return sub(a, mul(b, floor(div(a, b))))


class R(Term):
    __slots__ = ()
    __add__ = _rop(add)
    __radd__ = _rop(add, True)
    __sub__ = _rop(sub)
    __rsub__ = _rop(sub, True)
    __mul__ = _rop(mul)
    __rmul__ = _rop(mul, True)
    __truediv__ = _rop(div)
    __rtruediv__ = _rop(div, True)
    __floordiv__ = _rop(floordiv)
    __rfloordiv__ = _rop(floordiv, True)
    __mod__ = _rop(mod)
    __rmod__ = _rop(mod, True)
    __pow__ = _rop(pow_)
    __rpow__ = _rop(pow_, True)
    __lt__ = _rop(lt)
    __le__ = _rop(le)
    __gt__ = _rop(gt)
    __ge__ = _rop(ge)

    def __eq__(self, o):
        if isinstance(o, np.ndarray):
            from .sarr import elementwise
            return elementwise(eq, self, o)
        if isnum(o) or isinstance(o, R):
            return eq(self, o)
        if isinstance(o, B):
            return o == self
        return False

    def __ne__(self, o):
        if isinstance(o, np.ndarray):
            from .sarr import elementwise
            return elementwise(ne, self, o)
        r = self.__eq__(o)
        return not_(r) if isinstance(r, B) else (not r)
    __hash__ = Term.__hash__

    def __neg__(self): return neg(self)
    def __pos__(self): return self
    def __abs__(self): return fabs(self)

    def __bool__(self):
        c = cval(self)
        if c is not None:
            return bool(c)
        return bool(ne(self, 0))

    def __float__(self):
        c = cval(self)
        if c is not None:
            return float(c)
        raise Unsupported('float() of a symbolic value')

    def __int__(self):
        c = cval(self)
        if c is not None:
            return int(c)
        if EX.cur is not None and EX.cur.concretize_ints:
            return EX.cur.pick_int(self)
        raise Unsupported('int() of a symbolic value')

    def __index__(self):
        c = cval(self)
        if isinstance(c, int):
            return c
        if EX.cur is not None and EX.cur.concretize_ints:
            return EX.cur.pick_int(self)
        raise Unsupported('symbolic value used as an index')

    def __complex__(self):
        return complex(float(self))

    def __round__(self, n=None):
        if n in (None, 0):
            return floor(add(self, 0.5))
        if isinstance(n, int):
            return div(floor(add(mul(self, 10 ** n), 0.5)), 10 ** n)
        raise Unsupported('round(sym, n)')

    def __floor__(self): return floor(self)
    def __ceil__(self): return ceil(self)
    def __trunc__(self):
        return floor(self) if bool(ge(self, 0)) else ceil(self)

    # numpy-like scalar interface
    @property
    def real(self):
        if EX.cur is not None and EX.cur.cs_mode:
            return mk('stopgrad', self)
        return self

    @property
    def imag(self):
        if EX.cur is not None and EX.cur.cs_mode:
            raise Unsupported('imag of symbolic value under complex step')
        return 0.0

    @property
    def size(self): return 1
    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0
    @property
    def dtype(self): return np.dtype(object)
    @property
    def T(self): return self

    def item(self, *a): return self

    def __getitem__(self, idx):
        from .sarr import sarray
        return sarray(self)[idx]

    def astype(self, *a, **k): return self
    def copy(self): return self
    def flatten(self):
        from .sarr import sarray
        return sarray([self])
    ravel = flatten
    def reshape(self, *s):
        from .sarr import sarray
        return sarray([self]).reshape(*s)
    def sum(self, *a, **k): return self
    def max(self, *a, **k): return self
    def min(self, *a, **k): return self
    def conjugate(self): return self
    def tolist(self): return self
    def is_integer(self):
        return eq(self, floor(self))

    def __repr__(self):
        return show(self, 4)

    def __str__(self):
        return show(self, 4)

    def __format__(self, spec):
        return WRITE.put(self) if WRITE.on and not spec else '<sym>'


class Write:
    """while on, a symbolic number written into a text becomes a name that the text's reader can look up"""
    on = False

    def __init__(self):
        self.terms = {}

    def put(self, t):
        self.terms[f'_sx_{t.id}'] = t
        return f'_sx_{t.id}'


WRITE = Write()


def show(t, depth=6):
    if not isinstance(t, Term):
        return repr(t)
    if t.op in ('v', 'ivar', 'bvar'):
        return t.args[0]
    if t.op in ('c', 'bconst'):
        return repr(t.args[0])
    if depth == 0:
        return f'#{t.id}'
    a = [show(x, depth - 1) for x in t.args]
    if t.op in ('+', '*'):
        return '(' + f' {t.op} '.join(a) + ')'
    if t.op in ('lt', 'le', 'eq'):
        return f"({a[0]} {({'lt': '<', 'le': '<=', 'eq': '=='})[t.op]} {a[1]})"
    if t.op == 'pow':
        return f'{a[0]}^{a[1]}'
    return f"{t.op}({', '.join(a)})"


def B_repr(self):
    return show(self, 4)


B.__repr__ = B_repr


# ------------------------------------------------------------------ numeric evaluation
def evaluate(roots, env, memo=None):
    """Evaluate terms at a concrete assignment.  Returns list of floats/bools (may be nan)."""
    memo = {} if memo is None else memo
    out = []
    for r in roots:
        out.append(_eval(r, env, memo))
    return out


_EF = {'exp': math.exp, 'log': math.log, 'sin': math.sin, 'cos': math.cos, 'arctan': math.atan,
       'arcsin': math.asin, 'arccos': math.acos, 'tanh': math.tanh, 'floor': math.floor,
       'absop': abs, 'stopgrad': lambda x: x}


def _eval(root, env, memo):
    if not isinstance(root, Term):
        return root
    stack = [root]
    while stack:
        t = stack[-1]
        if t.id in memo:
            stack.pop()
            continue
        pend = [a for a in t.args if isinstance(a, Term) and a.id not in memo]
        if pend:
            stack.extend(pend)
            continue
        stack.pop()
        a = [memo[x.id] if isinstance(x, Term) else x for x in t.args]
        op = t.op
        try:
            if op in ('c', 'bconst'):
                v = a[0]
            elif op in ('v', 'ivar', 'bvar'):
                v = env[a[0]]
            elif op == '+':
                v = a[0] + a[1]
            elif op == '*':
                v = a[0] * a[1]
            elif op == 'pow':
                if a[0] < 0 and not isinstance(a[1], int):
                    v = math.nan
                else:
                    v = a[0] ** a[1]
            elif op in ('lt', 'le', 'eq') and (a[0] != a[0] or a[1] != a[1]):
                v = None
            elif op == 'lt':
                v = a[0] < a[1]
            elif op == 'le':
                v = a[0] <= a[1]
            elif op == 'eq':
                v = a[0] == a[1]
            elif op == 'and':
                v = a[0] and a[1]
            elif op == 'or':
                v = a[0] or a[1]
            elif op == 'not':
                v = None if a[0] is None else not a[0]
            elif op == 'arctan2':
                v = math.atan2(a[0], a[1])
            elif op == 'uf':
                v = env[t.args[0]](*a[1:])
            else:
                v = _EF[op](a[0])
        except (ValueError, ZeroDivisionError, OverflowError):
            v = math.nan
        memo[t.id] = v
    return memo[root.id]


# ------------------------------------------------------------------ differentiation
class Diff:
    """Forward symbolic differentiation of the DAG, memoised, with respect to one variable."""

    def __init__(self, wrt, cs=False):
        self.wrt = wrt
        self.memo = {}
        self.dep = {}
        self.cs = cs

    def depends(self, root):
        dep = self.dep
        stack = [root]
        while stack:
            t = stack[-1]
            if t.id in dep:
                stack.pop()
                continue
            pend = [a for a in t.args if isinstance(a, Term) and a.id not in dep]
            if pend:
                stack.extend(pend)
                continue
            stack.pop()
            dep[t.id] = (t is self.wrt) or any(dep[a.id] for a in t.args if isinstance(a, Term))
        return dep[root.id]

    def d(self, root):
        if not isinstance(root, Term):
            return const(0)
        if not self.depends(root):
            return const(0)
        memo = self.memo
        dep = self.dep
        stack = [root]
        while stack:
            t = stack[-1]
            if t.id in memo:
                stack.pop()
                continue
            if t is self.wrt:
                memo[t.id] = const(1)
                stack.pop()
                continue
            if not dep[t.id]:
                memo[t.id] = const(0)
                stack.pop()
                continue
            pend = [a for a in t.args if isinstance(a, Term) and a.id not in memo]
            if pend:
                stack.extend(pend)
                continue
            stack.pop()
            a = t.args
            D = [memo[x.id] if isinstance(x, Term) else None for x in a]
            op = t.op
            if op == '+':
                v = add(D[0], D[1])
            elif op == '*':
                v = add(mul(D[0], a[1]), mul(a[0], D[1]))
            elif op == 'pow':
                v = mul(mul(a[1], pow_(a[0], a[1] - 1)), D[0])
            elif op == 'exp':
                v = mul(t, D[0])
            elif op == 'log':
                v = div(D[0], a[0])
            elif op == 'sin':
                v = mul(cos(a[0]), D[0])
            elif op == 'cos':
                v = neg(mul(sin(a[0]), D[0]))
            elif op == 'arctan':
                v = div(D[0], add(1, mul(a[0], a[0])))
            elif op == 'arctan2':
                y, x = a
                v = div(sub(mul(x, D[0]), mul(y, D[1])), add(mul(x, x), mul(y, y)))
            elif op == 'arcsin':
                v = div(D[0], sqrt(sub(1, mul(a[0], a[0]))))
            elif op == 'arccos':
                v = neg(div(D[0], sqrt(sub(1, mul(a[0], a[0])))))
            elif op == 'tanh':
                v = mul(sub(1, mul(t, t)), D[0])
            elif op in ('floor', 'stopgrad'):
                v = D[0] if op == 'stopgrad' and not self.cs else const(0)
            elif op == 'absop':
                v = const(0)
            elif op == 'uf':
                raise Unsupported('derivative of uninterpreted function')
            else:
                raise Unsupported(f'derivative of {op}')
            memo[t.id] = v
        return memo[root.id]


def subst(root, mp, memo=None):
    """Substitute variables (dict name -> term) in a term."""
    memo = {} if memo is None else memo
    if not isinstance(root, Term):
        return root
    stack = [root]
    while stack:
        t = stack[-1]
        if t.id in memo:
            stack.pop()
            continue
        pend = [a for a in t.args if isinstance(a, Term) and a.id not in memo]
        if pend:
            stack.extend(pend)
            continue
        stack.pop()
        a = [memo[x.id] if isinstance(x, Term) else x for x in t.args]
        op = t.op
        if op in ('v', 'ivar'):
            v = mp.get(a[0], t)
            v = const(v)
        elif op == 'bvar':
            v = mp.get(a[0], t)
        elif op == 'c' or op == 'bconst':
            v = t
        else:
            v = _BUILD[op](*a) if op in _BUILD else mk(op, *a)
        memo[t.id] = v
    return memo[root.id]


def arctan2(y, x):
    y, x = const(y), const(x)
    if cval(y) is not None and cval(x) is not None:
        return const(math.atan2(cval(y), cval(x)))
    return mk('arctan2', y, x)


_BUILD = {'+': add, '*': mul, 'pow': pow_, 'exp': exp, 'log': log, 'sin': sin, 'cos': cos,
          'arctan': arctan, 'arctan2': arctan2, 'arcsin': arcsin, 'arccos': arccos, 'tanh': tanh,
          'floor': floor, 'lt': lt, 'le': le, 'eq': eq, 'and': and_, 'or': or_, 'not': not_}


def variables(roots):
    seen = set()
    out = []
    stack = [r for r in roots if isinstance(r, Term)]
    while stack:
        t = stack.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op in ('v', 'ivar', 'bvar'):
            out.append(t)
        stack.extend(a for a in t.args if isinstance(a, Term))
    return sorted(out, key=lambda t: t.id)


def size(roots):
    seen = set()
    stack = [r for r in roots if isinstance(r, Term)]
    while stack:
        t = stack.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        stack.extend(a for a in t.args if isinstance(a, Term))
    return len(seen)


class EX:
    """holder for the current explorer"""
    cur = None
    same_hash = False

"""Interval bounds of a term over the box of its variables (outward slack covers the floating-point evaluation)."""
import math

from .expr import Term

INF = math.inf
ALL = (-INF, INF)


def _wide(lo, hi):
    if lo != lo or hi != hi:
        return ALL
    s = 1e-12 * max(abs(lo) if lo > -INF else 0.0, abs(hi) if hi < INF else 0.0) + 1e-300
    return lo - s, hi + s


def _m(x, y):
    return 0.0 if x == 0 or y == 0 else x * y


def _mul(a, b):
    p = [_m(x, y) for x in a for y in b]
    return min(p), max(p)


def _exp(x):
    if x > 700:
        return INF
    return math.exp(x) if x > -745 else 0.0


def _pow(a, e, t):
    lo, hi = a
    if isinstance(e, Term) or not isinstance(e, (int, float)):
        return ALL
    try:
        if isinstance(e, int) and e > 0:
            p = [x ** e if abs(x) < INF else (INF if x > 0 or e % 2 == 0 else -INF) for x in (lo, hi)]
            if e % 2 == 0:
                return (0.0 if lo <= 0 <= hi else min(p)), max(p)
            return p[0], p[1]
        if isinstance(e, int):
            if lo <= 0 <= hi:
                return ALL
            q = _pow(a, -e, t)
            if q[0] <= 0 <= q[1]:
                return ALL
            r = [0.0 if abs(x) == INF else 1.0 / x for x in q]
            return min(r), max(r)
        if hi <= 0:
            return ALL
        lo = max(lo, 0.0)
        f = lambda x: INF if x == INF else x ** e  # noqa: E731
        if e > 0:
            return f(lo), f(hi)
        return (0.0 if hi == INF else hi ** e), (INF if lo == 0 else lo ** e)
    except (OverflowError, ZeroDivisionError):
        return ALL


def bounds(t, domains, memo):
    if not isinstance(t, Term):
        return float(t), float(t)
    stack = [t]
    while stack:
        u = stack[-1]
        if u.id in memo:
            stack.pop()
            continue
        op = u.op
        if op == 'c':
            c = float(u.args[0])
            memo[u.id] = (c, c)
            stack.pop()
            continue
        if op in ('v', 'ivar'):
            d = domains.get(u.args[0])
            memo[u.id] = (float(d[0]), float(d[1])) if d is not None else ALL
            stack.pop()
            continue
        if op not in ('+', '*', 'pow', 'exp', 'log', 'tanh', 'arctan', 'floor', 'absop', 'sin', 'cos', 'stopgrad'):
            memo[u.id] = ALL
            stack.pop()
            continue
        pend = [a for a in u.args if isinstance(a, Term) and a.id not in memo]
        if pend:
            stack.extend(pend)
            continue
        stack.pop()
        a = [memo[x.id] if isinstance(x, Term) else (float(x), float(x)) for x in u.args]
        x = a[0]
        if op == '+':
            r = (x[0] + a[1][0], x[1] + a[1][1])
        elif op == '*':
            r = _mul(x, a[1])
            if u.args[0] is u.args[1]:
                r = (max(r[0], 0.0), r[1])
        elif op == 'pow':
            e = u.args[1]
            if isinstance(e, Term):
                e = e.args[0] if e.op == 'c' else e
            r = _pow(x, e, u)
        elif op == 'exp':
            r = (_exp(x[0]), _exp(x[1]))
        elif op == 'log':
            r = ALL if x[1] <= 0 else ((-INF if x[0] <= 0 else (math.log(x[0]) if x[0] < INF else INF)),
                                       INF if x[1] == INF else math.log(x[1]))
        elif op == 'tanh':
            r = (math.tanh(x[0]), math.tanh(x[1]))
        elif op == 'arctan':
            r = (math.atan(x[0]), math.atan(x[1]))
        elif op == 'floor':
            r = (math.floor(x[0]) if x[0] > -INF else -INF, math.floor(x[1]) if x[1] < INF else INF)
        elif op == 'absop':
            r = (0.0 if x[0] <= 0 <= x[1] else min(abs(x[0]), abs(x[1])), max(abs(x[0]), abs(x[1])))
        elif op in ('sin', 'cos'):
            r = (-1.0, 1.0)
        else:
            r = x
        memo[u.id] = _wide(*r)
    return memo[t.id]


def truth(cond, domains, memo):
    """True / False when the comparison is settled on the whole box, else None"""
    if cond.op not in ('lt', 'le', 'eq'):
        return None
    a = bounds(cond.args[0], domains, memo)
    b = bounds(cond.args[1], domains, memo)
    s = 1e-9 * (1.0 + max(min(abs(x), 1e30) for x in a + b))
    if a[1] + s < b[0]:
        return cond.op != 'eq'
    if a[0] > b[1] + s:
        return False
    return None

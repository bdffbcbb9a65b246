"""C16: the smooth stand-ins for step, min, max and truncation."""
import math

import numpy as np

from aviary.utils import math as M
from sx.scen import scenario

LN2 = math.log(2.0)


def unwrap(v):
    return v.reshape(-1)[0] if isinstance(v, np.ndarray) else v


def call(c, f, kind, x, *a):
    """f on a scalar or on an array whose first element is x"""
    if kind == 'scalar':
        return unwrap(f(x, *a))
    return f(c.arr([x, c.real('other', -50.0, 50.0, 1.0)]), *a)[0]


KINDS = [dict(kind='scalar'), dict(kind='array')]
MUS = (-2.0, -0.005, 0.01, 1.0, 50.0)


@scenario('C16', functions=['sigmoidX'], params=[dict(kind=k, mu=m) for k in ('scalar', 'array') for m in MUS])
def sigmoid_is_logistic(c, kind, mu):
    """the logistic function at every distance from the centre, from either side"""
    d, x0 = c.real('d', -150.0, 150.0, 0.3), c.real('x0', -50.0, 50.0, 1.0)
    y = call(c, M.sigmoidX, kind, x0 + d * mu, x0, mu)
    e = c.exp(-d)
    c.equal('logistic', y * (1 + e), 1.0)
    c.finite('finite', y)


@scenario('C16', functions=['sigmoidX'], params=[dict(kind=k, mu=m) for k in ('scalar', 'array') for m in MUS])
def sigmoid_is_a_step(c, kind, mu):
    """between 0 and 1, one half at the centre, symmetric about it, increasing with (x - x0) / mu, also far away"""
    x, x2, x0 = c.real('x', -1e4, 1e4, 0.3), c.real('x2', -1e4, 1e4, 0.3), c.real('x0', -50.0, 50.0, 1.0)
    y, y2 = call(c, M.sigmoidX, kind, x, x0, mu), call(c, M.sigmoidX, kind, x2, x0, mu)
    c.ge('not negative', y, 0.0)
    c.le('at most one', y, 1.0)
    c.equal('one half at the centre', call(c, M.sigmoidX, kind, x0, x0, mu), 0.5)
    if (x2 - x) * (1 if mu > 0 else -1) > 0:
        c.le('increasing', y, y2)
    else:
        c.le('increasing', y2, y)
    if abs(x - x0) < 300 * abs(mu):
        c.equal('symmetric', y + call(c, M.sigmoidX, kind, 2 * x0 - x, x0, mu), 1.0)


@scenario('C16', functions=['sigmoidX', 'dSigmoidXdx'], params=[dict(kind=k, mu=m) for k in ('scalar', 'array') for m in MUS])
def sigmoid_slope(c, kind, mu):
    d, x0 = c.real('d', -100.0, 100.0, 0.3), c.real('x0', -50.0, 50.0, 1.0)
    x = c.real('x', -1e4, 1e4, 0.3)
    c.assume(abs(x - x0) < 30 * abs(mu))
    s = call(c, M.dSigmoidXdx, kind, x, x0, mu)
    c.equal('slope', s, c.slope(lambda v: call(c, M.sigmoidX, kind, v, x0, mu), x), rel=1e-4, atol=1e-5)


@scenario('C16', functions=['sigmoidX', 'dSigmoidXdx'], params=[dict(mu=m) for m in MUS])
def sigmoid_arrays(c, mu):
    """an array gives what its elements give, also with one centre per element and far from the centre"""
    n = 3
    x, x0 = c.array('x', n, -1e3, 1e3, 0.3), c.array('x0', n, -50.0, 50.0, 1.0)
    y, z = M.sigmoidX(x, x0, mu), M.dSigmoidXdx(x, x0, mu)
    for i in range(n):
        c.equal(f'value {i}', y[i], unwrap(M.sigmoidX(x[i], x0[i], mu)))
        c.equal(f'slope {i}', z[i], unwrap(M.dSigmoidXdx(x[i], x0[i], mu)))


@scenario('C16', functions=['smooth_min', 'd_smooth_min'], params=[dict(mu=m) for m in (10.0, 40.0, 100.0, 275.0)])
def smooth_min(c, mu):
    """never above the smaller value, at most ln(2)/mu below it, symmetric, with its own slope, for values of any size"""
    x, b = c.real('x', -1e3, 1e3, 0.3), c.real('b', -1e3, 1e3, 0.5)
    y, m = M.smooth_min(x, b, mu), (x if x < b else b)
    c.finite('finite', y)
    c.le('not above', y, m)
    c.ge('not far below', y, m - LN2 / mu - 1e-9)
    c.equal('symmetric', M.smooth_min(b, x, mu), y)
    s = M.d_smooth_min(x, b, mu)
    c.finite('slope finite', s)
    c.ge('slope not negative', s, 0.0)
    c.le('slope at most one', s, 1.0)
    if abs(x - b) * mu < 20:
        c.equal('slope', s, c.slope(lambda v: M.smooth_min(v, b, mu), x), rel=1e-4, atol=1e-4)


@scenario('C16', functions=['smooth_max', 'd_smooth_max'], params=[dict(mu=m) for m in (1.0, 10.0, 50.0, 200.0)])
def smooth_max(c, mu):
    x, b = c.real('x', -1e3, 1e3, 0.3), c.real('b', -1e3, 1e3, 0.5)
    y, m = M.smooth_max(x, b, mu), (b if x < b else x)
    c.finite('finite', y)
    c.ge('not below', y, m)
    c.le('not far above', y, m + LN2 / mu + 1e-9)
    c.equal('symmetric', M.smooth_max(b, x, mu), y)
    s = M.d_smooth_max(x, b, mu)
    c.finite('slope finite', s)
    c.ge('slope not negative', s, 0.0)
    c.le('slope at most one', s, 1.0)
    if abs(x - b) * mu < 20:
        c.equal('slope', s, c.slope(lambda v: M.smooth_max(v, b, mu), x), rel=1e-4, atol=1e-4)


@scenario('C16', functions=['smooth_min', 'smooth_max'])
def smooth_arrays(c):
    x, b = c.array('x', 2, -1e3, 1e3, 0.3), c.array('b', 2, -1e3, 1e3, 0.5)
    for f in (M.smooth_min, M.smooth_max, M.d_smooth_min, M.d_smooth_max):
        y = f(x, b, 10.0)
        z = f(x, b[0], 10.0)
        c.equal(f'{f.__name__} of arrays', y, c.arr([f(x[i], b[i], 10.0) for i in range(2)]))
        c.equal(f'{f.__name__} of array and number', z, c.arr([f(x[i], b[0], 10.0) for i in range(2)]))


@scenario('C16', functions=['sin_int4', 'dydx_sin_int4'])
def smooth_integer(c):
    """periodic up to the step of one, and with its own slope"""
    v = c.real('v', 0.0, 40.0, 7.3)
    c.equal('one step further', M.sin_int(v + 1.0), M.sin_int(v) + 1.0)
    c.equal('slope of one pass', M.dydx_sin_int(v), c.slope(M.sin_int, v), rel=1e-4, atol=1e-4)
    c.le('one pass moves by at most half a step', abs(M.sin_int(v) - v), 0.5)
    c.equal('slope', M.dydx_sin_int4(v), c.slope(M.sin_int4, v), rel=1e-3, atol=1e-3)


@scenario('C16', functions=['sin_int4'], params=[dict(k=k) for k in (0, 1, 2)])
def smooth_integer_stays(c, k):
    """stays within half a unit of the truncated value, and is exact midway"""
    v = c.real('v', 0.0, 1.0, 0.3)
    c.equal('midway', M.sin_int4(k + 0.5), float(k))
    w = v - 0.5
    c.equal('one pass', M.sin_int(k + v), k + v - c.sin(2 * math.pi * w) / (2 * math.pi))


@scenario('C16', functions=['smooth_int_tanh', 'd_smooth_int_tanh'], params=[dict(mu=m) for m in (10.0, 20.0, 40.0)])
def smooth_integer_tanh(c, mu):
    """between the integers around x, midway at half, with its own slope"""
    x = c.array('x', 2, 0.0, 12.0, 3.3)
    y = M.smooth_int_tanh(x, mu=mu)
    d = M.d_smooth_int_tanh(x, mu=mu)
    for i in range(2):
        c.le(f'within one of it {i}', abs(c.part(y[i]) - x[i]), 1.0)
        c.ge(f'increasing {i}', c.part(d[i]), 0.0)
    fr = x[0] - c.floor(x[0])
    c.equal('value', c.part(y[0]), x[0] - fr + 0.5 * (c.tanh(mu * (fr - 0.5)) + 1))
    c.equal('slope', c.part(d[0]), 0.5 * mu * (1 - c.tanh(mu * (fr - 0.5)) ** 2))

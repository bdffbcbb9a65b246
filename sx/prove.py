"""Dual-mode scenarios.

A scenario is a Python function of a context.  Run under ``Sym`` its inputs are symbolic, the real code is executed on
them path by path and each claim becomes a query; run under ``Con`` the same function exercises the real code on the
numbers of a counterexample, which is how a violation is confirmed before it is reported.
"""
import math
import os
import time
import traceback
import warnings

import numpy as np
import openmdao.api as om

from . import expr as E
from . import deriv, sign, solve, omharness as H
from .expr import R, B, Term, Unsupported, PathAbort, EX
from .sarr import SArr, sarray, patched, NP
from .solve import Explorer


class Skip(Exception):
    """the concrete point does not satisfy an assumption"""


def _flat(x):
    if isinstance(x, np.ndarray):
        return list(x.reshape(-1).view(np.ndarray)) if isinstance(x, SArr) else x.reshape(-1).tolist()
    if isinstance(x, (list, tuple)):
        return [v for y in x for v in _flat(y)]
    return [x]


def _n(x):
    if isinstance(x, B):
        return x._r()
    if isinstance(x, Term):
        return x
    if isinstance(x, (np.generic,)):
        x = x.item()
    if isinstance(x, complex):
        if x.imag:
            raise Unsupported('complex value')
        return x.real
    return x


class Base:
    def __init__(self):
        self.claims = []
        self.cache = {}

    # ---- elementary functions of a scalar
    def exp(self, x):
        return E.exp(x) if isinstance(x, Term) else math.exp(x)

    def sin(self, x):
        return E.sin(x) if isinstance(x, Term) else math.sin(x)

    def tanh(self, x):
        return E.tanh(x) if isinstance(x, Term) else math.tanh(x)

    def floor(self, x):
        return E.floor(x) if isinstance(x, Term) else float(math.floor(x))

    def part(self, x):
        return x if isinstance(x, Term) else float(np.real(x))

    # ---- claims
    def equal(self, label, a, b, rel=1e-7, atol=1e-9):
        fa, fb = _flat(a), _flat(b)
        if len(fa) != len(fb):
            if len(fb) == 1:
                fb = fb * len(fa)
            elif len(fa) == 1:
                fa = fa * len(fb)
            else:
                self._claim(label + ' (size)', 'bool', False, None)
                return
        for i, (x, y) in enumerate(zip(fa, fb)):
            self._claim(label if len(fa) == 1 else f'{label}[{i}]', 'eq', _n(x), _n(y), rel, atol)

    def le(self, label, a, b, tol=1e-9):
        fa, fb = _flat(a), _flat(b)
        n = max(len(fa), len(fb))
        fa = fa * n if len(fa) == 1 else fa
        fb = fb * n if len(fb) == 1 else fb
        for i, (x, y) in enumerate(zip(fa, fb)):
            self._claim(label if n == 1 else f'{label}[{i}]', 'le', _n(x), _n(y), tol)

    def lt(self, label, a, b):
        for i, (x, y) in enumerate(zip(_flat(a), _flat(b))):
            self._claim(label, 'lt', _n(x), _n(y))

    def ge(self, label, a, b, tol=1e-9):
        self.le(label, b, a, tol)

    def true(self, label, c):
        if isinstance(c, np.ndarray):
            c = c.all()
        self._claim(label, 'bool', c if isinstance(c, Term) else bool(c), None)


class Sym(Base):
    sym = True

    def __init__(self, ex):
        super().__init__()
        self.ex = ex

    def real(self, name, lo=0.0, hi=1e4, default=None):
        if lo == hi:
            return E.const(float(lo))
        if name not in self.ex.domains:
            if default is None:
                default = 0.5 * (lo + hi) if math.isfinite(lo + hi) else 1.0
            self.ex.domains[name] = (lo, hi, default)
        return E.var(name)

    def integer(self, name, lo, hi):
        """an integer, one path per value"""
        if name not in self.ex.domains:
            self.ex.domains[name] = (lo, hi, None, 'int')
        return int(E.var(name, integer=True))

    def sint(self, name, lo, hi):
        """a symbolic integer"""
        if name not in self.ex.domains:
            self.ex.domains[name] = (lo, hi, None, 'int')
        return E.var(name, integer=True)

    def array(self, name, n, lo=0.0, hi=1e4, default=None):
        return sarray([self.real(f'{name}[{i}]', lo, hi, default) for i in range(n)])

    def arr(self, xs):
        return sarray(list(xs))

    def assume(self, c):
        if isinstance(c, (bool, np.bool_)):
            if not c:
                raise PathAbort('assumption false')
            return
        self.ex.assume(c)

    def _claim(self, label, kind, a, b, *par):
        self.claims.append((label, kind, a, b, par, len(self.ex.conds)))

    def finite(self, label, v):
        """no exponential overflows and no logarithm is taken of an underflowed number"""
        c = E.bconst(True)
        seen = set()
        st = [x for x in _flat(v) if isinstance(x, Term)]
        while st:
            t = st.pop()
            if t.id in seen:
                continue
            seen.add(t.id)
            if t.op == 'exp':
                c = E.and_(c, E.le(t.args[0], 700.0))
            elif t.op == 'log':
                c = E.and_(c, E.ge(t.args[0], 1e-290))
            st.extend(a for a in t.args if isinstance(a, Term))
        self.true(label, c)

    def slope(self, f, x):
        """derivative of f at the symbolic scalar x"""
        y = _flat(f(x))[0]
        return E.Diff(x).d(y) if isinstance(y, Term) else 0.0

    # ---- real code
    def comp(self, cls, opts=None, inputs=None, states=None, sopts=None):
        """outputs (residuals for an implicit component) of one component; sopts: options with symbolic values"""
        key = (cls, repr(sorted((opts or {}).items(), key=str)))
        if key not in self.cache:
            self.cache[key] = H.build(cls, full_opts(cls, opts))
        _, k, _ = self.cache[key]
        H.fresh_scratch(k, self.ex.scratch)
        for n, v in (sopts or {}).items():
            k.options._dict[n]['val'] = v
        ins = vec_in(k, 'input', inputs or {})
        if isinstance(k, om.ImplicitComponent):
            st = vec_in(k, 'output', states or {})
            out = H.sym_outputs(k)
            k.apply_nonlinear(ins, st, out)
        else:
            out = H.sym_outputs(k)
            k.compute(ins, out)
            H.settle(k, out)
        return {n: v for n, v in out.items()}

    def group(self, key, make, inputs, opaque=()):
        from .group import SymGroup
        if key is None or key not in self.cache:   # None: what is built depends on the path
            self.cache[key] = SymGroup(make)
        self.model = self.cache[key].model
        return self.cache[key].run(self, inputs, opaque)


class Con(Base):
    sym = False

    def __init__(self, env, sampler=None):
        super().__init__()
        self.env = env
        self.failed = []
        self.values = []
        self.sampler = sampler

    def real(self, name, lo=0.0, hi=1e4, default=None):
        if name in self.env:
            return min(max(float(self.env[name]), lo), hi)
        if default is None:
            default = 0.5 * (lo + hi) if math.isfinite(lo + hi) else 1.0
        v = self.sampler(name, lo, hi, default) if self.sampler else default
        self.env[name] = v
        return v

    def integer(self, name, lo, hi):
        v = self.env.get(name)
        return int(round(v)) if v is not None else lo

    sint = integer

    def array(self, name, n, lo=0.0, hi=1e4, default=None):
        return np.array([self.real(f'{name}[{i}]', lo, hi, default) for i in range(n)])

    def arr(self, xs):
        if any(isinstance(x, complex) for x in xs):
            return np.array(list(xs))
        return np.array([float(x) for x in xs])

    def assume(self, c):
        if not bool(c):
            raise Skip()

    def finite(self, label, v):
        self.true(label, all(math.isfinite(float(_n(x))) for x in _flat(v)))

    def slope(self, f, x):
        try:
            v = float(np.imag(_flat(f(complex(x, 1e-40)))[0])) / 1e-40
            if math.isfinite(v):
                return v
        except (TypeError, ValueError):
            pass
        h = 1e-6 * max(abs(x), 1e-3)
        return (float(_flat(f(x + h))[0]) - float(_flat(f(x - h))[0])) / (2 * h)

    def _claim(self, label, kind, a, b, *par):
        self.values.append((label, a, b))
        ok = True
        if kind == 'bool':
            ok = bool(a)
        else:
            if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
                ok = a == b
            else:
                x, y = float(a), float(b)
                if math.isnan(x) or math.isnan(y):
                    ok = False
                elif kind == 'eq':
                    ok = x == y or abs(x - y) <= max(50 * par[0] * max(abs(x), abs(y)), par[1])
                elif kind == 'le':
                    ok = x <= y + max(par[0] * max(abs(x), abs(y)), par[0])
                else:
                    ok = x < y
        if not ok:
            self.failed.append((label, kind, a, b))

    def comp(self, cls, opts=None, inputs=None, states=None, sopts=None):
        p, k, _ = H.build(cls, full_opts(cls, opts))
        for n, v in (sopts or {}).items():
            k.options._dict[n]['val'] = v
        set_vec(k, inputs or {}, 'input')
        if isinstance(k, om.ImplicitComponent):
            set_vec(k, states or {}, 'output')
            k.run_apply_nonlinear()
            return {n: np.array(k._residuals[n]) for n in k._var_rel_names['output']}
        k.run_solve_nonlinear()
        return {n: np.array(k._outputs[n]) for n in k._var_rel_names['output']}

    def group(self, key, make, inputs, opaque=()):
        from .group import run_real
        return run_real(self, key, make, inputs, opaque)


def full_opts(cls, opts):
    try:
        base = H.base_options(cls)[0]
    except Exception:  # noqa: BLE001
        base = {}
    base.update(opts or {})
    return base


def vec_in(k, kind, given):
    d = H.SymIn(k)
    for n in k._var_rel_names[kind]:
        m = k._var_rel2meta[n]
        a = np.empty(m['shape'], dtype=object).view(SArr)
        if n in given:
            v = given[n]
            v = v if isinstance(v, np.ndarray) else sarray(v)
            if v.size == 1:
                a[...] = v.reshape(-1)[0] if v.dtype == object else v.reshape(-1)[0].item()
            else:
                a[...] = sarray(v).reshape(m['shape'])
        else:
            a[...] = sarray(np.broadcast_to(np.asarray(m['val'], dtype=float), m['shape']))
        dict.__setitem__(d, n, a)
    bad = [n for n in given if n not in k._var_rel_names[kind]]
    if bad:
        raise KeyError(f'{type(k).__name__} has no {kind} {bad}')
    return d


def set_vec(k, given, kind):
    vec = k._inputs if kind == 'input' else k._outputs
    for n in k._var_rel_names[kind]:
        m = k._var_rel2meta[n]
        v = given.get(n, m['val'])
        v = np.asarray(v, dtype=float)
        v = np.broadcast_to(v, m['shape']) if v.size == 1 or v.shape == m['shape'] else v.reshape(m['shape'])
        vec.set_var(n, np.array(v))
    bad = [n for n in given if n not in k._var_rel_names[kind]]
    if bad:
        raise KeyError(f'{type(k).__name__} has no {kind} {bad}')


# ------------------------------------------------------------------ deciding a scenario
def run(name, fn, seconds=60, max_paths=64, seed=0, known=None, functions=(), skip_eq=False, npool=24, total=False,
        qtimeout=6000):
    E.reset_pool()
    deadline = time.time() + seconds
    rec = {'status': 'ok', 'paths': 0, 'oblig': 0, 'proved': 0, 'slice': 0, 'incon': [], 'viol': [], 'trunc': 0,
           'notes': [], 'functions': list(functions)}
    ex = Explorer(max_paths=max_paths, deadline=time.time() + 0.6 * seconds, seed=seed, npool=npool, skip_eq=skip_eq)
    ctx = Sym(ex)

    def one():
        ctx.claims = []
        fn(ctx)
        return ctx.claims
    with patched(prefixes=('aviary', 'openmdao.components')):
        paths = ex.explore(one)
    rec['trunc'] = ex.truncated
    rec['skipped_eq'] = ex.skipped_eq
    rec['decisions'] = sum(len(p.conds) for p in paths)
    seen = {}
    open_ = []
    good = 0
    for pi, p in enumerate(paths):
        if p.error is not None:
            tb = ''.join(traceback.format_exception(p.error)[-3:])
            err = f'{type(p.error).__name__}: {p.error}'[:160]
            if total and not isinstance(p.error, Unsupported):
                rec['oblig'] += 1
                v = replay(name, fn, ex, p, p.conds, None, type(p.error))
                if v is not None:
                    rec['viol'].append(v)
                    continue
            rec['notes'].append(f'path not encoded: {err}')
            rec.setdefault('trace', tb[-700:])
            continue
        good += 1
        for label, kind, a, b, par, nc in p.result:
            conds = p.conds[:nc]
            key = (label, kind, idof(a), idof(b), tuple(c.id for c in conds))
            if key in seen:
                continue
            seen[key] = True
            rec['oblig'] += 1
            open_.append((p, label, kind, a, b, par, conds))
        if pi < 6:
            validate(fn, ex, p, rec)
    rec['paths'] = good
    done = set()
    batch, same = [], []
    for p, label, kind, a, b, par, conds in open_:
        if label in done:
            rec['oblig'] -= 1
            continue
        if time.time() > deadline:
            rec['incon'].append(f'{label}: deadline')
            continue
        try:
            st, env, pairs = decide(ex, p, kind, a, b, par, conds, qtimeout, min(deadline, time.time() + 20))
        except (Unsupported, OverflowError, ZeroDivisionError) as e:
            rec['incon'].append(f'{label}: {type(e).__name__}: {e}'[:200])
            if os.environ.get('SX_TRACE'):
                traceback.print_exc()
            continue
        if st == 'proved':
            rec['proved'] += 1
            if pairs:
                batch.append((label, pairs))
            elif kind == 'eq' and isinstance(a, Term) and a is b and len(same) < 600 and E.size([a]) < 80:
                same.append((label, a, b))
            continue
        v = replay(name, fn, ex, p, conds, label, None, env, (kind, a, b, par))
        if v is None and st == 'sat':
            # the abstraction of a function may have misled the solver: look for a point that breaks the claim where the path is
            v = seek(name, fn, ex, p, kind, a, b, par, conds, label, min(deadline, time.time() + 6))
        if v is not None:
            k = known(v) if known is not None else None
            rec['viol'].append(v)
            if k is None:
                done.add(label)
            continue
        rec['incon'].append(f'{label}: {st}, no counterexample on the real code')
    for i in range(0, len(batch), 30):
        part = batch[i:i + 30]
        if deriv.z3_equal([q for _, ps in part for q in ps], 5000) != 'unsat':
            for label, ps in part:
                if deriv.z3_equal(ps, 5000) != 'unsat':
                    rec['proved'] -= 1
                    rec['incon'].append(f'{label}: solver did not confirm the normalised identity')
    for i in range(0, len(same), 200):
        part = same[i:i + 200]
        if apart([(a, b) for _, a, b in part]) == 'sat':
            rec['proved'] -= len(part)
            rec['incon'] += [f'{label}: solver did not confirm the identity' for label, _, _ in part]
    if not good and not rec['viol']:
        rec['status'] = 'not encoded: ' + '; '.join(rec['notes'])[:300] + ' ' + rec.get('trace', '')
    if good and not rec.get('samples'):
        p = next(q for q in paths if q.error is None)
        rec['samples'] = [{'scenario': name, 'path_condition': [E.show(c)[:100] for c in p.conds[:4]],
                           'claims': [c[0] for c in p.result[:6]]}]
    return rec


def apart(pairs):
    """can the two results of some pair differ?"""
    import z3
    en = solve.enc()
    fs, goals = [], []
    for i, (a, b) in enumerate(pairs):
        x, y = z3.Real(f'$got{i}'), z3.Real(f'$want{i}')
        try:
            fs += [x == en.enc(a), y == en.enc(b)]
        except (Unsupported, z3.Z3Exception, AttributeError):
            continue
        goals.append(x != y)
    if not goals:
        return 'unsat'
    fs.append(z3.Or(goals) if len(goals) > 1 else goals[0])
    return solve.z3check(fs, 5000, want_model=False)[0]


def idof(x):
    return x.id if isinstance(x, Term) else ('n', repr(x))


def far(d, tol):
    return E.or_(E.gt(d, tol), E.lt(d, -tol))


def decide(ex, p, kind, a, b, par, conds, timeout, deadline):
    """-> (verdict, model, pairs)"""
    if kind == 'bool':
        if not isinstance(a, Term):
            if a:
                return 'proved', None, []
            return 'false', None, []
        neg = [E.not_(E.asB(a))]
    else:
        if not isinstance(a, Term) and not isinstance(b, Term):
            if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
                return ('proved', None, []) if a == b else ('false', None, [])
            c = Con({})
            c._claim('', kind, a, b, *par)
            return ('proved' if not c.failed else 'false'), None, []
        if kind == 'eq':
            st, pairs = deriv.equal_terms(E.const(a), E.const(b), deadline)
            if st == 'proved':
                return 'proved', None, pairs
            # a concrete disagreement first
            for q in p.alive[:12]:
                try:
                    x, y = q.val(E.const(a)), q.val(E.const(b))
                except (ValueError, OverflowError, ZeroDivisionError, TypeError):
                    continue
                if deriv.finite(x) and deriv.finite(y) and abs(x - y) > max(1e-5 * max(abs(x), abs(y)), par[1]):
                    return 'differs', deriv.dict_env(q), []
            neg = [far(E.sub(a, b), par[1])] if par[1] else [E.ne(a, b)]
        elif kind == 'le':
            for q in p.alive[:12]:
                try:
                    x, y = q.val(E.const(a)), q.val(E.const(b))
                except (ValueError, OverflowError, ZeroDivisionError, TypeError):
                    continue
                if deriv.finite(x) and deriv.finite(y) and x - y > max(1e-5 * max(abs(x), abs(y)), 10 * par[0]):
                    return 'differs', deriv.dict_env(q), []
            if sign.nonneg(E.sub(b, a), ex.domains, par[0], deadline):
                return 'proved', None, []
            neg = [E.gt(E.sub(a, b), par[0])]
        else:
            neg = [E.not_(E.lt(a, b))]
    base = ex.base_conds + conds + neg
    neg0 = E.asB(neg[0])
    if neg0.op == 'bconst':
        if not neg0.args[0]:
            return 'proved', None, []
    if kind in ('eq', 'le'):
        # ask for a visible difference first: such a model is the one worth replaying
        try:
            d = E.sub(a, b)
            up, dn = E.mul(1e-3, E.add(1.0, b)), E.mul(1e-3, E.sub(1.0, b))
            vis = E.and_(E.gt(d, up), E.gt(d, dn))
            if kind == 'eq':
                n = E.neg(d)
                vis = E.or_(vis, E.and_(E.gt(n, up), E.gt(n, dn)))
            r, env = solve.check(ex.base_conds + conds + [vis] + ex.box(base), timeout)
            if r == 'sat' and env is not None:
                return 'sat', env, []
        except Unsupported:
            pass
    r, env = solve.check(base + ex.box(base), timeout)
    if r == 'unsat':
        return 'proved', None, []
    return r, env, []


def seek(name, fn, ex, p, kind, a, b, par, conds, label, end):
    if kind == 'bool':
        neg = E.not_(E.asB(a))
    elif kind == 'eq':
        d, t = E.sub(a, b), E.add(par[1], E.mul(1e-5, E.add(E.pow_(E.mul(a, a), 0.5), E.pow_(E.mul(b, b), 0.5))))
        neg = E.or_(E.gt(d, t), E.lt(d, E.neg(t)))
    elif kind == 'le':
        neg = E.gt(E.sub(a, b), E.add(10 * par[0], E.mul(1e-5, E.add(E.pow_(E.mul(a, a), 0.5), E.pow_(E.mul(b, b), 0.5)))))
    else:
        neg = E.not_(E.lt(a, b))
    keep = p.alive
    try:
        pts = ex.reach(ex.base_conds + conds + [neg], max(0.2, min(3.0, end - time.time())))
        if not pts:
            return None
        p.alive = pts + list(keep)
        return replay(name, fn, ex, p, conds, label, None)
    except (Unsupported, OverflowError, ZeroDivisionError, ValueError):
        return None
    finally:
        p.alive = keep


def conc(ex, env):
    q = solve.Point(ex, 777)
    q.update(env)
    return deriv.dict_env(q)


def replay(name, fn, ex, p, conds, label, exc, env=None, claim=None):
    np.seterr(all='ignore')
    warnings.simplefilter('ignore')
    cands = []
    if env is not None:
        cands.append(conc(ex, env))
        for a in p.alive[:3]:
            e = deriv.dict_env(a)
            e = dict(e)
            e.update(env)
            cands.append(e)
    cands += [deriv.dict_env(a) for a in p.alive[:8]]
    if len(cands) < 3:
        try:
            r, m = solve.check(ex.base_conds + conds + ex.box(conds), 2000)
            if r == 'sat' and m is not None:
                cands.append(conc(ex, m))
        except Unsupported:
            pass
    for e in cands[:10]:
        c = Con(dict(e))
        try:
            fn(c)
        except Skip:
            continue
        except Unsupported:
            continue
        except Exception as err:  # noqa: BLE001
            if exc is not None and isinstance(err, exc):
                return {'component': name, 'kind': 'crash', 'case': f'{type(err).__name__}', 'point': pub(e),
                        'note': f'raises {type(err).__name__}: {err}'[:200]}
            continue
        if label is None:
            continue
        for lab, kind, x, y in c.failed:
            if lab == label:
                return {'component': name, 'kind': kind, 'case': lab, 'point': pub(e),
                        'note': f'{lab}: {x!r} against {y!r}' if kind != 'bool' else f'{lab}: false'}
    return None


def pub(e):
    return {k: v for k, v in e.items() if not k.startswith(('js:', 'stale:', '$'))}


def validate(fn, ex, p, rec):
    for a in p.alive[:1]:
        c = Con(dict(deriv.dict_env(a)))
        try:
            with np.errstate(all='ignore'), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                UNPATCH(fn, c)
        except Skip:
            continue
        except Exception:  # noqa: BLE001
            continue
        if len(c.values) != len(p.result):
            continue
        for (lab, x, y), (label, kind, sa, sb, par, nc) in zip(c.values, p.result):
            if lab != label or kind == 'bool':
                continue
            for s, v in ((sa, x), (sb, y)):
                try:
                    w = a.val(s) if isinstance(s, Term) else float(s)
                    v = float(v)
                except (TypeError, ValueError, OverflowError, ZeroDivisionError):
                    continue
                if deriv.finite(w) and math.isfinite(v) and abs(w - v) > 1e-5 * max(abs(w), abs(v), 1e-6):
                    rec['incon'].append(f'encoding of "{label}" differs from the real code at a witness: {w!r} / {v!r}')
                    rec['mismatch'] = rec.get('mismatch', 0) + 1
                    return
        rec['validated'] = rec.get('validated', 0) + 1


def UNPATCH(fn, c):
    fn(c)

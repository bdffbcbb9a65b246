"""Two-step histories: nothing an object evaluated before may show in what it evaluates now.

The component is executed symbolically on earlier inputs x' and then on the current inputs x, along the branches of a
witness pair; branches of the second evaluation that depend on x' are flipped and solved for.  The entries of values and
derivatives must be the terms a fresh object gives.  Where they are not, or where an x' survives in them, the pair is run
on the real component, with and without the earlier evaluation.
"""
import copy
import math
import sys
import time

import numpy as np
import openmdao.api as om

from . import expr as E
from . import omharness as H
from . import solve
from .expr import EX, PathAbort, Term, Unsupported
from .sarr import SArr, patched
from .solve import Explorer, Point

OM_KEYS = None
SCALARS = (int, float, complex, str, bool, type(None), tuple, frozenset)


def _snap(v):
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, (dict, list, set)):
        return copy.copy(v)
    return v


def _om_keys():
    global OM_KEYS
    if OM_KEYS is None:
        ks = set()
        for b in (om.ExplicitComponent, om.ImplicitComponent, om.JaxExplicitComponent if hasattr(om, 'JaxExplicitComponent') else om.ExplicitComponent):
            try:
                ks |= set(b().__dict__)
            except Exception:  # noqa: BLE001
                pass
        OM_KEYS = ks
    return OM_KEYS


class State:
    """everything of the repository's own that can survive an evaluation: attributes of the object, of its classes and of
    their modules, and its options"""

    def __init__(self, comp):
        self.comp = comp
        self.attr = {k: (v, _snap(v)) for k, v in comp.__dict__.items() if k not in _om_keys()}
        self.opts = {n: (o['val'], _snap(o['val'])) for n, o in comp.options._dict.items() if 'val' in o}
        self.roots = []
        for c in type(comp).__mro__:
            m = sys.modules.get(c.__module__)
            if not c.__module__.startswith('aviary'):
                continue
            self.roots.append((c, {k: (v, _snap(v)) for k, v in vars(c).items() if self._data(k, v)}))
            self.roots.append((m, {k: (v, _snap(v)) for k, v in vars(m).items() if self._data(k, v)}))

    @staticmethod
    def _data(k, v):
        return not k.startswith('__') and isinstance(v, (dict, list, set, np.ndarray) + SCALARS) and not (
            isinstance(v, (dict, list, set, tuple)) and len(v) > 2000)

    @staticmethod
    def _back(v, s):
        """contents restored in place; the same object"""
        if isinstance(v, dict):
            v.clear()
            v.update(s)
        elif isinstance(v, set):
            v.clear()
            v.update(s)
        elif isinstance(v, list):
            v[:] = s
        elif isinstance(v, np.ndarray) and v.flags.writeable:
            np.ndarray.__setitem__(v, Ellipsis, s)
        return v

    def restore(self):
        d = self.comp.__dict__
        for k in list(d):
            if k not in self.attr and k not in _om_keys():
                del d[k]
        for k, (v, s) in self.attr.items():
            d[k] = self._back(v, s)
        for n, (v, s) in self.opts.items():
            self.comp.options._dict[n]['val'] = self._back(v, s)
        for root, vals in self.roots:
            cur = vars(root)
            for k in [k for k in cur if k not in vals and self._data(k, cur[k])]:
                try:
                    delattr(root, k)
                except (AttributeError, TypeError):
                    pass
            for k, (v, s) in vals.items():
                self._back(v, s)
                if cur.get(k) is not v:
                    try:
                        setattr(root, k, v)
                    except (AttributeError, TypeError):
                        pass


class Guide(Explorer):
    """follows the branches of one witness; remembers the conditions that tie the current evaluation to the earlier one"""

    def begin(self, point, flips):
        self.start_path([])
        self.w = point
        self.flips = flips          # outcomes of the tied decisions, in order
        self.tied = []
        self.phase = 'prev'
        self.alive = [point]

    def decide(self, cond):
        if cond.op == 'bconst':
            return cond.args[0]
        if cond.op == 'not':
            return not self.decide(cond.args[0])
        if cond.op in ('and', 'or'):
            a = self.decide(cond.args[0])
            return (a and self.decide(cond.args[1])) if cond.op == 'and' else (a or self.decide(cond.args[1]))
        v = self.known.get(cond.id)
        if v is not None:
            return v
        if time.time() > self.deadline:
            raise PathAbort('deadline')
        v = self.w.val(cond)
        v = bool(v) if v in (True, False, 0, 1) else False
        if self.phase == 'cur' and any(x.args[0].startswith('prev:') for x in E.variables([cond])):
            k = len(self.tied)
            if k < len(self.flips):
                v = self.flips[k]
            self.tied.append((cond, v))
        self.known[cond.id] = v
        self.known[E.not_(cond).id] = not v
        self.conds.append(cond if v else E.not_(cond))
        return v

    def pick_int(self, t):
        return math.floor(self.w.val(t))

    def decide_eq(self, t, k):
        return self.decide(E.eq(t, k))


def evaluate(comp, ex, prefix, partials=True):
    implicit = isinstance(comp, om.ImplicitComponent)
    ins = H.sym_inputs(comp, ex, prefix=prefix)
    outs = H.sym_outputs(comp)
    J = H.SymJac(comp) if partials else None
    if implicit:
        st = H.sym_inputs(comp, ex, kinds=('output',), prefix=prefix)
        comp.apply_nonlinear(ins, st, outs)
        if partials and H.is_overridden(comp, 'linearize'):
            comp.linearize(H.sym_inputs(comp, ex, prefix=prefix), st, J)
    else:
        comp.compute(ins, outs)
        if partials and H.is_overridden(comp, 'compute_partials'):
            comp.compute_partials(H.sym_inputs(comp, ex, prefix=prefix), J)
    return entries(outs, J)


def entries(outs, J):
    out = {}
    for n, a in outs.items():
        for i, x in enumerate(a.view(np.ndarray).reshape(-1)):
            out[n, None, i] = H.num(x)
    for key, e in (J.ent.items() if J is not None else ()):
        for i, x in enumerate(e['val'].view(np.ndarray).reshape(-1)):
            out[key[0], key[1], i] = H.num(x)
    return out


def _differs(a, b):
    if not (math.isfinite(a) and math.isfinite(b)):
        return False
    return abs(a - b) > 1e-9 * max(abs(a), abs(b)) + 1e-12


def _same(x, y, w):
    """terms equal; otherwise whether they differ at the witness"""
    if x is y:
        return True, False
    if not isinstance(x, Term) and not isinstance(y, Term):
        return x == y, _differs(float(x), float(y))
    vx, vy = (float(w.val(t)) if isinstance(t, Term) else float(t) for t in (x, y))
    return False, _differs(vx, vy)


def study(cls, opts, points, deadline, rec, replay):
    """points: assignments of the current inputs, one per branch; replay(pair) -> violation or None"""
    stats = {'pairs': 0, 'entries': 0, 'tied': 0, 'differ': 0}
    if not points:
        return stats
    try:
        prob, comp, _ = H.build(cls, opts)
    except H.SetupFailed:
        return stats
    ex = Guide(npool=0, deadline=deadline)
    state = State(comp)
    try:
        _study(comp, ex, state, points, deadline, rec, replay, stats)
    finally:
        state.restore()
    return stats


def _study(comp, ex, state, points, deadline, rec, replay, stats):
    n = len(points)
    pairs = [(i, (i + s) % n) for s in range(1, min(n, 4)) for i in range(n)] or [(0, None)]
    todo = []
    for cur, prev in pairs[:14]:
        todo.append((points[cur], points[prev] if prev is not None else None, ()))
    fresh = {}
    seen = 0
    while todo:
        cur, prev, flips = todo.pop(0)
        if time.time() > deadline or seen >= 24:
            break
        seen += 1
        w = Point(ex, 1)
        for k, v in cur.items():
            w[k] = v
        for k, v in (prev.items() if prev is not None else ()):
            w['prev:' + k] = v
        if prev is None:
            for k, v in cur.items():
                w['prev:' + k] = v * 1.0625 if not isinstance(v, bool) else v
        try:
            with patched():
                key = id(cur)
                if key not in fresh:
                    state.restore()
                    H.fresh_scratch(comp, {})
                    fresh[key] = _run(comp, ex, w, (), [''])
                state.restore()
                H.fresh_scratch(comp, {})
                got = _run(comp, ex, w, flips, ['prev:', ''])
        except PathAbort:
            break
        except Exception as e:  # noqa: BLE001
            rec['notes'].append(f'history not encoded: {type(e).__name__}: {e}'[:140])
            break
        ref = fresh[key]
        stats['pairs'] += 1
        bad = None
        for k, x in got.items():
            stats['entries'] += 1
            same, diff = _same(x, ref.get(k), w)
            if not same and isinstance(x, Term) and not diff:
                if any(v.args[0].startswith('prev:') for v in E.variables([x])):
                    diff = True
            if diff and bad is None:
                bad = k
        rec['oblig'] += len(got)
        tied = list(ex.tied)
        stats['tied'] += len(tied)
        # earlier inputs that take another branch of the current evaluation
        for j in range(len(flips), len(tied)):
            env = _solve(ex, [c if v else E.not_(c) for c, v in tied[:j]] + [E.not_(tied[j][0]) if tied[j][1] else tied[j][0]], w)
            if env is not None and len(todo) < 24:
                p2 = {k[5:]: v for k, v in w.items() if k.startswith('prev:')}
                p2.update(env)
                todo.insert(0, (cur, p2, tuple(v for _, v in tied[:j]) + (not tied[j][1],)))
        if bad is None:
            rec['proved'] += len(got)
            continue
        stats['differ'] += 1
        p2 = {k[5:]: v for k, v in w.items() if k.startswith('prev:')}
        state.restore()
        v = replay(dict(cur), p2, bad, state)
        if v is not None:
            rec['viol'].append(v)
            return
        rec['proved'] += len(got)           # the terms differ, the values do not
        rec['notes'].append(f'history of {bad[0]}/{bad[1]}: other terms, same values')


def _run(comp, ex, w, flips, prefixes):
    ex.begin(w, flips)
    save = EX.cur
    EX.cur = ex
    EX.same_hash = True
    try:
        out = None
        for k, p in enumerate(prefixes):
            ex.phase = 'cur' if not p else 'prev'
            out = evaluate(comp, ex, p)
        return out
    finally:
        EX.cur = save
        EX.same_hash = False


def _solve(ex, conds, w):
    """earlier inputs satisfying the conditions at the current witness"""
    sub = {}
    for v in E.variables(conds):
        n = v.args[0]
        if not n.startswith('prev:'):
            sub[n] = E.const(w[n]) if not isinstance(w[n], bool) else w[n]
    try:
        memo = {}
        cs = [E.subst(c, sub, memo) for c in conds]
        cs = [c for c in cs if not (c.op == 'bconst' and c.args[0])]
        if any(c.op == 'bconst' for c in cs):
            return None
        for v in E.variables(cs):
            if v.args[0] not in ex.domains:
                ex.domains[v.args[0]] = ex.domains.get(v.args[0][5:], (-1e9, 1e9, 1.0))
        r, env = solve.check(cs + ex.box(cs), 500)
    except (Unsupported, ZeroDivisionError, OverflowError):
        return None
    if r != 'sat' or env is None:
        return None
    return {k[5:]: v for k, v in env.items() if k.startswith('prev:')}


def real(cls, opts, cur, prev, bad, state, set_point, run_outputs, real_jac):
    """the same two steps on the real component; entries compared with those of a fresh one"""
    res = []
    of, wrt, i = bad
    for hist in (False, True):
        state.restore()
        prob, comp, _ = H.build(cls, opts)
        try:
            if hist:
                set_point(prob, comp, prev)
                run_outputs(prob, comp)
                comp.run_linearize()
            set_point(prob, comp, cur)
            o = run_outputs(prob, comp)
            comp.run_linearize()
            d = {(n, None): v.copy() for n, v in o.items()}
            pre = comp.pathname + '.' if comp.pathname else ''
            for a, b in comp._subjacs_info:
                if a != b:
                    d[a[len(pre):], b[len(pre):]] = real_jac(comp, a[len(pre):], b[len(pre):], linearize=False).reshape(-1).copy()
            res.append(d)
        except Exception:  # noqa: BLE001
            return None
        finally:
            state.restore()
    worst = None
    for k in res[0]:
        a, b = res[0][k], res[1].get(k)
        if b is None or a.shape != b.shape or not (np.isfinite(a).all() and np.isfinite(b).all()):
            continue
        m = np.abs(a - b)
        if m.size and m.max() > 1e-6 * max(np.abs(a).max(), np.abs(b).max(), 1e-12):
            worst = (k, a, b)
            break
    if worst is None:
        return None
    (of, wrt), a, b = worst
    clean = lambda e: {k: v for k, v in e.items() if not k.startswith(('js:', 'stale:', '$', 'opt:'))}  # noqa: E731
    return {'component': H.cname(cls), 'kind': 'stale-history', 'of': of, 'wrt': wrt or '', 'point': clean(cur), 'previous_point': clean(prev),
            'options': {k: repr(v) for k, v in opts.items()}, '_opts': opts, 'fresh': a.tolist(), 'after_history': b.tolist(),
            'note': 'value depends on what the object evaluated before'}

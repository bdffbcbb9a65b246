"""Analytic partial derivatives against symbolic differentiation of the same component's outputs."""
import math
import sys
import time
import traceback

import numpy as np
import openmdao.api as om

from . import expr as E
from . import cas, hist, shim, solve
from .expr import R, Term, Unsupported, EX, const
from .sarr import patched
from .solve import Explorer, z3, rat, z3check
from . import omharness as H

REL = 1e-7
REL2 = 2e-5      # rounded physical constants


_MON = {}
_CTXREF = [None]


def _mon(m):
    """z3 product of one monomial (cached; the atom numbering belongs to cas.CTX)"""
    if _CTXREF[0] is not cas.CTX.atoms:
        _MON.clear()
        _CTXREF[0] = cas.CTX.atoms
    r = _MON.get(m)
    if r is None:
        fs = []
        for a, e in m:
            n = 1
            if isinstance(e, int) and 0 < e <= 12:
                n, e = e, 1
            x = _MON.get(((a, e),)) if len(m) > 1 or n > 1 else None
            if x is None:
                x = z3.Real(f'a{a}' if e == 1 else f'a{a}^{e}')
                _MON[((a, e),)] = x
            fs += [x] * n
        r = fs[0] if len(fs) == 1 else _nary(z3.Z3_mk_mul, fs)
        _MON[m] = r
    return r


def _nary(mk, xs):
    arr = (z3.Ast * len(xs))()
    for i, x in enumerate(xs):
        arr[i] = x.as_ast()
    return z3.ArithRef(mk(xs[0].ctx_ref(), len(xs), arr), xs[0].ctx)


def z_poly(p, snap):
    """polynomial -> z3 with coefficients snapped to the rationals in snap"""
    out = []
    for m, (c, g) in p.items():
        k = snap.get(m)
        k = rat(float('%.9g' % c)) if k is None else k
        out.append(_nary(z3.Z3_mk_mul, [k, _mon(m)]) if m else k)
    return z3.RealVal(0) if not out else out[0] if len(out) == 1 else _nary(z3.Z3_mk_add, out)


def z3_equal(pairs, timeout=4000):
    """unsat of (some pair differs): polynomial identity decided by z3"""
    goals = []
    for P, Q in pairs:
        snap = {}
        for m in set(P) | set(Q):
            a, b = P.get(m, (0.0, 0.0)), Q.get(m, (0.0, 0.0))
            if abs(a[0] - b[0]) <= REL2 * max(a[1], b[1]):
                snap[m] = rat(float('%.9g' % a[0])) if abs(a[0]) > REL2 * a[1] else z3.RealVal(0)
        goals.append(z_poly(P, snap) != z_poly(Q, snap))
    if not goals:
        goals = [z3.BoolVal(False)]
    r, _ = z3check([z3.Or(goals) if len(goals) > 1 else goals[0]], timeout, want_model=False)
    return r


def equal_terms(D, J, deadline=None):
    """-> ('proved'|'residual'|'toobig', pairs)"""
    if D is J:
        return 'proved', []
    cas.CTX.deadline = deadline
    try:
        P, Q = cas.canon(D), cas.canon(J)
        if cas._equal(P, Q, REL):
            return 'proved', [(P, Q)]
        bad, groups = cas.zero_residual(P, Q, REL)
        if not bad:
            return 'proved', groups
        if all(cas._equal(p, q, REL2) for p, q in bad):
            return 'proved', groups
        return 'residual', bad
    except cas.TooBig:
        return 'toobig', []
    finally:
        cas.CTX.deadline = None


CRASH = (UnboundLocalError, NameError)


def crash(cls, opts, comp, ex, symopts, p, err, stage, rec):
    pts = list(p.alive)[:4] or more_points(ex, p.conds, 4)
    rec['oblig'] += 1
    for a in pts:
        env = dict_env(a)
        o = H.concretise_options(opts, symopts, env)
        try:
            prob, comp, _ = H.build(cls, o)
        except H.SetupFailed:
            continue
        set_point(prob, comp, env)
        try:
            run_outputs(prob, comp)
            if stage == 'linearize':
                comp.run_linearize()
        except type(err) as e:
            rec['viol'].append({'component': H.cname(cls), 'kind': 'crash', 'of': stage, 'wrt': '',
                                'point': _inputs_of(comp, env), 'options': {k: repr(v) for k, v in o.items()},
                                '_opts': o, 'note': f'{stage} raises {type(e).__name__}: {e}'[:200]})
            return
        except Exception:  # noqa: BLE001
            continue
    rec['incon'].append(f'{stage} raises {type(err).__name__} symbolically; not reproduced')


class Obl:
    __slots__ = ('of', 'i', 'wrt', 'j', 'path', 'status', 'env', 'D', 'J', 'note', 'kind')

    def __init__(self, of, i, wrt, j, path, kind='partial'):
        self.of, self.i, self.wrt, self.j, self.path, self.kind = of, i, wrt, j, path, kind
        self.status = None
        self.env = None
        self.D = self.J = None
        self.note = ''


def finite(x):
    return isinstance(x, (int, float)) and math.isfinite(x)


def differs(d, j, tol=1e-5):
    return abs(d - j) > tol * max(abs(d), abs(j)) and abs(d - j) > 1e-13


def more_points(ex, conds, n=12, timeout=2000):
    """pool points satisfying a path condition, seeded from a z3 model"""
    out = []
    try:
        # a model away from the edges of the path if there is one
        inner = []
        for v in E.variables(conds):
            d = ex.domains.get(v.args[0])
            if d is not None and v.op == 'v' and d[0] < d[1] and math.isfinite(d[0] + d[1]):
                w = 1e-3 * (d[1] - d[0])
                inner += [E.lt(d[0] + w, v), E.lt(v, d[1] - w)]
        r, env = solve.check(ex.base_conds + [E.strict(c) for c in conds] + inner, timeout)
        if r != 'sat' or env is None:
            r, env = solve.check(ex.base_conds + conds + ex.box(conds), timeout)
    except Unsupported:
        return out
    if r != 'sat' or env is None:
        return out
    for k in range(n * 4):
        p = solve.Point(ex, 1000 + k)
        for name, v in env.items():
            if name.startswith('opt:'):
                p[name] = v
                continue
            f = 1.0 if k % 4 == 0 else 1 + 0.2 * (solve._u(name, 5000 + k, 1) - 0.5) * (k % 4)
            p[name] = v * f if not isinstance(v, bool) else v
        if all(p.val(c) == True for c in conds):  # noqa: E712
            out.append(p)
            if len(out) >= n:
                break
    return out


def analyse(cls, opts, deadline, max_paths=24, symbolic_options=True, seed=0, npool=48, known=None):
    """Returns dict of results for one component configuration."""
    E.reset_pool()
    rec = {'status': 'ok', 'paths': 0, 'oblig': 0, 'proved': 0, 'slice': 0, 'incon': [], 'viol': [], 'trunc': 0,
           'notes': [], 'unsupported': 0, 'witnessed': 0, 'cs_pairs': 0, 'skipped_eq': 0}
    try:
        prob, comp, read = H.build(cls, opts)
    except H.SetupFailed as e:
        rec['status'] = 'setup: ' + str(e)[:160]
        return rec
    now = time.time()
    ex = Explorer(max_paths=max_paths, deadline=now + 0.45 * (deadline - now), seed=seed, npool=npool)
    symopts = H.SymOptions(comp, ex, read, opts) if symbolic_options else None

    has_partials = H.is_overridden(comp, 'compute_partials') if not isinstance(comp, om.ImplicitComponent) \
        else H.is_overridden(comp, 'linearize')

    def fn():
        r = H.Run()
        implicit = isinstance(comp, om.ImplicitComponent)
        H.fresh_scratch(comp, ex.scratch)
        ins = H.sym_inputs(comp, ex)
        outs = H.sym_outputs(comp)
        J = H.SymJac(comp)
        declared = {}
        for key, e in J.ent.items():
            declared[key] = e['val'].copy()
            if e['method'] not in ('cs', 'fd'):
                fl = e['val'].view(np.ndarray).reshape(-1)
                for k in range(fl.size):
                    fl[k] = E.var(f'js:{key[0]}|{key[1]}|{k}')
        r.jac_error = None
        if implicit:
            st = H.sym_inputs(comp, ex, kinds=('output',))
            comp.apply_nonlinear(ins, st, outs)
            lin = lambda: comp.linearize(H.sym_inputs(comp, ex), st, J)  # noqa: E731
            r.wrt = dict(ins)
            r.wrt.update(st)
        else:
            comp.compute(ins, outs)
            lin = lambda: comp.compute_partials(H.sym_inputs(comp, ex), J)  # noqa: E731
            r.wrt = dict(H.sym_inputs(comp, ex))
        if has_partials:
            try:
                lin()
            except Unsupported:
                raise
            except Exception as e:  # noqa: BLE001
                if not isinstance(e, CRASH) and not H.rejected(e):
                    raise
                r.jac_error = e
        r.outs, r.J, r.declared = outs, J, declared
        return r

    try:
        with patched():
            paths = ex.explore(fn)
    finally:
        if symopts:
            symopts.restore()
    if ex.timed_out and symbolic_options and symopts.names:
        # too many option values: decide the option values of this variant only
        return analyse(cls, opts, deadline, max_paths, False, seed, npool, known)
    rec['trunc'] = ex.truncated
    rec['skipped_eq'] = ex.skipped_eq
    rec['decisions'] = sum(len(p.conds) for p in paths)
    rej = [p for p in paths if p.error is not None and H.rejected(p.error)]
    rec['rejected'] = len(rej)
    paths = [p for p in paths if p not in rej]
    good = [p for p in paths if p.error is None]
    bad = [p for p in paths if p.error is not None]
    errs = {}
    for p in bad:
        m = f'{type(p.error).__name__}: {p.error}'[:140]
        errs[m] = errs.get(m, 0) + 1
    rec['unsupported'] = len(bad)
    if any(m.startswith('Unsupported: float() of a symbolic') for m in errs):
        mods = [sys.modules[c.__module__] for c in cls.__mro__ if c.__module__.startswith('aviary')]
        mods = [m for m in mods if 'float' not in vars(m)]
        if mods:
            shim.install_float(*mods)
            try:
                return analyse(cls, opts, deadline, max_paths, symbolic_options, seed, npool, known)
            finally:
                for m in mods:
                    vars(m).pop('float', None)
    if bad and symbolic_options and any(isinstance(p.error, (Unsupported, TypeError, AttributeError, IndexError, ValueError, KeyError)) for p in bad) and symopts.names:
        r2 = analyse(cls, opts, deadline, max_paths, False, seed, npool, known)
        if r2['unsupported'] < len(bad) or not good:
            return r2
        E.reset_pool()
        return analyse(cls, opts, deadline, max_paths, False, seed, npool, known)
    for m, n in errs.items():
        rec['notes'].append(f'{n} path(s) not encoded: {m}')
    rec['paths'] = len(good)
    for p in good:
        if p.result.jac_error is not None:
            crash(cls, opts, comp, ex, symopts, p, p.result.jac_error, 'linearize', rec)
    good = [p for p in good if p.result.jac_error is None]
    if not good:
        rec['status'] = 'not encoded: ' + '; '.join(errs) if errs else 'no path'
        return rec
    decide(cls, opts, comp, ex, symopts, good, rec, deadline, known)
    two_steps(cls, opts, symopts, good, rec, now, deadline, known)
    return rec


def two_steps(cls, opts, symopts, good, rec, start, deadline, known):
    if any(v['kind'].startswith('stale') for v in rec['viol']):
        return
    t = time.time()
    end = min(deadline, t + max(4.0, 0.6 * (t - start)))
    pts = []
    for p in good[:10]:
        for a in p.alive[:1]:
            env = dict_env(a)
            pts.append({k: v for k, v in env.items() if not k.startswith(('js:', 'stale:', '$', 'opt:'))})
    if len(pts) == 1 and len(good[0].alive) > 1:
        pts += [{k: v for k, v in dict_env(a).items() if not k.startswith(('js:', 'stale:', '$', 'opt:'))} for a in good[0].alive[1:3]]
    o = H.concretise_options(opts, symopts, dict_env(good[0].alive[0])) if good and good[0].alive else dict(opts)

    def rp(cur, prev, bad, state):
        v = hist.real(cls, o, cur, prev, bad, state, set_point, run_outputs, real_jac)
        if v is not None and known is not None and known(v) is not None:
            rec['viol'].append(v)
            return None
        return v
    try:
        st = hist.study(cls, o, pts, end, rec, rp)
    except Exception as e:  # noqa: BLE001
        rec['notes'].append(f'history not studied: {type(e).__name__}: {e}'[:140])
        return
    rec['history_pairs'] = st['pairs']
    rec['history_entries'] = st['entries']


def decide(cls, opts, comp, ex, symopts, good, rec, deadline, known=None):
    # ---- which entries are written on which paths
    wrote = {}
    for pi, p in enumerate(good):
        J = p.result.J
        for key, e in J.ent.items():
            if e['method'] in ('cs', 'fd'):
                continue
            fl = e['val'].view(np.ndarray).reshape(-1)
            de = p.result.declared[key].view(np.ndarray).reshape(-1)
            for k in range(fl.size):
                x = fl[k]
                js = isinstance(x, Term) and x.op == 'v' and x.args[0].startswith('js:')
                if not js:
                    wrote.setdefault((key, k), []).append((pi, x))
                else:
                    fl[k] = de[k]
    stale_cand = {}
    for (key, k), lst in wrote.items():
        if len(lst) < len(good):
            ws = {pi for pi, _ in lst}
            for pi, p in enumerate(good):
                if pi not in ws:
                    de = p.result.declared[key].view(np.ndarray).reshape(-1)[k]
                    alt = [(qi, x) for qi, x in lst if not (isinstance(x, (int, float)) and x == de)]
                    alt = [(qi, x) for qi, x in alt if not (isinstance(x, Term) and E.cval(x) is not None and float(E.cval(x)) == float(E.cval(de) if isinstance(de, Term) else de))]
                    if alt:
                        stale_cand[(key, k, pi)] = alt
    pending = []       # (obl, pairs) proved structurally, awaiting the z3 verdict
    violations = {}
    stale_out = set()

    for pi, p in enumerate(good):
        r = p.result
        if time.time() > deadline:
            rec['incon'].append(f'deadline: {len(good) - pi} path(s) not decided')
            break
        strictly = [E.strict(c) for c in p.conds]
        alive = sorted(p.alive, key=lambda a: 0 if inside(a, strictly) else 1)
        if len(alive) < 3 or not inside(alive[0], strictly):
            alive = sorted(alive + more_points(ex, p.conds), key=lambda a: 0 if inside(a, strictly) else 1)
        # purity
        for of, arr in r.outs.items():
            for i, o in enumerate(arr.view(np.ndarray).reshape(-1)):
                if isinstance(o, Term):
                    sv = [v.args[0] for v in E.variables([o]) if v.args[0].startswith('stale:')]
                    if sv and o.op == 'v':
                        stale_out.add((of, i, pi))
                    elif sv:
                        rec['oblig'] += 1
                        ob = Obl(of, i, '', 0, pi, 'stale-output')
                        ob.note = 'output entry is computed from its value in the previous evaluation'
                        ob.env = [(dict_env(a), dict_env(a)) for a in alive[:4]]
                        violations.setdefault(('stale-output', of, ''), []).append(ob)
        pins = pinned(ex, p) if boundary(ex, p) else {}
        if pins is None:
            rec['boundary'] = rec.get('boundary', 0) + 1
            continue
        if pins:
            rec['edge'] = rec.get('edge', 0) + 1
        if pi < 4:
            validate(cls, opts, symopts, comp, r, alive, rec, pi)
        negl, pmemo, cspairs = {}, {}, []
        for wrt, warr in r.wrt.items():
            wfl = warr.view(np.ndarray).reshape(-1)
            for j, wv in enumerate(wfl):
                if not isinstance(wv, Term) or wv.args[0] in pins:
                    continue
                df = E.Diff(wv)
                for of, arr in r.outs.items():
                    key = (of, wrt)
                    cs = key in r.J.cs
                    if cs:
                        if j == 0:
                            rec['cs_pairs'] += 1
                        for i, o in enumerate(arr.view(np.ndarray).reshape(-1)):
                            try:
                                o_t = H.num(o)
                                Dv = df.d(o_t) if isinstance(o_t, Term) else const(0)
                                cspairs.append((of, i, wrt, j, E.subst(Dv, pins, pmemo) if pins else Dv))
                            except (Unsupported, ZeroDivisionError, OverflowError):
                                pass
                        continue
                    ofl = arr.view(np.ndarray).reshape(-1)
                    dense = r.__dict__.setdefault('dcache', {}).get(key)
                    if dense is None:
                        dense = r.J.dense(key) if key in r.J.ent else {}
                        r.dcache[key] = dense
                    for i, o in enumerate(ofl):
                        Jv = dense.get((i, j), 0.0)
                        rec['oblig'] += 1
                        ob = Obl(of, i, wrt, j, pi)
                        try:
                            o_t = H.num(o)
                            Dv = df.d(o_t) if isinstance(o_t, Term) else const(0)
                            Jt = const(H.num(Jv))
                            if pins:
                                Dv, Jt = E.subst(Dv, pins, pmemo), E.subst(Jt, pins, pmemo)
                        except Unsupported as e:
                            rec['incon'].append(f'd({of})/d({wrt}): {e}')
                            continue
                        except (ZeroDivisionError, OverflowError):
                            rec['oblig'] -= 1      # no finite derivative on this edge
                            continue
                        cd, cj = E.cval(Dv), E.cval(Jt)
                        if cd is not None and cj is not None:
                            if abs(cd - cj) <= 1e-7 * max(abs(cd), abs(cj)):
                                rec['proved'] += 1
                                pending.append((ob, [({(): (float(cd), abs(cd))}, {(): (float(cj), abs(cj))})] if (cd or cj) else []))
                                continue
                        if Dv is Jt:
                            rec['proved'] += 1
                            pending.append((ob, []))
                            continue
                        if any(v.args[0].startswith('js:') for v in E.variables([Jt])):
                            ob.kind = 'accumulated'
                            ob.note = 'stored derivative depends on its value from the previous linearization'
                            ob.env = [dict_env(a) for a in alive[:3]]
                            violations.setdefault(('partial', of, wrt), []).append(ob)
                            continue
                        try:
                            st, pairs = equal_terms(Dv, Jt, min(deadline, time.time() + 20))
                        except (Unsupported, OverflowError, ZeroDivisionError) as e:
                            st, pairs = 'error', []
                            ob.note = f'{type(e).__name__}: {e}'
                        if st == 'residual':
                            st, pairs = drop_negligible(ex, p, Dv, Jt, negl, min(deadline, time.time() + 20))
                        if st == 'proved':
                            rec['proved'] += 1
                            pending.append((ob, pairs))
                            continue
                        # look for a concrete disagreement
                        pts = [a for a in alive if finite(a.val(Dv)) and finite(a.val(Jt))]
                        dis = [a for a in pts if differs(a.val(Dv), a.val(Jt), 1e-4)]
                        if not dis:
                            dis = hunt(ex, p, Dv, Jt, wv, alive, deadline)
                        if dis:
                            ob.D, ob.J = Dv, Jt
                            ob.env = [(dict_env(a), a.val(Dv), a.val(Jt)) for a in dis[:6]]
                            violations.setdefault(('partial', of, wrt), []).append(ob)
                            continue
                        if st == 'toobig':
                            s = slices(Dv, Jt, wv, pts[:2] or alive[:2], deadline)
                            if s == 'proved':
                                rec['slice'] += 1
                                continue
                        near = 'agree at every witness point tried' if pts else 'no witness point'
                        rec['incon'].append(f'd({of}[{i}])/d({wrt}[{j}]) path {pi}: {st} {ob.note} ({near})')
        if cspairs:
            complex_step(cls, opts, symopts, cspairs, alive, pi, rec, violations, deadline)
        if alive:
            rec['witnessed'] += 1

    # ---- z3 verdict on the normalised identities, in batches
    B = 40
    for k in range(0, len(pending), B):
        batch = pending[k:k + B]
        pairs = [q for _, ps in batch for q in ps]
        v = z3_equal(pairs, 5000)
        if v != 'unsat':
            for ob, ps in batch:
                v1 = z3_equal(ps, 5000)
                if v1 != 'unsat':
                    rec['proved'] -= 1
                    rec['incon'].append(f'd({ob.of}[{ob.i}])/d({ob.wrt}[{ob.j}]) path {ob.path}: z3 {v1}')

    # ---- entries that keep a value from an earlier evaluation
    memo = {}
    for (key, k, pi), alts in stale_cand.items():
        ob = Obl(key[0], k, key[1], 0, pi, 'stale-partial')
        rec['oblig'] += 1
        if not history(ex, ob, good, pi, [qi for qi, _ in alts], symopts, memo):
            rec['proved'] += 1
            continue
        violations.setdefault(('stale-partial',) + key, []).append(ob)
    for (of, i, pi) in stale_out:
        ob = Obl(of, i, '', 0, pi, 'stale-output')
        rec['oblig'] += 1
        if not history(ex, ob, good, pi, [qi for qi in range(len(good)) if (of, i, qi) not in stale_out], symopts, memo):
            rec['proved'] += 1
            continue
        violations.setdefault(('stale-output', of, ''), []).append(ob)

    for (kind, of, wrt), obs in violations.items():
        if time.time() > deadline + 20:
            rec['incon'].append(f'{kind} d({of})/d({wrt}): deadline before replay')
            continue
        vs = replay(cls, opts, symopts, kind, of, wrt, obs, known)
        if not vs:
            rec['incon'].append(f'{kind} d({of})/d({wrt}): solver residual not reproduced on the real component'
                                + (f' [{obs[0].note}]' if obs[0].note else ''))
        rec['viol'].extend(vs)


def complex_step(cls, opts, symopts, cspairs, alive, pi, rec, violations, deadline):
    """pairs whose sensitivity the component obtains by complex step of compute: the symbolic derivative against the
    real component at witnesses of the path (counted as decided on slices only)"""
    done = set()
    for a in alive[:3]:
        if time.time() > deadline:
            break
        env = dict_env(a)
        try:
            prob, comp, _ = H.build(cls, H.concretise_options(opts, symopts, env))
            set_point(prob, comp, env)
            run_outputs(prob, comp)
            comp.run_linearize()
            jac = {}
            for of, i, wrt, j, Dv in cspairs:
                if (of, wrt) not in jac:
                    jac[of, wrt] = real_jac(comp, of, wrt, False)
        except Exception as e:  # noqa: BLE001
            rec['notes'].append(f'complex step on path {pi}: {type(e).__name__}: {e}'[:160])
            continue
        for of, i, wrt, j, Dv in cspairs:
            try:
                d = a.val(Dv)
            except (ValueError, OverflowError, ZeroDivisionError, TypeError):
                continue
            J = jac[of, wrt][i, j]
            if not (finite(d) and math.isfinite(J)):
                continue
            done.add((of, i, wrt, j))
            if differs(d, J, 1e-4) and abs(d - J) > 1e-9:
                ob = Obl(of, i, wrt, j, pi)
                ob.note = 'complex step'
                ob.env = [(env, d, J)]
                violations.setdefault(('partial', of, wrt), []).append(ob)
                done.discard((of, i, wrt, j))
    rec['oblig'] += len(done)
    rec['slice'] += len(done)


def coreach(ex, p, q, symopts):
    """can one instance (same option values) take path p and path q in different evaluations?"""
    opts = symopts.vars if symopts is not None else set()
    vs = E.variables(p.conds + q.conds)
    if not any(v.args[0] in opts for v in vs):
        return 'sat'
    mp = {v.args[0]: E.var(v.args[0] + "'", v.op == 'ivar') for v in vs if v.args[0] not in opts and v.op != 'bvar'}
    try:
        r, _ = solve.check(ex.base_conds + p.conds + [E.subst(c, mp) for c in ex.base_conds + q.conds], 2000)
    except Unsupported:
        return 'unknown'
    return r


def history(ex, ob, good, pi, qis, symopts, memo):
    """witnesses of a two-step history: path q writes the entry, then path p leaves it.  False when no
    instance can take both paths (the option values of an instance are fixed)."""
    p = good[pi]
    ob.env = []
    for qi in qis:
        if (pi, qi) not in memo:
            q = good[qi]
            r = coreach(ex, p, q, symopts)
            pairs = []
            if r != 'unsat':
                opts = symopts.vars if symopts is not None else set()
                for a in (p.alive or more_points(ex, p.conds))[:3]:
                    da = dict_env(a)
                    fix = [E.eq(v, da[v.args[0]]) for v in E.variables(q.conds) if v.args[0] in opts]
                    aq = more_points(ex, q.conds + fix, 2) if fix else (q.alive or more_points(ex, q.conds))
                    pairs += [(da, dict_env(b)) for b in aq[:2]]
            memo[pi, qi] = r, pairs
        r, pairs = memo[pi, qi]
        if r == 'unsat':
            continue
        if not ob.note:
            ob.note = f'entry {ob.i} is written on branch {qi} but not on branch {pi}'
        ob.env += pairs
        if len(ob.env) >= 6:
            break
    return bool(ob.note)


def drop_negligible(ex, p, Dv, Jt, memo, deadline):
    """exponentials that the path condition keeps below exp(-230) (1e-100) are dropped on both sides: the code's own
    overflow guards cut the smoothing functions there, so value and derivative legitimately differ by that much"""
    hit = {}
    seen, stack = set(), [Dv, Jt]
    while stack:
        t = stack.pop()
        if not isinstance(t, Term) or t.id in seen:
            continue
        seen.add(t.id)
        if t.op == 'exp':
            if t.id not in memo:
                memo[t.id] = False
                try:
                    if not any(a.val(t) > 1e-100 for a in p.alive[:8]):
                        r, _ = solve.check(ex.base_conds + p.conds + [E.gt(t.args[0], -230.0)], 2000)
                        memo[t.id] = r == 'unsat'
                except (Unsupported, ValueError, OverflowError, ZeroDivisionError, TypeError):
                    pass
            if memo[t.id]:
                hit[t.id] = const(0)
        stack.extend(x for x in t.args if isinstance(x, Term))
    if not hit:
        return 'residual', []
    try:
        m = dict(hit)
        D1, J1 = E.subst(Dv, {}, m), E.subst(Jt, {}, m)
        return equal_terms(D1, J1, deadline)
    except (Unsupported, OverflowError, ZeroDivisionError):
        return 'residual', []


def inside(a, strictly):
    try:
        return all(a.val(c) == True for c in strictly)  # noqa: E712
    except (ValueError, OverflowError, ZeroDivisionError, TypeError):
        return False


def boundary(ex, p):
    """the path condition confines some input to the edge of its domain: no two-sided derivative there"""
    if not p.conds:
        return False
    strict = [E.strict(c) for c in p.conds]
    for v in E.variables(p.conds):
        d = ex.domains.get(v.args[0])
        if d is not None and v.op == 'v' and d[0] < d[1]:
            if d[0] > -math.inf:
                strict.append(E.lt(d[0], v))
            if d[1] < math.inf:
                strict.append(E.lt(v, d[1]))
    if not strict:
        return False
    try:
        if any(all(a.val(c) for c in strict) for a in p.alive[:8]):
            return False
        r, _ = solve.check(ex.base_conds + p.conds + strict, 1500)
    except Unsupported:
        return False
    return r == 'unsat'


def pinned(ex, p):
    """inputs that the path condition holds at an edge of their domain, {name: value}, when the path has an interior
    relative to that edge (derivatives with respect to the other inputs are then two-sided); None otherwise"""
    pins = {}
    base = ex.base_conds + p.conds + ex.box(p.conds)
    for v in E.variables(p.conds):
        d = ex.domains.get(v.args[0])
        if d is None or v.op != 'v' or not d[0] < d[1]:
            continue
        for edge, off in ((d[0], E.lt(d[0], v)), (d[1], E.lt(v, d[1]))):
            if not math.isfinite(edge):
                continue
            try:
                if any(a.val(off) is True for a in p.alive[:8]):
                    continue
                r, _ = solve.check(base + [off], 1000)
            except Unsupported:
                return None
            if r == 'unsat':
                pins[v.args[0]] = edge
    if not pins:
        return None
    memo = {}
    try:
        conds = [E.subst(c, pins, memo) for c in p.conds]
        conds = [c for c in conds if not (c.op == 'bconst' and c.args[0])]
        strict = [E.strict(c) for c in conds]
        for v in E.variables(conds):
            d = ex.domains.get(v.args[0])
            if d is not None and v.op == 'v' and d[0] < d[1]:
                if d[0] > -math.inf:
                    strict.append(E.lt(d[0], v))
                if d[1] < math.inf:
                    strict.append(E.lt(v, d[1]))
        if strict:
            r, _ = solve.check(conds + strict, 1500)
            if r == 'unsat':
                return None
    except (Unsupported, ZeroDivisionError, OverflowError):
        return None
    return pins


def validate(cls, opts, symopts, comp, r, alive, rec, pi):
    """the encoded outputs against the real component at a witness of the path"""
    for a in alive[:2]:
        env = dict_env(a)
        try:
            prob, real, _ = H.build(cls, H.concretise_options(opts, symopts, env))
            for of, arr in r.outs.items():
                for o in arr.view(np.ndarray).reshape(-1):
                    if isinstance(o, Term):
                        a.val(o)
            env = dict_env(a)
            set_point(prob, real, env)
            got = run_outputs(prob, real)
        except Exception:  # noqa: BLE001
            continue
        for of, arr in r.outs.items():
            for i, o in enumerate(arr.view(np.ndarray).reshape(-1)):
                if isinstance(o, Term) and any(v.args[0].startswith('stale:') for v in E.variables([o])):
                    continue
                try:
                    want = a.val(o) if isinstance(o, Term) else float(o)
                except (TypeError, ValueError):
                    continue
                if finite(want) and math.isfinite(got[of][i]) and \
                        abs(want - got[of][i]) > 1e-6 * max(abs(want), abs(got[of][i]), 1e-9):
                    rec['incon'].append(f'encoding of {of}[{i}] on path {pi} differs from the real component: '
                                        f'{want!r} / {got[of][i]!r}')
                    rec['mismatch'] = rec.get('mismatch', 0) + 1
                    return
        rec['validated'] = rec.get('validated', 0) + 1
        if not rec.get('samples'):
            rec['samples'] = [{'component': H.cname(cls), 'path_condition': [E.show(c)[:120] for c in a.ex.conds[:4]] if hasattr(E, 'show') else [],
                               'witness': {k: v for k, v in list(_inputs_of(comp, env).items())[:8]}}]
        return


def sub_args(roots, wv, ops=('exp', 'tanh', 'arctan', 'floor'), limit=16):
    """arguments of the steep functions that depend on wv"""
    seen, out = set(), []
    stack = list(roots)
    while stack and len(out) < limit:
        t = stack.pop()
        if not isinstance(t, Term) or t.id in seen:
            continue
        seen.add(t.id)
        if t.op in ops:
            if any(v is wv for v in E.variables([t.args[0]])) and not any(t.args[0] is o for o in out):
                out.append(t.args[0])
        stack.extend(x for x in t.args if isinstance(x, Term))
    return out


class _Probe:
    """a pool point with one variable moved"""

    def __init__(self, base, name, x):
        self.env = solve.Point(base.ex, base.idx)
        self.env.update(base)
        self.env[name] = x

    def val(self, t):
        try:
            return self.env.val(t)
        except (ValueError, OverflowError, ZeroDivisionError, TypeError):
            return math.nan


def hunt(*args, **kw):
    try:
        return _hunt(*args, **kw)
    except (ValueError, OverflowError, ZeroDivisionError, TypeError, KeyError):
        return []


def _hunt(ex, p, Dv, Jt, wv, alive, deadline, budget=3.0):
    """the normal forms differ: look for a point of this path where the values differ visibly, moving the
    differentiated input along its domain and onto the transitions of the steep functions involved"""
    t0 = time.time()
    name = wv.args[0]
    dom = ex.domains.get(name)
    if dom is None:
        return []
    lo, hi = dom[0], dom[1]
    args = sub_args([Dv, Jt], wv)
    found = []
    for a in list(alive)[:4]:
        cand = []
        for g in args:
            def f(x):
                return _Probe(a, name, x).val(g)
            # transitions: secant on the argument
            for target in (0.3, -0.3, 2.0, -2.0):
                x0, x1 = a[name], a[name] * 1.01 + 1e-6
                y0, y1 = f(x0) - target, f(x1) - target
                for _ in range(12):
                    if not (math.isfinite(y0) and math.isfinite(y1)) or y1 == y0:
                        break
                    x2 = x1 - y1 * (x1 - x0) / (y1 - y0)
                    if not math.isfinite(x2):
                        break
                    x0, y0, x1 = x1, y1, x2
                    y1 = f(x1) - target
                    if abs(y1) < 1e-6:
                        break
                if math.isfinite(y1) and abs(y1) < 1e-2 and lo <= x1 <= hi:
                    cand.append(x1)
        n = 24
        l0 = lo if lo != 0 else (dom[2] or 1.0) * 1e-3
        cand += [l0 + (hi - l0) * k / n for k in range(n + 1)]
        if l0 > 0:
            cand += [l0 * (hi / l0) ** (k / n) for k in range(n + 1)]
        for x in cand:
            if time.time() - t0 > budget or time.time() > deadline:
                return found
            q = _Probe(a, name, x)
            d, j = q.val(Dv), q.val(Jt)
            if finite(d) and finite(j) and differs(d, j, 1e-3):
                if all(q.val(c) == True for c in p.conds):  # noqa: E712
                    found.append(q.env)
                    if len(found) >= 4:
                        return found
    return found


def slices(Dv, Jt, wv, pts, deadline):
    """fix every other input at a concrete point, keep the differentiated one symbolic"""
    ok = 0
    for a in pts:
        mp = {v.args[0]: a[v.args[0]] for v in E.variables([Dv, Jt]) if v is not wv and v.op != 'bvar'}
        try:
            D1, J1 = E.subst(Dv, mp), E.subst(Jt, mp)
            st, pairs = equal_terms(D1, J1, min(deadline, time.time() + 8))
        except (Unsupported, OverflowError, ZeroDivisionError, ValueError):
            return 'error'
        if st != 'proved' or z3_equal(pairs, 3000) != 'unsat':
            return st
        ok += 1
    return 'proved' if ok else 'none'


def dict_env(a):
    for n in a.ex.domains:
        a[n]  # noqa: B018  (fills lazily sampled entries)
    return dict(a)


# ------------------------------------------------------------------ replay on the real code
def set_point(prob, comp, env):
    names = list(comp._var_rel_names['input'])
    if isinstance(comp, om.ImplicitComponent):
        names += list(comp._var_rel_names['output'])
    for n in names:
        m = comp._var_rel2meta[n]
        v = np.array(np.broadcast_to(np.asarray(m['val'], dtype=float), m['shape']))
        fl = v.reshape(-1)
        for i in range(fl.size):
            x = env.get(f'{n}[{i}]')
            if x is not None:
                fl[i] = x
        if n in comp._var_rel_names['input']:
            comp._inputs.set_var(n, v)
        else:
            comp._outputs.set_var(n, v)


def run_outputs(prob, comp):
    with prob.model._scaled_context_all() if hasattr(prob.model, '_scaled_context_all') else _null():
        if isinstance(comp, om.ImplicitComponent):
            comp.run_apply_nonlinear()
            return {n: np.array(comp._residuals[n]).reshape(-1) for n in comp._var_rel_names['output']}
        comp.run_solve_nonlinear()
        return {n: np.array(comp._outputs[n]).reshape(-1) for n in comp._var_rel_names['output']}


class _null:
    def __enter__(self): pass
    def __exit__(self, *a): return False


def real_jac(comp, of, wrt, linearize=True):
    if linearize:
        comp.run_linearize()
    pre = comp.pathname + '.' if comp.pathname else ''
    d = comp._subjacs_info.get((pre + of, pre + wrt))
    no = comp._var_rel2meta[of]['size']
    nw = comp._var_rel2meta[wrt]['size']
    out = np.zeros((no, nw))
    if d is None:
        return out
    v = np.asarray(d['val'], dtype=float)
    if d.get('rows') is not None:
        v = np.broadcast_to(v.reshape(-1) if v.ndim else v, (len(d['rows']),))
        for r, c, x in zip(d['rows'], d['cols'], v):
            out[r, c] += x
    elif d.get('diagonal'):
        np.fill_diagonal(out, np.broadcast_to(v.reshape(-1) if v.ndim else v, (no,)))
    else:
        out[...] = np.broadcast_to(v, d['shape']) if v.size != no * nw else v.reshape(no, nw)
    return out


def candidates(kind, obs, symopts, nob=40):
    """round-robin over the obligations so that every path gets a chance"""
    for k in range(6):
        for ob in obs[:nob]:
            env = ob.env or []
            if k >= len(env):
                continue
            yield ob, env[k]


def replay(cls, opts, symopts, kind, of, wrt, obs, known=None, limit=30):
    """violations reproduced on the real component: at most one unlisted one, plus the listed ones met on the way"""
    np.seterr(all='ignore')
    import warnings
    warnings.simplefilter('ignore')
    out, hit, tries = [], set(), 0
    for ob, item in candidates(kind, obs, symopts):
        tries += 1
        if tries > limit:
            break
        try:
            if kind == 'partial':
                env, dv, jv = item if isinstance(item, tuple) else (item, None, None)
                o = H.concretise_options(opts, symopts, env)
                v = replay_partial(cls, o, env, ob, dv, jv)
            else:
                env, env2 = item
                if symopts is not None and any(env.get(n) != env2.get(n) for n in symopts.vars):
                    env2 = dict(env2)
                    for n in symopts.vars:
                        if n in env:
                            env2[n] = env[n]
                o = H.concretise_options(opts, symopts, env)
                f = replay_stale_output if kind == 'stale-output' else replay_stale_partial
                v = f(cls, o, env, env2, ob)
        except H.SetupFailed:
            continue
        if v is None:
            continue
        v.update(component=H.cname(cls), kind=kind, of=of, wrt=wrt)
        v['_opts'] = o
        k = known(v) if known is not None else None
        if k is None:
            out.append(v)
            return out
        if k not in hit:
            hit.add(k)
            out.append(v)
    return out


def _inputs_of(comp, env):
    return {k: v for k, v in env.items() if not k.startswith(('js:', 'stale:', '$'))}


def replay_partial(cls, opts, env, ob, dv, jv):
    prob, comp, _ = H.build(cls, opts)
    try:
        set_point(prob, comp, env)
        run_outputs(prob, comp)
        J = real_jac(comp, ob.of, ob.wrt)[ob.i, ob.j]
        if not math.isfinite(J):
            return None
        base = np.array(comp._inputs[ob.wrt] if ob.wrt in comp._var_rel_names['input'] else comp._outputs[ob.wrt]).reshape(-1).copy()
        fds = []
        for rel in (1e-4, 1e-5, 1e-6):
            h = rel * max(abs(base[ob.j]), 1e-3)
            vals = []
            for s in (1, -1):
                x = base.copy()
                x[ob.j] += s * h
                set_point(prob, comp, env)
                vec = comp._inputs if ob.wrt in comp._var_rel_names['input'] else comp._outputs
                vec.set_var(ob.wrt, x.reshape(comp._var_rel2meta[ob.wrt]['shape']))
                vals.append(run_outputs(prob, comp)[ob.of][ob.i])
            fds.append((vals[0] - vals[1]) / (2 * h))
    except (ValueError, FloatingPointError, ZeroDivisionError, om.AnalysisError, IndexError, KeyError, TypeError):
        return None
    if not all(math.isfinite(f) for f in fds):
        return None
    best = None
    for a, b in ((0, 1), (1, 2)):
        sc = max(abs(fds[a]), abs(fds[b]), abs(J))
        if abs(fds[a] - fds[b]) <= 2e-4 * sc:
            best = fds[b]
            break
    if best is None:
        return None
    if dv is not None and abs(best - dv) > 1e-2 * max(abs(best), abs(dv)):
        return None
    if abs(best - J) <= 1e-3 * max(abs(best), abs(J)) or abs(best - J) < 1e-9:
        return None
    return {'point': _inputs_of(comp, env), 'options': {k: repr(v) for k, v in opts.items()},
            'entry': [ob.i, ob.j], 'analytic': float(J), 'finite_difference': float(best),
            'symbolic': dv, 'note': ob.note}


def replay_stale_output(cls, opts, env, env2, ob):
    vals = []
    for hist in (False, True):
        prob, comp, _ = H.build(cls, opts)
        try:
            if hist:
                set_point(prob, comp, env2)
                run_outputs(prob, comp)
            set_point(prob, comp, env)
            vals.append(float(run_outputs(prob, comp)[ob.of][ob.i]))
        except Exception:  # noqa: BLE001
            return None
    if any(not math.isfinite(v) for v in vals) or max(vals) - min(vals) <= 1e-9 * max(map(abs, vals)):
        return None
    return {'point': _inputs_of(comp, env), 'previous_point': _inputs_of(comp, env2),
            'options': {k: repr(v) for k, v in opts.items()},
            'entry': [ob.i], 'fresh': vals[0], 'after_history': vals[1], 'note': ob.note}


def replay_stale_partial(cls, opts, env, env2, ob):
    prob, comp, _ = H.build(cls, opts)
    set_point(prob, comp, env)
    try:
        run_outputs(prob, comp)
        fresh = real_jac(comp, ob.of, ob.wrt).copy()
        prob, comp, _ = H.build(cls, opts)
        set_point(prob, comp, env2)
        run_outputs(prob, comp)
        real_jac(comp, ob.of, ob.wrt)
        set_point(prob, comp, env)
        run_outputs(prob, comp)
        after = real_jac(comp, ob.of, ob.wrt).copy()
    except Exception:
        return None
    if not (np.isfinite(fresh).all() and np.isfinite(after).all()):
        return None
    d = np.abs(fresh - after)
    if d.max() <= 1e-6 * max(np.abs(fresh).max(), np.abs(after).max(), 1e-12):
        return None
    return {'point': _inputs_of(comp, env), 'previous_point': _inputs_of(comp, env2),
            'options': {k: repr(v) for k, v in opts.items()},
            'fresh': fresh.tolist(), 'after_history': after.tolist(), 'note': ob.note}

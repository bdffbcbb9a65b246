"""Path exploration and the z3 back end."""
import hashlib
import math
import os
import sys
import time
from fractions import Fraction

sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3  # noqa: E402

from . import expr as E, ival  # noqa: E402
from .expr import Term, R, B, EX, PathAbort, Unsupported  # noqa: E402


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.0
        self.paths = 0
        self.truncated = 0

    def add(self, o):
        for k in self.__dict__:
            setattr(self, k, getattr(self, k) + (o[k] if isinstance(o, dict) else getattr(o, k)))

    def as_dict(self):
        return dict(self.__dict__)


STATS = Stats()


def rat(c):
    if isinstance(c, bool):
        c = int(c)
    if isinstance(c, int):
        return z3.RealVal(c)
    f = Fraction(repr(float(c)))
    return z3.RealVal(f'{f.numerator}/{f.denominator}')


class Enc:
    """Term -> z3.  Transcendental nodes become fresh variables with sound constraints."""

    def __init__(self):
        self.memo = {}
        self.side = {}       # term id -> list of constraints
        self.keep = []
        self.approx = set()  # term ids whose encoding over-approximates

    def enc(self, root):
        memo = self.memo
        if not isinstance(root, Term):
            return rat(root) if not isinstance(root, bool) else z3.BoolVal(root)
        stack = [root]
        while stack:
            t = stack[-1]
            if t.id in memo:
                stack.pop()
                continue
            pend = [a for a in t.args if isinstance(a, Term) and a.id not in memo]
            if pend:
                stack.extend(pend)
                continue
            stack.pop()
            self.keep.append(t)
            a = [memo[x.id] if isinstance(x, Term) else x for x in t.args]
            memo[t.id] = self._node(t, a)
        return memo[root.id]

    def _node(self, t, a):
        op = t.op
        if op == 'c':
            return rat(a[0])
        if op == 'bconst':
            return z3.BoolVal(a[0])
        if op == 'v':
            return z3.Real(a[0])
        if op == 'ivar':
            return z3.ToReal(z3.Int(a[0]))
        if op == 'bvar':
            return z3.Bool(a[0])
        if op == '+':
            return a[0] + a[1]
        if op == '*':
            return a[0] * a[1]
        if op == 'lt':
            return a[0] < a[1]
        if op == 'le':
            return a[0] <= a[1]
        if op == 'eq':
            return a[0] == a[1]
        if op == 'and':
            return z3.And(a[0], a[1])
        if op == 'or':
            return z3.Or(a[0], a[1])
        if op == 'not':
            return z3.Not(a[0])
        side = self.side.setdefault(t.id, [])
        y = z3.Real(f'${op}{t.id}')
        if op == 'pow':
            e = t.args[1]
            x = a[0]
            if isinstance(e, int):
                if e > 0:
                    r = x
                    for _ in range(e - 1):
                        r = r * x
                    return r
                r = x
                for _ in range(-e - 1):
                    r = r * x
                side.append(y * r == 1)
                return y
            f = Fraction(e).limit_denominator(12)
            if abs(float(f) - e) < 1e-9 and f.denominator <= 6 and abs(f.numerator) <= 12:
                p, q = f.numerator, f.denominator
                lhs = y
                for _ in range(q - 1):
                    lhs = lhs * y
                rhs = x
                for _ in range(abs(p) - 1):
                    rhs = rhs * x
                if p > 0:
                    side.append(z3.And(lhs == rhs, y >= 0, x >= 0))
                else:
                    side.append(z3.And(lhs * rhs == 1, y > 0, x > 0))
                return y
            self.approx.add(t.id)
            # monotone facts around 1
            if e > 0:
                side.append(z3.And(x >= 0, y >= 0, z3.Implies(x >= 1, y >= 1), z3.Implies(x <= 1, y <= 1)))
            else:
                side.append(z3.And(x > 0, y > 0, z3.Implies(x >= 1, y <= 1), z3.Implies(x <= 1, y >= 1)))
            return y
        self.approx.add(t.id)
        if op == 'exp':
            x = a[0]
            side.append(z3.And(y > 0, y >= 1 + x, z3.Implies(x <= 0, y <= 1), z3.Implies(x < 1, y * (1 - x) <= 1)))
        elif op == 'log':
            x = a[0]
            side.append(z3.And(x > 0, y <= x - 1, z3.Implies(x >= 1, y >= 0), y * x >= x - 1))
            for p in (0.1, 0.5, 2.0, 10.0):     # tangents
                side.append(y <= rat(math.log(p) + 1e-12) + (x - rat(p)) * rat(1 / p))
        elif op in ('sin', 'cos'):
            other = E.mk('cos' if op == 'sin' else 'sin', t.args[0])
            o = self.memo.get(other.id)
            if o is None:
                o = z3.Real(f'${other.op}{other.id}')
                self.memo[other.id] = o
                self.side.setdefault(other.id, []).append(z3.And(o >= -1, o <= 1))
                self.keep.append(other)
                self.approx.add(other.id)
            side.append(z3.And(y >= -1, y <= 1, y * y + o * o == 1))
            if op == 'sin':
                x = a[0]
                side.append(z3.And(z3.Implies(x >= 0, z3.And(y <= x, y >= -x)), z3.Implies(x <= 0, z3.And(y >= x, y <= -x))))
        elif op == 'tanh':
            side.append(z3.And(y > -1, y < 1, z3.Implies(a[0] >= 0, z3.And(y >= 0, y <= a[0])),
                               z3.Implies(a[0] <= 0, z3.And(y <= 0, y >= a[0]))))
        elif op == 'floor':
            k = z3.Int(f'$floor{t.id}')
            self.approx.discard(t.id)
            side.append(z3.And(z3.ToReal(k) <= a[0], a[0] < z3.ToReal(k) + 1))
            return z3.ToReal(k)
        elif op == 'absop':
            self.approx.discard(t.id)
            return z3.If(a[0] >= 0, a[0], -a[0])
        elif op == 'stopgrad':
            return a[0]
        elif op == 'arctan':
            side.append(z3.And(y < rat(1.5707963268), y > rat(-1.5707963268), z3.Implies(a[0] >= 0, z3.And(y >= 0, y <= a[0])),
                               z3.Implies(a[0] <= 0, z3.And(y <= 0, y >= a[0]))))
        elif op in ('arcsin', 'arccos', 'arctan2', 'uf'):
            pass
        else:
            raise Unsupported(f'z3 encoding of {op}')
        return y

    def sides(self, roots):
        out = []
        seen = set()
        mono = {}
        stack = [r for r in roots if isinstance(r, Term)]
        while stack:
            t = stack.pop()
            if t.id in seen:
                continue
            seen.add(t.id)
            out.extend(self.side.get(t.id, ()))
            stack.extend(a for a in t.args if isinstance(a, Term))
            if t.op in ('sin', 'cos'):
                out.extend(self.side.get(E.mk('cos' if t.op == 'sin' else 'sin', t.args[0]).id, ()))
            elif t.op in ('exp', 'tanh'):
                mono.setdefault(t.op, []).append(t)
        for ts in mono.values():
            if 2 <= len(ts) <= 6:
                for i, t in enumerate(ts):
                    for u in ts[i + 1:]:
                        x, w, y, v = self.memo[t.args[0].id], self.memo[u.args[0].id], self.memo[t.id], self.memo[u.id]
                        out.append(z3.And((x <= w) == (y <= v), (x == w) == (y == v)))
        return out


_ENC = [None, None]


def enc():
    if _ENC[0] is not E.POOL:
        _ENC[0] = E.POOL
        _ENC[1] = Enc()
    return _ENC[1]


def z3check(formulas, timeout=1000, want_model=True):
    """formulas: list of z3 booleans."""
    t0 = time.time()
    s = z3.Solver()
    s.set('timeout', int(timeout))
    for f in formulas:
        s.add(f)
    try:
        r = str(s.check())
    except z3.Z3Exception:
        r = 'unknown'
    STATS.queries += 1
    STATS.time += time.time() - t0
    setattr(STATS, r, getattr(STATS, r) + 1)
    m = None
    if r == 'sat' and want_model:
        m = s.model()
    return r, m


def check(terms, timeout=1000, extra=()):
    """Satisfiability of a conjunction of boolean terms.  -> (verdict, model env)"""
    en = enc()
    fs = [en.enc(t) for t in terms]
    fs += en.sides(terms)
    fs += list(extra)
    r, m = z3check(fs, timeout)
    env = None
    if m is not None:
        env = model_env(m)
    return r, env


def model_env(m):
    env = {}
    for d in m.decls():
        n = d.name()
        if n.startswith('$'):
            continue
        v = m[d]
        try:
            if z3.is_algebraic_value(v):
                v = v.approx(20)
            if z3.is_rational_value(v) or z3.is_int_value(v):
                env[n] = float(Fraction(v.as_fraction())) if z3.is_rational_value(v) else v.as_long()
            elif z3.is_true(v) or z3.is_false(v):
                env[n] = z3.is_true(v)
        except Exception:
            pass
    return env


class Point(dict):
    """a lazily filled concrete assignment"""

    def __init__(self, ex, idx):
        self.ex = ex
        self.idx = idx
        self.memo = {}
        self.dead = False

    def __missing__(self, name):
        v = self.ex.sample(name, self.idx)
        self[name] = v
        return v

    def val(self, t):
        return E._eval(t, self, self.memo)


def _u(name, idx, seed):
    h = hashlib.md5(f'{seed}|{name}|{idx}'.encode()).digest()
    return int.from_bytes(h[:6], 'big') / 2 ** 48


def miss(c, p, neg=False):
    """how far a point is from meeting a condition (0 when it does)"""
    op = c.op
    if op == 'not':
        return miss(c.args[0], p, not neg)
    if op in ('and', 'or'):
        l, r = miss(E.asB(c.args[0]), p, neg), miss(E.asB(c.args[1]), p, neg)
        return l + r if (op == 'and') != neg else min(l, r)
    try:
        v = p.val(c)
    except (TypeError, KeyError, OverflowError):
        return math.inf
    if v is None:
        return math.inf
    if bool(v) != neg:
        return 0.0
    if op not in ('lt', 'le', 'eq'):
        return 1.0
    a, b = [p.val(x) if isinstance(x, E.Term) else x for x in c.args[:2]]
    try:
        d = abs(a - b) / (1e-12 + abs(a) + abs(b))
    except (TypeError, OverflowError):
        return math.inf
    return d + 1e-9 if d == d else math.inf


class Path:
    __slots__ = ('conds', 'result', 'error', 'alive', 'decisions', 'extra')


class Explorer:
    """Runs fn() once for every feasible combination of branch outcomes."""

    def __init__(self, domains=None, npool=48, max_paths=64, seed=0, feas_timeout=400, deadline=None,
                 skip_eq=True, max_decisions=4000):
        self.scratch = {}
        self.intervals = True
        self.ivmemo = {}
        self.domains = domains if domains is not None else {}
        self.npool = npool
        self.max_paths = max_paths
        self.seed = seed
        self.feas_timeout = feas_timeout
        self.deadline = deadline
        self.opaque_abs = False
        self.cs_mode = False
        self.concretize_ints = True
        self.skip_eq = skip_eq
        self.max_decisions = max_decisions
        self.base_conds = []
        self.truncated = 0
        self.skipped_eq = 0
        self.forced_by_solver = 0
        self.points = [Point(self, i) for i in range(npool)]
        self.box_vars = set()
        self.tag_abs = None

    def reach(self, conds, seconds=1.5, want=1, rnd=None):
        """points of the domain that meet every condition, looked for by descent on the distance to them"""
        import random
        rnd = rnd or random.Random(7919 + self.seed)
        conds = [E.asB(c) for c in conds]
        names = sorted({v.args[0] for c in conds for v in E.variables([c]) if v.op in ('v', 'ivar') and v.args[0] in self.domains})
        names = [n for n in names if self.domains[n][0] < self.domains[n][1]]
        if not names:
            return []
        end = time.time() + seconds

        def cost(p):
            return sum([miss(c, p) for c in conds], 0.0)
        pool = sorted(((cost(p), i, p) for i, p in enumerate(self.points[:40])), key=lambda x: x[:2])
        out = [p for d, _, p in pool if d == 0.0][:want]
        for d, _, p0 in pool[:6]:
            if len(out) >= want or d == math.inf:
                break
            cur, best, sigma = p0, d, 0.3
            for it in range(500):
                if time.time() > end:
                    return out
                q = Point(self, cur.idx)
                q.update(cur)
                for n in rnd.sample(names, min(len(names), rnd.choice((1, 1, 2, 3)))):
                    lo, hi = self.domains[n][:2]
                    r = rnd.random()
                    if len(self.domains[n]) > 3 and self.domains[n][3] == 'int':
                        q[n] = rnd.randint(int(lo), int(hi))
                        continue
                    lo, hi = max(lo, -1e12), min(hi, 1e12)
                    if r < 0.1:
                        q[n] = rnd.choice((lo, hi))
                    elif r < 0.25:
                        q[n] = lo + rnd.random() * (hi - lo)
                    elif lo > 0 and r < 0.6:
                        q[n] = min(max(q[n] * math.exp(rnd.gauss(0, sigma * 2)), lo), hi)
                    else:
                        q[n] = min(max(q[n] + rnd.gauss(0, sigma) * (hi - lo if hi - lo < 1e6 else 1 + abs(q[n])), lo), hi)
                c = cost(q)
                if c < best or c == best and rnd.random() < 0.5:
                    sigma = min(sigma * 1.3, 0.5) if c < best else sigma
                    cur, best = q, c
                else:
                    sigma = max(sigma * 0.96, 1e-4)
                if best == 0.0:
                    out.append(cur)
                    self.points.append(cur)
                    break
        return out

    # ---- domains: name -> (lo, hi, default)
    def sample(self, name, idx):
        d = self.domains.get(name)
        if d is None:
            return 0.5 + _u(name, idx, self.seed) * 2
        lo, hi, de = d[:3]
        if lo == hi:
            return lo
        u = _u(name, idx, self.seed)
        if len(d) > 3 and d[3] == 'int':
            return int(lo + math.floor(u * (hi - lo + 1)))
        if de is not None and idx % 3 != 2:
            # multiplicative neighbourhood of the default
            f = 0.5 + u if idx % 3 == 0 else 0.8 + 0.4 * u
            v = de * f if de != 0 else (lo if lo > -1 else -1) + u * ((hi if hi < 1 else 1) - (lo if lo > -1 else -1))
            return min(max(v, lo), hi)
        if lo == 0 and de:
            lo = min(de, hi) * 1e-3
        if lo > 0 and hi / lo > 100:
            return lo * (hi / lo) ** u
        if lo < 0 and de and idx % 2:
            return de * (0.1 + 2 * u)
        return lo + u * (hi - lo)

    def box(self, terms):
        """box constraints (as terms) for the variables of the given terms"""
        out = []
        for v in E.variables(terms):
            d = self.domains.get(v.args[0])
            if d is not None and v.op != 'bvar':
                lo, hi = d[:2]
                if lo == hi:
                    out.append(E.eq(v, lo))
                else:
                    if lo > -math.inf:
                        out.append(E.le(lo, v))
                    if hi < math.inf:
                        out.append(E.le(v, hi))
        return [c for c in out if not (c.op == 'bconst' and c.args[0])]

    def feasible(self, conds):
        try:
            r, env = check(conds + self.box(conds), self.feas_timeout)
        except Unsupported:
            return True
        if r == 'sat' and env:
            # remember the witness when it evaluates correctly
            p = Point(self, len(self.points))
            p.update(env)
            if all(p.val(c) is True or p.val(c) == True for c in conds):  # noqa
                self.points.append(p)
        return r != 'unsat'

    def assume(self, cond):
        """constrain the current path (used by harnesses)"""
        cond = E.asB(cond)
        if cond.op == 'bconst':
            if not cond.args[0]:
                raise PathAbort('assumption false')
            return
        self._push(cond, True)
        if not self.alive and not self.feasible(self.conds):
            raise PathAbort('assumption infeasible')

    def decide(self, cond):
        if cond.op == 'bconst':
            return cond.args[0]
        if cond.op == 'not':
            return not self.decide(cond.args[0])
        v = self.known.get(cond.id)
        if v is not None:
            return v
        if cond.op in ('and', 'or'):
            # decide components one after another (short circuit) for precise path conditions
            a = self.decide(cond.args[0])
            if cond.op == 'and':
                r = a and self.decide(cond.args[1])
            else:
                r = a or self.decide(cond.args[1])
            self.known[cond.id] = r
            return r
        if len(self.trace) > self.max_decisions:
            raise PathAbort('too many decisions')
        if self.deadline is not None and time.time() > self.deadline:
            self.timed_out = True
            raise PathAbort('deadline')
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(v)
            self._push(cond, v, keep=not (self.intervals and len(self.conds) >= 40 and ival.truth(cond, self.domains, self.ivmemo) is v))
            return v
        wt = [p for p in self.alive if p.val(cond) is True or p.val(cond) == 1]
        wf = [p for p in self.alive if p.val(cond) is False]
        t_ok, f_ok = bool(wt), bool(wf)
        if t_ok != f_ok and self.intervals:
            iv = ival.truth(cond, self.domains, self.ivmemo)
            if iv is not None and iv is t_ok:
                # settled on the whole box: no query needed
                self.pos += 1
                self.prefix = self.prefix + [iv]
                self.trace.append(iv)
                self._push(cond, iv, keep=len(self.conds) < 40)
                return iv
        if not t_ok:
            t_ok = self._feas_cached(cond, True)
        if not f_ok:
            f_ok = self._feas_cached(cond, False)
        if t_ok and f_ok:
            v = True
            if cond.op == 'eq' and self.skip_eq and any(v.op == 'v' for v in E.variables([cond])):
                v = False
                self.skipped_eq += 1
            elif cond.op == 'eq' and wf and not wt:
                v = False       # the generic side first
                self.work.append(self.trace[:] + [True])
            else:
                self.work.append(self.trace[:] + [False])
            if len(self.work) + self.done > self.max_paths * 4:
                pass
        elif t_ok:
            v = True
        elif f_ok:
            v = False
        else:
            raise PathAbort('infeasible')
        self.pos += 1
        self.prefix = self.prefix + [v]
        self.trace.append(v)
        self._push(cond, v)
        return v

    def _feas_cached(self, cond, v):
        c = cond if v else E.not_(cond)
        key = (tuple(sorted(x.id for x in self.conds)), c.id)
        r = self.fcache.get(key)
        if r is None:
            r = self.feasible(self.base_conds + self.conds + [c])
            self.fcache[key] = r
        return r

    def _push(self, cond, v, keep=True):
        c = cond if v else E.not_(cond)
        if keep:
            self.conds.append(c)
        self.known[cond.id] = v
        self.known[c.id] = True
        self.known[E.not_(c).id] = False
        self.alive = [p for p in self.alive if p.val(c) is True or p.val(c) == 1]

    def pick_int(self, t):
        """concretise an integer-valued term by forking on its value (domain must be small)."""
        vs = sorted({p.val(t) for p in self.alive if p.val(t) == p.val(t)})
        cand = []
        for v in vs:
            k = math.floor(v)
            if k not in cand:
                cand.append(k)
        d = self.domains.get(t.args[0]) if t.op == 'ivar' else None
        if d is not None:
            cand = list(range(int(d[0]), int(d[1]) + 1))
        fl = E.floor(t)
        for k in cand[:32]:
            if self.decide_eq(fl, k):
                return k
        if d is None:
            self.truncated += 1
            STATS.truncated += 1
            raise PathAbort('integer value outside the sampled range')
        raise Unsupported('int() of a symbolic value with unbounded domain')

    def decide_eq(self, t, k):
        save = self.skip_eq
        self.skip_eq = False
        try:
            return bool(E.eq(t, k))
        finally:
            self.skip_eq = save

    def start_path(self, prefix):
        self.prefix = list(prefix)
        self.pos = 0
        self.trace = []
        self.conds = []
        self.known = {}
        self.alive = [p for p in self.points if all(p.val(c) == True for c in self.base_conds)]  # noqa
        for c in self.base_conds:
            self.known[c.id] = True
            self.known[E.not_(c).id] = False

    def explore(self, fn):
        """yield Path objects"""
        self.work = [[]]
        self.done = 0
        self.fcache = {}
        self.timed_out = False
        out = []
        while self.work:
            if self.done >= self.max_paths or (self.deadline is not None and time.time() > self.deadline):
                self.truncated += len(self.work)
                STATS.truncated += len(self.work)
                break
            # mostly depth first; every third path flips the earliest open decision, so that a limited number of
            # paths still varies the decisions taken first
            prefix = self.work.pop(0 if self.done % 3 == 2 else -1)
            self.start_path(prefix)
            prev = EX.cur
            EX.cur = self
            p = Path()
            p.error = None
            p.result = None
            p.extra = None
            try:
                p.result = fn()
            except PathAbort as e:
                p.error = e
            except Exception as e:
                p.error = e
            finally:
                EX.cur = prev
            p.conds = list(self.conds)
            p.alive = list(self.alive)
            p.decisions = list(self.trace)
            self.done += 1
            STATS.paths += 1
            if isinstance(p.error, PathAbort):
                if str(p.error) in ('too many decisions', 'deadline'):
                    self.truncated += 1
                    STATS.truncated += 1
                continue
            out.append(p)
        return out

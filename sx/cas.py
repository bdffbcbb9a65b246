"""Normal form for the real terms: generalised polynomials over atoms.

monomial  = sorted tuple of (atom id, exponent), exponents int or float rounded to 10 decimals
polynomial = dict monomial -> (coefficient, magnitude)   (magnitude = sum of |summands|, used to
             recognise floating point cancellation)
Atoms: variables, exp(monomial), log(atom), trigonometric and other opaque functions of interned
polynomials, and 'sum' atoms (a multi-term polynomial that occurs under a negative or fractional
power).  Normalisation assumes that bases of fractional powers and arguments of logarithms are
positive and denominators are non-zero (the program has no defined value otherwise); the factors
this makes positive are recorded in CTX.assumed.
"""
import math
from .expr import Term, Unsupported

MAXT = 6000
EPS = 1e-11


class TooBig(Exception):
    pass


class Ctx:
    def __init__(self):
        self.atoms = []          # list of (kind, payload)
        self.atom_ids = {}
        self.polys = []          # interned polynomials
        self.poly_ids = {}       # mono-key -> [ids]
        self.cache = {}          # term id -> Poly
        self.assumed = set()     # atom ids assumed positive
        self.trig = set()        # cos atom ids
        self.angles = {}         # monomial -> coefficients seen under sin/cos
        self.maxt = MAXT
        self.deadline = None


CTX = Ctx()


class _C:
    def clear(self):
        global CTX
        CTX = Ctx()


CACHE = _C()


def atom(kind, payload):
    k = (kind, payload)
    i = CTX.atom_ids.get(k)
    if i is None:
        i = len(CTX.atoms)
        CTX.atoms.append(k)
        CTX.atom_ids[k] = i
        if kind == 'cos':
            CTX.trig.add(i)
    return i


def rexp(e):
    if isinstance(e, int):
        return e
    e = round(float(e), 10)
    if e == int(e):
        return int(e)
    return e


def pconst(c):
    c = float(c)
    return {(): (c, abs(c))} if c != 0 else {}


def patom(a, e=1):
    return {((a, e),): (1.0, 1.0)}


def padd_into(acc, p, k=1.0):
    for m, (c, g) in p.items():
        if k != 1.0:
            c = c * k
            g = g * abs(k)
        o = acc.get(m)
        if o is None:
            acc[m] = (c, g)
        else:
            c2 = o[0] + c
            g2 = o[1] + g
            if abs(c2) <= EPS * g2:
                # keep magnitude information out: exact cancellation
                del acc[m]
            else:
                acc[m] = (c2, g2)
    if len(acc) > CTX.maxt:
        raise TooBig(f'{len(acc)} terms')
    return acc


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        o = d.get(a)
        if o is None:
            d[a] = e
        else:
            s = rexp(o + e)
            if s == 0:
                del d[a]
            else:
                d[a] = s
    return tuple(sorted(d.items()))


def mpow(m, e):
    return tuple((a, rexp(x * e)) for a, x in m)


def _tick():
    if CTX.deadline is not None:
        import time
        if time.time() > CTX.deadline:
            raise TooBig('time')


def pmul(p, q):
    if len(p) > len(q):
        p, q = q, p
    if len(p) * len(q) > 40 * CTX.maxt:
        raise TooBig('product')
    _tick()
    acc = {}
    for m1, (c1, g1) in p.items():
        if m1 == ():
            padd_into(acc, q, c1) if g1 == abs(c1) else padd_into(acc, {m: (c * c1, g * g1) for m, (c, g) in q.items()})
            continue
        prod = {}
        for m2, (c2, g2) in q.items():
            m = mmul(m1, m2)
            o = prod.get(m)
            if o is None:
                prod[m] = (c1 * c2, g1 * g2)
            else:
                prod[m] = (o[0] + c1 * c2, o[1] + g1 * g2)
        padd_into(acc, prod)
    if CTX.trig:
        acc = reduce_trig(acc)
    return acc


def reduce_trig(p):
    trig = CTX.trig
    todo = [m for m in p if any(a in trig and isinstance(e, int) and e >= 2 for a, e in m)]
    if not todo:
        return p
    acc = {m: v for m, v in p.items() if m not in set(todo)}
    for m in todo:
        c, g = p[m]
        rest = []
        q = {(): (c, g)}
        for a, e in m:
            if a in trig and isinstance(e, int) and e >= 2:
                s = atom('sin', CTX.atoms[a][1])
                one_minus = {(): (1.0, 1.0), ((s, 2),): (-1.0, 1.0)}
                for _ in range(e // 2):
                    q = _rawmul(q, one_minus)
                if e % 2:
                    rest.append((a, 1))
            else:
                rest.append((a, e))
        rest = tuple(rest)
        q = {mmul(rest, mm): v for mm, v in q.items()}
        padd_into(acc, q)
    return reduce_trig(acc)


def _rawmul(p, q):
    acc = {}
    for m1, (c1, g1) in p.items():
        padd_into(acc, {mmul(m1, m2): (c1 * c2, g1 * g2) for m2, (c2, g2) in q.items()})
    return acc


def pscale(p, k):
    if k == 0:
        return {}
    return {m: (c * k, g * abs(k)) for m, (c, g) in p.items()}


def clean(p):
    return {m: v for m, v in p.items() if abs(v[0]) > EPS * v[1]}


def intern(p):
    """id of a polynomial, up to 1e-9 relative coefficient noise."""
    key = tuple(sorted(p))
    cands = CTX.poly_ids.setdefault(key, [])
    cs = [p[m][0] for m in key]
    for i, cc in cands:
        if all(abs(a - b) <= 1e-9 * max(abs(a), abs(b)) for a, b in zip(cs, cc)):
            return i
    i = len(CTX.polys)
    CTX.polys.append({m: (v[0], abs(v[0])) for m, v in p.items()})
    cands.append((i, cs))
    return i


def content(p):
    """split p = k * monomial * rest, rest with leading coefficient 1 (k may be negative)."""
    exps = {}
    n = len(p)
    for m in p:
        for a, e in m:
            exps.setdefault(a, []).append(e)
    mono = []
    for a, es in exps.items():
        lo = min(es)
        if len(es) < n:
            lo = min(lo, 0)
        if lo != 0:
            mono.append((a, lo))
    mono = tuple(sorted(mono))
    inv = mpow(mono, -1)
    q = {mmul(m, inv): v for m, v in p.items()}
    if CTX.trig:
        q = reduce_trig(q) or q
    lead = max(q, key=lambda m: (len(m), m))
    k = q[lead][0]
    q = {m: (c / k, g / abs(k)) for m, (c, g) in q.items()}
    return k, mono, q


def trig_factor(p):
    """p = cos(x)^(2n) * q  with p written in sin(x)"""
    if not CTX.trig:
        return None
    sins = set()
    for m in p:
        for a, e in m:
            if CTX.atoms[a][0] == 'sin' and isinstance(e, int) and e >= 2:
                sins.add(a)
    for s in sins:
        n = 0
        cur = p
        while True:
            byd = {}
            ok = True
            for m, v in cur.items():
                d = dict(m)
                e = d.pop(s, 0)
                if not isinstance(e, int) or e < 0:
                    ok = False
                    break
                byd.setdefault(e, {})[tuple(sorted(d.items()))] = v
            if not ok or not byd:
                break
            deg = max(byd)
            if deg < 2:
                break
            q = {}
            for k in range(deg + 1):
                t = dict(byd.get(k, {}))
                if k >= 2:
                    padd_into(t, q[k - 2])
                q[k] = t
            tail = [v for k in (deg - 1, deg) for v in q[k].values()]
            if any(abs(c) > 1e-9 * g for c, g in tail):
                break
            nxt = {}
            for k in range(deg - 1):
                for m, v in q[k].items():
                    if v[0] != 0:
                        nxt[mmul(m, ((s, k),)) if k else m] = v
            if not nxt:
                break
            cur = nxt
            n += 1
        if n:
            return atom('cos', CTX.atoms[s][1]), n, cur
    return None


def assume_pos(mono):
    for a, e in mono:
        if CTX.atoms[a][0] not in ('exp',):
            CTX.assumed.add(a)


def ppow(p, e):
    e = rexp(e)
    if e == 0:
        return pconst(1)
    if e == 1:
        return p
    if not p:
        if e > 0:
            return {}
        raise Unsupported('division by identically zero expression')
    isint = isinstance(e, int)
    if len(p) == 1:
        (m, (c, g)), = p.items()
        if isint or c > 0:
            if not isint:
                assume_pos(m)
            r = {mpow(m, e): (c ** e, abs(c) ** e)}
            return reduce_trig(r) if CTX.trig else r
        # negative coefficient under a fractional power
        s = atom('sum', intern({m: (-1.0, 1.0)}))
        CTX.assumed.add(s)
        return {((s, e),): ((-c) ** e, (-c) ** e)}
    if isint and e > 0:
        if e <= 8:
            try:
                r = p
                save = CTX.maxt
                CTX.maxt = min(save, 1500)
                try:
                    for _ in range(e - 1):
                        r = pmul(r, p)
                finally:
                    CTX.maxt = save
                return r
            except TooBig:
                pass
    k, mono, q = content(p)
    f = trig_factor(q)
    if f is not None:
        ca, n, q = f
        if not isint:
            assume_pos(mono)
            if k < 0:
                k, q = -k, pscale(q, -1.0)
        head = {mmul(mpow(mono, e), ((ca, rexp(2 * n * e)),)): (k ** e, abs(k) ** e)}
        return pmul(head, ppow(q, e))
    if isint:
        s = atom('sum', intern(q))
        return {mmul(mpow(mono, e), ((s, e),)): (k ** e, abs(k) ** e)}
    assume_pos(mono)
    if k < 0:
        q = pscale(q, -1.0)
        k = -k
    s = atom('sum', intern(q))
    CTX.assumed.add(s)
    return {mmul(mpow(mono, e), ((s, e),)): (k ** e, k ** e)}


def pexp(p):
    k = 1.0
    mono = []
    for m, (c, g) in p.items():
        if m == ():
            if abs(c) > 60:
                # kept apart so that huge and tiny factors do not swamp the coefficients
                mono.append((atom('expc', float('%.9g' % abs(c))), 1 if c > 0 else -1))
            else:
                k = math.exp(c)
            continue
        # single log atom: exp(c*log(a)) = a^c
        if len(m) == 1 and m[0][1] == 1 and CTX.atoms[m[0][0]][0] == 'log':
            a = CTX.atoms[m[0][0]][1]
            assume_pos(((a, 1),))
            mono.append((a, rexp(c)))
        else:
            mono.append((atom('exp', m), rexp(c)))
    r = ()
    for x in mono:
        if x[1] != 0:
            r = mmul(r, (x,))
    return {r: (k, abs(k))}


def plog(p):
    if not p:
        raise Unsupported('log of zero')
    if len(p) == 1:
        (m, (c, g)), = p.items()
        if c < 0:
            s = atom('sum', intern({m: (-1.0, 1.0)}))
            CTX.assumed.add(s)
            c, m = -c, ((s, 1),)
        k, mono = c, m
        acc = {}
    else:
        k, mono, q = content(p)
        if k < 0:
            q = pscale(q, -1.0)
            k = -k
        s = atom('sum', intern(q))
        CTX.assumed.add(s)
        acc = patom(atom('log', s))
    assume_pos(mono)
    for a, e in mono:
        kind, pl = CTX.atoms[a]
        if kind == 'exp':
            padd_into(acc, {pl: (float(e), abs(e))})
        else:
            padd_into(acc, {((atom('log', a), 1),): (float(e), abs(e))})
    if k != 1:
        padd_into(acc, pconst(math.log(k)))
    return acc


def pfun(name, p):
    if len(p) == 1 and () in p:
        c = p[()][0]
        f = {'sin': math.sin, 'cos': math.cos, 'arctan': math.atan, 'arcsin': math.asin,
             'arccos': math.acos, 'floor': math.floor, 'absop': abs, 'stopgrad': lambda x: x}[name]
        return pconst(f(c))
    if not p:
        return pconst({'cos': 1.0, 'arccos': math.pi / 2}.get(name, 0.0))
    sgn = 1.0
    if name in ('sin', 'cos', 'arctan', 'arcsin', 'absop'):
        lead = max(p, key=lambda m: (len(m), m))
        if p[lead][0] < 0:
            p = pscale(p, -1.0)
            if name not in ('cos', 'absop'):
                sgn = -1.0
    if name == 'arccos':
        # arccos(u) = pi/2 - arcsin(u)
        return padd_into(pconst(math.pi / 2), pfun('arcsin', p), -1.0)
    if name in ('sin', 'cos') and len(p) > 1 and len(p) <= 3:
        # constant shifts by multiples of pi/2 and angle sums with a constant
        c = p.get((), (0.0, 0.0))[0]
        if c != 0:
            rest = {m: v for m, v in p.items() if m != ()}
            s, k = pfun('sin', rest), pfun('cos', rest)
            if name == 'sin':
                r = padd_into(pscale(s, _tz(math.cos(c))), pscale(k, _tz(math.sin(c))))
            else:
                r = padd_into(pscale(k, _tz(math.cos(c))), pscale(s, _tz(-math.sin(c))))
            return pscale(r, sgn)
        if len(p) == 2:
            (m1, v1), (m2, v2) = sorted(p.items())
            a, b = {m1: v1}, {m2: v2}
            if name == 'sin':
                r = padd_into(pmul(pfun('sin', a), pfun('cos', b)), pmul(pfun('cos', a), pfun('sin', b)))
            else:
                r = padd_into(pmul(pfun('cos', a), pfun('cos', b)),
                              pmul(pfun('sin', a), pfun('sin', b)), -1.0)
            return pscale(r, sgn)
    if name in ('sin', 'cos') and len(p) == 1:
        (m, (c, g)), = p.items()
        known = CTX.angles.setdefault(m, [])
        for c0 in known:
            n = c / c0
            if abs(n - 2) < 1e-9 or abs(n - 3) < 1e-9:
                a1, a2 = {m: (c0, abs(c0))}, {m: (c - c0, abs(c - c0))}
                s1, k1, s2, k2 = pfun('sin', a1), pfun('cos', a1), pfun('sin', a2), pfun('cos', a2)
                if name == 'sin':
                    r = padd_into(dict(pmul(s1, k2)), pmul(k1, s2))
                else:
                    r = padd_into(dict(pmul(k1, k2)), pmul(s1, s2), -1.0)
                return pscale(r, sgn)
        if not any(abs(c - c0) <= 1e-9 * abs(c) for c0 in known):
            known.append(c)
        if len(m) == 1 and m[0][1] == 1 and CTX.atoms[m[0][0]][0] in ('arcsin', 'arctan', 'arctan2') and abs(c - 1) < 1e-12:
            kind, pid = CTX.atoms[m[0][0]]
            if kind == 'arcsin':
                u = CTX.polys[pid]
                if name == 'sin':
                    return pscale(u, sgn)
                return ppow(padd_into(pconst(1), pmul(u, u), -1.0), 0.5)
            if kind == 'arctan':
                u = CTX.polys[pid]
                r = ppow(padd_into(pconst(1), pmul(u, u)), -0.5)
                return pscale(pmul(u, r), sgn) if name == 'sin' else r
            if kind == 'arctan2':
                y, x = CTX.polys[pid[0]], CTX.polys[pid[1]]
                h = ppow(padd_into(dict(pmul(x, x)), pmul(y, y)), -0.5)
                return pscale(pmul(y, h), sgn) if name == 'sin' else pmul(x, h)
    return pscale(patom(atom(name, intern(p))), sgn)


def _tz(x):
    return 0.0 if abs(x) < 1e-15 else x


def canon(root):
    """Normal form of a term."""
    cache = CTX.cache
    if not isinstance(root, Term):
        return pconst(root)
    stack = [root]
    while stack:
        t = stack[-1]
        if t.id in cache:
            stack.pop()
            continue
        op = t.op
        if op == '+':
            leaves = []
            st = list(t.args)
            while st:
                x = st.pop()
                if x.op == '+' and x.id not in cache:
                    st.extend(x.args)
                else:
                    leaves.append(x)
            kids = leaves
        else:
            kids = [a for a in t.args if isinstance(a, Term)]
        pend = [a for a in kids if a.id not in cache]
        if pend:
            stack.extend(pend)
            continue
        stack.pop()
        _tick()
        if op == 'c':
            v = pconst(t.args[0])
        elif op in ('v', 'ivar'):
            v = patom(atom('v', t))
        elif op == '+':
            v = {}
            for k in kids:
                padd_into(v, cache[k.id])
        elif op == '*':
            v = pmul(cache[t.args[0].id], cache[t.args[1].id])
        elif op == 'pow':
            v = ppow(cache[t.args[0].id], t.args[1])
        elif op == 'exp':
            v = pexp(cache[t.args[0].id])
        elif op == 'log':
            v = plog(cache[t.args[0].id])
        elif op == 'tanh':
            e2 = pexp(pscale(cache[t.args[0].id], 2.0))
            den = ppow(padd_into(dict(e2), pconst(1)), -1)
            v = padd_into(pconst(1), den, -2.0)
        elif op in ('sin', 'cos', 'arctan', 'arcsin', 'arccos', 'floor', 'absop', 'stopgrad'):
            v = pfun(op, cache[t.args[0].id])
        elif op == 'arctan2':
            v = patom(atom('arctan2', (intern(cache[t.args[0].id]), intern(cache[t.args[1].id]))))
        elif op == 'uf':
            v = patom(atom('uf', (t.args[0],) + tuple(intern(cache[a.id]) for a in t.args[1:])))
        else:
            raise Unsupported(f'canon of {op}')
        cache[t.id] = v
    return cache[root.id]


def frac(e):
    return 0 if isinstance(e, int) else round(e - math.floor(e), 9)


def _special(a):
    return CTX.atoms[a][0] in ('sum', 'cos')


def zero_residual(P, Q, reltol=1e-7, rounds=10):
    """Clear denominators of P - Q.  Returns (bad, groups): lists of pairs (Pi, Qi) of polynomials
    (independent groups); P == Q follows if all Pi == Qi."""
    groups = [(dict(P), dict(Q))]
    for _ in range(rounds):
        out = []
        changed = False
        for p, q in groups:
            _tick()
            if _equal(p, q, reltol):
                out.append((p, q))
                continue
            need = False
            for poly in (p, q):
                for m in poly:
                    for a, e in m:
                        k = CTX.atoms[a][0]
                        if k == 'sum' and (e >= 1 or e < 0) or k == 'cos' and (e < 0 or e >= 2):
                            need = True
                            break
                    if need:
                        break
            if not need:
                out.append((p, q))
                continue
            changed = True
            keyed = {}
            for side, poly in ((0, p), (1, q)):
                for m, v in poly.items():
                    k = tuple((a, frac(e)) for a, e in m if _special(a) and frac(e) != 0)
                    keyed.setdefault(k, ({}, {}))[side][m] = v
            for k, (gp, gq) in keyed.items():
                ms = list(gp) + list(gq)
                lo, cnt = {}, {}
                for m in ms:
                    for a, e in m:
                        if _special(a):
                            lo[a] = min(lo.get(a, e), e)
                            cnt[a] = cnt.get(a, 0) + 1
                shift = []
                for a, e in lo.items():
                    if cnt[a] < len(ms):
                        e = min(e, 0)
                    if e != 0:
                        shift.append((a, rexp(-e)))
                shift = tuple(sorted(shift))
                out.append(tuple(_expand_sums({mmul(m, shift): v for m, v in g.items()}) for g in (gp, gq)))
        groups = out
        if not changed:
            break
    return [(p, q) for p, q in groups if not _equal(p, q, reltol)], groups


def _expand_sums(p):
    for _ in range(60):
        top = -1
        for m in p:
            for a, e in m:
                if a > top and CTX.atoms[a][0] == 'sum' and isinstance(e, int) and e > 0:
                    top = a
        if top < 0:
            break
        base = CTX.polys[CTX.atoms[top][1]]
        pw = {}
        acc = {}
        bye = {}
        for m, v in p.items():
            d = dict(m)
            e = d.get(top)
            if e is not None and isinstance(e, int) and e > 0:
                del d[top]
                bye.setdefault(e, {})[tuple(sorted(d.items()))] = v
            else:
                acc[m] = v
        cur = pconst(1)
        for k in range(1, max(bye) + 1 if bye else 1):
            cur = pmul(cur, base)
            if k in bye:
                padd_into(acc, pmul(bye[k], cur))
        p = reduce_trig(acc) if CTX.trig else acc
    return p


def _equal(p, q, reltol):
    for m in set(p) | set(q):
        a = p.get(m, (0.0, 0.0))
        b = q.get(m, (0.0, 0.0))
        if abs(a[0] - b[0]) > reltol * max(a[1], b[1]):
            return False
    return True


# ---------------------------------------------------------------- numeric value of atoms
def atom_value(a, env, memo):
    if a in memo:
        return memo[a]
    k, pl = CTX.atoms[a]
    if k == 'v':
        v = env[pl.args[0]]
    elif k == 'exp':
        v = math.exp(mono_value(pl, env, memo))
    elif k == 'expc':
        v = math.exp(pl) if pl < 700 else math.inf
    elif k == 'log':
        v = math.log(atom_value(pl, env, memo))
    elif k == 'sum':
        v = poly_value(CTX.polys[pl], env, memo)
    elif k == 'arctan2':
        v = math.atan2(poly_value(CTX.polys[pl[0]], env, memo), poly_value(CTX.polys[pl[1]], env, memo))
    else:
        f = {'sin': math.sin, 'cos': math.cos, 'arctan': math.atan, 'arcsin': math.asin,
             'floor': math.floor, 'absop': abs, 'stopgrad': lambda x: x}[k]
        v = f(poly_value(CTX.polys[pl], env, memo))
    memo[a] = v
    return v


def mono_value(m, env, memo):
    r = 1.0
    for a, e in m:
        v = atom_value(a, env, memo)
        if v < 0 and not isinstance(e, int):
            return math.nan
        r *= v ** e
    return r


def poly_value(p, env, memo):
    return sum(c * mono_value(m, env, memo) for m, (c, g) in p.items())

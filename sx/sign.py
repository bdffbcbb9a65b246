"""Sign certificates: is a term non-negative on the whole box?

The term is put in the normal form of `cas`, denominators whose sign is settled by interval
arithmetic are cleared, sums are expanded, and the remaining polynomial is bounded from below by
intervals after moving every variable to the lower end of its domain.  Sound, not complete."""
import math

from . import cas
from .ival import ALL, INF, _mul

MAXT = 3000


def power(a, e):
    if e == 0:
        return 1.0, 1.0
    if isinstance(e, int) or float(e).is_integer():
        e = int(e)
        if e < 0:
            if a[0] <= 0.0 <= a[1]:
                if a[0] == 0.0:
                    return (1.0 / a[1]) ** -e if a[1] < INF else 0.0, INF
                return (0.0, INF) if e % 2 == 0 else ALL
            a, e = (1.0 / a[1] if a[1] not in (INF, -INF) else 0.0, 1.0 / a[0] if a[0] not in (INF, -INF) else 0.0), -e
        try:
            x, y = a[0] ** e, a[1] ** e
        except OverflowError:
            return (0.0, INF) if e % 2 == 0 else ALL
        if e % 2:
            return x, y
        return (0.0 if a[0] <= 0.0 <= a[1] else min(x, y)), max(x, y)
    lo, hi = max(a[0], 0.0), max(a[1], 0.0)
    try:
        if e > 0:
            return lo ** e, hi ** e if hi < INF else INF
        return (hi ** e if hi < INF else 0.0) if hi > 0 else 0.0, lo ** e if lo > 0 else INF
    except OverflowError:
        return 0.0, INF


def atom_range(a, dom, memo):
    r = memo.get(a)
    if r is not None:
        return r
    memo[a] = ALL
    k, pl = cas.CTX.atoms[a]
    if k == 'v':
        d = dom.get(pl.args[0])
        r = (float(d[0]), float(d[1])) if d is not None else ALL
    elif k == 'exp':
        m = mono_range(pl, dom, memo)
        r = (math.exp(m[0]) if -700 < m[0] < 700 else (0.0 if m[0] <= -700 else 1e300), math.exp(m[1]) if m[1] < 700 else INF)
    elif k == 'expc':
        v = math.exp(pl) if pl < 700 else INF
        r = (min(v, 1e300), v)
    elif k == 'log':
        m = atom_range(pl, dom, memo)
        r = (math.log(m[0]) if m[0] > 0 else -INF, math.log(m[1]) if 0 < m[1] < INF else (INF if m[1] > 0 else -INF))
        if r[0] > r[1]:
            r = ALL
    elif k == 'sum':
        q = cas.CTX.polys[pl]
        r = poly_range(q, dom, memo)
        if r[0] <= 0 and len(q) < 200:
            try:
                q, d2 = shifted(q, dom)
                w = poly_range(q, d2, {})
                r = (max(r[0], w[0]), min(r[1], w[1]))
            except cas.TooBig:
                pass
        if a in cas.CTX.assumed:
            r = (max(r[0], 0.0), max(r[1], 0.0))
    elif k in ('sin', 'cos'):
        r = (-1.0, 1.0)
        if k == 'cos':
            m = poly_range(cas.CTX.polys[pl], dom, memo)
            h = max(abs(m[0]), abs(m[1]))
            if h <= math.pi:
                r = (math.cos(h), 1.0)
        else:
            m = poly_range(cas.CTX.polys[pl], dom, memo)
            if -math.pi / 2 <= m[0] and m[1] <= math.pi / 2:
                r = (math.sin(m[0]), math.sin(m[1]))
    elif k == 'arctan':
        m = poly_range(cas.CTX.polys[pl], dom, memo)
        r = (math.atan(m[0]), math.atan(m[1]))
    elif k == 'absop':
        m = poly_range(cas.CTX.polys[pl], dom, memo)
        r = (0.0 if m[0] <= 0 <= m[1] else min(abs(m[0]), abs(m[1])), max(abs(m[0]), abs(m[1])))
    elif k == 'stopgrad':
        r = poly_range(cas.CTX.polys[pl], dom, memo)
    else:
        r = ALL
    if a in cas.CTX.assumed and r[1] >= 0:
        r = (max(r[0], 0.0), r[1])
    memo[a] = r
    return r


def mono_range(m, dom, memo):
    r = (1.0, 1.0)
    for a, e in m:
        r = _mul(r, power(atom_range(a, dom, memo), e))
    return r


def poly_range(p, dom, memo):
    lo = hi = 0.0
    for m, (c, g) in p.items():
        if abs(c) <= 1e-12 * g:
            continue
        r = mono_range(m, dom, memo)
        x, y = (c * r[0], c * r[1]) if c > 0 else (c * r[1], c * r[0])
        lo += x if x == x else -INF
        hi += y if y == y else INF
    return lo, hi


def above(p, dom, memo, tol):
    lo, scale = 0.0, INF
    for m, (c, g) in p.items():
        if abs(c) <= 1e-12 * g:
            continue
        r = mono_range(m, dom, memo)
        x = c * (r[0] if c > 0 else r[1])
        if x != x or x == -INF:
            return False
        lo += x
        if c < 0:
            scale = min(scale, abs(c) * min(abs(r[0]), abs(r[1])))
    return lo >= -tol - (1e-12 * scale if scale < INF else 0.0)


def shifted(p, dom):
    """v -> lower end + v for every variable that only occurs with positive whole exponents"""
    bad, seen = set(), set()
    for m in p:
        for a, e in m:
            if cas.CTX.atoms[a][0] == 'v':
                seen.add(a)
                if not (isinstance(e, int) and e > 0):
                    bad.add(a)
    d2 = dict(dom)
    names = {}
    for a in seen - bad:
        n = cas.CTX.atoms[a][1].args[0]
        d = dom.get(n)
        if d is None or d[0] in (0.0, -INF):
            continue
        names[a] = d
        d2[n] = (0.0, d[1] - d[0])
    out = p
    for a, d in names.items():
        acc = {}
        base = {((a, 1),): (1.0, 1.0), (): (d[0], abs(d[0]))}
        pw = {0: cas.pconst(1)}
        for m, v in out.items():
            e = dict(m).get(a, 0)
            if e not in pw:
                k = max(pw)
                while k < e:
                    pw[k + 1] = cas.pmul(pw[k], base)
                    k += 1
            rest = tuple(x for x in m if x[0] != a)
            cas.padd_into(acc, cas.pmul({rest: v}, pw[e]))
        out = acc
        if len(out) > MAXT:
            raise cas.TooBig()
    return out, d2


def _group_ok(g, dom, memo, tol, rounds=8):
    for _ in range(rounds):
        g = {m: v for m, v in g.items() if abs(v[0]) > 1e-11 * v[1]}
        if not g:
            return True
        lo = {}
        n = len(g)
        cnt = {}
        for m in g:
            for a, e in m:
                lo[a] = min(lo.get(a, e), e)
                cnt[a] = cnt.get(a, 0) + 1
        shift = []
        for a, e in lo.items():
            if cnt[a] < n:
                e = min(e, 0)
            if e == 0:
                continue
            r = atom_range(a, dom, memo)
            if not (isinstance(e, int) and e % 2 == 0):
                if r[0] < 0:
                    continue
                if e < 0 and r[0] <= 0 and not (a in cas.CTX.assumed):
                    # a denominator that touches zero: no defined value there
                    pass
            shift.append((a, cas.rexp(-e)))
        if shift:
            s = tuple(sorted(shift))
            g = {cas.mmul(m, s): v for m, v in g.items()}
            tol = 0.0
        h = cas._expand_sums(g)
        same = h.keys() == g.keys()
        g = h
        if len(g) > MAXT:
            return False
        if above(g, dom, memo, tol):
            return True
        if same:
            break
    try:
        q, d2 = shifted(g, dom)
    except cas.TooBig:
        return False
    return above(q, d2, {}, tol)


def nonneg(t, dom, tol=0.0, deadline=None):
    """t >= -tol on the box (where it is defined)?  True = yes, False = not shown"""
    cas.CTX.deadline = deadline
    try:
        p = cas.canon(t)
        memo = {}
        if above(p, dom, memo, tol):
            return True
        part = sorted({a for m in p for a, e in m if cas.frac(e) != 0})
        for skip in [None] + (part[:12] if len(part) > 0 else []):
            keyed = {}
            for m, v in p.items():
                k = tuple((a, cas.frac(e)) for a, e in m if a != skip and cas.frac(e) != 0)
                keyed.setdefault(k, {})[m] = v
            if all(_group_ok(g, dom, memo, tol / len(keyed)) for g in keyed.values()):
                return True
        return len(part) > 0 and _group_ok(p, dom, memo, tol)
    except (cas.TooBig, cas.Unsupported, OverflowError, ZeroDivisionError):
        return False
    finally:
        cas.CTX.deadline = None

"""Task runner, known findings, evidence and verdict lines."""
import json
import os
import pickle
import resource
import signal
import sys
import time
import traceback
from multiprocessing import connection, get_context

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.txt')


def load_known(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('{'):
                d = json.loads(line)
                if d['property'] == prop:
                    out.append(d)
    return out


class _Opts:
    def __init__(self, o):
        self.o = o

    def __call__(self, name, default=None):
        return self.o.get(name, default)


def matches(f, v):
    """does finding f describe violation v?"""
    for k in ('component', 'kind', 'of', 'wrt', 'case'):
        if k in f:
            want = f[k] if isinstance(f[k], list) else [f[k]]
            if v.get(k) not in want:
                return False
    w = f.get('when')
    if w:
        pt = v.get('point') or {}

        def p(name, i=0):
            return pt.get(f'{name}[{i}]', pt.get(name, float('nan')))
        try:
            return bool(eval(w, {'o': _Opts(v.get('_opts') or {}), 'p': p, 'v': v, 'abs': abs, 'len': len, 'max': max,
                                 'min': min, 'str': str, 'any': any, 'all': all, 'range': range, 'float': float}))
        except Exception:  # noqa: BLE001
            return False
    return True


class Known:
    def __init__(self, prop):
        self.findings = load_known(prop)
        self.hit = {}

    def __call__(self, v):
        for i, f in enumerate(self.findings):
            if matches(f, v):
                return i
        return None


class TaskTimeout(BaseException):
    pass


def _child(conn, fn, args, soft, mem):
    try:
        os.setpgid(0, 0)
    except OSError:
        pass
    if mem:
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    dn = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get('SX_DEBUG'):
        os.dup2(dn, 1)
        os.dup2(dn, 2)
    from . import solve
    try:
        r = fn(*args)
    except MemoryError:
        r = {'status': 'error: out of memory'}
    except Exception:  # noqa: BLE001
        r = {'status': 'error: ' + traceback.format_exc()[-1500:]}
    r['stats'] = solve.STATS.as_dict()
    try:
        conn.send_bytes(pickle.dumps(r))
    except Exception as e:  # noqa: BLE001
        conn.send_bytes(pickle.dumps({'status': f'error: result not transferable: {e}'}))
    conn.close()
    os._exit(0)


def run_tasks(tasks, nproc=8, deadline=None, mem=7 << 30):
    """tasks: list of (name, fn, args, hard_seconds), run in forked children.  Yields (name, rec)."""
    ctx = get_context('fork')
    todo = list(tasks)[::-1]
    live = {}
    while todo or live:
        while todo and len(live) < nproc:
            name, fn, args, hard = todo.pop()
            if deadline is not None and time.time() > deadline:
                yield name, {'status': 'not started: time budget'}
                continue
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(b, fn, args, None, mem))
            p.start()
            b.close()
            live[a] = (name, p, time.time(), hard)
        if not live:
            continue
        ready = connection.wait(list(live), timeout=0.5)
        for c in ready:
            name, p, t0, hard = live.pop(c)
            try:
                r = pickle.loads(c.recv_bytes())
            except (EOFError, OSError):
                r = {'status': 'error: worker ended'}
            c.close()
            p.join(5)
            r['t'] = round(time.time() - t0, 2)
            yield name, r
        now = time.time()
        for c in list(live):
            name, p, t0, hard = live[c]
            if now - t0 > hard or (deadline is not None and now > deadline + 40):
                live.pop(c)
                try:
                    os.kill(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.join(5)
                c.close()
                yield name, {'status': 'timeout', 't': round(now - t0, 2)}


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items() if not str(k).startswith('_')}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, (np.floating, np.integer)):
        return x.item()
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


class Report:
    """collects the records of one check and writes verdicts"""

    def __init__(self, prop, tier, seed, level='model_checking'):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.recs = []
        self.known = Known(prop)
        self.assumptions = []
        self.bounds = {}
        self.extra = {}

    def add(self, name, rec):
        rec['name'] = name
        if rec.get('status') == 'ok' and not rec.get('oblig'):
            rec['status'] = f'no obligation (paths {rec.get("paths")}, boundary {rec.get("boundary", 0)})'
        self.recs.append(rec)
        if os.environ.get('SX_VERBOSE'):
            print(name, rec.get('t'), rec.get('status'), 'ob', rec.get('oblig'), 'ok', rec.get('proved'),
                  'inc', len(rec.get('incon', ())), 'viol', len(rec.get('viol', ())), flush=True)
            for i in rec.get('incon', ())[:int(os.environ['SX_VERBOSE'])]:
                print('     ?', str(i)[:300])
            for n in rec.get('notes', ())[:3]:
                print('     #', str(n)[:300])

    def finish(self):
        R = self.recs
        S = {}
        for r in R:
            for k, v in (r.get('stats') or {}).items():
                S[k] = S.get(k, 0) + v
        tot = lambda k: sum(r.get(k, 0) or 0 for r in R)  # noqa: E731
        viol, hits = [], {}
        seen = set()
        for r in R:
            for v in r.get('viol', ()):
                k = self.known(v)
                if k is not None:
                    hits.setdefault(k, v)
                    continue
                key = (v.get('component'), v.get('kind'), v.get('of'), v.get('wrt'), v.get('case'))
                if key in seen:
                    continue
                seen.add(key)
                v = dict(v)
                v['task'] = r['name']
                viol.append(v)
        incon = [(r['name'], i) for r in R for i in r.get('incon', ())]
        notrun = [(r['name'], r['status']) for r in R if r.get('status') not in ('ok', None)]
        obl, dis = tot('oblig'), tot('proved') + tot('slice')
        samples = []
        for r in R:
            for s in r.get('samples', ())[:1]:
                samples.append(s)
            if len(samples) >= 6:
                break
        cov = {
            'states': int(tot('paths')), 'transitions': int(tot('decisions')),
            'traces_validated_against_impl': int(tot('validated')),
            'samples': jsonable(samples) or [r['name'] for r in R[:3]],
            'obligations': int(obl), 'discharged': int(dis), 'discharged_on_slices_only': int(tot('slice')),
            'inconclusive': len(incon), 'inconclusive_samples': [f'{n}: {i}'[:300] for n, i in incon[:40]],
            'tasks': len(R), 'tasks_not_decided': [f'{n}: {s}'[:300] for n, s in notrun[:60]],
            'paths_truncated': int(tot('trunc')), 'paths_witnessed': int(tot('witnessed')),
            'paths_rejected_by_the_code': int(tot('rejected')),
            'solver_queries': int(S.get('queries', 0)), 'solver_unsat': int(S.get('unsat', 0)),
            'solver_sat': int(S.get('sat', 0)), 'solver_unknown': int(S.get('unknown', 0)),
            'solver_time_s': round(S.get('time', 0.0), 2),
            'functions_encoded': sorted({f for r in R for f in r.get('functions', ())}),
            'bounds': self.bounds,
            'exhaustive': False,
        }
        if any('history_pairs' in r for r in R):
            cov['history_pairs'] = int(tot('history_pairs'))
            cov['history_values_compared'] = int(tot('history_entries'))
            cov['history_not_studied'] = [f'{r["name"]}: {n}'[:200] for r in R for n in r.get('notes', ()) if str(n).startswith('history')][:40]
            cov['history_without_pairs'] = [r['name'] for r in R if not r.get('history_pairs')][:60]
        cov.update(self.extra)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(viol)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', f'{self.prop}.json'), 'w') as f:
            json.dump(jsonable(ev), f, indent=1)
        for k, v in sorted(hits.items()):
            print(f'KNOWN-FINDING: property={self.prop} {self.known.findings[k]["what"]}')
        rd = os.path.join(VERIF, 'evidence', 'replay')
        if viol:
            os.makedirs(rd, exist_ok=True)
        for n, v in enumerate(viol):
            path = os.path.join(rd, f'{self.prop}-{n}.json')
            with open(path, 'w') as f:
                json.dump(jsonable(v), f, indent=1)
            where = ' '.join(str(v.get(k)) for k in ('component', 'kind', 'of', 'wrt', 'case') if v.get(k))
            if n < 20:
                print(f'VIOLATION property={self.prop} replay={path} {where}: {str(v.get("note") or "")[:200]}')
        print(f'{self.prop} {self.tier}: {len(R)} tasks, {obl} obligations, {dis} discharged, {len(incon)} inconclusive, '
              f'{len(notrun)} tasks undecided, {len(viol)} violations, {len(hits)} known findings, '
              f'{S.get("queries", 0)} solver queries, {ev["wall_s"]} s')
        if viol:
            return 1
        if dis == 0:
            print('nothing was decided')
            return 2
        return 0

"""Symbolic execution of an OpenMDAO group: the data flow of the real, set-up model, component by component."""
import re
import warnings

import numpy as np
import openmdao.api as om
from openmdao.utils.units import convert_units, unit_conversion

from . import expr as E
from . import omharness as H
from .expr import Unsupported
from .sarr import SArr, sarray, NP, U1, U2, FUNCS


class SymGroup:
    def __init__(self, make):
        from . import sarr
        self.prob = quiet(make)
        m = self.prob.model
        self.model = m
        self.conn = dict(m._conn_global_abs_in2out)
        self.comps = [s for s in m.system_iter(include_self=False, recurse=True, typ=om.core.component.Component)
                      if s.name != '_auto_ivc'] if hasattr(om, 'core') else \
                     [s for s in m.system_iter(include_self=False, recurse=True) if not isinstance(s, om.Group) and s.name != '_auto_ivc']

        self.index = self.probe()

    def probe(self):
        """which source entries each input reads, taken from the model's own data transfer"""
        m = self.model
        keep = m._outputs.asarray(copy=True)
        size = {}
        for src in set(self.conn.values()):
            v = m._outputs[src[len(m.pathname) + 1:] if m.pathname else src]
            size[src] = v.size
            m._outputs.set_var(src, (np.arange(v.size) + 1.0).reshape(v.shape))
        for g in m.system_iter(include_self=True, recurse=True, typ=om.Group):
            g._transfer('nonlinear', 'fwd')
        out = {}
        for c in self.comps:
            for n in c._var_rel_names['input']:
                a = c.pathname + '.' + n
                src = self.conn[a]
                v = np.array(c._inputs[n], dtype=float).reshape(-1)
                su = m._var_allprocs_abs2meta['output'][src].get('units')
                iu = c._var_rel2meta[n].get('units')
                if su is not None and iu is not None and su != iu:
                    f, o = unit_conversion(su, iu)
                    v = v / f - o
                idx = np.rint(v - 1.0).astype(int)
                if size[src] and (np.abs(v - 1.0 - idx).max(initial=0) > 1e-4 or idx.min(initial=0) < 0 or idx.max(initial=0) >= size[src]):
                    continue
                out[a] = idx
        m._outputs.set_val(keep)
        for g in m.system_iter(include_self=True, recurse=True, typ=om.Group):
            g._transfer('nonlinear', 'fwd')
        return out

    def given(self, c, rel):
        """the value an option gave to an input of an expression component, where that is symbolic"""
        return getattr(c, 'sx_vals', {}).get(rel)

    def run(self, ctx, inputs, opaque=()):
        """inputs: promoted (or absolute) name -> value; other free inputs keep their set-up values.
        Returns promoted name -> value of every output."""
        m = self.model
        vals = {}
        used = set()
        for abs_in, src in self.conn.items():
            if src.startswith('_auto_ivc.'):
                prom = self.prom(abs_in, 'input')
                if prom in inputs and src not in vals:
                    # given in the units the promoted name is set in
                    u = inputs_units(inputs[prom])
                    meta = m._var_allprocs_abs2meta['output'][src]
                    v = inputs[prom][0] if u else inputs[prom]
                    vals[src] = conv(shape_to(v, meta['global_shape'] if 'global_shape' in meta else meta['shape']), u, meta.get('units'))
                    used.add(prom)
        by = {c.pathname: c for c in self.comps}
        for abs_in, src in self.conn.items():
            if src.startswith('_auto_ivc.') and src not in vals:
                cn, rel = abs_in.rsplit('.', 1)
                v = self.given(by[cn], rel) if cn in by else None
                if v is not None:
                    meta = m._var_allprocs_abs2meta['output'][src]
                    vals[src] = conv(shape_to(v, meta['shape']), by[cn]._var_rel2meta[rel].get('units'), meta.get('units'))
        for n in inputs:
            if n not in used and n not in m._var_allprocs_prom2abs_list_get(n) if hasattr(m, '_var_allprocs_prom2abs_list_get') else n not in used:
                raise KeyError(f'no free input {n} in the group')
        for c in self.comps:
            self.step(ctx, c, vals, opaque)
        out = {}
        for a, v in vals.items():
            if a.startswith('_auto_ivc.'):
                continue
            out[self.prom(a, 'output')] = v
        self.vals = vals
        return out

    def prom(self, absname, io):
        d = self.model._resolver if hasattr(self.model, '_resolver') else None
        if d is not None:
            return d.abs2prom(absname, io)
        return self.model._var_allprocs_abs2prom[io][absname]

    def fetch(self, vals, abs_in, meta):
        src = self.conn[abs_in]
        if src in vals:
            v = vals[src]
        else:
            arr = self.model._outputs
            v = sarray(np.array(self.prob.get_val(src)))
            if not src.startswith('_auto_ivc.'):
                raise Unsupported(f'{abs_in} is used before {src} is computed')
        su = self.model._var_allprocs_abs2meta['output'][src].get('units')
        v = v if isinstance(v, np.ndarray) else sarray(v)
        if abs_in not in self.index:
            raise Unsupported(f'data transfer of {abs_in} not understood')
        v = v.reshape(-1)[self.index[abs_in]]
        v = conv(v, su, meta.get('units'))
        return shape_to(v, meta['shape'])

    def step(self, ctx, c, vals, opaque):
        pre = c.pathname + '.'
        rel2 = c._var_rel2meta if hasattr(c, '_var_rel2meta') else None
        name = type(c).__name__
        if name in opaque or c.pathname in opaque:
            for n in c._var_rel_names['output']:
                vals[pre + n] = opaque_out(ctx, pre + n, c._var_rel2meta[n])
            return
        ins = H.SymIn(c)
        for n in c._var_rel_names['input']:
            dict.__setitem__(ins, n, self.fetch(vals, pre + n, c._var_rel2meta[n]))
        if isinstance(c, om.IndepVarComp):
            for n in c._var_rel_names['output']:
                vals[pre + n] = sarray(np.array(self.prob.get_val(pre + n)))
            return
        outs = H.sym_outputs(c)
        if isinstance(c, om.ExecComp):
            exec_comp(c, ins, outs)
        elif isinstance(c, om.ImplicitComponent):
            st = H.SymIn(c)
            for n in c._var_rel_names['output']:
                dict.__setitem__(st, n, opaque_out(ctx, pre + n, c._var_rel2meta[n]))
            c.apply_nonlinear(ins, st, outs)
            for n, r in outs.items():
                for x in r.reshape(-1).view(np.ndarray):
                    if isinstance(x, E.Term):
                        ctx.ex.assume(E.eq(x, 0))
            outs = st
        else:
            H.fresh_scratch(c, ctx.ex.scratch.setdefault(c.pathname, {}))
            c.compute(ins, outs)
            H.settle(c, outs)
        for n in c._var_rel_names['output']:
            vals[pre + n] = dict.__getitem__(outs, n)


def opaque_out(ctx, absname, meta):
    a = np.empty(int(np.prod(meta['shape'], dtype=int)), dtype=object)
    dv = np.broadcast_to(np.asarray(meta['val'], dtype=float), meta['shape']).reshape(-1)
    for i in range(a.size):
        vn = f'{absname}[{i}]'
        if vn not in ctx.ex.domains:
            ctx.ex.domains[vn] = H.domain_of(meta, float(dv[i]), absname.split('.')[-1])
        a[i] = E.var(vn)
    return a.reshape(meta['shape']).view(SArr)


def exec_comp(c, ins, outs):
    ns = {n: getattr(NP, n) for n in ('exp', 'sin', 'cos', 'tan', 'sqrt', 'log', 'log10', 'sum', 'maximum', 'minimum', 'abs',
                                      'tanh', 'sinh', 'cosh', 'arctan', 'dot', 'ones', 'zeros', 'where')}
    ns['pi'] = np.pi
    ns.update({n: v for n, v in ins.items()})
    for ex in c._exprs:
        lhs, rhs = ex.split('=', 1)
        v = eval(rhs.strip(), {'__builtins__': {}}, ns)  # noqa: S307  (the model's own expression)
        H.assign(dict.__getitem__(outs, lhs.strip()), v)
        ns[lhs.strip()] = dict.__getitem__(outs, lhs.strip())


def inputs_units(v):
    return v[1] if isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], str) else None


def conv(v, a, b):
    if a is None or b is None or a == b:
        return v
    f, o = unit_conversion(a, b)
    if f == 1 and o == 0:
        return v
    return (v + o) * f


def shape_to(v, shape):
    v = v if isinstance(v, np.ndarray) else sarray(v)
    if v.dtype != object:
        v = sarray(v)
    if v.shape == tuple(shape):
        return v.copy()
    if v.size == 1:
        a = np.empty(shape, dtype=object).view(SArr)
        a[...] = v.reshape(-1)[0]
        return a
    return v.reshape(shape).copy()


class SymExec(om.ExecComp):
    """an expression component whose inputs may be given symbolic values"""

    def __init__(self, exprs=[], **kw):
        self.sx_vals = {}
        for n, d in kw.items():
            if isinstance(d, dict) and 'val' in d and has_term(d['val']):
                self.sx_vals[n] = d['val']
                kw[n] = dict(d, val=np.ones(np.shape(d['val'])) if np.shape(d['val']) else 1.0)
        for n in re.findall(r'\b_sx_\d+\b', ' '.join([exprs] if isinstance(exprs, str) else exprs)):
            self.sx_vals[n] = E.WRITE.terms[n]
        super().__init__(exprs, **kw)


def has_term(v):
    if isinstance(v, E.Term):
        return True
    if isinstance(v, (list, tuple, np.ndarray)):
        return any(has_term(x) for x in (v.reshape(-1) if isinstance(v, np.ndarray) else v))
    return False


def quiet(make):
    from openmdao.utils import options_dictionary as odm
    from .shim import sym_isinstance
    old = om.ExecComp
    om.ExecComp = SymExec
    wr, E.WRITE.on = E.WRITE.on, True
    odm.isinstance = sym_isinstance
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            p = make()
            p.setup(check=False)
            p.final_setup()
    finally:
        om.ExecComp = old
        E.WRITE.on = wr
        del odm.isinstance
    return p


def run_real(ctx, key, make, inputs, opaque):
    p = quiet(make)
    ctx.model = p.model
    if opaque:
        raise Unsupported('replay of a group with opaque parts')
    for n, v in inputs.items():
        u = inputs_units(v)
        x = np.asarray(v[0] if u else v, dtype=float)
        cur = np.asarray(p.get_val(n, units=u))
        p.set_val(n, np.broadcast_to(x, cur.shape) if x.size == 1 else x.reshape(cur.shape), units=u)
    with np.errstate(all='ignore'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        p.run_model()
    out = {}
    m = p.model
    for a in m._var_allprocs_abs2meta['output']:
        if a.startswith('_auto_ivc.'):
            continue
        prom = m._resolver.abs2prom(a, 'output') if hasattr(m, '_resolver') else m._var_allprocs_abs2prom['output'][a]
        out[prom] = np.array(p.get_val(a))
    return out

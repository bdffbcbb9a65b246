"""A recorder that stands where the code under test hands a phase description to dymos."""
import inspect
from types import SimpleNamespace

import dymos as dm


class RecPhase:
    """collects what a phase is told to be; later calls override earlier ones, as in dymos"""

    def __init__(self, **kw):
        self.init = kw
        self.states, self.controls, self.params = {}, {}, {}
        self.boundary, self.path, self.series = [], [], []
        self.time = {'units': 's', 'name': 'time'}
        self.vals = []
        self.name = 'phase'
        self.options = SimpleNamespace(**kw)
        self.options = {'transcription': kw.get('transcription')}

    time_options = property(lambda s: s.time)
    state_options = property(lambda s: s.states)
    control_options = property(lambda s: s.controls)
    parameter_options = property(lambda s: s.params)

    def add_state(self, name, **kw):
        self.states.setdefault(name, {}).update(kw)

    set_state_options = add_state

    def add_control(self, name, order=None, **kw):
        self.controls.setdefault(name, {}).update(kw, **({'order': order} if order is not None else {}))

    set_control_options = add_control

    def add_parameter(self, name, *a, **kw):
        if a:
            kw['val'] = a[0]
        self.params.setdefault(name, {}).update(kw)

    set_parameter_options = add_parameter

    def set_time_options(self, *a, **kw):
        if a:
            kw['units'] = a[0]
        self.time.update(kw)

    def add_boundary_constraint(self, *a, **kw):
        self.boundary.append(bound(dm.Phase.add_boundary_constraint, a, kw))

    def add_path_constraint(self, *a, **kw):
        self.path.append(bound(dm.Phase.add_path_constraint, a, kw))

    def add_timeseries(self, *a, **kw):
        pass

    def add_timeseries_output(self, *a, **kw):
        self.series.append((a, kw))

    def set_time_val(self, *a, **kw):
        self.vals.append(('time', bound(dm.Phase.set_time_val, a, kw)))

    def set_state_val(self, *a, **kw):
        self.vals.append(('state', bound(dm.Phase.set_state_val, a, kw)))

    def set_control_val(self, *a, **kw):
        self.vals.append(('control', bound(dm.Phase.set_control_val, a, kw)))

    def interp(self, *a, **kw):
        b = bound(dm.Phase.interp, a, kw)
        return Interp(b)


class Interp:
    """an interpolation the phase was asked for"""

    def __init__(self, b):
        self.b = b


class RecAnalytic(RecPhase):
    pass


def bound(f, a, kw):
    b = inspect.signature(f).bind(None, *a, **kw)
    b.apply_defaults()
    d = dict(b.arguments)
    d.pop('self', None)
    return d


class RecDymos:
    """dymos, with recorders for phases"""
    Phase, AnalyticPhase = RecPhase, RecAnalytic

    def __getattr__(self, n):
        return getattr(dm, n)


class RecProb:
    def __init__(self):
        self.set = {}

    def set_val(self, name, val=None, units=None, indices=None):
        self.set[name] = (val, units)


class RecTraj:
    def __init__(self, phases, parallel=False):
        self._phases = phases
        self.phases = SimpleNamespace(**phases)
        self.options = {'parallel_phases': parallel}
        self.links = []

    def link_phases(self, phases, vars=None, locs=('final', 'initial'), connected=False, **kw):
        for v in vars:
            self.links.append(dict(phases=tuple(phases), var_a=v, var_b=v, connected=connected, locs=tuple(locs), **kw))

    def add_linkage_constraint(self, phase_a, phase_b, var_a, var_b, loc_a='final', loc_b='initial', connected=False, **kw):
        self.links.append(dict(phases=(phase_a, phase_b), var_a=var_a, var_b=var_b, connected=connected, locs=(loc_a, loc_b), **kw))

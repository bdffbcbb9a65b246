"""Registry of scenarios, one list per property."""
REG = {}


class Scn:
    def __init__(self, prop, name, fn, kw):
        self.prop, self.name, self.fn, self.kw = prop, name, fn, kw


def scenario(prop, functions=(), params=None, thorough=None, **kw):
    """params: list of dicts passed as keyword arguments; thorough: further ones for the thorough tier"""
    def deco(f):
        for tier, ps in (('quick', params if params is not None else [{}]), ('thorough', thorough or [])):
            for p in ps:
                name = f.__name__ + (('[' + ','.join(f'{k}={_s(v)}' for k, v in p.items()) + ']') if p else '')
                REG.setdefault(prop, []).append((tier, Scn(prop, name, _bind(f, p), dict(kw, functions=functions))))
        return f
    return deco


def _s(v):
    return getattr(v, '__name__', None) or str(v)


def _bind(f, p):
    if not p:
        return f

    def g(c):
        return f(c, **p)
    g.__name__ = f.__name__
    return g

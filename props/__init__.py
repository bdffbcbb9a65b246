from .catalog import PROPS

REGISTRY = {p['id']: {'module': p['module']} for p in PROPS}

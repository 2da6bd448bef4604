"""Registry of properties."""
import importlib

MODULES = ['layout', 'query', 'state', 'calend', 'printed']


def registry():
    out = {}
    for m in MODULES:
        mod = importlib.import_module('tbv.props.' + m)
        for p in mod.PROPS:
            assert p.id not in out, p.id
            out[p.id] = p
    return out


def load(pid):
    return registry()[pid]

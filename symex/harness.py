"""Registry of harnesses; property modules live in /verif/props."""
import importlib


class Harness:
    def __init__(self, fn, name=None, quick=({},), thorough=None, covers=(), bounds='', rng_budget=60,
                 path_timeout=60, required_covers=None):
        self.fn = fn
        self.name = name or fn.__name__
        self.quick = list(quick)
        self.thorough = self.quick + [c for c in (thorough or ()) if c not in self.quick]
        self.covers = list(covers)
        self.bounds = bounds
        self.rng_budget = rng_budget
        self.path_timeout = path_timeout


def autos(k, /, start=0, **cfg):
    """k configurations whose discrete choices are each made one way (see BaseCtx.settle)."""
    return [dict(cfg, auto=i) for i in range(start, start + k)]


_MODS = {}


def module(prop):
    if prop not in _MODS:
        _MODS[prop] = importlib.import_module('props.' + prop)
    return _MODS[prop]


def get(prop, name):
    for h in module(prop).HARNESSES:
        if h.name == name:
            return h
    raise KeyError(name)

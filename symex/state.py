"""Process-wide state of the code under test is put back before every path, so that paths are
independent: default-argument objects, module-level and class-level containers, function caches."""
import sys
import types

_SEEN = {}
_STATE = []
_CACHES = []


def _ours(o):
    return (getattr(type(o), '__module__', '') or '').startswith('bartpy')


def _visit(o, depth=0):
    if depth > 3 or id(o) in _SEEN:
        return
    if isinstance(o, (list, dict, set)):
        _SEEN[id(o)] = o
        _STATE.append((o, type(o)(o)))
        for x in (o.values() if isinstance(o, dict) else o):
            _visit(x, depth + 1)
    elif _ours(o) and hasattr(o, '__dict__') and not isinstance(o, type):
        _SEEN[id(o)] = o
        _STATE.append((o, dict(o.__dict__)))
        for x in list(o.__dict__.values()):
            _visit(x, depth + 1)


def _function(f):
    for d in (f.__defaults__ or ()):
        _visit(d)
    for d in (f.__kwdefaults__ or {}).values():
        _visit(d)


def _walk(ns, mod):
    for name, o in list(ns.items()):
        if name.startswith('__') and name.endswith('__') and not isinstance(o, types.FunctionType):
            continue
        if hasattr(o, 'cache_clear'):
            _CACHES.append(o)
            o = getattr(o, '__wrapped__', o)
        if isinstance(o, (staticmethod, classmethod)):
            o = o.__func__
        if isinstance(o, property):
            o = o.fget
        if isinstance(o, types.FunctionType):
            _function(o)
        elif isinstance(o, type):
            if o.__module__ == mod and id(o) not in _SEEN:
                _SEEN[id(o)] = o
                _walk(vars(o), mod)
        else:
            _visit(o)


def snapshot():
    _SEEN.clear(), _STATE.clear(), _CACHES.clear()
    for name, m in list(sys.modules.items()):
        if m is not None and (name == 'bartpy' or name.startswith('bartpy.')):
            _walk(vars(m), name)


def restore():
    for o, old in _STATE:
        if isinstance(o, list):
            o[:] = old
        elif isinstance(o, (dict, set)):
            o.clear()
            o.update(old)
        else:
            d = o.__dict__
            d.clear()
            d.update(old)
    for c in _CACHES:
        try:
            c.cache_clear()
        except Exception:
            pass

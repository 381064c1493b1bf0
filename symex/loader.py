"""Loads /repo/bartpy for symbolic execution.

The current source text of every module is read, compiled and executed unchanged; only the
environment it sees differs: `numpy`, `math`, `random`, `tqdm` and the builtin `float` are
stand-ins that let symbolic values through (see nparray.py, rng.py).
"""
import builtins
import importlib.abc
import importlib.util
import os
import sys
import types

from . import core, nparray
from .core import SymBool, SymLog, SymNum

REPO = os.environ.get('VERIF_REPO', '/repo')
FUNCTIONS = set()          # code objects of bartpy actually executed


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float) or isinstance(x, (SymNum, SymLog))

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class SymFloat(metaclass=_FloatMeta):
    """Stands for the builtin `float`."""
    _is_symfloat = True
    dtype = nparray.real_np.dtype('float64')

    def __new__(cls, x=0.0):
        if isinstance(x, (SymNum, SymLog)):
            return x
        if isinstance(x, SymBool):
            return x.num()
        if isinstance(x, nparray.ndarray) and x.dtype == object and x.size == 1:
            return cls(x.item())
        return builtins.float(x)

    fromhex = builtins.float.fromhex


def _tqdm(it=None, *a, **k):
    return it


class _TqdmModule(types.ModuleType):
    def __init__(self, name='tqdm'):
        super().__init__(name)
        self.tqdm = _tqdm
        self.trange = lambda *a, **k: range(*a)
        self.auto = self

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return _tqdm


class Env:
    """The modules and builtins the code under test sees."""

    def __init__(self, rng, pyrandom):
        self.np = nparray.NumpyProxy(rng)
        self.math = nparray.MathProxy()
        self.tqdm = _TqdmModule()
        self.random = pyrandom
        b = dict(builtins.__dict__)
        b['__import__'] = self._import
        b['float'] = SymFloat
        b['print'] = lambda *a, **k: None
        b['sum'] = self._sum
        self.builtins = b

    @staticmethod
    def _sum(it, start=0):
        acc = start
        for x in it:
            acc = acc + x
        return acc

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0:
            if name == 'numpy':
                return self.np
            if name == 'numpy.random':
                return self.np.random if fromlist else self.np
            if name == 'math':
                return self.math
            if name == 'random':
                return self.random
            if name == 'tqdm' or name.startswith('tqdm.'):
                return self.tqdm
        return builtins.__import__(name, globals, locals, fromlist, level)


class _Loader(importlib.abc.Loader):
    def __init__(self, path, env, is_pkg):
        self.path, self.env, self.is_pkg = path, env, is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, 'rb') as f:
            src = f.read()
        code = compile(src, self.path, 'exec', dont_inherit=True)
        module.__dict__['__builtins__'] = self.env.builtins
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, env):
        self.env = env

    def find_spec(self, fullname, path=None, target=None):
        if fullname != 'bartpy' and not fullname.startswith('bartpy.'):
            return None
        rel = os.path.join(REPO, *fullname.split('.'))
        if os.path.isdir(rel):
            p = os.path.join(rel, '__init__.py')
            pkg = True
        else:
            p, pkg = rel + '.py', False
        if not os.path.exists(p):
            if pkg:
                p = None
            return None
        spec = importlib.util.spec_from_loader(fullname, _Loader(p, self.env, pkg), origin=p, is_package=pkg)
        if pkg:
            spec.submodule_search_locations = [rel]
        return spec


_TOOL = 4
_PREFIX = os.path.join(REPO, 'bartpy') + os.sep


def _on_start(code, _off):
    if code.co_filename.startswith(_PREFIX):
        FUNCTIONS.add((code.co_filename[len(_PREFIX):], code.co_qualname))
    return sys.monitoring.DISABLE


def track_functions():
    mon = sys.monitoring
    try:
        mon.use_tool_id(_TOOL, 'symex')
    except ValueError:
        return
    mon.register_callback(_TOOL, mon.events.PY_START, _on_start)
    mon.set_events(_TOOL, mon.events.PY_START)


def _patch_pandas():
    import pandas as pd
    if getattr(pd.DataFrame, '_sym_patched', False):
        return

    def conv(v):
        if isinstance(v, nparray.ndarray) and v.dtype == object and (nparray.has_sym(v)):
            return v.view(nparray.SymArray)
        if isinstance(v, nparray.ndarray) and v.dtype.kind == 'f' and core.CUR is not None:
            return nparray.wrap(v)
        return v

    for cls in (pd.DataFrame, pd.Series):
        orig = cls.values.fget
        cls.values = property(lambda self, _o=orig: conv(_o(self)))
        orig_np = cls.to_numpy
        cls.to_numpy = (lambda self, *a, _o=orig_np, **k: conv(_o(self, *a, **k) if not nparray.has_sym(_o(self)) else _o(self)))
        orig_as = cls.astype
        cls.astype = (lambda self, t, *a, _o=orig_as, **k:
                      self.copy() if nparray.kind_of(t) == 'f' and self._sym_object() else _o(self, builtins.float if t is SymFloat else t, *a, **k))
    pd.DataFrame._sym_object = lambda self: nparray.has_sym(nparray.strip(self.values))
    pd.Series._sym_object = lambda self: nparray.has_sym(nparray.strip(self.values))
    pd.DataFrame._sym_patched = True


def install(rng, pyrandom):
    env = Env(rng, pyrandom)
    sys.meta_path.insert(0, Finder(env))
    for m in [m for m in sys.modules if m == 'bartpy' or m.startswith('bartpy.')]:
        del sys.modules[m]
    _patch_pandas()
    track_functions()
    return env

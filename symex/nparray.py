"""numpy for symbolic elements: an ndarray subclass with object dtype for floats, and a
module proxy that the code under test sees as `numpy`.

Element-wise work is done by numpy's own object loops (which call the Python operators of
the elements), so shapes, broadcasting, masking, fancy indexing and in-place semantics are
numpy's.  Comparisons of symbolic elements fork, hence masks are ordinary bool arrays.
"""
import builtins
import math as _math
import operator
import types
from fractions import Fraction

import numpy as real_np

from . import core
from .core import SymBool, SymLog, SymNum, symexp, symlog, symsqrt, sympow, is_number

ndarray = real_np.ndarray
core._np_bool = real_np.bool_


def is_sym(x):
    return isinstance(x, (SymNum, SymBool, SymLog))


class SymArray(ndarray):
    """dtype object <=> stands for a float (or symbolic int) array."""
    __array_priority__ = 1000

    def __array_finalize__(self, obj):
        self.symkind = getattr(obj, 'symkind', 'f') if obj is not None else 'f'

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return sym_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types_, args, kwargs):
        # numpy functions reached through the real module (pandas, sklearn, methods)
        name = func.__name__
        if name in FUNCS:
            return FUNCS[name](*args, **kwargs)
        r = func(*tree_map(strip, args), **tree_map(strip, kwargs))
        return wrap(r)

    @property
    def data(self):
        return self

    def astype(self, dtype, *a, **kw):
        return astype(self, dtype)

    def __getitem__(self, k):
        r = ndarray.__getitem__(self, concretise_key(k))
        return r

    def __setitem__(self, k, v):
        k = concretise_key(k)
        if self.dtype == object:
            if self.symkind == 'i':
                v = elementwise1(lambda e: convert_elem(e, int), v)
            elif self.symkind == 'f':
                v = elementwise1(lambda e: convert_elem(e, float), v) if not is_sym(v) else convert_elem(v, float)
        ndarray.__setitem__(self, k, strip(v))

    def any(self, *a, **kw):
        return real_np.any(strip(self).astype(bool) if self.dtype == object else strip(self), *a, **kw)

    def all(self, *a, **kw):
        return real_np.all(strip(self).astype(bool) if self.dtype == object else strip(self), *a, **kw)

    def tolist(self):
        return strip(self).tolist()

    def view(self, *a, **kw):
        return ndarray.view(self, *a, **kw)

    def mean(self, *a, **kw):
        return FUNCS['mean'](self, *a, **kw)

    def std(self, *a, **kw):
        return FUNCS['std'](self, *a, **kw)

    def var(self, *a, **kw):
        return FUNCS['var'](self, *a, **kw)

    def round(self, *a, **kw):
        return self

    def __float__(self):
        return float(self.item())

    def __reduce__(self):
        return (_unpickle_arr, (strip(self).copy(), self.symkind))


def _unpickle_arr(a, kind):
    r = a.view(SymArray)
    r.symkind = kind
    return r


def strip(x):
    if isinstance(x, SymArray):
        return ndarray.view(x, ndarray)
    return x


def tree_map(f, x):
    if isinstance(x, tuple):
        return tuple(tree_map(f, e) for e in x)
    if type(x) is list:
        return [tree_map(f, e) for e in x]
    if type(x) is dict:
        return {k: tree_map(f, v) for k, v in x.items()}
    return f(x)


def wrap(r):
    if isinstance(r, tuple):
        if type(r) is tuple:
            return tuple(wrap(e) for e in r)
        return r
    if type(r) is list:
        return [wrap(e) for e in r]
    if isinstance(r, real_np.ma.MaskedArray):
        return r
    if isinstance(r, ndarray):
        if r.dtype.kind == 'f':
            r = r.astype(object)
        if not isinstance(r, SymArray):
            r = r.view(SymArray)
        return r
    return r


def to_obj(x):
    a = strip(x)
    if not isinstance(a, ndarray):
        a = real_np.array(strip_list(a), dtype=object)
    elif a.dtype != object:
        a = a.astype(object)
    return a


def strip_list(x):
    return tree_map(strip, x)


def elementwise(f, *args, boolean=False):
    a0 = strip(args[0])
    if isinstance(a0, ndarray) and a0.ndim == 1 and len(args) == 2:
        b0 = strip(args[1])
        n = a0.shape[0]
        ys = None
        if is_sym(b0) or isinstance(b0, (float, int)):
            ys = [b0] * n
        elif isinstance(b0, ndarray) and b0.shape == a0.shape:
            ys = b0 if b0.dtype == object else b0.tolist()
        if ys is not None and n:
            xs = a0 if a0.dtype == object else a0.tolist()
            vals = [f(x.item() if isinstance(x, real_np.generic) else x, y.item() if isinstance(y, real_np.generic) else y) for x, y in zip(xs, ys)]
            if boolean:
                return real_np.array([builtins.bool(v) for v in vals], dtype=bool).view(SymArray)
            out = real_np.empty(n, dtype=object)
            for i, v in enumerate(vals):
                out[i] = v
            return out.view(SymArray)
    arrs = real_np.broadcast_arrays(*[to_obj(a) for a in args])
    out = real_np.empty(arrs[0].shape, dtype=object)
    flat = [a.ravel() for a in arrs]
    of = out.reshape(-1)
    for i in range(of.shape[0]):
        of[i] = f(*[a[i].item() if isinstance(a[i], real_np.generic) else a[i] for a in flat])
    out = of.reshape(arrs[0].shape)
    if boolean:
        out = real_np.array([builtins.bool(e) for e in out.ravel()], dtype=bool).reshape(out.shape)
    if out.ndim == 0:
        return out.item()
    return wrap(out)


def elementwise1(f, v):
    if is_sym(v) or is_number(v) or v is None:
        return f(v)
    return elementwise(f, v)


def has_sym(x, depth=0):
    if is_sym(x):
        return True
    if isinstance(x, ndarray):
        return x.dtype == object and builtins.any(is_sym(e) for e in strip(x).ravel())
    if isinstance(x, (list, tuple)) and depth < 4:
        return builtins.any(has_sym(e, depth + 1) for e in x)
    return False


def concretise_key(k):
    if isinstance(k, tuple):
        return tuple(concretise_key(e) for e in k)
    if isinstance(k, SymBool):
        return builtins.bool(k)
    if isinstance(k, SymNum):
        return operator.index(k)
    if isinstance(k, ndarray):
        k = strip(k)
        if k.dtype == object:
            return real_np.array([_key_elem(e) for e in k.ravel()]).reshape(k.shape) if k.size else k.astype(int)
        return k
    if isinstance(k, list) and has_sym(k):
        return [_key_elem(e) for e in k]
    return k


def _key_elem(e):
    if isinstance(e, SymBool):
        return builtins.bool(e)
    if isinstance(e, SymNum):
        return operator.index(e)
    if isinstance(e, float):
        return int(e)
    return e


def kind_of(dtype):
    """'f', 'i', 'b', 'O' or other."""
    if dtype is None:
        return None
    if dtype is builtins.float or dtype == 'float' or getattr(dtype, '_is_symfloat', False):
        return 'f'
    if dtype is builtins.int or getattr(dtype, '_is_symint', False):
        return 'i'
    if dtype is builtins.bool:
        return 'b'
    if dtype is object:
        return 'O'
    try:
        return {'f': 'f', 'i': 'i', 'u': 'i', 'b': 'b', 'O': 'O'}.get(real_np.dtype(dtype).kind, '?')
    except TypeError:
        return '?'


def is_narrow_float(dtype):
    try:
        return real_np.dtype(dtype).kind == 'f' and real_np.dtype(dtype).itemsize < 8
    except TypeError:
        return False


def convert_elem(e, dtype):
    k = kind_of(dtype)
    if k == 'b':
        return builtins.bool(e)
    if k == 'i':
        if isinstance(e, SymNum):
            return e.trunc()
        if isinstance(e, SymBool):
            return int(builtins.bool(e))
        if isinstance(e, SymLog):
            return int(e)
        if isinstance(e, float) and not _math.isfinite(e):
            return -2 ** 63
        return int(e)
    if k == 'f':
        if isinstance(e, (SymNum, SymLog)):
            if is_narrow_float(dtype):
                return narrow(e)
            return e
        if isinstance(e, SymBool):
            return e.num()
        if e is None:
            return _math.nan
        if isinstance(e, Fraction):
            return e
        if isinstance(e, builtins.bool):
            return float(e)
        if is_number(e):
            return real_np.dtype(dtype).type(e).item() if is_narrow_float(dtype) else float(e)
        return float(e)
    return e


def narrow(e):
    """float32 rounding of a real: some value within relative 2^-24."""
    e = SymNum.lift(e) if not isinstance(e, SymNum) else e
    p = core.cur()
    key = ('f32', e.n.get_id(), None if e.d is None else e.d.get_id())
    if key not in p.memo:
        import z3
        v = z3.Real(p.fresh('f32'))
        t = e.term()
        p.keep.append(t)
        p.keep += [e.n] + ([e.d] if e.d is not None else [])
        eps = core.rv(Fraction(1, 2 ** 24))
        p.add(z3.If(t >= 0, z3.And(v >= t - t * eps, v <= t + t * eps), z3.And(v <= t - t * eps, v >= t + t * eps)))
        p.memo[key] = SymNum(v)
    return p.memo[key]


def astype(a, dtype):
    k = kind_of(dtype)
    base = strip(a)
    if k == 'f':
        out = real_np.empty(base.shape, dtype=object)
        of, bf = out.reshape(-1), base.reshape(-1)
        for i in range(of.shape[0]):
            e = bf[i]
            of[i] = convert_elem(e.item() if isinstance(e, real_np.generic) else e, dtype)
        r = of.reshape(base.shape).view(SymArray)
        r.symkind = 'f'
        return r
    if k == 'i':
        if base.dtype != object:
            return base.astype(int).view(SymArray)
        vals = [convert_elem(e, int) for e in base.ravel()]
        if builtins.any(is_sym(v) for v in vals):
            out = real_np.empty(len(vals), dtype=object)
            for i, v in enumerate(vals):
                out[i] = v
            out = out.reshape(base.shape).view(SymArray)
            out.symkind = 'i'
            return out
        return real_np.array(vals, dtype=int).reshape(base.shape).view(SymArray)
    if k == 'b':
        if base.dtype != object:
            return base.astype(bool).view(SymArray)
        return real_np.array([builtins.bool(e) for e in base.ravel()], dtype=bool).reshape(base.shape).view(SymArray)
    if k == 'O':
        return base.astype(object).view(SymArray)
    return base.astype(dtype)


# ------------------------------------------------------------------- ufuncs
def _isfinite(x):
    if is_sym(x):
        return True
    return _math.isfinite(x)


def _isnan(x):
    if is_sym(x):
        return False
    return x is None or _math.isnan(x)


def _isinf(x):
    return False if is_sym(x) else _math.isinf(x)


def _sign(x):
    return 1 if builtins.bool(x > 0) else 0 if builtins.bool(x == 0) else -1


def _floor(x):
    return x.floor() if isinstance(x, SymNum) else float(_math.floor(x))


def _ceil(x):
    return x.ceil() if isinstance(x, SymNum) else float(_math.ceil(x))


def _rint(x):
    return x.__round__() if isinstance(x, SymNum) else float(round(x))


def _scaled(base):
    def f(x):
        r = symlog(x)
        if isinstance(r, float):
            return r
        return float(r) / _math.log(base)
    return f


UNARY = {
    'log': symlog, 'sqrt': symsqrt, 'exp': symexp, 'square': lambda x: x * x,
    'log2': _scaled(2), 'log10': _scaled(10), 'log1p': lambda x: symlog(x + 1), 'expm1': lambda x: symexp(x) - 1,
    'isnan': _isnan, 'isfinite': _isfinite, 'isinf': _isinf, 'sign': _sign, 'floor': _floor, 'ceil': _ceil,
    'rint': _rint, 'trunc': lambda x: x.trunc() if isinstance(x, SymNum) else float(_math.trunc(x)), 'reciprocal': lambda x: 1. / x,
    'absolute': abs, 'fabs': abs, 'negative': operator.neg, 'positive': operator.pos, 'conjugate': lambda x: x,
    'logical_not': lambda x: not builtins.bool(x),
}
IRRATIONAL = {'log', 'log2', 'log10', 'log1p', 'exp', 'expm1', 'sqrt', 'power', 'float_power'}


def _kind_num(x):
    if isinstance(x, ndarray):
        return x.dtype.kind in 'fiu'
    return is_number(x) and not isinstance(x, builtins.bool)


BOOLEAN = {'isnan', 'isfinite', 'isinf', 'logical_not', 'logical_and', 'logical_or', 'logical_xor',
           'less', 'less_equal', 'greater', 'greater_equal', 'equal', 'not_equal'}


def _max(a, b):
    if _isnan(a):
        return a
    return a if builtins.bool(a >= b) else b


def _min(a, b):
    if _isnan(a):
        return a
    return a if builtins.bool(a <= b) else b


def _div(a, b):
    if is_sym(a) or is_sym(b):
        return a / b
    a, b = core.to_py(a), core.to_py(b)
    if b == 0:
        return _math.nan if a == 0 or _math.isnan(a) else _math.copysign(_math.inf, a)
    if isinstance(a, Fraction) or isinstance(b, Fraction):
        if isinstance(a, float) or isinstance(b, float):
            a, b = core.snap(a), core.snap(b)
    return a / b


def _power(a, b):
    if not is_sym(a) and not is_sym(b):
        a, b = core.to_py(a), core.to_py(b)
        if core.CUR is None or builtins.float(b).is_integer() or a <= 0 or a == 1 or _math.isinf(a) or _math.isnan(a):
            try:
                return a ** b
            except ZeroDivisionError:
                return _math.inf
    return sympow(a, b)


BINARY = {
    'power': lambda a, b: _power(a, b), 'float_power': lambda a, b: sympow(a, b),
    'maximum': _max, 'minimum': _min, 'fmax': _max, 'fmin': _min,
    'true_divide': _div, 'divide': _div,
    'logical_and': lambda a, b: builtins.bool(a) and builtins.bool(b),
    'logical_or': lambda a, b: builtins.bool(a) or builtins.bool(b),
    'logical_xor': lambda a, b: builtins.bool(a) != builtins.bool(b),
    'less': operator.lt, 'less_equal': operator.le, 'greater': operator.gt, 'greater_equal': operator.ge,
    'equal': operator.eq, 'not_equal': operator.ne,
}


def sym_ufunc(ufunc, method, inputs, kw):
    name = ufunc.__name__
    out = kw.pop('out', None)
    where = kw.pop('where', True)
    kw.pop('casting', None)
    kw.pop('subok', None)
    kw.pop('order', None)
    dt = kw.pop('dtype', None)
    if method == '__call__' and where is True:
        boolean = name in BOOLEAN
        native = [strip(i) for i in inputs]
        if all_native(native) and not (core.CUR is not None and name in IRRATIONAL and out is None and builtins.all(_kind_num(x) for x in native)):
            r = ufunc(*native)
        elif name in UNARY:
            r = elementwise(UNARY[name], native[0], boolean=boolean)
        elif name in BINARY:
            r = elementwise(BINARY[name], native[0], native[1], boolean=boolean)
        else:
            def pyop(*e):
                r_ = ufunc(*[_box(x) for x in e])
                return r_.item() if isinstance(r_, ndarray) and r_.ndim == 0 else r_
            ops = OPS.get(name)
            r = elementwise(ops if ops else pyop, *native)
            if isinstance(r, SymArray) and r.size and builtins.all(isinstance(e, builtins.bool) for e in strip(r).ravel()):
                r = strip(r).astype(bool).view(SymArray)
        if isinstance(r, builtins.bool):
            r = real_np.bool_(r)
        r = wrap(r)
        if out is not None:
            o = out[0]
            if isinstance(o, SymArray):
                o[...] = r
                return o
            if isinstance(o, ndarray):
                o[...] = strip(r)
                return o
        if dt is not None and isinstance(r, ndarray):
            r = astype(r, dt)
        return r
    args = [strip(i) for i in inputs]
    if method == 'reduce':
        a = args[0]
        if not isinstance(a, ndarray):
            a = to_obj(a)
        axis = kw.get('axis', args[1] if len(args) > 1 else 0)
        keepdims = kw.get('keepdims', False)
        if a.dtype != object:
            return wrap(ufunc.reduce(a, axis=axis, keepdims=keepdims, **({'dtype': dt} if dt else {})))
        if where is not True:
            a = select_where(ufunc, a, where)
        fn = BINARY.get(name) or OPS.get(name)
        r = reduce_obj(fn or (lambda x, y: ufunc(x, y)), a, axis, keepdims, ufunc.identity, kw.get('initial', None))
        if out is not None and out[0] is not None:
            out[0][...] = strip(r)
            return out[0]
        if name in BOOLEAN:
            if isinstance(r, ndarray):
                r = astype(r, builtins.bool)
            else:
                r = real_np.bool_(builtins.bool(r))
        return wrap(r)
    if method in ('accumulate', 'outer', 'at', 'reduceat'):
        args = [to_obj(a) if isinstance(a, ndarray) and method != 'at' else a for a in args]
        return wrap(getattr(ufunc, method)(*args, **kw))
    if where is not True:
        native = [to_obj(i) for i in inputs]
        r = wrap(sym_ufunc(ufunc, '__call__', tuple(inputs), {}))
        if out is not None:
            o = out[0]
            w = concretise_key(real_np.asarray(strip(where)))
            o[w] = r[w] if isinstance(r, ndarray) and r.ndim else r
            return o
        return r
    raise core.Inconclusive('ufunc %s.%s' % (name, method))


def select_where(ufunc, a, where):
    w = real_np.broadcast_to(concretise_key(real_np.asarray(strip(where))), a.shape)
    out = a.copy()
    ident = ufunc.identity
    f = out.reshape(-1)
    wf = w.reshape(-1)
    for i in range(f.shape[0]):
        if not wf[i]:
            f[i] = ident
    return f.reshape(a.shape)


def _box(x):
    a = real_np.empty((), dtype=object)
    a[()] = x
    return a


OPS = {'add': operator.add, 'subtract': operator.sub, 'multiply': operator.mul, 'floor_divide': operator.floordiv,
       'remainder': operator.mod, 'mod': operator.mod,
       'invert': lambda x: (not x) if isinstance(x, builtins.bool) else ~x,
       'bitwise_or': operator.or_, 'bitwise_and': operator.and_, 'bitwise_xor': operator.xor,
       'hypot': lambda a, b: symsqrt(a * a + b * b)}


def all_native(xs):
    for x in xs:
        if is_sym(x):
            return False
        if isinstance(x, ndarray) and x.dtype == object:
            return False
        if not isinstance(x, ndarray) and isinstance(x, (list, tuple)) and has_sym(x):
            return False
        if isinstance(x, float) or isinstance(x, Fraction):
            return False
    return True


def reduce_obj(fn, a, axis, keepdims, identity, initial):
    if axis is None:
        axes = tuple(range(a.ndim))
    elif isinstance(axis, tuple):
        axes = axis
    else:
        axes = (axis,)
    axes = tuple(sorted(x % a.ndim if a.ndim else 0 for x in axes)) if a.ndim else ()
    for ax in reversed(axes):
        a = _reduce1(fn, a, ax, identity, initial)
        initial = None
    if keepdims:
        for ax in axes:
            a = real_np.expand_dims(a if isinstance(a, ndarray) else _box(a), ax)
        return a
    if isinstance(a, ndarray) and a.ndim == 0:
        return a.item()
    return a


def _reduce1(fn, a, ax, identity, initial):
    a = real_np.moveaxis(a, ax, 0)
    n = a.shape[0]
    if n == 0:
        if initial is None and identity is None:
            raise ValueError("zero-size array to reduction operation which has no identity")
        start = initial if initial is not None else identity
        if a.ndim == 1:
            r = _box(start)
            return r
        r = real_np.empty(a.shape[1:], dtype=object)
        r.fill(start)
        return r
    out = real_np.empty(a.shape[1:], dtype=object)
    of = out.reshape(-1)
    af = a.reshape(n, -1)
    for j in range(af.shape[1]):
        acc = af[0, j] if initial is None else fn(initial, af[0, j])
        for i in range(1, n):
            acc = fn(acc, af[i, j])
        of[j] = acc
    return of.reshape(a.shape[1:])


# --------------------------------------------------- functions with own semantics
def arr(x):
    a = strip(x)
    if isinstance(a, ndarray):
        return a
    return make_array(a)


def make_array(x, dtype=None):
    """np.array / np.asarray."""
    x = tree_map(strip, x)
    if hasattr(x, '__array__') and not isinstance(x, ndarray) and not is_sym(x) and not is_number(x):
        x = x.__array__()
    if isinstance(x, (map, filter, range, types.GeneratorType)) and not isinstance(x, types.GeneratorType):
        x = list(x)
    if isinstance(x, ndarray):
        a = x.copy()
    elif isinstance(x, (list, tuple)):
        if has_sym(x):
            a = real_np.array(x, dtype=object)
        else:
            a = real_np.array(x)
    elif is_sym(x):
        a = _box(x)
    else:
        a = real_np.array(x)
    if a.dtype == object and a.size and builtins.all(isinstance(e, (SymBool, builtins.bool, real_np.bool_)) for e in a.ravel()):
        a = real_np.array([builtins.bool(e) for e in a.ravel()], dtype=bool).reshape(a.shape)
    r = wrap(a)
    if dtype is not None:
        r = astype(r, dtype)
    return r


def _creation(name):
    real = getattr(real_np, name)

    def f(*args, **kw):
        dt = kw.pop('dtype', None)
        args = [operator.index(a) if isinstance(a, SymNum) else
                tuple(operator.index(e) if isinstance(e, SymNum) else e for e in a) if isinstance(a, tuple) else a for a in args]
        if dt is None and len(args) > 1 and name in ('zeros', 'ones', 'empty'):
            dt = args[1]
            args = args[:1]
        k = kind_of(dt)
        if name == 'full':
            shape, val = args[0], args[1] if len(args) > 1 else kw['fill_value']
            if is_sym(val) or k in (None, 'f'):
                out = real_np.empty(shape, dtype=object)
                out.fill(val if not isinstance(val, builtins.bool) or k == 'f' else val)
                if not is_sym(val) and k is None:
                    out = real_np.full(shape, val)
                return wrap(out)
        if k in ('i', 'b'):
            r = real(*args, dtype={'i': int, 'b': bool}[k], **kw)
        elif k == 'O':
            r = real(*args, dtype=object, **kw)
        else:
            r = real(*args, **kw)
            if name == 'empty':
                r = real_np.full(r.shape, 0.123456789)   # arbitrary content
            if is_narrow_float(dt):
                pass
        return wrap(r)
    return f


def _like(value):
    def f(a, dtype=None, **kw):
        b = arr(a)
        k = kind_of(dtype)
        if k is None:
            k = 'f' if b.dtype == object else {'f': 'f', 'i': 'i', 'u': 'i', 'b': 'b'}.get(b.dtype.kind, 'O')
            if isinstance(a, SymArray) and a.dtype == object and a.symkind == 'i':
                k = 'i'
        v = value if not callable(value) else None
        return wrap(real_np.full(b.shape, v, dtype={'f': float, 'i': int, 'b': bool, 'O': object}[k]))
    return f


def f_full_like(a, fill_value, dtype=None, **kw):
    b = arr(a)
    out = real_np.empty(b.shape, dtype=object)
    out.fill(fill_value)
    if dtype is not None:
        return astype(out.view(SymArray), dtype)
    if b.dtype.kind in 'iub':
        return astype(out.view(SymArray), {'i': int, 'u': int, 'b': bool}[b.dtype.kind])
    return out.view(SymArray)


def f_array(x, dtype=None, **kw):
    return make_array(x, dtype)


def f_asarray(x, dtype=None, **kw):
    if isinstance(x, SymArray) and dtype is None:
        return x
    if isinstance(x, ndarray) and dtype is None:
        return x if x.dtype.kind != 'f' else wrap(x)
    return make_array(x, dtype)


def red(name):
    ufn = {'sum': real_np.add, 'prod': real_np.multiply, 'min': real_np.minimum, 'max': real_np.maximum,
           'amin': real_np.minimum, 'amax': real_np.maximum, 'any': real_np.logical_or, 'all': real_np.logical_and}[name]

    def f(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True, **kw):
        if isinstance(a, types.GeneratorType):
            a = list(a)
        b = arr(a)
        if isinstance(b, SymArray):
            b = strip(b)
        kws = {}
        if initial is not None:
            kws['initial'] = initial
        if b.dtype != object:
            return wrap(getattr(real_np, name)(b, axis=axis, keepdims=keepdims, **({'where': strip(where)} if where is not True else {}), **kws))
        r = sym_ufunc(ufn, 'reduce', (b,), dict(axis=axis, keepdims=keepdims, where=where, **kws))
        if out is not None:
            out[...] = r
            return out
        return r
    return f


def f_mean(a, axis=None, dtype=None, out=None, keepdims=False, where=True, **kw):
    b = arr(a)
    b = strip(b)
    if where is not True:
        w = real_np.broadcast_to(concretise_key(real_np.asarray(strip(where))), b.shape)
        s = FUNCS['sum'](b, axis=axis, where=w, keepdims=keepdims)
        n = w.sum(axis=axis, keepdims=keepdims)
        return elementwise(_div, s, n)
    if axis is None:
        n = b.size
    else:
        axs = axis if isinstance(axis, tuple) else (axis,)
        n = 1
        for x in axs:
            n *= b.shape[x]
    if b.size == 0 and n == 0:
        if axis is None:
            return _math.nan
        shp = [s for i, s in enumerate(b.shape) if i not in [x % b.ndim for x in axs]]
        return wrap(real_np.full(shp, _math.nan))
    if b.dtype == bool:
        b = b.astype(int)
    s = FUNCS['sum'](b, axis=axis, keepdims=keepdims)
    return elementwise(lambda x: exact_div(x, n), s) if isinstance(s, ndarray) else exact_div(s, n)


def exact_div(x, n):
    """x/n, kept exact when x is an integer."""
    if is_sym(x):
        return x / n
    x = core.to_py(x)
    if isinstance(x, float) and not _math.isfinite(x):
        return x
    return float(core.snap(x) / n)


def f_var(a, axis=None, ddof=0, keepdims=False, **kw):
    b = strip(arr(a))
    m = f_mean(b, axis=axis, keepdims=True)
    d = wrap(b.astype(object)) - m
    n = b.size if axis is None else b.shape[axis]
    return FUNCS['sum'](d * d, axis=axis, keepdims=keepdims) / (n - ddof)


def f_std(a, axis=None, ddof=0, keepdims=False, **kw):
    v = f_var(a, axis, ddof, keepdims)
    return elementwise(symsqrt, v) if isinstance(v, ndarray) else symsqrt(v)


def f_average(a, axis=None, weights=None, **kw):
    if weights is None:
        return f_mean(a, axis)
    w = wrap(strip(arr(weights)).astype(object))
    return FUNCS['sum'](wrap(strip(arr(a)).astype(object)) * w, axis=axis) / FUNCS['sum'](w)


def sort_list(v):
    out = []
    for x in v:                       # insertion sort by forking comparisons
        i = len(out)
        while i > 0 and builtins.bool(x < out[i - 1]):
            i -= 1
        out.insert(i, x)
    return out


def f_percentile(scale):
    def f(a, q, axis=None, out=None, overwrite_input=False, method='linear', keepdims=False, interpolation=None, **kw):
        b = strip(arr(a))
        if interpolation:
            method = interpolation
        if axis is not None and b.ndim > 1:
            mv = real_np.moveaxis(b, axis, -1)
            res = [f(mv[i], q, method=method) for i in real_np.ndindex(mv.shape[:-1])]
            return make_array(res).reshape(mv.shape[:-1])
        v = sort_list(list(to_obj(b).ravel()))
        n = len(v)
        if n == 0:
            return _math.nan

        def one(qq):
            if is_sym(qq):
                fr = SymNum.lift(qq) / scale
            else:
                fr = core.snap(core.to_py(qq)) / scale
            if builtins.bool(fr < 0) or builtins.bool(fr > 1):
                raise ValueError("Percentiles must be in the range [0, 100]")
            pos = fr * (n - 1)
            if isinstance(pos, Fraction):
                k = int(pos)
            else:
                k = 0
                while k < n - 1 and builtins.bool(pos >= k + 1):
                    k += 1
            t = pos - k
            if k >= n - 1:
                return v[n - 1]
            if method == 'lower':
                return v[k]
            if method == 'higher':
                return v[k] if builtins.bool(t == 0) else v[k + 1]
            if method == 'nearest':
                return v[k] if builtins.bool(t <= Fraction(1, 2)) else v[k + 1]
            if method == 'midpoint':
                return v[k] if builtins.bool(t == 0) else (v[k] + v[k + 1]) / 2
            if not is_sym(v[k]) and not is_sym(v[k + 1]):
                r = core.snap(core.to_py(v[k])) + (core.snap(core.to_py(v[k + 1])) - core.snap(core.to_py(v[k]))) * t
                return float(r) if isinstance(r, Fraction) else r
            return v[k] + (v[k + 1] - v[k]) * t
        if isinstance(q, (list, tuple)) or isinstance(q, ndarray) and q.ndim:
            return make_array([one(x) for x in strip(arr(q)).ravel()])
        return one(q.item() if isinstance(q, ndarray) else q)
    return f


def f_median(a, axis=None, **kw):
    return FUNCS['quantile'](a, 0.5, axis=axis)


def f_unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **kw):
    b = strip(arr(a))
    if b.dtype != object:
        return wrap(real_np.unique(b, return_index=return_index, return_inverse=return_inverse, return_counts=return_counts, axis=axis))
    if axis is not None:
        raise core.Inconclusive('unique axis')
    groups = []
    for i, x in enumerate(b.ravel()):
        pos = len(groups)
        hit = False
        for j, g in enumerate(groups):
            if builtins.bool(x == g[0]):
                g[1].append(i)
                hit = True
                break
            if builtins.bool(x < g[0]):
                pos = j
                break
        if not hit:
            groups.insert(pos, [x, [i]])
    vals = make_obj([g[0] for g in groups])
    out = [vals]
    if return_index:
        out.append(real_np.array([g[1][0] for g in groups], dtype=int))
    if return_inverse:
        inv = real_np.zeros(b.size, dtype=int)
        for j, g in enumerate(groups):
            for i in g[1]:
                inv[i] = j
        out.append(inv)
    if return_counts:
        out.append(real_np.array([len(g[1]) for g in groups], dtype=int))
    return tuple(out) if len(out) > 1 else vals


def make_obj(lst):
    out = real_np.empty(len(lst), dtype=object)
    for i, e in enumerate(lst):
        out[i] = e
    return out.view(SymArray)


def f_where(c, *xy):
    c = concretise_key(strip(arr(c)))
    if isinstance(c, ndarray) and c.dtype != bool:
        c = c.astype(bool)
    if not xy:
        return tuple(wrap(e) for e in real_np.where(c))
    x, y = [to_obj(v) if has_sym(v) or isinstance(v, SymArray) and v.dtype == object else strip(v) for v in xy]
    return wrap(real_np.where(c, _asobj(x), _asobj(y)))


def _asobj(v):
    return _box(v) if is_sym(v) else v


def f_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return elementwise(lambda x, y: builtins.bool(x == y) if (is_sym(x) or is_sym(y)) else real_np.isclose(x, y, rtol, atol), a, b, boolean=True)


def f_allclose(a, b, *r, **k):
    return builtins.bool(real_np.all(strip(arr(f_isclose(a, b, *r, **k)))))


def f_array_equal(a, b, **kw):
    a, b = strip(arr(a)), strip(arr(b))
    if a.shape != b.shape:
        return False
    return builtins.all(builtins.bool(x == y) for x, y in zip(a.ravel(), b.ravel()))


def f_sort(a, axis=-1, **kw):
    b = strip(arr(a))
    if b.dtype != object:
        return wrap(real_np.sort(b, axis=axis))
    if b.ndim == 1 or axis is None:
        return make_obj(sort_list(list(b.ravel())))
    return wrap(real_np.sort(b, axis=axis))


def f_argsort(a, axis=-1, **kw):
    b = strip(arr(a))
    if b.dtype != object or b.ndim != 1:
        return wrap(real_np.argsort(b, axis=axis, kind='stable'))
    idx = []
    for i in range(b.shape[0]):
        j = len(idx)
        while j > 0 and builtins.bool(b[i] < b[idx[j - 1]]):
            j -= 1
        idx.insert(j, i)
    return wrap(real_np.array(idx, dtype=int))


def f_argmax(a, axis=None, **kw):
    b = strip(arr(a)).ravel()
    k = 0
    for i in range(1, len(b)):
        if builtins.bool(b[i] > b[k]):
            k = i
    return k


def f_argmin(a, axis=None, **kw):
    b = strip(arr(a)).ravel()
    k = 0
    for i in range(1, len(b)):
        if builtins.bool(b[i] < b[k]):
            k = i
    return k


def f_ptp(a, axis=None, **kw):
    return FUNCS['max'](a, axis=axis) - FUNCS['min'](a, axis=axis)


def f_clip(a, lo=None, hi=None, **kw):
    lo = kw.get('a_min', kw.get('min', lo))
    hi = kw.get('a_max', kw.get('max', hi))
    r = a
    if lo is not None:
        r = elementwise(_max, r, lo)
    if hi is not None:
        r = elementwise(_min, r, hi)
    return r


def f_dot(a, b, **kw):
    return wrap(_item(real_np.dot(to_obj(a), to_obj(b))))


def _item(r):
    return r.item() if isinstance(r, ndarray) and r.ndim == 0 else r


def f_isin(a, test, invert=False, **kw):
    t = list(to_obj(arr(test)).ravel())
    return elementwise(lambda x: builtins.any(builtins.bool(x == y) for y in t) != invert, a, boolean=True)


def f_count_nonzero(a, axis=None, **kw):
    b = strip(arr(a))
    if b.dtype == object:
        b = real_np.array([builtins.bool(e) for e in b.ravel()]).reshape(b.shape)
    return real_np.count_nonzero(b, axis=axis)


def f_bincount(x, weights=None, minlength=0):
    x = concretise_key(real_np.asarray(strip(arr(x))))
    if weights is None:
        return wrap(real_np.bincount(x, minlength=minlength))
    w = to_obj(arr(weights))
    n = builtins.max(minlength, int(x.max()) + 1 if x.size else 0)
    out = [0.0] * n
    for i, k in enumerate(x):
        out[k] = out[k] + w[i]
    return make_obj(out)


def f_searchsorted(a, v, side='left', **kw):
    lst = list(to_obj(arr(a)).ravel())

    def one(x):
        k = 0
        while k < len(lst) and (builtins.bool(lst[k] < x) if side == 'left' else builtins.bool(lst[k] <= x)):
            k += 1
        return k
    if isinstance(v, (list, tuple, ndarray)):
        return wrap(real_np.array([one(x) for x in to_obj(arr(v)).ravel()], dtype=int))
    return one(v)


def f_nan_to_num(x, *a, **k):
    return elementwise1(lambda e: e if is_sym(e) else real_np.nan_to_num(e), x)


def f_errstate(**kw):
    return real_np.errstate(**kw)


FUNCS = {
    'array': f_array, 'asarray': f_asarray, 'asanyarray': f_asarray, 'ascontiguousarray': f_asarray, 'atleast_1d': lambda x: f_asarray(x) if not is_sym(x) else make_obj([x]),
    'zeros': _creation('zeros'), 'ones': _creation('ones'), 'empty': _creation('empty'), 'full': _creation('full'),
    'zeros_like': _like(0), 'ones_like': _like(1), 'empty_like': _like(0), 'full_like': f_full_like,
    'sum': red('sum'), 'prod': red('prod'), 'min': red('min'), 'max': red('max'), 'amin': red('min'), 'amax': red('max'),
    'any': red('any'), 'all': red('all'), 'mean': f_mean, 'var': f_var, 'std': f_std, 'average': f_average,
    'nansum': red('sum'), 'nanmin': red('min'), 'nanmax': red('max'), 'nanmean': f_mean,
    'percentile': f_percentile(100), 'quantile': f_percentile(1), 'nanpercentile': f_percentile(100), 'median': f_median,
    'unique': f_unique, 'where': f_where, 'isclose': f_isclose, 'allclose': f_allclose, 'array_equal': f_array_equal,
    'sort': f_sort, 'argsort': f_argsort, 'argmax': f_argmax, 'argmin': f_argmin, 'ptp': f_ptp, 'clip': f_clip, 'dot': f_dot,
    'isin': f_isin, 'in1d': f_isin, 'count_nonzero': f_count_nonzero, 'bincount': f_bincount, 'searchsorted': f_searchsorted,
    'nan_to_num': f_nan_to_num, 'matmul': f_dot, 'inner': f_dot,
    'round': lambda x, *a, **k: x, 'around': lambda x, *a, **k: x,
    'copy': lambda a, **k: arr(a).copy() if not isinstance(a, SymArray) else a.copy(),
    'isscalar': lambda x: is_sym(x) or real_np.isscalar(x),
    'float64': lambda x=0.0: x if is_sym(x) else real_np.float64(x),
}


class UfuncProxy:
    def __init__(self, uf):
        self._uf = uf
        self.__name__ = uf.__name__

    def __call__(self, *inputs, **kw):
        if self._uf.nin < len(inputs):
            kw['out'] = (inputs[-1],)
            inputs = inputs[:-1]
        if 'out' in kw and kw['out'] is not None and not isinstance(kw['out'], tuple):
            kw['out'] = (kw['out'],)
        if core.CUR is None and not has_sym(inputs):
            return self._uf(*inputs, **kw)
        ins = tuple(make_array(i) if isinstance(i, (list, tuple)) else i for i in inputs)
        return sym_ufunc(self._uf, '__call__', ins, kw)

    def __getattr__(self, m):
        if m in ('reduce', 'accumulate', 'outer', 'reduceat', 'at'):
            def f(a, *args, **kw):
                if m == 'reduce' and args:
                    kw['axis'] = args[0]
                    args = ()
                if m == 'reduce' and 'axis' not in kw:
                    kw['axis'] = 0
                return sym_ufunc(self._uf, m, (arr(a),) + args, kw)
            return f
        return getattr(self._uf, m)


class FloatType:
    pass


class NumpyProxy(types.ModuleType):
    def __init__(self, rng):
        super().__init__('numpy')
        self.__dict__['random'] = rng
        self.__dict__['_cache'] = {}

    def __getattr__(self, name):
        c = self.__dict__['_cache']
        if name in c:
            return c[name]
        if name in FUNCS and name != 'float64':
            v = FUNCS[name]
        else:
            a = getattr(real_np, name)
            if isinstance(a, real_np.ufunc):
                v = UfuncProxy(a)
            elif isinstance(a, type) or isinstance(a, types.ModuleType) or not callable(a):
                v = a
            else:
                v = _generic(a)
        c[name] = v
        return v


def _generic(a):
    def f(*args, **kw):
        try:
            r = a(*tree_map(strip, args), **tree_map(strip, kw))
        except (TypeError, ValueError):
            if has_sym(args):
                raise
            r = a(*args, **kw)
        return wrap(r)
    f.__name__ = getattr(a, '__name__', 'f')
    return f


class MathProxy(types.ModuleType):
    T = {'log': lambda x, *b: symlog(x) if not b else float(symlog(x)) / _math.log(b[0]), 'sqrt': symsqrt, 'exp': symexp, 'pow': sympow, 'fabs': abs,
         'isnan': _isnan, 'isinf': _isinf, 'isfinite': _isfinite,
         'floor': lambda x: x.floor() if isinstance(x, SymNum) else _math.floor(x),
         'ceil': lambda x: x.ceil() if isinstance(x, SymNum) else _math.ceil(x),
         'fsum': lambda xs: builtins.sum(xs),
         'isclose': lambda a, b, **k: builtins.bool(a == b) if (is_sym(a) or is_sym(b)) else _math.isclose(a, b, **k),
         'log1p': lambda x: symlog(x + 1)}

    def __init__(self):
        super().__init__('math')

    def __getattr__(self, n):
        if n in self.T:
            return self.T[n]
        return getattr(_math, n)

"""Symbolic values and path exploration over z3.

A harness is run again and again; every time the code under test asks for the
truth of a symbolic condition, the solver decides which outcomes are possible
under the current path condition, one is followed and the other is queued.
The work list is exhausted, so together the paths cover every input within the
harness's bounds.  Numbers are exact rationals/reals (a SymNum is a fraction of
two z3 Real terms whose denominator is known to be positive).
"""
import math
import sys
import time
from fractions import Fraction

import z3

from . import poly

z3.set_param('memory_max_size', 6000)


# ---------------------------------------------------------------- control flow
class PathAbort(BaseException):
    """Engine control flow; deliberately not an Exception."""


class Infeasible(PathAbort):
    pass


class PathCut(PathAbort):
    """A stated bound (draw budget, loop budget) was reached."""


class EagerBatch(PathAbort):
    """A large batch of draws is being consumed whole: see rng.EAGER."""


class Inconclusive(PathAbort):
    pass


class Found(PathAbort):
    """A candidate violation (to be replayed concretely)."""

    def __init__(self, label, detail, inputs):
        self.label, self.detail, self.inputs = label, detail, inputs


class PathTimeout(PathAbort):
    pass


CUR = None          # the current Path


def cur():
    if CUR is None:
        raise RuntimeError("symbolic value used outside a path")
    return CUR


class Stats:
    def __init__(self):
        self.paths = self.queries = self.checks = self.trivial_checks = 0
        self.branches = self.forced = self.infeasible = self.cut = 0
        self.solver_s = 0.0
        self.realisations = {}
        self.unknown = 0
        self.covers = {}

    def as_dict(self):
        return dict(self.__dict__)


# ------------------------------------------------------------------- the path
class Path:
    def __init__(self, prefix, opts, stats):
        self.prefix = prefix
        self.opts = opts
        self.stats = stats
        self.decisions = []
        self.alternatives = []
        self.constraints = []
        self.solver = z3.Solver()
        self.solver.set('timeout', opts.get('query_timeout_ms', 20000))
        self.model = None
        self.nonlinear = False
        self.known = {}
        self.le = {}
        self.eqs = {}
        self.keep = []
        self.inputs = {}
        self.memo = {}
        self.counter = {}
        self.weight = Fraction(1)
        self.notes = {}
        self.checks_here = 0
        self.draws = 0

    # -- solver plumbing
    def add(self, c):
        if z3.is_true(c):
            return
        self.constraints.append(c)
        self.solver.add(c)
        if self.model is not None:
            try:
                if not z3.is_true(self.model.eval(c, model_completion=True)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None

    def _check(self, *assumptions, timeout=None):
        t = time.perf_counter()
        self.stats.queries += 1
        if timeout:
            self.solver.set('timeout', timeout)
        if assumptions:
            self.solver.push()
            self.solver.add(*assumptions)
        r = self.solver.check()
        if r == z3.sat:
            self.last_model = self.solver.model()
        if assumptions:
            self.solver.pop()
        if timeout:
            self.solver.set('timeout', self.opts.get('query_timeout_ms', 20000))
        self.stats.solver_s += time.perf_counter() - t
        return r

    def oneshot(self, extra, timeout_ms):
        """Fresh solvers over the whole path condition; used when the incremental one gives up."""
        for mk in (lambda: z3.Solver(), lambda: z3.Tactic('qfnra-nlsat').solver(),
                   lambda: z3.Then('simplify', 'solve-eqs', 'purify-arith', 'qfnra-nlsat').solver()):
            s = mk()
            s.set('timeout', timeout_ms)
            s.add(*self.constraints)
            s.add(*extra)
            t = time.perf_counter()
            self.stats.queries += 1
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            self.stats.solver_s += time.perf_counter() - t
            if r == z3.sat:
                return r, s.model()
            if r == z3.unsat:
                return r, None
        return z3.unknown, None

    def feasible(self, c):
        """sat / unsat / unknown of pc & c, and a model."""
        return self._escalate([c])

    def _escalate(self, extra):
        """The incremental solver sometimes gets stuck where a fresh one answers at once, and the other way round."""
        full = self.opts.get('query_timeout_ms', 20000)
        for ms in (1500, full):
            r = self._check(*extra, timeout=ms)
            if r == z3.sat:
                return r, self.last_model
            if r == z3.unsat:
                return r, None
            r, m = self.oneshot(extra, min(2 * ms, full))
            if r != z3.unknown:
                return r, m
        return z3.unknown, None

    def ensure_model(self):
        if self.model is None:
            r, m = self._escalate([])
            if r == z3.sat:
                self.model = m
            elif r == z3.unsat:
                raise Infeasible()
        return self.model

    # -- decisions
    def branch(self, c):
        if c is True or c is False:
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        neg = False
        while z3.is_not(c):
            c = c.arg(0)
            neg = not neg
        key = c.get_id()
        if key in self.known:
            v = self.known[key]
            return (not v) if neg else v
        self.keep.append(c)
        self.stats.branches += 1
        if len(self.decisions) > self.opts.get('max_decisions', 4000):
            raise PathCut('decision bound')
        pos = len(self.decisions)
        if pos < len(self.prefix):
            v = self.prefix[pos]
            self.decisions.append(v)
            self.add(c if v else z3.Not(c))
        else:
            m = self.ensure_model()
            side = None
            if m is not None:
                ev = m.eval(c, model_completion=True)
                side = True if z3.is_true(ev) else False if z3.is_false(ev) else None
            if side is None:
                rt, mt = self.feasible(c)
                if rt == z3.unsat:
                    v, alt = False, False
                else:
                    rf, mf = self.feasible(z3.Not(c))
                    v, alt = True, rf != z3.unsat
                    self.model = mt
                    if rt == z3.unknown or rf == z3.unknown:
                        self.stats.unknown += 1
            else:
                r, m2 = self.feasible(z3.Not(c) if side else c)
                if r == z3.unknown:
                    self.stats.unknown += 1
                v, alt = side, r != z3.unsat
            if alt:
                self.alternatives.append(tuple(self.decisions) + (not v,))
            else:
                self.stats.forced += 1
            self.decisions.append(v)
            self.add(c if v else z3.Not(c))
        self.known[key] = v
        return (not v) if neg else v

    def choose(self, n):
        """n-way nondeterministic choice."""
        if n <= 0:
            raise ValueError("choice among nothing")
        if n == 1:
            return 0
        pos = len(self.decisions)
        if pos < len(self.prefix):
            v = self.prefix[pos]
        else:
            v = 0
            for k in range(n - 1, 0, -1):
                self.alternatives.append(tuple(self.decisions) + (k,))
        self.decisions.append(v)
        self.stats.branches += 1
        return v

    def fresh(self, base):
        k = self.counter.get(base, 0)
        self.counter[base] = k + 1
        return '%s#%d' % (base, k)

    # -- models of inputs
    def concrete_inputs(self, m):
        out = {}
        for name, (kind, v) in self.inputs.items():
            if kind == 'choice':
                out[name] = {'k': 'choice', 'v': v}
            else:
                out[name] = {'k': kind, 'v': str(model_fraction(m, v))}
        return out

    def realise(self, num, why):
        """Last resort: fix a symbolic number to a model value (recorded as incompleteness)."""
        m = self.ensure_model()
        if m is None:
            raise Inconclusive('no model to realise ' + why)
        v = model_fraction(m, num.term())
        r, _ = self.feasible(z3.Not(num.eq_term(v)))
        if r != z3.unsat:
            self.stats.realisations[why] = self.stats.realisations.get(why, 0) + 1
            self.add(num.eq_term(v))
        return v


def model_fraction(m, e):
    v = m.eval(e, model_completion=True)
    return val_fraction(v)


def val_fraction(v):
    v = z3.simplify(v)
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise Inconclusive('model value %s' % v)


# ------------------------------------------------------------------- numbers
def snap(f):
    """The rational a float literal or quotient of small integers stands for."""
    if isinstance(f, Fraction):
        return f
    if isinstance(f, int):
        return Fraction(f)
    fr = Fraction(f)
    if fr.denominator <= 4096:
        return fr
    cand = fr.limit_denominator(5000)
    if abs(float(cand) - f) <= 4 * math.ulp(f):
        return cand
    cand = fr.limit_denominator(1000000)
    if float(cand) == f:
        return cand
    return fr


_RV = {}


def rv(fr):
    t = _RV.get(fr)
    if t is None:
        t = z3.RealVal(fr)
        if len(_RV) < 20000:
            _RV[fr] = t
    return t


def is_number(x):
    if isinstance(x, (bool, int, float, Fraction)):
        return True
    t = type(x)
    return t.__module__ == 'numpy' and hasattr(x, 'item') and getattr(x, 'ndim', 0) == 0 and t.__name__ != 'ndarray'


def to_py(x):
    if isinstance(x, (bool, int, float, Fraction)):
        return x
    return x.item()


_np_bool = bool


class SymBool:
    __slots__ = ('c', 'atom')
    __array_priority__ = 2000

    def __init__(self, c, atom=None):
        self.c = c
        self.atom = atom

    def __bool__(self):
        v = cur().branch(self.c)
        if self.atom is not None:
            kind, l, r, neg = self.atom
            w = (not v) if neg else v
            p = CUR
            p.keep += [l, r]
            if kind == 'le':
                p.le[(l.get_id(), r.get_id())] = w
                if not w:
                    p.le[(r.get_id(), l.get_id())] = True
                    p.eqs[(l.get_id(), r.get_id())] = p.eqs[(r.get_id(), l.get_id())] = False
            else:
                p.eqs[(l.get_id(), r.get_id())] = p.eqs[(r.get_id(), l.get_id())] = w
                if w:
                    p.le[(l.get_id(), r.get_id())] = p.le[(r.get_id(), l.get_id())] = True
        return v

    def _o(self, o):
        if isinstance(o, SymBool):
            return o.c
        if isinstance(o, (bool,)) or type(o).__name__ in ('bool', 'bool_'):
            return z3.BoolVal(bool(o))
        return None

    def __and__(self, o):
        c = self._o(o)
        return NotImplemented if c is None else SymBool(z3.And(self.c, c))
    __rand__ = __and__

    def __or__(self, o):
        c = self._o(o)
        return NotImplemented if c is None else SymBool(z3.Or(self.c, c))
    __ror__ = __or__

    def __xor__(self, o):
        c = self._o(o)
        return NotImplemented if c is None else SymBool(z3.Xor(self.c, c))
    __rxor__ = __xor__

    def __invert__(self):
        a = self.atom
        return SymBool(z3.Not(self.c), None if a is None else (a[0], a[1], a[2], not a[3]))

    def num(self):
        return SymNum(z3.If(self.c, rv(Fraction(1)), rv(Fraction(0))), None, isint=True)

    def __add__(self, o): return self.num() + (o.num() if isinstance(o, SymBool) else o)
    __radd__ = __add__
    def __sub__(self, o): return self.num() - o
    def __rsub__(self, o): return o - self.num()
    def __mul__(self, o): return self.num() * (o.num() if isinstance(o, SymBool) else o)
    __rmul__ = __mul__
    def __truediv__(self, o): return self.num() / o

    def __eq__(self, o):
        c = self._o(o)
        if c is None:
            return self.num() == o
        return SymBool(self.c == c)

    def __ne__(self, o):
        e = self.__eq__(o)
        return ~e if isinstance(e, SymBool) else not e

    def __hash__(self):
        return hash(bool(self))

    def __int__(self): return int(bool(self))
    def __index__(self): return int(bool(self))
    def __float__(self): return float(bool(self))
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    def __repr__(self): return 'SymBool'
    def __reduce__(self): return (_unpickle, (_keep(self),))
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import nparray
        return nparray.sym_ufunc(ufunc, method, inputs, kw)


_PICKLED = {}


def _keep(o):
    _PICKLED[id(o)] = o
    return id(o)


def _unpickle(i):
    return _PICKLED[i]


# known-sign lattice: '+' > 0, '0+' >= 0, '-' < 0, None unknown
def _sgn_mul(a, b):
    if a is None or b is None:
        return None
    if '0+' in (a, b):
        return '0+' if a in ('+', '0+') and b in ('+', '0+') else None
    return '+' if a == b else '-'


def _sgn_add(a, b):
    if a == '+' and b in ('+', '0+') or b == '+' and a in ('+', '0+'):
        return '+'
    if a == '0+' and b == '0+':
        return '0+'
    if a == '-' and b == '-':
        return '-'
    return None


def _fsgn(f):
    return '+' if f > 0 else '-' if f < 0 else '0+'


class SymNum:
    """num/den, den > 0 (None means 1)."""
    __slots__ = ('n', 'd', 'sgn', 'isint', 'sqrt_of', 'tag', '_nid')
    __array_priority__ = 2000

    @property
    def nid(self):
        try:
            return self._nid
        except AttributeError:
            self._nid = self.n.get_id()
            return self._nid

    def __init__(self, n, d=None, sgn=None, isint=False, sqrt_of=None, tag=None):
        self.n, self.d, self.sgn, self.isint, self.sqrt_of, self.tag = n, d, sgn, isint, sqrt_of, tag

    # -- construction
    @staticmethod
    def const(fr):
        return SymNum(rv(fr), None, _fsgn(fr), fr.denominator == 1)

    @staticmethod
    def lift(o):
        if isinstance(o, SymNum):
            return o
        if isinstance(o, SymBool):
            return o.num()
        if is_number(o):
            o = to_py(o)
            if isinstance(o, float) and (math.isinf(o) or math.isnan(o)):
                return None
            if isinstance(o, complex):
                return None
            fr = snap(o)
            if CUR is not None and isinstance(o, float) and o > 0 and fr.denominator > 1000000:
                # x ** 0.5 evaluated by Python itself: the float stands for an irrational root
                sq = Fraction(o * o).limit_denominator(5000)
                if abs(float(sq) - o * o) <= 4 * math.ulp(o * o) and sq.denominator <= 5000 and sq.numerator <= 10 ** 6:
                    return symsqrt(SymNum.const(sq))
            return SymNum.const(fr)
        return None

    def term(self):
        return self.n if self.d is None else self.n / self.d

    def value(self):
        """The Fraction if this is syntactically a constant, else None."""
        n = z3.simplify(self.n) if not z3.is_rational_value(self.n) else self.n
        if not z3.is_rational_value(n):
            return None
        f = Fraction(n.numerator_as_long(), n.denominator_as_long())
        if self.d is not None:
            d = z3.simplify(self.d)
            if not z3.is_rational_value(d):
                return f if f == 0 else None
            f /= Fraction(d.numerator_as_long(), d.denominator_as_long())
        return f

    def eq_term(self, fr):
        return self.n == (rv(fr) if self.d is None else rv(fr) * self.d)

    # -- arithmetic
    def _bin(self, o, f):
        if _is_array(o):
            from . import nparray
            return nparray.elementwise(f, self, o)
        if isinstance(o, SymLog):
            return f(SymLog(self, ()), o)
        return NotImplemented

    def __add__(self, o):
        b = SymNum.lift(o)
        if b is None:
            if _nonfinite(o):
                return to_py(o)
            return self._bin(o, lambda x, y: x + y)
        return _add(self, b)

    def __radd__(self, o):
        b = SymNum.lift(o)
        if b is None:
            if _nonfinite(o):
                return to_py(o)
            return self._bin(o, lambda x, y: y + x)
        return _add(b, self)

    def __neg__(self):
        return SymNum(-self.n, self.d, {'+': '-', '-': '+'}.get(self.sgn), self.isint)

    def __pos__(self):
        return self

    def __sub__(self, o):
        b = SymNum.lift(o)
        if b is None:
            if _nonfinite(o):
                return -to_py(o)
            return self._bin(o, lambda x, y: x - y)
        return _add(self, -b)

    def __rsub__(self, o):
        b = SymNum.lift(o)
        if b is None:
            if _nonfinite(o):
                return to_py(o)
            return self._bin(o, lambda x, y: y - x)
        return _add(b, -self)

    def __mul__(self, o):
        b = SymNum.lift(o)
        if b is None:
            if _nonfinite(o):
                o = to_py(o)
                if math.isnan(o) or bool(self == 0):
                    return math.nan
                return o if bool(self > 0) else -o
            return self._bin(o, lambda x, y: x * y)
        return _mul(self, b)
    __rmul__ = __mul__

    def __truediv__(self, o):
        b = SymNum.lift(o)
        if b is None:
            if _nonfinite(o):
                return math.nan if math.isnan(to_py(o)) else 0.0
            return self._bin(o, lambda x, y: x / y)
        return _div(self, b)

    def __rtruediv__(self, o):
        b = SymNum.lift(o)
        if b is None:
            if _nonfinite(o):
                o = to_py(o)
                return o if bool(self > 0) else -o
            return self._bin(o, lambda x, y: y / x)
        return _div(b, self)

    def floor(self):
        v = self.value()
        if v is not None:
            return SymNum.const(Fraction(math.floor(v)))
        if self.isint and self.d is None:
            return self
        t = self.n if self.d is None else self.n / self.d
        if self.d is not None:
            p = cur()
            # floor(n/d) = q with q*d <= n < (q+1)*d
            key = ('floor', self.n.get_id(), self.d.get_id())
            if key not in p.memo:
                q = z3.Int(p.fresh('floor'))
                qr = z3.ToReal(q)
                p.add(z3.And(qr * self.d <= self.n, self.n < (qr + 1) * self.d))
                p.keep += [self.n, self.d]
                p.memo[key] = SymNum(qr, None, None, True)
            return p.memo[key]
        return SymNum(z3.ToReal(z3.ToInt(t)), None, None, True)

    def ceil(self):
        return -((-self).floor())

    def trunc(self):
        return self.floor() if bool(self >= 0) else self.ceil()

    def __floordiv__(self, o):
        q = self / o
        return q.floor() if isinstance(q, SymNum) else q

    def __rfloordiv__(self, o):
        q = o / self
        return q.floor() if isinstance(q, SymNum) else q

    def __mod__(self, o):
        b = SymNum.lift(o)
        if b is None:
            return NotImplemented
        return self - b * (self // b)

    def __rmod__(self, o):
        b = SymNum.lift(o)
        if b is None:
            return NotImplemented
        return b - self * (b // self)

    def __pow__(self, e):
        if _is_array(e):
            return self._bin(e, lambda x, y: x ** y)
        return sympow(self, e)

    def __rpow__(self, b):
        if _is_array(b):
            return self._bin(b, lambda x, y: y ** x)
        return sympow(b, self)

    def __abs__(self):
        if self.sgn in ('+', '0+'):
            return self
        return self if bool(self >= 0) else -self

    # -- comparisons
    def _cmp(self, o, op):
        b = SymNum.lift(o)
        if b is None:
            if isinstance(o, SymLog):
                return getattr(SymLog(self, ()), op)(o)
            if _nonfinite(o):
                o = to_py(o)
                if math.isnan(o):
                    return False
                return (o > 0) if op in ('__lt__', '__le__') else (o < 0)
            if _is_array(o):
                from . import nparray
                f = {'__lt__': lambda x, y: x < y, '__le__': lambda x, y: x <= y,
                     '__gt__': lambda x, y: x > y, '__ge__': lambda x, y: x >= y}[op]
                return nparray.elementwise(f, self, o, boolean=True)
            return NotImplemented
        if CUR is not None and self.d is None and b.d is None:
            # atoms already decided on this path
            le_ = op == '__le__' or op == '__gt__'
            v = CUR.le.get((self.nid, b.nid) if le_ else (b.nid, self.nid))
            if v is not None:
                return _np_bool(v if op in ('__le__', '__ge__') else not v)
            if self.nid == b.nid:
                return _np_bool(le_ == (op == '__le__') and op in ('__le__', '__ge__'))
            l, r = (self.n, b.n) if le_ else (b.n, self.n)
            return SymBool(l <= r if op in ('__le__', '__ge__') else z3.Not(l <= r), ('le', l, r, op in ('__lt__', '__gt__')))
        l, r = _cross(self, b)
        if op == '__le__':
            return SymBool(l <= r)
        if op == '__lt__':
            return SymBool(z3.Not(r <= l))
        if op == '__ge__':
            return SymBool(r <= l)
        return SymBool(z3.Not(l <= r))

    def __lt__(self, o): return self._cmp(o, '__lt__')
    def __le__(self, o): return self._cmp(o, '__le__')
    def __gt__(self, o): return self._cmp(o, '__gt__')
    def __ge__(self, o): return self._cmp(o, '__ge__')

    def __eq__(self, o):
        b = SymNum.lift(o)
        if b is None:
            if isinstance(o, SymLog):
                return SymLog(self, ()) == o
            if _is_array(o):
                from . import nparray
                return nparray.elementwise(lambda x, y: x == y, self, o, boolean=True)
            return False
        if CUR is not None and self.d is None and b.d is None:
            v = CUR.eqs.get((self.nid, b.nid))
            if v is not None:
                return _np_bool(v)
            if self.nid == b.nid:
                return _np_bool(True)
            return SymBool(self.n == b.n, ('eq', self.n, b.n, False))
        l, r = _cross(self, b)
        return SymBool(l == r)

    def __ne__(self, o):
        b = SymNum.lift(o)
        if b is None and _is_array(o):
            from . import nparray
            return nparray.elementwise(lambda x, y: x != y, self, o, boolean=True)
        e = self.__eq__(o)
        return ~e if isinstance(e, SymBool) else _np_bool(not e)

    def __hash__(self):
        return 7

    def __bool__(self):
        return bool(self != 0)

    # -- conversions
    def __float__(self):
        v = self.value()
        if v is None:
            v = cur().realise(self, 'float()')
        return float(v)

    def __int__(self):
        t = self.trunc()
        return t.enumerate()

    def __index__(self):
        if not self.isint:
            raise TypeError("'SymNum' (real) cannot be interpreted as an integer")
        return self.enumerate()

    def enumerate(self):
        """Fork over the (finitely many, within the bounds) integer values."""
        p = cur()
        for _ in range(200):
            v = self.value()
            if v is None:
                m = p.ensure_model()
                if m is None:
                    raise Inconclusive('enumerate')
                # deterministic choice: smallest feasible is not needed, prefix replay needs stable order
                key = ('enum', self.n.get_id())
                k = p.memo.get(key, -64)
                while k <= 4096:
                    if p.branch(self.eq_term(Fraction(k))):
                        return k
                    k += 1
                    p.memo[key] = k
                raise PathCut('integer enumeration')
            return int(v)

    def __round__(self, nd=None):
        if nd:
            return self
        return (self + Fraction(1, 2)).floor()

    def __floor__(self): return self.floor()
    def __ceil__(self): return self.ceil()
    def __trunc__(self): return self.trunc()
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    def __reduce__(self): return (_unpickle, (_keep(self),))

    def __repr__(self):
        v = None
        try:
            v = self.value()
        except Exception:
            pass
        return 'Sym(%s)' % (v if v is not None else str(self.n)[:60])
    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    # numpy object loops call these
    def log(self): return symlog(self)
    def sqrt(self): return symsqrt(self)
    def exp(self): return symexp(self)
    def square(self): return self * self
    def conjugate(self): return self
    def item(self): return self
    def isnan(self): return False
    def rint(self): return self.__round__()

    @property
    def real(self): return self
    @property
    def dtype(self): raise AttributeError('dtype')

    def astype(self, t, **kw):
        from . import nparray
        return nparray.convert_elem(self, t)

    def is_integer(self):
        return bool(self == self.floor())

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import nparray
        return nparray.sym_ufunc(ufunc, method, inputs, kw)


def _nonfinite(o):
    if not is_number(o):
        return False
    o = to_py(o)
    return isinstance(o, float) and (math.isinf(o) or math.isnan(o))


def _is_array(o):
    return hasattr(o, '__array_interface__') and getattr(o, 'ndim', 0) >= 0 and not is_number(o) or isinstance(o, list) and False


def _same(a, b):
    return a is b or (a is not None and b is not None and a.get_id() == b.get_id())


ONE = None


def _is_zero(t):
    return z3.is_rational_value(t) and t.numerator_as_long() == 0


def _add(a, b):
    if a.d is None and _is_zero(a.n):
        return b
    if b.d is None and _is_zero(b.n):
        return a
    sg = _sgn_add(a.sgn, b.sgn)
    if a.d is None and b.d is None:
        n = a.n + b.n
        if z3.is_rational_value(a.n) and z3.is_rational_value(b.n):
            n = z3.simplify(n)
        return SymNum(n, None, sg, a.isint and b.isint)
    if _same(a.d, b.d):
        return SymNum(a.n + b.n, a.d, sg)
    if a.d is None:
        return SymNum(a.n * b.d + b.n, b.d, sg)
    if b.d is None:
        return SymNum(a.n + b.n * a.d, a.d, sg)
    return SymNum(a.n * b.d + b.n * a.d, a.d * b.d, sg)


def _mul(a, b):
    if a.d is None and z3.is_rational_value(a.n):
        if _is_zero(a.n):
            return a
        if a.n.numerator_as_long() == 1 and a.n.denominator_as_long() == 1:
            return b
    if b.d is None and z3.is_rational_value(b.n):
        if _is_zero(b.n):
            return b
        if b.n.numerator_as_long() == 1 and b.n.denominator_as_long() == 1:
            return a
    if a is b or (a.d is None and b.d is None and _same(a.n, b.n)) or (_same(a.n, b.n) and _same(a.d, b.d)):
        if a.sqrt_of is not None:
            return a.sqrt_of
        sg = '+' if a.sgn in ('+', '-') else '0+'
    else:
        sg = _sgn_mul(a.sgn, b.sgn)
    n = a.n * b.n
    if z3.is_rational_value(a.n) and z3.is_rational_value(b.n):
        n = z3.simplify(n)
    if a.d is None:
        d = b.d
    elif b.d is None:
        d = a.d
    else:
        d = a.d * b.d
    if a.d is not None and _same(a.d, b.n):
        return SymNum(a.n, b.d, sg)
    if b.d is not None and _same(b.d, a.n):
        return SymNum(b.n, a.d, sg)
    return SymNum(n, d, sg, a.isint and b.isint and d is None)


def _div(a, b):
    bv = b.value()
    if bv is not None:
        if bv == 0:
            return _div0(a)
        return _mul(a, SymNum.const(1 / bv))
    if b.sgn not in ('+', '-'):
        z = SymBool(b.n == rv(Fraction(0)))
        if bool(z):
            return _div0(a)
        neg = not bool(SymNum(b.n) > 0)
    else:
        neg = b.sgn == '-'
    # a / b = a * (b.d / b.n)
    if neg:
        inv = SymNum(-(b.d) if b.d is not None else rv(Fraction(-1)), -b.n, '-')
    else:
        inv = SymNum(b.d if b.d is not None else rv(Fraction(1)), b.n, '+')
    if a.d is None and _same(a.n, inv.d) and inv.n is not None:
        return SymNum(inv.n, None, _sgn_mul(a.sgn, inv.sgn))
    return _mul(a, inv)


def _div0(a):
    if bool(a == 0):
        return math.nan
    return math.inf if bool(a > 0) else -math.inf


def _cross(a, b):
    if a.d is None and b.d is None or _same(a.d, b.d):
        return a.n, b.n
    l = a.n if b.d is None else a.n * b.d
    r = b.n if a.d is None else b.n * a.d
    return l, r


# -------------------------------------------------------------------- logs etc
class SymLog:
    """rat + sum_i c_i * ln(arg_i); args are positive SymNums."""
    __slots__ = ('r', 't')
    __array_priority__ = 2000

    def __init__(self, r, terms):
        self.r, self.t = r, tuple(terms)

    @staticmethod
    def lift(o):
        if isinstance(o, SymLog):
            return o
        n = SymNum.lift(o)
        return None if n is None else SymLog(n, ())

    def __add__(self, o):
        if _nonfinite(o):
            return to_py(o)
        b = SymLog.lift(o)
        if b is None:
            return self._arr(o, lambda x, y: x + y)
        return SymLog(self.r + b.r, self.t + b.t)

    def __radd__(self, o):
        return self.__add__(o)

    def _arr(self, o, f):
        if _is_array(o):
            from . import nparray
            return nparray.elementwise(f, self, o)
        return NotImplemented

    def __neg__(self):
        return SymLog(-self.r, tuple((-c, a) for c, a in self.t))

    def __pos__(self):
        return self

    def __sub__(self, o):
        if _nonfinite(o):
            return -to_py(o)
        b = SymLog.lift(o)
        if b is None:
            return self._arr(o, lambda x, y: x - y)
        return self + (-b)

    def __rsub__(self, o):
        if _nonfinite(o):
            return to_py(o)
        return (-self) + o

    def _scale(self, f):
        return SymLog(self.r * f, tuple((c * f, a) for c, a in self.t))

    def __mul__(self, o):
        if isinstance(o, SymLog):
            if not o.t:
                return self.r * o.r if not self.t else self * o.r
            if not self.t:
                return o * self.r
        elif not self.t:
            return self.r * o
        b = SymNum.lift(o)
        if b is None:
            if isinstance(o, SymLog):
                return SymNum.const(Fraction(float(self) * float(o)))
            return self._arr(o, lambda x, y: x * y)
        v = b.value()
        if v is None:
            return SymLog(self.r * b, tuple((c, _upow(a, b)) for c, a in self.t))
        return self._scale(v)
    __rmul__ = __mul__

    def __truediv__(self, o):
        b = SymNum.lift(o)
        if b is None:
            if isinstance(o, SymLog):
                return float(self) / float(o)
            return self._arr(o, lambda x, y: x / y)
        v = b.value()
        if v is None:
            return self * (SymNum.const(Fraction(1)) / b)
        return self._scale(1 / v)

    def product(self, square=False):
        """prod arg_i^{c_i} (or its square), as a SymNum."""
        acc = {}
        order = []
        for c, a in self.t:
            k = (a.n.get_id(), None if a.d is None else a.d.get_id())
            if k not in acc:
                order.append(k)
                acc[k] = [Fraction(0), a]
            acc[k][0] += c
        out = SymNum.const(Fraction(1))
        half = any((c.denominator != 1) for c, _ in acc.values())
        for k in order:
            c, a = acc[k]
            if c == 0:
                continue
            e = c * 2 if square else c
            out = out * sympow(a, e)
        return out

    def _needs_square(self):
        acc = {}
        for c, a in self.t:
            k = (a.n.get_id(), None if a.d is None else a.d.get_id())
            acc[k] = acc.get(k, Fraction(0)) + c
        return any(c.denominator != 1 for c in acc.values())

    def _cmp0(self):
        """A SymNum Q > 0 with sign(self) = sign(Q - 1)."""
        q = self.product(square=self._needs_square())
        rvv = self.r.value()
        if rvv == 0:
            return q
        f = self.r * 2 if self._needs_square() else self.r
        return q * symexp(f)

    def __lt__(self, o): return self._c(o, '<')
    def __le__(self, o): return self._c(o, '<=')
    def __gt__(self, o): return self._c(o, '>')
    def __ge__(self, o): return self._c(o, '>=')

    def _c(self, o, op):
        if _nonfinite(o):
            o = to_py(o)
            if math.isnan(o):
                return False
            return (o > 0) if op[0] == '<' else (o < 0)
        b = SymLog.lift(o)
        if b is None:
            if _is_array(o):
                from . import nparray
                f = {'<': lambda x, y: x < y, '<=': lambda x, y: x <= y, '>': lambda x, y: x > y, '>=': lambda x, y: x >= y}[op]
                return nparray.elementwise(f, self, o, boolean=True)
            return NotImplemented
        d = self - b
        if not d.t:
            l = d.r
            r = 0
        else:
            l = d._cmp0()
            r = 1
        return l < r if op == '<' else l <= r if op == '<=' else l > r if op == '>' else l >= r

    def __eq__(self, o):
        if _nonfinite(o):
            return False
        b = SymLog.lift(o)
        if b is None:
            return False
        d = self - b
        if not d.t:
            return d.r == 0
        q = d.product(square=d._needs_square())
        return (d.r == 0) & (q == 1)

    def __ne__(self, o):
        e = self.__eq__(o)
        return ~e if isinstance(e, SymBool) else not e

    def __hash__(self):
        return 7

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        def f(a):
            v = a.value()
            return float(cur().realise(a, 'float(log)') if v is None else v)
        return f(self.r) + sum(float(c) * math.log(f(a)) for c, a in self.t)

    def __int__(self): return int(float(self))
    def __abs__(self): return self if bool(self >= 0) else -self
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    def __reduce__(self): return (_unpickle, (_keep(self),))
    def __repr__(self): return 'SymLog(%r,%r)' % (self.r, self.t)
    def __format__(self, s): return repr(self)
    def log(self): return symlog(self)
    def exp(self): return symexp(self)
    def sqrt(self): return symsqrt(self)
    def item(self): return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import nparray
        return nparray.sym_ufunc(ufunc, method, inputs, kw)


def symlog(x):
    if isinstance(x, SymLog):
        if not x.t:
            return symlog(x.r)
        x = SymNum.const(Fraction(float(x)))
    if isinstance(x, SymBool):
        x = x.num()
    if not isinstance(x, SymNum):
        x = to_py(x)
        if isinstance(x, float) and (math.isnan(x) or x == -math.inf):
            return math.nan
        if x == math.inf:
            return math.inf
        if x == 0:
            return -math.inf
        if x < 0:
            return math.nan
        if CUR is None:
            return math.log(x)
        x = SymNum.const(snap(x))
    v = x.value()
    if v is not None:
        if v == 0:
            return -math.inf
        if v < 0:
            return math.nan
        if v == 1:
            return SymLog(SymNum.const(Fraction(0)), ())
    elif x.sgn != '+':
        if not bool(x > 0):
            return -math.inf if bool(x == 0) else math.nan
    if x.sqrt_of is not None:
        return symlog(x.sqrt_of)._scale(Fraction(1, 2))
    if x.tag is not None and x.tag[0] == 'exp':
        return x.tag[1]
    if v is not None or x.d is None:
        return SymLog(SymNum.const(Fraction(0)), ((Fraction(1), SymNum(x.n, x.d, '+')),))
    return SymLog(SymNum.const(Fraction(0)),
                  ((Fraction(1), SymNum(x.n, None, '+')), (Fraction(-1), SymNum(x.d, None, '+'))))


def symexp(x):
    if isinstance(x, SymLog):
        p = x.product()
        rz = x.r.value()
        if rz == 0:
            return p
        return p * symexp(x.r)
    if isinstance(x, SymBool):
        x = x.num()
    if not isinstance(x, SymNum):
        x = to_py(x)
        if isinstance(x, float) and math.isinf(x):
            return math.inf if x > 0 else 0.0
        if isinstance(x, float) and math.isnan(x):
            return x
        if x == 0:
            return 1.0
        if CUR is None:
            return math.exp(x)
        x = SymNum.const(snap(x))
    v = x.value()
    if v == 0:
        return SymNum.const(Fraction(1))
    p = cur()
    sx = z3.simplify(x.term())
    key = ('exp', sx.get_id())
    if key not in p.memo:
        for k, (ox, val) in p.memo.setdefault('exps', {}).items():
            t = z3.simplify(ox + sx, som=True)
            if z3.is_rational_value(t) and t.numerator_as_long() == 0:
                p.memo[key] = 1 / val
                return p.memo[key]
            t = z3.simplify(ox - sx, som=True)
            if z3.is_rational_value(t) and t.numerator_as_long() == 0:
                p.memo[key] = val
                return val
        e = z3.Real(p.fresh('exp'))
        p.keep.append(sx)
        one, zero = rv(Fraction(1)), rv(Fraction(0))
        p.add(z3.And(e > 0, (e > one) == (sx > zero), (e == one) == (sx == zero)))
        p.memo[key] = SymNum(e, None, '+', tag=('exp', SymLog(x, ())))
        p.memo['exps'][key] = (sx, p.memo[key])
    return p.memo[key]


def _frac_sqrt(v):
    n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
    if n * n == v.numerator and d * d == v.denominator:
        return Fraction(n, d)
    return None


def symsqrt(x):
    if isinstance(x, SymLog):
        x = x.r if not x.t else SymNum.const(Fraction(float(x)))
    if isinstance(x, SymBool):
        x = x.num()
    if not isinstance(x, SymNum):
        x = to_py(x)
        if isinstance(x, float) and (math.isnan(x) or math.isinf(x)):
            return math.nan if not x > 0 else x
        if x < 0:
            return math.nan
        if CUR is None:
            return math.sqrt(x)
        x = SymNum.const(snap(x))
    v = x.value()
    if v is not None:
        if v < 0:
            return math.nan
        r = _frac_sqrt(v)
        if r is not None:
            return SymNum.const(r)
    elif x.sgn not in ('+', '0+'):
        if bool(x < 0):
            return math.nan
    if x.tag is not None and x.tag[0] == 'square':
        return abs(x.tag[1])
    p = cur()
    key = ('sqrt', x.n.get_id(), None if x.d is None else x.d.get_id())
    if key not in p.memo:
        for ox, val in p.memo.setdefault('sqrts', []):
            l, r = _cross(ox, x)
            if poly.is_zero(z3.simplify(l - r), p.memo['sqrts'], limit=2000):
                p.memo[key] = val
                p.keep += [x.n] + ([] if x.d is None else [x.d])
                return val
        for ox, val in p.memo['sqrts']:
            if x.sgn == '+' and ox.sgn == '+':
                # the product of the two being a square, one root is a rational multiple of the other
                ds = [t for t in (x.d, ox.d) if t is not None]
                root = poly.root_of_product([x.n, ox.n] + ds)
                if root is not None:
                    p.keep += [x.n] + ([] if x.d is None else [x.d])
                    r = abs(SymNum(root))
                    for t in ds:
                        r = r / SymNum(t, None, '+')
                    r = r / val
                    p.memo[key] = SymNum(r.n, r.d, '+')
                    return p.memo[key]
        s = z3.Real(p.fresh('sqrt'))
        p.keep += [x.n] + ([] if x.d is None else [x.d])
        p.add(z3.And(s >= 0, (s * s == x.n) if x.d is None else (s * s * x.d == x.n)))
        if x.sgn == '+':
            p.add(s > 0)
        p.nonlinear = True
        p.memo[key] = SymNum(s, None, '+' if x.sgn == '+' else '0+', sqrt_of=x)
        p.memo['sqrts'].append((x, p.memo[key]))
    return p.memo[key]


def sympow(b, e):
    if isinstance(e, SymNum) and e.value() is not None:
        e = e.value()
    if isinstance(b, SymBool):
        b = b.num()
    if isinstance(b, SymLog):
        b = b.r if not b.t else SymNum.const(Fraction(float(b)))
    if not isinstance(e, SymNum):
        e = to_py(e)
        if isinstance(e, bool):
            e = int(e)
        if isinstance(e, float) and (math.isinf(e) or math.isnan(e)):
            return float(b) ** e
        ef = snap(e)
        if not isinstance(b, SymNum):
            b = SymNum.lift(b)
            if b is None:
                return math.nan
        if ef.denominator == 1:
            k = int(ef)
            if k == 0:
                return SymNum.const(Fraction(1))
            out = b
            for _ in range(abs(k) - 1):
                out = out * b
            return out if k > 0 else SymNum.const(Fraction(1)) / out
        if ef.denominator == 2:
            return sympow(symsqrt(b), ef * 2)
        return _upow(b, SymNum.const(ef))
    b = SymNum.lift(b)
    return _upow(b, e)


def _upow(b, e):
    """Uninterpreted positive power of a positive base."""
    p = cur()
    bv = b.value()
    if bv == 1:
        return SymNum.const(Fraction(1))
    if b.sgn != '+' and not bool(b > 0):
        v = p.realise(e, 'pow of non-positive base')
        return sympow(b, v) if v.denominator == 1 else math.nan
    bt, et = z3.simplify(b.term()), z3.simplify(e.term())
    key = ('pow', bt.get_id(), et.get_id())
    if key in p.memo:
        return p.memo[key]
    nt = z3.simplify(-et)
    nkey = ('pow', bt.get_id(), nt.get_id())
    if nkey in p.memo:
        return SymNum.const(Fraction(1)) / p.memo[nkey]
    v = z3.Real(p.fresh('pow'))
    p.keep += [bt, et, nt]
    one, zero = rv(Fraction(1)), rv(Fraction(0))
    p.add(v > 0)
    p.add(z3.Implies(z3.Or(bt == one, et == zero), v == one))
    p.add(z3.Implies(z3.And(bt > one, et > zero), v > one))
    p.add(z3.Implies(z3.And(bt > one, et < zero), v < one))
    p.memo[key] = SymNum(v, None, '+')
    return p.memo[key]

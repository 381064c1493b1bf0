"""The interface between a harness and the engine.

A harness is a function h(ctx, cfg).  SymCtx runs it over symbolic inputs, ConcreteCtx over
the concrete inputs of a counterexample (or of a sampled path) against the unmodified code
and the real numpy.
"""
import math
import zlib
from fractions import Fraction

import numpy as real_np

from . import rng as rngmod, state
from .rng import Script, ScriptCut

TOL = 1e-6


class CheckFailed(Exception):
    def __init__(self, label, detail=''):
        super().__init__(label, detail)
        self.label, self.detail = label, detail


class Skip(Exception):
    """The concrete inputs do not satisfy the harness's assumptions."""


class BaseCtx:
    sym = None
    rng_budget = 60
    auto, free = None, ()

    def settle(self, cfg):
        """In a configuration with 'auto', discrete choices (other than those named in 'free') are not
        explored but made one way, given by the seed; real values stay arbitrary."""
        self.auto, self.free = cfg.get('auto'), tuple(cfg.get('free', ()))

    def choose(self, name, n):
        if self.auto is None or name.startswith(self.free):
            return self._choose(name, n)
        if n <= 0:
            raise ValueError('choice among nothing')
        return zlib.crc32(('%s/%s' % (self.auto, name)).encode()) // 7 % n

    def begin(self):
        state.restore()
        self.covers = set()
        self.patches = []
        self.tracked = []
        self.rng.reset(self)

    def end(self):
        for obj, name, old, had in reversed(self.patches):
            if had:
                setattr(obj, name, old)
            else:
                delattr(obj, name)
        self.patches = []

    def patch(self, obj, name, value):
        had = name in getattr(obj, '__dict__', {})
        self.patches.append((obj, name, obj.__dict__[name] if had else None, had))
        setattr(obj, name, value)

    def cover(self, label):
        self.covers.add(label)

    def reals(self, name, n, **kw):
        return [self.real('%s%d' % (name, i), **kw) for i in range(n)]

    def matrix(self, name, n, p, **kw):
        return [[self.real('%s%d_%d' % (name, i, j), **kw) for j in range(p)] for i in range(n)]

    def raises(self, exc, fn, label):
        """fn must raise exc."""
        try:
            fn()
        except exc:
            return True
        except Exception as e:
            self.fail(label, 'raised %s instead of %s' % (type(e).__name__, exc.__name__))
        self.fail(label, 'no exception')

    def must_end(self, fn, label, draws=20):
        """fn must return within a number of random draws."""
        self.rng.__dict__['budget'] = draws
        try:
            return fn()
        except self.cut_types:
            pass
        except RecursionError:
            pass
        self.fail(label, 'still going after %d random draws' % draws)

    def eq_all(self, xs, ys, label, detail=''):
        xs, ys = self.flat(xs), self.flat(ys)
        self.check(len(xs) == len(ys), label, 'lengths %d and %d %s' % (len(xs), len(ys), detail))
        for i, (x, y) in enumerate(zip(xs, ys)):
            self.eq(x, y, label, '%s[%d]' % (detail, i))

    @staticmethod
    def flat(x):
        if isinstance(x, real_np.ndarray):
            return list(x.view(real_np.ndarray).ravel())
        if hasattr(x, 'values') and not isinstance(x, dict) and not callable(x.values):
            return BaseCtx.flat(x.values)
        return list(x)

    def outcomes(self, fn, depth=24, limit=4000):
        """Distribution of fn() over its discrete random draws: [(outcome, probability)], cut mass."""
        work, out, cut, runs = [[]], [], 0, 0
        while work:
            pre = work.pop()
            sc = Script(pre, depth)
            self.rng.__dict__['script'] = sc
            b = self.rng.budget
            try:
                r = fn()
                out.append((r, sc.weight))
            except ScriptCut:
                cut = cut + sc.weight
            finally:
                self.rng.__dict__['script'] = None
                self.rng.__dict__['budget'] = b
            work += sc.alts
            runs += 1
            if runs > limit:
                self.cut('outcome enumeration')
        return out, cut


class ConcreteCtx(BaseCtx):
    sym = False

    def __init__(self, inputs, rng):
        self.inputs, self.rng = inputs, rng
        self.used = set()
        self.n_checks = 0

    def _val(self, name, default):
        e = self.inputs.get(name)
        if e is None:
            return default
        self.used.add(name)
        return Fraction(e['v']) if e['k'] != 'choice' else int(e['v'])

    def real(self, name, lo=None, hi=None, positive=False, nonneg=False, open=False):
        d = 0.5 if (positive or open) else 0.0 if lo is None else float(lo)
        if name.startswith('rng.') and name not in self.inputs:      # draws the path did not look at: pairwise different
            self.fresh = getattr(self, 'fresh', 0) + 1
            d = self.fresh * 0.6180339887498949 % 1.0
        v = float(self._val(name, Fraction(d)))
        return v

    def integer(self, name, lo=None, hi=None):
        return int(self._val(name, Fraction(lo if lo is not None else 0)))

    def lazy(self, make, i):
        return make(i)

    def fixed(self, v):
        return float(v)

    def activity(self):
        return None

    def _choose(self, name, n):
        v = self._val(name, 0)
        return int(v) if v < n else 0

    def shaped(self, vals, shape):
        vals = [rngmod.resolve(v) for v in vals] if len(vals) <= rngmod.LAZY else vals
        if vals and isinstance(vals[0], (int, float, real_np.generic)):
            return real_np.array(vals).reshape(shape)
        a = real_np.empty(len(vals), dtype=object)
        for i, v in enumerate(vals):
            a[i] = v
        return a.reshape(shape)

    def array(self, rows):
        return real_np.array(rows, dtype=float)

    def int_array(self, rows):
        return real_np.array(rows, dtype=int)

    def obj_array(self, items):
        a = real_np.empty(len(items), dtype=object)
        for i, v in enumerate(items):
            a[i] = v
        return a

    def dataframe(self, rows, columns=None):
        import pandas as pd
        return pd.DataFrame(real_np.array(rows, dtype=float), columns=columns)

    def is_num(self, v):
        return isinstance(v, (int, float, real_np.generic))

    def assume(self, c):
        if not bool(c):
            raise Skip()

    cut_types = (Skip,)

    def cut(self, why):
        raise Skip(why)

    def fail(self, label, detail=''):
        raise CheckFailed(label, detail)

    def check(self, c, label, detail=''):
        self.n_checks += 1
        if not bool(c):
            raise CheckFailed(label, detail)

    def truth(self, c):
        return bool(c)

    def eq(self, a, b, label, detail=''):
        self.n_checks += 1
        try:
            if isinstance(a, real_np.ndarray) and a.size == 1:
                a = a.item()
            a, b = float(a), float(b)
        except TypeError:
            raise CheckFailed(label, '%s: %r vs %r' % (detail, a, b))
        if math.isnan(a) or math.isnan(b):
            if not (math.isnan(a) and math.isnan(b)):
                raise CheckFailed(label, '%s: got %r, expected %r' % (detail, a, b))
            return
        if a == b:
            return
        if not abs(a - b) <= TOL * max(1.0, abs(a), abs(b)):
            raise CheckFailed(label, '%s: got %r, expected %r' % (detail, a, b))

    log = staticmethod(lambda x: math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan))
    exp = staticmethod(math.exp)
    sqrt = staticmethod(math.sqrt)
    pow = staticmethod(lambda b, e: float(b) ** e)


# ---------------------------------------------------------------------------- symbolic
def make_symctx():
    """Import of the symbolic side is kept out of the replay process."""
    import z3
    from . import core, nparray, poly
    from .core import SymBool, SymLog, SymNum, Found, Inconclusive, Infeasible, PathCut, rv

    class LazyNum(SymNum):
        __slots__ = ('_mk', '_v')

        def __init__(self, mk):
            self._mk, self._v = mk, None
            SymNum.__init__(self, None, None)

        def _get(self):
            if self._v is None:
                self._v = SymNum.lift(self._mk())
            return self._v
        n = property(lambda s: s._get().n, lambda s, v: None)
        d = property(lambda s: s._get().d, lambda s, v: None)
        sgn = property(lambda s: s._get().sgn, lambda s, v: None)
        isint = property(lambda s: s._get().isint, lambda s, v: None)
        sqrt_of = property(lambda s: s._get().sqrt_of, lambda s, v: None)
        tag = property(lambda s: s._get().tag, lambda s, v: None)

    class SymCtx(BaseCtx):
        sym = True

        def __init__(self, path, rng):
            self.path, self.rng = path, rng

        def begin(self):
            core.CUR = self.path
            BaseCtx.begin(self)

        def end(self):
            BaseCtx.end(self)
            core.CUR = None

        # -- inputs
        def real(self, name, lo=None, hi=None, positive=False, nonneg=False, open=False):
            p = self.path
            if name in p.inputs:
                return p.memo[('in', name)]
            t = z3.Real(name)
            p.inputs[name] = ('real', t)
            sgn = None
            if positive:
                p.add(t > 0)
                sgn = '+'
            elif nonneg:
                p.add(t >= 0)
                sgn = '0+'
            if lo is not None:
                p.add(t > rv(Fraction(lo)) if open else t >= rv(Fraction(lo)))
                if lo > 0 or lo == 0 and open:
                    sgn = '+'
                elif lo == 0:
                    sgn = '0+'
            if hi is not None:
                p.add(t < rv(Fraction(hi)) if open else t <= rv(Fraction(hi)))
            v = SymNum(t, None, sgn)
            p.memo[('in', name)] = v
            return v

        def integer(self, name, lo=None, hi=None):
            p = self.path
            if name in p.inputs:
                return p.memo[('in', name)]
            t = z3.ToReal(z3.Int(name))
            p.inputs[name] = ('int', t)
            if lo is not None:
                p.add(t >= lo)
            if hi is not None:
                p.add(t <= hi)
            sgn = '+' if lo is not None and lo > 0 else '0+' if lo == 0 else None
            v = SymNum(t, None, sgn, True)
            p.memo[('in', name)] = v
            return v

        def lazy(self, make, i):
            return LazyNum(lambda: make(i))

        def fixed(self, v):
            return SymNum.const(v)

        def activity(self):
            s = self.path.stats
            return s.queries + s.forced + s.checks

        def whole_batch(self):
            raise core.EagerBatch()

        def _choose(self, name, n):
            v = self.path.choose(n)
            self.path.inputs[name] = ('choice', v)
            return v

        def shaped(self, vals, shape):
            if len(vals) <= rngmod.LAZY:
                vals = [rngmod.resolve(v) for v in vals]
            a = real_np.empty(len(vals), dtype=object)
            for i, v in enumerate(vals):
                a[i] = v
            if vals and all(type(v) is int for v in vals):
                a = real_np.array(vals, dtype=int)
            a = a.reshape(shape).view(nparray.SymArray)
            if vals and not nparray.is_sym(vals[0]) and a.dtype == object:
                a.symkind = 'O'
            return a

        def array(self, rows):
            a = real_np.array(rows, dtype=object).view(nparray.SymArray)
            return nparray.astype(a, float)

        def int_array(self, rows):
            a = real_np.array(rows, dtype=object)
            if nparray.has_sym(a):
                a = a.view(nparray.SymArray)
                a.symkind = 'i'
                return a
            return a.astype(int).view(nparray.SymArray)

        def obj_array(self, items):
            a = real_np.empty(len(items), dtype=object)
            for i, v in enumerate(items):
                a[i] = v
            a = a.view(nparray.SymArray)
            a.symkind = 'O'
            return a

        def dataframe(self, rows, columns=None):
            import pandas as pd
            a = real_np.array(rows, dtype=object)
            return pd.DataFrame(a if nparray.has_sym(a) else a.astype(float), columns=columns)

        def is_num(self, v):
            return isinstance(v, (int, float, SymNum, real_np.generic))

        # -- control
        def assume(self, c):
            p = self.path
            if isinstance(c, SymBool):
                p.add(c.c)
                if p.model is None:
                    p.ensure_model()
            elif not c:
                raise Infeasible()

        cut_types = (PathCut,)

        def cut(self, why):
            raise PathCut(why)

        def truth(self, c):
            return bool(c)

        def fail(self, label, detail=''):
            self._found(label, detail, [])

        def check(self, c, label, detail=''):
            p = self.path
            p.stats.checks += 1
            p.checks_here += 1
            if isinstance(c, SymBool):
                t = z3.simplify(c.c)
                if z3.is_true(t):
                    p.stats.trivial_checks += 1
                    return
                self._refute(z3.Not(t), [], label, detail)
            else:
                p.stats.trivial_checks += 1
                if not bool(c):
                    self._found(label, detail, [])

        def eq(self, a, b, label, detail=''):
            p = self.path
            p.stats.checks += 1
            p.checks_here += 1
            if isinstance(a, real_np.ndarray) and a.size == 1:
                a = a.item()
            if isinstance(b, real_np.ndarray) and b.size == 1:
                b = b.item()
            if isinstance(a, SymBool):
                a = a.num()
            if isinstance(b, SymBool):
                b = b.num()
            if isinstance(a, SymLog) or isinstance(b, SymLog):
                la, lb = SymLog.lift(a), SymLog.lift(b)
                if la is None or lb is None:
                    return self._found(label, '%s: %r vs %r' % (detail, a, b), [])
                d = la - lb
                if not d.t:
                    return self._num_eq(d.r, SymNum.const(Fraction(0)), label, detail)
                q = d.product(square=d._needs_square())
                if d.r.value() == 0:
                    return self._num_eq(q, SymNum.const(Fraction(1)), label, detail)
                ok_r = self._identity(d.r, SymNum.const(Fraction(0)))
                if ok_r:
                    return self._num_eq(q, SymNum.const(Fraction(1)), label, detail)
                if self._identity(q, SymNum.const(Fraction(1))):
                    return self._num_eq(d.r, SymNum.const(Fraction(0)), label, detail)
                # a candidate: the rational and the logarithmic part differ somewhere; they could
                # only cancel for transcendental coincidences, the replay decides numerically
                t1 = z3.Not((d.r == 0).c)
                t2 = z3.Not((q == 1).c)
                return self._refute(z3.Or(t1, t2), [z3.And(t1, (q == 1).c), z3.And(t2, (d.r == 0).c)], label, detail)
            na, nb = SymNum.lift(a), SymNum.lift(b)
            if na is None or nb is None:
                if core._nonfinite(a) and core._nonfinite(b):
                    fa, fb = core.to_py(a), core.to_py(b)
                    if fa == fb or (math.isnan(fa) and math.isnan(fb)):
                        p.stats.trivial_checks += 1
                        return
                return self._found(label, '%s: got %r, expected %r' % (detail, a, b), [])
            return self._num_eq(na, nb, label, detail)

        def _identity(self, a, b):
            l, r = core._cross(a, b)
            t = z3.simplify(l - r, som=True, hoist_mul=False)
            if z3.is_rational_value(t):
                return t.numerator_as_long() == 0
            return poly.is_zero(z3.simplify(l - r), self.path.memo.get('sqrts', ()))

        def _num_eq(self, a, b, label, detail):
            p = self.path
            if self._identity(a, b):
                p.stats.trivial_checks += 1
                p.stats.queries += 1
                return
            l, r = core._cross(a, b)
            d = a - b
            e = SymNum.lift(Fraction(1, 100))
            big = [((d > e) | (d < -e)).c]
            return self._refute(z3.Not(l == r), big, label, detail)

        def _nice(self, k):
            out = []
            for name, (kind, t) in self.path.inputs.items():
                if kind != 'choice':
                    out.append(z3.And(t <= k, t >= -k))
            return out

        def _real_exps(self):
            """Bounds the uninterpreted exponentials must satisfy (used to look for good counterexamples)."""
            out = []
            for x, e in self.path.memo.get('exps', {}).values():
                t = e.term()
                out += [t >= 1 + x, z3.Implies(x < 1, t * (1 - x) <= 1)]
            return out

        def _refute(self, bad, prefer, label, detail):
            """bad must be unsatisfiable under the path condition."""
            p = self.path
            r, m = p.feasible(bad)
            if r == z3.unsat:
                return
            if r == z3.unknown:
                r, m = p.oneshot([bad], p.opts.get('hard_timeout_ms', 60000))
            if r == z3.unsat:
                return
            if r == z3.unknown:
                m = self._partial(bad)
                if m is None:
                    raise Inconclusive('undecided: %s %s' % (label, detail))
            self._found(label, detail, prefer, bad, m)

        def _partial(self, bad):
            """Fix some inputs to small values to make a hard query decidable (sat answers only)."""
            p = self.path
            names = [t for (k, t) in p.inputs.values() if k != 'choice']
            for seed in range(6):
                s = z3.Solver()
                s.set('timeout', 5000)
                s.add(*p.constraints)
                s.add(bad)
                base = [Fraction(1), Fraction(2), Fraction(1, 2), Fraction(3), Fraction(1, 4), Fraction(3, 2)]
                for i, t in enumerate(names):
                    if (i + seed) % 3 != 0:
                        s.push()
                        s.add(t == rv(base[(i * 7 + seed) % len(base)]))
                        if s.check() == z3.unsat:
                            s.pop()
                if s.check() == z3.sat:
                    return s.model()
            return None

        def _found(self, label, detail, prefer, bad=None, m=None):
            p = self.path
            cands = []
            extras = []
            exps = self._real_exps()
            for pr in list(prefer) + [None]:
                for k in (4, 100, None):
                    ex = ([bad] if bad is not None else []) + ([pr] if pr is not None else []) + (self._nice(k) if k else [])
                    if exps:
                        extras.append(ex + exps)
                    extras.append(ex)
            for ex in extras:
                if len(cands) >= 3:
                    break
                r = p._check(*ex, timeout=3000) if ex else p._check(timeout=3000)
                if r == z3.sat:
                    cands.append(p.concrete_inputs(p.last_model))
            if not cands and m is not None:
                cands.append(p.concrete_inputs(m))
            if not cands:
                r, m = p.oneshot([bad] if bad is not None else [], 20000)
                if r == z3.unsat:
                    raise Infeasible()
                if r != z3.sat:
                    raise Inconclusive('no model for %s' % label)
                cands.append(p.concrete_inputs(m))
            raise Found(label, detail, cands)

        log = staticmethod(core.symlog)
        exp = staticmethod(core.symexp)
        sqrt = staticmethod(core.symsqrt)
        pow = staticmethod(core.sympow)

    return SymCtx

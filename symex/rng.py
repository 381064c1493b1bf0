"""Nondeterministic stand-in for numpy.random (and `random`), used both symbolically and in
concrete replay.  Every draw is an input of the harness, named by call order:
continuous draws are arbitrary reals within the distribution's support, discrete draws are
n-way choices.  Large batches are lazy: an element becomes an input only when it is used.
"""
import types
from fractions import Fraction

import numpy as real_np

LAZY = 6        # batches longer than this are lazy
RUN = 5         # this many elements looked at one after the other, with nothing else happening: the batch is consumed whole
# Code that looks at every element of a large batch as soon as it has it (a list comprehension over the
# batch) would turn each element into an input.  When that is seen, the whole check starts again in eager
# mode: of a batch longer than BIG only the ends stay arbitrary, the middle is fixed and runs through
# every value.
BIG = 32


def _end(i, n):
    return i < 2 or i >= n - 1


class Resolve:
    """A lazily made choice among arbitrary objects (element of a large np.random.choice batch)."""
    __slots__ = ('_f', '_v', '_done')

    def __init__(self, f):
        self._f, self._done, self._v = f, False, None

    def _get(self):
        if not self._done:
            self._v = self._f()
            self._done = True
        return self._v

    def __call__(self, *a, **k): return self._get()(*a, **k)
    def __getattr__(self, n): return getattr(self._get(), n)
    def __eq__(self, o): return self._get() == (o._get() if isinstance(o, Resolve) else o)
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash(self._get())
    def __bool__(self): return bool(self._get())
    def __repr__(self): return repr(self._get())
    def __str__(self): return str(self._get())
    def __deepcopy__(self, memo): return self
    def __index__(self): return self._get().__index__()
    def __float__(self): return float(self._get())
    def __int__(self): return int(self._get())


def resolve(x):
    return x._get() if isinstance(x, Resolve) else x


class Rng(types.ModuleType):
    """Has no distributional meaning by itself; ctx (per path) supplies values."""

    def __init__(self, name='numpy.random'):
        super().__init__(name)
        self.__dict__['ctx'] = None
        self.__dict__['calls'] = {}
        self.__dict__['log'] = []
        self.__dict__['raw'] = []
        self.__dict__['script'] = None
        self.__dict__['budget'] = 400
        self.__dict__['sizes'] = None

    def reset(self, ctx):
        d = self.__dict__
        d['eager'], d['last'] = bool(getattr(ctx, 'eager', False)), None
        d['ctx'], d['calls'], d['log'], d['raw'], d['script'], d['budget'] = ctx, {}, [], [], None, ctx.rng_budget

    # -- helpers
    def _name(self, kind):
        k = self.calls.get(kind, 0)
        self.calls[kind] = k + 1
        self._spend()
        return 'rng.%s.%d' % (kind, k)

    def _spend(self):
        self.__dict__['budget'] -= 1
        if self.budget < 0:
            self.ctx.cut('random draw budget')

    def _looked(self, base, i):
        """Element i of a lazy batch is looked at."""
        d = self.__dict__
        act = self.ctx.activity()
        l = d['last']
        if l is None or act is None or l[0] != base or abs(l[1] - i) != 1 or l[2] != act:
            d['last'] = (base, i, act, 1)
            return
        d['last'] = (base, i, act, l[3] + 1)
        if l[3] + 1 >= RUN and not self.eager:
            self.ctx.whole_batch()

    @staticmethod
    def _count(size):
        if size is None:
            return None, 1
        shape = (int(size),) if not isinstance(size, (tuple, list)) else tuple(int(s) for s in size)
        n = 1
        for s in shape:
            n *= s
        return shape, n

    def _continuous(self, kind, size, map_, args, **bounds):
        ctx = self.ctx
        if ctx is None:
            raise RuntimeError('random draw outside a run')
        base = self._name(kind)
        shape, n = self._count(size)
        self.log.append((kind, n, args, base))
        if self.script is not None:
            ctx.cut('continuous draw inside an enumeration of discrete outcomes')

        def value(name):
            return ctx.real(name, **bounds)

        def rec(v):
            self.raw.append((kind, v, args))
            return map_(v)
        if shape is None:
            return rec(value(base))
        if n <= LAZY:
            vals = [rec(value('%s.%d' % (base, i))) for i in range(n)]
        else:
            def late(i):
                if self.eager and n > BIG and not _end(i, n):
                    return rec(_middle(ctx, i, bounds))
                self._looked(base, i)
                return rec(value('%s.%d' % (base, i)))
            vals = [ctx.lazy(late, i) for i in range(n)]
        return ctx.shaped(vals, shape)

    # -- continuous
    def normal(self, loc=0.0, scale=1.0, size=None):
        if _is(loc, 0) and _is(scale, 1):
            f = lambda z: z
        else:
            f = lambda z: loc + scale * z
        return self._continuous('normal', size, f, (loc, scale))

    def standard_normal(self, size=None):
        return self.normal(0.0, 1.0, size)

    def randn(self, *s):
        return self.normal(0.0, 1.0, s if s else None)

    def gauss(self, mu=0.0, sigma=1.0):
        return self.normal(mu, sigma)

    def uniform(self, low=0.0, high=1.0, size=None):
        if _is(low, 0) and _is(high, 1):
            f = lambda u: u
        else:
            f = lambda u: low + (high - low) * u
        # [0, 1): 0 has probability zero and is excluded
        return self._continuous('uniform', size, f, (low, high), lo=0, hi=1, open=True)

    def random(self, size=None):
        return self.uniform(0.0, 1.0, size)

    def random_sample(self, size=None):
        return self.uniform(0.0, 1.0, size)

    def rand(self, *s):
        return self.uniform(0.0, 1.0, s if s else None)

    def gamma(self, shape, scale=1.0, size=None):
        # scale times a standard gamma draw
        return self._continuous('gamma', size, (lambda g: g) if _is(scale, 1) else (lambda g: scale * g), (shape, scale), positive=True)

    def standard_gamma(self, shape, size=None):
        return self.gamma(shape, 1.0, size)

    def exponential(self, scale=1.0, size=None):
        return self._continuous('exponential', size, lambda e: e * scale, (scale,), positive=True)

    def chisquare(self, df, size=None):
        return self._continuous('chisquare', size, lambda e: e, (df,), positive=True)

    # -- discrete
    def _pick(self, name, n, weights=None, groups=None):
        """Index among n, recording the probability of the outcome."""
        if self.script is not None:
            return self.script.pick(n, weights, groups)
        return self.ctx.choose(name, n)

    def choice(self, a, size=None, replace=True, p=None, **kw):
        ctx = self.ctx
        values = list(range(int(a))) if not hasattr(a, '__len__') else list(a)
        if len(values) == 0:
            raise ValueError("'a' cannot be empty unless no samples are taken")
        if p is not None:
            p = list(p)
            if len(p) != len(values):
                raise ValueError("'a' and 'p' must have same size")
            if self.script is None or True:
                ok = [x for x in p]
                tot = sum(ok[1:], ok[0])
                if not isinstance(tot, (int, float)):
                    pass
                elif abs(tot - 1) > 1e-6:
                    raise ValueError("probabilities do not sum to 1")
        base = self._name('choice')
        shape, n = self._count(size)
        self.log.append(('choice', n, (values, p), base))
        live = [i for i in range(len(values)) if p is None or not _is(p[i], 0)]
        lp = None if p is None else [p[i] for i in live]

        def one(nm, among):
            g = None
            if self.script is not None:
                g = _group(ctx, [values[i] for i in among])
            w = None if p is None else [p[i] for i in among]
            return among[self._pick(nm, len(among), w, g)]
        if shape is None:
            return values[one(base, live)]
        if replace or n <= 1:
            if n <= LAZY:
                got = [values[one('%s.%d' % (base, i), live)] for i in range(n)]
            else:
                def late(i):
                    if self.eager and n > BIG and not _end(i, n):
                        return values[live[i % len(live)]]
                    self._looked(base, i)
                    if not self.eager or n <= BIG:
                        self._spend()
                    return values[one('%s.%d' % (base, i), live)]
                got = [Resolve(lambda i=i: late(i)) for i in range(n)]
        else:
            if n > len(live):
                raise ValueError("Cannot take a larger sample than population when replace is False")
            rest, got = list(live), []
            for i in range(n):
                j = one('%s.%d' % (base, i), rest)
                rest.remove(j)
                got.append(values[j])
        return ctx.shaped(got, shape)

    def choices(self, population, weights=None, k=1):
        tot = None if weights is None else sum(weights)
        return list(self.choice(list(population), size=k, p=None if weights is None else [w / tot for w in weights]))

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        return self.choice(list(range(int(low), int(high))), size=size)

    integers = randint

    def randrange(self, low, high=None):
        return self.randint(low, high)

    def permutation(self, x):
        ctx = self.ctx
        if not hasattr(x, '__len__'):
            x = ctx.int_array(list(range(int(x))))
        base = self._name('permutation')
        n = len(x)
        self.log.append(('permutation', n, (x,), base))
        rest, order = list(range(n)), []
        for i in range(n):
            order.append(rest.pop(self._pick('%s.%d' % (base, i), len(rest))))
        if isinstance(x, real_np.ndarray):
            return x[real_np.array(order, dtype=int)]
        if hasattr(x, 'iloc'):
            return x.values[real_np.array(order, dtype=int)]
        return ctx.array([x[i] for i in order])

    permuted = permutation

    def shuffle(self, x):
        if isinstance(x, real_np.ndarray):
            x[:] = self.permutation(x.copy())
        else:
            y = list(x)
            base = self._name('permutation')
            self.log.append(('permutation', len(y), (y,), base))
            rest, order = list(range(len(y))), []
            for i in range(len(y)):
                order.append(rest.pop(self._pick('%s.%d' % (base, i), len(rest))))
            x[:] = [y[i] for i in order]

    def sample(self, population, k=None):
        if k is None or not hasattr(population, '__len__'):
            return self.uniform(size=population)
        return list(self.choice(list(population), size=k, replace=False))

    # -- plumbing
    def seed(self, *a, **k):
        self.log.append(('seed', 0, a, ''))

    def default_rng(self, *a, **k):
        return self

    def RandomState(self, *a, **k):
        return self

    def Generator(self, *a, **k):
        return self

    def get_state(self):
        return None

    def set_state(self, s):
        pass

    def __deepcopy__(self, memo):
        return self


def _middle(ctx, i, bounds):
    v = Fraction((i * 37) % 101 + 1, 103)
    if not bounds.get('positive') and not bounds.get('open') and bounds.get('lo') is None:
        v = 2 * v - 1
    return ctx.fixed(v)


def _is(v, k):
    try:
        return isinstance(v, (int, float)) and v == k
    except Exception:
        return False


def _group(ctx, values):
    """Indices of values that are the same object or equal numbers, grouped."""
    reps, groups = [], []
    for i, v in enumerate(values):
        for k, r in enumerate(reps):
            if v is r or (ctx.is_num(v) and ctx.is_num(r) and bool(v == r)):
                groups[k].append(i)
                break
        else:
            reps.append(v)
            groups.append([i])
    return groups


class Script:
    """Drives one run of a randomised function through a given list of choices."""

    def __init__(self, prefix, depth):
        self.prefix, self.depth = list(prefix), depth
        self.taken, self.weight, self.alts = [], Fraction(1), []

    def pick(self, n, weights, groups):
        if groups is None:
            groups = [[i] for i in range(n)]
        k = len(self.taken)
        if k < len(self.prefix):
            g = self.prefix[k]
        else:
            if k >= self.depth:
                raise ScriptCut()
            g = 0
            for j in range(len(groups) - 1, 0, -1):
                self.alts.append(self.taken + [j])
        self.taken.append(g)
        if weights is None:
            self.weight = self.weight * Fraction(len(groups[g]), n)
        else:
            w = weights[groups[g][0]]
            for i in groups[g][1:]:
                w = w + weights[i]
            self.weight = self.weight * (Fraction(w).limit_denominator(10 ** 6) if isinstance(w, (int, float)) else w)
        return groups[g][0]


class ScriptCut(BaseException):
    pass

"""Estimator settings reach the chain."""
import copy
from symex.harness import Harness, autos
from .common import *
from .estimator import ESTIMATOR_MODULES

MODULES = ESTIMATOR_MODULES + ('bartpy.extensions.baseestimator', 'bartpy.extensions.ols', 'bartpy.runner')
ASSUMPTIONS = [REALS, NONAN, 'chains run in this process (n_jobs=1)', 'leaf and noise updates are left out of the sweeps (C11, C14 decide them)']

VARIANTS = [dict(n_trees=1, n_chains=1, n_samples=2, n_burn=0, thin=1.0, store_in_sample_predictions=True, store_acceptance_trace=False),
            dict(n_trees=2, n_chains=2, n_samples=1, n_burn=2, thin=1.0, store_in_sample_predictions=False, store_acceptance_trace=True),
            dict(n_trees=3, n_chains=1, n_samples=4, n_burn=1, thin=0.5, store_in_sample_predictions=True, store_acceptance_trace=True),
            dict(n_trees=1, n_chains=3, n_samples=3, n_burn=0, thin=0.34, store_in_sample_predictions=False, store_acceptance_trace=False),
            dict(n_trees=7, n_chains=4, n_samples=24, n_burn=31, thin=0.05, store_in_sample_predictions=True, store_acceptance_trace=True)]


class World:
    """Records what the pieces given to the estimator are asked to do."""

    def __init__(self, ctx):
        self.ctx, self.steps, self.inits, self.copies = ctx, [], [], 0

    def parts(self, tag):
        from bartpy.initializers.initializer import Initializer
        world = self

        class Sampler:
            def __init__(self, tag):
                self.tag = tag

            def step(self, model, tree):
                world.steps.append((self.tag, model, tree))
                return None

        class Init(Initializer):
            def __init__(self, tag):
                self.tag = tag

            def initialize_tree(self, tree):
                world.inits.append((self.tag, tree))
        return Sampler(tag), Init(tag)

    def install(self):
        from bartpy.samplers.leafnode import LeafNodeSampler
        from bartpy.samplers.sigma import SigmaSampler
        self.ctx.patch(LeafNodeSampler, 'step', lambda s, model, node: None)
        self.ctx.patch(SigmaSampler, 'step', lambda s, model, sigma: None)

    def clear(self):
        self.steps, self.inits = [], []


def settings(ctx, world, tag, variant):
    s, i = world.parts(tag)
    d = dict(VARIANTS[variant], tree_sampler=s, initializer=i, n_jobs=1)
    for k in ('alpha', 'beta', 'sigma_a', 'sigma_b'):
        d[k] = ctx.real(tag + k, positive=True) if k == 'alpha' else ctx.real(tag + k, nonneg=True)
    return d


def ran_as(ctx, world, d, X, y, est, tag, what):
    """The chains of the last fit ran with settings d (whose parts carry the tag) on X, y."""
    models = []
    for t, m, tree in world.steps:
        if not any(m is k for k in models):
            models.append(m)
    ctx.check(len(models) == d['n_chains'], 'number of chains; every chain its own model', '%s: %d models for %d chains' % (what, len(models), d['n_chains']))
    ctx.check(all(t == tag for t, m, tree in world.steps), 'tree sampler', what)
    sweeps = d['n_samples'] + d['n_burn']
    flat = [v for r in X for v in r]
    for m in models:
        mine = [tree for t, k, tree in world.steps if k is m]
        ctx.check(len(m.trees) == d['n_trees'], 'number of trees', what)
        ctx.check(len(mine) == sweeps * d['n_trees'], 'burn-in and samples', '%s: %d tree updates' % (what, len(mine)))
        ctx.check(all(sum(1 for k in mine if k is t) == sweeps for t in m.trees), 'burn-in and samples', what)
        ctx.eq(m.alpha, d['alpha'], 'alpha', what)
        ctx.eq(m.beta, d['beta'], 'beta', what)
        ctx.eq(m.sigma.alpha, d['sigma_a'], 'sigma prior shape', what)
        ctx.eq(m.sigma.beta, d['sigma_b'], 'sigma prior scale', what)
        ctx.eq_all(m.data.X.values, flat, 'covariates of the chain', what)
        ctx.eq_all(m.data.y.unnormalized_y, y, 'target of the chain', what)
        for t in m.trees:
            ctx.check([g for g, k in world.inits if k is t] == [tag], 'initialiser run once on every tree', what)
    trees = [t for m in models for t in m.trees]
    ctx.check(len(set(id(t) for t in trees)) == len(trees), 'chains do not share trees', what)
    sig = [id(m.sigma) for m in models]
    ctx.check(len(set(sig)) == len(sig), 'chains do not share the noise level', what)
    kept = sum(1 for i in range(d['n_samples']) if i % (1 / d['thin']) < 1) * d['n_chains']
    ctx.check(len(est.model_samples) == kept, 'samples stored', '%s: %d instead of %d' % (what, len(est.model_samples), kept))
    for s in est.model_samples:
        ctx.check(len(s.trees) == d['n_trees'], 'trees of a sample', what)
    ctx.check(len(est.prediction_samples) == (kept if d['store_in_sample_predictions'] else 0), 'in-sample predictions stored as asked', what)
    ctx.check(len(est.acceptance_trace) == (kept if d['store_acceptance_trace'] else 0), 'acceptance trace stored as asked', what)


WAYS = ['constructor', 'set_params', 'set_params one by one', 'clone', 'set_params after a fit', 'clone after a fit', 'clone then set_params', 'deepcopy', 'pipeline']


def reach(ctx, cfg):
    from sklearn.base import clone
    from sklearn.pipeline import Pipeline
    world = World(ctx)
    world.install()
    X, X0 = [[0., 2.], [1., 2.], [2., 5.]], [[7.], [8.]]
    y = [1.0, 4.0, ctx.real('y', lo=2, hi=3)]
    y0 = [3.0, 5.0]
    make, extra = KINDS[cfg['kind']](ctx)
    want = settings(ctx, world, 'new', cfg['variant'])
    old = lambda: settings(ctx, world, 'old', (cfg['variant'] + 1) % 4)
    way = WAYS[ctx.choose('way', len(WAYS))]
    ctx.cover(way)
    target = None
    if way == 'constructor':
        est = make(**want)
    elif way == 'set_params':
        est = make(**old())
        r = est.set_params(**want)
        ctx.check(r is est, 'set_params returns the estimator')
    elif way == 'set_params one by one':
        est = make(**old())
        for k in sorted(want, reverse=True):
            est.set_params(**{k: want[k]})
    elif way == 'clone':
        est = clone(make(**want))
    elif way == 'set_params after a fit':
        est = make(**old())
        est.fit(ctx.array(X0), ctx.array(y0))
        est.set_params(**want)
    elif way == 'clone after a fit':
        first = make(**want)
        first.fit(ctx.array(X0), ctx.array(y0))
        est = clone(first)
    elif way == 'clone then set_params':
        first = make(**old())
        est = clone(first).set_params(**want)
        target = first
    elif way == 'deepcopy':
        est = copy.deepcopy(make(**want))
    else:
        est = make(**old())
        Pipeline([('m', est)]).set_params(**{'m__' + k: v for k, v in want.items()})
    world.clear()
    got = est.get_params(deep=False)
    for k in want:
        ctx.check(k in got, 'get_params lists every parameter', k)
        if k not in ('tree_sampler', 'initializer'):
            ctx.eq(got[k], want[k], 'get_params', k)
    ctx.check(set(extra) <= set(got), 'get_params lists every parameter')
    ctx.check(est.fit(ctx.array(X), ctx.array(y)) is est, 'fit returns the estimator')
    ran_as(ctx, world, want, X, y if not extra else residual(ctx, est, y), est, 'new', way)
    if target is not None:
        world.clear()
        d = settings(ctx, world, 'old', (cfg['variant'] + 1) % 4)
        target.fit(ctx.array(X), ctx.array(y))
        ran_as(ctx, world, d, X, y if not extra else residual(ctx, target, y), target, 'old', 'the original of a clone')


def plain(ctx):
    from bartpy.sklearnmodel import SklearnModel
    return SklearnModel, []


def extension(ctx):
    from sklearn.base import BaseEstimator, RegressorMixin
    from bartpy.extensions.baseestimator import ResidualBART

    class Zero(RegressorMixin, BaseEstimator):
        def __init__(self, shift=0):
            self.shift = shift

        def fit(self, X, y, *a, **k):
            return self

        def predict(self, X):
            return ctx.array([1.0 * self.shift] * len(X))
    return (lambda **kw: ResidualBART(base_estimator=Zero(1), **kw)), ['base_estimator']


KINDS = dict(plain=plain, extension=extension)


def residual(ctx, est, y):
    return [v - 1 for v in y]


def several(ctx, cfg):
    """run_models: every data set is run with the settings of the given estimator."""
    from bartpy.runner import run_models
    from bartpy.sklearnmodel import SklearnModel
    world = World(ctx)
    world.install()
    d = settings(ctx, world, 'new', cfg['variant'])
    est = SklearnModel(**d) if ctx.choose('set', 2) else SklearnModel(n_jobs=1).set_params(**d)
    data = [([[0.], [1.]], [1.0, 2.0]), ([[4., 0.], [5., 1.], [6., 0.]], [ctx.real('y', lo=2, hi=3), 7.0, 1.0])]
    out = run_models(est, [ctx.array(X) for X, y in data], [ctx.array(y) for X, y in data])
    ctx.check(len(out) == 2, 'one result per data set')
    steps, inits = world.steps, world.inits
    for (X, y), m in zip(data, out):
        world.steps = [s for s in steps if s[1].data.X.n_obsv == len(X)]
        ran_as(ctx, world, d, X, y, m, 'new', 'run_models')
        ctx.check(all(s.predict(ctx.array(X)).shape == (len(X),) for s in m.model_samples), 'samples of that data set')
    ctx.check(est.model_samples is None and est.data is None, 'the given estimator is not fitted')
    ctx.cover('run_models')


def uninitialised(ctx, cfg):
    """Without an initialiser the chain starts from trees of one leaf."""
    from bartpy.sklearnmodel import SklearnModel
    world = World(ctx)
    world.install()
    sampler, init = world.parts('new')
    kw = dict(n_trees=2, n_chains=1, n_samples=1, n_burn=0, thin=1.0, n_jobs=1)
    how = ctx.choose('how', 3)
    if how == 0:
        est = SklearnModel(tree_sampler=sampler, **kw)
    elif how == 1:
        est = SklearnModel(tree_sampler=sampler, initializer=None, **kw)
    else:
        est = SklearnModel(tree_sampler=sampler, initializer=init, **kw).set_params(initializer=None)
    est.fit(ctx.array([[0., 2.], [1., 2.], [2., 5.]]), ctx.array([1.0, 4.0, 2.0]))
    ctx.check(len(world.inits) == 0, 'the removed initialiser is not used')
    ctx.check(len(world.steps) == 2 and all(len(t.nodes) == 1 for _, m, t in world.steps), 'trees start as one leaf')
    ctx.cover('uninitialised')


HARNESSES = [
    Harness(uninitialised, quick=[{}], thorough=[{}], covers=['uninitialised'], bounds='two trees, three rows'),
    Harness(reach, quick=[dict(kind='plain', variant=i) for i in range(5)] + [dict(kind='extension', variant=2)], thorough=[dict(kind=k, variant=i) for k in ('plain', 'extension') for i in range(4)],
            covers=WAYS, bounds='four combinations of 1-3 trees, 1-3 chains, 1-4 samples, 0-2 burn-in, thinning 1, 0.5 and 0.34 and one of 7 trees, 4 chains, 24 samples, 31 burn-in, thinning 0.05, storage flags; arbitrary alpha, beta and sigma prior; nine ways of setting them'),
    Harness(several, quick=[dict(variant=1), dict(variant=2)], thorough=[dict(variant=i) for i in range(5)], covers=['run_models'], bounds='two data sets of 2 and 3 rows'),
]

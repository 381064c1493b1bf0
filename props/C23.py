"""Residual extensions: base model plus BART."""
from symex.harness import Harness, autos
from .common import *
from .estimator import *

MODULES = ESTIMATOR_MODULES + ('bartpy.extensions.baseestimator', 'bartpy.extensions.ols')
ASSUMPTIONS = [REALS, NONAN, 'the base model is an arbitrary affine function of the row after fitting (new coefficients at every fit)',
               'the Gibbs sweep is replaced by one that sets every leaf to an arbitrary value', 'chains run in this process (n_jobs=1)']


def rows_of(X):
    a = X.values if hasattr(X, 'iloc') else X
    return [list(r) for r in a]


class Fits:
    def __init__(self, ctx):
        self.ctx, self.all = ctx, []

    def fit(self, X, y):
        k = len(self.all)
        coef = [self.ctx.real('base%d_%d' % (k, j)) for j in range(len(rows_of(X)[0]) + 1)]
        self.all.append((rows_of(X), self.ctx.flat(y), coef))
        return coef

    def __deepcopy__(self, memo):
        return self


def affine(coef, row):
    v = coef[0]
    for c, x in zip(coef[1:], row):
        v = v + c * x
    return v


def make(ctx, cfg, kind, fits, **kw):
    if kind == 'base':
        from sklearn.base import BaseEstimator, RegressorMixin
        from bartpy.extensions.baseestimator import ResidualBART

        class Base(RegressorMixin, BaseEstimator):
            def fit(self, X, y, *a, **k):
                self.coef = fits.fit(X, y)
                return self

            def predict(self, X):
                return ctx.array([affine(self.coef, r) for r in rows_of(X)])
        return ResidualBART(base_estimator=Base(), **kw)
    from bartpy.extensions.ols import OLS

    class Fitted:
        def __init__(self, endog, exog):
            self.coef = fits.fit(exog, endog)
            self.params = self.coef
            self.resid = ctx.array([t - affine(self.coef, r) for t, r in zip(ctx.flat(endog), rows_of(exog))])
            self.fittedvalues = self.predict(exog)

        def predict(self, exog=None):
            return ctx.array([affine(self.coef, r) for r in rows_of(exog)])

    class Stat:
        def __init__(self, endog, exog=None, **k):
            self.endog, self.exog = endog, exog

        def fit(self, *a, **k):
            return Fitted(self.endog, self.exog)
    return OLS(stat_model=Stat, **kw)


def combined(ctx, cfg):
    from bartpy.samplers.schedule import SampleSchedule
    n, p = cfg['n'], cfg['p']
    kind = cfg['kind']
    X = [[float(v) for v in r[:p]] for r in GRIDS['distinct' if n < 7 else 'wide'][:n]]
    y = ctx.reals('y', n)
    store = bool(ctx.choose('store', 2))
    fits = Fits(ctx)
    _, rec = estimator(ctx, dict(cfg, trees=1, chains=1, samples=1))          # installs the arbitrary sweeps
    est = make(ctx, cfg, kind, fits, n_trees=cfg['trees'], n_chains=cfg['chains'], n_samples=cfg['samples'], n_burn=0, thin=1., n_jobs=1,
               store_in_sample_predictions=store, initializer=Splitter())
    frame = bool(cfg.get('frame'))
    if cfg.get('refit'):
        est.fit(ctx.array(X[::-1]), ctx.array([2.0 * i for i in range(n)]))
        rec.clear()
        fits.all = []
        ctx.cover('refitted')
    ya = ctx.array(y)
    out = est.fit(ctx.dataframe(X) if frame else ctx.array(X), ya)
    ctx.check(out is est, 'fit returns the estimator')
    ctx.check(len(fits.all) == 1, 'base model trained once', '%d' % len(fits.all))
    bx, by, coef = fits.all[0]
    ctx.eq_all([v for r in bx for v in r], [v for r in X for v in r], 'base model trained on the data', 'X')
    ctx.eq_all(by, y, 'base model trained on the data', 'y')
    res = [t - affine(coef, r) for t, r in zip(y, X)]
    lo = hi = res[0]
    if ctx.auto is not None:
        for v in res[2:]:
            ctx.assume(v > res[0])
            ctx.assume(v < res[1])
    for v in res[1:]:
        if bool(v < lo):
            lo = v
        elif bool(v > hi):
            hi = v
    ctx.check(len(rec.models) == cfg['chains'], 'chains run')
    for m in rec.models:
        ctx.eq_all(m.data.y.unnormalized_y, res, 'BART trained on target minus base prediction', '')
        ctx.eq_all(m.data.X.values, [v for r in X for v in r], 'BART trained on the covariates', '')
    sweeps = [s for c in rec.chains for s in c]

    def want(row):
        acc = 0
        for s in sweeps:
            acc = acc + s.at(row)
        return affine(coef, row) + lo + (acc / len(sweeps) + rational(ctx, 1, 2)) * (hi - lo)
    q = ctx.matrix('q', cfg.get('q', 1), p)
    qa = ctx.array(q)
    train = [want(r) for r in X]
    ctx.eq_all(est.predict(qa), [want(r) for r in q], 'prediction is base plus BART', 'new row')
    ctx.eq_all(est.predict(ctx.array(X)), train, 'prediction is base plus BART', 'training rows')
    ctx.eq_all(est.predict(), train, 'implicit prediction of the training rows', '')
    ctx.eq_all(est.residuals(), [t - e for t, e in zip(y, train)], 'default residuals', '')
    ctx.eq_all(est.residuals(ctx.array(X)), [t - e for t, e in zip(y, train)], 'default residuals', 'explicit rows')
    ty = ctx.reals('t', len(q))
    ctx.eq_all(est.residuals(qa, ctx.array(ty)), [t - want(r) for t, r in zip(ty, q)], 'residuals of given rows', '')
    ctx.eq_all(est.l2_error(qa, ctx.array(ty)), [(t - want(r)) * (t - want(r)) for t, r in zip(ty, q)], 'squared errors of given rows', '')
    ctx.eq_all(ya, y, 'target unchanged', '')
    for k in range(n):
        ya[k] = 50.0 + k
    ctx.eq_all(est.residuals(), [t - e for t, e in zip(y, train)], 'default residuals use the training target', 'after the caller changed its array')
    ctx.cover('stored' if store else 'not stored')
    if len(rec.models) > 1:
        ctx.cover('several chains')


HARNESSES = [
    Harness(combined, quick=[dict(kind=k, **c) for k in ('base', 'ols') for c in
                             (dict(n=2, p=1, chains=1, samples=1, trees=1, q=2), dict(n=2, p=2, chains=2, samples=1, trees=2, frame=1), dict(n=2, p=1, chains=1, samples=2, trees=1, refit=1))]
            + [c for k in ('base', 'ols') for c in autos(1, kind=k, n=7, p=4, chains=2, samples=1, trees=2)],
            thorough=[dict(kind=k, **c) for k in ('base', 'ols') for c in (dict(n=3, p=2, chains=2, samples=2, trees=2), dict(n=4, p=1, chains=1, samples=1, trees=1), dict(n=3, p=1, chains=1, samples=1, trees=1, q=3), dict(n=3, p=1, chains=3, samples=1, trees=2, refit=1, frame=1))],
            covers=['stored', 'not stored', 'several chains', 'refitted'],
            bounds='2 rows (thorough 4), 1-2 columns, arbitrary targets, base coefficients, leaf values and 1-2 new rows (as many as training rows, and fewer); 1-2 chains (3) of 1-2 samples; scripted: 7 rows, 4 columns'),
]

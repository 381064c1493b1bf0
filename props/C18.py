"""Estimator predictions, residuals and accessors."""
from symex.harness import Harness, autos
from .common import *
from .estimator import *

MODULES = ESTIMATOR_MODULES
ASSUMPTIONS = [REALS, NONAN, 'the Gibbs sweep is replaced by one that sets every leaf to an arbitrary value (C05-C14 decide what real sweeps do)',
               'chains run in this process (n_jobs=1)', 'every chain stores at least one sample']


def expected(ctx, lo, hi, sweeps, row):
    acc = 0
    for s in sweeps:
        acc = acc + s.at(row)
    return lo + (acc / len(sweeps) + rational(ctx, 1, 2)) * (hi - lo)


def predictions(ctx, cfg):
    n, p = cfg['n'], cfg['p']
    X = GRIDS['distinct' if n < 7 else 'wide'][:n]
    X = [[float(v) for v in r[:p]] for r in X]
    y, lo, hi = targets(ctx, n)
    store = bool(cfg['store'])
    est, rec = estimator(ctx, cfg, store_in_sample_predictions=store, store_acceptance_trace=bool(cfg.get('acc')))
    frame = cfg.get('frame') and ctx.choose('frame', 2)
    if cfg.get('refit'):
        est.fit(ctx.array(X[::-1]), ctx.array([3.0 * i for i in range(n)]))
        rec.clear()
        ctx.cover('refitted')
    out = est.fit(ctx.dataframe(X) if frame else ctx.array(X), ctx.array(y))
    ctx.check(out is est, 'fit returns the estimator')
    chains = rec.chains
    ctx.check(len(chains) == cfg['chains'] and all(len(c) == cfg['samples'] for c in chains), 'chains run', str([len(c) for c in chains]))
    sweeps = [s for c in chains for s in c]
    new = new_rows(ctx, cfg, cfg.get('m', 1), p)
    got = ctx.flat(est.predict(ctx.dataframe(new) if frame else ctx.array(new)))
    ctx.check(len(got) == len(new), 'one prediction per row')
    want = [expected(ctx, lo, hi, sweeps, r) for r in new]
    ctx.eq_all(got, want, 'prediction is the mean over all stored samples of all chains, in target units', 'row')
    train = [expected(ctx, lo, hi, sweeps, r) for r in X]
    ctx.eq_all(est.predict(ctx.array(X)), train, 'prediction of the training rows given explicitly', 'row')
    if store:
        ctx.eq_all(est.predict(), train, 'in-sample prediction', 'row')
        ctx.eq_all(est.residuals(), [t - e for t, e in zip(y, train)], 'residuals are target minus prediction', 'row')
        ctx.eq_all(est.l2_error(), [(t - e) * (t - e) for t, e in zip(y, train)], 'squared errors', 'row')
        ps = est.prediction_samples
        ctx.check(len(ps) == len(sweeps), 'prediction samples of all chains')
        for a, s in zip(ps, sweeps):
            ctx.eq_all(a, [s.at(r) for r in X], 'prediction samples in chain order', 'row')
        ctx.cover('stored')
    else:
        ctx.raises(ValueError, lambda: est.predict(), 'in-sample prediction without stored samples is refused')
        ctx.raises(ValueError, lambda: est.predict(None), 'in-sample prediction without stored samples is refused')
        ctx.cover('not stored')
    ty = ctx.reals('t', len(new))
    res = [t - e for t, e in zip(ty, want)]
    qa, ta = ctx.array(new), ctx.array(ty)
    ctx.eq_all(est.residuals(qa, ta), res, 'residuals are target minus prediction', 'given rows')
    ctx.eq_all(est.l2_error(qa, ta), [r * r for r in res], 'squared errors', 'given rows')
    e = est.rmse(qa, ta)
    ctx.check(e >= 0, 'total error is not negative')
    ctx.eq(e * e, total(r * r for r in res), 'total error is the root of the summed squares', '')
    ctx.eq_all(est.residuals(ctx.array(X)), [t - e for t, e in zip(y, train)], 'residuals are target minus prediction', 'default target')
    ms = est.model_samples
    ctx.check(len(ms) == len(sweeps), 'model samples of all chains')
    for m, s in zip(ms, sweeps):
        ctx.eq_all(m.predict(ctx.array(X)), [s.at(r) for r in X], 'model samples in chain order', 'row')
        ctx.eq(m.sigma.current_value(), s.sigma, 'model samples in chain order', 'noise')
    at = est.acceptance_trace
    ctx.check(len(at) == (len(sweeps) if cfg.get('acc') else 0), 'acceptance of all chains')
    if cfg.get('acc'):
        for a, s in zip(at, sweeps):
            ctx.eq(a['Tree'], s.acceptance, 'acceptance in chain order', '')
        ctx.cover('acceptance')
    ctx.eq_all(est.predict(qa), want, 'predicting again gives the same', 'row')
    if len(chains) > 1:
        ctx.cover('several chains')


def fit_predict(ctx, cfg):
    X = [[float(i)] for i in range(cfg['n'])]
    y, lo, hi = targets(ctx, cfg['n'])
    store = bool(ctx.choose('store', 2))
    est, rec = estimator(ctx, cfg, store_in_sample_predictions=store)
    got = est.fit_predict(ctx.array(X), ctx.array(y))
    sweeps = [s for c in rec.chains for s in c]
    ctx.eq_all(got, [expected(ctx, lo, hi, sweeps, r) for r in X], 'fit_predict predicts the training rows', 'row')
    ctx.cover('fit_predict')


HARNESSES = [
    Harness(predictions,
            quick=[dict(n=2, p=1, chains=1, samples=1, trees=1, store=1, acc=1), dict(n=2, p=1, chains=2, samples=2, trees=2, store=1, acc=1, frame=1),
                   dict(n=3, p=2, chains=2, samples=2, trees=2, store=0), dict(n=2, p=1, chains=3, samples=1, trees=3, store=1, m=2),
                   dict(n=2, p=1, chains=1, samples=3, trees=2, store=1, refit=1), dict(n=2, p=1, chains=2, samples=1, trees=1, store=0, refit=1, acc=1)]
            + autos(1, n=12, p=4, chains=3, samples=3, trees=3, store=1, acc=1, m=1) + autos(1, n=3, p=2, chains=6, samples=3, trees=2, store=1, acc=1, m=1, frame=1) + autos(1, n=3, p=1, chains=2, samples=60, trees=1, store=1, acc=1, fixed=2),
            thorough=[dict(n=4, p=2, chains=3, samples=2, trees=3, store=1, m=2, frame=1), dict(n=3, p=1, chains=4, samples=3, trees=2, store=0, acc=1),
                      dict(n=3, p=2, chains=2, samples=5, trees=4, store=1, acc=1, refit=1)],
            covers=['stored', 'not stored', 'several chains', 'acceptance', 'refitted'],
            bounds='1-3 chains (thorough 4) of 1-3 samples (5), 1-3 trees (4) of up to two leaves, arbitrary leaf values, noise levels and targets, arbitrary new rows, arrays and DataFrames; scripted: 3-6 chains of 3 samples, 2 chains of 60 samples'),
    Harness(fit_predict, quick=[dict(n=2, chains=2, samples=1, trees=2)], thorough=[dict(n=3, chains=2, samples=2, trees=2)], covers=['fit_predict'],
            bounds='2 rows, 2 chains'),
]

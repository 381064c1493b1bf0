"""Running one specification over several data sets."""
from symex.harness import Harness, autos
from .common import *
from .estimator import *

MODULES = ESTIMATOR_MODULES + ('bartpy.runner',)
ASSUMPTIONS = [REALS, NONAN, 'the Gibbs sweep is replaced by one that sets every leaf to an arbitrary value', 'chains run in this process (n_jobs=1)']


def expected(ctx, lo, hi, sweeps, row):
    acc = 0
    for s in sweeps:
        acc = acc + s.at(row)
    return lo + (acc / len(sweeps) + rational(ctx, 1, 2)) * (hi - lo)


def many(ctx, cfg):
    from bartpy.runner import run_models
    store = bool(cfg.get('store'))
    est, rec = estimator(ctx, cfg, store_in_sample_predictions=store, store_acceptance_trace=bool(cfg.get('acc')))
    before = None
    q = ctx.matrix('q', 1, 1)
    params = est.get_params()
    if cfg.get('fitted'):
        y0 = ctx.array([1.0, 4.0, 2.0])
        est.fit(ctx.array([[0.], [1.], [2.]]), y0)
        before = [ctx.flat(est.predict(ctx.array(q))), list(est.model_samples), ctx.flat(est.predict()) if store else None, est.data, est.model, list(est.acceptance_trace)]
        rec.clear()
        ctx.cover('specification already fitted')
    Xs, ys, keep = [], [], []
    for d, n in enumerate(cfg['rows']):
        X = [[float(i) + 10.0 * d] for i in range(n)] if cfg.get('apart', 1) else [[float(i)] for i in range(n)]
        if d == 0:
            X[0][0] = -1.0
        y, lo, hi = targets(ctx, n, 'y%d_' % d)
        Xs.append(ctx.array(X))
        ys.append(ctx.array(y))
        keep.append((X, y, lo, hi))
    out = run_models(est, Xs, ys)
    ctx.check(len(out) == len(Xs), 'one model per data set', '%d' % len(out))
    ctx.check(len(set(id(m) for m in out)) == len(out) and all(m is not est for m in out), 'separate models')
    ctx.check(len(rec.all) == len(Xs) * cfg['chains'], 'chains run', '%d' % len(rec.all))
    for d, (m, (X, y, lo, hi)) in enumerate(zip(out, keep)):
        mine = []
        for model, sweeps in rec.all:
            vals = ctx.flat(model.data.X.values)
            if len(vals) == len(X) and all(float(a) == r[0] for a, r in zip(vals, X)):
                mine.append(sweeps)
        ctx.check(len(mine) == cfg['chains'], 'chains run on the data set', 'data set %d: %d' % (d, len(mine)))
        sweeps = [s for c in mine for s in c]
        ctx.check(len(m.model_samples) == len(sweeps), 'samples of the data set', 'data set %d' % d)
        for a, s in zip(m.model_samples, sweeps):
            ctx.eq_all(a.predict(ctx.array(X)), [s.at(r) for r in X], 'samples of the data set', 'data set %d' % d)
        ctx.eq_all(m.predict(ctx.array(q)), [expected(ctx, lo, hi, sweeps, r) for r in q], 'predictions of the data set in its own units', 'data set %d' % d)
        ctx.eq_all(m.residuals(ctx.array(X)), [t - expected(ctx, lo, hi, sweeps, r) for r, t in zip(X, y)], 'residuals against its own target', 'data set %d' % d)
        if store:
            ctx.eq_all(m.predict(), [expected(ctx, lo, hi, sweeps, r) for r in X], 'in-sample predictions of the data set', 'data set %d' % d)
        ctx.check(len(m.acceptance_trace) == (len(sweeps) if cfg.get('acc') else 0), 'acceptance of the data set', '')
        ctx.check(m.n_chains == cfg['chains'] and m.n_samples == cfg['samples'] and m.n_trees == cfg['trees'], 'settings carried over')
        if len(mine) > 1:
            ctx.cover('several chains')
    after = est.get_params()
    ctx.check(all(params[k] is after[k] or params[k] == after[k] for k in params), 'specification unchanged', 'settings')
    if before is None:
        ctx.check(est.model_samples is None and est.prediction_samples is None and est.data is None and est.model is None, 'specification unchanged', 'still unfitted')
    else:
        ctx.eq_all(est.predict(ctx.array(q)), before[0], 'specification unchanged', 'predictions')
        ctx.check(same_ids(est.model_samples, before[1]) and est.data is before[3] and est.model is before[4], 'specification unchanged', 'samples')
        ctx.check(len(est.acceptance_trace) == len(before[5]), 'specification unchanged', 'acceptance')
        if store:
            ctx.eq_all(est.predict(), before[2], 'specification unchanged', 'in-sample predictions')
    for (X, y, _, _), a, b in zip(keep, Xs, ys):
        ctx.eq_all(a, [v for r in X for v in r], 'data sets unchanged', '')
        ctx.eq_all(b, y, 'data sets unchanged', '')
    if len(Xs) > 1:
        ctx.cover('several data sets')


HARNESSES = [
    Harness(many, quick=[dict(rows=[2], chains=1, samples=1, trees=1), dict(rows=[2, 2], chains=1, samples=1, trees=1, store=1),
                         dict(rows=[2, 3], chains=2, samples=1, trees=2, store=1, acc=1), dict(rows=[2, 2, 1], chains=2, samples=1, trees=1),
                         dict(rows=[2, 2], chains=3, samples=1, trees=1), dict(rows=[1, 2], chains=2, samples=2, trees=1, store=1, fitted=1, acc=1)]
            + autos(1, rows=[4, 7, 2, 4, 1], chains=4, samples=3, trees=3, store=1, acc=1) + autos(1, rows=[2] * 11, chains=2, samples=1, trees=1, fitted=1),
            thorough=[dict(rows=[2, 2, 2], chains=3, samples=2, trees=2, store=1, acc=1), dict(rows=[2, 3, 2, 1], chains=2, samples=1, trees=2, fitted=1), dict(rows=[2, 2], chains=5, samples=1, trees=1)],
            covers=['several data sets', 'several chains', 'specification already fitted'],
            bounds='1-3 data sets (thorough 4) of 1-3 rows with arbitrary targets, 1-3 chains (5), 1-2 samples, arbitrary leaf values and query rows'),
]

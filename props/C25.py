"""Permutation importance: what is fitted and what is scored."""
import itertools
from symex.harness import Harness, autos
from .common import *
from .estimator import *

MODULES = ESTIMATOR_MODULES + ('bartpy.runner', 'bartpy.features.featureimportance')
ASSUMPTIONS = [REALS, NONAN, 'the Gibbs sweep is replaced by one that sets every leaf to an arbitrary value', 'chains run in this process (n_jobs=1)',
               'folds come from sklearn\'s KFold, whose choice of folds is arbitrary', 'the error of a fold is the root of the summed squared errors (what rmse computes)']


def folds_of(ctx, cfg):
    """Every use of KFold gets an arbitrary assignment of rows to folds."""
    from sklearn.model_selection import KFold
    used = []

    def split(self, X, y=None, groups=None):
        import numpy as np
        n, k = len(X), self.get_n_splits()
        if cfg.get('same') and used:
            out = used[0]
            for t in out:
                yield np.array([r for r in range(n) if r not in t]), np.array(t)
            return
        sizes = [n // k + (1 if i < n % k else 0) for i in range(k)]
        rest, out = list(range(n)), []
        for i, s in enumerate(sizes):
            options = list(itertools.combinations(rest, s))
            pick = options[ctx.choose('fold%d_%d' % (len(used), i), len(options))]
            out.append(list(pick))
            rest = [r for r in rest if r not in pick]
        used.append(out)
        for t in out:
            yield np.array([r for r in range(n) if r not in t]), np.array(t)
    ctx.patch(KFold, 'split', split)
    return used


def predicted(sweep, row, v):
    acc = 0
    for split, vals in sweep.trees:
        acc = acc + (vals[0] if bool(row[v] <= 0.5) else vals[1])
    return acc


def squared_error(ctx, run, train_y, rows, ys, v):
    """Sum of squared errors of the mean of all sweeps of the chains in run."""
    lo = hi = train_y[0]
    for t in train_y[1:]:
        if bool(t < lo):
            lo = t
        elif bool(t > hi):
            hi = t
    scale = hi - lo
    sweeps = [s for _, c in run for s in c]
    acc = 0
    for r, y in zip(rows, ys):
        mean = total(predicted(s, r, v) for s in sweeps) / len(sweeps)
        acc = acc + (y - ((mean + 0.5) * scale + lo)) * (y - ((mean + 0.5) * scale + lo))
    return acc


def data(ctx, cfg):
    """Distinct entries; the column that is not assessed tells the rows apart."""
    n = cfg['n']
    a = [0.2, 0.9, 0.4, 0.7, 0.6, 0.1, 0.8][:n]
    v = cfg.get('variable', 0)
    X = [[a[i], 10.0 + i] if v == 0 else [10.0 + i if cfg.get('far') else 0.1 + 0.2 * i, a[i]] for i in range(n)]
    y = ctx.reals('y', n) if n == 2 or cfg.get('free') else [ctx.real('y0')] + [1.0, 4.0, 2.0, 3.0, 0.0, 2.5][:n - 1]
    if not (n == 2 or cfg.get('free')):
        ctx.assume(y[0] > 4)
    else:
        ctx.assume(y[0] < y[1])
    return X, y, v


def splitting_on(column):
    """Every tree of every model splits on the column at 0.5."""
    from bartpy.initializers.initializer import Initializer

    class Splitting(Initializer):
        def initialize_tree(self, tree):
            from bartpy.mutation import GrowMutation
            from bartpy.node import split_node
            from bartpy.tree import mutate
            leaf = tree.leaf_nodes[0]
            mutate(tree, GrowMutation(leaf, split_node(leaf, conditions(column, 0.5))))
    return Splitting()


def setup(ctx, cfg):
    X, y, v = data(ctx, cfg)
    folds = folds_of(ctx, cfg)
    est, rec = estimator(ctx, cfg, initializer=splitting_on(v))
    Xin, yin = (ctx.dataframe(X) if cfg.get('frame') else ctx.array(X)), ctx.array(y)
    return X, y, v, folds, est, rec, Xin, yin


def untouched(ctx, est, before, Xin, yin, X, y):
    ctx.eq_all(Xin, [a for r in X for a in r], 'the caller\'s covariates are not modified', '')
    ctx.eq_all(yin, y, 'the caller\'s target is not modified', '')
    ctx.check(est.extract is None and est.data is None and est.model_samples is None, 'the caller\'s model is not fitted')
    ctx.check({k: v for k, v in est.get_params(deep=False).items()} == before, 'the caller\'s model keeps its settings')


def chain_groups(ctx, rec, C, expected):
    ctx.check(len(rec.all) == C * expected, 'one fit per fold and permutation', '%d chains instead of %d' % (len(rec.all), C * expected))
    chains = list(rec.all)
    return [chains[i * C:(i + 1) * C] for i in range(expected)]


def score(ctx, errors, wanted):
    """errors are the roots of wanted (each: alternatives of a squared error), in any order."""
    ctx.check(len(errors) == len(wanted), 'one error per fold and permutation', '%d instead of %d' % (len(errors), len(wanted)))
    tol = lambda a, b: (a == b) if ctx.sym else abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))
    for e in errors:
        ctx.check(e >= 0, 'errors are not negative')
    for k, alts in enumerate(wanted):
        hit = False
        for e in errors:
            for w in alts:
                hit = tol(e * e, w) | hit
        ctx.check(hit, 'error of the held-out fold', 'fit %d' % k)


def near(ctx, a, b):
    return bool(a == b) if ctx.sym else abs(a - b) < 1e-9


def null(ctx, cfg):
    from bartpy.features.featureimportance import null_rmse_distribution
    X, y, v, folds, est, rec, Xin, yin = setup(ctx, cfg)
    before = dict(est.get_params(deep=False))
    K, R, C, n = cfg['k'], cfg['perms'], cfg['chains'], cfg['n']
    errors = list(null_rmse_distribution(est, Xin, yin, v, K, R))
    untouched(ctx, est, before, Xin, yin, X, y)
    wanted = null_runs(ctx, cfg, X, y, v, rec, folds[0])
    score(ctx, errors, wanted)


def null_runs(ctx, cfg, X, y, v, rec, folds, start=0):
    K, R, C, n = cfg['k'], cfg['perms'], cfg['chains'], cfg['n']
    other = 1 - v
    column = [r[v] for r in X]
    wanted, seen = [], []
    for run in chain_groups(ctx, rec, C, K * R + start)[start:]:
        rows = [list(r) for r in run[0][0].data.X.values]
        for m, _ in run[1:]:
            ctx.eq_all(m.data.X.values, [a for r in rows for a in r], 'chains of a fit share the data', '')
        ids = []
        for r in rows:
            at = [i for i in range(n) if near(ctx, r[other], X[i][other])]
            ctx.check(len(at) == 1, 'the other columns keep their rows')
            ids.append(at[0])
        test = [t for t in folds if not set(t) & set(ids)]
        ctx.check(len(set(ids)) == len(ids) and len(test) == 1 and len(ids) == n - len(test[0]), 'fitted on a training fold', str(ids))
        seen.append(tuple(test[0]))
        for m, _ in run:
            ctx.eq_all(m.data.y.unnormalized_y, [y[i] for i in ids], 'training targets belong to their rows', '')
        left = list(column)
        for r in rows:
            at = [i for i, c in enumerate(left) if near(ctx, r[v], c)]
            ctx.check(len(at) == 1, 'the assessed column is permuted', str(r[v]))
            left.pop(at[0])
        if len(ids) > 1 and any(bool(a <= 0.5) != bool(X[t][v] <= 0.5) for a, t in zip(left, test[0])):
            ctx.cover('held-out rows scrambled')
        alts = []
        for order in itertools.permutations(left):
            held = []
            for t, a in zip(test[0], order):
                row = list(X[t])
                row[v] = a
                held.append(row)
            alts.append(squared_error(ctx, run, [y[i] for i in ids], held, [y[t] for t in test[0]], v))
        wanted.append(alts)
    for t in folds:
        ctx.check(seen.count(tuple(t)) == R, 'every fold is held out once per permutation', str(seen))
    return wanted


def base_runs(ctx, cfg, X, y, v, rec, folds):
    K, C, n = cfg['k'], cfg['chains'], cfg['n']
    wanted, seen = [], []
    chains = list(rec.all)[:C * K]
    for run in [chains[i * C:(i + 1) * C] for i in range(K)]:
        rows = [list(r) for r in run[0][0].data.X.values]
        ids = []
        for r in rows:
            at = [i for i in range(n) if all(near(ctx, a, b) for a, b in zip(r, X[i]))]
            ctx.check(len(at) == 1, 'the baseline sees unpermuted rows')
            ids.append(at[0])
        test = [t for t in folds if not set(t) & set(ids)]
        ctx.check(len(set(ids)) == len(ids) and len(test) == 1 and len(ids) == n - len(test[0]), 'fitted on a training fold', str(ids))
        seen.append(tuple(test[0]))
        for m, _ in run:
            ctx.eq_all(m.data.y.unnormalized_y, [y[i] for i in ids], 'training targets belong to their rows', '')
        wanted.append([squared_error(ctx, run, [y[i] for i in ids], [X[t] for t in test[0]], [y[t] for t in test[0]], v)])
    for t in folds:
        ctx.check(seen.count(tuple(t)) == 1, 'every fold is held out once', str(seen))
    return wanted


def baseline(ctx, cfg):
    from bartpy.features.featureimportance import original_model_rmse
    X, y, v, folds, est, rec, Xin, yin = setup(ctx, cfg)
    before = dict(est.get_params(deep=False))
    errors = list(original_model_rmse(est, Xin, yin, cfg['k']))
    untouched(ctx, est, before, Xin, yin, X, y)
    ctx.check(len(rec.all) == cfg['k'] * cfg['chains'], 'one fit per fold')
    score(ctx, errors, base_runs(ctx, cfg, X, y, v, rec, folds[0]))
    ctx.cover('baseline')


def both(ctx, cfg):
    """feature_importance returns the baseline and the null distribution."""
    import matplotlib.pyplot as plt
    from bartpy.features.featureimportance import feature_importance
    X, y, v, folds, est, rec, Xin, yin = setup(ctx, cfg)
    before = dict(est.get_params(deep=False))
    for f in ('hist', 'title', 'xlabel', 'ylabel', 'legend'):
        ctx.patch(plt, f, lambda *a, **k: None)
    base, nulls = feature_importance(est, Xin, yin, v, cfg['k'], cfg['perms'])
    untouched(ctx, est, before, Xin, yin, X, y)
    score(ctx, list(base), base_runs(ctx, cfg, X, y, v, rec, folds[0]))
    score(ctx, list(nulls), null_runs(ctx, cfg, X, y, v, rec, folds[-1], cfg['k']))
    ctx.cover('both')


def uniform(ctx, cfg):
    """Every arrangement of the assessed column is equally likely, separately per fold and permutation."""
    from bartpy.features.featureimportance import null_rmse_distribution
    import math
    n, K, R = cfg['n'], cfg['k'], cfg['perms']
    X, y, v, folds, est, rec, Xin, yin = setup(ctx, dict(cfg, same=1))
    yin = ctx.array([2.0, 1.0, 4.0, 3.0][:n])

    def run():
        rec.clear()
        rec.n = 0
        null_rmse_distribution(est, Xin, yin, v, K, R)
        got = []
        for m, _ in rec.all:
            rows = [list(r) for r in m.data.X.values]
            got.append(tuple([i for i in range(n) if near(ctx, r[v], X[i][v])][0] for r in rows))
        return tuple(got)
    out, cut = ctx.outcomes(run, depth=40)
    ctx.check(cut == 0, 'all outcomes')
    seen = {}
    for o, w in out:
        seen[o] = seen.get(o, 0) + w
    spaces = [len(set(o[i] for o in seen)) for i in range(K * R)]
    for i, s in enumerate(spaces):
        size = len(next(iter(seen))[i])
        ctx.check(s == math.factorial(n) // math.factorial(n - size), 'the assessed column is permuted over all rows', '%d arrangements of %d training rows' % (s, size))
    every = 1
    for s in spaces:
        every *= s
    ctx.check(len(seen) == every, 'permutations are independent', '%d of %d' % (len(seen), every))
    for o, w in seen.items():
        ctx.check(abs(w * every - 1) <= (0 if ctx.sym else 1e-6), 'every arrangement is equally likely', str(o))
    ctx.cover('uniform')


HARNESSES = [
    Harness(uniform, quick=[dict(n=2, k=2, perms=2, chains=1, samples=1, trees=1), dict(n=3, k=2, perms=1, chains=1, samples=1, trees=1)],
            thorough=[dict(n=3, k=3, perms=1, chains=1, samples=1, trees=1)], covers=['uniform'], bounds='2-3 rows, joint distribution of the columns seen by all fits', rng_budget=400),
    Harness(null, quick=[dict(n=2, k=2, perms=1, chains=1, samples=1, trees=2), dict(n=3, k=2, perms=1, chains=1, samples=1, trees=1),
                         dict(n=2, k=2, perms=2, chains=1, samples=1, trees=1, variable=1), dict(n=2, k=2, perms=1, chains=2, samples=2, trees=1, frame=1)]
            + autos(2, n=6, k=3, perms=2, chains=2, samples=1, trees=1) + autos(1, n=7, k=3, perms=3, chains=1, samples=1, trees=1, variable=1),
            thorough=[dict(n=3, k=3, perms=1, chains=1, samples=1, trees=1), dict(n=3, k=2, perms=1, chains=2, samples=1, trees=2, variable=1), dict(n=4, k=2, perms=1, chains=1, samples=1, trees=1)],
            covers=['held-out rows scrambled'], bounds='2-3 rows (thorough 4), 2 columns, 2 folds (thorough 3), 1-2 permutations, 1-2 chains, every fold assignment and permutation; scripted: 6-7 rows, 3 folds, 2-3 permutations'),
    Harness(baseline, quick=[dict(n=3, k=2, chains=1, samples=1, trees=2), dict(n=3, k=3, chains=2, samples=1, trees=1, frame=1)] + autos(2, n=7, k=4, chains=2, samples=2, trees=1), thorough=[dict(n=4, k=2, chains=2, samples=2, trees=2)],
            covers=['baseline'], bounds='3 rows (thorough 4), 2-3 folds, 1-2 chains; scripted: 7 rows, 4 folds'),
    Harness(both, quick=[dict(n=2, k=2, perms=1, chains=1, samples=1, trees=1)], thorough=[dict(n=3, k=2, perms=1, chains=1, samples=1, trees=1)], covers=['both'], bounds='2 rows (thorough 3)'),
]

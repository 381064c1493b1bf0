"""Caller's data and per-tree targets are isolated; accepted inputs."""
from symex.harness import Harness, autos
from .common import *
from .estimator import *

MODULES = ESTIMATOR_MODULES
ASSUMPTIONS = [REALS, NONAN, 'chains run in this process (n_jobs=1)']


def bump(ctx, a, tag):
    """The caller overwrites every element."""
    for k in range(len(a)):
        if getattr(a, 'ndim', 1) == 2:
            for j in range(a.shape[1]):
                a[k, j] = ctx.real('%s%d_%d' % (tag, k, j))
        else:
            a[k] = ctx.real('%s%d' % (tag, k))


def view(ctx, model):
    """Everything the model knows about its data."""
    out = [ctx.flat(model.data.X.values), ctx.flat(model.data.y.values), ctx.flat(model.data.y.unnormalized_y), ctx.flat(model.residuals())]
    for t in model.trees:
        for n in t.nodes:
            out += [ctx.flat(n.data.X.values), ctx.flat(n.data.y.values), [n.data.y.summed_y()], [n.data.X.n_obsv],
                    [n.data.X.max_value_of_column(0)] if n.data.X.n_obsv > 0 else []]
    return out


def same_view(ctx, a, b, label):
    ctx.check(len(a) == len(b), label, 'nodes')
    for x, y in zip(a, b):
        ctx.eq_all(x, y, label, '')


def fitting(ctx, cfg):
    """fit with arbitrary sweeps: the caller's arrays stay, and the caller cannot reach the model."""
    n, p = cfg['n'], cfg['p']
    X = [[float(v) for v in r[:p]] for r in GRIDS['ties' if n < 7 else 'wide'][:n]] if cfg.get('grid') else ctx.matrix('x', n, p)
    y, lo, hi = targets(ctx, n)
    est, rec = estimator(ctx, cfg, store_in_sample_predictions=True)
    frame = bool(ctx.choose('frame', 2))
    Xa, ya = ctx.array(X), ctx.array(y)
    Xin = ctx.dataframe(X) if frame else Xa
    est.fit(Xin, ya)
    flat = [v for r in X for v in r]
    ctx.eq_all(Xin, flat, 'fitting leaves the covariates alone', 'X')
    ctx.eq_all(ya, y, 'fitting leaves the target alone', 'y')
    q = ctx.matrix('q', 1, p)
    qa = ctx.array(q)
    pred, ins, res = ctx.flat(est.predict(qa)), ctx.flat(est.predict()), ctx.flat(est.residuals())
    seen = [view(ctx, m) for m in rec.models]
    held = lambda: [v for a in (est.data.X.values, est.data.y.values, est.data.y.unnormalized_y) for v in ctx.flat(a)]
    kept = held()
    ctx.eq_all(est.predict(Xin), ins, 'in-sample and explicit prediction', 'row')
    ctx.eq_all(Xin, flat, 'predicting leaves the covariates alone', 'X')
    ctx.eq_all(qa, q[0], 'predicting leaves the covariates alone', 'q')
    if frame:
        for i in range(n):
            for j in range(p):
                Xin.iloc[i, j] = 100.0 - 7 * i - j if cfg.get('grid') else ctx.real('other%d_%d' % (i, j))
        ctx.cover('frame')
    else:
        bump(ctx, Xin, 'other')
        ctx.cover('array')
    bump(ctx, ya, 'othery')
    for m, s in zip(rec.models, seen):
        same_view(ctx, view(ctx, m), s, 'changing the caller\'s arrays does not change the model')
    ctx.eq_all(held(), kept, 'changing the caller\'s arrays does not change the estimator\'s data', '')
    ctx.eq_all(est.predict(qa), pred, 'changing the caller\'s arrays does not change predictions', '')
    ctx.eq_all(est.predict(), ins, 'changing the caller\'s arrays does not change in-sample predictions', '')
    ctx.eq_all(est.residuals(), res, 'changing the caller\'s arrays does not change residuals', '')


def trees(ctx, cfg):
    """Each tree has its own target."""
    from bartpy.data import Data
    from bartpy.model import Model
    from bartpy.sigma import Sigma
    n, T = cfg['n'], cfg['trees']
    X = covariates(ctx, cfg)
    y = targets(ctx, n)[0]
    Xa, ya = ctx.array(X), ctx.array(y)
    data = Data(Xa, ya, normalize=bool(ctx.choose('normalize', 2)))
    dy = ctx.flat(data.y.values)
    model = Model(data, Sigma(1., 1., 1.), n_trees=T, initializer=None)
    for k, t in enumerate(model.trees):
        root = Ref(0, [], t.nodes[0])
        for g in range(cfg.get('grown', 0)):
            moves = legal_moves(X, root, cfg['p'])
            if moves:
                apply_move(t, X, moves[ctx.choose('g%d_%d' % (k, g), len(moves))])
    before = [[(nd, ctx.flat(nd.data.y.values), nd.data.y.summed_y()) for nd in t.nodes] for t in model.trees]
    which = ctx.choose('which', T)
    new = ctx.reals('new', n)
    na = ctx.array(new)
    model.trees[which].update_y(na)
    for k, t in enumerate(model.trees):
        if k == which:
            for nd in t.nodes:
                ctx.eq_all(nd.data.y.values, new, 'updated tree sees the new target', '')
        else:
            for nd, v, s in before[k]:
                ctx.eq_all(nd.data.y.values, v, 'updating one tree leaves the other trees', '')
                ctx.eq(nd.data.y.summed_y(), s, 'updating one tree leaves the other trees', 'sum')
            ctx.cover('other tree')
    ctx.eq_all(model.data.y.values, dy, 'updating one tree leaves the model\'s target', '')
    ctx.eq_all(data.y.values, dy, 'updating one tree leaves the caller\'s data', '')
    ctx.eq_all(ya, y, 'updating one tree leaves the caller\'s target', '')
    ctx.eq_all(Xa, [v for r in X for v in r], 'updating one tree leaves the caller\'s covariates', '')
    # the caller changes its data: no tree notices
    now = [[(nd, ctx.flat(nd.data.y.values), nd.data.y.summed_y(), nd.data.X.n_obsv, ctx.flat(nd.data.X.values)) for nd in t.nodes] for t in model.trees]
    data.update_y(ctx.array(ctx.reals('later', n)))
    bump(ctx, ya, 'b')
    bump(ctx, Xa, 'c')
    for t, rows in zip(model.trees, now):
        for nd, v, s, c, xs in rows:
            ctx.eq_all(nd.data.y.values, v, 'the caller\'s later changes leave the trees', '')
            ctx.eq_all(nd.data.X.values, xs, 'the caller\'s later changes leave the trees', 'X')
            ctx.eq(nd.data.y.summed_y(), s, 'the caller\'s later changes leave the trees', 'sum')
            ctx.eq(nd.data.X.n_obsv, c, 'the caller\'s later changes leave the trees', 'rows')
    ctx.eq_all(model.data.y.values, dy, 'the caller\'s later changes leave the model', '')


def sampled(ctx, cfg):
    """A real chain (arbitrary draws) on a small data set."""
    from bartpy.mutation import GrowMutation
    from bartpy.node import split_node
    from bartpy.sklearnmodel import SklearnModel
    from bartpy.tree import mutate
    n, p = cfg['n'], cfg['p']
    X = [[float(v) for v in r[:p]] for r in GRIDS['ties'][:n]]
    y = [float(v) for v in (1, 5, 2, 2, 7)][:n] if cfg.get('known') else ctx.reals('y', n)
    Xa, ya = ctx.array(X), ctx.array(y)
    Xin = ctx.dataframe(X) if cfg.get('frame') else Xa

    class Moves:
        """Grows or keeps the tree, arbitrarily (what is proposed and accepted: C05-C10)."""

        def step(self, model, tree):
            leaf = tree.leaf_nodes[0]
            col = ctx.choose('move%d' % ctx.moves, p + 1)
            ctx.moves += 1
            if not col or not leaf.is_splittable() or len(tree.nodes) > 1:
                return None
            new = split_node(leaf, conditions(col - 1, X[0][col - 1]))
            mutate(tree, GrowMutation(leaf, new))
            return new

        def __deepcopy__(self, memo):
            return self
    ctx.moves = 0
    kw = dict(initializer=None, tree_sampler=Moves())
    est = SklearnModel(n_trees=cfg['trees'], n_chains=1, n_samples=cfg.get('samples', 1), n_burn=0, thin=1., n_jobs=1, store_in_sample_predictions=True, **kw)
    est.fit(Xin, ya)
    ctx.eq_all(Xin, [v for r in X for v in r], 'sampling leaves the covariates alone', 'X')
    ctx.eq_all(ya, y, 'sampling leaves the target alone', 'y')
    ctx.cover('sampled')
    m = est.model_samples[0]
    if any(len(t.nodes) > 1 for t in m.trees):
        ctx.cover('grown')
    bump(ctx, ya, 'b')
    if not cfg.get('frame'):
        bump(ctx, Xa, 'c')
    ctx.eq_all(est.predict(ctx.array(X)), ctx.flat(est.predict()), 'later changes by the caller', 'prediction of the training rows')


def frames(ctx, cfg):
    """A DataFrame and its values give the same model."""
    n, p = cfg['n'], cfg['p']
    X = ctx.matrix('x', n, p)
    y, lo, hi = targets(ctx, n)
    got = []
    for kind in range(2):
        est, rec = estimator(ctx, cfg, store_in_sample_predictions=True)
        rec.n = 0          # the same sweeps for both
        if kind:
            df = ctx.dataframe(X, ['c%d' % (p - j) for j in range(p)])
            df.index = [7 * (n - i) for i in range(n)]
            Xin = df
        else:
            Xin = ctx.array(X)
        est.fit(Xin, ctx.array(y))
        m = rec.models[0]
        got.append((view(ctx, m), est, Xin))
    same_view(ctx, got[1][0], got[0][0], 'DataFrame and array give the same model')
    q = ctx.matrix('q', 2, p)
    a = ctx.flat(got[0][1].predict(ctx.array(q)))
    df = ctx.dataframe(q, got[1][2].columns)
    df.index = [9, 3]
    for e in (got[0][1], got[1][1]):
        ctx.eq_all(e.predict(df), a, 'DataFrame and array give the same predictions', '')
        ctx.eq_all(e.predict(ctx.array(q)), a, 'DataFrame and array give the same predictions', '')
    ctx.cover('frames')


def empty(ctx, cfg):
    from bartpy.sklearnmodel import SklearnModel
    rows = ctx.choose('rows', 3)
    frame = ctx.choose('frame', 2)
    est = SklearnModel(n_trees=1, n_chains=1, n_samples=1, n_burn=0, n_jobs=1)
    import numpy as np
    import pandas as pd
    a = np.zeros((0, ctx.choose('cols', 3)) if rows == 0 else (rows, 0))
    X = pd.DataFrame(a) if frame else a
    y = ctx.array(ctx.reals('y', rows)) if rows else np.zeros(0)
    ctx.raises(ValueError, lambda: est.fit(X, y), 'empty covariates are rejected')
    ctx.cover('no rows' if rows == 0 else 'no columns')


HARNESSES = [
    Harness(fitting, quick=[dict(n=2, p=1, chains=1, samples=1, trees=1), dict(n=2, p=2, chains=2, samples=1, trees=2, grid=1), dict(n=3, p=1, chains=1, samples=2, trees=2, grid=1)] + autos(1, n=12, p=4, chains=2, samples=3, trees=4, grid=1, free=['frame']),
            thorough=[dict(n=3, p=2, chains=2, samples=2, trees=3), dict(n=4, p=1, chains=2, samples=2, trees=2)], covers=['frame', 'array'],
            bounds='2-3 rows (thorough 4), 1-2 columns, arbitrary targets and overwritten values, arrays and DataFrames'),
    Harness(trees, quick=[dict(n=2, p=1, trees=1), dict(n=2, p=1, trees=3), dict(n=3, p=1, trees=2, grown=1)] + autos(4, n=12, p=4, trees=5, grown=4, grid='wide', free=['normalize']), thorough=[dict(n=4, p=2, trees=3, grown=1, grid='ties'), dict(n=3, p=1, trees=2, grown=2)],
            covers=['other tree'], bounds='1-3 trees of up to three leaves on 2-3 rows (thorough 4), arbitrary targets'),
    Harness(sampled, quick=[dict(n=2, p=1, trees=1), dict(n=3, p=2, trees=1, known=1, frame=1)], thorough=[dict(n=3, p=1, trees=2, known=1), dict(n=3, p=2, trees=1, samples=2, known=1)],
            covers=['sampled', 'grown'], bounds='one to two sweeps with the real leaf and noise samplers over 1-2 trees with arbitrary moves and draws', rng_budget=40),
    Harness(frames, quick=[dict(n=2, p=2, chains=1, samples=1, trees=2)], thorough=[dict(n=3, p=2, chains=2, samples=1, trees=2)], covers=['frames'], bounds='2 rows (thorough 3), any index and column names'),
    Harness(empty, quick=[{}], thorough=[{}], covers=['no rows', 'no columns'], bounds='0 rows with 0-2 columns, 1-2 rows with 0 columns'),
]

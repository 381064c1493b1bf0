"""In-sample and explicit prediction of the training rows agree."""
from symex.harness import Harness, autos
from .common import *

MODULES = TREE_MODULES + ('bartpy.model',)
ASSUMPTIONS = [REALS, NONAN, 'new leaf values are set only after the target was refreshed since the last reading of predictions (the sampler\'s order)']


def training_rows(ctx, cfg):
    if cfg.get('grid'):
        return covariates(ctx, cfg)
    if cfg.get('concrete'):
        return [[float((7 * i) % cfg['n']) if j == 0 else float(i // 2) for j in range(cfg['p'])] for i in range(cfg['n'])]
    return ctx.matrix('x', cfg['n'], cfg['p'])


def agree(ctx, obj, X, expected, where):
    a = ctx.flat(obj.predict())
    b = ctx.flat(obj.predict(ctx.array(X)))
    ctx.eq_all(a, b, 'in-sample = explicit', where)
    ctx.eq_all(a, expected, 'in-sample = routed leaf', where)


def single(ctx, cfg):
    n, p = cfg['n'], cfg['p']
    X = training_rows(ctx, cfg)
    tree, root = new_tree(ctx, X, ctx.reals('y', n))
    root.value = 0.0
    if cfg.get('early') and ctx.choose('early', 2):
        ctx.cover('predicted before growing')
        agree(ctx, tree, X, [0.0] * n, 'fresh tree')
    for s in range(cfg['steps']):
        k = ctx.choose('kind%d' % s, 4 if cfg.get('stale') else 3)          # structure change, new values only, both; structure change on the old target
        if k != 3:
            tree.update_y(ctx.array(ctx.reals('y%d_' % s, n)))
        else:
            ctx.cover('structure change without refreshing the target')
        if k != 1:
            op = random_op(ctx, tree, root, s, p, ctx.real('t%d' % s) if not cfg.get('concrete') and not cfg.get('grid') else X[ctx.choose('thr%d' % s, n)][ctx.choose('of%d' % s, p) if cfg.get('grid') else 0])
            ctx.cover(op)
            for l in root.leaves():
                if l.value is None:
                    l.value = 0.0
        if k != 0:
            ctx.cover('redraw')
            set_values(ctx, root, 'v%d_' % s)
        if s == cfg['steps'] - 1 or not cfg.get('lazy') or ctx.choose('read%d' % s, 2):
            agree(ctx, tree, X, [root.route(r).value for r in X], 'step %d' % s)


def ensemble(ctx, cfg):
    from bartpy.data import Data
    from bartpy.model import Model
    from bartpy.sigma import Sigma
    n, p = cfg['n'], cfg['p']
    X = training_rows(ctx, cfg)
    y = ctx.reals('y', n)
    model = Model(Data(ctx.array(X), ctx.array(y)), Sigma(1., 1., 1.), n_trees=cfg['trees'], initializer=None)
    roots = []
    for t in model.trees:
        r = Ref(0, [], t.nodes[0])
        r.value = 0.0
        roots.append(r)
    fit = lambda rows: [total(r.route(row).value for r in roots) for row in rows]
    if ctx.choose('early', 2):
        agree(ctx, model, X, fit(X), 'fresh model')
    step = 0
    for sweep in range(cfg['sweeps']):
        for k, tree in enumerate(model.refreshed_trees()):
            if ctx.choose('m%d' % step, 2):
                random_op(ctx, tree, roots[k], step, p, ctx.real('t%d' % step) if not cfg.get('concrete') and not cfg.get('grid') else X[ctx.choose('thr%d' % step, n)][ctx.choose('of%d' % step, p) if cfg.get('grid') else 0])
                ctx.cover('mutated')
                for l in roots[k].leaves():
                    if l.value is None:
                        l.value = 0.0
            set_values(ctx, roots[k], 'v%d_' % step)
            step += 1
        agree(ctx, model, X, fit(X), 'after sweep %d' % sweep)
    if sum(len(r.leaves()) > 1 for r in roots) > 1:
        ctx.cover('two grown trees')


HARNESSES = [
    Harness(single, quick=[dict(n=2, p=1, steps=2, early=1, lazy=1, stale=1), dict(n=3, p=1, steps=2, concrete=1, lazy=1, early=1, stale=1), dict(n=3, p=1, steps=3, concrete=1, lazy=1, early=1), dict(n=1, p=2, steps=2, lazy=1)]
            + autos(6, n=12, p=4, steps=10, grid='wide', lazy=1, early=1, stale=1) + autos(3, n=1, p=3, steps=6, lazy=1, early=1),
            thorough=[dict(n=2, p=1, steps=3, early=1, lazy=1, stale=1), dict(n=3, p=2, steps=3, concrete=1, lazy=1, early=1), dict(n=2, p=2, steps=2, lazy=1, early=1)],
            covers=['grow', 'prune', 'redraw', 'predicted before growing', 'structure change without refreshing the target'],
            bounds='one tree, 1-3 training rows, 1-2 columns (arbitrary real values, or a fixed grid with thresholds among the rows), every '
                   'script of up to 3 rounds of target update (or none) / grow or prune / redraw, predictions read or not read after each round; also nine fixed scripts of 6-10 rounds on up to 12 rows and 4 columns'),
    Harness(ensemble, quick=[dict(n=2, p=1, trees=2, sweeps=1), dict(n=2, p=1, trees=2, sweeps=2, concrete=1)]
            + autos(4, n=12, p=4, trees=5, sweeps=5, grid='wide') + autos(2, n=5, p=2, trees=3, sweeps=14, grid='distinct') + autos(2, n=40, p=4, trees=2, sweeps=3, grid='late') + autos(1, n=3, p=1, trees=150, sweeps=1, concrete=1),
            thorough=[dict(n=2, p=1, trees=2, sweeps=2), dict(n=3, p=1, trees=2, sweeps=2, concrete=1), dict(n=2, p=1, trees=3, sweeps=1)],
            covers=['mutated', 'two grown trees'],
            bounds='2-3 trees, 2-3 training rows, 1-2 sweeps over the trees with any grow/prune/none per tree and arbitrary new leaf values; also eight fixed scripts of 3-14 sweeps over 2-5 trees on 5-40 rows, and one sweep over 150 trees'),
]

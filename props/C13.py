"""Backfitting: every tree sees the residual of the others."""
from symex.harness import Harness, autos
from .common import *

MODULES = TREE_MODULES + ('bartpy.model', 'bartpy.initializers.initializer', 'bartpy.sigma')
ASSUMPTIONS = [REALS, NONAN, 'trees are changed only while they are handed out (the sampler\'s protocol)']


def others(roots, k, row):
    return total(r.route(row).value for j, r in enumerate(roots) if j != k)


def seen(ctx, tree, root, k, roots, X, y, where):
    want = [y[i] - others(roots, k, X[i]) for i in range(len(X))]
    for ref in root.walk():
        ctx.eq_all(ref.node.data.y.values, want, 'target of every node is the residual of the other trees', where)
        rows = ref.rows(X)
        ctx.eq(ref.node.data.y.summed_y(), total(want[i] for i in rows), 'target sum of every node', where)


def change(ctx, cfg, tree, root, X, tag):
    k = ctx.choose('what' + tag, 3)
    if k == 0:
        ctx.cover('unchanged')
        return
    if k == 1:
        moves = legal_moves(X, root, cfg['p'])
        if not moves:
            ctx.cut('no legal move')
        mv = moves[ctx.choose('op' + tag, len(moves))]
        apply_move(tree, X, mv)
        ctx.cover(mv[0])
        for l in root.leaves():
            if l.value is None:
                l.value = 0.0
        if ctx.choose('keep' + tag, 2):
            return
    set_values(ctx, root, 'v' + tag + '_')
    ctx.cover('new values')


def sweeps(ctx, cfg):
    from bartpy.data import Data
    from bartpy.initializers.initializer import Initializer
    from bartpy.model import Model
    from bartpy.sigma import Sigma
    n, p, T = cfg['n'], cfg['p'], cfg['trees']
    X = covariates(ctx, cfg)
    y = ctx.reals('y', n)
    roots = []

    class Init(Initializer):
        def initialize_tree(self, tree):
            if not roots:      # the trees all exist, as single leaves, before the first is handed out
                for _ in range(T):
                    r = Ref(0, [], None)
                    r.value = 0.0
                    roots.append(r)
            k = [r.node for r in roots].index(None)
            roots[k].node = tree.nodes[0]
            seen(ctx, tree, roots[k], k, roots, X, y, 'initialisation of tree %d' % k)
            for b in range(cfg.get('bulk', 0)):
                grows = [m for m in legal_moves(X, roots[k], cfg['p']) if m[0] == 'grow']
                if grows:
                    apply_move(tree, X, grows[ctx.choose('b%d_%d' % (k, b), len(grows))])
            change(ctx, cfg, tree, roots[k], X, 'i%d' % k)
            for l in roots[k].leaves():
                if l.value is None:
                    l.value = 0.0

    init = Init() if cfg.get('init') else None
    model = Model(Data(ctx.array(X), ctx.array(y)), Sigma(1., 1., 1.), n_trees=T, initializer=init)
    if init is None:
        for t in model.trees:
            r = Ref(0, [], t.nodes[0])
            r.value = 0.0
            roots.append(r)
    else:
        ctx.check(all(r.node is not None for r in roots) and len(roots) == T, 'every tree is initialised once')
        ctx.cover('initialised')
    for q in range(cfg['sweeps']):
        handed = []
        for k, tree in enumerate(model.refreshed_trees()):
            handed.append(tree)
            seen(ctx, tree, roots[k], k, roots, X, y, 'sweep %d tree %d' % (q, k))
            change(ctx, cfg, tree, roots[k], X, '%d_%d' % (q, k))
        ctx.check(len(handed) == T and all(a is b for a, b in zip(handed, model.trees)), 'every tree is handed out once')
        fit = [total(r.route(row).value for r in roots) for row in X]
        ctx.eq_all(model.predict(), fit, 'prediction is the sum of the trees', 'sweep %d' % q)
        ctx.eq_all(model.residuals(), [y[i] - fit[i] for i in range(n)], 'residuals', 'sweep %d' % q)
        ctx.eq_all(model.data.y.values, y, 'training target unchanged', 'sweep %d' % q)


HARNESSES = [
    Harness(sweeps, quick=[dict(n=2, p=1, trees=2, sweeps=2, grid='distinct'), dict(n=3, p=1, trees=2, sweeps=1, grid='ties', init=1), dict(n=3, p=1, trees=3, sweeps=1, grid='ties'),
                           dict(n=2, p=1, trees=2, sweeps=1), dict(n=2, p=1, trees=1, sweeps=3, grid='distinct', init=1)]
            + autos(4, n=12, p=4, trees=5, sweeps=4, grid='wide', init=1) + autos(2, n=4, p=1, trees=3, sweeps=12, grid='distinct') + autos(2, n=40, p=4, trees=2, sweeps=3, grid='late', init=1, bulk=25) + autos(1, n=3, p=1, trees=120, sweeps=1, grid='distinct'),
            thorough=[dict(n=3, p=1, trees=2, sweeps=2, grid='distinct'), dict(n=2, p=1, trees=3, sweeps=2, grid='distinct'), dict(n=2, p=1, trees=2, sweeps=2), dict(n=3, p=1, trees=3, sweeps=1, grid='ties', init=1)],
            covers=['unchanged', 'grow', 'prune', 'new values', 'initialised'],
            bounds='1-3 trees, 2-3 rows (arbitrary reals or fixed), arbitrary targets and leaf values, up to 2-3 sweeps in which each tree is left, grown, pruned and/or given new values; '
                   'initialisation with any such change per tree; also six fixed scripts of 4-12 sweeps over 3-5 trees on 4-12 rows and two of 3 sweeps over trees of some 25 leaves on 40 rows, and one sweep over 120 trees'),
]

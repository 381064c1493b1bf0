"""Initialising from a fitted sklearn tree."""
from symex.harness import Harness, autos
from .common import *

MODULES = TREE_MODULES + ('bartpy.model', 'bartpy.initializers.sklearntreeinitializer', 'bartpy.sigma')
ASSUMPTIONS = [REALS, NONAN, 'a fitted sklearn tree is given by its documented arrays (children_left, children_right, feature, threshold, value); sklearn\'s own fitting '
               'is replaced by one that returns an arbitrary tree, its rounding of covariates to float32 is not modelled']


class Shape:
    """Reference of an sklearn tree: (column, threshold) and children, or a leaf; value everywhere."""

    def __init__(self, value):
        self.value, self.var, self.thr, self.left, self.right = value, None, None, None, None

    def route(self, row):
        n = self
        while n.left is not None:
            n = n.left if bool(row[n.var] <= n.thr) else n.right
        return n


class Arrays:
    """The arrays of sklearn.tree._tree.Tree."""


def arbitrary(ctx, cfg, tag=''):
    """Any shape with cfg['splits'] splits, arbitrary columns, thresholds and values."""
    root = Shape(ctx.real(tag + 'val0'))
    leaves, k = [root], 1
    for s in range(cfg['splits']):
        at = leaves.pop(ctx.choose('%sexpand%d' % (tag, s), len(leaves)))
        at.var = ctx.choose('%scolumn%d' % (tag, s), cfg['p'])
        at.thr = GRIDS['ties'][ctx.choose('%sat%d' % (tag, s), 6)][at.var] + (0.5 if ctx.choose('%soff%d' % (tag, s), 2) else 0) if cfg.get('known') else ctx.real('%sthr%d' % (tag, s))
        at.left, at.right = Shape(ctx.real('%sval%d' % (tag, k))), Shape(ctx.real('%sval%d' % (tag, k + 1)))
        k += 2
        leaves += [at.left, at.right]
    order = []
    if ctx.choose(tag + 'numbering', 2) if cfg['splits'] > 1 else 0:
        level = [root]                       # as grown best first
        while level:
            order += level
            level = [c for n in level if n.left is not None for c in (n.left, n.right)]
    else:
        def walk(n):                         # as grown depth first
            order.append(n)
            if n.left is not None:
                walk(n.left)
                walk(n.right)
        walk(root)
    ix = {id(n): i for i, n in enumerate(order)}
    t = Arrays()
    t.node_count = len(order)
    t.children_left = ctx.int_array([ix[id(n.left)] if n.left is not None else -1 for n in order])
    t.children_right = ctx.int_array([ix[id(n.right)] if n.left is not None else -1 for n in order])
    t.feature = ctx.int_array([n.var if n.left is not None else -2 for n in order])
    t.threshold = ctx.array([n.thr if n.left is not None else -2.0 for n in order])
    t.value = ctx.array([[[n.value]] for n in order])
    return root, t


def reference(shape, depth=0, conds=()):
    r = Ref(depth, list(conds), None)
    r.value = shape.value
    if shape.left is not None:
        r.var, r.thr = shape.var, shape.thr
        r.left = reference(shape.left, depth + 1, list(conds) + [(shape.var, shape.thr, 'L')])
        r.right = reference(shape.right, depth + 1, list(conds) + [(shape.var, shape.thr, 'R')])
    return r


def reproduces(ctx, tree, shape, X, y, new):
    ref = reference(shape)
    top = wellformed(ctx, tree, ref)
    ctx.eq_all(tree.predict(ctx.array(X)), [shape.route(r).value for r in X], 'predicts the value of the sklearn leaf', 'training row')
    ctx.eq_all(tree.predict(), [shape.route(r).value for r in X], 'predicts the value of the sklearn leaf', 'in-sample')
    ctx.eq_all(tree.predict(ctx.array(new)), [shape.route(r).value for r in new], 'predicts the value of the sklearn leaf', 'new row')

    def facts(node, r):
        rows = r.rows(X)
        ctx.eq(node.data.X.n_obsv, len(rows), 'row count', '')
        ctx.eq(node.data.y.summed_y(), total(y[i] for i in rows), 'target sum', '')
        got = [bool(b) for b in ctx.flat(node.split.condition())]
        ctx.check([i for i, b in enumerate(got) if b] == rows, 'rows of a node')
        if not r.is_leaf:
            c = node.most_recent_split_condition()
            ctx.check(int(c.splitting_variable) == r.var, 'splitting column')
            ctx.eq(c.splitting_value, r.thr, 'splitting value', '')
            facts(node.left_child, r.left)
            facts(node.right_child, r.right)
            ctx.cover('split')
        else:
            ctx.eq(node.current_value, r.value, 'leaf value', '')
    facts(top, ref)


def mapping(ctx, cfg):
    from bartpy.initializers.sklearntreeinitializer import map_sklearn_tree_into_bartpy
    n, p = cfg['n'], cfg['p']
    X = covariates(ctx, cfg)
    y = ctx.reals('y', n)
    tree, _ = new_tree(ctx, X, [0.0] * n)
    if ctx.choose('early', 2):
        tree.predict()
    y0 = ctx.array(y)
    tree.update_y(y0)
    shape, arrays = arbitrary(ctx, cfg)
    map_sklearn_tree_into_bartpy(tree, arrays)
    if cfg['splits'] == 0:
        ctx.cover('no split')
    reproduces(ctx, tree, shape, X, y, new_rows(ctx, cfg, 1, p))
    ctx.eq_all(tree.nodes[0].data.y.values, y, 'target unchanged', '')


def initializer(ctx, cfg):
    from sklearn.ensemble import GradientBoostingRegressor
    from bartpy.data import Data
    from bartpy.initializers.sklearntreeinitializer import SklearnTreeInitializer
    from bartpy.model import Model
    from bartpy.sigma import Sigma
    import numpy as np
    n, p = cfg['n'], cfg['p']
    X = covariates(ctx, cfg)
    y = ctx.reals('y', n)
    fits = []

    def fit(self, Xf, yf, *a, **k):
        shape, arrays = arbitrary(ctx, cfg, 'f%d_' % len(fits))
        fits.append((ctx.flat(Xf), ctx.flat(yf), shape))
        holder = Arrays()
        holder.tree_ = arrays
        self.estimators_ = np.empty((1, 1), dtype=object)
        self.estimators_[0, 0] = holder
        return self
    ctx.patch(GradientBoostingRegressor, 'fit', fit)
    flat = [v for r in X for v in r]
    if cfg.get('trees'):
        model = Model(Data(ctx.array(X), ctx.array(y)), Sigma(1., 1., 1.), n_trees=cfg['trees'], initializer=SklearnTreeInitializer())
        ctx.check(len(fits) == cfg['trees'], 'one sklearn tree per tree')
        for k, t in enumerate(model.trees):
            others = [total([0] + [fits[m][2].route(r).value for m in range(k)]) for r in X]
            want = [a - b for a, b in zip(y, others)]
            ctx.eq_all(fits[k][0], flat, 'fitted to the tree\'s covariates', '')
            ctx.eq_all(fits[k][1], want, 'fitted to the tree\'s current target', '')
            reproduces(ctx, t, fits[k][2], X, want, ctx.matrix('q', 1, p))
        ctx.cover('model')
    else:
        tree, _ = new_tree(ctx, X, [0.0] * n)
        tree.update_y(ctx.array(y))
        i = SklearnTreeInitializer(max_depth=3) if ctx.choose('depth', 2) else SklearnTreeInitializer()
        if ctx.choose('many', 2):
            i.initialize_trees(iter([tree]))
        else:
            i.initialize_tree(tree)
        ctx.eq_all(fits[0][0], flat, 'fitted to the tree\'s covariates', '')
        ctx.eq_all(fits[0][1], y, 'fitted to the tree\'s current target', '')
        reproduces(ctx, tree, fits[0][2], X, y, ctx.matrix('q', 1, p))
        ctx.cover('tree')


HARNESSES = [
    Harness(mapping, quick=[dict(n=2, p=1, splits=0), dict(n=2, p=2, splits=1), dict(n=2, p=1, splits=2), dict(n=3, p=2, splits=2, grid='ties'), dict(n=1, p=1, splits=3, grid='distinct')]
            + autos(2, n=1, p=3, splits=5) + autos(2, n=6, p=2, splits=4, grid='ties', known=1) + autos(2, n=6, p=2, splits=40, grid='ties', known=1, fixed=8),
            thorough=[dict(n=2, p=2, splits=2), dict(n=3, p=1, splits=3), dict(n=3, p=2, splits=3, grid='ties'), dict(n=1, p=1, splits=4, grid='distinct')],
            covers=['no split', 'split'], bounds='every shape with 0-3 splits (thorough 4), arbitrary columns, thresholds and node values, depth-first and best-first numbering, 1-3 rows and an arbitrary new row; scripted shapes of 4-5 and 40 splits'),
    Harness(initializer, quick=[dict(n=2, p=1, splits=1), dict(n=2, p=1, splits=1, trees=2, grid='distinct')], thorough=[dict(n=3, p=1, splits=2, grid='distinct'), dict(n=2, p=1, splits=1, trees=3, grid='distinct')],
            covers=['tree', 'model'], bounds='initialising one tree or a model of 2 (thorough 3) trees with arbitrary sklearn trees of 1-2 splits'),
]

"""The leaves of a tree partition feature space by the splits made."""
from symex.harness import Harness, autos
from .common import *

MODULES = TREE_MODULES
ASSUMPTIONS = [REALS, NONAN]


def partition(ctx, cfg):
    n, p, steps = cfg['n'], cfg['p'], cfg['steps']
    X = covariates(ctx, cfg)
    y = [0.0] * n
    tree, root = new_tree(ctx, X, y)
    ops = []
    at = root
    for j, t, side in cfg.get('chain', ()):
        grow(tree, at, j, float(t))
        at = at.left if side == 'L' else at.right
    for s in range(steps):
        ops.append(random_op(ctx, tree, root, s, p, X[ctx.choose('row%d' % s, n)][ctx.choose('of%d' % s, p)] if cfg.get('grid') and (s != 5 or cfg.get('fixed')) else ctx.real('t%d' % s)))
    ctx.cover('prune' if 'prune' in ops else 'grow only')
    if len(root.leaves()) > 2:
        ctx.cover('three leaves')
    set_values(ctx, root)
    new = new_rows(ctx, cfg, cfg.get('new', 1), p)
    leaves = root.leaves()
    real_leaves = tree.leaf_nodes
    ctx.check(same_ids(real_leaves, [l.node for l in leaves]), 'leaves', 'leaf view')
    # membership of the training rows and of new rows
    Q = ctx.array(new)
    XA = ctx.array(X)
    for which, rows, member in (('new row', new, lambda l: l.node.split.condition(Q)),
                                ('training row', X, lambda l: l.node.split.condition()),
                                ('training row as new row', X, lambda l: l.node.split.condition(XA))):
        conds = [[bool(b) for b in member(l)] for l in leaves]
        for i, row in enumerate(rows):
            dest = root.route(row)
            for l, c in zip(leaves, conds):
                ctx.check(len(c) == len(rows), 'routing', 'condition length')
                ctx.check(c[i] == (l is dest), 'routing', '%s %d in leaf %s' % (which, i, [x[2] for x in l.conds]))
    ctx.eq_all(tree.predict(Q), [root.route(r).value for r in new], 'prediction', 'new rows')
    ctx.eq_all(tree.predict(XA), [root.route(r).value for r in X], 'prediction', 'training rows as new rows')
    if cfg.get('insample', True):
        ctx.eq_all(tree.predict(), [root.route(r).value for r in X], 'prediction', 'in sample')


HARNESSES = [
    Harness(partition, quick=[dict(n=1, p=1, steps=1, new=2), dict(n=1, p=2, steps=2), dict(n=2, p=1, steps=3), dict(n=1, p=2, steps=3)]
            + autos(3, n=1, p=3, steps=5) + autos(6, n=12, p=4, steps=8, grid="wide") + autos(2, n=40, p=4, steps=6, grid='late') + autos(1, n=40, p=2, steps=5, grid='deep', fixed=8, chain=[(1, 0, 'R')] + [(0, 38 - i, 'L') for i in range(16)] + [(0, 3 + i, 'R') for i in range(16)]),
            thorough=[dict(n=1, p=1, steps=1, new=2), dict(n=2, p=2, steps=2), dict(n=2, p=1, steps=4), dict(n=1, p=2, steps=4), dict(n=2, p=2, steps=3)],
            covers=['prune', 'grow only', 'three leaves'],
            bounds='every script of 1-3 (thorough 4) grow/prune operations on any leaf/column with arbitrary real thresholds, 1-2 arbitrary '
                   'training rows, 1-2 arbitrary new rows, 1-2 columns, arbitrary leaf values; also eleven fixed scripts of 5-8 operations on 3-4 columns, most of them on 12 or 40 fixed rows with thresholds mostly among the values, and a branch of 33 splits on 40 rows'),
]

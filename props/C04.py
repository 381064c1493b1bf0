"""Well-formed trees; illegal mutations refused."""
from symex.harness import Harness, autos
from .common import *

MODULES = TREE_MODULES
ASSUMPTIONS = [REALS, NONAN]


def views(ctx, tree, root, X, p, where):
    wellformed(ctx, tree, root, 'structure')
    ctx.check(same_ids(tree.leaf_nodes, [l.node for l in root.leaves()]), 'leaf view', where)
    ctx.check(same_ids(tree.decision_nodes, [l.node for l in root.internals()]), 'internal view', where)
    ctx.check(same_ids(tree.prunable_decision_nodes, [l.node for l in root.internals() if l.prunable()]), 'prunable view', where)
    if all(l.rows(X) for l in root.leaves()):      # no sampler leaves a leaf without rows
        ctx.check(same_ids(tree.splittable_leaf_nodes, [l.node for l in root.leaves() if splittable_columns(ctx, X, l.rows(X), p)]), 'splittable view', where)


def mutations(ctx, cfg):
    from bartpy.mutation import GrowMutation, PruneMutation
    from bartpy.node import LeafNode, split_node
    from bartpy.tree import mutate
    n, p = cfg['n'], cfg['p']
    if cfg.get('grid'):
        X = covariates(ctx, cfg)
    elif cfg.get('concrete'):
        X = [[float((i * (3 + 2 * j)) % n) for j in range(p)] for i in range(n)]
    else:
        X = ctx.matrix('x', n, p)
    tree, root = new_tree(ctx, X, [0.0] * n)
    for s in range(cfg['steps']):
        if cfg.get('look') and ctx.choose('look%d' % s, 2):
            views(ctx, tree, root, X, p, 'step %d' % s)
        thr = X[ctx.choose('thr%d' % s, n)][ctx.choose('of%d' % s, p) if cfg.get('grid') else 0] if cfg.get('concrete') or cfg.get('grid') else ctx.real('t%d' % s)
        if cfg.get('deep'):      # one long branch
            end = root
            while not end.is_leaf:
                end = end.right if len(end.right.rows(X)) > 1 else end.left
            grow(tree, end, 0, sorted(r[0] for r in X)[s])
            ctx.cover('deep')
            continue
        ctx.cover(random_op(ctx, tree, root, s, p, thr))
    views(ctx, tree, root, X, p, 'end')
    # illegal mutations
    for l in root.leaves():
        ctx.raises(TypeError, lambda: mutate(tree, PruneMutation(l.node, LeafNode(l.node.split, depth=l.node.depth))), 'prune of a leaf refused')
    for d in root.internals():
        if not d.prunable():
            ctx.cover('unprunable')
            ctx.raises(TypeError, lambda: mutate(tree, PruneMutation(d.node, LeafNode(d.node.split, depth=d.node.depth))), 'prune above an internal node refused')
        ctx.raises(TypeError, lambda: mutate(tree, GrowMutation(d.node, split_node(LeafNode(d.node.split, depth=d.node.depth), conditions(0, X[0][0])))),
                   'grow of an internal node refused')
    views(ctx, tree, root, X, p, 'after refusals')


HARNESSES = [
    Harness(mutations, quick=[dict(n=2, p=1, steps=2), dict(n=4, p=1, steps=4, concrete=1), dict(n=3, p=2, steps=2, concrete=1, look=1), dict(n=2, p=1, steps=3)]
            + autos(8, n=12, p=4, steps=12, grid='wide', look=1) + autos(4, n=6, p=2, steps=20, grid='ties', look=1) + autos(1, n=40, p=2, steps=34, grid='deep', deep=1),
            thorough=[dict(n=3, p=1, steps=2), dict(n=4, p=1, steps=5, concrete=1), dict(n=3, p=2, steps=3, concrete=1, look=1), dict(n=2, p=2, steps=3)],
            covers=['grow', 'prune', 'unprunable', 'deep'],
            bounds='every script of up to 4 (thorough 5) grows and prunes on any leaf/column/node; 2-3 rows with arbitrary real values and thresholds, or a '
                   'fixed grid of 4 rows with thresholds among the rows (leaves without rows too, except in the splittable view); also twelve fixed scripts of 12-20 operations on 6-12 rows and 2-4 columns, and a branch of depth 34'),
]

"""Marginal likelihood ratio."""
from symex.harness import Harness, autos
from .common import *

MODULES = TREE_MODULES + ('bartpy.model', 'bartpy.samplers.unconstrainedtree.likihoodratio', 'bartpy.samplers.oblivioustrees.likihoodratio')
ASSUMPTIONS = [REALS, NONAN]


def likelihood(ctx, cfg):
    from bartpy.mutation import GrowMutation, PruneMutation
    from bartpy.node import LeafNode, split_node
    from bartpy.tree import Tree
    if cfg['sampler'] == 'unconstrained':
        from bartpy.samplers.unconstrainedtree.likihoodratio import UniformTreeMutationLikihoodRatio
    else:
        from bartpy.samplers.oblivioustrees.likihoodratio import UniformTreeMutationLikihoodRatio
    nl, nr, extra = 1 + ctx.choose('left', cfg['most']), 1 + ctx.choose('right', cfg['most']), cfg.get('extra', 0)
    n = nl + nr + extra
    # rows left of the split, right of it, and rows that belong to another node; interleaved
    side = [0] * nl + [1] * nr + [2] * extra
    side = side[::2] + side[1::2]
    X = [[float(s)] for s in side]
    y = ctx.reals('y', n)
    tree, root = new_tree(ctx, X, y)
    if extra:
        grow(tree, root, 0, 1.0)
        at = root.left
        ctx.cover('below the root')
    else:
        at = root
    if ctx.choose('update', 2):
        y = ctx.reals('z', n)
        tree.update_y(ctx.array(y))
    sigma, k = ctx.real('sigma', positive=True), ctx.real('k', positive=True)
    trees = [tree] + [Tree([LeafNode(at.node.split)]) for _ in range(cfg['trees'] - 1)]
    model = make_model(ctx, trees, sigma=sigma, k=k)
    t, v = sigma * sigma, 1 / (4 * k * k * cfg['trees'])
    sums = [total(y[i] for i in range(n) if side[i] == s) for s in (0, 1)]
    want = log_marginal(ctx, nl, sums[0], t, v) + log_marginal(ctx, nr, sums[1], t, v) - log_marginal(ctx, nl + nr, sums[0] + sums[1], t, v)
    lr = UniformTreeMutationLikihoodRatio()
    new = split_node(at.node, conditions(0, 0.0))
    g = GrowMutation(at.node, new)
    if ctx.choose('used', 2):
        assess_elsewhere(ctx, lr.log_likihood_ratio, tree, g)
    ctx.eq(lr.log_likihood_ratio(model, tree, g), want, 'grow', '%d+%d rows' % (nl, nr))
    from bartpy.tree import mutate
    mutate(tree, g)
    if ctx.choose('later', 2):
        ctx.cover('target changed between grow and prune')
        y = ctx.reals('w', n)
        tree.update_y(ctx.array(y))
        sums = [total(y[i] for i in range(n) if side[i] == s) for s in (0, 1)]
        want = log_marginal(ctx, nl, sums[0], t, v) + log_marginal(ctx, nr, sums[1], t, v) - log_marginal(ctx, nl + nr, sums[0] + sums[1], t, v)
    pr = PruneMutation(new, LeafNode(new.split, depth=new.depth))
    ctx.eq(lr.log_likihood_ratio(model, tree, pr), -1 * want, 'prune', '%d+%d rows' % (nl, nr))
    ctx.cover('compared')


HARNESSES = [
    Harness(likelihood, quick=[dict(sampler=s, most=m, trees=t, extra=e) for s in ('unconstrained', 'oblivious') for m, t, e in ((3, 1, 0), (2, 4, 0), (2, 2, 0), (2, 1, 2))]
            + [c for s in ('unconstrained', 'oblivious') for c in autos(2, sampler=s, most=12, trees=200, extra=3)],
            thorough=[dict(sampler=s, most=m, trees=t, extra=e) for s in ('unconstrained', 'oblivious') for m, t, e in ((6, 1, 0), (3, 4, 2), (3, 3, 0), (3, 9, 1), (2, 50, 0))],
            covers=['used before', 'compared', 'below the root', 'target changed between grow and prune'],
            bounds='1-3 (thorough 6) rows in each child, arbitrary targets, sigma > 0 and k > 0, 1, 2 or 4 (thorough up to 50) trees, splits at the root and below it'),
]

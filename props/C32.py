"""The level-wise sampler's ratio of each node is exact, and opposite for the reverse."""
from symex.harness import Harness, autos
from .common import *

MODULES = TREE_MODULES + ('bartpy.model', 'bartpy.samplers.oblivioustrees.treemutation', 'bartpy.samplers.oblivioustrees.likihoodratio')
ASSUMPTIONS = [REALS, NONAN, 'the level-wise tree sampler; grow and prune probabilities are positive and sum to one',
               'whether the joint move of a whole level is reversible is not claimed', 'exp and log are handled exactly as formal logarithms of rational functions; x**beta is an uninterpreted positive function, monotone where needed']


def ratio(ctx, cfg):
    from bartpy.mutation import GrowMutation, PruneMutation
    from bartpy.node import LeafNode, split_node
    from bartpy.samplers.oblivioustrees.treemutation import get_tree_sampler
    from bartpy.tree import mutate
    n, p = cfg['n'], cfg['p']
    y = ctx.reals('y', n)
    tree, root, X = some_tree(ctx, cfg, y)
    alpha, beta = ctx.real('alpha', lo=0, hi=1, open=True), ctx.real('beta', nonneg=True)
    sigma, k = ctx.real('sigma', positive=True), ctx.real('k', positive=True)
    pg = ctx.real('p_grow', lo=0, hi=1, open=True)
    model = make_model(ctx, [tree], sigma=sigma, alpha=alpha, beta=beta, k=k)
    t, v = sigma * sigma, 1 / (4 * k * k)
    lr = get_tree_sampler(pg, 1 - pg).likihood_ratio
    moves = legal_moves(X, root, p)
    if not moves:
        return
    kind, at, j, i = moves[ctx.choose('move', len(moves))]
    ctx.cover(kind)
    used = ctx.choose('used', 2)
    if at.depth:
        ctx.cover('below the root')

    def split_prob(d):
        return alpha * ctx.pow(1 + d, -beta)

    def fit(ref):
        rows = ref.rows(X)
        return log_marginal(ctx, len(rows), total(y[q] for q in rows), t, v)
    d = at.depth
    structure = ctx.log(split_prob(d)) + 2 * ctx.log(1 - split_prob(d + 1)) - ctx.log(1 - split_prob(d))
    choice = ctx.log(1 - pg) - ctx.log(pg)
    before = snapshot(ctx, tree)
    if kind == 'grow':
        m = GrowMutation(at.node, split_node(at.node, conditions(j, X[i][j])))
        if used:
            assess_elsewhere(ctx, lr.log_probability_ratio, tree, m)
        got = lr.log_probability_ratio(model, tree, m)
        same_snapshot(ctx, before, snapshot(ctx, tree), 'assessing a move changes nothing')
        base = fit(at)
        mutate(tree, m)
        adopt_grow(at, m.updated_node, j, X[i][j])
        want = fit(at.left) + fit(at.right) - base + structure + choice
        back = PruneMutation(m.updated_node, LeafNode(m.updated_node.split, depth=m.updated_node.depth))
    else:
        m = PruneMutation(at.node, LeafNode(at.node.split, depth=at.node.depth))
        if used:
            assess_elsewhere(ctx, lr.log_probability_ratio, tree, m)
        got = lr.log_probability_ratio(model, tree, m)
        same_snapshot(ctx, before, snapshot(ctx, tree), 'assessing a move changes nothing')
        both = fit(at.left) + fit(at.right)
        want = fit(at) - both - structure - choice
        var, thr = at.var, at.thr
        mutate(tree, m)
        adopt_prune(at, m.updated_node)
        back = GrowMutation(m.updated_node, split_node(m.updated_node, conditions(var, thr)))
    ctx.eq(got, want, 'ratio of a %s' % kind, 'depth %d' % d)
    ctx.eq(lr.log_probability_ratio(model, tree, back), -1 * got, 'a move and its reverse are opposite', kind)


HARNESSES = [
    Harness(ratio, quick=[dict(n=2, p=1, ops=0), dict(n=3, p=1, ops=0), dict(n=3, p=1, ops=1), dict(n=2, p=2, ops=1), dict(n=5, p=2, ops=2, grid='ties')]
            + autos(4, n=12, p=4, ops=6, grid='wide', free=['move']) + autos(3, n=40, p=4, ops=3, grid='late') + autos(1, n=40, p=4, ops=0, grid='late', free=['move']),
            thorough=[dict(n=3, p=1, ops=2), dict(n=4, p=1, ops=1), dict(n=3, p=2, ops=1), dict(n=5, p=2, ops=3, grid='ties'), dict(n=5, p=1, ops=4, grid='distinct')],
            covers=['used before', 'grow', 'prune', 'below the root'],
            bounds='any legal move from trees after 0-2 (thorough 3-4) legal moves on 2-3 (thorough 4) rows of arbitrary reals or a 5x2 grid with ties; arbitrary target, '
                   'sigma, k, alpha in (0,1), beta >= 0 and grow probability in (0,1); one tree in the model; also every move from the trees of four fixed scripts of 6 moves on 12 rows and 4 columns, and moves from three scripted trees on 40 rows, any first split of those rows'),
]

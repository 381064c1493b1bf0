"""The acceptance ratio is the Metropolis-Hastings ratio."""
from symex.harness import Harness, autos
from .common import *

MODULES = TREE_MODULES + ('bartpy.model', 'bartpy.samplers.unconstrainedtree.treemutation', 'bartpy.samplers.unconstrainedtree.likihoodratio')
ASSUMPTIONS = [REALS, NONAN, 'the default (unconstrained) tree sampler; grow and prune probabilities are positive and sum to one',
               'exp and log are handled exactly as formal logarithms of rational functions; x**beta is an uninterpreted positive function, monotone where needed']


def counts(ctx, root, X, p):
    return (sum(1 for l in root.leaves() if splittable_columns(ctx, X, l.rows(X), p)), sum(1 for n in root.internals() if n.prunable()))


def ratio(ctx, cfg):
    from bartpy.mutation import GrowMutation, PruneMutation
    from bartpy.node import LeafNode, split_node
    from bartpy.samplers.unconstrainedtree.treemutation import get_tree_sampler
    from bartpy.tree import mutate
    n, p = cfg['n'], cfg['p']
    y = ctx.reals('y', n)
    tree, root, X = some_tree(ctx, cfg, y)
    alpha, beta = ctx.real('alpha', lo=0, hi=1, open=True), ctx.real('beta', nonneg=True)
    sigma, k = ctx.real('sigma', positive=True), ctx.real('k', positive=True)
    pg = ctx.real('p_grow', lo=0, hi=1, open=True)
    model = make_model(ctx, [tree], sigma=sigma, alpha=alpha, beta=beta, k=k)
    t, v = sigma * sigma, 1 / (4 * k * k)
    lr = get_tree_sampler(pg, 1 - pg).likihood_ratio
    moves = legal_moves(X, root, p)
    if not moves:
        return
    kind, at, j, i = moves[ctx.choose('move', len(moves))]
    ctx.cover(kind)
    used = ctx.choose('used', 2)
    s0, r0 = counts(ctx, root, X, p)

    def split_prob(d):
        return alpha * ctx.pow(1 + d, -beta)

    def structure(ref):       # log prior gain of ref being split rather than a leaf (rule apart)
        d = ref.depth
        return ctx.log(split_prob(d)) + 2 * ctx.log(1 - split_prob(d + 1)) - ctx.log(1 - split_prob(d))

    def fit(ref):
        rows = ref.rows(X)
        return log_marginal(ctx, len(rows), total(y[q] for q in rows), t, v)

    if kind == 'grow':
        m = GrowMutation(at.node, split_node(at.node, conditions(j, X[i][j])))
        if used:
            assess_elsewhere(ctx, lr.log_probability_ratio, tree, m)
        got = lr.log_probability_ratio(model, tree, m)
        base = fit(at)
        mutate(tree, m)
        adopt_grow(at, m.updated_node, j, X[i][j])
        s1, r1 = counts(ctx, root, X, p)
        want = fit(at.left) + fit(at.right) - base + structure(at)
        p_there = pg if r0 else 1            # probability that a grow was chosen in the tree before
        p_back = (1 - pg) if s1 else 1       # probability that a prune is chosen in the tree after
        want = want + ctx.log(p_back) - ctx.log(r1) - ctx.log(p_there) + ctx.log(s0)
        if not s1:
            ctx.cover('grow to a tree that can only be pruned')
        if r0 == r1:
            ctx.cover('grow below a prunable node')
    else:
        m = PruneMutation(at.node, LeafNode(at.node.split, depth=at.node.depth))
        if used:
            assess_elsewhere(ctx, lr.log_probability_ratio, tree, m)
        got = lr.log_probability_ratio(model, tree, m)
        both = fit(at.left) + fit(at.right) + structure(at)
        mutate(tree, m)
        adopt_prune(at, m.updated_node)
        s1, r1 = counts(ctx, root, X, p)
        want = fit(at) - both
        p_there = (1 - pg) if s0 else 1
        p_back = pg if r1 else 1
        want = want + ctx.log(p_back) - ctx.log(s1) - ctx.log(p_there) + ctx.log(r0)
        if not r1:
            ctx.cover('prune to the root')
    ctx.eq(got, want, 'ratio of a %s' % kind, '%d/%d -> %d/%d' % (s0, r0, s1, r1))


def reverse(ctx, cfg):
    """A move and its exact reverse have opposite ratios."""
    from bartpy.mutation import GrowMutation, PruneMutation
    from bartpy.node import LeafNode, split_node
    from bartpy.samplers.unconstrainedtree.treemutation import get_tree_sampler
    from bartpy.tree import mutate
    tree, root, X = some_tree(ctx, cfg, ctx.reals('y', cfg['n']))
    model = make_model(ctx, [tree], sigma=ctx.real('sigma', positive=True), alpha=ctx.real('alpha', lo=0, hi=1, open=True), beta=ctx.real('beta', nonneg=True))
    pg = ctx.real('p_grow', lo=0, hi=1, open=True)
    lr = get_tree_sampler(pg, 1 - pg).likihood_ratio
    moves = [m for m in legal_moves(X, root, cfg['p']) if m[0] == 'grow']
    if not moves:
        return
    kind, at, j, i = moves[ctx.choose('move', len(moves))]
    m = GrowMutation(at.node, split_node(at.node, conditions(j, X[i][j])))
    there = lr.log_probability_ratio(model, tree, m)
    mutate(tree, m)
    back = lr.log_probability_ratio(model, tree, PruneMutation(m.updated_node, LeafNode(m.updated_node.split, depth=m.updated_node.depth)))
    ctx.eq(there + back, 0, 'a move and its reverse are opposite', '')
    ctx.cover('reversed')


HARNESSES = [
    Harness(ratio, quick=[dict(n=2, p=1, ops=0), dict(n=3, p=1, ops=0), dict(n=3, p=1, ops=1), dict(n=2, p=2, ops=1), dict(n=5, p=2, ops=2, grid='ties')]
            + autos(4, n=12, p=4, ops=6, grid='wide', free=['move']) + autos(3, n=40, p=4, ops=3, grid='late'),
            thorough=[dict(n=3, p=1, ops=2), dict(n=4, p=1, ops=1), dict(n=3, p=2, ops=1), dict(n=5, p=2, ops=3, grid='ties'), dict(n=5, p=1, ops=4, grid='distinct')],
            covers=['used before', 'grow', 'prune', 'grow to a tree that can only be pruned', 'grow below a prunable node', 'prune to the root'],
            bounds='any legal move from trees after 0-2 (thorough 3-4) legal moves on 2-3 (thorough 4) rows of arbitrary reals or a 5x2 grid with ties; arbitrary target, '
                   'sigma, k, alpha in (0,1), beta >= 0 and grow probability in (0,1); one tree in the model; also every move from the trees of four fixed scripts of 6 moves on 12 rows and 4 columns, and moves from three scripted trees on 40 rows'),
    Harness(reverse, quick=[dict(n=3, p=1, ops=1), dict(n=5, p=2, ops=2, grid='ties')], thorough=[dict(n=3, p=2, ops=1), dict(n=6, p=2, ops=3, grid='ties')],
            covers=['reversed'], bounds='as above'),
]

"""Structure prior ratio."""
from symex.harness import Harness, autos
from .common import *

MODULES = TREE_MODULES + ('bartpy.model', 'bartpy.samplers.unconstrainedtree.likihoodratio')
ASSUMPTIONS = [REALS, NONAN, 'alpha in (0,1), beta >= 0; the unconstrained tree sampler', 'x**beta is an uninterpreted positive function, monotone where needed']


def prior(ctx, alpha, beta, depth, ncols, share, size):
    def split(d):
        return alpha * ctx.pow(1 + d, -beta)
    return (ctx.log(split(depth)) + 2 * ctx.log(1 - split(depth + 1)) - ctx.log(1 - split(depth)) - ctx.log(ncols) + ctx.log(rational(ctx, share, size)))


def in_tree(ctx, cfg):
    from bartpy.mutation import GrowMutation, PruneMutation
    from bartpy.node import LeafNode, split_node
    from bartpy.samplers.unconstrainedtree.likihoodratio import UniformTreeMutationLikihoodRatio
    from bartpy.tree import mutate
    p = cfg['p']
    tree, root, X = some_tree(ctx, cfg)
    alpha, beta = ctx.real('alpha', lo=0, hi=1, open=True), ctx.real('beta', nonneg=True)
    model = make_model(ctx, [tree], alpha=alpha, beta=beta)
    lr = UniformTreeMutationLikihoodRatio([0.3, 0.7])
    moves = [m for m in legal_moves(X, root, p) if m[0] == 'grow']
    if not moves:
        return
    _, at, j, i = moves[ctx.choose('move', len(moves))]
    rows = at.rows(X)
    want = prior(ctx, alpha, beta, at.depth, len(splittable_columns(ctx, X, rows, p)), sum(1 for q in rows if bool(X[q][j] == X[i][j])), len(rows))
    new = split_node(at.node, conditions(j, X[i][j]))
    g = GrowMutation(at.node, new)
    if ctx.choose('used', 2):
        assess_elsewhere(ctx, lr.log_tree_ratio, tree, g)
    ctx.eq(lr.log_tree_ratio(model, tree, g), want, 'grow', 'depth %s' % at.depth)
    if at.depth:
        ctx.cover('below the root')
    mutate(tree, g)
    pr = PruneMutation(new, LeafNode(new.split, depth=new.depth))
    ctx.eq(lr.log_tree_ratio(model, tree, pr), -1 * want, 'prune', 'depth %s' % at.depth)
    ctx.cover('compared')


def any_depth(ctx, cfg):
    from bartpy.data import Data
    from bartpy.mutation import GrowMutation, PruneMutation
    from bartpy.node import LeafNode, split_node
    from bartpy.split import Split
    from bartpy.samplers.unconstrainedtree.likihoodratio import UniformTreeMutationLikihoodRatio
    from bartpy.tree import Tree
    depth = ctx.integer('depth', 0, cfg['deepest'])
    X = [[0.0], [1.0], [1.0]]
    leaf = LeafNode(Split(Data(ctx.array(X), ctx.array([0.0] * 3))), depth=depth)
    tree = Tree([leaf])
    alpha, beta = ctx.real('alpha', lo=0, hi=1, open=True), ctx.real('beta', nonneg=True)
    model = make_model(ctx, [tree], alpha=alpha, beta=beta)
    lr = UniformTreeMutationLikihoodRatio()
    want = prior(ctx, alpha, beta, depth, 1, 1, 3)
    new = split_node(leaf, conditions(0, 0.0))
    ctx.eq(lr.log_tree_ratio(model, tree, GrowMutation(leaf, new)), want, 'grow', 'any depth')
    grown = Tree([new, new.left_child, new.right_child])
    ctx.eq(lr.log_tree_ratio(model, grown, PruneMutation(new, LeafNode(new.split, depth=depth))), -1 * want, 'prune', 'any depth')
    ctx.cover('compared')


HARNESSES = [
    Harness(in_tree, quick=[dict(n=3, p=1, ops=0), dict(n=3, p=1, ops=1), dict(n=2, p=2, ops=0), dict(n=5, p=2, ops=2, grid='ties'), dict(n=5, p=2, ops=1, grid='flat')] + autos(4, n=12, p=4, ops=6, grid='wide', free=['move']) + autos(3, n=40, p=4, ops=3, grid='late') + autos(1, n=40, p=4, ops=0, grid='late', free=['move']),
            thorough=[dict(n=4, p=1, ops=1), dict(n=3, p=2, ops=1), dict(n=6, p=2, ops=3, grid='ties'), dict(n=6, p=1, ops=4, grid='distinct')],
            covers=['used before', 'compared', 'below the root'],
            bounds='every split of every leaf of trees after 0-2 (thorough 4) legal moves on 2-3 (thorough 4) rows of arbitrary reals or grids of 5-6 rows with ties; arbitrary alpha, beta; also every split of the trees of four fixed scripts of 6 moves on 12 rows and 4 columns, and splits of three scripted trees on 40 rows, any first split of those rows'),
    Harness(any_depth, quick=[dict(deepest=1000)], covers=['compared'], bounds='any depth from 0 to 1000, arbitrary alpha in (0,1) and beta >= 0'),
]

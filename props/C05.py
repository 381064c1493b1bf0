"""Proposals are legal, non-degenerate and free of side effects."""
from symex.harness import Harness, autos
from .common import *

MODULES = TREE_MODULES + ('bartpy.samplers.unconstrainedtree.proposer', 'bartpy.errors')
ASSUMPTIONS = [REALS, NONAN, 'trees are reached by non-degenerate splits at row values and prunes; retry loops are followed for a bounded number of draws']


def legal(ctx, m, root, X, p):
    from bartpy.node import DecisionNode, LeafNode
    if m.kind == 'grow':
        ctx.cover('grow')
        at = [l for l in root.leaves() if l.node is m.existing_node]
        ctx.check(len(at) == 1, 'grow of a current leaf')
        leaf, new = at[0], m.updated_node
        rows = leaf.rows(X)
        c = new.most_recent_split_condition()
        var, thr = int(c.splitting_variable), c.splitting_value
        ctx.check(var in splittable_columns(ctx, X, rows, p), 'column not constant')
        left = [i for i in rows if bool(X[i][var] <= thr)]
        ctx.check(0 < len(left) < len(rows), 'rows on each side', 'left %d of %d' % (len(left), len(rows)))
        ctx.check(any(bool(X[i][var] == thr) for i in rows), 'splitting value occurs in the leaf')
        ctx.check(isinstance(new, DecisionNode) and isinstance(new.left_child, LeafNode) and isinstance(new.right_child, LeafNode), 'grow gives two leaves')
        ctx.check(new.depth == leaf.depth and new.left_child.depth == leaf.depth + 1 and new.right_child.depth == leaf.depth + 1, 'depths')
        ctx.eq(new.left_child.data.X.n_obsv, len(left), 'rows of the left child')
        ctx.eq(new.right_child.data.X.n_obsv, len(rows) - len(left), 'rows of the right child')
        for side, want in ((new.left_child, left), (new.right_child, [i for i in rows if i not in left])):
            got = [bool(b) for b in ctx.flat(side.split.condition(ctx.array(X)))]
            ctx.check([i for i, b in enumerate(got) if b] == want, 'rows of a child')
    else:
        ctx.check(m.kind == 'prune', 'kind')
        ctx.cover('prune')
        at = [l for l in root.internals() if l.node is m.existing_node]
        ctx.check(len(at) == 1 and at[0].prunable(), 'prune of the parent of two leaves')
        node, new = at[0], m.updated_node
        ctx.check(isinstance(new, LeafNode) and new.depth == node.depth, 'pruned to a leaf at the same depth')
        got = [bool(b) for b in ctx.flat(new.split.condition(ctx.array(X)))]
        ctx.check([i for i, b in enumerate(got) if b] == node.rows(X), 'rows of the pruned node')
        ctx.eq(new.data.X.n_obsv, len(node.rows(X)), 'count of the pruned node')


def proposals(ctx, cfg):
    from bartpy.errors import NoPrunableNodeException, NoSplittableVariableException
    from bartpy.samplers.unconstrainedtree.proposer import UniformMutationProposer, uniformly_sample_grow_mutation, uniformly_sample_prune_mutation
    p = cfg['p']
    tree, root, X = some_tree(ctx, cfg, ctx.reals('y', cfg['n']))
    can_grow = any(splittable_columns(ctx, X, l.rows(X), p) for l in root.leaves())
    can_prune = any(n.prunable() for n in root.internals())
    before = snapshot(ctx, tree)
    how = ctx.choose('how', 3)
    try:
        if how == 0:
            m = uniformly_sample_grow_mutation(tree)
        elif how == 1:
            m = uniformly_sample_prune_mutation(tree)
        else:
            if not can_grow and not can_prune:
                return
            pg = 0.5 if ctx.choose('pg', 2) else 0.9
            m = UniformMutationProposer([pg, 1 - pg]).propose(tree)
    except NoSplittableVariableException:
        ctx.check(how == 0 and not can_grow, 'grow impossible exactly when no leaf has two rows that differ')
        ctx.cover('grow impossible')
        m = None
    except NoPrunableNodeException:
        ctx.check(how == 1 and not can_prune, 'prune impossible exactly when nothing can be pruned')
        ctx.cover('prune impossible')
        m = None
    else:
        if how == 0:
            ctx.check(can_grow and m.kind == 'grow', 'grow impossible exactly when no leaf has two rows that differ')
        if how == 1:
            ctx.check(can_prune and m.kind == 'prune', 'prune impossible exactly when nothing can be pruned')
        legal(ctx, m, root, X, p)
    wellformed(ctx, tree, root, 'proposing changes nothing')
    same_snapshot(ctx, before, snapshot(ctx, tree), 'proposing changes nothing')


def value_draw(ctx, cfg):
    """The column and value draws of a node's covariates, used by every proposer."""
    from bartpy.errors import NoSplittableVariableException
    p = cfg['p']
    tree, root, X = some_tree(ctx, cfg)
    leaves = root.leaves()
    leaf = leaves[ctx.choose('leaf', len(leaves))]
    rows = leaf.rows(X)
    cols = splittable_columns(ctx, X, rows, p)
    cm = leaf.node.data.X
    if cols:
        v = cm.random_splittable_variable()
        ctx.check(int(v) in cols, 'column not constant')
    else:
        ctx.raises(NoSplittableVariableException, cm.random_splittable_variable, 'no column to draw')
    j = ctx.choose('column', p)
    if j in cols:
        v = cm.random_splittable_value(j)
        left = [i for i in rows if bool(X[i][j] <= v)]
        ctx.check(0 < len(left) < len(rows), 'rows on each side')
        ctx.cover('drawn')
    else:
        ctx.raises(NoSplittableVariableException, lambda: cm.random_splittable_value(j), 'constant column refused')
        ctx.cover('refused')


HARNESSES = [
    Harness(proposals, quick=[dict(n=2, p=1, ops=1), dict(n=3, p=1, ops=0), dict(n=2, p=2, ops=0), dict(n=3, p=1, ops=1), dict(n=4, p=2, ops=2, grid='ties'), dict(n=4, p=2, ops=2, grid='flat'), dict(n=3, p=1, ops=1, cold=1)]
            + autos(5, n=12, p=4, ops=6, grid='wide', free=['how', 'rng']) + autos(3, n=40, p=4, ops=3, grid='late', free=['how']),
            thorough=[dict(n=4, p=2, ops=2, grid='ties', cold=1), dict(n=3, p=2, ops=0), dict(n=3, p=2, ops=1), dict(n=4, p=1, ops=1), dict(n=5, p=2, ops=3, grid='ties'), dict(n=5, p=2, ops=2, grid='flat')],
            covers=['grow', 'prune', 'grow impossible', 'prune impossible'], rng_budget=6,
            bounds='trees after 0-2 (thorough 3) legal moves on 2-3 (thorough 4) rows of arbitrary reals or on fixed grids of up to 5 rows with ties, every '
                   'outcome of up to 6 random draws; also five fixed scripts of 6 moves on 12 rows and 4 columns and three of 3 moves on 40 rows'),
    Harness(value_draw, quick=[dict(n=3, p=1, ops=0), dict(n=2, p=2, ops=0), dict(n=3, p=2, ops=1, grid='ties'), dict(n=3, p=1, ops=1)] + autos(3, n=12, p=4, ops=4, grid='wide', free=['leaf', 'column', 'rng']) + autos(2, n=40, p=4, ops=2, grid='late', free=['leaf', 'column']),
            thorough=[dict(n=3, p=2, ops=0), dict(n=4, p=1, ops=1), dict(n=5, p=2, ops=2, grid='ties')],
            covers=['drawn', 'refused'], rng_budget=6, bounds='as above, every outcome of up to 6 random draws'),
]

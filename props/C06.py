"""Proposal probabilities."""
from symex.harness import Harness, autos
from .common import *

MODULES = TREE_MODULES + ('bartpy.samplers.unconstrainedtree.proposer', 'bartpy.samplers.unconstrainedtree.treemutation')
ASSUMPTIONS = [REALS, NONAN, 'numpy.random.choice draws as documented; retry loops are followed to 20 draws and the remaining probability mass bounds the error']


def expected_grow(ctx, root, X, p):
    """{(leaf, column, representative row): probability} by definition."""
    leaves = [(l, splittable_columns(ctx, X, l.rows(X), p)) for l in root.leaves()]
    leaves = [(l, c) for l, c in leaves if c]
    out = []
    for l, cols in leaves:
        rows = l.rows(X)
        for j in cols:
            low = [i for i in rows if any(bool(X[k][j] > X[i][j]) for k in rows)]
            for i in low:
                same = [k for k in low if bool(X[k][j] == X[i][j])]
                if same[0] == i:
                    out.append((l, j, i, rational(ctx, len(same), len(low) * len(cols) * len(leaves))))
    return out


def match(ctx, m, expected, X):
    c = m.updated_node.most_recent_split_condition()
    for k, (l, j, i, _) in enumerate(expected):
        if l.node is m.existing_node and int(c.splitting_variable) == j and bool(c.splitting_value == X[i][j]):
            return k
    ctx.fail('proposal is one of the available moves')


def bounded(ctx, p, cut, want, label, detail):
    slack = 0 if ctx.sym else 1e-9
    ctx.check(p <= want + slack, label, '%s: more likely than it should be' % detail)
    ctx.check(want <= p + cut + slack, label, '%s: less likely than it should be' % detail)


def grow_and_prune(ctx, cfg):
    from bartpy.samplers.unconstrainedtree.proposer import uniformly_sample_grow_mutation, uniformly_sample_prune_mutation
    p = cfg['p']
    tree, root, X = some_tree(ctx, cfg)
    want = expected_grow(ctx, root, X, p)
    if want:
        ctx.cover('grow')
        if len(want) > 2:
            ctx.cover('several moves')
        out, cut = ctx.outcomes(lambda: uniformly_sample_grow_mutation(tree), depth=20)
        prob = [0] * len(want)
        for m, w in out:
            prob[match(ctx, m, want, X)] += w
        for k, (l, j, i, e) in enumerate(want):
            bounded(ctx, prob[k], cut, e, 'grow probabilities', 'column %d' % j)
    cand = [n for n in root.internals() if n.prunable()]
    if cand:
        ctx.cover('prune')
        out, cut = ctx.outcomes(lambda: uniformly_sample_prune_mutation(tree), depth=20)
        for n in cand:
            got = total(w for m, w in out if m.existing_node is n.node)
            bounded(ctx, got, cut, rational(ctx, 1, len(cand)), 'prune probabilities', '%d prunable' % len(cand))


def choice_of_kind(ctx, cfg):
    from bartpy.samplers.unconstrainedtree.treemutation import get_tree_sampler
    from bartpy.samplers.unconstrainedtree.proposer import UniformMutationProposer
    tree, root, X = some_tree(ctx, cfg)
    want = expected_grow(ctx, root, X, cfg['p'])
    cand = [n for n in root.internals() if n.prunable()]
    if not want or not cand:
        return
    ctx.cover('both possible')
    pg = ctx.real('p_grow', lo=0, hi=1, open=True)
    pp = 1 - pg
    how = ctx.choose('how', 2)
    make = (lambda: get_tree_sampler(pg, pp).proposer) if how else (lambda: UniformMutationProposer([pg, pp]))
    out, cut = ctx.outcomes(lambda: make().propose(tree), depth=12)
    for k, (l, j, i, e) in enumerate(want):
        got = total(w for m, w in out if m.kind == 'grow' and match(ctx, m, want, X) == k)
        bounded(ctx, got, cut, pg * e, 'probability of a grow', 'column %d' % j)
    for n in cand:
        got = total(w for m, w in out if m.kind == 'prune' and m.existing_node is n.node)
        bounded(ctx, got, cut, pp * rational(ctx, 1, len(cand)), 'probability of a prune', '')


HARNESSES = [
    Harness(grow_and_prune, quick=[dict(n=3, p=1, ops=0), dict(n=3, p=1, ops=1), dict(n=2, p=2, ops=0), dict(n=5, p=2, ops=2, grid='ties'), dict(n=5, p=2, ops=3, grid='distinct')] + autos(6, n=12, p=4, ops=6, grid='wide') + autos(1, n=12, p=4, ops=0, grid='wide') + autos(2, n=40, p=4, ops=2, grid='late') + autos(1, n=40, p=4, ops=0, grid='late') + autos(1, n=40, p=4, ops=1, grid='late'),
            thorough=[dict(n=3, p=2, ops=0), dict(n=4, p=1, ops=0), dict(n=4, p=1, ops=1), dict(n=6, p=2, ops=3, grid='ties')],
            covers=['grow', 'prune', 'several moves'], rng_budget=80,
            bounds='trees after 0-3 legal moves on 2-3 (thorough 4) rows of arbitrary reals or grids of 5-6 rows; all random outcomes enumerated with exact weights, retry loops to 20 draws; also seven fixed scripts of up to 6 moves on 12 rows and 4 columns and four of 0-2 moves on 40 rows of 4 columns'),
    Harness(choice_of_kind, quick=[dict(n=3, p=1, ops=1), dict(n=4, p=2, ops=2, grid='ties')] + autos(4, n=12, p=4, ops=5, grid='wide', free=['how']), thorough=[dict(n=4, p=1, ops=1), dict(n=5, p=2, ops=2, grid='ties')],
            covers=['both possible'], rng_budget=80,
            bounds='as above with an arbitrary grow probability in (0,1)'),
]

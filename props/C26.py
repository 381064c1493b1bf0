"""The level-wise sampler: every splittable leaf or every prunable node, all or nothing."""
import math

from symex.harness import Harness, autos
from .common import *
from .C05 import legal

MODULES = TREE_MODULES + ('bartpy.model', 'bartpy.samplers.oblivioustrees.proposer', 'bartpy.samplers.oblivioustrees.treemutation', 'bartpy.errors')
ASSUMPTIONS = [REALS, NONAN, 'the event that the uniform draw equals the summed ratio exactly (probability zero) is left out',
               'retry loops are followed for a bounded number of draws', 'the ratio itself is the sampler\'s own likelihood ratio object, taken as given']


def planted(ctx, cfg, y):
    """An arbitrary small tree, or a complete one of cfg['full'] levels over rows 0 to n-1, or one grown at the nodes of cfg['path']."""
    if not cfg.get('full'):
        return some_tree(ctx, cfg, y)
    X = [[float(i)] for i in range(cfg['n'])]
    tree, root = new_tree(ctx, X, y)
    if cfg['full'] == 'uneven':
        for k, side in enumerate(cfg['path']):
            at = root
            for d in side:
                at = at.left if d == 'L' else at.right
            warm(root, 1)
            grow_at(tree, at, X, at.rows(X))
        return tree, root, X
    for level in range(cfg['full']):
        for l in root.leaves():
            warm(root, 1)
            rows = l.rows(X)
            grow_at(tree, l, X, rows)
    return tree, root, X


def grow_at(tree, leaf, X, rows):
    grow(tree, leaf, 0, X[rows[len(rows) // 2 - 1]][0])


def can(ctx, root, X, p):
    grow = [l for l in root.leaves() if splittable_columns(ctx, X, l.rows(X), p)]
    return grow, [n for n in root.internals() if n.prunable()]


def complete(ctx, ms, grow, prune):
    """ms is one grow per splittable leaf or one prune per prunable node."""
    ctx.check(len(ms) > 0, 'something is proposed')
    kind = ms[0].kind
    ctx.check(all(m.kind == kind for m in ms), 'only grows or only prunes')
    want = grow if kind == 'grow' else prune
    ctx.check(same_ids([m.existing_node for m in ms], [r.node for r in want]), 'every splittable leaf or every prunable node exactly once',
              '%d %ss proposed for %d nodes' % (len(ms), kind, len(want)))
    return kind


def proposals(ctx, cfg):
    from bartpy.samplers.oblivioustrees.proposer import UniformMutationProposer, grow_mutations, prune_mutations
    from bartpy.errors import NoPrunableNodeException, NoSplittableVariableException
    p = cfg['p']
    tree, root, X = planted(ctx, cfg, ctx.reals('y', cfg['n']))
    grow, prune_ = can(ctx, root, X, p)
    before = snapshot(ctx, tree)
    how = ctx.choose('how', 3)
    ms = None
    try:
        if how == 0:
            ms = grow_mutations(tree)
        elif how == 1:
            ms = prune_mutations(tree)
        else:
            if not grow and not prune_:
                return
            pg = [0.5, 0.9][ctx.choose('pg', 2)]
            ms = UniformMutationProposer(pg, 1 - pg).propose(tree)
    except NoSplittableVariableException:
        ctx.check(how == 0 and not grow, 'growing is impossible exactly when no leaf can be split')
        ctx.cover('grow impossible')
    except NoPrunableNodeException:
        ctx.check(how == 1 and not prune_, 'pruning is impossible exactly when nothing can be pruned')
        ctx.cover('prune impossible')
    if ms is not None:
        ms = list(ms)
        ctx.check(how == 2 or how == (0 if grow else -1) or how == (1 if prune_ else -1), 'impossible move refused')
        kind = complete(ctx, ms, grow, prune_)
        ctx.check(how == 2 or kind == ['grow', 'prune'][how], 'kind')
        if len(ms) > 1:
            ctx.cover('several ' + kind)
        if kind == 'grow' and len(ms) < len(root.leaves()):
            ctx.cover('a leaf that cannot be split')
        for m in ms:
            legal(ctx, m, root, X, p)
    wellformed(ctx, tree, root, 'proposing changes nothing')
    same_snapshot(ctx, before, snapshot(ctx, tree), 'proposing changes nothing')


class Proposer:
    def __init__(self, ms):
        self.ms, self.calls = ms, 0

    def propose(self, tree):
        self.calls += 1
        return self.ms


class Ratio:
    def __init__(self, vs):
        self.vs, self.seen = vs, []

    def log_probability_ratio(self, model, tree, mutation):
        self.seen.append((model, tree, mutation))
        return [v for m, v in self.vs if m is mutation][0]


class Scalar:
    def __init__(self, u):
        self.u, self.calls = u, 0

    def sample(self):
        self.calls += 1
        return self.u


def adopt(refs, m):
    at = [r for r in refs if r.node is m.existing_node][0]
    if m.kind == 'grow':
        c = m.updated_node.most_recent_split_condition()
        adopt_grow(at, m.updated_node, int(c.splitting_variable), c.splitting_value)
    else:
        adopt_prune(at, m.updated_node)


def partition(ctx, tree, X, y):
    """The leaves partition the rows and know their counts and sums."""
    n = len(X)
    seen = [0] * n
    Xa = ctx.array(X)
    for l in tree.leaf_nodes:
        got = [bool(b) for b in ctx.flat(l.split.condition(Xa))]
        rows = [i for i in range(n) if got[i]]
        ctx.check(rows == [i for i, b in enumerate(ctx.flat(l.split.condition())) if bool(b)], 'leaves partition the rows')
        ctx.check(len(rows) > 0, 'no empty leaf')
        for i in rows:
            seen[i] += 1
        ctx.eq(l.data.X.n_obsv, len(rows), 'row count of a leaf')
        ctx.eq(l.data.y.summed_y(), total(y[i] for i in rows), 'target sum of a leaf')
    ctx.check(all(s == 1 for s in seen), 'leaves partition the rows', str(seen))


def acceptance(ctx, cfg):
    from bartpy.mutation import GrowMutation, PruneMutation
    from bartpy.node import LeafNode, split_node
    from bartpy.samplers.oblivioustrees.treemutation import UnconstrainedTreeMutationSampler
    n, p = cfg['n'], cfg['p']
    y = ctx.reals('y', n)
    tree, root, X = planted(ctx, cfg, y)
    set_values(ctx, root)
    model = make_model(ctx, [tree])
    grow, prune_ = can(ctx, root, X, p)
    ms = []
    if grow and (not prune_ or (cfg['kind'] == 'grow' if 'kind' in cfg else ctx.choose('kind', 2))):
        for k, l in enumerate(grow):
            moves = [m for m in legal_moves(X, root, p) if m[0] == 'grow' and m[1] is l]
            _, at, j, i = moves[ctx.choose('split%d' % k, len(moves))]
            ms.append(GrowMutation(at.node, split_node(at.node, conditions(j, X[i][j]))))
    elif prune_:
        ms = [PruneMutation(r.node, LeafNode(r.node.split, depth=r.node.depth)) for r in prune_]
    else:
        ctx.cut('nothing to propose')
    u = ctx.real('u', lo=0, hi=1, open=True)
    rs = [ctx.real('r%d' % k, positive=True) if 'kind' not in cfg or k == 3 else rational(ctx, 1 + k % 2, 2 - k % 2) for k in range(len(ms))]
    prod = 1
    for r in rs:
        prod = prod * r
    impossible = 'kind' not in cfg and ctx.choose('impossible', 2)
    Ls = [ctx.log(r) for r in rs]
    if impossible:
        Ls[-1] = -math.inf
        wanted = False
    else:
        ctx.assume(u != prod)
        wanted = bool(u < prod)
    prop, rat, sca = Proposer(ms), Ratio(list(zip(ms, Ls))), Scalar(u)
    sampler = UnconstrainedTreeMutationSampler(prop, rat, scalar_sampler=sca)
    if ctx.choose('used', 2):           # a rejected step on another tree
        other, elsewhere, top = other_model(ctx)
        prop.ms = [GrowMutation(top.node, split_node(top.node, conditions(0, 0.0)))]
        rat.vs, sca.u = [(prop.ms[0], -math.inf)], 0.5
        sampler.step(other, elsewhere)
        prop.ms, prop.calls, rat.vs, rat.seen, sca.u, sca.calls = ms, 0, list(zip(ms, Ls)), [], u, 0
        ctx.cover('used before')
    before = snapshot(ctx, tree)
    result = sampler.step(model, tree)
    ctx.check(prop.calls == 1 and sca.calls <= 1, 'one proposal and one uniform draw per step')
    ctx.check(all(a is model and b is tree for a, b, c in rat.seen), 'ratio of that proposal')
    if len(ms) > 1:
        ctx.cover('several')
    if wanted:
        ctx.cover('accepted')
        ctx.check(result is not None and same_ids(result, ms), 'all applied exactly when the draw is below the summed ratio')
        refs = list(root.walk())
        for m in ms:
            adopt(refs, m)
        wellformed(ctx, tree, root, 'all applied together')
        partition(ctx, tree, X, y)
    else:
        ctx.cover('rejected')
        ctx.check(result is None, 'all applied exactly when the draw is below the summed ratio', 'reported')
        wellformed(ctx, tree, root, 'a rejected proposal changes nothing')
        same_snapshot(ctx, before, snapshot(ctx, tree), 'a rejected proposal changes nothing')


def steps(ctx, cfg):
    """The sampler with its own proposals, ratios and draws."""
    from bartpy.samplers.oblivioustrees.treemutation import get_tree_sampler
    n, p = cfg['n'], cfg['p']
    y = ctx.reals('y', n)
    tree, root, X = planted(ctx, cfg, y)
    model = make_model(ctx, [tree], sigma=1.0)
    sampler = get_tree_sampler(0.5, 0.5)
    for s in range(cfg.get('steps', 1)):
        grow, prune_ = can(ctx, root, X, p)
        before = snapshot(ctx, tree)
        if not grow and not prune_:
            result = ctx.must_end(lambda: sampler.step(model, tree), 'a step on a tree with no move ends')
            ctx.check(result is None, 'a tree with no move is left alone')
        else:
            result = sampler.step(model, tree)
        if result is None:
            ctx.cover('rejected' if grow or prune_ else 'no move')
            wellformed(ctx, tree, root, 'a rejected proposal changes nothing')
            same_snapshot(ctx, before, snapshot(ctx, tree), 'a rejected proposal changes nothing')
        else:
            result = list(result)
            complete(ctx, result, grow, prune_)
            refs = list(root.walk())
            for m in result:
                legal(ctx, m, root, X, p)
            for m in result:
                adopt(refs, m)
            ctx.cover('accepted')
            wellformed(ctx, tree, root, 'all applied together')
            partition(ctx, tree, X, y)


HARNESSES = [
    Harness(proposals, quick=[dict(n=2, p=1, ops=1), dict(n=3, p=1, ops=0), dict(n=2, p=2, ops=0), dict(n=4, p=1, ops=2, grid='distinct'), dict(n=4, p=2, ops=1, grid='ties'), dict(n=4, p=2, ops=1, grid='flat'), dict(n=2, p=1, ops=0, grid='constant'), dict(n=8, p=1, full=2), dict(n=8, p=1, full=3), dict(n=6, p=1, full='uneven', path=['', 'L']), dict(n=8, p=1, full='uneven', path=['', 'L', 'R', 'LL'])] + autos(6, n=12, p=4, ops=5, grid='wide') + autos(2, n=40, p=4, ops=2, grid='late') + autos(3, n=40, p=1, full=5),
            thorough=[dict(n=3, p=1, ops=1), dict(n=3, p=2, ops=0), dict(n=5, p=1, ops=3, grid='distinct'), dict(n=5, p=2, ops=2, grid='flat'), dict(n=6, p=2, ops=1, grid='ties')],
            covers=['several grow', 'a leaf that cannot be split', 'grow impossible', 'prune impossible'], rng_budget=8,
            bounds='trees after 0-2 (thorough 3) legal moves on 2-4 (thorough 6) rows, complete trees of 4 and 8 leaves and uneven ones of 3 and 5 leaves, every outcome of up to 8 random draws; scripted trees after 5 moves on 12 rows of 4 columns and after 2 moves on 40 rows, complete trees of 32 leaves'),
    Harness(acceptance, quick=[dict(n=2, p=1, ops=0), dict(n=3, p=1, ops=1), dict(n=4, p=1, ops=2, grid='distinct'), dict(n=4, p=1, ops=3, grid='distinct'), dict(n=4, p=2, ops=1, grid='flat'), dict(n=8, p=1, full=2), dict(n=8, p=1, full=3), dict(n=6, p=1, full='uneven', path=['', 'L']), dict(n=8, p=1, full='uneven', path=['', 'L', 'R', 'LL'])] + autos(6, n=12, p=4, ops=5, grid='wide') + autos(1, n=72, p=1, full=5, kind='grow') + autos(1, n=72, p=1, full=5, kind='prune'),
            thorough=[dict(n=3, p=2, ops=1), dict(n=6, p=1, ops=3, grid='distinct'), dict(n=6, p=2, ops=2, grid='ties')],
            covers=['accepted', 'rejected', 'several', 'used before'], bounds='every complete proposal on trees after 0-3 moves and on complete trees of 4 and 8 leaves and uneven ones of 3 and 5 leaves, arbitrary log ratio per node including minus infinity, arbitrary uniform draw, arbitrary targets and leaf values; scripted trees after 5 moves on 12 rows of 4 columns and complete trees of 32 leaves on 72 rows'),
    Harness(steps, quick=[dict(n=2, p=1, ops=0, steps=2), dict(n=3, p=1, ops=1, grid='distinct'), dict(n=2, p=1, ops=0, grid='constant'), dict(n=4, p=1, ops=1, grid='ties')] + autos(3, n=12, p=4, ops=3, grid='wide', steps=3),
            thorough=[dict(n=4, p=1, ops=1, steps=2, grid='distinct'), dict(n=3, p=2, ops=1), dict(n=6, p=1, ops=1, grid='distinct')], covers=['accepted', 'rejected', 'no move'], rng_budget=10,
            bounds='1-2 steps with the sampler\'s own proposals, ratios and up to 10 draws; scripted: 3 steps on 12 rows'),
]

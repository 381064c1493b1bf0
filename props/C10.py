"""Acceptance: min(1, ratio), all or nothing."""
import math

from symex.harness import Harness, autos
from .common import *

MODULES = TREE_MODULES + ('bartpy.model', 'bartpy.samplers.unconstrainedtree.treemutation')
ASSUMPTIONS = [REALS, NONAN, 'the event that the uniform draw equals the ratio exactly (probability zero) is left out']


class Proposer:
    def __init__(self, m):
        self.m, self.calls = m, 0

    def propose(self, tree):
        self.calls += 1
        return self.m


class Ratio:
    def __init__(self, v):
        self.v, self.seen = v, []

    def log_probability_ratio(self, model, tree, mutation):
        self.seen.append((model, tree, mutation))
        return self.v


class Scalar:
    def __init__(self, u):
        self.u, self.calls = u, 0

    def sample(self):
        self.calls += 1
        return self.u


def accept(ctx, cfg):
    from bartpy.mutation import GrowMutation, PruneMutation
    from bartpy.node import LeafNode, split_node
    from bartpy.samplers.unconstrainedtree.treemutation import UnconstrainedTreeMutationSampler
    n, p = cfg['n'], cfg['p']
    y = ctx.reals('y', n)
    tree, root, X = some_tree(ctx, cfg, y)
    set_values(ctx, root)
    model = make_model(ctx, [tree])
    moves = legal_moves(X, root, p)
    kind, at, j, i = moves[ctx.choose('move', len(moves))]
    if kind == 'grow':
        m = GrowMutation(at.node, split_node(at.node, conditions(j, X[i][j])))
    else:
        m = PruneMutation(at.node, LeafNode(at.node.split, depth=at.node.depth))
    u = ctx.real('u', lo=0, hi=1, open=True)
    case = ctx.choose('ratio', 4)
    if case == 0:
        r = ctx.real('r', positive=True)
        L = ctx.log(r)
        ctx.assume(u != r)
        wanted = bool(u < r)
    elif case == 1:                    # a log ratio with no closed form
        L = ctx.real('L')
        e = ctx.exp(L)
        ctx.assume(u != e)
        wanted = bool(u < e)
    elif case == 2:
        L, wanted = -math.inf, False
    else:
        L, wanted = math.inf, True
    prop, rat, sca = Proposer(m), Ratio(L), Scalar(u)
    sampler = UnconstrainedTreeMutationSampler(prop, rat, scalar_sampler=sca)
    used = ctx.choose('used', 3)
    if used:                            # an accepted or rejected step on another tree
        other, elsewhere, top = other_model(ctx)
        prop.m = GrowMutation(top.node, split_node(top.node, conditions(0, 0.0)))
        rat.v, sca.u = [-math.inf, math.inf][used - 1], 0.5
        sampler.step(other, elsewhere)
        prop.m, prop.calls, rat.v, rat.seen, sca.u, sca.calls = m, 0, L, [], u, 0
        ctx.cover('used before')
    before = snapshot(ctx, tree)
    result = sampler.step(model, tree)
    ctx.check(prop.calls == 1, 'one proposal per step', str(prop.calls))
    ctx.check(all(a is model and b is tree and c is m for a, b, c in rat.seen), 'ratio of that proposal')
    ctx.check(sca.calls <= 1, 'one uniform draw per step')
    if wanted:
        ctx.cover('accepted')
        ctx.check(result is m, 'applied exactly when the draw is below the ratio', 'not reported')
        if kind == 'grow':
            adopt_grow(at, m.updated_node, j, X[i][j])
        else:
            adopt_prune(at, m.updated_node)
        wellformed(ctx, tree, root, 'applied exactly when the draw is below the ratio')
    else:
        ctx.cover('rejected')
        ctx.check(result is None, 'applied exactly when the draw is below the ratio', 'reported')
        wellformed(ctx, tree, root, 'a rejected proposal changes nothing')
        same_snapshot(ctx, before, snapshot(ctx, tree), 'a rejected proposal changes nothing')


def whole_step(ctx, cfg):
    """The default sampler, its own random draws; the ratio it computed decides."""
    from bartpy.samplers.unconstrainedtree.treemutation import get_tree_sampler
    tree, root, X = some_tree(ctx, cfg, ctx.reals('y', cfg['n']))
    model = make_model(ctx, [tree], sigma=1.0)
    sampler = get_tree_sampler(0.5, 0.5)
    can = legal_moves(X, root, cfg['p'])
    got = {}
    inner, ratio = sampler.proposer.propose, sampler.likihood_ratio.log_probability_ratio

    def propose(t):
        got['m'] = inner(t)
        got['n'] = got.get('n', 0) + 1
        return got['m']

    def log_ratio(*a):
        got['r'] = ratio(*a)
        return got['r']
    sampler.proposer.propose = propose
    sampler.likihood_ratio.log_probability_ratio = log_ratio
    before = snapshot(ctx, tree)
    if not can:
        result = ctx.must_end(lambda: sampler.step(model, tree), 'a step on a tree with no move ends')
        ctx.cover('no move')
        ctx.check(result is None, 'a tree with no move is left alone')
        same_snapshot(ctx, before, snapshot(ctx, tree), 'a tree with no move is left alone')
        return
    result = sampler.step(model, tree)
    us = [l for l in ctx.rng.log if l[0] == 'uniform']
    ctx.check(len(us) == 1, 'one batch of uniform draws', str(len(us)))
    ctx.check(us[0][2] == (0.0, 1.0), 'draws are uniform on (0,1)', str(us[0][2]))
    if result is None:
        ctx.cover('rejected')
        wellformed(ctx, tree, root, 'a rejected proposal changes nothing')
        same_snapshot(ctx, before, snapshot(ctx, tree), 'a rejected proposal changes nothing')
    else:
        ctx.cover('accepted')
        ctx.check(result is got['m'], 'the applied change is reported')
        ctx.check(any(x is result.updated_node for x in tree.nodes) and not any(x is result.existing_node for x in tree.nodes), 'the proposal is applied')


HARNESSES = [
    Harness(accept, quick=[dict(n=3, p=1, ops=0, grid='distinct'), dict(n=4, p=2, ops=2, grid='ties'), dict(n=5, p=1, ops=2, grid='distinct')]
            + autos(3, n=12, p=4, ops=6, grid='wide', free=['move', 'ratio']),
            thorough=[dict(n=2, p=1, ops=0), dict(n=3, p=1, ops=1), dict(n=5, p=2, ops=3, grid='ties'), dict(n=6, p=1, ops=4, grid='distinct')],
            covers=['used before', 'accepted', 'rejected'],
            bounds='every legal proposal on trees after 0-2 (thorough 4) moves, arbitrary log ratio including plus and minus infinity, arbitrary uniform draw in (0,1), arbitrary targets and leaf values; also every proposal on the trees of three fixed scripts of 6 moves on 12 rows and 4 columns'),
    Harness(whole_step, quick=[dict(n=2, p=1, ops=0), dict(n=3, p=1, ops=1, grid='ties'), dict(n=3, p=1, ops=0, grid='constant')],
            thorough=[dict(n=2, p=2, ops=1), dict(n=4, p=2, ops=2, grid='ties'), dict(n=6, p=2, ops=0, grid='constant')],
            covers=['accepted', 'rejected', 'no move'], rng_budget=6,
            bounds='one step of the default sampler with its own draws (up to 6) on 2-3 rows'),
]

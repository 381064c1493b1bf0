"""Leaf value draws."""
from symex.harness import Harness, autos
from .common import *

MODULES = TREE_MODULES + ('bartpy.model', 'bartpy.samplers.leafnode')
ASSUMPTIONS = [REALS, NONAN]


class Normals:
    def __init__(self, ctx):
        self.ctx, self.calls = ctx, 0

    def sample(self):
        self.calls += 1
        return self.ctx.real('z%d' % self.calls)


def leaf_draw(ctx, cfg):
    from bartpy.node import LeafNode
    from bartpy.samplers.leafnode import LeafNodeSampler
    from bartpy.tree import Tree
    n = cfg['n']
    y = ctx.reals('y', n)
    tree, root, X = some_tree(ctx, cfg, y)
    if ctx.choose('update', 2):
        ctx.cover('new target')
        y = ctx.reals('w', n)
        tree.update_y(ctx.array(y))
    set_values(ctx, root)
    sigma, k = ctx.real('sigma', positive=True), ctx.real('k', positive=True)
    trees = [tree] + [Tree([LeafNode(root.node.split)]) for _ in range(cfg['trees'] - 1)]
    model = make_model(ctx, trees, sigma=sigma, k=k)
    t, v = sigma * sigma, 1 / (4 * k * k * cfg['trees'])
    default = ctx.choose('default', 2)
    z = Normals(ctx)
    sampler = LeafNodeSampler() if default else LeafNodeSampler(scalar_sampler=z)
    if ctx.choose('used', 2):
        other, _, elsewhere = other_model(ctx)
        sampler.step(other, elsewhere.node)
        ctx.cover('used before')
    leaves = root.leaves()
    order = leaves[::-1] if ctx.choose('order', 2) else leaves
    again = ctx.choose('again', 2)
    for q, l in enumerate(order + order[:1] * again):
        rows = l.rows(X)
        if q == len(order):                   # the next sweep, after a noise draw
            sigma = ctx.real('next sigma', positive=True)
            model.sigma.set_value(sigma)
            y = ctx.reals('y next', n)
            tree.update_y(ctx.array(y))
            t = sigma * sigma
            ctx.cover('redrawn')
        s = total(y[i] for i in rows)
        others = [x for x in leaves if x is not l]
        n_raw, before = len(ctx.rng.raw), z.calls
        got = sampler.step(model, l.node)
        if default:
            # the standard normal that was consumed, identified by solving for it
            logs = [e for e in ctx.rng.log if e[0] == 'normal']
            ctx.check(len(logs) == 1 and logs[0][2] == (0.0, 1.0), 'standard normal draws')
            ctx.cover('default sampler')
            draw = (got - v * s / (t + len(rows) * v)) / ctx.sqrt(t * v / (t + len(rows) * v))
            if ctx.sym:
                new = ctx.rng.raw[n_raw:] or ctx.rng.raw
                ok = any(bool(draw == r) for _, r, _ in new)
            else:
                ok = any(abs(draw - r) < 1e-6 for _, r, _ in ctx.rng.raw)
            ctx.check(ok, 'posterior draw', 'standardised value is not a draw')
        else:
            ctx.check(z.calls == before + 1, 'one standard normal per draw')
            want = v * s / (t + len(rows) * v) + ctx.real('z%d' % z.calls) * ctx.sqrt(t * v / (t + len(rows) * v))
            ctx.eq(got, want, 'posterior draw', '%d rows' % len(rows))
        ctx.eq(l.node.current_value, got, 'the drawn value is the leaf value', '')
        l.value = got
        for x in others:
            ctx.eq(x.node.current_value, x.value, 'other leaves keep their value', '')
        wellformed(ctx, tree, root, 'nothing else changes')
        for x in root.walk():
            ctx.eq_all(x.node.data.y.values, y, 'nothing else changes', 'target')
            ctx.eq(x.node.data.y.summed_y(), total(y[i] for i in x.rows(X)), 'nothing else changes', 'target sum')
    ctx.eq(model.sigma.current_value(), sigma, 'nothing else changes', 'noise')
    if len(leaves) > 1:
        ctx.cover('several leaves')


HARNESSES = [
    Harness(leaf_draw, quick=[dict(n=1, p=1, ops=0, grid='distinct', trees=1), dict(n=4, p=1, ops=1, grid='distinct', trees=4), dict(n=4, p=1, ops=2, grid='distinct', trees=1),
                              dict(n=3, p=1, ops=1, grid='ties', trees=2), dict(n=2, p=1, ops=1, trees=1)]
            + autos(3, n=12, p=4, ops=5, grid='wide', trees=200, free=['default', 'update']),
            thorough=[dict(n=6, p=2, ops=2, grid='ties', trees=4), dict(n=5, p=1, ops=3, grid='distinct', trees=9), dict(n=3, p=1, ops=1, trees=3), dict(n=4, p=1, ops=1, grid='distinct', trees=200)],
            covers=['used before', 'redrawn', 'new target', 'several leaves', 'default sampler'],
            bounds='every leaf of trees after 0-2 (thorough 3) legal moves on 1-4 (thorough 6) rows, arbitrary targets (also after a target update), sigma > 0, k > 0, any standard normal '
                   'draw; 1, 2 or 4 (thorough up to 200) trees; also three fixed scripts of 5 moves on 12 rows and 4 columns with 200 trees'),
]

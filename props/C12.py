"""Noise draw."""
from symex.harness import Harness, autos
from .common import *

MODULES = TREE_MODULES + ('bartpy.model', 'bartpy.sigma', 'bartpy.samplers.sigma')
ASSUMPTIONS = [REALS, NONAN, 'numpy.random.gamma(shape, scale) is scale times a standard gamma draw of that shape']


def noise_draw(ctx, cfg):
    from bartpy.data import Data
    from bartpy.model import Model
    from bartpy.samplers.sigma import SigmaSampler
    from bartpy.sigma import Sigma
    n, p = cfg['n'], cfg['p']
    X = covariates(ctx, cfg)
    y = [0.25 * i for i in range(n)] if cfg.get('fixed') else ctx.reals('y', n)
    a, b, scale = ctx.real('a', positive=True), ctx.real('b', positive=True), ctx.real('scale', positive=True)
    sigma = Sigma(a, b, scale)
    model = Model(Data(ctx.array(X), ctx.array(y)), sigma, n_trees=cfg['trees'], initializer=None)
    roots = []
    for t in model.trees:
        r = Ref(0, [], t.nodes[0])
        r.value = 0.0
        roots.append(r)
    sampler = SigmaSampler()
    if ctx.choose('used', 2):
        D = Data(ctx.array([[0.0], [1.0], [2.0], [3.0]]), ctx.array([1.0, 2.0, 0.0, 0.5]))
        sampler.step(Model(D, Sigma(3.0, 0.25, 5.0), n_trees=2, initializer=None), Sigma(3.0, 0.25, 5.0))
        ctx.cover('used before')
    for q in range(cfg['sweeps']):
        for k, tree in enumerate(model.refreshed_trees()):
            if cfg.get('ops') and ctx.choose('m%d_%d' % (q, k), 2):
                moves = legal_moves(X, roots[k], p)
                apply_move(tree, X, moves[ctx.choose('op%d_%d' % (q, k), len(moves))])
                ctx.cover('grown')
            if cfg.get('fixed') and k != 100:
                for i, l in enumerate(roots[k].leaves()):
                    l.value = ((7 * k + i) % 11) * 0.125
                    l.node.set_value(l.value)
            else:
                set_values(ctx, roots[k], 'v%d_%d_' % (q, k))
        rate = b
        for i in range(n):
            e = y[i] - total(r.route(X[i]).value for r in roots)
            rate = rate + e * e / 2
        before = len(ctx.rng.raw)
        got = sampler.step(model, model.sigma)
        new = ctx.rng.raw[before:]
        ctx.check(len(new) == 1 and new[0][0] in ('gamma', 'chisquare'), 'one gamma draw', str([x[0] for x in new]))
        kind, g, args = new[0]
        shape = args[0]
        if kind == 'chisquare':
            shape, g = shape / 2, g / 2
        ctx.eq(shape, a + rational(ctx, n, 2), 'shape', '')
        ctx.check(got > 0, 'positive')
        ctx.eq(got * got * g, rate, 'sigma = g^(-1/2) with the posterior rate', '')
        ctx.eq(sigma.current_value(), got, 'becomes the current value', '')
        ctx.eq(model.sigma.current_value(), got, 'becomes the current value', '')
        ctx.eq(sigma.current_unnormalized_value(), got * scale, 'original units', '')
        ctx.eq(sigma.alpha, a, 'prior unchanged', '')
        ctx.eq(sigma.beta, b, 'prior unchanged', '')
        if q:
            ctx.cover('second sweep')


HARNESSES = [
    Harness(noise_draw, quick=[dict(n=1, p=1, trees=1, sweeps=1), dict(n=2, p=1, trees=2, sweeps=2, grid='distinct', ops=1), dict(n=3, p=1, trees=3, sweeps=1, grid='ties', ops=1),
                               dict(n=6, p=1, trees=1, sweeps=1, grid='distinct')]
            + autos(3, n=12, p=4, trees=4, sweeps=3, grid='wide', ops=1) + autos(1, n=4, p=1, trees=2, sweeps=12, grid='distinct', ops=1) + autos(1, n=4, p=1, trees=150, sweeps=1, grid='distinct', ops=1, fixed=1),
            thorough=[dict(n=3, p=1, trees=2, sweeps=2, grid='distinct', ops=1), dict(n=4, p=1, trees=3, sweeps=1, grid='ties', ops=1), dict(n=2, p=1, trees=2, sweeps=2), dict(n=6, p=2, trees=2, sweeps=3, grid='ties')],
            covers=['used before', 'grown', 'second sweep'],
            bounds='1-6 rows, 1-3 trees, up to 2 (thorough 3) sweeps, arbitrary targets, leaf values, prior shape and rate > 0, target range > 0 and standard gamma draw > 0; scripted: 4 trees on 12 rows, 12 sweeps, 150 trees (of which one with arbitrary values)'),
]

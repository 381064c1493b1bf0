"""Order and targets of the updates in one sweep."""
from symex.harness import Harness, autos
from .common import *

MODULES = TREE_MODULES + ('bartpy.model', 'bartpy.samplers.schedule', 'bartpy.samplers.modelsampler', 'bartpy.trace')
ASSUMPTIONS = [REALS, NONAN, 'the steps of a schedule are run as they are issued, as ModelSampler does']


class Recorder:
    def __init__(self, events, kind, act):
        self.events, self.kind, self.act = events, kind, act

    def step(self, model, what):
        return self.act(model, what)


def sweep(ctx, cfg):
    from bartpy.data import Data
    from bartpy.model import Model
    from bartpy.samplers.modelsampler import ModelSampler
    from bartpy.samplers.schedule import SampleSchedule
    from bartpy.sigma import Sigma
    from bartpy.trace import TraceLogger
    X = covariates(ctx, cfg)
    n, T = cfg['n'], cfg['trees']
    sg = Sigma(1., 1., 1.)
    model = Model(Data(ctx.array(X), ctx.array(ctx.reals('y', n))), sg, n_trees=T, initializer=None)
    roots = [Ref(0, [], t.nodes[0]) for t in model.trees]
    for r in roots:
        r.value = 0.0
    for k, r in enumerate(roots):
        for q in range(cfg.get('grown', 0)):
            moves = legal_moves(X, r, cfg['p'])
            apply_move(model.trees[k], X, moves[ctx.choose('pre%d_%d' % (k, q), len(moves))])
    events, accepted = [], []

    def tree_step(m, tree):
        ctx.check(m is model, 'updates get the model')
        k = [t is tree for t in model.trees].index(True)
        moves = legal_moves(X, roots[k], cfg['p'])
        c = ctx.choose('move%d' % len(events), len(moves) + 1)
        result = None
        if c:
            apply_move(tree, X, moves[c - 1])
            result = object()
            ctx.cover(moves[c - 1][0])
        events.append(('tree', tree, [l.node for l in roots[k].leaves()]))
        accepted.append(result is not None)
        return result

    def leaf_step(m, node):
        ctx.check(m is model, 'updates get the model')
        events.append(('leaf', node))
        v = ctx.real('leaf%d' % len(events)) if cfg.get('values') else 0.0
        node.set_value(v)
        return v

    def sigma_step(m, s):
        ctx.check(m is model and s is model.sigma, 'noise update gets the model and its sigma')
        events.append(('sigma',))
        return 1.0

    schedule = SampleSchedule(Recorder(events, 'tree', tree_step), Recorder(events, 'leaf', leaf_step), Recorder(events, 'sigma', sigma_step))
    sampler = ModelSampler(schedule)
    for q in range(cfg.get('sweeps', 1)):
        del events[:], accepted[:]
        rates = sampler.step(model, TraceLogger())
        ctx.check(events[-1:] == [('sigma',)] and sum(1 for e in events if e[0] == 'sigma') == 1, 'one noise update, last', str([e[0] for e in events]))
        pos, k = 0, 0
        while pos < len(events) - 1:
            e = events[pos]
            ctx.check(e[0] == 'tree' and k < T and e[1] is model.trees[k], 'each tree once, in order')
            group = events[pos + 1: pos + 1 + len(e[2])]
            ctx.check(all(x[0] == 'leaf' for x in group) and same_ids([x[1] for x in group], e[2]), 'each leaf of the updated tree once, right after the structure update',
                      '%d leaves, then %s' % (len(e[2]), [x[0] for x in group]))
            pos += 1 + len(e[2])
            k += 1
        ctx.check(k == T, 'each tree once, in order', '%d of %d' % (k, T))
        ctx.check(list(rates.keys()) == ['Tree'], 'only structure updates have an acceptance rate', str(list(rates)))
        ctx.eq(rates['Tree'], rational(ctx, sum(accepted), T), 'acceptance rate', '')
        ctx.cover('sweep')


HARNESSES = [
    Harness(sweep, quick=[dict(n=3, p=1, trees=2, grid='distinct'), dict(n=3, p=1, trees=2, grid='distinct', grown=1), dict(n=2, p=1, trees=3, grid='distinct', sweeps=2), dict(n=3, p=1, trees=1, grid='ties', sweeps=3),
                          dict(n=2, p=1, trees=2)]
            + autos(4, n=12, p=4, trees=6, grid='wide', grown=3, sweeps=5) + autos(2, n=4, p=1, trees=3, grid='distinct', sweeps=25) + autos(1, n=4, p=1, trees=200, grid='distinct', sweeps=2),
            thorough=[dict(n=4, p=1, trees=2, grid='distinct', grown=1, sweeps=2), dict(n=3, p=1, trees=3, grid='distinct', grown=1), dict(n=3, p=1, trees=2, values=1)],
            covers=['sweep', 'grow', 'prune'],
            bounds='1-3 trees with 1-3 leaves, 1-3 sweeps, every outcome (grow, prune, nothing) of every structure update; also six fixed histories of 5-25 sweeps over 3-6 trees on 4-12 rows and one of 2 sweeps over 200 trees'),
]

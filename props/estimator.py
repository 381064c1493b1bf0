"""The estimator with the sampling sweeps replaced by arbitrary new leaf values."""
from .common import *

ESTIMATOR_MODULES = TREE_MODULES + ('bartpy.model', 'bartpy.samplers.modelsampler', 'bartpy.samplers.schedule', 'bartpy.trace', 'bartpy.sklearnmodel', 'bartpy.sigma')


def targets(ctx, n, tag='y'):
    """n arbitrary targets, their minimum and maximum."""
    if ctx.auto is not None and n > 1:       # two arbitrary extremes, the rest between them fixed
        a = ctx.choose('least' + tag, n)
        b = (a + 1 + ctx.choose('most' + tag, n - 1)) % n
        y = [rational(ctx, (i * 7) % 23 - 11, 4) for i in range(n)]
        y[a], y[b] = ctx.real('%s%d' % (tag, a), hi=-3), ctx.real('%s%d' % (tag, b), lo=3)
        return y, y[a], y[b]
    y = ctx.reals(tag, n)
    lo = hi = y[0]
    for v in y[1:]:
        if bool(v < lo):
            lo = v
        elif bool(v > hi):
            hi = v
    return y, lo, hi


class Sweep:
    """What one sweep set: per tree None or (column, threshold), and the leaf values."""

    def __init__(self, trees, sigma, acceptance):
        self.trees, self.sigma, self.acceptance = trees, sigma, acceptance

    def at(self, row):
        acc = 0
        for split, vals in self.trees:
            if split is None:
                acc = acc + vals[0]
            else:
                acc = acc + (vals[0] if bool(row[split[0]] <= split[1]) else vals[1])
        return acc


class Recorder:
    def __init__(self, ctx, burn):
        self.ctx, self.burn, self.n, self.all = ctx, burn, 0, []

    def clear(self):
        self.all = []

    @property
    def chains(self):
        return [c[self.burn:] for _, c in self.all]

    @property
    def models(self):
        return [m for m, _ in self.all]

    def sweep(self, model):
        if not any(m is model for m, _ in self.all):
            self.all.append((model, []))
        c = [c for m, c in self.all if m is model][0]
        trees = []
        for t in model.refreshed_trees():
            leaves = list(t.leaf_nodes)
            inner = [n for n in t.nodes if n.left_child is not None]
            if len(inner) == 1:
                leaves = [inner[0].left_child, inner[0].right_child]
            vals = []
            for l in leaves:
                v = self.ctx.real('leaf%d' % self.n)
                self.n += 1
                l.set_value(v)
                vals.append(v)
            trees.append(((0, 0.5) if inner else None, vals))
        sg = self.ctx.real('noise%d' % self.n, positive=True)
        model.sigma.set_value(sg)
        c.append(Sweep(trees, sg, len(c) % 2))
        return c[-1].acceptance


class Splitter:
    """An initializer that splits every other tree on the first column at 0.5."""

    def __new__(cls, *a, **k):
        from bartpy.initializers.initializer import Initializer

        class Splitting(Initializer):
            count = 0

            def initialize_tree(self, tree):
                from bartpy.mutation import GrowMutation
                from bartpy.node import split_node
                from bartpy.tree import mutate
                type(self).count += 1
                if type(self).count % 2:
                    leaf = tree.leaf_nodes[0]
                    mutate(tree, GrowMutation(leaf, split_node(leaf, conditions(0, 0.5))))
        return Splitting()


def estimator(ctx, cfg, **kw):
    """SklearnModel whose chains make arbitrary sweeps, and the record of them."""
    from bartpy.samplers.schedule import SampleSchedule
    from bartpy.sklearnmodel import SklearnModel
    burn = cfg.get('burn', 0)
    rec = Recorder(ctx, burn)

    def steps(self, model):
        yield 'Tree', lambda: (object() if rec.sweep(model) else None)
    ctx.patch(SampleSchedule, 'steps', steps)
    kw.setdefault('initializer', Splitter())
    est = SklearnModel(n_trees=cfg['trees'], n_chains=cfg['chains'], n_samples=cfg['samples'], n_burn=burn, thin=1.0, n_jobs=1, **kw)
    return est, rec

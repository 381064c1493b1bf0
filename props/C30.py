"""What the diagnostic plots hand to the plotting libraries."""
import inspect
from symex.harness import Harness, autos
from .common import *
from .estimator import *
from .C18 import expected

MODULES = ESTIMATOR_MODULES + ('bartpy.plotting', 'bartpy.diagnostics.diagnostics', 'bartpy.diagnostics.residuals', 'bartpy.diagnostics.sampling', 'bartpy.diagnostics.sigma',
                               'bartpy.diagnostics.trees', 'bartpy.diagnostics.features', 'bartpy.features.featureimportance')
ASSUMPTIONS = [REALS, NONAN, 'the data handed to matplotlib, seaborn and statsmodels is judged, not the pixels they produce; those libraries are replaced by stand-ins that check the call against the real signature and record the data',
               'the Gibbs sweep is replaced by one that leaves arbitrary splits, leaf values, noise and acceptance', 'chains run in this process (n_jobs=1)']


class Call:
    def __init__(self, ctx, axes, name, args, kw):
        self.axes, self.name, self.kw = axes, name, kw
        data = kw.get('data')
        self.series = []
        for a in list(args) + [v for k, v in kw.items() if k != 'data']:
            if isinstance(a, str) and data is not None and a in data:
                a = data[a]
            s = self.sequence(ctx, a)
            if s is not None:
                self.series.append(s)

    @staticmethod
    def sequence(ctx, a):
        if isinstance(a, (str, bytes)) or a is None:
            return None
        if isinstance(a, dict):
            a = list(a.values())
        try:
            return [v for v in (ctx.flat(a) if hasattr(a, 'values') or hasattr(a, 'ravel') else list(a))]
        except TypeError:
            return None


class Anything:
    """Stands for whatever a plotting call returns."""

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return Anything()

    def __call__(self, *a, **k):
        return Anything()

    def __iter__(self):
        return iter([])


class Axes:
    def __init__(self, board):
        self._board = board

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        import matplotlib.axes
        real = getattr(matplotlib.axes.Axes, name, None)
        if not callable(real):
            return Anything()

        def call(*a, **k):
            if not name.startswith(('set_', 'get_')):
                try:
                    inspect.signature(real).bind(self, *a, **k)
                except ValueError:
                    pass
            return self._board.record(self, name, a, k)
        return call


class Board:
    """Records the data every plotting call is given, and on which axes."""

    def __init__(self, ctx):
        import matplotlib.pyplot as plt
        import numpy as np
        import seaborn
        import statsmodels.api as sm
        import matplotlib.figure
        self.ctx, self.calls, self.shown = ctx, [], 0
        self.current = Axes(self)

        def subplots(nrows=1, ncols=1, **k):
            out = np.empty((nrows, ncols), dtype=object)
            for i in range(nrows):
                for j in range(ncols):
                    self.current = out[i, j] = Axes(self)
            if nrows == ncols == 1:
                return Anything(), out[0, 0]
            return Anything(), out.ravel() if 1 in (nrows, ncols) else out

        def show(*a, **k):
            self.shown += 1
        ctx.patch(plt, 'subplots', subplots)
        ctx.patch(plt, 'show', show)
        ctx.patch(plt, 'figure', lambda *a, **k: Anything())
        ctx.patch(plt, 'gca', lambda *a, **k: self.current)
        ctx.patch(plt, 'sca', lambda ax: setattr(self, 'current', ax))
        for f in ('plot', 'bar', 'barh', 'scatter', 'hist', 'boxplot', 'violinplot', 'step', 'stem', 'fill_between', 'errorbar', 'axhline', 'axvline', 'hlines', 'vlines', 'legend', 'tight_layout', 'title',
                  'xlabel', 'ylabel', 'xticks', 'yticks', 'xlim', 'ylim', 'suptitle', 'grid'):
            self.stand_in(plt, f)
        for f in ('regplot', 'residplot', 'scatterplot', 'lineplot', 'boxplot', 'barplot', 'histplot', 'violinplot', 'boxenplot', 'stripplot', 'swarmplot', 'kdeplot'):
            self.stand_in(seaborn, f)
        self.stand_in(sm, 'qqplot')

    def stand_in(self, module, name):
        sig = inspect.signature(getattr(module, name))

        def call(*a, **k):
            sig.bind(*a, **k)
            k = dict(k)
            ax = k.pop('ax', None)
            return self.record(self.current if ax is None else ax, name, a, k)
        self.ctx.patch(module, name, call)

    def record(self, ax, name, a, k):
        self.calls.append(Call(self.ctx, ax, name, a, k))
        return Anything()

    def on(self, ax):
        return [c for c in self.calls if ax is None or c.axes is ax]

    # --- what was drawn

    def same(self, xs, ys):
        if len(xs) != len(ys):
            return False
        ok = True
        for a, b in zip(xs, ys):
            a, b = [v.item() if type(v).__module__ == 'numpy' and hasattr(v, 'item') else v for v in (a, b)]
            if isinstance(a, str) or isinstance(b, str):
                if str(a) != str(b):
                    return False
                continue
            e = (a == b) if self.ctx.sym and (hasattr(a, 'sgn') or hasattr(b, 'sgn')) else abs(float(a) - float(b)) <= 1e-6 * max(1.0, abs(float(b)))
            ok = e & ok
        return ok

    def drawn(self, want, label, ax=None, pick=lambda c: True):
        """One of the calls was given this series."""
        hit = False
        for c in self.on(ax):
            if pick(c):
                for s in c.series:
                    hit = self.same(s, want) | hit
        self.ctx.check(hit, label, 'not among the series drawn')

    def pairs(self, xs, ys, label, ax=None):
        """One of the calls was given these as its first and second series."""
        hit = False
        for c in self.on(ax):
            if len(c.series) > 1:
                hit = (self.same(c.series[0], xs) & self.same(c.series[1], ys)) | hit
            xk, yk = c.kw.get('x'), c.kw.get('y')
            if xk is not None and yk is not None and not isinstance(xk, str) and not isinstance(yk, str):
                hit = (self.same(self.ctx.flat(xk), xs) & self.same(self.ctx.flat(yk), ys)) | hit
        self.ctx.check(hit, label, 'no call pairs them')

    def labelled(self, words, ax=None):
        """The calls whose label contains one of the words."""
        return [c for c in self.on(ax) if any(w in str(c.kw.get('label', '')).lower() for w in words)]


def fitted(ctx, cfg, **kw):
    n = cfg['n']
    X = [[float(i)] + [float(i % 2)] * (cfg.get('p', 1) - 1) for i in range(n)]
    y, lo, hi = targets(ctx, n)
    est, rec = estimator(ctx, cfg, store_in_sample_predictions=True, store_acceptance_trace=True, **kw)
    est.fit(ctx.array(X), ctx.array(y))
    sweeps = [s for c in rec.chains for s in c]
    fit = [expected(ctx, lo, hi, sweeps, r) for r in X]
    return est, X, y, sweeps, fit


def an_axes(ctx, board):
    """Either draw on axes of the caller (while other axes are current) or on new ones."""
    if ctx.choose('ax', 2):
        ax = Axes(board)
        ctx.cover('axes given')
        return ax
    return None


def returned(ctx, board, got, ax):
    if ax is not None:
        ctx.check(got is ax, 'the axes drawn on are returned')


def depths(s):
    """Depths of the nodes of a sweep's trees: root, and two children when split."""
    return [d for split, vals in s.trees for d in ([0] if split is None else [0, 1, 1])]


def sigma_wanted(sweeps):
    return [s.sigma for s in sweeps]


def sigma(ctx, cfg):
    from bartpy.diagnostics.sigma import plot_sigma_convergence
    est, X, y, sweeps, fit = fitted(ctx, cfg)
    b = Board(ctx)
    ax = an_axes(ctx, b)
    returned(ctx, b, plot_sigma_convergence(est, **({} if ax is None else dict(ax=ax))), ax)
    b.drawn(sigma_wanted(sweeps), 'noise level of every stored sample, in order', ax)
    ctx.cover('sigma')


def depth_series(ctx, board, ax, samples):
    """samples: the depths of the nodes of every stored sample."""
    for words, fn in ((('min',), min), (('mean', 'average', 'avg'), lambda d: rational(ctx, sum(d), len(d))), (('max',), max)):
        want = [fn(d) for d in samples]
        named = board.labelled(words, ax)
        if named:
            ok = False
            for c in named:
                for s in c.series:
                    ok = board.same(s, want) | ok
            ctx.check(ok, '%s depth of the nodes of every stored sample' % words[0], 'the series so labelled is another')
        else:
            board.drawn(want, '%s depth of the nodes of every stored sample' % words[0], ax)


def tree_depth(ctx, cfg):
    from bartpy.diagnostics.trees import plot_tree_depth
    est, X, y, sweeps, fit = fitted(ctx, cfg, initializer=Growing(ctx, cfg['trees'] * cfg['chains']))
    real = [[n.depth for t in m.trees for n in t.nodes] for m in est.model_samples]
    b = Board(ctx)
    ax = an_axes(ctx, b)
    returned(ctx, b, plot_tree_depth(est, **({} if ax is None else dict(ax=ax))), ax)
    for k, s in enumerate(real):
        if len(set(s)) > 2:
            ctx.cover('deep trees')
    depth_series(ctx, b, ax, real)


class Growing:
    """An initializer that grows each tree of each chain to an arbitrary one of a few shapes."""

    def __new__(cls, ctx, trees):
        from bartpy.initializers.initializer import Initializer
        picks = [ctx.choose('splits%d' % k, 3) for k in range(trees)]

        class Splitting(Initializer):
            count = 0

            def initialize_tree(self, tree):
                from bartpy.mutation import GrowMutation
                from bartpy.node import split_node
                from bartpy.tree import mutate
                k = type(self).count
                type(self).count += 1
                leaf = tree.leaf_nodes[0]
                for j in range(picks[k % len(picks)]):
                    new = split_node(leaf, conditions(0, 0.5 + j))
                    mutate(tree, GrowMutation(leaf, new))
                    leaf = new.right_child
        return Splitting()


def acceptance(ctx, cfg):
    from bartpy.diagnostics.sampling import plot_tree_mutation_acceptance_rate
    est, X, y, sweeps, fit = fitted(ctx, cfg)
    rates = ctx.reals('rate', len(sweeps), lo=0, hi=1)
    ctx.check(len(est.acceptance_trace) == len(sweeps), 'acceptance of every stored sample')
    for a, r in zip(est.acceptance_trace, rates):
        a['Tree'] = r
        a['Node'] = 1.0
    b = Board(ctx)
    ax = an_axes(ctx, b)
    returned(ctx, b, plot_tree_mutation_acceptance_rate(est, **({} if ax is None else dict(ax=ax))), ax)
    b.drawn(rates, 'structure acceptance rate of every stored sample, in order', ax)
    ctx.cover('acceptance')


def residuals(ctx, cfg):
    from bartpy.diagnostics.residuals import plot_qq, plot_homoskedasity_diagnostics
    est, X, y, sweeps, fit = fitted(ctx, cfg)
    res = [a - f for a, f in zip(y, fit)]
    b = Board(ctx)
    ax = an_axes(ctx, b)
    if ctx.choose('which', 2):
        returned(ctx, b, plot_qq(est, **({} if ax is None else dict(ax=ax))), ax)
        b.drawn(res, 'training residuals', ax, lambda c: c.name == 'qqplot')
        ctx.cover('qq')
    else:
        returned(ctx, b, plot_homoskedasity_diagnostics(est, **({} if ax is None else dict(ax=ax))), ax)
        b.pairs(fit, res, 'fitted values against residuals', ax)
        ctx.cover('fitted against residuals')


def simple(ctx, cfg):
    from bartpy.plotting import plot_residuals, plot_modelled_against_actual
    est, X, y, sweeps, fit = fitted(ctx, cfg)
    b = Board(ctx)
    if ctx.choose('which', 2):
        plot_residuals(est)
        b.drawn([a - f for a, f in zip(y, fit)], 'training residuals in target units')
    else:
        plot_modelled_against_actual(est)
        b.drawn(y, 'training target in its units')
        b.drawn(fit, 'fitted values in target units')
    ctx.cover('simple')


def all_diagnostics(ctx, cfg):
    from bartpy.diagnostics.diagnostics import plot_diagnostics
    est, X, y, sweeps, fit = fitted(ctx, cfg)
    b = Board(ctx)
    plot_diagnostics(est)
    res = [a - f for a, f in zip(y, fit)]
    b.drawn(sigma_wanted(sweeps), 'noise levels')
    b.drawn(res, 'training residuals', None, lambda c: c.name == 'qqplot')
    b.pairs(fit, res, 'fitted values against residuals')
    b.drawn([s.acceptance for s in sweeps], 'acceptance')
    depth_series(ctx, b, None, [depths(s) for s in sweeps])
    used = []
    for c in b.calls:
        if c.name in ('plot', 'qqplot', 'regplot', 'scatter') and not any(c.axes is a for a in used):
            used.append(c.axes)
    ctx.check(len(used) == 5, 'five plots on their own axes', str(len(used)))
    ctx.cover('all')


def shares(ctx, cfg):
    from bartpy.diagnostics.features import feature_split_proportions, plot_feature_split_proportions
    est, X, y, sweeps, fit = fitted(ctx, dict(cfg, p=3), initializer=OnColumns(ctx, 3, cfg['trees'] * cfg['chains']))
    want = feature_split_proportions(est)
    b = Board(ctx)
    ax = an_axes(ctx, b)
    other = b.current
    returned(ctx, b, plot_feature_split_proportions(est, **({} if ax is None else dict(ax=ax))), ax)
    if not want:
        ctx.cut('no splits')
    names = sorted(want)
    hit = False
    for c in b.on(ax):
        for s in c.series:
            hit = b.same(s, [want[k] for k in names]) | hit
    ctx.check(hit, 'share of every feature, in the order of the features')
    b.drawn(names, 'feature names in that order', ax)
    if ax is not None:
        ctx.check(not any(c.axes is other for c in b.calls), 'nothing is drawn elsewhere')
    if len(want) > 1:
        ctx.cover('several features')


class OnColumns:
    """An initializer that splits each tree on an arbitrary column."""

    def __new__(cls, ctx, cols, trees):
        from bartpy.initializers.initializer import Initializer
        picks = [ctx.choose('column%d' % k, cols + 1) for k in range(trees)]

        class Splitting(Initializer):
            count = 0

            def initialize_tree(self, tree):
                from bartpy.mutation import GrowMutation
                from bartpy.node import split_node
                from bartpy.tree import mutate
                k = type(self).count
                type(self).count += 1
                c = picks[k % len(picks)]
                if c < cols:
                    leaf = tree.leaf_nodes[0]
                    mutate(tree, GrowMutation(leaf, split_node(leaf, conditions(c, 0.5))))
        return Splitting()


def thresholds(ctx, cfg):
    from bartpy.diagnostics.features import plot_feature_proportions_against_thresholds
    p = cfg['p']
    props = {j: ctx.real('p%d' % j, lo=0, hi=1) for j in range(p)}
    thr = {j: ctx.real('t%d' % j, lo=0, hi=1) for j in range(p)}
    for j in range(p) if ctx.auto is not None else ():
        ctx.assume(props[j] > thr[j] if ctx.choose('side%d' % j, 2) else props[j] <= thr[j])
    b = Board(ctx)
    ax = an_axes(ctx, b)
    returned(ctx, b, plot_feature_proportions_against_thresholds(props, thr, **({} if ax is None else dict(ax=ax))), ax)
    passed = [j for j in range(p) if bool(props[j] > thr[j])]
    b.pairs(list(range(p)), [thr[j] * 100 for j in range(p)], 'thresholds in percent', ax)
    for group in (passed, [j for j in range(p) if j not in passed]):
        if group:
            b.pairs(group, [props[j] * 100 for j in group], 'passed and failed features are drawn apart, in percent', ax)
    if passed and len(passed) < p:
        ctx.cover('passed and failed')


def nulls(ctx, cfg):
    from bartpy.diagnostics.features import plot_null_feature_importance_distributions
    p, r = cfg['p'], cfg['runs']
    dist = {j: ctx.reals('d%d_' % j, r, lo=0, hi=1) for j in range(p)}
    b = Board(ctx)
    ax = an_axes(ctx, b)
    returned(ctx, b, plot_null_feature_importance_distributions({j: list(v) for j, v in dist.items()}, **({} if ax is None else dict(ax=ax))), ax)
    names = [j for j in range(p) for _ in range(r)]
    values = [v for j in range(p) for v in dist[j]]
    hit = False
    for c in b.on(ax):
        for s in c.series:
            hit = b.same(s, values) | hit
    ctx.check(hit, 'the null shares of every feature')
    b.pairs(names, values, 'every null share belongs to its feature', ax)
    ctx.cover('nulls')


def importance(ctx, cfg):
    """feature_importance draws the two lists it returns."""
    from bartpy.features import featureimportance as fi
    from .C25 import setup
    X, y, v, folds, est, rec, Xin, yin = setup(ctx, cfg)
    b = Board(ctx)
    base, null = fi.feature_importance(est, Xin, yin, v, cfg['k'], cfg['perms'])
    for words, want in ((('null',), null), (('original', 'baseline'), base)):
        named = b.labelled(words)
        ok = False
        for c in named or b.calls:
            for s in c.series:
                ok = b.same(s, list(want)) | ok
        ctx.check(ok, 'the errors returned are the errors drawn', words[0])
    ctx.cover('importance')


ONE = [dict(n=2, chains=1, samples=2, trees=2), dict(n=3, chains=2, samples=1, trees=1)]
DEEP = autos(2, n=8, chains=3, samples=7, trees=4)
MORE = [dict(n=4, chains=2, samples=3, trees=3), dict(n=3, chains=3, samples=2, trees=2)]
HARNESSES = [
    Harness(sigma, quick=ONE + DEEP, thorough=MORE, covers=['sigma', 'axes given'], bounds='1-2 chains of 1-2 stored samples, arbitrary noise levels'),
    Harness(tree_depth, quick=[dict(n=3, chains=1, samples=1, trees=2), dict(n=3, chains=2, samples=1, trees=1)] + autos(3, n=8, chains=3, samples=3, trees=4), thorough=[dict(n=3, chains=2, samples=1, trees=2)], covers=['deep trees', 'axes given'],
            bounds='1-2 trees of depth 0-2 of any shape (a chain of splits), 1-2 stored samples'),
    Harness(acceptance, quick=ONE + DEEP, thorough=MORE, covers=['acceptance', 'axes given'], bounds='2 stored samples with arbitrary acceptance rates'),
    Harness(residuals, quick=ONE + DEEP, thorough=MORE, covers=['qq', 'fitted against residuals', 'axes given'], bounds='2-3 rows, arbitrary targets and leaf values'),
    Harness(simple, quick=ONE + DEEP, thorough=MORE, covers=['simple'], bounds='2-3 rows, arbitrary targets and leaf values'),
    Harness(all_diagnostics, quick=ONE[:1] + DEEP[:1], thorough=MORE[:1], covers=['all'], bounds='2 rows, arbitrary targets, leaf values, noise'),
    Harness(shares, quick=[dict(n=2, chains=1, samples=1, trees=3)] + autos(3, n=2, chains=3, samples=2, trees=5), thorough=[dict(n=2, chains=2, samples=1, trees=3)], covers=['several features', 'axes given'], bounds='3 trees of one sample, each with no split or one on any of 3 columns'),
    Harness(thresholds, quick=[dict(p=2), dict(p=3)] + autos(4, p=12), thorough=[dict(p=4)], covers=['passed and failed', 'axes given'], bounds='2-3 features (thorough 4), arbitrary shares and thresholds'),
    Harness(nulls, quick=[dict(p=2, runs=2), dict(p=3, runs=1), dict(p=11, runs=5)], thorough=[dict(p=3, runs=3)], covers=['nulls', 'axes given'], bounds='2-3 features, 1-2 runs (thorough 3), arbitrary shares'),
    Harness(importance, quick=[dict(n=3, k=3, perms=1, chains=1, samples=1, trees=1, same=1)], thorough=[dict(n=2, k=2, perms=2, chains=1, samples=1, trees=1)], covers=['importance'], bounds='3 rows, 3 folds'),
]

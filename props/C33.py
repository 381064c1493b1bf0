"""Feature selectors as scikit-learn components: settings reach the selection however they are set."""
import copy
from symex.harness import Harness, autos
from .common import *
from .C24 import Growth, CUBE, quantile, share, wide, MODULES as M24

MODULES = M24
ASSUMPTIONS = [REALS, NONAN, 'the Gibbs sweep is replaced by one that leaves arbitrary splits in the trees', 'chains run in this process (n_jobs=1)',
               'quantiles are linearly interpolated order statistics (numpy\'s default)']

WAYS = ['constructor', 'set_params', 'set_params one by one', 'clone', 'clone of a fitted one', 'set_params after a fit', 'clone then set_params', 'deepcopy', 'pipeline', 'clone of a pipeline',
        'settings of the model']
MODEL = dict(n_trees=1, n_chains=1, n_samples=1, n_burn=0, thin=1., n_jobs=1)


def kinds(ctx, cfg):
    """The selector class, its settings, and others it may have had before."""
    from bartpy.features.featureselection import SelectNullDistributionThreshold, SelectSplitProportionThreshold
    if cfg['kind'] == 'fixed':
        return SelectSplitProportionThreshold, dict(percentile=ctx.real('q', lo=0, hi=1)), dict(percentile=0.9)
    new = dict(percentile=[0.0, 1.0, 0.75][ctx.choose('percentile', 3)], method=['local', 'global'][ctx.choose('method', 2)], n_permutations=cfg['runs'], n_trees=[None, 2][ctx.choose('n_trees', 2)])
    ctx.cover(new['method'])
    if new['n_trees']:
        ctx.cover('own number of trees')
    old = dict(percentile=0.5, method='local' if new['method'] == 'global' else 'global', n_permutations=cfg['runs'] + 1, n_trees=3 if new['n_trees'] is None else None)
    return SelectNullDistributionThreshold, new, old


def conforms(ctx, cfg):
    from sklearn.base import clone
    from sklearn.pipeline import Pipeline
    from bartpy.sklearnmodel import SklearnModel
    p = cfg['p']
    X = [r[:p] for r in CUBE] if p == 3 else wide(p) if p > 3 else [[0., 1.], [1., 0.], [1., 1.], [0., 0.]]
    y = [float(i * i % 5) for i in range(len(X))]
    g = Growth(ctx, p, 0)
    g.install()
    cls, new, old = kinds(ctx, cfg)
    settings = dict(MODEL, n_samples=cfg['samples'], n_chains=cfg['chains'])
    before = dict(MODEL, n_samples=1, n_trees=2)
    fresh = SklearnModel(**settings)
    other = SklearnModel(**before)
    want = dict(new, model=fresh)
    way = WAYS[ctx.choose('way', len(WAYS))]
    ctx.cover(way)
    make_old = lambda: cls(other, **old)

    def fit(s):
        r = s.fit(ctx.array(X), ctx.array(y))
        ctx.check(r is s, 'fit returns the selector')
    original = None
    if way == 'constructor':
        sel = cls(**want)
    elif way == 'set_params':
        sel = make_old()
        ctx.check(sel.set_params(**want) is sel, 'set_params returns the selector')
    elif way == 'set_params one by one':
        sel = make_old()
        for k in sorted(want, reverse=True):
            sel.set_params(**{k: want[k]})
    elif way == 'clone':
        sel = clone(cls(**want))
    elif way == 'clone of a fitted one':
        first = cls(**want)
        fit(first)
        sel = clone(first)
    elif way == 'set_params after a fit':
        sel = make_old()
        fit(sel)
        sel.set_params(**want)
    elif way == 'clone then set_params':
        original = make_old()
        sel = clone(original).set_params(**want)
    elif way == 'deepcopy':
        sel = copy.deepcopy(cls(**want))
    elif way == 'pipeline':
        sel = make_old()
        Pipeline([('s', sel)]).set_params(**{'s__' + k: v for k, v in want.items()})
    elif way == 'clone of a pipeline':
        sel = clone(Pipeline([('s', cls(**want)), ('m', SklearnModel(**MODEL))])).named_steps['s']
    else:
        sel = cls(SklearnModel(**before), **old)
        sel.set_params(**new)
        sel.set_params(**{'model__' + k: settings[k] for k in settings})
    g.all.clear()
    got = sel.get_params(deep=False)
    ctx.check(set(got) == set(want), 'get_params lists every setting', str(sorted(got)))
    for k in new:
        if isinstance(new[k], str) or new[k] is None:
            ctx.check(got[k] == new[k], 'get_params', k)
        else:
            ctx.eq(got[k], new[k], 'get_params', k)
    deep = sel.get_params()
    for k in settings:
        ctx.eq(deep['model__' + k], settings[k], 'get_params of the model', k)
    fit(sel)
    follows(ctx, cfg, g, sel, new, settings, X, way)
    ctx.check(fresh.extract is None and other.extract is None, 'the models given are not fitted')
    if original is not None:
        g.all.clear()
        fit(original)
        follows(ctx, dict(cfg, runs=cfg.get('runs', 0) + 1), g, original, old, before, X, 'the original of a clone')


def follows(ctx, cfg, g, sel, want, settings, X, what):
    """The selection made is that of the settings and of the splits left by the runs of this fit."""
    p = len(X[0])
    C, T = settings['n_chains'], want.get('n_trees') or settings['n_trees']
    null = 'method' in want
    runs = 1 + (want['n_permutations'] if null else 0)
    ctx.check(len(g.all) == C * runs, 'one run on the target and one per permutation', '%s: %d chains' % (what, len(g.all)))
    for m, rec in g.all:
        ctx.check(len(m.trees) == T, 'number of trees', what)
        ctx.check(len(rec) == settings['n_samples'], 'number of samples', what)
        ctx.eq_all(m.data.X.values, [v for r in X for v in r], 'every run sees the covariates', what)
    used = [[c for m, rec in g.all[i * C:i * C + C] for s in rec for c in s] for i in range(runs)]
    mask = list(sel.get_support())
    ctx.check(len(mask) == p, 'one answer per column', what)
    q = want['percentile']
    if null:
        props = [[share(u, c) for c in range(p)] for u in used]
        for c in range(p):
            vals = [r[c] for r in props[1:]] if want['method'] == 'local' else [max(r) for r in props[1:]]
            th = quantile(ctx, vals, q)
            if abs(props[0][c] - th) > 1e-9 or props[0][c] == th:
                ctx.check(ctx.truth(mask[c]) == (props[0][c] > th), 'selected exactly when above the null threshold of these settings', '%s: column %d' % (what, c))
                ctx.cover('selected' if props[0][c] > th else 'rejected')
    else:
        for c in range(p):
            k, n = used[0].count(c), max(1, len(used[0]))
            if not ctx.sym and abs(k / n - q) < 1e-9 and k / n != q:
                continue
            above = bool(q * n < k)
            ctx.check(ctx.truth(mask[c]) == above, 'selected exactly when above the threshold of these settings', '%s: column %d' % (what, c))
            ctx.cover('selected' if above else 'rejected')
    keep = [c for c in range(p) if ctx.truth(mask[c])]
    if keep:
        out = sel.transform(ctx.array(X))
        ctx.eq_all(out, [r[c] for r in X for c in keep], 'the selected columns are returned, in order', what)
        if len(keep) < p:
            ctx.cover('some columns')


def plots(ctx, cfg):
    """plot() draws the selection that was made."""
    from bartpy.sklearnmodel import SklearnModel
    from .C30 import Board
    p = cfg['p']
    X = [r[:p] for r in CUBE]
    y = [float(i * i % 5) for i in range(len(X))]
    g = Growth(ctx, p, 0)
    g.install()
    cls, new, old = kinds(ctx, cfg)
    sel = cls(SklearnModel(**dict(MODEL, n_samples=cfg['samples'])), **new)
    sel.fit(ctx.array(X), ctx.array(y))
    if 'method' in new:
        runs = 1 + new['n_permutations']
    else:
        runs = 1
    used = [[c for s in rec for c in s] for m, rec in g.all]
    b = Board(ctx)
    sel.plot()
    ctx.check(b.shown == 1, 'the plot is shown')
    if 'method' not in new:
        names = sorted(set(used[0]))
        if names:
            b.drawn([share(used[0], c) for c in names], 'share of every feature used, in the order of the features')
    else:
        props = [[share(u, c) for c in range(p)] for u in used]
        th = [quantile(ctx, [r[c] for r in props[1:]] if new['method'] == 'local' else [max(r) for r in props[1:]], new['percentile']) for c in range(p)]
        b.pairs(list(range(p)), [t * 100 for t in th], 'thresholds in percent')
        b.pairs([c for c in range(p) for r in props[1:]], [r[c] for c in range(p) for r in props[1:]], 'every null share belongs to its feature')
    ctx.cover('plotted ' + cfg['kind'])


HARNESSES = [
    Harness(conforms, quick=[dict(kind='fixed', p=2, samples=2, chains=1), dict(kind='fixed', p=3, samples=1, chains=2)]
            + autos(12, kind='null', p=2, samples=1, chains=1, runs=2, free=['way']) + autos(6, kind='null', p=3, samples=2, chains=2, runs=3, free=['way']) + autos(2, kind='fixed', p=6, samples=6, chains=2, free=['way']),
            thorough=[dict(kind='null', p=2, samples=1, chains=1, runs=1)] + autos(60, start=20, kind='null', p=3, samples=2, chains=2, runs=3, free=['way']),
            covers=WAYS + ['local', 'global', 'own number of trees', 'selected', 'rejected', 'some columns'],
            bounds='eleven ways of setting the settings; fixed threshold: arbitrary threshold in [0, 1], every split left by 1-2 samples of 1-2 chains on 2-3 columns; null threshold: scripted splits, 2-3 permutations, local and global, percentiles 0, 0.75 and 1'),
    Harness(plots, quick=[dict(kind='fixed', p=3, samples=3)] + autos(6, kind='null', p=3, samples=2, runs=2), thorough=autos(30, kind='null', p=3, samples=3, runs=4), covers=['plotted fixed', 'plotted null'],
            bounds='3 columns, 2-3 samples, 2 permutations'),
]

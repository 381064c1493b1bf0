"""Split proportions, null thresholds and feature selection."""
from symex.harness import Harness, autos
from .common import *

MODULES = TREE_MODULES + ('bartpy.model', 'bartpy.samplers.modelsampler', 'bartpy.samplers.schedule', 'bartpy.sklearnmodel', 'bartpy.runner', 'bartpy.diagnostics.features', 'bartpy.features.featureselection')
ASSUMPTIONS = [REALS, NONAN, 'the Gibbs sweep is replaced by one that leaves arbitrary splits in the trees', 'chains run in this process (n_jobs=1)',
               'quantiles are linearly interpolated order statistics (numpy\'s default)']

CUBE = [[float(i), float(j), float(k)] for i in range(2) for j in range(2) for k in range(2)]


class Growth:
    """Sweeps that leave arbitrary splits: per tree none, one on any column, or a chain of two."""

    def __init__(self, ctx, cols, chain):
        self.ctx, self.all, self.cols, self.chain = ctx, [], cols, chain

    def shapes(self):
        out = [[]] + [[a] for a in range(self.cols)]
        if self.chain:
            out += [[a, b] for a in range(self.cols) for b in range(self.cols) if a != b]
        return out

    def sweep(self, model):
        if not any(m is model for m, _ in self.all):
            self.all.append((model, []))
        rec = [r for m, r in self.all if m is model][0]
        used = []
        for k, t in enumerate(model.trees):
            shapes = self.shapes()
            s = shapes[self.ctx.choose('shape%d_%d_%d' % ([m is model for m, _ in self.all].index(True), len(rec), k), len(shapes))]
            rebuild(self.ctx, t, s)
            used += s
        rec.append(used)

    def install(self):
        from bartpy.samplers.schedule import SampleSchedule

        def steps(sched, model):
            yield 'Tree', lambda: self.sweep(model)
        self.ctx.patch(SampleSchedule, 'steps', steps)


def rebuild(ctx, tree, cols):
    """Prune the tree to its root, then split on the columns, one below the other."""
    from bartpy.mutation import GrowMutation, PruneMutation
    from bartpy.node import LeafNode, split_node
    from bartpy.tree import mutate
    while len(tree.nodes) > 1:
        n = [d for d in tree.nodes if d.left_child is not None and d.left_child.left_child is None and d.right_child.left_child is None][0]
        mutate(tree, PruneMutation(n, LeafNode(n.split, depth=n.depth)))
    leaf = tree.nodes[0]
    for k, c in enumerate(cols):
        new = split_node(leaf, conditions(c, 0.5))
        mutate(tree, GrowMutation(leaf, new))
        leaf = new.left_child if k % 2 == 0 else new.right_child


def share(used, c):
    return used.count(c) / len(used) if used else 0.0


def wide(p):
    """Sixteen rows of p binary columns, every pair of columns in all combinations."""
    return [[float(bin(i & (j + 1)).count('1') % 2) for j in range(p)] for i in range(16)]


def proportions(ctx, cfg):
    """Counting over the stored samples of a fitted estimator."""
    from bartpy.diagnostics.features import feature_split_proportions
    from bartpy.sklearnmodel import SklearnModel
    p = cfg['p']
    X = wide(p) if p > 3 else [r[:p] for r in CUBE[:cfg.get('n', 8)]] if p == 3 else [[float(i), float(j)] for i in range(2) for j in range(2)]
    g = Growth(ctx, p, cfg.get('chain', 1))
    g.install()
    est = SklearnModel(n_trees=cfg['trees'], n_chains=cfg['chains'], n_samples=cfg['samples'], n_burn=0, thin=1., n_jobs=1)
    est.fit(ctx.array(X), ctx.array([float(i * i % 5) for i in range(len(X))]))
    used = [c for m, rec in g.all for s in rec for c in s]
    ctx.check(sum(len(r) for m, r in g.all) == cfg['chains'] * cfg['samples'], 'samples')
    cols = list(range(p))
    got = feature_split_proportions(est, cols)
    ctx.check(sorted(got.keys()) == cols, 'one answer per requested column', str(sorted(got.keys())))
    for c in cols:
        ctx.eq(got[c], share(used, c), 'proportion', 'column %d of %s' % (c, used))
    if used:
        ctx.cover('splits')
        ctx.eq(total(got.values()), 1.0, 'proportions sum to one', str(used))
    else:
        ctx.cover('no splits')
    if any(c not in used for c in cols) and used:
        ctx.cover('unused column')
    d = feature_split_proportions(est)
    ctx.check(set(used) <= set(d.keys()), 'every used column is reported by default')
    for c in d:
        ctx.eq(d[c], share(used, c), 'proportion by default', str(c))
    one = feature_split_proportions(est, [p - 1])
    ctx.check(list(one.keys()) == [p - 1], 'only the requested columns')
    ctx.eq(one[p - 1], share(used, p - 1), 'proportion among all splits', '')


def ranked(vs):
    """The values in increasing order (by comparing them)."""
    out = []
    for v in vs:
        i = len(out)
        while i and bool(v < out[i - 1]):
            i -= 1
        out.insert(i, v)
    return out


def quantile(ctx, vs, q):
    """Linearly interpolated order statistic."""
    s, m = ranked(vs), len(vs) - 1
    pos = q * m
    k = 0
    while k < m - 1 and bool(pos >= k + 1):
        k += 1
    if m == 0:
        return s[0]
    return s[k] + (s[k + 1] - s[k]) * (pos - k)


def a_percentile(ctx, cfg):
    k = ctx.choose('percentile', 5 if cfg.get('symq') else 4)
    if k == 4:
        ctx.cover('any percentile')
        return ctx.real('q', lo=0, hi=1)
    return [0.0, 0.5, 0.75, 1.0][k]


def thresholds(ctx, cfg):
    from bartpy.diagnostics.features import local_thresholds, global_thresholds
    R, F = cfg['runs'], cfg['features']
    keys = list(range(F)) if ctx.auto is None or ctx.choose('order', 2) else list(range(F))[::-1]
    if ctx.auto is None and F > 1 and R < 3 and ctx.choose('order', 2):
        keys = [F - 1] + list(range(F - 1))

    def share_of(f, r):
        if ctx.auto is not None and (f, r) != (ctx.choose('any feature', F), ctx.choose('any run', R)):
            return rational(ctx, (f * 7 + r * 5) % 19, 23)         # one arbitrary share among fixed ones
        return ctx.real('null%d_%d' % (f, r), lo=0, hi=1)
    null = {f: [share_of(f, r) for r in range(R)] for f in keys}
    given = {f: list(v) for f, v in null.items()}
    q = a_percentile(ctx, cfg)
    if (cfg['only'] if 'only' in cfg else ctx.choose('method', 2)):
        th = global_thresholds(null, q)
        biggest = []
        for r in range(R):
            m = given[keys[0]][r]
            for f in keys[1:]:
                if bool(given[f][r] > m):
                    m = given[f][r]
            biggest.append(m)
        want = {f: quantile(ctx, biggest, q) for f in keys}
        ctx.cover('global')
    else:
        th = local_thresholds(null, q)
        want = {f: quantile(ctx, given[f], q) for f in keys}
        ctx.cover('local')
    ctx.check(sorted(th.keys()) == sorted(keys), 'one threshold per feature')
    for f in keys:
        ctx.eq(th[f], want[f], 'threshold', 'feature %d' % f)
        ctx.eq_all(null[f], given[f], 'the null distribution is left alone', '')


def selection(ctx, cfg):
    from bartpy.diagnostics.features import kept_features, is_kept, partition_into_passed_and_failed_features
    F = cfg['features']
    side = [ctx.choose('side%d' % f, 3) for f in range(F)] if ctx.auto is not None else None
    order = [list(range(F)), list(range(F))[::-1], [(i * 2 + 1) % F for i in range(F)] if F % 2 else list(range(F))]
    po, to = order[ctx.choose('order', 3)], order[ctx.choose('torder', 3)]
    p = {f: ctx.real('p%d' % f, lo=0, hi=1) for f in po}
    t = {f: ctx.real('t%d' % f, lo=0, hi=1) for f in to}
    for f in range(F) if side else ():
        ctx.assume([p[f] > t[f], p[f] == t[f], p[f] < t[f]][side[f]])
    kept = list(kept_features(p, t))
    flags = list(is_kept(p, t))
    ok, bad = partition_into_passed_and_failed_features(p, t)
    ctx.check(len(flags) == F, 'one answer per column')
    ctx.check(len(set(kept)) == len(kept), 'a feature is kept once')
    for f in range(F):
        above = bool(p[f] > t[f])
        ctx.cover('above' if above else 'not above')
        if not above and bool(p[f] == t[f]):
            ctx.cover('at the threshold')
        ctx.check((f in kept) == above, 'kept exactly when above the threshold', 'feature %d' % f)
        ctx.check(ctx.truth(flags[f]) == above, 'kept flag of the column', 'column %d' % f)
        ctx.check((f in ok) == above and (f in bad) == (not above), 'passed or failed', 'feature %d' % f)
        ctx.eq((ok if above else bad)[f], p[f], 'proportion of the passed or failed feature', '')
    ctx.check(len(ok) + len(bad) == F, 'every feature passes or fails')


def with_null(ctx, cfg):
    """The selector that compares with a null distribution, end to end."""
    from bartpy.features.featureselection import SelectNullDistributionThreshold
    from bartpy.sklearnmodel import SklearnModel
    p, R = 2, cfg['runs']
    X = [[0., 1.], [1., 0.]] if cfg['n'] == 2 else [[0., 1.], [1., 0.], [1., 1.]]
    y = ctx.reals('y', len(X)) if cfg['n'] == 2 else [3., 1., 2.]
    ctx.assume(y[0] > y[1])
    g = Growth(ctx, p, 0)
    g.install()
    method = ['local', 'global'][ctx.choose('method', 2)]
    q = [0.0, 1.0, 0.75, 0.5][ctx.choose('percentile', 2 if R == 1 else 3)]
    est = SklearnModel(n_trees=1, n_chains=cfg['chains'], n_samples=1, n_burn=0, thin=1., n_jobs=1)
    sel = SelectNullDistributionThreshold(est, percentile=q, method=method, n_permutations=R, n_trees=cfg.get('n_trees'))
    frame = cfg.get('frame')
    Xin, yin = (ctx.dataframe(X) if frame else ctx.array(X)), ctx.array(y)
    ctx.check(sel.fit(Xin, yin) is sel, 'fit returns the selector')
    flat = [v for r in X for v in r]
    ctx.eq_all(Xin, flat, 'covariates left alone', '')
    ctx.eq_all(yin, y, 'target left alone', '')
    C = cfg['chains']
    ctx.check(len(g.all) == C * (R + 1), 'one run on the target and one per permutation', '%d chains' % len(g.all))
    T = cfg.get('n_trees') or 1
    for m, _ in g.all:
        ctx.check(len(m.trees) == T, 'number of trees')
        ctx.eq_all(m.data.X.values, flat, 'every run sees the covariates', '')
    runs = [g.all[i * C:i * C + C] for i in range(R + 1)]
    for k, run in enumerate(runs):
        a = ctx.flat(run[0][0].data.y.unnormalized_y)
        for m, _ in run[1:]:
            ctx.eq_all(m.data.y.unnormalized_y, a, 'chains of a run share the target', '')
        if k == 0:
            ctx.eq_all(a, y, 'the first run sees the target', '')
        else:
            perms = []
            import itertools
            hit = False
            for o in itertools.permutations(range(len(y))):
                same = True
                for v, i in zip(a, o):
                    same = (same & (abs(v - y[i]) <= (0 if ctx.sym else 1e-6)))
                hit = same | hit
            ctx.check(hit, 'null runs see a permutation of the target', '')
    props = []
    for run in runs:
        used = [c for m, rec in run for s in rec for c in s]
        props.append([share(used, c) for c in range(p)])
    real, null = props[0], props[1:]
    mask = list(sel.get_support())
    ctx.check(len(mask) == p, 'one answer per column')
    for c in range(p):
        vals = [r[c] for r in null] if method == 'local' else [max(r) for r in null]
        th = quantile(ctx, vals, q)
        if abs(real[c] - th) > 1e-9 or real[c] == th:
            ctx.check(bool(mask[c]) == (real[c] > th), 'selected exactly when above the null threshold', 'column %d: %s of %s, %s at %s, selected %s' % (c, real, null, method, q, mask))
        ctx.cover('selected' if real[c] > th else 'rejected')
    if all(mask):
        out = sel.transform(Xin)
        ctx.eq_all(out, flat, 'all selected columns are returned', '')
    if sum(mask) == 1:
        c = [i for i in range(p) if mask[i]][0]
        ctx.eq_all(ctx.flat(sel.transform(Xin)), [r[c] for r in X], 'the selected column is returned', '')


def with_fixed(ctx, cfg):
    """The selector with a fixed threshold."""
    from bartpy.features.featureselection import SelectSplitProportionThreshold
    from bartpy.sklearnmodel import SklearnModel
    p = cfg['p']
    X = [r[:p] for r in CUBE] if p < 4 else wide(p)
    y = [float(i * i % 5) for i in range(len(X))]
    g = Growth(ctx, p, cfg.get('chain', 0))
    g.install()
    est = SklearnModel(n_trees=cfg['trees'], n_chains=1, n_samples=cfg['samples'], n_burn=0, thin=1., n_jobs=1)
    q = ctx.real('q', lo=0, hi=1)
    sel = SelectSplitProportionThreshold(est, percentile=q)
    sel.fit(ctx.array(X), ctx.array(y))
    used = [c for m, rec in g.all for s in rec for c in s]
    mask = list(sel.get_support())
    ctx.check(len(mask) == p, 'one answer per column')
    for c in range(p):
        k, n = used.count(c), max(1, len(used))
        if not ctx.sym and abs(k / n - q) < 1e-9 and k / n != q:
            continue
        above = bool(q * n < k)
        ctx.check(ctx.truth(mask[c]) == above, 'selected exactly when above the fixed threshold', 'column %d of %s' % (c, used))
        ctx.cover('selected' if above else 'rejected')
    ctx.check(est.extract is None, 'the caller\'s model is not fitted')


HARNESSES = [
    Harness(proportions, quick=[dict(p=3, trees=2, samples=1, chains=1), dict(p=2, trees=1, samples=2, chains=2, chain=0), dict(p=2, trees=1, samples=2, chains=1)] + autos(4, p=3, trees=8, samples=6, chains=2) + autos(2, p=6, trees=6, samples=12, chains=3),
            thorough=[dict(p=3, trees=2, samples=2, chains=1, chain=0), dict(p=3, trees=1, samples=2, chains=1)], covers=['splits', 'no splits', 'unused column'],
            bounds='1-2 chains x 1-2 samples x 1-2 trees of up to three leaves, splits on any of 2-3 columns; scripted: 2-3 chains x 6-12 samples x 6-8 trees, up to 6 columns'),
    Harness(thresholds, quick=[dict(runs=2, features=2, symq=1), dict(runs=3, features=1, symq=1), dict(runs=1, features=3), dict(runs=2, features=3, only=0)] + autos(4, runs=6, features=5) + autos(3, runs=11, features=12),
            thorough=[dict(runs=3, features=2, symq=1), dict(runs=4, features=1, symq=1), dict(runs=2, features=3, symq=1)], covers=['local', 'global', 'any percentile'],
            bounds='1-3 null runs (thorough 4) of 1-3 features with arbitrary proportions, arbitrary percentile in [0, 1]; scripted: 6-11 runs of 5-12 features, one arbitrary share among fixed ones'),
    Harness(selection, quick=[dict(features=2), dict(features=3)] + autos(6, features=12), thorough=[dict(features=4), dict(features=5)], covers=['above', 'not above', 'at the threshold'],
            bounds='2-3 features (thorough 5; scripted 12), arbitrary proportions and thresholds, several orders of the mappings'),
    Harness(with_null, quick=[dict(runs=2, n=2, chains=1), dict(runs=1, n=2, chains=2, frame=1), dict(runs=1, n=3, chains=1)] + autos(2, runs=5, n=3, chains=3),
            thorough=[dict(runs=3, n=2, chains=1), dict(runs=2, n=2, chains=2), dict(runs=2, n=3, chains=1), dict(runs=1, n=3, chains=1, n_trees=2)], covers=['selected', 'rejected'],
            bounds='1-2 permutations (thorough 3) of 2-3 rows, any split or none per run, percentiles 0, 0.75 and 1; scripted: 5 permutations, 3 chains'),
    Harness(with_fixed, quick=[dict(p=3, trees=1, samples=2), dict(p=2, trees=1, samples=1, chain=1)] + autos(2, p=6, trees=5, samples=7, chain=1), thorough=[dict(p=3, trees=2, samples=1, chain=1), dict(p=2, trees=2, samples=2)],
            covers=['selected', 'rejected'], bounds='2-3 columns, up to two splits per sample (scripted: 6 columns, 5 trees, 7 samples), arbitrary threshold in [0, 1]'),
]

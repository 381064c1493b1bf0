"""Copies of models and fitted estimators (deepcopy, pickle) are faithful and independent."""
import copy
import pickle
from symex.harness import Harness, autos
from .common import *
from .estimator import *
from .C16 import build, facts, compare, frozen_ref
from .C18 import expected

MODULES = ESTIMATOR_MODULES
ASSUMPTIONS = [REALS, NONAN, 'copies made by copy.deepcopy and pickle (how chains, models and estimators travel to and from worker processes)',
               'the Gibbs sweep is replaced by one that sets every leaf to an arbitrary value (estimator harness)']

WAYS = [copy.deepcopy, lambda o: pickle.loads(pickle.dumps(o)), lambda o: copy.deepcopy(pickle.loads(pickle.dumps(o)))]


def rebind(ref, node, parent=None):
    """The reference of the same structure bound to the nodes of a copy."""
    r = Ref(ref.depth, list(ref.conds), node, parent)
    r.value, r.var, r.thr = ref.value, ref.var, ref.thr
    if not ref.is_leaf:
        r.left, r.right = rebind(ref.left, node.left_child, r), rebind(ref.right, node.right_child, r)
    return r


def holds(ctx, model, refs, X, y, sigma, new, where):
    """The model has exactly this structure, noise and data, and predicts accordingly."""
    ctx.check(len(model.trees) == len(refs), 'number of trees', where)
    for t, ref in zip(model.trees, refs):
        ids = {id(n) for n in t.nodes}
        ctx.check(len(ids) == len(list(ref.walk())), 'same nodes', where)
        for n in t.nodes:
            for c in (n.left_child, n.right_child):
                ctx.check(c is None or id(c) in ids, 'links stay inside the tree', where)
        roots, go = facts(t)
        ctx.check(len(roots) == 1, 'one root', where)
        compare(ctx, go(roots[0]), ref, 'same structure, depths and values (%s)' % where)
    ctx.eq(model.sigma.current_value(), sigma, 'same noise level', where)
    ctx.eq_all(model.predict(ctx.array(new)), [total(r.route(row).value for r in refs) for row in new], 'same predictions of new rows', where)
    if y is not None:
        ins = [total(r.route(row).value for r in refs) for row in X]
        ctx.eq_all(model.predict(), ins, 'same in-sample predictions', where)
        ctx.eq_all(model.residuals(), [a - b for a, b in zip(y, ins)], 'same residuals', where)


def change(ctx, cfg, model, roots, X, tag):
    """Something a sampler does to a model; roots are its references and are kept in step."""
    k = ctx.choose(tag + 'tree', cfg['trees'])
    tree, root = model.trees[k], roots[k]
    what = ctx.choose(tag + 'what', 4)
    sigma = None
    if what == 0:
        moves = legal_moves(X, root, cfg['p'])
        if not moves:
            ctx.cut('no legal move')
        mv = moves[ctx.choose(tag + 'move', len(moves))]
        ctx.cover(tag + mv[0])
        apply_move(tree, X, mv)
        set_values(ctx, root, tag + 'g')
    elif what == 1:
        tree.update_y(ctx.array(ctx.reals(tag + 'y', cfg['n'])))
        set_values(ctx, root, tag + 'v')
        ctx.cover(tag + 'values')
    elif what == 2:
        tree.update_y(ctx.array(ctx.reals(tag + 'y', cfg['n'])))
        tree.predict()
        ctx.cover(tag + 'target')
    else:
        sigma = ctx.real(tag + 's', positive=True)
        model.sigma.set_value(sigma)
        ctx.cover(tag + 'noise')
    return sigma


def live_model(ctx, cfg):
    """A copy of a model in the middle of sampling; either side is then changed."""
    model, roots, X = build(ctx, cfg)
    y = [v + 0 for v in ctx.flat(model.data.y.values)]
    sigma = ctx.real('sigma', positive=True)
    model.sigma.set_value(sigma)
    new = new_rows(ctx, cfg, cfg['new'], cfg['p'])
    state = ctx.choose('state', 3)
    if state == 1:
        for t in model.trees:
            t.predict()
    elif state == 2:
        for t in model.refreshed_trees():
            pass
        ctx.cover('copied after a sweep')
    how = ctx.choose('how', len(WAYS))
    other = WAYS[how](model)
    mine = {id(n) for t in model.trees for n in t.nodes}
    ctx.check(not any(id(n) in mine for t in other.trees for n in t.nodes), 'the copy has its own nodes')
    ctx.check(other.alpha == model.alpha and other.beta == model.beta and other.n_trees == model.n_trees and other.k == model.k, 'same parameters')
    refs = [frozen_ref(r) for r in roots]
    holds(ctx, other, refs, X, y, sigma, new, 'the copy')
    holds(ctx, model, refs, X, y, sigma, new, 'the original, after copying')
    for t, o in zip(model.trees, other.trees):
        for n, m in zip(t.nodes, o.nodes):
            ctx.eq_all(m.data.y.values, n.data.y.values, 'same targets in the nodes', '')
            ctx.eq(m.data.y.summed_y(), n.data.y.summed_y(), 'same target sums in the nodes', '')
            ctx.eq(m.data.X.n_obsv, n.data.X.n_obsv, 'same counts in the nodes', '')
    if any(not r.is_leaf for r in refs):
        ctx.cover('grown')
    def targets_of(m):
        return [[v + 0 for v in ctx.flat(n.data.y.values)] + [n.data.y.summed_y() + 0] for t in m.trees for n in t.nodes]
    before = targets_of(other)
    roots2 = []
    for ref, t in zip(refs, other.trees):
        roots2.append(rebind(ref, facts(t)[0][0]))
    if ctx.choose('side', 2):
        # the copy is sampled on, the original keeps its state
        s2 = change(ctx, cfg, other, roots2, X, 'copy ')
        holds(ctx, model, refs, X, y, sigma, new, 'the original, after sampling the copy')
        kept = model
        now, side, sg = roots2, other, s2
    else:
        s2 = change(ctx, cfg, model, roots, X, 'original ')
        holds(ctx, other, refs, X, y, sigma, new, 'the copy, after sampling the original')
        kept = other
        now, side, sg = roots, model, s2
    holds(ctx, side, now, X, y, sigma if sg is None else sg, new, 'the side sampled on')
    for a, b in zip(targets_of(kept), before):
        ctx.eq_all(a, b, 'targets in the nodes of the other side are untouched', '')


def sweep_on(ctx, cfg):
    """A sweep over a copy hands out its trees with the right targets, exactly as the original would."""
    model, roots, X = build(ctx, cfg)
    y = [v + 0 for v in ctx.flat(model.data.y.values)]
    at = ctx.choose('at', cfg['trees'] + 1)
    if at:
        for k, t in enumerate(model.refreshed_trees()):
            set_values(ctx, roots[k], 'w%d_' % k)
        if at > 1:
            ctx.cover('after a sweep')
    other = WAYS[ctx.choose('how', len(WAYS))](model)
    roots2 = [rebind(frozen_ref(r), facts(t)[0][0]) for r, t in zip(roots, other.trees)]
    for side, rs, tag in ((other, roots2, 'c'), (model, roots, 'o')):
        for k, t in enumerate(side.refreshed_trees()):
            rest = [total(r.route(row).value for q, r in enumerate(rs) if q != k) for row in X]
            for n in t.nodes:
                ctx.eq_all(n.data.y.values, [a - b for a, b in zip(y, rest)], 'target of a tree handed out is the residual of the others', tag)
            set_values(ctx, rs[k], '%s%d_' % (tag, k))
        ins = [total(r.route(row).value for r in rs) for row in X]
        ctx.eq_all(side.predict(), ins, 'prediction after the sweep', tag)
    ctx.cover('both sides swept')


def stored(ctx, cfg):
    """Stored samples survive being sent between processes."""
    from bartpy.model import deep_copy_model
    model, roots, X = build(ctx, cfg)
    sigma = ctx.real('sigma', positive=True)
    model.sigma.set_value(sigma)
    new = new_rows(ctx, cfg, cfg['new'], cfg['p'])
    s = deep_copy_model(model)
    many = [s, s] if ctx.choose('twice', 2) else [s]
    back = WAYS[ctx.choose('how', len(WAYS))](many)
    refs = [frozen_ref(r) for r in roots]
    s2 = change(ctx, cfg, model, roots, X, 'original ')
    for m in back:
        holds(ctx, m, refs, X, None, sigma, new, 'the stored sample received')
    ctx.cover('received')


def fitted(ctx, cfg):
    """A fitted estimator and its copy predict the same, also when one of them is fitted again."""
    n = cfg['n']
    X = [[float(i)] for i in range(n)]
    y, lo, hi = targets(ctx, n)
    est, rec = estimator(ctx, cfg, store_in_sample_predictions=True, store_acceptance_trace=True, initializer=None)
    est.fit(ctx.array(X), ctx.array(y))
    sweeps = [s for c in rec.chains for s in c]
    new = ctx.matrix('q', 1, 1)

    def correct(e, where):
        ctx.eq_all(e.predict(ctx.array(new)), [expected(ctx, lo, hi, sweeps, r) for r in new], 'same predictions', where)
        want = [expected(ctx, lo, hi, sweeps, r) for r in X]
        ctx.eq_all(e.predict(), want, 'same in-sample predictions', where)
        ctx.eq_all(e.residuals(), [a - b for a, b in zip(y, want)], 'same residuals', where)
        ctx.check(len(e.model_samples) == len(sweeps) == len(e.acceptance_trace), 'same samples', where)
        for m, s in zip(e.model_samples, sweeps):
            ctx.eq(m.sigma.current_value(), s.sigma, 'same noise samples', where)
    other = WAYS[ctx.choose('how', len(WAYS))](est)
    correct(est, 'the original')
    correct(other, 'the copy')
    rec.clear()
    again = ctx.choose('refit', 3)
    if again:
        (est if again == 1 else other).fit(ctx.array(X[::-1]), ctx.array([5.0 + 2.0 * i for i in range(n)]))
        correct(other if again == 1 else est, 'after fitting the %s again' % ('original' if again == 1 else 'copy'))
        ctx.cover('refitted ' + ('original' if again == 1 else 'copy'))


SIDES = [a + b for a in ('copy ', 'original ') for b in ('grow', 'prune', 'values', 'target', 'noise')]
HARNESSES = [
    Harness(live_model, quick=[dict(n=3, p=1, ops=1, trees=1, new=1, grid='distinct'), dict(n=2, p=1, ops=1, trees=2, new=1, grid='distinct'), dict(n=2, p=1, ops=1, trees=1, new=1)] + autos(8, n=12, p=4, ops=5, trees=3, new=1, grid='wide') + autos(3, n=40, p=4, ops=70, trees=1, new=1, fixed=6, grid='late'),
            thorough=[dict(n=3, p=1, ops=1, trees=2, new=1, grid='distinct'), dict(n=4, p=2, ops=1, trees=1, new=1, grid='ties'), dict(n=3, p=1, ops=2, trees=1, new=2, grid='distinct')],
            covers=['grown', 'copied after a sweep'] + SIDES,
            bounds='1-2 trees after 1-2 legal moves on 2-4 rows of arbitrary reals or a grid, arbitrary leaf values, targets, noise and new rows; predictions read, not read, or a sweep made before copying; any one later change of either side; scripted: 3 trees after 5 moves on 12 rows of 4 columns, a tree after 70 moves on 40 rows'),
    Harness(sweep_on, quick=[dict(n=2, p=1, ops=1, trees=2, grid='distinct'), dict(n=3, p=1, ops=1, trees=1, grid='distinct')] + autos(4, n=12, p=4, ops=5, trees=3, grid='wide'),
            thorough=[dict(n=3, p=1, ops=1, trees=2, grid='distinct'), dict(n=2, p=1, ops=0, trees=3, grid='distinct')],
            covers=['after a sweep', 'both sides swept'], bounds='1-3 trees, a sweep or none before copying, one sweep of each side after; scripted as above'),
    Harness(stored, quick=[dict(n=3, p=1, ops=1, trees=1, new=1, grid='distinct'), dict(n=2, p=1, ops=1, trees=2, new=1, grid='distinct')] + autos(6, n=12, p=4, ops=5, trees=3, new=1, grid='wide') + autos(2, n=40, p=4, ops=70, trees=1, new=1, fixed=6, grid='late'),
            thorough=[dict(n=4, p=2, ops=1, trees=1, new=1, grid='ties'), dict(n=3, p=1, ops=2, trees=1, new=1, grid='distinct')],
            covers=['received'], bounds='as above'),
    Harness(fitted, quick=[dict(n=2, chains=1, samples=2, trees=1), dict(n=2, chains=2, samples=1, trees=2)] + autos(4, n=8, chains=3, samples=4, trees=3), thorough=[dict(n=3, chains=2, samples=2, trees=2)],
            covers=['refitted original', 'refitted copy'], bounds='1-2 chains of 1-2 samples of 1-2 trees; either side fitted again; scripted: 8 rows, 3 chains of 4 samples of 3 trees'),
]

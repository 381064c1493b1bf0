"""Stored samples are snapshots."""
from symex.harness import Harness, autos
from .common import *

MODULES = TREE_MODULES + ('bartpy.model', 'bartpy.trace', 'bartpy.samplers.modelsampler')
ASSUMPTIONS = [REALS, NONAN]


def build(ctx, cfg):
    from bartpy.data import Data
    from bartpy.model import Model
    from bartpy.sigma import Sigma
    X = covariates(ctx, cfg)
    model = Model(Data(ctx.array(X), ctx.array(ctx.reals('y', cfg['n']))), Sigma(ctx.real('a', positive=True), ctx.real('b', positive=True), ctx.real('scale', positive=True)), n_trees=cfg['trees'],
                  initializer=None)
    roots = [Ref(0, [], t.nodes[0]) for t in model.trees]
    for k, r in enumerate(roots):
        for q in range(cfg['ops']):
            moves = legal_moves(X, r, cfg['p'])
            if moves:
                apply_move(model.trees[k], X, moves[ctx.choose('op%d_%d' % (k, q), len(moves))])
        set_values(ctx, r, 'v%d_' % k)
    return model, roots, X


def facts(tree):
    """Structure of a stored tree, read from the stored nodes themselves."""
    from bartpy.node import LeafNode
    kids = {id(c) for n in tree.nodes for c in (n.left_child, n.right_child) if c is not None}
    roots = [n for n in tree.nodes if id(n) not in kids]

    def go(n):
        if isinstance(n, LeafNode):
            return ('leaf', n.depth, n.current_value)
        c = n.most_recent_split_condition()
        return ('split', n.depth, int(c.splitting_variable), c.splitting_value, go(n.left_child), go(n.right_child))
    return roots, go


def compare(ctx, got, ref, label):
    if ref.is_leaf:
        ctx.check(got[0] == 'leaf' and got[1] == ref.depth, label, 'leaf')
        ctx.eq(got[2], ref.value, label, 'leaf value')
    else:
        ctx.check(got[0] == 'split' and got[1] == ref.depth and got[2] == ref.var, label, 'split')
        ctx.eq(got[3], ref.thr, label, 'splitting value')
        compare(ctx, got[4], ref.left, label)
        compare(ctx, got[5], ref.right, label)


def frozen_ref(ref, parent=None):
    r = Ref(ref.depth, list(ref.conds), None, parent)
    r.value, r.var, r.thr = ref.value, ref.var, ref.thr
    if not ref.is_leaf:
        r.left, r.right = frozen_ref(ref.left, r), frozen_ref(ref.right, r)
    return r


def faithful(ctx, stored, refs, sigma, rows, where, live):
    ctx.check(len(stored.trees) == len(refs), 'number of trees')
    for t, ref in zip(stored.trees, refs):
        ids = {id(n) for n in t.nodes}
        ctx.check(len(t.nodes) == len(list(ref.walk())), 'same nodes', where)
        for n in t.nodes:
            for c in (n.left_child, n.right_child):
                ctx.check(c is None or id(c) in ids, 'internal nodes link to the stored children', where)
            ctx.check(id(n) not in live, 'stored nodes are not the live ones', where)
        roots, go = facts(t)
        ctx.check(len(roots) == 1, 'one root', where)
        compare(ctx, go(roots[0]), ref, 'same structure, depths and values (%s)' % where)
    ctx.eq(stored.sigma.current_value(), sigma, 'same noise level', where)
    ctx.eq_all(stored.predict(ctx.array(rows)), [total(r.route(row).value for r in refs) for row in rows], 'predicts what the live model predicted', where)


def snapshot_model(ctx, cfg):
    from bartpy.model import deep_copy_model
    from bartpy.trace import TraceLogger
    model, roots, X = build(ctx, cfg)
    sigma = ctx.real('sigma', positive=True)
    model.sigma.set_value(sigma)
    rows = X[:1] + [ctx.reals('q%d_' % i, cfg['p']) for i in range(cfg['new'])]
    for k, tree in enumerate(model.trees):
        if ctx.choose('predicted%d' % k, 2):
            tree.predict()
    live = {id(n) for t in model.trees for n in t.nodes}
    if ctx.choose('how', 2):
        stored = TraceLogger()['Model'](model)
    else:
        stored = deep_copy_model(model)
    refs = [frozen_ref(r) for r in roots]
    faithful(ctx, stored, refs, sigma, rows, 'when stored', live)
    # later sampling of the live model
    k = ctx.choose('which', cfg['trees'])
    what = ctx.choose('what', 4)
    tree, root = model.trees[k], roots[k]
    if what == 0:
        moves = legal_moves(X, root, cfg['p'])
        if not moves:
            ctx.cut('no legal move')
        mv = moves[ctx.choose('later', len(moves))]
        ctx.cover('later ' + mv[0])
        apply_move(tree, X, mv)
        for l in root.leaves():
            l.node.set_value(ctx.real('later%d' % id_of(root, l)))
    elif what == 1:
        set_values(ctx, root, 'later')
        ctx.cover('later values')
    elif what == 2:
        tree.update_y(ctx.array(ctx.reals('later', cfg['n'])))
        tree.predict()
    else:
        model.sigma.set_value(ctx.real('later', positive=True))
        ctx.cover('later noise')
    faithful(ctx, stored, refs, sigma, rows, 'after later sampling', live)
    if any(not r.is_leaf for r in refs):
        ctx.cover('grown tree stored')


def id_of(root, l):
    return [x is l for x in root.leaves()].index(True)


class Schedule:
    """Each sweep gives every leaf of every tree a new value, and may grow a tree."""

    def __init__(self, ctx, cfg, roots, X):
        self.ctx, self.cfg, self.roots, self.X, self.sweeps, self.seen = ctx, cfg, roots, X, 0, []

    def steps(self, model):
        q = self.sweeps
        self.sweeps += 1
        for k, tree in enumerate(model.refreshed_trees()):
            def go(tree=tree, k=k):
                if self.ctx.choose('grow%d_%d' % (q, k), 2):
                    moves = legal_moves(self.X, self.roots[k], self.cfg['p'])
                    if moves:
                        apply_move(tree, self.X, moves[self.ctx.choose('mv%d_%d' % (q, k), len(moves))])
                set_values(self.ctx, self.roots[k], 's%d_%d_' % (q, k))
            yield 'Tree', go
        v = self.ctx.real('sig%d' % q, positive=True)
        yield 'Node', lambda: model.sigma.set_value(v)
        self.seen.append(([frozen_ref(r) for r in self.roots], v))


def chain(ctx, cfg):
    from bartpy.samplers.modelsampler import ModelSampler
    model, roots, X = build(ctx, cfg)
    s = Schedule(ctx, cfg, roots, X)
    out = ModelSampler(s).samples(model, cfg['samples'], 0, 1.0, True, False)
    live = {id(n) for t in model.trees for n in t.nodes}
    ctx.check(len(out['model']) == cfg['samples'] == len(out['in_sample_predictions']), 'all sweeps stored')
    rows = [ctx.reals('q', cfg['p'])]
    for q, (refs, v) in enumerate(s.seen):
        faithful(ctx, out['model'][q], refs, v, rows, 'stored sweep %d' % q, live)
        ctx.eq_all(out['in_sample_predictions'][q], [total(r.route(row).value for r in refs) for row in X], 'stored in-sample predictions keep their moment', 'sweep %d' % q)
    ctx.cover('chain')


HARNESSES = [
    Harness(snapshot_model, quick=[dict(n=3, p=1, ops=1, trees=1, new=2, grid='distinct'), dict(n=4, p=1, ops=2, trees=1, new=1, grid='distinct'), dict(n=3, p=2, ops=1, trees=2, new=1, grid='ties'), dict(n=2, p=1, ops=1, trees=1, new=1)]
            + autos(5, n=12, p=4, ops=6, trees=3, new=1, grid='wide', free=['what']) + autos(1, n=40, p=4, ops=70, trees=1, new=1, grid='late'),
            thorough=[dict(n=4, p=2, ops=2, trees=1, new=1, grid='ties'), dict(n=3, p=1, ops=2, trees=2, new=1, grid='distinct'), dict(n=3, p=1, ops=1, trees=1, new=2)],
            covers=['later grow', 'later prune', 'later values', 'later noise', 'grown tree stored'],
            bounds='1-2 trees after 1-2 legal moves on 2-4 rows, arbitrary leaf values, noise, thresholds among the rows, 1-2 arbitrary new rows; any one later change of the live model; scripted: trees after 6 moves on 12 rows, and one after 70 moves on 40 rows'),
    Harness(chain, quick=[dict(n=2, p=1, ops=0, trees=1, samples=3, grid='distinct'), dict(n=3, p=1, ops=0, trees=2, samples=2, grid='distinct')]
            + autos(2, n=12, p=4, ops=1, trees=3, samples=6, grid='wide'),
            thorough=[dict(n=3, p=1, ops=1, trees=1, samples=3, grid='distinct'), dict(n=2, p=1, ops=1, trees=2, samples=2, grid='distinct')],
            covers=['chain'], bounds='chains of 2-3 stored sweeps over 1-2 trees with any grow/prune/none and arbitrary new values per sweep'),
]

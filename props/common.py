"""Reference trees and shared helpers of the harnesses.

A reference tree is built next to the real one from the same operations; everything that is
asserted about the real tree is computed from the reference by definition (walk the splits,
count rows, sum the target), never through the code under test.
"""
from operator import gt, le

from symex.harness import autos


class Ref:
    """Reference node: depth, the splits on the way to it, children, and the real node."""

    def __init__(self, depth, conds, node, parent=None):
        self.depth, self.conds, self.node, self.parent = depth, conds, node, parent
        self.left = self.right = None
        self.var = self.thr = None
        self.value = None

    @property
    def is_leaf(self):
        return self.left is None

    def prunable(self):
        return not self.is_leaf and self.left.is_leaf and self.right.is_leaf

    def holds(self, row):
        for v, t, side in self.conds:
            if bool(row[v] <= t) != (side == 'L'):
                return False
        return True

    def route(self, row):
        n = self
        while not n.is_leaf:
            n = n.left if bool(row[n.var] <= n.thr) else n.right
        return n

    def walk(self):
        yield self
        if not self.is_leaf:
            yield from self.left.walk()
            yield from self.right.walk()

    def leaves(self):
        return [n for n in self.walk() if n.is_leaf]

    def internals(self):
        return [n for n in self.walk() if not n.is_leaf]

    def rows(self, X):
        return [i for i, r in enumerate(X) if self.holds(r)]


def conditions(var, thr):
    from bartpy.splitcondition import SplitCondition
    return SplitCondition(var, thr, le), SplitCondition(var, thr, gt)


def new_tree(ctx, X, y, normalize=False):
    """A one-leaf tree on X (list of rows) and y (list), and its reference."""
    from bartpy.data import Data
    from bartpy.node import LeafNode
    from bartpy.split import Split
    from bartpy.tree import Tree
    data = Data(ctx.array(X), ctx.array(y), normalize=normalize)
    leaf = LeafNode(Split(data))
    return Tree([leaf]), Ref(0, [], leaf)


def grow(tree, ref, var, thr, check=None):
    from bartpy.mutation import GrowMutation
    from bartpy.node import split_node
    from bartpy.tree import mutate
    new = split_node(ref.node, conditions(var, thr))
    mutate(tree, GrowMutation(ref.node, new))
    adopt_grow(ref, new, var, thr)


def adopt_grow(ref, new, var, thr):
    ref.node = new
    ref.var, ref.thr = var, thr
    ref.left = Ref(ref.depth + 1, ref.conds + [(var, thr, 'L')], new.left_child, ref)
    ref.right = Ref(ref.depth + 1, ref.conds + [(var, thr, 'R')], new.right_child, ref)


def prune(tree, ref):
    from bartpy.mutation import PruneMutation
    from bartpy.node import LeafNode
    from bartpy.tree import mutate
    leaf = LeafNode(ref.node.split, depth=ref.node.depth)
    mutate(tree, PruneMutation(ref.node, leaf))
    adopt_prune(ref, leaf)


def adopt_prune(ref, leaf):
    ref.node = leaf
    ref.left = ref.right = ref.var = ref.thr = None
    ref.value = None


def random_op(ctx, tree, root, step, p, thr, allow_prune=True):
    """One grow (any leaf, any column, threshold thr) or prune (any prunable node)."""
    leaves = root.leaves()
    prunable = [n for n in root.internals() if n.prunable()] if allow_prune else []
    k = ctx.choose('op%d' % step, len(leaves) * p + len(prunable))
    if k < len(leaves) * p:
        grow(tree, leaves[k // p], k % p, thr)
        return 'grow'
    prune(tree, prunable[k - len(leaves) * p])
    return 'prune'


def set_values(ctx, root, tag='v'):
    for i, l in enumerate(root.leaves()):
        l.value = ctx.real('%s%d' % (tag, i))
        l.node.set_value(l.value)


def nonconstant(ctx, X, rows, j):
    """Whether column j takes two values on the rows (by definition)."""
    return any(not bool(X[a][j] == X[b][j]) for k, a in enumerate(rows) for b in rows[k + 1:])


def splittable_columns(ctx, X, rows, p):
    return [j for j in range(p) if nonconstant(ctx, X, rows, j)]


def total(xs):
    acc = 0
    for x in xs:
        acc = acc + x
    return acc


def wellformed(ctx, tree, root, label='well-formed'):
    """The real tree has exactly the structure of the reference."""
    from bartpy.node import LeafNode, DecisionNode
    nodes = list(tree.nodes)
    refs = list(root.walk())
    ctx.check(len(nodes) == len(refs), label, 'node collection has %d nodes, expected %d' % (len(nodes), len(refs)))
    ids = [id(n) for n in nodes]
    ctx.check(len(set(ids)) == len(ids), label, 'a node is listed twice')

    def match(node, ref):
        ctx.check(id(node) in ids, label, 'a reachable node is missing from the collection')
        ctx.check(node.depth == ref.depth, label, 'depth')
        if ref.is_leaf:
            ctx.check(isinstance(node, LeafNode) and node.left_child is None and node.right_child is None, label, 'leaf expected')
        else:
            ctx.check(isinstance(node, DecisionNode), label, 'internal node expected')
            ctx.check(node.left_child is not None and node.right_child is not None, label, 'children missing')
            ctx.check(node.left_child is not node.right_child, label, 'same child twice')
            match(node.left_child, ref.left)
            match(node.right_child, ref.right)
    # the root is the one node that is nobody's child
    kids = set()
    for n in nodes:
        for c in (n.left_child, n.right_child):
            if c is not None:
                kids.add(id(c))
    roots = [n for n in nodes if id(n) not in kids]
    ctx.check(len(roots) == 1, label, '%d roots' % len(roots))
    match(roots[0], root)
    return roots[0]


def same_ids(xs, ys):
    return sorted(id(x) for x in xs) == sorted(id(y) for y in ys)


TREE_MODULES = ('bartpy.data', 'bartpy.node', 'bartpy.tree', 'bartpy.mutation', 'bartpy.split', 'bartpy.splitcondition')
REALS = 'floating point is modelled by exact real arithmetic; rounding error is outside the claim (replays use a 1e-6 tolerance)'
NONAN = 'covariates and targets are finite (no NaN or infinity)'


def legal_moves(X, root, p):
    """Every non-degenerate split at a row value (one per distinct value) and every prune."""
    moves = []
    for l in root.leaves():
        rows = l.rows(X)
        for j in range(p):
            for i in rows:
                if any(bool(X[k][j] > X[i][j]) for k in rows) and not any(k < i and bool(X[k][j] == X[i][j]) for k in rows):
                    moves.append(('grow', l, j, i))
    return moves + [('prune', n, 0, 0) for n in root.internals() if n.prunable()]


def apply_move(tree, X, move):
    kind, at, j, i = move
    if kind == 'grow':
        grow(tree, at, j, X[i][j])
    else:
        prune(tree, at)


def covariates(ctx, cfg):
    n, p = cfg['n'], cfg['p']
    if cfg.get('grid'):
        return [[float(v) for v in r[:p]] for r in GRIDS[cfg['grid']][:n]]
    return ctx.matrix('x', n, p)


def new_rows(ctx, cfg, m, p):
    """Rows to predict: arbitrary, or fixed ones (cfg['fixed']) that need no case split in large trees."""
    if cfg.get('fixed'):
        return [[((17 * i + 5 * j + 3) % 41) * 0.97 - 1 for j in range(p)] for i in range(cfg['fixed'])]
    return ctx.matrix('q', m, p)


def some_tree(ctx, cfg, y=None):
    """A tree after cfg['ops'] arbitrary legal grows/prunes, its reference and the covariates.

    Unless cfg['cold'], what a sampler would ask of the nodes is asked before every move, so
    that whatever the nodes remember is remembered."""
    X = covariates(ctx, cfg)
    tree, root = new_tree(ctx, X, y if y is not None else [0.0] * cfg['n'])
    for s in range(cfg.get('ops', 0)):
        if not cfg.get('cold'):
            warm(root, cfg['p'])
        moves = legal_moves(X, root, cfg['p'])
        if not moves:
            ctx.cut('no legal move')
        apply_move(tree, X, moves[ctx.choose('op%d' % s, len(moves))])
    return tree, root, X


def warm(root, p):
    for r in root.leaves():
        d = r.node.data
        r.node.is_splittable()
        d.X.splittable_variables()
        d.y.summed_y()
        for j in range(p):
            d.X.is_column_unique(j)
            d.X.max_value_of_column(j)


def snapshot(ctx, tree):
    return [(n, type(n), n.depth, n.left_child, n.right_child, getattr(n, 'current_value', None), n.data.X.n_obsv, ctx.flat(n.data.y.values),
             n.data.y.summed_y(), n.split) for n in tree.nodes]


def same_snapshot(ctx, a, b, label):
    ctx.check(len(a) == len(b), label, 'number of nodes')
    for x, y in zip(sorted(a, key=lambda t: id(t[0])), sorted(b, key=lambda t: id(t[0]))):
        ctx.check(x[0] is y[0] and x[1] is y[1] and x[2] == y[2] and x[3] is y[3] and x[4] is y[4], label, 'nodes or links')
        ctx.check(x[9] is y[9], label, 'rows of a node')
        if x[5] is not None or y[5] is not None:
            ctx.eq(y[5], x[5], label, 'leaf value')
        ctx.eq(y[6], x[6], label, 'count')
        ctx.eq(y[8], x[8], label, 'target sum')
        ctx.eq_all(y[7], x[7], label, 'target')


GRIDS = {
    'ties': [[0, 1], [1, 1], [1, 0], [2, 0], [3, 2], [3, 1]],
    'distinct': [[0, 3], [1, 1], [2, 4], [3, 0], [4, 2], [5, 5]],
    'flat': [[1, 0], [1, 0], [1, 1], [1, 1], [1, 2]],
    'constant': [[1, 2]] * 6,
    # distinct with negative values, three values, constant, two values
    'wide': [[(5 * i) % 12 - 5, i // 4 - 1, 7, (i % 2) * 0.5] for i in range(12)],
    # constant but for the last two rows, distinct, constant but for one row in the middle, the largest value nearly everywhere
    'late': [[2 if i < 38 else i, (7 * i) % 40 - 19, 1 if i == 23 else 0, 3 if i % 13 else 1] for i in range(40)],
    'deep': [[(7 * i) % 40, i % 2] for i in range(40)],
    # more rows than a byte counts
    'long': [[(101 * i) % 300 - 150, 0 if i < 280 else 1, i // 60] for i in range(300)],
}


def rational(ctx, a, b):
    if ctx.sym:
        from fractions import Fraction
        return Fraction(a, b)
    return a / b


def make_model(ctx, trees, data=None, sigma=None, alpha=0.95, beta=2., k=2.):
    from bartpy.model import Model
    from bartpy.sigma import Sigma
    sg = Sigma(1., 1., 1.)
    m = Model(data, sg, trees=trees, alpha=alpha, beta=beta, k=k)
    if sigma is not None:
        sg.set_value(sigma)
    return m


def other_model(ctx):
    """A fixed model with other data and other parameters, on which an object is used before the model of interest."""
    from bartpy.node import LeafNode
    from bartpy.tree import Tree
    tree, root = new_tree(ctx, [[0.0], [1.0], [2.0]], [0.5, -0.25, 1.0])
    trees = [tree] + [Tree([LeafNode(root.node.split)]) for _ in range(2)]
    return make_model(ctx, trees, sigma=0.75, alpha=0.5, beta=1.0, k=3.0), tree, root


def assess_elsewhere(ctx, ratio, tree, m):
    """The ratio is first asked about moves of another model, and about this move with other parameters."""
    from bartpy.mutation import GrowMutation, PruneMutation
    from bartpy.node import LeafNode, split_node
    from bartpy.tree import mutate
    model, t, root = other_model(ctx)
    new = split_node(root.node, conditions(0, 0.0))
    g = GrowMutation(root.node, new)
    ratio(model, t, g)
    mutate(t, g)
    ratio(model, t, PruneMutation(new, LeafNode(new.split, depth=new.depth)))
    ratio(make_model(ctx, [tree], sigma=0.75, alpha=0.5, beta=1.0, k=3.0), tree, m)
    ctx.cover('used before')


def log_marginal(ctx, n, s, t, v):
    """Log Gaussian marginal likelihood of n rows with target sum s, up to terms equal on both sides."""
    return ctx.log(t / (t + n * v)) * 0.5 + (v * s * s) / (2 * t * (t + n * v))

"""Counts, target sums and column facts of every node."""
from symex.harness import Harness, autos
from .common import *

MODULES = TREE_MODULES
ASSUMPTIONS = [REALS, NONAN, 'splits leave at least one row on each side (what the proposers guarantee, C05)']


def facts(ctx, root, X, y, p, where):
    for ref in root.walk():
        rows = ref.rows(X)
        d = ref.node.data
        at = '%s %s' % (where, [c[2] for c in ref.conds])
        ctx.eq(d.X.n_obsv, len(rows), 'row count', at)
        ctx.eq(d.y.summed_y(), total(y[i] for i in rows), 'target sum', at)
        ctx.eq_all(d.y.values, y, 'target', at)
        cols = splittable_columns(ctx, X, rows, p)
        ctx.check(sorted(int(j) for j in d.X.splittable_variables()) == cols, 'splittable columns', at)
        ctx.eq(d.X.n_splittable_variables, len(cols), 'number of splittable columns', at)
        ctx.check(bool(d.X.is_at_least_one_splittable_variable()) == (len(cols) > 0), 'any splittable column', at)
        if ref.is_leaf:
            ctx.check(bool(ref.node.is_splittable()) == (len(cols) > 0), 'leaf splittable', at)
        for j in range(p):
            distinct = all(not bool(X[a][j] == X[b][j]) for k, a in enumerate(rows) for b in rows[k + 1:])
            ctx.check(bool(d.X.is_column_unique(j)) == distinct, 'all values distinct', at)
            big = rows[0]
            for i in rows[1:]:
                if bool(X[i][j] > X[big][j]):
                    big = i
            ctx.eq(d.X.max_value_of_column(j), X[big][j], 'largest value', at)
            for i in rows:
                share = sum(1 for k in rows if bool(X[k][j] == X[i][j]))
                ctx.eq(d.X.proportion_of_value_in_variable(j, X[i][j]), ctx_frac(ctx, share, len(rows)), 'share of a value', at)


def ctx_frac(ctx, a, b):
    if ctx.sym:
        from fractions import Fraction
        return Fraction(a, b)
    return a / b


def history(ctx, cfg):
    n, p = cfg['n'], cfg['p']
    if cfg.get('grid'):
        X = covariates(ctx, cfg)
    elif cfg.get('concrete'):
        X = [[float(cfg['concrete'][i][j]) for j in range(p)] for i in range(n)]
    else:
        X = ctx.matrix('x', n, p)
    y = ctx.reals('y', n)
    tree, root = new_tree(ctx, X, y)
    for s in range(cfg['steps']):
        if ctx.choose('look%d' % s, 2):
            facts(ctx, root, X, y, p, 'before step %d' % s)
        moves = []
        for l in root.leaves():
            rows = l.rows(X)
            for j in range(p):
                for i in rows:
                    if any(bool(X[k][j] > X[i][j]) for k in rows) and not any(k < i and bool(X[k][j] == X[i][j]) for k in rows):
                        moves.append(('grow', l, j, i))
        moves += [('prune', n_, 0, 0) for n_ in root.internals() if n_.prunable()]
        moves.append(('update', None, 0, 0))
        kind, at, j, i = moves[ctx.choose('op%d' % s, len(moves))]
        ctx.cover(kind)
        if kind == 'grow':
            grow(tree, at, j, X[i][j])
        elif kind == 'prune':
            prune(tree, at)
        else:
            y = ctx.reals('y%d_' % s, n)
            tree.update_y(ctx.array(y))
    facts(ctx, root, X, y, p, 'end')


GRID = [[0, 1], [1, 1], [1, 0], [2, 0], [3, 2]]
HARNESSES = [
    Harness(history, quick=[dict(n=3, p=1, steps=2), dict(n=2, p=2, steps=2), dict(n=3, p=2, steps=1), dict(n=5, p=2, steps=3, concrete=GRID), dict(n=4, p=1, steps=1)]
            + autos(8, n=12, p=4, steps=9, grid='wide') + autos(4, n=40, p=4, steps=5, grid='late') + autos(1, n=40, p=4, steps=40, grid='late') + autos(2, n=300, p=3, steps=3, grid='long'),
            thorough=[dict(n=3, p=1, steps=3), dict(n=4, p=1, steps=2), dict(n=3, p=2, steps=2), dict(n=5, p=2, steps=4, concrete=GRID)],
            covers=['grow', 'prune', 'update'],
            bounds='2-4 rows and 1-2 columns of arbitrary real values (or a fixed 5x2 grid with ties), arbitrary targets, every history of up to 3 '
                   '(thorough 4) splits at a row value / prunes / target updates, facts read or not read before each step; also eight fixed histories of 9 steps on 12 rows and 4 columns, five of 5-40 steps on 40 rows (columns constant but for late rows) and two of 3 steps on 300 rows'),
]

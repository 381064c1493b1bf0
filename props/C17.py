"""Target scaling."""
from symex.harness import Harness, autos
from .common import *
from .estimator import ESTIMATOR_MODULES, estimator, targets

MODULES = ESTIMATOR_MODULES
ASSUMPTIONS = [REALS, NONAN]


def extremes(ys):
    lo = hi = ys[0]
    for v in ys[1:]:
        if bool(v < lo):
            lo = v
        if bool(v > hi):
            hi = v
    return lo, hi


def scaling(ctx, cfg):
    from bartpy.data import Data, make_bartpy_data
    n = cfg['n']
    X = [[float(i)] for i in range(n)]
    y = targets(ctx, n)[0] if ctx.auto is not None else ctx.reals('y', n)
    how = ctx.choose('how', 3)
    arr = ctx.array(y)
    if how == 0:
        d = Data(ctx.array(X), arr, normalize=True)
    elif how == 1:
        d = make_bartpy_data(ctx.array(X), arr)
    else:
        d = make_bartpy_data(ctx.array(X), arr, normalize=False) if ctx.choose('plain', 2) else Data(ctx.array(X), arr)
        ctx.eq_all(d.y.values, y, 'without normalisation the target is unchanged', '')
        ctx.cover('plain')
        return
    lo, hi = extremes(y) if ctx.auto is None else targets(ctx, n)[1:]
    z = ctx.flat(d.y.values)
    ctx.check(len(z) == n, 'one value per row')
    ctx.eq(d.y.normalizing_scale, hi - lo, 'scale is max minus min', '')
    ctx.eq_all(d.y.unnormalized_y, y, 'un-normalising gives the target back', '')
    ctx.eq_all(d.y.unnormalize_y(d.y.values), y, 'un-normalising gives the target back', '')
    if bool(hi == lo):
        ctx.cover('constant')
        for v in z:
            ctx.check((v <= 0.5) & (v >= -0.5) if ctx.sym and hasattr(v <= 0.5, 'c') else bool(v <= 0.5) and bool(v >= -0.5), 'constant target gives finite values')
    else:
        ctx.cover('varying')
        for v, t in zip(z, y):
            ctx.eq(v, (t - lo) / (hi - lo) - rational(ctx, 1, 2), 'affine map of [min, max] to [-0.5, 0.5]', '')
    ctx.eq_all(arr, y, 'caller\'s target untouched', '')
    w = ctx.reals('w', 2)
    back = ctx.flat(d.y.unnormalize_y(ctx.array(w)))
    for v, b in zip(w, back):
        ctx.eq(b, lo + (v + 0.5) * (hi - lo), 'inverse map for any value', '')
    # later targets in normalised units do not move the scale
    d.update_y(ctx.array(ctx.reals('r', n)))
    back = ctx.flat(d.y.unnormalize_y(ctx.array(w)))
    for v, b in zip(w, back):
        ctx.eq(b, lo + (v + 0.5) * (hi - lo), 'inverse map unchanged by target updates', '')


def model_units(ctx, cfg):
    """The estimator's data, noise scale and residuals use the same map."""
    n = cfg['n']
    X = [[float(i)] for i in range(n)]
    y, lo, hi = targets(ctx, n)
    est, rec = estimator(ctx, dict(trees=1, chains=1, samples=1), initializer=None)
    est.fit(ctx.array(X), ctx.array(y))
    model, v = rec.models[0], rec.chains[0][0].trees[0][1][0]
    ctx.eq_all(model.unnormalized_residuals(), [t - (lo + (v + 0.5) * (hi - lo)) for t in y], 'residuals in original units', '')
    model.sigma.set_value(ctx.real('sigma', positive=True))
    ctx.eq(model.sigma.current_unnormalized_value(), ctx.real('sigma', positive=True) * (hi - lo), 'noise in original units', '')
    ctx.cover('units')


HARNESSES = [
    Harness(scaling, quick=[dict(n=1), dict(n=2), dict(n=3), dict(n=4), dict(n=12, auto=0, free=['how', 'plain']), dict(n=12, auto=1, free=['how', 'plain'])], thorough=[dict(n=5), dict(n=6)], covers=['constant', 'varying', 'plain'],
            bounds='1-4 (thorough 6) rows with arbitrary real targets, arbitrary further values mapped back; 12 rows with two places of the extremes'),
    Harness(model_units, quick=[dict(n=2), dict(n=3)], thorough=[dict(n=4)], covers=['units'], bounds='2-3 rows with arbitrary targets, any noise level'),
]

"""Buffered random draws are handed out once."""
import copy
import pickle
from symex.harness import Harness, autos
from .common import *

MODULES = TREE_MODULES + ('bartpy.samplers.scalar', 'bartpy.samplers.leafnode', 'bartpy.samplers.unconstrainedtree.treemutation', 'bartpy.sklearnmodel')
ASSUMPTIONS = ['the generator\'s own draws are independent; draws of a continuous distribution are taken to be pairwise different',
               'copies made by copy.copy, copy.deepcopy and pickle (how chains are sent to worker processes)']


def generated(ctx):
    return sum(n for kind, n, a, b in ctx.rng.log if kind in ('normal', 'uniform', 'choice'))


def copies(ctx, obj, how):
    return [copy.deepcopy, copy.copy, lambda o: pickle.loads(pickle.dumps(o))][how](obj)


def make(ctx, kind, size):
    from bartpy.samplers.scalar import NormalScalarSampler, UniformScalarSampler
    cls = [NormalScalarSampler, UniformScalarSampler][kind]
    return cls() if size is None else cls(size)


def distinct(ctx, got, what):
    """No two values of got are the same draw, given that no two draws of the generator are equal."""
    got = [g + 0 for g in got]
    raw = [v for k, v, a in ctx.rng.raw]
    if ctx.sym:
        for i, a in enumerate(raw):
            for b in raw[:i]:
                ctx.assume(a != b)
    else:
        ctx.assume(len(set(raw)) == len(raw))
    for i, a in enumerate(got):
        for b in got[:i]:
            ctx.check(a != b, 'no draw is handed out twice', what)
    return got, raw


def check_values(ctx, got, kind):
    """got are values of standard draws of the kind, no draw twice."""
    name = ['normal', 'uniform'][kind]
    got, raw = distinct(ctx, got, name)
    ctx.check(all(k == name for k, v, a in ctx.rng.raw), 'distribution', name)
    for g in got:
        hit = False
        for r in raw:
            hit = (g == r) | hit
        ctx.check(hit, 'every value is a standard draw of the generator', name)


def continuous(ctx, cfg):
    kind = ctx.choose('kind', 2)
    sizes = cfg.get('sizes', [1, 2, 3, None])
    size = sizes[ctx.choose('size', len(sizes))]
    s = make(ctx, kind, size)
    got = []
    for k in range(cfg['draws']):
        before = generated(ctx)
        got.append(s.sample())
        ctx.check(generated(ctx) == before or before == k, 'refilled only when empty', '%d generated before %d were handed out' % (before, k + 1))
        ctx.check(generated(ctx) > k, 'no draw is handed out twice', '%d generated, %d handed out' % (generated(ctx), k + 1))
    if cfg.get('many'):
        ctx.cover('leaf sampler\'s size')
        return
    if size is not None and size < cfg['draws']:
        ctx.cover('refilled')
    if size is None:
        ctx.cover('default size')
    check_values(ctx, got, kind)


def copied(ctx, cfg):
    kind = ctx.choose('kind', 2)
    size = [1, 3, None][ctx.choose('size', 3)]
    s = make(ctx, kind, size)
    got = [s.sample() for _ in range(ctx.choose('used', cfg['used'] + 1))]
    how = ctx.choose('how', 3)
    if len(got) and size != 1:
        ctx.cover('partly used')
    a = copies(ctx, s, how)
    b = copies(ctx, a if ctx.choose('copy of copy', 2) else s, how)
    for k in range(cfg['draws']):
        for o in (s, a, b):
            got.append(o.sample())
    check_values(ctx, got, kind)


def owners(ctx, cfg):
    """The samplers that hold the buffers, as they travel with an estimator."""
    from bartpy.samplers.leafnode import LeafNodeSampler
    from bartpy.samplers.scalar import NormalScalarSampler
    tree, root = new_tree(ctx, [[0.0], [1.0]], [0.0, 0.0])
    model = make_model(ctx, [tree], sigma=1.0)
    s = LeafNodeSampler() if ctx.choose('default', 2) else LeafNodeSampler(NormalScalarSampler(2))
    got = [s.step(model, root.node) for _ in range(cfg['used'])]
    how = ctx.choose('how', 2) * 2
    a, b = copies(ctx, s, how), copies(ctx, s, how)
    for o in (s, a, b, s, a, b):
        got.append(o.step(model, root.node))
    distinct(ctx, got, 'leaf sampler')
    ctx.cover('leaf sampler')


def discrete(ctx, cfg):
    from bartpy.samplers.scalar import DiscreteSampler
    m = cfg['values']
    values = [7 * i for i in range(m)]
    if cfg['probas']:
        w = [ctx.real('w%d' % i, positive=True) for i in range(m - 1)]
        p = w + [1 - total(w)]
        ctx.assume(p[-1] > 0)
        mk = lambda: DiscreteSampler(values, list(p), cache_size=cfg['size'])
        ctx.cover('given probabilities')
    else:
        p = [rational(ctx, 1, m)] * m
        mk = lambda: DiscreteSampler(values, cache_size=cfg['size'])
        ctx.cover('uniform')
    how = ctx.choose('how', 4)

    def run():
        s = mk()
        if how == 3:
            return [s.sample() for _ in range(cfg['draws'])]
        if cfg['size'] > 1:
            s.sample()
        c = copies(ctx, s, how)
        return [s.sample(), c.sample()]
    out, cut = ctx.outcomes(run, depth=14)
    ctx.check(cut == 0, 'all outcomes')
    n = cfg['draws'] if how == 3 else 2
    import itertools
    slack = 0 if ctx.sym else 1e-9
    for combo in itertools.product(range(m), repeat=n):
        want = 1
        for i in combo:
            want = want * p[i]
        got = total(w for o, w in out if [int(v) for v in o] == [values[i] for i in combo])
        ctx.check((got - want <= slack) & (want - got <= slack) if ctx.sym else abs(got - want) <= 1e-5, 'independent draws of the configured distribution', str(combo))
    if how != 3:
        ctx.cover('copies')


def discrete_refill(ctx, cfg):
    from bartpy.samplers.scalar import DiscreteSampler
    sizes = cfg.get('sizes', [1, 2, 3, None])
    size = sizes[ctx.choose('size', len(sizes))]
    objs = [object(), object()]
    s = DiscreteSampler(objs) if size is None else DiscreteSampler(objs, cache_size=size)
    for k in range(cfg['draws']):
        before = generated(ctx)
        v = s.sample()
        ctx.check(v == objs[0] or v == objs[1], 'one of the configured values')
        ctx.check(generated(ctx) == before or before == k, 'refilled only when empty', '%d generated before %d were handed out' % (before, k + 1))
        ctx.check(generated(ctx) > k, 'no draw is handed out twice', '%d generated, %d handed out' % (generated(ctx), k + 1))
    ctx.cover('refill')


HARNESSES = [
    Harness(continuous, quick=[dict(draws=5), dict(draws=23, sizes=[7, 20]), dict(draws=3, sizes=[60000]), dict(draws=60002, sizes=[60000], many=1)], thorough=[dict(draws=9)], covers=['refilled', 'default size', 'leaf sampler\'s size'], bounds='buffers of 1, 2, 3, 7, 20, the default size and 60000 (the leaf sampler\'s), 3-23 draws; for 60000 also the numbers of draws generated and handed out over 60002 draws', rng_budget=200000),
    Harness(copied, quick=[dict(used=2, draws=2)], thorough=[dict(used=4, draws=3)], covers=['partly used'], rng_budget=3000,
            bounds='buffers of 1, 3 and the default size, 0-2 (4) draws used before copying, two copies by deepcopy, copy or pickle, also copies of copies'),
    Harness(owners, quick=[dict(used=1), dict(used=0)], thorough=[dict(used=2)], covers=['leaf sampler'], bounds='leaf sampler with default and own buffer, two copies', rng_budget=3000),
    Harness(discrete, quick=[dict(values=2, probas=1, size=1, draws=3), dict(values=3, probas=0, size=2, draws=2), dict(values=2, probas=1, size=3, draws=2)],
            thorough=[dict(values=3, probas=1, size=2, draws=3), dict(values=3, probas=1, size=3, draws=3)], covers=['given probabilities', 'uniform', 'copies'], rng_budget=3000,
            bounds='2-3 values with arbitrary probabilities, buffers of 1-3, joint distribution of 2-3 successive draws and of a draw and a copy\'s draw'),
    Harness(discrete_refill, quick=[dict(draws=4), dict(draws=30, sizes=[7, 20, 25], auto=0, free=['size']), dict(draws=1003, sizes=[None], auto=0)], thorough=[dict(draws=7)], covers=['refill'], bounds='buffers of 1, 2, 3 and the default size, 4 (7) draws', rng_budget=3000),
]

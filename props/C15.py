"""Burn-in, number of sweeps, thinning, storage flags."""
from symex.harness import Harness, autos
from .common import *

MODULES = TREE_MODULES + ('bartpy.model', 'bartpy.samplers.modelsampler', 'bartpy.trace')
ASSUMPTIONS = [REALS, NONAN, 'for thin whose inverse is not an integer "every (1/thin)-th sweep" is read as: after k sweeps the number recorded differs from k*thin by less than one',
               'a chain keeps at least one of: in-sample predictions, acceptance rates (any combination is explored)']


class Schedule:
    def __init__(self, ctx, leaf):
        self.ctx, self.leaf, self.sweeps = ctx, leaf, 0

    def steps(self, model):
        def go():
            self.sweeps += 1
            for t in model.trees:           # as sweeps do: new target, then new values
                t.update_y(self.ctx.array([0.0, 1.0]))
            self.leaf.set_value(self.ctx.real('sweep%d' % self.sweeps))
            return object() if self.sweeps % 2 else None
        yield 'Tree', go


def setup(ctx):
    from bartpy.samplers.modelsampler import ModelSampler
    tree, root = new_tree(ctx, [[0.0], [1.0]], [0.0, 1.0])
    model = make_model(ctx, [tree])
    s = Schedule(ctx, root.node)
    return model, s, ModelSampler(s)


def recorded(ctx, chain, burn, N, in_sample, acceptance):
    """Which sweeps were recorded, from the stored models; everything stored must correspond to them."""
    got, pos = [], 0
    for m in chain['model']:
        v = ctx.flat(m.predict(ctx.array([[5.0]])))[0]
        while True:
            pos += 1
            ctx.check(pos <= burn + N, 'stored models are sweeps, in order')
            if same(ctx, v, ctx.real('sweep%d' % pos)):
                break
        got.append(pos)
    ctx.check(len(chain['in_sample_predictions']) == (len(got) if in_sample else 0), 'number of stored predictions')
    ctx.check(len(chain['acceptance']) == (len(got) if acceptance else 0), 'number of stored acceptance rates')
    for q, k in enumerate(got):
        if in_sample:
            ctx.eq_all(ctx.flat(chain['in_sample_predictions'][q]), [ctx.real('sweep%d' % k)] * 2, 'stored prediction belongs to the stored model', '')
        if acceptance:
            ctx.eq(chain['acceptance'][q]['Tree'], k % 2, 'stored acceptance belongs to the stored model', '')
    ctx.check(all(k > burn for k in got), 'nothing recorded during burn-in', str(got))
    return [k - burn - 1 for k in got]


def same(ctx, a, b):
    if ctx.sym:
        return a is b or str(getattr(a, 'n', a)) == str(getattr(b, 'n', b))
    return abs(a - b) < 1e-9


def distinct(ctx, total_):
    if not ctx.sym:
        return
    for i in range(1, total_ + 1):          # any values, kept apart so that replays can tell the sweeps apart
        ctx.assume(ctx.real('sweep%d' % i) == i)


def whole_number(ctx, cfg):
    N, B = ctx.choose('samples', cfg['samples'] + 1), ctx.choose('burn', cfg['burn'] + 1)
    every = [1, 2, 3, 4, 5, 10][ctx.choose('every', cfg['every'])]
    ins, acc = bool(ctx.choose('in_sample', 2)), bool(ctx.choose('acceptance', 2))
    model, s, sampler = setup(ctx)
    distinct(ctx, N + B)
    if ctx.choose('used', 2):            # a run of another length with the same sampler
        for _ in range(2):
            sampler.samples(model, 3, 1, 0.5, True, True)
        s.sweeps = 0
        ctx.cover('used before')
    if every == 10 and ctx.choose('default', 2):
        ctx.cover('default thin')
        chain = sampler.samples(model, N, B, store_in_sample_predictions=ins, store_acceptance=acc)
    else:
        chain = sampler.samples(model, N, B, 1.0 / every, ins, acc)
    ctx.check(s.sweeps == N + B, 'exactly n_burn + n_samples sweeps', '%d' % s.sweeps)
    got = recorded(ctx, chain, B, N, ins, acc)
    ctx.check(got == list(range(0, N, every)), 'every (1/thin)-th sweep from the first', 'thin 1/%d of %d: %s' % (every, N, got))
    if len(got) > 1:
        ctx.cover('several')
    if not ins and not acc:
        ctx.cover('nothing but models')


def fraction(ctx, cfg):
    N = cfg['samples']
    model, s, sampler = setup(ctx)
    distinct(ctx, N)
    thin = ctx.real('thin', lo=0, hi=1)
    ctx.assume(thin > 0)
    if cfg.get('thin'):
        ctx.assume(thin == rational(ctx, *cfg['thin']) if ctx.sym else abs(thin - cfg['thin'][0] / cfg['thin'][1]) < 1e-9)
    chain = sampler.samples(model, N, 0, thin, True, True)
    ctx.check(s.sweeps == N, 'exactly n_burn + n_samples sweeps', '%d' % s.sweeps)
    got = recorded(ctx, chain, 0, N, True, True)
    ctx.check(got[:1] == [0], 'first sweep recorded')
    for k in range(1, N + 1):
        c = sum(1 for g in got if g < k)
        slack = 0 if ctx.sym else 1e-6
        ctx.check((c - k * thin < 1 + slack) & (k * thin - c < 1 + slack) if ctx.sym else abs(c - k * thin) < 1 + slack, 'a fraction thin is recorded', '%d of %d' % (c, k))
    ctx.cover('some thin')
    if 1 < len(got) < N:
        ctx.cover('thinned')


HARNESSES = [
    Harness(whole_number, quick=[dict(samples=6, burn=1, every=6), dict(samples=2, burn=3, every=2), dict(samples=11, burn=0, every=6)] + autos(5, samples=120, burn=45, every=6) + autos(1, samples=1500, burn=20, every=6),
            thorough=[dict(samples=12, burn=2, every=6), dict(samples=25, burn=0, every=6)],
            covers=['used before', 'several', 'nothing but models', 'default thin'],
            bounds='0-11 (thorough 25) samples, 0-3 burn-in sweeps, thin in {1, 1/2, 1/3, 1/4, 1/5, 1/10} and the default, all storage flag combinations; also six fixed combinations of up to 1500 samples and 45 burn-in sweeps'),
    Harness(fraction, quick=[dict(samples=5), dict(samples=1), dict(samples=60, thin=[3, 100]), dict(samples=40, thin=[3, 10]), dict(samples=40, thin=[17, 20])], thorough=[dict(samples=9)], covers=['some thin', 'thinned'],
            bounds='any real thin in (0,1], 5 (thorough 9) samples; thin 0.03, 0.3, 0.85 with 40-60 samples'),
]

"""Cases: (scheme, weight vector, key seed, number of repetitions). Non-trivial: at least two particles of positive
weight and weights not all equal."""
import functools
import numpy as np
import jax
import jax.numpy as jnp
from hypothesis import strategies as st
from vf.core import sub, sut, ensure, fail
from vf import gen, stats
from fbs.samplers import resampling as rs
from fbs.samplers.csmc import resamplings as crs

SCHEMES = {
    'systematic': lambda w, k: rs.systematic(w, k),
    'stratified': lambda w, k: rs.stratified(w, k),
    'multinomial': lambda w, k: rs.multinomial(w, k),
    'killing': lambda w, k: rs.killing(w, k),
    'c-multinomial': lambda w, k: crs.multinomial(k, w, conditional=False),
    'c-killing': lambda w, k: crs.killing(k, w, conditional=False),
    'c-systematic': lambda w, k: crs.systematic(k, w, conditional=False),
}


@functools.lru_cache(None)
def runner(scheme, n, m):
    f = SCHEMES[scheme]

    @jax.jit
    def run(w, key):
        idx = jax.vmap(lambda k: f(w, k))(jax.random.split(key, m))
        return idx

    return run


def draw(case, n, m, w, stage, dtype):
    key = jax.random.PRNGKey(case['seed'] + 7919 * stage)
    return np.asarray(sut(runner(case['scheme'], n, m), jnp.asarray(w, dtype), key))


def cases(sizes):
    return lambda: st.fixed_dictionaries(dict(scheme=st.sampled_from(sorted(SCHEMES)), w=gen.weight_lists(sizes=sizes),
                                              seed=gen.seeds))


def info(case, w, m):
    return dict(nontrivial=int((w > 0).sum()) > 1 and np.ptp(w[w > 0]) > 1e-6 or (w == 0).any() and (w > 0).sum() > 1,
                labels=[case['scheme'], f'n={min(len(w), 9)}', 'zeros' if (w == 0).any() else 'positive',
                        'dominated' if w.max() > 0.99 else 'spread'], runs=m)


def validity(idx, w, n, m, what):
    ensure(idx.shape == (m, n), lambda: f'{what}: shape {idx.shape}, expected {(m, n)}')
    ensure(np.issubdtype(idx.dtype, np.integer), lambda: f'{what}: dtype {idx.dtype}')
    ensure(idx.min() >= 0 and idx.max() < n, lambda: f'{what}: indices {idx.min()}..{idx.max()} outside 0..{n - 1}')


def law(case, dtype):
    w = gen.norm_w(case['w'])
    n = len(w)
    m = 4096
    what = case['scheme']
    idx = draw(case, n, m, w, 0, dtype)
    validity(idx, w, n, m, what)
    w32 = np.asarray(np.asarray(w, dtype), float)
    counts = np.stack([(idx == i).sum(1) for i in range(n)], 1)  # (m, n)
    # zero weight: only float rounding of the uniform variable may choose it
    zero = (w32 == 0)
    if zero.any():
        bad = int(counts[:, zero].sum())
        ensure(bad <= 3, lambda: f'{what}: particles of weight zero chosen {bad} times in {m * n} draws')

    def run(stage, mm):
        mm = m if stage == 0 else 4 * m * 4
        if stage == 0:
            return counts
        ii = draw(case, n, mm, w, 1, dtype)
        return np.stack([(ii == i).sum(1) for i in range(n)], 1)

    # Expected counts. The sample standard error of systematic counts can be zero: floor it by the rounding tolerance
    # and by the Bernoulli error of an event seen less than once in the sample
    def test(c):
        mm = c.shape[0]
        d = np.abs(c.mean(0) - n * w) - 2e-5 * n
        frac = n * w - np.floor(n * w)
        se = np.maximum(c.std(0, ddof=1) / np.sqrt(mm), np.sqrt((frac * (1 - frac) + 1e-3) / mm))
        # Poisson-like floor for rare events
        return np.max(d / se), int(np.argmax(d / se))

    z, i = test(counts)
    if z > 4.5:
        c = run(1, None)
        z, i = test(c)
        if z > 7.:
            fail(f'{what}: expected copies of particle {i} are {n * w[i]:.6f}, observed {c.mean(0)[i]:.6f} '
                 f'({z:.1f} standard errors)')
    return info(case, w, m)


@sub(cases([1, 2, 3, 4, 5, 8]), quick=500, thorough=8000, shards=3)
def law_float32(case):
    return law(case, np.float32)


@sub(cases([2, 3, 5, 7]), quick=200, thorough=4000, shards=2, x64=True)
def law_float64(case):
    return law(case, np.float64)


SIZES = [16, 100, 127, 1000, 4096]


@sub(lambda: st.fixed_dictionaries(dict(scheme=st.sampled_from(sorted(SCHEMES)), n=st.sampled_from(SIZES),
                                        kind=st.sampled_from(['uniform', 'exp', 'sparse', 'dominated', 'logu']),
                                        seed=gen.seeds)),
     quick=250, thorough=6000, shards=2)
def large_sizes_in_range(case):
    """Many particles: rounding of the cumulative weights must not give an index outside of the range, nor (beyond
    rounding) one of weight zero."""
    n = case['n']
    r = np.random.default_rng(case['seed'])
    w = dict(uniform=np.ones(n), exp=r.exponential(size=n), sparse=(r.uniform(size=n) < 0.1) * r.uniform(size=n),
             dominated=np.full(n, 1e-7), logu=np.exp(20 * (r.uniform(size=n) - 1)))[case['kind']]
    w[r.integers(n)] += 1.
    w = w / w.sum()
    m = max(4, 20000 // n)
    idx = draw(case, n, m, w, 0, np.float32)
    validity(idx, w, n, m, case['scheme'])
    bad = int((w[idx] == 0).sum())
    ensure(bad <= 2 + m * n * 1e-6 * np.sqrt(n), f"{case['scheme']}: weight zero chosen {bad} times in {m * n}")
    # mean of a bounded test function, exact by unbiasedness
    phi = np.cos(np.arange(n) * 0.7)
    z, _ = stats.zscores(phi[idx].mean(1), float(phi @ w), tol=2e-4)
    if z > 5 and idx.shape[0] > 30:
        idx = draw(case, n, 16 * m, w, 1, np.float32)
        z, mm = stats.zscores(phi[idx].mean(1), float(phi @ w), tol=2e-4)
        ensure(z < 7, f"{case['scheme']}: resampled mean {mm:.6f} of a test function, weighted mean {phi @ w:.6f}")
    return dict(nontrivial=n > 1, labels=[case['scheme'], case['kind'], f'n={n}'], runs=m)


EDGE = 2. ** -23


@sub(lambda: st.fixed_dictionaries(dict(scheme=st.sampled_from(['systematic', 'stratified', 'multinomial',
                                                                'c-systematic']),
                                        n=st.sampled_from([1, 2, 10, 50, 200, 500]), seed=gen.seeds)),
     quick=150, thorough=3000, shards=1)
def short_cumulative_sum(case):
    """Weights whose floating-point sum falls short of one by rounding: the indices stay inside the range."""
    n = case['n']
    r = np.random.default_rng(case['seed'])
    w = r.dirichlet(np.full(n, 0.3)) if n > 1 else np.ones(1)
    w = (w / w.sum()).astype(np.float32) * np.float32(1 - r.uniform() * 4e-6)
    m = 1024
    idx = draw(case, n, m, w, 0, np.float32)
    validity(idx, w, n, m, case['scheme'])
    return dict(nontrivial=n > 1, labels=[case['scheme']], runs=m)

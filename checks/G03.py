"""Cases: (weight vector, current index). The one-step law of the Metropolised independence sampler that proposes only other
indices is written down exactly and compared with 40k-160k draws; the reported probability with the exact one.
Non-trivial: at least two positive weights."""
import functools
import numpy as np
import jax
import jax.numpy as jnp
from hypothesis import strategies as st
from vf.core import sub, sut, ensure
from vf import gen, stats
from fbs.samplers.gibbs import force_move


@functools.lru_cache(None)
def runner(m):
    return jax.jit(lambda key, w, k: jax.vmap(lambda kk: force_move(kk, w, k))(jax.random.split(key, m)))


def row(w, k):
    """Exact law of the next index."""
    n = len(w)
    p = np.zeros(n)
    rest = w.copy()
    rest[k] = 0.
    t = rest.sum()
    if t > 0:
        for i in range(n):
            if i != k and w[i] > 0:
                o = w.sum() - w[i]
                p[i] = w[i] / t * min(1., t / o)
    p[k] = 0.
    p[k] = 1 - p.sum()
    return p


@sub(lambda: st.fixed_dictionaries(dict(w=gen.weight_lists(sizes=[1, 2, 3, 4, 6, 10, 25]), k=st.integers(0, 24),
                                        seed=gen.seeds)), quick=600, thorough=9000, shards=4)
def one_step_law(case):
    w = np.asarray(np.asarray(gen.norm_w(case['w']), np.float32), float)
    n = len(w)
    k = case['k'] % n
    if 1 - w[k] < 1e-4 and w[k] < 1:
        w[k] = 0.
        w[k] = 1e-3 + w.sum() * 0 if w.sum() > 0 else 1.
        w = np.asarray(np.asarray(w / w.sum(), np.float32), float)
    p = row(w / w.sum(), k)
    ensure(abs(p.sum() - 1) < 1e-9, 'harness')

    def run(stage, m):
        i, alpha = [np.asarray(x) for x in sut(runner(m), jax.random.PRNGKey(case['seed'] + stage),
                                               jnp.asarray(w, jnp.float32), k)]
        ensure(i.shape == (m,) and i.min() >= 0 and i.max() < n, lambda: f'indices {i.min()}..{i.max()}')
        ensure(np.all(np.isfinite(alpha)) and np.abs(alpha - (1 - p[k])).max() < 2e-3,
               lambda: f'reported move probability {alpha[0]:.6f}, exact {1 - p[k]:.6f} (weights {w.round(5).tolist()}, '
                       f'k={k})')
        return np.bincount(i, minlength=n)

    stats.assert_law(run, p, 40000, f'force_move from k={k} with weights {w.round(5).tolist()}', eps=2e-5)
    return dict(nontrivial=(w > 0).sum() > 1, runs=40000,
                labels=[f'n={n}', 'k zero weight' if w[k] == 0 else 'k maximal' if w[k] == w.max() else 'k other'])


@functools.lru_cache(None)
def inv_runner(m):
    def one(key, w):
        k1, k2 = jax.random.split(key)
        k = jnp.searchsorted(jnp.cumsum(w), jax.random.uniform(k1) * jnp.sum(w), side='right').clip(0, w.shape[0] - 1)
        return k, *force_move(k2, w, k)
    return jax.jit(lambda key, w: jax.vmap(one, in_axes=[0, None])(jax.random.split(key, m), w))


@sub(lambda: st.fixed_dictionaries(dict(w=gen.weight_lists(sizes=[2, 3, 5, 12, 60]), seed=gen.seeds)),
     quick=200, thorough=4000, shards=2)
def invariance_and_move_rate(case):
    w = np.asarray(np.asarray(gen.norm_w(case['w']), np.float32), float)
    w = w / w.sum()
    n = len(w)

    def run(stage, m):
        k, i, a = [np.asarray(x) for x in sut(inv_runner(m), jax.random.PRNGKey(case['seed'] + stage),
                                              jnp.asarray(w, jnp.float32))]
        ensure(i.min() >= 0 and i.max() < n, 'index range')
        # moved and alpha agree in expectation
        d = (k != i) - np.clip(a.astype(float), 0, 1)
        z = abs(d.mean()) / (d.std() / np.sqrt(m) + 1e-4 / 5)
        ensure(z < 8, lambda: f'the index moves with frequency {(k != i).mean():.5f}, reported {a.mean():.5f}')
        return np.bincount(i, minlength=n)

    stats.assert_law(run, w, 40000, f'force_move after a draw from the weights {w.round(5).tolist()}', eps=2e-5)
    return dict(nontrivial=(w > 0).sum() > 1, runs=40000, labels=[f'n={n}'])

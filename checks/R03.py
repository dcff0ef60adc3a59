"""Cases: (scheme, weight vector, conditioned slot j and particle i of positive weight, key seed). The joint law of all
ancestors is enumerated exactly (N up to 4); large N is checked through the pinned slot and unbiasedness. Non-trivial:
at least two particles."""
import functools
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from hypothesis import strategies as st
from vf.core import sub, sut, ensure, fail
from vf import gen, stats
from fbs.samplers.csmc import resamplings as crs

SCHEMES = {'killing': crs.killing, 'multinomial': crs.multinomial}


@functools.lru_cache(None)
def runner(scheme, n, m):
    f = SCHEMES[scheme]
    return jax.jit(lambda w, i, j, key: jax.vmap(lambda k: f(k, w, i, j, True))(jax.random.split(key, m)))


def exact_law(scheme, w, i, j):
    n = len(w)
    P = np.zeros((n,) * n)
    cells = list(itertools.product(range(n), repeat=n))
    if scheme == 'multinomial':
        for a in cells:
            if a[j] == i:
                P[a] = np.prod([w[a[k]] for k in range(n) if k != j])
        return P
    alive = w / w.max()
    # slot law of unconditional killing
    S = np.diag(alive) + (1 - alive)[:, None] * w[None, :]  # S[m, a]
    pJ = (1 - alive) / n
    pJ[i] = 0.
    pJ[i] = 1 - pJ.sum()
    for J in range(n):
        # slot m of the killing goes to slot (m + j - J) mod n; slot J is pinned to i
        for a in cells:
            if a[j] != i:
                continue
            p = pJ[J]
            for m in range(n):
                s = (m + j - J) % n
                if s != j:
                    p *= S[m, a[s]]
            P[a] += p
    return P


@sub(lambda: st.fixed_dictionaries(dict(scheme=st.sampled_from(sorted(SCHEMES)), w=gen.weight_lists(sizes=[1, 2, 3, 4]),
                                        i=st.integers(0, 3), j=st.integers(0, 3), seed=gen.seeds)),
     quick=420, thorough=6000, shards=4)
def joint_law(case):
    w = gen.norm_w(case['w'])
    w = np.asarray(np.asarray(w, np.float32), float)
    w = w / w.sum()
    n = len(w)
    pos = np.flatnonzero(w > 1e-7)
    i, j = int(pos[case['i'] % len(pos)]), case['j'] % n
    P = exact_law(case['scheme'], w, i, j)

    def run(stage, m):
        idx = np.asarray(sut(runner(case['scheme'], n, m), jnp.asarray(w, jnp.float32), i, j,
                             jax.random.PRNGKey(case['seed'] + 7919 * stage)))
        ensure(idx.shape == (m, n), lambda: f'shape {idx.shape}')
        ensure(idx.min() >= 0 and idx.max() < n, lambda: f'{case["scheme"]}: indices outside the range')
        ensure(np.all(idx[:, j] == i), lambda: f'{case["scheme"]}: slot j = {j} does not descend from i = {i}: '
                                               f'{idx[np.argmax(idx[:, j] != i)].tolist()}')
        return stats.bincount_rows(idx, n)

    stats.assert_law(run, P.ravel(), 40000, f'{case["scheme"]} given A_{j} = {i}, weights {w.round(5).tolist()}')
    return dict(nontrivial=n > 1, labels=[case['scheme'], f'n={n}', 'i=j' if i == j else 'i!=j',
                                          'i maximal' if w[i] == w.max() else 'i not maximal'], runs=40000)


@functools.lru_cache(None)
def mixed(scheme, n, m):
    f = SCHEMES[scheme]

    def one(w, k, j):
        ki, kj, kr = jax.random.split(k, 3)
        i = jnp.searchsorted(jnp.cumsum(w), jax.random.uniform(ki) * jnp.sum(w), side='right').clip(0, n - 1)
        j = jnp.where(j < 0, jax.random.randint(kj, (), 0, n), j)
        idx = f(kr, w, i, j, True)
        return i, j, idx

    return jax.jit(lambda w, j, key: jax.vmap(lambda k: one(w, k, j))(jax.random.split(key, m)))


@sub(lambda: st.fixed_dictionaries(dict(scheme=st.sampled_from(sorted(SCHEMES)), n=st.sampled_from([2, 5, 11, 40, 128]),
                                        kind=st.sampled_from(['dir', 'uniform', 'sparse', 'dominated']),
                                        fixed_j=st.booleans(), seed=gen.seeds)),
     quick=120, thorough=2500, shards=3)
def mixing_gives_back_unbiased_offspring(case):
    n = case['n']
    r = np.random.default_rng(case['seed'])
    w = dict(dir=r.dirichlet(np.full(n, 0.6)), uniform=np.ones(n), sparse=(r.uniform(size=n) < 0.5) * r.uniform(size=n),
             dominated=np.full(n, 0.02 / n))[case['kind']]
    w[r.integers(n)] += 0.5
    w = w / w.sum()
    # for a scheme whose slots are exchangeable up to a shift any j may be used; uniform j is always right
    j = -1 if not case['fixed_j'] else int(r.integers(n))
    phi = np.stack([np.cos(np.arange(n)), np.sin(1.7 * np.arange(n)), (np.arange(n) == np.argmax(w)) * 1.,
                    (np.arange(n) == np.argmin(w)) * 1.], 0)

    def run(stage, m):
        i, jj, idx = [np.asarray(a) for a in sut(mixed(case['scheme'], n, m), jnp.asarray(w, jnp.float32), j,
                                                 jax.random.PRNGKey(case['seed'] + 31 * stage))]
        ensure(idx.shape == (m, n) and idx.min() >= 0 and idx.max() < n, 'indices outside the range')
        ensure(np.all(idx[np.arange(m), jj] == i), f'{case["scheme"]}: the conditioned slot lost its ancestor')
        ensure((w[idx] == 0).sum() <= 2, f'{case["scheme"]}: ancestors of weight zero')
        return np.stack([p[idx].mean(1) for p in phi], 1)

    stats.assert_mean(run, phi @ w, 20000, f'{case["scheme"]}, n = {n}, {case["kind"]}: mean offspring test functions',
                      tol=1e-5, z1=5, z2=7)
    return dict(nontrivial=n > 2 and case['kind'] != 'uniform', labels=[case['scheme'], case['kind'], f'n={n}'],
                runs=20000)

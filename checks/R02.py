"""Cases: (scheme, weight vector or size, key seed); every single draw of a batch of keys is checked. Non-trivial:
weights not all equal (low-variance part), or a tie at the maximal weight (killing part)."""
import functools
import numpy as np
import jax
import jax.numpy as jnp
from hypothesis import strategies as st
from vf.core import sub, sut, ensure
from vf import gen
from fbs.samplers import resampling as rs
from fbs.samplers.csmc import resamplings as crs

LOWVAR = {'systematic': rs.systematic, 'stratified': rs.stratified,
          'c-systematic': lambda w, k: crs.systematic(k, w, conditional=False)}
KILL = {'killing': rs.killing, 'c-killing': lambda w, k: crs.killing(k, w, conditional=False)}
SIZES = [1, 2, 3, 4, 5, 7, 10, 16, 33]
M = 256


@functools.lru_cache(None)
def runner(scheme):
    f = {**LOWVAR, **KILL}[scheme]
    return jax.jit(lambda w, key: jax.vmap(lambda k: f(w, k))(jax.random.split(key, M)))


@sub(lambda: st.fixed_dictionaries(dict(scheme=st.sampled_from(sorted(LOWVAR)), w=gen.weight_lists(sizes=SIZES),
                                        seed=gen.seeds)), quick=1500, thorough=20000, shards=3)
def low_variance(case):
    w = gen.norm_w(case['w'])
    n = len(w)
    w32 = jnp.asarray(w, jnp.float32)
    idx = np.asarray(sut(runner(case['scheme']), w32, jax.random.PRNGKey(case['seed'])))
    ensure(idx.shape == (M, n), lambda: f'shape {idx.shape}')
    ensure(np.all(np.diff(idx, axis=1) >= 0), lambda: f'{case["scheme"]}: indices are not in increasing order')
    tol = 3e-6 * (n + 4)
    counts = np.stack([(idx == i).sum(1) for i in range(n)], 1)
    if 'systematic' in case['scheme']:
        lo, hi = np.floor(n * w - tol), np.ceil(n * w + tol)
        bad = np.any((counts < lo) | (counts > hi), axis=1)
        ensure(not bad.any(), lambda: f'{case["scheme"]}: copies {counts[np.argmax(bad)].tolist()} for expected '
                                      f'{(n * w).round(6).tolist()}')
    # the k-th index comes from the k-th stratum of the cumulative weights
    C = np.concatenate([[0.], np.cumsum(w)])
    k = np.arange(n)[None, :]
    ok = (C[idx] <= (k + 1) / n + tol / n) & (C[idx + 1] >= k / n - tol / n)
    ensure(ok.all(), lambda: f'{case["scheme"]}: an index outside of its stratum, e.g. {idx[np.argmin(ok.all(1))].tolist()} '
                             f'for weights {w.round(6).tolist()}')
    return dict(nontrivial=np.ptp(w) > 1e-6, labels=[case['scheme'], f'n={n}', 'zeros' if (w == 0).any() else 'pos'],
                runs=M)


@sub(lambda: st.fixed_dictionaries(dict(scheme=st.sampled_from(sorted(LOWVAR)), n=st.sampled_from([3, 10, 64, 500]),
                                        kind=st.sampled_from(['dir', 'sparse', 'uniform']), seed=gen.seeds)),
     quick=200, thorough=4000, shards=1)
def low_variance_large(case):
    n = case['n']
    r = np.random.default_rng(case['seed'])
    w = dict(dir=r.dirichlet(np.full(n, 0.5)), sparse=r.uniform(size=n) * (r.uniform(size=n) < 0.2) + 1e-9,
             uniform=np.ones(n))[case['kind']]
    return low_variance(dict(scheme=case['scheme'], w=w.tolist(), seed=case['seed']))


@sub(lambda: st.fixed_dictionaries(dict(scheme=st.sampled_from(sorted(KILL)), w=gen.weight_lists(sizes=SIZES),
                                        ties=st.booleans(), seed=gen.seeds)), quick=700, thorough=10000, shards=2)
def killing_keeps_maximal(case):
    w = gen.norm_w(case['w'])
    n = len(w)
    if case['ties'] and n > 1:
        w = np.where(np.arange(n) % 2 == np.argmax(w) % 2, w.max(), w)
        w = w / w.sum()
    w32 = np.asarray(w, np.float32)
    idx = np.asarray(sut(runner(case['scheme']), jnp.asarray(w32), jax.random.PRNGKey(case['seed'])))
    top = np.flatnonzero(w32 == w32.max())
    ensure(np.all(idx[:, top] == top[None, :]), lambda: f'{case["scheme"]}: a particle of maximal weight was moved, '
                                                        f'weights {w32.tolist()}')
    if len(top) == n:
        ensure(np.all(idx == np.arange(n)[None, :]), f'{case["scheme"]}: uniform weights, not the identity')
    # whoever moved was replaced by a particle of positive weight
    return dict(nontrivial=len(top) > 1 or n > 2, labels=[case['scheme'], f'ties={min(len(top), 3)}'], runs=M)


@functools.lru_cache(None)
def crunner(n):
    return jax.jit(lambda w, i, key: jax.vmap(lambda k: crs.killing(k, w, i, i, True))(jax.random.split(key, M)))


@sub(lambda: st.fixed_dictionaries(dict(n=st.sampled_from([1, 2, 3, 8, 50]), i=st.integers(0, 49), seed=gen.seeds)),
     quick=60, thorough=1000)
def conditional_killing_uniform_identity(case):
    n = case['n']
    i = case['i'] % n
    idx = np.asarray(sut(crunner(n), jnp.full((n,), 1. / n), i, jax.random.PRNGKey(case['seed'])))
    ensure(np.all(idx == np.arange(n)), f'conditional killing with uniform weights and i = j = {i} moves indices')
    return dict(nontrivial=n > 1, labels=[f'n={n}'], runs=M)

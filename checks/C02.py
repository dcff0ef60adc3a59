"""Cases: random finite-state model (tables depend on step, previous measurement and previous state; some with forbidden
transitions/measurements), horizon K, particle number, reference indices, conditional resampling scheme, backward
option. 40k-160k kernel applications from exact draws of the smoothing law; the law of the output over all paths is
enumerated. Non-trivial: the smoothing law is not concentrated (max path probability < 0.98) and N >= 2."""
import functools
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from hypothesis import strategies as st
from vf.core import sub, sut, ensure
from vf import gen, stats, fsm
from fbs.samplers.csmc.csmc import csmc_kernel
from fbs.samplers.csmc.resamplings import killing, multinomial

SCHEMES = {'killing': killing, 'multinomial': multinomial}
ASSUMPTIONS = ['JAX PRNG gives independent uniform variables']


@functools.lru_cache(None)
def runner(N, K, S, V, scheme, backward, ushape, vshape, m):
    def one(key, tab, vs, ts, us_star, bs):
        cb = fsm.Callbacks(tab, ts, ushape, vshape)
        v_arr = fsm.encode(vs, vshape)
        us, b = csmc_kernel(key, fsm.encode(us_star, ushape), bs, v_arr, ts, cb.init_sampler_csmc(v_arr[0]),
                            cb.init_likelihood_logpdf, cb.transition_sampler, cb.transition_logpdf,
                            cb.likelihood_logpdf, SCHEMES[scheme], N - 1, backward=backward)
        return us, b

    @jax.jit
    def run(key, tab, vs, ts, paths, cum, bs, random_bs):
        k1, k2, k3 = jax.random.split(key, 3)
        r = jnp.searchsorted(cum, jax.random.uniform(k1, (m,)) * cum[-1], side='right')
        star = paths[jnp.clip(r, 0, paths.shape[0] - 1)]
        bb = jnp.where(random_bs, jax.random.randint(k2, (m, K + 1), 0, N), bs[None, :])
        return jax.vmap(one, in_axes=[0, None, None, None, 0, 0])(jax.random.split(k3, m), tab, vs, ts, star, bb)

    return run


CONFIGS = [(2, 1, 2, 2), (3, 1, 3, 2), (2, 2, 2, 2), (3, 2, 2, 2), (4, 2, 3, 2), (3, 3, 2, 2), (5, 3, 2, 2), (2, 4, 2, 2)]


STATIC = list(itertools.product(range(len(CONFIGS)), sorted(SCHEMES), [False, True]))


def case_strategy(part):
    return st.fixed_dictionaries(dict(
        static=st.sampled_from(part(STATIC)),
        sharp=st.sampled_from([0.5, 1.5]), zeros=st.sampled_from([0., 0., 0.25]),
        bs=st.one_of(st.none(), st.lists(st.integers(0, 7), min_size=5, max_size=5)),
        model=gen.seeds, seed=gen.seeds))


SHAPES = [((), ()), ((2, 1), (2,))]
M = 40000


@sub(case_strategy, quick=150, thorough=3500, shards=8)
def smoothing_law_invariant(case):
    cfg, scheme, backward = case['static']
    N, K, S, V = CONFIGS[cfg]
    ush, vsh = SHAPES[cfg % 3 == 0]
    tab = fsm.tables(case['model'], S, V, K, case['sharp'], case['zeros'])
    vs = fsm.good_vs(case['model'], tab, K, S, V)
    P, w = fsm.path_weights(tab, vs, K, S)
    w = w / w.sum()
    ts = fsm.times(case['model'], K)
    bs = np.array([b % N for b in (case['bs'] or [0] * 5)[:K + 1]])
    f = runner(N, K, S, V, scheme, backward, ush, vsh, M)
    dtab = {k: jnp.asarray(v, jnp.float32) for k, v in tab.items()}

    def run(stage, m):
        counts = np.zeros(S ** (K + 1))
        for rep in range(max(1, m // M)):
            us, b = sut(f, jax.random.PRNGKey(case['seed'] + 7919 * stage + 104729 * rep), dtab, jnp.asarray(vs),
                        jnp.asarray(ts, jnp.float32), jnp.asarray(P), jnp.asarray(np.cumsum(w), jnp.float32),
                        jnp.asarray(bs), case['bs'] is None)
            us, b = np.asarray(us), np.asarray(b)
            ensure(us.shape == (M, K + 1) + ush, lambda: f'trajectory shape {us.shape[1:]}')
            ensure(b.shape == (M, K + 1), lambda: f'index shape {b.shape[1:]}')
            ensure(b.min() >= 0 and b.max() < N, 'returned indices outside of the particle range')
            ensure(fsm.coherent(us, ush, S), 'the returned trajectory has a state that no particle ever had')
            codes = np.rint(us[(Ellipsis,) + (0,) * len(ush)]).astype(int)
            counts += stats.bincount_rows(codes, S)
        return counts

    stats.assert_law(run, w, M, f'csmc_kernel N={N} K={K} {scheme} backward={backward}: smoothing law')
    return dict(nontrivial=w.max() < 0.98, runs=M,
                labels=[f'N={N} K={K} S={S}', scheme, f'backward={backward}',
                        'random b*' if case['bs'] is None else 'fixed b*', f'zeros={case["zeros"]}'])

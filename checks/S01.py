"""Cases: random finite-state models (tables depend on step, previous measurement, previous state; some with forbidden
transitions), horizon, particle number (1..16), resampling scheme. E[likelihood estimate x particle averages] against the
enumerated unnormalised filtering expectations over 40k-160k filters; for one particle the pathwise likelihood; agreement
of return_last and of the log flag at the same key. Non-trivial: more than one particle, filtering law not concentrated."""
import functools
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from hypothesis import strategies as st
from vf.core import sub, sut, ensure
from vf import gen, stats, fsm
from fbs.samplers.smc import bootstrap_filter
from fbs.samplers import resampling as rs

SCHEMES = {'systematic': rs.systematic, 'stratified': rs.stratified, 'multinomial': rs.multinomial, 'killing': rs.killing}
SHAPES = [((), ()), ((2, 1), (2,))]
CFG = [(1, 1, 2, 2), (1, 3, 3, 2), (2, 1, 2, 2), (2, 3, 2, 2), (3, 2, 3, 2), (5, 4, 2, 3), (16, 3, 2, 2)]
STATIC = list(itertools.product(range(len(CFG)), sorted(SCHEMES)))
M = 20000


def model_run(cfg, scheme, log, last):
    N, K, S, V = CFG[cfg]
    ush, vsh = SHAPES[cfg % 3 == 1]

    def one(key, tab, vs, ts, scale):
        cb = fsm.Callbacks(tab, ts, ush, vsh)

        def lik(v, us, v_prev, t_prev, **kw):
            ll = cb.likelihood_logpdf(v, us, v_prev, t_prev) + kw['scale']
            return ll if log else jnp.exp(ll)

        def tsamp(us, v, t, k, scale):
            return cb.transition_sampler(us, v, t, k)

        return bootstrap_filter(tsamp, lik, fsm.encode(vs, vsh), ts, cb.init_sampler_smc, key, N, SCHEMES[scheme],
                                log=log, return_last=last, scale=scale)
    return one


@functools.lru_cache(None)
def runner(cfg, scheme, last, m):
    N, K, S, V = CFG[cfg]
    ush, _ = SHAPES[cfg % 3 == 1]
    one = model_run(cfg, scheme, True, last)

    @jax.jit
    def run(key, tab, vs, ts, scale, fs):
        us, nell = jax.vmap(one, in_axes=[0, None, None, None, None])(jax.random.split(key, m), tab, vs, ts, scale)
        s = fsm.decode(us, ush)  # (m, N)
        ok = jnp.all(us == fsm.encode(s, ush)) & jnp.all((s >= 0) & (s < S))
        z = jnp.exp(-nell - K * scale)
        return jnp.stack([z * jnp.mean(f[s], -1) for f in fs], -1), ok, jnp.any(jnp.isnan(nell))

    return run


def exact(tab, vs, K, S, fs):
    """E[prod_k p(v_k | u_{k-1}, v_{k-1}) f(u_K)]."""
    a = tab['init'][vs[0]].copy()
    for k in range(1, K + 1):
        a = (a * tab['L'][k - 1, vs[k - 1], :, vs[k]]) @ tab['T'][k - 1, vs[k - 1]]
    return np.array([a @ f for f in fs]), a / a.sum()


def setup(case, cfg):
    N, K, S, V = CFG[cfg]
    tab = fsm.tables(case['model'], S, V, K, case['sharp'], case['zeros'])
    vs = fsm.good_vs(case['model'], tab, K, S, V)
    ts = fsm.times(case['model'], K)
    return tab, {k: jnp.asarray(v, jnp.float32) for k, v in tab.items()}, vs, jnp.asarray(ts, jnp.float32)


def strat(part):
    return st.fixed_dictionaries(dict(static=st.sampled_from(part(STATIC)), sharp=st.sampled_from([0.5, 1.5]),
                                      zeros=st.sampled_from([0., 0., 0.2]), scale=st.sampled_from([0., -120., 60.]),
                                      model=gen.seeds, seed=gen.seeds))


@sub(strat, quick=160, thorough=3000, shards=8)
def unbiased(case):
    cfg, scheme = case['static']
    N, K, S, V = CFG[cfg]
    tab, dtab, vs, ts = setup(case, cfg)
    fs = np.concatenate([np.ones((1, S)), np.eye(S)])
    mu, filt = exact(tab, vs, K, S, fs)
    f = runner(cfg, scheme, True, M)

    def run(stage, m):
        out = []
        for rep in range(max(1, m // M)):
            x, ok, nan = sut(f, jax.random.PRNGKey(case['seed'] + 7919 * stage + 104729 * rep), dtab, vs, ts,
                             case['scale'], jnp.asarray(fs, jnp.float32))
            ensure(bool(ok), 'the filter returned states that were never sampled')
            if case['zeros'] == 0:
                ensure(not bool(nan), 'the likelihood is not a number')
            # every particle dead: estimate zero
            out.append(np.nan_to_num(np.asarray(x, float), nan=0.) / mu[0])
        return np.concatenate(out)

    stats.assert_mean(run, mu / mu[0], M, f'{scheme}, N={N}, K={K}: likelihood estimate times particle averages '
                                          f'(1, state indicators) relative to the evidence', tol=2e-4)
    return dict(nontrivial=N > 1 and filt.max() < 0.98, runs=M, labels=[scheme, f'N={N} K={K}', f'zeros={case["zeros"]}'])


@functools.lru_cache(None)
def agree_runner(cfg, scheme):
    fns = [model_run(cfg, scheme, log, last) for log, last in ((True, True), (True, False), (False, True), (False, False))]

    @jax.jit
    def run(keys, tab, vs, ts, scale):
        return [jax.vmap(f, in_axes=[0, None, None, None, None])(keys, tab, vs, ts, scale) for f in fns]
    return run


@sub(strat, quick=120, thorough=2000, shards=8)
def modes_agree(case):
    cfg, scheme = case['static']
    N, K, S, V = CFG[cfg]
    ush, _ = SHAPES[cfg % 3 == 1]
    tab, dtab, vs, ts = setup(dict(case, zeros=0.), cfg)
    scale = case['scale'] / 60.
    B = 64
    (l1, n1), (h1, m1), (l2, n2), (h2, m2) = [[np.asarray(b) for b in a] for a in sut(
        agree_runner(cfg, scheme), jax.random.split(jax.random.PRNGKey(case['seed']), B), dtab, vs, ts, scale)]
    ensure(l1.shape == (B, N) + ush and h1.shape == (B, K + 1, N) + ush, lambda: f'shapes {l1.shape[1:]} {h1.shape[1:]}')
    ensure(np.array_equal(h1[:, -1], l1), 'the history does not end in the particles of return_last')
    ensure(np.allclose(n1, m1, rtol=1e-5, atol=1e-5), 'the likelihood depends on return_last')
    # densities given without the logarithm: equal up to rounding (a rounded weight may flip a resampling decision)
    same = np.isclose(n1, n2, rtol=1e-4, atol=1e-4)
    ensure(same.mean() > 0.8, lambda: f'log=False gives another likelihood: {n2[~same][0]} instead of {n1[~same][0]}')
    ensure(np.allclose(n2, m2, rtol=1e-5, atol=1e-5) and np.array_equal(h2[:, -1], l2), 'log=False: modes disagree')
    eq = np.array([np.array_equal(a, b) for a, b in zip(l1, l2)])
    ensure(eq.mean() > 0.8, 'log=False gives other particles')
    s = np.rint(h1[(Ellipsis,) + (0,) * len(ush)]).astype(int)
    ensure(fsm.coherent(h1, ush, S), 'incoherent states')
    if N == 1:
        want = sum(np.log(tab['L'][k - 1, vs[k - 1], s[:, k - 1, 0], vs[k]]) for k in range(1, K + 1)) + K * scale
        ensure(np.allclose(-n1, want, atol=2e-4, rtol=1e-4), lambda: 'one particle: the likelihood is not that of its path: '
               f'{-n1[0]:.5f} instead of {want[0]:.5f} for the path {s[0, :, 0].tolist()}')
    if K == 1:
        # the first step weighs the initial particles
        w = tab['L'][0, vs[0], s[:, 0], vs[1]].mean(1)
        ensure(np.allclose(-n1, np.log(w) + scale, atol=2e-4), 'first step: likelihood is not the mean weight of the '
                                                               'initial particles')
    return dict(nontrivial=N > 1, runs=4 * B, labels=[scheme, f'N={N} K={K}'])

"""Cases: random finite-state models with random twisting functions and proposals of full support; horizon, particle number,
resampling scheme. (1) recording: the terminal particles carry the state they were moved from, the returned log weights are
the normalised transition x twisting / (proposal x previous twisting); (2) optimal twisting and proposal, initial law
concentrated on one state: equal weights, and every slot has the exact law, for any number of particles;
(3) consistency: many particles, any twisting: weighted terminal law against the enumerated one. Non-trivial: at least two
particles and a target that differs from the untwisted law."""
import functools
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from hypothesis import strategies as st
from vf.core import sub, sut, ensure
from vf import gen, stats, fsm
from fbs.samplers.smc import twisted_smc
from fbs.samplers import resampling as rs

SCHEMES = {'systematic': rs.systematic, 'stratified': rs.stratified, 'multinomial': rs.multinomial, 'killing': rs.killing}


def model(seed, S, K, optimal, point, sharp=1.):
    """psi has one row per time; the proposal is conditioned on the time."""
    r = np.random.default_rng([seed, S, K])
    T = r.dirichlet(np.ones(S) * 1.5, size=(S,))  # transition_logpdf has no time argument that differs: it gets t
    Tk = np.stack([r.dirichlet(np.ones(S) * 1.5, size=(S,)) for _ in range(K)])  # to time k + 1
    psiK = np.exp(sharp * r.normal(size=S))
    psi = np.exp(sharp * r.normal(size=(K + 1, S)))
    psi[K] = psiK
    prop = np.stack([0.9 * r.dirichlet(np.ones(S), size=(S,)) + 0.1 / S for _ in range(K)])
    init = np.eye(S)[r.integers(S)] if point else r.dirichlet(np.ones(S) * 2)
    if optimal:
        for k in range(K - 1, -1, -1):
            psi[k] = Tk[k] @ psi[k + 1]
        prop = Tk * psi[1:][:, None, :]
        prop = prop / prop.sum(-1, keepdims=True)
    a = init.copy()
    for k in range(K):
        a = a @ Tk[k]
    target = a * psiK
    return dict(Tk=Tk, psi=psi, prop=prop, init=init), target / target.sum(), a


CFG = [(1, 1, 2), (2, 2, 2), (3, 3, 3), (8, 2, 3), (25, 4, 2), (5, 1, 4)]
STATIC = list(itertools.product(range(len(CFG)), sorted(SCHEMES)))


@functools.lru_cache(None)
def runner(N, K, S, scheme, m):
    @jax.jit
    def run(key, tab, ts, yv):
        def ti(t): return jnp.argmin(jnp.abs(ts - t))

        def st_(x): return jnp.round(x[..., 0]).astype(jnp.int32)

        def init_sampler(k, n):
            s = fsm.categorical(k, jnp.broadcast_to(tab['init'], (n, S)))
            return jnp.stack([s * 1., -jnp.ones(n), -jnp.ones(n)], -1)

        def trans(xs, xs_prev, t):
            return jnp.log(tab['Tk'][ti(t) - 1, st_(xs_prev), st_(xs)])

        def twist(y, xs, t, **kw):
            return jnp.log(tab['psi'][ti(t), st_(xs)]) + kw['c'] + 0. * y[0] + jnp.where(y[0] == yv[0], 0., 1e6 * xs[..., 0])

        def prop_s(k, xs_prev, t, y, **kw):
            s = fsm.categorical(k, tab['prop'][ti(t) - 1, st_(xs_prev)])
            return jnp.stack([s * 1., xs_prev[:, 0], jnp.full(s.shape, t) + 0. * kw['c']], -1)

        def prop_l(xs, xs_prev, t, y, **kw):
            return jnp.log(tab['prop'][ti(t) - 1, st_(xs_prev), st_(xs)]) + 0. * kw['c'] + jnp.where(
                y[0] == yv[0], 0., 1e6 * xs[..., 0])

        return jax.vmap(lambda k: twisted_smc(k, yv, ts, init_sampler, trans, twist, prop_s, prop_l, SCHEMES[scheme], N,
                                              c=3.))(jax.random.split(key, m))
    return run


def strat(part):
    return st.fixed_dictionaries(dict(static=st.sampled_from(part(STATIC)), optimal=st.booleans(), point=st.booleans(),
                                      sharp=st.sampled_from([0.5, 1.5]), model=gen.seeds, seed=gen.seeds))


def grid(seed, K):
    return np.round(np.cumsum(np.random.default_rng([seed, 4]).uniform(0.2, 1., size=K + 1)), 3)


M = 20000


@sub(strat, quick=160, thorough=3000, shards=8)
def weights_and_optimal_draws(case):
    cfg, scheme = case['static']
    N, K, S = CFG[cfg]
    tab, target, free = model(case['model'], S, K, case['optimal'], case['point'], case['sharp'])
    ts = grid(case['model'], K)
    f = runner(N, K, S, scheme, M)
    dtab = {k: jnp.asarray(v, jnp.float32) for k, v in tab.items()}

    def go(stage):
        xs, lw = [np.asarray(a, float) for a in sut(f, jax.random.PRNGKey(case['seed'] + 7919 * stage), dtab,
                                                    jnp.asarray(ts, jnp.float32), jnp.array([1.5]))]
        ensure(xs.shape == (M, N, 3) and lw.shape == (M, N), lambda: f'shapes {xs.shape} {lw.shape}')
        s, p = xs[..., 0].astype(int), xs[..., 1].astype(int)
        ensure(np.allclose(xs[..., 2], ts[K], atol=1e-4), 'the terminal particles were not proposed at the last time')
        ref = (np.log(tab['Tk'][K - 1, p, s]) + np.log(tab['psi'][K, s]) - np.log(tab['prop'][K - 1, p, s])
               - np.log(tab['psi'][K - 1, p]))
        ref = ref - np.logaddexp.reduce(ref, 1)[:, None]
        e = np.abs(ref - lw).max()
        ensure(e < 1e-3, lambda: f'log weights differ from the normalised transition x twisting / (proposal x previous '
                                 f'twisting) by {e:.3g}')
        if case['optimal']:
            ensure(np.abs(lw + np.log(N)).max() < 1e-3, 'optimal twisting: the weights are not equal')
        return s

    if case['optimal'] and case['point']:
        for slot in sorted({0, N // 2, N - 1}):
            stats.assert_law(lambda st_, m: sum(np.bincount(go(10 * st_ + i)[:, slot], minlength=S)
                                                for i in range(max(1, m // M))),
                             target, M, f'optimal twisting, N={N}, K={K}, {scheme}: law of particle {slot}', eps=2e-5)
    else:
        go(0)
    return dict(nontrivial=N > 1 and np.abs(target - free).max() > 0.02, runs=M,
                labels=[scheme, f'N={N} K={K}', 'optimal' if case['optimal'] else 'any twisting',
                        'point init' if case['point'] else 'random init'])


BIG = list(itertools.product([(400, 2, 2), (400, 3, 3)], sorted(SCHEMES)))
MB = 1000


@sub(lambda part: st.fixed_dictionaries(dict(static=st.sampled_from(part(BIG)), sharp=st.sampled_from([0.3, 0.8]),
                                             model=gen.seeds, seed=gen.seeds)), quick=80, thorough=1500, shards=8)
def consistent(case):
    (N, K, S), scheme = case['static']
    tab, target, free = model(case['model'], S, K, False, False, case['sharp'])
    f = runner(N, K, S, scheme, MB)
    dtab = {k: jnp.asarray(v, jnp.float32) for k, v in tab.items()}
    ts = grid(case['model'], K)

    def run(stage, m):
        out = []
        for rep in range(max(1, m // MB)):
            xs, lw = [np.asarray(a, float) for a in sut(f, jax.random.PRNGKey(case['seed'] + 7919 * stage + 13 * rep), dtab,
                                                        jnp.asarray(ts, jnp.float32), jnp.array([1.5]))]
            ensure(np.allclose(np.exp(lw).sum(1), 1, atol=1e-3), 'log weights not normalised')
            s = np.rint(xs[..., 0]).astype(int)
            out.append(np.stack([(np.exp(lw) * (s == j)).sum(1) for j in range(S)], 1))
        return np.concatenate(out)

    # the weights are bounded by the chosen spread: the bias of N = 400 is well below the tolerance
    stats.assert_mean(run, target, MB, f'twisted_smc {scheme}, N={N}, K={K}: weighted terminal law', tol=0.02)
    return dict(nontrivial=np.abs(target - free).max() > 0.05, runs=MB, labels=[scheme, f'K={K} S={S}'])

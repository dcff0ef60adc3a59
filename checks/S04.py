"""Cases: Gaussian path laws (given by a random mean and covariance factor, or by a linear SDE of the library and its path
simulator), path length, dimension, step size, with a degenerate (fixed) initial time. From exact draws, the joint mean and
covariance of (path, moved path) of 100k-400k proposals are compared with the exact ones. Non-trivial: step size > 0.01 and
non-zero mean."""
import functools
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from hypothesis import strategies as st
from vf.core import sub, sut, ensure
from vf import gen, stats
from fbs.samplers.smc import pcn_proposal
from fbs.sdes import make_linear_sde, StationaryConstLinearSDE, StationaryLinLinearSDE

DELTAS = [1e-3, 0.05, 0.3, 1., 2., 5., 40.]
SHAPES = [(3, 1), (4, 2), (2, 3)]
M = 50000


@functools.lru_cache(None)
def runner(delta, shp):
    d = int(np.prod(shp))

    @jax.jit
    def run(key, mean, L):
        def sampler(k):
            return (mean.reshape(-1) + L @ jax.random.normal(k, (d,))).reshape(shp)

        def one(k):
            k1, k2 = jax.random.split(k)
            x = sampler(k1)
            return x.reshape(-1), sut(pcn_proposal, k2, delta, x, mean, sampler).reshape(-1)
        return jax.vmap(one)(jax.random.split(key, M))
    return run


@sub(lambda part: st.fixed_dictionaries(dict(static=st.sampled_from(part(list(itertools.product(DELTAS, range(3))))),
                                             degenerate=st.booleans(), scale=st.sampled_from([0.5, 3.]), model=gen.seeds,
                                             seed=gen.seeds)), quick=160, thorough=3000, shards=7)
def pair_law(case):
    delta, si = case['static']
    shp = SHAPES[si]
    d = int(np.prod(shp))
    r = np.random.default_rng(case['model'])
    mean = case['scale'] * r.normal(size=shp)
    L = np.tril(r.normal(size=(d, d)))
    if case['degenerate']:
        L[:shp[1]] = 0.
    C = L @ L.T
    if case['degenerate']:
        C[:shp[1]] = 0
    rho = 2 / (2 + delta)
    full = np.block([[C, rho * C], [rho * C, C]])
    mm = np.tile(mean.ravel(), 2)
    f = runner(delta, shp)

    def run(stage, m):
        out = []
        for rep in range(max(1, m // M)):
            x, y = sut(f, jax.random.PRNGKey(case['seed'] + 7919 * stage + 104729 * rep), jnp.asarray(mean, jnp.float32),
                       jnp.asarray(L, jnp.float32))
            x, y = np.asarray(x, float), np.asarray(y, float)
            if case['degenerate']:
                e = np.abs(y[:, :shp[1]] - mean.ravel()[:shp[1]]).max()
                ensure(e < 1e-4 * (1 + np.abs(mean).max()), lambda: f'the fixed initial value is moved by {e:.2g}')
            out.append(np.concatenate([x, y], 1))
        return np.concatenate(out)

    stats.gauss_moments_test(run, mm, full, M, f'pcn_proposal, delta={delta}: joint law of the path and the moved path',
                             tol=2e-5)
    return dict(nontrivial=delta > 0.01, runs=M, labels=[f'delta={delta}', f'shape={shp}', f'degenerate={case["degenerate"]}'])


SDES = ['const', 'lin']


@functools.lru_cache(None)
def sde_runner(kind, delta, K):
    @jax.jit
    def run(key, y0, ts, par):
        sde = StationaryConstLinearSDE(a=par[0], b=par[1]) if kind == 'const' else StationaryLinLinearSDE(
            beta_min=par[0], beta_max=par[1], t0=0., T=2.)
        simulate = make_linear_sde(sde)[-1]
        mean = jax.vmap(sde.mean, in_axes=[0, None, None])(ts, ts[0], y0)

        def sampler(k):
            return simulate(k, y0, ts)

        def one(k):
            k1, k2 = jax.random.split(k)
            x = sampler(k1)
            return x.reshape(-1), pcn_proposal(k2, delta, x, mean, sampler).reshape(-1)
        return jax.vmap(one)(jax.random.split(key, M))
    return run


@sub(lambda part: st.fixed_dictionaries(dict(static=st.sampled_from(part(list(itertools.product(SDES, [0.1, 2.])))),
                                             seed=gen.seeds)), quick=24, thorough=400, shards=4)
def with_the_path_sampler_of_the_library(case):
    kind, delta = case['static']
    K = 3
    r = np.random.default_rng(case['seed'])
    ts = np.concatenate([[0.], np.sort(r.uniform(0.1, 2., size=K))])
    y0 = r.normal(size=2) * 2
    par = (-r.uniform(0.3, 1.), r.uniform(0.5, 1.5)) if kind == 'const' else (r.uniform(0.02, 0.5), r.uniform(1., 4.))

    def F(t, s):
        if kind == 'const':
            return np.exp(par[0] * (t - s))
        return np.exp(-0.5 * (par[0] * (t - s) + 0.5 * (par[1] - par[0]) / 2. * (t ** 2 - s ** 2)))

    stat = par[1] ** 2 / (2 * abs(par[0])) if kind == 'const' else 1.
    n = K + 1
    C1 = np.array([[stat * (1 - F(min(ts[i], ts[j]), 0) ** 2) * F(max(ts[i], ts[j]), min(ts[i], ts[j]))
                    for j in range(n)] for i in range(n)])
    C = np.kron(C1, np.eye(2))
    rho = 2 / (2 + delta)
    mm = np.tile(np.concatenate([F(t, 0) * y0 for t in ts]), 2)
    f = sde_runner(kind, delta, K)

    def run(stage, m):
        out = []
        for rep in range(max(1, m // M)):
            x, y = sut(f, jax.random.PRNGKey(case['seed'] + 7919 * stage + 104729 * rep), jnp.asarray(y0, jnp.float32),
                       jnp.asarray(ts, jnp.float32), jnp.asarray(par, jnp.float32))
            out.append(np.concatenate([x, y], 1).astype(float))
        return np.concatenate(out)

    stats.gauss_moments_test(run, mm, np.block([[C, rho * C], [rho * C, C]]), M,
                             f'pcn_proposal with {kind} SDE paths, delta={delta}', tol=1e-4)
    return dict(nontrivial=True, runs=M, labels=[kind, f'delta={delta}'])

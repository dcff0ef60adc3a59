"""Cases: SDE family and parameters, irregular time grids (also not starting at 0), initial states of several shapes. All means,
variances and cross-covariances (times x components) of 40k-160k simulated paths against the exact Gaussian law from
quadrature, and a Kolmogorov-Smirnov test of the whitened paths. Non-trivial: at least two steps."""
import functools
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from hypothesis import strategies as st
from vf.core import sub, sut, ensure
from vf import gen, stats, sdes
from fbs.sdes import make_linear_sde, make_ou_sde

SHAPES = [(), (2,), (2, 1), (1, 1, 2)]
M = 30000
STATIC = list(itertools.product(sdes.KINDS + ['ou'], [1, 3, 5], range(len(SHAPES))))


@functools.lru_cache(None)
def runner(kind, mode, jit=True):
    def run(key, v, x0, ts, t0):
        if kind == 'ou':
            sim = make_ou_sde(v[0], v[1])[2]
            f = lambda k: sim(k, x0, ts, keep_path=mode == 'path')
        else:
            sim = make_linear_sde(sdes.build(kind, v))[2]
            f = {'path': lambda k: sim(k, x0, ts), 'marginal_default': lambda k: sim(k, x0, ts, keep_path=False),
                 'marginal': lambda k: sim(k, x0, ts, t0=t0, keep_path=False),
                 'scalar': lambda k: jax.vmap(lambda kk, t: sim(kk, x0, t, t0=t0, keep_path=False))(
                     jax.random.split(k, ts.shape[0]), ts)}[mode]
        return jax.vmap(f)(jax.random.split(key, M))
    return jax.jit(run)


def grid(case, p, K):
    lo, hi = sdes.domain(p)
    r = np.random.default_rng([case['seed'], K])
    if p['kind'] == 'ou':
        lo = 0.
    inc = r.uniform(0.1, 1., size=K + 1) * (r.uniform(size=K + 1) < 0.7) + 0.02
    c = np.cumsum(inc)
    ts = lo + (hi - lo) * c / c[-1] * case['span']
    if case['from_zero']:
        ts = ts - ts[0] + lo
    return ts


def strat(part):
    def build(s):
        kind = 'const' if s[0] == 'ou' else s[0]
        return st.fixed_dictionaries(dict(static=st.just(list(s)), p=sdes.params(kind), from_zero=st.booleans(),
                                          span=gen.fl(0.2, 1.), scale=st.sampled_from([0., 1., 4.]), seed=gen.seeds))
    return st.sampled_from(part(STATIC)).flatmap(build)


def x_init(case, shp):
    return case['scale'] * np.random.default_rng([case['seed'], 8]).normal(size=shp)


@sub(strat, quick=110, thorough=2500, shards=8)
def path_law(case):
    kind, K, si = case['static']
    p = case['p']
    shp = (2,) if kind == 'ou' else SHAPES[si]
    ts, x0 = grid(case, p, K), x_init(case, shp)
    ts = np.asarray(ts.astype(np.float32), float)
    mean, cov, _ = sdes.path_law(p, x0, ts)
    f = runner(kind, 'path')
    x032 = np.asarray(x0, np.float32)
    last = {}

    def run(stage, m):
        out = []
        for rep in range(max(1, m // M)):
            x = np.asarray(sut(f, jax.random.PRNGKey(case['seed'] + 7919 * stage + 104729 * rep), sdes.vec(p).astype(np.float32),
                               jnp.asarray(x032), jnp.asarray(ts, jnp.float32), 0.))
            ensure(x.shape == (M, K + 1) + shp, lambda: f'{kind}: path of shape {x.shape[1:]}, expected {(K + 1,) + shp}')
            ensure(np.all(x[:, 0] == x032), lambda: f'{kind}: the path does not start at the given state')
            out.append(x.reshape(M, -1))
        return np.concatenate(out)

    what = f'simulate_cond_forward, {kind} SDE, {K} steps, shape {shp}'
    stats.gauss_moments_test(run, mean.ravel(), cov, M, what, tol=1e-4)
    stats.normality_test(run, mean.ravel(), cov, M, what)
    return dict(nontrivial=K > 1, runs=M, labels=[kind, f'K={K}', f'shape={shp}'])


@sub(strat, quick=80, thorough=2000, shards=8)
def marginal_law(case):
    kind, K, si = case['static']
    p = case['p']
    shp = (2,) if kind == 'ou' else SHAPES[si]
    ts, x0 = grid(dict(case, from_zero=False), p, K), x_init(case, shp)
    ts = np.asarray(ts.astype(np.float32), float)
    lo = 0. if kind == 'ou' else sdes.domain(p)[0]
    mode = ['marginal_default', 'marginal', 'scalar'][(K + si) % 3] if kind != 'ou' else 'marginal'
    if mode == 'marginal_default':
        t0 = ts[0]
    else:
        t0 = float(np.float32(lo + 0.3 * (ts[0] - lo))) if kind != 'ou' else 0.
    FQ = [sdes.FQ(p, t, t0) for t in ts]
    d = int(np.prod(shp, dtype=int))
    mean = np.stack([F * np.ravel(x0) for F, _ in FQ])
    cov = np.kron(np.diag([Q for _, Q in FQ]), np.eye(d))
    f = runner(kind, mode)

    def run(stage, m):
        out = []
        for rep in range(max(1, m // M)):
            x = np.asarray(sut(f, jax.random.PRNGKey(case['seed'] + 7919 * stage + 104729 * rep), sdes.vec(p).astype(np.float32),
                               jnp.asarray(x0, jnp.float32), jnp.asarray(ts, jnp.float32), t0))
            ensure(x.shape == (M, K + 1) + shp, lambda: f'{kind}: marginal samples of shape {x.shape[1:]}')
            out.append(x.reshape(M, -1))
        return np.concatenate(out)

    what = f'simulate_cond_forward(keep_path=False) [{mode}], {kind} SDE, shape {shp}'
    stats.gauss_moments_test(run, mean.ravel(), cov, M, what, tol=1e-4)
    stats.normality_test(run, mean.ravel(), cov, M, what)
    return dict(nontrivial=True, runs=M, labels=[kind, mode, f'shape={shp}'])

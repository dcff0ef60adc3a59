"""Cases: SDE family (constant, linear-beta) and parameters, grids, number of sub-steps (1..100), end points and shapes, replace
flag. The bridge drift is affine, so the law of the Euler bridge is exactly Gaussian for every number of sub-steps: means and
cross-covariances of 20k-80k paths against it; that law itself is compared with the exact bridge law (the gap shrinks with
the number of sub-steps). Non-trivial: at least two intervals."""
import functools
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from hypothesis import strategies as st
from vf.core import sub, sut, ensure
from vf import gen, stats, sdes
from fbs.sdes.simulators import doob_bridge_simulator
from fbs.samplers.gibbs import bridge_sampler
from vf.sdes import affine_law

SHAPES = [(), (2,), (2, 1)]
M = 20000
STATIC = list(itertools.product(['const', 'lin'], [1, 2, 4], [1, 7, 40, 'bridge_sampler'], [False, True]))


@functools.lru_cache(None)
def runner(kind, n, replace):
    def run(key, v, x0, xT, ts):
        sde = sdes.build(kind, v)
        if n == 'bridge_sampler':
            f = lambda k: bridge_sampler(k, x0, xT, ts, sde)
        else:
            f = lambda k: doob_bridge_simulator(k, sde, x0, xT, ts, integration_nsteps=n, replace=replace)
        return jax.vmap(f)(jax.random.split(key, M))
    return jax.jit(run)


def exact_bridge(p, x0, xT, ts):
    """Mean (K+1, d) and covariance (K+1, K+1) of the SDE given both ends."""
    _, _, C = sdes.path_law(p, [0.], ts)
    K = len(ts) - 1
    F = np.array([sdes.FQ(p, t, ts[0])[0] for t in ts])
    G = C[:, -1] / C[-1, -1]
    m = F[:, None] * x0 + G[:, None] * (xT - F[-1] * x0)
    return m, C - np.outer(G, C[-1])


@sub(lambda part: st.sampled_from(part(STATIC)).flatmap(lambda s: st.fixed_dictionaries(dict(
    static=st.just(list(s)), p=sdes.params(s[0]), shape=st.integers(0, 2), span=gen.fl(0.3, 1.),
    scale=st.sampled_from([0., 1., 3.]), seed=gen.seeds))), quick=80, thorough=1600, shards=8)
def bridge_law(case):
    kind, K, n, replace = case['static']
    p, shp = case['p'], SHAPES[case['shape']]
    r = np.random.default_rng(case['seed'])
    lo, hi = sdes.domain(p)
    c = np.cumsum(r.uniform(0.2, 1., size=K))
    t0 = lo + (hi - lo) * (1 - case['span']) * r.uniform()
    ts = np.concatenate([[t0], t0 + (hi - lo) * case['span'] * c / c[-1]]).astype(np.float32).astype(float)
    ts[-1] = min(ts[-1], hi)
    x0, xT = [np.asarray(case['scale'] * r.normal(size=shp), np.float32) for _ in range(2)]
    nn = 100 if n == 'bridge_sampler' else n
    rep_ = replace or n == 'bridge_sampler'
    a, b2 = sdes.coeffs(p)
    T = ts[-1]

    @functools.lru_cache(None)
    def FQ(t):
        return sdes.FQ(p, T, t)

    A = lambda t: a(t) - b2(t) * FQ(t)[0] ** 2 / FQ(t)[1]
    m, C = None, None
    d = int(np.prod(shp, dtype=int))
    cols = []
    for x, y in zip(np.ravel(x0), np.ravel(xT)):
        mm, C = affine_law(x, ts, nn, A, lambda t: b2(t) * FQ(t)[0] / FQ(t)[1] * float(y), lambda t: np.sqrt(b2(t)))
        cols.append(mm)
    mean = np.stack(cols, 1)  # (K+1, d)
    em, eC = exact_bridge(p, np.ravel(x0).astype(float), np.ravel(xT).astype(float), ts)
    gap = max(np.abs(mean[:-1] - em[:-1]).max() / (1 + np.abs(em).max()),
              (np.abs(C - eC)[:-1, :-1] / (1e-3 + np.sqrt(np.outer(np.diag(eC), np.diag(eC))[:-1, :-1]))).max()) if K > 1 else 0.
    if rep_:
        mean[-1] = np.ravel(xT)
        C = C.copy()
        C[-1, :] = C[:, -1] = 0.
    f = runner(kind, n, replace if n != 'bridge_sampler' else True)
    keep = K + 1

    def run(stage, mm):
        out = []
        for rep in range(max(1, mm // M)):
            x = np.asarray(sut(f, jax.random.PRNGKey(case['seed'] + 7919 * stage + 104729 * rep), sdes.vec(p).astype(np.float32),
                               x0, xT, jnp.asarray(ts, jnp.float32)))
            ensure(x.shape == (M, K + 1) + shp, lambda: f'bridge of shape {x.shape[1:]}')
            ensure(np.all(x[:, 0] == x0), 'the bridge does not start at its initial value')
            if rep_:
                ensure(np.all(x[:, -1] == xT), 'the bridge does not end exactly in its terminal value')
            out.append(x.reshape(M, -1))
        return np.concatenate(out)

    stats.gauss_moments_test(run, mean.ravel(), np.kron(C, np.eye(d)), M, f'doob_bridge_simulator, {kind}, K={K}, {n} sub-steps',
                             tol=3e-3)
    return dict(nontrivial=K > 1, runs=M, labels=[kind, f'K={K}', f'sub-steps={n}', f'replace={rep_}',
                                                  'gap to the exact bridge < 0.1' if gap < 0.1 else 'coarse'],
                detail=dict(gap_to_exact_bridge=float(f'{gap:.3g}')))


@sub(lambda part: st.sampled_from(part(['const', 'lin'])).flatmap(lambda k: st.fixed_dictionaries(dict(
    p=sdes.params(k), scale=st.sampled_from([0., 2.]), seed=gen.seeds))), quick=24, thorough=300, shards=4)
def converges_to_the_exact_bridge(case):
    """bridge_sampler (100 sub-steps) directly against the exact bridge law on a three-interval grid."""
    p = case['p']
    r = np.random.default_rng(case['seed'])
    lo, hi = sdes.domain(p)
    ts = np.linspace(lo, hi, 5).astype(np.float32).astype(float)
    x0, xT = [np.asarray(case['scale'] * r.normal(size=(2,)), np.float32) for _ in range(2)]
    em, eC = exact_bridge(p, x0.astype(float), xT.astype(float), ts)
    f = runner(p['kind'], 'bridge_sampler', True)

    def run(stage, m):
        return np.concatenate([np.asarray(sut(f, jax.random.PRNGKey(case['seed'] + 7919 * stage + 104729 * rep),
                                              sdes.vec(p).astype(np.float32), x0, xT, jnp.asarray(ts, jnp.float32))).reshape(M, -1)
                               for rep in range(max(1, m // M))])

    stats.gauss_moments_test(run, em.ravel(), np.kron(eC, np.eye(2)), M, f'bridge_sampler, {p["kind"]}: exact bridge law', tol=0.06)
    return dict(runs=M, labels=[p['kind']])

"""Cases: increasing or decreasing irregular grids, number of sub-steps, state shapes, time-dependent drifts and dispersions.
Zero dispersion: the path equals the documented recursion (numpy). Linear drift: the recursion is Gaussian; mean and all
cross-covariances of 30k-120k paths against the recursion's exact law. Both for the plain, the reverse-time and the
discrete-time simulator. Non-trivial: at least two steps or two sub-steps."""
import functools
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from hypothesis import strategies as st
from vf.core import sub, sut, ensure, fail
from vf import gen, stats
from vf.sdes import sub_grid, affine_law
from fbs.sdes import euler_maruyama, reverse_simulator, discrete_time_simulator

SHAPES = [(), (2,), (2, 1), (1, 2, 2)]
NS = [1, 2, 5]
STATIC = list(itertools.product(range(len(SHAPES)), [1, 3, 4], NS, [False, True]))


def grid(seed, K, dec, zero):
    r = np.random.default_rng([seed, K, 1])
    c = np.cumsum(r.choice([0.05, 0.2, 0.5], size=K + 1) * r.uniform(0.5, 1., size=K + 1))
    ts = c - c[0] + (0. if zero else r.uniform(-1, 1))
    return (ts[::-1] if dec else ts).copy()


def pars(seed):
    r = np.random.default_rng([seed, 2])
    return dict(a=r.normal() * 0.7, w=r.uniform(0.5, 3.), c=r.normal(), g=r.uniform(0.3, 1.5), h=r.uniform(-0.8, 0.8),
                s=r.uniform(0.2, 1.5))


def drift_np(x, t, q):
    """Non-linear, time-dependent, acting componentwise; the same formula for numpy and jax."""
    m = np if isinstance(x, np.ndarray) else jnp
    return q['a'] * x * (1 + 0.5 * m.sin(q['w'] * t)) + q['c'] * m.cos(t) + 0.3 * m.sin(x)


def lin_drift(x, t, q, m=jnp):
    return q['a'] * x * (1 + 0.5 * m.sin(q['w'] * t)) + q['c'] * m.cos(t)


def disp(t, q, m=jnp):
    return q['g'] * (1 + q['h'] * m.sin(q['w'] * t))


@functools.lru_cache(None)
def det_runner(n, path):
    def run(key, x0, ts, q):
        return euler_maruyama(key, x0, ts, lambda x, t: drift_np(x, t, q), lambda t: 0. * t, integration_nsteps=n,
                              return_path=path)
    return jax.jit(run)


def strat(part):
    return st.fixed_dictionaries(dict(static=st.sampled_from(part(STATIC)), dec=st.booleans(), zero=st.booleans(),
                                      scale=st.sampled_from([0., 1., 3.]), seed=gen.seeds))


@sub(strat, quick=300, thorough=6000, shards=6, x64=True)
def deterministic_recursion(case):
    si, K, n, path = case['static']
    ts, q = grid(case['seed'], K, case['dec'], case['zero']), pars(case['seed'])
    x0 = case['scale'] * np.random.default_rng([case['seed'], 3]).normal(size=SHAPES[si])
    got = np.asarray(sut(det_runner(n, path), jax.random.PRNGKey(case['seed']), x0, ts, q))
    x, want = np.asarray(x0), [np.asarray(x0)]
    for i, (t, dt) in enumerate(sub_grid(ts, n)):
        x = x + np.asarray(drift_np(np.asarray(x), t, q)) * dt
        if (i + 1) % n == 0:
            want.append(x)
    want = np.stack(want) if path else want[-1]
    ensure(got.shape == want.shape, lambda: f'shape {got.shape}, expected {want.shape}')
    e = np.abs(got - want).max()
    ensure(e < 1e-8 * (1 + np.abs(want).max()), lambda: f'euler_maruyama (K={K}, {n} sub-steps, grid {ts.round(3).tolist()}): '
                                                        f'error {e:.3g} against the recursion')
    return dict(nontrivial=K * n > 1, labels=['decreasing' if case['dec'] else 'increasing', f'sub-steps={n}', f'path={path}',
                                              f'shape={SHAPES[si]}'])


M = 30000


@functools.lru_cache(None)
def law_runner(n, path, both):
    def run(key, x0, ts, q):
        def f(k, p):
            return euler_maruyama(k, x0, ts, lambda x, t: lin_drift(x, t, q), lambda t: disp(t, q), integration_nsteps=n,
                                  return_path=p)
        return jax.vmap(lambda k: (f(k, True), f(k, False)))(jax.random.split(key, M))
    return jax.jit(run)


def coef(q):
    return (lambda t: q['a'] * (1 + 0.5 * np.sin(q['w'] * t))), (lambda t: q['c'] * np.cos(t)), (lambda t: disp(t, q, np))


@sub(strat, quick=72, thorough=2000, shards=6)
def law_of_the_recursion(case):
    si, K, n, _ = case['static']
    shp = SHAPES[si]
    ts, q = grid(case['seed'], K, case['dec'], case['zero']).astype(np.float32).astype(float), pars(case['seed'])
    x0 = np.asarray(case['scale'] * np.random.default_rng([case['seed'], 3]).normal(size=shp), np.float32)
    mean, C = affine_law(x0, ts, n, *coef(q))
    d = int(np.prod(shp, dtype=int))
    f = law_runner(n, True, True)

    def run(stage, m):
        out = []
        for rep in range(max(1, m // M)):
            x, last = [np.asarray(v) for v in sut(f, jax.random.PRNGKey(case['seed'] + 7919 * stage + 104729 * rep), x0,
                                                  jnp.asarray(ts, jnp.float32), q)]
            ensure(x.shape == (M, K + 1) + shp and last.shape == (M,) + shp, lambda: f'shapes {x.shape[1:]} {last.shape[1:]}')
            ensure(np.all(x[:, 0] == x0), 'the path does not start at x0')
            ensure(np.allclose(x[:, -1], last, rtol=1e-5, atol=1e-5), 'the end point and the path disagree at the same key')
            out.append(x.reshape(M, -1))
        return np.concatenate(out)

    what = f'euler_maruyama, K={K}, {n} sub-steps, {"decreasing" if case["dec"] else "increasing"} grid, shape {shp}'
    stats.gauss_moments_test(run, mean.reshape(K + 1, -1).ravel(), np.kron(C, np.eye(d)), M, what, tol=1e-4)
    stats.normality_test(run, mean.reshape(K + 1, -1).ravel(), np.kron(C, np.eye(d)), M, what)
    return dict(nontrivial=K * n > 1, runs=2 * M, labels=['decreasing' if case['dec'] else 'increasing', f'sub-steps={n}',
                                                          f'K={K}', f'shape={shp}'])


@functools.lru_cache(None)
def rev_runner(n, m):
    def run(key, u0, ts, q, eps):
        """eps scales the dispersion; the score is scaled back, so that the drift stays the same."""
        def one(k):
            return reverse_simulator(k, u0, ts, lambda x, t: -(q['s'] * x + 0.4 * jnp.sin(2 * t)) / eps ** 2,
                                     lambda x, t: lin_drift(x, t, q), lambda t: eps * disp(t, q), integration_nsteps=n)
        return jax.vmap(one)(jax.random.split(key, m))
    return jax.jit(run)


@sub(strat, quick=72, thorough=2000, shards=6)
def reverse_time(case):
    si, K, n, _ = case['static']
    shp = SHAPES[si]
    ts, q = grid(case['seed'], K, False, True).astype(np.float32).astype(float), pars(case['seed'])
    u0 = np.asarray(case['scale'] * np.random.default_rng([case['seed'], 3]).normal(size=shp), np.float32)
    T = ts[-1]
    a, b, g = coef(q)
    A = lambda t: -a(T - t) - g(T - t) ** 2 * q['s']
    B = lambda t: -b(T - t) - g(T - t) ** 2 * 0.4 * np.sin(2 * (T - t))
    mean, C = affine_law(u0, ts, n, A, B, lambda t: g(T - t))
    d = int(np.prod(shp, dtype=int))
    tsf = jnp.asarray(ts, jnp.float32)
    # noise scaled down: the drift alone
    x = np.asarray(sut(rev_runner(n, 4), jax.random.PRNGKey(case['seed']), u0, tsf, q, 1e-5), float)
    ensure(x.shape == (4,) + shp, lambda: f'shape {x.shape}')
    e = np.abs(x - mean[-1]).max()
    ensure(e < 2e-3 * (1 + np.abs(mean[-1]).max()), lambda: f'reverse_simulator, vanishing noise: {x.ravel()[0]:.5f} instead of '
                                                           f'{np.ravel(mean[-1])[0]:.5f} ({n} sub-steps)')

    def run(stage, m):
        return np.concatenate([np.asarray(sut(rev_runner(n, M), jax.random.PRNGKey(
            case['seed'] + 7919 * stage + 104729 * rep), u0, tsf, q, 1.)).reshape(M, -1) for rep in range(max(1, m // M))])

    stats.gauss_moments_test(run, np.ravel(mean[-1]), C[-1, -1] * np.eye(d), M,
                             f'reverse_simulator, K={K}, {n} sub-steps: terminal law', tol=1e-4)
    try:
        reverse_simulator(jax.random.PRNGKey(0), jnp.zeros(1), jnp.array([0., 1.]), lambda x, t: x, lambda x, t: x, lambda t: 1.,
                          integrator='no such integrator')
    except NotImplementedError:
        pass
    else:
        fail('an unknown integrator is accepted')
    return dict(nontrivial=K * n > 1, runs=M, labels=[f'sub-steps={n}', f'K={K}', f'shape={shp}'])


@functools.lru_cache(None)
def disc_runner(m, noise):
    def run(key, x0, ts, q):
        def fn(x, t_next, t):
            return x * jnp.exp(q['a'] * (t_next - t)) * (1 + 0.2 * jnp.sin(t)) + q['c'] * jnp.cos(2 * t_next)

        def qn(t_next, t):
            return noise * (q['g'] * jnp.sqrt(jnp.abs(t_next - t)) * (1 + q['h'] * jnp.sin(t_next)) + 0.2 * jnp.cos(t) ** 2)
        return jax.vmap(lambda k: discrete_time_simulator(k, x0, ts, fn, qn))(jax.random.split(key, m))
    return jax.jit(run)


@sub(strat, quick=60, thorough=1500, shards=4)
def discrete_time(case):
    si, K, _, _ = case['static']
    shp = SHAPES[si]
    ts, q = grid(case['seed'], K, case['dec'], case['zero']).astype(np.float32).astype(float), pars(case['seed'])
    x0 = np.asarray(case['scale'] * np.random.default_rng([case['seed'], 3]).normal(size=shp), np.float32)
    x, V = np.asarray(x0, float), 0.
    for t, u in zip(ts[:-1], ts[1:]):
        F = np.exp(q['a'] * (u - t)) * (1 + 0.2 * np.sin(t))
        x = x * F + q['c'] * np.cos(2 * u)
        s = q['g'] * np.sqrt(abs(u - t)) * (1 + q['h'] * np.sin(u)) + 0.2 * np.cos(t) ** 2
        V = F ** 2 * V + s ** 2
    tsf = jnp.asarray(ts, jnp.float32)
    got = np.asarray(sut(disc_runner(2, 0.), jax.random.PRNGKey(case['seed']), x0, tsf, q), float)
    ensure(got.shape == (2,) + shp, lambda: f'shape {got.shape}')
    ensure(np.abs(got - x).max() < 1e-4 * (1 + np.abs(x).max()), lambda: f'discrete_time_simulator without noise: '
           f'{got.ravel()[0]:.6f} instead of {np.ravel(x)[0]:.6f}')
    d = int(np.prod(shp, dtype=int))

    def run(stage, m):
        return np.concatenate([np.asarray(sut(disc_runner(M, 1.), jax.random.PRNGKey(
            case['seed'] + 7919 * stage + 104729 * rep), x0, tsf, q)).reshape(M, -1) for rep in range(max(1, m // M))])

    stats.gauss_moments_test(run, np.ravel(x), V * np.eye(d), M, f'discrete_time_simulator, K={K}: terminal law', tol=1e-4)
    return dict(nontrivial=K > 1, runs=M, labels=[f'K={K}', f'shape={shp}'])

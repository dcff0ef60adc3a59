"""Cases: psi, xi, prior mean and covariance (the documented ones, other diagonal ones, full ones), states, observations, meshes (square
and not, uniform and not). Double precision. Oracle: scipy log densities of the documented model, central differences, and the
normalised joint density computed on the host; samples by exact moments and Kolmogorov-Smirnov tests.
Non-trivial: always (two-dimensional model)."""
import math
import numpy as np
import jax
import jax.numpy as jnp
from scipy.stats import norm, multivariate_normal
from hypothesis import strategies as st
from vf.core import sub, sut, ensure
from vf import gen, stats
from fbs.data import Crescent

PRIORS = ['documented', 'diagonal', 'full']


def params():
    return dict(psi=st.one_of(gen.fl(0.2, 3.), gen.fl(-3., -0.2)), xi=gen.logfl(0.05, 4.), prior=st.sampled_from(PRIORS),
                pr=st.tuples(gen.fl(-2., 2.), gen.fl(-2., 2.), gen.logfl(0.2, 4.), gen.logfl(0.2, 4.), gen.fl(-0.9, 0.9)))


def build(case):
    ds = sut(Crescent, 10, case['psi'], case['xi'])
    m, C = np.zeros(2), np.diag([2., 1.])
    if case['prior'] != 'documented':
        a, b, v, w, rho = case['pr']
        rho = 0. if case['prior'] == 'diagonal' else rho
        m, C = np.array([a, b]), np.array([[v, rho * math.sqrt(v * w)], [rho * math.sqrt(v * w), w]])
        ds.m, ds.cov, ds.cov_is_diag = jnp.asarray(m), jnp.asarray(C), case['prior'] == 'diagonal'
    else:
        ensure(np.allclose(np.asarray(ds.m), m) and np.allclose(np.asarray(ds.cov), C), 'documented prior parameters')
    return ds, m, C


def mu(phi, psi):
    return phi[..., 1] / psi + 0.5 * (phi[..., 0] ** 2 + psi ** 2)


def lp(phi, m, C):
    return multivariate_normal.logpdf(phi, m, C)


def lc(y, phi, case):
    return norm.logpdf(y, mu(phi, case['psi']), math.sqrt(case['xi']))


@sub(lambda: st.fixed_dictionaries(dict(**params(), s=gen.logfl(0.1, 5.), seed=gen.seeds)), quick=160, thorough=4000, shards=4, x64=True)
def densities(case):
    ds, m, C = build(case)
    r = np.random.default_rng(case['seed'])
    for _ in range(3):
        phi, y = m + case['s'] * r.normal(size=2), r.normal() * 3 + 1
        v = float(sut(ds.log_prior_pdf, jnp.asarray(phi)))
        ex = lp(phi, m, C)
        ensure(abs(v - ex) < 1e-8 * (1 + abs(ex)), f'log prior {v}, density of the prior {ex} at {phi.tolist()}')
        v = float(sut(ds.log_cond_pdf_likelihood, y, jnp.asarray(phi)))
        ex = lc(y, phi, case)
        ensure(abs(v - ex) < 1e-8 * (1 + abs(ex)), f'log likelihood {v}, density of the observation {ex} at {phi.tolist()}, y={y}')
        xy = np.r_[phi, y]
        g = np.asarray(sut(ds.score, jnp.asarray(xy)))
        ensure(g.shape == (3,), lambda: f'score of shape {g.shape}')
        e = y - mu(phi, case['psi'])
        ge = np.r_[-np.linalg.solve(C, phi - m) + e / case['xi'] * np.array([phi[0], 1. / case['psi']]), -e / case['xi']]
        ensure(np.all(np.abs(g - ge) < 1e-7 * (1 + np.abs(ge).max())), lambda: f'score {g.tolist()}, gradient of the joint log density {ge.tolist()}')
        a, b = ds.unpack(jnp.asarray(xy))
        ensure(np.array_equal(np.asarray(a), phi) and float(b) == y, 'unpack')
    em = float(sut(ds.emission, jnp.asarray(phi), case['psi']))
    ensure(abs(em - mu(phi, case['psi'])) < 1e-9 * (1 + abs(em)), 'emission')
    return dict(nontrivial=True, labels=[case['prior']], runs=10)


@sub(lambda: st.fixed_dictionaries(dict(**params(), nx=st.sampled_from([2, 17, 30, 41]), ny=st.sampled_from([2, 17, 30, 41]),
                                        kx=st.sampled_from(['uniform', 'irregular']), ky=st.sampled_from(['uniform', 'irregular']),
                                        wx=gen.fl(0.5, 4.), wy=gen.fl(0.5, 4.), seed=gen.seeds)), quick=60, thorough=1500, shards=4, x64=True)
def posterior_grid(case):
    ds, m, C = build(case)
    r = np.random.default_rng(case['seed'])

    def axis(n, kind, c, w):
        return np.linspace(c - w, c + w, n) if kind == 'uniform' else np.sort(r.uniform(c - w, c + w, size=n))

    gx, gy = axis(case['nx'], case['kx'], m[0], case['wx']), axis(case['ny'], case['ky'], m[1], case['wy'])
    phi0 = m + np.sqrt(np.diag(C)) * r.normal(size=2) * 0.5
    y = mu(phi0, case['psi']) + math.sqrt(case['xi']) * r.normal()
    mesh = np.dstack(np.meshgrid(gx, gy))
    post = np.asarray(sut(ds.posterior, jnp.asarray(mesh), y))
    lj = lp(mesh.reshape(-1, 2), m, C).reshape(mesh.shape[:2]) + lc(y, mesh, case)
    if lj.max() < -500:
        return dict(nontrivial=False, labels=['underflow'])
    d = np.exp(lj)
    d = d / np.trapezoid(np.trapezoid(d, gx, axis=1), gy) if hasattr(np, 'trapezoid') else d / np.trapz(np.trapz(d, gx, axis=1), gy)
    ensure(post.shape == d.shape, lambda: f'posterior of shape {post.shape} on a mesh of shape {d.shape}')
    ensure(np.all(np.abs(post - d) <= 1e-7 * (d.max() + d)), lambda: f'posterior on the mesh is not the normalised joint density: ratio {np.nanmedian(post / d)}')
    return dict(nontrivial=True, labels=[case['prior'], 'square' if case['nx'] == case['ny'] else 'non-square', case['kx'], case['ky']])


@sub(lambda: st.fixed_dictionaries(dict(**params(), seed=gen.seeds)), quick=40, thorough=1000, shards=4, x64=True)
def samples(case):
    """Samples (phi, y): phi has the prior law and the standardised residual of y is standard normal, independent of phi."""
    ds, m, C = build(case)
    store = {}

    def run(stage, n):
        if stage not in store:
            xs, ys = sut(ds.sampler, jax.random.PRNGKey((case['seed'] + 7919 * stage) % 2 ** 31), n)
            xs, ys = np.asarray(xs, float), np.asarray(ys, float)
            ensure(xs.shape == (n, 2) and ys.shape == (n,), lambda: f'samples of shapes {xs.shape}, {ys.shape}')
            store[stage] = np.c_[xs, (ys - mu(xs, case['psi'])) / math.sqrt(case['xi'])]
        return store[stage]

    mean, cov = np.r_[m, 0.], np.block([[C, np.zeros((2, 1))], [np.zeros((1, 2)), np.ones((1, 1))]])
    stats.gauss_moments_test(run, mean, cov, 20000, 'samples')
    stats.normality_test(run, mean, cov, 20000, 'samples')
    return dict(nontrivial=True, labels=[case['prior']], runs=20000)

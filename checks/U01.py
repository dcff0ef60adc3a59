"""Cases: system matrices (stable, unstable, nilpotent, zero, defective, diagonal, rotation), diffusion matrices of every rank, steps,
dimension 1..5. Double precision, and single precision for moderate matrices. Oracle: scipy's matrix exponential and
Gauss-Legendre quadrature of exp(As) Gamma exp(As)'; composition of two steps; the scalar closed form.
Non-trivial: dimension above one or rank-deficient diffusion."""
import numpy as np
import scipy.linalg as sl
import jax
import jax.numpy as jnp
from hypothesis import strategies as st
from vf.core import sub, sut, ensure
from vf import gen
from fbs.utils import discretise_lti_sde

KIND = ['any', 'stable', 'unstable', 'nilpotent', 'zero', 'jordan', 'diag', 'rotation']


def matrix(r, d, kind, norm):
    A = r.normal(size=(d, d))
    if kind == 'stable':
        A = A - (np.max(np.real(np.linalg.eigvals(A))) + 0.2) * np.eye(d)
    elif kind == 'unstable':
        A = A - (np.min(np.real(np.linalg.eigvals(A))) - 0.2) * np.eye(d)
    elif kind == 'nilpotent':
        A = np.triu(A, 1)
    elif kind == 'zero':
        A = 0. * A
    elif kind == 'jordan':
        A = -0.7 * np.eye(d) + np.eye(d, k=1)
    elif kind == 'diag':
        A = np.diag(np.diag(A))
    elif kind == 'rotation':
        A = A - A.T
    s = np.linalg.norm(A, 2)
    return A * (norm / s) if s > 0 else A


X_, W_ = np.polynomial.legendre.leggauss(40)


def oracle(A, G, dt):
    F = sl.expm(A * dt)
    Q = np.zeros_like(A)
    for x, w in zip(X_, W_):
        E = sl.expm(A * dt * 0.5 * (x + 1))
        Q += 0.5 * dt * w * E @ G @ E.T
    return F, Q


_run = jax.jit(discretise_lti_sde)


def strat():
    return st.fixed_dictionaries(dict(d=st.integers(1, 5), kind=st.sampled_from(KIND), norm=gen.logfl(0.05, 4.), rank=st.integers(0, 5),
                                      gs=gen.logfl(0.01, 10.), dt=gen.logfl(1e-3, 2.), frac=gen.fl(0.1, 0.9), seed=gen.seeds))


def setup(case):
    r = np.random.default_rng(case['seed'])
    d, k = case['d'], min(case['rank'], case['d'])
    dt = case['dt']
    A = matrix(r, d, case['kind'], min(case['norm'], 3. / dt))
    B = r.normal(size=(d, k))
    return d, k, dt, A, case['gs'] * B @ B.T


@sub(strat, quick=300, thorough=15000, shards=4, x64=True)
def exact(case):
    d, k, dt, A, G = setup(case)
    F, Q = [np.asarray(z) for z in sut(_run, jnp.asarray(A), jnp.asarray(G), dt)]
    ensure(F.shape == (d, d) and Q.shape == (d, d), 'wrong shapes')
    Fe, Qe = oracle(A, G, dt)
    sF = 1 + np.abs(Fe).max()
    sQ = 1e-300 + np.abs(G).max() * dt * np.exp(2 * np.linalg.norm(A, 2) * dt)
    ensure(np.abs(F - Fe).max() < 1e-9 * sF, lambda: f'transition matrix {F.tolist()}, exponential {Fe.tolist()}')
    ensure(np.abs(Q - Qe).max() <= 1e-9 * sQ, lambda: f'covariance {Q.tolist()}, exact {Qe.tolist()} for A={A.tolist()} '
           f'gamma={G.tolist()} dt={dt}')
    ensure(np.abs(Q - Q.T).max() <= 1e-9 * sQ and np.linalg.eigvalsh(0.5 * (Q + Q.T)).min() >= -1e-9 * sQ,
           'the covariance is not symmetric positive semi-definite')
    h = dt * case['frac']
    F1, Q1 = [np.asarray(z) for z in sut(_run, jnp.asarray(A), jnp.asarray(G), h)]
    F2, Q2 = [np.asarray(z) for z in sut(_run, jnp.asarray(A), jnp.asarray(G), dt - h)]
    big = np.exp(2 * np.linalg.norm(A, 2) * dt)
    ensure(np.abs(F2 @ F1 - F).max() < 1e-9 * (1 + big) and np.abs(F2 @ Q1 @ F2.T + Q2 - Q).max() <= 1e-9 * sQ * (1 + big),
           'composing two steps does not give the whole step')
    if d == 1:
        a = A[0, 0]
        q = G[0, 0] * (dt if abs(a) < 1e-12 else np.expm1(2 * a * dt) / (2 * a))
        ensure(abs(Q[0, 0] - q) <= 1e-9 * (sQ + q), f'scalar covariance {Q[0, 0]}, closed form {q}')
    return dict(nontrivial=d > 1 or k < d, labels=[case['kind'], f'd{d}', 'singular' if k < d else 'full'], runs=3)


@sub(strat, quick=100, thorough=3000, shards=2)
def single_precision(case):
    d, k, dt, A, G = setup(case)
    nrm = np.linalg.norm(A, 2) * dt
    A = A / max(1., nrm)
    F, Q = [np.asarray(z) for z in sut(_run, jnp.asarray(A, jnp.float32), jnp.asarray(G, jnp.float32), dt)]
    Fe, Qe = oracle(np.float32(A).astype(float), np.float32(G).astype(float), dt)
    ensure(np.abs(F - Fe).max() < 2e-5 * (1 + np.abs(Fe).max()), 'single precision: transition matrix')
    ensure(np.abs(Q - Qe).max() <= 5e-5 * np.abs(G).max() * dt * np.e ** 2, 'single precision: covariance')
    return dict(nontrivial=d > 1, labels=[case['kind']])

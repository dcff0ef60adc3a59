"""Cases: pairs of Gaussians in dimension 1..5 (full, diagonal, ill-conditioned up to 1e6, near-equal, equal, singular of every rank,
zero), means, rotations, shifts and affine maps. Double precision. Oracle: the same quantities by scipy on the host with
independent formulas (Bures via singular values of S0 S1; KL via slogdet and solve), and the invariances.
Non-trivial: different Gaussians, dimension above one."""
import numpy as np
import jax
import jax.numpy as jnp
from hypothesis import strategies as st
from vf.core import sub, sut, ensure
from vf import gen
from fbs.utils import sqrtm, bures_dist, kl

KINDS = ['full', 'diag', 'ill', 'scalar']


def orth(r, d):
    return np.linalg.qr(r.normal(size=(d, d)))[0]


def cov(r, d, kind, rank=None):
    ev = r.uniform(0.1, 3., size=d)
    if kind == 'ill':
        ev = np.geomspace(1e-5, 5., d) if d > 1 else np.array([1e-3])
    if kind == 'scalar':
        ev = np.full(d, ev[0])
    if rank is not None and rank < d:
        ev[:d - rank] = 0.
    Q = np.eye(d) if kind == 'diag' else orth(r, d)
    C = (Q * ev) @ Q.T
    C = 0.5 * (C + C.T)
    return C, (Q * np.sqrt(ev)) @ Q.T, ev


_sq = {m: jax.jit(lambda x, m=m: sqrtm(x, m)) for m in ('eigh', 'schur')}
_sqd = jax.jit(lambda x: sqrtm(x))


@sub(lambda: st.fixed_dictionaries(dict(d=st.integers(1, 5), kind=st.sampled_from(KINDS), rank=st.integers(0, 5), scale=gen.logfl(1e-3, 1e3),
                                        seed=gen.seeds)), quick=300, thorough=10000, shards=3, x64=True)
def square_root(case):
    r = np.random.default_rng(case['seed'])
    d, rank = case['d'], min(case['rank'], case['d'])
    C, S, ev = cov(r, d, case['kind'], rank)
    C, S = C * case['scale'], S * np.sqrt(case['scale'])
    sc = np.abs(C).max() + 1e-300
    for m, f in list(_sq.items()) + [('default', _sqd)]:
        X = np.asarray(sut(f, jnp.asarray(C)))
        ensure(np.all(np.isfinite(X)), lambda: f'sqrtm({m}) of {C.tolist()} is not finite')
        tol = 1e-9 if m != 'schur' else 1e-6
        ensure(np.abs(X @ X - C).max() <= tol * sc, lambda: f'sqrtm({m}) of {C.tolist()} does not square to it: {(X @ X).tolist()}')
        ensure(np.abs(X - X.T).max() <= tol * np.sqrt(sc), f'sqrtm({m}) is not symmetric')
        ensure(np.linalg.eigvalsh(0.5 * (X + X.T)).min() >= -tol * np.sqrt(sc), f'sqrtm({m}) is not positive semi-definite')
        # square roots are half-Hoelder: errors of eps in the matrix become sqrt(eps) at singular ones
        ensure(np.abs(X - S).max() <= 1e-6 * np.sqrt(sc), f'sqrtm({m}) is not the positive square root')
    return dict(nontrivial=d > 1, labels=[case['kind'], 'singular' if rank < d else 'regular'], runs=3)


@sub(lambda: st.fixed_dictionaries(dict(d=st.integers(1, 4), rank=st.integers(0, 4), seed=gen.seeds)), quick=60, thorough=1000)
def single_precision_root(case):
    r = np.random.default_rng(case['seed'])
    d = case['d']
    B = r.normal(size=(d, min(case['rank'], d))).astype(np.float32)
    C = B @ B.T
    X = np.asarray(sut(_sqd, jnp.asarray(C)))
    ensure(np.all(np.isfinite(X)), lambda: f'sqrtm of {C.tolist()} is not finite')
    ensure(np.abs(X @ X - C).max() <= 1e-4 * (1e-6 + np.abs(C).max()), 'sqrtm in single precision')
    return dict(nontrivial=case['rank'] < d and d > 1, labels=['singular' if case['rank'] < d else 'regular'])


_b, _k = jax.jit(bures_dist), jax.jit(kl)


def pair(case, singular):
    r = np.random.default_rng(case['seed'])
    d = case['d']
    m0, m1 = [case['sm'] * r.normal(size=d) for _ in range(2)]
    C0, S0, _ = cov(r, d, case['k0'], min(case['r0'], d) if singular else None)
    C1, S1, _ = cov(r, d, case['k1'], min(case['r1'], d) if singular else None)
    if case['same']:
        m1, C1, S1 = m0, C0, S0
    return r, d, m0, C0, S0, m1, C1, S1


def strat(singular):
    return st.fixed_dictionaries(dict(d=st.integers(1, 5), k0=st.sampled_from(KINDS), k1=st.sampled_from(KINDS), sm=st.sampled_from([0., 0.5, 3.]),
                                      same=st.integers(0, 5).map(lambda i: i == 5), seed=gen.seeds,
                                      **({k: st.one_of(st.just(5), st.integers(0, 5)) for k in ('r0', 'r1')} if singular else {})))


@sub(lambda: strat(True), quick=300, thorough=10000, shards=3, x64=True)
def wasserstein(case):
    r, d, m0, C0, S0, m1, C1, S1 = pair(case, True)
    f = lambda *a: float(sut(_b, *[jnp.asarray(z) for z in a]))
    ex = np.sum((m0 - m1) ** 2) + np.trace(C0) + np.trace(C1) - 2 * np.sum(np.linalg.svd(S0 @ S1, compute_uv=False))
    tol = 1e-7 * (1 + np.trace(C0) + np.trace(C1))
    v = f(m0, C0, m1, C1)
    ensure(abs(v - ex) < tol, lambda: f'bures_dist = {v}, closed form {ex}, cov0 {C0.tolist()} cov1 {C1.tolist()}')
    ensure(abs(f(m1, C1, m0, C0) - v) < tol, 'bures_dist is not symmetric')
    Q, b = orth(r, d), r.normal(size=d)
    ensure(abs(f(Q @ m0 + b, Q @ C0 @ Q.T, Q @ m1 + b, Q @ C1 @ Q.T) - v) < 2 * tol, 'bures_dist is not invariant to rigid motions')
    ensure(abs(f(2 * m0, 4 * C0, 2 * m1, 4 * C1) - 4 * v) < 8 * tol, 'bures_dist does not scale with the square of the unit')
    ensure(v > -tol and (case['same'] or ex < 1e-3 or v > 0), f'bures_dist = {v}')
    return dict(nontrivial=not case['same'] and d > 1, labels=['same' if case['same'] else 'different', f'd{d}',
                                                              'singular' if min(case['r0'], case['r1']) < d else 'regular'], runs=4)


@sub(lambda: strat(False), quick=300, thorough=10000, shards=3, x64=True)
def kullback_leibler(case):
    r, d, m0, C0, S0, m1, C1, S1 = pair(case, False)
    f = lambda *a: float(sut(_k, *[jnp.asarray(z) for z in a]))
    dm = m1 - m0
    ex = 0.5 * (np.trace(np.linalg.solve(C1, C0)) - d + dm @ np.linalg.solve(C1, dm) + np.linalg.slogdet(C1)[1] - np.linalg.slogdet(C0)[1])
    cond = max(np.linalg.cond(C0), np.linalg.cond(C1))
    tol = 1e-12 * cond * (1 + abs(ex))
    v = f(m0, C0, m1, C1)
    ensure(abs(v - ex) < tol, lambda: f'kl = {v}, closed form {ex}, cov0 {C0.tolist()} cov1 {C1.tolist()}')
    A, b = orth(r, d) * r.uniform(0.3, 3., size=d), r.normal(size=d)
    w = f(A @ m0 + b, A @ C0 @ A.T, A @ m1 + b, A @ C1 @ A.T)
    ensure(abs(w - v) < 200 * tol, f'kl is not invariant to affine maps: {v}, {w}')
    ensure(v > -tol and (not case['same'] or abs(v) < tol), f'kl = {v}')
    if not case['same'] and ex > 1e-6:
        ensure(v > 0, 'kl is not positive for different Gaussians')
    return dict(nontrivial=not case['same'] and d > 1, labels=['same' if case['same'] else 'different', f'd{d}'], runs=2)

"""Cases: pairs of Gaussians (dimension 1..4, random means and SPD covariances, equal ones, diagonal ones), diffusion coefficient.
Double precision. Boundary marginals, symmetry and positive definiteness, moment equations (derivative of the covariance by
exact differences of the quadratic), and the coupling of the end points obtained by integrating the drift's flow (RK4).
Non-trivial: different Gaussians."""
import numpy as np
import jax
import jax.numpy as jnp
from hypothesis import strategies as st
from vf.core import sub, sut, ensure
from vf import gen
from fbs.sdes import make_gaussian_bw_sb


def spd(r, d, kind):
    if kind == 'diag':
        return np.diag(r.uniform(0.2, 3., size=d))
    Q = np.linalg.qr(r.normal(size=(d, d)))[0]
    ev = r.uniform(0.2, 3., size=d) if kind == 'full' else np.geomspace(0.02, 5., d) if d > 1 else np.array([0.05])
    return (Q * ev) @ Q.T


@sub(lambda: st.fixed_dictionaries(dict(d=st.integers(1, 4), k0=st.sampled_from(['diag', 'full', 'stiff']),
                                        k1=st.sampled_from(['diag', 'full', 'stiff', 'same']), sig=gen.logfl(0.2, 3.),
                                        t=gen.fl(0.02, 0.98), sm=st.sampled_from([0., 1., 5.]), seed=gen.seeds)),
     quick=200, thorough=5000, shards=4, x64=True)
def bridge(case):
    r = np.random.default_rng(case['seed'])
    d, sig, t = case['d'], case['sig'], case['t']
    m0, m1 = case['sm'] * r.normal(size=d), case['sm'] * r.normal(size=d)
    c0 = spd(r, d, case['k0'])
    c1 = c0.copy() if case['k1'] == 'same' else spd(r, d, case['k1'])
    mean, cov, drift = sut(make_gaussian_bw_sb, jnp.asarray(m0), jnp.asarray(c0), jnp.asarray(m1), jnp.asarray(c1), sig)
    M = lambda s: np.asarray(sut(mean, s))
    C = lambda s: np.asarray(sut(cov, s))
    f = jax.jit(jax.vmap(drift, in_axes=[0, None]))
    scale = 1 + np.abs(c0).max() + np.abs(c1).max() + sig ** 2

    def ok(x, y, tol=1e-8):
        return np.all(np.abs(x - y) < tol * scale * (1 + np.abs(y)))

    ensure(ok(M(0.), m0) and ok(M(1.), m1), 'the mean does not join the two prescribed means')
    ensure(ok(C(0.), c0) and ok(C(1.), c1), lambda: f'the covariance does not join the prescribed ones: {C(0.).tolist()} vs '
           f'{c0.tolist()}, {C(1.).tolist()} vs {c1.tolist()}')
    Ct = C(t)
    ensure(ok(Ct, Ct.T), 'the covariance is not symmetric')
    ensure(np.linalg.eigvalsh(0.5 * (Ct + Ct.T)).min() > 0, 'the covariance is not positive definite')

    def AB(s):
        X = np.concatenate([np.zeros((1, d)), np.eye(d)])
        v = np.asarray(sut(f, jnp.asarray(X), s))
        return (v[1:] - v[0]).T, v[0]

    At, bt = AB(t)
    x = 3 * r.normal(size=(1, d))
    ensure(ok(np.asarray(f(jnp.asarray(x), t))[0], At @ x[0] + bt, 1e-7), 'the drift is not affine in the state')
    h = 0.01
    dM = (M(t + h) - M(t - h)) / (2 * h)  # affine
    dC = (C(t + h) - C(t - h)) / (2 * h)  # quadratic: exact
    ensure(ok(dM, At @ M(t) + bt, 1e-6), lambda: f'mean equation at t={t}: {dM.tolist()} vs {(At @ M(t) + bt).tolist()}')
    rhs = At @ Ct + Ct @ At.T + sig ** 2 * np.eye(d)
    ensure(ok(dC, rhs, 1e-6), lambda: f'covariance equation at t={t}: {dC.tolist()} vs {rhs.tolist()}')
    # flow of the drift from 0 to 1
    n = 120
    grid = np.linspace(0, 1, 2 * n + 1)
    # finer near the ends by a smooth change of time s = (1 - cos(pi u)) / 2
    tau = (1 - np.cos(np.pi * grid)) / 2
    jac = np.pi * np.sin(np.pi * grid) / 2
    X = np.concatenate([np.zeros((1, d)), np.eye(d)])
    V = np.asarray(jax.jit(jax.vmap(lambda s: jax.vmap(drift, in_axes=[0, None])(jnp.asarray(X), s)))(jnp.asarray(tau)))
    As = np.swapaxes(V[:, 1:] - V[:, :1], 1, 2) * jac[:, None, None]
    Phi, hh = np.eye(d), 1. / n
    for i in range(n):
        A0, A1, A2 = As[2 * i], As[2 * i + 1], As[2 * i + 2]
        k1 = A0 @ Phi
        k2 = A1 @ (Phi + hh / 2 * k1)
        k3 = A1 @ (Phi + hh / 2 * k2)
        k4 = A2 @ (Phi + hh * k3)
        Phi = Phi + hh / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
    # cross-covariance of the entropic optimal coupling: its joint precision has off-diagonal -1 / sig^2
    X01 = c0 @ Phi.T
    J = np.block([[c0, X01], [X01.T, c1]])
    ev = np.linalg.eigvalsh(J)
    stiff = ev.min() < 1e-3 * ev.max() or np.abs(As).max() * hh > 0.3
    if not stiff:
        P = np.linalg.inv(J)[:d, d:]
        e = np.abs(P * sig ** 2 + np.eye(d)).max()
        ensure(e < 2e-2, lambda: f'cross precision of the end points {P.tolist()}, entropic optimum {(-np.eye(d) / sig ** 2).tolist()}')
    return dict(nontrivial=case['k1'] != 'same' or case['sm'] > 0,
                labels=[f'd={d}', case['k0'] + '/' + case['k1'], 'coupling checked' if not stiff else 'stiff'])

"""Cases: SDE family (constant, linear-beta, exponential, plain OU), parameters, times s < r < t, state and target arrays of
several shapes. Oracle: Gauss-Legendre quadrature of the reported (and of the documented) drift and dispersion in double
precision. Non-trivial: every case."""
import numpy as np
import jax
import jax.numpy as jnp
from hypothesis import strategies as st
from vf.core import sub, sut, ensure
from vf import gen, sdes
from fbs.sdes import make_linear_sde, make_ou_sde

TOL = 2e-7
SHAPES = [(), (1,), (3,), (2, 2), (2, 1, 3)]


def close(x, y, tol=TOL):
    x, y = np.asarray(x, float), np.asarray(y, float)
    return x.shape == y.shape and bool(np.all(np.abs(x - y) <= tol * (1 + np.abs(y))))


def times(u):
    return st.tuples(gen.fl(0.01, 0.98), gen.fl(0.01, 0.98), gen.fl(0.01, 0.98))


def three(case):
    lo, hi = sdes.domain(case['p'])
    u = sorted(case['u'])
    u = [u[0], max(u[1], u[0] + 0.005), max(u[2], u[1] + 0.005, u[0] + 0.01)]
    return [lo + (hi - lo) * x for x in u]


def strat(kinds=sdes.KINDS):
    return lambda: st.fixed_dictionaries(dict(p=sdes.growing_too(sdes.any_params(kinds)), u=times(0), shape=st.integers(0, len(SHAPES) - 1),
                                              seed=gen.seeds))


@sub(strat(), quick=500, thorough=12000, shards=2, x64=True)
def statistics_solve_the_sde(case):
    p = case['p']
    s, r, t = three(case)
    sde = sdes.build(p['kind'], [float(v) for v in sdes.vec(p)])
    disc, score, _ = make_linear_sde(sde)
    x = np.random.default_rng(case['seed']).normal(size=SHAPES[case['shape']]) * 2
    name = f'{p["kind"]} SDE, s={s:.4g}, t={t:.4g}'
    # the reported coefficients are the documented ones
    a, b2 = sdes.coeffs(p)
    for q in (s, r, t):
        ensure(close(sut(sde.drift, jnp.asarray(x), q), a(q) * x), lambda: f'{name}: drift at {q}')
        ensure(close(np.asarray(sut(sde.dispersion, q), float) ** 2, b2(q)), lambda: f'{name}: dispersion at {q}')
    # and the transition solves the moment equations of the reported coefficients
    ra = lambda q: np.asarray(sde.drift(jnp.ones_like(jnp.asarray(q)), jnp.asarray(q)), float)
    rb2 = lambda q: np.broadcast_to(np.asarray(sde.dispersion(jnp.asarray(q)), float) ** 2, np.shape(q))
    F, Q = [np.asarray(v, float) for v in sut(disc, t, s)]
    Fx, Qx = sdes.FQ(p, t, s, ra, rb2)
    ensure(close(F, Fx), lambda: f'{name}: transition factor {F}, exact {Fx}')
    ensure(close(Q, Qx), lambda: f'{name}: transition variance {Q}, exact {Qx}')
    # Chapman-Kolmogorov, and the trivial transition
    F1, Q1 = [np.asarray(v, float) for v in sut(disc, r, s)]
    F2, Q2 = [np.asarray(v, float) for v in sut(disc, t, r)]
    ensure(close(F1 * F2, F) and close(F2 ** 2 * Q1 + Q2, Q), lambda: f'{name}: not Chapman-Kolmogorov over {r}')
    ensure(Q > 0 and Q1 > 0, lambda: f'{name}: variance not positive')
    F0, Q0 = [np.asarray(v, float) for v in sut(disc, s, s)]
    ensure(close(F0, 1.) and close(Q0, 0.), lambda: f'{name}: transition over no time is not the identity')
    # arrays of times
    ts = jnp.array([s, r, t])
    Fv, Qv = [np.asarray(v, float) for v in sut(disc, ts, s)]
    ensure(close(Fv, [1., F1, F]) and close(Qv, [0., Q1, Q]), lambda: f'{name}: arrays of times')
    if p['kind'] != 'exp':
        ensure(close(sut(sde.mean, t, s, jnp.asarray(x)), Fx * x), lambda: f'{name}: mean function')
        ensure(close(sut(sde.variance, t, s), Qx), lambda: f'{name}: variance function')
    if p['kind'] == 'lin':
        ensure(close(sut(sde.beta_integral, t, s), sdes.quad(b2, s, t)), lambda: f'{name}: beta_integral')
        ensure(close(sut(sde.beta, p['t0']), p['beta_min']) and close(sut(sde.beta, p['T']), p['beta_max']),
               lambda: f'{name}: beta does not run from beta_min at t0 to beta_max at T')
    # conditional score
    x0 = np.random.default_rng([case['seed'], 1]).normal(size=x.shape)
    got = np.asarray(sut(score, jnp.asarray(x), t, jnp.asarray(x0), s), float)
    ensure(close(got, -(x - Fx * x0) / Qx, 1e-6 / min(1., Qx)), lambda: f'{name}: conditional score {got.ravel()[:2]}')
    return dict(labels=[p['kind'], f'shape={SHAPES[case["shape"]]}', 'increasing c' if p.get('c', 0) > 0 else ''])


@sub(strat(['const', 'lin']), quick=250, thorough=5000, shards=2, x64=True)
def bridge_drift(case):
    p = case['p']
    s, t, T = three(case)
    sde = sdes.build(p['kind'], [float(v) for v in sdes.vec(p)])
    r = np.random.default_rng(case['seed'])
    x, y = r.normal(size=SHAPES[case['shape']]) * 2, r.normal(size=SHAPES[case['shape']]) * 2
    a, b2 = sdes.coeffs(p)
    F, Q = sdes.FQ(p, T, t)
    got = np.asarray(sut(sde.bridge_drift, jnp.asarray(x), t, jnp.asarray(y), T), float)
    want = a(t) * x + b2(t) * F * (y - F * x) / Q
    ensure(close(got, want, 1e-6 / min(1., Q)), lambda: f'{p["kind"]} SDE: bridge drift {got.ravel()[:2]} at t={t}, T={T}, '
                                                        f'exact {want.ravel()[:2]}')
    return dict(labels=[p['kind'], f'shape={SHAPES[case["shape"]]}'])


@sub(strat(['const']), quick=150, thorough=3000, shards=1, x64=True)
def plain_ou(case):
    p = case['p']
    s, r, t = three(case)
    disc, score, _ = make_ou_sde(p['a'], p['b'])
    F, Q = [np.asarray(v, float) for v in sut(disc, t)]
    Fx, Qx = sdes.FQ(p, t, 0.)
    ensure(close(F, Fx) and close(Q, Qx), lambda: f'OU discretisation over {t}: {F}, {Q}; exact {Fx}, {Qx}')
    rn = np.random.default_rng(case['seed'])
    x, x0 = rn.normal(size=4), rn.normal(size=4)
    ensure(close(sut(score, jnp.asarray(x), t, jnp.asarray(x0)), -(x - Fx * x0) / Qx, 1e-6 / min(1., Qx)),
           'OU conditional score')
    d2, s2, _ = make_linear_sde(sdes.build('const', [p['a'], p['b']]))
    F2, Q2 = sut(d2, t + 0.3, 0.3)
    ensure(close(F2, F) and close(Q2, Q), 'the OU and the constant linear SDE disagree')
    return dict(labels=['ou'])

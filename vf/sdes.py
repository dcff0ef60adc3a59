"""Linear SDE test material: parameter strategies, construction from /repo, and an independent quadrature oracle."""
import numpy as np
from hypothesis import strategies as st
from vf import gen

KINDS = ['const', 'lin', 'exp']


def params(kind):
    if kind == 'const':
        return st.fixed_dictionaries(dict(kind=st.just(kind), a=gen.fl(-2.5, -0.05), b=gen.fl(0.1, 2.)))
    if kind == 'lin':
        return st.tuples(gen.fl(0.02, 2.), gen.fl(0.02, 5.), gen.fl(-1., 1.), gen.fl(0.5, 3.)).map(
            lambda v: dict(kind=kind, beta_min=min(v[0], v[1]), beta_max=max(v[0], v[1]), t0=v[2], T=float(f'{v[2] + v[3]:.4g}')))
    return st.fixed_dictionaries(dict(kind=st.just(kind), a=gen.fl(-1.5, -0.05), b=gen.fl(0.1, 1.5),
                                      c=st.one_of(gen.fl(0.1, 1.2), gen.fl(-1.2, -0.1)), z=gen.fl(-1., 1.)))


def any_params(kinds=KINDS):
    return st.sampled_from(kinds).flatmap(params)


def growing_too(params):
    """Also with the sign of the drift turned (the formulas of a stationary SDE hold there as well)."""
    return st.tuples(params, st.sampled_from([False, False, True])).map(lambda v: {**v[0], 'a': -v[0]['a']} if v[1] and 'a' in v[0] else v[0])


def domain(p):
    """An interval of admissible times."""
    return (p['t0'], p['T']) if p['kind'] == 'lin' else (0., 2.5)


def vec(p):
    """Parameters as an array (for jitted runners)."""
    return np.array([p[k] for k in {'const': ('a', 'b'), 'lin': ('beta_min', 'beta_max', 't0', 'T'),
                                    'exp': ('a', 'b', 'c', 'z')}[p['kind']]])


def build(kind, v):
    from fbs.sdes import StationaryConstLinearSDE, StationaryLinLinearSDE, StationaryExpLinearSDE
    if kind == 'const':
        return StationaryConstLinearSDE(a=v[0], b=v[1])
    if kind == 'lin':
        return StationaryLinLinearSDE(beta_min=v[0], beta_max=v[1], t0=v[2], T=v[3])
    return StationaryExpLinearSDE(a=v[0], b=v[1], c=v[2], z=v[3])


def coeffs(p):
    """Documented a(t), b(t)^2."""
    if p['kind'] == 'const':
        return (lambda t: p['a'] + 0. * t), (lambda t: p['b'] ** 2 + 0. * t)
    if p['kind'] == 'lin':
        def beta(t):
            return p['beta_min'] + (p['beta_max'] - p['beta_min']) * (t - p['t0']) / (p['T'] - p['t0'])
        return (lambda t: -0.5 * beta(t)), beta
    return (lambda t: p['a'] * np.exp(p['c'] * (t - p['z']))), (lambda t: p['b'] ** 2 * np.exp(p['c'] * (t - p['z'])))


_X, _W = np.polynomial.legendre.leggauss(48)


def quad(f, s, t):
    h = 0.5 * (t - s)
    return h * np.sum(_W * f(s + h * (_X + 1)))


def FQ(p, t, s, a=None, b2=None):
    """Transition factor and variance by quadrature of the coefficients."""
    if a is None:
        a, b2 = coeffs(p)
    F = np.exp(quad(a, s, t))
    Q = quad(lambda r: np.array([np.exp(2 * quad(a, ri, t)) for ri in np.atleast_1d(r)]) * b2(r), s, t)
    return F, Q


def path_law(p, x0, ts):
    """Mean (n, d) and covariance (n d, n d) of the states at ts from x0 (d,) at ts[0], independent components."""
    x0 = np.ravel(x0)
    n = len(ts)
    step = [FQ(p, ts[i], ts[i - 1]) for i in range(1, n)]
    C = np.zeros((n, n))
    m = np.ones(n)
    for i in range(1, n):
        F, Q = step[i - 1]
        m[i] = F * m[i - 1]
        C[i, :i] = F * C[i - 1, :i]
        C[:i, i] = C[i, :i]
        C[i, i] = F ** 2 * C[i - 1, i - 1] + Q
    return np.outer(m, x0), np.kron(C, np.eye(len(x0))), C


def sub_grid(ts, n):
    """Left end of every sub-step and its (absolute) length."""
    out = []
    for t, u in zip(ts[:-1], ts[1:]):
        for j in range(n):
            out.append((t + (u - t) * j / n, abs(u - t) / n))
    return out


def affine_law(x0, ts, n, A, B, G):
    """Law of the recursion x <- x + (A(t) x + B(t)) dt + G(t) sqrt(dt) w at the grid times: mean factor, covariance (K+1)."""
    K = len(ts) - 1
    m, C = [np.asarray(x0, float)], np.zeros((K + 1, K + 1))
    Fs, Qs = [], []
    steps = sub_grid(ts, n)
    x = np.asarray(x0, float)
    for k in range(K):
        F, Q = 1., 0.
        for t, dt in steps[k * n:(k + 1) * n]:
            f = 1 + A(t) * dt
            x = x * f + B(t) * dt
            F, Q = F * f, Q * f ** 2 + G(t) ** 2 * dt
        m.append(x)
        C[k + 1, :k + 1] = F * C[k, :k + 1]
        C[:k + 1, k + 1] = C[k + 1, :k + 1]
        C[k + 1, k + 1] = F ** 2 * C[k, k] + Q
    return np.stack(m), C

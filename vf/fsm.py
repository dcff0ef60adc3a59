"""Random finite-state state-space models with exact enumeration, and the model callbacks for the code under test.

u_k in {0..S-1}, v_k in {0..V-1}. The conditional law of (u_k, v_k) given (u_{k-1}, v_{k-1}) is
T[k-1, v_{k-1}, u_{k-1}, u_k] * L[k-1, v_{k-1}, u_{k-1}, v_k]. The tables have one extra (wrong) time entry at k = K, and
differ in every argument, so that a callback called with a wrong argument gives another law.
States are encoded as arrays: coordinate j of state s is s + 10 j; measurements likewise.
"""
import itertools
import numpy as np
import jax
import jax.numpy as jnp


def tables(seed, S, V, K, sharp=1.0, zeros=0.):
    """sharp: log-scale spread of the tables; zeros: fraction of forbidden transitions / measurements."""
    r = np.random.default_rng([seed, S, V, K])

    def cond(shape):
        a = np.exp(sharp * r.normal(size=shape))
        if zeros > 0:
            z = r.uniform(size=shape) < zeros
            # keep at least one entry per row
            keep = r.integers(0, shape[-1], size=shape[:-1])
            np.put_along_axis(z, keep[..., None], False, -1)
            a = np.where(z, 0., a)
        return a / a.sum(-1, keepdims=True)

    return dict(init=cond((V, S)), T=cond((K + 1, V, S, S)), L=cond((K + 1, V, S, V)),
                G0=np.exp(sharp * r.normal(size=(V, V, S))), joint0=cond((S * V,)))


def times(seed, K):
    r = np.random.default_rng([seed, 77])
    return np.round(np.cumsum(r.uniform(0.1, 1., size=K + 1)) + r.uniform(-1, 1), 3)


def encode(s, shape):
    """Array of states (...,) -> (..., *shape)."""
    off = 10. * jnp.arange(int(np.prod(shape, dtype=int)), dtype=float).reshape(shape)
    s = jnp.asarray(s)
    return s.reshape(s.shape + (1,) * len(shape)).astype(float) + off


def decode(x, shape):
    """(..., *shape) -> states (...,) int32 (first coordinate)."""
    if len(shape):
        x = x[(Ellipsis,) + (0,) * len(shape)]
    return jnp.round(x).astype(jnp.int32)


def coherent(x, shape, S):
    """numpy: every coordinate encodes the same state inside the range."""
    x = np.asarray(x, float)
    off = 10. * np.arange(int(np.prod(shape, dtype=int))).reshape(shape)
    base = x - off
    flat = base.reshape(x.shape[:x.ndim - len(shape)] + (-1,))
    return bool(np.all(flat == flat[..., :1]) and np.all(flat >= 0) and np.all(flat < S))


def tindex(t, ts):
    return jnp.argmin(jnp.abs(jnp.asarray(ts) - t))


def categorical(key, p):
    """Exact inverse-cdf draw from the last axis of p (..., S); u is uniform in [0, 1)."""
    c = jnp.cumsum(p, -1)
    u = jax.random.uniform(key, p.shape[:-1]) * c[..., -1]
    return jnp.sum(u[..., None] >= c[..., :-1], -1)


class Callbacks:
    """The model functions handed to the code under test; tab and ts may be tracers."""

    def __init__(self, tab, ts, ushape=(1,), vshape=(1,), log=True):
        self.tab, self.ts, self.ush, self.vsh, self.log = tab, ts, ushape, vshape, log

    def du(self, u): return decode(u, self.ush)

    def dv(self, v): return decode(v, self.vsh)

    def transition_sampler(self, us_prev, v_prev, t_prev, key, **kw):
        p = self.tab['T'][tindex(t_prev, self.ts), self.dv(v_prev), self.du(us_prev)]
        return encode(categorical(key, p), self.ush)

    def transition_logpdf(self, u, us_prev, v_prev, t_prev, *a, **kw):
        return jnp.log(self.tab['T'][tindex(t_prev, self.ts), self.dv(v_prev), self.du(us_prev), self.du(u)])

    def likelihood_logpdf(self, v, us_prev, v_prev, t_prev, *a, **kw):
        p = self.tab['L'][tindex(t_prev, self.ts), self.dv(v_prev), self.du(us_prev), self.dv(v)]
        return jnp.log(p) if self.log else p

    def init_sampler_csmc(self, v0):
        def f(key, n):
            p = jnp.broadcast_to(self.tab['init'][self.dv(v0)], (n, self.tab['init'].shape[-1]))
            return encode(categorical(key, p), self.ush)
        return f

    def init_sampler_smc(self, key, v0, n):
        p = jnp.broadcast_to(self.tab['init'][self.dv(v0)], (n, self.tab['init'].shape[-1]))
        return encode(categorical(key, p), self.ush)

    def init_likelihood_logpdf(self, v0, u0s, v1, *a, **kw):
        return jnp.log(self.tab['G0'][self.dv(v0), self.dv(v1), self.du(u0s)])


def paths(S, K):
    return np.array(list(itertools.product(range(S), repeat=K + 1)))


def path_weights(tab, vs, K, S, init_potential=True):
    """Unnormalised smoothing weights of all paths u_{0:K} given vs (numpy)."""
    P = paths(S, K)
    w = tab['init'][vs[0]][P[:, 0]].copy()
    if init_potential:
        w *= tab['G0'][vs[0], vs[1]][P[:, 0]]
    for k in range(1, K + 1):
        w *= tab['T'][k - 1, vs[k - 1], P[:, k - 1], P[:, k]] * tab['L'][k - 1, vs[k - 1], P[:, k - 1], vs[k]]
    return P, w


def good_vs(seed, tab, K, S, V):
    """A measurement path of positive probability (drawn from the model, uniform initial v)."""
    r = np.random.default_rng([seed, 5])
    v = int(r.integers(V))
    u = int(r.choice(S, p=tab['init'][v]))
    vs = [v]
    for k in range(K):
        vn = int(r.choice(V, p=tab['L'][k, v, u]))
        u = int(r.choice(S, p=tab['T'][k, v, u]))
        v = vn
        vs.append(v)
    return np.array(vs)

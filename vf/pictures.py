"""Input files for the image experiment scripts, and a Gaussian stand-in for the trained network.

The prior of an image is N(m, s^2 I + r^2 11'): every pixel shares one common factor. The network the scripts load is replaced by
a function with the same interface whose parameters are the mean image, log s and log r, and which returns the exact score of the
noised image (Schrodinger bridge scripts: a drift linear in the image)."""
import math
import os
import numpy as np
import jax
import jax.numpy as jnp

S, R = 0.6, 0.8


def coefficients(kind, t, T=2.):
    """F, Q of the stationary SDEs of the scripts from 0 to t."""
    t = jnp.asarray(t)
    bi = t if kind == 'const' else 0.02 * t + 0.5 * (5. - 0.02) / T * t ** 2
    return jnp.exp(-0.5 * bi), 1 - jnp.exp(-bi)


def rate(kind, t, T=2.):
    return 1. + 0 * t if kind == 'const' else 0.02 + (5. - 0.02) / T * t


def score(kind, shape, x, t, param, T=2.):
    n = math.prod(shape)
    m, s, r = jnp.reshape(param[:n], shape), jnp.exp(param[n]), jnp.exp(param[n + 1])
    F, Q = coefficients(kind, t, T)
    # scalar time, or one time per image
    F, Q = (jnp.reshape(a, a.shape + (1,) * 3) if jnp.ndim(a) else a for a in (F, Q))
    a, b = F ** 2 * s ** 2 + Q, F ** 2 * r ** 2
    z = x - F * m
    return -(z - b / (a + n * b) * jnp.sum(z, axis=(-3, -2, -1), keepdims=True)) / a


def parameters(shape, seed, s=S, r=R):
    rs = np.random.default_rng(seed)
    return np.concatenate([0.5 + 0.3 * rs.normal(size=math.prod(shape)), [math.log(s), math.log(r)]]).astype(np.float32)


def draw(shape, param, n, seed):
    rs = np.random.default_rng(seed)
    k = math.prod(shape)
    x = param[:k] + np.exp(param[k]) * rs.normal(size=(n, k)) + np.exp(param[k + 1]) * rs.normal(size=(n, 1))
    return x.reshape(n, *shape).astype(np.float32)


class Stub:
    """Replaces fbs.nn.models.make_st_nn while a script runs."""

    def __init__(self, fn, param):
        self.fn, self.param = fn, jnp.asarray(param)

    def __call__(self, key, *args, **kwargs):
        return self.param, lambda p: {'params': p}, self.fn

    def __enter__(self):
        import fbs.nn
        import fbs.nn.models
        self.old = [(m, getattr(m, 'make_st_nn')) for m in (fbs.nn, fbs.nn.models, __import__('fbs.nn.base', fromlist=['x'])) if hasattr(m, 'make_st_nn')]
        for m, _ in self.old:
            m.make_st_nn = self
        return self

    def __exit__(self, *a):
        for m, f in self.old:
            m.make_st_nn = f

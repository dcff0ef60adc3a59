"""Cases: small time-conditioned networks (two architectures, input dimensions, batch sizes), parameter vectors, times (scalar or per
item), time scales, keys; embedding widths, periods and times of every shape; pixel-shuffle sizes, scales and channels. Oracle: the
same network computed by numpy from the parameter tree; round trips of the parameter vector; the embedding formula in double
precision; the pixel shuffle as one permutation per pixel, recovered from the values. Non-trivial: more than one number."""
import functools
import math
import numpy as np
import jax
import jax.numpy as jnp
import flax.linen as nn
from jax.flatten_util import ravel_pytree
from hypothesis import strategies as st
from vf.core import sub, sut, ensure, fail
from vf import gen
from fbs.nn import make_st_nn, make_nn_with_time, sinusoidal_embedding
from fbs.nn.utils import PixelShuffle


class Net(nn.Module):
    """Time-conditioned network of a known formula; t of shape () or (n,)."""
    width: int
    out: int

    @nn.compact
    def __call__(self, x, t):
        z = x.reshape(x.shape[0], -1)
        t = jnp.broadcast_to(t, (x.shape[0],))[:, None]
        h = nn.Dense(self.width, name='a', bias_init=nn.initializers.normal(dtype=jnp.float32))(z) + t * self.param('v', nn.initializers.normal(dtype=jnp.float32), (self.width,))
        return nn.Dense(self.out, name='b')(jnp.tanh(h)) * (1. + t)


def np_net(tree, x, t):
    p = jax.tree_util.tree_map(lambda z: np.asarray(z, float), tree['params'])
    z = np.asarray(x, float).reshape(x.shape[0], -1)
    t = np.broadcast_to(t, (x.shape[0],))[:, None]
    h = z @ p['a']['kernel'] + p['a']['bias'] + t * p['v']
    return (np.tanh(h) @ p['b']['kernel'] + p['b']['bias']) * (1 + t)


class Flat(nn.Module):
    """Network of the stacked input (d + 1,) of make_nn_with_time."""
    width: int
    out: int

    @nn.compact
    def __call__(self, z):
        return nn.Dense(self.out, name='b')(jnp.sin(nn.Dense(self.width, name='a')(z)))


def np_flat(tree, z):
    p = jax.tree_util.tree_map(lambda q: np.asarray(q, float), tree['params'])
    return np.sin(z @ p['a']['kernel'] + p['a']['bias']) @ p['b']['kernel'] + p['b']['bias']


def check_ravel(vec, to_dict, tree0, r):
    flat0, unravel = ravel_pytree(tree0)
    ensure(vec.ndim == 1 and vec.size == flat0.size, lambda: f'parameter vector of shape {vec.shape} for {flat0.size} parameters')
    ensure(np.array_equal(np.asarray(ravel_pytree(to_dict(vec))[0]), np.asarray(vec)), 'the initial vector does not survive the round trip')
    p = jnp.asarray(r.normal(size=vec.shape), vec.dtype)
    tree = sut(to_dict, p)
    ensure(jax.tree_util.tree_structure(tree) == jax.tree_util.tree_structure(tree0) and
           [z.shape for z in jax.tree_util.tree_leaves(tree)] == [z.shape for z in jax.tree_util.tree_leaves(tree0)], 'structure of the parameter tree')
    back = np.sort(np.concatenate([np.ravel(z) for z in jax.tree_util.tree_leaves(tree)]))
    ensure(np.array_equal(back, np.sort(np.asarray(p))), 'the parameter tree does not hold the entries of the vector')
    ensure(np.array_equal(np.asarray(ravel_pytree(tree)[0]), np.asarray(p)), 'vector -> tree -> vector is not the identity')
    return p, tree


DIMS = [((3,), 4), ((1,), 1), ((2, 3), 2), ((4, 4, 1), 3)]


@sub(lambda part: st.fixed_dictionaries(dict(cfg=st.sampled_from(part(DIMS)).map(lambda c: [list(c[0]), c[1]]), width=st.integers(1, 5), n=st.integers(1, 5),
                                             t=gen.fl(-2., 5.), per_item=st.booleans(), seed=gen.seeds)),
     quick=60, thorough=1500, shards=4, x64=True)
def st_nn(case):
    shape, b = tuple(case['cfg'][0]), case['cfg'][1]
    r = np.random.default_rng(case['seed'])
    net = Net(case['width'], int(np.prod(shape)))
    key = jax.random.PRNGKey(case['seed'])
    vec, to_dict, forward = sut(make_st_nn, key, net, shape, b)
    x = r.normal(size=(case['n'],) + shape)
    t = case['t'] + (r.normal(size=case['n']) if case['per_item'] else 0.)
    tree0 = net.init(key, jnp.ones((b,) + shape), jnp.ones((b,)))
    p, tree = check_ravel(vec, to_dict, tree0, r)
    ensure(np.allclose(np.asarray(vec), np.asarray(ravel_pytree(tree0)[0])), 'the initial vector is not an initialisation of the network with the key')
    for q, tr in ((p, tree), (vec, to_dict(vec))):
        out, ex = np.asarray(sut(forward, jnp.asarray(x), jnp.asarray(t), q)), np_net(tr, x, t)
        ensure(out.shape == ex.shape and np.allclose(out, ex, rtol=1e-6, atol=1e-6), lambda: f'the forward pass gives {out.tolist()}, the network {ex.tolist()}')
    g = np.asarray(sut(jax.grad(lambda q: jnp.sum(forward(jnp.asarray(x), jnp.asarray(t), q) ** 2)), p))
    g2 = np.asarray(ravel_pytree(jax.grad(lambda tr: jnp.sum(net.apply(tr, jnp.asarray(x), jnp.asarray(t)) ** 2))(tree))[0])
    ensure(np.allclose(g, g2, rtol=1e-6, atol=1e-8), 'the gradient in the parameter vector')
    return dict(nontrivial=True, labels=['per-item time' if case['per_item'] else 'scalar time'], runs=3)


@sub(lambda: st.fixed_dictionaries(dict(d=st.integers(1, 4), width=st.integers(1, 5), b=st.integers(1, 3), ts=gen.fl(-3., 3.), t=gen.fl(-2., 5.), seed=gen.seeds)),
     quick=40, thorough=1000, shards=2, x64=True)
def nn_with_time(case):
    r = np.random.default_rng(case['seed'])
    d = case['d']
    net = Flat(case['width'], d)
    key = jax.random.PRNGKey(case['seed'])
    vec, to_dict, forward = sut(make_nn_with_time, net, d, case['b'], case['ts'], key)
    tree0 = net.init(key, jnp.ones((case['b'], d + 1)))
    p, tree = check_ravel(vec, to_dict, tree0, r)
    ensure(np.allclose(np.asarray(vec), np.asarray(ravel_pytree(tree0)[0])), 'the initial vector is not an initialisation of the network with the key')
    x = r.normal(size=d)
    out, ex = np.asarray(sut(forward, jnp.asarray(x), case['t'], p)), np_flat(tree, np.r_[x, case['t'] * case['ts']])
    ensure(out.shape == ex.shape and np.allclose(out, ex, rtol=1e-6, atol=1e-6), lambda: f'the forward pass gives {out.tolist()}, the network {ex.tolist()}')
    X = r.normal(size=(3, d))
    out = np.asarray(sut(jax.vmap(forward, in_axes=[0, None, None]), jnp.asarray(X), case['t'], p))
    ensure(np.allclose(out, np_flat(tree, np.c_[X, np.full(3, case['t'] * case['ts'])]), rtol=1e-6, atol=1e-6), 'the forward pass over a batch')
    return dict(nontrivial=True, runs=2)


@sub(lambda: st.fixed_dictionaries(dict(half=st.integers(1, 70), period=st.sampled_from([2, 100, 10_000, 123_456]), shape=st.sampled_from([[], [1], [4, 1], [2, 3, 1]]),
                                        default=st.booleans(), t=st.lists(gen.fl(-300., 300.), min_size=6, max_size=6))),
     quick=150, thorough=5000, shards=2, x64=True)
def embedding(case):
    dim = 2 * case['half']
    shape = tuple(case['shape'])
    t = np.asarray(case['t'])[:int(np.prod(shape))].reshape(shape)
    kw = {} if case['default'] else dict(max_period=case['period'])
    per = 10_000 if case['default'] else case['period']
    e = np.asarray(sut(sinusoidal_embedding, jnp.asarray(t), dim, **kw))
    if shape:
        ensure(e.shape == shape[:-1] + (dim,), lambda: f'embedding of shape {e.shape} for times of shape {shape}')
    else:
        ensure(e.shape == (dim,), lambda: f'embedding of shape {e.shape}')
        fl_ = np.asarray(sut(sinusoidal_embedding, float(t), dim, **kw))
        ensure(np.allclose(fl_, e, atol=1e-9), 'a Python number as time')
    h = case['half']
    f = np.array([per ** (-i / (h - 1)) if h > 1 else 1. for i in range(h)])
    ex = np.concatenate([np.sin(t * f), np.cos(t * f)], axis=-1)
    ensure(np.all(np.abs(e - ex) < 1e-6), lambda: f'embedding {e.tolist()}, sine and cosine at geometric frequencies {ex.tolist()}')
    if case['default']:
        ensure(sut(sinusoidal_embedding, jnp.asarray(t)).shape[-1] == 64, 'default width')
    try:
        sinusoidal_embedding(jnp.asarray(t), dim + 1)
    except NotImplementedError:
        return dict(nontrivial=True, labels=['even and odd width'])
    except Exception as ex_:
        fail(f'an odd width raises {type(ex_).__name__}')
    fail(f'an odd width {dim + 1} is not rejected')


@functools.lru_cache(maxsize=None)
def shuffler(scale):
    return jax.jit(lambda x: PixelShuffle(scale=scale)(x))


@sub(lambda: st.fixed_dictionaries(dict(b=st.integers(1, 3), h=st.integers(1, 4), w=st.integers(1, 4), s=st.integers(1, 4), c=st.integers(1, 3), seed=gen.seeds)),
     quick=100, thorough=3000, shards=2)
def pixel_shuffle(case):
    b, h, w, s, c = [case[k] for k in 'bhwsc']
    r = np.random.default_rng(case['seed'])
    x = r.permutation(b * h * w * s * s * c).reshape(b, h, w, s * s * c).astype(np.float32)
    y = np.asarray(sut(shuffler(s), jnp.asarray(x)))
    ensure(y.shape == (b, h * s, w * s, c), lambda: f'pixel shuffle of {x.shape} has shape {y.shape}')
    z = np.asarray(sut(lambda q: PixelShuffle(scale=s).apply({}, q), jnp.asarray(x)))
    ensure(np.array_equal(y, z), 'apply')
    perm = None
    for i in range(b):
        for j in range(h):
            for k in range(w):
                blk = y[i, j * s:(j + 1) * s, k * s:(k + 1) * s, :].ravel()
                ensure(np.array_equal(np.sort(blk), np.sort(x[i, j, k])), lambda: f'the values of input pixel {(i, j, k)} are not in its own block')
                pos = [int(np.where(x[i, j, k] == v)[0][0]) for v in blk]
                perm = perm or pos
                ensure(pos == perm, 'different pixels are rearranged differently')
    if c == 1:
        # the order inside of a block is by rows (as in the literature)
        ensure(perm == list(range(s * s)), f'order inside of a block {perm}')
    return dict(nontrivial=x.size > 1, labels=[f's{s}'])

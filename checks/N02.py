"""Cases: image sizes (non-square too), channels, number of resolutions, both up-sampling methods, widths, output widths, batch sizes,
random parameters (initialisation plus noise), scalar and per-item times; the multi-layer and convolutional networks likewise.
Metamorphic oracle: permuting, replacing or isolating batch items, repeating a scalar time, rescaling time and its unit together;
the output depends on the time. Non-trivial: more than one batch item."""
import functools
import numpy as np
import jax
import jax.numpy as jnp
from jax.flatten_util import ravel_pytree
from hypothesis import strategies as st
from vf.core import sub, sut, ensure, fail
from vf import gen
from fbs.nn.unet import UNet
from fbs.nn.models import CrescentMLP, GMSBMLP, MNISTResConv

# (H, W, C, up-sampling, dim, dim_mults, groups, out_dim, learnt_variance)
NETS = [(4, 4, 1, 'resize', 8, (1, 2), 4, None, False), (8, 4, 3, 'pixel_shuffle', 8, (1, 2), 8, None, False),
        (8, 4, 2, 'pixel_shuffle', 8, (1, 2, 1), 8, None, False), (4, 8, 1, 'resize', 8, (1, 2), 4, None, False),
        (8, 8, 1, 'resize', 16, (1,), 8, None, False), (4, 4, 2, 'pixel_shuffle', 8, (2, 1), 8, 5, False),
        (4, 4, 2, 'resize', 8, (1, 1), 8, None, True), (6, 10, 1, 'pixel_shuffle', 8, (1, 2), 2, None, False)]
B = 3


@functools.lru_cache(maxsize=None)
def build(cfg):
    H, W, C, up, dim, mults, groups, out, lv = cfg
    mk = lambda dt: UNet(dt=dt, dim=dim, upsampling=up, dim_mults=mults, resnet_block_groups=groups, out_dim=out, learnt_variance=lv)
    # only the shapes of the parameters: initialising is slow to compile
    tree = jax.eval_shape(mk(0.05).init, jax.random.PRNGKey(0), jnp.ones((2, H, W, C)), jnp.ones((2,)))
    flat, treedef = jax.tree_util.tree_flatten_with_path(tree)
    kinds = [(str(path[-1]), leaf.shape) for path, leaf in flat]
    f = jax.jit(lambda x, t, leaves, dt: mk(dt).apply(jax.tree_util.tree_unflatten(treedef, leaves), x, t))
    return kinds, f


def parameters(kinds, r, noise):
    """Random parameters of the usual sizes."""
    out = []
    for name, shape in kinds:
        z = r.normal(size=shape)
        if 'kernel' in name:
            z = z / np.sqrt(np.prod(shape[:-1]))
        elif 'scale' in name:
            z = 1. + noise * z
        else:
            z = noise * z
        out.append(jnp.asarray(z, jnp.float32))
    return out


def close(a, b, sc, tol=2e-4):
    return a.shape == b.shape and np.all(np.abs(a - b) <= tol * sc)


@sub(lambda part: st.fixed_dictionaries(dict(cfg=st.sampled_from(part(NETS)).map(lambda c: [list(v) if isinstance(v, tuple) else v for v in c]),
                                             t=gen.fl(0., 3.), noise=st.sampled_from([0.05, 0.3]), perm=st.permutations(range(B)), item=st.integers(0, B - 1),
                                             sx=st.sampled_from([0.3, 1., 3.]), seed=gen.seeds)),
     quick=32, thorough=600, shards=8)
def unet(case):
    cfg = tuple(tuple(v) if isinstance(v, list) else v for v in case['cfg'])
    H, W, C, up, dim, mults, groups, out, lv = cfg
    kinds, f = sut(build, cfg)
    r = np.random.default_rng(case['seed'])
    p = parameters(kinds, r, case['noise'])
    F = lambda x, t, dt=0.05: np.asarray(sut(f, jnp.asarray(x, jnp.float32), jnp.asarray(t, jnp.float32), p, dt))
    x = r.normal(size=(B, H, W, C)) * case['sx']
    ts = case['t'] + r.uniform(0., 1., size=B)
    oc = out if out is not None else C * (2 if lv else 1)
    y = F(x, ts)
    ensure(y.shape == (B, H, W, oc), lambda: f'output of shape {y.shape} for a batch of shape {x.shape}')
    ensure(np.all(np.isfinite(y)), 'output not finite')
    sc = 1e-3 + np.abs(y).max()
    pm, i = case['perm'], case['item']
    ensure(close(F(x[pm], ts[pm]), y[pm], sc), 'permuting the batch (and its times) does not permute the output')
    x2, t2 = r.normal(size=x.shape) * case['sx'], ts + 1.7
    x2[i], t2[i] = x[i], ts[i]
    y2 = F(x2, t2)
    ensure(close(y2[i], y[i], sc), 'the output of an item depends on the other items of the batch')
    j = (i + 1) % B
    ensure(np.abs(y2[j] - y[j]).max() > 1e-6 * sc, 'the output does not depend on the input')
    # a batch of one (every other network), a single image
    alone = F(x[i:i + 1], ts[i:i + 1]) if NETS.index(cfg) % 2 else F(x[i], ts[i])
    ensure(alone.shape == (H, W, oc) or NETS.index(cfg) % 2, 'a single image gives no single image')
    ensure(close(np.reshape(alone, (H, W, oc)), y[i], sc), 'a single image gives another result than inside of a batch')
    t = np.float32(case['t'])
    ys = F(x, t)
    ensure(close(ys, F(x, np.full(B, t)), sc), 'a scalar time is not that time for every item')
    ensure(np.abs(ys - F(x, np.float32(t + 0.31))).max() > 1e-6 * sc, 'the output does not depend on the time')
    q = F(x, 2 * ts, 0.1)
    ensure(close(q, y, sc), 'the output is not a function of time in units of dt')
    return dict(nontrivial=True, labels=[up, f'{len(mults)} resolutions', 'square' if H == W else 'non-square'], runs=10)


def unknown():
    return st.fixed_dictionaries(dict(up=st.sampled_from(['nearest', ''])))


@sub(unknown, quick=2, thorough=2)
def unknown_upsampling(case):
    net = UNet(dt=0.1, dim=8, upsampling=case['up'], dim_mults=(1, 2))
    try:
        net.init(jax.random.PRNGKey(0), jnp.ones((2, 4, 4, 1)), jnp.ones((2,)))
    except ValueError:
        return dict(nontrivial=False, labels=['rejected'])
    fail('an unknown up-sampling method is not rejected')


MODELS = ['crescent', 'gmsb', 'mnist_pixel_shuffle', 'mnist_resize']


@functools.lru_cache(maxsize=None)
def model(name):
    # MNISTResConv takes one time for the whole batch
    net, shape = {'crescent': (CrescentMLP(dt=0.05), (3,)), 'gmsb': (GMSBMLP(dim=4, dt=0.05), (4,)),
                  'mnist_pixel_shuffle': (MNISTResConv(dt=0.05), (784,)), 'mnist_resize': (MNISTResConv(dt=0.05, decoder='resize'), (784,))}[name]
    tree = net.init(jax.random.PRNGKey(0), jnp.ones((2,) + shape), jnp.ones(() if name.startswith('mnist') else (2,)))
    vec, to_dict = ravel_pytree(tree)
    return shape, vec, jax.jit(lambda x, t, p: net.apply(to_dict(p), x, t))


@sub(lambda part: st.fixed_dictionaries(dict(name=st.sampled_from(part(MODELS)), t=gen.fl(0., 3.), noise=st.sampled_from([0., 0.1]), perm=st.permutations(range(B)),
                                             item=st.integers(0, B - 1), seed=gen.seeds)), quick=24, thorough=400, shards=4, x64=True)
def models(case):
    name = case['name']
    shape, vec, f = sut(model, name)
    r = np.random.default_rng(case['seed'])
    p = vec + jnp.asarray(case['noise'] * r.normal(size=vec.shape), vec.dtype)
    F = lambda x, t: np.asarray(sut(f, jnp.asarray(x), jnp.asarray(t), p))
    x = r.normal(size=(B,) + shape)
    ts = np.full((), case['t']) if name.startswith('mnist') else case['t'] + r.uniform(size=B)
    pick = lambda t, i: t if name.startswith('mnist') else t[i]
    y = F(x, ts)
    ensure(y.shape == x.shape, lambda: f'{name}: output of shape {y.shape} for {x.shape}')
    sc = 1e-3 + np.abs(y).max()
    pm, i = case['perm'], case['item']
    ensure(close(F(x[pm], pick(ts, pm)), y[pm], sc, 1e-6), f'{name}: permuting the batch does not permute the output')
    x2 = r.normal(size=x.shape)
    x2[i] = x[i]
    t2 = ts if name.startswith('mnist') else ts + 1.3 * (np.arange(B) != i)
    ensure(close(F(x2, t2)[i], y[i], sc, 1e-6), f'{name}: the output of an item depends on the other items')
    alone = F(x[i:i + 1], pick(ts, slice(i, i + 1)))
    ensure(close(np.reshape(alone, shape), y[i], sc, 1e-6), f'{name}: a batch of one gives another result')
    ys = F(x, np.float64(case['t']))
    if not name.startswith('mnist'):
        ensure(close(ys, F(x, np.full(B, case['t'])), sc, 1e-6), f'{name}: a scalar time is not that time for every item')
    ensure(np.abs(ys - F(x, np.float64(case['t'] + 0.31))).max() > 1e-9 * sc, f'{name}: the output does not depend on the time')
    return dict(nontrivial=True, labels=[name], runs=8)

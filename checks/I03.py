"""Cases: image shapes (square or not, 1..3 channels), tasks and sizes, random images, keys; pairs for concat / unpack with any leading
axes; arrays for normalise (inside, outside, at the ends of the unit interval). Oracle: the zero set of a painted image must be
exactly one square; nearest down-sampling checked pixel by pixel; the blur is compared with a direct convolution by a Gaussian
kernel whose width is searched for in the documented range; metamorphic relations (scale, flips). Non-trivial: more than one pixel."""
import functools
import numpy as np
import jax
import jax.numpy as jnp
from hypothesis import strategies as st
from scipy.signal import convolve2d
from scipy.optimize import minimize_scalar
from vf.core import sub, sut, ensure, fail
from vf import gen
from fbs.data.images import Image, normalise


class Img(Image):
    def __init__(self, shape, task):
        self.image_shape, self.task = tuple(shape), task


NK = 24


@functools.lru_cache(maxsize=None)
def runner(shape, task, via, size):
    ds = Img(shape, task)
    if via == 'corrupt':
        f = ds.corrupt
    elif task.startswith('inpaint'):
        f = lambda k, x: ds.paint(k, x, rectangle_size=size)
    elif task.startswith('deconv'):
        f = lambda k, x: ds.conv(k, x, kernel_size=size)
    else:
        f = ds.downsample
    return jax.jit(jax.vmap(f, in_axes=[0, None]))


SHAPES = [(8, 8, 1), (16, 16, 3), (12, 20, 2), (20, 9, 1), (28, 28, 1)]
PAINT = [(s, r) for s in SHAPES for r in sorted({1, 3, min(s[:2]) // 2, min(s[:2]) - 1, min(s[:2])})]


def strat(static):
    return lambda part: st.fixed_dictionaries(dict(cfg=st.sampled_from(part(static)).map(lambda c: [list(c[0]), c[1]]),
                                                   via=st.sampled_from(['corrupt', 'direct']), sc=st.sampled_from([1., 1., 7.]),
                                                   seed=gen.seeds))


def keys_of(case, n=NK):
    return jax.random.split(jax.random.PRNGKey(case['seed']), n)


@sub(strat(PAINT), quick=60, thorough=1500, shards=6)
def paint(case):
    shape, size = tuple(case['cfg'][0]), case['cfg'][1]
    r = np.random.default_rng(case['seed'])
    x = (r.uniform(0.1, 1., size=shape) * case['sc']).astype(np.float32)
    h, w = shape[:2]
    out = np.asarray(sut(runner(shape, f'inpaint-{size}', case['via'], size), keys_of(case), jnp.asarray(x)))
    ensure(out.shape == (NK,) + shape, lambda: f'painted image of shape {out.shape[1:]}')
    corners = set()
    for y in out:
        hole = np.any(y == 0., axis=-1)
        i, j = np.argwhere(hole).min(0) if hole.any() else (0, 0)
        ok = np.zeros((h, w), bool)
        ok[i:i + size, j:j + size] = True
        ensure(hole.sum() == size ** 2 and np.array_equal(ok, hole) and np.all(y[hole] == 0.),
               lambda: f'inpaint-{size} on {shape}: the zero pixels are not a square of size {size}: {np.argwhere(hole).tolist()[:30]}')
        ensure(np.array_equal(y[~hole], x[~hole]), f'inpaint-{size} on {shape}: pixels outside the rectangle are changed')
        corners.add((int(i), int(j)))
    if min(h, w) - size >= 4:
        ensure(len(corners) > 1, 'the rectangle is always at the same place')
    return dict(nontrivial=h * w > 1, labels=['square' if h == w else 'non-square', case['via']], runs=NK)


DOWN = [((8, 8, 1), 0), ((16, 16, 3), 0), ((24, 8, 2), 0), ((28, 28, 1), 0), ((10, 13, 1), 0), ((64, 64, 3), 0)]


@sub(strat(DOWN), quick=36, thorough=600, shards=6)
def downsample(case):
    shape = tuple(case['cfg'][0])
    h, w, c = shape
    r = np.random.default_rng(case['seed'])
    x = (r.permutation(h * w * c).reshape(shape) * case['sc']).astype(np.float32)
    out = np.asarray(sut(runner(shape, 'supr', case['via'], 0), keys_of(case), jnp.asarray(x)))
    ensure(out.shape == (NK,) + shape, lambda: f'down-sampled image of shape {out.shape[1:]}')
    place = {tuple(x[i, j]): (i, j) for i in range(h) for j in range(w)}
    kinds = set()
    for y in out[:12]:
        src = [[place.get(tuple(y[i, j])) for j in range(w)] for i in range(h)]
        ensure(all(s is not None for row in src for s in row), 'a pixel of the down-sampled image is not a pixel of the original')
        src = np.array(src)
        ri, ci = src[:, :, 0], src[:, :, 1]
        nr, nc = len(np.unique(ri)), len(np.unique(ci))
        ensure(np.all(ri == ri[:, :1]) and np.all(ci == ci[:1]), 'the source of a row or column of pixels is not common to it')
        ensure(np.all(np.diff(ri[:, 0]) >= 0) and np.all(np.diff(ci[0]) >= 0), 'the down-sampled image is not piecewise constant')
        rs = [q for q in (4, 8) if (nr, nc) == (h // q, w // q)]
        ensure(rs, lambda: f'the down-sampled image of {shape} has {nr} x {nc} distinct blocks')
        q = rs[0]
        kinds.add(q)
        if h % q == 0 and w % q == 0:
            ensure(np.all(ri[:, 0] // q == np.arange(h) // q) and np.all(ci[0] // q == np.arange(w) // q),
                   'a block shows a pixel of another block')
        else:
            # every pixel comes from within one block length
            ensure(np.max(np.abs(ri[:, 0] - np.arange(h))) <= h / (h // q) and np.max(np.abs(ci[0] - np.arange(w))) <= w / (w // q),
                   'a block shows a distant pixel')
    ks = {tuple(np.unique(y[..., 0]).shape) for y in out}
    ensure(len(ks) == 2, 'over 24 keys only one of the two ratios was used (probability 1e-7)')
    return dict(nontrivial=True, labels=[f'{h}x{w}', case['via']], runs=NK)


CONV = [((8, 8, 1), 3), ((12, 20, 2), 5), ((16, 16, 3), 15), ((9, 9, 1), 7), ((20, 9, 1), 1 + 2)]


def minmax(z):
    lo, hi = z.min((0, 1), keepdims=True), z.max((0, 1), keepdims=True)
    return (z - lo) / (hi - lo)


def blur(x, size, v):
    g = np.exp(-np.linspace(-1, 1, size) ** 2 / v)
    k = np.outer(g, g)
    z = convolve2d(x.sum(-1), k, mode='same')
    return np.repeat(minmax(z[..., None]), x.shape[-1], axis=-1)


@sub(strat(CONV), quick=40, thorough=800, shards=5, x64=True)
def blurred(case):
    """Compared with a direct convolution; channels are mixed equally by the operator (its kernel couples all channels)."""
    shape, size = tuple(case['cfg'][0]), case['cfg'][1]
    r = np.random.default_rng(case['seed'])
    x = r.uniform(0., 1., size=shape)
    run = runner(shape, f'deconv-{size}', case['via'], size)
    keys = keys_of(case)
    f = lambda z: np.asarray(sut(run, keys, jnp.asarray(z)))
    out = f(x)
    ensure(out.shape == (NK,) + shape, lambda: f'blurred image of shape {out.shape[1:]}')
    ensure(np.all(np.isfinite(out)) and out.min() >= -1e-9 and out.max() <= 1 + 1e-9, 'blurred values outside the unit interval')
    ensure(np.allclose(out.min((1, 2)), 0, atol=1e-9) and np.allclose(out.max((1, 2)), 1, atol=1e-9), 'the blurred image does not fill the unit interval')
    ensure(np.allclose(f(3. * x), out, atol=1e-7), 'the blur is not linear up to normalisation (scaled image)')
    ensure(np.allclose(f(x[::-1])[:, ::-1], out, atol=1e-7) and np.allclose(f(x[:, ::-1])[:, :, ::-1], out, atol=1e-7),
           'the blur is not symmetric')
    vs = []
    for y in out[:4]:
        err = lambda lv: np.abs(blur(x, size, np.exp(lv)) - y).max()
        grid = np.linspace(np.log(0.1), np.log(5.), 40)
        e = [err(g) for g in grid]
        i = int(np.argmin(e))
        o = minimize_scalar(err, bounds=(grid[max(i - 1, 0)] - 1e-3, grid[min(i + 1, 39)] + 1e-3), method='bounded', options=dict(xatol=1e-9))
        ensure(min(o.fun, e[i]) < 1e-4, lambda: f'no Gaussian kernel of width 0.1 to 5 gives the blurred image, best error {o.fun:.3g}')
        vs.append(o.x)
    ensure(np.ptp(vs) > 1e-4, 'the same blur for different keys')
    return dict(nontrivial=True, labels=[f'k{size}', case['via']], runs=3 * NK)


@sub(lambda: st.fixed_dictionaries(dict(lead=st.lists(st.integers(1, 3), max_size=2), hw=st.lists(st.integers(1, 4), min_size=2, max_size=2),
                                        c=st.integers(1, 3), expand=st.booleans(), seed=gen.seeds)), quick=80, thorough=2000, shards=2)
def pairs(case):
    r = np.random.default_rng(case['seed'])
    shape = tuple(case['hw']) + (case['c'],)
    ds = Img(shape, 'supr')
    x, y = [r.normal(size=tuple(case['lead']) + shape).astype(np.float32) for _ in range(2)]
    if case['expand']:
        x, y = x[..., 0], y[..., 0]
        ds = Img(tuple(case['hw']) + (1,), 'supr')
    xy = sut(ds.concat, jnp.asarray(x), jnp.asarray(y), expand=case['expand'])
    ensure(xy.shape == tuple(case['lead']) + tuple(case['hw']) + (2 * (1 if case['expand'] else case['c']),), lambda: f'concat: shape {xy.shape}')
    a, b = [np.asarray(z) for z in sut(ds.unpack, xy)]
    if case['expand']:
        a, b = a[..., 0], b[..., 0]
    ensure(np.array_equal(a, x) and np.array_equal(b, y), 'unpack(concat(x, y)) is not (x, y)')
    c = np.asarray(sut(ds.concat, *ds.unpack(xy)))
    ensure(np.array_equal(c, np.asarray(xy)), 'concat(unpack(xy)) is not xy')
    return dict(nontrivial=x.size > 1, labels=['expand' if case['expand'] else 'channels'], runs=2)


@sub(lambda: st.fixed_dictionaries(dict(lead=st.lists(st.integers(1, 3), max_size=2), hw=st.lists(st.integers(2, 5), min_size=2, max_size=2),
                                        c=st.integers(1, 3), how=st.sampled_from(['inside', 'outside', 'ends', 'huge']), seed=gen.seeds)),
     quick=100, thorough=3000, shards=2)
def normalised(case):
    r = np.random.default_rng(case['seed'])
    shape = tuple(case['lead']) + tuple(case['hw']) + (case['c'],)
    x = {'inside': r.uniform(size=shape), 'outside': r.normal(size=shape) * 3, 'ends': r.integers(-1, 3, size=shape),
         'huge': r.normal(size=shape) * 1e30}[case['how']].astype(np.float32)
    for args in [(), ('clip',)]:
        z = np.asarray(sut(normalise, jnp.asarray(x), *args))
        ensure(np.array_equal(z, np.clip(x, 0., 1.)), lambda: f'clipping {x.ravel()[:10].tolist()} gives {z.ravel()[:10].tolist()}')
    if case['how'] != 'huge':
        x = x + np.linspace(0, 1e-2, x.size, dtype=np.float32).reshape(shape)  # no constant channels
        z = np.asarray(sut(normalise, jnp.asarray(x), 'norm'))
        lo, hi = x.min((-2, -3), keepdims=True), x.max((-2, -3), keepdims=True)
        ensure(np.allclose(z, (x - lo) / (hi - lo), atol=1e-4), 'normalise maps every channel of every image affinely onto the unit interval')
        ensure(np.abs(z.min((-2, -3))).max() < 1e-6 and np.abs(z.max((-2, -3)) - 1).max() < 1e-5, 'normalised range')
    return dict(nontrivial=True, labels=[case['how']], runs=3)


@sub(lambda: st.fixed_dictionaries(dict(task=st.sampled_from(['none', 'blur', 'deblur-3', '']), seed=gen.seeds)), quick=6, thorough=12)
def unknown_task(case):
    ds = Img((8, 8, 1), case['task'])
    try:
        ds.corrupt(jax.random.PRNGKey(case['seed']), jnp.ones((8, 8, 1)))
    except ValueError:
        return dict(nontrivial=False, labels=['rejected'])
    fail(f'the unknown task {case["task"]!r} is not rejected')

"""Cases: image shapes (also non-square), channels, tasks (inpaint-s for every admissible s, supr-r for every r dividing the sides,
random or central), keys, leading batch shapes, images of distinct values. Every case looks at 40 masks. Oracle: set arithmetic on the
pixel indices, direct numpy indexing, exact equality of arrays; the place of the observed pixel in its block is uniform (exact
multinomial law). Non-trivial: at least two pixels."""
import functools
import numpy as np
import jax
import jax.numpy as jnp
from hypothesis import strategies as st
from vf.core import sub, sut, ensure
from vf import gen, stats
from fbs.data.images import ImageRestore

SHAPES = [(4, 4, 1), (6, 4, 2), (4, 6, 3), (8, 8, 3), (1, 5, 1), (5, 1, 2), (9, 6, 1), (12, 8, 3), (7, 11, 2), (2, 2, 1), (12, 12, 1), (3, 10, 1)]


def tasks(shape):
    w, h, _ = shape
    out = [('inpaint', s, True) for s in range(1, min(w, h) + 1)]
    for r in range(1, min(w, h) + 1):
        if w % r == 0 and h % r == 0:
            out += [('supr', r, True), ('supr', r, False)]
    return out


STATIC = [(s, t) for s in SHAPES for t in tasks(s)] + [((16, 16, 3), ('supr', 4, True)), ((16, 16, 3), ('inpaint', 7, True)),
                                                      ((15, 9, 3), ('supr', 3, False)), ((64, 64, 3), ('supr', 4, True)),
                                                      ((32, 28, 1), ('inpaint', 15, True))]
NKEYS = 40


@functools.lru_cache(maxsize=None)
def dataset(shape, task, size, rnd):
    return ImageRestore(f'{task}-{size}', shape, sr_random=rnd)


@functools.lru_cache(maxsize=None)
def masks(shape, task, size, rnd, n=NKEYS):
    ds = dataset(shape, task, size, rnd)
    return jax.jit(jax.vmap(lambda k: ds.gen_mask(k)))


def inds(m):
    return np.asarray(m.unobs_inds_ravelled).astype(int), np.asarray(m.obs_inds_ravelled).astype(int)


def check_partition(shape, task, size, rnd, un, ob):
    """un (n, p), ob (n, q)"""
    w, h, c = shape
    total = w * h
    ds = dataset(shape, task, size, rnd)
    ensure(ds.unobs_shape == (un.shape[1], c), lambda: f'announced unobserved shape {ds.unobs_shape}, mask {un.shape[1:]}')
    for u, o in zip(un, ob):
        al = np.sort(np.concatenate([u, o]))
        ensure(len(al) == total and np.array_equal(al, np.arange(total)),
               lambda: f'{task}-{size} on {shape}: the mask does not split the {total} pixels: unobserved {np.sort(u).tolist()[:40]}, '
               f'observed {np.sort(o).tolist()[:40]}')
        if task == 'inpaint':
            rows, cols = np.unravel_index(np.sort(u), (w, h))
            r0, c0 = rows.min(), cols.min()
            ex = set((r0 + i) * h + c0 + j for i in range(size) for j in range(size))
            ensure(r0 + size <= w and c0 + size <= h and ex == set(u.tolist()),
                   lambda: f'inpaint-{size} on {shape}: the hole is not a square: {np.sort(u).tolist()}')
        else:
            rows, cols = np.unravel_index(o, (w, h))
            blocks = set(zip((rows // size).tolist(), (cols // size).tolist()))
            ensure(len(o) == (w // size) * (h // size) and len(blocks) == len(o),
                   lambda: f'supr-{size} on {shape}: not exactly one observed pixel per block: {np.sort(o).tolist()}')
            if not rnd:
                ensure(np.all(rows % size == size // 2) and np.all(cols % size == size // 2),
                       f'supr-{size}: the observed pixel is not the centre of its block')


@sub(lambda part: st.fixed_dictionaries(dict(cfg=st.sampled_from(part(STATIC)).map(lambda c: [list(c[0]), list(c[1])]),
                                             lead=st.sampled_from([[], [1], [3], [2, 2]]), seed=gen.seeds)),
     quick=200, thorough=4000, shards=8)
def partition(case):
    shape, (task, size, rnd) = tuple(case['cfg'][0]), case['cfg'][1]
    ds = dataset(shape, task, size, rnd)
    keys = jax.random.split(jax.random.PRNGKey(case['seed']), NKEYS)
    mk = sut(masks(shape, task, size, rnd), keys)
    un, ob = inds(mk)
    check_partition(shape, task, size, rnd, un, ob)
    eager = sut(ds.gen_mask, keys[0])
    eu, eo = inds(eager)
    check_partition(shape, task, size, rnd, eu[None], eo[None])
    ensure(set(eu.tolist()) == set(un[0].tolist()), 'the compiled mask differs from the eager one')
    # the description of the mask
    w, h = shape[:2]
    if hasattr(eager, 'width') and hasattr(eager, 'height'):
        rows, cols = np.unique(eu // h), np.unique(eu % h)
        ensure((int(eager.width), int(eager.height)) == (len(rows), len(cols)), lambda: f'mask of width {eager.width}, height {eager.height}: the hole is {len(rows)} x {len(cols)}')
        if hasattr(eager, 'shift'):
            ensure(int(eager.shift) == rows.min() == cols.min(), lambda: f'mask with shift {eager.shift}: the hole starts at {rows.min()}, {cols.min()}')
    if hasattr(eager, 'rate'):
        ensure(int(eager.rate) == size, lambda: f'mask of rate {eager.rate} for {task}-{size}')
    # round trips
    r = np.random.default_rng(case['seed'])
    lead = tuple(case['lead'])
    n = int(np.prod(lead + shape))
    img = (r.permutation(n).reshape(lead + shape) + 1.).astype(np.float32)
    w, h, c = shape
    x, y = sut(ds.unpack, jnp.asarray(img), eager)
    flat = img.reshape(lead + (w * h, c))
    ensure(np.array_equal(np.asarray(x), flat[..., eu, :]) and np.array_equal(np.asarray(y), flat[..., eo, :]),
           'unpack does not return the unobserved and the observed pixels')
    ensure(x.shape == lead + tuple(ds.unobs_shape), lambda: f'unpack: the unobserved part has shape {x.shape}')
    back = np.asarray(sut(ds.concat, x, y, eager))
    ensure(back.shape == img.shape and np.array_equal(back, img), f'{task}-{size} on {shape}, batch {lead}: concat(unpack(image)) is not the image')
    a = r.normal(size=lead + (len(eu), c)).astype(np.float32)
    b = r.normal(size=lead + (len(eo), c)).astype(np.float32)
    xy = sut(ds.concat, jnp.asarray(a), jnp.asarray(b), eager)
    ensure(xy.shape == lead + shape, lambda: f'concat: shape {xy.shape}')
    x, y = sut(ds.unpack, xy, eager)
    ensure(np.array_equal(np.asarray(x), a) and np.array_equal(np.asarray(y), b), 'unpack(concat(parts)) is not the parts')
    return dict(nontrivial=w * h > 1, labels=[task, 'square' if w == h else 'non-square', 'random' if rnd else 'central',
                                              f'{len(lead)} batch axes'], runs=NKEYS + 5)


SR = [((4, 4, 1), 2), ((6, 3, 1), 3), ((2, 4, 3), 2), ((8, 4, 1), 4)]


@sub(lambda part: st.fixed_dictionaries(dict(cfg=st.sampled_from(part(SR)).map(lambda c: [list(c[0]), c[1]]), seed=gen.seeds)),
     quick=8, thorough=100, shards=4)
def random_pixel(case):
    """Random super-resolution: the observed pixel is uniform in its block, independently over blocks (first two blocks jointly)."""
    shape, size = tuple(case['cfg'][0]), case['cfg'][1]
    nb = (shape[0] // size) * (shape[1] // size)

    def run(stage, n):
        keys = jax.random.split(jax.random.PRNGKey((case['seed'] + 7919 * stage) % 2 ** 31), n)
        _, o = inds(sut(masks(shape, 'supr', size, True, n), keys))
        rows, cols = o // shape[1], o % shape[1]
        block = (rows // size) * (shape[1] // size) + cols // size
        pos = (rows % size) * size + cols % size
        first = np.take_along_axis(pos, np.argsort(block, axis=1), axis=1)[:, :2]
        return stats.bincount_rows(first, size ** 2)

    k = size ** 2 if nb == 1 else size ** 4
    stats.assert_law(run, np.full(k, 1. / k), 4000, f'supr-{size} on {shape}: places of the observed pixels in the first two blocks')
    return dict(nontrivial=True, labels=['law'])


@sub(lambda part: st.fixed_dictionaries(dict(cfg=st.sampled_from(part([[[8, 8, 1], 3], [[6, 9, 3], 2]])), seed=gen.seeds)),
     quick=4, thorough=30, shards=2, tshards=2)
def hole_moves(case):
    """The hole is placed at random: over 400 keys it is not always in the same place (probability below 1e-60 if random)."""
    shape, size = tuple(case['cfg'][0]), case['cfg'][1]
    keys = jax.random.split(jax.random.PRNGKey(case['seed']), 400)
    u, _ = inds(sut(masks(shape, 'inpaint', size, True, 400), keys))
    ensure(len(set(u.min(1).tolist())) >= 2, 'the hole is always in the same place')
    return dict(nontrivial=True, labels=['law'])

"""Cases: dataset sizes 1..400, every batch size, data of 1..4 axes with identifiable items, keys; the image
datasets (tasks none / inpaint / supr / deconv); the file-backed datasets built from generated files in a scratch directory.
Oracle: identities of the items (set arithmetic), exact uniform laws over permutations and subsets of small datasets, and
recomputation of the observed part. Histories: several enumerations of one dataset one after another, with and without
explicit indices. Non-trivial: more than one batch or item."""
import functools
import itertools
import os
import shutil
import tempfile
import numpy as np
import jax
import jax.numpy as jnp
from hypothesis import strategies as st
from vf.core import sub, sut, ensure
from vf import gen, stats
from fbs.data.base import Dataset
from fbs.data.images import Image, ImageRestore, MNIST, CIFAR10, CelebAHQ, MNISTRestore, CelebAHQRestore


class Plain(Dataset):
    def __init__(self, xs):
        self.n = xs.shape[0]
        self.xs = xs


class Img(Image):
    def __init__(self, xs, task):
        self.n, self.xs, self.task = xs.shape[0], xs, task
        self.image_shape = xs.shape[1:]


class Restore(ImageRestore):
    def __init__(self, xs, task, sr_random=True):
        self.n, self.xs = xs.shape[0], xs
        super().__init__(task, xs.shape[1:], sr_random)


def items(n, shape):
    """Item i has all its entries in (i, i + 1)."""
    k = int(np.prod(shape))
    return (np.arange(n)[:, None] + (np.arange(k)[None] + 1.) / (k + 2.)).reshape((n,) + tuple(shape)).astype(np.float32)


def ids(a):
    a = np.asarray(a)
    return np.floor(a.reshape(a.shape[0], -1)[:, 0]).astype(int)


def check_split(perm, n, b):
    perm = [np.asarray(p) for p in perm]
    ensure(len(perm) == n // b and all(p.shape == (b,) for p in perm),
           lambda: f'n={n}, batch size {b}: batches of sizes {[p.shape for p in perm]}')
    al = np.concatenate(perm)
    ensure(al.min() >= 0 and al.max() < n and len(set(al.tolist())) == (n // b) * b,
           lambda: f'n={n}, batch size {b}: the batches repeat or miss items: {np.sort(al).tolist()}')
    return perm


SHAPES = [(3,), (1,), (2, 2), (4, 4, 1)]
KINDS = ['plain', 'image', 'restore']


@sub(lambda: st.one_of(st.integers(1, 40), st.integers(1, 400)).flatmap(lambda n: st.fixed_dictionaries(dict(
    n=st.just(n), b=st.one_of(st.integers(1, n), st.integers(1, min(n, 4))), kind=st.sampled_from(KINDS), shape=st.sampled_from(SHAPES).map(list),
    ops=st.lists(st.tuples(st.sampled_from(['init', 'init_other', 'enum', 'enum_explicit', 'draw']), st.integers(0, 60), gen.seeds), min_size=1,
                 max_size=8), seed=gen.seeds))), quick=110, thorough=4000, shards=8)
def enumeration(case):
    """A history of enumerations, subsets and draws against a model."""
    n, b = case['n'], case['b']
    if case['kind'] == 'plain':
        shape = tuple(case['shape'])
        xs = items(n, shape)
        ds = Plain(jnp.asarray(xs))
    else:
        shape = (4, 4, 1)
        xs = items(n, shape)
        ds = Img(jnp.asarray(xs), 'none') if case['kind'] == 'image' else Restore(jnp.asarray(xs), 'inpaint-2')
    get = (lambda r: r[0]) if case['kind'] == 'image' else (lambda r: r)
    current = check_split(sut(ds.init_enumeration, jax.random.PRNGKey(case['seed']), b), n, b)
    cb, other, runs = b, None, 1
    for op, i, s in case['ops']:
        key = jax.random.PRNGKey(s)
        runs += 1
        if op == 'init':
            cb = i % n + 1
            current = check_split(sut(ds.init_enumeration, key, cb), n, cb)
        elif op == 'init_other':
            # indices kept by the caller while the dataset moves on to another enumeration
            other, prev = current, cb
            current = check_split(sut(ds.init_enumeration, key, cb), n, cb)
        elif op == 'enum':
            j = i % len(current)
            out = get(sut(ds.enumerate_subset, j, key=key))
            ensure(np.array_equal(np.asarray(out), xs[current[j]]), f'enumerate_subset({j}) is not the items of batch {j} of the last enumeration')
        elif op == 'enum_explicit' and other is not None:
            j = i % len(other)
            out = get(sut(ds.enumerate_subset, j, [jnp.asarray(p) for p in other], key))
            ensure(np.array_equal(np.asarray(out), xs[other[j]]), f'enumerate_subset({j}, perm_inds) is not the items of the given batch')
        elif op == 'draw':
            m = i % n + 1
            out = np.asarray(sut(ds.draw_subset, key, m))
            ensure(out.shape == (m,) + shape, lambda: f'draw_subset: shape {out.shape}')
            k = ids(out)
            ensure(len(set(k.tolist())) == m, lambda: f'draw_subset({m}) of {n}: repeated items {np.sort(k).tolist()}')
            ensure(np.array_equal(out, xs[k]), 'draw_subset returns something else than items')
    # one whole epoch
    seen = np.concatenate([ids(get(sut(ds.enumerate_subset, j))) if case['kind'] != 'image' else
                           ids(get(sut(ds.enumerate_subset, j, key=jax.random.PRNGKey(0)))) for j in range(len(current))])
    ensure(len(set(seen.tolist())) == len(seen) == (n // cb) * cb, 'an epoch repeats items')
    return dict(nontrivial=n // b > 1, labels=[case['kind'], 'divides' if n % b == 0 else 'truncates'], runs=runs + len(current))


@functools.lru_cache(maxsize=None)
def law_runner(n, b, what):
    ds = Plain(jnp.asarray(items(n, (1,))))
    if what == 'enum':
        f = lambda k: jnp.concatenate(ds.init_enumeration(k, b))
    else:
        f = lambda k: jnp.floor(ds.draw_subset(k, b)[:, 0]).astype(int)
    return jax.jit(jax.vmap(f))


LAWS = [(4, 2, 'enum'), (3, 1, 'enum'), (4, 4, 'enum'), (5, 2, 'draw'), (4, 3, 'draw'), (3, 1, 'draw')]


@sub(lambda part: st.fixed_dictionaries(dict(cfg=st.sampled_from(part(LAWS)).map(list), seed=gen.seeds)), quick=12, thorough=120, shards=6)
def random_order(case):
    """Enumerations: every order of the items is equally likely. Drawn subsets: every subset is."""
    n, b, what = case['cfg']
    m = n if what == 'enum' else b
    perms = list(itertools.permutations(range(n), m)) if what == 'enum' else list(itertools.combinations(range(n), m))
    table = {p: i for i, p in enumerate(perms)}

    def run(stage, k):
        keys = jax.random.split(jax.random.PRNGKey((case['seed'] + 7919 * stage) % 2 ** 31), k)
        out = np.asarray(sut(law_runner(n, b, what), keys))
        if what == 'draw':
            out = np.sort(out, axis=1)
        c = np.zeros(len(perms))
        for row, cnt in zip(*np.unique(out, axis=0, return_counts=True)):
            ensure(tuple(row.tolist()) in table, lambda: f'{what}: {row.tolist()}')
            c[table[tuple(row.tolist())]] += cnt
        return c

    stats.assert_law(run, np.full(len(perms), 1. / len(perms)), 6000, f'{what} of {n} in batches of {b}')
    return dict(nontrivial=True, labels=[what])


@sub(lambda: st.fixed_dictionaries(dict(n=st.integers(2, 30), d=st.integers(1, 4), sx=gen.logfl(0.1, 50.), mx=gen.fl(-20., 20.), seed=gen.seeds)),
     quick=30, thorough=500, x64=True)
def standardise(case):
    r = np.random.default_rng(case['seed'])
    x = r.normal(size=(case['n'], case['d'])) * case['sx'] + case['mx']
    z = np.asarray(sut(Plain.standardise, jnp.asarray(x)))
    ensure(np.allclose(z.mean(0), 0, atol=1e-8) and np.allclose(z.std(0), 1, atol=1e-8), 'standardise')
    ensure(np.allclose(z, (x - x.mean(0)) / x.std(0), atol=1e-8), 'standardise is not affine per column')
    return dict(nontrivial=True)


TASKS = ['inpaint-2', 'supr', 'deconv-3']


@functools.lru_cache(maxsize=None)
def img_runner(task, kind, n, rnd):
    xs = items(n, (8, 8, 1))
    ds = Img(jnp.asarray(xs), task) if kind == 'image' else Restore(jnp.asarray(xs), task, rnd)
    return xs, ds, jax.jit(jax.vmap(lambda k: ds.sampler(k)))


PAIRS = [('image', t, True) for t in TASKS] + [('restore', 'inpaint-3', True), ('restore', 'inpaint-8', True), ('restore', 'supr-2', True),
                                               ('restore', 'supr-4', False)]


@sub(lambda part: st.fixed_dictionaries(dict(cfg=st.sampled_from(part(PAIRS)).map(list), n=st.sampled_from([1, 3]), seed=gen.seeds)),
     quick=28, thorough=400, shards=7)
def sampled_pairs(case):
    """The pair is an item (uniformly chosen) and its corruption / observed part."""
    kind, task, rnd = case['cfg']
    n = case['n']
    xs, ds, run = img_runner(task, kind, n, rnd)
    key = jax.random.PRNGKey(case['seed'])
    keys = jax.random.split(key, 400)
    out = sut(run, keys)
    x = np.asarray(out[0])
    which = ids(x)
    ensure(np.array_equal(x, xs[which]), f'{task}: the sampled image is not an item')
    if kind == 'restore':
        y, mask = np.asarray(out[1]), out[2]
        ob = np.asarray(mask.obs_inds_ravelled)
        ex = np.take_along_axis(x.reshape(400, 64, 1), ob[..., None], axis=1)
        ensure(np.array_equal(y, ex), f'{task}: the observation is not the observed part of the image under the returned mask')
        x1, y1, m1 = sut(ds.sampler, key)
        un, o1 = np.asarray(m1.unobs_inds_ravelled), np.asarray(m1.obs_inds_ravelled)
        ensure(sorted(np.r_[un, o1].tolist()) == list(range(64)) and np.array_equal(np.asarray(y1), np.asarray(x1).reshape(64, 1)[o1]), 'eager sampler')
    else:
        y = np.asarray(out[1])
        ensure(y.shape == x.shape, lambda: f'{task}: corrupted image of shape {y.shape}')
        for a, bb in zip(x[:50], y[:50]):
            check_corruption(task, a, bb)
        # enumerated pairs: every corrupted image belongs to its own clean image
        perm = sut(ds.init_enumeration, key, n)
        ex, ey = sut(ds.enumerate_subset, 0, None, key)
        ensure(np.array_equal(np.asarray(ex), xs[np.asarray(perm[0])]), f'{task}: enumerated images')
        for a, bb in zip(np.asarray(ex), np.asarray(ey)):
            check_corruption(task, a, bb)

    def law(stage, m):
        ks = jax.random.split(jax.random.PRNGKey((case['seed'] + 7919 * (stage + 1)) % 2 ** 31), m)
        return np.bincount(ids(np.asarray(run(ks)[0])), minlength=n)

    stats.assert_law(law, np.full(n, 1. / n), 1000, f'{task}: sampled items')
    return dict(nontrivial=n > 1, labels=[kind, task], runs=1400)


def check_corruption(task, x, y):
    """x has all entries in (i, i + 1)."""
    if task.startswith('inpaint'):
        keep = y != 0
        ensure(np.array_equal(y[keep], x[keep]) and (~keep).sum() == 4, f'{task}: the corrupted image does not belong to the clean one')
    elif task.startswith('supr'):
        ensure(np.all(np.isin(y, x)), f'{task}: the corrupted image does not belong to the clean one')
    else:
        ensure(np.all(np.isfinite(y)) and y.min() >= -1e-6 and y.max() <= 1 + 1e-6, f'{task}: blurred values outside the unit interval')


CELEB = ['celeb', 'celeb_restore']


@sub(lambda: st.fixed_dictionaries(dict(cls=st.sampled_from(CELEB), res=st.just(2), seed=gen.seeds)), quick=4, thorough=16, shards=2, tshards=4)
def splits(case):
    """Same key: test and training part are disjoint and make up the file; other keys shuffle differently."""
    cls = dict(celeb=CelebAHQ, celeb_restore=CelebAHQRestore)[case['cls']]
    n = 30000
    data = np.zeros((n, 2, 2, 3), np.float32)
    data.reshape(n, 12)[:] = np.arange(n)[:, None] + np.arange(12)[None] / 16.
    d = tempfile.mkdtemp(prefix='vf_')
    try:
        path = os.path.join(d, 'd.npy')
        np.save(path, data)
        key = jax.random.PRNGKey(case['seed'])
        task = 'inpaint-1' if 'restore' in case['cls'] else 'supr'
        te, tr = [sut(cls, key, path, 2, task, test) for test in (True, False)]
    finally:
        shutil.rmtree(d)
    a, b = np.asarray(te.xs), np.asarray(tr.xs)
    ensure(te.n == a.shape[0] and tr.n == b.shape[0], lambda: f'sizes {te.n}, {tr.n} of {a.shape[0]}, {b.shape[0]} items')
    ia, ib = ids(a), ids(b)
    ensure(np.array_equal(a, data[ia]) and np.array_equal(b, data[ib]), 'the items are not those of the file')
    ensure(not set(ia.tolist()) & set(ib.tolist()), lambda: f'test and training data share {len(set(ia.tolist()) & set(ib.tolist()))} items')
    ensure(len(set(ia.tolist()) | set(ib.tolist())) == n and len(ia) + len(ib) == n, 'test and training data do not make up the file')
    ensure(te.image_shape == (2, 2, 3), 'image shape')
    # a random test part: the number of original first thousand items in it is hypergeometric (mean 33, sd 5.6)
    k = int(np.sum(ia < 1000))
    ensure(k < 120, f'{k} of the first thousand items of the file are in the test part: not shuffled')
    return dict(nontrivial=True, labels=[case['cls']], runs=2)


@sub(cases=[dict(cls=c, test=t, seed=s) for c in ('mnist', 'mnist_restore', 'cifar') for t, s in ((True, 3), (False, 4))])
def files(case):
    """The file-backed datasets hold every item of their part of the file once, shuffled."""
    mn = case['cls'] != 'cifar'
    n = 10000 if case['test'] else (60000 if mn else 50000)
    shape = (28, 28, 1) if mn else (32, 32, 3)
    arr = np.zeros((n,) + ((28, 28) if mn else shape), np.uint8)
    flat = arr.reshape(n, -1)
    for j in range(3):
        flat[:, j] = (np.arange(n) >> (8 * j)) & 255
    flat[:, -1] = flat[:, 0]
    name = {('m', True): 'X_test', ('m', False): 'X', ('c', True): 'test_data', ('c', False): 'train_data'}[('m' if mn else 'c', case['test'])]
    other = {'X': 'X_test', 'X_test': 'X', 'test_data': 'train_data', 'train_data': 'test_data'}[name]
    d = tempfile.mkdtemp(prefix='vf_')
    try:
        path = os.path.join(d, 'd.npz')
        np.savez(path, **{name: arr, other: arr[:1]})
        cls = dict(mnist=MNIST, mnist_restore=MNISTRestore, cifar=CIFAR10)[case['cls']]
        ds = sut(cls, jax.random.PRNGKey(case['seed']), path, test=case['test'])
    finally:
        shutil.rmtree(d)
    xs = np.asarray(ds.xs)
    ensure(xs.shape == (n,) + shape and ds.n == n and tuple(ds.image_shape) == shape, lambda: f'{case}: shape {xs.shape}, n {ds.n}')
    f = xs.reshape(n, -1)
    i = sum(f[:, j].astype(int) << (8 * j) for j in range(3))
    ensure(len(set(i.tolist())) == n and i.min() == 0 and i.max() == n - 1, f'{case}: items are missing or repeated')
    ensure(np.array_equal(f[:, -1], f[:, 0]), f'{case}: items are mixed up')
    ensure(int(np.sum(i == np.arange(n))) < 60, f'{case}: not shuffled')
    return dict(nontrivial=True, labels=[case['cls']])

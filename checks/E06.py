"""Cases: the data preparation scripts (datasets/make_cifar10.py, datasets/celebaHQ/convert.py), each run as a program in a scratch directory on generated
source files (CIFAR-10 batches with random pixels, JPEG pictures with random smooth or noisy content) with the size constants of the original datasets
set to a few images; every image of every output against the source, channel by channel and pixel by pixel, the low-resolution copy against the triangle
kernel in float64, the order of the images, the range, the type; and the script that makes the random keys of the experiments, run twice. Non-trivial: all."""
import os
import pickle
import numpy as np
from hypothesis import strategies as st
from vf.core import sub, sut, ensure
from vf import gen, scripts

ASSUMPTIONS = ['a few images instead of 60000 / 30000: the size literals of the scripts are replaced']


@sub(lambda: st.fixed_dictionaries(dict(n=st.integers(1, 12), seed=gen.seeds, low=st.booleans())), quick=6, thorough=60, shards=2)
def cifar_batches(case):
    rs = np.random.default_rng(case['seed'])
    n = case['n']
    hi = 4 if case['low'] else 256
    src = rs.integers(0, hi, size=(6, n, 3072)).astype(np.uint8)

    def put(cwd):
        for base in (cwd, os.path.join(cwd, 'datasets')):
            os.makedirs(os.path.join(base, 'cifar-10-batches-py'))
            for i in range(6):
                with open(os.path.join(base, 'cifar-10-batches-py', f'data_batch_{i + 1}' if i < 5 else 'test_batch'), 'wb') as f:
                    pickle.dump({b'batch_label': b'', b'labels': [0] * n, b'data': src[i], b'filenames': []}, f)
    r = sut(scripts.run, 'datasets/make_cifar10.py', [], put, numbers={50000: 5 * n, 10000: n})
    if r is None:
        return dict(nontrivial=False, labels=['configuration not found'])
    ensure('cifar10' in r.saved, lambda: f'saved {sorted(r.saved)}')
    a = r.saved['cifar10']
    img = np.moveaxis(src.reshape(6, n, 3, 32, 32), 2, -1) / 255.
    for k, w in (('train_data', img[:5].reshape(5 * n, 32, 32, 3)), ('test_data', img[5])):
        ensure(k in a, lambda: f'{k} is not saved: {sorted(a)}')
        ensure(a[k].shape == w.shape and a[k].dtype == np.float32, lambda: f'{k}: shape {a[k].shape}, type {a[k].dtype}')
        ensure(np.allclose(a[k], w, atol=1e-6), lambda: f'{k}: differs from the pixels of the batches by {np.abs(a[k] - w).max():.3g}')
    return dict(nontrivial=True)


def triangle(m):
    """Weights of the halving triangle kernel on m samples."""
    w = np.zeros((m // 2, m))
    for i in range(m // 2):
        for j in range(m):
            w[i, j] = max(0., 1 - abs(j + 0.5 - (2 * i + 1)) / 2)
    return w / w.sum(1, keepdims=True)


@sub(lambda: st.fixed_dictionaries(dict(n=st.integers(1, 9), quality=st.sampled_from([40, 75, 95]), noise=st.booleans(), seed=gen.seeds)), quick=6, thorough=60, shards=2)
def celeba_pictures(case):
    from PIL import Image
    rs = np.random.default_rng(case['seed'])
    n = case['n']
    src = []

    def put(cwd):
        for base in (cwd, os.path.join(cwd, 'datasets/celebaHQ')):
            os.makedirs(os.path.join(base, 'data128x128'))
        for i in range(n):
            x = rs.integers(0, 256, size=(128, 128, 3)) if case['noise'] else np.clip(rs.integers(0, 256, 3) + np.linspace(-80, 80, 128)[:, None, None] * rs.normal(size=3)
                                                                                    + np.linspace(-80, 80, 128)[None, :, None] * rs.normal(size=3), 0, 255)
            for base in (cwd, os.path.join(cwd, 'datasets/celebaHQ')):
                p = os.path.join(base, f'data128x128/{i + 1:05}.jpg')
                Image.fromarray(x.astype(np.uint8)).save(p, quality=case['quality'])
            src.append(np.asarray(Image.open(p)).astype(float) / 255)
    r = sut(scripts.run, 'datasets/celebaHQ/convert.py', [], put, numbers={30000: n})
    if r is None:
        return dict(nontrivial=False, labels=['configuration not found'])
    src = np.array(src)
    w = triangle(128)
    small = np.einsum('ia,jb,nabc->nijc', w, w, src)
    for k, want, tol in (('celeba_hq128', src, 1e-6), ('celeba_hq64', small, 2e-5)):
        ensure(k in r.saved, lambda: f'{k} is not saved: {sorted(r.saved)}')
        a = r.saved[k]
        ensure(a.shape == want.shape and a.dtype == np.float32, lambda: f'{k}: shape {a.shape}, type {a.dtype}')
        ensure(a.min() >= 0 and a.max() <= 1 + 1e-6, lambda: f'{k}: range [{a.min()}, {a.max()}]')
        ensure(np.allclose(a, want, atol=tol), lambda: f'{k}: differs from the pictures by {np.abs(a - want).max():.3g}')
    return dict(nontrivial=True, labels=['noise' if case['noise'] else 'smooth'])


@sub(cases=[dict(runs=2)])
def experiment_keys(case):
    """The seeds of the experiments are distinct and come out the same again, as the ones the repository ships (the scripts take row --id of them)."""
    from vf import env
    a = [sut(scripts.run, 'generate_rng_keys.py', []).saved for _ in range(case['runs'])]
    for x in a:
        ensure('keys' in x, lambda: f'saved {sorted(x)}')
        k = x['keys']
        ensure(k.shape == (1000, 2) and k.dtype == np.uint32, lambda: f'keys: shape {k.shape}, type {k.dtype}')
        ensure(len(np.unique(k, axis=0)) == len(k), 'keys repeat')
        ensure(np.array_equal(k, a[0]['keys']), 'keys differ between two runs')
        ensure(np.array_equal(k, np.load(os.path.join(env.REPO, 'experiments/keys.npy'))), 'keys differ from those of the repository')
    return dict(nontrivial=True)

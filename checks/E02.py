"""Cases: the image restoration scripts (imgs/{inpainting,supr}{,_csgm,_twisted}.py, sb_imgs/supr.py, and the model of tabulators/plot_img_coalescence.py), each run as a program in a
scratch directory on a generated dataset of small images (the MNIST size where a script fixes it), with generated arguments (image size, hole or rate,
random or fixed mask, SDE, method, parameters). The trained network is replaced by one with known parameters: the exact score of
a Gaussian image model (vf/pictures.py). (1) model pieces a script exposes at generated states, observations, masks and times
against float64 formulas of the Euler steps of the reverse equation; (2) whole runs: which files appear, that the true image
is an item of the dataset, that what was observed stays in every restored image, that the saved pictures show the saved arrays,
and that test images do not depend on where a run starts; (3) mean and covariance of restored pixels against Gaussian
conditioning. Pieces that a script does not define under their present name are not examined. Non-trivial: more than one
unobserved pixel."""
import functools
import itertools
import math
import os
import numpy as np
import jax
import jax.numpy as jnp
from hypothesis import strategies as st
from vf.core import sub, sut, ensure
from vf import gen, stats, scripts, pictures

ASSUMPTIONS = ['the network is replaced by a stand-in with the interface of make_st_nn', 'celeba images of 4 to 9 pixels a side',
               'particle MCMC is not compared with the posterior (known finding of S03)']
T = 2.
SCRIPTS = ['inpainting', 'inpainting_csgm', 'inpainting_twisted', 'supr', 'supr_csgm', 'supr_twisted']
FIGURE = 'plot_img_coalescence'
ITEMS = 1003


def prepare(shape, seed, sde, epoch, mnist=False, rows=ITEMS, extra=None):
    p, e = pictures.parameters(shape, seed), pictures.parameters(shape, seed + 1)
    data = pictures.draw(shape, p, rows, seed + 2)

    def put(cwd):
        if mnist:
            np.savez(os.path.join(cwd, '../datasets/mnist.npz'), X_test=data, X=data[:0])
        else:
            np.save(os.path.join(cwd, f'datasets/celeba_hq{shape[0]}.npy'), data)
        for k, (a, b) in {epoch: (p, e), epoch + 1: (-p, -e)}.items():
            np.savez(os.path.join(cwd, f'checkpoints/celeba-{shape[0]}_{sde}_{k}.npz'), param=a, ema_param=b)
        if extra:
            extra(cwd)
    return put, p, e, data


class Run:
    """One run of an image script; ema: whether the averaged parameters are asked for."""

    def __init__(self, script, n, size, sde, seed, ema=False, rnd=False, nsteps=8, nparticles=4, args=()):
        self.shape, self.sde, self.ema = (n, n, 3), sde, ema
        put, p, e, self.data = prepare(self.shape, seed, sde, 7)
        self.param = np.asarray(e if ema else p, float)
        a = ['--dataset', f'celeba-{n}', '--sde', sde, '--test_nsteps', nsteps, '--test_epoch', 7]
        a += ['--rect_size' if holey(script) else '--rate', size] + (['--test_ema'] if ema else [])
        a += ['--rnd_mask'] if rnd and 'supr' in script else []
        a += [] if 'csgm' in script else ['--nparticles', nparticles]
        f = functools.partial(pictures.score, sde, self.shape)
        with pictures.Stub(f, p), scripts.figures():
            self.r = sut(scripts.run, f'tabulators/{script}.py' if script == FIGURE else f'imgs/{script}.py', a + list(args), put)
        self.nsteps, self.dt = nsteps, T / nsteps

    def drift(self, z, t):
        """Reverse drift in float64 for one image."""
        b2 = float(pictures.rate(self.sde, T - t))
        n = z.size
        bi = (T - t) if self.sde == 'const' else 0.02 * (T - t) + 0.5 * (5. - 0.02) / T * (T - t) ** 2
        F, Q = math.exp(-0.5 * bi), 1 - math.exp(-bi)
        s, r = np.exp(self.param[n:])
        a, b = F ** 2 * s ** 2 + Q, F ** 2 * r ** 2
        w = z - F * self.param[:n].reshape(z.shape)
        return 0.5 * b2 * z - b2 * (w - b / (a + n * b) * w.sum()) / a


@functools.lru_cache(maxsize=2)
def pieces_of(*key):
    return Run(*key, nsteps=12) if key[0] == FIGURE else Run(*key, args=('--ny0s', 1, '--nsamples', 0))


def call(f, *args, **kw):
    try:
        return np.asarray(f(*args, **kw), float)
    except TypeError:
        return None


def close(got, want, what, tol=2e-3, rel=2e-3):
    if got is None:
        return
    want = np.asarray(want, float)
    ensure(np.shape(got) == np.shape(want), lambda: f'{what}: shape {np.shape(got)}, expected {np.shape(want)}')
    ensure(np.all(np.abs(got - want) <= tol + rel * np.abs(want)), lambda: f'{what}: {np.ravel(got)[:4].tolist()}, exact '
           f'{np.ravel(want)[:4].tolist()}, largest difference {np.abs(got - want).max():.2e}')


def logpdf(x, m, sd):
    return float(np.sum(-0.5 * ((np.asarray(x, float) - m) / sd) ** 2 - math.log(sd) - 0.5 * math.log(2 * math.pi)))


def law(f, mean, cov, what, rs, n=8000):
    """f(keys) -> samples; a random choice of at most eight components is compared."""
    mean = np.ravel(mean)
    ix = np.sort(rs.permutation(mean.size)[:8])
    seed = int(rs.integers(2 ** 31))

    def run(stage, m):
        k = jax.random.split(jax.random.PRNGKey((seed + 7919 * stage) % 2 ** 31), m)
        return np.asarray(f(k), float).reshape(m, -1)[:, ix]
    try:
        o = run(0, 2)
    except TypeError:
        return
    c = cov * np.eye(len(ix)) if np.ndim(cov) == 0 else cov[np.ix_(ix, ix)]
    stats.gauss_moments_test(run, mean[ix], c, n, what, tol=2e-3)


def holey(script):
    return 'inpainting' in script or script == FIGURE


def sizes(script):
    if holey(script):
        return st.integers(4, 9).flatmap(lambda n: st.tuples(st.just(n), st.integers(1 + (script == FIGURE), n - 1)))
    return st.sampled_from([(4, 2), (6, 2), (6, 3), (8, 2), (8, 4), (9, 3)])


def split(img, mask):
    f = img.reshape(-1, img.shape[-1])
    return f[np.asarray(mask.unobs_inds_ravelled)], f[np.asarray(mask.obs_inds_ravelled)]


@sub(lambda part: st.sampled_from(part(list(itertools.product(SCRIPTS + [FIGURE], ['const', 'lin'])))).flatmap(lambda k: st.fixed_dictionaries(
    dict(static=st.just(list(k)), size=sizes(k[0]).map(list), ema=st.booleans(), rnd=st.booleans(), net=st.integers(0, 10 ** 4),
         t=st.integers(0, 7), scale=st.sampled_from([0.3, 1., 2.]), seed=gen.seeds))), quick=56, thorough=700, shards=14, tshards=14)
def pieces_are_one_diffusion(case):
    script, sde = case['static']
    R = pieces_of(script, *case['size'], sde, case['net'], case['ema'], case['rnd'])
    g, shape = R.r.g, R.shape
    rs = np.random.default_rng(case['seed'])
    what = f'{script}, {sde}, {shape}: '
    data = R.r.get('dataset')
    if data is None or not hasattr(data, 'gen_mask'):
        return dict(nontrivial=False, labels=['no dataset'])
    mask = data.gen_mask(jax.random.PRNGKey(case['seed'] % 2 ** 31))
    t = case['t'] * R.dt
    b2 = float(pictures.rate(sde, T - t))
    sd = math.sqrt(R.dt * b2)
    z = (case['scale'] * rs.normal(size=(2,) + shape)).astype(np.float32)
    (u, v), (u2, _) = split(z[0], mask), split(z[1], mask)
    z64 = z.astype(float)
    d0 = R.drift(z64[0], t)
    img2 = z64[0].reshape(-1, 3).copy()
    img2[np.asarray(mask.unobs_inds_ravelled)] = u2
    d1 = R.drift(img2.reshape(shape), t)
    (du, dv), (du1, dv1) = split(d0, mask), split(d1, mask)
    noise = rs.normal(size=shape)
    nu, nv = split(noise, mask)
    seen = []

    def piece(n):
        f = R.r.get(n)
        if f is not None:
            seen.append(n)
        return f
    kw = dict(mask_=mask)
    close(R.r.get('param'), R.param, what + 'parameters in use', tol=1e-6)
    F, Q = (float(a) for a in pictures.coefficients(sde, T))
    if 'csgm' in script:
        f = piece('reverse_drift')
        if f and 'y_shape' in g:
            Ft, Qt = (float(a) for a in pictures.coefficients(sde, T - t))
            n = z64[0].size
            img = z64[0].reshape(-1, 3).copy()
            img[np.asarray(mask.obs_inds_ravelled)] *= Ft
            m = split(R.drift(img.reshape(shape), t), mask)[0]
            s, r = np.exp(R.param[n:])
            a, b = Ft ** 2 * s ** 2 + Qt, Ft ** 2 * r ** 2
            c = (b2 * b / (a + n * b) / a) ** 2 * Qt * v.size
            law(lambda ks: jax.vmap(lambda k: f(u, t, mask, k, v))(ks), m, c * np.ones((u.size, u.size)), what + f'reverse drift at t={t}', rs)
        if piece('cond_ref_sampler'):
            law(lambda ks: jax.vmap(lambda k: g['cond_ref_sampler'](k, v))(ks), np.zeros(u.size), 1., what + 'reference law', rs)
    elif 'twisted' in script:
        f = piece('reverse_drift')
        if f:
            close(call(f, z[0], t), d0, what + f'reverse drift at t={t}', tol=1e-2)
        f = piece('transition_logpdf')
        if f:
            x = z64[:, ...] + R.dt * np.stack([d0, R.drift(z64[1], t)]) + sd * np.stack([noise, noise[::-1]])
            close(call(f, x.astype(np.float32), z, t), [logpdf(x[0].astype(np.float32), z64[0] + R.dt * d0, sd),
                                                         logpdf(x[1].astype(np.float32), z64[1] + R.dt * R.drift(z64[1], t), sd)],
                  what + f'transition density at t={t}', tol=0.05)
        f = piece('init_sampler')
        if f:
            law(lambda ks: f(ks[0], len(ks)), np.zeros(shape), 1., what + 'initial law', rs)
        tw, cd = piece('twisting_logpdf'), piece('reverse_cond_drift')
        cond = None
        if cd:
            cond = call(cd, z[0], t, v, mask)
        if tw and cond is not None:
            w = rs.normal(size=shape)
            # quadratic in the image: central differences are exact
            a, b = (call(tw, v, (z64[0] + h * w).astype(np.float32), t, mask) for h in (1., -1.))
            if a is not None and b is not None:
                got = float(np.sum(w * (cond - d0))) / b2
                want = float(a - b) / 2.
                ensure(abs(got - want) <= 2e-2 * (1 + abs(want) + 1e-3 * (abs(a) + abs(b)) + np.linalg.norm(cond - d0) / b2),
                       lambda: what + f'guidance at t={t}: slope {got:.5g}, of the twisting function {want:.5g}')
        f = piece('twisting_prop_logpdf')
        if f and cond is not None:
            x = (z64[0] + R.dt * cond + sd * noise).astype(np.float32)
            close(call(f, x[None], z[:1], t, v, mask), [logpdf(x, z64[0] + R.dt * cond, sd)], what + f'proposal density at t={t}', tol=0.05)
        f = piece('twisting_prop_sampler')
        if f and cond is not None and 'nparticles' in g:
            N = int(g['nparticles'])
            law(lambda ks: jax.vmap(lambda k: f(k, jnp.repeat(z[:1], N, 0), t, v, mask))(ks)[:, -1], z64[0] + R.dt * cond, sd ** 2,
                what + f'proposal law at t={t}', rs)
    else:
        f = piece('reverse_drift')
        if f:
            close(call(f, z[0], t), d0, what + f'reverse drift at t={t}', tol=1e-2)
        f = piece('transition_sampler')
        if f:
            law(lambda ks: f(jnp.repeat(jnp.asarray(u)[None], len(ks), 0), jnp.asarray(v), t, ks[0], **kw), u + du * R.dt, sd ** 2,
                what + f'transition law at t={t}', rs)
        us = np.stack([u, u2])
        f = piece('transition_logpdf')
        if f:
            x = (u + du * R.dt + sd * nu).astype(np.float32)
            close(call(f, x, us, v, t, **kw), [logpdf(x, u + du * R.dt, sd), logpdf(x, u2 + du1 * R.dt, sd)], what + f'transition density at t={t}', tol=0.05)
        f = piece('likelihood_logpdf')
        if f:
            x = (v + dv * R.dt + sd * nv).astype(np.float32)
            close(call(f, x, us, v, t, **kw), [logpdf(x, v + dv * R.dt, sd), logpdf(x, v + dv1 * R.dt, sd)], what + f'measurement density at t={t}', tol=0.05)
        f = piece('ref_sampler')
        if f:
            law(lambda ks: f(ks[0], jnp.asarray(v), len(ks)), np.zeros(u.size), 1., what + 'reference law', rs)
        for n, args, start in (('fwd_sampler', (u, v, mask), z64[0]), ('fwd_ys_sampler', (v,), v.astype(float))):
            f = piece(n)
            if f:
                h = jax.vmap(lambda k: f(k, *map(jnp.asarray, args[:2 - ('ys' in n)]), *args[2:]))
                o = call(h, jax.random.split(jax.random.PRNGKey(0), 2))
                if o is not None:
                    ensure(o.shape == (2, R.nsteps + 1) + start.shape, lambda: what + f'{n}: shape {o.shape}')
                    close(o[:, 0], np.stack([start] * 2), what + f'{n}: start', tol=1e-5)
                    law(lambda ks: h(ks)[:, -1], F * start, Q, what + f'{n}: terminal law', rs, n=4000)
    return dict(nontrivial=u.shape[0] > 1 and len(seen) > 1, labels=[script, sde, 'ema' if case['ema'] else 'param'] + [f'{script}: {s}' for s in dict.fromkeys(seen)])


METHODS = [['filter'], ['filter', '--marg'], ['gibbs'], ['gibbs-eb'], ['gibbs-eb-ef'], ['gibbs-eb', '--marg'], ['gibbs', '--init_method', 'filter'], ['pmcmc-0.1'], ['pmcmc']]
WHOLE = [(s, tuple(m)) for s in SCRIPTS for m in (METHODS if s in ('inpainting', 'supr') else [()])]


def indices_of(a, unobserved):
    """Unobserved (as many as given) and observed indices among the saved fields of a mask."""
    v = [np.asarray(a[k]) for k in sorted(a) if k != 'test_img' and np.ndim(a[k]) == 1]
    if len(v) != 2 or unobserved not in (v[0].size, v[1].size):
        return None
    return v if v[0].size == unobserved else v[::-1]


def holes(script, n, size):
    return size ** 2 if 'inpainting' in script else n * n - (n // size) ** 2


def find(data, img):
    return np.flatnonzero(np.all(data.reshape(len(data), -1) == img.ravel(), 1))


@sub(lambda part: st.sampled_from(part(WHOLE)).flatmap(lambda k: st.fixed_dictionaries(
    dict(run=st.just([k[0], list(k[1])]), size=sizes(k[0]).map(list), sde=st.sampled_from(['const', 'lin']), ema=st.booleans(), rnd=st.booleans(),
         net=st.integers(0, 10 ** 4), seed=st.integers(0, 10 ** 6), start=st.integers(0, 2)))), quick=len(WHOLE), thorough=16 * len(WHOLE), shards=11, tshards=11)
def what_was_observed_stays(case):
    script, m = case['run']
    args = (['--method'] + m) if m else []
    nsamples, ny0s = 3, 3
    common = ['--nsamples', nsamples, '--test_seed', case['seed']]
    R = Run(script, *case['size'], case['sde'], case['net'], case['ema'], case['rnd'],
            args=args + common + ['--ny0s', ny0s, '--start_from', case['start']])
    n, size = case['size']
    what = f'{script} {" ".join(m)}, {n}x{n}, {size}: '
    truth = {k: v for k, v in R.r.saved.items() if k.endswith('-true')}
    ensure(len(truth) == ny0s - case['start'], lambda: what + f'true images saved: {sorted(truth)}')
    by_k = {}
    for name, a in truth.items():
        img = np.asarray(a['test_img'])
        ensure(img.shape == R.shape, lambda: what + f'true image of shape {img.shape}')
        ensure(len(find(R.data, img)), what + 'the true image is not in the dataset')
        ix = indices_of(a, holes(script, n, size))
        if ix is not None:
            ensure(np.array_equal(np.sort(np.concatenate(ix)), np.arange(n * n)), what + 'the saved mask does not split the pixels')
        k = int(name[:-len('-true')].split('-')[-1])
        by_k[k] = (img, ix)
        pic = R.r.images.get(name)
        if pic is not None:
            close(pic[..., :3].astype(float), np.clip(img, 0, 1), what + 'picture of the true image', tol=1 / 250, rel=0)
        head = name[:-len('true')]
        arrays = {q: v for q, v in R.r.saved.items() if q.startswith(head) and q != name and not q.endswith('init')}
        ensure(len(arrays) == 1, lambda: what + f'arrays saved for {head}: {sorted(arrays)}')
        q, arr = list(arrays.items())[0]
        ensure(arr.shape == (nsamples,) + R.shape and np.all(np.isfinite(arr)), lambda: what + f'{q}: shape {arr.shape} or not finite')
        inits = [v for s, v in R.r.saved.items() if s.startswith(head) and s.endswith('init')]
        if 'twisted' not in script:
            if ix is not None:
                for im in list(arr) + inits:
                    ensure(np.array_equal(im.reshape(-1, 3)[ix[1]].astype(np.float32), img.reshape(-1, 3)[ix[1]].astype(np.float32)),
                           what + f'{q}: observed pixels have been changed')
                corrupt = R.r.images.get(head + 'corrupt')
                if corrupt is not None:
                    flat = np.clip(img, 0, 1).reshape(-1, 3).copy()
                    flat[ix[0]] = 0.
                    close(corrupt[..., :3].astype(float), flat.reshape(R.shape), what + 'picture of the corrupted image', tol=1 / 250, rel=0)
            else:
                kept = np.all(arr.astype(np.float32) == img, (0, 3))
                ensure(kept.sum() >= n * n - holes(script, n, size), what + f'{q}: observed pixels have been changed')
        if not any('pmcmc' in x or 'gibbs' in x for x in m):  # a chain may stay for a few steps
            ensure(not np.all(arr[0] == arr[1]) or not np.all(arr[1] == arr[2]), what + f'{q}: all restored images are the same')
        for i in range(nsamples):
            pics = [v for s, v in R.r.images.items() if s.startswith(head) and s.endswith(f'-{i}')]
            ensure(len(pics) == 1, lambda: what + f'{len(pics)} pictures of restored image {i}')
            close(pics[0][..., :3].astype(float), np.clip(arr[i], 0, 1), what + f'picture of restored image {i}', tol=1 / 250, rel=0)
    if case['start']:
        # the same images are restored wherever the run starts
        full = Run(script, *case['size'], case['sde'], case['net'], case['ema'], case['rnd'], nsteps=2, args=args + ['--nsamples', 0, '--test_seed', case['seed'], '--ny0s', ny0s])
        for name, a in full.r.saved.items():
            if name.endswith('-true'):
                k = int(name[:-len('-true')].split('-')[-1])
                if k in by_k:
                    ensure(np.array_equal(np.asarray(a['test_img']), by_k[k][0]), what + f'test image {k} depends on where the run starts')
                    ix = indices_of(a, holes(script, n, size))
                    ensure(ix is None or all(np.array_equal(p, q) for p, q in zip(ix, by_k[k][1])), what + f'mask {k} depends on where the run starts')
    return dict(nontrivial=len(by_k) > 0, labels=[script + ' ' + ' '.join(m), f'start {case["start"]}'], runs=1 + bool(case['start']))


LAWS = [(s, tuple(m)) for s in ('inpainting', 'supr') for m in (['filter'], ['filter', '--marg'], ['gibbs-eb'], ['gibbs-eb-ef'], ['gibbs'], ['gibbs-eb', '--marg'])]


@sub(lambda part: st.sampled_from(part(LAWS)).flatmap(lambda k: st.fixed_dictionaries(
    dict(run=st.just([k[0], list(k[1])]), net=st.integers(0, 10 ** 4), seed=st.integers(0, 10 ** 6), rnd=st.booleans()))), quick=len(LAWS), thorough=8 * len(LAWS),
    shards=len(LAWS), tshards=len(LAWS))
def restored_pixels_follow_the_posterior(case):
    script, m = case['run']
    n, size = (5, 2) if script == 'inpainting' else (4, 2)
    ns = 300
    what = f'{script} {" ".join(m)}: '

    def attempt(stage):
        R = Run(script, n, size, 'lin', case['net'] + stage, rnd=case['rnd'], nsteps=50, nparticles=50,
                args=['--method'] + m + ['--nsamples', ns, '--test_seed', case['seed'] + stage, '--ny0s', 1])
        truth = [v for k, v in R.r.saved.items() if k.endswith('-true')]
        arrs = [v for k, v in R.r.saved.items() if not k.endswith(('-true', 'init'))]
        ensure(len(truth) == 1 and len(arrs) == 1, what + 'saved files')
        ix = indices_of(truth[0], holes(script, n, size))
        if ix is None:
            return []
        img = np.asarray(truth[0]['test_img'], float).reshape(-1, 3)
        un, ob = ix
        mean, (s, r) = R.param[:-2].reshape(-1, 3), np.exp(R.param[-2:])
        z = (img - mean)[ob].ravel()
        tau = 1 / (1 / r ** 2 + z.size / s ** 2)
        f = tau * z.sum() / s ** 2
        x = (arrs[0].reshape(ns, -1, 3)[:, un] - mean[un] - f).reshape(ns, -1)
        ensure(np.all(np.isfinite(x)), what + 'not finite')
        if 'gibbs' in m[0]:
            x = x[ns // 8:]
        bad = []
        for name, v, lo, hi in (('root mean square error of the pixel means', np.sqrt((x.mean(0) ** 2).mean()) / s, 0, 0.22),
                                ('error of the mean image level', abs(x.mean()) / s, 0, 0.15),
                                ('variance ratio', x.var(0).mean() / (s ** 2 + tau), 0.78, 1.28),
                                ('variance ratio of the image level', x.mean(1).var() / (s ** 2 / x.shape[1] + tau), 0.5, 2.)):
            if not lo <= v <= hi:
                bad.append(f'{name} {v:.3f} outside [{lo}, {hi}]')
        return bad
    bad = attempt(0)
    if bad:
        bad = attempt(1) and attempt(2)
    ensure(not bad, lambda: what + 'restored pixels against the exact conditional: ' + '; '.join(bad))
    return dict(nontrivial=True, labels=[script + ' ' + ' '.join(m)], runs=1)


def bridge_drift(x, t, param):
    """A drift linear in the image, with different forward and backward parameters."""
    t = jnp.asarray(t)
    t = jnp.reshape(t, t.shape + (1,) * 3) if t.ndim else t
    return param[0] * (1 + t) * (x - param[1]) + param[2] * jnp.mean(x, axis=(-3, -2, -1), keepdims=True)


def bridge_drift64(x, t, p):
    return p[0] * (1 + t) * (x - p[1]) + p[2] * x.mean((-3, -2, -1), keepdims=True)


def bridge_run(rate, sde, step, seed, extra):
    rs = np.random.default_rng(seed)
    shape = (28, 28, 1)
    data = rs.uniform(size=(10000, 784)).astype(np.float32)
    fwd, bwd = (np.array([-0.5, 0.2, 0.3]) + 0.2 * rs.normal(size=(2, 3))).astype(np.float32)

    def put(cwd):
        np.savez(os.path.join(cwd, '../datasets/mnist.npz'), X_test=data, X=data[:1])
        for k in (step, step + 1):
            q = 1. if k == step else -1.
            np.savez(os.path.join(cwd, f'checkpoints/sb_mnist_{sde}_{k}.npz'), param_fwd=q * fwd, param_bwd=q * bwd)
    with pictures.Stub(bridge_drift, fwd):
        r = sut(scripts.run, 'sb_imgs/supr.py', ['--rate', rate, '--sde', sde, '--sb_step', step, '--test_nsteps', 8, '--nparticles', 4] + extra, put)
    return r, data.reshape(-1, *shape), fwd.astype(float), bwd.astype(float)


@sub(lambda part: st.fixed_dictionaries(dict(run=st.sampled_from(part([(s, m) for s in ('const', 'lin') for m in ('filter', 'gibbs')])).map(list),
                                             rate=st.sampled_from([2, 4, 7]), net=st.integers(0, 10 ** 4), y0=st.integers(0, 3), seed=gen.seeds, step=st.integers(0, 20),
                                             t=st.integers(0, 7))), quick=4, thorough=80, shards=4, tshards=4)
def bridge_restoration(case):
    sde, method = case['run']
    nsamples = 2
    r, data, fwd, bwd = bridge_run(case['rate'], sde, case['step'], case['net'], ['--method', method, '--nsamples', nsamples, '--y0_id', case['y0'], '--test_seed', case['net']])
    what = f'sb_imgs/supr, {sde}, {method}, rate {case["rate"]}: '
    truth = [a for k, a in r.saved.items() if k.endswith('-true')]
    ensure(len(truth) == 1, what + 'true image is not saved')
    img, ix = np.asarray(truth[0]['test_img']), indices_of(truth[0], holes('supr', 28, case['rate']))
    ensure(len(find(data, img)), what + 'the true image is not in the dataset')
    arrs = {k: v for k, v in r.saved.items() if not k.endswith(('-true', 'init')) and '-init-' not in k}
    ensure(len(arrs) == 3, lambda: what + f'saved arrays {sorted(arrs)}')
    for q, a in arrs.items():
        ensure(a.shape == (nsamples, 28, 28, 1) and np.all(np.isfinite(a)), what + f'{q}: shape {a.shape} or not finite')
        if ix is not None:
            for im in a:
                ensure(np.array_equal(im.reshape(-1)[ix[1]].astype(np.float32), img.reshape(-1)[ix[1]]), what + f'{q}: observed pixels have been changed')
    # pieces
    rs = np.random.default_rng(case['seed'])
    dataset = r.get('dataset')
    if dataset is None or not hasattr(dataset, 'gen_mask'):
        return dict(nontrivial=True, labels=[sde, method])
    mask = dataset.gen_mask(jax.random.PRNGKey(0))
    dt, t = 0.5 / 8, case['t'] * 0.5 / 8
    b2 = float(pictures.rate(sde, 0.5 - t, 0.5))
    sd = math.sqrt(dt * b2)
    z = rs.normal(size=(28, 28, 1)).astype(np.float32)
    (u, v), (nu, nv) = split(z, mask), split(rs.normal(size=z.shape), mask)
    du, dv = split(bridge_drift64(z.astype(float), 0.5 - t, bwd), mask)
    seen = []

    def piece(n):
        f = r.get(n)
        if f is not None:
            seen.append(n)
        return f
    kw = dict(mask_=mask)
    f = piece('transition_sampler')
    if f:
        law(lambda ks: f(jnp.repeat(jnp.asarray(u)[None], len(ks), 0), jnp.asarray(v), t, ks[0], **kw), u + du * dt, sd ** 2, what + f'transition law at t={t}', rs, n=4000)
    f = piece('transition_logpdf')
    if f:
        x = (u + du * dt + sd * nu).astype(np.float32)
        close(call(f, x, u[None], v, t, **kw), [logpdf(x, u + du * dt, sd)], what + f'transition density at t={t}', tol=0.1)
    f = piece('likelihood_logpdf')
    if f:
        x = (v + dv * dt + sd * nv).astype(np.float32)
        close(call(f, x, u[None], v, t, **kw), [logpdf(x, v + dv * dt, sd)], what + f'measurement density at t={t}', tol=0.1)
    f = piece('ref_sampler')
    if f:
        law(lambda ks: f(ks[0], jnp.asarray(v), len(ks)), np.zeros(u.size), 1., what + 'reference law', rs, n=4000)
    f = piece('fwd_sampler')
    if f:
        h = jax.vmap(lambda k: f(k, jnp.asarray(u), jnp.asarray(v), mask))
        o = call(h, jax.random.split(jax.random.PRNGKey(0), 2))
        if o is not None:
            ensure(o.shape == (2, 9, 28, 28, 1), lambda: what + f'fwd_sampler: shape {o.shape}')
            close(o[:, 0], np.stack([z] * 2), what + 'fwd_sampler: start', tol=1e-5)
            law(lambda ks: h(ks)[:, 1], z + dt * bridge_drift64(z.astype(float), 0., fwd), dt * float(pictures.rate(sde, 0., 0.5)), what + 'fwd_sampler: first step', rs, n=2000)
    for n, (lo, hi) in dict(random_x0_sampler=(0., 1.), blank_x0_sampler=(0., 0.), interp_x0_sampler=(float(v.min()), float(v.max()))).items():
        f = piece(n)
        o = call(f, jax.random.PRNGKey(1), jnp.asarray(v), mask_=mask) if f else None
        if o is not None:
            ensure(o.shape == u.shape and o.min() >= lo - 1e-5 and o.max() <= hi + 1e-5, what + f'{n}: shape {o.shape} or range')
    return dict(nontrivial=True, labels=[sde, method] + seen)

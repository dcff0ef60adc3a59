"""Cases: the training scripts (imgs/train.py, sb_imgs/train.py), each run as a program in a scratch directory on a generated
dataset with generated arguments (SDE, schedule, clipping, memory mode, loss implementation, batch size, time steps). The network is replaced by a
small family that contains the exact answer: (1) the score of the images N(m, s^2 I + r^2 11') with parameters m, log s, log r, started away from
those of the data: the saved parameters and their average have to come out as those of the data, and the script's own reverse simulator has to
turn noise into images of the data law; (2) drifts linear in the image with time-dependent coefficients: the learned bridge (its moments propagated in
float64) carries the data law to the reference law and back; (3) training and test images of the default settings partition
the dataset file. Non-trivial: all."""
import itertools
import os
import numpy as np
import jax
import jax.numpy as jnp
from hypothesis import strategies as st
from vf.core import sub, sut, ensure
from vf import scripts, pictures

ASSUMPTIONS = ['the network is replaced by a family with a few parameters that contains the exact answer',
               'tolerances allow for the finite dataset and the noise of stochastic gradients']
SHAPE = (4, 4, 3)
D = 48


def put_data(data):
    def put(cwd):
        np.save(os.path.join(cwd, f'datasets/celeba_hq{data.shape[1]}.npy'), data)
    return put


OPTS = [[], ['--save_mem'], ['--grad_clip'], ['--schedule', 'exp'], ['--schedule', 'const']]


@sub(lambda part: st.fixed_dictionaries(dict(run=st.sampled_from(part(list(itertools.product(['const', 'lin'], OPTS)))).map(list),
                                             seed=st.integers(0, 10 ** 4), nsteps=st.integers(2, 6), s=st.sampled_from([0.3, 0.5, 0.8]), r=st.sampled_from([0.3, 0.6]))),
     quick=10, thorough=80, shards=10, tshards=10)
def training_finds_the_data_law(case):
    sde, opts = case['run']
    rs = np.random.default_rng(case['seed'])
    true = pictures.parameters(SHAPE, case['seed'], case['s'], case['r'])
    data = pictures.draw(SHAPE, true, 30000, case['seed'] + 1)
    start = true + np.concatenate([0.3 * rs.normal(size=D), rs.choice([-0.4, 0.4], 2)]).astype(np.float32)
    with pictures.Stub(lambda x, t, p: pictures.score(sde, SHAPE, x, t, p), start):
        r = sut(scripts.run, 'imgs/train.py', ['--dataset', 'celeba-4', '--sde', sde, '--batch_size', 725, '--nsteps', case['nsteps'], '--lr', 0.005, '--nepochs', 100] + opts,
                put_data(data))
    what = f'imgs/train, {sde} {" ".join(opts)}: '
    ensure(list(r.saved) == [f'celeba-4_{sde}_99'], lambda: what + f'saved files {sorted(r.saved)}')
    a = list(r.saved.values())[0]
    for n in ('param', 'ema_param'):
        ensure(n in a, what + f'{n} is not saved')
        p = np.asarray(a[n], float)
        ensure(p.shape == true.shape and np.all(np.isfinite(p)), what + f'{n}: shape or not finite')
        err = np.abs(p - true)
        ensure(err[:D].max() < 0.1 and err[D:].max() < 0.06, lambda: what + f'{n}: errors {err[:D].max():.3f} of the mean image, {err[D:]} of the logarithmic scales')
    # the simulator of the script
    f = r.get('rev_sim')
    if f is not None and sde == 'lin':
        n = 1500
        x0 = jax.random.normal(jax.random.PRNGKey(case['seed']), (n,) + SHAPE)
        try:
            x = np.asarray(jax.jit(jax.vmap(f))(jax.random.split(jax.random.PRNGKey(case['seed'] + 1), n), x0), float)
        except TypeError:
            x = None
        if x is not None:
            ensure(x.shape == (n,) + SHAPE and np.all(np.isfinite(x)), what + f'rev_sim: shape {x.shape} or not finite')
            z = x.reshape(n, -1) - true[:D]
            s, q = case['s'], case['r']
            sd = np.sqrt(s ** 2 + q ** 2)
            ensure(np.abs(z.mean(0)).max() < 0.15 + 4.5 * sd / np.sqrt(n), lambda: what + f'simulated images: mean off by {np.abs(z.mean(0)).max():.3f}')
            for name, v, e in (('pixel variance', z.var(0).mean(), sd ** 2), ('variance of the image level', z.mean(1).var(), q ** 2 + s ** 2 / D)):
                ensure(0.8 < v / e < 1.25, lambda: what + f'simulated images: {name} {v:.4f}, of the data {e:.4f}')
    return dict(nontrivial=True, labels=[sde] + opts)


def bridge(x, t, p):
    """Drift linear in the image: coefficients quadratic in time."""
    t = jnp.asarray(t)
    t = jnp.reshape(t, t.shape + (1,) * 3) if t.ndim else t
    return (p[0] + p[1] * t + p[2] * t ** 2) * x + p[3] + p[4] * t + p[5] * t ** 2


def moments(p, mu, var, kind, T, backward, n=400):
    """Mean and variance of Euler-Maruyama from T to 0 (backward: drift at calendar time) or 0 to T."""
    ts = np.linspace(T, 0, n + 1) if backward else np.linspace(0, T, n + 1)
    h = T / n
    for t in ts[:-1]:
        a, b = p[0] + p[1] * t + p[2] * t ** 2, p[3] + p[4] * t + p[5] * t ** 2
        mu = mu + h * (a * mu + b)
        var = (1 + h * a) ** 2 * var + h * float(pictures.rate(kind, t, T))
    return mu, var


@sub(lambda part: st.fixed_dictionaries(dict(run=st.sampled_from(part(list(itertools.product(['const', 'lin'], [[], ['--vmap_loss']])))).map(list), clip=st.booleans(),
                                             seed=st.integers(0, 10 ** 4), mu=st.sampled_from([-2., -1.5, 2.]), s=st.sampled_from([0.5, 0.7, 1.2]))),
     quick=4, thorough=32, shards=4, tshards=8)
def bridge_joins_data_and_reference(case):
    sde, opts = case['run']
    T = 0.5
    rs = np.random.default_rng(case['seed'])
    mu, s = case['mu'], case['s'] if sde == 'const' else min(case['s'], 0.7)
    a, b = (0.04, 0.1) if sde == 'const' else (0.05, 0.15)  # what 600 steps of the optimiser leave
    data = (mu + s * rs.normal(size=(30000,) + SHAPE)).astype(np.float32)
    nsbs = 3
    with pictures.Stub(bridge, np.zeros(6, np.float32)):
        r = sut(scripts.run, 'sb_imgs/train.py', ['--dataset', 'celeba-4', '--sde', sde, '--T', T, '--batch_size', 145, '--nsteps', 48, '--lr', 0.05, '--nepochs', 3, '--nsbs', nsbs,
                                                  '--schedule', 'const'] + opts + (['--grad_clip'] if case['clip'] else []), put_data(data))
    what = f'sb_imgs/train, {sde} {" ".join(opts)}: '
    ensure(sorted(r.saved) == [f'sb_celeba-4_{sde}_{i}' for i in range(nsbs)], lambda: what + f'saved files {sorted(r.saved)}')
    P = [{k: np.asarray(v, float) for k, v in r.saved[f'sb_celeba-4_{sde}_{i}'].items()} for i in range(nsbs)]
    F, Q = (float(x) for x in pictures.coefficients(sde, T, T))
    # every half iteration learns the reversal of the process it has simulated
    end = (F * mu, F ** 2 * s ** 2 + Q)
    for i, p in enumerate(P):
        got = [(f'iteration {i}: data from the end of the forward process', moments(p['param_bwd'], *end, sde, T, True), (mu, s ** 2)),
               (f'iteration {i}: reference from the end of the backward process', moments(p['param_fwd'], *moments(p['param_bwd'], 0., 1., sde, T, True), sde, T, False), (0., 1.))]
        end = moments(p['param_fwd'], mu, s ** 2, sde, T, False)
        for n, g, w in got:
            ensure(np.isfinite(g[1]) and abs(g[0] - w[0]) < a + b * np.sqrt(w[1]) and 0.72 < g[1] / w[1] < 1.38,
                   lambda: what + f'{n}: mean and variance {g[0]:.3f}, {g[1]:.3f} instead of {w[0]:.3f}, {w[1]:.3f}')
    return dict(nontrivial=True, labels=[sde] + opts)


@sub(lambda part: st.fixed_dictionaries(dict(script=st.sampled_from(part(['inpainting', 'supr', 'inpainting_csgm', 'supr_csgm', 'inpainting_twisted', 'supr_twisted'])),
                                             train=st.sampled_from(['imgs/train.py', 'sb_imgs/train.py']), seed=st.integers(0, 10 ** 4))),
     quick=6, thorough=24, shards=3, tshards=6)
def training_and_test_images_are_disjoint(case):
    data = np.random.default_rng(case['seed']).normal(size=(30000,) + SHAPE).astype(np.float32)
    param = np.concatenate([np.zeros(D + 2)]).astype(np.float32)

    def put(cwd):
        put_data(data)(cwd)
        np.savez(os.path.join(cwd, 'checkpoints/celeba-4_lin_2999.npz'), param=param, ema_param=param)
    seen = []
    score = lambda x, t, p: -x * jnp.exp(p[D])
    small = ['--dataset', 'celeba-4', '--batch_size', 14500, '--nepochs', 1, '--schedule', 'const'] + (['--nsbs', 0] if 'sb' in case['train'] else [])
    size = ['--rect_size', 2] if 'inpainting' in case['script'] else ['--rate', 2]
    for script, args in ((case['train'], small), (f'imgs/{case["script"]}.py', ['--dataset', 'celeba-4', '--ny0s', 0] + size)):
        with pictures.Stub(score, param):
            r = sut(scripts.run, script, args, put)
        d = r.get('dataset')
        if d is None or not hasattr(d, 'xs'):
            return dict(nontrivial=False, labels=['no dataset'])
        seen.append({row.tobytes() for row in np.asarray(d.xs, np.float32).reshape(len(d.xs), -1)})
    every = {row.tobytes() for row in data.reshape(len(data), -1)}
    what = f'{case["train"]} and {case["script"]}: '
    ensure(not seen[0] & seen[1], lambda: what + f'{len(seen[0] & seen[1])} images are used for training and for testing')
    ensure(seen[0] | seen[1] == every, what + 'training and test images are not the whole dataset')
    return dict(nontrivial=True, labels=[case['script'], case['train']], runs=2)

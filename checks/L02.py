"""Cases: drifts (linear, nonlinear, time-dependent, with parameters), dispersions (zero, constant, time-dependent), increasing and
decreasing irregular grids, step sizes, batches, keys, parameters of the regressed function. Double precision. The states and
times handed to the parametric function are recorded by a callback; path law, loss and gradient are recomputed from them.
Non-trivial: more than one step or item."""
import functools
import numpy as np
import jax
import jax.numpy as jnp
from hypothesis import strategies as st
from vf.core import sub, sut, ensure
from vf import gen, stats
from fbs.dsb.base import ipf_loss_disc, ipf_loss_cont, ipf_loss_cont_v

LOG = []


def record(x, t):
    LOG.append((np.array(x, np.float64), np.array(t, np.float64)))


def drift(kind, x, t, q, m):
    if kind == 'lin':
        return q[0] * x + q[1]
    if kind == 'time':
        return q[0] * x * (1. + t) + q[1] * m.cos(2. * t)
    if kind == 'nonlin':
        return q[0] * m.sin(x) - q[1] * x * t
    return 0. * x  # 'zero'


def disp(kind, t, c, m):
    return {'zero': 0. * t, 'const': c + 0. * t, 'time': c * (1. + 0.5 * m.sin(3. * t))}[kind]


def feats(x, t, m):
    return [m.sin(x), m.cos(3. * t) + 0. * x, x * t]


def par(x, t, p):
    f = feats(x, t, jnp)
    return p[0] * f[0] + p[1] * f[1] + p[2] * f[2]


def par_rec(x, t, p):
    jax.debug.callback(record, x, t)
    return par(x, t, p)


@functools.lru_cache(maxsize=None)
def runner(fn, kind, dk, shape, n, K, rec):
    pf = par_rec if rec else par

    def f(p, q, x0s, ts, gam, c, key):
        sim = lambda x, t, q_: drift(kind, x, t, q_, jnp)
        if fn == 'disc':
            loss = lambda p_: ipf_loss_disc(p_, q, x0s, ts, gam, pf, sim, key)
        else:
            g = dict(cont=ipf_loss_cont, cont_v=ipf_loss_cont_v)[fn]
            loss = lambda p_: g(key, p_, q, x0s, ts, pf, sim, lambda t: disp(dk, t, c, jnp))
        return loss(p) if rec else jax.value_and_grad(loss)(p)

    return jax.jit(f)


SHAPES = {'disc': [(2,), (1,)], 'cont': [(2,), (), (2, 2, 1)], 'cont_v': [(2,), (), (2, 2, 1)]}
STATIC = [(fn, kind, dk, sh, n, K) for fn in ('disc', 'cont', 'cont_v') for i, kind in enumerate(['lin', 'time', 'nonlin'])
          for dk in (['zero', 'const', 'time'][i],) for sh in SHAPES[fn] for n, K in [(3, 4), (1, 1)]]


def strat(part, static=STATIC):
    def build(c):
        return st.fixed_dictionaries(dict(cfg=st.just([c[0], c[1], c[2], list(c[3]), c[4], c[5]]),
                                          incs=st.lists(gen.fl(0.02, 0.8), min_size=c[5], max_size=c[5]),
                                          t0=st.sampled_from([0., 0.3]), rev=st.booleans(),
                                          gam=st.lists(gen.fl(0.01, 1.5), min_size=c[5], max_size=c[5]),
                                          q=st.lists(gen.fl(-1.5, 1.5), min_size=2, max_size=2),
                                          p=st.lists(gen.fl(-2., 2.), min_size=3, max_size=3), c=gen.fl(0.1, 2.), seed=gen.seeds))

    return st.sampled_from(part(static)).flatmap(build)


def setup(case):
    fn, kind, dk, shape, n, K = case['cfg']
    ts = case['t0'] + np.r_[0., np.cumsum(case['incs'])]
    if case['rev']:
        ts = ts[::-1].copy()
    r = np.random.default_rng(case['seed'] ^ 0x77)
    x0s = r.normal(size=(n,) + tuple(shape)) * 1.5
    return fn, kind, dk, tuple(shape), n, K, ts, x0s


def call(cfg, case, ts, x0s, key, p=None, grad=True):
    LOG.clear()
    args = (np.asarray(case['p'] if p is None else p), np.asarray(case['q']), jnp.asarray(x0s), jnp.asarray(ts),
            jnp.asarray(np.asarray(case['gam'])), case['c'], key)
    loss = float(sut(runner(*cfg, True), *args))
    jax.effects_barrier()
    log = list(LOG)
    if not grad:
        return loss, None, log
    l2, g = sut(runner(*cfg, False), *args)
    ensure(abs(loss - float(l2)) <= 1e-9 * (1 + abs(loss)), f'two values of the loss at the same arguments: {loss}, {l2}')
    return loss, np.asarray(g), log


class NotUnderstood(Exception):
    pass


UNKNOWN = dict(nontrivial=False, labels=['evaluations of the function not understood'])


def path(log, ts, x0s, what):
    K = len(ts) - 1
    g = gen.regroup(log, len(x0s), x0s.shape[1:])
    if g is None:
        raise NotUnderstood
    ensure(len(g) == K, lambda: f'{what}: the parametric function was evaluated at {len(g)} instead of {K} times')
    if ts[-1] < ts[0]:
        g = g[::-1]
    got = np.array([t for t, _ in g])
    ensure(np.allclose(got, ts[1:], atol=1e-12), lambda: f'{what}: the parametric function was evaluated at times {got.tolist()}, '
           f'the next times of the grid are {ts[1:].tolist()}')
    return np.stack([x0s] + [x for _, x in g])


def pieces(case, fn, kind, dk, ts):
    q, c = case['q'], case['c']
    if fn == 'disc':
        step = lambda x, k: drift(kind, x, ts[k], q, np)
        sd = np.sqrt(np.asarray(case['gam']))
        mul = np.ones(len(ts) - 1)
        tgt = lambda x, y, k: y + step(x, k) - step(y, k)
    else:
        dts = np.abs(np.diff(ts))
        step = lambda x, k: x + drift(kind, x, ts[k], q, np) * dts[k]
        sd = np.array([np.sqrt(dts[k]) * disp(dk, ts[k], c, np) for k in range(len(dts))])
        mul = dts
        tgt = lambda x, y, k: step(x, k) - step(y, k)
    return step, sd, mul, tgt


@sub(strat, quick=240, thorough=8000, shards=8, x64=True)
def value(case):
    fn, kind, dk, shape, n, K, ts, x0s = setup(case)
    key = jax.random.PRNGKey(case['seed'])
    what = f'ipf_loss_{fn}'
    loss, grad, log = call((fn, kind, dk, shape, n, K), case, ts, x0s, key)
    try:
        X = path(log, ts, x0s, what)
    except NotUnderstood:
        return UNKNOWN
    step, sd, mul, tgt = pieces(case, fn, kind, dk, ts)
    p = np.asarray(case['p'])
    ex, eg, scale = 0., np.zeros(3), 1e-12
    for k in range(K):
        y = X[k + 1]
        f = np.stack(feats(y, ts[k + 1], np))
        res = np.tensordot(p, f, 1) * mul[k] - tgt(X[k], y, k)
        w = 1. if fn == 'disc' else 1. / K
        ex += np.mean(res ** 2) * w
        eg += np.array([np.mean(2 * res * fi * mul[k]) for fi in f]) * w
        scale += np.mean(res ** 2 + tgt(X[k], y, k) ** 2 + y ** 2)
        if sd[k] == 0.:
            ensure(np.allclose(y, step(X[k], k), rtol=1e-9, atol=1e-9), lambda: f'{what}: step {k} without noise goes to {y.tolist()}, '
                   f'the simulator to {step(X[k], k).tolist()}')
    ensure(abs(loss - ex) <= 1e-9 * (scale + ex), lambda: f'{what}: {loss}, documented value {ex}')
    ensure(np.all(np.abs(grad - eg) <= 1e-8 * (scale + np.abs(eg))), lambda: f'{what}: gradient {grad.tolist()}, expected {eg.tolist()}')
    labels = [what, 'decreasing' if case['rev'] else 'increasing', dk]
    if fn != 'disc':
        other = 'cont_v' if fn == 'cont' else 'cont'
        l2, g2, log2 = call((other, kind, dk, shape, n, K), case, ts, x0s, key)
        ensure(abs(loss - l2) <= 1e-9 * (scale + abs(loss)) and np.allclose(grad, g2, rtol=1e-8, atol=1e-8 * scale),
               f'ipf_loss_{other} gives {l2}, ipf_loss_{fn} gives {loss} for the same key')
    return dict(nontrivial=n * K > 1, labels=labels)


@sub(strat, quick=80, thorough=2000, shards=8, x64=True)
def zero_at_target(case):
    """One step (so that the previous state can be recovered): the function hitting the target has zero loss. Constant data."""
    fn, kind, dk, shape, n, K, ts, x0s = setup(case)
    K, ts = 1, ts[:2]
    x0 = x0s[:1]
    x0s = np.broadcast_to(x0, x0s.shape)
    q, c = case['q'], case['c']
    key = jax.random.PRNGKey(case['seed'])
    sim = lambda x, t, q_: drift(kind, x, t, q_, jnp)
    t, dt = ts[0], abs(ts[1] - ts[0])

    def target(x, s, p):
        if fn == 'disc':
            return x + sim(x0, t, q) - sim(x, t, q) + p
        return ((x0 - x) + dt * (sim(x0, t, q) - sim(x, t, q))) / dt + p

    def f(p):
        if fn == 'disc':
            return ipf_loss_disc(p, jnp.asarray(q), jnp.asarray(x0s), jnp.asarray(ts), jnp.asarray(case['gam'][:1]), target, sim, key)
        g = dict(cont=ipf_loss_cont, cont_v=ipf_loss_cont_v)[fn]
        return g(key, p, jnp.asarray(q), jnp.asarray(x0s), jnp.asarray(ts), target, sim, lambda s: disp(dk, s, c, jnp))

    z = float(sut(f, 0.))
    ensure(abs(z) < 1e-9 * (1 + np.abs(x0).max() ** 2), f'ipf_loss_{fn}: {z} at the function hitting the target')
    e = case['p'][0]
    s, ex = float(sut(f, e)), (e if fn == 'disc' else e * dt) ** 2
    ensure(abs(s - ex) < 1e-8 * (1 + ex) * (1 + np.abs(x0).max() ** 2), f'ipf_loss_{fn}: {s} at an offset of {e}, expected {ex}')
    return dict(nontrivial=n > 1, labels=[fn], runs=2)


LAW = [(fn, kind, dk, sh, 1500, 3) for fn in ('disc', 'cont', 'cont_v') for kind, dk, sh in
       [('lin', 'const', (2,)), ('nonlin', 'time', (1,))] + ([('time', 'time', (1, 2, 1))] if fn != 'disc' else [])]


@sub(lambda part: strat(part, LAW), quick=40, thorough=500, shards=8, x64=True)
def noise_law(case):
    """The path is the simulator's with independent Gaussian noise of the documented scale."""
    fn, kind, dk, shape, n, K, ts, x0s = setup(case)
    step, sd, mul, tgt = pieces(case, fn, kind, dk, ts)
    what = f'ipf_loss_{fn}: noise of the simulated path'
    d = int(np.prod(shape))
    store = {}

    def sample(stage, m):
        if stage not in store:
            out = []
            for j in ([0] if stage == 0 else [1, 2, 3, 4]):
                _, _, log = call((fn, kind, dk, shape, n, K), case, ts, x0s,
                                 jax.random.PRNGKey((case['seed'] + 7919 * j) % 2 ** 31), grad=False)
                X = path(log, ts, x0s, what)
                out.append(np.concatenate([((X[k + 1] - step(X[k], k)) / sd[k]).reshape(n, d) for k in range(K)], 1))
            store[stage] = np.concatenate(out)
        return store[stage]

    D = d * K
    try:
        sample(0, n)
    except NotUnderstood:
        return UNKNOWN
    stats.gauss_moments_test(sample, np.zeros(D), np.eye(D), n, what, tol=1e-6)
    stats.normality_test(sample, np.zeros(D), np.eye(D), n, what)
    return dict(nontrivial=True, labels=[fn, dk])

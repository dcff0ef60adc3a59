"""Cases: kernel: recording model with a real linear SDE, state shapes, horizon, particle number, flags, reference indices,
keyword arguments. Initialisation: random finite-state models (law of x0 / of the path against the exact filtering /
smoothing law up to the particle error, exactly for one particle), and shapes and end points for a Gaussian model.
Non-trivial: at least two particles and the law not concentrated."""
import functools
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from hypothesis import strategies as st
from vf.core import sub, sut, ensure, fail
from vf import gen, stats, fsm
from fbs.samplers.gibbs import gibbs_kernel, gibbs_init
from fbs.sdes import StationaryConstLinearSDE

SDE = StationaryConstLinearSDE(a=-0.5, b=1.)
XSHAPES = [(), (3,), (2, 1), (2, 2, 1)]
KCFG = [(0, 1, 3), (1, 3, 4), (2, 2, 5), (3, 4, 2)]
KSTATIC = list(itertools.product(range(len(KCFG)), [False, True], [False, True], [False, True]))


@functools.lru_cache(None)
def kernel_runner(cfg, eb, ef, marg):
    xi, K, N = KCFG[cfg]
    xsh = XSHAPES[xi] + (3,)  # the last axis: label, recorded v_prev, recorded t_prev

    def run(key, x0, y0, us_star, bs, ts, a):
        def fwd_sampler(key_, x0_, y0_, **kw):
            z = jax.random.normal(key_, (K,) + xsh)
            px = jnp.concatenate([x0_[None], z], 0).reshape(K + 1, -1)
            py = y0_[None] + jnp.arange(K + 1.)[:, None] * kw['a']
            return jnp.concatenate([px, py], -1)

        def unpack(xy, **kw):
            return xy[..., :-2].reshape(xy.shape[:1] + xsh), xy[..., -2:]

        def tsamp(us_prev, v_prev, t_prev, key_, **kw):
            z = jax.random.normal(key_, us_prev.shape)
            return z.at[..., 1].set(v_prev[0]).at[..., 2].set(t_prev + kw['a'])

        def lik(v, us_prev, v_prev, t_prev, **kw):
            x = us_prev.reshape(us_prev.shape[0], -1)[:, 0]
            return jnp.sin(3 * x + v[0] * kw['a']) + 300.

        return gibbs_kernel(key, x0, y0, us_star, bs, ts, fwd_sampler, SDE, unpack, N, tsamp, None, lik,
                            marg_y=marg, explicit_backward=eb, explicit_final=ef, a=a)

    return jax.jit(run)


@sub(lambda part: st.fixed_dictionaries(dict(static=st.sampled_from(part(KSTATIC)), a=gen.fl(0.3, 3.), seed=gen.seeds)),
     quick=400, thorough=6000, shards=8)
def kernel_state_consistent(case):
    cfg, eb, ef, marg = case['static']
    xi, K, N = KCFG[cfg]
    xsh = XSHAPES[xi] + (3,)
    r = np.random.default_rng(case['seed'])
    x0 = r.normal(size=xsh).astype(np.float32)
    y0 = r.normal(size=2).astype(np.float32)
    us = r.normal(size=(K + 1,) + xsh).astype(np.float32)
    bs = r.integers(0, N, size=K + 1)
    ts = (np.linspace(0, 1, K + 1) ** 1.5 + r.choice([0., 0.3])).astype(np.float32)
    x0n, usn, bsn, acc = [np.asarray(v) for v in sut(kernel_runner(cfg, eb, ef, marg), jax.random.PRNGKey(case['seed']), x0, y0,
                                                     us, bs, ts, np.float32(case['a']))]
    what = f'N={N} K={K} explicit_backward={eb} explicit_final={ef} marg_y={marg}: '
    ensure(x0n.shape == xsh and usn.shape == us.shape and bsn.shape == (K + 1,) and acc.shape == (K + 1,),
           lambda: what + f'shapes {x0n.shape} {usn.shape} {bsn.shape} {acc.shape}')
    ensure(np.array_equal(x0n, usn[-1]), lambda: what + 'the trajectory does not end in the returned x0')
    ensure(np.all(np.isfinite(usn)), lambda: what + 'not finite')
    ensure(bsn.min() >= 0 and bsn.max() < N + ef, lambda: what + f'indices {bsn.tolist()} out of range')
    ensure(acc.dtype == bool and np.array_equal(acc, bsn != bs), lambda: what + f'flags {acc.tolist()} for the indices '
           f'{bs.tolist()} -> {bsn.tolist()}')
    a = np.float32(case['a'])
    moved = 0
    py = (y0[None] + np.arange(K + 1)[:, None] * a)[::-1].astype(np.float32)

    def recorded(u, k):
        """u was drawn at step k: with the measurement of step k - 1 on the path that ends in y0."""
        lead = u.reshape(-1, 3)
        ok_t = np.allclose(lead[:, 2], ts[k - 1] + a, atol=1e-5)
        ok_v = np.allclose(lead[:, 1], py[k - 1, 0], atol=1e-5) if (not marg or k == 1) else True
        return ok_t and ok_v

    if eb:
        moved = int(not np.array_equal(x0n, x0))
        ensure(not moved or recorded(x0n, K), lambda: what + 'the new x0 was not drawn at the last step given the path')
    else:
        # the states are either those of the freshly drawn reference path (index kept) or particles of their own step
        for k in range(1, K + 1):
            if bsn[k] != bs[k]:
                moved += 1
                ensure(recorded(usn[k], k), lambda: what + f'state {k} was not drawn at step {k} given the path of y')
        if bsn[K] == bs[K]:
            ensure(np.array_equal(x0n, x0), lambda: what + 'reference index kept, but x0 changed')
    return dict(nontrivial=N > 1 and moved > 0, labels=[f'explicit_backward={eb}', f'explicit_final={ef}', f'marg_y={marg}',
                                                        'moved' if moved else 'stayed'])


S = V = 2
M = 8000
ICFG = [(1, 2, 'filter'), (1, 2, 'smoother'), (300, 1, 'filter'), (300, 2, 'filter'), (300, 2, 'smoother'),
        (200, 3, 'smoother')]


@functools.lru_cache(None)
def init_runner(N, K, method, use_x0):
    def du(u):
        return (u[..., 0] > 0).astype(jnp.int32)

    def dv(v):
        return jnp.round(v[..., 0]).astype(jnp.int32)

    def enc(s, key):
        z = jax.random.normal(key, s.shape + (2,))
        return z.at[..., 0].set((2. * s - 1.) * jnp.abs(z[..., 0]))

    @jax.jit
    def run(key, tab, ts, vs, vs_other):
        def fwd_sampler(key_, x0, y0, **kw):
            # the path of y is another one if x0 was not handed through
            good = (x0[0] > 5.) if use_x0 else (x0[0] < 5.)
            py = jnp.where(good, vs, vs_other)[::-1]
            py = jnp.where(x0[0] == y0[0], py, py)
            z = jax.random.normal(key_, (K, 2))
            return jnp.concatenate([jnp.concatenate([x0[None], z], 0), py[:, None].astype(float)], -1)

        def unpack(xy, **kw):
            return xy[:, :2], xy[:, 2:]

        def tsamp(us_prev, v_prev, t_prev, key_, **kw):
            ka, kb = jax.random.split(key_)
            p = tab['T'][fsm.tindex(t_prev, ts), dv(v_prev), du(us_prev)]
            return enc(fsm.categorical(ka, p), kb)

        def tlog(u, us_prev, v_prev, t_prev, *a, **kw):
            return jnp.log(tab['T'][fsm.tindex(t_prev, ts), dv(v_prev), du(us_prev), du(u)])

        def lik(v, us_prev, v_prev, t_prev, *a, **kw):
            return jnp.log(tab['L'][fsm.tindex(t_prev, ts), dv(v_prev), du(us_prev), dv(v)])

        def one(k):
            x0 = jnp.array([9., 9.]) if use_x0 else None
            x0, us = gibbs_init(k, vs[-1:].astype(float), (2,), ts, fwd_sampler, None, unpack, tsamp, tlog, lik, N,
                                method=method, marg_y=False, x0=x0)
            return du(x0), du(us), jnp.all(x0 == us[-1])

        return jax.lax.map(jax.vmap(one), jax.random.split(key, M).reshape(8, M // 8, 2))

    return run


@sub(lambda part: st.fixed_dictionaries(dict(static=st.sampled_from(part(list(itertools.product(ICFG, [False, True])))),
                                             model=gen.seeds, seed=gen.seeds)), quick=48, thorough=600, shards=6)
def init_law(case):
    (N, K, method), use_x0 = case['static']
    tab = fsm.tables(case['model'], S, V, K, 0.7)
    tab['init'][:] = 0.5
    vs = fsm.good_vs(case['model'], tab, K, S, V)
    ts = fsm.times(case['model'], K)
    P, w = fsm.path_weights(tab, vs, K, S, init_potential=False)
    if N == 1:
        w = np.full(len(P), 0.5)
        for k in range(1, K + 1):
            w = w * tab['T'][k - 1, vs[k - 1], P[:, k - 1], P[:, k]]
    w = w / w.sum()
    if method == 'filter':
        w = np.bincount(P[:, -1], weights=w, minlength=S)
    dtab = {k: jnp.asarray(v, jnp.float32) for k, v in tab.items()}
    f = init_runner(N, K, method, use_x0)

    def run(stage, m):
        c = 0
        for rep in range(max(1, m // M)):
            x0, us, same = [np.asarray(a) for a in sut(f, jax.random.PRNGKey(case['seed'] + 7919 * stage + 104729 * rep),
                                                       dtab, jnp.asarray(ts, jnp.float32), vs, 1 - vs)]
            ensure(np.all(same), f'{method}: x0 is not the end point of the returned trajectory')
            us = us.reshape(-1, us.shape[-1])
            ensure(us.shape[1] == K + 1, 'length of the trajectory')
            c = c + (np.bincount(x0.ravel(), minlength=S) if method == 'filter' else stats.bincount_rows(us, S))
        return c

    stats.assert_law(run, w, M, f'gibbs_init {method}, N={N}, K={K}: law of the ' + ('x0' if method == 'filter' else 'path'),
                     eps=1e-5 if N == 1 else 0.02)
    return dict(nontrivial=N > 1 and w.max() < 0.98, runs=M, labels=[f'{method} N={N} K={K}', f'x0 given={use_x0}'])


PM = 16000


@functools.lru_cache(None)
def particle_runner(n, method):
    """A model whose particles carry their labels: the first transition labels them 0, ..., n - 1 (under a flat
    measurement density), the second keeps them and weighs them by w[label]. Whatever the random numbers, the law of
    a uniformly drawn particle of the resampled population is w exactly, for every n."""
    ts = jnp.array([0., 1., 2.])

    @jax.jit
    def run(key, w):
        def fwd_sampler(key_, x0, y0):
            return jnp.concatenate([jnp.broadcast_to(x0, (3, 1)), jnp.broadcast_to(y0, (3, 1))], -1)

        def unpack(xy):
            return xy[:, :1], xy[:, 1:]

        def tsamp(us, v, t, key_):
            return jnp.where(t < 0.5, jnp.arange(n, dtype=us.dtype)[:, None], us)

        def tlog(u, us, v, t):
            return jnp.zeros(us.shape[0])

        def lik(v, us, vp, t):
            lab = jnp.clip(jnp.round(us[:, 0]), 0, n - 1).astype(jnp.int32)
            return jnp.where(t < 0.5, 0., jnp.log(w)[lab])

        def one(k):
            x0, us = gibbs_init(k, jnp.zeros(1), (1,), ts, fwd_sampler, None, unpack, tsamp, tlog, lik, n,
                                method=method, marg_y=False)
            return jnp.round(x0[0]).astype(jnp.int32), jnp.round(us[-1, 0]).astype(jnp.int32)

        return jax.vmap(one)(jax.random.split(key, PM))

    return run


@sub(lambda part: st.fixed_dictionaries(dict(static=st.sampled_from(part(list(itertools.product([2, 3, 5], ['filter', 'smoother'])))),
                                             w=st.lists(st.floats(0.05, 1.), min_size=5, max_size=5), seed=gen.seeds)),
     quick=30, thorough=400, shards=6)
def init_draws_from_all_the_particles(case):
    n, method = case['static']
    w = np.array(case['w'][:n]); w = w / w.sum()
    f = particle_runner(n, method)

    def run(stage, m):
        c = 0
        for rep in range(max(1, m // PM)):
            x0, end = [np.asarray(a) for a in sut(f, jax.random.PRNGKey(case['seed'] + 7919 * stage + 104729 * rep),
                                                  jnp.asarray(w, jnp.float32))]
            ensure(np.all(x0 == end), f'{method}: x0 is not the end point of the returned trajectory')
            ensure(np.all((x0 >= 0) & (x0 < n)), f'{method}: x0 is not a particle')
            c = c + np.bincount(x0, minlength=n)
        return c

    stats.assert_law(run, w, PM, f'gibbs_init {method}: which of {n} particles of weights {np.round(w, 4).tolist()} is drawn')
    return dict(nontrivial=w.max() - w.min() > 0.02, runs=PM, labels=[f'{method} n={n}'])


INIT_STATIC = list(itertools.product(range(len(KCFG)), ['filter', 'smoother', 'debug', 'nonsense'], [False, True]))


@functools.lru_cache(None)
def init_shape_runner(cfg, method, marg):
    xi, K, N = KCFG[cfg]
    xsh = XSHAPES[xi]

    def run(key, y0, ts, a):
        def fwd_sampler(key_, x0, y0_, **kw):
            z = jax.random.normal(key_, (K,) + xsh)
            px = jnp.concatenate([x0[None], z], 0).reshape(K + 1, -1)
            return jnp.concatenate([px, y0_[None] + jnp.arange(K + 1.)[:, None] * kw['a']], -1)

        def unpack(xy, **kw):
            return xy[..., :-2].reshape(xy.shape[:1] + xsh), xy[..., -2:]

        def tsamp(us_prev, v_prev, t_prev, key_, **kw):
            return us_prev * 0.9 + 0.1 * jax.random.normal(key_, us_prev.shape)

        def tlog(u, us_prev, v_prev, t_prev, **kw):
            return -0.5 * jnp.sum(((u - 0.9 * us_prev) / 0.1).reshape(us_prev.shape[0], -1) ** 2, -1)

        def lik(v, us_prev, v_prev, t_prev, **kw):
            return -0.1 * (v[0] - us_prev.reshape(us_prev.shape[0], -1)[:, 0] * kw['a']) ** 2

        return gibbs_init(key, y0, xsh, ts, fwd_sampler, SDE, unpack, tsamp, tlog, lik, N, method=method, marg_y=marg, a=a)

    return jax.jit(run)


@sub(lambda part: st.fixed_dictionaries(dict(static=st.sampled_from(part(INIT_STATIC)), a=gen.fl(0.3, 3.), seed=gen.seeds)),
     quick=160, thorough=2000, shards=8)
def init_shapes_and_methods(case):
    cfg, method, marg = case['static']
    xi, K, N = KCFG[cfg]
    xsh = XSHAPES[xi]
    r = np.random.default_rng(case['seed'])
    args = (jax.random.PRNGKey(case['seed']), r.normal(size=2).astype(np.float32),
            np.linspace(0, 1, K + 1).astype(np.float32), np.float32(case['a']))
    if method == 'nonsense':
        try:
            init_shape_runner(cfg, method, marg)(*args)
        except ValueError:
            return dict(nontrivial=False, labels=['unknown method rejected'])
        fail('gibbs_init accepted an unknown method')
    x0, us = sut(init_shape_runner(cfg, method, marg), *args)
    if method == 'debug':
        ensure(np.shape(x0) == (K + 1, N) + xsh, lambda: f'debug: shape {np.shape(x0)}')
        return dict(nontrivial=False, labels=['debug'])
    x0, us = np.asarray(x0), np.asarray(us)
    ensure(x0.shape == xsh and us.shape == (K + 1,) + xsh, lambda: f'{method}: shapes {x0.shape} {us.shape}')
    ensure(np.all(np.isfinite(us)), lambda: f'{method}: not finite')
    ensure(np.array_equal(us[-1], x0), lambda: f'{method}: the trajectory does not end in the returned x0')
    return dict(nontrivial=N > 1, labels=[f'{method}', f'marg_y={marg}', f'K={K}'])

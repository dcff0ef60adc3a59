"""Cases: random finite-state joint backward models of (u_k, v_k) (tables depend on the step and on all states), horizon K,
particle number, initial reference indices (random per run, or one generated index per step), explicit_backward, explicit_final. The forward sampler
draws the path exactly from its conditional law given (x0, y0) by enumeration. From exact draws of p(x0 | y0), 40k-160k
applications of the kernel; law of the new x0 against the enumerated p(x0 | y0), also jointly with the returned path
where it is exact, and after a second application. Non-trivial: p(x0 | y0) not concentrated, N >= 2."""
import functools
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from hypothesis import strategies as st
from scipy.stats import norm
from vf.core import sub, sut, ensure
from vf import gen, stats, fsm
from fbs.samplers.gibbs import gibbs_kernel

ASSUMPTIONS = ['JAX PRNG gives independent uniform variables',
               'explicit_final: the first measurement density does not depend on the state (the initial weight of the '
               'kernel is an approximation otherwise)']
M = 40000
S = V = 2


def tables(seed, K, sharp, ef):
    tab = fsm.tables(seed, S, V, K, sharp)
    r = np.random.default_rng([seed, 3])
    pv = r.dirichlet(np.ones(V) * 2)
    if ef:
        # u_0 is the sign of a standard normal, independent of v_0; v_1 depends on v_0 only
        pu = np.array([0.5, 0.5])
        joint0 = np.outer(pu, pv)
        tab['L'][0] = tab['L'][0][:, :1]
        # with swapped roles (time reversal of the call) the density has to stay free of the state: it is
    else:
        joint0 = r.dirichlet(np.ones(S * V) * 2).reshape(S, V)
    tab['joint0'] = joint0
    return tab


def all_paths(tab, K):
    """All (u, v) paths and their probabilities, grouped by the last (u_K, v_K)."""
    P = np.array(list(itertools.product(range(S), repeat=K + 1)))
    Q = np.array(list(itertools.product(range(V), repeat=K + 1)))
    U, W = np.repeat(P, len(Q), 0), np.tile(Q, (len(P), 1))
    w = tab['joint0'][U[:, 0], W[:, 0]].copy()
    for k in range(1, K + 1):
        w *= tab['T'][k - 1, W[:, k - 1], U[:, k - 1], U[:, k]] * tab['L'][k - 1, W[:, k - 1], U[:, k - 1], W[:, k]]
    return U, W, w


def signed(s, z):
    """State s in {0, 1} as a number with sign 2 s - 1."""
    return (2. * s - 1.) * z


@functools.lru_cache(None)
def runner(N, K, eb, ef, ush, twice):
    cell = int(np.prod(ush, dtype=int))

    def du(u):
        return (u[(Ellipsis,) + (0,) * len(ush)] > 0).astype(jnp.int32)

    def dv(v):
        return jnp.round(v[..., 0]).astype(jnp.int32)

    def enc_u(s, key, shape):
        # the first coordinate carries the state, the others are independent noise
        z = jax.random.normal(key, shape + (max(cell, 1),))
        z = z.at[..., 0].set((2. * s - 1.) * jnp.abs(z[..., 0]))
        return z.reshape(shape + ush)

    @jax.jit
    def run(key, tab, ts, U, W, groups, x0cum, y0, bs, random_bs):
        """groups: (S, n) cumulative conditional weights of paths given (u_K = s, v_K = y0), indices."""
        cum = groups

        def fwd_sampler(key_, x0, y0_, **kw):
            ka, kb = jax.random.split(key_)
            c = cum[dv(y0_), du(x0)]
            i = jnp.searchsorted(c, jax.random.uniform(ka) * c[-1], side='right').clip(0, c.shape[0] - 1)
            us = enc_u(U[i], kb, (K + 1,))[::-1]
            us = us.at[0].set(x0)
            vs = W[i][::-1, None].astype(float)
            return jnp.concatenate([us.reshape(K + 1, -1), vs], -1)

        def unpack(xy, **kw):
            return xy[:, :-1].reshape((K + 1,) + ush), xy[:, -1:]

        def tsamp(us_prev, v_prev, t_prev, key_, **kw):
            ka, kb = jax.random.split(key_)
            p = tab['T'][fsm.tindex(t_prev, ts), dv(v_prev), du(us_prev)]
            return enc_u(fsm.categorical(ka, p), kb, (us_prev.shape[0],))

        def tlog(u, us_prev, v_prev, t_prev, *a, **kw):
            return jnp.log(tab['T'][fsm.tindex(t_prev, ts), dv(v_prev), du(us_prev), du(u)])

        def lik(v, us_prev, v_prev, t_prev, *a, **kw):
            return jnp.log(tab['L'][fsm.tindex(t_prev, ts), dv(v_prev), du(us_prev), dv(v)])

        def one(key_, b):
            k0, k1, k2, k3 = jax.random.split(key_, 4)
            s = jnp.searchsorted(x0cum, jax.random.uniform(k0) * x0cum[-1], side='right').clip(0, S - 1)
            x0 = enc_u(s, k1, ())
            y = y0[None].astype(float)
            us = jnp.zeros((K + 1,) + ush)
            x0, us, b, acc = gibbs_kernel(k2, x0, y, us, b, ts, fwd_sampler, None, unpack, N, tsamp, tlog, lik,
                                          marg_y=False, explicit_backward=eb, explicit_final=ef)
            if twice:
                x0, us, b, acc = gibbs_kernel(k3, x0, y, us, b, ts, fwd_sampler, None, unpack, N, tsamp, tlog, lik,
                                              marg_y=False, explicit_backward=eb, explicit_final=ef)
            return du(x0), du(us), b, jnp.all(x0 == us[-1])

        ka, kb = jax.random.split(key)
        bb = jnp.where(random_bs, jax.random.randint(ka, (M, K + 1), 0, N), bs[None, :])
        return jax.vmap(one)(jax.random.split(kb, M), bb)

    return run


CFG = [(2, 1), (3, 2), (2, 3), (5, 2), (1, 2), (8, 1)]
STATIC = list(itertools.product(range(len(CFG)), [False, True], [False, True]))


@sub(lambda part: st.fixed_dictionaries(dict(static=st.sampled_from(part(STATIC)),
                                        sharp=st.sampled_from([0.5, 1.5, 3.]), y0=st.integers(0, V - 1),
                                        bs=st.one_of(st.none(), st.lists(st.integers(0, 7), min_size=4, max_size=4)), model=gen.seeds, seed=gen.seeds)),
     quick=120, thorough=2500, shards=8)
def conditional_law_invariant(case):
    cfg, eb, ef = case['static']
    (N, K), y0 = CFG[cfg], case['y0']
    ush = (2,) if cfg % 2 else ()
    tab = tables(case['model'], K, case['sharp'], ef)
    U, W, w = all_paths(tab, K)
    ts = fsm.times(case['model'], K)
    cums = np.zeros((V, S, len(w)))
    for v in range(V):
        for s in range(S):
            m = (U[:, -1] == s) & (W[:, -1] == v)
            cums[v, s] = np.cumsum(w * m) / (w * m).sum()
    post = np.array([(w * ((U[:, -1] == s) & (W[:, -1] == y0))).sum() for s in range(S)])
    post /= post.sum()
    pathp = np.zeros(S ** (K + 1))
    code = np.zeros(len(w), int)
    for k in range(K + 1):
        code = code * S + U[:, k]
    np.add.at(pathp, code, w * (W[:, -1] == y0))
    pathp /= pathp.sum()
    f = runner(N, K, eb, ef, ush, cfg in (1, 3))
    dtab = {k: jnp.asarray(v, jnp.float32) for k, v in tab.items()}
    bs = np.array((case['bs'] or [0] * 4)[:K + 1]) % N
    got = {}

    def run(stage, m):
        c1, c2 = np.zeros(S), np.zeros(S ** (K + 1))
        for rep in range(max(1, m // M)):
            x0, us, b, same = [np.asarray(a) for a in sut(
                f, jax.random.PRNGKey(case['seed'] + 7919 * stage + 104729 * rep), dtab, jnp.asarray(ts, jnp.float32),
                U, W, jnp.asarray(cums, jnp.float32), jnp.asarray(np.cumsum(post), jnp.float32), jnp.asarray(y0),
                jnp.asarray(bs), case['bs'] is None)]
            ensure(np.all(same), 'x0 is not the end point of the returned path')
            # (explicit_final keeps the documented number of particles for the new random indices)
            ensure(b.min() >= 0 and b.max() < N + ef, lambda: f'reference indices up to {b.max()} with {N} particles')
            c1 += np.bincount(x0, minlength=S)
            c2 += stats.bincount_rows(us, S)
        return c1, c2

    what = f'gibbs_kernel N={N} K={K} explicit_backward={eb} explicit_final={ef}'
    stats.assert_law(lambda s, m: run(s, m)[1], pathp, M, what + ': law of the returned path given y0')
    return dict(nontrivial=post.max() < 0.98 and N > 1, runs=M,
                labels=[f'N={N} K={K}', f'explicit_backward={eb}', f'explicit_final={ef}',
                        'random b*' if case['bs'] is None else 'fixed b*'])

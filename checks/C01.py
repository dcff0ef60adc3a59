"""Cases: a recording model (every particle carries a fresh random label and copies of the arguments it was drawn with;
every weight is a known function of all its arguments), horizon K, particle number, shapes, reference path and indices
(random, constant, or first/last), conditional resampling scheme (the two of the library, and a deterministic one that
depends on the weights), extra keyword arguments, offsets and spread of the log weights. The returned genealogy is
compared with the copies. Non-trivial: at least two particles and two steps."""
import functools
import numpy as np
import jax
import jax.numpy as jnp
from hypothesis import strategies as st
from vf.core import sub, sut, ensure
from vf import gen
from fbs.samplers.csmc.csmc import forward_pass, csmc_kernel
from fbs.samplers.csmc.resamplings import killing, multinomial


def sorting(key, w, i, j, conditional=True):
    """A deterministic scheme: the particles by decreasing weight, pinned."""
    return jnp.argsort(-w).at[j].set(i)


SCHEMES = {'killing': killing, 'multinomial': multinomial, 'sorting': sorting}


def loglik(v, us, v_prev, t, a, off, spread, hole):
    x = us[:, 0]
    ll = off + spread * (jnp.sin(3 * x + v[0]) + jnp.cos(x * v_prev[0] + 2. * v[0]) + 0.3 * jnp.sin(t * x)) + a * x
    return jnp.where(hole & (jnp.floor(x * 50.) % 3 == 0), -jnp.inf, ll)


@functools.lru_cache(None)
def runner(N, K, scheme, dv, with_kw, kernel, backward):
    def run(key, us_star, bs, vs, ts, off, spread, hole, a):
        def kw_a(kw):
            return kw['a'] if with_kw else a

        def transition_sampler(us_prev, v_prev, t_prev, key_, **kw):
            n = us_prev.shape[0]
            z = jax.random.uniform(key_, (n,))
            return jnp.stack([z, us_prev[:, 0], jnp.full((n,), v_prev[0]), jnp.full((n,), t_prev),
                              jnp.full((n,), kw_a(kw))], -1)

        def lik(v, us_prev, v_prev, t_prev, **kw):
            return loglik(v, us_prev, v_prev, t_prev, kw_a(kw), off, spread, hole)

        def init_sampler(key_, n):
            return jnp.concatenate([jax.random.uniform(key_, (n, 1)), jnp.zeros((n, 4))], -1)

        def init_lik(v0, u0s, v1, **kw):
            return loglik(v1, u0s, v0, 0.5, kw_a(kw), off, spread, False)

        def trans_logpdf(u, us_prev, v_prev, t_prev, **kw):
            return jnp.sin(u[0] * 5 + us_prev[:, 0] * 3)

        kws = dict(a=a) if with_kw else {}
        if kernel:
            return csmc_kernel(key, us_star, bs, vs, ts, init_sampler, init_lik, transition_sampler, trans_logpdf, lik,
                               SCHEMES[scheme], N - 1, backward=backward, **kws)
        return forward_pass(key, us_star, bs, vs, ts, init_sampler, init_lik, transition_sampler, lik, SCHEMES[scheme],
                            N - 1, **kws)

    return jax.jit(run)


CFG = [(1, 1, 1), (2, 3, 2), (3, 2, 1), (4, 5, 1), (7, 4, 2), (33, 9, 1)]


import itertools
STATIC = list(itertools.product(range(len(CFG)), sorted(SCHEMES)))


def strat(part):
    return st.fixed_dictionaries(dict(
        static=st.sampled_from(part(STATIC)),
        off=st.sampled_from([0., -300., 300.]), spread=st.sampled_from([0., 0.5, 3., 10.]), hole=st.booleans(),
        b=st.one_of(st.just('random'), st.integers(0, 32)), a=gen.fl(-2, 2), seed=gen.seeds))


def inputs(case):
    case['cfg'], case['scheme'] = case['static']
    case['kw'] = True
    N, K, dv = CFG[case['cfg']]
    r = np.random.default_rng(case['seed'])
    us_star = r.uniform(size=(K + 1, 5)).astype(np.float32) - 5.
    # never hit a hole with the reference (a reference of zero weight is not admissible)
    us_star[:, 0] = (3 * r.integers(-5, 15, size=K + 1) + 1.5) / 50.
    vs = r.normal(size=(K + 1, dv)).astype(np.float32)
    ts = np.cumsum(r.uniform(0.1, 1., size=K + 1)).astype(np.float32)
    bs = r.integers(0, N, size=K + 1) if case['b'] == 'random' else np.full(K + 1, case['b'] % N)
    return N, K, dv, us_star, bs, vs, ts


@sub(strat, quick=900, thorough=12000, shards=4)
def genealogy_and_weights(case):
    case = dict(case)
    N, K, dv, us_star, bs, vs, ts = inputs(case)
    f = runner(N, K, case['scheme'], dv, case['kw'], False, False)
    As, lw, us = [np.asarray(x) for x in sut(f, jax.random.PRNGKey(case['seed']), us_star, bs, vs, ts, case['off'],
                                             case['spread'], case['hole'], case['a'])]
    ensure(As.shape == (K, N) and lw.shape == (K + 1, N) and us.shape == (K + 1, N, 5),
           lambda: f'shapes {As.shape} {lw.shape} {us.shape} for K={K}, N={N}')
    ensure(As.min() >= 0 and As.max() < N, 'ancestors outside the range')
    for k in range(K + 1):
        ensure(np.array_equal(us[k, bs[k]], us_star[k]), lambda: f'time {k}: slot {bs[k]} does not hold the reference')
        ensure(not np.any(np.isnan(lw[k])), lambda: f'time {k}: weights are not numbers')
        s = np.exp(lw[k].astype(float)).sum()
        ensure(abs(s - 1) < 3e-4, lambda: f'time {k}: weights sum to {s}')
        if k:
            ensure(As[k - 1, bs[k]] == bs[k - 1], lambda: f'time {k}: the reference slot descends from '
                                                         f'{As[k - 1, bs[k]]}, not from {bs[k - 1]}')
            anc = us[k - 1, As[k - 1]]
            t, vp = ts[k - 1], vs[k - 1]
            m = np.arange(N) != bs[k]
            want = np.stack([anc[:, 0], np.full(N, vp[0]), np.full(N, t), np.full(N, np.float32(case['a']))], -1)
            ensure(np.array_equal(us[k, m, 1:], want[m]), lambda: f'time {k}: particles were not drawn from the recorded '
                   f'ancestors with (v, t) of the step: {us[k, m, 1:][0].tolist()}, expected {want[m][0].tolist()}')
            if case['scheme'] == 'sorting':
                srt = np.sort(lw[k - 1])[::-1]
                gap = np.all(np.diff(srt) < -1e-3) if N > 1 else True
                if gap:
                    wantA = np.argsort(-lw[k - 1])
                    wantA[bs[k]] = bs[k - 1]
                    ensure(np.array_equal(As[k - 1], wantA), lambda: f'time {k}: the resampling did not get the weights '
                                                                     'of the previous time')
        else:
            anc, t, vp = us[0], np.float32(0.5), vs[0]
        ll = np.asarray(loglik(jnp.asarray(vs[k] if k else vs[1]), jnp.asarray(anc), jnp.asarray(vp), t,
                               np.float32(case['a']), 0., case['spread'], bool(case['hole'] and k > 0)), float)
        ll -= np.logaddexp.reduce(ll)
        err = np.abs(np.exp(ll) - np.exp(lw[k].astype(float))).max()
        ensure(err < 2e-3, lambda: f'time {k}: weights are not the measurement densities of the step given the '
                                   f'ancestors (error {err:.2g})')
        if k and case['scheme'] != 'sorting':
            w = np.exp(lw[k - 1])
            ensure(np.all((w[As[k - 1]] > 0) | (np.arange(N) == bs[k])), lambda: f'time {k}: ancestor of weight zero')
    lab = us[:, :, 0].ravel()
    return dict(nontrivial=N > 1 and K > 1, labels=[case['scheme'], f'N={N} K={K}', f'hole={case["hole"]}',
                                                    f'offset={case["off"]}', f'kw={case["kw"]}'])


@sub(strat, quick=250, thorough=4000, shards=2)
def kernel_returns_particles_of_its_genealogy(case):
    """The recorded ancestor labels of the returned states chain up, whenever the path left the reference."""
    case = dict(case)
    N, K, dv, us_star, bs, vs, ts = inputs(case)
    scheme = case['scheme']
    bw = case['cfg'] % 3 == 2
    f = runner(N, K, scheme, dv, case['kw'], True, bw)
    us, b = [np.asarray(x) for x in sut(f, jax.random.PRNGKey(case['seed']), us_star, bs, vs, ts, case['off'],
                                        case['spread'], case['hole'], case['a'])]
    ensure(us.shape == us_star.shape and b.shape == (K + 1,), lambda: f'shapes {us.shape} {b.shape}')
    ensure(b.min() >= 0 and b.max() < N, 'indices outside of the particle range')
    ref = np.array([np.array_equal(us[k], us_star[k]) for k in range(K + 1)])
    ensure(np.array_equal(ref, b == bs), lambda: f'returned indices {b.tolist()} (reference {bs.tolist()}) but the '
                                                f'reference states are returned at {np.flatnonzero(ref).tolist()}')
    for k in range(1, K + 1):
        if not ref[k]:
            ensure(us[k, 2] == vs[k - 1, 0] and us[k, 3] == ts[k - 1], 'the state at a time is a particle of another time')
            if not bw:
                ensure(us[k, 1] == us[k - 1, 0], lambda: f'time {k}: the state before is not its ancestor')
        elif not bw:
            ensure(ref[k - 1], 'the reference state descends from another state')
    return dict(nontrivial=not ref.all(), labels=['moved' if not ref.all() else 'stayed', f'backward={bw}'])

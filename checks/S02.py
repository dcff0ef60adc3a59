"""Cases: arbitrary arrays of filtering particles (finite states, repeated or missing), random transition and measurement
tables, horizon, number of particles, with and without the measurement density. The law of the whole returned state path is
enumerated from the backward recursion; distinctness labels show that every state is a particle of its own time.
Non-trivial: at least two distinct paths of probability above 1%."""
import functools
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from hypothesis import strategies as st
from vf.core import sub, sut, ensure
from vf import gen, stats, fsm
from fbs.samplers.smc import bootstrap_backward_smoother

CFG = [(1, 2, 2, 2), (2, 1, 2, 2), (2, 3, 2, 2), (4, 2, 3, 2), (7, 3, 3, 2), (12, 2, 2, 3)]
STATIC = list(itertools.product(range(len(CFG)), [False, True]))
M = 40000


@functools.lru_cache(None)
def runner(cfg, with_lik):
    N, K, S, V = CFG[cfg]
    ush, vsh = ((2, 1), (2,)) if cfg % 2 else ((2,), ())

    @jax.jit
    def run(key, tab, vs, ts, states, labels):
        # the last coordinate carries a label that identifies (time, particle)
        cb = fsm.Callbacks(tab, ts, (), vsh)
        first = (0,) * len(ush)
        last = tuple(d - 1 for d in ush)
        us = jnp.zeros((K + 1, N) + ush)
        us = us.at[(slice(None), slice(None)) + first].set(states.astype(float))
        us = us.at[(slice(None), slice(None)) + last].set(labels)

        def tlog(u, us_prev, v, t, **kw):
            return cb.transition_logpdf(u[first], us_prev[(slice(None),) + first], v, t) + kw['c'] * 1e3

        def lik(v, us_prev, v_prev, t, **kw):
            return cb.likelihood_logpdf(v, us_prev[(slice(None),) + first], v_prev, t) - kw['c'] * 1e3

        kw = dict(likelihood_logpdf=lik) if with_lik else {}
        out = jax.vmap(lambda k: bootstrap_backward_smoother(k, us, fsm.encode(vs, vsh), ts, tlog, c=1., **kw))(
            jax.random.split(key, M))
        sl = (slice(None), slice(None))
        return out[sl + first], out[sl + last], jnp.array(out.shape[1:])

    return run


@sub(lambda part: st.fixed_dictionaries(dict(static=st.sampled_from(part(STATIC)), sharp=st.sampled_from([0.5, 1.5]),
                                             zeros=st.sampled_from([0., 0., 0.15]), model=gen.seeds, seed=gen.seeds)),
     quick=160, thorough=3000, shards=6)
def backward_recursion_law(case):
    cfg, with_lik = case['static']
    N, K, S, V = CFG[cfg]
    r = np.random.default_rng([case['model'], 9])
    tab = fsm.tables(case['model'], S, V, K, case['sharp'], case['zeros'])
    vs = fsm.good_vs(case['model'], tab, K, S, V)
    ts = fsm.times(case['model'], K)
    if case['zeros']:
        # forward simulated particles of positive weight, so that every backward step is possible: only if T, L > 0 along
        tab['T'] = 0.9 * tab['T'] + 0.1 / S
        tab['L'] = 0.9 * tab['L'] + 0.1 / V
    states = r.integers(0, S, size=(K + 1, N))
    labels = np.arange(1, (K + 1) * N + 1).reshape(K + 1, N).astype(np.float32)
    # exact law of the index path, then of the state path
    P = np.array(list(itertools.product(range(S), repeat=K + 1)))
    cnt = np.array([np.bincount(s, minlength=S) for s in states]) / N
    w = cnt[K][P[:, K]].copy()
    for k in range(K - 1, -1, -1):
        g = tab['T'][k, vs[k]].copy()  # (prev, next)
        if with_lik:
            g = g * tab['L'][k, vs[k], :, vs[k + 1]][:, None]
        g = g * cnt[k][:, None]
        g = g / g.sum(0, keepdims=True)
        w *= g[P[:, k], P[:, k + 1]]
    dtab = {k: jnp.asarray(v, jnp.float32) for k, v in tab.items()}
    f = runner(cfg, with_lik)

    def run(stage, m):
        c = 0
        for rep in range(max(1, m // M)):
            s, lab, shp = [np.asarray(a) for a in sut(f, jax.random.PRNGKey(case['seed'] + 7919 * stage + 104729 * rep), dtab,
                                                      vs, jnp.asarray(ts, jnp.float32), states, labels)]
            ensure(shp[0] == K + 1, lambda: f'trajectory of shape {shp.tolist()} for K={K}')
            k = (np.rint(lab).astype(int) - 1) // N
            ensure(np.all(k == np.arange(K + 1)), lambda: f'the states are particles of the times {k[np.argmax((k != np.arange(K + 1)).any(1))].tolist()}')
            c = c + stats.bincount_rows(np.rint(s).astype(int), S)
            # the final particle: uniform over the slots
            slots = np.bincount((np.rint(lab[:, -1]).astype(int) - 1) % N, minlength=N)
            p = stats.pval_counts(slots, np.full(N, 1 / N))
            ensure(p > 1e-12, lambda: f'the final particle is not uniform: {slots.tolist()}')
        return c

    stats.assert_law(run, w, M, f'backward smoother N={N}, K={K}, likelihood={with_lik}: law of the path', eps=2e-4)
    return dict(nontrivial=(w > 0.01).sum() > 1, runs=M, labels=[f'N={N} K={K}', f'likelihood={with_lik}'])

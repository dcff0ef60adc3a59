"""Cases: random finite-state models with a random Markov law of the forward path, and a Gaussian model with the path sampler
and mean of a library SDE (for the Crank-Nicolson step); horizon, particle number, resampling scheme, starting states of
likelihood -inf, moderate and huge. (1) keep-or-replace and reported probabilities, deterministically; (2) move frequency
against the reported probability; (3) E[likelihood estimate x f(terminal particles)] and E[estimate x f(path, sample)] against
enumeration; (4) stationarity: from draws weighted by their own likelihood estimate, one application of the kernel changes
no expectation. Non-trivial: more than one particle."""
import functools
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from hypothesis import strategies as st
from vf.core import sub, sut, ensure, fail
from vf import gen, stats, fsm
from fbs.samplers.smc import pmcmc_kernel, pmcmc_filter_step
from fbs.samplers import resampling as rs
from fbs.sdes import make_linear_sde, StationaryConstLinearSDE, StationaryLinLinearSDE

SCHEMES = {'systematic': rs.systematic, 'stratified': rs.stratified, 'multinomial': rs.multinomial, 'killing': rs.killing}
CFG = [(1, 2, 2, 2), (2, 1, 2, 2), (3, 2, 2, 2), (6, 3, 2, 2), (4, 2, 3, 3)]
STATIC = list(itertools.product(range(len(CFG)), sorted(SCHEMES)))
M = 40000


def model(case, cfg):
    N, K, S, V = CFG[cfg]
    tab = fsm.tables(case['model'], S, V, K, case['sharp'])
    r = np.random.default_rng([case['model'], 21])
    tab['Q'] = r.dirichlet(np.ones(V) * 1.5, size=(K, V))  # forward path law: Q[k, y_k, y_{k+1}]
    ts = fsm.times(case['model'], K)
    return tab, {k: jnp.asarray(v, jnp.float32) for k, v in tab.items()}, jnp.asarray(ts, jnp.float32)


def kernel_fn(cfg, scheme, which=None):
    N, K, S, V = CFG[cfg]
    ush, vsh = ((2,), (1,)) if cfg % 2 else ((1, 2), (2,))

    def f(key, uT, log_ell, ys, y0, tab, ts, scale):
        cb = fsm.Callbacks(tab, ts, ush, vsh)

        def fwd_ys(key_, y0_):
            def body(y, inp):
                k, kk = inp
                y = fsm.categorical(kk, tab['Q'][k, y])
                return y, y
            y = cb.dv(y0_)
            _, path = jax.lax.scan(body, y, (jnp.arange(K), jax.random.split(key_, K)))
            return fsm.encode(jnp.concatenate([y[None], path]), vsh)

        def lik(v, us, v_prev, t, **kw):
            return cb.likelihood_logpdf(v, us, v_prev, t) + kw['scale']

        def tsamp(us, v, t, k, scale):
            return cb.transition_sampler(us, v, t, k)

        return pmcmc_kernel(key, uT, log_ell, ys, fsm.encode(y0, vsh), ts, fwd_ys, None, cb.init_sampler_smc,
                            tsamp, lik, SCHEMES[scheme], N, which_u=which, scale=scale)
    return f, ush, vsh


def strat(part):
    return st.fixed_dictionaries(dict(static=st.sampled_from(part(STATIC)), sharp=st.sampled_from([0.5, 1.2]),
                                      y0=st.integers(0, 1), scale=st.sampled_from([0., -50., 40.]),
                                      model=gen.seeds, seed=gen.seeds))


@functools.lru_cache(None)
def report_runner(cfg, scheme):
    f, ush, vsh = kernel_fn(cfg, scheme)

    @jax.jit
    def run(keys, uT, le, ys, y0, tab, ts, scale):
        return jax.vmap(f, in_axes=[0, 0, 0, 0, None, None, None, None])(keys, uT, le, ys, y0, tab, ts, scale)
    return run


@sub(strat, quick=120, thorough=3000, shards=8)
def keeps_or_replaces_and_reports(case):
    cfg, scheme = case['static']
    N, K, S, V = CFG[cfg]
    tab, dtab, ts = model(case, cfg)
    _, ush, vsh = kernel_fn(cfg, scheme)
    B = 4000
    r = np.random.default_rng(case['seed'])
    # recognisable current states (outside of the state space)
    uT = (500 + r.integers(0, 50, size=(B,) + ush)).astype(np.float32)
    ys = (500 + r.integers(0, 50, size=(B, K + 1) + vsh)).astype(np.float32)
    le = (r.normal(size=B) * 1. - 0.7 * K + K * case['scale']).astype(np.float32)
    le[:50], le[50:100], le[100:150] = -np.inf, 1e4, -1e4
    out = sut(report_runner(cfg, scheme), jax.random.split(jax.random.PRNGKey(case['seed']), B), uT, le, ys, case['y0'],
              dtab, ts, case['scale'])
    u2, l2, y2, ms = [np.asarray(a) for a in out[:3]] + [out[3]]
    acc, prob, pl, cl = [np.asarray(a) for a in (ms.is_accepted, ms.acceptance_prob, ms.prop_log_ell, ms.log_ell)]
    ensure(u2.shape == uT.shape and y2.shape == ys.shape and l2.shape == le.shape, 'shapes')
    ensure(np.array_equal(cl, le), 'the reported current log likelihood is not the one given')
    rep_u, rep_y = np.all(u2 < 400, axis=tuple(range(1, u2.ndim))), np.all(y2 < 400, axis=tuple(range(1, y2.ndim)))
    ensure(np.array_equal(rep_u, acc) and np.array_equal(rep_y, acc), 'sample and path are not replaced exactly on acceptance')
    ensure(np.array_equal(u2[~acc], uT[~acc]) and np.array_equal(y2[~acc], ys[~acc]), 'a rejected state is not kept')
    ensure(np.array_equal(l2, np.where(acc, pl, le)), lambda: 'the returned log likelihood is neither the proposed (on '
                                                              'acceptance) nor the current one (on rejection)')
    with np.errstate(over='ignore'):
        want = np.exp(np.minimum(0., pl.astype(float) - le))
    ensure(np.allclose(prob, want, atol=1e-5), lambda: f'acceptance probability {prob[np.argmax(abs(prob - want))]}, not '
                                                       f'min(1, ratio) = {want[np.argmax(abs(prob - want))]}')
    ensure(np.sum(~acc[:50]) <= 1 and not np.any(acc[50:100]) and np.all(acc[100:150]), 'decisions at infinite / huge likelihoods')
    d = (acc * 1. - want)[150:]
    sd = np.sqrt((want * (1 - want))[150:].sum())
    for g in (np.ones(B - 150), want[150:] > 0.5, want[150:] < 0.3):
        ensure(abs((d * g).sum()) < 8 * sd + 1e-2, lambda: f'accepted {acc[150:].mean():.4f}, reported {want[150:].mean():.4f}')
    ya, ua = y2[acc], u2[acc]
    ensure(fsm.coherent(ya, vsh, V) and fsm.coherent(ua, ush, S), 'accepted states were never sampled')
    ensure(np.all(np.rint(ya[(slice(None), 0) + (0,) * len(vsh)]) == case['y0']), 'a proposed path does not start at y0')
    return dict(nontrivial=N > 1 and 0.02 < acc.mean() < 0.98, runs=B, labels=[scheme, f'N={N} K={K}'])


@functools.lru_cache(None)
def step_runner(cfg, scheme, m):
    N, K, S, V = CFG[cfg]
    ush, vsh = ((2,), (1,)) if cfg % 2 else ((1, 2), (2,))

    @jax.jit
    def run(key, tab, vs, ts, scale, fs):
        cb = fsm.Callbacks(tab, ts, ush, vsh)

        def lik(v, us, v_prev, t, **kw):
            return cb.likelihood_logpdf(v, us, v_prev, t) + kw['scale']

        def tsamp(us, v, t, k, scale):
            return cb.transition_sampler(us, v, t, k)

        def one(k):
            k1, k2 = jax.random.split(k)
            v = fsm.encode(vs, vsh)
            u0 = cb.init_sampler_smc(k1, v[0], N)
            uT, le = pmcmc_filter_step(k2, v, u0, ts, tsamp, lik, SCHEMES[scheme], N, scale=scale)
            s = fsm.decode(uT, ush)
            return jnp.exp(le - K * scale) * jnp.stack([f[s].mean() for f in fs])
        return jax.vmap(one)(jax.random.split(key, m))
    return run


@sub(strat, quick=80, thorough=2000, shards=8)
def likelihood_estimate_unbiased(case):
    cfg, scheme = case['static']
    N, K, S, V = CFG[cfg]
    tab, dtab, ts = model(case, cfg)
    vs = fsm.good_vs(case['model'], tab, K, S, V)
    fs = np.concatenate([np.ones((1, S)), np.eye(S)])
    a = tab['init'][vs[0]].copy()
    for k in range(1, K + 1):
        a = (a * tab['L'][k - 1, vs[k - 1], :, vs[k]]) @ tab['T'][k - 1, vs[k - 1]]
    mu = fs @ a

    def run(stage, m):
        return np.concatenate([np.asarray(sut(step_runner(cfg, scheme, M), jax.random.PRNGKey(
            case['seed'] + 7919 * stage + 104729 * rep), dtab, vs, ts, case['scale'], jnp.asarray(fs, jnp.float32)), float)
            / mu[0] for rep in range(max(1, m // M))])

    stats.assert_mean(run, mu / mu[0], M, f'pmcmc_filter_step {scheme} N={N} K={K}: likelihood estimate x particle averages, '
                                          f'relative to the evidence', tol=2e-4)
    return dict(nontrivial=N > 1, runs=M, labels=[scheme, f'N={N} K={K}'])


@functools.lru_cache(None)
def inv_runner(cfg, scheme):
    N, K, S, V = CFG[cfg]
    f, ush, vsh = kernel_fn(cfg, scheme)

    @jax.jit
    def run(key, y0, tab, ts, scale):
        def one(k):
            k1, k2 = jax.random.split(k)
            u, l, y, _ = f(k1, jnp.zeros(ush), -jnp.inf, jnp.zeros((K + 1,) + vsh), y0, tab, ts, scale)
            u2, l2, y2, _ = f(k2, u, l, y, y0, tab, ts, scale)
            return [(fsm.decode(a, ush), b - K * scale, fsm.decode(c, vsh)) for a, b, c in ((u, l, y), (u2, l2, y2))]
        return jax.vmap(one)(jax.random.split(key, M))
    return run


@sub(strat, quick=96, thorough=2400, shards=8)
def extended_law_and_stationarity(case):
    cfg, scheme = case['static']
    N, K, S, V = CFG[cfg]
    tab, dtab, ts = model(case, cfg)
    y0 = case['y0']
    # exact: sum over the paths of y and of u
    E = np.zeros((V ** (K + 1), S))
    Y = np.array(list(itertools.product(range(V), repeat=K + 1)))
    q = (Y[:, 0] == y0) * 1.
    for k in range(K):
        q = q * tab['Q'][k, Y[:, k], Y[:, k + 1]]
    for i in np.flatnonzero(q):
        vs = Y[i][::-1]
        a = tab['init'][vs[0]].copy()
        for k in range(1, K + 1):
            a = (a * tab['L'][k - 1, vs[k - 1], :, vs[k]]) @ tab['T'][k - 1, vs[k - 1]]
        E[i] = q[i] * a
    Z = E.sum()
    keep = np.flatnonzero(q)

    def cells(u, y):
        code = np.zeros(len(y), int)
        for k in range(K + 1):
            code = code * V + y[:, k]
        return np.searchsorted(keep, code) * S + u

    f = inv_runner(cfg, scheme)
    nc = len(keep) * S

    def gather(stage, m):
        for rep in range(max(1, m // M)):
            (u, l, y), (u2, l2, y2) = [[np.asarray(a) for a in b] for b in sut(
                f, jax.random.PRNGKey(case['seed'] + 7919 * stage + 104729 * rep), y0, dtab, ts, case['scale'])]
            # a uniform variable rounded to its boundary may reject even the first proposal (once in millions): weight zero
            stay = np.isneginf(l)
            ensure(stay.sum() <= 2, 'proposals are rejected at likelihood zero')
            l2, y, y2, u, u2 = [np.where(stay.reshape((-1,) + (1,) * (a.ndim - 1)), a[np.argmin(stay)], a) for a in (l2, y, y2, u, u2)]
            ensure(np.all(y[:, 0] == y0) and np.all(y2[:, 0] == y0), 'a path does not start at y0')
            ensure(np.all(np.isfinite(l[~stay])) and np.all(np.isfinite(l2)), 'likelihood not finite')
            yield np.exp(l.astype(float)) / Z, cells(u, y), cells(u2, y2), l, l2

    def law(stage, m):
        # aggregated by the path end and the sample: few cells of useful size, plus every cell
        out = []
        for w, c, c2, l, l2 in gather(stage, m):
            x = np.zeros((len(w), nc))
            x[np.arange(len(w)), c] = w
            out.append(x)
        return np.concatenate(out)

    def stat(stage, m):
        out = []
        for w, c, c2, l, l2 in gather(stage, m):
            x = np.zeros((len(w), nc + 2))
            i = np.arange(len(w))
            np.add.at(x, (i, c2), w)
            np.add.at(x, (i, c), -w)
            x[:, nc] = w * (np.tanh(l2 - np.log(Z)) - np.tanh(l - np.log(Z)))
            x[:, nc + 1] = w * (np.tanh(l2 - np.log(Z)) ** 2 - np.tanh(l - np.log(Z)) ** 2)
            out.append(x)
        return np.concatenate(out)

    ex = E[keep].ravel() / Z
    # rare cells are not normal: pool them
    rare = ex < 0.01

    def pooled(x, extra=0):
        head = x[:, :nc]
        return np.concatenate([head[:, ~rare], head[:, rare].sum(1, keepdims=True), x[:, nc:]], 1)

    stats.assert_mean(lambda s, m: pooled(law(s, m)), np.append(ex[~rare], ex[rare].sum()), M,
                      f'pmcmc_kernel {scheme} N={N} K={K}: E[likelihood estimate; path, sample] of the proposals', tol=2e-4)
    stats.assert_mean(lambda s, m: pooled(stat(s, m)), 0., M,
                      f'pmcmc_kernel {scheme} N={N} K={K}: change of expectations in one step from the stationary law', tol=2e-4)
    return dict(nontrivial=N > 1, runs=2 * M, labels=[scheme, f'N={N} K={K}'])


@functools.lru_cache(None)
def pcn_runner(N, K, scheme, delta, lin, m):
    @jax.jit
    def run(key, y0, ts, a, b, s2, c):
        # (the time-varying one with speeds from b to b + 2)
        sde = StationaryLinLinearSDE(b, b + 2., 0., 2.5) if lin else StationaryConstLinearSDE(a=a, b=b)
        simulate = make_linear_sde(sde)[-1]

        def fwd(key_, y0_):
            return simulate(key_, y0_, ts)

        def ref(key_, v0, n):
            return 0.4 * v0[None] + jax.random.normal(key_, (n, 1))

        def tsamp(us, v, t, key_, **kw):
            return 0.7 * us + 0.2 * v[None] + 0.5 * jax.random.normal(key_, us.shape)

        def lik(v, us, v_prev, t, **kw):
            return -0.5 * (v[0] - 0.6 * v_prev[0] - c * us[:, 0]) ** 2 / s2

        def kern(k, u, l, y, d):
            return pmcmc_kernel(k, u, l, y, y0, ts, fwd, sde, ref, tsamp, lik, SCHEMES[scheme], N, delta=d)[:3]

        def one(k):
            k0, k1, k2 = jax.random.split(k, 3)
            x = kern(k1, jnp.zeros(1), -jnp.inf, jnp.zeros((K + 1, 1)), None)
            return x, kern(k2, *x, delta)
        return jax.vmap(one)(jax.random.split(key, m))
    return run


PCN = list(itertools.product([(1, 2), (4, 3), (10, 2)], ['stratified', 'multinomial'], [0.05, 0.5, 3.], [False, True]))


@sub(lambda part: st.fixed_dictionaries(dict(static=st.sampled_from(part(PCN)), y0=gen.fl(-2, 2), t0=st.sampled_from([0., 0.4, 0.8]), a=gen.fl(-1.2, -0.3),
                                             b=gen.fl(0.5, 1.2), s2=gen.fl(0.4, 2.), c=gen.fl(-1, 1.5), seed=gen.seeds)),
     quick=72, thorough=1500, shards=8)
def stationarity_with_crank_nicolson(case):
    (N, K), scheme, delta, lin = case['static']
    ts = np.linspace(0, 1.5, K + 1) ** 1.3 + case['t0']
    f = pcn_runner(N, K, scheme, delta, lin, M)
    y0 = np.array([case['y0']], np.float32)

    def run(stage, m):
        out = []
        for rep in range(max(1, m // M)):
            (u, l, y), (u2, l2, y2) = [[np.asarray(v, float) for v in b] for b in sut(
                f, jax.random.PRNGKey(case['seed'] + 7919 * stage + 104729 * rep), y0, jnp.asarray(ts, jnp.float32), case['a'],
                case['b'], case['s2'], case['c'])]
            stay = np.isneginf(l)  # see above; weight zero
            ensure(stay.sum() <= 2, 'proposals are rejected at likelihood zero')
            ensure(np.all(np.abs(y2[~stay, 0] - y0) < 1e-4 * (1 + abs(y0[0]))), 'a path does not start at y0')
            w = np.exp(l)
            w /= 0.3  # scale only

            def feats(u, l, y):
                t = np.tanh(l)
                return np.stack([np.tanh(u[:, 0]), np.tanh(u[:, 0]) ** 2, np.tanh(y[:, -1, 0]), np.tanh(y[:, 1, 0]),
                                 np.tanh(y[:, 1, 0]) ** 2, np.tanh(y[:, -1, 0]) ** 2, t, np.tanh(l + 2), np.sin(y[:, 1, 0] * 2 - y[:, -1, 0])], 1)
            out.append(w[:, None] * (feats(u2, l2, y2) - feats(u, l, y)))
        return np.concatenate(out)

    stats.assert_mean(run, 0., M, f'pmcmc_kernel delta={delta}, N={N}, K={K}, {scheme}: change of expectations in one step '
                                  f'from the stationary law', tol=3e-4)
    return dict(nontrivial=N > 1, runs=2 * M, labels=[scheme, f'N={N} K={K}', f'delta={delta}', 'time-varying SDE' if lin else 'constant SDE'])


@sub(cases=[dict(model='S=V=2, K=1, exact forward law q(y_1; y_0) = p(v_0; v_1)')])
def samples_the_posterior_of_the_docstring(case):
    """The docstring: 'targeting at p(uT | vT = y0)', here for a two-state model with the exact forward law."""
    p0 = np.array([[0.3, 0.2], [0.1, 0.4]])  # joint of (u_0, v_0)
    T = np.array([[[0.9, 0.1], [0.6, 0.4]], [[0.2, 0.8], [0.1, 0.9]]])  # [v_0, u_0, u_1]
    L = np.array([[[0.9, 0.1], [0.8, 0.2]], [[0.2, 0.8], [0.1, 0.9]]])  # [v_0, u_0, v_1]
    y0 = 0
    J = np.einsum('uv,vua,vub->vab', p0, T, L)  # v_0, u_1, v_1
    want = J[:, 1, y0].sum() / J[:, :, y0].sum()
    q = J.sum(1)[:, y0] / J.sum(1)[:, y0].sum()
    init = (p0 / p0.sum(0)).T
    N, steps, chains = 64, 40, 4000
    ts = jnp.array([0., 1.])

    @jax.jit
    def run(key):
        def fwd(k, y):
            return jnp.stack([y, fsm.categorical(k, jnp.asarray(q)) * 1. * jnp.ones(1)])

        def ref(k, v0, n):
            return fsm.categorical(k, jnp.broadcast_to(jnp.asarray(init)[v0[0].astype(int)], (n, 2)))[:, None] * 1.

        def tsamp(us, v, t, k):
            return fsm.categorical(k, jnp.asarray(T)[v[0].astype(int), us[:, 0].astype(int)])[:, None] * 1.

        def lik(v, us, vp, t):
            return jnp.log(jnp.asarray(L)[vp[0].astype(int), us[:, 0].astype(int), v[0].astype(int)])

        def chain(k):
            def body(c, kk):
                o = pmcmc_kernel(kk, *c, jnp.array([y0 * 1.]), ts, fwd, None, ref, tsamp, lik, rs.multinomial, N)
                return o[:3], None
            return jax.lax.scan(body, (jnp.zeros(1), -jnp.inf, jnp.zeros((2, 1))), jax.random.split(k, steps))[0][0][0]
        return jax.vmap(chain)(jax.random.split(key, chains))

    x = np.asarray(sut(run, jax.random.PRNGKey(0)), float)
    se = np.sqrt(want * (1 - want) / chains)
    ensure(abs(x.mean() - want) < 8 * se + 0.01, lambda: f'pmcmc_kernel samples uT = 1 with frequency {x.mean():.4f}, but '
           f'p(uT = 1 | vT = y0) = {want:.4f} (exact forward law of y, {N} particles)')
    return dict(runs=steps * chains)


@functools.lru_cache(None)
def chosen_runner(n, which, K):
    """Labelled particles: every transition labels the particles 0, ..., n - 1 and the resampling moves nobody."""
    @jax.jit
    def run(key, ts):
        def fwd_ys(key_, y0_):
            return jnp.broadcast_to(y0_, (K + 1, 1))

        def tsamp(us, v, t, k):
            return jnp.arange(us.shape[0], dtype=us.dtype)[:, None]

        def lik(v, us, v_prev, t):
            return jnp.zeros(us.shape[0])

        def one(k):
            out = pmcmc_kernel(k, jnp.full((1,), -7.), -jnp.inf, jnp.zeros((K + 1, 1)), jnp.zeros(1), ts, fwd_ys, None,
                               lambda key_, v0, m: jnp.zeros((m, 1)), tsamp, lik, lambda w, k_: jnp.arange(n), n, which_u=which)
            return out[0][0]
        return jax.vmap(one)(jax.random.split(key, 4000))
    return run


CHOSEN = [(n, w, K) for n in (1, 2, 5) for w in (None, *range(n)) for K in (1, 2)]


@sub(lambda part: st.fixed_dictionaries(dict(static=st.sampled_from(part(CHOSEN)), seed=gen.seeds)), quick=30, thorough=200, shards=2)
def chosen_particle(case):
    """The sample is the particle that was asked for, or else a uniformly drawn one."""
    n, which, K = case['static']

    def run(stage, m):
        x = np.concatenate([np.asarray(sut(chosen_runner(n, which, K), jax.random.PRNGKey(case['seed'] + 7919 * stage + 104729 * r),
                                           jnp.linspace(0., 1., K + 1))) for r in range(max(1, m // 4000))])
        ensure(np.all((x == np.rint(x)) & (x >= 0) & (x < n)), 'the sample is none of the particles')
        return np.bincount(x.astype(int), minlength=n)

    if which is None:
        stats.assert_law(run, np.full(n, 1. / n), 4000, f'which of {n} particles is the sample')
    else:
        c = run(0, 4000)
        ensure(c[which] == c.sum(), lambda: f'which_u={which}: the particles drawn are {c.tolist()}')
    return dict(nontrivial=n > 1, runs=4000, labels=[f'n={n} which_u={which}'])

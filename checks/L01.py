"""Cases: SDE parameters, data (1..2500 items, state shapes (), (d,), (h, w, c)), time interval, step number, time mode, loss type,
memory mode, networks (the exact conditional score, shifted scores, arbitrary parametric functions), keys. Double precision.
The arguments the loss hands to the network are recorded by a callback; the loss is recomputed from them with the closed
forms obtained by quadrature. Noised states: whitened with the exact path law, Kolmogorov-Smirnov test and moments.
Non-trivial: more than one step or item."""
import functools
import numpy as np
import jax
import jax.numpy as jnp
from hypothesis import strategies as st
from vf.core import sub, sut, ensure, Violation
from vf import gen, sdes, stats
from fbs.sdes import make_linear_sde_law_loss
from fbs.sdes.linear import make_ou_score_matching_loss

LOG = []


def record(x, t):
    LOG.append((np.array(x, np.float64), np.array(t, np.float64)))


def closed(kind, v, t, s):
    """Transition factor and variance in jax, from the documented coefficients (independent of the code under test)."""
    if kind == 'const':
        r, var = v[0] * (t - s), -v[1] ** 2 / (2 * v[0])
    elif kind == 'lin':
        bm, bM, t0, T = v
        B = lambda u: bm * (u - t0) + (bM - bm) * (u - t0) ** 2 / (2 * (T - t0))
        r, var = -0.5 * (B(t) - B(s)), 1.
    else:
        a, b, c, z = v
        r, var = a / c * (jnp.exp(c * (t - z)) - jnp.exp(c * (s - z))), -b ** 2 / (2 * a)
    return jnp.exp(r), -var * jnp.expm1(2 * r)


def bc(t, x):
    """Time of shape () or (n,) against a batched state."""
    t = jnp.asarray(t)
    return jnp.reshape(t, t.shape + (1,) * (x.ndim - t.ndim)) if t.ndim else t


def net_free(x, t, p):
    """An arbitrary parametric function, quadratic loss in p."""
    jax.debug.callback(record, x, t)
    return net_free_silent(x, t, p)


def net_free_silent(x, t, p):
    return p[0] * jnp.sin(x) + p[1] * bc(jnp.cos(3. * t), x) + p[2] * x * bc(t, x)


def np_free(x, t, p):
    return p[0] * np.sin(x) + p[1] * np.cos(3. * t) + p[2] * x * t


def np_feats(x, t):
    return np.stack([np.sin(x), np.cos(3. * t) * np.ones_like(x), x * t])


@functools.lru_cache(maxsize=None)
def runner(kind, nsteps, random_times, loss_type, save_mem, net, ou, grad=False):
    """jitted (v, t0, T, p, key, x0s, extra) -> loss (recording the arguments of the network), or its gradient in p."""

    def f(v, t0, T, p, key, x0s, extra):
        if net == 'free':
            nn = net_free_silent if grad else net_free
        else:
            def nn(x, t, p_):
                F, Q = closed(kind, v, bc(t, x), t0)
                return -(x - F * extra) / Q + p_[0] * (1 + p_[1] * bc(t, x)) / jnp.sqrt(Q)
        if ou:
            loss = make_ou_score_matching_loss(v[0], v[1], nn, t0=t0, T=T, nsteps=nsteps, random_times=random_times)
        else:
            loss = make_linear_sde_law_loss(sdes.build(kind, v), nn, t0=t0, T=T, nsteps=nsteps,
                                            random_times=random_times, loss_type=loss_type, save_mem=save_mem)
        return jax.grad(loss)(p, key, x0s) if grad else loss(p, key, x0s)

    return jax.jit(f)


def call(r, *args):
    LOG.clear()
    out = np.asarray(sut(r, *args))
    jax.effects_barrier()
    return out, list(LOG)


def interval(p, u, ou=False):
    lo, hi = sdes.domain(p)
    if ou:
        a = 0. if u[0] < 0.3 else 1.5 * u[0]
        return a, a + 0.2 + u[1] * 2.3
    a = lo + u[0] * 0.5 * (hi - lo)
    return a, a + (0.1 + 0.9 * u[1]) * (hi - a)


def data(case):
    r = np.random.default_rng(case['seed'] ^ 0x5bd1)
    n, shape = case['cfg'][1], tuple(case['cfg'][2])
    return r.normal(size=(n,) + shape) * case['sx'] + case['mx'], r


def path_times(log, save_mem, nsteps, n, shape, what):
    """Recorded arguments -> states (n, K, ...) and times (K,), or (n, ...) and (n,). None if the evaluations are not those of one
    batch of items (then nothing is said about them)."""
    if save_mem:
        if len(log) == 1 and log[0][0].shape == (n,) + tuple(shape):
            return log[0][0], np.broadcast_to(np.ravel(log[0][1]), (n,))
        groups = [e for e in log if e[0].size == int(np.prod(shape)) and e[1].size == 1]
        if len(log) != n or len(groups) != n:
            return None
        return np.stack([e[0].reshape(shape) for e in log]), np.array([float(np.ravel(e[1])[0]) for e in log])
    g = gen.regroup(log, n, shape)
    if g is None:
        return None
    ensure(len(g) == nsteps, lambda: f'{what}: the network was evaluated at {len(g)} instead of {nsteps} times')
    return np.stack([x for _, x in g], 1), np.array([t for t, _ in g])


class NotUnderstood(Exception):
    pass


UNKNOWN = dict(nontrivial=False, labels=['evaluations of the network not understood'])


# (nsteps, n, shape, random_times, loss_type, save_mem, ou)
CFG = [(4, 3, (2,), True, 'score', False, False), (5, 2, (2, 3, 1), False, 'score', False, False),
       (1, 4, (3,), True, 'score', False, False), (3, 1, (), True, 'score', False, False),
       (4, 5, (2,), True, 'score', True, False), (2, 4, (2, 2, 2), False, 'score', True, False),
       (3, 1, (2,), True, 'score', True, False), (4, 3, (2,), True, 'ipf', False, False),
       (3, 2, (2, 2, 1), False, 'ipf', False, False), (4, 3, (2,), True, 'ipf-score', False, False),
       (3, 2, (2, 2, 1), False, 'ipf-score', False, False), (4, 3, (2,), True, 'score', False, True),
       (3, 2, (1,), False, 'score', False, True)]
STATIC = [(k,) + c for c in CFG for k in (sdes.KINDS if not c[-1] else ['const'])]


def strat(part, static=STATIC, **kw):
    def build(c):
        d = dict(p=sdes.params(c[0]), u=st.tuples(gen.fl(0., 1.), gen.fl(0., 1.)),
                 sx=st.sampled_from([0., 1., 3.]), mx=gen.fl(-2., 2.), w=st.lists(gen.fl(-2., 2.), min_size=3, max_size=3),
                 seed=gen.seeds)
        d['cfg'] = st.just([c[1], c[2], list(c[3]), c[4], c[5], c[6], c[7]])
        d.update(kw)
        return st.fixed_dictionaries(d)

    return st.sampled_from(part(static)).flatmap(build)


def check_times(ts, t0, T, random_times, save_mem, what):
    K = len(ts)
    ensure(np.all(ts > t0), f'{what}: the network is evaluated at a time not after the initial one: {ts.tolist()}')
    ensure(np.all(np.diff(ts) >= 0), f'{what}: the times are not increasing {ts.tolist()}')
    ensure(abs(ts[-1] - T) < 1e-9 * (1 + abs(T)), lambda: f'{what}: the last time {ts[-1]} is not the terminal time {T}')
    if random_times:
        if K > 1:
            ensure(np.all(np.diff(ts) > 0), f'{what}: repeated random times')
    else:
        ex = t0 + (T - t0) * np.arange(1, K + 1) / K
        ensure(np.allclose(ts, ex, rtol=1e-6, atol=1e-9), lambda: f'{what}: times {ts.tolist()} are not equally spaced up to T')


@sub(strat, quick=190, thorough=6000, shards=8, x64=True)
def value(case):
    """The loss and its gradient are the documented mean squares over the states and times handed to the network."""
    nsteps, n, shape, rt, lt, sm, ou = case['cfg']
    p, v = case['p'], sdes.vec(case['p'])
    t0, T = interval(p, case['u'], ou)
    x0s, r = data(case)
    w = np.asarray(case['w'])
    run = runner(p['kind'], nsteps, rt, lt, sm, 'free', ou)
    args = (v, t0, T, w, jax.random.PRNGKey(case['seed']), jnp.asarray(x0s), 0.)
    loss, log = call(run, *args)
    grad = np.asarray(sut(runner(p['kind'], nsteps, rt, lt, sm, 'free', ou, True), *args))
    what = f'{lt} loss' + (' (save_mem)' if sm else '') + (' (ou)' if ou else '')
    rec = path_times(log, sm, nsteps, n, shape, what)
    if rec is None:
        return UNKNOWN
    X, ts = rec
    check_times(ts, t0, T, rt, sm, what)
    nd = len(shape)
    FQ0 = [sdes.FQ(p, t, t0) for t in ts]
    if sm:
        ext = lambda z: np.reshape(z, (n,) + (1,) * nd)
        X0, tt = x0s, ext(ts)
    else:
        ext = lambda z: np.reshape(z, (1, nsteps) + (1,) * nd)
        X0, tt = x0s[:, None], ext(ts)
    if lt == 'score':
        F, Q = ext([f for f, _ in FQ0]), ext([q for _, q in FQ0])
        target, weight = -(X - F * X0) / Q, Q
    else:
        full = np.concatenate([X0, X], 1)
        FQ1 = [sdes.FQ(p, t, s) for s, t in zip(np.r_[t0, ts[:-1]], ts)]
        F, Q = ext([f for f, _ in FQ1]), ext([q for _, q in FQ1])
        prev = full[:, :-1]
        target = X + F * prev - F * X if lt == 'ipf' else -(X - F * prev) / Q
        weight = 1.
    res = np_free(X, tt, w) - target
    ex = np.mean(res ** 2 * weight)
    feats = np_feats(X, tt * np.ones_like(X))
    eg = np.array([np.mean(2 * res * weight * f) for f in feats])
    scale = np.mean(weight * (target ** 2 + np_free(X, tt, np.abs(w)) ** 2))
    # rounding of the states over short steps: (x - F x0) / Q
    qmin = np.min([q for _, q in (FQ0 if lt != 'ipf-score' else FQ1)])
    tol = 1e-8 + 1e-13 * (1 + np.abs(X0).max()) / qmin
    ensure(np.isfinite(loss) and abs(loss - ex) <= tol * (1 + scale), lambda: f'{what}: {loss}, documented value {ex}, '
           f'times {ts.tolist()}')
    gs = np.array([np.mean(2 * np.abs(res * weight * f)) for f in feats])
    ensure(np.all(np.abs(grad - eg) <= tol * (1 + scale) + 10 * tol * gs),
           lambda: f'{what}: gradient {grad.tolist()}, expected {eg.tolist()}')
    return dict(nontrivial=n * nsteps > 1, labels=[p['kind'], what, 'random' if rt else 'fixed'])


EXACT = [(k,) + c for c in CFG if c[4] == 'score' for k in (sdes.KINDS if not c[-1] else ['const'])]


@sub(lambda part: strat(part, EXACT), quick=120, thorough=4000, shards=8, x64=True)
def exact_score(case):
    """Equal data: the network with the exact conditional score has zero loss, shifted by c / std loss c^2, and a shift
    c (1 + d t) / std the mean of c^2 (1 + d t)^2."""
    nsteps, n, shape, rt, lt, sm, ou = case['cfg']
    p, v = case['p'], sdes.vec(case['p'])
    t0, T = interval(p, case['u'], ou)
    r = np.random.default_rng(case['seed'])
    x0 = r.normal(size=tuple(shape)) * case['sx'] + case['mx']
    x0s = np.broadcast_to(x0, (n,) + tuple(shape))
    run = runner(p['kind'], nsteps, rt, lt, sm, 'exact', ou)
    key = jax.random.PRNGKey(case['seed'])
    c = case['w'][0]
    f = lambda a, b: float(call(run, v, t0, T, np.array([a, b, 0.]), key, jnp.asarray(x0s), jnp.asarray(x0))[0])
    scale = 1 + np.abs(x0).max() ** 2
    z = f(0., 0.)
    ensure(abs(z) < 1e-7 * scale, f'the loss at the exact conditional score is {z}')
    s = f(c, 0.)
    ensure(abs(s - c ** 2) < 1e-6 * scale * (1 + c ** 2), f'the loss at a shift of {c} standard-deviation units is {s}, not {c ** 2}')
    if not rt:
        K = n if sm else nsteps
        ts = t0 + (T - t0) * np.arange(1, K + 1) / K
        ex = c ** 2 * np.mean((1 + case['w'][1] * ts) ** 2)
        s = f(c, case['w'][1])
        ensure(abs(s - ex) < 1e-6 * scale * (1 + ex), f'the loss at a time-dependent shift is {s}, not {ex}')
    return dict(nontrivial=n * nsteps > 1, labels=[p['kind'], 'mem' if sm else 'path', 'ou' if ou else ''], runs=3)


LAWCFG = [(4, 1500, (2,), True, 'score', False, False), (3, 1500, (1, 2, 1), False, 'score', False, False),
          (0, 2500, (2,), True, 'score', True, False), (0, 2500, (2, 1), False, 'score', True, False),
          (3, 1500, (2,), True, 'score', False, True), (3, 1500, (2,), True, 'ipf', False, False)]
LAWSTATIC = [(k,) + c for c in LAWCFG for k in (sdes.KINDS if not c[-1] else ['const'])]


@sub(lambda part: strat(part, LAWSTATIC), quick=48, thorough=600, shards=8, x64=True)
def noised_law(case):
    """The states handed to the network have the forward law given the data, independently over items and coordinates;
    random times are uniform."""
    nsteps, n, shape, rt, lt, sm, ou = case['cfg']
    p, v = case['p'], sdes.vec(case['p'])
    t0, T = interval(p, case['u'], ou)
    x0s, r = data(case)
    run = runner(p['kind'], nsteps, rt, lt, sm, 'free', ou)
    what = 'noised states' + (' (save_mem)' if sm else '') + (' (ou)' if ou else '')
    d = int(np.prod(shape))

    def one(j):
        _, log = call(run, v, t0, T, np.zeros(3), jax.random.PRNGKey((case['seed'] + 7919 * j) % 2 ** 31), jnp.asarray(x0s), 0.)
        rec = path_times(log, sm, nsteps, n, shape, what)
        if rec is None:
            raise NotUnderstood
        X, ts = rec
        check_times(ts, t0, T, rt, sm, what)
        if sm:
            F, Q = np.array([sdes.FQ(p, t, t0) for t in ts]).T
            return ((X.reshape(n, d) - F[:, None] * x0s.reshape(n, d)) / np.sqrt(Q)[:, None]), ts
        Z, prev, s = [], x0s.reshape(n, d), t0
        for k in range(nsteps):
            F, Q = sdes.FQ(p, ts[k], s)
            cur = X[:, k].reshape(n, d)
            Z.append((cur - F * prev) / np.sqrt(Q))
            prev, s = cur, ts[k]
        return np.concatenate(Z, 1), ts

    D = d if sm else d * nsteps
    store = {}

    def sample(stage, m):
        if stage not in store:
            js = [0] if stage == 0 else [1, 2, 3, 4]
            store[stage] = np.concatenate([one(j)[0] for j in js])
        return store[stage]

    try:
        sample(0, n)
    except NotUnderstood:
        return UNKNOWN
    stats.gauss_moments_test(sample, np.zeros(D), np.eye(D), n, what, tol=1e-6)
    stats.normality_test(sample, np.zeros(D), np.eye(D), n, what)
    if sm and rt:
        from scipy.stats import kstest
        q = lambda js: kstest(np.concatenate([one(j)[1][:-1] for j in js]), 'uniform', args=(t0, T - t0)).pvalue
        if q([10]) < 1e-5:
            pv = q([11, 12, 13, 14])
            ensure(pv > 1e-10, f'{what}: the random times are not uniform on ({t0}, {T}): p-value {pv:.1e}')
    return dict(nontrivial=True, labels=[p['kind'], 'mem' if sm else 'path', 'ou' if ou else ''])


@sub(lambda part: st.fixed_dictionaries(dict(ou=st.sampled_from(part([False, True])), t0=st.sampled_from([0., 0.5]), T=gen.fl(0.7, 2.),
                                             seed=gen.seeds)), quick=2, thorough=10, shards=2, tshards=2, x64=True)
def time_law(case):
    """Path mode: the random inner times are uniform on the interval."""
    from scipy.stats import kstest
    ou = case['ou']
    t0, T, nsteps = case['t0'], case['T'], 20
    p = dict(kind='const', a=-0.5, b=1.)
    run = runner('const', nsteps, True, 'score', False, 'free', ou)
    x0s = jnp.zeros((1, 1))

    def q(js):
        ts = []
        for j in js:
            _, log = call(run, sdes.vec(p), t0, T, np.zeros(3), jax.random.PRNGKey((case['seed'] + j) % 2 ** 31), x0s, 0.)
            rec = path_times(log, False, nsteps, 1, (1,), 'times')
            if rec is None:
                return 1.
            ts.append(rec[1][:-1])
        return kstest(np.concatenate(ts), 'uniform', args=(t0, T - t0)).pvalue

    if q(range(60)) < 1e-5:
        pv = q(range(60, 300))
        ensure(pv > 1e-10, f'the random times are not uniform on ({t0}, {T}): p-value {pv:.1e}')
    return dict(nontrivial=True, labels=['times'], runs=60)

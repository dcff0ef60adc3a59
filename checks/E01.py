"""Cases: the Gaussian-process experiment scripts (toy/*: score matching, particle filter, Gibbs in all its modes, particle MCMC,
twisted SMC, Kalman filter; sb/*: filter, Gibbs), each run as a program in a scratch directory with generated arguments
(dimension, noising SDE, experiment id, particles). (1) the reported posterior against a Gaussian conditioning in float64;
(2) the model pieces a script exposes (reference sampler, transition sampler and density, measurement density, reverse drifts,
twisting and guidance) at generated states, measurements and times against the exact Gaussian diffusion; (3) the Kalman
filter against brute-force conditioning; (4) mean and covariance of the samples a whole run saves against the posterior.
Pieces that a script does not define under their present name are not examined. Non-trivial: dimension above one."""
import functools
import itertools
import math
import numpy as np
import jax
import jax.numpy as jnp
from hypothesis import strategies as st
from vf.core import sub, sut, ensure
from vf import gen, stats, scripts

ASSUMPTIONS = ['the law of the particle MCMC script is not compared with the posterior: it inherits the known finding of S03',
               'tolerances of (4) allow for 200 (100) Euler steps and the finite number of particles']

TOY = ['gp_filter', 'gp_gibbs', 'gp_pmcmc', 'gp_csgm', 'gp_twisted', 'gp_kf']


@functools.lru_cache(maxsize=4)
def toy(script, d, sde, id_, extra=()):
    args = ['--d', d, '--nsamples', 2 if script == 'gp_kf' else 0, '--sde', sde, '--id', id_]
    if script in ('gp_filter', 'gp_gibbs', 'gp_pmcmc', 'gp_twisted'):
        args += ['--nparticles', 4]
    return sut(scripts.run, f'toy/{script}.py', args + list(extra))


class Model:
    """Exact quantities of the joint diffusion of (x, y), float64."""

    def __init__(self, r, d, sde):
        self.d = d
        zs = np.asarray(r.g.get('zs', np.linspace(0., 5., d)), float)
        self.C = np.exp(-np.abs(zs[:, None] - zs[None]))
        self.obs = float(r.g.get('obs_var', 1.))
        self.J = np.block([[self.C, self.C], [self.C, self.C + self.obs * np.eye(d)]])
        self.sde, self.T = sde, 1.
        self.y0 = np.asarray(r.g['y0'], float) if 'y0' in r.g else None
        if self.y0 is not None:
            G = self.C @ np.linalg.inv(self.C + self.obs * np.eye(d))
            self.gm, self.gc = G @ self.y0, self.C - G @ self.C

    def FQ(self, t):
        if self.sde == 'const':
            return math.exp(-0.5 * t), 1 - math.exp(-t)
        bi = 0.02 * t + 0.5 * (4. - 0.02) * t ** 2
        return math.exp(-0.5 * bi), 1 - math.exp(-bi)

    def rate(self, t):
        """b(t)^2; the drift is -b^2 / 2 x."""
        return 1. if self.sde == 'const' else 0.02 + (4. - 0.02) * t

    def joint(self, t):
        F, Q = self.FQ(t)
        return F ** 2 * self.J + Q * np.eye(2 * self.d)

    def reverse(self, z, t):
        b2 = self.rate(self.T - t)
        return 0.5 * b2 * z - b2 * np.linalg.solve(self.joint(self.T - t), z)

    def reverse_x(self, u, t):
        F, Q = self.FQ(self.T - t)
        b2 = self.rate(self.T - t)
        return 0.5 * b2 * u - b2 * np.linalg.solve(F ** 2 * self.C + Q * np.eye(self.d), u)

    def reference(self, yT):
        S = self.joint(self.T)
        d = self.d
        G = S[:d, d:] @ np.linalg.inv(S[d:, d:])
        return G @ yT, S[:d, :d] - G @ S[d:, :d]


def steps_of(r, T=1.):
    """The number of time steps of the script, None if it cannot be seen."""
    for n, f in (('nsteps', int), ('ts', lambda v: len(v) - 1), ('dt', lambda v: int(round(T / float(v))))):
        if n in r.g:
            return f(r.g[n])


def norm_logpdf(x, m, sd):
    return np.sum(-0.5 * ((x - m) / sd) ** 2 - np.log(sd) - 0.5 * np.log(2 * np.pi), -1)


def call(f, *args):
    """A piece with another signature is another piece: not examined."""
    try:
        return np.asarray(f(*args), float)
    except TypeError:
        return None


def close(got, want, what, tol=2e-3):
    if got is None:
        return
    want = np.asarray(want, float)
    ensure(np.shape(got) == np.shape(want), lambda: f'{what}: shape {np.shape(got)}, expected {np.shape(want)}')
    ensure(np.all(np.abs(got - want) <= tol * (1 + np.abs(want))), lambda: f'{what}: {np.ravel(got)[:4].tolist()}, exact '
           f'{np.ravel(want)[:4].tolist()}')


def law(f, mean, cov, what, seed, n=20000):
    def run(stage, m):
        return np.asarray(f(jax.random.PRNGKey((seed + 7919 * stage) % 2 ** 31), m), float).reshape(m, -1)
    try:
        run(0, 1)
    except TypeError:
        return
    stats.gauss_moments_test(run, mean, cov, n, what, tol=2e-3)


@sub(lambda part: st.fixed_dictionaries(dict(static=st.sampled_from(part(list(itertools.product(TOY, ['const', 'lin'])))),
                                             d=st.sampled_from([1, 2, 3, 5, 10]), id=st.integers(0, 10 ** 6), t=st.one_of(st.integers(0, 199), st.integers(190, 199)),
                                             scale=st.sampled_from([0.3, 1., 2.]), seed=gen.seeds)),
     quick=60, thorough=900, shards=12, tshards=12)
def toy_pieces(case):
    script, sde = case['static']
    # (the covariance plot of the Kalman filter script needs two dimensions)
    d = max(case['d'], 2) if script == 'gp_kf' else case['d']
    r = toy(script, d, sde, case['id'])
    M = Model(r, d, sde)
    what = f'{script}, {sde}, d={d}: '
    known = ()
    if M.y0 is not None:
        ensure(M.y0.shape == (d,), what + 'shape of the data')
        known = ('gp_mean', M.gm), ('gp_cov', M.gc)
        for n, ex in known:
            if n in r.g:
                close(np.asarray(r.g[n], float), ex, what + f'reported {n}')
    for name, a in r.saved.items():
        ensure('gp_mean' in a and 'gp_cov' in a, what + 'the posterior is not saved')
        for n, ex in known:
            close(np.asarray(a[n], float), ex, what + f'saved {n}')
    rs = np.random.default_rng(case['seed'])
    u, v, up = (case['scale'] * rs.normal(size=(3, d))).astype(np.float32)
    nsteps = steps_of(r)
    if nsteps is None:
        return dict(nontrivial=False, labels=['steps not visible'])
    dt = M.T / nsteps
    t = (case['t'] % nsteps) * dt
    sd = math.sqrt(dt * M.rate(M.T - t))
    uv = np.concatenate([u, v]).astype(float)
    seen = []

    def piece(n):
        f = r.get(n)
        if f is not None:
            seen.append(n)
        return f

    if script in ('gp_csgm',):
        F, Q = M.FQ(M.T - t)
        if piece('reverse_drift') and M.y0 is not None:
            cov = F ** 2 * M.gc + Q * np.eye(d)
            want = 0.5 * M.rate(M.T - t) * u - M.rate(M.T - t) * np.linalg.solve(cov, u - F * M.gm)
            if t < 0.9:
                close(call(r.g['reverse_drift'], u, t), want, what + f'reverse drift at t={t}', tol=1e-2)
        if piece('cond_ref_sampler') and M.y0 is not None:
            F, Q = M.FQ(M.T)
            law(lambda k, m: jax.vmap(r.g['cond_ref_sampler'])(jax.random.split(k, m)), F * M.gm, F ** 2 * M.gc + Q * np.eye(d),
                what + 'reference law', case['seed'], 100000)
    elif script == 'gp_twisted':
        rd = M.reverse_x(u, t)
        if piece('reverse_drift'):
            close(call(r.g['reverse_drift'], u, t), rd, what + f'reverse drift at t={t}', tol=1e-2)
        if piece('init_sampler'):
            F, Q = M.FQ(M.T)
            law(lambda k, m: r.g['init_sampler'](k, m), np.zeros(d), F ** 2 * M.C + Q * np.eye(d), what + 'initial law', case['seed'], 200000)
        if piece('transition_logpdf'):
            n = 3
            us = u[None] + sd * rs.normal(size=(n, d)).astype(np.float32)
            ups = np.repeat(u[None], n, 0)
            close(call(r.g['transition_logpdf'], us, ups, t), norm_logpdf(us.astype(float), u + rd * dt, sd), what + f'transition density at t={t}', tol=1e-2)
        pl, ps, cd, tw = (piece(n) for n in ('twisting_prop_logpdf', 'twisting_prop_sampler', 'reverse_cond_drift', 'twisting_logpdf'))
        m = None
        if tw and cd and piece('reverse_drift'):
            # the guided drift adds the gradient of the twisting function, scaled by the squared dispersion
            g = np.zeros(d)
            for i in range(d):
                e = np.zeros(d, np.float32)
                e[i] = 0.25
                a, b = call(tw, v, u + e, t), call(tw, v, u - e, t)
                if a is None or b is None:
                    g = None
                    break
                g[i] = (a - b) / 0.5
            if g is not None:
                m = rd + M.rate(M.T - t) * g
                close(call(cd, u, t, v), m, what + f'guided drift at t={t}', tol=2e-2)
        if pl and m is not None:
            x = (u + m * dt + sd * rs.normal(size=(2, d))).astype(np.float32)
            close(call(pl, x, np.repeat(u[None], 2, 0), t, v), norm_logpdf(x.astype(float), u + m * dt, sd), what + f'proposal density at t={t}', tol=2e-2)
        if ps and m is not None and 'nparticles' in r.g:
            N = int(r.g['nparticles'])
            prop = lambda k, n: jax.vmap(lambda kk: ps(kk, jnp.repeat(u[None], N, 0), t, v))(jax.random.split(k, n // N + 1)).reshape(-1, d)[:n]
            law(prop, u + m * dt, sd ** 2 * np.eye(d), what + f'proposal law at t={t}', case['seed'])
    else:
        full = M.reverse(uv, t)
        if piece('reverse_drift'):
            close(call(r.g['reverse_drift'], uv.astype(np.float32), t), full, what + f'reverse drift at t={t}', tol=1e-2)
        if script != 'gp_kf':
            us = np.stack([u, up])
            f1 = np.stack([M.reverse(np.r_[q, v].astype(float), t) for q in us])
            if piece('transition_sampler'):
                law(lambda k, m: r.g['transition_sampler'](jnp.repeat(jnp.asarray(u)[None], m, 0), jnp.asarray(v), t, k), u + full[:d] * dt, sd ** 2 * np.eye(d),
                    what + f'transition law at t={t}', case['seed'])
            # also close to the end, where the rate of the linear noising is small, and away from the mean
            for k in dict.fromkeys([case['t'] % nsteps, nsteps - 1, nsteps - 3, nsteps - 10, 0]):
                tk = k * dt
                sk = math.sqrt(dt * M.rate(M.T - tk))
                fk = np.stack([M.reverse(np.r_[q, v].astype(float), tk) for q in us])
                for away in (0.7, 4.):
                    e = away * np.sign(rs.normal(size=d))
                    if piece('transition_logpdf'):
                        x = (u + fk[0, :d] * dt + sk * e).astype(np.float32)
                        close(call(r.g['transition_logpdf'], x, us, v, tk), norm_logpdf(x.astype(float), us + fk[:, :d] * dt, sk),
                              what + f'transition density at t={tk}', tol=1e-2)
                    if piece('likelihood_logpdf'):
                        x = (v + fk[0, d:] * dt + sk * e).astype(np.float32)
                        close(call(r.g['likelihood_logpdf'], x, us, v, tk), norm_logpdf(x.astype(float), v + fk[:, d:] * dt, sk),
                              what + f'measurement density at t={tk}', tol=1e-2)
            if piece('ref_sampler'):
                m, c = M.reference(v.astype(float))
                law(lambda k, n: r.g['ref_sampler'](k, jnp.asarray(v), n), m, c, what + 'reference law', case['seed'], 200000)
            for n, z in (('fwd_sampler', (u, v)), ('fwd_ys_sampler', (v,))):
                if piece(n):
                    F, Q = M.FQ(M.T)
                    z0 = np.concatenate(z).astype(float)
                    f = jax.jit(jax.vmap(lambda k: r.g[n](k, *map(jnp.asarray, z))))
                    o = call(lambda k: f(k), jax.random.split(jax.random.PRNGKey(0), 2))
                    if o is not None:
                        ensure(o.shape == (2, nsteps + 1, z0.size) and np.allclose(o[:, 0], z0, atol=1e-5), what + f'{n}: shape or start')
                        law(lambda k, m: f(jax.random.split(k, m))[:, -1], F * z0, Q * np.eye(z0.size), what + f'{n}: terminal law', case['seed'])
            if script == 'gp_pmcmc' and piece('pmcmc_init'):
                start_of_the_chain(r, M, nsteps, dt, what, case['seed'])
        else:
            kalman(r, M, nsteps, dt, what, rs, seen)
    return dict(nontrivial=d > 1 and len(seen) > 1, labels=[script, sde] + [f'{script}: {s}' for s in dict.fromkeys(seen)], runs=1)


def joint_of_path(M, nsteps, dt):
    """Covariance of (u_0, v_0, u_1, v_1, ...) under the Euler steps of the exact reverse equation."""
    n, ts = 2 * M.d, np.linspace(0, M.T, nsteps + 1)
    cov = np.zeros((n * (nsteps + 1),) * 2)
    cov[:n, :n] = M.joint(M.T)
    for k in range(nsteps):
        R = np.eye(n) + dt * np.stack([M.reverse(e, ts[k]) for e in np.eye(n)], 1)
        i = n * (k + 1)
        cov[i:i + n, :i] = R @ cov[i - n:i, :i]
        cov[:i, i:i + n] = cov[i:i + n, :i].T
        cov[i:i + n, i:i + n] = R @ cov[i - n:i, i - n:i] @ R.T + dt * M.rate(M.T - ts[k]) * np.eye(n)
    return cov


def start_of_the_chain(r, M, nsteps, dt, what, seed):
    """The chain starts with a log likelihood of the size of that of a measurement path."""
    try:
        out = r.g['pmcmc_init'](jax.random.PRNGKey(seed % 2 ** 31))
        ell = float(out[1])
    except TypeError:
        return
    d = M.d
    cov = joint_of_path(M, nsteps, dt)
    vi = np.concatenate([2 * d * k + d + np.arange(d) for k in range(nsteps + 1)])
    P = cov[np.ix_(vi, vi)]
    # expected log density of v_1..K given v_0
    typ = -0.5 * (np.linalg.slogdet(2 * np.pi * np.e * P)[1] - np.linalg.slogdet(2 * np.pi * np.e * P[:d, :d])[1])
    ensure(np.isfinite(ell), what + 'initial log likelihood is not finite')
    if abs(typ) > 100:
        ensure(abs(ell - typ) < abs(ell + typ), lambda: what + f'the chain starts at log likelihood {ell:.1f}, paths have about {typ:.1f}')


def kf_affine(M, nsteps, dt):
    """x0 given the reversed measurement path under the Euler model: mean A vs + 0, covariance S."""
    d, n = M.d, 2 * M.d
    cov = joint_of_path(M, nsteps, dt)
    vi = np.concatenate([n * k + d + np.arange(d) for k in range(nsteps + 1)])
    xi = n * nsteps + np.arange(d)
    A = cov[np.ix_(xi, vi)] @ np.linalg.inv(cov[np.ix_(vi, vi)])
    return A, cov[np.ix_(xi, xi)] - A @ cov[np.ix_(vi, xi)]


def kalman(r, M, nsteps, dt, what, rs, seen):
    d = M.d
    A, S = kf_affine(M, nsteps, dt)
    vs = rs.normal(size=(nsteps + 1, d)).astype(np.float32)
    m0, c0 = M.reference(vs[0].astype(float))
    if r.get('ref_solver'):
        try:
            m, c = r.g['ref_solver'](vs[0])
            close(np.asarray(m, float), m0, what + 'reference mean')
            close(np.asarray(c, float), c0, what + 'reference covariance')
        except TypeError:
            pass
    if r.get('adhoc_kf'):
        seen.append('adhoc_kf')
        try:
            m, c = r.g['adhoc_kf'](jnp.asarray(m0, jnp.float32), jnp.asarray(c0, jnp.float32), jnp.asarray(vs))
        except TypeError:
            return
        close(np.asarray(m, float), A @ vs.astype(float).ravel(), what + 'Kalman mean of x0 given the measurement path', tol=5e-3)
        close(np.asarray(c, float), S, what + 'Kalman covariance of x0 given the measurement path', tol=5e-3)


@functools.lru_cache(maxsize=4)
def sb(script, d, id_):
    return sut(scripts.run, f'sb/{script}.py', ['--d', d, '--nsamples', 0, '--nparticles', 4, '--id', id_])


@sub(lambda part: st.fixed_dictionaries(dict(script=st.sampled_from(part(['filter', 'gibbs'])), d=st.sampled_from([1, 2, 3, 4]), id=st.integers(0, 10 ** 6),
                                             t=st.integers(0, 99), seed=gen.seeds)), quick=12, thorough=200, shards=2, tshards=4)
def bridge_pieces(case):
    d = case['d']
    r = sb(case['script'], d, case['id'])
    what = f'sb/{case["script"]}, d={d}: '
    M = Model(r, d, 'const')
    seen = []
    for name, a in r.saved.items():
        if M.y0 is None:
            break
        close(np.asarray(a['gp_mean'], float), M.gm, what + 'saved posterior mean', tol=1e-2)
        close(np.asarray(a['gp_cov'], float), M.gc, what + 'saved posterior covariance', tol=1e-2)
    rs = np.random.default_rng(case['seed'])
    u, v, up = rs.normal(size=(3, d)).astype(np.float32)
    if r.get('gp_posterior_sampler') and M.y0 is not None:
        seen.append('gp_posterior_sampler')
        law(lambda k, m: jax.vmap(r.g['gp_posterior_sampler'])(jax.random.split(k, m)), M.gm, M.gc, what + 'posterior sampler', case['seed'])
    if r.get('ref_cov') is not None and r.get('ref_m') is not None and r.get('ref_sampler'):
        seen.append('ref_sampler')
        m, S = np.asarray(r.g['ref_m'], float), np.asarray(r.g['ref_cov'], float)
        if np.linalg.cond(S[d:, d:]) < 1e3:
            G = S[:d, d:] @ np.linalg.inv(S[d:, d:])
            c = S[:d, :d] - G @ S[d:, :d]
            if np.linalg.eigvalsh(c).min() > 1e-3 * np.linalg.eigvalsh(S).max():
                law(lambda k, n: r.g['ref_sampler'](k, jnp.asarray(v), n), m[:d] + G @ (v - m[d:]), c, what + 'reference law', case['seed'])
    nsteps = steps_of(r)
    if nsteps is None:
        return dict(nontrivial=False, labels=['steps not visible'])
    dt = 1. / nsteps
    t = (case['t'] % nsteps) * dt
    need = [r.get(n) for n in ('marginal_mean', 'marginal_cov', 'drift')]
    if all(f is not None for f in need):
        mm, mc, dr = need

        def rev(z):
            c = np.asarray(mc(1. - t), float)
            return -np.asarray(dr(jnp.asarray(z, jnp.float32), 1. - t), float) - np.linalg.solve(c, z - np.asarray(mm(1. - t), float)), np.linalg.cond(c)
        sd = math.sqrt(dt)
        us = np.stack([u, up]).astype(float)
        R, cond = zip(*[rev(np.r_[q, v].astype(float)) for q in us])
        R = np.stack(R)
        if max(cond) < 1e3:
            seen.append('reverse')
            if r.get('transition_logpdf'):
                x = (u + R[0, :d] * dt + sd * rs.normal(size=d)).astype(np.float32)
                close(call(r.g['transition_logpdf'], x, us.astype(np.float32), v, t), norm_logpdf(x.astype(float), us + R[:, :d] * dt, sd),
                      what + 'transition density', tol=3e-2)
            if r.get('likelihood_logpdf'):
                x = (v + R[0, d:] * dt + sd * rs.normal(size=d)).astype(np.float32)
                close(call(r.g['likelihood_logpdf'], x, us.astype(np.float32), v, t), norm_logpdf(x.astype(float), v + R[:, d:] * dt, sd),
                      what + 'measurement density', tol=3e-2)
            if r.get('transition_sampler'):
                law(lambda k, m: r.g['transition_sampler'](jnp.repeat(jnp.asarray(u)[None], m, 0), jnp.asarray(v), t, k), u + R[0, :d] * dt,
                    sd ** 2 * np.eye(d), what + 'transition law', case['seed'])
    return dict(nontrivial=d > 1 and len(seen) > 1, labels=[case['script']] + seen)


RUNS = [('toy/gp_csgm.py', 6, ['--nsamples', 1500], ['const', 'lin'], 0.25),
        ('toy/gp_filter.py', 4, ['--nsamples', 600, '--nparticles', 100], ['const', 'lin'], 0.35),
        ('toy/gp_gibbs.py', 3, ['--nsamples', 800, '--explicit_backward'], ['const', 'lin'], 0.3),
        ('toy/gp_gibbs.py', 3, ['--nsamples', 800], ['lin'], 0.3),
        ('toy/gp_gibbs.py', 3, ['--nsamples', 800, '--explicit_final', '--marg'], ['const'], 0.3),
        ('toy/gp_twisted.py', 3, ['--nsamples', 800, '--nparticles', 20], ['const', 'lin'], 0.6),
        ('toy/gp_kf.py', 3, ['--nsamples', 1500], ['const', 'lin'], 0.25),
        ('toy/gp_pmcmc.py', 2, ['--nsamples', 300, '--delta', '0.1', '--nparticles', 30], ['const'], None),
        ('sb/filter.py', 3, ['--nsamples', 600, '--nparticles', 200], [None], 0.45),
        ('sb/gibbs.py', 2, ['--nsamples', 1500, '--explicit_backward'], [None], 0.5)]
ALL = [(i, s) for i, r in enumerate(RUNS) for s in r[3]]


@sub(lambda part: st.fixed_dictionaries(dict(run=st.sampled_from(part(ALL)).map(list), id=st.integers(0, 10 ** 6))),
     quick=len(ALL), thorough=8 * len(ALL), shards=len(ALL), tshards=len(ALL))
def samples_follow_the_posterior(case):
    i, sde = case['run']
    script, d, extra, _, tol = RUNS[i]

    def attempt(stage):
        args = ['--d', d, '--id', case['id'] + stage] + extra + (['--sde', sde] if sde else [])
        r = sut(scripts.run, script, args)
        if 'gp_kf' in script:
            x = r.get('approx_cond_samples')
            if x is None:
                return None
            M = Model(r, d, sde)
            if M.y0 is None:
                return None
            n = steps_of(r)
            if n is None:
                return None
            A, S = kf_affine(M, n, 1. / n)
            # the measurement path is the exact noising path, reversed
            ts = np.linspace(0, 1, n + 1)
            F = np.array([M.FQ(t)[0] for t in ts])
            c = np.array([[(1 - F[min(a, b)] ** 2) * F[max(a, b)] / F[min(a, b)] for b in range(n + 1)] for a in range(n + 1)])
            P = np.kron(c[::-1, ::-1], np.eye(d))
            mean, cov = A @ np.concatenate([f * M.y0 for f in F[::-1]]), A @ P @ A.T + S
        else:
            ensure(len(r.saved) == 1, lambda: f'{script}: saved files {sorted(r.saved)}')
            a = list(r.saved.values())[0]
            x, mean, cov = a['samples'], np.asarray(a['gp_mean'], float), np.asarray(a['gp_cov'], float)
            M = Model(r, d, sde)
            if M.y0 is not None:
                close(mean, M.gm, f'{script}: saved posterior mean', tol=1e-2)
                close(cov, M.gc, f'{script}: saved posterior covariance', tol=1e-2)
        x = np.asarray(x, float)
        ensure(np.all(np.isfinite(x)), f'{script}: samples are not finite')
        if 'gibbs' in script or 'pmcmc' in script:
            x = x.reshape((-1,) + x.shape[-2:])
            same = np.all(x[:, 1:] == x[:, :-1], -1).mean()
            ensure(same < 0.98, lambda: f'{script}: the chain stays where it is in {same:.3f} of the steps')
            ensure('toy' not in script or not np.any(x[0, -1] == x[1:, -1]), f'{script}: the chains are the same')
            x = x[:, x.shape[1] // 8:].reshape(-1, d)
        else:
            ensure(len(np.unique(x, axis=0)) == len(x), f'{script}: repeated samples')
        ensure(x.shape[1] == d, f'{script}: shape of the samples')
        z = np.linalg.solve(np.linalg.cholesky(cov), (x - mean).T).T
        return float(np.abs(z.mean(0)).max()), float(np.abs(np.cov(z.T) - np.eye(d)).max()), len(x)

    res = attempt(0)
    if tol is not None and res is not None and max(res[:2]) > tol:
        # a whole second run of another experiment: both have to be off
        res2 = attempt(1)
        ensure(res2 is None or max(res2[:2]) <= tol, lambda: f'{script} {extra} {sde or ""}: the samples of two experiments are off the reported '
               f'posterior: whitened mean {res[0]:.2f}, {res2[0]:.2f}, covariance {res[1]:.2f}, {res2[1]:.2f} (tolerance {tol})')
    return dict(nontrivial=d > 1, labels=[script], runs=res[2] if res else 1)

"""Cases: one library entry point out of the registry below, random arguments (models, weights, shapes, grids), four random
keys. Oracles: equality of repeated and reordered calls, and the differential relations eager = jit-compiled = batched over
keys and data (jax.vmap) = carried through jax.lax.scan. Different keys: different results. Non-trivial: the result depends
on the key, or is not constant over the four arguments."""
import functools
import numpy as np
import jax
import jax.numpy as jnp
from flax import linen
from hypothesis import strategies as st
from vf.core import sub, sut, ensure
from vf import gen
from fbs.samplers import resampling as rs
from fbs.samplers.csmc import resamplings as crs
from fbs.samplers.csmc.csmc import csmc_kernel, barker_move, forward_pass, backward_sampling_pass, backward_scanning_pass
from fbs.samplers.gibbs import gibbs_init, gibbs_kernel, force_move, bridge_sampler
from fbs.samplers.smc import (bootstrap_filter, bootstrap_backward_smoother, pmcmc_filter_step, pcn_proposal, pmcmc_kernel,
                              twisted_smc)
from fbs.sdes.linear import (StationaryConstLinearSDE, StationaryLinLinearSDE, StationaryExpLinearSDE, make_linear_sde,
                             make_ou_sde, make_linear_sde_law_loss, make_ou_score_matching_loss, make_gaussian_bw_sb)
from fbs.sdes.simulators import euler_maruyama, reverse_simulator, discrete_time_simulator, doob_bridge_simulator
from fbs.dsb.base import ipf_loss_disc, ipf_loss_cont, ipf_loss_cont_v
from fbs.data.bayesian import Crescent
from fbs.data.images import Image, ImageRestore
from fbs.nn.base import make_st_nn, sinusoidal_embedding
from fbs.utils import discretise_lti_sde, sqrtm, bures_dist, kl

B = 4  # keys, and sets of arguments
REG = {}


def entry(random=True, discrete=False, modes=True):
    """Registers maker(r) -> (function of (key, *arrays), list of B tuples of arrays). r: numpy Generator.
    random: the result depends on the key; discrete: it takes finitely many values; modes: it can be compiled."""
    def deco(maker):
        REG[maker.__name__] = (maker, random, discrete, modes)
        return maker
    return deco


def arr(x):
    return jnp.asarray(np.asarray(x), float) if np.asarray(x).dtype.kind == 'f' else jnp.asarray(x)


def grid(r, k):
    return arr(np.concatenate([[0.], np.cumsum(r.uniform(0.1, 0.5, size=k))]))


def a_sde(r, n=3):
    """The first two also have the means and bridges that the samplers need."""
    return [StationaryConstLinearSDE(a=-float(r.uniform(0.3, 1.)), b=float(r.uniform(0.5, 1.5))),
            StationaryLinLinearSDE(beta_min=0.1, beta_max=float(r.uniform(1., 5.)), t0=0., T=3.),
            StationaryExpLinearSDE(a=-0.5, b=1., c=float(r.uniform(0.3, 1.)), z=0.5)][r.integers(n)]


def weights(r, n):
    return arr(r.dirichlet(np.ones(n) * 1.5))


for scheme in ('systematic', 'stratified', 'multinomial', 'killing'):
    def _mk(r, scheme=scheme):
        n = int(r.integers(5, 9))
        return (lambda key, w: getattr(rs, scheme)(w, key)), [(weights(r, n),) for _ in range(B)]
    REG['resampling_' + scheme] = (_mk, True, True, True)

for scheme in ('systematic', 'multinomial', 'killing'):
    def _mk(r, scheme=scheme):
        n, cond = int(r.integers(5, 9)), scheme != 'systematic' and bool(r.integers(2))  # the code has no such one
        return (lambda key, w, i, j: getattr(crs, scheme)(key, w, i, j, conditional=cond)), \
            [(weights(r, n), jnp.asarray(r.integers(n)), jnp.asarray(r.integers(n))) for _ in range(B)]
    REG['conditional_' + scheme] = (_mk, True, True, True)


@entry(discrete=True)
def moves(r):
    n = int(r.integers(5, 9))
    return (lambda key, w, k: (force_move(key, w, k)[0], force_move(key, w, k)[1], barker_move(key, w))), \
        [(weights(r, n), jnp.asarray(r.integers(n))) for _ in range(B)]


def model(r, K, du, dv):
    """A conditional Gaussian model; every callback has the signature of the samplers."""
    A, C, q, s = r.normal(size=(du, du)) * 0.5, r.normal(size=(dv, du)), float(r.uniform(0.3, 1.)), float(r.uniform(0.5, 1.5))
    A, C = arr(A), arr(C)

    def tsamp(us, v, t, key, **kw):
        return us @ A.T + 0.1 * t + 0.2 * v[0] + q * jax.random.normal(key, us.shape)

    def tlog(u, us, v, t, **kw):
        return jnp.sum(jax.scipy.stats.norm.logpdf(u, us @ A.T + 0.1 * t + 0.2 * v[0], q), -1)

    def lik(v, us, vp, t, **kw):
        return jnp.sum(jax.scipy.stats.norm.logpdf(v, us @ C.T + 0.3 * vp + 0.05 * t, s), -1)

    return tsamp, tlog, lik


def smc_args(r):
    K, N, du, dv = int(r.integers(1, 4)), int(r.integers(3, 7)), int(r.integers(1, 3)), int(r.integers(1, 3))
    return K, N, du, dv, model(r, K, du, dv), grid(r, K), [arr(r.normal(size=(K + 1, dv))) for _ in range(B)]


SCHEMES = [rs.systematic, rs.stratified, rs.multinomial, rs.killing]


@entry()
def filter_and_smoother(r):
    K, N, du, dv, (tsamp, tlog, lik), ts, vss = smc_args(r)
    scheme, last, log = SCHEMES[r.integers(4)], bool(r.integers(2)), bool(r.integers(2))

    def fn(key, vs):
        k1, k2, k3 = jax.random.split(key, 3)
        m = lik if log else (lambda *a, **kw: jnp.exp(lik(*a, **kw)))

        def init(*_): return jax.random.normal(k1, (N, du))

        us, nell = bootstrap_filter(tsamp, m, vs, ts, init, k2, N, scheme, log=log, return_last=last)
        if last:
            return us, nell
        return us, nell, bootstrap_backward_smoother(k3, us, vs, ts, tlog, likelihood_logpdf=lik)

    return fn, [(v,) for v in vss]


@entry()
def csmc(r):
    K, N, du, dv, (tsamp, tlog, lik), ts, vss = smc_args(r)
    scheme, back = [crs.killing, crs.multinomial][r.integers(2)], bool(r.integers(2))

    def fn(key, us, bs, vs):
        return csmc_kernel(key, us, bs, vs, ts, lambda k, n: jax.random.normal(k, (n, du)),
                           lambda v, u, *a: -0.5 * jnp.sum(u ** 2, -1) + 0. * v[0], tsamp, tlog, lik, scheme, N, backward=back)

    return fn, [(arr(r.normal(size=(K + 1, du))), jnp.asarray(r.integers(0, N + 1, size=K + 1)), v) for v in vss]


@entry()
def gibbs(r):
    K, N, du, dv, (tsamp, tlog, lik), ts, vss = smc_args(r)
    eb, ef, marg, sde = bool(r.integers(2)), bool(r.integers(2)), bool(r.integers(2)), a_sde(r, 2)
    method, initialise = ['filter', 'smoother'][r.integers(2)], bool(r.integers(2))
    _, _, fwd = make_linear_sde(sde)

    def fwd_sampler(key, x, y, **kw):
        return fwd(key, jnp.concatenate([x, y], -1), ts)

    def unpack(xy, **kw):
        return xy[..., :du], xy[..., du:]

    def fn(key, x0, y0, us, bs):
        if initialise:
            return gibbs_init(key, y0, (du,), ts, fwd_sampler, sde, unpack, tsamp, tlog, lik, N, method=method, marg_y=marg, x0=x0)
        return gibbs_kernel(key, x0, y0, us, bs, ts, fwd_sampler, sde, unpack, N, tsamp, tlog, lik, marg_y=marg,
                                  explicit_backward=eb, explicit_final=ef)

    return fn, [(arr(r.normal(size=du)), v[0], arr(r.normal(size=(K + 1, du))), jnp.asarray(r.integers(0, N, size=K + 1)))
                for v in vss]


@entry()
def particle_mcmc(r):
    K, N, du, dv, (tsamp, tlog, lik), ts, vss = smc_args(r)
    delta, sde, scheme = [None, float(r.uniform(0.01, 1.))][r.integers(2)], a_sde(r, 2), SCHEMES[r.integers(4)]
    which, step = [None, 0][r.integers(2)], r.integers(3) == 0
    _, _, fwd = make_linear_sde(sde)

    def fn(key, uT, ell, ys, y0):
        if step:
            return pmcmc_filter_step(key, ys, uT + jnp.arange(N)[:, None], ts, tsamp, lik, scheme, N)
        return pmcmc_kernel(key, uT, ell, ys, y0, ts, lambda k, y: fwd(k, y, ts), sde,
                            lambda k, v, n: jax.random.normal(k, (n, du)), tsamp, lik, scheme, N, delta=delta, which_u=which)

    return fn, [(arr(r.normal(size=du)), arr(float(r.normal() - 50. * (i % 2))), v, v[0]) for i, v in enumerate(vss)]


@entry()
def twisted(r):
    K, N, du = int(r.integers(1, 4)), int(r.integers(3, 7)), int(r.integers(1, 3))
    ts, scheme, q = grid(r, K), SCHEMES[r.integers(4)], float(r.uniform(0.4, 1.))

    def fn(key, y):
        def lp(x, m, s): return jnp.sum(jax.scipy.stats.norm.logpdf(x, m, s), -1)
        return twisted_smc(key, y, ts, lambda k, n: jax.random.normal(k, (n, du)), lambda x, xp, t: lp(x, 0.9 * xp + 0.1 * t, q),
                           lambda y, x, t: lp(y, x, 1.), lambda k, x, t, y: 0.8 * x + 0.1 * y + q * jax.random.normal(k, x.shape),
                           lambda x, xp, t, y: lp(x, 0.8 * xp + 0.1 * y, q), scheme, N)

    return fn, [(arr(r.normal(size=du)),) for _ in range(B)]


@entry()
def forward_noising(r):
    sde, K = a_sde(r), int(r.integers(1, 5))
    shape, keep = [(3,), (2, 2, 1)][r.integers(2)], bool(r.integers(2))
    disc, score, sim = make_linear_sde(sde)
    _, _, ou = make_ou_sde(-0.5, 1.)
    ts, gap = grid(r, K), float(r.uniform(0.2, 1.))

    def fn(key, x0, t):
        return (sim(key, x0, ts, keep_path=keep), sim(key, x0, t + ts, t0=-gap, keep_path=False), disc(t + gap, t),
                score(x0, t + gap, x0, t), ou(key, x0.ravel(), ts, keep_path=keep), sde.drift(x0, t), sde.dispersion(t))

    return fn, [(arr(r.normal(size=shape)), arr(float(r.uniform(0., 1.)))) for _ in range(B)]


@entry()
def bridges(r):
    lin = StationaryLinLinearSDE(beta_min=0.1, beta_max=float(r.uniform(1., 5.)), t0=0., T=5.)
    K, n, rep = int(r.integers(2, 5)), int(r.integers(1, 4)), bool(r.integers(2))
    ts = grid(r, K)

    def fn(key, x0, xT):
        return (doob_bridge_simulator(key, lin, x0, xT, ts, integration_nsteps=n, replace=rep),
                bridge_sampler(key, x0, xT, ts, lin))

    return fn, [(arr(r.normal(size=2)), arr(r.normal(size=2))) for _ in range(B)]


@entry()
def numerical_simulators(r):
    K, n, path, shape = int(r.integers(1, 5)), int(r.integers(1, 4)), bool(r.integers(2)), [(), (3,), (2, 2)][r.integers(3)]
    ts = grid(r, K)

    def drift(x, t): return -x + jnp.sin(t)
    def disp(t): return 1. + 0.1 * t

    def fn(key, x0):
        return (euler_maruyama(key, x0, ts, drift, disp, integration_nsteps=n, return_path=path),
                reverse_simulator(key, x0, ts, lambda x, t: -x, drift, disp, integration_nsteps=n),
                discrete_time_simulator(key, x0, ts, lambda x, t, s: x * jnp.exp(s - t), lambda t, s: jnp.sqrt(t - s)))

    return fn, [(arr(np.asarray(r.normal(size=shape))),) for _ in range(B)]


@entry()
def autoregressive_proposal(r):
    delta, K = float(r.uniform(0.01, 3.)), int(r.integers(1, 4))
    return (lambda key, x, m: pcn_proposal(key, delta, x, m, lambda k: m + jax.random.normal(k, m.shape))), \
        [(arr(r.normal(size=(K, 2))), arr(r.normal(size=(K, 2)))) for _ in range(B)]


@entry()
def score_losses(r):
    n, d, nsteps, rt = int(r.integers(2, 5)), int(r.integers(1, 3)), int(r.integers(2, 5)), bool(r.integers(2))
    kind, mem = [('score', False), ('ipf', False), ('ipf-score', False), ('score', True)][r.integers(4)]
    sde = a_sde(r)

    def net(x, t, p): return p[0] * x + p[1] * jnp.sin(jnp.reshape(t, jnp.shape(t) + (1,) * (x.ndim - jnp.ndim(t))))
    l1 = make_linear_sde_law_loss(sde, net, t0=0., T=2., nsteps=nsteps, random_times=rt, loss_type=kind, save_mem=mem)
    l2 = make_ou_score_matching_loss(-0.5, 1., net, nsteps=nsteps, random_times=rt)
    return (lambda key, p, x: (jax.value_and_grad(l1)(p, key, x), jax.value_and_grad(l2)(p, key, x))), \
        [(arr(r.normal(size=2)), arr(r.normal(size=(n, d)))) for _ in range(B)]


@entry()
def bridge_losses(r):
    n, d, K = int(r.integers(2, 5)), int(r.integers(1, 3)), int(r.integers(1, 5))
    ts = grid(r, K)

    def net(x, t, p): return p[0] * x + p[1] * jnp.sin(t)
    def disp(t): return 1. + 0.2 * t

    def fn(key, p, q, x):
        def all_(p):
            return (ipf_loss_disc(p, q, x, ts, jnp.diff(ts), net, net, key), ipf_loss_cont(key, p, q, x, ts, net, net, disp),
                    ipf_loss_cont_v(key, p, q, x, ts, net, net, disp))
        return all_(p), jax.jacrev(all_)(p)

    return fn, [(arr(r.normal(size=2)), arr(r.normal(size=2)), arr(r.normal(size=(n, d)))) for _ in range(B)]


@entry(random=False)
def gaussian_bridge(r):
    d, sig = int(r.integers(1, 4)), float(r.uniform(0.3, 1.5))

    def spd():
        m = r.normal(size=(d, d))
        return arr(m @ m.T + 0.5 * np.eye(d))

    def fn(key, m0, c0, m1, c1, x, t):
        mean, cov, drift = make_gaussian_bw_sb(m0, c0, m1, c1, sig)
        return mean(t), cov(t), drift(x, t), sqrtm(c0), bures_dist(m0, c0, m1, c1), kl(m0, c0, m1, c1)

    return fn, [(arr(r.normal(size=d)), spd(), arr(r.normal(size=d)), spd(), arr(r.normal(size=d)), arr(float(r.uniform(0.1, 0.9))))
                for _ in range(B)]


@entry(random=False)
def lti(r):
    d = int(r.integers(1, 4))
    return (lambda key, A, G, dt: discretise_lti_sde(A, G, dt)), \
        [(arr(r.normal(size=(d, d))), (lambda g: arr(g @ g.T))(r.normal(size=(d, d))), arr(float(r.uniform(0.05, 1.5)))) for _ in range(B)]


@entry()
def crescent(r):
    data, n = Crescent(psi=float(r.uniform(0.5, 2.)), xi=float(r.uniform(0.3, 2.))), int(r.integers(1, 5))

    def fn(key, xy):
        phi, y = data.unpack(xy)
        return data.sampler(key, n), data.score(xy), data.log_prior_pdf(phi), data.log_cond_pdf_likelihood(y, phi)

    return fn, [(arr(r.normal(size=3)),) for _ in range(B)]


@entry(discrete=True)
def corruption(r):
    s, c = 8, int(r.choice([1, 3]))
    task = ['inpaint-4', 'inpaint-3', 'deconv-3', 'supr-2', 'supr-4'][r.integers(5)]
    xs = arr(r.uniform(size=(6, s, s, c)))

    class Data(Image):
        def __init__(self):
            self.task, self.image_shape, self.n, self.xs = task, (s, s, c), 6, xs

    data = Data()
    return (lambda key, img: (data.corrupt(key, img),) + data.sampler(key)), [(arr(r.uniform(size=(s, s, c))),) for _ in range(B)]


@entry(discrete=True)
def restoration(r):
    s, c = 8, int(r.choice([1, 3]))
    task = ['inpaint-4', 'inpaint-3', 'supr-2', 'supr-4'][r.integers(4)]
    xs, moving = arr(r.uniform(size=(6, s, s, c))), bool(r.integers(3))

    class Data(ImageRestore):
        def __init__(self):
            super().__init__(task, (s, s, c), moving)
            self.n, self.xs = 6, xs

    data = Data()

    def fn(key, img):
        x, y, mask = data.sampler(key)
        u, v = data.unpack(img, mask)
        return x, y, mask.unobs_inds_ravelled, mask.obs_inds_ravelled, u, v, data.concat(u, v, mask)

    return fn, [(arr(r.uniform(size=(s, s, c))),) for _ in range(B)]


@entry(discrete=True, modes=False)
def enumeration(r):
    s, c, n = 6, int(r.choice([1, 3])), int(r.integers(7, 12))
    xs, task = arr(r.uniform(size=(n, s, s, c))), ['none', 'inpaint-3', 'supr-2', 'deconv-3'][r.integers(4)]
    batch, restore = int(r.integers(2, 4)), bool(r.integers(2))

    class Pairs(Image):
        def __init__(self):
            self.task, self.image_shape, self.n, self.xs = task, (s, s, c), n, xs

    class Single(ImageRestore):
        def __init__(self):
            super().__init__('supr-2', (s, s, c), True)
            self.n, self.xs = n, xs

    data = Single() if restore else Pairs()

    def fn(key, i):
        k1, k2, k3 = jax.random.split(key, 3)
        perm = data.init_enumeration(k1, batch)
        return perm, [x for x in jax.tree_util.tree_leaves(data.enumerate_subset(int(i), perm, k2))], \
            jax.tree_util.tree_leaves(data.enumerate_subset(int(i), key=k3))

    return fn, [(jnp.asarray(r.integers(n // batch)),) for _ in range(B)]


@entry()
def network(r):
    d, h = int(r.integers(1, 4)), int(r.choice([2, 4]))

    class Net(linen.Module):
        @linen.compact
        def __call__(self, x, t):
            e = jax.vmap(lambda z: sinusoidal_embedding(z / 0.05, out_dim=4))(jnp.atleast_1d(t))
            return linen.Dense(d)(linen.tanh(linen.Dense(h)(x) + linen.Dense(h)(e)))

    def fn(key, x, t):
        param, to_params, forward = make_st_nn(key, Net(), (d,), 3)
        return param, forward(x, t, param), jax.grad(lambda p: jnp.sum(forward(x, t, p) ** 2))(param)

    return fn, [(arr(r.normal(size=(3, d))), arr(float(r.uniform(0., 2.)))) for _ in range(B)]


def leaves(x):
    return [np.asarray(a) for a in jax.tree_util.tree_leaves(x)]


def same(a, b, rtol):
    """Equal up to rounding, leaf by leaf; not-a-numbers and infinities at the same places."""
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x.shape != y.shape:
            return False
        x, y = x.astype(np.float64), y.astype(np.float64)
        if not np.array_equal(np.isfinite(x), np.isfinite(y)):
            return False
        scale = max(1., np.max(np.abs(x[np.isfinite(x)]), initial=0.))
        if not np.allclose(x, y, rtol=rtol, atol=rtol * scale, equal_nan=True):
            return False
    return True


def compare(case, rtol):
    name = case['name']
    maker, random, discrete, compilable = REG[name]
    r = np.random.default_rng([case['seed'], len(name)])
    fn, args = maker(r)
    keys = [jax.random.PRNGKey(int(s)) for s in r.integers(0, 2 ** 31 - 1, size=B)]
    before = [[a.copy() for a in leaves(x)] for x in args]

    stacked = [jnp.stack(x) for x in zip(*args)]
    K = jnp.stack(keys)
    jfn = jax.jit(fn) if compilable else fn

    def run_eager():
        return [leaves(sut(fn, k, *a)) for k, a in zip(keys, args)]

    def run_modes():
        if not compilable:
            return {'in another order': [leaves(sut(fn, k, *a)) for k, a in zip(keys[::-1], args[::-1])][::-1]}
        modes = {'compiled': [leaves(sut(jfn, k, *a)) for k, a in zip(keys, args)]}
        for mode, f in {'batched': jax.jit(jax.vmap(fn)), 'in a scan': jax.jit(
                lambda k, *a: jax.lax.scan(lambda c, e: (c, fn(*e)), 0., (k, *a))[1])}.items():
            out = leaves(sut(f, K, *stacked))
            ensure(all(o.shape[:1] == (B,) for o in out), f'{name} {mode}: a result without the batch dimension')
            modes[mode] = [[o[i] for o in out] for i in range(B)]
        return modes

    if case['compiled_first']:  # nothing that one call leaves behind may reach another
        modes = run_modes()
        eager = run_eager()
    else:
        eager = run_eager()
        modes = run_modes()
    again = leaves(sut(fn, keys[0], *args[0]))
    ensure(len(eager[0]) == len(again) and all(np.array_equal(x, y, equal_nan=x.dtype.kind == 'f') for x, y in zip(eager[0], again)),
           f'{name}: the same key and arguments gave another result after other calls')
    ensure(all(np.array_equal(x, y) for xs, a in zip(before, args) for x, y in zip(xs, leaves(a))),
           f'{name}: a call changed its arguments')

    for mode, got in modes.items():
        bad = [i for i in range(B) if not same(eager[i], got[i], rtol)]
        # rounding may turn a single discrete choice now and then
        ensure(len(bad) < B - 1, lambda: f'{name} {mode}: another result than called on its own, for {len(bad)} of {B} keys, e.g. '
               f'{[x.ravel()[:4].tolist() for x in got[bad[0]]][:3]} instead of {[x.ravel()[:4].tolist() for x in eager[bad[0]]][:3]}')
    if random:
        n = 24 if discrete else B
        many = [jax.random.PRNGKey(int(s)) for s in np.random.default_rng(case['seed']).integers(0, 2 ** 31 - 1, size=n)]
        outs = [leaves(jfn(k, *args[0])) for k in many]
        ensure(any(not all(np.array_equal(x, y, equal_nan=x.dtype.kind == 'f') for x, y in zip(outs[0], o)) for o in outs[1:]),
               f'{name}: {n} different keys gave the same result')
    return fn, keys, args, eager


def cases(names):
    return lambda part: st.fixed_dictionaries(dict(name=st.sampled_from(part(names)), compiled_first=st.booleans(), seed=gen.seeds))


@sub(cases(sorted(REG)), quick=78, thorough=900, shards=8)
def one_result_however_called(case):
    compare(case, 2e-3)
    return dict(nontrivial=True, runs=5 * B, labels=[case['name']])


@sub(cases(sorted(set(REG) - {'network'})), quick=50, thorough=600, shards=8, x64=True)
def double_precision(case):
    fn, keys, args, eager = compare(case, 1e-8)
    for x in eager:
        for a in x:
            ensure(a.dtype.kind != 'f' or a.dtype == np.float64,
                   f'{case["name"]}: a result of type {a.dtype} for arguments in double precision')
    return dict(nontrivial=True, runs=5 * B, labels=[case['name']])

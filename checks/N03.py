"""Cases: losses (quadratic, logistic, with extra positional and keyword arguments, parameter trees), optimisers (sgd, momentum,
Nesterov, Adam, AdamW, clipping, schedules), compiled or not, histories of 1..8 steps with changing data; moving-average histories
with every start, period and decay. Oracle: for the plain optimisers a model of the whole history in numpy, for every optimiser
optax itself driven with the analytic gradient; a model of the moving average. Non-trivial: more than one step."""
import functools
import numpy as np
import jax
import jax.numpy as jnp
import optax
from hypothesis import strategies as st
from vf.core import sub, sut, ensure
from vf import gen
from fbs.nn.utils import make_optax_kernel


def loss_quad(p, A, b):
    return 0.5 * jnp.sum((A @ p - b) ** 2)


def loss_kw(p, A, b, *, c=1.):
    return jnp.sum(jnp.logaddexp(0., c * (A @ p - b)))


def loss_tree(p, A, b):
    return 0.5 * jnp.sum((A @ p['w'] + p['s'] - b) ** 2)


def np_loss_grad(kind, p, A, b, c):
    if kind == 'quad':
        e = A @ p - b
        return 0.5 * np.sum(e ** 2), A.T @ e
    if kind == 'kw':
        z = c * (A @ p - b)
        return np.sum(np.logaddexp(0., z)), c * A.T @ (1. / (1. + np.exp(-z)))
    e = A @ p['w'] + p['s'] - b
    return 0.5 * np.sum(e ** 2), dict(w=A.T @ e, s=np.sum(e))


LR = 0.07
OPTS = {'sgd': lambda: optax.sgd(LR), 'momentum': lambda: optax.sgd(LR, momentum=0.8), 'nesterov': lambda: optax.sgd(LR, momentum=0.8, nesterov=True),
        'adam': lambda: optax.adam(LR), 'adamw': lambda: optax.adamw(LR, weight_decay=0.1),
        'clip': lambda: optax.chain(optax.clip_by_global_norm(0.5), optax.sgd(LR)),
        'schedule': lambda: optax.sgd(optax.exponential_decay(LR, 2, 0.5)), 'clip_adam': lambda: optax.chain(optax.clip(0.3), optax.adam(LR))}
LOSSES = dict(quad=loss_quad, kw=loss_kw, tree=loss_tree)


@functools.lru_cache(maxsize=None)
def kernel(opt, loss, jit):
    o = OPTS[opt]()
    return o, make_optax_kernel(o, LOSSES[loss], jit=jit)[0] if jit is not None else make_optax_kernel(o, LOSSES[loss])[0]


def np_step(opt, g, s, k):
    """Update of one array by the plain optimisers, from scratch."""
    if opt == 'sgd':
        return -LR * g
    if opt in ('momentum', 'nesterov'):
        s['m'] = g + 0.8 * s.get('m', 0.)
        return -LR * (s['m'] if opt == 'momentum' else g + 0.8 * s['m'])
    if opt == 'adam':
        s['m'] = 0.1 * g + 0.9 * s.get('m', 0.)
        s['v'] = 0.001 * g ** 2 + 0.999 * s.get('v', 0.)
        return -LR * (s['m'] / (1 - 0.9 ** k)) / (np.sqrt(s['v'] / (1 - 0.999 ** k)) + 1e-8)
    return None


@sub(lambda part: st.fixed_dictionaries(dict(opt=st.sampled_from(part(sorted(OPTS))), loss=st.sampled_from(sorted(LOSSES)), jit=st.sampled_from([True, False, None]),
                                             n=st.integers(1, 8), d=st.integers(1, 3), cs=st.lists(gen.fl(0.2, 2.), min_size=8, max_size=8), seed=gen.seeds)),
     quick=120, thorough=3000, shards=8, x64=True)
def optimisation(case):
    r = np.random.default_rng(case['seed'])
    d, kind = case['d'], case['loss']
    opt, k = kernel(case['opt'], kind, case['jit'])
    p = r.normal(size=d)
    p = dict(w=p, s=np.float64(r.normal())) if kind == 'tree' else p
    J = lambda z: jax.tree_util.tree_map(jnp.asarray, z)
    N = lambda z: jax.tree_util.tree_map(lambda v: np.asarray(v, float), z)
    param, model = J(p), p
    state = opt.init(param)
    ref_state = state
    mem = {}
    hist = [(param, state)]
    near = lambda a, b: all(np.allclose(x, y, rtol=1e-7, atol=1e-9) for x, y in zip(jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b)))
    for i in range(case['n']):
        A, b = r.normal(size=(4, d)), r.normal(size=4)
        kw = dict(c=case['cs'][i]) if kind == 'kw' and i % 2 else {}
        c = kw.get('c', 1.)
        before = N(param)
        l_ex, g = np_loss_grad(kind, before, A, b, c)
        new, new_state, loss = sut(k, param, state, jnp.asarray(A), jnp.asarray(b), **kw)
        ensure(abs(float(loss) - l_ex) < 1e-8 * (1 + abs(l_ex)), f'step {i}: returned loss {float(loss)}, loss at the incoming parameters {l_ex}')
        up, ref_state = opt.update(J(g), ref_state, J(before))
        ex = N(optax.apply_updates(J(before), up))
        ensure(near(N(new), ex), lambda: f'{case["opt"]}, step {i}: parameters {N(new)}, one update of the optimiser gives {ex}')
        ensure(jax.tree_util.tree_structure(new_state) == jax.tree_util.tree_structure(ref_state) and near(N(new_state), N(ref_state)),
               f'{case["opt"]}, step {i}: state of the optimiser')
        ensure(near(N(param), before), 'the incoming parameters are changed')
        if kind != 'tree':
            u = np_step(case['opt'], np_loss_grad(kind, model, A, b, c)[1], mem, i + 1)
            if u is not None:
                model = model + u
                ensure(np.allclose(N(new), model, rtol=1e-6, atol=1e-7), lambda: f'{case["opt"]}, step {i}: parameters {N(new).tolist()}, from scratch {model.tolist()}')
        param, state = new, new_state
        hist.append((param, state))
    return dict(nontrivial=case['n'] > 1, labels=[case['opt'], kind, f'jit={case["jit"]}'], runs=case['n'])


@sub(lambda: st.fixed_dictionaries(dict(start=st.integers(0, 8), every=st.integers(1, 5), decay=st.sampled_from([0., 0.25, 0.5, 0.9, 0.99, 1.]),
                                        counts=st.one_of(st.just('consecutive'), st.lists(st.integers(0, 14), min_size=1, max_size=10)), n=st.integers(1, 16),
                                        d=st.integers(1, 3), seed=gen.seeds)),
     quick=200, thorough=8000, shards=4, x64=True)
def moving_average(case):
    r = np.random.default_rng(case['seed'])
    ema = make_optax_kernel(optax.sgd(0.1), loss_quad, jit=bool(case['seed'] % 2))[1]
    counts = list(range(case['n'])) if case['counts'] == 'consecutive' else case['counts']
    avg = r.normal(size=case['d'])
    cur = jnp.asarray(avg)
    labels = set()
    for c in counts:
        p = r.normal(size=case['d'])
        cur = sut(ema, cur, jnp.asarray(p), c, case['start'], case['every'], case['decay'])
        if c < case['start']:
            avg = p
            labels.add('copy')
        elif c % case['every'] == 0:
            avg = case['decay'] * avg + (1 - case['decay']) * p
            labels.add('update')
        else:
            labels.add('keep')
        ensure(np.allclose(np.asarray(cur), avg, rtol=1e-9, atol=1e-12), lambda: f'count {c}, start {case["start"]}, every {case["every"]}, decay {case["decay"]}: '
               f'average {np.asarray(cur).tolist()}, expected {avg.tolist()}')
    return dict(nontrivial=len(labels) > 1, labels=sorted(labels), runs=len(counts))

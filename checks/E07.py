"""Cases: the programs of experiments/ together. Experiment scripts are run in scratch directories with generated arguments (experiment id, seed, dataset, SDE,
particles, task), their result files are collected under the names the scripts chose, and the scripts that make the tables and figures are run on
exactly these files, configured to the same experiment: no file may be missing. Over the collected files: every method faced the same problem (same reported
posterior for the same id, same true images and masks for the same seed), different ids are different problems, no run replaces its own results, and two runs that differ in one
option of the experiment do not write different results under one name. The network a restoration script builds is the one the training script builds.
The launch scripts (*.sh) are run with stand-ins for python, sbatch and nvidia-smi, which record: every recorded command has to be accepted by the
program it starts, hand through what the user asked for, treat all methods alike and start every experiment once. Non-trivial: more than one run."""
import argparse
import collections
import functools
import itertools
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile
import types
import numpy as np
import jax.numpy as jnp
from hypothesis import strategies as st
from vf.core import sub, sut, ensure
from vf import env, gen, pictures, scripts
import E02
import E05
from vf.core import SUBS

SUBS.clear()

ASSUMPTIONS = ['the network is replaced by a stand-in with the interface of make_st_nn', 'small experiments: a few samples, steps and test images',
               'LaTeX text rendering is switched off, LPIPS is a stand-in', 'launch scripts: a scratch copy, stand-ins for python, sbatch and nvidia-smi']


class Box:
    """Collects results of several runs."""

    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='vfs_')
        self.runs = []
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d)

    def files(self, d=None):
        d = d or self.d
        return {os.path.relpath(os.path.join(r, f), d) for r, _, fs in os.walk(d) for f in fs}

    def run(self, script, args, put=None):
        one = tempfile.mkdtemp(dir=self.d, prefix='run_')
        r = sut(scripts.run, script, args, put, collect=one)
        what = f'{script} {" ".join(map(str, args))}'
        ensure(not r.lost, lambda: f'{what}: the run replaces results it saved before: {sorted(set(r.lost))}')
        out = {}
        for f in self.files(one):
            if f.endswith(('.npz', '.npy')):
                with open(os.path.join(one, f), 'rb') as h:
                    a = np.load(h)
                    out[f] = {k: a[k] for k in a.files} if f.endswith('.npz') else {'': a}
        self.runs.append((what, out, one))
        return out

    def table(self, script, put=None, **kw):
        """Runs a script of tabulators/ on everything collected. The files of runs are brought together as in one working directory."""
        def prepare(cwd):
            if put:
                put(cwd)
            for _, _, one in self.runs:
                shutil.copytree(one, cwd, dirs_exist_ok=True)
        with scripts.figures():
            return sut(scripts.run, script, [], prepare, **kw)

    def no_replacement(self):
        for (wa, a, _), (wb, b, _) in itertools.combinations(self.runs, 2):
            for f in set(a) & set(b):
                if '-true' in f or '-init' in f:
                    continue
                same = set(a[f]) == set(b[f]) and all(np.array_equal(a[f][k], b[f][k]) for k in a[f])
                ensure(same, lambda: f'{wb} replaces {f} of {wa}, which is another result')


# ---------------------------------------------------------------- Gaussian experiments

GAUSS = dict(filter=('toy/gp_filter.py', []), gibbs=('toy/gp_gibbs.py', ['--explicit_backward', '--nchains', 2]), twisted=('toy/gp_twisted.py', []), csgm=('toy/gp_csgm.py', []),
             **{f'pmcmc-{q}': ('toy/gp_pmcmc.py', ['--delta', q, '--nchains', 2]) for q in (0.005, 0.001, 0.01)})
FIGURES = {'table': [(m, 1) for m in ('filter', 'gibbs', 'pmcmc-0.005', 'pmcmc-0.001', 'twisted', 'csgm')],
           'autocorrelations': [('gibbs', 0), ('gibbs', 1), ('pmcmc-0.005', 1), ('pmcmc-0.005', 0), ('pmcmc-0.01', 0), ('pmcmc-0.001', 0)],
           'contours': [(m, p) for p in (0, 1) for m in ('filter', 'gibbs', 'pmcmc-0.005', 'pmcmc-0.001', 'twisted')] + [('csgm', 0)]}


def same_posterior(posts, what):
    (w0, m0, c0), *rest = posts
    s = np.sqrt(np.diag(c0).max())
    for w, m, c in rest:
        ensure(m.shape == m0.shape and np.allclose(m, m0, atol=5e-3 * max(1, s)) and np.allclose(c, c0, atol=5e-3 * max(1, s ** 2)),
               lambda: f'{what}: {w} reports another posterior than {w0}: means differ by {np.abs(m - m0).max() if m.shape == m0.shape else (m.shape, m0.shape)}')


def posterior(out, what):
    a = [v for v in out.values() if 'gp_mean' in v and 'gp_cov' in v]
    ensure(len(a) == 1 and len(out) == 1, lambda: f'{what}: saved {sorted(out)}')
    return np.asarray(a[0]['gp_mean'], float), np.asarray(a[0]['gp_cov'], float)


@sub(lambda part: st.fixed_dictionaries(dict(kind=st.sampled_from(part(list(FIGURES))), sde=st.sampled_from(['const', 'lin']), id=st.integers(0, 99))), quick=3, thorough=24, shards=3, tshards=6)
def gaussian_results(case):
    kind, sde, id_ = case['kind'], case['sde'], case['id']
    # particles and runs: small, except for names fixed in the scripts
    sizes = (10, 100)
    d, ns = (70, 5) if kind == 'contours' else (4, 12)
    with Box() as box:
        posts = []
        ids = [0] if kind != 'contours' else [id_]
        if kind == 'table':
            ids = [0, 1]
        for (m, p), i in itertools.product(FIGURES[kind], ids):
            script, extra = GAUSS[m]
            args = ['--d', d, '--nsamples', ns, '--sde', sde, '--id', i] + extra + ([] if m == 'csgm' else ['--nparticles', sizes[p]])
            posts.append((i, box.runs and box.runs[-1], *posterior(box.run(script, args), script)))
        names = [w for w, _, _ in box.runs]
        for i in ids:
            same_posterior([(n, m, c) for n, (j, _, m, c) in zip(names, posts) if j == i], f'experiment {i}')
        if len(ids) > 1:
            a, b = [[m for j, _, m, _ in posts if j == i][0] for i in ids]
            ensure(np.abs(a - b).max() > 1e-3, 'experiments 0 and 1 are the same problem')
        box.no_replacement()
        files = [set(o) for _, o, _ in box.runs]
        ensure(len(set().union(*files)) == sum(map(len, files)), 'different runs save to the same file')
        if kind == 'table':
            r = box.table('tabulators/tabulate_toy.py', constants=dict(sde=sde, max_mcs=2, nparticles=100))
        elif kind == 'autocorrelations':
            r = box.table('tabulators/plot_autocorrs_toy.py', constants=dict(sde=sde, max_mcs=1, max_lags=10))
            r = box.table('tabulators/plot_pmcmc_trace.py', constants=dict(sde=sde, nparticles=10), numbers={10000: ns}) and r
        else:
            r = box.table('tabulators/plot_toy_contours.py', constants=dict(sde=sde, mc_id=id_, ngrids=40))
        return dict(nontrivial=True, labels=[kind, sde] + ([] if r else ['configuration not found']), runs=len(box.runs))


@sub(lambda: st.fixed_dictionaries(dict(ids=st.lists(st.integers(0, 99), min_size=2, max_size=2, unique=True), n=st.lists(st.sampled_from([2, 3, 4]), min_size=2, max_size=2, unique=True))),
     quick=1, thorough=12)
def bridge_results(case):
    with Box() as box:
        posts = collections.defaultdict(list)
        runs = [(i, n) for i in (0, 1) for n in case['n']][:3]
        for i, n in runs:
            for script, extra in (('sb/filter.py', ['--x0', 'proper']), ('sb/filter.py', ['--x0', 'heuristic']), ('sb/gibbs.py', ['--explicit_backward'])):
                out = box.run(script, ['--d', 3, '--nsamples', 12, '--id', i, '--nparticles', n] + extra)
                posts[i].append((script, *posterior(out, script)))
        for i, p in posts.items():
            same_posterior(p, f'experiment {i}')
        ensure(np.abs(posts[0][0][1] - posts[1][0][1]).max() > 1e-3, 'experiments 0 and 1 are the same problem')
        box.no_replacement()
        files = [set(o) for _, o, _ in box.runs]
        ensure(len(set().union(*files)) == sum(map(len, files)), 'different runs save to the same file')
        r = box.table('tabulators/plot_sb.py', constants=dict(max_mcs=1, nparticles_used=case['n']))
        return dict(nontrivial=True, labels=[] if r else ['configuration not found'], runs=len(box.runs))


# ---------------------------------------------------------------- images

METHODS = ['filter', 'gibbs-eb-ef', 'pmcmc-0.005', 'twisted', 'csgm']


def image_inputs(shape, sde, seed, mnist):
    put, p, _, _ = E02.prepare(shape, seed, sde, 7, mnist=mnist, rows=10000 if mnist else E02.ITEMS)

    def both(cwd):
        put(cwd)
        if mnist:
            a, b = pictures.parameters(shape, seed), pictures.parameters(shape, seed + 1)
            np.savez(os.path.join(cwd, f'checkpoints/mnist_{sde}_7.npz'), param=a, ema_param=b)
    return both, pictures.Stub(functools.partial(pictures.score, sde, shape), p)


def restore(box, kind, method, dataset, size, sde, put, extra):
    tail = '' if method not in ('twisted', 'csgm') else '_' + method
    a = ['--dataset', dataset, '--rect_size' if kind == 'inpainting' else '--rate', size, '--sde', sde, '--test_epoch', 7] + extra
    a += ['--method', method] if not tail else []
    return box.run(f'imgs/{kind}{tail}.py', a, put)


@sub(lambda part: st.fixed_dictionaries(dict(task=st.sampled_from(part([('celeba-8', 'supr'), ('celeba-8', 'inpainting'), ('mnist', 'supr'), ('mnist', 'inpainting')])).map(list), rnd=st.booleans(),
                                             sde=st.sampled_from(['const', 'lin']), n=st.integers(2, 5), seed=st.integers(0, 1000), net=st.integers(0, 1000))), quick=4, thorough=32, shards=4, tshards=8)
def image_results(case):
    (dataset, kind), sde = case['task'], case['sde']
    mnist, rnd = dataset == 'mnist', case['rnd'] and case['task'][1] == 'supr'
    size = (15 if mnist else 3) if kind == 'inpainting' else (4 if mnist else 2)
    put, stub = image_inputs((28, 28, 1) if mnist else (8, 8, 3), sde, case['net'], mnist)
    k = 3
    with Box() as box, stub:
        truths = collections.defaultdict(list)
        for m in METHODS:
            out = restore(box, kind, m, dataset, size, sde, put, ['--test_nsteps', 3, '--nsamples', k, '--ny0s', k, '--test_seed', case['seed']]
                          + (['--rnd_mask'] if rnd else []) + ([] if m == 'csgm' else ['--nparticles', case['n']]))
            true = {f: a for f, a in out.items() if '-true' in f}
            ensure(len(true) == k, lambda: f'{box.runs[-1][0]}: true images saved: {sorted(true)}')
            for f, a in true.items():
                truths[int(re.findall(r'\d+', os.path.basename(f))[-1])].append((m, a))
        for i, t in truths.items():
            ensure(len(t) == len(METHODS), lambda: f'test image {i} is saved by {[m for m, _ in t]}')
            for m, a in t[1:]:
                ensure(np.array_equal(a['test_img'], t[0][1]['test_img']), lambda: f'{kind}, test image {i}: {m} restores another image than {t[0][0]}')
                ix, iy = [E02.indices_of(x, E02.holes(kind, 28 if mnist else 8, size)) for x in (a, t[0][1])]
                if ix is not None and iy is not None:
                    ensure(all(np.array_equal(np.sort(x), np.sort(y)) for x, y in zip(ix, iy)), lambda: f'{kind}, test image {i}: {m} observes other pixels than {t[0][0]}')
        imgs = [t[0][1]['test_img'] for t in truths.values()]
        ensure(any(not np.array_equal(imgs[0], x) for x in imgs[1:]), 'all test images are the same')
        box.no_replacement()
        c = dict(dataset=dataset, task=f'{kind}-{size}', rnd_mask=rnd, sde=sde, nparticles=case['n'])
        old = sys.modules.get('lpips')
        sys.modules['lpips'] = types.ModuleType('lpips')
        sys.modules['lpips'].LPIPS = E05.LPIPS
        try:
            done = [box.table('tabulators/tabulate_imgs.py', constants=dict(c, ny0s=k, nsamples=k))]
        finally:
            sys.modules.pop('lpips')
            if old is not None:
                sys.modules['lpips'] = old
        done.append(box.table('tabulators/plot_imgs.py', constants=dict(c, y0_id=1, nsamples=k, nexamples=2)))
        done.append(box.table('tabulators/plot_imgs_appendix.py', constants=dict(c, nsamples=k, nexamples=2), numbers={100: k}))
        return dict(nontrivial=True, labels=[dataset, kind] + [f'{s} configured' for s, r in zip(('table', 'figure', 'appendix'), done) if r], runs=len(box.runs))


@sub(lambda: st.fixed_dictionaries(dict(sde=st.sampled_from(['const', 'lin']), y0=st.integers(0, 9), n=st.integers(2, 5), net=st.integers(0, 1000), x0=st.sampled_from(['blank', 'random']))), quick=1, thorough=12)
def bridge_image_results(case):
    rs = np.random.default_rng(case['net'])
    data = rs.uniform(size=(10000, 784)).astype(np.float32)
    fwd, bwd = (np.array([-0.5, 0.2, 0.3]) + 0.2 * rs.normal(size=(2, 3))).astype(np.float32)
    ns = 100

    def put(cwd):
        np.savez(os.path.join(cwd, '../datasets/mnist.npz'), X_test=data, X=data[:1])
        np.savez(os.path.join(cwd, f'checkpoints/sb_mnist_{case["sde"]}_9.npz'), param_fwd=fwd, param_bwd=bwd)
    with Box() as box, pictures.Stub(E02.bridge_drift, fwd):
        truth = []
        for m in ('filter', 'gibbs'):
            out = box.run('sb_imgs/supr.py', ['--sde', case['sde'], '--sb_step', 9, '--test_nsteps', 3, '--nparticles', case['n'], '--nsamples', ns, '--y0_id', case['y0'], '--method', m], put)
            truth += [a['test_img'] for f, a in out.items() if '-true' in f]
        ensure(len(truth) == 2 and np.array_equal(*truth), 'the two methods restore different images')
        box.no_replacement()
        c = dict(sde=case['sde'], nparticles=case['n'], y0_id=case['y0'])
        r = [box.table('tabulators/plot_sb_imgs.py', put, constants=c)]
        from matplotlib import animation
        old, animation.Animation.save = animation.Animation.save, lambda self, *a, **k: None
        try:
            r.append(box.table('tabulators/plot_sb_imgs_anime.py', put, constants=dict(c, x0_type=case['x0'], max_nsamples=ns)))
        finally:
            animation.Animation.save = old
        return dict(nontrivial=True, labels=[f'{s} configured' for s, v in zip(('figure', 'animation'), r) if v], runs=2)


# ---------------------------------------------------------------- names

BASE = {'toy/gp_filter.py': dict(d=2, nsamples=2, nparticles=4, sde='const', id=3), 'toy/gp_gibbs.py': dict(d=2, nsamples=2, nparticles=4, sde='const', id=3, nchains=1),
        'toy/gp_pmcmc.py': dict(d=2, nsamples=2, nparticles=4, sde='const', id=3, delta=0.01, nchains=1), 'toy/gp_twisted.py': dict(d=2, nsamples=2, nparticles=4, sde='const', id=3),
        'toy/gp_csgm.py': dict(d=2, nsamples=2, sde='const', id=3), 'sb/filter.py': dict(d=2, nsamples=2, nparticles=4, x0='proper', id=3), 'sb/gibbs.py': dict(d=2, nsamples=2, nparticles=4, id=3)}
CHANGES = dict(nparticles=[3, 40], sde=['lin'], id=[2, 33], delta=[0.001, 0.1, 0.0101], explicit_backward=[True], explicit_final=[True], marg=[True], x0=['heuristic'])
IMAGE_CHANGES = dict(nparticles=[3, 40], sde=['const'], method=['filter', 'gibbs-eb', 'gibbs', 'pmcmc-0.005', 'pmcmc-0.05'], dataset=['celeba-6'], size=[4], rnd_mask=[True])
OPTIONS = {'toy/gp_gibbs.py': ['explicit_backward', 'explicit_final', 'marg'], 'sb/gibbs.py': ['explicit_backward']}
PAIRS = ([(s, k) for s, b in BASE.items() for k in list(b) + OPTIONS.get(s, []) if k in CHANGES]
         + [(f'imgs/{t}{s}.py', k) for t in ('inpainting', 'supr') for s in ('', '_csgm', '_twisted') for k in ('nparticles', 'sde', 'method', 'marg', 'dataset', 'size', 'rnd_mask')
            if (k != 'rnd_mask' or t == 'supr') and (k not in ('method', 'marg') or not s) and (k != 'nparticles' or s != '_csgm')])


def flags(opts):
    out = []
    for k, v in opts.items():
        out += [f'--{k}'] if v is True else [f'--{k}', v]
    return out


@sub(lambda part: st.sampled_from(part(PAIRS)).flatmap(lambda p: st.fixed_dictionaries(dict(
    pair=st.just(list(p)), value=st.sampled_from([True] if p[1] == 'marg' else CHANGES[p[1]] if p[0] in BASE else IMAGE_CHANGES[p[1]]), net=st.integers(0, 1000),
    # another option that may hide the difference
    also=st.booleans()))), quick=len(PAIRS), thorough=4 * len(PAIRS), shards=len(PAIRS), tshards=len(PAIRS))
def names_tell_runs_apart(case):
    script, option = case['pair']
    with Box() as box:
        if script in BASE:
            base = dict(BASE[script])
            if case['also'] and option != 'explicit_backward' and 'explicit_backward' in OPTIONS.get(script, []):
                base['explicit_backward'] = True
            for b in (base, dict(base, **{option: case['value']})):
                box.run(script, flags(b))
        else:
            kind, tail = re.match(r'imgs/(inpainting|supr)(_?\w*)\.py', script).groups()
            base = dict(dataset='celeba-8', size=2, sde='lin', test_epoch=7, test_nsteps=3, nsamples=2, ny0s=1)
            if not tail:
                base['method'] = 'gibbs-eb-ef' if case['also'] or option == 'method' else 'filter'
            if tail != '_csgm':
                base['nparticles'] = 4
            for b in (base, dict(base, **{option: case['value']})):
                n = int(b['dataset'].split('-')[1])
                b = {('rect_size' if kind == 'inpainting' else 'rate') if k == 'size' else k: v for k, v in b.items()}
                put, stub = image_inputs((n, n, 3), b['sde'], case['net'], False)
                if n == 6 and b.get('rate') == 4:
                    return dict(nontrivial=False)
                with stub:
                    box.run(script, flags(b), put)
        (_, a, _), (_, b, _) = box.runs
        results = [{f for f in o if '-true' not in f and '-init' not in f} for o in (a, b)]
        ensure(all(results), 'no result is saved')
        ensure(not results[0] & results[1], lambda: f'{script}: runs with another {option} ({case["value"]}) save to the same file {sorted(results[0] & results[1])}')
        return dict(nontrivial=True, labels=[option], runs=2)


# ---------------------------------------------------------------- networks

USERS = [('imgs/train.py', f'imgs/{s}.py') for s in E02.SCRIPTS] + [('imgs/train.py', 'tabulators/plot_img_coalescence.py'), ('sb_imgs/train.py', 'sb_imgs/supr.py')]


class Built(BaseException):
    pass


class Recorder(pictures.Stub):
    """Ends the script where it builds its network."""

    def __init__(self):
        pass

    def __call__(self, key, *args, **kwargs):
        raise Built(args, kwargs)


def network(script, args, put):
    with Recorder(), scripts.figures():
        try:
            scripts.run(script, args, put)
        except Built as e:
            a, k = e.args
            import inspect
            from fbs.nn import base
            names = list(inspect.signature(base.make_st_nn.__wrapped__ if hasattr(base.make_st_nn, '__wrapped__') else base.make_st_nn).parameters)[1:]
            return {**dict(zip(names, a)), **k}
    return None


@sub(lambda part: st.fixed_dictionaries(dict(pair=st.sampled_from(part([(p, d) for p in USERS for d in ('mnist', 'celeba-8') if 'sb' not in p[0] or d == 'mnist'])).map(lambda v: [list(v[0]), v[1]]),
                                             sde=st.sampled_from(['const', 'lin']), batch=st.integers(2, 9), seed=gen.seeds)), quick=15, thorough=45, shards=15, tshards=15)
def network_is_the_trained_one(case):
    (train, use), dataset = case['pair']
    mnist = dataset == 'mnist'

    def put(cwd):
        # the images play no role
        if mnist:
            np.savez_compressed(os.path.join(cwd, '../datasets/mnist.npz'), X_test=np.zeros((10000, 784), np.float32), X=np.zeros((60000, 784), np.float32))
        else:
            np.save(os.path.join(cwd, 'datasets/celeba_hq8.npy'), np.zeros((E02.ITEMS, 8, 8, 3), np.float32))
    a = network(train, ['--dataset', dataset, '--sde', case['sde'], '--batch_size', case['batch']], put)
    b = network(use, ['--sde', case['sde']] + ([] if 'sb' in use else ['--dataset', dataset]), put)
    if a is None or b is None or any('nn' not in v or 'dim_in' not in v for v in (a, b)):
        return dict(nontrivial=False, labels=['network not visible'])
    what = f'{use}, {dataset}: '
    ensure(tuple(a['dim_in']) == tuple(b['dim_in']), lambda: what + f'images of shape {b["dim_in"]}, trained with {a["dim_in"]}')
    if a['nn'] != b['nn']:
        # the same network, written in another way?
        import jax
        dim = tuple(a['dim_in'])
        x = jax.random.normal(jax.random.PRNGKey(1), (1,) + dim)
        pa, pb = [v['nn'].init(jax.random.PRNGKey(0), x, jnp.array(0.37)) for v in (a, b)]
        sa, sb = [jax.tree_util.tree_map(lambda q: q.shape, p) for p in (pa, pb)]
        ensure(sa == sb, what + f'the network has not the parameters of the trained one: {b["nn"]!r:.200} instead of {a["nn"]!r:.200}')
        p = jax.tree_util.tree_map(lambda q: q + 0.02 * jax.random.normal(jax.random.PRNGKey(2), q.shape), pa)
        ya, yb = [np.asarray(v['nn'].apply(p, x, jnp.array(0.37))) for v in (a, b)]
        ensure(np.allclose(ya, yb, atol=1e-3 * np.abs(ya).max()), what + f'the network is not the trained one: with the same parameters the outputs differ by {np.abs(ya - yb).max():.3g}')
    return dict(nontrivial=True, labels=[use, dataset])


# ---------------------------------------------------------------- launch scripts

STAND_IN = r'''#!/bin/bash
case "$(basename "$0")" in
  python|python3|sbatch) ;;
  *) exit 0 ;;
esac
if [ "$(basename "$0")" = sbatch ]; then
  exec VF_PYTHON -I "VF_DIR/submit.py" "$@"
fi
{ flock 9; printf '%s\0' "$PWD" "$@" >&9; printf '\0\n' >&9; } 9>>"VF_DIR/log"
'''
SUBMIT = r'''
import os, re, subprocess, sys
a = sys.argv[1:]
while a and a[0].startswith('-'):
    a = a[1:]
text = open(a[0]).read()
m = re.search(r'^#SBATCH\s+(?:-a|--array)[ =]([\d,:%-]+)', text, re.M)
ids = [None]
if m:
    ids = []
    for q in m.group(1).split('%')[0].split(','):
        r = re.fullmatch(r'(\d+)(?:-(\d+))?(?::(\d+))?', q)
        ids += list(range(int(r[1]), int(r[2] or r[1]) + 1, int(r[3] or 1)))
for i in ids:
    env = dict(os.environ)
    if i is not None:
        env['SLURM_ARRAY_TASK_ID'] = str(i)
    subprocess.run(['/bin/bash', a[0]] + a[1:], env=env)
'''


def launched(script, args, timeout=300):
    """The commands a launch script starts: [(program, arguments)]."""
    d = tempfile.mkdtemp(prefix='vfs_')
    try:
        work = os.path.join(d, 'w', 'fbs', 'experiments')
        src = os.path.join(env.REPO, 'experiments')
        os.makedirs(os.path.join(work, 'logs'))
        for f in ['bashes/' + g for g in sorted(os.listdir(os.path.join(src, 'bashes')))] + [g for g in os.listdir(src) if g.endswith('.sh')]:
            os.makedirs(os.path.dirname(os.path.join(work, f)), exist_ok=True)
            shutil.copyfile(os.path.join(src, f), os.path.join(work, f))
        os.makedirs(os.path.join(d, 'w/fbs/venv/bin'))
        os.makedirs(os.path.join(d, 'home'))
        os.makedirs(os.path.join(d, 'bin'))
        open(os.path.join(d, 'w/fbs/venv/bin/activate'), 'w').close()
        open(os.path.join(d, 'home/.bashrc'), 'w').close()
        for f in ('python', 'python3', 'sbatch', 'nvidia-smi', 'module', 'ml'):
            p = os.path.join(d, 'bin', f)
            with open(p, 'w') as h:
                h.write(STAND_IN.replace('VF_DIR', d).replace('VF_PYTHON', '/usr/bin/python3' if os.path.exists('/usr/bin/python3') else sys.executable))
            os.chmod(p, 0o755)
        with open(os.path.join(d, 'submit.py'), 'w') as h:
            h.write(SUBMIT)
        kw = {}
        if os.geteuid() == 0:
            for r, ds, fs in os.walk(d):
                for f in [r] + [os.path.join(r, g) for g in fs]:
                    os.chown(f, 65534, 65534)
            kw = dict(user=65534, group=65534, extra_groups=[])
        p = subprocess.run(['/bin/bash', script] + [str(a) for a in args], cwd=work, env=dict(PATH=os.path.join(d, 'bin') + ':/usr/bin:/bin', HOME=os.path.join(d, 'home'), WRKDIR=os.path.join(d, 'w')),
                           capture_output=True, text=True, timeout=timeout, **kw)
        log = os.path.join(d, 'log')
        text = open(log).read() if os.path.exists(log) else ''
        out = []
        for line in text.split('\0\0\n')[:-1]:
            cwd, *a = line.split('\0')
            while a and a[0].startswith('-'):
                a = a[1:]
            ensure(os.path.realpath(cwd) == os.path.realpath(work), lambda: f'{script}: started in {os.path.relpath(cwd, d)}')
            out.append((a[0], a[1:]))
        return out, p
    finally:
        shutil.rmtree(d)


class Seen(BaseException):
    pass


@functools.lru_cache(maxsize=None)
def parser_of(program):
    path = os.path.join(env.REPO, 'experiments', program)
    ensure(os.path.isfile(path), f'{program} is started, but does not exist')
    old, argv, sp = argparse.ArgumentParser.parse_args, sys.argv, list(sys.path)

    def stop(self, *a, **k):
        raise Seen(self)
    argparse.ArgumentParser.parse_args = argparse.ArgumentParser.parse_known_args = stop
    try:
        sys.argv = [path]
        runpy.run_path(path, run_name='__main__')
    except Seen as e:
        e.args[0].allow_abbrev = False
        return e.args[0]
    finally:
        argparse.ArgumentParser.parse_args, sys.argv, sys.path[:] = old, argv, sp
        argparse.ArgumentParser.parse_known_args = KNOWN


KNOWN = argparse.ArgumentParser.parse_known_args


def parsed(program, args):
    p = parser_of(program)
    ensure(p is not None, f'{program} reads no arguments')

    def error(message):
        raise SystemExit(message)
    p.error = error
    try:
        return vars(p.parse_args(args))
    except SystemExit as e:
        ensure(False, f'{program} does not accept {" ".join(args)}: {e}')


NP = st.sampled_from([2, 10, 64, 100])
DATA = {'mnist': dict(rect_size=15, rate=4, res=28), 'celeba-64': dict(rect_size=32, rate=2, res=64), 'celeba-128': dict(rect_size=64, rate=2, res=128)}
LAUNCH = (['run_toy_all.sh', 'run_toy_all.sh dardel', 'run_toy_all_local.sh', 'run_imgs_all.sh', 'run_sb_all.sh', 'run_sb_train.sh', 'run_train.sh', 'bashes/sb_imgs.sh']
          + [f'bashes/imgs_{m}{s}.sh' for m in ('filter', 'gibbs', 'pmcmc', 'twisted', 'csgm') for s in ('', '_local')])


@sub(lambda part: st.fixed_dictionaries(dict(script=st.sampled_from(part(LAUNCH)), n=NP, sde=st.sampled_from(['const', 'lin']), dataset=st.sampled_from(list(DATA)), start=st.sampled_from([None, 0, 7, 50]),
                                             delta=st.sampled_from([None, '0.001', '0.01']))), quick=2 * len(LAUNCH), thorough=12 * len(LAUNCH), shards=len(LAUNCH), tshards=len(LAUNCH))
def launch_scripts(case):
    name, *rest = case['script'].split()
    if not os.path.isfile(os.path.join(env.REPO, 'experiments', name)):
        return dict(nontrivial=False, labels=['no such script'])
    given = {}
    if 'toy' in name:
        args = [case['n'], case['sde']] + rest
        given = dict(nparticles=case['n'], sde=case['sde'])
    elif name == 'run_imgs_all.sh':
        args, given = [case['dataset'], case['n']], dict(dataset=case['dataset'], nparticles=case['n'])
    elif name == 'run_train.sh':
        args, given = [case['dataset'], case['sde']], dict(dataset=case['dataset'], sde=case['sde'])
    elif 'bashes/imgs' in name:
        args, given = [case['dataset']], dict(dataset=case['dataset'])
        if 'csgm' not in name:
            args.append(case['n'])
            given['nparticles'] = case['n']
        if case['start'] is not None:
            args.append(case['start'])
            given['start_from'] = case['start']
            if 'pmcmc' in name and case['delta']:
                args.append(case['delta'])
                given['method'] = 'pmcmc-' + case['delta']
    else:
        args = []
    what = f'{name} {" ".join(map(str, args))}: '
    cmds, p = launched(name, args)
    ensure(cmds, lambda: what + f'starts nothing, {p.stderr[-400:]}')
    runs = [(prog, parsed(prog, a)) for prog, a in cmds]
    for prog, ns in runs:
        for k, v in given.items():
            if k in ns:
                ensure(ns[k] == v, lambda: what + f'{prog} is started with {k}={ns[k]}')
    # what all methods have to share for one comparison
    for k in ('d', 'nsamples', 'sde', 'dataset', 'test_nsteps', 'test_epoch', 'test_ema', 'test_seed', 'ny0s', 'start_from', 'sb_step', 'rect_size', 'rate'):
        vals = {ns[k] for _, ns in runs if k in ns}
        ensure(len(vals) <= 1, lambda: what + f'methods are run with different {k}: {sorted(map(str, vals))}')
    for prog, ns in runs:
        if 'imgs/' in prog and 'rect_size' in ns or 'imgs/' in prog and 'rate' in ns and 'sb_imgs' not in prog:
            d = DATA[ns['dataset']]
            for k in ('rect_size', 'rate'):
                if k in ns:
                    ensure(ns[k] == d[k], lambda: what + f'{prog} on {ns["dataset"]} with {k}={ns[k]}, the tables are for {d[k]}')
    # every experiment once
    groups = collections.Counter()
    for prog, ns in runs:
        groups[prog, json.dumps({k: v for k, v in ns.items() if k not in ('id', 'y0_id')}, sort_keys=True)] += 1
    ensure(len({(prog, json.dumps(ns, sort_keys=True)) for prog, ns in runs}) == len(runs), what + 'an experiment is started twice')
    for (prog, c), k in groups.items():
        ids = sorted(ns[q] for pr, ns in runs for q in ('id', 'y0_id') if q in ns and pr == prog and json.dumps({x: v for x, v in ns.items() if x not in ('id', 'y0_id')}, sort_keys=True) == c)
        want = 10 if 'sb_imgs/supr' in prog else 100
        if ids:
            ensure(ids == list(range(want)), lambda: what + f'{prog} is started for {len(ids)} experiments, {sorted(set(range(want)) ^ set(ids))[:5]} missing or not asked for')
    progs = {prog for prog, _ in runs}
    if name.startswith('run_toy'):
        ensure(progs == {f'toy/gp_{m}.py' for m in ('filter', 'gibbs', 'pmcmc', 'twisted', 'csgm')}, lambda: what + f'starts {sorted(progs)}')
    elif 'imgs' in name and 'sb' not in name:
        m = re.split('[_.]', name)[1] if 'bashes' in name else None
        tails = [''] if m in ('filter', 'gibbs', 'pmcmc') else ['_' + m] if m else ['', '_csgm', '_twisted']
        ensure(progs == {f'imgs/{t}{q}.py' for t in ('inpainting', 'supr') for q in tails}, lambda: what + f'starts {sorted(progs)}')
        if name == 'run_imgs_all.sh':
            ms = {ns['method'] for _, ns in runs if 'method' in ns}
            ensure(ms == {'filter', 'gibbs-eb-ef', 'pmcmc-0.005'}, lambda: what + f'methods {sorted(ms)}')
    return dict(nontrivial=len(runs) > 1, labels=[name], runs=len(runs))


@sub(lambda: st.fixed_dictionaries(dict(seed=gen.seeds)), quick=2, thorough=10)
def trained_before_used(case):
    """Checkpoints asked for by the launch scripts are made by the launch scripts of the training."""
    names = ['run_train.sh', 'run_sb_train.sh', 'bashes/imgs_gibbs.sh', 'bashes/sb_imgs.sh', 'run_sb_all.sh']
    if not all(os.path.isfile(os.path.join(env.REPO, 'experiments', n)) for n in names):
        return dict(nontrivial=False, labels=['no such script'])
    rs = np.random.default_rng(case['seed'])
    dataset = str(rs.choice(list(DATA)))
    (tr, _), (sb, _) = launched('run_train.sh', [dataset, 'lin']), launched('run_sb_train.sh', [])
    (im, _), (si, _) = launched('bashes/imgs_gibbs.sh', [dataset, 10]), launched('bashes/sb_imgs.sh', [])
    t, s = parsed(*tr[0]), parsed(*sb[0])
    for c in im:
        ns = parsed(*c)
        ensure(ns['test_epoch'] < t['nepochs'] and ns['sde'] == t['sde'] and ns['dataset'] == t['dataset'], f'{c[0]} uses epoch {ns["test_epoch"]} of a training with {t["nepochs"]}')
    for c in si:
        ns = parsed(*c)
        ensure(ns['sb_step'] < s['nsbs'] and ns['sde'] == s['sde'], f'{c[0]} uses step {ns["sb_step"]} of a training with {s["nsbs"]}')
    return dict(nontrivial=True)

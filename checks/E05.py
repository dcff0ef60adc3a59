"""Cases: the scripts that make the image table and the figures from the saved results (tabulators/*), each run as a program in a scratch directory on
generated result files named as the experiments name them, as it is or with its configuration constants (dataset, task, SDE, particles, numbers of runs and samples)
set to generated values. (1) Every printed PSNR, SSIM and LPIPS average and deviation against numpy / scikit-image on the same files (LPIPS is a stand-in
that weights every pixel and channel differently); (2) the figures, intercepted when the script saves them: curves and bands against the
statistics of the files (Bures / KL means and quantiles, autocorrelations, traces), every contour line against the density it is a level line of,
every picture against the image of the method, test image and sample its title or position names. Non-trivial: the configuration was applied or the full-size script ran."""
import os
import re
import sys
import types
import numpy as np
from hypothesis import strategies as st
from vf.core import sub, sut, ensure
from vf import gen, pictures, scripts

ASSUMPTIONS = ['LaTeX text rendering is switched off (not installed)', 'LPIPS is replaced by a stand-in (its weights cannot be downloaded)',
               'printed with four decimals']
NUMBER = re.compile(r'-?\d+\.\d+(?:e-?\d+)?|nan|inf')


def root(a):
    w, v = np.linalg.eigh(a)
    return (v * np.sqrt(np.maximum(w, 0))) @ v.T


def bures(m0, c0, m1, c1):
    r = root(c0)
    return np.sum((m0 - m1) ** 2) + np.trace(c0 + c1 - 2 * root(r @ c1 @ r))


def kl(m0, c0, m1, c1):
    i = np.linalg.inv(c1)
    return 0.5 * (np.trace(i @ c0) + (m1 - m0) @ i @ (m1 - m0) - len(m0) + np.linalg.slogdet(c1)[1] - np.linalg.slogdet(c0)[1])


def autocorrelation(x):
    """Along axis 0; every lag averaged over its own number of pairs."""
    x = np.asarray(x, float)
    x = x - x.mean(0)
    n = len(x)
    c = np.stack([(x[:n - k] * x[k:]).sum(0) / (n - k) for k in range(n)])
    with np.errstate(all='ignore'):
        return c / c[0]


def close(a, b, rtol=2e-3, atol=2e-4):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True)


def legend(ax):
    return {t.get_label(): t for t in ax.get_lines()}


# ---------------------------------------------------------------- table of the images

METHODS = ['filter', 'gibbs-eb-ef', 'pmcmc-0.005', 'twisted', 'csgm']


def metric(h, w):
    r = np.random.default_rng(5)
    return 0.5 + r.random((1, 3, h, w))


class LPIPS:
    """Stand-in: not symmetric under any permutation of the axes, channels or pixels, defined for images in [-1, 1]."""

    def __init__(self, *a, **k):
        pass

    def forward(self, a, b, *args, normalize=False, **k):
        import torch
        if normalize:
            a, b = 2 * a - 1, 2 * b - 1
        wt = torch.tensor(metric(*a.shape[-2:]), dtype=a.dtype)
        return torch.sum(wt * (a ** 3 - b ** 3) ** 2, dim=(1, 2, 3), keepdim=True) / (a.shape[-1] * a.shape[-2])

    __call__ = forward

    def eval(self):
        return self

    def to(self, *a, **k):
        return self

    def cuda(self, *a, **k):
        return self


def distance(a, b):
    a, b = [np.moveaxis(2 * x - 1, -1, 0)[None] for x in (a, b)]
    return np.sum(metric(*a.shape[-2:]) * (a ** 3 - b ** 3) ** 2) / (a.shape[-1] * a.shape[-2])


@sub(lambda part: st.fixed_dictionaries(dict(static=st.sampled_from(part([('mnist', t) for t in ('supr-4', 'supr-2', 'inpainting-15')]
                                                                         + [('celeba-64', t) for t in ('supr-2', 'inpainting-32')])).map(list),
                                             rnd=st.booleans(), sde=st.sampled_from(['const', 'lin']), nparticles=st.sampled_from([2, 10, 100]), ny0s=st.integers(1, 4),
                                             nsamples=st.integers(2, 4), noise=st.sampled_from([0.05, 0.3]), seed=gen.seeds)), quick=5, thorough=80, shards=5, tshards=5)
def image_table(case):
    from skimage.metrics import structural_similarity, peak_signal_noise_ratio
    dataset, task = case['static']
    ny0s, ns = case['ny0s'], case['nsamples']
    rs = np.random.default_rng(case['seed'])
    shape = (16, 16, 1) if dataset == 'mnist' else (14, 14, 3)
    kind, level = task.split('-')
    head = f'imgs/results_{kind}/arrs/{dataset}-{level}{"-rm" if kind == "supr" and case["rnd"] else ""}-{case["sde"]}-'
    files, want = {}, {m: np.zeros((3, ny0s, ns)) for m in METHODS}
    for i in range(ny0s):
        true = rs.uniform(-0.15, 1.15, size=shape)
        files[head + f'{i}-true.npz'] = true
        a = np.clip(true, 0, 1)
        for j, m in enumerate(METHODS):
            x = true + (0.5 + 0.4 * j) * case['noise'] * rs.normal(size=(ns,) + shape)
            files[head + (f'{i}-{m}.npy' if m == 'csgm' else f'{case["nparticles"]}-{i}-{m}.npy')] = x
            for k in range(ns):
                b = np.clip(x[k], 0, 1)
                want[m][0, i, k] = peak_signal_noise_ratio(a, b, data_range=1)
                want[m][1, i, k] = structural_similarity(a[..., 0], b[..., 0], data_range=1) if dataset == 'mnist' else structural_similarity(
                    a, b, data_range=1, channel_axis=-1)
                if dataset != 'mnist':
                    want[m][2, i, k] = distance(a, b)

    def put(cwd):
        for k, v in files.items():
            if k.endswith('.npz'):
                np.savez(os.path.join(cwd, k), test_img=v)
            else:
                np.save(os.path.join(cwd, k), v)
    old = sys.modules.get('lpips')
    sys.modules['lpips'] = types.ModuleType('lpips')
    sys.modules['lpips'].LPIPS = LPIPS
    try:
        r = sut(scripts.run, 'tabulators/tabulate_imgs.py', [], put, constants=dict(
            dataset=dataset, task=task, rnd_mask=case['rnd'], sde=case['sde'], nparticles=case['nparticles'], ny0s=ny0s, nsamples=ns))
    finally:
        if old is None:
            del sys.modules['lpips']
        else:
            sys.modules['lpips'] = old
    if r is None:
        return dict(nontrivial=False, labels=['configuration not found'])
    seen = []
    for line in r.text.splitlines():
        for m in METHODS:
            if line.split(' ')[0].split('|')[0] == m or (m in line and not any(o in line for o in METHODS if o != m)):
                v = [float(q) for q in NUMBER.findall(line.split(m, 1)[1])]
                if len(v) == 6:
                    seen.append(m)
                    for got, w, what in zip(v, [f(q) for q in want[m] for f in (np.mean, np.std)],
                                            [f'{s} of the {q}' for q in ('PSNR', 'SSIM', 'LPIPS') for s in ('average', 'deviation')]):
                        if 'LPIPS' in what and dataset == 'mnist':
                            continue
                        ensure(abs(got - w) <= 2e-4 + 1e-3 * abs(w), lambda: f'table of {dataset} {task}, {m}: {what} is {got}, from the same files {w:.5f}')
    ensure(not seen or sorted(seen) == sorted(METHODS), lambda: f'rows of the table: {seen}')
    return dict(nontrivial=bool(seen), labels=[dataset, task])


# ---------------------------------------------------------------- curves

def gaussian_runs(rs, d, n, chains=0, spread=1.):
    a = rs.normal(size=(d, d))
    cov = spread * (a @ a.T + 0.3 * np.eye(d))
    mean = rs.normal(size=d)
    L = np.linalg.cholesky(cov)
    # every chain has its own place
    x = (mean + (0.3 if spread == 1. else 0.5) * (rs.normal(size=((chains,) if chains else ()) + (1, d)) @ L.T)
         + rs.choice([0.7, 1., 1.5]) * rs.normal(size=((chains,) if chains else ()) + (n, d)) @ L.T)
    return dict(samples=x, gp_mean=mean, gp_cov=cov)


def save(cwd, files):
    for k, v in files.items():
        np.savez(os.path.join(cwd, k + '.npz'), **v) if isinstance(v, dict) else np.save(os.path.join(cwd, k + '.npy'), v)


@sub(lambda part: st.fixed_dictionaries(dict(measure=st.sampled_from(part(['bures', 'kl'])), full=st.booleans(), runs=st.integers(2, 9), particles=st.lists(
    st.sampled_from([2, 3, 5, 8, 16, 40]), min_size=2, max_size=4, unique=True), d=st.integers(2, 4), seed=gen.seeds)), quick=4, thorough=40, shards=2, tshards=4)
def bridge_figure(case):
    full = case['full'] and case['measure'] == 'bures'
    runs, particles = (100, [2, 4, 8, 16, 32, 64]) if full else (case['runs'], sorted(case['particles']))
    rs = np.random.default_rng(case['seed'])
    names = {'PF (ideal)': 'filter-proper', 'PF (approximate)': 'filter-heuristic', 'Gibbs-CSMC': 'gibbs-eb'}
    fn = dict(bures=bures, kl=kl)[case['measure']]
    files, want = {}, {}
    for name in names.values():
        e = np.zeros((runs, len(particles)))
        for i in range(runs):
            for p, n in enumerate(particles):
                f = files[f'sb/results/{name}-{n}-{i}'] = gaussian_runs(rs, case['d'], 25)
                e[i, p] = fn(f['gp_mean'], f['gp_cov'], f['samples'].mean(0), np.cov(f['samples'], rowvar=False))
        want[name] = e
    with scripts.figures() as figs:
        r = sut(scripts.run, 'tabulators/plot_sb.py', [], lambda cwd: save(cwd, files), constants=None if full else dict(
            measure=case['measure'], max_mcs=runs, nparticles_used=particles))
        if r is None:
            return dict(nontrivial=False, labels=['configuration not found'])
        ensure(len(figs) == 1, lambda: f'{len(figs)} figures')
        ax = figs[0][1].axes[0]
        for k, line in legend(ax).items():
            if k not in names:
                continue
            e = want[names[k]]
            ensure(close(line.get_xdata(), particles), lambda: f'{k}: abscissae {line.get_xdata()}')
            ensure(close(line.get_ydata(), e.mean(0)), lambda: f'{k}: curve {line.get_ydata()}, the averages of the saved runs are {e.mean(0)}')
        # bands: one for every curve
        bands = [c.get_paths()[0].vertices for c in ax.collections if len(c.get_paths()) == 1]
        order = [names[k] for k in legend(ax) if k in names]
        for name in order if len(bands) == len(order) else []:
            pts = [(x, y) for q in (0.05, 0.95) for x, y in zip(particles, np.quantile(want[name], q, axis=0))]
            ensure(any(all(np.any(np.isclose(v[:, 0], x) & np.isclose(v[:, 1], y, rtol=2e-3, atol=2e-4)) for x, y in pts) for v in bands),
                   lambda: f'{name}: no band between the 0.05 and 0.95 quantiles of the saved runs {pts}')
    return dict(nontrivial=len(order) == 3, labels=[case['measure'], 'full size' if full else 'configured'])


@sub(lambda part: st.fixed_dictionaries(dict(full=st.sampled_from(part([False, True])), runs=st.integers(1, 5), lags=st.integers(5, 30), chains=st.integers(1, 3), d=st.integers(1, 3),
                                             sde=st.sampled_from(['const', 'lin']), seed=gen.seeds)), quick=4, thorough=30, shards=2, tshards=4)
def chain_autocorrelations(case):
    runs, lags = (100, 100) if case['full'] else (case['runs'], case['lags'])
    sde = 'const' if case['full'] else case['sde']
    rs = np.random.default_rng(case['seed'])
    n = lags + 40
    names = {'Gibbs-CSMC-10': f'gibbs-eb-{sde}-10', 'Gibbs-CSMC-100': f'gibbs-eb-{sde}-100', 'PMCMC-0.005-100': f'pmcmc-0.005-{sde}-100', 'PMCMC-0.005-10': f'pmcmc-0.005-{sde}-10',
             'PMCMC-0.01-10': f'pmcmc-0.01-{sde}-10', 'PMCMC-0.001-10': f'pmcmc-0.001-{sde}-10'}
    files, want = {}, {}
    for k, name in names.items():
        e = []
        for i in range(runs):
            rho = rs.uniform(0.2, 0.95, size=case['d'])
            x = np.zeros((case['chains'], n, case['d']))
            for t in range(1, n):
                x[:, t] = rho * x[:, t - 1] + rs.normal(size=x[:, t].shape)
            files[f'toy/results/{name}-{i}'] = dict(samples=x, gp_mean=np.zeros(case['d']), gp_cov=np.eye(case['d']))
            e.append(np.mean([autocorrelation(c) for c in x], 0)[:lags].max(-1))
        want[k] = np.mean(e, 0)
    with scripts.figures() as figs:
        r = sut(scripts.run, 'tabulators/plot_autocorrs_toy.py', [], lambda cwd: save(cwd, files), constants=None if case['full'] else dict(max_mcs=runs, max_lags=lags, sde=sde))
        if r is None:
            return dict(nontrivial=False, labels=['configuration not found'])
        lines = {k: v for k, v in legend(figs[0][1].axes[0]).items() if k in names}
        for k, line in lines.items():
            ensure(close(line.get_xdata(), np.arange(lags)), lambda: f'{k}: lags {line.get_xdata()}')
            ensure(close(line.get_ydata(), want[k], atol=1e-3), lambda: f'{k}: the curve differs from the autocorrelation of the saved chains by {np.max(np.abs(line.get_ydata() - want[k])):.3g}')
    return dict(nontrivial=len(lines) == 6, labels=['full size' if case['full'] else 'configured'])


@sub(lambda part: st.fixed_dictionaries(dict(rnd=st.booleans(), sde=st.sampled_from(['const', 'lin']), runs=st.integers(1, 4), ns=st.integers(25, 45), lags=st.integers(5, 20),
                                             constant=st.booleans(), seed=gen.seeds)), quick=4, thorough=40, shards=2, tshards=4)
def image_autocorrelations(case):
    runs, lags, ns = case['runs'], case['lags'], case['ns']
    rs = np.random.default_rng(case['seed'])
    cols = [('mnist', 'inpainting-15', 'MNIST inpainting'), ('mnist', 'supr-4', 'MNIST super-resolution'), ('celeba-64', 'inpainting-32', 'CelebA inpainting'),
            ('celeba-64', 'supr-2', 'CelebA super-resolution')]
    files, want = {}, {}
    for dataset, task, title in cols:
        kind, level = task.split('-')
        shape = (3, 4, 1) if dataset == 'mnist' else (3, 3, 3)
        for n in ((100, 10) if dataset == 'mnist' else (10, 2)):
            for m, label in (('gibbs-eb-ef', 'Gibbs-CSMC'), ('pmcmc-0.005', 'PMCMC-0.005')):
                e = []
                for i in range(runs):
                    rho = rs.uniform(0.6, 0.97, size=shape)
                    x = np.zeros((ns,) + shape)
                    for t in range(1, ns):
                        x[t] = rho * x[t - 1] + rs.normal(size=shape)
                    if case['constant']:
                        x[:, 0, 1] = 0.5  # an observed pixel never moves
                    files[f'imgs/results_{kind}/arrs/{dataset}-{level}{"-rm" if case["rnd"] and kind == "supr" else ""}-{case["sde"]}-{n}-{i}-{m}'] = x
                    a = autocorrelation(x.reshape(ns, -1))[:lags]
                    keep = np.ptp(x.reshape(ns, -1), axis=0) > 0
                    e.append(np.maximum(a[:, keep], 0).min(-1))
                want[title, f'{label}-{n}'] = np.mean(e, 0)
    with scripts.figures() as figs, np.errstate(all='ignore'):
        r = sut(scripts.run, 'tabulators/plot_autocorrs_imgs.py', [], lambda cwd: save(cwd, files), constants=dict(
            nsamples=ns, max_mcs=runs, max_lags=lags, rnd_mask=case['rnd'], sde=case['sde']))
        if r is None:
            return dict(nontrivial=False, labels=['configuration not found'])
        seen = 0
        for ax in figs[0][1].axes:
            for k, line in legend(ax).items():
                w = want.get((ax.get_title(), k))
                if w is not None:
                    seen += 1
                    ensure(close(line.get_ydata(), w, atol=1e-3), lambda: f'{ax.get_title()}, {k}: the curve differs from the autocorrelation of the saved images by '
                                                                          f'{np.max(np.abs(line.get_ydata() - w)):.3g}')
                    ensure(close(line.get_xdata(), np.arange(lags)), 'lags')
    return dict(nontrivial=seen == 16, labels=['constant pixels'] if case['constant'] else [])


@sub(lambda: st.fixed_dictionaries(dict(sde=st.sampled_from(['const', 'lin']), nparticles=st.sampled_from([10, 100]), mc_id=st.integers(0, 99), chain=st.integers(0, 1), dim=st.integers(0, 2),
                                every=st.integers(1, 5), seed=gen.seeds)), quick=2, thorough=20)
def chain_traces(case):
    rs = np.random.default_rng(case['seed'])
    n = 10000
    deltas = [0.01, 0.005, 0.001]
    files = {f'toy/results/pmcmc-{q}-{case["sde"]}-{case["nparticles"]}-{case["mc_id"]}': dict(samples=rs.normal(size=(2, n, 3)), gp_mean=np.zeros(3), gp_cov=np.eye(3)) for q in deltas}
    with scripts.figures() as figs:
        r = sut(scripts.run, 'tabulators/plot_pmcmc_trace.py', [], lambda cwd: save(cwd, files), constants=dict(
            sde=case['sde'], nparticles=case['nparticles'], mc_id=case['mc_id'], chain_id=case['chain'], dim_id=case['dim'], down_sampling_rate=case['every']))
        if r is None:
            return dict(nontrivial=False, labels=['configuration not found'])
        seen = 0
        for ax in figs[0][1].axes:
            for q, v in zip(deltas, files.values()):
                if ax.get_title().rstrip('$').endswith(f'={q}'):
                    line = ax.get_lines()[0]
                    seen += 1
                    ensure(close(line.get_xdata(), np.arange(n)[::case['every']]), f'delta {q}: iterations')
                    ensure(close(line.get_ydata(), v['samples'][case['chain'], ::case['every'], case['dim']]), f'delta {q}: not the trace of the saved chain')
    return dict(nontrivial=seen == 3)


@sub(lambda: st.fixed_dictionaries(dict(sde=st.sampled_from(['const', 'lin']), mc_id=st.integers(0, 99), full=st.booleans(), chains=st.integers(1, 3), seed=gen.seeds)), quick=3, thorough=24)
def density_contours(case):
    rs = np.random.default_rng(case['seed'])
    d, marg = 70, [60, 66]
    sde, mc, grid = ('const', 66, 200) if case['full'] else (case['sde'], case['mc_id'], 120)
    labels = {'CSGM': 'csgm-{s}', 'PF': 'filter-{s}-{n}', 'Gibbs-CSMC': 'gibbs-eb-{s}-{n}', 'PMCMC-0.005': 'pmcmc-0.005-{s}-{n}', 'PMCMC-0.001': 'pmcmc-0.001-{s}-{n}', 'TPF': 'twisted-{s}-{n}'}
    files, want = {}, {}
    for n in (10, 100):
        for k, name in labels.items():
            if (key := f'toy/results/{name.format(s=sde, n=n)}-{mc}') not in files:
                f = files[key] = gaussian_runs(rs, d, 120, case['chains'] if 'gibbs' in name or 'pmcmc' in name else 0, 0.003)
            f = files[key]
            x = f['samples'] if f['samples'].ndim == 3 else f['samples'][None]
            i = np.ix_(marg, marg)
            want[n, k] = [(f['gp_mean'][marg], f['gp_cov'][i]), (np.mean([c.mean(0) for c in x], 0)[marg], np.mean([np.cov(c, rowvar=False) for c in x], 0)[i])]
    with scripts.figures() as figs:
        r = sut(scripts.run, 'tabulators/plot_toy_contours.py', [], lambda cwd: save(cwd, files), constants=None if case['full'] else dict(sde=sde, mc_id=mc, ngrids=grid))
        if r is None:
            return dict(nontrivial=False, labels=['configuration not found'])
        from matplotlib.contour import ContourSet
        axes = figs[0][1].axes
        seen = 0
        titles = [a.get_title() for a in axes[:6]]
        if len(axes) != 12 or sorted(titles) != sorted(labels):
            return dict(nontrivial=False, labels=['layout'])
        for j, ax in enumerate(axes):
            key = (10 if j < 6 else 100, titles[j % 6])
            sets = [c for c in ax.get_children() if isinstance(c, ContourSet)]
            if len(sets) != 2:
                continue
            dashed = [str(np.ravel(c.get_linestyles()[0][1] is not None)[0]) for c in sets]
            sets = sets if dashed != ['True', 'False'] else sets[::-1]
            for c, (m, cov), what in zip(sets, want[key], ('reported Gaussian', 'samples')):
                inv, norm = np.linalg.inv(cov), 1 / (2 * np.pi * np.sqrt(np.linalg.det(cov)))
                for level, path in zip(c.levels, c.get_paths()):
                    v = path.vertices
                    if len(v):
                        p = norm * np.exp(-0.5 * np.einsum('ij,jk,ik->i', v - m, inv, v - m))
                        seen += 1
                        ensure(np.median(np.abs(p - level)) < 0.03 * level + 0.002 * norm, lambda: f'{key[1]} with {key[0]} particles: the level line {level:.2f} of the {what} runs through density {np.median(p):.3f}')
    return dict(nontrivial=seen >= 24, labels=['full size' if case['full'] else 'configured'])


# ---------------------------------------------------------------- pictures

def rgba(rs, h):
    x = rs.integers(0, 256, size=(h, h, 4)).astype(np.uint8)
    x[..., 3] = 255
    return x


def shown(ax):
    return np.asarray(ax.get_images()[0].get_array()) if ax.get_images() else None


def upscale(x, h):
    from PIL import Image
    return np.asarray(Image.fromarray(x).resize((h, h), resample=Image.Resampling.NEAREST))


@sub(lambda part: st.sampled_from(part(['plot_imgs', 'plot_imgs_appendix'])).flatmap(lambda s: st.fixed_dictionaries(dict(
    script=st.just(s), setting=st.sampled_from([('mnist', 'supr-4'), ('mnist', 'inpainting-15'), ('celeba-64', 'supr-2'), ('celeba-64', 'inpainting-32')]).map(list), rnd=st.booleans(),
    sde=st.sampled_from(['const', 'lin']), nparticles=st.sampled_from([2, 10, 100]), y0=st.integers(0, 99), ns=st.integers(6, 9), ne=st.integers(1, 4), seed=gen.seeds))),
     quick=6, thorough=60, shards=2, tshards=4)
def picture_grids(case):
    from PIL import Image
    dataset, task = case['setting']
    kind, level = task.split('-')
    rs = np.random.default_rng(case['seed'])
    h = 28 if dataset == 'mnist' else 64
    one = case['script'] == 'plot_imgs'
    ids = [case['y0']] if one else list(range(2))
    head = f'imgs/results_{kind}/imgs/{dataset}-{level}{"-rm" if kind == "supr" and case["rnd"] else ""}-{case["sde"]}-'
    pics, want = {}, {}
    for i in ids:
        low = rgba(rs, h // int(level) if kind == 'supr' else h)
        pics[head + f'{i}-corrupt{"-lr" if kind == "supr" else ""}.png'] = low
        true = pics[head + f'{i}-true.png'] = rgba(rs, h)
        res = {}
        for m in METHODS:
            for k in range(case['ns']):
                res[m, k] = pics[head + (f'{i}-{m}-{k}.png' if m == 'csgm' else f'{case["nparticles"]}-{i}-{m}-{k}.png')] = rgba(rs, h)
        want[i] = (upscale(low, h), true, res)

    def put(cwd):
        for k, v in pics.items():
            Image.fromarray(v).save(os.path.join(cwd, k))
    const = dict(dataset=dataset, task=task, rnd_mask=case['rnd'], sde=case['sde'], nparticles=case['nparticles'], nsamples=case['ns'], nexamples=case['ne'])
    with scripts.figures() as figs:
        r = sut(scripts.run, f'tabulators/{case["script"]}.py', [], put, constants=dict(const, y0_id=ids[0]) if one else const, numbers=None if one else {100: 2})
        if r is None:
            return dict(nontrivial=False, labels=['configuration not found'])
        ensure(len(figs) == len(ids), lambda: f'{len(figs)} figures for {len(ids)} test images')
        for i, (name, fig) in zip(ids, figs):
            low, true, res = want[i]
            axes = [a for a in fig.axes if a.get_images()]
            cols = case['ne'] + 2
            ensure(len(axes) == len(METHODS) * cols, lambda: f'{len(axes)} pictures')
            for j, a in enumerate(axes):
                row, col = divmod(j, cols)
                x = shown(a)
                if col < 2:
                    ensure(np.array_equal(x, (low, true)[col]), lambda: f'{task}: row {row} does not start with the corrupted and the true image')
                else:
                    ks = [k for k in range(case['ns']) if np.array_equal(res[METHODS[row], k], x)]
                    ensure(len(ks) == 1, lambda: f'{dataset} {task}: the picture in row {METHODS[row]}, column {col}, of test image {i} is none of its samples')
    return dict(nontrivial=True, labels=[dataset, task, case['script']])


@sub(lambda: st.fixed_dictionaries(dict(sde=st.sampled_from(['const', 'lin']), nparticles=st.sampled_from([10, 100]), y0=st.integers(0, 20), seed=gen.seeds)), quick=3, thorough=24)
def bridge_pictures(case):
    from PIL import Image
    rs = np.random.default_rng(case['seed'])
    n, h = 100, 28
    head = f'sb_imgs/results/mnist-4-{case["sde"]}-{case["nparticles"]}-{case["y0"]}'
    arr = {k: rs.uniform(-0.2, 1.2, size=(n, h, h, 1)) for k in [f'{m}-{x}' for m in ('filter', 'gibbs-eb-ef') for x in ('random', 'blank', 'interp')]}
    true, low = rs.uniform(-0.2, 1.2, size=(h, h, 1)), rgba(rs, 7)

    def put(cwd):
        p = os.path.join(cwd, head)
        for k, v in arr.items():
            np.save(p + f'-{k}.npy', v)
        np.savez(p + '-true.npz', test_img=true)
        Image.fromarray(low).save(p + '-corrupt-lr.png')
    with scripts.figures() as figs:
        r = sut(scripts.run, 'tabulators/plot_sb_imgs.py', [], put, constants=dict(sde=case['sde'], nparticles=case['nparticles'], y0_id=case['y0']))
        if r is None:
            return dict(nontrivial=False, labels=['configuration not found'])

        def of(x, names):
            x = np.asarray(x, float)
            return any(x.shape == (h, h) and np.any(np.all(np.abs(np.clip(arr[k][..., 0], 0, 1) - x) < 1e-6, axis=(1, 2))) for k in names)
        seen = 0
        for a in figs[0][1].axes:
            t, x = a.get_title(), shown(a)
            if t == 'Input':
                ensure(np.array_equal(x, upscale(low, h)), 'the picture titled Input is not the low-resolution image')
            elif t == 'Truth':
                ensure(close(x, np.clip(true[..., 0], 0, 1)), 'the picture titled Truth is not the test image')
            elif 'PF (random' in t or 'PF (interpolate' in t or t == 'Gibbs-CSMC':
                names = ['filter-random'] if 'random' in t else ['filter-interp'] if 'interp' in t else ['gibbs-eb-ef-random', 'gibbs-eb-ef-blank', 'gibbs-eb-ef-interp']
                ensure(of(x, names), lambda: f'the picture titled {t} is not one of its samples')
            else:
                continue
            seen += 1
        if len(figs) > 1:
            axes = [a for a in figs[1][1].axes if a.get_images()]
            cols = len(axes) // 4
            for j, a in enumerate(axes):
                row, col = divmod(j, cols)
                if col == 0:
                    ensure(np.array_equal(shown(a), upscale(low, h)), 'appendix: corrupted image')
                elif col == 1:
                    ensure(close(shown(a), np.clip(true[..., 0], 0, 1)), 'appendix: true image')
                else:
                    ensure(of(shown(a), [['filter-random'], ['filter-blank'], ['filter-interp'], ['gibbs-eb-ef-random', 'gibbs-eb-ef-blank', 'gibbs-eb-ef-interp']][row]),
                           lambda: f'appendix: row {row}, column {col} is not one of its samples')
                seen += 1
    return dict(nontrivial=seen >= 40)


@sub(lambda part: st.fixed_dictionaries(dict(sde=st.sampled_from(part(['const', 'lin'])), size=st.sampled_from([(4, 2), (5, 3), (6, 3)]).map(list), nsteps=st.integers(10, 25), nparticles=st.integers(2, 12),
                                             seed=st.integers(0, 10 ** 4))), quick=2, thorough=16, shards=2, tshards=2)
def coalescence_figure(case):
    """The variances shown are those of the trajectories shown, their quantile is that of all of them."""
    n, rect = case['size']
    shape, N = (n, n, 3), case['nparticles']
    p = pictures.parameters(shape, case['seed'])
    data = pictures.draw(shape, p, 1003, case['seed'] + 1)

    def put(cwd):
        np.save(os.path.join(cwd, f'datasets/celeba_hq{n}.npy'), data)
        np.savez(os.path.join(cwd, f'checkpoints/celeba-{n}_{case["sde"]}_7.npz'), param=p, ema_param=p)
    with scripts.figures() as figs, pictures.Stub(lambda x, t, q: pictures.score(case['sde'], shape, x, t, q), p):
        sut(scripts.run, 'tabulators/plot_img_coalescence.py', ['--dataset', f'celeba-{n}', '--rect_size', rect, '--sde', case['sde'], '--test_nsteps', case['nsteps'],
                                                               '--test_epoch', 7, '--nparticles', N, '--test_seed', case['seed']], put)
        ensure(len(figs) == 1 and len(figs[0][1].axes) >= 2, 'one figure with two panels')
        a, b = figs[0][1].axes[:2]
        paths = np.array([np.asarray(q.get_ydata(), float) for q in a.get_lines()])
        ensure(len(paths) == N, lambda: f'{len(paths)} trajectories of {N} particles')
        ts = np.asarray(a.get_lines()[0].get_xdata(), float)
        ensure(ts[0] == 0 and np.all(np.diff(ts) > 0) and ts[-1] <= 2 + 1e-6, 'times')
        lines = {q.get_label(): np.asarray(q.get_ydata(), float) for q in b.get_lines()}
        quant = [v for k, v in lines.items() if 'quantile' in k]
        rest = np.array([np.asarray(q.get_ydata(), float) for q in b.get_lines() if 'quantile' not in q.get_label()])
        ensure(len(rest) == rect ** 2 * 3, lambda: f'{len(rest)} variances of {rect ** 2 * 3} unobserved values')
        sig = 2 * paths.std(0)
        ensure(rest.shape[1:] == sig.shape and np.any(np.all(np.abs(rest - sig) < 1e-3 + 1e-3 * np.abs(sig), axis=1)), 'the spread of the trajectories shown is not among the curves of two standard deviations')
        if quant:
            ensure(close(quant[0], np.quantile(rest, 0.95, axis=0), atol=1e-3), 'the 0.95 quantile over all dimensions')
    return dict(nontrivial=N > 2, labels=[case['sde']])


@sub(lambda: st.fixed_dictionaries(dict(sde=st.sampled_from(['const', 'lin']), nparticles=st.sampled_from([10, 100]), y0=st.integers(0, 9), ns=st.integers(3, 8), x0=st.sampled_from(['blank', 'random']),
                                        delay=st.integers(1, 4), seed=st.integers(0, 10 ** 4))), quick=2, thorough=16)
def bridge_animation(case):
    from PIL import Image
    import matplotlib
    matplotlib.use('Agg')
    from matplotlib import animation
    rs = np.random.default_rng(case['seed'])
    h, ns = 28, case['ns']
    head = f'sb_imgs/results/mnist-4-{case["sde"]}-{case["nparticles"]}-{case["y0"]}'
    arr = {k: rs.uniform(-0.2, 1.2, size=(ns, h, h, 1)) for k in [f'{m}-{x}' for m in ('filter', 'gibbs-eb-ef') for x in ('random', 'blank', 'interp')]}
    inits = {x: rs.uniform(-0.2, 1.2, size=(h, h, 1)) for x in ('random', 'blank', 'interp')}
    init, true, low = inits[case['x0']], rs.uniform(-0.2, 1.2, size=(h, h, 1)), rgba(rs, 7)

    def put(cwd):
        p = os.path.join(cwd, head)
        for k, v in arr.items():
            np.save(p + f'-{k}.npy', v)
        for k, v in inits.items():
            np.save(p + f'-gibbs-init-{k}.npy', v)
        np.savez(p + '-true.npz', test_img=true)
        Image.fromarray(low).save(p + '-corrupt-lr.png')
        x = rs.normal(size=(10000, 28, 28)).astype(np.float32)
        np.savez(os.path.join(cwd, '../datasets/mnist.npz'), X_test=x, X=x[:0])
    frames = []

    class Recorder(animation.AbstractMovieWriter):
        def setup(self, fig, outfile, dpi=None):
            self.fig = fig

        def grab_frame(self, **k):
            frames.append([(a.get_title(), shown(a)) for a in self.fig.axes if a.get_images()])

        def finish(self):
            pass
    old = animation.Animation.save

    def save_(self, filename, *a, **k):
        return old(self, filename, writer=Recorder(fps=1))
    animation.Animation.save = save_
    try:
        with scripts.figures():
            r = sut(scripts.run, 'tabulators/plot_sb_imgs_anime.py', [], put, constants=dict(
                sde=case['sde'], nparticles=case['nparticles'], y0_id=case['y0'], max_nsamples=ns, x0_type=case['x0'], delay_frames=case['delay']))
    finally:
        animation.Animation.save = old
    if r is None:
        return dict(nontrivial=False, labels=['configuration not found'])
    ensure(len(frames) == ns + case['delay'], lambda: f'{len(frames)} frames of {ns} samples after {case["delay"]} frames')
    chain = np.clip(np.concatenate([init[None], arr[f'gibbs-eb-ef-{case["x0"]}']])[..., 0], 0, 1)
    filt = np.clip(arr[f'filter-{case["x0"]}'][..., 0], 0, 1)
    seen = 0
    for i, f in enumerate(frames[case['delay']:]):
        for t, x in f:
            m = re.match(r'(PF|Gibbs).*sample (\d+)', t)
            if m:
                seen += 1
                want = (filt if m[1] == 'PF' else chain)[int(m[2])]
                ensure(int(m[2]) == i and close(x, want, atol=1e-6), lambda: f'frame {i}: the picture titled {t} is not this sample')
            elif t == 'Truth':
                ensure(close(x, np.clip(true[..., 0], 0, 1)), 'the picture titled Truth is not the test image')
    return dict(nontrivial=seen == 2 * ns, labels=[case['x0']])

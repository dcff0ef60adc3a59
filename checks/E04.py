"""Cases: the table of the toy experiment (tabulators/tabulate_toy.py), run as a program in a scratch directory on generated result files (dimension,
number of samples and chains, means and covariances of the reported Gaussian and of the samples), against the error statistics computed in float64 with
numpy from the same files: mean and standard deviation over the runs of the Kullback-Leibler divergence and the Bures-Wasserstein
distance from the reported Gaussian to the Gaussian fitted to the samples, and of the mean absolute errors of means and variances (averaged over chains for the
samplers with several chains). Non-trivial: dimension above one."""
import os
import re
import numpy as np
from hypothesis import strategies as st
from vf.core import sub, sut, ensure
from vf import gen, scripts

ASSUMPTIONS = ['printed with four decimals']
NUMBER = re.compile(r'-?\d+\.\d+(?:e-?\d+)?|nan|inf')


def root(a):
    w, v = np.linalg.eigh(a)
    return (v * np.sqrt(np.maximum(w, 0))) @ v.T


def kl(m0, c0, m1, c1):
    i = np.linalg.inv(c1)
    return 0.5 * (np.trace(i @ c0) + (m1 - m0) @ i @ (m1 - m0) - len(m0) + np.linalg.slogdet(c1)[1] - np.linalg.slogdet(c0)[1])


def bures(m0, c0, m1, c1):
    r = root(c0)
    return np.sum((m0 - m1) ** 2) + np.trace(c0 + c1 - 2 * root(r @ c1 @ r))


@sub(lambda part: st.fixed_dictionaries(dict(d=st.integers(1, 6), n=st.integers(20, 60), chains=st.integers(1, 4), shift=st.sampled_from([0., 0.3, 2.]),
                                             scale=st.sampled_from([0.5, 1., 2.]), seed=gen.seeds)), quick=6, thorough=64, shards=6, tshards=8)
def table(case):
    d, n, chains = max(case['d'], 2), case['n'] + 10, case['chains']
    rs = np.random.default_rng(case['seed'])
    runs = 100
    files, want = {}, {}
    names = ['filter-const-100', 'gibbs-eb-const-100', 'pmcmc-0.005-const-100', 'pmcmc-0.001-const-100', 'twisted-const-100', 'csgm-const']
    for name in names:
        e = np.zeros((runs, 4))
        multi = 'gibbs' in name or 'pmcmc' in name
        for i in range(runs):
            a = rs.normal(size=(d, d))
            cov = a @ a.T + 0.3 * np.eye(d)
            mean = rs.normal(size=d)
            k = (chains,) if multi else ()
            x = mean + case['shift'] * rs.normal(size=d) + case['scale'] * rs.normal(size=k + (n, d)) @ np.linalg.cholesky(cov).T
            # double precision: eigh of single-precision matrices is not reliable here in a process that also works in double precision
            files[f'{name}-{i}'] = dict(samples=x, gp_mean=mean, gp_cov=cov)
            for c in (x if multi else x[None]):
                m, s = c.mean(0), np.cov(c, rowvar=False)
                e[i] += np.array([kl(mean, cov, m, s), bures(mean, cov, m, s), np.abs(m - mean).mean(), np.abs(np.diag(s - cov)).mean()]) / (chains if multi else 1)
        want[name] = np.stack([e.mean(0), e.std(0)], 1).ravel()

    def put(cwd):
        for k, v in files.items():
            np.savez(os.path.join(cwd, f'toy/results/{k}.npz'), **v)
    r = sut(scripts.run, 'tabulators/tabulate_toy.py', [], put)
    seen = []
    for line in r.text.splitlines():
        for name in names:
            if name in line:
                v = [float(q) for q in NUMBER.findall(line.split(name, 1)[1])]
                if len(v) == 8:
                    seen.append(name)
                    for got, w, what in zip(v, want[name], [f'{s} of the {q}' for q in ('KL divergence', 'Bures distance', 'mean', 'variances') for s in ('average', 'deviation')]):
                        ensure(abs(got - w) <= 2e-4 + 2e-3 * abs(w), lambda: f'table, {name}: {what} {got}, from the same files {w:.5f}')
    return dict(nontrivial=d > 1 and bool(seen), labels=seen)

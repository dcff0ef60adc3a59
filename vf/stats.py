"""Two-stage statistical comparisons. A comparison only fails if a first sample is very unlikely (level THR1) under the
exact law AND an independent, larger second sample is extremely unlikely (THR2): false alarms have probability
below THR1 * THR2 per comparison."""
import numpy as np
from scipy.stats import binom, chi2, norm
from vf.core import fail, ensure

THR1, THR2 = 1e-4, 1e-9


def pval_counts(counts, probs, eps=5e-6):
    """P-value of the counts under the law `probs`, up to an absolute rounding error eps per cell: exact binomial tails
    of every cell (Bonferroni) combined with a chi-square on the big cells."""
    counts = np.asarray(counts, float).ravel()
    probs = np.asarray(probs, float).ravel()
    n = counts.sum()
    hi = binom.sf(counts - 1, n, np.minimum(probs + eps, 1.))
    lo = binom.cdf(counts, n, np.maximum(probs - eps, 0.))
    p1 = min(1., 2 * len(probs) * min(hi.min(), lo.min()))
    big = n * probs >= 200
    p2 = 1.
    o, e = counts[big], n * probs[big]
    ro, re = counts[~big].sum(), n * probs[~big].sum()
    if re >= 200:
        o, e = np.append(o, ro), np.append(e, re)
    if len(o) >= 2:
        # sum of squares over kept cells; the dropped rest makes this conservative with len(o) degrees of freedom
        stat = np.sum((np.abs(o - e) - np.minimum(n * eps, np.abs(o - e))) ** 2 / e)
        p2 = chi2.sf(stat, len(o))
    return min(1., 2 * min(p1, p2))


def assert_law(run, probs, n, what, eps=5e-6, factor=4):
    """run(stage, n) -> counts over the cells of `probs`."""
    probs = np.asarray(probs, float)
    assert abs(probs.sum() - 1) < 1e-6, f'harness: law does not sum to one {probs.sum()}'
    c = np.asarray(run(0, n))
    p = pval_counts(c, probs, eps)
    if p < THR1:
        c = np.asarray(run(1, n * factor))
        p = pval_counts(c, probs, eps)
        if p < THR2:
            m = c.sum()
            i = int(np.argmax(np.abs(c.ravel() - m * probs.ravel()) / np.sqrt(m * (probs.ravel() + 1e-9))))
            fail(f'{what}: law differs, p-value {p:.1e} over {int(m)} draws; e.g. cell {np.unravel_index(i, probs.shape)} '
                 f'observed {c.ravel()[i] / m:.6f} expected {probs.ravel()[i]:.6f}')
    return p


def zscores(x, mu, tol=0.):
    """|mean - mu| beyond tol in standard errors, per column of x (n, ...)."""
    x = np.asarray(x, float)
    n = x.shape[0]
    m = x.mean(0)
    se = x.std(0, ddof=1) / np.sqrt(n)
    d = np.maximum(np.abs(m - mu) - tol, 0.)
    return d / np.maximum(se, 1e-300), m


def assert_mean(run, mu, n, what, tol=0., factor=4, z1=4.5, z2=6.5):
    """run(stage, n) -> samples (n, ...); their expectation is mu up to a numerical tolerance tol."""
    x = run(0, n)
    ensure(np.all(np.isfinite(x)), lambda: f'{what}: not finite')
    z, m = zscores(x, mu, tol)
    if np.max(z) > z1:
        z, m = zscores(run(1, n * factor), mu, tol)
        if np.max(z) > z2:
            i = np.unravel_index(int(np.argmax(z)), np.shape(z))
            fail(f'{what}: mean {np.asarray(m)[i]:.6g} differs from {np.broadcast_to(mu, np.shape(m))[i]:.6g} '
                 f'by {z[i]:.1f} standard errors (index {i})')
    return float(np.max(z))


def bincount_rows(rows, base):
    """Counts over base**K cells for integer rows (n, K)."""
    rows = np.asarray(rows)
    code = np.zeros(rows.shape[0], dtype=np.int64)
    for j in range(rows.shape[1]):
        code = code * base + rows[:, j]
    return np.bincount(code, minlength=base ** rows.shape[1])


def gauss_moments_test(run, mean, cov, n, what, tol=1e-5, factor=4):
    """Mean and covariance (all entries) of samples (n, d) against an exact Gaussian law, plus normality of a random
    projection via the fourth moment. Uses whitened-free z-scores with exact Gaussian standard errors."""
    mean, cov = np.asarray(mean, float), np.asarray(cov, float)

    def stat(x):
        x = np.asarray(x, float)
        m = x.shape[0]
        sd = np.sqrt(np.diag(cov))
        d0 = np.maximum(np.abs(x.mean(0) - mean) - tol * (1 + np.abs(mean)), 0)
        z_mean = d0 / np.maximum(sd / np.sqrt(m), 1e-12)
        xc = x - mean
        c = xc.T @ xc / m
        se = np.sqrt((cov ** 2 + np.outer(sd ** 2, sd ** 2)) / m)
        dc = np.maximum(np.abs(c - cov) - tol * (1e-2 + np.outer(sd, sd)), 0)
        z_cov = dc / np.maximum(se, 1e-12)
        return z_mean, z_cov, c

    x = run(0, n)
    ensure(np.all(np.isfinite(x)), lambda: f'{what}: not finite')
    zm, zc, _ = stat(x)
    if max(zm.max(), zc.max()) > 5.:
        x = run(1, n * factor)
        zm, zc, c = stat(x)
        if max(zm.max(), zc.max()) > 7.:
            if zm.max() >= zc.max():
                i = int(np.argmax(zm))
                fail(f'{what}: mean[{i}] = {np.mean(x, 0)[i]:.6g}, exact {mean[i]:.6g} ({zm.max():.1f} standard errors)')
            i, j = np.unravel_index(int(np.argmax(zc)), zc.shape)
            fail(f'{what}: cov[{i},{j}] = {c[i, j]:.6g}, exact {cov[i, j]:.6g} ({zc.max():.1f} standard errors)')


def normality_test(run, mean, cov, n, what, factor=4):
    """Kolmogorov-Smirnov test of the whitened samples (n, d); degenerate directions are dropped."""
    from scipy.stats import kstest
    w, U = np.linalg.eigh(np.asarray(cov, float))
    keep = w > 1e-6 * max(w.max(), 1e-12)

    def p(stage, m):
        x = np.asarray(run(stage, m), float) - mean
        z = (x @ U[:, keep]) / np.sqrt(w[keep])
        return min(1., z.shape[1] * min(kstest(z[:, j], 'norm').pvalue for j in range(z.shape[1])))

    if keep.any() and p(0, n) < 1e-5:
        q = p(1, n * factor)
        if q < 1e-10:
            fail(f'{what}: not Gaussian (Kolmogorov-Smirnov p-value {q:.1e})')

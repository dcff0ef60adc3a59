"""Shared Hypothesis strategies."""
import numpy as np
from hypothesis import strategies as st

seeds = st.integers(0, 2 ** 31 - 1)


def weight_lists(min_n=1, max_n=12, sizes=None):
    """Normalised weight vectors as lists of non-negative numbers (normalised by `norm_w`): uniform, sparse, dominated
    by one, geometric, arbitrary."""
    def build(n):
        small = st.lists(st.integers(0, 6), min_size=n, max_size=n)
        real = st.lists(st.floats(0., 1., width=32), min_size=n, max_size=n)
        logs = st.lists(st.floats(-12., 0.), min_size=n, max_size=n).map(lambda ls: [10. ** v for v in ls])
        uni = st.just([1] * n)
        dom = st.integers(0, n - 1).flatmap(lambda i: st.sampled_from([1e-3, 1e-6, 0.]).map(
            lambda e: [1. if j == i else e for j in range(n)]))
        return st.one_of(small, real, logs, uni, dom)
    return (st.sampled_from(sizes) if sizes else st.integers(min_n, max_n)).flatmap(build).map(lambda w: w if sum(w) > 1e-9 else [1] * len(w))


def fixed_weights(n):
    return weight_lists(n, n)


def norm_w(w):
    import numpy as np
    w = np.asarray(w, np.float64)
    w = w / w.sum()
    # weights far below float resolution are the same as zero for the callers
    w[w < 1e-30] = 0.
    return w / w.sum()


def fl(a, b):
    """Floats in [a, b] rounded to a few digits (readable minimal cases)."""
    return st.floats(a, b, allow_nan=False).map(lambda x: float(f'{x:.4g}')).filter(lambda x: a <= x <= b)


def logfl(a, b):
    import math
    return st.floats(math.log(a), math.log(b)).map(lambda x: float(f'{min(max(math.exp(x), a), b):.4g}')).map(
        lambda x: min(max(x, a), b))


def grids(min_n=2, max_n=7, t0=0., span=(0.2, 3.)):
    """Irregular increasing time grids starting at t0, as lists."""
    def build(args):
        incs, total = args
        s = sum(incs)
        out, c = [t0], 0.
        for v in incs:
            c += v
            out.append(float(f'{t0 + total * c / s:.6g}'))
        return out
    return st.tuples(st.lists(st.integers(1, 9), min_size=min_n - 1, max_size=max_n - 1), fl(*span)).map(build)


def regroup(log, n, shape):
    """Recorded evaluations f(states, time) of a batch of n items along a path, in whichever pieces the code under test asked for
    them (per time, per item, all at once): list of (time, states (n, ...)) by increasing time, or None if they do not make
    up one batch per time."""
    by = {}
    for x, t in log:
        x, t = np.asarray(x), np.ravel(t)
        if x.shape == tuple(shape):
            x = x[None]
        if x.shape[1:] != tuple(shape) or len(t) not in (1, len(x)):
            return None
        if len(set(t.tolist())) == 1:
            by.setdefault(float(t[0]), []).append(x)
        else:
            for xi, ti in zip(x, t):
                by.setdefault(float(ti), []).append(xi[None])
    out = []
    for t in sorted(by):
        b = by[t]
        whole = [a for a in b if len(a) == n]
        if n > 1 and len(whole) > 1:  # evaluated again at the same arguments
            if not all(np.array_equal(a, whole[0]) for a in whole):
                return None
            b = whole[:1]
        try:
            a = np.concatenate(b)
        except ValueError:
            return None
        if len(a) != n:
            if len(a) % n == 0 and all(np.array_equal(a[:n], a[i:i + n]) for i in range(0, len(a), n)):
                a = a[:n]
            else:
                return None
        out.append((t, a))
    return out

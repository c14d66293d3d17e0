"""Workload generators: time series datasets, label layouts, parameters."""
import numpy as np

FAMILIES = ['normal', 'walk', 'ties', 'ints', 'unique', 'const', 'spikes', 'offset', 'tiny', 'huge',
            'sine', 'step', 'negint', 'mixed']


def series(rng, n, family):
    """One channel of n timestamps."""
    if family == 'mixed':
        family = FAMILIES[int(rng.integers(0, len(FAMILIES) - 1))]
    if family == 'normal':
        return rng.normal(size=n)
    if family == 'walk':
        return np.cumsum(rng.normal(size=n))
    if family == 'ties':
        return rng.integers(0, 3, size=n).astype(float)
    if family == 'ints':
        return rng.integers(-20, 21, size=n).astype(float)
    if family == 'unique':
        return rng.permutation(n * 3)[:n].astype(float) + 1
    if family == 'const':
        return np.full(n, float(rng.integers(-2, 3)))
    if family == 'spikes':
        x = np.zeros(n)
        k = max(1, n // 6)
        x[rng.integers(0, n, size=k)] = rng.integers(-9, 10, size=k)
        return x
    if family == 'offset':
        return 1000.0 + rng.normal(size=n)
    if family == 'tiny':
        return 1e-6 * rng.normal(size=n)
    if family == 'huge':
        return 1e7 * rng.normal(size=n)
    if family == 'sine':
        return np.sin(np.arange(n) * float(rng.uniform(0.1, 1.5)) + float(rng.uniform(0, 6)))
    if family == 'step':
        x = np.zeros(n)
        x[n // 2:] = 5.0
        return x + rng.integers(0, 2)
    if family == 'negint':
        return -rng.integers(1, 50, size=n).astype(float)
    raise ValueError(family)


def exact(family):
    """Sums of absolute differences of such data are exact in double precision."""
    return family in ('ties', 'ints', 'unique', 'const', 'spikes', 'step', 'negint')


def labels(rng, n, layout=None, max_classes=5):
    """Integer class labels; layouts include singleton and single classes."""
    layout = layout or str(rng.choice(['balanced', 'random', 'singletons', 'one', 'skew', 'odd']))
    if layout == 'one' or n == 1:
        return np.full(n, int(rng.integers(0, 3)))
    k = int(rng.integers(2, max_classes + 1))
    k = min(k, n)
    if str(rng.choice(['plain'] * 6 + ['wide'])) == 'wide':     # labels that agree modulo narrow integers, or are huge
        step = [256, 65536, 2 ** 32, -(2 ** 40), 1000003][int(rng.integers(0, 5))]
        v = np.arange(k, dtype=np.int64) * step + int(rng.integers(-3, 4))
        return rng.permutation(v[np.arange(n) % k] if rng.random() < 0.5 else v[rng.integers(0, k, size=n)])
    if layout == 'balanced':
        y = np.arange(n) % k
    elif layout == 'random':
        y = rng.integers(0, k, size=n)
    elif layout == 'singletons':
        y = np.concatenate([np.arange(k), np.full(n - k, 0)])[:n]
    elif layout == 'skew':
        y = np.where(rng.random(n) < 0.8, 0, rng.integers(0, k, size=n))
    else:   # labels that are not 0..k-1
        y = rng.choice(np.array([3, 7, -1, 10, 42][:k]), size=n)
    return rng.permutation(np.asarray(y, dtype=np.int64))


def lengths_vl(rng, n, lo, hi):
    m = str(rng.choice(['uniform', 'two', 'one_long', 'one_short']))
    if m == 'uniform':
        L = rng.integers(lo, hi + 1, size=n)
    elif m == 'two':
        L = rng.choice([lo, hi], size=n)
    elif m == 'one_long':
        L = np.full(n, lo)
        L[int(rng.integers(0, n))] = hi
    else:
        L = np.full(n, hi)
        L[int(rng.integers(0, n))] = lo
    return [int(v) for v in L]


def dataset(rng, kind, n, n_ft, n_ts, family, hi=None):
    """kind: u | m (equal length, 3D array), uv | mv (list of 2D arrays)."""
    if kind in ('u', 'uv'):
        n_ft = 1
    if kind in ('u', 'm'):
        X = np.empty((n, n_ft, n_ts))
        for i in range(n):
            for j in range(n_ft):
                X[i, j] = series(rng, n_ts, family)
        return X
    Ls = lengths_vl(rng, n, n_ts, hi or int(n_ts * 1.7) + 1)
    return [np.stack([series(rng, L, family) for _ in range(n_ft)]) for L in Ls]


def true_lengths(X):
    return [x.shape[-1] for x in X]


def copy_data(X):
    return X.copy() if isinstance(X, np.ndarray) and X.dtype != object else [np.array(x) for x in X]


KINDS = ['u', 'm', 'uv', 'mv']
TYPE = {'u': 'univariate', 'm': 'multivariate', 'uv': 'univariate_variable', 'mv': 'multivariate_variable'}


def shape(rng, kind, big=False):
    """n samples, channels, timestamps: biased to boundaries."""
    n = int(rng.choice([1, 2, 3, 4, 5, 6, 8, 12]))
    ft = 1 if kind in ('u', 'uv') else int(rng.choice([2, 2, 3, 4, 6]))
    t = int(rng.choice([4, 5, 6, 7, 8, 10, 12, 15, 16, 20, 24, 31, 40, 60]))
    if big:
        t = int(rng.choice([60, 90, 128, 200, 300]))
    return n, ft, t


def rdst_params(rng, n_ts, n_ft, kind, n_shp=None):
    """Random admissible parameters of the transformer for shortest length n_ts."""
    p = dict(
        n_shapelets=int(n_shp if n_shp else rng.choice([1, 2, 5, 10, 20, 40])),
        alpha=float(rng.choice([0.0, 0.1, 0.3, 0.5, 0.75, 0.9, 1.0])),
        phase_invariance=bool(rng.integers(0, 2)),
        proba_norm=float(rng.choice([0.0, 0.5, 0.8, 1.0])),
        prime_dilations=bool(rng.random() < 0.3),
        percentiles=[[5, 10], [0, 0], [100, 100], [50, 50], [0, 100], [20, 80], [2.5, 40.0]][int(rng.integers(0, 7))],
        random_state=int(rng.integers(0, 2 ** 31 - 1)),
    )
    m = str(rng.choice(['one', 'many', 'long', 'rel', 'bounds', 'short']))
    if m == 'one':
        p['shapelet_lengths'] = [int(rng.integers(2, max(3, min(n_ts, 12) + 1)))]
    elif m == 'many':
        k = int(rng.integers(2, 5))
        p['shapelet_lengths'] = [int(v) for v in rng.integers(2, max(3, min(n_ts, 14) + 1), size=k)]
    elif m == 'long':
        p['shapelet_lengths'] = [int(n_ts), max(2, int(n_ts) // 2)]
    elif m == 'rel':
        lo = 2.01 / n_ts
        p['shapelet_lengths'] = [float(np.round(rng.uniform(lo, 1.0), 3)) for _ in range(int(rng.integers(1, 3)))]
        p['shapelet_lengths'] = [max(v, lo) for v in p['shapelet_lengths']]
    elif m == 'bounds':
        a = int(rng.integers(3, max(4, n_ts // 2 + 1)))
        p['shapelet_lengths_bounds'] = [a, int(min(n_ts, a + rng.integers(0, 8)))]
        p['lengths_bounds_reduction'] = float(rng.choice([0.0, 0.25, 0.5, 0.75]))
    else:
        p['shapelet_lengths'] = [2, 3]
    if kind in ('m', 'mv') and rng.random() < 0.4:
        p['max_channels'] = int(rng.integers(1, n_ft + 1))
    return p

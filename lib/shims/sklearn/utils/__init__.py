import numpy as np
from .validation import check_random_state, check_array, check_X_y, check_consistent_length
from . import validation, extmath, fixes, parallel, multiclass


class Bunch(dict):
    __getattr__ = dict.__getitem__


def _approximate_mode(class_counts, n_draws, rng):
    continuous = class_counts / class_counts.sum() * n_draws
    floored = np.floor(continuous)
    need_to_add = int(n_draws - floored.sum())
    if need_to_add > 0:
        remainder = continuous - floored
        values = np.sort(np.unique(remainder))[::-1]
        for value in values:
            inds, = np.where(remainder == value)
            add_now = min(len(inds), need_to_add)
            inds = rng.choice(inds, size=add_now, replace=False)
            floored[inds] += 1
            need_to_add -= add_now
            if need_to_add == 0:
                break
    return floored.astype(int)


def safe_indexing(X, idx):
    if isinstance(X, np.ndarray):
        return X[idx]
    if hasattr(X, 'iloc'):
        return X.iloc[idx]
    return [X[i] for i in idx]


_safe_indexing = safe_indexing


def resample(*arrays, replace=True, n_samples=None, random_state=None, stratify=None):
    import sklearn
    random_state = check_random_state(random_state)
    if len(arrays) == 0:
        return None
    n = len(arrays[0])
    max_n = n if n_samples is None else n_samples
    if max_n > n and not replace:
        raise ValueError('Cannot sample %d out of arrays with dim %d when replace is False' % (max_n, n))
    for a in arrays:
        if len(a) != n:
            raise ValueError('Found input variables with inconsistent numbers of samples')
    if stratify is None:
        if replace:
            indices = random_state.randint(0, n, size=(max_n,))
        else:
            indices = np.arange(n)
            random_state.shuffle(indices)
            indices = indices[:max_n]
    else:
        y = np.asarray(stratify)
        if len(y) != n:
            raise ValueError('inconsistent numbers of samples')
        classes, y_idx = np.unique(y, return_inverse=True)
        counts = np.bincount(y_idx)
        class_idx = np.split(np.argsort(y_idx, kind='mergesort'), np.cumsum(counts)[:-1])
        n_i = _approximate_mode(counts, max_n, random_state)
        indices = []
        for i in range(classes.shape[0]):
            indices.extend(random_state.choice(class_idx[i], n_i[i], replace=replace))
        indices = random_state.permutation(indices)
    indices = np.asarray(indices, dtype=int)
    res = [safe_indexing(a, indices) for a in arrays]
    sklearn.record('resample', n_samples=n_samples, replace=replace, stratify=stratify is not None)
    return res[0] if len(res) == 1 else res


def shuffle(*arrays, random_state=None, n_samples=None):
    return resample(*arrays, replace=False, n_samples=n_samples, random_state=random_state)


def check_X(X, **k):
    return X

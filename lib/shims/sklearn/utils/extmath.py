import numpy as np


def softmax(X, copy=True):
    if copy:
        X = np.copy(X)
    X = np.asarray(X, dtype=float)
    X = X - np.max(X, axis=1).reshape((-1, 1))
    X = np.exp(X)
    return X / np.sum(X, axis=1).reshape((-1, 1))


def safe_sparse_dot(a, b, dense_output=False):
    return a @ b

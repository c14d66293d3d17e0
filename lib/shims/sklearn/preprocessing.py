import numpy as np
import sklearn
from .base import BaseEstimator, TransformerMixin
from .utils.validation import check_is_fitted, check_array


def _chk(X, who, n=None):
    X = check_array(X)
    if X.shape[0] < 1 or X.shape[1] < 1:
        raise ValueError('Found array with %s (shape=%s) while a minimum of 1 is required by %s.'
                         % ('0 feature(s)' if X.shape[1] < 1 else '0 sample(s)', X.shape, who))
    if n is not None and X.shape[1] != n:
        raise ValueError('X has %d features, but %s is expecting %d features as input'
                         % (X.shape[1], who, n))
    return X.astype(float)


class StandardScaler(TransformerMixin, BaseEstimator):
    def __init__(self, *, copy=True, with_mean=True, with_std=True):
        self.with_mean = with_mean
        self.with_std = with_std
        self.copy = copy

    def fit(self, X, y=None, sample_weight=None):
        X = _chk(X, 'StandardScaler')
        self.n_features_in_ = X.shape[1]
        self.n_samples_seen_ = X.shape[0]
        self.mean_ = X.mean(axis=0)
        self.var_ = X.var(axis=0)
        s = np.sqrt(self.var_)
        eps = 10 * np.finfo(float).eps
        s = np.where((s == 0) | (s < eps * np.abs(self.mean_)), 1.0, s)
        self.scale_ = s if self.with_std else None
        return self

    def partial_fit(self, X, y=None, sample_weight=None):
        return self.fit(X, y)

    def transform(self, X, copy=None):
        check_is_fitted(self, ['n_features_in_'])
        X = _chk(X, 'StandardScaler', self.n_features_in_)
        if self.with_mean:
            X = X - self.mean_
        if self.with_std:
            X = X / self.scale_
        return X

    def inverse_transform(self, X, copy=None):
        X = np.array(X, float)
        if self.with_std:
            X = X * self.scale_
        if self.with_mean:
            X = X + self.mean_
        return X


class MinMaxScaler(TransformerMixin, BaseEstimator):
    def __init__(self, feature_range=(0, 1), *, copy=True, clip=False):
        self.feature_range = feature_range
        self.copy = copy
        self.clip = clip

    def fit(self, X, y=None):
        X = _chk(X, 'MinMaxScaler')
        self.n_features_in_ = X.shape[1]
        lo, hi = self.feature_range
        self.data_min_ = X.min(axis=0)
        self.data_max_ = X.max(axis=0)
        self.data_range_ = self.data_max_ - self.data_min_
        r = np.where(self.data_range_ == 0, 1.0, self.data_range_)
        self.scale_ = (hi - lo) / r
        self.min_ = lo - self.data_min_ * self.scale_
        return self

    def transform(self, X):
        check_is_fitted(self, ['n_features_in_'])
        X = _chk(X, 'MinMaxScaler', self.n_features_in_)
        X = X * self.scale_ + self.min_
        if self.clip:
            X = np.clip(X, *self.feature_range)
        return X


class LabelEncoder(TransformerMixin, BaseEstimator):
    def fit(self, y):
        self.classes_ = np.unique(np.asarray(y))
        return self

    def fit_transform(self, y):
        self.classes_, r = np.unique(np.asarray(y), return_inverse=True)
        return r

    def transform(self, y):
        check_is_fitted(self, ['classes_'])
        y = np.asarray(y)
        if y.size == 0:
            return np.array([])
        table = {c: i for i, c in enumerate(self.classes_.tolist())}
        try:
            return np.array([table[v] for v in y.tolist()], dtype=np.int64)
        except KeyError as e:
            raise ValueError('y contains previously unseen labels: %s' % (e,))

    def inverse_transform(self, y):
        return self.classes_[np.asarray(y)]


class LabelBinarizer(TransformerMixin, BaseEstimator):
    def __init__(self, *, neg_label=0, pos_label=1, sparse_output=False):
        self.neg_label, self.pos_label, self.sparse_output = neg_label, pos_label, sparse_output

    def fit(self, y):
        self.classes_ = np.unique(np.asarray(y))
        return self

    def transform(self, y):
        y = np.asarray(y)
        k = len(self.classes_)
        if k == 1:
            return np.full((len(y), 1), self.neg_label)
        if k == 2:
            return np.where(y == self.classes_[1], self.pos_label, self.neg_label).reshape(-1, 1)
        return np.where(y[:, None] == self.classes_[None, :], self.pos_label, self.neg_label)


class FunctionTransformer(TransformerMixin, BaseEstimator):
    def __init__(self, func=None, inverse_func=None, *, validate=False, kw_args=None):
        self.func, self.inverse_func, self.validate, self.kw_args = func, inverse_func, validate, kw_args

    def fit(self, X, y=None):
        return self

    def transform(self, X):
        return X if self.func is None else self.func(X, **(self.kw_args or {}))


class Normalizer(TransformerMixin, BaseEstimator):
    def fit(self, X, y=None):
        return self

    def transform(self, X):
        n = np.linalg.norm(X, axis=1, keepdims=True)
        return X / np.where(n == 0, 1, n)

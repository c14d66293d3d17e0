"""Ridge classification with efficient leave-one-out cross-validation."""
import numpy as np
import sklearn
from .base import BaseEstimator, ClassifierMixin
from .preprocessing import LabelBinarizer
from .utils.validation import check_X_y, check_array, check_is_fitted
from .metrics import accuracy_score


def _weights(class_weight, y, sample_weight):
    w = np.ones(len(y)) if sample_weight is None else np.asarray(sample_weight, float).copy()
    if class_weight is None:
        return w
    cls, inv = np.unique(y, return_inverse=True)
    if isinstance(class_weight, str):
        if class_weight != 'balanced':
            raise ValueError('class_weight must be None, balanced or a dict')
        cnt = np.bincount(inv)
        return w * (len(y) / (len(cls) * cnt))[inv]
    return w * np.array([class_weight.get(c, 1.0) for c in y.tolist()])


class _Identity:
    _estimator_type = 'classifier'

    def __init__(self, classes):
        self.classes_ = classes

    def decision_function(self, y):
        return y

    def predict(self, y):
        y = np.asarray(y)
        if y.ndim == 1 or y.shape[1] == 1:
            return (y.ravel() > 0).astype(int)
        return y.argmax(axis=1)


class _RidgeBase(ClassifierMixin, BaseEstimator):
    def decision_function(self, X):
        check_is_fitted(self, ['coef_'])
        X = check_array(X)
        if X.shape[1] != self.coef_.shape[1]:
            raise ValueError('X has %d features, but %s is expecting %d features as input.'
                             % (X.shape[1], type(self).__name__, self.coef_.shape[1]))
        s = X.astype(float) @ self.coef_.T + self.intercept_
        sklearn.record('decision', est=self, X=np.array(X), out=np.array(s))
        return s.ravel() if s.shape[1] == 1 else s

    def predict(self, X):
        d = self.decision_function(X)
        if d.ndim == 1:
            return self.classes_[(d > 0).astype(int)]
        return self.classes_[d.argmax(axis=1)]

    def _prep(self, X, y, sample_weight):
        X, y = check_X_y(X, y)
        X = X.astype(float)
        if X.shape[1] < 1:
            raise ValueError('Found array with 0 feature(s)')
        sklearn.record('ridge_fit', est=self, X=X.copy(), y=np.array(y))
        lb = LabelBinarizer(pos_label=1, neg_label=-1).fit(y)
        self._label_binarizer = lb
        self.classes_ = lb.classes_
        self.n_features_in_ = X.shape[1]
        Y = lb.transform(y).astype(float)
        w = _weights(self.class_weight, y, sample_weight)
        sw = w / 1.0
        if self.fit_intercept:
            xo = np.average(X, axis=0, weights=sw)
            yo = np.average(Y, axis=0, weights=sw)
        else:
            xo, yo = np.zeros(X.shape[1]), np.zeros(Y.shape[1])
        return X, y, Y, sw, xo, yo


class RidgeClassifier(_RidgeBase):
    def __init__(self, alpha=1.0, *, fit_intercept=True, normalize='deprecated', copy_X=True, max_iter=None,
                 tol=1e-3, class_weight=None, solver='auto', positive=False, random_state=None):
        self.alpha = alpha
        self.fit_intercept = fit_intercept
        self.normalize = normalize
        self.copy_X = copy_X
        self.max_iter = max_iter
        self.tol = tol
        self.class_weight = class_weight
        self.solver = solver
        self.positive = positive
        self.random_state = random_state

    def fit(self, X, y, sample_weight=None):
        X, y, Y, sw, xo, yo = self._prep(X, y, sample_weight)
        r = np.sqrt(sw)[:, None]
        A, B = r * (X - xo), r * (Y - yo)
        K = A @ A.T
        C = np.linalg.solve(K + self.alpha * np.eye(len(K)), B)
        self.coef_ = (A.T @ C).T
        self.intercept_ = yo - self.coef_ @ xo
        return self


class RidgeClassifierCV(_RidgeBase):
    def __init__(self, alphas=(0.1, 1.0, 10.0), *, fit_intercept=True, normalize='deprecated', scoring=None,
                 cv=None, class_weight=None, store_cv_values=False):
        self.alphas = alphas
        self.fit_intercept = fit_intercept
        self.normalize = normalize
        self.scoring = scoring
        self.cv = cv
        self.class_weight = class_weight
        self.store_cv_values = store_cv_values

    def fit(self, X, y, sample_weight=None):
        X, y, Y, sw, xo, yo = self._prep(X, y, sample_weight)
        alphas = np.atleast_1d(np.asarray(self.alphas, dtype=float))
        if (alphas <= 0).any():
            raise ValueError('alphas must be strictly positive.')
        r = np.sqrt(sw)[:, None]
        A, B = r * (X - xo), r * (Y - yo)
        ev, Q = np.linalg.eigh(A @ A.T)
        ev = np.maximum(ev, 0)
        QB = Q.T @ B
        Q2 = Q ** 2
        icpt = (sw / sw.sum()) if self.fit_intercept else np.zeros(len(y))
        n, k = Y.shape
        if self.store_cv_values:
            self.cv_values_ = np.empty((n, k, len(alphas)))
        best = None
        for i, a in enumerate(alphas):
            s = ev / (ev + a)
            fit = Q @ (s[:, None] * QB)
            h = Q2 @ s + icpt
            loo = (B - fit) / np.maximum(1 - h, 1e-12)[:, None]
            resid = loo / r
            pred = Y - resid
            if self.scoring is None:
                score = -np.mean(loo ** 2)
                vals = loo ** 2
            else:
                from .metrics import get_scorer
                sc = get_scorer(self.scoring)
                yt = np.searchsorted(self.classes_, y)
                score = sc(_Identity(np.arange(max(2, k))), pred, yt)
                vals = pred
            if self.store_cv_values:
                self.cv_values_[:, :, i] = vals
            if best is None or score > best[0]:
                best = (score, i)
        self.best_score_ = best[0]
        self.alpha_ = alphas[best[1]]
        C = Q @ (QB / (ev + self.alpha_)[:, None])
        self.coef_ = (A.T @ C).T
        self.intercept_ = yo - self.coef_ @ xo
        return self

import numpy as np


def accuracy_score(y_true, y_pred, *, normalize=True, sample_weight=None):
    y_true, y_pred = np.asarray(y_true), np.asarray(y_pred)
    for a in (y_true, y_pred):
        if not (a.ndim == 1 or (a.ndim == 2 and a.shape[1] == 1)):
            raise ValueError("Classification metrics can't handle a target of shape %s" % (a.shape,))
    y_true, y_pred = y_true.ravel(), y_pred.ravel()
    if len(y_true) != len(y_pred):
        raise ValueError('Found input variables with inconsistent numbers of samples: [%d, %d]'
                         % (len(y_true), len(y_pred)))
    s = (y_true == y_pred)
    if not normalize:
        return s.sum() if sample_weight is None else np.dot(s, sample_weight)
    return float(np.average(s, weights=sample_weight))


def _confusion(y_true, y_pred):
    labels = np.unique(np.concatenate([y_true, y_pred]))
    tp = np.array([np.sum((y_true == c) & (y_pred == c)) for c in labels], float)
    fp = np.array([np.sum((y_true != c) & (y_pred == c)) for c in labels], float)
    fn = np.array([np.sum((y_true == c) & (y_pred != c)) for c in labels], float)
    return labels, tp, fp, fn


def f1_score(y_true, y_pred, *, labels=None, pos_label=1, average='binary', sample_weight=None,
             zero_division=0):
    y_true, y_pred = np.asarray(y_true).ravel(), np.asarray(y_pred).ravel()
    labels, tp, fp, fn = _confusion(y_true, y_pred)
    d = 2 * tp + fp + fn
    f = np.where(d > 0, 2 * tp / np.where(d > 0, d, 1), 0.0)
    if average == 'binary':
        if len(labels) > 2:
            raise ValueError("Target is multiclass but average='binary'.")
        i = np.where(labels == pos_label)[0]
        return float(f[i[0]]) if len(i) else 0.0
    if average == 'micro':
        return float(2 * tp.sum() / (2 * tp.sum() + fp.sum() + fn.sum()))
    if average == 'weighted':
        return float(np.average(f, weights=tp + fn))
    if average is None:
        return f
    return float(f.mean())


def balanced_accuracy_score(y_true, y_pred, **k):
    labels, tp, fp, fn = _confusion(np.asarray(y_true), np.asarray(y_pred))
    m = (tp + fn) > 0
    return float((tp[m] / (tp + fn)[m]).mean())


class _PredictScorer:
    def __init__(self, f, sign, kw):
        self._score_func, self._sign, self._kwargs = f, sign, kw

    def __call__(self, estimator, X, y_true, sample_weight=None):
        return self._sign * self._score_func(y_true, estimator.predict(X), **self._kwargs)


def make_scorer(score_func, *, greater_is_better=True, needs_proba=False, needs_threshold=False, **kw):
    return _PredictScorer(score_func, 1 if greater_is_better else -1, kw)


def get_scorer(s):
    if callable(s):
        return s
    return make_scorer({'accuracy': accuracy_score, 'balanced_accuracy': balanced_accuracy_score,
                        'f1': f1_score}[s])


check_scoring = get_scorer

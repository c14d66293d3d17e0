import numbers
import numpy as np
from ..exceptions import NotFittedError


def check_random_state(seed):
    if seed is None or seed is np.random:
        return np.random.mtrand._rand
    if isinstance(seed, numbers.Integral):
        return np.random.RandomState(seed)
    if isinstance(seed, np.random.RandomState):
        return seed
    raise ValueError('%r cannot be used to seed a numpy.random.RandomState instance' % seed)


def check_is_fitted(estimator, attributes=None, *, msg=None, all_or_any=all):
    if isinstance(estimator, type):
        raise TypeError('{} is a class, not an instance.'.format(estimator))
    if not hasattr(estimator, 'fit'):
        raise TypeError('%s is not an estimator instance.' % (estimator,))
    if attributes is not None:
        if not isinstance(attributes, (list, tuple)):
            attributes = [attributes]
        fitted = all_or_any([hasattr(estimator, a) for a in attributes])
    elif hasattr(estimator, '__sklearn_is_fitted__'):
        fitted = estimator.__sklearn_is_fitted__()
    else:
        fitted = [v for v in vars(estimator) if v.endswith('_') and not v.startswith('__')]
    if not fitted:
        raise NotFittedError(msg or 'This %s instance is not fitted yet.' % type(estimator).__name__)


def check_consistent_length(*arrays):
    if len({len(a) for a in arrays if a is not None}) > 1:
        raise ValueError('Found input variables with inconsistent numbers of samples')


def check_array(X, ensure_2d=True, dtype='numeric', allow_nd=False, copy=False, **k):
    X = np.array(X, copy=True) if copy else np.asarray(X)
    if ensure_2d and X.ndim != 2 and not allow_nd:
        raise ValueError('Expected 2D array, got array of shape %s' % (X.shape,))
    if X.dtype.kind == 'f' and not np.isfinite(X).all():
        raise ValueError('Input contains NaN or infinity.')
    return X


def check_X_y(X, y, **k):
    X = check_array(X)
    y = np.asarray(y)
    check_consistent_length(X, y)
    return X, y


def column_or_1d(y, warn=False):
    y = np.asarray(y)
    if y.ndim == 1 or (y.ndim == 2 and y.shape[1] == 1):
        return y.ravel()
    raise ValueError('y should be a 1d array, got an array of shape %s instead.' % (y.shape,))


def has_fit_parameter(e, p):
    import inspect
    return p in inspect.signature(e.fit).parameters

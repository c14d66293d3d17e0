"""Stand-in for scikit-learn: the subset the library builds on, same contracts.

Every fit/predict of an estimator of this package is appended to EVENTS, so that
monitors can judge what crossed the library boundary.
"""
__version__ = '1.2.2'
EVENTS = []
RECORD = [False]


def record(kind, **kw):
    if RECORD[0]:
        kw['kind'] = kind
        EVENTS.append(kw)


from .base import clone  # noqa
from . import base, utils, metrics, preprocessing, linear_model, pipeline, model_selection, exceptions  # noqa

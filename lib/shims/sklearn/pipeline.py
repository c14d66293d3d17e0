from .base import BaseEstimator


class Pipeline(BaseEstimator):
    def __init__(self, steps, *, memory=None, verbose=False):
        self.steps = steps
        self.memory = memory
        self.verbose = verbose
        self._estimator_type = getattr(steps[-1][1], '_estimator_type', None) if steps else None

    @property
    def named_steps(self):
        from .utils import Bunch
        return Bunch(self.steps)

    def get_params(self, deep=True):
        out = {'steps': self.steps, 'memory': self.memory, 'verbose': self.verbose}
        if deep:
            for n, s in self.steps:
                out[n] = s
                if hasattr(s, 'get_params'):
                    out.update((n + '__' + k, v) for k, v in s.get_params().items())
        return out

    def __getitem__(self, ind):
        if isinstance(ind, slice):
            return Pipeline(self.steps[ind])
        if isinstance(ind, str):
            return dict(self.steps)[ind]
        return self.steps[ind][1]

    def __len__(self):
        return len(self.steps)

    def __iter__(self):
        return iter(self.steps)

    def _final(self):
        return self.steps[-1][1]

    def _split(self, params):
        out = {n: {} for n, _ in self.steps}
        for k, v in params.items():
            n, _, p = k.partition('__')
            out[n][p] = v
        return out

    def fit(self, X, y=None, **fit_params):
        ps = self._split(fit_params)
        for n, t in self.steps[:-1]:
            if t is None or t == 'passthrough':
                continue
            if hasattr(t, 'fit_transform'):
                X = t.fit_transform(X, y, **ps[n])
            else:
                X = t.fit(X, y, **ps[n]).transform(X)
        f = self._final()
        if f is not None and f != 'passthrough':
            f.fit(X, y, **ps[self.steps[-1][0]])
        return self

    def _pre(self, X):
        for n, t in self.steps[:-1]:
            if t is None or t == 'passthrough':
                continue
            X = t.transform(X)
        return X

    def predict(self, X, **k):
        return self._final().predict(self._pre(X), **k)

    def predict_proba(self, X, **k):
        return self._final().predict_proba(self._pre(X), **k)

    def decision_function(self, X):
        return self._final().decision_function(self._pre(X))

    def score(self, X, y=None, **k):
        return self._final().score(self._pre(X), y, **k)

    def transform(self, X):
        return self._final().transform(self._pre(X))

    def fit_transform(self, X, y=None, **k):
        return self.fit(X, y, **k).transform(X)

    def fit_predict(self, X, y=None, **k):
        return self.fit(X, y).predict(X)

    @property
    def classes_(self):
        return self._final().classes_

    def __sklearn_is_fitted__(self):
        return True


def make_pipeline(*steps, memory=None, verbose=False):
    names = [type(s).__name__.lower() for s in steps]
    count = {}
    for n in names:
        count[n] = count.get(n, 0) + 1
    seen, out = {}, []
    for n, s in zip(names, steps):
        if count[n] > 1:
            seen[n] = seen.get(n, 0) + 1
            out.append(('%s-%d' % (n, seen[n]), s))
        else:
            out.append((n, s))
    return Pipeline(out, memory=memory, verbose=verbose)


def make_union(*a, **k):
    raise NotImplementedError('shim')

import itertools
import numpy as np
import sklearn
from .base import BaseEstimator, clone
from .metrics import get_scorer, accuracy_score
from .utils.validation import check_random_state
from .utils import safe_indexing, _approximate_mode


class ParameterGrid:
    def __init__(self, grid):
        self.grid = [grid] if isinstance(grid, dict) else list(grid)

    def __iter__(self):
        for p in self.grid:
            keys = sorted(p)
            for v in itertools.product(*[p[k] for k in keys]):
                yield dict(zip(keys, v))

    def __len__(self):
        return sum(1 for _ in self)


def cross_validate(estimator, X, y=None, *, scoring=None, cv=None, n_jobs=None, return_train_score=False,
                   **k):
    out = {'test_score': [], 'fit_time': [], 'score_time': []}
    splits = cv.split(X, y) if hasattr(cv, 'split') else cv
    for tr, te in splits:
        e = clone(estimator)
        e.fit(safe_indexing(X, tr), safe_indexing(y, tr))
        sc = get_scorer(scoring) if scoring else (lambda est, a, b: est.score(a, b))
        out['test_score'].append(sc(e, safe_indexing(X, te), safe_indexing(y, te)))
        out['fit_time'].append(0.0)
        out['score_time'].append(0.0)
    return {k: np.array(v) for k, v in out.items()}


def train_test_split(*arrays, test_size=None, train_size=None, random_state=None, shuffle=True, stratify=None):
    rng = check_random_state(random_state)
    n = len(arrays[0])
    if train_size is None:
        ts = 0.25 if test_size is None else test_size
        nte = int(np.ceil(ts * n)) if isinstance(ts, float) else int(ts)
        ntr = n - nte
    else:
        ntr = int(np.floor(train_size * n)) if isinstance(train_size, float) else int(train_size)
        nte = n - ntr
    if stratify is None:
        p = rng.permutation(n)
        tr, te = p[:ntr], p[ntr:ntr + nte]
    else:
        y = np.asarray(stratify)
        cls, inv = np.unique(y, return_inverse=True)
        cnt = np.bincount(inv)
        ni = _approximate_mode(cnt, ntr, rng)
        tr, te = [], []
        for i in range(len(cls)):
            p = rng.permutation(np.where(inv == i)[0])
            tr.extend(p[:ni[i]])
            te.extend(p[ni[i]:])
        tr, te = rng.permutation(tr).astype(int), rng.permutation(te).astype(int)
    out = []
    for a in arrays:
        out += [safe_indexing(a, tr), safe_indexing(a, te)]
    return out


class StratifiedShuffleSplit:
    def __init__(self, n_splits=10, *, test_size=None, train_size=None, random_state=None):
        self.n_splits, self.test_size, self.train_size, self.random_state = n_splits, test_size, train_size, random_state

    def split(self, X, y, groups=None):
        rng = check_random_state(self.random_state)
        for _ in range(self.n_splits):
            idx = np.arange(len(y))
            yield tuple(train_test_split(idx, test_size=self.test_size, train_size=self.train_size,
                                         random_state=rng, stratify=y))

    def get_n_splits(self, *a, **k):
        return self.n_splits


class GridSearchCV(BaseEstimator):
    def __init__(self, estimator, param_grid, *, scoring=None, n_jobs=None, refit=True, cv=None, verbose=0,
                 pre_dispatch='2*n_jobs', error_score=np.nan, return_train_score=False):
        self.estimator = estimator
        self.param_grid = param_grid
        self.scoring = scoring
        self.n_jobs = n_jobs
        self.refit = refit
        self.cv = cv
        self.verbose = verbose
        self.pre_dispatch = pre_dispatch
        self.error_score = error_score
        self.return_train_score = return_train_score

    def fit(self, X, y=None, **k):
        sklearn.record('grid_fit', X=X, y=y, n_jobs=self.n_jobs, scoring=self.scoring)
        splits = [(np.asarray(a), np.asarray(b)) for a, b in
                  (self.cv.split(X, y) if hasattr(self.cv, 'split') else self.cv)]
        cands = list(ParameterGrid(self.param_grid))
        sc = get_scorer(self.scoring) if self.scoring is not None else (lambda e, a, b: e.score(a, b))
        res = np.zeros((len(cands), len(splits)))
        for ci, p in enumerate(cands):
            for si, (tr, te) in enumerate(splits):
                e = clone(clone(self.estimator).set_params(**clone(p, safe=False) if False else p))
                e.fit(safe_indexing(X, tr), safe_indexing(y, tr))
                res[ci, si] = sc(e, safe_indexing(X, te), safe_indexing(y, te))
        r = {}
        for key in sorted({k for p in cands for k in p}):
            r['param_' + key] = [p.get(key) for p in cands]
        r['params'] = cands
        for si in range(len(splits)):
            r['split%d_test_score' % si] = res[:, si]
        r['mean_test_score'] = res.mean(axis=1)
        r['std_test_score'] = res.std(axis=1)
        order = np.argsort(-r['mean_test_score'], kind='stable')
        rank = np.empty(len(cands), int)
        rank[order] = np.arange(1, len(cands) + 1)
        r['rank_test_score'] = rank
        for kk in ('mean_fit_time', 'std_fit_time', 'mean_score_time', 'std_score_time'):
            r[kk] = np.zeros(len(cands))
        self.cv_results_ = r
        self.n_splits_ = len(splits)
        self.best_index_ = int(order[0])
        self.best_params_ = cands[self.best_index_]
        self.best_score_ = r['mean_test_score'][self.best_index_]
        if self.refit:
            self.best_estimator_ = clone(self.estimator).set_params(**self.best_params_)
            self.best_estimator_.fit(X, y)
        return self

    def predict(self, X):
        return self.best_estimator_.predict(X)

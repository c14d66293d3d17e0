"""Monitor of the grid search: recording estimators see the indexed series of every split."""
import sys
import os
import numpy as np
from vlib import env, gen
from vlib.runner import Skip
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import c19  # noqa

ID = 'C20'
RULE = ('one evaluation = one split seen by the fitted estimators, judged against the pooled data and the resample of the '
        'same index; distinct = (channels, layout, agreeing series or not, split index, candidates)')
BUDGET = {'quick': (700, 50), 'thorough': (9000, 780)}
CHUNK = 5
ASSUMPTIONS = ['the search itself (candidates, indexing by the given splits, refit) is a trusted dependency',
               'equal-length data with pairwise distinct series, every class present in both parts']


def prepare(tier):
    env.setup()


LOG = []


def estimator():
    from sklearn.base import BaseEstimator

    class Est(BaseEstimator):
        def __init__(self, a=0, b='x'):
            self.a = a
            self.b = b

        def fit(self, X, y):
            self.log = dict(X=np.array(X), y=np.array(y), preds=[], a=self.a, b=self.b)
            LOG.append(self.log)
            self.classes_ = np.unique(y)
            return self

        def predict(self, X):
            self.log['preds'].append(np.array(X))
            return np.full(len(X), self.classes_[self.a % len(self.classes_)])

        def score(self, X, y):
            return float(np.mean(self.predict(X) == np.asarray(y)))
    return Est


def case(rng, tier, mon):
    from aeon import datasets
    from convst.utils.experiments_utils import grid_search_UCR_UEA
    from sklearn.metrics import make_scorer, accuracy_score
    agree = rng.random() < 0.5
    nft = int(rng.integers(1, 4))
    (Xa, ya), (Xb, yb), layout = c19.dataset(rng, False, n_ft=nft, agree=agree)
    f32 = rng.random() < 0.15
    if f32:
        Xa, Xb = Xa.astype('float32'), Xb.astype('float32')
    datasets.DATA.clear()
    datasets.DATA['D'] = dict(train=(Xa, ya), test=(Xb, yb))
    enc = {c: i for i, c in enumerate(np.unique(ya))}
    ea, eb = np.array([enc[c] for c in ya]), np.array([enc[c] for c in yb])
    n_split = int(rng.integers(1, 5))
    if mon.idx % 12 == 4:
        n_split = int(rng.integers(11, 31))
        mon.count('many_splits')
    grid = {'a': [0, 1, 2][:int(rng.integers(1, 4))]}
    if rng.random() < 0.4:
        grid['b'] = ['x', 'y']
    cand = len(grid['a']) * len(grid.get('b', [0]))
    jobs = int(rng.choice([1, 2, -1]))
    del LOG[:]
    g = grid_search_UCR_UEA(n_split, 'D', jobs) if rng.random() < .5 else grid_search_UCR_UEA(
        n_split, 'D', jobs, scorers=make_scorer(accuracy_score))
    stdout = sys.stdout
    sys.stdout = open(os.devnull, 'w')
    try:
        table = g.score(estimator(), grid)
    finally:
        sys.stdout.close()
        sys.stdout = stdout
    fits = list(LOG)
    mon.describe(train=len(ya), test=len(yb), channels=nft, layout=layout, agree=agree, splits=n_split, grid=grid)
    pooled = [c19.key(x) for x in list(Xa) + list(Xb)]
    pos = {k: i for i, k in enumerate(pooled)}
    lab = list(ea) + list(eb)
    if len(pos) != len(pooled):
        raise Skip
    # the refit
    P = np.concatenate([Xa, Xb])
    refit = fits[-1]
    mon.check(refit['X'].shape == P.shape and np.array_equal(refit['X'], P) and np.array_equal(refit['y'], lab), 'refit',
              'the search does not refit on the pooled training and test data', shape=refit['X'].shape)
    runs = fits[:-1]
    mon.check(len(runs) == cand * n_split, 'fits', '%d fits for %d candidates and %d splits' % (len(runs), cand, n_split))
    # reference resamples: those of the evaluation with the same index
    rec = c19.Recorder(rng)
    c19.evaluate('D', n_split, rec)
    for c in range(cand):
        for s in range(n_split):
            r = runs[c * n_split + s]
            mon.check(len(r['preds']) == 1, 'fits', 'split %d was predicted %d times' % (s, len(r['preds'])))
            tr, te = [pos.get(c19.key(x)) for x in r['X']], [pos.get(c19.key(x)) for x in r['preds'][0]]
            mon.check(None not in tr + te, 'unknown-series', 'split %d holds a series that is not in the data' % s)
            mon.check(len(set(tr)) == len(tr) and len(set(te)) == len(te) and not set(tr) & set(te), 'disjoint',
                      'train and test indexes of split %d overlap or repeat' % s, train=tr, test=te)
            mon.check(set(tr) | set(te) == set(range(len(pooled))), 'cover', 'split %d does not cover the pooled data' % s,
                      train=tr, test=te)
            mon.check(list(r['y']) == [lab[i] for i in tr], 'labels', 'labels of the training part of split %d' % s)
            w = rec.log[s]
            mon.check(sorted(tr) == sorted(pos[c19.key(x)] for x in w['X']), 'resample', 'the training part of split %d is not '
                      'the resample of index %d' % (s, s), train=sorted(tr))
            if s == 0:
                mon.check(set(tr) == set(range(len(ea))), 'original', 'the first split is not the original one')
            acc = np.mean(np.array([lab[i] for i in te]) == np.unique(r['y'])[r['a'] % len(np.unique(r['y']))])
            v = float(table['split%d_test_score' % s].iloc[c])
            mon.check(abs(v - acc) < 1e-9, 'score', 'score of split %d is %r, expected %r' % (s, v, acc))
            mon.ev((nft, layout, agree, s, cand))
            mon.count('splits')
            mon.count('indexes', len(tr) + len(te))
    mon.check(len(table) == cand and 'params' in table.columns and 'mean_test_score' in table.columns, 'table',
              'results table of %d rows for %d candidates' % (len(table), cand))
    mon.check(sorted(map(str, table['params'])) == sorted(set(map(str, table['params']))), 'table', 'candidates repeat')

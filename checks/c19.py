"""Monitor of the resampled evaluation: a recording pipeline sees every split, a recording scorer every comparison."""
import contextlib
import random
import numpy as np
from vlib import env, gen
from vlib.runner import Skip

ID = 'C19'
RULE = ('one evaluation = one split of one evaluation run judged (conservation, class balance, reproducibility, metrics); '
        'distinct = (kind, class layout, split index, metrics, dtype of the data)')
BUDGET = {'quick': (900, 50), 'thorough': (12000, 780)}
CHUNK = 5
ASSUMPTIONS = ['every class of the original split is present in both of its parts (documented limitation of the resampling)']


def prepare(tier):
    env.setup()


def dataset(rng, var, dup=False, n_ft=None, agree=False, big=False):
    k = int(rng.integers(4 if big else 2, 6))
    layout = str(rng.choice(['balanced', 'skew', 'random']))

    def part():
        cnt = rng.integers(1, 7, size=k)
        if big:
            cnt = rng.integers(7, 10, size=k)
        elif layout == 'balanced':
            cnt[:] = cnt[0]
        elif layout == 'skew':
            cnt[:] = 1
            cnt[int(rng.integers(0, k))] = int(rng.integers(3, 12))
        return rng.permutation(np.repeat(np.arange(k), cnt))
    ytr, yte = part(), part()
    nft = n_ft or int(rng.integers(1, 4))
    T = int(rng.integers(3, 10))
    names = [str(rng.choice(['a', 'class ', 'x1', '10', '-'])) + str(i) for i in range(k)]
    base = rng.integers(-3, 4, size=(nft, T)).astype(float)
    seen = set()

    def mk():
        while True:
            t = int(rng.integers(T, T + 5)) if var else T
            if agree and not var:
                x = base.copy()
                c = int(rng.integers(0, nft))
                x[c, int(rng.integers(0, T))] = float(rng.integers(-20, 21))
                if nft > 1 and rng.random() < .3:
                    x = x[rng.permutation(nft)]
                if rng.random() < 0.4:
                    x[int(rng.integers(0, nft))] = rng.integers(-2, 3, size=T)
            elif rng.random() < .5:
                x = rng.normal(size=(nft, t))
            else:
                x = rng.integers(-2, 3, size=(nft, t)).astype(float)
            key = (x.shape, x.tobytes())
            if key not in seen or dup:
                seen.add(key)
                return x
    def pack(n):
        X = [mk() for _ in range(n)]
        return X if var else np.stack(X)
    lab = np.array(names)
    num = np.array([str(i + int(rng.integers(0, 1))) for i in range(k)])
    use = lab if rng.random() < .6 else num
    return (pack(len(ytr)), use[ytr]), (pack(len(yte)), use[yte]), layout


def key(x):
    x = np.ascontiguousarray(np.asarray(x, dtype=np.float64))
    return (x.shape, x.tobytes())


class Recorder:
    """fit/predict with a prediction that depends on what was fitted and on each series"""
    def __init__(self, rng, hostile=None):
        self.log, self.rng, self.hostile = [], np.random.RandomState(int(rng.integers(0, 1 << 30))), hostile
        self.current = None

    def fit(self, X, y):
        self.current = dict(X=[np.array(x, float) for x in X], y=np.array(y), preds=[], container=type(X).__name__)
        self.log.append(self.current)
        self.labels = np.unique(y)
        if self.hostile == 'array' and isinstance(X, np.ndarray):
            X[...] = 1e6
            y[...] = y[0]
        elif self.hostile == 'list' and isinstance(X, list):
            X.reverse()
            del X[1:]
        return self

    def predict(self, X):
        p = self.labels[self.rng.randint(0, len(self.labels), size=len(X))]
        self.current['preds'].append(([np.array(x, float) for x in X], np.array(p)))
        if self.hostile == 'array' and isinstance(X, np.ndarray):
            X[...] = -1e6
        return p


def scorers(rng):
    from sklearn.metrics import accuracy_score, f1_score
    log = []

    def wrap(name, f):
        def g(t, p):
            v = f(t, p)
            log.append((name, np.array(t), np.array(p), v))
            return v
        return g
    pool = {'accuracy': accuracy_score, 'errors': lambda t, p: float(np.sum(np.asarray(t) != np.asarray(p))),
            'first': lambda t, p: float(np.sum(np.asarray(t, float) * np.arange(1, len(t) + 1))),
            'mix': lambda t, p: float(np.dot(np.asarray(t, float) + 1, np.arange(len(t)) * (np.asarray(p, float) + 2)))}
    names = [str(v) for v in rng.permutation(list(pool))[:int(rng.integers(1, 5))]]
    return {n: wrap(n, pool[n]) for n in names}, {n: pool[n] for n in names}, log


@contextlib.contextmanager
def watch_loader():
    """Records what the evaluation loaded, and a copy of it."""
    import convst.utils.experiments_utils as E
    name = 'load_UCR_UEA_dataset_split'
    orig, log = getattr(E, name, None), []

    def load(*a, **k):
        r = orig(*a, **k)
        log.append((r[:4], [[np.array(x) for x in v] for v in r[:4]]))
        return r
    if orig is not None:
        setattr(E, name, load)
    try:
        yield log
    finally:
        if orig is not None:
            setattr(E, name, orig)


def evaluate(name, n_split, pipe, sc=None):
    from convst.utils.experiments_utils import cross_validate_UCR_UEA
    cv = cross_validate_UCR_UEA(n_split, name, scorers=sc) if sc is not None else cross_validate_UCR_UEA(n_split, name)
    return cv.score(pipe)


def case(rng, tier, mon):
    from aeon import datasets
    var = mon.idx % 3 == 2
    (Xa, ya), (Xb, yb), layout = dataset(rng, var, dup=rng.random() < 0.2, big=mon.idx % 12 == 4)
    datasets.DATA.clear()
    datasets.DATA['D'] = dict(train=(Xa, ya), test=(Xb, yb))
    enc = {c: i for i, c in enumerate(np.unique(ya))}
    ea, eb = np.array([enc[c] for c in ya]), np.array([enc[c] for c in yb])
    n_split = int(rng.integers(1, 6))
    if mon.idx % 12 == 4:
        n_split = int(rng.integers(11, 41))
        mon.count('many_splits')
    sc, plain, slog = scorers(rng)
    hostile = None
    if rng.random() < 0.2:
        hostile = 'list' if var else 'array'
    default = rng.random() < 0.1
    if default:
        from sklearn.metrics import accuracy_score
        plain = {'accuracy': accuracy_score}
    pipe = Recorder(rng, hostile)
    np.random.seed(int(rng.integers(0, 1000)))
    random.seed(int(rng.integers(0, 1000)))
    with watch_loader() as loaded:
        table = evaluate('D', n_split, pipe, None if default else sc)
    for got, was in loaded:
        same = all(len(a) == len(b) and all(np.array_equal(p, q) for p, q in zip(a, b)) for a, b in zip(got, was))
        mon.check(same or hostile, 'originals-modified', 'the evaluation changed the loaded arrays')
        mon.count('originals_compared')
    mon.describe(variable=var, layout=layout, train=len(ya), test=len(yb), splits=n_split, metrics=sorted(plain))
    log = pipe.log
    mon.check(len(log) == n_split and all(len(r['preds']) == 1 for r in log), 'splits',
              '%d fits for %d splits' % (len(log), n_split))
    cnt = lambda y: {int(v): int((np.asarray(y) == v).sum()) for v in np.unique(y)}
    pool = sorted([(key(x), int(v)) for x, v in zip(list(Xa) + list(Xb), list(ea) + list(eb))])
    for i, r in enumerate(log):
        Xt, pred = r['preds'][0]
        # true labels of the test part: the scorers received them
        yt = None
        if not default:
            mine = [s for s in slog[i * len(plain):(i + 1) * len(plain)]]
            yt = mine[0][1]
            for nm, t, p, v in mine:
                mon.check(np.array_equal(np.asarray(t, float), np.asarray(yt, float)), 'metric-labels', 'metrics of split %d '
                          'see different labels' % i)
                mon.check(np.array_equal(np.asarray(p, float), np.asarray(pred, float)), 'metric-predictions',
                          'metric %s of split %d does not see its predictions' % (nm, i))
        if i == 0:
            same = len(r['X']) == len(Xa) and all(np.array_equal(a, b) for a, b in zip(r['X'], Xa)) and \
                np.array_equal(r['y'], ea) and len(Xt) == len(Xb) and all(np.array_equal(a, b) for a, b in zip(Xt, Xb))
            mon.check(same, 'original-first', 'the first split is not the original one')
            if yt is not None:
                mon.check(np.array_equal(yt, eb), 'original-first', 'labels of the first test part differ from the original')
        if yt is not None:
            got = sorted([(key(x), int(v)) for x, v in zip(r['X'] + Xt, list(r['y']) + list(yt))])
            mon.check(len(r['X']) == len(r['y']) and len(Xt) == len(yt) and got == pool, 'conservation',
                      'split %d does not redistribute the same (series, label) pairs' % i, layout=layout, variable=var)
            mon.check(cnt(yt) == cnt(eb), 'balance', 'class counts of test part %d: %s, originally %s' % (i, cnt(yt), cnt(eb)))
        mon.check(cnt(r['y']) == cnt(ea), 'balance', 'class counts of train part %d: %s, originally %s' % (i, cnt(r['y']), cnt(ea)))
        mon.ev((var, layout, i, tuple(sorted(plain)), len(cnt(ea)), hostile))
        mon.count('splits')
        mon.count('series_tracked', len(r['X']) + len(Xt))
        # the table
        for nm, f in plain.items():
            if yt is None:
                continue
            v = table.loc[i, nm]
            mon.check(abs(float(v) - float(f(yt, pred))) <= 1e-9 * (1 + abs(float(v))), 'score', 'metric %s of split %d is %r, '
                      'expected %r' % (nm, i, v, f(yt, pred)))
    if default:
        mon.check('accuracy' in table.columns, 'table', 'no accuracy column by default')
    mon.check(sorted(int(v) for v in table.index) == list(range(n_split)), 'table', 'rows %s for %d splits' % (list(table.index), n_split))
    for nm in plain:
        mon.check(list(table.columns).count(nm) == 1 and int(table[nm].notna().sum()) == n_split, 'table',
                  'metric %s is not reported once per split' % nm)
    # splits depend only on their index
    again = Recorder(rng)
    np.random.seed(int(rng.integers(0, 1000)))
    random.seed(3)
    m = int(rng.integers(1, 6)) if n_split < 6 else n_split - int(rng.integers(0, 3))
    evaluate('D', m, again)
    for i in range(min(m, n_split)):
        a, b = log[i], again.log[i]
        mon.check([key(x) for x in a['X']] == [key(x) for x in b['X']] and np.array_equal(a['y'], b['y'])
                  and [key(x) for x in a['preds'][0][0]] == [key(x) for x in b['preds'][0][0]], 'index-only',
                  'split %d differs between two runs (of %d and %d splits)' % (i, n_split, m))
        mon.count('splits_repeated')
    from math import comb
    ways = np.prod([float(comb(int((ea == c).sum() + (eb == c).sum()), int((ea == c).sum()))) for c in np.unique(ea)])
    if ways > 1e12 and not hostile and len(set(q for q, _ in pool)) == len(pool):
        sets = [frozenset(key(x) for x in r['X']) for r in log]
        mon.check(len(set(sets)) == len(sets), 'not-resampled', 'two of the splits have the same training part')
        mon.count('distinct_splits', len(sets))

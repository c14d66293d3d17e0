"""Monitor of the ridge classifier against scaling + ridge regression computed from its own shapelet features."""
import numpy as np
from vlib import env, gen, ref, work, nbrt
from vlib.runner import Skip

ID = 'C17'
RULE = ('one evaluation = one set of predictions (or a score) judged against the classifier computed independently from '
        'the features; distinct = (kind, labels, options, constant features or not, what was predicted)')
BUDGET = {'quick': (900, 90), 'thorough': (12000, 780)}
CHUNK = 3
ASSUMPTIONS = ['the ridge regression itself is a trusted dependency (a stand-in with the contract of the original: '
               'leave-one-out choice of the regularisation); a prediction is judged when the two best decision values '
               'differ by more than 1e-7 relative']
LABELS = [[0, 1], [1, 2], [-1, 1], [5, 7, 9], [0, 1, 2, 3], [10, -4, 3], [100, 2], [3, 1, 2]]


def prepare(tier):
    env.setup()


def case(rng, tier, mon):
    import sklearn
    from convst.classifiers import R_DST_Ridge
    from sklearn.linear_model import RidgeClassifierCV
    kind = gen.KINDS[mon.idx % 4]
    labs = LABELS[int(rng.integers(0, len(LABELS)))]
    k = len(labs)
    n = int(rng.integers(2 * k, 4 * k + 6))
    y = rng.permutation(np.array([labs[i % k] for i in range(n)]))
    if rng.random() < 0.25:      # skewed, with singletons
        y[:] = labs[0]
        y[:k - 1] = labs[1:]
    T = int(rng.integers(6, 22))
    nft = 1 if kind in ('u', 'uv') else int(rng.integers(2, 4))
    var = kind in ('uv', 'mv')
    fam = str(rng.choice(['normal', 'walk', 'ints', 'sine', 'spikes', 'huge', 'tiny', 'offset']))

    def series(c, t):
        x = np.stack([gen.series(rng, t, fam) for _ in range(nft)])
        return x + (np.abs(x).max() + 1) * 0.4 * labs.index(c) * rng.random(t)

    def make(labels):
        X = [series(c, int(rng.integers(T, T + 7)) if var else T) for c in labels]
        return X if var else np.stack(X)
    X = make(y)
    if var:
        X[0] = X[0][:, :T].copy()       # no test series is shorter than all training series
    yt = rng.choice(labs, size=int(rng.integers(2, 9)))
    Xt = make(yt)
    if rng.random() < 0.3:
        Xt = [x * 50 + 3 for x in Xt] if var else Xt * 50 + 3
    Lmax = min(gen.true_lengths(X))
    L = [[2], [3, 4], [Lmax], [max(2, Lmax // 2)], [2, Lmax]][int(rng.integers(0, 5))]
    opts = dict(alphas_ridge=[[0.1, 1.0, 10.0], [1e-3], [100.0], [1e4, 1e-2], [0.5, 5.0]][int(rng.integers(0, 5))],
                fit_intercept=bool(rng.integers(0, 2)),
                class_weight=[None, 'balanced', {c: float(i + 1) for i, c in enumerate(labs)}][int(rng.integers(0, 3))])
    if rng.random() < 0.2:
        opts = {}
    p = dict(shapelet_lengths=L, n_shapelets=int(rng.choice([3, 10, 40])), random_state=int(rng.integers(0, 1 << 30)),
             phase_invariance=bool(rng.integers(0, 2)), normalize_output=bool(rng.integers(0, 2)),
             alpha=float(rng.choice([0.0, 0.5])), n_jobs=int(rng.choice([1, 4])))
    nbrt.reset(entropy=int(rng.integers(0, 1 << 30)))
    model = R_DST_Ridge(**dict(p, **opts))
    Xc, yc = gen.copy_data(X), y.copy()
    mon.describe(kind=kind, family=fam, labels=labs, n=n, T=T, params=p, options=opts)
    try:
        model.fit(X, y)
    except ValueError as e:
        if 'feature' in str(e):
            raise Skip
        raise
    mon.check(all(np.array_equal(a, b) for a, b in zip(X, Xc)) and np.array_equal(y, yc), 'input-modified',
              'fit modified its input')
    F = np.asarray(model.transformer.transform(X), float)
    Ft = np.asarray(model.transformer.transform(Xt), float)
    keep = np.where((F != F[0]).any(axis=0))[0]
    if len(keep) == 0:
        raise Skip
    mu, sd = F[:, keep].mean(axis=0), F[:, keep].std(axis=0)
    sd = np.where((sd == 0) | (sd < 10 * np.finfo(float).eps * np.abs(mu)), 1.0, sd)
    al = opts.get('alphas_ridge', list(np.logspace(-4, 4, 20)))
    want = RidgeClassifierCV(alphas=al, class_weight=opts.get('class_weight'), fit_intercept=opts.get('fit_intercept', True))
    want.fit((F[:, keep] - mu) / sd, y)
    n_const = F.shape[1] - len(keep)
    mon.count('constant_features_dropped', n_const)
    osig = (kind, k, str(opts), n_const > 0)

    def judge(Z, FZ, what):
        sklearn.EVENTS.clear()
        sklearn.RECORD[0] = True
        try:
            got = np.asarray(model.predict(Z))
        finally:
            sklearn.RECORD[0] = False
        ev = [e for e in sklearn.EVENTS if e['kind'] == 'decision']
        S = (FZ[:, keep] - mu) / sd
        d = np.asarray(want.decision_function(S))
        mon.check(got.shape == (len(FZ),), 'shape', 'predictions of shape %s for %d series' % (got.shape, len(FZ)))
        mon.check(np.isin(got, y).all(), 'label', 'predicted labels %s, trained on %s' % (got, np.unique(y)))
        sc = np.abs(d).max() + 1.0
        if ev and ev[-1]['out'].size == d.size:
            o = ev[-1]['out'].reshape(d.shape)
            bad = np.abs(o - d) > 1e-5 * (np.abs(d) + 1.0)
            mon.check(not bad.any(), 'decision-' + what, 'decision values %s, expected %s (%s)' % (
                o.ravel()[:4], d.ravel()[:4], what), params=p, options=opts, constant=n_const)
            mon.count('decision_values', d.size)
        if d.ndim == 1:
            exp, sure = want.classes_[(d > 0).astype(int)], np.abs(d) > 1e-7 * sc
        else:
            q = np.sort(d, axis=1)
            exp, sure = want.classes_[d.argmax(axis=1)], q[:, -1] - q[:, -2] > 1e-7 * sc
        mon.check(np.array_equal(got[sure], exp[sure]), 'prediction-' + what, 'predictions %s, expected %s (%s)' % (
            got, exp, what), params=p, options=opts, constant=n_const)
        mon.ev(osig + (what,))
        mon.count('predictions', len(got))
        return got

    a = judge(Xt, Ft, 'test')
    judge(X, F, 'train')
    i = int(rng.integers(0, len(yt)))
    one = judge(Xt[i:i + 1], Ft[i:i + 1], 'single')
    mon.check(one[0] == a[i], 'batch', 'series %d is predicted %s in a batch and %s alone' % (i, a[i], one[0]))
    b = judge(Xt, Ft, 'repeated')
    mon.check(np.array_equal(a, b), 'repeat', 'two predictions of the same series differ')
    s = model.score(Xt, yt)
    mon.check(abs(s - np.mean(b == yt)) < 1e-12, 'score', 'score %r, %d of %d predictions are correct' % (
        s, (b == yt).sum(), len(yt)))
    mon.ev(osig + ('score', round(float(s), 2)))
    # labels the training series did not have count as wrong predictions, in any container
    yu = np.array(yt)
    yu[rng.random(len(yu)) < 0.4] = int(rng.choice([max(labs) + 1, min(labs) - 1, 77]))
    for v in (yu, list(yu), yu.astype('int32'), yu.astype(float)):
        s = model.score(Xt, v)
        mon.check(abs(s - np.mean(b == yu)) < 1e-12, 'score', 'score %r, %d of %d predictions are correct (with unseen '
                  'labels, %s)' % (s, (b == yu).sum(), len(yu), type(v)))
    mon.count('unseen_labels_scored', len(yu))
    s1 = model.score(X, y)
    mon.check(abs(s1 - np.mean(np.asarray(model.predict(X)) == y)) < 1e-12, 'score', 'training score %r' % s1)

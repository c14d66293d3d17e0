"""Monitor of the ensemble: members observed at the transformer boundary, weights and votes recomputed."""
import numpy as np
from vlib import env, gen, ref, work, nbrt
from vlib.runner import Skip

ID = 'C18'
RULE = ('one evaluation = one set of ensemble predictions (or of member weights) compared with the weighted vote computed '
        'from the members; distinct = (kind, labels, members, exponent, jobs, schedule)')
BUDGET = {'quick': (420, 110), 'thorough': (6000, 780)}
CHUNK = 2
ASSUMPTIONS = ['ridge regression with stored leave-one-out predictions is a trusted dependency (a stand-in of the same '
               'contract); a vote is judged when the two best sums differ by more than 1e-7']
LABELS = [[0, 1], [1, 2], [-1, 1], [5, 7, 9], [0, 1, 2, 3], [10, -4, 3], [100, 2], [2, 1], [0.5, 1.5], [3, 1, 2, 8]]


def prepare(tier):
    env.setup()


def view(name):
    from scipy.signal import periodogram
    if name == 'raw':
        return lambda x: np.asarray(x, float)
    if name.startswith('diff'):
        return lambda x: np.diff(np.asarray(x, float), n=int(name[4:]))
    if name.startswith('per-'):
        return lambda x: np.stack([periodogram(c, detrend=False, window=name[4:])[1] for c in np.asarray(x, float)])
    if name == 'znorm':
        return lambda x: (np.asarray(x, float) - np.mean(x, axis=1, keepdims=True)) / (np.std(x, axis=1, keepdims=True) + 1e-8)
    raise KeyError(name)


def apply(f, X):
    out = [f(x) for x in X]
    return out if isinstance(X, list) else np.stack(out)


def build(name):
    from convst.transformers import _input_transformers as it
    if name == 'raw':
        return it.Raw()
    if name.startswith('diff'):
        return it.Derivate(order=int(name[4:]))
    if name.startswith('per-'):
        return it.Periodigram(window_type=name[4:])
    return it.Z_normalizer()


def case(rng, tier, mon):
    import joblib
    from convst.transformers import R_DST
    from convst.classifiers import R_DST_Ensemble
    from sklearn.linear_model import RidgeClassifierCV
    from sklearn.metrics import make_scorer, accuracy_score
    kind = gen.KINDS[mon.idx % 4]
    var = kind in ('uv', 'mv')
    labs = LABELS[int(rng.integers(0, len(LABELS)))]
    k = len(labs)
    n = int(rng.integers(2 * k + 2, 4 * k + 6))
    y = rng.permutation(np.array([labs[i % k] for i in range(n)]))
    T = int(rng.integers(18, 28))
    nft = 1 if kind in ('u', 'uv') else int(rng.integers(2, 4))
    fam = str(rng.choice(['normal', 'walk', 'ints', 'sine']))
    stored = str(rng.choice(['int8', 'uint8', 'uint16', 'int32', 'uint64', 'float32', '>f8'])) if rng.random() < 0.2 else None
    sep = float(rng.choice([0.0, 0.3, 1.0]))

    def series(c, t):
        x = np.stack([gen.series(rng, t, fam) for _ in range(nft)])
        return x + (np.abs(x).max() + 1) * sep * labs.index(c) * np.sin(np.arange(t) * (1 + labs.index(c)))

    def make(labels):
        X = [series(c, int(rng.integers(T, T + 7)) if var else T) for c in labels]
        if stored:
            X = [np.rint(x / np.abs(x).max() * 60 + 62).astype(stored) for x in X]
        return X if var else np.stack(X)
    X = make(y)
    if var:
        X[0] = X[0][:, :T].copy()
    yt = rng.choice(labs, size=int(rng.integers(3, 12)))
    Xt = make(yt)
    sets = [None, ['raw'], ['raw', 'diff2'], ['raw', 'raw'], ['per-hann', 'diff1', 'raw', 'per-boxcar'], ['diff1', 'diff1']]
    if not var:
        sets.append(['raw', 'znorm'])
    names = sets[int(rng.integers(0, len(sets)))] if rng.random() < 0.6 else None
    if stored:
        names = [['raw'], ['raw', 'diff2'], ['diff1', 'raw', 'diff3'], ['diff1', 'diff1']][int(rng.integers(0, 4))]
        mon.count('stored_as_' + stored)
    real = names or ['raw', 'diff1', 'per-boxcar']
    opts = {}
    if rng.random() < 0.6:
        opts = dict(alphas_ridge=[[0.1, 1.0, 10.0], [1e-3], [100.0], [1e2, 1e-2]][int(rng.integers(0, 4))],
                    fit_intercept=bool(rng.integers(0, 2)),
                    class_weight=[None, 'balanced', {c: float(i + 1) for i, c in enumerate(labs)}][int(rng.integers(0, 3))])
    aw = [0, 1, 4, 4, 10, 0.5, 2.5, 0.25, 1.75, 4.0, 0.0][int(rng.integers(0, 11))]
    jobs = int(rng.choice([1, 2, 3, 8, -1]))
    p = dict(shapelet_lengths=[int(rng.integers(3, 6))], n_shapelets_per_estimator=int(rng.choice([4, 12, 24])),
             random_state=int(rng.integers(0, 1 << 30)), phase_invariance=bool(rng.integers(0, 2)),
             normalize_output=bool(rng.integers(0, 2)), a_w=aw, n_jobs=jobs)
    if names:
        p.update(input_transformers=[build(v) for v in names],
                 proba_norm=[float(v) for v in rng.choice([0.0, 0.5, 0.8, 1.0], size=len(names))])
    nbrt.reset(entropy=int(rng.integers(0, 1 << 30)))
    joblib.MODE[0] = str(rng.choice(['seq', 'rev', 'perm', 'threads']))
    joblib.SEED[0] = int(rng.integers(0, 1000))
    mon.describe(kind=kind, labels=labs, n=n, members=real, family=fam, options=opts, params={a: b for a, b in p.items()
                 if a != 'input_transformers'}, jobs_mode=joblib.MODE[0])
    model = R_DST_Ensemble(**dict(p, **opts))
    members = {}
    fit = R_DST.fit

    def spy(s, V, yy, *a, **kw):
        Vc = gen.copy_data(V)
        r = fit(s, V, yy, *a, **kw)
        members[id(s)] = (s, Vc, np.array(yy))
        return r
    R_DST.fit = spy
    Xc, yc = gen.copy_data(X), y.copy()
    try:
        model.fit(X, y)
    finally:
        R_DST.fit = fit
    mon.check(all(np.array_equal(a, b) for a, b in zip(X, Xc)) and np.array_equal(y, yc), 'input-modified',
              'fit modified its input')
    ms = list(members.values())
    mon.check(len(ms) == len(real), 'members', '%d members for %d input transformations' % (len(ms), len(real)))
    # every member is fitted on the view of one transformation, each transformation is used once
    left, votes, weights, views = list(real), 0, {}, []
    for s, V, yy in ms:
        mon.check(np.array_equal(yy, y), 'member-labels', 'a member is fitted on other labels')
        hit = None
        for nm in left:
            E = [view(nm)(x) for x in X]
            if len(E) == len(V) and all(np.shape(e) == np.shape(v) and np.allclose(e, v, rtol=1e-9, atol=1e-10)
                                        for e, v in zip(E, V)):
                hit = nm
                break
        mon.check(hit is not None, 'member-view', 'a member is fitted on a view that is none of %s' % left)
        left.remove(hit)
        views.append(hit)
    for i in range(len(ms)):
        for j in range(i):
            if p['n_shapelets_per_estimator'] >= 12:
                a, b = ref.snapshot(ms[i][0]), ref.snapshot(ms[j][0])
                mon.check(not (len(a[1]) == len(b[1]) and np.array_equal(a[2], b[2]) and np.array_equal(a[4], b[4])),
                          'members-dependent', 'two members drew the same dilations and normalisations')
    al = opts.get('alphas_ridge', list(np.logspace(-4, 4, 20)))
    total, sure_w = 0, []
    for (s, V, yy), nm in zip(ms, views):
        F = np.asarray(s.transform(V), float)
        mu, sd = F.mean(axis=0), F.std(axis=0)
        sd = np.where((sd == 0) | (sd < 10 * np.finfo(float).eps * np.abs(mu)), 1.0, sd)
        r = RidgeClassifierCV(alphas=al, class_weight=opts.get('class_weight'), store_cv_values=True,
                              scoring=make_scorer(accuracy_score), fit_intercept=opts.get('fit_intercept', True))
        r.fit((F - mu) / sd, y)
        ia = [i for i, a in enumerate(al) if a == r.alpha_][0]
        loo = r.cv_values_[:, :, ia]
        pl = r.classes_[(loo[:, 0] > 0).astype(int)] if loo.shape[1] == 1 else r.classes_[loo.argmax(axis=1)]
        acc = float(np.mean(pl == y))
        near = np.abs(loo[:, 0]) if loo.shape[1] == 1 else np.diff(np.sort(loo, axis=1)[:, -2:], axis=1).ravel()
        w = acc ** aw
        sure_w.append((w, near.min() > 1e-7, nm))
        Ft = np.asarray(s.transform(apply(view(nm), Xt)), float)
        d = np.asarray(r.decision_function((Ft - mu) / sd))
        if d.ndim == 1:
            d = np.c_[-d, d]
        e = np.exp(d - d.max(axis=1, keepdims=True))
        total = total + w * e / e.sum(axis=1, keepdims=True)
        mon.count('members')
        mon.count('loo_accuracy_below_1', acc < 1)
    classes = np.unique(y)
    if getattr(model, 'model_weights', None) is not None and all(s for _, s, _ in sure_w):
        got = sorted(float(v) for v in np.ravel(model.model_weights))
        mon.check(len(got) == len(sure_w) and np.allclose(got, sorted(w for w, _, _ in sure_w), rtol=1e-6, atol=1e-12),
                  'weights', 'member weights %s, expected %s (leave-one-out accuracy ** %s)' % (
                      got, sorted(w for w, _, _ in sure_w), aw), options=opts)
        mon.ev((kind, k, len(ms), aw, 'weights', str(opts)))
    for mode in ('same', 'other'):
        if mode == 'other':
            joblib.MODE[0] = str(rng.choice(['seq', 'rev', 'perm', 'threads']))
        pr = np.asarray(model.predict(Xt))
        mon.check(pr.shape == (len(yt),), 'shape', 'predictions of shape %s' % (pr.shape,))
        mon.check(np.isin(pr, y).all(), 'labels', 'predicted labels %s, trained on %s' % (pr, classes))
        if all(s for _, s, _ in sure_w):
            q = np.sort(total, axis=1)
            sure = q[:, -1] - q[:, -2] > 1e-7
            exp = classes[total.argmax(axis=1)]
            mon.check(np.array_equal(pr[sure], exp[sure]), 'vote', 'predictions %s, expected %s from the weighted vote' % (
                pr, exp), weights=sure_w, options=opts, params={a: b for a, b in p.items() if a != 'input_transformers'})
            mon.count('votes', int(sure.sum()))
        mon.ev((kind, k, len(ms), aw, jobs, joblib.MODE[0]))
    joblib.MODE[0] = 'seq'
    sc = model.score(Xt, yt) if hasattr(model, 'score') else None
    if sc is not None:
        mon.check(abs(sc - np.mean(pr == yt)) < 1e-12, 'score', 'score %r' % sc)

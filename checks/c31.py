"""Monitor of the estimator protocol: clones, changed parameters and copies behave as freshly built estimators do."""
import copy
import inspect
import io
import pickle
import numpy as np
from vlib import env, gen, nbrt, ref, work

ID = 'C31'
RULE = ('one evaluation = one clone, reparameterised estimator or copy compared with a freshly built estimator; distinct = '
        '(estimator, operation, kind, parameters given explicitly)')
BUDGET = {'quick': (560, 50), 'thorough': (12000, 780)}
CHUNK = 2
ASSUMPTIONS = ['cloning and parameter access are those of scikit-learn (a stand-in of the same contract, which refuses to '
               'clone an estimator whose constructor replaces its arguments)',
               'compiled functions are pickled by reference, as the compiler does']


def prepare(tier):
    env.setup()


class _P(pickle.Pickler):
    def persistent_id(self, o):
        if isinstance(o, nbrt.Dispatcher):
            KEEP[id(o)] = o
            return id(o)


class _U(pickle.Unpickler):
    def persistent_load(self, i):
        return KEEP[i]


KEEP = {}
FIRST = {}
# the defaults the docstrings announce
DOC = dict(transform_type='auto', phase_invariance=False, alpha=0.5, normalize_output=False, n_samples=None, n_shapelets=10000,
           shapelet_lengths=[11], shapelet_lengths_bounds=None, lengths_bounds_reduction=0.5, prime_dilations=False, proba_norm=0.8,
           percentiles=[5, 10], random_state=None, max_channels=None, min_len=None, n_jobs=1, class_weight=None, fit_intercept=True)


def pickled(o):
    b = io.BytesIO()
    _P(b).dump(o)
    b.seek(0)
    return _U(b).load()


def equal(a, b):
    if isinstance(a, (list, tuple, np.ndarray)) or isinstance(b, (list, tuple, np.ndarray)):
        if a is None or b is None:
            return False
        a, b = list(a), list(b)
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if hasattr(a, 'get_params'):
        return type(a) is type(b) and all(equal(v, b.get_params()[k]) for k, v in a.get_params().items())
    return a == b


def plain(p):
    """arguments as a fresh set of objects"""
    return {k: copy.deepcopy(v) for k, v in p.items()}


def params(rng, base, min_len, nft, kind):
    """Every parameter of the constructor, or some of them."""
    p = gen.rdst_params(rng, min_len, nft, kind, n_shp=int(rng.choice([3, 8, 15])))
    p['normalize_output'] = bool(rng.integers(0, 2))
    p['n_jobs'] = [1, 2, 3, -1, None][int(rng.integers(0, 5))]
    if rng.random() < .2:
        p['n_samples'] = float(rng.choice([0.5, 0.8, 1.0]))
    if rng.random() < .3:
        p['transform_type'] = gen.TYPE[kind] if base == 'rdst' or rng.random() < .5 else 'auto'
    for k in ('shapelet_lengths', 'percentiles'):
        if k in p:
            p[k] = list(p[k]) if rng.random() < .6 else np.array(p[k])
    if base == 'ridge':
        if rng.random() < .5:
            p.update(alphas_ridge=[[0.1, 1.0, 10.0], [1e-3], np.array([10., 1e3])][int(rng.integers(0, 3))],
                     fit_intercept=bool(rng.integers(0, 2)), class_weight=[None, 'balanced'][int(rng.integers(0, 2))])
    if base == 'ensemble':
        from convst.transformers import _input_transformers as it
        p['n_shapelets_per_estimator'] = p.pop('n_shapelets')
        p['shp_alpha'] = p.pop('alpha')
        pn = p.pop('proba_norm')
        if rng.random() < .6:
            t = [[it.Raw()], [it.Raw(), it.Derivate(order=2)], [it.Derivate(), it.Raw(), it.Periodigram(window_type='hann')],
                 [it.Periodigram()]][int(rng.integers(0, 4))]
            p['input_transformers'] = t
            p['proba_norm'] = [float(v) for v in rng.choice([0.0, 0.5, 1.0], size=len(t))]
        elif rng.random() < .5:
            p['proba_norm'] = [pn, 0.5, 1.0]
        p['a_w'] = [4, 1, 0.5][int(rng.integers(0, 3))]
    for k in list(p):
        if rng.random() < .15 and k not in ('random_state', 'n_shapelets', 'n_shapelets_per_estimator', 'shapelet_lengths',
                                            'shapelet_lengths_bounds', 'input_transformers', 'proba_norm'):
            del p[k]
    return p


def shared(rng, mon, kind, X, y, Xt):
    """the transformations given to an ensemble belong to the user: other ensembles may be given the same"""
    from sklearn.base import BaseEstimator, TransformerMixin
    from convst.classifiers import R_DST_Ensemble
    from convst.transformers import _input_transformers as it

    class Center(BaseEstimator, TransformerMixin):
        def fit(self, X, y=None):
            self.mean_ = np.mean([np.mean(x) for x in X])
            return self

        def transform(self, X):
            return [np.asarray(x) - self.mean_ for x in X] if isinstance(X, list) else X - self.mean_

        def fit_transform(self, X, y=None):
            return self.fit(X, y).transform(X)
    mine = [[Center()], [it.Raw(), Center()], [it.Derivate(random=True)], [Center(), it.Periodigram(random=True)]][int(rng.integers(0, 4))]
    before = [dict(t.get_params(deep=False)) for t in mine]
    p = dict(n_shapelets_per_estimator=8, shapelet_lengths=[3], shp_alpha=0.0, input_transformers=mine,
             proba_norm=[float(rng.choice([0.0, 0.5]))] * len(mine), random_state=int(rng.integers(0, 99)))
    if len(mine) > 1:
        p['proba_norm'][0] = 1.0
    far = [np.asarray(x) * 3 + 1000 for x in X] if isinstance(X, list) else X * 3 + 1000
    state = np.random.get_state()
    np.random.seed(int(rng.integers(0, 1 << 30)))
    try:
        a = R_DST_Ensemble(**p).fit(gen.copy_data(X), y.copy())
        was = np.asarray(a.predict(gen.copy_data(Xt)))
        for _ in range(int(rng.integers(1, 3))):
            R_DST_Ensemble(**p).fit(gen.copy_data(far), np.asarray(y)[::-1].copy())
        now = np.asarray(a.predict(gen.copy_data(Xt)))
    finally:
        np.random.set_state(state)
    mon.check(np.array_equal(was, now), 'shared-transformers', 'fitting an ensemble given the same input transformers changes the '
              'predictions of the first', before=was, after=now)
    mon.check(all(t.get_params(deep=False) == b for t, b in zip(mine, before)), 'shared-transformers',
              'fitting an ensemble changed the parameters of the input transformers it was given', before=before)
    mon.ev(('shared', kind, tuple(type(t).__name__ for t in mine), len(set(was.tolist()))))


def transformers(rng, mon):
    """The transformations of input series follow the same protocol."""
    from sklearn.base import clone
    from convst.transformers import _input_transformers as it
    X = rng.normal(size=(int(rng.integers(2, 6)), int(rng.integers(1, 3)), int(rng.integers(12, 40)))).cumsum(axis=-1)
    which = mon.idx // 8 % 6
    n = lambda a: a[int(rng.integers(0, len(a)))]
    C, p, q = [
        (it.Raw, {}, {}),
        (it.Derivate, dict(order=n([1, 2, 3])), dict(order=n([1, 4]))),
        (it.Periodigram, dict(window_type=n(['hann', 'boxcar', 'tukey'])), dict(window_type='bartlett')),
        (it.FastHankelTransform, dict(dln=n([0.01, 0.05]), mu=n([0, 1, 2]), offset=n([0.0, 0.01]), bias=n([0.0, 0.1]),
                                      use_optimal_offset=n([True, False])), dict(dln=0.02)),
        (it.Z_normalizer, {}, {}),
        (it.c_StandardScaler, dict(with_mean=n([True, False])), {}),
    ][which]
    if which in (3, 5):
        X = X[:, 0]
    name = C.__name__
    mon.describe(transformer=name, params=p, before=q, shape=X.shape)
    run = lambda t, fit=True: np.asarray((t.fit(X.copy()) if fit else t).transform(X.copy()))
    eq = lambda a, b: a.shape == b.shape and np.array_equal(a, b, equal_nan=True)
    try:
        t = C(**p)
        mon.check(all(t.get_params()[k] == v for k, v in p.items()), name + '-params', 'parameters %r, given %r' % (t.get_params(), p))
        want = run(t)
        got = dict(clone=run(clone(t)), set_params=run(C(**q).set_params(**{k: t.get_params()[k] for k in dict(p, **q)})),
                   used=run(C(**q).fit(X[::-1].copy()).set_params(**{k: t.get_params()[k] for k in dict(p, **q)})),
                   deepcopy=run(copy.deepcopy(t), False), pickle=run(pickled(t), False), fit_transform=np.asarray(C(**p).fit_transform(X.copy())))
    except Exception as x:
        mon.fail(name + '-refused', '%s: %s: %s' % (name, type(x).__name__, str(x)[:300]))
    for k, v in got.items():
        mon.check(eq(v, want), name + '-' + k, '%s: %s gives something else' % (name, k))
        mon.ev((name, k, tuple(p.items())))
    mon.check(all(t.get_params()[k] == v for k, v in p.items()), name + '-params', 'parameters changed to %r, given %r' % (t.get_params(), p))


def case(rng, tier, mon):
    if mon.idx % 8 == 7:
        return transformers(rng, mon)
    mon.idx -= mon.idx // 8
    import joblib
    from sklearn.base import clone as sk_clone
    from convst.transformers import R_DST
    from convst.classifiers import R_DST_Ridge, R_DST_Ensemble
    base = ['rdst', 'ridge', 'rdst', 'ensemble', 'rdst', 'ridge', 'rdst'][mon.idx % 7]
    C = dict(rdst=R_DST, ridge=R_DST_Ridge, ensemble=R_DST_Ensemble)[base]
    kind = gen.KINDS[(mon.idx // 7) % 4]
    nft = 1 if kind in ('u', 'uv') else int(rng.integers(2, 4))
    joblib.MODE[0] = 'seq'
    T = int(rng.integers(18, 26)) if base == 'ensemble' else int(rng.integers(9, 20))

    def data(kind, T, nft, n):
        if kind in ('uv', 'mv'):
            X = [np.stack([gen.series(rng, int(t), 'normal') for _ in range(nft)]) for t in rng.integers(T, T + 5, size=n)]
        else:
            X = rng.normal(size=(n, nft, T))
        return X, rng.permutation(np.arange(n) % 2)
    n = int(rng.integers(6, 10))
    X, y = data(kind, T, nft, n)
    Xt = X if kind in ('uv', 'mv') else np.concatenate([X[:2], rng.normal(size=(2, nft, T))])
    if base == 'ensemble':        # transformed views are shorter
        p = params(rng, base, 8, nft, kind)
        p.pop('min_len', None)
    else:
        p = params(rng, base, min(gen.true_lengths(X)), nft, kind)
    if kind in ('u', 'uv') and rng.random() < .4:      # not what would be recognised
        p['transform_type'] = gen.TYPE[{'u': 'm', 'uv': 'mv'}[kind]]
    ent = int(rng.integers(0, 1 << 30))
    # what the constructor stores when nothing is given, before anything was fitted in this process
    if C not in FIRST:
        FIRST[C] = copy.deepcopy(C().get_params(deep=False))
    defaults = copy.deepcopy(FIRST[C])
    mon.check(set(defaults) == {k for k in inspect.signature(C.__init__).parameters if k != 'self'}, 'constructor-params',
              'parameters %s' % sorted(defaults))
    for k, d in DOC.items():
        if base == 'ensemble' and k == 'proba_norm':
            mon.check(defaults[k] is None or all(float(v) == d for v in defaults[k]), base + '-documented-default',
                      'default of %s is %r, documented %r' % (k, defaults[k], d))
        elif k in defaults and not (defaults[k] is None and d is not None):
            mon.check(equal(defaults[k], d), base + '-documented-default', 'default of %s is %r, documented %r' % (k, defaults[k], d))
            mon.count('documented_defaults')
    given = plain(p)
    mon.describe(estimator=base, kind=kind, params=given, n=n, T=T)

    def call(what, f, *a, **k):
        try:
            return f(*a, **k)
        except Exception as x:
            mon.fail(base + '-' + what + '-refused', '%s: %s: %s' % (what, type(x).__name__, str(x)[:300]), params=given)

    def clone(e):
        return call('clone', sk_clone, e)

    def outcome(e, X=X, y=y, Xt=Xt, fit=True, what='fit'):
        return call(what, _outcome, e, X, y, Xt, fit)

    def _outcome(e, X, y, Xt, fit):
        nbrt.reset(entropy=ent)
        if fit:
            e.fit(gen.copy_data(X), y.copy())
        if base == 'rdst':
            return [ref.snapshot(e), np.asarray(e.transform(gen.copy_data(Xt)))]
        if base == 'ridge':
            return [ref.snapshot(e.transformer), np.asarray(e.transformer.transform(gen.copy_data(Xt))), np.asarray(e.predict(gen.copy_data(Xt)))]
        return [np.asarray(e.predict(gen.copy_data(Xt))), np.asarray(e.model_weights, float)]

    def same(a, b):
        return len(a) == len(b) and all(ref.same_shapelets(u, v) if isinstance(u, list) else u.shape == v.shape and np.array_equal(u, v)
                                        for u, v in zip(a, b))

    def values(e, what, but=()):
        g = e.get_params(deep=False)
        mon.check(set(g) == set(defaults), what + '-params', 'parameters %s, the constructor has %s' % (sorted(g), sorted(defaults)))
        for k, d in defaults.items():
            want = given.get(k, d)
            if k in but:
                continue
            if k == 'input_transformers' and want is None:
                continue
            if k == 'proba_norm' and base == 'ensemble' and k not in given:
                continue
            mon.check(equal(g[k], want), what + '-params', '%s: parameter %s is %r, given %r' % (what, k, g[k], want), params=given)

    def unfitted(e, what):
        try:
            (e.transform if base == 'rdst' else e.predict)(gen.copy_data(Xt))
        except Exception:
            return
        mon.fail(what + '-fitted', '%s is fitted already' % what)

    e = call('constructor', C, **plain(p))
    values(e, 'constructor')
    c = clone(e)
    values(c, 'clone')
    unfitted(c, 'clone')
    got = outcome(e)
    values(e, 'fitted', but=('transform_type',) if base == 'rdst' else ())
    mon.check(same(outcome(c), got), base + '-clone', 'a clone fits to something else than the original', params=given)
    mon.ev((base, 'clone', kind, tuple(sorted(given))))
    op = mon.idx // 28 % 4
    if op == 0:                           # a clone of a fitted estimator
        c = clone(e)
        unfitted(c, 'clone of a fitted estimator')
        mon.check(same(outcome(c), got), base + '-clone-fitted', 'a clone of a fitted estimator fits to something else', params=given)
        mon.ev((base, 'clone-fitted', kind, len(given)))
    elif op == 1:                         # parameters changed after construction
        q = params(rng, base, 8 if base == 'ensemble' else min(gen.true_lengths(X)), nft, kind)
        if base == 'ensemble':
            for k in ('input_transformers', 'proba_norm'):
                q.pop(k, None)
                if k in given:
                    q[k] = copy.deepcopy(given[k])
        o = C(**plain(q))
        if rng.random() < .5:
            o.fit(gen.copy_data(X), y.copy())
        new = {k: copy.deepcopy(given.get(k, d)) for k, d in defaults.items() if k in given or k in q}
        if base == 'ensemble':
            new.pop('input_transformers', None)
            new.pop('proba_norm', None)
        r = call('set_params', o.set_params, **new)
        mon.check(r is o, base + '-set_params', 'set_params does not return the estimator')
        mon.check(same(outcome(o), got), base + '-set_params', 'an estimator whose parameters were set fits to something else than '
                  'one built with them', set=new, before=q)
        c = call('clone after set_params', clone, o)
        for k, v in new.items():
            if not (base == 'rdst' and k == 'transform_type'):
                mon.check(equal(c.get_params(deep=False)[k], v), base + '-set_params', 'a clone loses %s=%r set with set_params' % (k, v))
        mon.ev((base, 'set_params', kind, tuple(sorted(new))))
    else:                                 # copies of a fitted estimator
        how = 'deepcopy' if op == 2 else 'pickle'
        c = call(how, copy.deepcopy if op == 2 else pickled, e)
        mon.check(same(outcome(c, fit=False), got), base + '-' + how, 'a copy (%s) of a fitted estimator gives something else' % how,
                  params=given)
        X2, y2 = data(kind, T + 1, nft, n + 1)
        outcome(c, X2, y2, X2)
        mon.check(same(outcome(e, fit=False), got), base + '-' + how, 'fitting a copy (%s) changes the original' % how, params=given)
        mon.ev((base, how, kind, len(given)))
    if base == 'ensemble':
        shared(rng, mon, kind, X, y, Xt)
    # shortcuts
    if base == 'rdst':
        nbrt.reset(entropy=ent)
        f = np.asarray(C(**plain(p)).fit_transform(gen.copy_data(X), y.copy()))
        e2 = C(**plain(p))
        outcome(e2)
        g = np.asarray(e2.transform(gen.copy_data(X)))
        mon.check(f.shape == g.shape and np.array_equal(f, g), 'fit_transform', 'fit_transform differs from fit and transform')
        mon.ev((base, 'fit_transform', kind))
    elif hasattr(e, 'score'):
        yt = rng.permutation(np.arange(len(Xt)) % 2)
        s = e.score(gen.copy_data(Xt), yt)
        pr = np.asarray(e.predict(gen.copy_data(Xt)))
        mon.check(abs(float(s) - np.mean(pr == yt)) < 1e-12, base + '-score', 'score %r, accuracy of the predictions %r' % (s, np.mean(pr == yt)))
        mon.ev((base, 'score', kind))
    # nothing of this run is left behind in the defaults
    g = C().get_params(deep=False)
    for k, d in defaults.items():
        if k in ('input_transformers', 'proba_norm'):
            continue
        mon.check(equal(g[k], d), base + '-defaults', 'default of %s is %r, was %r' % (k, g[k], d))
    mon.check(all(equal(p[k], given[k]) for k in p), base + '-arguments', 'an argument was modified')
    mon.count('estimators_' + base)

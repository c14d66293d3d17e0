"""Monitor of parameter handling: invalid parameters are refused, equal values given in other types mean the same."""
import copy
import numpy as np
from vlib import env, gen, nbrt, ref, work
from c30 import attempt

ID = 'C32'
RULE = ('one evaluation = one estimator with an invalid parameter observed to raise, or one value written in another type observed '
        'to give the same fit; distinct = (estimator, parameter, value, kind, through the constructor or set_params)')
BUDGET = {'quick': (400, 50), 'thorough': (9000, 600)}
CHUNK = 2
ASSUMPTIONS = ['only values that the code documents as refused are expected to be refused; tuples are accepted or refused']

NOT_BOOL = [0, 1, 'True', None, 0.5, [True], 'no']
NOT_NUM = ['a', '0.5', [0.5], True, None, {}, np.array([1.0])]
NAN = float('nan')
BAD = dict(
    transform_type=['foo', '', 'multi', 'univariate-variable', 'auto ', 3, None, ['auto']],
    phase_invariance=NOT_BOOL, normalize_output=NOT_BOOL, prime_dilations=NOT_BOOL,
    alpha=NOT_NUM, proba_norm=NOT_NUM, n_shapelets=NOT_NUM, lengths_bounds_reduction=NOT_NUM + [1, 1.0, 1.5, 2, np.float64(1)],
    n_samples=['a', [0.5], True],
    percentiles=[[5], [5, 10, 15], [10, 5], [0.2, 0.1], ['a', 'b'], 5, None, [[5, 10]], [5, None], [], '510', [100, 0], np.array([3, 2])],
    shapelet_lengths_bounds=[[3], [3, 4, 5], [], 3, 0.5],
    shapelet_lengths=[[], [[3, 4]], [1], [0], [-3], [3, 1], [5, 4, 0], 'abc', 5, None, ['a', 'b'], np.array(3), np.array([1]), 0.5],
    random_state=['a', 1.5, -1, [], {}],
    n_jobs=[0, 1.5, '2', [1]],
)
# n_jobs is resolved, not checked, by the ensemble's constructor; its proba_norm is one value per transformer
ENSEMBLE = dict(proba_norm=[[0.5], [0.5, 0.5], [0.5] * 4, 0.5, 'abc', None, []], a_w=NOT_NUM, shp_alpha=NOT_NUM,
                n_shapelets_per_estimator=NOT_NUM, input_transformers=[[], ['raw']])


def refused(f):
    return attempt(lambda: len(f()))


def prepare(tier):
    env.setup()


def classes():
    from convst.transformers import R_DST
    from convst.classifiers import R_DST_Ridge, R_DST_Ensemble
    return dict(rdst=R_DST, ridge=R_DST_Ridge, ensemble=R_DST_Ensemble)


def case(rng, tier, mon):
    import joblib
    joblib.MODE[0] = 'seq'
    est = ['rdst', 'rdst', 'ridge', 'rdst', 'ensemble'][mon.idx % 5]
    C = classes()[est]
    kind = gen.KINDS[(mon.idx // 5) % 4]
    nft = 1 if kind in ('u', 'uv') else int(rng.integers(2, 4))
    T = int(rng.integers(18, 26))
    n = int(rng.integers(6, 10))
    if kind in ('uv', 'mv'):
        X = [rng.normal(size=(nft, int(t))) for t in rng.integers(T, T + 5, size=n)]
    else:
        X = rng.normal(size=(n, nft, T))
    y = rng.permutation(np.arange(n) % 2)
    p = dict(shapelet_lengths=[int(rng.integers(3, 7))], random_state=int(rng.integers(0, 1 << 30)))
    p['n_shapelets_per_estimator' if est == 'ensemble' else 'n_shapelets'] = int(rng.integers(3, 12))
    mon.describe(estimator=est, kind=kind, params=p, n=n, T=T)
    ent = int(rng.integers(0, 1 << 30))

    def outcome(e):
        nbrt.reset(entropy=ent)
        e.fit(gen.copy_data(X), y.copy())
        if est == 'rdst':
            return [ref.snapshot(e), np.asarray(e.transform(gen.copy_data(X)))]
        if est == 'ridge':
            return [ref.snapshot(e.transformer), np.asarray(e.predict(gen.copy_data(X)))]
        return [np.asarray(e.predict(gen.copy_data(X))), np.asarray(e.model_weights, float)]

    def same(a, b):
        return all(ref.same_shapelets(u, v) if isinstance(u, list) else u.shape == v.shape and np.array_equal(u, v) for u, v in zip(a, b))

    def bounds(q):
        if q in ('lengths_bounds_reduction',):
            return dict(shapelet_lengths_bounds=[4, 9])
        return {}

    bad = dict(BAD, **ENSEMBLE) if est == 'ensemble' else BAD
    if est == 'ensemble':
        for k in ('alpha', 'n_shapelets', 'n_jobs'):
            bad.pop(k, None)
    names = sorted(bad)
    todo = [(q, v) for q in names for v in bad[q]]
    for k in rng.permutation(len(todo))[:14 if est != 'ensemble' else 8]:
        q, v = todo[int(k)]
        r = refused(lambda: outcome(C(**dict(p, **bounds(q), **{q: copy.deepcopy(v)}) if q not in p else dict(p, **{q: copy.deepcopy(v)}))))
        mon.check(r is None, '%s-accepted' % q, '%s with %s=%r was accepted: %s' % (est, q, v, r), params=p, kind=kind)
        mon.ev((est, q, repr(v), kind))
        mon.count('refused_' + q)
    # through set_params, the parameters that are examined when fitting
    if est != 'ensemble':
        for q, v in [('shapelet_lengths', [1]), ('shapelet_lengths', [4, 0]), ('shapelet_lengths', [[4, 5]]), ('shapelet_lengths', None), ('random_state', 'x'),
                     ('n_shapelets', 2.5), ('n_shapelets', 'a'), ('n_shapelets', None), ('transform_type', 'nothing')]:
            if est == 'ridge' and q == 'n_shapelets' and v == 2.5 or rng.random() < .6:
                continue
            r = refused(lambda: outcome(C(**p).set_params(**{q: v})))
            mon.check(r is None, '%s-accepted' % q, '%s after set_params(%s=%r) was accepted: %s' % (est, q, v, r), params=p, kind=kind)
            mon.ev((est, q, repr(v), kind, 'set'))
    # a series too short for any shapelet of the requested length
    if est == 'rdst':
        t = int(rng.integers(1, 4))
        Xs = [rng.normal(size=(nft, t)) for _ in range(4)]
        Xs = Xs if kind in ('uv', 'mv') else np.array(Xs)
        r = attempt(lambda: C(shapelet_lengths=[int(rng.integers(t + 1, 9))], n_shapelets=4, random_state=0, n_jobs=1).fit(Xs, np.arange(4) % 2))
        mon.check(r is None, 'short-accepted', 'series of %d timestamps and longer shapelets were accepted: %s' % (t, r), kind=kind)
        mon.ev((est, 'short', t, kind))
    # the same value in other types
    alt = dict(
        alpha=(0.5, [np.float64(0.5), np.float32(0.5)]),
        proba_norm=(0.5, [np.float64(0.5), np.float32(0.5)]),
        percentiles=([5, 10], [[5.0, 10.0], np.array([5, 10]), np.array([5.0, 10.0]), [5, 10.0]]),
        lengths_bounds_reduction=(0.5, [np.float64(0.5), np.float32(0.5)]),
        shapelet_lengths_bounds=([4, 8], [(4, 8), np.array([4, 8]), [np.int64(4), np.int64(8)], np.array([4, 8], dtype=np.int16)]),
        shapelet_lengths=([3, 5, 6], [np.array([3, 5, 6]), np.array([3, 5, 6], dtype=np.int32), np.array([3, 5, 6], dtype=np.uint8), np.array([3, 5, 6], dtype=np.int8)]),
        random_state=(7, [np.int64(7), np.int32(7), np.uint8(7)]),
        n_jobs=(1, [None, np.int64(1), 2, -1, 10 ** 6, np.int32(3)]),
        n_shapelets=(9, [np.int64(9), np.int32(9), 9.0, np.float64(9)]),
        n_samples=(0.5, [np.float64(0.5), np.float32(0.5)]),
        transform_type=(gen.TYPE[kind], ['auto', gen.TYPE[kind].upper(), gen.TYPE[kind].title()]),
    )
    if est == 'ensemble':
        alt.pop('alpha')
        alt['shp_alpha'] = (0.5, [np.float64(0.5), np.float32(0.5)])
        alt['a_w'] = (4, [4.0, np.int64(4), np.float64(4)])
        alt['proba_norm'] = ([0.5] * 3, [np.array([0.5] * 3), np.array([0.5] * 3, dtype=np.float32)])
        alt['n_shapelets_per_estimator'] = (9, [np.int64(9), np.int32(9)])
        alt.pop('n_shapelets')
    names = sorted(alt)
    for k in rng.permutation(len(names))[:4 if est != 'ensemble' else 2]:
        q = names[int(k)]
        v, others = alt[q]
        want = outcome(C(**dict(p, **dict(bounds(q), **{q: copy.deepcopy(v)}))))
        o = others[int(rng.integers(0, len(others)))]
        try:
            got = outcome(C(**dict(p, **dict(bounds(q), **{q: copy.deepcopy(o)}))))
        except Exception as x:
            mon.fail('%s-refused' % q, '%s with %s=%r (%s) was refused: %s: %s' % (est, q, o, type(o).__name__, type(x).__name__, x), params=p, kind=kind)
        mon.check(same(got, want), '%s-type' % q, '%s with %s=%r (%s) differs from %r' % (est, q, o, type(o).__name__, v), params=p, kind=kind)
        mon.ev((est, 'type', q, repr(o), kind))
    # values at the limits are accepted
    lim = dict(alpha=[0, 1, 0.0, 1.0], proba_norm=[0, 1, 0.0, 1.0], percentiles=[[5, 5], [0, 100], [0, 0], [100, 100], [0.5, 99.5]],
               lengths_bounds_reduction=[0, 0.0, 0.99], shapelet_lengths=[[2], [T], [2, T], [0.25], [1.0]],
               shapelet_lengths_bounds=[[3, 3], [3, 4], [T, T], [0.2, 0.2], [0.2, 1.0]], random_state=[0, 2 ** 32 - 1, np.random.RandomState(3), None],
               n_shapelets=[1], n_samples=[1.0, 0.999, 2.0, None])
    if est == 'ensemble':
        lim = dict(shp_alpha=lim['alpha'], proba_norm=[[0, 1, 0.5], [1, 1, 1], [0, 0, 0]], percentiles=lim['percentiles'], a_w=[0, 1, 0.5], random_state=lim['random_state'])
    names = sorted(lim)
    for k in rng.permutation(len(names))[:3 if est != 'ensemble' else 1]:
        q = names[int(k)]
        v = lim[q][int(rng.integers(0, len(lim[q])))]
        try:
            outcome(C(**dict(p, **dict(bounds(q), **{q: copy.deepcopy(v)}))))
        except Exception as x:
            mon.fail('%s-limit' % q, '%s with %s=%r was refused: %s: %s' % (est, q, v, type(x).__name__, x), params=p, kind=kind)
        mon.ev((est, 'limit', q, repr(v)[:20], kind))

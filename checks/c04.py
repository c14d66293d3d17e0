"""Metamorphic monitor: row independence, idempotence, no modification of inputs or of the model."""
import numpy as np
from vlib import env, gen, ref, work, nbrt

ID = 'C04'
RULE = ('one evaluation = one relation (permuted, split, repeated, single-row, duplicated batch; arrays and shapelets '
        'unmodified) checked on one fitted model; distinct = (relation, kind, phase, batch size)')
BUDGET = {'quick': (1500, 70), 'thorough': (9000, 700)}
CHUNK = 2


def prepare(tier):
    env.setup()


def same(a, b):
    if isinstance(a, np.ndarray) and a.dtype != object:
        return isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b)
    return len(a) == len(b) and all(np.array_equal(x, y) and x.dtype == y.dtype for x, y in zip(a, b))


def take(X, idx):
    return X[np.asarray(idx)] if isinstance(X, np.ndarray) and X.dtype != object else [X[i] for i in idx]


def case(rng, tier, mon):
    kind = gen.KINDS[mon.idx % 4]
    kw = dict(n_shp=int(rng.choice([3, 8, 20])), n_ts=int(rng.choice([5, 8, 12, 20, 30])))
    n_test, sc = int(rng.choice([2, 3, 5, 7])), work.scaled(rng, mon, kind, 19)
    if sc:
        kw, n_test = sc[1], 140 if sc[0] == 'series' else 2
    w = work.build(rng, fit=False, **dict(kw, kind=kind))
    # containers whose memory the library could be tempted to reuse
    X = w.X
    if kind in ('u', 'm') and rng.random() < 0.3:
        X = np.asfortranarray(X)
    X0, y0, p0 = gen.copy_data(X), w.y.copy(), repr(w.p)
    obj = kind in ('uv', 'mv') and rng.random() < 0.4
    if obj:
        O = np.empty(len(X), dtype=object)
        for i in range(len(X)):
            O[i] = X[i]
        Xin = O
    else:
        Xin = X
    ids = [id(x) for x in X] if isinstance(X, list) else None
    model = work.new_model(w.p).fit(Xin, w.y)
    sg = (kind, w.phase, w.n)
    mon.check(same(X0, X), 'fit-modifies-X', 'fit changed the training series in place')
    mon.check(ids is None or ids == [id(x) for x in X], 'fit-modifies-X', 'fit replaced elements of the list of series')
    mon.check(np.array_equal(y0, w.y) and y0.dtype == w.y.dtype, 'fit-modifies-y', 'fit changed the labels in place')
    mon.ev(('fit-pure',) + sg)
    shp0 = ref.snapshot(model)
    T = work.test_series(rng, w, n_test)
    T0 = gen.copy_data(T)
    F = model.transform(T)
    mon.check(same(T0, T), 'transform-modifies-X', 'transform changed its input in place')
    mon.ev(('transform-pure',) + sg)
    F0 = F.copy()
    n = len(T)
    perm = rng.permutation(n)
    P = model.transform(take(T, perm))
    mon.check(np.array_equal(P, F[perm]), 'permutation', 'permuting the rows permutes the features differently',
              perm=perm, got=P, expected=F[perm])
    mon.ev(('permute', n) + sg)
    k = int(rng.integers(1, n)) if n > 1 else 1
    S = np.concatenate([model.transform(take(T, range(k))), model.transform(take(T, range(k, n)))]) if n > 1 else F
    mon.check(np.array_equal(S, F), 'split', 'transforming a batch in two parts gives other features')
    mon.ev(('split', k, n) + sg)
    i = int(rng.integers(0, n))
    A = model.transform(take(T, [i]))
    mon.check(np.array_equal(A[0], F[i]), 'single', 'a row transformed alone gives other features', alone=A[0], batch=F[i])
    D = model.transform(take(T, [i] * 3 + list(range(n))))
    mon.check(np.array_equal(D[:3], np.stack([F[i]] * 3)) and np.array_equal(D[3:], F), 'duplicate',
              'duplicating a row changes features')
    mon.ev(('single', n) + sg)
    # unrelated calls in between, extreme values in neighbouring rows
    if kind in ('u', 'm'):
        Z = np.concatenate([T * 0, T, T * 1e9])
        G = model.transform(Z)[n:2 * n]
        mon.check(np.array_equal(G, F), 'neighbour', 'features depend on neighbouring rows', got=G, expected=F)
        mon.ev(('neighbour', n) + sg)
    R = model.transform(T)
    mon.check(np.array_equal(R, F), 'repeat', 'a second transform of the same series gives other features')
    mon.check(np.array_equal(F, F0), 'aliased', 'a returned matrix changed during later calls')
    mon.check(ref.same_shapelets(shp0, ref.snapshot(model)), 'transform-modifies-shapelets',
              'transform changed the fitted shapelets')
    mon.check(repr(w.p) == p0, 'params-modified', 'parameters passed by the caller were modified')
    # a second estimator fitted elsewhere must not influence this one
    o = work.build(rng, kind, n=3, n_ft=w.n_ft, n_ts=8, n_shp=4)
    o.model.transform(o.X)
    R = model.transform(T)
    mon.check(np.array_equal(R, F), 'other-model', 'fitting another model changed the features of this one')
    mon.ev(('repeat',) + sg)
    mon.count('relations', 8)
    mon.count('rows', n)
    mon.describe(kind=kind, n=n, shapelets=len(model.shapelets_[1]), permutation=perm, params=w.p)

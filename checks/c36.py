"""Monitor of memory: what stays alive after fitting and using estimators."""
import copy
import gc
import io
import pickle
import tracemalloc
import weakref
import numpy as np
from vlib import env, gen, nbrt
from vlib.runner import Skip

ID = 'C36'
RULE = ('one evaluation = one observation of what is alive (an input or result batch after its last use, the size of a model before '
        'and after use or with more training series, the memory held by arrays after repeated use); distinct = '
        '(estimator, observation, kind, operations) situations')
BUDGET = {'quick': (320, 60), 'thorough': (8000, 600)}
CHUNK = 2
ASSUMPTIONS = ['what is observed is memory held by arrays and what the estimators refer to, not the peak of memory during an operation']
NP_DOMAIN = 389047        # of numpy's allocations in tracemalloc


def prepare(tier):
    env.setup()


class _P(pickle.Pickler):
    def persistent_id(self, o):
        if isinstance(o, nbrt.Dispatcher):
            return id(o)


def size(o):
    b = io.BytesIO()
    _P(b).dump(o)
    return b.tell()


class Batch(np.ndarray):
    """an input whose end can be observed"""


def dead(mon, refs, what, **info):
    gc.collect()
    n = sum(r() is not None for r in refs)
    mon.check(n == 0, what.split(' (')[0].replace(' ', '-'), '%s: %d of %d arrays still referred to' % (what, n, len(refs)), **info)


def track(X):
    if isinstance(X, list):
        return [weakref.ref(x) for x in X]
    return [weakref.ref(X)]


def data(rng, kind, n, nft, T, seed):
    g = np.random.default_rng(seed)
    y = np.arange(n) % 2
    if kind in ('uv', 'mv'):
        X = [g.normal(size=(nft, T + int(i) % 4)) for i in range(n)]
        for i, x in enumerate(X):
            x[:, 2:6] += 3 * y[i]
    else:
        X = g.normal(size=(n, nft, T))
        X[:, :, 2:6] += 3 * y[:, None, None]
    return X, y


def transformers(rng, mon):
    from convst.transformers import _input_transformers as it
    n = lambda a: a[int(rng.integers(0, len(a)))]
    C, p = [(it.Raw, {}), (it.Derivate, dict(order=n([1, 2, 3]))), (it.Periodigram, dict(window_type=n(['hann', 'boxcar']))),
            (it.FastHankelTransform, dict(dln=0.01)), (it.Z_normalizer, {}), (it.c_StandardScaler, {})][mon.idx // 6 % 6]
    two = C in (it.FastHankelTransform, it.c_StandardScaler)
    t = C(**p)
    name = C.__name__
    mon.describe(transformer=name, params=p)

    def batch(k):
        a = rng.normal(size=(k, 40) if two else (k, 2, 40))
        return a
    sizes = []
    for k in (6, 30):
        X = batch(k)
        r = [weakref.ref(X)]
        e = C(**p).fit(X)
        del X
        dead(mon, r, name + ' keeps its training batch')
        sizes.append(size(e))
    mon.check(abs(sizes[1] - sizes[0]) < 24 * 8, name + '-grows', '%s: %d bytes fitted on 6 series, %d on 30' % (name, sizes[0], sizes[1]))
    mon.ev((name, 'training', tuple(p)))
    for k in (4, 4, 7):
        X = batch(k)
        o = e.transform(X)
        r = [weakref.ref(X)] + ([weakref.ref(o)] if isinstance(o, np.ndarray) and o is not X else [])
        del X, o
        dead(mon, r, name + ' keeps what it transformed')
    mon.check(abs(size(e) - sizes[1]) < 64, name + '-grows', '%s: %d bytes after transforming, %d before' % (name, size(e), sizes[1]))
    mon.ev((name, 'use', tuple(p)))


def case(rng, tier, mon):
    if mon.idx % 6 == 5:
        return transformers(rng, mon)
    import joblib
    from matplotlib import pyplot as plt
    from convst.transformers import R_DST
    from convst.classifiers import R_DST_Ridge, R_DST_Ensemble
    from convst.interpreters import RDST_interpreter
    joblib.MODE[0] = 'seq'
    i = mon.idx - mon.idx // 6
    base = ['rdst', 'ridge', 'rdst', 'ensemble'][i % 4]
    kind = gen.KINDS[(i // 4) % 4]
    nft = 1 if kind in ('u', 'uv') else 2
    T = int(rng.integers(28, 40))
    n_shp = int(rng.choice([6, 12]))
    p = dict(shapelet_lengths=[5], percentiles=[5, 10], random_state=int(rng.integers(0, 1 << 30)),
             phase_invariance=bool(rng.integers(0, 2)), normalize_output=bool(rng.integers(0, 2)),
             prime_dilations=bool(rng.integers(0, 2)))
    if base == 'ensemble':
        from convst.transformers import _input_transformers as it
        p.update(n_shapelets_per_estimator=n_shp, shp_alpha=0.0, alphas_ridge=np.array([0.1, 1.0]), input_transformers=[it.Raw(), it.Derivate()],
                 proba_norm=[0.5, 1.0])
    else:
        p.update(n_shapelets=n_shp, alpha=0.0, proba_norm=float(rng.choice([0.0, 0.5, 1.0])))
    if base == 'ridge':
        p.update(alphas_ridge=np.array([0.1, 1.0]))
    C = dict(rdst=R_DST, ridge=R_DST_Ridge, ensemble=R_DST_Ensemble)[base]
    mon.describe(estimator=base, kind=kind, params=p, n_timestamps=T)
    ent, s0 = int(rng.integers(0, 1 << 30)), int(rng.integers(0, 1 << 30))

    def fitted(n, again=None, T=T):
        X, y = data(rng, kind, n, nft, T, s0)
        r = track(X) + [weakref.ref(y)]
        nbrt.reset(entropy=ent)
        e = (again or C(**copy.deepcopy(p))).fit(X, y)
        del X, y
        nbrt.reset(entropy=ent)
        dead(mon, r, base + ' keeps its training series (fit)', kind=kind)
        return e

    def shapes(e):
        ts = [e] if base == 'rdst' else [e.transformer] if base == 'ridge' else [m[1] for m in e.models]
        return [len(t.shapelets_[1]) for t in ts]
    small, e = fitted(6), fitted(24)
    mon.ev((base, 'training', kind, p['phase_invariance']))
    if shapes(small) == shapes(e):
        # classifiers may keep the leave-one-out predictions: 2 alphas, 2 classes
        extra = size(e) - size(small)
        k = 1 if base != 'ensemble' else 2
        mon.check(extra <= 18 * 80 * k + 512, base + '-grows-with-data', 'a model of the same shapelets takes %d more bytes with 18 more '
                  'series of %d bytes' % (extra, T * 8 * nft), kind=kind)
        mon.ev((base, 'size', kind, n_shp))
    if i % 2:
        long = fitted(6, T=2 * T)
        if shapes(small) == shapes(long):
            mon.check(size(long) - size(small) <= 256 + 160 * (base == 'ensemble'), base + '-grows-with-length', 'a model of the same '
                      'shapelets takes %d more bytes when fitted on 6 series of double length' % (size(long) - size(small)), kind=kind)
            mon.ev((base, 'length', kind, n_shp))
    # refitting does not pile up
    s1 = size(e)
    fitted(24, e)
    fitted(24, e)
    mon.check(size(e) <= s1 + 256, base + '-refit', '%d bytes after fitting, %d after fitting again twice' % (s1, size(e)), kind=kind)
    mon.ev((base, 'refit', kind))
    s1 = size(e)
    ops = ['transform'] if base == 'rdst' else ['predict', 'score'] + (['inner'] if base == 'ridge' else [])
    if base == 'rdst' and kind in ('u', 'uv'):
        ops.append('plot')

    def use(op, n, seed):
        X, y = data(rng, kind, n, nft, T, seed)
        r = track(X)
        if op == 'transform':
            o = e.transform(X)
        elif op == 'inner':
            o = e.transformer.transform(X)
        elif op == 'predict':
            o = e.predict(X)
        elif op == 'score':
            o = e.score(X, y)
        else:
            plt.reset()
            it_ = RDST_interpreter(e)
            o = None
            it_.plot_on_X(0, X[0][0], ax=plt.Axes())
            it_.plot_distance_vector(0, X[0][0], ax=plt.Axes())
            plt.reset()
        if isinstance(o, np.ndarray):
            r.append(weakref.ref(o))
        del X, o
        return r
    done = []
    for _ in range(int(rng.integers(2, 4))):
        op = ops[int(rng.integers(0, len(ops)))]
        r = use(op, int(rng.integers(3, 7)), int(rng.integers(0, 1 << 30)))
        dead(mon, r, base + ' keeps what it was used on (' + op + ')', kind=kind)
        done.append(op)
    mon.check(size(e) <= s1 + 256, base + '-use-grows', '%d bytes after fitting, %d after %s' % (s1, size(e), done), kind=kind)
    mon.ev((base, 'use', kind, tuple(done)))
    if i % 3 == 0:      # arrays held anywhere, also by copies
        op, n = ops[0], 10
        tracemalloc.start(1)
        try:
            def held():
                gc.collect()
                return sum(t.size for t in tracemalloc.take_snapshot().traces if t.domain == NP_DOMAIN)
            use(op, n, 1)
            h = [held()]
            for q in range(2, 6):
                use(op, n + q, q)
                h.append(held())
        finally:
            tracemalloc.stop()
        # tables of the series length may be kept, results of calls not
        mon.check(h[-1] - h[1] < 200, base + '-piles-up', 'arrays hold %s bytes after each further %s of %d series' % (
            h, op, n), kind=kind)
        mon.check(max(h) < n * T * 4, base + '-holds-batch', 'arrays hold %s bytes after a %s of %d series of %d bytes' % (
            h, op, n, T * 8 * nft), kind=kind)
        mon.ev((base, 'arrays', kind, op))

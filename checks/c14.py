"""Representation monitor: the same numbers in every container must give the same model and features."""
import numpy as np
from vlib import env, gen, ref, work, nbrt
from vlib.runner import Skip

ID = 'C14'
RULE = ('one evaluation = one representation (dtype, memory layout, container, explicit kind) whose model and features are '
        'compared with the float64 C-contiguous one, or one malformed input that must be refused; distinct = (kind, '
        'representation, where it is used)')
BUDGET = {'quick': (900, 50), 'thorough': (12000, 780)}
CHUNK = 4
INT = ['int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64']
FLT = ['float16', 'float32', 'float64', '>f8', '>f4']


def prepare(tier):
    env.setup()


def strided(a, how):
    """the same values in another memory layout"""
    if how == 'F':
        return np.asfortranarray(a)
    if how == 'step':
        b = np.zeros(a.shape[:-1] + (a.shape[-1] * 2,), a.dtype)
        b[..., ::2] = a
        return b[..., ::2]
    if how == 'neg':
        return np.ascontiguousarray(a[..., ::-1])[..., ::-1]
    if how == 'swap':
        return np.ascontiguousarray(np.swapaxes(a, -1, -2)).swapaxes(-1, -2)
    if how == 'offset':
        b = np.zeros(a.size + 3, a.dtype)
        b[3:] = a.ravel()
        return b[3:].reshape(a.shape)
    if how == 'readonly':
        b = a.copy()
        b.flags.writeable = False
        return b
    return a.copy()


def obj(X):
    o = np.empty(len(X), dtype=object)
    for i, x in enumerate(X):
        o[i] = x
    return o


def case(rng, tier, mon):
    kind = gen.KINDS[mon.idx % 4]
    if mon.idx % 5 == 4:
        return malformed(rng, mon, kind)
    var = kind in ('uv', 'mv')
    n = int(rng.integers(2, 8))
    nft = 1 if kind in ('u', 'uv') else int(rng.integers(2, 4))
    T = int(rng.integers(4, 16))
    neg = rng.random() < 0.4
    small = rng.integers(-20 if neg else 0, 21, size=(n, nft, T + 8)).astype(float)
    big = rng.random() < 0.25
    if rng.random() < 0.15:
        small = small / 4
    elif big:        # more digits than narrow types hold, sums that exceed narrow types
        small = small * float(rng.choice([6, 1000, 1600, 2 ** 24 + 1, 100000003])) + float(rng.choice([0, 1, 2 ** 26 + 1]))
    lens = rng.integers(T, T + 9, size=n) if var else np.full(n, T)
    if var and rng.random() < 0.2:
        lens[:] = T
    first_int = var and rng.random() < 0.4      # integral first series among fractional ones
    if first_int:
        small = small / 4
        small[int(rng.choice([0, n - 1]))] *= 4
    X = [small[i, :, :lens[i]].copy() for i in range(n)] if var else small[:, :, :T].copy()
    integral = all(np.all(x == np.rint(x)) for x in X)
    y = gen.labels(rng, n)
    ml = int(min(lens))
    p = gen.rdst_params(rng, ml, nft, kind, 12)
    seed = int(rng.integers(0, 1 << 30))

    def run(A, B=None, **over):
        nbrt.reset(entropy=seed)
        m = work.new_model(dict(p, **over)).fit(A, y)
        return ref.snapshot(m), m.transform(A if B is None else B)

    base = run(X)
    reps = []
    dts = [d for d in FLT]
    if integral:
        dts += [d for d in INT if not neg or not d.startswith('u')]
    exact = lambda d: all(np.array_equal(np.asarray(x).astype(d).astype(float), x) for x in X)
    with np.errstate(all='ignore'):
        dts = [d for d in dts if exact(d)]
    mon.count('large_values', big)
    for d in rng.permutation(dts)[:3]:
        lay = str(rng.choice(['C', 'F', 'step', 'neg', 'swap', 'offset', 'readonly']))
        conv = lambda x: strided(np.asarray(x).astype(d), lay)
        reps.append(('%s/%s' % (d, lay), [conv(x) for x in X] if var else conv(X), {}))
    reps.append(('named-kind', gen.copy_data(X), dict(transform_type=gen.TYPE[kind])))
    reps.append(('named-kind-case', gen.copy_data(X), dict(transform_type=gen.TYPE[kind].upper())))
    if var:
        reps.append(('object-array', obj([x.copy() for x in X]), {}))
        reps.append(('object-array-named', obj([x.copy() for x in X]), dict(transform_type=gen.TYPE[kind])))
        mix = [x.astype('float32') if i % 2 and np.array_equal(x.astype('float32'), x) else np.asfortranarray(x) for i, x in enumerate(X)]
        reps.append(('list-of-mixed-dtypes', mix, {}))
        kinds = [str(rng.choice(['int64', 'int16', 'float32', 'float64', 'float16'])) for _ in X]
        with np.errstate(all='ignore'):
            mix = [x.astype(d) if np.array_equal(x.astype(d), x) else x.copy() for x, d in zip(X, kinds)]
        reps.append(('list-of-drawn-dtypes', mix, {}))
        mix = [x.astype('int32') if np.array_equal(np.rint(x), x) and np.abs(x).max() < 2 ** 31 else x.copy() for x in X]
        reps.append(('list-integral-series-as-int', mix, {}))
    for name, A, over in reps:
        # the float16/32 values are exactly the same numbers (small multiples of 1/4)
        before = [np.array(a) for a in A]
        got = run(A, **over)
        mon.check(ref.same_shapelets(got[0], base[0]), 'shapelets', '%s data as %s gives other shapelets than float64' % (
            kind, name), params=p)
        mon.check(got[1].shape == base[1].shape and np.array_equal(got[1], base[1]), 'features',
                  '%s data as %s gives other features than float64' % (kind, name), params=p)
        mon.check(all(np.array_equal(a, b) for a, b in zip(before, A)), 'input-modified', '%s input was modified' % name)
        # fitted on one, applied to the other
        mixed = run(X, A, **over)
        mon.check(np.array_equal(mixed[1], base[1]), 'features', 'model fitted on float64 applied to %s data as %s gives '
                  'other features' % (kind, name), params=p)
        mon.ev((kind, name))
        mon.count('representations')
        mon.count(name.split('/')[0])
    # labels too may be of any integer type
    ly = y
    for d in ('int32', 'int8', '>i8', 'int16'):
        if not np.array_equal(ly.astype(d), ly):
            continue
        nbrt.reset(entropy=seed)
        m = work.new_model(p).fit(X, ly.astype(d))
        mon.check(ref.same_shapelets(ref.snapshot(m), base[0]), 'label-dtype', 'labels as %s give other shapelets' % d)
        mon.ev((kind, 'labels', d))
    mon.describe(kind=kind, representations=[r[0] for r in reps], n=n, channels=nft, lens=lens[:6], params=p)


def refused(mon, key, what, f, **d):
    try:
        f()
    except (ValueError, TypeError):
        mon.ev(('refused', key))
        mon.count('refused')
        return
    except Exception as e:
        mon.fail('refusal-' + key, '%s ends with %s: %s rather than a ValueError or TypeError' % (what, type(e).__name__, e), **d)
    mon.fail('accepted-' + key, '%s is accepted' % what, **d)


def malformed(rng, mon, kind):
    var = kind in ('uv', 'mv')
    n, T = int(rng.integers(2, 6)), int(rng.integers(5, 12))
    nft = 1 if kind in ('u', 'uv') else int(rng.integers(2, 4))
    y = gen.labels(rng, n)
    X = gen.dataset(rng, kind, n, nft, T, 'normal')
    p = dict(shapelet_lengths=[3], n_shapelets=6, random_state=0)
    mk = lambda **k: work.new_model(dict(p, **k))
    mon.describe(kind=kind, n=n, T=T, channels=nft, malformed=True)
    # different numbers of channels
    odd, few = int(rng.integers(0, n)), nft + 1
    if nft > 1:
        few = int(rng.choice([1, nft - 1, nft + 1]))
    V = [rng.normal(size=(few if i == odd else nft, int(rng.integers(T, T + 5)))) for i in range(n)]
    mon.count('odd_series_with_one_channel', few == 1)
    mon.count('odd_series_in_the_middle', 0 < odd < n - 1)
    refused(mon, 'channels', 'fitting series with %s channels' % [v.shape[0] for v in V], lambda: mk().fit(V, y))
    refused(mon, 'channels', 'fitting an object array of series with different channels', lambda: mk().fit(obj(V), y))
    good = [rng.normal(size=(nft, v.shape[1])) for v in V]
    m = mk().fit(good, y)
    refused(mon, 'channels', 'transforming series with different numbers of channels', lambda: m.transform(V))
    # unknown kinds
    for bad in ('', 'uni', 'univariat', 'multi', 'variable', 'univariate-variable', 'none'):
        refused(mon, 'kind', 'the kind %r' % bad, lambda: mk(transform_type=bad).fit(X, y))
    # wrong number of dimensions, too short, empty
    A = rng.normal(size=(n, T))
    refused(mon, 'ndim', 'fitting 2 dimensional data', lambda: mk().fit(A, y))
    refused(mon, 'ndim', 'fitting 1 dimensional data', lambda: mk().fit(A[0], y))
    refused(mon, 'ndim', 'fitting 4 dimensional data', lambda: mk().fit(rng.normal(size=(n, nft, T, 2)), y))
    refused(mon, 'short', 'fitting series of 2 timestamps', lambda: mk().fit(rng.normal(size=(n, nft, 2)), y))
    refused(mon, 'short', 'fitting series of 1 timestamp', lambda: mk().fit(rng.normal(size=(n, nft, 1)), y))
    refused(mon, 'empty', 'fitting no series', lambda: mk().fit(rng.normal(size=(0, nft, T)), y[:0]))
    if not var:
        m = mk().fit(X, y)
        refused(mon, 'ndim', 'transforming 2 dimensional data', lambda: m.transform(A))
        refused(mon, 'dtype', 'fitting text', lambda: mk().fit(np.full((n, nft, T), 'a'), y))

"""Monitor of the input transformations and scalers against their definitions, series by series."""
import numpy as np
from vlib import env, gen, nbrt

ID = 'C22'
RULE = ('one evaluation = one transformed series or scaled matrix compared with its definition; distinct = '
        '(transformation and its options, kind, family, length)')
BUDGET = {'quick': (16000, 45), 'thorough': (60000, 780)}
CHUNK = 10
ASSUMPTIONS = ['window shapes and the Hankel transform of one channel come from the numerical library (trusted); the '
               'periodogram is recomputed from the discrete Fourier transform']
WIN = ['boxcar', 'triang', 'blackman', 'hamming', 'hann', 'bartlett', 'flattop', 'parzen', 'bohman', 'blackmanharris',
       'nuttall', 'barthann', 'cosine', 'exponential', 'tukey', 'taylor']


def prepare(tier):
    env.setup()


def periodogram(x, w):
    from scipy.signal import get_window
    n = len(x)
    win = get_window(w, n)
    f = np.abs(np.fft.rfft(np.asarray(x, float) * win)) ** 2 / (win ** 2).sum()
    if n % 2:
        f[1:] *= 2
    else:
        f[1:-1] *= 2
    return f


def close(a, b, scale):
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-8 * (scale + np.abs(b))))


def case(rng, tier, mon):
    if mon.idx % 3 == 2:
        return scalers(rng, mon)
    from convst.transformers import _input_transformers as it
    from scipy.fft import fht, fhtoffset
    kind = gen.KINDS[int(rng.integers(0, 4))]
    n, T = int(rng.integers(1, 7)), int(rng.integers(6, 40))
    nft = 1 if kind in ('u', 'uv') else int(rng.integers(2, 5))
    fam = str(rng.choice(gen.FAMILIES))
    var = kind in ('uv', 'mv')
    what = str(rng.choice(['raw', 'diff', 'per', 'per', 'diff-random', 'per-random'] + ([] if var else ['znorm', 'znorm', 'fht', 'fht'])))
    X = gen.dataset(rng, kind, n, nft, T, fam)
    if rng.random() < .2:                # whatever the type the numbers are stored in
        dt = str(rng.choice(['int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64', 'uint64', 'float32', '>f8']))
        if dt[0] in 'iu':
            lo, hi = max(np.iinfo(dt).min, -2 ** 20), min(np.iinfo(dt).max, 2 ** 20)
            conv = lambda a: rng.integers(lo, hi + 1, size=np.shape(a)).astype(dt)
        else:
            conv = lambda a: a.astype(dt)
        X = [conv(x) for x in X] if var else conv(X)
        mon.count('stored_as_' + dt)
        fam = fam + '/' + dt
    if rng.random() < .15 and not var:
        X = np.asfortranarray(X)
    opts = {}
    if what == 'raw':
        t, f = it.Raw(), lambda x: x
    elif what.startswith('diff'):
        if what == 'diff':
            o = int(rng.integers(1, 5)) if rng.random() < .7 else int(rng.integers(4, 10))
            t = it.Derivate() if o == 1 and rng.random() < .3 else it.Derivate(order=o)
        else:
            t = it.Derivate(random=True)
        opts = dict(order=o if what == 'diff' else 'random')

        def f(x):
            if int(t.order) >= x.shape[1]:
                return x[:, :0]
            for _ in range(int(t.order)):
                x = x[:, 1:] - x[:, :-1]
            return x
    elif what.startswith('per'):
        w = str(rng.choice(WIN))
        if what == 'per':
            t = it.Periodigram() if w == 'boxcar' and rng.random() < .5 else it.Periodigram(window_type=w)
            opts = dict(window=w)
            f = lambda x: np.stack([periodogram(c, w) for c in x])
        else:
            t = it.Periodigram(random=True)
            opts = dict(window='random')
            f = lambda x: np.stack([periodogram(c, str(t.window_type)) for c in x])
    elif what == 'znorm':
        t = it.Z_normalizer()
        f = lambda x: (x - x.mean(axis=1, keepdims=True)) / (x.std(axis=1, keepdims=True) + 1e-8)
    else:
        dln, mu = float(rng.choice([0.01, 0.05, 0.1])), float(rng.choice([0, 0.5, 1, 2]))
        opts = dict(dln=dln, mu=mu, offset=float(rng.choice([0.0, 0.3])), bias=float(rng.choice([0.0, 0.2, -0.3])),
                    use_optimal_offset=bool(rng.integers(0, 2)))
        if opts['use_optimal_offset']:
            opts['offset'] = 0.0
        if rng.random() < .15:
            opts = dict(dln=0.01, mu=1, offset=0.0, bias=0.0, use_optimal_offset=True)
            t = it.FastHankelTransform()
        else:
            t = it.FastHankelTransform(**opts)
        off = fhtoffset(opts['dln'], opts['mu'], bias=opts['bias']) if opts['use_optimal_offset'] else opts['offset']
        f = lambda x: np.stack([fht(c.astype(float), opts['dln'], opts['mu'], offset=off, bias=opts['bias']) for c in x])
    mon.describe(what=what, options=opts, kind=kind, n=n, T=T, channels=nft, family=fam)
    Xc = gen.copy_data(X)
    nbrt.reset(entropy=int(rng.integers(0, 1 << 20)), order=str(rng.choice(['seq', 'rev', 'perm'])))
    y = np.zeros(n, int)
    t = t.fit(X, y)
    R = t.transform(X)
    mon.check(len(R) == n, what + '-count', '%d series out of %d' % (len(R), n))
    if what == 'diff-random':
        mon.check(1 <= int(t.order) <= 4, 'random-order', 'order %r' % t.order)
    if what == 'per-random':
        mon.check(str(t.window_type) in WIN, 'random-window', 'window %r' % t.window_type)
    if what.endswith('-random'):
        name = 'order' if what == 'diff-random' else 'window_type'
        t2 = type(t)(random=True)
        drawn = {str(getattr(t2.fit(X, y), name)) for _ in range(24)}
        mon.check(len(drawn) > 1, what, '24 random choices of the %s all gave %s' % (name, sorted(drawn)))
        mon.count('random_choices', 24)
    mon.check(all(np.array_equal(a, b) for a, b in zip(X, Xc)), what + '-input-modified', '%s modified its input' % what)
    for i in range(n):
        x = np.asarray(X[i], float)
        e = np.asarray(f(x), float)
        sc = 1e-6 * np.abs(x).max() ** (2 if what.startswith('per') else 1) * (x.shape[1] if what.startswith('per') else 2 ** (5 if what != 'diff' or o < 5 else o + 1))
        if what == 'znorm':
            sc = (np.abs(x).max(axis=1) / (x.std(axis=1) + 1e-8))[:, None] * 1e-5
        r = np.asarray(R[i], float)
        if '/' in fam and (what.startswith('per') or fam.endswith('float32')):    # transformed in single precision
            sc = sc * 1e8 if what == 'znorm' else sc + 1e-4 * np.abs(e).max(initial=0) / 1e-8
        mon.check(close(r, e, sc), what, 'series %d: %s differs from its definition' % (i, what), options=opts, got=r,
                  expected=e, length=x.shape[1])
        mon.ev((what, str(opts), kind, fam, x.shape[1]))
    mon.count('series_' + what, n)
    if what in ('diff', 'per') and rng.random() < .5:      # the same object with other settings, on other series
        if what == 'diff':
            o = int(rng.integers(1, 5))
            t.set_params(order=o)
        else:
            w = str(rng.choice(WIN))
            t.set_params(window_type=w)
        T2 = T if rng.random() < .3 else int(rng.integers(6, 40))
        X2 = gen.dataset(rng, kind, 2, nft, T2, 'normal')
        R2 = (t if rng.random() < .5 else t.fit(X2, y[:2])).transform(X2)
        for x, r in zip(X2, R2):
            e, r = np.asarray(f(x), float), np.asarray(r, float)
            mon.check(close(r, e, 1e-6 * np.abs(x).max() ** 2 * 100), what + '-again', '%s differs from its definition after the '
                      'settings changed' % what, got=r, expected=e)
        mon.ev((what, 'again', opts.get('window'), kind, T2))
        mon.count('settings_changed')
        R = t.transform(X)
        mon.check(len(R) == n, what + '-count', '%d series out of %d' % (len(R), n))
    # each series alone
    i = int(rng.integers(0, n))
    one = t.transform([X[i]] if var else X[i:i + 1])
    mon.check(np.allclose(np.asarray(one[0], float), np.asarray(R[i], float), rtol=1e-12, atol=1e-12), what + '-batch',
              '%s of series %d depends on the other series' % (what, i))
    if what.endswith('-random'):
        name = 'order' if what == 'diff-random' else 'window_type'
        t2 = type(t)(random=True)
        drawn = {str(getattr(t2.fit(X, y), name)) for _ in range(24)}
        mon.check(len(drawn) > 1, what, '24 random choices of the %s all gave %s' % (name, sorted(drawn)))
        mon.count('random_choices', 24)
    mon.check(all(np.array_equal(a, b) for a, b in zip(X, Xc)), what + '-input-modified', '%s modified its input' % what)


def scalers(rng, mon):
    from convst.transformers import _input_transformers as it
    n, m = int(rng.integers(2, 15)), int(rng.integers(1, 12))
    X = rng.normal(size=(n, m)) * 10.0 ** rng.integers(-3, 5, size=m) + rng.normal(size=m) * 10.0 ** rng.integers(-3, 3, size=m)
    const = rng.random(m) < 0.4
    for j in range(m):
        if const[j]:
            X[:, j] = float(rng.choice([0.0, 1.0, 0.1, -0.3, 1 / 3, 1e-9, 1e6 + 0.1, 5.7]))
        elif rng.random() < .25:         # one value differs
            X[:, j] = 2.0
            X[int(rng.integers(0, n)), j] = float(rng.choice([2.5, -1, 2.001, 0]))
    const = (X == X[0]).all(axis=0)
    if const.all():
        X[0, 0] += 1.0
        const[0] = False
    Z = np.concatenate([X[rng.integers(0, n, size=2)], rng.normal(size=(int(rng.integers(1, 6)), m)) * 5])
    keep = np.where(~const)[0]
    which = str(rng.choice(['standard', 'minmax']))
    Xc, Zc = X.copy(), Z.copy()
    K = X[:, keep]
    if which == 'standard':
        s = it.c_StandardScaler()
        f = lambda a: (a[:, keep] - K.mean(axis=0)) / K.std(axis=0)
    else:
        s = it.c_MinMaxScaler()
        f = lambda a: (a[:, keep] - K.min(axis=0)) / (K.max(axis=0) - K.min(axis=0))
    if rng.random() < .3:                # refitted: previous statistics are forgotten
        s.fit(rng.normal(size=(4, m)))
    s = s.fit(X)
    mon.describe(scaler=which, n=n, columns=m, constant=int(const.sum()))
    for nm, A in (('train', X), ('test', Z), ('one row', Z[-1:])):
        R = np.asarray(s.transform(A))
        mon.check(R.shape == (len(A), len(keep)), which + '-columns', '%d columns, %d of %d are not constant' % (
            R.shape[1] if R.ndim == 2 else -1, len(keep), m), data=X)
        e = f(A)
        cond = (np.abs(K).max(axis=0) / K.std(axis=0))
        mon.check(bool(np.all(np.abs(R - e) <= 1e-10 * (1 + np.abs(e)) * (1 + cond))), which + '-values', '%s scaled values differ '
                  '(%s)' % (which, nm), got=R, expected=e)
        mon.ev((which, nm, m, int(const.sum()), n))
    R = np.asarray(s.fit_transform(X.copy()))
    mon.check(R.shape == (n, len(keep)) and np.allclose(R, f(X), rtol=1e-7, atol=1e-7), which + '-fit_transform', 'fit_transform differs')
    mon.check(np.array_equal(X, Xc) and np.array_equal(Z, Zc), which + '-input-modified', 'scaling modified its input')
    mon.count('scaled_matrices_' + which, 3)
    mon.count('constant_columns', int(const.sum()))

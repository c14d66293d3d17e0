"""Monitor of the shared primitives: each call judged against its definition."""
import numpy as np
from vlib import env, gen, ref
from vlib.runner import Skip

ID = 'C29'
RULE = ('one evaluation = one call of one primitive judged against its definition; distinct = (primitive, length, '
        'dilation, phase, normalised, channels, layout, boundary) situations')
BUDGET = {'quick': (6000, 30), 'thorough': (300000, 500)}
CHUNK = 10
ASSUMPTIONS = ['primitives are called where the library exposes them; one that is absent is not judged',
               'series to normalise have a deviation above 0.01 or are constant of moderate magnitude']


class _S:
    pass


def prepare(tier):
    env.setup()


KINDS = ['win1', 'win2', 'dist', 'vector', 'sub', 'prime', 'comb', 'feat1', 'feat2', 'znorm', 'zlist']


def case(rng, tier, mon):
    import convst.transformers._commons as cm
    import convst.utils.dataset_utils as du
    what = KINDS[mon.idx % len(KINDS)]
    f = {'win1': 'generate_strides_1D', 'win2': 'generate_strides_2D', 'vector': 'compute_shapelet_dist_vector',
         'sub': 'get_subsequence', 'prime': 'is_prime', 'comb': '_combinations_1d', 'dist': 'manhattan',
         'feat1': 'apply_one_shapelet_one_sample_univariate', 'feat2': 'apply_one_shapelet_one_sample_multivariate',
         'znorm': 'z_norm_3D', 'zlist': 'z_norm_3D_list'}[what]
    mod = du if what in ('znorm', 'zlist') else cm
    if not hasattr(mod, f):
        raise Skip
    globals()['do_' + what](rng, mon, mod)


def setting(rng, several=False):
    T = int(rng.choice([1, 2, 3, 5, 8, 13, 30, 61]))
    phase = bool(rng.integers(0, 2))
    L = int(rng.integers(1, min(T, 12) + 1))
    dmax = max(1, (T - 1) // max(1, L - 1)) if L > 1 else 5
    m = rng.random()
    d = 1 if m < 0.3 else dmax if m < 0.6 else int(rng.integers(1, dmax + 1))
    if L == 1 and not phase:
        d = int(rng.integers(1, 4))
    if several and phase and T > 2 and rng.random() < 0.3:      # more than once around
        L, d = int(rng.integers(2, 14)), int(rng.integers(1, T))
    return T, L, d, phase


def series(rng, T, far=False):
    fam = str(rng.choice(['ints', 'ties', 'normal', 'spikes', 'constant']))
    if far:
        return 1e6 + rng.normal(size=T), 'far'
    x = {'ints': lambda: rng.integers(-5, 6, size=T) * 1.0, 'ties': lambda: rng.integers(0, 2, size=T) * 1.0,
         'normal': lambda: rng.normal(size=T), 'spikes': lambda: (rng.random(T) < 0.1) * 100.0,
         'constant': lambda: np.full(T, float(rng.integers(-3, 4)))}[fam]()
    return x, fam


def wins(x, L, d, phase):
    T = len(x)
    n = T if phase else T - (L - 1) * d
    return np.array([[x[(i + j * d) % T] if phase else x[i + j * d] for j in range(L)] for i in range(n)])


def do_win1(rng, mon, cm):
    T, L, d, phase = setting(rng, True)
    x, fam = series(rng, T)
    x = x + np.arange(T) * 1e3
    if rng.random() < 0.3:
        x = x[::-1]
    b = x.copy()
    mon.describe(T=T, length=L, dilation=d, phase=phase, series=x)
    W = np.asarray(cm.generate_strides_1D(x, L, d, phase))
    E = wins(b, L, d, phase)
    mon.check(W.shape == E.shape and np.array_equal(W, E), 'windows-1d', 'windows of length %d dilation %d phase %s of %d '
              'values differ from the definition (shape %s)' % (L, d, phase, T, W.shape), got=W[:3], expected=E[:3])
    mon.check(np.array_equal(x, b), 'mutates', 'the series was modified')
    mon.ev(('win1', L, d, phase, T))


def do_win2(rng, mon, cm):
    T, L, d, phase = setting(rng, True)
    k = int(rng.integers(1, 5))
    X = np.stack([series(rng, T)[0] + 1e3 * np.arange(T) + 1e6 * c for c in range(k)])
    if rng.random() < 0.3:
        X = np.asfortranarray(X)
    b = X.copy()
    mon.describe(T=T, length=L, dilation=d, phase=phase, channels=k)
    W = np.asarray(cm.generate_strides_2D(X, L, d, phase))
    E = np.stack([wins(b[c], L, d, phase) for c in range(k)])
    mon.check(W.shape == E.shape and np.array_equal(W, E), 'windows-2d', 'windows of length %d dilation %d phase %s of '
              '%d channels of %d values differ from the definition (shape %s)' % (L, d, phase, k, T, W.shape))
    mon.check(np.array_equal(X, b), 'mutates', 'the series was modified')
    mon.ev(('win2', L, d, phase, T, k))


def do_dist(rng, mon, cm):
    n = int(rng.choice([1, 2, 3, 7, 20, 200]))
    far = rng.random() < 0.2     # vectors close to each other and far from the origin
    x, fam = series(rng, n, far)
    y = x.copy() if rng.random() < 0.1 else series(rng, n, far)[0]
    D = x - y
    for f, e in (('manhattan', np.abs(D).sum()), ('squared_euclidean', (D * D).sum()),
                 ('euclidean', np.sqrt((D * D).sum()))):
        if not hasattr(cm, f):
            continue
        g = float(getattr(cm, f)(x, y))
        mon.check(abs(g - e) <= 1e-11 * (1 + abs(e)), f, '%s distance %r, expected %r' % (f, g, e), x=x, y=y)
        mon.ev((f, n, fam))


def shapelet(rng, L, norm, chans=1):
    V = np.stack([series(rng, L)[0] + (rng.normal(size=L) if norm else 0) for _ in range(chans)])
    if norm:
        V = ref.znorm_rows(V)
    return V


def do_vector(rng, mon, cm):
    T, L, d, phase = setting(rng)
    norm = bool(rng.integers(0, 2))
    x, fam = series(rng, T)
    s = _S()
    s.values, s.L, s.d, s.norm, s.channels = shapelet(rng, L, norm), L, d, norm, [0]
    mon.describe(T=T, length=L, dilation=d, phase=phase, norm=norm, series=x, values=s.values)
    b = x.copy()
    D = np.asarray(cm.compute_shapelet_dist_vector(x, s.values[0].copy(), L, d, norm, phase))
    E, tol = ref.dist_vector(b[None, :], s, phase)
    mon.check(D.shape == E.shape, 'vector-length', '%s distances, %s windows' % (D.shape, E.shape))
    mon.check(bool((np.abs(D - E) <= tol).all()), 'vector', 'distances differ from the definition', got=D, expected=E)
    mon.check(np.array_equal(x, b), 'mutates', 'the series was modified')
    mon.ev(('vector', L, d, phase, norm, T))


def do_sub(rng, mon, cm):
    T, L, d, phase = setting(rng, True)
    norm = bool(rng.integers(0, 2))
    x, fam = series(rng, T)
    W = wins(x, L, d, phase)
    for i in {0, len(W) - 1, int(rng.integers(0, len(W)))}:
        v = np.asarray(cm.get_subsequence(x, i, L, d, norm, phase))
        e = W[i:i + 1]
        t = np.zeros(1)
        if norm:
            t = ref.norm_tol(e)
            e = ref.znorm_rows(e)
        mon.check(v.shape == (L,) and bool((np.abs(v - e[0]) <= t).all()), 'subsequence',
                  'subsequence at %d of length %d dilation %d differs from the definition' % (i, L, d),
                  got=v, expected=e, series=x)
        mon.ev(('sub', L, d, phase, norm, i == len(W) - 1))


def do_prime(rng, mon, cm):
    n = int(rng.integers(0, 3000)) if rng.random() < 0.5 else int(rng.integers(0, 60))
    if rng.random() < 0.3:
        p = int(rng.choice([2, 3, 5, 7, 11, 13, 31, 97, 211]))
        n = p * p + int(rng.integers(-1, 2))
    isp = n == 1 or (n > 1 and all(n % q for q in range(2, int(n ** 0.5) + 1)))
    mon.check(bool(cm.is_prime(n)) == isp, 'is-prime', '%d is %s accepted' % (n, '' if not isp else 'not'))
    mon.ev(('prime', isp, n % 210))
    if hasattr(cm, 'prime_up_to') and n < 400:
        got = [int(v) for v in cm.prime_up_to(n)]
        mon.check(got == ref.primes_and_one(n), 'primes', 'primes up to %d: %s' % (n, got[-4:]))


def do_comb(rng, mon, cm):
    n = int(rng.choice([1, 2, 5, 30]))
    x = rng.choice([3, 5, 7, 9, 11], size=n).astype(np.int64)
    y = rng.choice([1, 2, 3, 8], size=n).astype(np.int64)
    C = np.asarray(cm._combinations_1d(x, y))
    got = [tuple(int(v) for v in r) for r in C]
    mon.check(sorted(got) == sorted(set(zip(x.tolist(), y.tolist()))), 'combinations',
              'combinations %s of %s and %s' % (got, x, y))
    mon.ev(('comb', n, len(got)))


def feats(rng, mon, fn, W, V, multi):
    D = np.abs(W - V[:, None, :]).sum(axis=2).sum(axis=0)
    thr = float(rng.choice([D[int(rng.integers(0, len(D)))], D.min() - 0.5, D.max() + 0.5]))
    m, a, c = fn(W if multi else W[0], V if multi else V[0], thr)
    exact = np.all(W == np.rint(W)) and np.all(V == np.rint(V))
    e = 0 if exact else 1e-9 * (1 + D.max())
    mon.check(abs(float(m) - D.min()) <= e, 'min', 'minimum %r, expected %r' % (m, D.min()))
    near = np.where(D <= D.min() + 2 * e)[0]
    mon.check(int(a) in near and (not exact or int(a) == near[0]), 'argmin', 'position %r, expected %d' % (
        a, near[0]))
    mon.check((D <= thr - e).sum() <= int(c) <= (D <= thr + e).sum(), 'count', 'count %r, expected %d' % (
        c, (D <= thr).sum()))
    mon.ev(('feat', multi, W.shape, bool(exact), (D == D.min()).sum() > 1, bool((D == thr).any())))


def do_feat1(rng, mon, cm):
    T, L, d, phase = setting(rng)
    W = wins(series(rng, T)[0], L, d, phase)[None]
    feats(rng, mon, cm.apply_one_shapelet_one_sample_univariate, W, shapelet(rng, L, False), False)


def do_feat2(rng, mon, cm):
    T, L, d, phase = setting(rng)
    k = int(rng.integers(1, 4))
    W = np.stack([wins(series(rng, T)[0], L, d, phase) for _ in range(k)])
    feats(rng, mon, cm.apply_one_shapelet_one_sample_multivariate, W, shapelet(rng, L, False, k), True)


def zseries(rng, T):
    if rng.random() < 0.25:
        return np.full(T, float(rng.integers(-50, 51)) / 4), 'constant'
    x = rng.normal(size=T) * float(rng.choice([0.1, 1, 30])) + float(rng.choice([0, 5, -300]))
    return x, 'varying' if x.std() > 0.01 else 'flat'


def zjudge(mon, x0, z, kind):
    z = np.asarray(z, dtype=float)
    mon.check(z.shape == x0.shape and np.isfinite(z).all(), 'znorm-shape', 'normalised series of shape %s' % (z.shape,))
    if kind == 'constant':
        mon.check(np.abs(z).max() < 1e-4, 'znorm-constant', 'constant series normalised to %r' % z[:3])
    elif kind == 'varying':
        mon.check(abs(z.mean()) < 1e-7 and abs(z.std() - 1) < 1e-5, 'znorm', 'normalised mean %r deviation %r' % (
            z.mean(), z.std()))
        e = (x0 - x0.mean()) / x0.std()
        mon.check(np.abs(z - e).max() < 1e-4, 'znorm-values', 'normalised values differ from the definition')
    mon.ev(('znorm', kind, len(x0)))


def do_znorm(rng, mon, du):
    n, k, T = int(rng.integers(1, 5)), int(rng.integers(1, 4)), int(rng.integers(2, 30))
    S = [[zseries(rng, T) for _ in range(k)] for _ in range(n)]
    X = np.array([[c[0] for c in s] for s in S])
    b = X.copy()
    Z = np.asarray(du.z_norm_3D(X))
    mon.check(Z.shape == b.shape, 'znorm-shape', 'shape %s, expected %s' % (Z.shape, b.shape))
    for i in range(n):
        for c in range(k):
            zjudge(mon, b[i, c], Z[i, c], S[i][c][1])


def do_zlist(rng, mon, du):
    n, k = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    S = []
    for i in range(n):
        T = int(rng.integers(2, 30))
        S.append([zseries(rng, T) for _ in range(k)])
    X = [np.array([c[0] for c in s]) for s in S]
    if rng.random() < 0.4:
        O = np.empty(n, dtype=object)
        for i in range(n):
            O[i] = X[i]
        X = O
    b = [np.array(x) for x in X]
    Z = du.z_norm_3D_list(X)
    mon.check(len(Z) == n, 'znorm-shape', '%d series, expected %d' % (len(Z), n))
    for i in range(n):
        for c in range(k):
            zjudge(mon, b[i][c], Z[i][c], S[i][c][1])

"""Reference definitions, written from the method's description with numpy."""
import numpy as np

EPS = np.finfo(float).eps


class Shp:
    __slots__ = ('i', 'L', 'd', 'thr', 'norm', 'values', 'channels')

    def key(self):
        return (self.L, self.d, self.norm)


def shapelets(model):
    """The fitted shapelets as a list, from the public attribute."""
    t = model.shapelets_
    out = []
    if len(t) == 5:
        values, lengths, dil, thr, norm = t
        for i in range(len(lengths)):
            s = Shp()
            s.i, s.L, s.d, s.thr, s.norm = i, int(lengths[i]), int(dil[i]), float(thr[i]), bool(norm[i])
            s.values = [np.array(values[i][:s.L], float)]
            s.channels = [0]
            out.append(s)
    else:
        values, lengths, dil, thr, norm, nch, ch = t
        a = b = 0
        for i in range(len(lengths)):
            s = Shp()
            s.i, s.L, s.d, s.thr, s.norm = i, int(lengths[i]), int(dil[i]), float(thr[i]), bool(norm[i])
            k = int(nch[i])
            s.values = [np.array(values[a + q * s.L:a + (q + 1) * s.L], float) for q in range(k)]
            s.channels = [int(c) for c in ch[b:b + k]]
            a += k * s.L
            b += k
            out.append(s)
    return out


def snapshot(model):
    return [np.array(a, copy=True) for a in model.shapelets_]


def same_shapelets(a, b, exact=True):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape:
            return False
        if exact:
            if not np.array_equal(x, y):
                return False
        elif not np.allclose(x, y, rtol=1e-9, atol=1e-12):
            return False
    return True


def n_windows(T, L, d, phase):
    return T if phase else T - (L - 1) * d


def index_matrix(T, L, d, phase):
    n = n_windows(T, L, d, phase)
    if n <= 0:
        return np.zeros((0, L), dtype=int)
    idx = np.arange(n)[:, None] + np.arange(L)[None, :] * d
    return idx % T if phase else idx


def windows(x, L, d, phase):
    return np.asarray(x, float)[index_matrix(len(x), L, d, phase)]


def znorm_rows(W):
    m = W.mean(axis=1, keepdims=True)
    s = W.std(axis=1, keepdims=True)
    return (W - m) / (s + 1e-8)


def norm_tol(W):
    """Bound of the rounding error of one normalised window's sum of differences."""
    L = W.shape[1]
    mx = np.abs(W).max(axis=1)
    s = W.std(axis=1) + 1e-8
    return 32 * EPS * L * (mx / s) * (1 + np.abs(W - W.mean(axis=1, keepdims=True)).max(axis=1) / s) + 1e-12


def dist_vector(x, s, phase):
    """x: (n_features, T). Returns distances and an error bound per window."""
    D = tol = None
    for v, c in zip(s.values, s.channels):
        W = windows(x[c], s.L, s.d, phase)
        if s.norm:
            Z = znorm_rows(W)
            t = norm_tol(W)
        else:
            Z = W
            integral = np.all(W == np.rint(W)) and np.all(v == np.rint(v)) and (
                W.size == 0 or np.abs(W).max() < 2 ** 40)
            t = np.zeros(len(W)) if integral else 8 * EPS * s.L * (
                np.abs(W).max(axis=1) + np.abs(v).max() if W.size else np.zeros(0))
        dd = np.abs(Z - v[None, :]).sum(axis=1)
        D = dd if D is None else D + dd
        tol = t if tol is None else tol + t
    if s.norm:
        tol = tol + 8 * EPS * s.L * len(s.values) * (1 + D)
    return D, tol


def judge_features(mon, x, s, phase, feats, tag, scale=1.0):
    """The three features of one series for one shapelet against the definition.

    scale divides position and count (1 unless output is normalised).
    Returns the situation signature (what was exercised)."""
    D, tol = dist_vector(x, s, phase)
    fmin, farg, fcnt = [float(v) for v in feats]
    n = len(D)
    up = (D + tol).min()
    info = dict(length=s.L, dilation=s.d, norm=s.norm, phase=phase, threshold=s.thr, channels=s.channels,
                values=s.values, series=x, got=feats, shapelet=s.i,
                expected=(D.min(), int(D.argmin()), int((D <= s.thr).sum())))
    if not (np.isfinite(fmin) and (D - tol).min() <= fmin <= up):
        mon.fail(tag + 'min', 'minimum distance %r, expected %r (length %d dilation %d norm %s phase %s)' % (
            fmin, D.min(), s.L, s.d, s.norm, phase), **info)
    a = farg * scale
    ia = int(round(a))
    if abs(a - ia) > 1e-6 or not 0 <= ia < n:
        mon.fail(tag + 'argmin', 'position of the minimum %r outside of the %d windows' % (farg, n), **info)
    if D[ia] - tol[ia] > up:
        mon.fail(tag + 'argmin', 'position of the minimum %d, expected %d' % (ia, D.argmin()), **info)
    # earliest position, wherever that is decidable
    earlier = np.where(D[:ia] + tol[:ia] < D[ia] - tol[ia])[0]
    if len(earlier):
        mon.fail(tag + 'argmin', 'position %d but %d is nearer' % (ia, earlier[0]), **info)
    exact0 = np.where((tol[:ia] == 0) & (D[:ia] <= D[ia]))[0] if tol[ia] == 0 else np.zeros(0, int)
    if len(exact0):
        mon.fail(tag + 'argmin-tie', 'position %d is not the first minimum (%d)' % (ia, exact0[0]), **info)
    tie = False
    if ia > 0 and tol[ia] > 0:
        idx = index_matrix(x.shape[1], s.L, s.d, phase)
        same = np.ones(ia, bool)
        for c in s.channels:
            W = x[c][idx[:ia + 1]]
            same &= (W[:ia] == W[ia][None, :]).all(axis=1)
        if same.any():
            mon.fail(tag + 'argmin-tie', 'position %d is not the first of identical windows (%d)' % (
                ia, int(np.argmax(same))), **info)
    tie = bool((D == D.min()).sum() > 1)
    c = fcnt * scale
    lo = int((D + tol <= s.thr).sum())
    hi = int((D - tol <= s.thr).sum())
    if abs(c - round(c)) > 1e-6 or not lo <= round(c) <= hi:
        mon.fail(tag + 'count', 'occurrence count %r, expected %d%s' % (fcnt, lo, '' if lo == hi else '..%d' % hi),
                 **info)
    eq = bool(((D == s.thr) & (tol == 0)).any())
    mon.count('distance_values', n)
    if tie:
        mon.count('tied_minimum')
    if eq:
        mon.count('distance_equal_threshold')
    if ia == n - 1:
        mon.count('minimum_in_last_window')
    if ia == 0:
        mon.count('minimum_in_first_window')
    if n == 1:
        mon.count('single_window')
    if lo == n:
        mon.count('all_windows_match')
    if lo == 0:
        mon.count('no_window_matches')
    return (s.L, s.d, s.norm, phase, tie, eq, n, len(s.channels), ia == n - 1, lo == 0, lo == n)


def sources(X, s, phase, rtol=1e-7):
    """All (series, start) positions of the training data a shapelet may come from."""
    out = []
    for i, x in enumerate(X):
        T = x.shape[1]
        n = n_windows(T, s.L, s.d, phase)
        if n <= 0:
            continue
        ok = np.ones(n, bool)
        idx = index_matrix(T, s.L, s.d, phase)
        for v, c in zip(s.values, s.channels):
            if c < 0 or c >= x.shape[0]:
                ok[:] = False
                break
            W = x[c][idx]
            if s.norm:
                Z = znorm_rows(W)
                t = np.maximum(norm_tol(W), rtol)[:, None]
                ok &= (np.abs(Z - v) <= t).all(axis=1)
            else:
                ok &= (W == v).all(axis=1)
        out += [(i, int(k)) for k in np.where(ok)[0]]
    return out


def primes_and_one(n):
    return [k for k in range(1, n + 1) if k == 1 or (k > 1 and all(k % q for q in range(2, int(k ** 0.5) + 1)))]


def resolve_lengths(p, min_len):
    """Allowed shapelet lengths for these parameters (documented rules)."""
    b = p.get('shapelet_lengths_bounds')
    if b is None:
        a = np.asarray(p.get('shapelet_lengths', [11]))
        L = np.floor(min_len * a).astype(int) if a.dtype.kind == 'f' else a.astype(int)
    else:
        b0, b1 = b
        b0 = int(b0 * min_len) if isinstance(b0, float) else int(b0)
        b1 = int(b1 * min_len) if isinstance(b1, float) else int(b1)
        L = np.arange(max(3, b0), max(4, max(b0 + 1, b1 + 1)))
        r = p.get('lengths_bounds_reduction', 0.5)
        if len(L) > 3:
            k = int(len(L) * r)
            if k > 0:
                L = L[::len(L) // k]
    L = np.where(L > min_len, min_len // 2, L)
    return L

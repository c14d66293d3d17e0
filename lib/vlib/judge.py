"""Judges of fitted shapelets, shared by several checks. All speak about public, observable facts."""
import numpy as np
from . import ref


def legal(mon, p, shp, min_len, n_ft, kind, lengths=None, tag=''):
    """lengths, dilations, channels and counts allowed by the parameters."""
    L = set(int(v) for v in (ref.resolve_lengths(p, min_len) if lengths is None else lengths))
    mon.check(len(shp) <= p['n_shapelets'], tag + 'too-many', '%d shapelets for n_shapelets=%d' % (
        len(shp), p['n_shapelets']))
    for s in shp:
        mon.check(s.L in L, tag + 'length', 'shapelet of length %d, allowed %s' % (s.L, sorted(L)), params=p)
        mon.check(s.d >= 1 and (s.L - 1) * s.d <= min_len - 1, tag + 'span',
                  'length %d with dilation %d does not fit in %d timestamps' % (s.L, s.d, min_len), params=p)
        if p.get('prime_dilations'):
            mon.check(s.d in ref.primes_and_one(s.d), tag + 'prime', 'dilation %d is neither 1 nor prime' % s.d, params=p)
        mx = p.get('max_channels') or n_ft
        mon.check(1 <= len(s.channels) <= mx, tag + 'n-channels', '%d channels, at most %d allowed' % (
            len(s.channels), mx), params=p)
        mon.check(len(set(s.channels)) == len(s.channels) and all(0 <= c < n_ft for c in s.channels),
                  tag + 'channels', 'channels %s of %d' % (s.channels, n_ft), params=p)
        if p.get('proba_norm', 0.8) <= 0:
            mon.check(not s.norm, tag + 'norm', 'normalised shapelet with proba_norm=0')
        if p.get('proba_norm', 0.8) >= 1:
            mon.check(s.norm, tag + 'norm', 'raw shapelet with proba_norm=1')


def aligned(mon, model, shp, tag=''):
    t = [np.asarray(a) for a in model.shapelets_]
    n = len(t[1])
    mon.check(all(len(a) == n for a in (t[1:5] if len(t) == 5 else t[1:6])), tag + 'aligned',
              'parameter arrays of different lengths: %s' % [a.shape for a in t])
    if len(t) == 5:
        mon.check(t[0].ndim == 2 and t[0].shape[0] == n and all(s.L <= t[0].shape[1] for s in shp), tag + 'aligned',
                  'values of shape %s for %d shapelets' % (t[0].shape, n))
    else:
        mon.check(len(t[0]) == int((t[1].astype(np.int64) * t[5]).sum()) and len(t[6]) == int(t[5].sum()),
                  tag + 'aligned', 'values/channels arrays do not match lengths and channel counts')
    for a in t[1:3]:
        mon.check(np.all(a == np.rint(a.astype(float))), tag + 'aligned', 'non integer length or dilation')


def never_exhausted(p, lens, L):
    """Conservatively: the sampling space cannot be exhausted by n_shapelets draws."""
    L = [int(v) for v in L]
    if p['alpha'] == 0 and len(set(L)) == 1:
        return True
    Lm, n = max(L), p['n_shapelets']
    if p['phase_invariance']:
        return sum(lens) > n * 2 * Lm
    worst = min(len(lens) * (min(lens) - (l - 1) * ((min(lens) - 1) // (l - 1))) for l in L)
    return worst > n * 2 * Lm


def thresholds(mon, p, X, y, shp, phase, srcs, tag='', subsampled=False):
    """Judge every threshold; returns the relative position of those with a unique explanation."""
    us = []
    lo_p, hi_p = p['percentiles']
    for s in shp:
        ok, cand = False, {}
        for i in sorted(set(q[0] for q in srcs[s.i])):
            js = [j for j in range(len(X)) if y[j] == y[i] and j != i] or [i]
            if subsampled and i not in js:
                js = js + [i]      # the only member of its class that was kept
            for j in js:
                if j not in cand:
                    D, tol = ref.dist_vector(X[j], s, phase)
                    if len(D) == 0:
                        continue
                    a, b = np.percentile(D, [lo_p, hi_p])
                    e = tol.max() + 1e-9 * max(1.0, abs(b))
                    cand[j] = (a, b, e)
                    if a - e <= s.thr <= b + e:
                        ok = True
        if not srcs[s.i]:
            continue
        mon.check(ok, tag + 'threshold', 'threshold %r of shapelet %d is outside of the %s percentiles of every same-class '
                  'distance vector %s' % (s.thr, s.i, [lo_p, hi_p], {k: v[:2] for k, v in cand.items()}),
                  source=srcs[s.i], labels=y, length=s.L, dilation=s.d, norm=s.norm, params=p)
        if len(cand) == 1:
            a, b, e = list(cand.values())[0]
            if b - a > 1e3 * e:
                us.append((s.thr - a) / (b - a))
    return us


def overlap(mon, p, X, shp, srcs, phase, tag=''):
    """Start positions of equal shapelets are far enough; returns number of judged pairs."""
    alpha = p['alpha']
    groups, pairs, tight = {}, 0, 0
    for s in sorted(shp, key=lambda s: s.i):
        if len(srcs[s.i]) != 1:
            continue
        i, k = srcs[s.i][0]
        T = X[i].shape[1]
        lim = s.L - max(1, int(np.floor((1 - alpha) * s.L + 1e-9)))
        prev = groups.setdefault((s.L, s.d, s.norm, i), [])
        blocked = set()
        for (k0, ch0, i0) in prev:
            if not set(ch0) & set(s.channels):
                continue
            pairs += 1
            if phase:
                near = any((k0 + j * s.d) % T == k or (k0 - j * s.d) % T == k for j in range(max(0, lim)))
            else:
                near = lim > 0 and (k - k0) % s.d == 0 and abs(k - k0) // s.d < lim
            if not near and (k - k0) % s.d == 0:
                tight += abs(k - k0) // s.d == lim
            if near:
                blocked |= set(ch0) & set(s.channels)
        free = len(s.channels) - len(blocked)
        if len(s.channels) == 1 and len(X[i]) == 1:
            mon.check(not blocked, tag + 'overlap', 'two shapelets of length %d, dilation %d from series %d start at %d '
                      'and too near at %s (alpha=%s needs %d steps)' % (
                          s.L, s.d, i, k, [q[0] for q in prev], alpha, lim), params=p)
        else:
            mon.check(free >= alpha * len(s.channels) - 1e-9, tag + 'overlap-channels',
                      'only %d of %d channels are free of conflicts (alpha=%s)' % (free, len(s.channels), alpha),
                      previous=prev, start=k, channels=s.channels, params=p)
        prev.append((k, tuple(s.channels), s.i))
    return pairs, tight


def provenance(mon, X, shp, phase, tag='', require=True):
    srcs = {}
    for s in shp:
        srcs[s.i] = ref.sources(X, s, phase)
        if require:
            mon.check(len(srcs[s.i]) > 0, tag + 'provenance', 'shapelet %d (length %d, dilation %d, normalised %s, channels '
                      '%s) is no window of any training series' % (s.i, s.L, s.d, s.norm, s.channels),
                      values=s.values, phase=phase, lengths=[x.shape[1] for x in X])
    return srcs

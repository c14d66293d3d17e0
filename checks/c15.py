"""Monitor of the lengths observed in fitted shapelets against the documented length settings."""
import warnings
import numpy as np
from vlib import env, gen, ref, work, nbrt
from vlib.runner import Skip

ID = 'C15'
RULE = ('one evaluation = one length setting resolved on one training set (allowed set, completeness, warning or '
        'rejection); distinct = (kind, style, series length, resolved set)')
BUDGET = {'quick': (1300, 50), 'thorough': (16000, 780)}
CHUNK = 4
ASSUMPTIONS = ['a length of the allowed set is called missing when at least 40 shapelets of it were expected']


def prepare(tier):
    env.setup()


def expected(style, setting, reduction, T):
    """the documented rules, written from the documentation; None: must be refused"""
    if style in ('ints', 'tooint', 'low'):
        L = [int(v) for v in setting]
    elif style in ('relative', 'lowrel'):
        L = [int(np.floor(v * T)) for v in setting]
    else:
        lo, hi = setting
        lo = int(np.floor(lo * T)) if isinstance(lo, float) else lo
        hi = int(np.floor(hi * T)) if isinstance(hi, float) else hi
        lo = max(3, lo)
        L = list(range(lo, max(hi, lo) + 1))
        if len(L) > 3:
            k = int(len(L) * reduction)
            if k > 0:
                L = L[::len(L) // k]
    if min(L) < 2:
        return None, False
    warn = max(L) > T
    return sorted(set(T // 2 if v > T else v for v in L)), warn


def case(rng, tier, mon):
    kind = gen.KINDS[mon.idx % 4]
    style = ['ints', 'relative', 'bounds', 'relbounds', 'mixbounds', 'tooint', 'bounds', 'low', 'lowrel', 'relbounds',
             'toobounds'][(mon.idx // 4) % 11]
    T = int(rng.integers(4, 30))
    nft = 1 if kind in ('u', 'uv') else int(rng.integers(2, 4))
    n = 24
    if kind in ('u', 'm'):
        X = gen.dataset(rng, kind, n, nft, T, 'normal')
    else:
        lens = rng.integers(T, T + 12, size=n)
        lens[int(rng.integers(0, n))] = T
        X = [rng.normal(size=(nft, int(t))) for t in lens]
    y = np.arange(n) % 3
    red = float(rng.choice([0.0, 0.1, 0.25, 0.34, 0.5, 0.6, 0.75, 0.9, 0.99]))
    p = dict(lengths_bounds_reduction=red)
    if style == 'ints':
        st = [int(v) for v in rng.integers(2, T + 1, size=int(rng.integers(1, 4)))]
    elif style == 'relative':
        st = [float(v) for v in np.round(rng.uniform(2.0 / T, 1.0, size=int(rng.integers(1, 4))), 3)]
        if rng.random() < 0.3:
            st[0] = 1.0
        if rng.random() < 0.3:
            st[-1] = float(rng.choice([0.5, 0.25 if T >= 8 else 0.5, 0.75]))
    elif style == 'tooint':
        st = [int(rng.integers(T + 1, T + 20)), int(rng.integers(2, T + 1))][:int(rng.integers(1, 3))]
    elif style == 'low':
        st = [[1], [1, 3], [0], [-2], [3, 1], [4, 0, 3]][int(rng.integers(0, 6))]
    elif style == 'lowrel':
        st = [float(rng.uniform(0.0, 1.9 / T))] + ([0.5] if rng.random() < .5 else [])
    elif style == 'bounds':
        a = sorted(int(v) for v in rng.integers(2, T + 1, size=2))
        st = a
    elif style == 'relbounds':
        st = sorted(float(v) for v in np.round(rng.uniform(0.05, 1.0, size=2), 2))
    elif style == 'mixbounds':
        a = int(rng.integers(3, T + 1))
        st = [a, float(rng.choice([1.0, 0.9]))]
        if int(st[1] * T) < a:
            st[1] = 1.0
        if rng.random() < 0.5:
            st = [round(float(rng.uniform(0.05, a / T)), 2), a]
    else:
        st = [int(rng.integers(3, T + 1)), int(rng.integers(T + 1, T + 9))]
    key = 'shapelet_lengths_bounds' if 'bounds' in style else 'shapelet_lengths'
    p[key] = [v for v in st]
    if key == 'shapelet_lengths' and rng.random() < 0.3:
        p[key] = np.asarray(st)
    elif any(isinstance(v, float) for v in st) and rng.random() < 0.3:
        # the same setting in a narrower float type (dyadic fractions: exact in it)
        st = [max(1, round(v * 64)) / 64 if isinstance(v, float) else v for v in st]
        narrow = [np.float32, np.float64, np.float16][int(rng.integers(0, 3))]
        p[key] = ([narrow(v) if isinstance(v, float) else v for v in st] if 'bounds' in style or rng.random() < 0.5
                  else np.asarray(st, dtype=narrow))
        mon.count('narrow_float_settings')
    L, warn = expected(style, st, red, T)
    if L and min(L) < 2:
        L = None            # the half of a very short series: not admissible
        raise Skip
    nshp = 60 * len(L) if L else 10
    nshp = min(nshp, 600)
    p.update(n_shapelets=nshp, alpha=0.0, proba_norm=float(rng.choice([0.0, 0.5, 1.0])), phase_invariance=True,
             random_state=int(rng.integers(0, 1 << 30)))
    mon.describe(kind=kind, style=style, T=T, setting=st, reduction=red, expected=L)
    d = dict(setting=st, reduction=red, T=T, kind=kind)
    nbrt.reset(entropy=int(rng.integers(0, 1 << 30)))
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter('always')
        try:
            m = work.new_model(p) if not isinstance(p[key], np.ndarray) else __import__(
                'convst.transformers', fromlist=['R_DST']).R_DST(**p)
            m.fit(X, y)
        except ValueError as e:
            mon.check(L is None, 'refused', 'lengths %s are refused for %d timestamps: %s' % (st, T, e), **d)
            mon.ev(('refused', kind, style, T))
            mon.count('refused')
            return
    seen = [w for w in seen if issubclass(w.category, UserWarning)]
    mon.check(L is not None, 'accepted', 'lengths %s are accepted for %d timestamps' % (st, T), **d)
    mon.check(bool(seen) or not warn, 'no-warning', 'lengths %s exceed %d timestamps without any warning' % (st, T), **d)
    mon.check(not seen or warn, 'warning', 'a warning for admissible lengths: %s' % [str(w.message)[:80] for w in seen], **d)
    got = {}
    for s in ref.shapelets(m):
        got[s.L] = got.get(s.L, 0) + 1
    mon.check(set(got) <= set(L), 'length', 'shapelets of lengths %s, allowed %s' % (sorted(got), L), **d)
    if sum(got.values()) >= nshp * 0.9 and nshp / len(L) >= 40:
        mon.check(set(got) == set(L), 'missing-length', 'no shapelet of lengths %s among %d' % (
            sorted(set(L) - set(got)), nshp), got=got, **d)
        mon.count('complete_sets')
    mon.count('replaced_by_half', warn)
    mon.count('thinned', 'bounds' in style and red > 0)
    mon.ev((kind, style, T, tuple(L)))

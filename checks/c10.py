"""Similarity monitor: distances between start positions of equal shapelets."""
import numpy as np
from vlib import env, gen, ref, work, judge

ID = 'C10'
RULE = ('one evaluation = one fitted model whose equal shapelets were compared pairwise; distinct = (kind, alpha, '
        'lengths, phase, max channels, number of judged pairs > 0, a pair at exactly the limit)')
BUDGET = {'quick': (3000, 65), 'thorough': (50000, 700)}
CHUNK = 5


def prepare(tier):
    env.setup()


def saturate(rng, mon, kind):
    """Only one dilation fits and many more shapelets are requested than there is room for: in the end every start
    must be taken or too near to one that is."""
    L = int(rng.integers(3, 8))
    T = int(rng.integers(L + 1, 2 * L - 1)) if L > 3 else L + 1
    n, ft = int(rng.integers(1, 4)), int(rng.integers(1, 4)) if kind in ('m', 'mv') else 1
    alpha = float(rng.choice([0.0, 0.05, 0.1, 0.25, 0.5, 0.6, 0.75, 0.8, 0.9, 1.0, float(np.round(rng.random(), 3))]))
    phase, mxc = bool(rng.integers(0, 2)), int(rng.integers(1, ft + 1))
    pn = float(rng.choice([0.0, 1.0, 0.5]))
    X = [rng.normal(size=(ft, T + (int(rng.integers(0, 6)) if kind in ('uv', 'mv') and i else 0))) for i in range(n)]
    lens = [x.shape[1] for x in X]
    room = sum(t if phase else t - L + 1 for t in lens)
    want = int(room * ft * mxc * (3 if pn in (0.0, 1.0) else 6)) + 60
    p = dict(alpha=alpha, shapelet_lengths=[L], n_shapelets=want, phase_invariance=phase, proba_norm=pn, percentiles=[5, 10],
             random_state=int(rng.integers(0, 1 << 30)), n_jobs=1, prime_dilations=bool(rng.integers(0, 2)))
    if ft > 1:
        p['max_channels'] = mxc
    y = gen.labels(rng, n)
    model = work.new_model(p).fit(X if kind in ('uv', 'mv') else np.array(X), y)
    shp = ref.shapelets(model)
    srcs = judge.provenance(mon, X, shp, phase)
    pairs, tight = judge.overlap(mon, p, X, shp, srcs, phase)
    lim = L - max(1, int(np.floor((1 - alpha) * L - 1e-9))) if alpha else 0
    mon.describe(kind=kind, saturated=True, params=p, lens=lens, returned=len(shp))
    if mxc == 1 and lim > 0:
        mon.check(len(shp) < want, 'more-than-room', '%d shapelets returned' % len(shp), params=p)
    if any(len(v) != 1 for v in srcs.values()):
        return mon.count('ambiguous')
    if lim <= 0:
        mon.check(len(shp) == want, 'alpha0', '%d of %d shapelets although nothing is excluded' % (len(shp), want), params=p)
    for norm in (False, True):
        if pn == 1 - norm:
            continue
        for i, x in enumerate(X):
            for c in range(ft):
                at = sorted(srcs[s.i][0][1] for s in shp if bool(s.norm) == norm and srcs[s.i][0][0] == i and c in s.channels)
                for k in range(lens[i] if phase else lens[i] - L + 1):
                    dist = [min((k - a) % lens[i], (a - k) % lens[i]) if phase else abs(k - a) for a in at]
                    mon.check(any(v < max(lim, 1) for v in dist) or lim <= 0, 'excluded', 'no shapelet of length %d starts at %d of series %d, '
                              'channel %d, nor within %d steps of it, and only %d of %d shapelets were returned (starts %s, alpha %s)' % (
                                  L, k, i, c, lim, len(shp), want, at, alpha), params=p)
                    mon.count('starts_checked')
    mon.count('pairs', pairs)
    mon.ev((kind, 'saturated', alpha, L, T, phase, mxc, pn))


def case(rng, tier, mon):
    kind = gen.KINDS[mon.idx % 4]
    if mon.idx // 4 % 5 == 2:
        return saturate(rng, mon, kind)
    n = int(rng.choice([1, 1, 2, 3]))
    T = int(rng.choice([8, 12, 20, 30, 45]))
    alpha = float(rng.choice([0.0, 0.1, 0.25, 0.5, 0.5, 0.75, 0.8, 0.9, 1.0, float(np.round(rng.random(), 3))]))
    k = int(rng.choice([1, 1, 1, 2, 3]))
    Ls = [int(v) for v in rng.integers(3, max(4, min(T // 2, 9)), size=k)]
    params = dict(alpha=alpha, shapelet_lengths=Ls, shapelet_lengths_bounds=None, percentiles=[5, 10])
    ft = int(rng.choice([1, 2, 3, 4, 5, 6])) if kind in ('m', 'mv') else 1
    if kind in ('m', 'mv'):
        params['max_channels'] = int(rng.integers(1, ft + 1))
    kw = dict(family=str(rng.choice(['normal', 'unique'])), n=n, n_ft=ft, n_ts=T, params=params,
              n_shp=int(rng.choice([10, 30, 60, 120])))
    sc = work.scaled(rng, mon, kind, 21, only=['long', 'dilation', 'timestamps', 'series', 'shapelets'] + (
        ['channels'] if kind in ('m', 'mv') else []), at=9)
    if sc:
        kw = sc[1]
        if sc[0] == 'shapelets':
            kw['n_ts'] = int(rng.choice([130, 200, 400]))
        p = kw['params'] = dict(kw['params'], alpha=alpha)
        Ls, T = p['shapelet_lengths'], kw['n_ts']
    w = work.build(rng, fit=False, **dict(kw, kind=kind))
    if w.p.get('shapelet_lengths_bounds', 0) is None:
        w.p.pop('shapelet_lengths_bounds')
    model = work.new_model(w.p).fit(w.X, w.y)
    shp = ref.shapelets(model)
    srcs = judge.provenance(mon, w.X, shp, w.phase, require=False)
    mon.count('shapelets_on_more_than_3_channels', sum(len(s.channels) > 3 for s in shp))
    pairs, tight = judge.overlap(mon, w.p, w.X, shp, srcs, w.phase)
    if alpha == 0 and len(set(Ls)) == 1:
        mon.check(len(shp) == w.p['n_shapelets'], 'alpha0', 'alpha 0 must not limit the sampling: %d of %d shapelets' % (
            len(shp), w.p['n_shapelets']), params=w.p)
        mon.count('alpha_zero')
    mon.count('pairs', pairs)
    mon.count('pairs_at_the_limit', tight)
    mon.count('shapelets', len(shp))
    mon.count('exhausted', len(shp) < w.p['n_shapelets'])
    mon.count('unambiguous', sum(len(v) == 1 for v in srcs.values()))
    mon.ev((kind, alpha, tuple(Ls), w.phase, w.p.get('max_channels'), pairs > 0, tight > 0))
    mon.describe(kind=kind, alpha=alpha, lengths=Ls, T=T, phase=w.phase, pairs=pairs,
                 starts=[srcs[s.i][:1] for s in shp][:10])

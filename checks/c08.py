"""Monitor of the parameters of every fitted shapelet."""
import numpy as np
from vlib import env, gen, ref, work, judge

ID = 'C08'
RULE = ('one evaluation = one fitted shapelet set judged against its parameters (legality, alignment, count, no '
        'placeholder); distinct = (kind, lengths allowed, prime, phase, channels, exhausted or not)')
BUDGET = {'quick': (3500, 40), 'thorough': (60000, 700)}
CHUNK = 5
ASSUMPTIONS = ['the exact count is demanded only where n_shapelets draws can provably not exhaust the sampling space '
               'and no training window is constant (identically zero windows are dropped by design)']


def prepare(tier):
    env.setup()


def case(rng, tier, mon):
    kind = gen.KINDS[mon.idx % 4]
    m = (mon.idx // 4) % 6
    kw, params = {}, {}
    if m == 0:       # cannot be exhausted: exact count
        kw = dict(family=str(rng.choice(['normal', 'walk', 'unique', 'offset'])))
        params = dict(alpha=0.0, shapelet_lengths=[int(rng.integers(2, 5))], shapelet_lengths_bounds=None,
                      n_shapelets=int(rng.choice([1, 2, 7, 33, 64])))
    elif m == 1:     # exhausted
        kw = dict(n=int(rng.integers(1, 4)), n_ts=int(rng.integers(4, 10)),
                  family=str(rng.choice(['normal', 'unique', 'walk', 'negint'])))
        params = dict(alpha=float(rng.choice([0.8, 0.9, 1.0])), n_shapelets=120)
    elif m == 2:
        params = dict(prime_dilations=True, shapelet_lengths=[2, 3], shapelet_lengths_bounds=None)
        kw = dict(n_ts=int(rng.integers(8, 60)))
    elif m == 3:
        kw = dict(family=str(rng.choice(['normal', 'unique'])), n=int(rng.integers(6, 14)),
                  n_ts=int(rng.integers(20, 60)))
        params = dict(phase_invariance=True, n_shapelets=int(rng.integers(2, 12)))
    elif m == 4 and kind in ('uv', 'mv'):
        params = dict(min_len=None)
    kw.update(params=params)
    sc = work.scaled(rng, mon, kind, 21, at=9)
    if sc:
        kw, m = sc[1], None
    w = work.build(rng, fit=False, **dict(kw, kind=kind))
    if w.p.get('shapelet_lengths_bounds', 0) is None:
        w.p.pop('shapelet_lengths_bounds')
    min_len = w.min_len
    if m == 4 and kind in ('uv', 'mv') and w.min_len > 5:
        min_len = w.p['min_len'] = int(rng.integers(4, w.min_len))
    L = ref.resolve_lengths(w.p, min_len)
    if L.min() < 2:
        return
    zeros = 0
    if m == 0 and L[0] > 2 and rng.random() < 0.6:
        zeros = int(L[0]) - 1       # too few zeros per series for an identically zero window
        for x in w.X:
            for c in range(x.shape[0]):
                at = int(rng.integers(0, x.shape[1])) + np.arange(zeros) if rng.random() < 0.6 else rng.permutation(x.shape[1])
                x[c, at[:zeros] % x.shape[1]] = 0
        mon.count('with_zeros')
    model = work.new_model(w.p).fit(w.X, w.y)
    judge.aligned(mon, model, None or ref.shapelets(model))
    shp = ref.shapelets(model)
    judge.legal(mon, w.p, shp, min_len, w.n_ft, kind, lengths=L)
    # any fitted shapelet is a sampled one (an unsampled placeholder has no source)
    if w.family in ('normal', 'walk', 'unique', 'offset', 'negint'):
        srcs = judge.provenance(mon, w.X, shp, w.phase, tag='placeholder-')
        # threshold and values of one position belong to one shapelet
        judge.thresholds(mon, w.p, [np.asarray(x, float) for x in w.X], w.y, shp, w.phase, srcs, tag='aligned-')
        for s in shp:
            mon.check(w.family == 'negint' or np.any(np.concatenate(s.values) != 0), 'placeholder', 'a shapelet without values was returned')
    full = judge.never_exhausted(w.p, w.lens, L) and w.family in ('normal', 'walk', 'unique', 'offset')
    if full:
        mon.check(len(shp) == w.p['n_shapelets'], 'missing', '%d shapelets returned, %d requested, sampling space not '
                  'exhausted' % (len(shp), w.p['n_shapelets']), params=w.p, kind=kind, lengths=w.lens)
        mon.count('exact_count_judged')
    mon.count('exhausted', len(shp) < w.p['n_shapelets'])
    mon.count('shapelets', len(shp))
    mon.count('dilations_above_1', sum(s.d > 1 for s in shp))
    mon.count('largest_fitting_span', sum((s.L - 1) * (s.d + 1) > min_len - 1 for s in shp))
    mon.ev((kind, tuple(sorted(set(L.tolist()))), w.p['prime_dilations'], w.phase, w.n_ft, w.p.get('max_channels'),
            len(shp) < w.p['n_shapelets'], full, zeros))
    mon.describe(kind=kind, min_len=min_len, params=w.p, returned=len(shp), lengths=[s.L for s in shp][:8],
                 dilations=[s.d for s in shp][:8])

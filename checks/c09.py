"""Threshold monitor: same class, another series, percentile range, coverage."""
import numpy as np
from vlib import env, gen, ref, work, judge

ID = 'C09'
RULE = ('one evaluation = one threshold compared with the percentile range of every admissible same-class distance '
        'vector; distinct = (kind, class size, percentiles, length, dilation, normalised, phase)')
BUDGET = {'quick': (3000, 45), 'thorough': (50000, 700)}
CHUNK = 5


def prepare(tier):
    env.setup()


def case(rng, tier, mon):
    kind = gen.KINDS[mon.idx % 4]
    m = (mon.idx // 4) % 5
    fam = str(rng.choice(['normal', 'unique', 'walk', 'offset']))
    n = int(rng.choice([2, 4, 6]))
    if m == 0:
        y = np.arange(n) // 2                      # pairs: exactly one other member
    elif m == 1:
        y = np.arange(n) * 3 - 1                   # singletons: the series itself
    elif m == 2:
        y = np.array([0] * (n - 1) + [5])
    else:
        y = gen.labels(rng, n)
    y = rng.permutation(y)
    pc = [[5, 10], [0, 0], [100, 100], [10, 90], [0, 100], [40, 60], [33.3, 34.5], [90, 95]][int(rng.integers(0, 8))]
    cover = m == 3
    params = dict(percentiles=pc)
    n_shp = int(rng.choice([5, 15, 30]))
    kw = {}
    if cover:
        n_shp, kw = 90, dict(n_ts=24)
        y = rng.permutation(np.arange(n) // 2)
        pc = [[10, 90], [33, 34.5], [50, 51.5], [0, 100]][(mon.idx // 20) % 4]
        params = dict(percentiles=pc, shapelet_lengths=[4], shapelet_lengths_bounds=None, alpha=0.0)
    # series of one class are shifted: a threshold from another class is visible
    kw.update(family=fam, n=n, y=y, params=params, n_shp=n_shp)
    sc = work.scaled(rng, mon, kind, 21, at=9)
    if sc:
        kw, cover = sc[1], False
        kw['params'] = dict(kw['params'], percentiles=pc)
    w = work.build(rng, fit=False, **dict(kw, kind=kind))
    n, y = w.n, w.y
    if w.p.get('shapelet_lengths_bounds', 0) is None:
        w.p.pop('shapelet_lengths_bounds')
    if rng.random() < 0.7:
        cls = {c: j for j, c in enumerate(np.unique(y))}
        for i in range(n):
            w.X[i] = w.X[i] * (1 + 3 * cls[y[i]]) + 1000.0 * cls[y[i]]
    model = work.new_model(w.p).fit(w.X, w.y)
    shp = ref.shapelets(model)
    srcs = judge.provenance(mon, w.X, shp, w.phase, require=False)
    us = judge.thresholds(mon, w.p, w.X, w.y, shp, w.phase, srcs)
    sizes = {c: int((w.y == c).sum()) for c in np.unique(w.y)}
    for s in shp:
        if srcs[s.i]:
            mon.ev((kind, sizes[w.y[srcs[s.i][0][0]]], tuple(pc), s.L, s.d, s.norm, w.phase))
    mon.count('thresholds', len(shp))
    mon.count('single_member_class', sum(sizes[w.y[srcs[s.i][0][0]]] == 1 for s in shp if srcs[s.i]))
    mon.count('unique_explanation', len(us))
    if cover and len(us) >= 60:
        mon.check(min(us) < 0.3 and max(us) > 0.7, 'coverage', 'over %d thresholds, relative positions in the percentile '
                  'range span only [%.3f, %.3f]' % (len(us), min(us), max(us)), params=w.p)
        mon.count('coverage_judged')
    mon.describe(kind=kind, labels=w.y, percentiles=w.p['percentiles'], positions=np.round(us[:8], 3))

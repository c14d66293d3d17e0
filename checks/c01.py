"""Univariate features against a definition-level oracle, window by window."""
import numpy as np
from vlib import env, gen, ref, work

ID = 'C01'
RULE = ('one evaluation = the three features of one (series, shapelet) pair compared with the definition; distinct = '
        'different (length, dilation, normalised, phase, tie, threshold-equality, window count, boundary) situations')
BUDGET = {'quick': (3000, 40), 'thorough': (12000, 700)}
CHUNK = 2
ASSUMPTIONS = ['rounding bounds of normalised windows are derived from the window values; ties and threshold '
               'equalities are judged exactly where arithmetic is exact (integer data)']


def prepare(tier):
    env.setup()


def many(rng, mon, n):
    """More shapelets than narrow integers number; one window per series, judged all at once."""
    L = int(rng.integers(4, 7))
    w = work.build(rng, kind='u', n=2, n_ts=L, family='unique', params=dict(
        n_shapelets=n, shapelet_lengths=[L], alpha=0.0, phase_invariance=False, proba_norm=0.0,
        shapelet_lengths_bounds=work.DROP))
    T = np.concatenate([w.X[:1], gen.dataset(rng, 'u', 1, 1, L, 'normal')])
    F = w.model.transform(T)
    mon.describe(large='many shapelets', shapelets=len(w.shp), params=w.p)
    mon.check(F.shape == (2, 3 * len(w.shp)), 'shape', 'feature matrix of shape %s' % (F.shape,))
    V = np.stack([s.values[0] for s in w.shp])
    thr = np.array([s.thr for s in w.shp])
    for x, f in zip(T, F):
        D = np.abs(x[0][None, :] - V).sum(axis=1)
        for nm, a, e in (('min', f[0::3], D), ('argmin', f[1::3], D * 0), ('count', f[2::3], D <= thr)):
            bad = np.where(np.abs(a - e) > 1e-9 * (1 + np.abs(e)))[0]
            mon.check(not len(bad), nm, 'shapelet %s of %d' % (bad[:3], len(V)), got=a[bad[:3]], expected=np.asarray(e)[bad[:3]])
        mon.ev(('many', len(V), L))
    mon.count('large_many_shapelets', len(w.shp))


def case(rng, tier, mon):
    if mon.idx % 4000 == 11:
        return many(rng, mon, 33000 if tier == 'quick' else 70000)
    force = {}
    m = mon.idx % 6
    fam = None
    if m == 0:      # exact arithmetic: thresholds equal to reachable distances, many ties
        fam = str(rng.choice(['ties', 'ints', 'spikes', 'step', 'unique']))
        q = float(rng.choice([0, 25, 50, 75, 100]))
        force = dict(proba_norm=0.0, percentiles=[q, q])
    elif m == 1:    # everything normalised
        force = dict(proba_norm=1.0)
    elif m == 2:    # several shapelets sharing length and dilation, half of them normalised
        force = dict(proba_norm=0.5, shapelet_lengths=[int(rng.integers(2, 6))], shapelet_lengths_bounds=None,
                     n_shapelets=25)
    big = (mon.idx % 23) == 5
    kw = dict(n_ts=int(rng.integers(6, 50))) if m == 2 else {}
    if big:
        kw = dict(n=int(rng.integers(2, 5)), n_shp=6)
    kw.update(family=fam, big=big, params=force)
    n_test, sc = 3 if big else 5, work.scaled(rng, mon, 'u', 15)
    if sc:
        kw, n_test = sc[1], 150 if sc[0] == 'series' else 2
    w = work.build(rng, **dict(kw, kind='u'))
    T = work.test_series(rng, w, n_test)
    F = w.model.transform(T)
    mon.describe(n_train=w.n, n_timestamps=w.min_len, family=w.family, params=w.p, shapelets=len(w.shp),
                 series=len(T), first_row=F[0, :6] if F.size else [])
    mon.count('shapelets', len(w.shp))
    mon.count('series', len(T))
    mon.count('normalised_pairs', sum(s.norm for s in w.shp) * len(T))
    mon.count('phase_models', w.phase)
    work.judge_matrix(mon, w.model, w.shp, T, F, w.phase)

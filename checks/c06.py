"""Memory monitor: bounds-checked execution with poisoned uninitialised memory, over boundary workloads."""
import numpy as np
from vlib import env, gen, ref, work, nbrt
from vlib.runner import Skip

ID = 'C06'
RULE = ('one evaluation = one fit or transform on a boundary workload, bounds-checked and with uninitialised memory '
        'poisoned; distinct = (kind, scenario, samples, channels, length bucket, phase, prime dilations, alpha)')
BUDGET = {'quick': (3500, 75), 'thorough': (40000, 750)}
CHUNK = 5
ASSUMPTIONS = ['arrays allocated without initialisation by the library are filled with NaN (or a huge integer) so '
               'that a read before write is visible in the result']
SCEN = ['span', 'one_sample', 'singletons', 'constant', 'exhausted', 'one_dilation', 'shortest', 'many_classes',
        'wide', 'random', 'zero_series', 'mixed_len', 'bounds', 'ridge', 'longest_test', 'huge_alpha', 'classifier_vl',
        'random', 'random', 'two_values']


def prepare(tier):
    env.setup(poison_empty=True)


def case(rng, tier, mon):
    kind = gen.KINDS[mon.idx % 4]
    sc = SCEN[(mon.idx // 4) % len(SCEN)]
    kw, force = {}, {}
    if sc == 'span':
        t = int(rng.integers(4, 20))
        kw = dict(n_ts=t)
        force = dict(shapelet_lengths=[[t], [t - 1], [t, 2], [max(2, (t + 1) // 2)]][int(rng.integers(0, 4))],
                     shapelet_lengths_bounds=None)
    elif sc == 'one_sample':
        kw = dict(n=1)
    elif sc == 'singletons':
        kw = dict(layout='singletons', n=int(rng.integers(2, 8)))
    elif sc == 'constant':
        kw = dict(family='const')
    elif sc == 'exhausted':
        kw = dict(n=int(rng.choice([1, 2, 3])), n_ts=int(rng.integers(4, 9)))
        force = dict(alpha=float(rng.choice([0.9, 1.0])), n_shapelets=int(rng.choice([60, 150, 300])))
    elif sc == 'one_dilation':
        t = int(rng.integers(4, 16))
        kw = dict(n_ts=t)
        force = dict(shapelet_lengths=[t // 2 + 2] if t // 2 + 2 <= t else [t], shapelet_lengths_bounds=None,
                     prime_dilations=bool(rng.integers(0, 2)))
    elif sc == 'shortest':
        kw = dict(n_ts=int(rng.choice([4, 5])), family=str(rng.choice(['normal', 'ties', 'ints'])))
    elif sc == 'many_classes':
        kw = dict(n=12, y=rng.permutation(12))
    elif sc == 'wide':
        kw = dict(n_ft=12 if kind in ('m', 'mv') else 1, n_ts=6)
    elif sc == 'zero_series':
        kw = dict(family='spikes')
    elif sc == 'bounds':
        t = int(rng.integers(4, 30))
        kw = dict(n_ts=t)
        b = [[0.2, 0.9], [3, t], [2, 5], [t, t], [0.5, t], [3, 3]][int(rng.integers(0, 6))]
        b = [b[0] if isinstance(b[0], float) else min(b[0], t), b[1] if isinstance(b[1], float) else min(b[1], t)]
        if not isinstance(b[0], float) and not isinstance(b[1], float) and b[0] > b[1]:
            b = [b[1], b[0]]
        force = dict(shapelet_lengths_bounds=b, lengths_bounds_reduction=float(rng.choice([0.0, 0.3, 0.5, 0.9])))
    elif sc == 'huge_alpha':
        force = dict(alpha=1.0, n_shapelets=80, max_channels=work.DROP)
    elif sc == 'longest_test' and kind in ('u', 'm'):
        sc = 'random'
    if sc == 'ridge':
        return ridge(rng, mon, kind)
    if sc == 'classifier_vl':
        return ridge(rng, mon, ['uv', 'mv'][mon.idx % 2])
    kw.update(params=force)
    large = work.scaled(rng, mon, kind, 21, at=9)
    if large:
        kw, sc = large[1], 'large_' + large[0]
    w = work.build(rng, fit=False, **dict(kw, kind=kind))
    if sc == 'zero_series':
        X = w.X
        if isinstance(X, list):
            X[0] = np.zeros_like(X[0])
        else:
            X[0] = 0
    elif sc == 'two_values':
        w.X = (w.X > 0).astype(float) if isinstance(w.X, np.ndarray) else [(x > 0).astype(float) for x in w.X]
    if 'shapelet_lengths_bounds' in w.p and w.p['shapelet_lengths_bounds'] is None:
        w.p.pop('shapelet_lengths_bounds')
    L = ref.resolve_lengths(w.p, w.min_len)
    if L.min() < 2:
        raise Skip
    mon.describe(scenario=sc, kind=kind, lengths=w.lens[:6], n=w.n, channels=w.n_ft, params=w.p, labels=w.y[:8])
    m = work.new_model(w.p, n_jobs=int(rng.choice([1, 2, 8, -1]))).fit(w.X, w.y)
    shp = ref.shapelets(m)
    mon.ev((sc, kind, w.n, w.n_ft, min(w.min_len, 16), w.phase, w.p['prime_dilations'], w.p['alpha']))
    arrs = [np.asarray(a, float) for a in m.shapelets_]
    mon.check(all(np.isfinite(a).all() for a in arrs), 'nonfinite-shapelets', 'fitted shapelets contain non finite '
              'numbers (or uninitialised memory)', shapelets=m.shapelets_)
    for what, T in (('train', w.X), ('test', work.test_series(rng, w, 3, extra=2.5 if sc == 'longest_test' else 1.3))):
        F = m.transform(T)
        mon.check(isinstance(F, np.ndarray) and F.shape == (len(T), 3 * len(shp)), 'shape',
                  'features of shape %s for %d series and %d shapelets' % (np.shape(F), len(T), len(shp)))
        mon.check(np.isfinite(F).all(), 'nonfinite', 'features are not finite')
        mon.ev((sc, what, kind, w.n, w.n_ft, min(w.min_len, 16), w.phase))
    mon.count('scenario_' + sc)
    mon.count('shapelets', len(shp))
    mon.count('models_with_fewer_shapelets', len(shp) < w.p['n_shapelets'])
    mon.count('models_without_shapelets', len(shp) == 0)
    mon.count('uninitialised_arrays_poisoned', env.poisoned[0])
    env.poisoned[0] = 0


def ridge(rng, mon, kind):
    """the classifiers on small boundary training sets"""
    from convst.classifiers import R_DST_Ridge, R_DST_Ensemble
    n = int(rng.integers(3, 9))
    k = int(rng.integers(2, min(n, 4) + 1))
    y = rng.permutation(np.concatenate([np.arange(k), rng.integers(0, k, size=n - k)]))
    X = gen.dataset(rng, kind, n, int(rng.integers(2, 4)), int(rng.integers(14, 24)), str(rng.choice(['normal', 'walk', 'sine'])))
    ens = rng.random() < 0.3 and kind in ('u', 'm')
    p = dict(shapelet_lengths=[int(rng.integers(2, 7))], random_state=int(rng.integers(0, 1 << 20)),
             phase_invariance=bool(rng.integers(0, 2)), n_jobs=int(rng.choice([1, 2])))
    mon.describe(scenario='classifier', kind=kind, ensemble=ens, n=n, classes=k, params=p)
    if ens:
        c = R_DST_Ensemble(n_shapelets_per_estimator=int(rng.integers(5, 30)), **p)
    else:
        c = R_DST_Ridge(n_shapelets=int(rng.integers(5, 40)), **p)
    c.fit(X, y)
    pr = np.asarray(c.predict(X))
    mon.check(pr.shape == (n,), 'prediction-shape', 'predictions of shape %s for %d series' % (pr.shape, n))
    mon.check(np.isin(pr, y).all(), 'unknown-label', 'a predicted label is not a training label', got=pr, labels=y)
    mon.ev(('classifier', ens, kind, n, k))
    mon.count('classifiers')

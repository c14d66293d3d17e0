"""History monitor: an estimator after a sequence of fits must equal a fresh one fitted on the last data only."""
import numpy as np
from vlib import env, gen, ref, work, nbrt, judge
from vlib.runner import Skip

ID = 'C13'
RULE = ('one evaluation = one refit compared with a fresh estimator on the same data; distinct = (estimator, previous '
        'kind, kind, length/channel/size change, which parameters are relative)')
BUDGET = {'quick': (420, 110), 'thorough': (14000, 780)}
CHUNK = 4


def prepare(tier):
    env.setup()


def data(rng, kind, lo, hi, fam, n_ft=None):
    n = int(rng.integers(6, 11))
    nft = n_ft or int(rng.integers(2, 5))
    T = int(rng.integers(lo, hi))
    if kind in ('u', 'm'):
        X = gen.dataset(rng, kind, n, nft, T, fam)
    else:
        c = 1 if kind == 'uv' else nft
        X = [np.stack([gen.series(rng, int(t), fam) for _ in range(c)]) for t in rng.integers(T, T + 9, size=n)]
    return X, rng.permutation(np.arange(n) % int(rng.integers(2, 4)))


def quiet(rng):
    nbrt.reset(entropy=int(rng.integers(0, 1 << 30)))


def user_params(m, names):
    out = {}
    for k in names:
        v = getattr(m, k)
        out[k] = np.array(v).tolist() if isinstance(v, (list, tuple, np.ndarray)) else v
    return out


def case(rng, tier, mon):
    est = ['rdst', 'rdst', 'ridge', 'rdst', 'ensemble', 'rdst'][mon.idx % 6]
    fam = str(rng.choice(['normal', 'walk', 'ints']))
    lo, hi = (8, 40) if est == 'rdst' else (16, 40)
    steps = int(rng.integers(2, 4)) if est != 'ensemble' else 2
    auto = rng.random() < 0.8
    k0 = str(rng.choice(gen.KINDS))
    kinds = [str(rng.choice(gen.KINDS)) if auto else k0 for _ in range(steps)]
    if rng.random() < 0.2:
        kinds = [kinds[0]] * steps
    style = str(rng.choice(['relative', 'bounds', 'relbounds', 'ints', 'toolong']))
    p = dict(phase_invariance=bool(rng.integers(0, 2)), random_state=int(rng.integers(0, 1 << 20)),
             prime_dilations=bool(rng.integers(0, 2)), normalize_output=bool(rng.integers(0, 2)),
             n_samples=[None, None, 0.7][int(rng.integers(0, 3))])
    if not auto:
        p['transform_type'] = gen.TYPE[k0]
    if style == 'relative':
        p['shapelet_lengths'] = [0.3, 0.5]
    elif style == 'relbounds':
        p['shapelet_lengths_bounds'] = [0.2, 0.7]
    elif style == 'bounds':
        p['shapelet_lengths_bounds'] = [3, 7]
    elif style == 'ints':
        p['shapelet_lengths'] = [3, 4]
    else:
        p['shapelet_lengths'] = [14, 5]      # longer than some of the series: halved for these only
        if est != 'rdst':
            p['shapelet_lengths'] = [30, 5]
    if rng.random() < 0.3:
        p['max_channels'] = int(rng.integers(1, 3))
    nshp = int(rng.choice([8, 16]))
    alpha = float(rng.choice([0.0, 0.5]))

    def make(jobs=1):
        q = dict(p, n_jobs=jobs, **{k: v for k, v in changed.items() if k not in p})
        q.update((k, v) for k, v in changed.items() if k in p)
        a_, n_ = q.pop('alpha', alpha), q.pop('n_shapelets', nshp)
        for k in ('shapelet_lengths', 'shapelet_lengths_bounds', 'percentiles'):
            if k in q:
                q[k] = list(q[k])
        if est == 'rdst':
            return work.new_model(dict(q, alpha=a_, n_shapelets=n_))
        if est == 'ridge':
            from convst.classifiers import R_DST_Ridge
            return R_DST_Ridge(alpha=a_, n_shapelets=n_, **q)
        from convst.classifiers import R_DST_Ensemble
        return R_DST_Ensemble(shp_alpha=a_, n_shapelets_per_estimator=n_, **q)

    def outcome(m, X):
        if est == 'rdst':
            return ref.snapshot(m), [m.transform(gen.copy_data(X))]
        if est == 'ridge':
            return ref.snapshot(m.transformer), [m.transformer.transform(X), np.asarray(m.predict(X))]
        return None, [np.asarray(m.model_weights, float), np.asarray(m.predict(X))]

    jobs = int(rng.choice([1, 2, 8]))
    changed = {}
    m = make(jobs)
    names = ['shapelet_lengths', 'shapelet_lengths_bounds', 'lengths_bounds_reduction', 'percentiles', 'n_samples',
             'phase_invariance', 'prime_dilations', 'normalize_output', 'random_state', 'min_len', 'max_channels',
             'n_jobs']
    names = [k for k in names if hasattr(m, k)]
    before = user_params(m, names)
    prev = None
    for step, kind in enumerate(kinds):
        X, y = data(rng, kind, lo, hi, fam)
        if step and rng.random() < 0.35:
            # parameters set between two fits count for the next one
            new = dict(random_state=int(rng.integers(0, 1 << 20)), phase_invariance=bool(rng.integers(0, 2)),
                       prime_dilations=bool(rng.integers(0, 2)), normalize_output=bool(rng.integers(0, 2)),
                       percentiles=[[5, 10], [40, 60]][int(rng.integers(0, 2))],
                       **({} if est == 'ensemble' else {'proba_norm': float(rng.choice([0.0, 1.0])),
                                                        'n_shapelets': int(rng.choice([8, 16, 12])), 'alpha': alpha}))
            if style in ('relative', 'ints'):
                new['shapelet_lengths'] = [[3], [0.4, 0.25], [4, 6]][int(rng.integers(0, 3))]
            new = {k: new[k] for k in new if rng.random() < 0.6}
            m.set_params(**{k: list(v) if isinstance(v, list) else v for k, v in new.items()})
            changed.update(new)
            before = user_params(m, names)
            mon.count('parameters_changed_between_fits', len(new))
        quiet(rng)
        try:
            m.fit(gen.copy_data(X), y.copy())
        except ValueError:
            # only legitimate when a fresh estimator refuses this data too
            try:
                make().fit(gen.copy_data(X), y.copy())
            except ValueError:
                mon.count('refused_by_both')
                continue
            mon.fail('refit-refused', 'refit number %d on %s data is refused, a fresh estimator accepts it' % (step, kind),
                     previous=kinds[:step], params=p)
        quiet(rng)
        f = make().fit(gen.copy_data(X), y.copy())
        a, b = outcome(m, X), outcome(f, X)
        where = dict(params=p, changed=changed, kinds=kinds[:step + 1], estimator=est)
        if a[0] is not None:
            mon.check(ref.same_shapelets(a[0], b[0]), est + '-shapelets', '%s fitted %d times differs from a fresh one: '
                      'lengths %s vs %s' % (est, step + 1, a[0][1][:6], b[0][1][:6]), **where)
        for u, v in zip(a[1], b[1]):
            mon.check(u.shape == v.shape and np.array_equal(u, v), est + '-output', '%s fitted %d times gives other output '
                      'than a fresh one' % (est, step + 1), got=u, fresh=v, **where)
        after = user_params(m, names)
        for k in names:
            mon.check(same(before[k], after[k]), est + '-parameter', 'fit changed the user parameter %s from %r to %r' % (
                k, before[k], after[k]), **where)
        if est == 'rdst':
            # derived from the new data alone
            q = dict(dict(p, n_shapelets=nshp), **changed)
            ml = min(gen.true_lengths(X))
            judge.legal(mon, q, ref.shapelets(m), ml, 1 if kind in ('u', 'uv') else X[0].shape[0], kind, tag='refit-')
        if step:
            mon.ev((est, prev, kind, style, min(gen.true_lengths(X)) > pl))
            mon.count('refits_judged')
            mon.count('kind_changed', prev != kind)
        prev, pl = kind, min(gen.true_lengths(X))
    mon.describe(estimator=est, kinds=kinds, params=p)


def same(a, b):
    return a == b or (a is None and b is None) or repr(a) == repr(b)

"""Monitor of the effect of every parameter, directly and through both classifiers."""
import numpy as np
from vlib import env, gen, ref, work, nbrt, judge
from vlib.runner import Skip

ID = 'C16'
RULE = ('one evaluation = one fitted transformer (alone or inside a classifier) judged against the parameters the user '
        'passed; distinct = (estimator, kind, focus, value of the focused parameter)')
BUDGET = {'quick': (480, 110), 'thorough': (9000, 780)}
CHUNK = 3
ASSUMPTIONS = ['inside a classifier the transformer is observed at its public fit and transform methods']
FOCUS = ['lengths', 'bounds', 'proba', 'percentiles', 'alpha0', 'alpha', 'phase', 'prime', 'channels', 'n_samples',
         'normalize', 'min_len', 'mix', 'n_shapelets', 'type', 'n_samples']


def prepare(tier):
    env.setup()


class Spy:
    """records public fit/transform calls of the transformer"""
    def __enter__(self):
        from convst.transformers import R_DST
        self.cls, self.fit, self.tr = R_DST, R_DST.fit, R_DST.transform
        self.members, self.outs = {}, []
        spy = self

        def fit(s, X, y, *a, **k):
            Xc = gen.copy_data(X)
            r = spy.fit(s, X, y, *a, **k)
            spy.members[id(s)] = (s, Xc, np.array(y))
            return r

        def tr(s, X, *a, **k):
            Xc = gen.copy_data(X)
            F = spy.tr(s, X, *a, **k)
            spy.outs.append((s, Xc, np.array(F)))
            return F
        R_DST.fit, R_DST.transform = fit, tr
        return self

    def __exit__(self, *a):
        self.cls.fit, self.cls.transform = self.fit, self.tr


def case(rng, tier, mon):
    # 80 cases meet every pair of estimator and focus
    est = ['ridge', 'ensemble', 'rdst', 'ensemble', 'ridge'][mon.idx % 5]
    focus = FOCUS[mon.idx % 16]
    kind = gen.KINDS[(mon.idx + mon.idx // 16) % 4]
    if focus == 'channels':
        kind = ['m', 'mv'][mon.idx // 16 % 2]
    if focus == 'min_len':
        kind = ['uv', 'mv'][mon.idx // 16 % 2]
    if focus == 'type':
        return explicit(rng, mon, est, kind)
    var = kind in ('uv', 'mv')
    n, k = int(rng.integers(8, 15)), int(rng.integers(2, 4))
    y = rng.permutation(np.arange(n) % k)
    T = int(rng.integers(16, 24)) if est != 'ensemble' else int(rng.integers(22, 30))
    nft = 1 if kind in ('u', 'uv') else int(rng.integers(2, 5))
    if var:
        X = [rng.normal(size=(nft, int(t))) for t in rng.integers(T, T + 7, size=n)]
        X[0] = X[0][:, :T]
    else:
        X = rng.normal(size=(n, nft, T))
    p = dict(shapelet_lengths=[int(rng.integers(3, 6))], alpha=0.0, n_shapelets=24, proba_norm=0.5, percentiles=[5, 10],
             phase_invariance=bool(rng.integers(0, 2)), prime_dilations=False, normalize_output=bool(rng.integers(0, 2)),
             random_state=int(rng.integers(0, 1 << 30)), n_jobs=int(rng.choice([1, 2, 8])))
    if focus in ('lengths', 'mix'):
        p['shapelet_lengths'] = [[3, 6], [7], [0.2, 0.3], [2]][int(rng.integers(0, 4))]
    if focus in ('bounds', 'mix') and (focus == 'bounds' or rng.random() < 0.5):
        p['shapelet_lengths_bounds'] = [[3, 9], [4, 10], [3, 12], [0.2, 0.4], [5, 5]][int(rng.integers(0, 5))]
        p['lengths_bounds_reduction'] = float(rng.choice([0.0, 0.3, 0.5, 0.8]))
        p['n_shapelets'] = 60 if focus == 'mix' else 120
    if focus == 'proba':
        p['n_shapelets'] = 150
        p['proba_norm'] = float(rng.choice([0.0, 1.0, 0.2, 0.5, 0.9]))
        if est == 'ensemble':
            p['proba_norm'] = [float(v) for v in rng.choice([0.0, 1.0, 0.1, 0.9], size=3)]
    if focus in ('percentiles', 'mix'):
        p['percentiles'] = [[50, 60], [0, 0], [95, 100], [20, 80], [0, 100], [2.5, 7.5]][int(rng.integers(0, 6))]
    if focus == 'alpha':
        p.update(alpha=float(rng.choice([0.3, 0.6, 1.0])), n_shapelets=200, shapelet_lengths=[5], proba_norm=1.0)
    if focus == 'alpha0':       # any similarity limit would exhaust the space
        p.update(n_shapelets=250, shapelet_lengths=[6])
    if focus in ('prime', 'mix'):
        p['prime_dilations'] = bool(rng.integers(0, 2)) or focus == 'prime'
    if focus == 'prime' and rng.random() < 0.5:
        p.update(prime_dilations=False, shapelet_lengths=[2], n_shapelets=200)
    elif focus == 'prime':
        p.update(shapelet_lengths=[2, 3], n_shapelets=100)
    if focus == 'phase':
        p.update(phase_invariance=bool(rng.integers(0, 2)), n_shapelets=100, shapelet_lengths=[6], proba_norm=0.0)
    if focus in ('channels', 'mix') and nft > 1:
        p['max_channels'] = int(rng.integers(1, nft + 1))
        p['n_shapelets'] = max(p['n_shapelets'], 60)
    if focus == 'n_samples':
        p['n_samples'] = float(rng.choice([0.3, 0.5, 0.75, 0.9, 0.6, 1.0]))
        while int(n * p['n_samples']) < k:
            p['n_samples'] = min(1.0, p['n_samples'] + 0.1)
        p.update(n_shapelets=150 if n * p['n_samples'] < 7 else 330, shapelet_lengths=[5], proba_norm=float(rng.choice([0.0, 1.0])))
    if focus == 'normalize':
        p['normalize_output'] = True
    if focus == 'min_len':
        p['min_len'] = int(rng.integers(8, T - 6 if est == 'ensemble' else T))
        p['n_shapelets'] = 80
        if rng.random() < 0.5:
            p['shapelet_lengths'] = [0.5]
    if focus == 'n_shapelets':
        p['n_shapelets'] = int(rng.choice([1, 2, 13, 50, 111]))
    # options of the classifiers that say nothing about shapelets
    if est != 'rdst' and rng.random() < 0.7:
        p['other'] = dict(a_w=float(rng.choice([0.1, 0.5, 1, 8])), class_weight=[None, 'balanced'][int(rng.integers(0, 2))],
                          fit_intercept=bool(rng.integers(0, 2)), alphas=[[0.5, 3.0], [1e-3, 1.0, 50.0]][int(rng.integers(0, 2))])
        p['other'] = {k: v for k, v in p['other'].items() if rng.random() < 0.7}
    mon.describe(estimator=est, kind=kind, focus=focus, n=n, T=T, channels=nft, params=p)
    nbrt.reset(entropy=int(rng.integers(0, 1 << 30)), order=str(rng.choice(['seq', 'rev', 'perm'])))
    with Spy() as spy:
        m = construct(est, p)
        m.fit(gen.copy_data(X), y.copy())
        if est == 'rdst':
            m.transform(gen.copy_data(X))
        else:
            m.predict(gen.copy_data(X))
    members = list(spy.members.values())
    want = 3 if est == 'ensemble' else 1
    mon.check(len(members) == want, 'members', '%d transformers were fitted, %d expected' % (len(members), want))
    unordered = []
    for r, V, yy in members:
        q = dict(p)
        V = [np.asarray(v, float) for v in V]
        if est == 'ensemble':
            which = view_index(X, V, var)
            mon.check(which is not None, 'view', 'a member is not fitted on the identity, derivative or periodogram view')
            unordered.append(which)
            if isinstance(p['proba_norm'], list):
                q['proba_norm'] = p['proba_norm'][which]
        if focus == 'mix' and rng.random() < .5 and est == 'ensemble':
            continue
        judge_member(rng, mon, est, kind, focus, q, r, V, yy, [o for o in spy.outs if o[0] is r])
    if est == 'ensemble':
        mon.check(sorted(unordered) == [0, 1, 2], 'view', 'members are fitted on views %s' % sorted(unordered))
    mon.count('focus_' + focus)
    mon.count('estimator_' + est)


def construct(est, p):
    q = dict(p)
    other = q.pop('other', {})
    for k in ('shapelet_lengths', 'shapelet_lengths_bounds', 'percentiles'):
        if q.get(k) is not None:
            q[k] = list(q[k])
    if est == 'rdst':
        return work.new_model(q)
    if est == 'ridge':
        from convst.classifiers import R_DST_Ridge
        return R_DST_Ridge(**q, **{('alphas_ridge' if k == 'alphas' else k): v for k, v in other.items() if k != 'a_w'})
    from convst.classifiers import R_DST_Ensemble
    q['shp_alpha'] = q.pop('alpha')
    q['n_shapelets_per_estimator'] = q.pop('n_shapelets')
    if not isinstance(q['proba_norm'], list):
        q['proba_norm'] = [q['proba_norm']] * 3
    other = {('alphas_ridge' if k == 'alphas' else k): v for k, v in other.items()}
    return R_DST_Ensemble(**q, **other)


def view_index(X, V, var):
    from scipy.signal import periodogram
    views = [lambda x: x, lambda x: np.diff(x), lambda x: np.stack([periodogram(c, detrend=False)[1] for c in x])]
    for i, f in enumerate(views):
        if all(np.shape(f(x)) == np.shape(v) and np.allclose(f(x), v, rtol=1e-9, atol=1e-12) for x, v in zip(X, V)):
            return i
    return None


def judge_member(rng, mon, est, kind, focus, p, r, V, y, outs):
    lens = [v.shape[1] for v in V]
    nft = V[0].shape[0]
    phase = p['phase_invariance']
    min_len = min(min(lens), p.get('min_len') or 10 ** 9)
    shp = ref.shapelets(r)
    L = ref.resolve_lengths(p, min_len)
    if L.min() < 2:
        raise Skip
    tag = est + '-'
    judge.aligned(mon, r, shp, tag=tag)
    judge.legal(mon, p, shp, min_len, nft, kind, lengths=L, tag=tag)
    full = p['alpha'] == 0 and judge.never_exhausted(p, lens, L)
    n = len(shp)
    if full:
        mon.check(n == p['n_shapelets'], tag + 'n_shapelets', '%d shapelets, %d requested' % (n, p['n_shapelets']), params=p)
    if focus == 'proba' or (focus != 'mix' and full and n >= 60):
        pn = p['proba_norm']
        o, e = sum(bool(s.norm) for s in shp), n * pn
        mon.check(abs(o - e) <= 6 * np.sqrt(n * pn * (1 - pn)) + 1e-9, tag + 'proba_norm',
                  '%d of %d shapelets are normalised, proba_norm=%s' % (o, n, pn))
    u = len(set(L))
    if full and u * (1 - 1 / u) ** n < 1e-9:
        mon.check(set(s.L for s in shp) == set(L.tolist()), tag + 'lengths', 'no shapelet of some allowed length: %s of %s'
                  % (sorted(set(s.L for s in shp)), sorted(set(L.tolist()))), params=p)
    if focus == 'channels' and nft > 1 and n >= 60:
        mx = p.get('max_channels') or nft
        mon.check(max(len(s.channels) for s in shp) == mx, tag + 'max_channels', 'no shapelet uses %d channels among %d' % (
            mx, n), params=p)
    if focus == 'prime' and not p['prime_dilations'] and n >= 150 and (min_len - 1) // (max(L) - 1) >= 8:
        pr = set(ref.primes_and_one(200))
        mon.check(any(s.d not in pr for s in shp), tag + 'prime_dilations', 'only prime dilations in %d shapelets '
                  'without prime_dilations' % n, params=p)
    # sampled on this data, with these rules
    srcs = judge.provenance(mon, V, shp, phase, tag=tag)
    sub = p.get('n_samples') is not None
    us = judge.thresholds(mon, p, V, y, shp, phase, srcs, tag=tag, subsampled=sub)
    a, b = p['percentiles']
    if len(us) >= 40 and b - a >= 30 and not sub:
        mon.check(max(us) - min(us) > 0.3, tag + 'percentiles', 'thresholds cover only %.2f..%.2f of the percentile range' % (
            min(us), max(us)), params=p)
    if p['alpha'] > 0:
        pairs, tight = judge.overlap(mon, p, V, shp, srcs, phase, tag=tag)
        mon.count('pairs_judged', pairs)
    if phase and focus == 'phase':
        wrap = sum(1 for s in shp for q in srcs[s.i][:1] if len(srcs[s.i]) == 1 and q[1] + (s.L - 1) * s.d >= lens[q[0]])
        mon.check(wrap > 0 or n < 60, tag + 'phase', 'none of %d shapelets wraps around with phase invariance' % n, params=p)
        mon.count('wrapping_shapelets', wrap)
    if sub:
        subsample(mon, tag, p, shp, srcs, y, len(V))
    # output
    mon.check(len(outs) > 0, tag + 'outputs', 'no transform of the fitted member was observed')
    for _, Z, F in outs[-1:]:
        Z = [np.asarray(z, float) for z in Z]
        sc = [z.shape[1] if p['normalize_output'] else 1.0 for z in Z]
        keep = sorted(rng.permutation(len(Z))[:4])
        some = sorted(rng.permutation(len(shp))[:20])
        mon.check(F.shape == (len(Z), 3 * len(shp)), tag + 'shape', 'features of shape %s' % (F.shape,))
        for i in keep:
            for j in some:
                s = shp[j]
                ref.judge_features(mon, Z[i], s, phase, F[i, 3 * s.i:3 * s.i + 3], tag, scale=sc[i])
    val = {'lengths': str(p['shapelet_lengths']), 'bounds': str(p.get('shapelet_lengths_bounds')), 'proba': p['proba_norm'],
           'percentiles': str(p['percentiles']), 'alpha': p['alpha'], 'phase': phase, 'prime': p['prime_dilations'],
           'channels': p.get('max_channels'), 'n_samples': p.get('n_samples'), 'min_len': p.get('min_len'),
           'n_shapelets': p['n_shapelets']}.get(focus, 0)
    mon.ev((est, kind, focus, val))
    mon.count('shapelets', n)


def subsample(mon, tag, p, shp, srcs, y, n):
    share = p['n_samples']
    want = int(n * share)
    used = sorted(set(srcs[s.i][0][0] for s in shp if len(set(q[0] for q in srcs[s.i])) == 1))
    mon.check(len(used) <= want, tag + 'n_samples', 'shapelets come from %d of %d series, n_samples=%s' % (len(used), n, share),
              series=used)
    for c in np.unique(y):
        m, tot = sum(y[i] == c for i in used), int((y == c).sum())
        mon.check(m <= np.ceil(tot * want / n) + 1e-9, tag + 'n_samples-class', '%d of %d series of class %s used, n_samples=%s'
                  % (m, tot, c, share), series=used, labels=y)
    if want * (1 - 1 / want) ** len(shp) < 1e-9:
        mon.check(len(used) == want, tag + 'n_samples-few', 'shapelets come from only %d series, %d requested' % (len(used), want),
                  series=used)
    mon.count('subsampled_models')


def explicit(rng, mon, est, kind):
    """an explicitly named kind reaches the transformer: a wrong name is refused, a right one is used"""
    var = kind in ('uv', 'mv')
    n, T = 8, int(rng.integers(18, 24))
    nft = 1 if kind in ('u', 'uv') else 2
    X = [rng.normal(size=(nft, int(t))) for t in rng.integers(T, T + 4, size=n)] if var else rng.normal(size=(n, nft, T))
    y = np.arange(n) % 2
    p = dict(shapelet_lengths=[4], n_shapelets=10, alpha=0.0, proba_norm=0.5, random_state=3)
    for name in ('nonsense', 'univariate_', 'multi-variate'):
        try:
            construct(est, dict(p, transform_type=name)).fit(X, y)
        except ValueError:
            mon.ev((est, 'type', name))
            mon.count('refused_types')
            continue
        mon.fail(est + '-transform_type', 'the unknown kind %r is accepted by %s' % (name, est))
    m = construct(est, dict(p, transform_type=gen.TYPE[kind]))
    m.fit(X, y)
    m2 = construct(est, dict(p))
    m2.fit(X, y)
    if est == 'rdst':
        mon.check(ref.same_shapelets(ref.snapshot(m), ref.snapshot(m2)), 'rdst-transform_type', 'naming the kind changes the model')
    elif est == 'ridge':
        mon.check(ref.same_shapelets(ref.snapshot(m.transformer), ref.snapshot(m2.transformer)), 'ridge-transform_type',
                  'naming the kind changes the model')
    mon.ev((est, 'type', kind))
    mon.describe(estimator=est, kind=kind, focus='type')
